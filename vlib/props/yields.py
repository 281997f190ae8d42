"""Clique and biclique yields: completeness, agreement, promised sizes, symmetry."""
import networkx as nx
import dwave.graphs as dg
from vlib import dwgraphs


def setup(spec):
    pass


def ln(e):
    return max(map(len, e.values())) if e else 0


def autos(fam, par, rng):
    """A map of coordinates meant to be an automorphism (its caller verifies that), and the image's parameters."""
    if fam == "chimera":
        m, n, t = par
        P = {(u, x): rng.sample(range(t), t) for u in (0, 1) for x in range(max(m, n))}
        fi, fj, tr = rng.random() < .5, rng.random() < .5, rng.random() < .5

        def f(q):
            i, j, u, k = q
            k = P[u, j if u == 0 else i][k]
            i, j = m - 1 - i if fi else i, n - 1 - j if fj else j
            return (j, i, 1 - u, k) if tr else (i, j, u, k)
        return f, (n, m, t) if tr else par
    if fam == "zephyr":
        m, t = par
        P = {(u, w): rng.sample(range(t), t) for u in (0, 1) for w in range(2 * m + 1)}
        tr, r = rng.random() < .5, (rng.random() < .5, rng.random() < .5)

        def f(q):
            u, w, k, j, z = q
            k = P[u, w][k]
            if r[u]:
                w = 2 * m - w
            if r[1 - u]:
                j, z = 1 - j, m - 1 - z
            return (1 - u if tr else u, w, k, j, z)
        return f, par
    m = par[0]
    S = {(u, w, k): rng.random() < .5 for u in (0, 1) for w in range(m) for k in range(6)}
    rot, tr = rng.random() < .5, rng.random() < .2

    def f(q):
        u, w, k, z = q
        k ^= S[u, w, k // 2]
        if rot:
            w, k, z = m - 1 - w, 11 - k, m - 2 - z
        return (1 - u if tr else u, w, k, z)
    return f, par


def build(fam, p):
    return {"chimera": dg.chimera_graph, "zephyr": dg.zephyr_graph, "pegasus": dg.pegasus_graph}[fam](*p, coordinates=True)


def run(i, rng, spec):
    if i < len(PERFECT):
        return perfect(*PERFECT[i])
    return (symmetric if i % 3 == 2 else faulty)(rng, spec)


# (family, parameters): every one is checked for every clique size
PERFECT = ([("chimera", (m, n, t)) for m in range(1, 6) for n in (m, m + 1, 3) for t in (1, 2, 3, 4)] +
           [("chimera", p) for p in ((8, 8, 4), (10, 2, 4), (2, 9, 6), (3, 3, 8), (6, 6, 5), (1, 7, 4), (12, 12, 2), (16, 16, 4))] +
           [("pegasus", (m,)) for m in (2, 3, 4, 5, 6, 8)] +
           [("zephyr", (m, t)) for m in (1, 2, 3, 4) for t in (1, 2, 3, 4)] + [("zephyr", p) for p in ((5, 4), (6, 3), (8, 2), (15, 1))])


def promised(fam, p):
    """(size of the largest clique, its chain length, side of the largest balanced biclique)"""
    if fam == "chimera":
        m, n, t = p
        w = min(m, n)
        return (t * w, w + 1 if w > 1 or t > 2 else None, t * w) if t * w > 2 else (2, 1, t * w)
    if fam == "pegasus":
        m = p[0]
        return (12 * (m - 1), m + 1, 12 * m - 20) if m > 2 else (10, 2, 6)
    m, t = p
    return (t * (4 * m - 2), m + 1, t * (4 * m - 2)) if m > 1 else (max(4, 2 * t), None, None)


def perfect(fam, p):
    from minorminer.busclique import busgraph_cache, find_clique_embedding
    g = build(fam, p)
    V, st = [], {"perfect": 1, "sizes_checked": 0}
    b = busgraph_cache(g)
    L, CL, BL = promised(fam, p)

    def bad(key, msg):
        V.append({"key": key, "msg": "perfect %s %r: %s" % (fam, p, msg)})
    big = b.largest_clique()
    if len(big) < L:
        bad("perfect-size", "the largest clique found has %d nodes instead of %d" % (len(big), L))
    if CL and ln(b.find_clique_embedding(L)) > CL:
        bad("perfect-length", "K_%d comes with chains of %d instead of %d" % (L, ln(b.find_clique_embedding(L)), CL))
    bi = b.largest_balanced_biclique()
    if BL and len(bi) < 2 * BL:
        bad("perfect-biclique", "the largest balanced biclique found has %d instead of %d nodes" % (len(bi), 2 * BL))
    bad_len = agree(b, g, bad, st)
    # chains of the known constructions for smaller sizes
    for n in range(1, L + 1):
        k = known_length(fam, p, n)
        if k and bad_len[n] > k:
            bad("perfect-length", "K_%d comes with chains of %d instead of %d" % (n, bad_len[n], k))
    e = find_clique_embedding(L, g, use_cache=False)
    if len(e) != L or CL and L < 40 and ln(e) > CL:
        bad("perfect-oneshot", "one-shot K_%d has %d chains of up to %d" % (L, len(e), ln(e)))
    return {"violations": V, "stats": st, "evals": st["sizes_checked"], "sig": "perfect %s %r %r" % (fam, p, bad_len),
            "case": {"graph": [fam, p], "lengths": bad_len}}


def known_length(fam, p, n):
    """Chain length that a sub-lattice of the same family promises for K_n."""
    if fam == "chimera":
        m, nn, t = p
        if n <= 2:
            return 1
        if n <= t:
            return 2
        return -(-n // t) + 1
    if fam == "pegasus":
        if n <= 4:
            return 1
        if n <= 10:
            return 2
        return -(-n // 12) + 2 if p[0] > 2 else None
    m, t = p
    if n <= 2:
        return 1
    if m == 1:
        return None
    for w in range(2, m + 1):
        if n <= t * (4 * w - 2):
            return w + 1


def agree(b, g, bad, st):
    """Sizes and chain lengths of every clique; largest_clique, by_chainlength and find agree."""
    L = len(b.largest_clique())
    E = [b.find_clique_embedding(n) for n in range(L + 3)]
    lens = list(map(ln, E))
    st["sizes_checked"] += L
    for n in range(1, L + 1):
        if len(E[n]) != n:
            bad("gap", "K_%d is not found although K_%d is" % (n, L))
            return lens
        if lens[n - 1] > lens[n]:
            bad("shorter-larger", "K_%d has chains of %d but K_%d of %d" % (n - 1, lens[n - 1], n, lens[n]))
    for n in (L + 1, L + 2):
        if E[n]:
            bad("beyond", "K_%d is found although the largest clique has %d nodes" % (n, L))
    if L and ln(b.largest_clique()) != lens[L]:
        bad("largest-length", "largest_clique has chains of %d but find_clique_embedding(%d) of %d" % (ln(b.largest_clique()), L, lens[L]))
    for k in list(range(0, lens[L] + 3)):
        w = len(b.largest_clique_by_chainlength(k))
        x = max([n for n in range(1, L + 1) if lens[n] <= k] or [0]) if k else 0
        if w != x:
            bad("by-chainlength", "largest_clique_by_chainlength(%d) has %d nodes but find_clique_embedding gives %d with such chains" % (k, w, x))
    return lens


def bicliques(b, rng, bad, st):
    L = len(b.largest_balanced_biclique())
    if L % 2:
        bad("unbalanced", "the largest balanced biclique has %d nodes" % L)
    h = L // 2
    M = {}
    for n in range(1, min(h + 2, 9)):
        for m in set(list(range(1, min(2 * h + 2, 10))) + [h, h + 1]):
            if m:
                M[n, m] = ln(dictof(b.find_biclique_embedding(n, m)))
    if h and not ln(dictof(b.find_biclique_embedding(h, h))):
        bad("bi-gap", "K_{%d,%d} is not found although it is the largest balanced biclique" % (h, h))
    if ln(dictof(b.find_biclique_embedding(h + 1, h + 1))):
        bad("bi-beyond", "K_{%d,%d} is found although the largest balanced biclique is smaller" % (h + 1, h + 1))
    for (n, m), l in M.items():
        if not l:
            continue
        st["biclique_sizes"] = st.get("biclique_sizes", 0) + 1
        for q in ((n - 1, m), (n, m - 1)):
            if q in M:
                if not M[q]:
                    bad("bi-gap", "K_{%d,%d} is not found although K_{%d,%d} is" % (q + (n, m)))
                elif M[q] > l:
                    bad("bi-shorter-larger", "K_{%d,%d} has chains of %d but K_{%d,%d} of %d" % (q + (M[q], n, m, l)))


def dictof(e):
    return dict(list(e[0].items()) + [(("r", k), v) for k, v in e[1].items()]) if isinstance(e, tuple) else e


def faulty(rng, spec):
    from minorminer.busclique import busgraph_cache, find_clique_embedding
    while True:
        desc, g = dwgraphs.random_graph(rng, .8)
        if desc[1][-1] != "torus" and len(g):
            break
    V, st = [], {"faulty": 1, "sizes_checked": 0, "families": [desc[0]]}

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s nodes=%r edges=%r" % (msg, desc, sorted(g.nodes), sorted(map(sorted, g.edges)))})
    seed = rng.choice([0, 0, 5, rng.getrandbits(32)])
    b = busgraph_cache(g, seed=seed)
    if rng.random() < .5:
        bicliques(b, rng, bad, st)
    lens = agree(b, g, bad, st)
    L = len(b.largest_clique())
    own = max([n for n in range(L + 1) if lens[n] <= 1])
    cn = max(map(len, nx.find_cliques(g)))
    if own != cn:
        bad("graph-clique", "the graph has a clique of %d nodes but chains of one qubit stop at %d" % (cn, own))
    for n in {1, 2, rng.randint(1, L), L, L + 1}:
        if bool(find_clique_embedding(n, g, seed=seed, use_cache=False)) != (n <= L):
            bad("oneshot", "a one-shot search for K_%d and a cache with a largest clique of %d disagree (seed %d)" % (n, L, seed))
    return {"violations": V, "stats": st, "evals": L + 1, "sig": "%r %r" % (desc, lens), "case": {"graph": desc, "lengths": lens}}


def symmetric(rng, spec):
    """Only nodes are missing, so the search is exact: symmetric lattices have equal yields,
    and qubits an embedding does not use are not missed."""
    from minorminer.busclique import busgraph_cache
    fam = rng.choice(["chimera", "zephyr", "pegasus"])
    p = {"chimera": (rng.randint(1, 6), rng.randint(1, 6), rng.choice([1, 2, 3, 4, 4, 5, 7, 8])),
         "zephyr": (rng.randint(1, 3), rng.choice([1, 2, 3, 4])), "pegasus": (rng.choice([2, 3, 3, 4]),)}[fam]
    full = build(fam, p)
    pr = rng.choice([0, .02, .05, .1, .3, .6])
    g = full.copy()
    g.remove_nodes_from([v for v in full if rng.random() < pr])
    if not len(g):
        g = full
    V, st = [], {"symmetric": 0, "sizes_checked": 0, "families": [fam]}

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s %r missing %r" % (msg, fam, p, sorted(set(full) - set(g)))})
    b1 = busgraph_cache(g)
    A = agree(b1, g, bad, st)
    L = len(b1.largest_clique())
    f, p2 = autos(fam, p, rng)
    img = build(fam, p2)
    fm = {v: f(v) for v in full}
    if set(fm.values()) == set(img) and len(img.edges) == len(full.edges) and all(img.has_edge(fm[a], fm[c]) for a, c in full.edges):
        st["symmetric"] = 1
        h = img.copy()
        h.remove_nodes_from(set(img) - {fm[v] for v in g})
        b2 = busgraph_cache(h)
        C = [ln(b2.find_clique_embedding(n)) for n in range(L + 2)]
        # zephyr and pegasus bicliques: only sizes are exact, chain lengths depend on ties
        if (A[:L + 2] != C if fam != "zephyr" else list(map(bool, A[:L + 2])) != list(map(bool, C))):
            bad("symmetry", "chain lengths %r become %r in a symmetric lattice" % (A, C))
        n1, n2 = len(b1.largest_balanced_biclique()), len(b2.largest_balanced_biclique())
        if n1 != n2:
            bad("symmetry-biclique", "the largest balanced biclique changes from %d to %d nodes in a symmetric lattice" % (n1, n2))
    n = rng.randint(1, L)
    e = b1.find_clique_embedding(n)
    q = rng.random()

    def without(e):
        keep = set().union(*map(set, e.values()))
        h = g.copy()
        h.remove_nodes_from([v for v in g if v not in keep and rng.random() < q])
        return h
    h = without(e)
    b3 = busgraph_cache(h)
    l = ln(b3.find_clique_embedding(n))
    if not l or fam != "zephyr" and l != A[n]:
        bad("unused", "K_%d with chains of %d becomes %d after losing qubits it does not use: %r" % (n, A[n], l, sorted(set(g) - set(h))))
    if len(b3.largest_clique()) > L:
        bad("grew", "losing qubits lets the largest clique grow from %d to %d: %r" % (L, len(b3.largest_clique()), sorted(set(g) - set(h))))
    x, y = rng.randint(1, 6), rng.randint(1, 8)
    e = dictof(b1.find_biclique_embedding(x, y))
    if e:
        h = without(e)
        if not dictof(busgraph_cache(h).find_biclique_embedding(x, y)):
            bad("unused-biclique", "K_{%d,%d} is lost after losing qubits it does not use: %r" % (x, y, sorted(set(g) - set(h))))
    return {"violations": V, "stats": st, "evals": L + 4, "sig": "%s %r %r" % (fam, p, A), "case": {"graph": [fam, p, len(g)], "lengths": A}}
