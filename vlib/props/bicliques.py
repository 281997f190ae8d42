"""Biclique embeddings on random faulty lattices."""
from vlib import dwgraphs, oracle
from vlib.props.cliques import length


def setup(spec):
    pass


def run(i, rng, spec):
    try:
        return case(i, rng, spec)
    except ValueError as e:
        if "not in its topology" in str(e):
            return {"stats": {"refused_torus": 1}, "evals": 1}
        raise


def case(i, rng, spec):
    from minorminer import busclique
    desc, g = dwgraphs.random_graph(rng, spec["extra"].get("big", 1.0), vast=spec["extra"].get("vast", .015), slow="big" not in spec["extra"])
    tadj = dwgraphs.adj(g)
    V, st = [], {"families": [desc[0]], "faults": [desc[2]], "max_nodes": len(g), "embeddings": 0, "asked": 0, "unbalanced": 0, "independent": 0}
    sizes = []

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s nodes=%r edges=%r" % (msg, desc, sorted(g.nodes), sorted(map(sorted, g.edges)))})

    def judge(e, A, B, what):
        st["asked"] += 1
        if not isinstance(e, dict):
            return bad("type", "%s returned %r" % (what, type(e)))
        if not e:
            return
        st["embeddings"] += 1
        if set(e) != set(A) | set(B):
            return bad("labels", "%s returned labels %r" % (what, sorted(map(repr, e))))
        sadj = {v: set(B) for v in A}
        sadj.update({v: set(A) for v in B})
        try:
            e = {k: list(c) for k, c in e.items()}
        except TypeError:
            return bad("chain-type", "%s: chains are not collections: %r" % (what, e))
        f = oracle.embedding_faults(e, sadj, tadj)
        if f:
            bad("invalid-" + f[0][0], "%s: %r: %r" % (what, f, e))

    bgc = busclique.busgraph_cache(g, seed=rng.getrandbits(32) if rng.random() < .3 else 0)
    big = bgc.largest_balanced_biclique()
    if len(big) % 2:
        bad("odd", "largest_balanced_biclique has %d chains" % len(big))
    half = len(big) // 2
    judge(big, range(half), range(half, 2 * half), "largest_balanced_biclique")
    # with couplers missing the construction may give up either end of every one of them
    if half == 0 and desc[0] == "chimera" and desc[2] in ("none", "region") and desc[1][-1] != "torus" and any(crosses(desc, e) for e in g.edges):
        bad("none", "a K_1,1 exists but largest_balanced_biclique is empty")
    found, lost = [], []
    for k in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .35:
            n, m = rng.randint(0, half + 1), rng.randint(0, half + 1)
        elif r < .7:
            n, m = rng.randint(0, 3), rng.randint(0, 3 * half + 2)
        elif r < .8:
            n, m = 0, rng.choice([0, 1, len(g) - 1, len(g), len(g) + 1, rng.randint(0, len(g) + 1)])
            m = max(0, m)
        else:
            n, m = rng.randint(0, half + 3), rng.randint(0, 2 * half + 3)
        if rng.random() < .5:
            n, m = m, n
        if rng.random() < .7:
            a, A = n, list(range(n))
        else:
            A = ["a%d" % x for x in range(n)]
            a = rng.choice([list, tuple, iter])(A)
        if rng.random() < .7:
            b, B = m, list(range(n, n + m))
        else:
            B = ["b%d" % x for x in range(m)]
            b = rng.choice([list, tuple, iter])(B)
        what = "find_biclique_embedding(%d, %d)" % (n, m)
        e = bgc.find_biclique_embedding(a, b)
        judge(e, A, B, what)
        ok = bool(e) or n + m == 0
        if n and m and n != m:
            st["unbalanced"] += 1
        if not (n and m):
            st["independent"] += 1
            if not ok and n + m <= len(g):
                bad("independent", "%s: the graph has %d nodes but no answer came" % (what, len(g)))
        if not ok and n <= half and m <= half:
            bad("contained", "%s is empty although a balanced biclique of %d is known" % (what, half))
        e2 = bgc.find_biclique_embedding(["B%d" % x for x in range(m)], ["A%d" % x for x in range(n)])
        if bool(e2) != bool(e):
            bad("asymmetric", "%s: %s, swapped: %s" % (what, len(e), len(e2)))
        if e and e2 and length(e2) != length(e):
            bad("asymmetric-length", "%s: chain length %d, swapped: %d" % (what, length(e), length(e2)))
        (found if ok else lost).append((n, m))
        sizes.append((n, m, len(e), length(e) if e and "chain-type" not in [v["key"] for v in V] else 0))
    for n, m in found:
        for a, b in lost:
            if min(a, b) <= min(n, m) and max(a, b) <= max(n, m):
                bad("monotone", "K_%d,%d was found, but the smaller K_%d,%d was not" % (n, m, a, b))
    return {"violations": V, "stats": st, "evals": st["asked"], "sig": str((desc, sizes, half)) if st["embeddings"] else None,
            "case": {"graph": desc, "largest": half, "sizes": sizes}}


def crosses(desc, e):
    """a coupler inside a Chimera cell, in either labelling"""
    (m, n, t) = desc[1][:3] if len(desc[1]) == 4 else (desc[1][0], desc[1][0], 4)
    def coord(q):
        return q if isinstance(q, tuple) else (q // (2 * t * n), q // (2 * t) % n, q // t % 2, q % t)
    a, b = coord(e[0]), coord(e[1])
    return a[:2] == b[:2]
