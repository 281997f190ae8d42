"""Feasibility filters against problems that are feasible by construction."""
import itertools
import networkx as nx
import dwave.graphs as dg
from vlib import dwgraphs

ATLAS = None


def setup(spec):
    pass


def run(i, rng, spec):
    f = [major, subgraph, saturated, steps, lattice, lattice, anysource, arguments][i % 8]
    return f(rng)


def relabel(rng, g):
    nodes = list(g)
    new = list(range(len(nodes)))
    rng.shuffle(new)
    k = rng.choice([lambda v: v, lambda v: "s%d" % v, lambda v: (v, -v)])
    h = nx.Graph()
    order = list(zip(nodes, map(k, new)))
    rng.shuffle(order)
    m = dict(order)
    h.add_nodes_from(m[v] for v, _ in order)
    h.add_edges_from((m[a], m[b]) for a, b in g.edges if a != b)
    return h


def contract(rng, T, keep=None):
    """A minor of T: some disjoint connected sets of nodes, with some of the edges between them. Never less than it is."""
    free = set(T)
    chains = []
    p = rng.choice([0, .1, .3, .7])
    order = list(T)
    rng.shuffle(order)
    for v in order:
        if v in free:
            c = {v}
            free.discard(v)
            while rng.random() < p:
                nb = [u for x in c for u in T[x] if u in free]
                if not nb:
                    break
                u = rng.choice(nb)
                c.add(u)
                free.discard(u)
            chains.append(c)
    drop, cut = rng.choice([(0, 0), (0, 0), (.1, 0), (0, .1), (.3, .3), (.8, .1)])
    chains = [c for c in chains if rng.random() >= drop]
    where = {v: j for j, c in enumerate(chains) for v in c}
    S = nx.Graph()
    S.add_nodes_from(range(len(chains)))
    S.add_edges_from((where[a], where[b]) for a, b in T.edges if a in where and b in where and where[a] != where[b])
    S.remove_edges_from([e for e in list(S.edges) if rng.random() < cut])
    return S, max(map(len, chains), default=1)


def part(rng, T):
    S = T.copy()
    S.graph.clear()
    a, b = rng.choice([(0, 0), (.05, 0), (0, .05), (.4, .2), (0, .6)])
    S.remove_nodes_from([v for v in list(S) if rng.random() < a])
    S.remove_edges_from([e for e in list(S.edges) if rng.random() < b])
    return S


def sometarget(rng):
    k = rng.choice(["gnp", "gnp", "regular", "tree", "lattice", "grid", "power", "clique", "stars"])
    n = rng.randint(1, 40) if rng.random() < .99 else rng.randint(100, 600)
    if k == "lattice":
        return k, dwgraphs.random_graph(rng, .4)[1]
    return k, {"gnp": lambda: nx.gnp_random_graph(n, rng.choice([.02, .1, .3, .8] if n < 60 else [.005, .02]), seed=rng.getrandbits(30)),
               "regular": lambda: nx.random_regular_graph(rng.choice([2, 3, 4]), 2 * n + 6, seed=rng.getrandbits(30)),
               "tree": lambda: nx.random_labeled_tree(n, seed=rng.getrandbits(30)), "grid": lambda: nx.grid_2d_graph(rng.randint(1, 6), rng.randint(1, 6)),
               "power": lambda: nx.barabasi_albert_graph(n + 3, 2, seed=rng.getrandbits(30)), "clique": lambda: nx.complete_graph(min(n, 14)),
               "stars": lambda: nx.disjoint_union_all([nx.star_graph(rng.randint(0, 9)) for _ in range(rng.randint(1, 6))])}[k]()


def judge(S, T, one, desc, st):
    from minorminer.utils.feasibility import embedding_feasibility_filter as eff
    V = []
    r = eff(S, T, one_to_one=one) if one else eff(S, T)
    if not r:
        V.append({"key": "rejected" + ("-one-to-one" if one else ""), "msg": "%r for an embeddable problem (%s)\nS %r %r\nT %r %r" % (r, desc, list(S), list(S.edges), list(T), list(T.edges)[:400])})
    st["filter_calls"] = st.get("filter_calls", 0) + 1
    return V


def major(rng):
    k, T = sometarget(rng)
    S, longest = contract(rng, T)
    S = relabel(rng, S)
    st = {"targets": [k], "contracted": int(longest > 1)}
    V = judge(S, T, False, "minor", st)
    return {"violations": V, "stats": st, "evals": 1, "sig": repr((sorted(d for _, d in S.degree), sorted(d for _, d in T.degree)))[:600] if S.size() else None, "case": {"minor of": k, "S": len(S), "T": len(T)}}


def subgraph(rng):
    k, T = sometarget(rng)
    S = relabel(rng, part(rng, T))
    st = {"targets": [k]}
    V = judge(S, T, True, "subgraph", st) + judge(S, T, False, "subgraph", st)
    return {"violations": V, "stats": st, "evals": 2, "sig": repr((sorted(d for _, d in S.degree), sorted(d for _, d in T.degree)))[:600] if S.size() else None, "case": {"subgraph of": k, "S": len(S), "T": len(T)}}


def saturated(rng):
    """T is S with nodes grown into trees that waste as little as possible."""
    n = rng.randint(2, 14)
    S = rng.choice([lambda: nx.gnp_random_graph(n, rng.random(), seed=rng.getrandbits(30)), lambda: nx.complete_graph(n), lambda: nx.star_graph(n), lambda: nx.wheel_graph(n + 2)])()
    T, half = nx.Graph(), {}
    for v in S:
        D = rng.choice([3, 3, 4, 4, 5, 7, 30])
        todo = list(S[v])
        rng.shuffle(todo)
        root = (v, 0)
        T.add_node(root)
        room = {root: D}
        while sum(room.values()) < len(todo):
            D2 = rng.choice([D, D, 3, 4, 6])
            a = rng.choice([x for x in room if room[x] > 0])
            b = (v, len(room))
            T.add_edge(a, b)
            room[a] -= 1
            room[b] = D2 - 1
        slots = [x for x, r in room.items() for _ in range(r)]
        rng.shuffle(slots)
        for u, x in zip(todo, slots):
            half[v, u] = x
    T.add_edges_from((half[a, b], half[b, a]) for a, b in S.edges)
    for _ in range(rng.choice([0, 0, 1, 3])):
        # waste
        a = rng.choice(list(T))
        T.add_edge(a, ("x", len(T)))
    st = {"targets": ["saturated"], "contracted": int(len(T) > len(S))}
    V = judge(relabel(rng, S), T, False, "saturated trees", st)
    return {"violations": V, "stats": st, "evals": 1, "sig": repr((sorted(d for _, d in S.degree), sorted(d for _, d in T.degree)))[:600], "case": {"saturated": len(S), "T": len(T)}}


def steps(rng):
    """Minors one step at a time, from a small graph down to nothing."""
    global ATLAS
    if ATLAS is None:
        ATLAS = nx.graph_atlas_g()
    k = rng.choice(["atlas", "atlas", "gnp", "regular"])
    n = rng.randint(4, 14)
    T = {"atlas": lambda: rng.choice(ATLAS), "gnp": lambda: nx.gnp_random_graph(n, rng.random(), seed=rng.getrandbits(30)), "regular": lambda: nx.random_regular_graph(3, 2 * (n // 2) + 4, seed=rng.getrandbits(30))}[k]()
    S = nx.Graph(T)
    V, st, calls = [], {"targets": [k]}, 0
    one = True
    while len(S) and not V:
        m = rng.choice(["contract", "contract", "contract", "edge", "node"])
        if m == "node" or not S.size():
            S.remove_node(rng.choice(list(S)))
        elif m == "edge":
            S.remove_edge(*rng.choice(list(S.edges)))
        else:
            one = False
            a, b = rng.choice(list(S.edges))
            S.add_edges_from((a, c) for c in list(S[b]) if c != a)
            S.remove_node(b)
        V += judge(S, T, False, "after %s" % m, st)
        calls += 1
        if one:
            V += judge(S, T, True, "after %s" % m, st)
            calls += 1
    return {"violations": V, "stats": st, "evals": calls, "sig": repr(sorted(T.edges))[:500], "case": {"steps": k, "T": len(T)}}


def perfect(topology, m, t):
    return {"chimera": lambda: dg.chimera_graph(m, t=t), "pegasus": lambda: dg.pegasus_graph(m), "zephyr": lambda: dg.zephyr_graph(m, t)}[topology]()


def someparams(rng, top=4):
    topology = rng.choice(["chimera", "pegasus", "zephyr"])
    return topology, rng.randint(2 if topology == "pegasus" else 1, {"chimera": 5, "pegasus": 4, "zephyr": 3}[topology]), {"chimera": rng.choice([4, 4, 1, 2, 3, 6]), "pegasus": None, "zephyr": rng.choice([4, 4, 1, 2, 3])}[topology]


def bound(S, **kw):
    from minorminer.utils.feasibility import lattice_size_lower_bound as f
    return f(S, **kw)


def lattice(rng):
    topology, m, t = someparams(rng)
    L = perfect(topology, m, t)
    V, st = [], {"topologies": [topology], "bounds": 0}
    one = rng.random() < .5
    S0 = part(rng, L) if one else contract(rng, L)[0]
    S = relabel(rng, S0)
    big = m + rng.choice([0, 0, 1, 2])
    calls = [{"T": perfect(topology, big, t)}, {"topology": topology, **({"t": t} if t else {})}]
    if one and big == m:
        # a faulty lattice which still has S
        F = L.copy()
        F.remove_nodes_from([v for v in list(F) if v not in S0])
        F.remove_edges_from([e for e in list(F.edges) if not S0.has_edge(*e) and rng.random() < .5])
        calls.append({"T": F})
        calls.append({"T": F, "topology": topology, **({"t": t} if t else {})})
    if t == 4:
        calls.append({"topology": topology})
    for kw in calls:
        if one or rng.random() < .3:
            kw["one_to_one"] = one
        r = bound(S, **kw)
        st["bounds"] += 1
        st["tight"] = st.get("tight", 0) + (r == m)
        if r is None or not r <= m:
            V.append({"key": "bound", "msg": "%r for a problem that fits %s m=%r t=%r (%r)\nS %r %r" % (r, topology, m, t, {a: b if a != "T" else (len(b), b.size()) for a, b in kw.items()}, list(S), list(S.edges))})
            break
    return {"violations": V, "stats": st, "evals": len(calls), "sig": repr((topology, m, t, one, sorted(S.edges)[:60])), "case": {"lattice": [topology, m, t], "S": len(S), "one_to_one": one}}


def anysource(rng):
    """Every graph of n nodes fits where a clique of n nodes does."""
    topology = rng.choice(["chimera", "pegasus", "zephyr"])
    t = {"chimera": rng.choice([4, 4, 1, 2, 3, 5]), "pegasus": None, "zephyr": rng.choice([4, 4, 1, 2, 3])}[topology]
    n = rng.randint(0, 30)
    S = rng.choice([lambda: nx.gnp_random_graph(n, rng.random(), seed=rng.getrandbits(30)), lambda: nx.complete_graph(n), lambda: nx.cycle_graph(n), lambda: nx.star_graph(n),
                    lambda: nx.complete_bipartite_graph(n // 2, n - n // 2), lambda: nx.random_labeled_tree(n + 1, seed=rng.getrandbits(30))])()
    S = relabel(rng, S)
    n = len(S)
    size = {"chimera": lambda m: t * m, "pegasus": lambda m: 12 * (m - 1) if m > 2 else 10 * (m == 2), "zephyr": lambda m: 4 * t * m - 2 * t}[topology]
    m = next(x for x in itertools.count(1) if size(x) >= n)
    V, st = [], {"topologies": [topology], "bounds": 1}
    kw = rng.choice([{"T": perfect(topology, max(m, 2 if topology == "pegasus" else 1), t)}, {"topology": topology, "t": t or rng.choice([None, 12])}])
    r = bound(S, **kw)
    desc = "%s t=%r %r\nS %r" % (topology, t, {a: b if a != "T" else len(b) for a, b in kw.items()}, list(S.edges))
    if r is None or not 0 <= r <= m:
        V.append({"key": "bound-clique", "msg": "%r although every graph of %d nodes fits m=%d: %s" % (r, n, m, desc)})
    if "T" in kw:
        from minorminer.utils.feasibility import embedding_feasibility_filter as eff
        for one in (False, True):
            if not eff(S, kw["T"], one) and bound(S, one_to_one=one, **kw) is not None:
                V.append({"key": "filtered", "msg": "a bound although the filter says no (one_to_one=%r): %s" % (one, desc)})
    # a one-to-one embedding may not exist, but there is an answer
    o = bound(S, one_to_one=True, **kw)
    if o is not None and r is not None and o < r:
        V.append({"key": "weaker", "msg": "one-to-one bound %r is less than the bound %r: %s" % (o, r, desc)})
    deg = max((d for _, d in S.degree), default=0)
    if o is not None and deg > {"chimera": (t or 0) + 2, "pegasus": 15, "zephyr": 4 * (t or 0) + 4}[topology]:
        V.append({"key": "degree", "msg": "one-to-one bound %r for a node of degree %d: %s" % (o, deg, desc)})
    if topology == "chimera" and o is not None and not nx.is_bipartite(S):
        V.append({"key": "bipartite", "msg": "one-to-one bound %r for a source which is not bipartite: %s" % (o, desc)})
    if topology == "chimera" and nx.is_bipartite(S) and S.size() == n - 1 and "topology" in kw and deg <= 2 and (t > 1 or deg < 2) and nx.is_connected(S):
        # a path fits a lattice of enough qubits
        if o is None:
            V.append({"key": "path", "msg": "no one-to-one bound for a path: %s" % desc})
    return {"violations": V, "stats": st, "evals": 2, "sig": desc[:400] if n else None, "case": {"anysource": desc[:300]}}


def arguments(rng):
    topology, m, t = someparams(rng)
    T = perfect(topology, m, t)
    S = rng.choice([nx.path_graph(rng.randint(0, 5)), nx.complete_graph(2), part(rng, T)])
    V, st = [], {"refusals": 1}
    other = rng.choice([x for x in ("chimera", "pegasus", "zephyr") if x != topology])
    one = rng.random() < .5
    kind = rng.choice(["family", "t", "none", "unknown", "plain"])
    if kind == "t" and topology == "pegasus":
        kind = "family"
    kw = {"family": {"T": T, "topology": other}, "t": {"T": T, "t": (t or 4) + rng.choice([1, 2, -1])}, "none": {}, "unknown": {"topology": "torus"}, "plain": {"T": nx.complete_graph(len(S) + 1), "t": t or 4}}[kind]
    if kind == "plain" and rng.random() < .5:
        del kw["t"]
    # infeasible in T comes first
    try:
        r = bound(S, one_to_one=one, **kw)
        from minorminer.utils.feasibility import embedding_feasibility_filter as eff
        if r is not None or "T" not in kw or eff(S, kw["T"], one):
            V.append({"key": "accepted-" + kind, "msg": "%s: %r from %r" % (kind, r, {a: b if a != "T" else (topology, m, t) for a, b in kw.items()})})
    except ValueError:
        pass
    return {"violations": V, "stats": st, "evals": 1, "sig": "%s %s %s %s" % (kind, topology, m, t), "case": {"arguments": kind}}
