"""Layouts, placements and layout-aware embeddings."""
import itertools
import networkx as nx
import numpy as np
import dwave.graphs as dg
from vlib import dwgraphs, graphs, oracle

EPS = 1e-6


def setup(spec):
    pass


def run(i, rng, spec):
    np.random.seed(rng.getrandbits(31))
    import random
    random.seed(rng.getrandbits(31))
    return [layout_case, pnorm_case, hardware_case, place_case, intersection_case, embed_case, embed_case][i % 7](rng)


def source(rng, top=9):
    """A graph with sortable labels, added in any order."""
    k = rng.choice(["gnp", "gnp", "path", "cycle", "clique", "star", "pieces", "empty", "one", "loops", "grid"])
    n = rng.randint(2, top)
    g = {"gnp": lambda: nx.gnp_random_graph(n, rng.random(), seed=rng.getrandbits(30)), "path": lambda: nx.path_graph(n), "cycle": lambda: nx.cycle_graph(n + 1),
         "clique": lambda: nx.complete_graph(n), "star": lambda: nx.star_graph(n), "empty": lambda: nx.empty_graph(n), "one": lambda: nx.empty_graph(1),
         "grid": lambda: nx.convert_node_labels_to_integers(nx.grid_2d_graph(2, rng.randint(2, 4))),
         "loops": lambda: nx.Graph([(a, b) for a in range(n) for b in range(a, n) if rng.random() < .4] + [(0, 0)]),
         "pieces": lambda: nx.disjoint_union_all([nx.gnp_random_graph(rng.randint(1, 5), .7, seed=rng.getrandbits(30)) for _ in range(rng.randint(1, 4))])}[k]()
    f = rng.choice([lambda v: v, lambda v: v, lambda v: "n%d" % v, lambda v: (v % 3, v), lambda v: 1.5 * v - 3])
    nodes, edges = list(g), list(g.edges)
    rng.shuffle(nodes)
    rng.shuffle(edges)
    h = nx.Graph()
    h.add_nodes_from(map(f, nodes))
    h.add_edges_from((f(a), f(b)) for a, b in edges)
    return k, h


def points(rng, g, d):
    k = rng.choice(["any", "any", "line", "same", "grid", "far"])
    f = {"any": lambda j: [rng.uniform(-5, 5) for _ in range(d)], "line": lambda j: [j] + [0] * (d - 1), "same": lambda j: [1.] * d,
         "grid": lambda j: [rng.randint(0, 2) for _ in range(d)], "far": lambda j: [1e6 * rng.random() for _ in range(d)]}[k]
    return {v: rng.choice([tuple, np.array, list])(f(j)) for j, v in enumerate(g)}


def arr(lay, nodes):
    return np.array([np.asarray(lay[v], dtype=float) for v in nodes])


def check_layout(lay, G, bad, dim=None, center=None, scale=None, what="layout"):
    """The invariants of a Layout; returns its points or None."""
    nodes = sorted(G)
    if set(lay) != set(G) or len(lay) != len(G):
        bad("nodes", "%s has nodes %r instead of %r" % (what, sorted(map(repr, lay)), sorted(map(repr, G))))
        return None
    if not nodes:
        return None
    try:
        P = arr(lay, nodes)
    except ValueError:
        bad("ragged", "%s mixes dimensions" % what)
        return None
    if P.ndim != 2 or not np.isfinite(P).all():
        bad("not-finite", "%s has points %r" % (what, P.tolist()))
        return None
    d = P.shape[1]
    size = 1 + np.abs(P).max()
    want = dim or (len(center) if center is not None else None)
    if want and d != want:
        bad("dim", "%s has dimension %d instead of %d" % (what, d, want))
        return None
    lo, hi = P.min(axis=0), P.max(axis=0)
    if center is not None and np.abs((lo + hi) / 2 - center).max() > EPS * size:
        bad("center", "%s is centered at %r instead of %r" % (what, ((lo + hi) / 2).tolist(), center))
    ext = float((hi - lo).max() / 2)
    if scale and ext > 0 and abs(ext - scale) > EPS * size:
        bad("scale", "%s has scale %r instead of %r" % (what, ext, scale))
    if hasattr(lay, "layout_array"):
        if lay.layout_array.shape != P.shape or np.abs(lay.layout_array - P).max() > EPS * size:
            bad("lockstep", "%s: layout_array %r differs from the items %r" % (what, lay.layout_array.tolist(), P.tolist()))
        if lay.dim != d or abs(lay.scale - ext) > EPS * size or np.abs(np.asarray(lay.center) - (lo + hi) / 2).max() > EPS * size:
            bad("specs", "%s: dim %r, center %r, scale %r do not describe its points" % (what, lay.dim, lay.center, lay.scale))
    return P


def shape_kept(P, Q, k):
    """Q is P moved and scaled by k (padded with zeros)"""
    A = np.zeros_like(Q)
    A[:, :P.shape[1]] = P
    A, B = (A - A[0]) * k, Q - Q[0]
    return np.abs(A - B).max() <= 1e-6 * (1 + np.abs(A).max() + np.abs(Q).max())


def report(rng_case):
    V, st = [], {}
    return V, st


def layout_case(rng):
    import minorminer.layout as mml
    k, G = source(rng)
    V, st = [], {"layouts": 1, "graphs": [k]}
    dim = rng.choice([None, None, 1, 2, 2, 3, 4])
    center = None if rng.random() < .5 else [rng.uniform(-9, 9) for _ in range(dim or rng.choice([2, 2, 3]))]
    scale = rng.choice([None, None, .5, 1, 3.7, 100])
    pack = rng.random() < .6
    kw = {a: b for a, b in (("dim", dim), ("center", center), ("scale", scale)) if b is not None or rng.random() < .3}
    if not pack or rng.random() < .2:
        kw["pack_components"] = pack
    which = rng.choice(["none", "p_norm", "p_norm", "dict", "dict", "dict", "function", "nx"])
    desc = "%s nodes=%r edges=%r layout=%s %r" % (k, list(G), list(G.edges), which, kw)

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s" % (msg, desc)})
    start, arg = None, None
    if which == "p_norm":
        arg = mml.p_norm
        if rng.random() < .4:
            kw["p"] = rng.choice([1, 2, 3, float("inf")])
    elif which == "dict":
        d0 = dim or (len(center) if center else 2)
        start = points(rng, G, rng.randint(1, d0) if dim else d0)
        arg = dict(start)
    elif which == "function":
        def arg(g, **q):
            return points(rng, g, q.get("dim", len(q.get("center", (0, 0)))))
    elif which == "nx":
        arg = rng.choice([nx.circular_layout, nx.spring_layout, nx.spectral_layout, nx.shell_layout])
        d = dim or (len(center) if center else 2)
        if d != 2:
            return {"violations": V, "stats": st, "evals": 0}
    inp = G if not any(G.degree(v) == 0 for v in G) and rng.random() < .2 and len(G) else None
    L = mml.Layout(list(G.edges) if inp is not None else G, arg, **kw)
    P = check_layout(L, G, bad, dim, center, scale)
    if which == "dict" and P is not None and not V:
        S = arr(start, sorted(G))
        e0 = float((S.max(axis=0) - S.min(axis=0)).max() / 2)
        if not shape_kept(S, P, scale / e0 if scale and e0 > 0 else 1):
            bad("shape", "points %r became %r" % (S.tolist(), P.tolist()))
        if any(np.any(np.asarray(arg[v]) != np.asarray(start[v])) for v in start):
            bad("input", "the points given were changed to %r" % arg)
    comps = [sorted(c) for c in nx.connected_components(G)]
    if P is not None and which in ("none", "p_norm", "function", "nx") and pack and P.shape[1] == 2 and len(comps) > 1:
        boxes = [(Q.min(axis=0), Q.max(axis=0)) for Q in (arr(L, c) for c in comps)]
        for (a0, a1), (b0, b1) in itertools.combinations(boxes, 2):
            if ((np.minimum(a1, b1) - np.maximum(a0, b0)) > 1e-9 * (1 + np.abs(P).max())).all():
                bad("packing", "two components overlap: %r and %r" % ((a0.tolist(), a1.tolist()), (b0.tolist(), b1.tolist())))
                break
    for _ in range(rng.randint(0, 4) if P is not None and not V else 0):
        e = rng.choice(["center", "scale", "dim", "item"])
        d = P.shape[1]
        if e == "center":
            c = [rng.uniform(-9, 9) for _ in range(d)]
            L.center = rng.choice([tuple, list, np.array])(c)
            Q = check_layout(L, G, bad, d, c, None, "after setting center %r, it" % c)
            ok = Q is not None and shape_kept(P, Q, 1)
        elif e == "scale":
            s = rng.uniform(.1, 50)
            before = np.asarray(L.center)
            e0 = float((P.max(axis=0) - P.min(axis=0)).max() / 2)
            L.scale = s
            Q = check_layout(L, G, bad, d, before.tolist(), s, "after setting scale %r, it" % s)
            ok = Q is not None and shape_kept(P, Q, s / e0 if e0 > 0 else 1)
        elif e == "dim":
            L.dim = d + rng.randint(0, 2)
            Q = check_layout(L, G, bad, L.dim, None, None, "after raising dim, it")
            ok = Q is not None and shape_kept(P, Q, 1)
        else:
            v, p = rng.choice(sorted(G)), [rng.uniform(-20, 20) for _ in range(d)]
            L[v] = p
            Q = check_layout(L, G, bad, d, None, None, "after setting %r to %r, it" % (v, p))
            R = P.copy()
            R[sorted(G).index(v)] = p
            ok = Q is not None and np.abs(R - Q).max() < 1e-9
        if not ok:
            bad("edit", "setting %s turned %r into %r" % (e, P.tolist(), Q if Q is None else Q.tolist()))
            break
        P = Q
    return {"violations": V, "stats": st, "evals": 1, "sig": desc[:300] if P is not None else None, "case": {"layout": desc[:600]}}


def stress(G, P, p, dist):
    n = len(G)
    return sum((dist[a].get(b, n) - np.linalg.norm(np.asarray(P[a]) - np.asarray(P[b]), p)) ** 2 for a in G for b in G)


def pnorm_case(rng):
    """p_norm never fits the distances worse than the layout it starts from, and depends on the graph alone."""
    import minorminer.layout as mml
    k, G = source(rng)
    V, st = [], {"p_norms": 1}
    d = rng.choice([1, 2, 2, 3])
    p = rng.choice([1, 2, 2, 3, float("inf")])
    start = {v: np.array([rng.uniform(-4, 4) for _ in range(d)]) for v in G}
    kw = {"p": p, "dim": d}
    center = [rng.uniform(-5, 5) for _ in range(d)] if rng.random() < .5 else None
    if center:
        kw["center"] = center
    desc = "%s nodes=%r edges=%r %r start=%r" % (k, list(G), list(G.edges), kw, {v: x.tolist() for v, x in start.items()})

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s" % (msg, desc)})
    dist = dict(nx.all_pairs_shortest_path_length(G))
    given = rng.random() < .3
    if given:
        dist = {a: {b: (x * 1.5 + .1 if a != b else 0) for b, x in q.items()} for a, q in dist.items()}
        kw["G_distances"] = {a: dict(q) for a, q in dist.items()}
    out = mml.p_norm(G, starting_layout=dict(start), **kw)
    P = check_layout(out, G, bad, d, center or [0] * d, None, "p_norm")
    if P is not None:
        a, b = stress(G, start, p, dist), stress(G, out, p, dist)
        if b > a * (1 + 1e-6) + 1e-6:
            bad("stress", "the objective grew from %g to %g" % (a, b))
        st["improved"] = int(b < .9 * a)
        nodes, edges = list(G), list(G.edges)
        rng.shuffle(nodes)
        H = nx.Graph()
        H.add_nodes_from(nodes)
        H.add_edges_from(edges)
        out2 = mml.p_norm(H, starting_layout=dict(start), **kw)
        if np.abs(arr(out2, sorted(G)) - P).max() > 1e-9:
            bad("order", "adding the nodes in the order %r changes the layout from %r to %r" % (nodes, P.tolist(), arr(out2, sorted(G)).tolist()))
        s = rng.uniform(.5, 20)
        check_layout(mml.p_norm(G, scale=s, **kw), G, bad, d, center or [0] * d, s, "p_norm with scale %g" % s)
    return {"violations": V, "stats": st, "evals": 2, "sig": desc[:200], "case": {"p_norm": desc[:500]}}


def hardware_case(rng):
    import minorminer.layout as mml
    desc, G = dwgraphs.random_graph(rng, .6, vast=.03, slow=False)
    V, st = [], {"hardware_layouts": 1, "families": [desc[0]]}
    dim = rng.choice([None, 2, 3, 4])
    center = None if rng.random() < .5 else tuple(rng.uniform(-9, 9) for _ in range(dim or 2))
    scale = rng.choice([None, 1, 2.5, 40])

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%r nodes=%r dim=%r center=%r scale=%r" % (msg, desc, sorted(G), dim, center, scale)})
    kw = {a: b for a, b in (("dim", dim), ("center", center), ("scale", scale)) if b is not None}
    if not laid_out(G):
        return {"violations": V, "stats": st, "evals": 0}
    out = mml.graph_layout(G, **kw)
    P = check_layout(out, G, bad, dim or 2, None, None, "graph_layout")
    if P is not None:
        c = np.array(center or (0,) * (dim or 2))
        s = scale if scale else max(G.graph["rows"], G.graph["columns"]) / 2
        off = np.abs(P - c)
        if (off[:, :2] > s * (1 + EPS)).any() or (off[:, 2:] > EPS).any():
            bad("outside", "points %r are outside %r +- %r" % (P[(off > s * (1 + EPS)).any(axis=1)][:3].tolist(), c.tolist(), s))
        # opposite order and coordinates must not matter
        if len({tuple(np.round(x, 9)) for x in P}) < len(P) and desc[2] == "none" and "torus" not in desc[1]:
            bad("coincide", "two qubits have the same position")
    L = mml.Layout(G, rng.choice([None, mml.graph_layout]), **kw)
    check_layout(L, G, bad, dim, center, scale, "Layout")
    return {"violations": V, "stats": st, "evals": 2, "sig": "%r %r" % (desc, kw), "case": {"graph": desc, "kwargs": kw}}


def laid_out(T):
    """Whether dwave.graphs itself has a position for every qubit, also of each component alone (it divides by the extent of few qubits in a line)."""
    f = {"chimera": dg.chimera_layout, "pegasus": dg.pegasus_layout, "zephyr": dg.zephyr_layout}[T.graph["family"]]
    with np.errstate(all="ignore"):
        parts = [T] + [T.subgraph(c) for c in nx.connected_components(T) if 2 < len(c) < len(T)]
        return len(T) > 0 and all(np.isfinite(x).all() for p in parts for x in f(p).values())


def target(rng, vast=0.):
    if rng.random() < .5:
        desc, T = dwgraphs.random_graph(rng, .45, vast=vast, slow=False)
        if len(T) < (1200 if vast else 150) and laid_out(T):
            return str(desc), T
    n = rng.randint(1, 25)
    T = rng.choice([lambda: nx.gnp_random_graph(n, .3, seed=rng.getrandbits(30)), lambda: nx.convert_node_labels_to_integers(nx.grid_2d_graph(4, 5)),
                    lambda: nx.complete_graph(n), lambda: nx.path_graph(n)])()
    return "plain", T


def connected_subsets(T, a, b):
    out = {1: {frozenset([v]) for v in T}}
    for k in range(2, b + 1):
        out[k] = {x | {u} for x in out[k - 1] for v in x for u in T[v] if u not in x}
    return {x for k in range(a, b + 1) for x in out[k]}


def place_case(rng):
    import minorminer.layout as mml
    k, S = source(rng)
    tn, T = target(rng)
    V, st = [], {"placements": 1}
    d = rng.choice([2, 2, 2, 3])
    crowd = rng.random() < .08
    if crowd:       # far more source nodes than places
        k, S = "crowd", nx.empty_graph(rng.choice([40, 150, 400, 1200, 2500]))
        if len(T) > 40:
            tn, T = "path", nx.path_graph(rng.randint(1, 5))
    sp, tp = points(rng, S, d), points(rng, T, d)
    if crowd and rng.random() < .7:
        sp = {v: (0.,) * d for v in S}
    SL, TL = mml.Layout(S, sp), mml.Layout(T, tp)
    if rng.random() < .3 and d == 2 and not crowd:
        TL = mml.Layout(T)
    a = rng.choice([1, 1, 1, 2, 3 if len(T) < 60 else 2])
    b = rng.randint(a, 3 if len(T) < 60 else 2)
    nn = rng.choice([1, 1, 2, 5, 12, 200])
    ratio = rng.choice([None, None, .5, 1])
    desc = "S: %s %r, T: %s (%d nodes), points %r -> %r, subset_size=%r num_neighbors=%r scale_ratio=%r" % (k, list(S), tn, len(T), SL, TL, (a, b), nn, ratio)

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s" % (msg, desc[:4000])})
    subs = connected_subsets(T, a, b)
    s0, t0 = dict(SL.layout), dict(TL.layout)
    try:
        pl = mml.Placement(SL, TL, mml.closest if rng.random() < .8 or (a, b, nn) != (1, 1, 1) else None, scale_ratio=ratio,
                           **({"subset_size": (a, b), "num_neighbors": nn} if (a, b, nn) != (1, 1, 1) else {}))
    except ValueError as e:
        if subs or "no connected subsets" not in str(e):
            raise
        return {"violations": V, "stats": st, "evals": 1}
    if any(np.any(np.asarray(SL[v]) != np.asarray(s0[v])) for v in S) or any(np.any(np.asarray(TL[v]) != np.asarray(t0[v])) for v in T):
        bad("input", "the layouts given were changed")
    if set(pl) != set(S):
        bad("nodes", "placed %r" % sorted(map(repr, pl)))
    big = pl.T_layout.scale
    if pl.S_layout.scale > big * (1 + EPS) and big > 0:
        bad("scale", "S was laid out with scale %g in a target of scale %g" % (pl.S_layout.scale, big))
    if ratio and 0 < SL.scale <= TL.scale and abs(pl.S_layout.scale - ratio * TL.scale) > EPS * (1 + TL.scale):
        bad("scale-ratio", "S has scale %g instead of %g" % (pl.S_layout.scale, ratio * TL.scale))
    mean = {x: np.mean([np.asarray(pl.T_layout[v], dtype=float) for v in x], axis=0) for x in subs}
    for u, c in pl.items():
        if c is None or frozenset(c) not in subs or len(set(c)) != len(list(c)):
            bad("subset", "%r is placed on %r, which is not a connected set of %d to %d target nodes" % (u, c, a, b))
            break
        if crowd and rng.random() > 60 / len(S):
            continue
        dist = sorted(float(np.linalg.norm(m - np.asarray(pl.S_layout[u], dtype=float))) for m in mean.values())
        mine = float(np.linalg.norm(mean[frozenset(c)] - np.asarray(pl.S_layout[u], dtype=float)))
        # the candidates are the nn closest distinct places
        lim = dist[min(nn, len(dist)) - 1] if nn > 1 else dist[0]
        if nn == 1 and mine > lim + EPS * (1 + lim):
            bad("closest", "%r is placed at distance %g although %g is possible" % (u, mine, lim))
            break
    return {"violations": V, "stats": st, "evals": 1, "sig": desc[:300] if len(S) else None, "case": {"placement": desc[:400]}}


def intersection_case(rng):
    import minorminer.layout as mml
    k, S = source(rng, 14)
    while True:
        desc, T = dwgraphs.random_graph(rng, .6, vast=.02, slow=False)
        if laid_out(T) and desc[1][-1] != "torus":
            break
    V, st = [], {"intersections": 1, "families": [desc[0]]}
    TL = mml.Layout(T, mml.graph_layout)
    SL = mml.Layout(S, points(rng, S, 2)) if rng.random() < .6 else mml.Layout(S)
    text = "S: %s %r at %r, T: %r" % (k, list(S), SL, desc)

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s" % (msg, text[:4000])})
    pl = mml.Placement(SL, TL, mml.intersection)
    if set(pl) != set(S):
        bad("nodes", "placed %r" % sorted(map(repr, pl)))
    fam, par = desc[0], T.graph
    lines = {}
    for v, c in pl.items():
        c = list(c)
        if len(set(c)) != len(c) or not set(c) <= set(T) or len(c) > 2:
            bad("set", "%r is placed on %r" % (v, c))
            return {"violations": V, "stats": st, "evals": 1}
        q = [coords(fam, T, x) for x in c]
        if len(c) == 2 and q[0][0] == q[1][0]:
            bad("parallel", "%r is placed on the parallel qubits %r" % (v, q))
        if desc[2] == "none":
            if len(c) == 2 and not T.has_edge(*c):
                bad("apart", "%r is placed on qubits that are not coupled: %r" % (v, q))
            if fam == "chimera" and len(c) != 2:
                bad("missing", "%r is placed on %r in a perfect lattice" % (v, q))
        for u, line in q:
            lines.setdefault((v, u), line)
    # lines are ordered like the points
    if len(S):
        P = {v: np.round(np.asarray(pl.S_layout[v], dtype=float)).astype(int) for v in S}
        st["on_grid"] = len(lines)
        for flip in (0, 1):
            if all(line == P[v][u ^ flip] for (v, u), line in lines.items()):
                break
        else:
            bad("line", "lines %r do not match grid points %r" % (lines, {v: p.tolist() for v, p in P.items()}))
    return {"violations": V, "stats": st, "evals": 1, "sig": text[:300], "case": {"intersection": text[:400]}}


def coords(fam, T, x):
    """(orientation, index of the line in its orientation)"""
    g = T.graph
    if fam == "chimera":
        i, j, u, k = x if g["labels"] == "coordinate" else dg.chimera_coordinates(g["rows"], g["columns"], g["tile"]).linear_to_chimera(x)
        return u, (i if u else j) * g["tile"] + k
    if fam == "pegasus":
        c = dg.pegasus_coordinates(g["rows"])
        u, w, k, z = x if g["labels"] == "coordinate" else c.nice_to_pegasus(x) if g["labels"] == "nice" else c.linear_to_pegasus(x)
        return u, 12 * w + k
    u, w, k, j, z = x if g["labels"] == "coordinate" else dg.zephyr_coordinates(g["rows"], g["tile"]).linear_to_zephyr(x)
    return u, 2 * (g["tile"] * w + k) + j


def embed_case(rng):
    import minorminer.layout as mml
    k, S = source(rng)
    tn, T = target(rng, .03)
    hw = T.graph.get("family") and "torus" not in tn
    V, st = [], {"embeddings_asked": 1, "targets": [tn.split(",")[0]]}
    kw, n_S, n_T = {}, None, None
    d = 2
    pick = rng.randint(0, 6)
    if pick == 1:
        kw["layout"] = nx.circular_layout
    elif pick == 2:
        kw["layout"] = (points(rng, S, d), points(rng, T, d))
    elif pick == 3:
        kw["layout"] = (mml.Layout(S, points(rng, S, d)), mml.Layout(T, points(rng, T, d)))
    elif pick == 4 and len(T) < 50:
        kw["layout"] = (mml.p_norm, rng.choice([mml.p_norm, points(rng, T, d)]))
    elif pick == 5:
        kw["layout"] = (nx.circular_layout, None)
    if not hw and len(T) > 60 and (pick == 0 or pick > 4):
        kw["layout"] = (mml.p_norm, points(rng, T, d))
    want = None
    r = rng.randint(0, 5)
    if r == 1 and hw:
        kw["placement"] = mml.intersection
    elif r == 2:
        want = {v: rng.choice([list, tuple, set])(rng.sample(sorted(T), rng.randint(1, min(2, len(T))))) for v in S}
        kw["placement"] = {v: list(c) for v, c in want.items()}
    elif r == 3:
        kw.update(num_neighbors=rng.choice([1, 3, 50]), subset_size=(1, rng.choice([1, 2])))
    hint = rng.choice(["initial_chains", "initial_chains", "suspend_chains"])
    if hint == "suspend_chains" or rng.random() < .3:
        kw["mm_hint_type"] = hint
    if rng.random() < .3 and pick not in (2, 3, 4):
        kw["center"] = (1.5, -2)
    if rng.random() < .3 and pick not in (3,):
        kw["scale"] = 3
    if rng.random() < .2:
        kw["scale_ratio"] = .8
    kw["random_seed"] = rng.getrandbits(30)
    kw["timeout"] = 20
    kw["tries"] = rng.choice([1, 2])
    kw["max_no_improvement"] = 2
    kw["return_layouts"] = ret = rng.random() < .6
    kw["return_overlap"] = ov = rng.random() < .15
    edges_T = rng.random() < .15 and not any(T.degree(v) == 0 for v in T) and kw.get("placement") is not mml.intersection and "layout" not in kw and len(T) < 40 and len(T) > 1
    desc = "S: %s %r %r\nT: %s %r %r\n%r" % (k, list(S), list(S.edges), tn, sorted(T), sorted(T.edges), {a: b for a, b in kw.items()})

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s" % (msg, desc[:6000])})
    try:
        out = mml.find_embedding(S, list(T.edges) if edges_T else T, **kw)
    except TimeoutError:
        return {"inconclusive": "layout took 20 s", "evals": 0}
    except RuntimeError as e:
        # a suspended or crowded problem without room
        st["refused"] = 1
        return {"violations": V, "stats": st, "evals": 1}
    except ValueError as e:
        # hints that cross between the components of either graph
        if "corrupted" not in str(e) or nx.number_connected_components(S) < 2 and nx.number_connected_components(T) < 2:
            raise
        st["crossing"] = 1
        return {"violations": V, "stats": st, "evals": 1}
    lays = None
    if ret:
        if type(out) is not tuple or len(out) != 2 or type(out[1]) is not tuple or len(out[1]) != 2:
            bad("shape", "return_layouts gave %r" % (out,))
            return {"violations": V, "stats": st, "evals": 1}
        out, lays = out
    flag = None
    if ov:
        out, flag = out
    if not isinstance(out, dict):
        bad("type", "result %r" % (out,))
    else:
        sadj, tadj = oracle.adjacency(S.edges, S), oracle.adjacency(T.edges, T)
        f = oracle.embedding_faults(out, sadj, tadj) if out or flag else []
        if f and (flag or flag is None):
            bad("invalid", "%r: %r" % (f, out))
        good = out and not f and flag is not False
        st["embedded"] = int(bool(good))
        if good and want and hint == "suspend_chains":
            for v, c in want.items():
                if not set(c) & set(out[v]):
                    bad("suspended", "%r got %r outside %r" % (v, out[v], c))
    if lays:
        for L, G, what in ((lays[0], S, "source"), (lays[1], T, "target")):
            if set(L) != set(G):
                bad("layout-nodes", "the %s layout returned has other nodes" % what)
        lay = kw.get("layout")
        if isinstance(lay, tuple):
            for L, given, G, what in ((lays[0], lay[0], S, "source"), (lays[1], lay[1], T, "target")):
                if isinstance(given, mml.Layout) and L is not given and dict(L.items()).keys() != dict(given.items()).keys():
                    bad("layout-given", "the %s layout given was not used" % what)
                elif isinstance(given, (dict, mml.Layout)) and len(G) > 1:
                    A, B = arr(given, sorted(G)), arr(L, sorted(G))
                    A, B = A - A[0], B - B[0]
                    e = np.abs(A).max()
                    if e > 0 and np.abs(A * (np.abs(B).max() / e) - B).max() > 1e-6 * (1 + np.abs(B).max()):
                        bad("layout-given", "the %s layout given was not used" % what)
    return {"violations": V, "stats": st, "evals": 1, "sig": desc[:400], "case": {"find_embedding": desc[:600]}}
