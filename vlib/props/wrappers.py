"""minorminer.utils.chimera / pegasus / zephyr, judged in the graph actually given."""
import warnings
import networkx as nx
import dwave.graphs as dg
from vlib import dwgraphs, oracle


def setup(spec):
    warnings.simplefilter("ignore")


def run(i, rng, spec):
    V, st = [], {"calls": 1}
    fam = ["chimera", "pegasus", "zephyr"][i % 3]
    if i % 12 == 0:
        return grid(rng)
    import minorminer.utils.zephyr
    import minorminer.utils as mu
    mod = getattr(mu, fam)
    # the target and how it is given
    how = rng.choice(["size", "graph", "graph", "graph", "edges"] if fam == "chimera" else ["size", "graph", "graph", "graph"])
    kw, best = {}, {}
    if how == "graph":
        while True:
            desc, G = dwgraphs.random_graph(rng, .7, fam)
            if len(G):
                break
        kw["target_graph"] = G
        nodes, edges = list(G), list(G.edges)
        if rng.random() < .2:
            kw["m"] = rng.randint(1, 3)   # ignored: the graph says
    else:
        if fam == "chimera":
            m, n, t = rng.randint(1, 4) if rng.random() < .97 else rng.randint(8, 20), rng.choice([None, None, 1, 2, 3, 4]), rng.choice([None, None, 4, 1, 2, 3, 5])
            kw.update({a: b for a, b in (("m", m), ("n", n), ("t", t)) if b is not None or rng.random() < .3})
            n, t = n or m, t or 4
            G = dg.chimera_graph(m, n, t)
            best = {"clique": t * min(m, n), "bi": {(t * m, t * n), (t * n, t * m)}}
        elif fam == "pegasus":
            m = rng.randint(2, 4) if rng.random() < .97 else rng.randint(5, 9)
            kw["m"] = m
            G = dg.pegasus_graph(m)
            best = {"clique": 12 * (m - 1) if m > 2 else 10}
        else:
            m = rng.randint(1, 3) if rng.random() < .97 else rng.randint(5, 9)
            kw["m"] = m
            G = dg.zephyr_graph(m)
            best = {"clique": 16 * m - 8}
        desc = [fam, m]
        nodes, edges = list(G), list(G.edges)
        if how == "edges":
            edges = [e for e in edges if rng.random() < rng.choice([1, .95, .8, .4])]
            rng.shuffle(edges)
            kw["target_edges"] = rng.choice([list, tuple, iter])(edges) if edges else list(edges)
            G = dg.chimera_graph(kw["m"], kw.get("n"), kw.get("t") or 4, edge_list=list(edges))
            nodes = list(G)
            best = {}
            kw = {a: b for a, b in kw.items() if b is not None or a != "t"}
    tadj = oracle.adjacency(edges, nodes)
    positional = how == "size" and rng.random() < .4 and all(b is not None for b in kw.values())
    op = rng.choice(["clique", "clique", "biclique"])

    def call(f, *a):
        return f(*a, *kw.values()) if positional and list(kw) == ["m", "n", "t"][:len(kw)] else f(*a, **kw)

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s %r %s %r\nnodes %r\nedges %r" % (msg, op, asked, how, {a: b for a, b in kw.items() if a not in ("target_graph", "target_edges")}, nodes[:300], edges[:600])})
    before = (sorted(map(repr, G)), sorted(map(repr, G.edges)), repr(sorted(G.graph.items(), key=repr)))
    if op == "clique":
        k = rng.choice([0, 1, 2, 3, 4, 5, 8, rng.randint(0, 30), best.get("clique", 6), best.get("clique", 6) + 3])
        arg, labels = dwgraphs.labels(rng, k)
        if rng.random() < .15:
            arg = nx.complete_graph(k)
            labels = list(range(k))
        asked = (k, labels)
        try:
            emb = call(mod.find_clique_embedding, arg)
        except ValueError as e:
            emb = None
            st["refused"] = 1
            if "torus" not in str(desc):
                if k <= best.get("clique", 0):
                    bad("missed", "no clique of %d found in a perfect lattice: %s" % (k, e))
                elif k:
                    from minorminer.busclique import busgraph_cache
                    if len(busgraph_cache(G).largest_clique()) >= k:
                        bad("missed", "no clique of %d found although the cache has a larger one" % k)
        sadj = {v: set(labels) - {v} for v in labels}
    else:
        a, b = rng.choice([(1, 1), (2, 3), (4, 4), (rng.randint(0, 12), rng.randint(0, 12)), rng.choice(sorted(best.get("bi", {(6, 5)}))), (rng.randint(1, 30), rng.randint(1, 5))])
        aa, la = dwgraphs.labels(rng, a)
        bb, lb = dwgraphs.labels(rng, b)
        clash = False
        if isinstance(aa, int) and isinstance(bb, int):
            lb = [a + x for x in range(b)]
        elif set(la) & set(lb):
            clash = True
        asked = (a, b, la, lb)
        try:
            out = call(mod.find_biclique_embedding, aa, bb)
            if clash:
                bad("clash", "accepted overlapping sides")
                return {"violations": V, "stats": st, "evals": 1}
            if type(out) is not tuple or len(out) != 2:
                bad("shape", "returned %r" % (out,))
                return {"violations": V, "stats": st, "evals": 1}
            left, right = out
            if set(left) != set(la) or set(right) != set(lb):
                bad("sides", "sides %r and %r" % (list(left), list(right)))
            emb = {**left, **right}
        except ValueError as e:
            emb = None
            st["refused"] = 1
            if a and b and not clash and any(a <= x and b <= y for x, y in best.get("bi", ())):
                bad("missed", "no biclique %r found in a perfect lattice: %s" % ((a, b), e))
            elif a and b and not clash and "torus" not in str(desc):
                from minorminer.busclique import busgraph_cache
                if busgraph_cache(G).find_biclique_embedding(a, b):
                    bad("missed", "no biclique %r found although the cache has one" % ((a, b),))
        sadj = {v: set(lb) for v in la}
        sadj.update({v: set(la) for v in lb} if not clash else {})
    if emb is not None:
        st["embedded"] = 1
        if set(emb) != set(sadj):
            bad("labels", "embeds %r" % list(emb))
        else:
            f = oracle.embedding_faults(emb, sadj, tadj)
            if f:
                bad("invalid", "%r in %r" % (f, emb))
    if before != (sorted(map(repr, G)), sorted(map(repr, G.edges)), repr(sorted(G.graph.items(), key=repr))):
        bad("input", "the target graph was changed")
    return {"violations": V, "stats": st, "evals": 1, "sig": repr((asked, how, desc)), "case": {"wrapper": [fam, op, how, repr(desc)]}}


def grid(rng):
    from minorminer.utils.chimera import find_grid_embedding
    m, n, t = rng.randint(1, 6), rng.choice([None, 1, 2, 3, 5, 7]), rng.choice([None, 1, 2, 3, 4, 6])
    d = rng.choice([1, 2, 2, 3, 3, 4, 0])
    lim = [m, n or m, t or 4, 3]
    dim = [rng.choice([rng.randint(1, x), rng.randint(1, x), x, x + 1, 1]) for x in lim[:d]]
    V, st = [], {"grids": 1}
    kw = {a: b for a, b in (("n", n), ("t", t)) if b is not None}
    desc = "find_grid_embedding(%r, %r, %r)" % (dim, m, kw)
    fits = 1 <= d <= 3 and all(a <= b for a, b in zip(dim, lim))
    try:
        emb = find_grid_embedding(rng.choice([list, tuple, iter])(dim), m, **kw)
    except ValueError as e:
        if fits:
            V.append({"key": "grid-refused", "msg": "%s: %s" % (desc, e)})
        return {"violations": V, "stats": st, "evals": 1, "sig": desc}
    if not fits:
        V.append({"key": "grid-accepted", "msg": "%s gave %r" % (desc, emb)})
        return {"violations": V, "stats": st, "evals": 1}
    G = dg.chimera_graph(m, n or m, t or 4)
    import itertools
    pts = list(itertools.product(*map(range, dim)))
    key = (lambda p: p[0]) if d == 1 else (lambda p: p)
    sadj = {key(p): {key(q) for q in pts if sum(abs(x - y) for x, y in zip(p, q)) == 1} for p in pts}
    f = oracle.embedding_faults(emb, sadj, oracle.adjacency(G.edges, G))
    if f or set(emb) != set(sadj):
        V.append({"key": "grid", "msg": "%s: %r in %r" % (desc, f, emb)})
    return {"violations": V, "stats": st, "evals": 1, "sig": desc, "case": {"grid": desc}}
