"""minorminer.utils.parallel_embeddings with recording embedders and a clock under control."""
import sys, time, types, warnings
import networkx as nx
import dwave.graphs as dg
from vlib import dwgraphs, oracle

OFFSET = 0.0


class Capped(Exception):
    pass


def search(sadj, tadj, order=None, cap=30000):
    """A complete one-to-one embedder: an edge preserving injection, {} if there is none; Capped beyond the limit."""
    if not sadj:
        return {}
    left, seq = list(sadj), []
    while left:
        v = max(left, key=lambda v: (sum(u in sadj[v] for u in seq), len(sadj[v])))
        seq.append(v)
        left.remove(v)
    order = list(tadj) if order is None else order
    rank = {q: i for i, q in enumerate(order)}
    at, used, steps = {}, set(), [0]

    def go(i):
        if i == len(seq):
            return True
        v = seq[i]
        nb = [at[u] for u in sadj[v] if u in at]
        for q in (sorted(tadj[nb[0]], key=rank.__getitem__) if nb else order):
            steps[0] += 1
            if steps[0] > cap:
                raise Capped
            if q in used or len(tadj[q]) < len(sadj[v]) or any(q not in tadj[p] for p in nb):
                continue
            at[v] = q
            used.add(q)
            if go(i + 1):
                return True
            used.discard(q)
            del at[v]
        return False
    return dict(at) if go(0) else {}


def default_embedder(S, T, **kw):
    return CURRENT(S, T, **kw)


CURRENT = None


def setup(spec):
    warnings.simplefilter("ignore")
    real = {n: getattr(time, n) for n in ("perf_counter", "monotonic", "time")}
    for n, f in real.items():
        setattr(time, n, lambda f=f: f() + OFFSET)
    # the subgraph solver is not part of this build
    mod = types.ModuleType("minorminer.subgraph")
    mod.find_subgraph = default_embedder
    sys.modules["minorminer.subgraph"] = mod
    import minorminer.utils.parallel_embeddings


class Embedder:
    """Records what it is asked and what it answers."""

    def __init__(self, rng, kind, shape, fail, cost, kw):
        self.rng, self.kind, self.shape, self.fail, self.cost, self.kw = rng, kind, shape, fail, cost, kw
        self.calls, self.capped = [], False

    def __call__(self, S, T, **kw):
        global OFFSET
        rec = {"S": S, "snodes": list(S), "sedges": list(S.edges), "nodes": list(T), "edges": list(T.edges), "kw": kw, "at": time.perf_counter(),
               "graph": dict(T.graph)}
        self.calls.append(rec)
        OFFSET += self.cost
        tadj, sadj = dwgraphs.adj(T), dwgraphs.adj(S)
        if self.rng.random() < self.fail:
            out = {}
        elif self.kind == "mm":
            from minorminer import find_embedding
            out = find_embedding(list(S.edges), list(T.edges), random_seed=self.rng.randrange(1 << 30), tries=2, timeout=5) if S.edges and T.edges else {}
            # isolated variables are not seen by a search given edges
            used = {q for c in out.values() for q in c}
            free = [q for q in T if q not in used]
            for v in S:
                if v not in out:
                    if not free:
                        out = {}
                        break
                    if out or not S.edges:
                        out[v] = [free.pop()]
        else:
            order = list(T)
            if self.kind == "random":
                self.rng.shuffle(order)
            try:
                out = search(sadj, tadj, order)
            except Capped:
                self.capped, out = True, {}
            if self.shape != "one":
                used = set(out.values())
                res = {}
                for v, q in out.items():
                    c = [q]
                    while len(c) < 3 and self.rng.random() < .4:
                        ext = [p for p in tadj[c[-1]] if p not in used]
                        if not ext:
                            break
                        c.append(self.rng.choice(ext))
                        used.add(c[-1])
                    res[v] = {"tuple": tuple, "list": list, "set": set, "frozenset": frozenset, "dict": lambda c: dict.fromkeys(c)}[self.shape](c)
                out = res
        rec["out"] = dict(out)
        return out


def source(rng, small=False):
    k = rng.randrange(12)
    if k == 0:
        G = nx.path_graph(rng.randint(1, 6))
    elif k == 1:
        G = nx.star_graph(rng.randint(1, 5))
    elif k == 2:
        G = nx.cycle_graph(4)
    elif k == 3:
        G = nx.complete_bipartite_graph(rng.randint(1, 3), rng.randint(1, 4))
    elif k == 4:
        G = nx.complete_graph(rng.randint(1, 4))
    elif k == 5:
        G = nx.empty_graph(rng.randint(1, 3))
    elif k == 6:
        G = nx.disjoint_union(nx.path_graph(rng.randint(1, 3)), nx.path_graph(rng.randint(1, 3)))
    elif k == 7:
        G = nx.grid_2d_graph(2, rng.randint(2, 3))
    elif k == 8:
        G = nx.gnp_random_graph(rng.randint(2, 5), rng.random(), seed=rng.randrange(1 << 30))
    elif k == 9:
        G = nx.cycle_graph(rng.randint(3, 8))
    elif k == 10:
        G = nx.hypercube_graph(rng.randint(1, 3))
    else:
        G = nx.random_labeled_tree(rng.randint(2, 7), seed=rng.randrange(1 << 30)) if hasattr(nx, "random_labeled_tree") else nx.path_graph(4)
    _, names = dwgraphs.labels(rng, len(G), allow_int=False) if rng.random() < .5 else (None, list(range(len(G))))
    m = dict(zip(G, names))
    H = nx.Graph()
    H.add_nodes_from(m[v] for v in G)
    H.add_edges_from((m[a], m[b]) for a, b in G.edges)
    return H


def snap(x):
    if isinstance(x, nx.Graph):
        return [repr(list(x.nodes(data=True))), repr(sorted(map(repr, x.edges(data=True)))), repr(sorted(x.graph.items(), key=repr))]
    return repr(x)


def run(i, rng, spec):
    if i % 12 == 11:
        return arrays(rng)
    return problem(rng, "multiple" if i % 12 < 4 else "sublattice")


def problem(rng, op):
    global OFFSET, CURRENT
    import minorminer.utils.parallel_embeddings as pe
    V, st = [], {op: 1}
    S = source(rng)
    if op == "sublattice":
        while True:
            desc, T = dwgraphs.random_graph(rng, .8)
            if len(T) and not (desc[0] == "zephyr" and len(T) > 500):
                break
    else:
        k = rng.randrange(5)
        if k == 0:
            T = nx.grid_2d_graph(rng.randint(1, 5), rng.randint(1, 5))
        elif k == 1:
            T = nx.gnp_random_graph(rng.randint(1, 30), rng.random(), seed=rng.randrange(1 << 30))
        elif k == 2:
            T = nx.disjoint_union_all([S] * rng.randint(1, 6))
        else:
            _, T = dwgraphs.random_graph(rng, .5)
        desc = [k]
    kind = rng.choice(["first", "first", "first", "random", "mm"] if len(T) < 200 else ["first", "first", "random"])
    shape = "list" if kind == "mm" else rng.choice(["one", "one", "one", "tuple", "list", "set", "frozenset", "dict"])
    chains = shape != "one"
    fail = rng.choice([0, 0, 0, 0, .2, .5, 1])
    cost = rng.choice([0, 0, 0, 0, 0, 1000])
    ekw = rng.choice([None, None, {}, {"alpha": 1, "beta": [2]}])
    E = Embedder(rng, kind, shape, fail, cost, ekw)
    kw = {}
    if rng.random() < .3 and not chains:
        CURRENT = E
        if rng.random() < .3:
            kw["embedder"] = None
    else:
        kw["embedder"] = E
    if ekw is not None or rng.random() < .2:
        kw["embedder_kwargs"] = ekw
    if chains or rng.random() < .2:
        kw["one_to_iterable"] = chains
    limit = 1
    if rng.random() < .8:
        limit = kw["max_num_emb"] = rng.choice([None, None, None, 1, 2, 3, 5, 50, 0])
        if op == "multiple" and rng.random() < .05:
            kw["max_num_emb"], limit = float("inf"), None
    if rng.random() < .6:
        kw["use_filter"] = rng.random() < .5
    seed = None
    if rng.random() < .4:
        kw["shuffle_all_graphs"] = rng.random() < .7
    if rng.random() < .5:
        seed = kw["seed"] = rng.randrange(1 << 30)
    timeout = float("inf")
    if cost or rng.random() < .1:
        timeout = kw["timeout"] = rng.choice([0, -1, 500, 1500, 3500, 1e9])
    tile, tile_emb, expect_error = None, None, False
    Targ, mapping_tile = T, None
    if op == "sublattice":
        fam = T.graph["family"]
        how = rng.choice(["size", "size", "tile", "tile", "tile", "none"])
        if how == "size":
            kw["sublattice_size"] = rng.randint(1, 4) if fam != "pegasus" else rng.randint(2, 4)
            m = kw["sublattice_size"]
            t = T.graph.get("tile")
            mapping_tile = {"chimera": lambda: dg.chimera_graph(m, m, t), "pegasus": lambda: dg.pegasus_graph(m),
                            "zephyr": lambda: dg.zephyr_graph(m, t)}[fam]()
        elif how == "tile":
            t = T.graph.get("tile")
            k = rng.random()
            if fam == "chimera" or (k < .35 and fam != "pegasus"):
                tile = dg.chimera_graph(rng.randint(1, 3), rng.randint(1, 3), t if fam == "chimera" or rng.random() < .5 else 2 * t, coordinates=rng.random() < .3)
            elif k < .35:
                tile = dg.chimera_graph(rng.randint(1, 2), rng.randint(1, 2), 4, coordinates=rng.random() < .3)
            elif fam == "pegasus":
                tile = dg.pegasus_graph(2, **rng.choice([{}, {"coordinates": True}, {"nice_coordinates": True}]))
            else:
                tile = dg.zephyr_graph(rng.randint(1, 2), t, coordinates=rng.random() < .3)
            if rng.random() < .5:
                _, tile = dwgraphs.damage(rng, tile, rng.choice(["few", "some", "edges", "heavy"]))
                if not len(tile):
                    return {"violations": [], "stats": {"empty-tile": 1}, "evals": 0}
            kw["tile"] = mapping_tile = tile
            if rng.random() < .2:
                kw["sublattice_size"] = rng.randint(1, 3)  # ignored
            if rng.random() < .25:
                S = tile
                if rng.random() < .5 and len(tile) > 8:
                    # a small tile
                    keep = rng.sample(list(tile), rng.randint(2, 8))
                    tile = S = kw["tile"] = mapping_tile = nx.Graph(tile.subgraph(keep))
            elif rng.random() < .4:
                # an embedding in the tile
                P = Embedder(rng, rng.choice(["first", "random"]), shape, 0, 0, None)
                te = P(S, tile)
                OFFSET = 0.0
                if te and not P.capped:
                    tile_emb = te
                    if rng.random() < .15:
                        a = rng.choice(list(te))
                        te[a] = te[rng.choice(list(te))] if len(te) > 1 else te[a]
                    kw["tile_embedding"] = te
                    tadj, sadj = dwgraphs.adj(tile), dwgraphs.adj(S)
                    expect_error = bool(oracle.embedding_faults({v: (c if chains else (c,)) for v, c in te.items()}, sadj, tadj))
        if how != "none" and rng.random() < .4:
            kw["use_tile_embedding"] = rng.choice([True, True, False, None])
        if rng.random() < .3:
            kw["shuffle_sublattice_order"] = rng.random() < .7
        k = rng.random()
        cast = T.graph
        if k < .15 and "torus" not in str(desc) and set(cast) >= {"rows", "columns"}:
            kws = {"m": cast["rows"]}
            if fam == "chimera":
                kws["n"] = cast["columns"]
            if fam != "pegasus":
                kws["t"] = cast["tile"]
            if cast["labels"] == "coordinate":
                kws["coordinates"] = True
            if cast["labels"] == "nice":
                kws["nice_coordinates"] = True
            if fam == "pegasus" and cast["labels"] != "nice":
                kws["fabric_only"] = False
                if "vertical_offsets" in cast:
                    kws["offset_lists"] = (cast["vertical_offsets"], cast["horizontal_offsets"])
            kw["T_family"], kw["T_kwargs"] = fam, kws
            if rng.random() < .5:
                # the graph of a processor without its attributes
                Targ = nx.Graph(list(T.edges))
                Targ.add_nodes_from(T)
            else:
                g = {"chimera": dg.chimera_graph, "pegasus": dg.pegasus_graph, "zephyr": dg.zephyr_graph}[fam](**kws)
                T, Targ = g, None
    S_nodes, S_edges = list(S), list(S.edges)
    sadj, tadj = dwgraphs.adj(S), dwgraphs.adj(T)
    inputs = {"S": S, "T": Targ, "tile": tile, "tile_embedding": tile_emb, "embedder_kwargs": ekw}
    before = {a: snap(b) for a, b in inputs.items()}
    OFFSET = 0.0
    t0 = time.perf_counter()

    def bad(key, msg):
        show = {a: ((b.graph, list(b)[:80], list(b.edges)[:200]) if isinstance(b, nx.Graph) else b) for a, b in kw.items() if a != "embedder"}
        V.append({"key": key, "msg": ("%s\n%s embedder %s/%s/fail %s\nS %r %r\nT %r %r %r\n%r" % (
            msg, op, kind, shape, fail, S_nodes, S_edges, desc, list(T)[:150], list(T.edges)[:300], show))[:6000]})

    def call():
        if op == "multiple":
            return pe.find_multiple_embeddings(S, T, **kw)
        if Targ is None and rng.random() < .5:
            return pe.find_sublattice_embeddings(S, **kw)
        return pe.find_sublattice_embeddings(S, Targ, **kw)

    try:
        embs = call()
    except ValueError as e:
        if expect_error:
            st["refused"] = 1
            return {"violations": V, "stats": st, "evals": 1}
        bad("refused", "ValueError: %s" % e)
        return {"violations": V, "stats": st, "evals": 1}
    searched = timeout > 0
    if expect_error and searched and op == "sublattice":
        # an infeasible source is answered before the tile embedding is looked at
        infeasible = embs == [] and not E.calls and kw.get("use_filter", True)
        if not infeasible:
            bad("tile-embedding", "an invalid tile embedding %r was accepted" % (tile_emb,))
            return {"violations": V, "stats": st, "evals": 1}
    for a, b in inputs.items():
        if snap(b) != before[a]:
            bad("changed", "the %s given was changed: %s\n%s" % (a, before[a], snap(b)))
    if type(embs) is not list:
        bad("type", "returned %r" % (embs,))
        return {"violations": V, "stats": st, "evals": 1}
    st["embeddings"] = len(embs)
    st["several"] = len(embs) > 1
    if timeout <= 0 and (embs or E.calls):
        bad("timeout", "%d embeddings and %d searches in no time" % (len(embs), len(E.calls)))
    if limit is not None and len(embs) > limit:
        bad("limit", "%d embeddings when %r were asked for" % (len(embs), limit))
    used = {}
    for j, emb in enumerate(embs):
        sets = {v: (list(c) if chains else [c]) for v, c in emb.items()}
        f = oracle.embedding_faults(sets, sadj, tadj)
        if f:
            bad("invalid:%s" % f[0][0], "embedding %d %r: %r" % (j, emb, f))
            break
        for v, c in sets.items():
            for q in c:
                if q in used:
                    bad("overlap", "embeddings %d and %d use %r: %r" % (used[q], j, q, embs))
                used[q] = j
    # what the embedder was asked
    taken, snode, sedge = set(), set(S_nodes), {frozenset(e) for e in S_edges}
    pos = {q: n for n, q in enumerate(T)}
    shuffled = kw.get("shuffle_all_graphs", False)
    for n, c in enumerate(E.calls):
        if c["at"] > t0 + timeout + 60:
            bad("late", "search %d starts %.0f s after the start with a timeout of %r" % (n, c["at"] - t0, timeout))
            break
        if set(c["snodes"]) != snode or {frozenset(e) for e in c["sedges"]} != sedge:
            bad("source", "the embedder was given %r %r as source" % (c["snodes"], c["sedges"]))
        if c["kw"] != (ekw or {}):
            bad("kwargs", "the embedder was given %r" % (c["kw"],))
        ns = set(c["nodes"])
        probe = (op == "sublattice" and mapping_tile is not None and n == 0 and ns == set(mapping_tile)
                 and {frozenset(e) for e in c["edges"]} == {frozenset(e) for e in mapping_tile.edges})
        induced = {frozenset((a, b)) for a in ns if a in tadj for b in tadj[a] if b in ns}
        if (not ns <= set(tadj) or {frozenset(e) for e in c["edges"] if e[0] != e[1]} != induced or ns & taken):
            if probe:
                continue
            bad("target", "search %d runs on %r with edges %r, of which %r are used or foreign" % (n, c["nodes"], c["edges"], (ns & taken) | (ns - set(tadj))))
            break
        if shuffled and op == "multiple" or shuffled and op == "sublattice" and mapping_tile is not None and not probe:
            order = [pos[q] for q in c["nodes"]]
            if len(order) >= 14 and order == sorted(order):
                bad("unshuffled", "search %d is given its target in the order %r" % (n, c["nodes"]))
        if not probe:
            out = c["out"]
            taken |= {q for ch in out.values() for q in (ch if chains else [ch])}
    st["searches"] = len(E.calls)
    if op == "multiple" and not V:
        found = [c["out"] for c in E.calls if c["out"]]
        if found != embs:
            bad("lost", "the embedder found %r, returned are %r" % (found, embs))
    # nothing left to find
    complete = not fail and kind in ("first", "random") and not E.capped and (timeout >= 1e9)
    room = limit is None or len(embs) < limit
    if complete and room and searched and not V and S_nodes:
        rest = {q: tadj[q] - set(used) for q in tadj if q not in used}
        try:
            if op == "multiple" or (mapping_tile is None):
                more = search(sadj, rest)
                st["maximal"] = 1
                if more:
                    bad("missed", "%d embeddings returned, and %r was not found" % (len(embs), more))
            else:
                sublattices(bad, st, T, mapping_tile, S, sadj, rest, kw, tile_emb, E, chains, embs)
        except Capped:
            st["capped"] = 1
    # the same again
    if not V and kind == "first" and shape == "one" and not fail and not cost and rng.random() < .3:
        if not (kw.get("shuffle_all_graphs") or kw.get("shuffle_sublattice_order")) or seed is not None:
            again = call()
            st["repeated"] = 1
            if again != embs:
                bad("repeat", "first %r then %r" % (embs, again))
    return {"violations": V, "stats": st, "evals": 1 + len(embs), "sig": "%s %d %s %d" % (desc, len(S_nodes), sorted(map(str, kw)), len(embs)) if embs else None, "case": {"target": desc, "source": [S_nodes, S_edges], "arguments": sorted(kw), "embeddings": len(embs)}}


def sublattices(bad, st, T, tile, S, sadj, rest, kw, tile_emb, E, chains, embs):
    ftile = dwgraphs.adj(tile)
    filt = kw.get("use_filter", True)
    use = kw.get("use_tile_embedding")
    if use is None:
        use = tile is S or tile_emb is not None
    if filt and tile_emb is None and not search(sadj, ftile):
        st["infeasible"] = 1
        return
    one = tile_emb
    if use and one is None:
        if S is tile:
            one = {v: ((v,) if chains else v) for v in S}
        else:
            one = next((c["out"] for c in E.calls if set(c["nodes"]) == set(ftile) and c["out"]), None)
            if one is None:
                return
    maps = {"chimera": dg.chimera_sublattice_mappings, "pegasus": dg.pegasus_sublattice_mappings, "zephyr": dg.zephyr_sublattice_mappings}[T.graph["family"]]
    n = 0
    for f in maps(tile, T):
        n += 1
        if use:
            prop = {v: [f(q) for q in (c if chains else [c])] for v, c in one.items()}
            if not oracle.embedding_faults(prop, sadj, rest):
                bad("missed", "%d embeddings returned, and the tile embedding fits at offset %r: %r" % (len(embs), f.offset, prop))
                break
        else:
            ns = {f(q) for q in ftile} & set(rest)
            if len(ns) < len(sadj):
                continue
            more = search(sadj, {q: rest[q] & ns for q in sorted(ns, key=repr)})
            if more:
                bad("missed", "%d embeddings returned, and %r was not found at offset %r" % (len(embs), more, f.offset))
                break
    st["maximal"] = 1
    st["offsets"] = n


def arrays(rng):
    import numpy as np
    import minorminer.utils.parallel_embeddings as pe
    V, st = [], {"arrays": 1}
    k, n = rng.randint(0, 6), rng.randint(1, 6)
    _, names = dwgraphs.labels(rng, n, allow_int=False)
    names = list(names)
    chains = rng.random() < .4
    embs = []
    for j in range(k):
        order = list(names)
        if j and rng.random() < .3:
            rng.shuffle(order)
        q = iter(rng.sample(range(1000), 3 * n))
        embs.append({v: (tuple(next(q) for _ in range(rng.randint(1, 3))) if chains else next(q)) for v in order})
    order = None
    full = True
    if rng.random() < .7:
        order = rng.sample(names, n) if rng.random() < .7 else rng.sample(names, rng.randint(1, n))
        full = len(order) == n
    seq = order if order is not None else (list(embs[0]) if embs else [])
    given = order if order is None else rng.choice([list, tuple, iter, lambda x: dict.fromkeys(x).keys()])(order)
    nd = not chains and rng.random() < .4 and (embs or order is not None)

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\nembeddings %r order %r ndarray %r" % (msg, embs, order, nd)})
    want = [[e[v] for v in seq] for e in embs]
    keep = repr(embs)
    a = pe.embeddings_to_array(embs, given, nd) if rng.random() < .5 else pe.embeddings_to_array(embs, node_order=given, as_ndarray=nd)
    if nd:
        if not isinstance(a, np.ndarray) or a.shape != (k, len(seq)) or a.tolist() != want:
            bad("array", "array %r, expected %r" % (a, want))
    elif a != want:
        bad("array", "array %r, expected %r" % (a, want))
    if not V and embs:
        back = given if order is None else rng.choice([list, tuple, lambda x: dict.fromkeys(x).keys()])(seq)
        if back is None:
            back = list(seq)
        out = pe.array_to_embeddings(a if rng.random() < .7 or nd else iter(a), back)
        exp = [{v: e[v] for v in seq} for e in embs]
        if out != exp:
            bad("back", "back to %r" % (out,))
        if rng.random() < .3:
            out = pe.array_to_embeddings(a)
            if out != [dict(enumerate(r)) for r in want]:
                bad("back", "back without an order to %r" % (out,))
    if repr(embs) != keep:
        bad("changed", "embeddings changed from %s" % keep)
    # the same graph in another order
    g = source(rng)
    for a, b in g.edges:
        g.edges[a, b]["w"] = rng.randint(0, 9)
    s = rng.randrange(1 << 30)
    h, h2 = pe.shuffle_graph(g, seed=s), pe.shuffle_graph(g, seed=s)
    if set(h) != set(g) or {frozenset(e) for e in h.edges} != {frozenset(e) for e in g.edges} or len(h) != len(g):
        bad("shuffle", "shuffled %r to %r" % (list(g.edges), list(h.edges)))
    if list(h) != list(h2) or list(h.edges) != list(h2.edges):
        bad("shuffle-seed", "one seed, two orders")
    _, T = dwgraphs.random_graph(rng, .6)
    if pe.lattice_size(T) != max(T.graph["rows"], T.graph["columns"]):
        bad("lattice-size", "%r for %r" % (pe.lattice_size(T), T.graph))
    return {"violations": V, "stats": st, "evals": 3, "sig": "a%d %d %s" % (k, n, order)}
