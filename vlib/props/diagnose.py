"""Embedding diagnostics against an independent account of every fault."""
import numpy as np
import networkx as nx
from vlib import dwgraphs, graphs


def setup(spec):
    pass


def label_fn(rng, n):
    k = rng.choice(["int", "int", "int", "shift", "str", "tuple", "mixed", "nested", "frozen"])
    perm = list(range(n))
    rng.shuffle(perm)
    return k, {"int": lambda v: v, "shift": lambda v: perm[v] - 2, "str": lambda v: "q%d" % perm[v], "tuple": lambda v: (v // 3, v % 3),
               "mixed": lambda v: [v, "a%d" % v, (v, 1), 1.5 + v][v % 4], "nested": lambda v: (v - 2, v - 1) if v % 3 == 2 else v,
               "frozen": lambda v: frozenset([v, -1])}[k]


def base_target(rng):
    k = rng.choice(["gnp", "gnp", "gnp", "grid", "dwave", "path", "clique", "sparse", "tiny"])
    if k == "dwave":
        while True:
            _, g = dwgraphs.random_graph(rng, .35)
            if 0 < len(g) < 200:
                return k, g
    n = rng.randint(1, 30)
    if rng.random() < .01:
        n, k = rng.randint(100, 400), rng.choice(["path", "sparse", "gnp"])
    g = {"gnp": lambda: nx.gnp_random_graph(n, rng.uniform(.05, .6) if n < 50 else .03, seed=rng.getrandbits(30)), "grid": lambda: nx.convert_node_labels_to_integers(nx.grid_2d_graph(rng.randint(1, 5), rng.randint(1, 6))),
         "path": lambda: nx.path_graph(n), "clique": lambda: nx.complete_graph(min(n, 12)), "sparse": lambda: nx.gnm_random_graph(n, n // 2, seed=rng.getrandbits(30)),
         "tiny": lambda: nx.gnp_random_graph(rng.randint(1, 4), .6, seed=rng.getrandbits(30))}[k]()
    name, f = label_fn(rng, len(g))
    h = nx.relabel_nodes(g, {v: f(v) for v in g}) if rng.random() < .8 else g
    if rng.random() < .1:
        h.add_edges_from((v, v) for v in list(h)[:rng.randint(1, 3)])
    return k + "/" + name, h


def expect(emb, snodes, sedges, tnodes, tadj):
    """Every fault: missing chains, unknown nodes, broken chains, lost edges, and who holds each shared node."""
    missing, invalid, broken, holders, whole = set(), set(), set(), {}, set()
    for x in snodes:
        if x not in emb or len(emb[x]) == 0:
            missing.add(x)
            continue
        c = list(emb[x])
        for q in c:
            if q in tnodes:
                holders.setdefault(q, set()).add(x)
            else:
                invalid.add((x, q))
        if all(q in tnodes for q in c):
            whole.add(x)
            todo, seen = [c[0]], set()
            while todo:
                q = todo.pop()
                if q not in seen:
                    seen.add(q)
                    todo.extend(r for r in tadj[q] if r in set(c))
            if seen != set(c):
                broken.add(x)
    lost = set()
    for x, y in sedges:
        if x != y and x in whole and y in whole:
            cy = set(emb[y])
            if not any(r in cy for q in emb[x] for r in tadj[q]):
                lost.add(frozenset((x, y)))
    return missing, invalid, broken, {q: h for q, h in holders.items() if len(h) > 1}, lost


def run(i, rng, spec):
    import minorminer.utils as mu
    from minorminer.utils import diagnostic as dgn
    V, st = [], {"cases": 1}
    tname, T = base_target(rng)
    tnodes = list(T)
    # disjoint connected chains and the edges they realise
    free, chains = set(tnodes), []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 20])):
        if not free:
            break
        root = rng.choice(sorted(free, key=repr))
        c, want = [root], rng.choice([1, 1, 2, 3, 6])
        free.discard(root)
        while len(c) < want:
            nb = sorted({r for q in c for r in T[q] if r in free}, key=repr)
            if not nb:
                break
            c.append(rng.choice(nb))
            free.discard(c[-1])
        chains.append(c)
    k = len(chains)
    sname, f = label_fn(rng, max(k, 1))
    names = [f(v) for v in range(k)]
    emb = {names[a]: list(c) for a, c in enumerate(chains)}
    where = {q: a for a, c in enumerate(chains) for q in c}
    quot = {(min(where[p], where[q]), max(where[p], where[q])) for p, q in T.edges if p in where and q in where and where[p] != where[q]}
    p = rng.choice([0, .5, 1, 1])
    sedges = [(names[a], names[b]) for a, b in sorted(quot) if rng.random() < p]
    Tn, Te = list(tnodes), [tuple(e) for e in T.edges]
    muts = []
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3, 6])):
        m = rng.choice(["drop", "empty", "foreign", "foreign", "overlap", "overlap", "cut", "newedge", "newedge", "newnode", "lessT", "lessT", "lessnode", "swap", "extra", "repeat", "loop", "shareall", "stray", "lookalike"])
        ks = sorted(emb, key=repr)
        if m == "drop" and ks:
            del emb[rng.choice(ks)]
        elif m == "empty" and ks:
            emb[rng.choice(ks)] = []
        elif m == "foreign" and ks:
            c = emb[rng.choice(ks)]
            c.insert(rng.randint(0, len(c)), rng.choice(["?", -99, (7, 7, 7), 10 ** 9]))
        elif m == "overlap" and ks and tnodes:
            emb[rng.choice(ks)].append(rng.choice(rng.choice([c for c in emb.values() if c] or [tnodes])))
        elif m == "shareall" and len(ks) > 1:
            q = rng.choice(tnodes)
            for x in rng.sample(ks, rng.randint(2, len(ks))):
                emb[x].append(q)
        elif m == "stray" and ks:
            emb[rng.choice(ks)].append(rng.choice(tnodes))
        elif m == "cut" and ks:
            c = emb[rng.choice(ks)]
            if len(c) > 1:
                c.pop(rng.randrange(len(c)))
        elif m == "newedge" and len(names) > 1:
            sedges.append(tuple(rng.sample(names, 2)))
        elif m == "newnode":
            names.append("new%d" % len(names))
        elif m == "lessT" and Te:
            # the only edge between two chains, when there is one
            c = [e for e in Te if where.get(e[0]) is not None and where.get(e[1]) is not None]
            Te.remove(rng.choice(c or Te))
        elif m == "lessnode" and Tn:
            q = rng.choice(Tn)
            Tn.remove(q)
            Te = [e for e in Te if q not in e]
        elif m == "swap" and len(ks) > 1:
            a, b = rng.sample(ks, 2)
            emb[a], emb[b] = emb[b], emb[a]
        elif m == "extra":
            emb["unused%d" % len(emb)] = rng.sample(tnodes, 1) + (["??"] if rng.random() < .3 else [])
        elif m == "repeat" and ks:
            c = emb[rng.choice(ks)]
            c.extend(c[:1])
        elif m == "lookalike" and ks:
            # a chain that, as a tuple, is also the label of one node
            c = [q for q in tnodes if isinstance(q, tuple) and set(q) <= set(tnodes)]
            if not c:
                continue
            emb[rng.choice(ks)] = list(rng.choice(c))
        elif m == "loop" and names:
            x = rng.choice(names)
            sedges.append((x, x))
        else:
            continue
        muts.append(m)

    def present(nodes, edges, kind):
        edges = [e if rng.random() < .5 else e[::-1] for e in edges]
        rng.shuffle(edges)
        if kind == "edges":
            return list(edges), {v for e in edges for v in e}
        if kind == "tuple":
            return tuple(edges), {v for e in edges for v in e}
        g = {"graph": nx.Graph, "multi": nx.MultiGraph, "ordered": nx.Graph, "view": nx.Graph, "dict": nx.Graph}[kind]()
        nodes = list(nodes)
        rng.shuffle(nodes)
        g.add_nodes_from(nodes)
        g.add_edges_from(edges)
        if kind == "multi":
            g.add_edges_from(edges[:2])
        if kind == "dict":
            return {v: list(g[v]) for v in g}, set(g)
        return (g.subgraph(nodes) if kind == "view" else g), set(g)
    kinds = ["graph", "graph", "graph", "edges", "edges", "multi", "view", "dict", "tuple"]
    ks_, kt_ = rng.choice(kinds), rng.choice(kinds)
    # a dict or an empty list of edges says nothing of the nodes of other presentations
    S_, snodes = present(names, sedges, ks_)
    T_, tset = present(Tn, Te, kt_)
    tadj = {v: set() for v in tset}
    for p_, q_ in Te:
        tadj[p_].add(q_)
        tadj[q_].add(p_)
    loops = any(a == b for a, b in Te)
    ints = all(type(q) is int for c in emb.values() for q in c)

    def box(c):
        b = rng.choice([list, list, tuple, set, frozenset, dict.fromkeys] + ([np.array] if ints else []))
        return b(c)
    given = {x: box(c) for x, c in emb.items()}
    want = expect(given, snodes, sedges, tset, tadj)
    desc = "source %s %r\ntarget %s %s %r\nembedding %r\nmutations %r" % (ks_, S_ if isinstance(S_, (list, tuple, dict)) else (list(S_), list(S_.edges)), tname, kt_, (sorted(tset, key=repr), sorted(Te, key=repr)), given, muts)

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s" % (msg, desc[:5000])})
    # an oddly built list of edges such as [] is a graph without nodes
    got = list(dgn.diagnose_embedding(given, S_, T_))
    missing, invalid, broken, shared, lost = set(), set(), set(), {}, set()
    for e in got:
        x = e[0](*e[1:])
        if not str(x) or not isinstance(x, mu.exceptions.EmbeddingError):
            bad("exception", "%r makes %r" % (e, x))
        if e[0] is mu.MissingChainError:
            missing.add(x.source_node)
        elif e[0] is mu.InvalidNodeError:
            invalid.add((x.source_node, x.target_node))
        elif e[0] is mu.DisconnectedChainError:
            broken.add(x.source_node)
        elif e[0] is mu.ChainOverlapError:
            a, b = x.source_nodes
            if a == b:
                bad("overlap", "node %r is said to be shared by %r and itself" % (x.target_node, a))
            shared.setdefault(x.target_node, nx.Graph()).add_edge(a, b)
        elif e[0] is mu.MissingEdgeError:
            lost.add(frozenset(x.source_nodes))
        else:
            bad("class", "unknown report %r" % (e,))
    for what, a, b in (("missing", missing, want[0]), ("invalid", invalid, want[1]), ("broken", broken, want[2]), ("edges", lost, want[4])):
        if a != b and not (what == "edges" and loops and want[3] and a <= b):
            bad(what, "reported %r instead of %r" % (a, b))
    if {q: set(g) for q, g in shared.items()} != want[3] or any(not nx.is_connected(g) for g in shared.values()):
        bad("overlap", "reported overlaps %r instead of %r" % ({q: list(g.edges) for q, g in shared.items()}, want[3]))
    valid = not any(want)
    st["valid"] = int(valid)
    st["faults"] = sum(map(len, want))
    if dgn.is_valid_embedding(given, S_, T_) is not (not got):
        bad("is_valid", "is_valid_embedding says %r although the diagnosis is %r" % (bool(got), got))
    ignore = rng.choice([(), (), [mu.InvalidNodeError], {mu.MissingEdgeError, mu.MissingChainError}, (mu.ChainOverlapError, mu.DisconnectedChainError, mu.MissingEdgeError),
                         (mu.ChainOverlapError, mu.DisconnectedChainError, mu.MissingEdgeError, mu.MissingChainError, mu.InvalidNodeError)])
    kinds = {mu.MissingChainError: missing, mu.InvalidNodeError: invalid, mu.DisconnectedChainError: broken, mu.ChainOverlapError: shared, mu.MissingEdgeError: lost}
    left = {c for c, s in kinds.items() if s and c not in ignore}
    try:
        r = dgn.verify_embedding(given, S_, T_, ignore) if ignore or rng.random() < .5 else mu.verify_embedding(given, S_, T_)
        if r is not True or left:
            bad("verify", "verify_embedding gave %r ignoring %r although the diagnosis is %r" % (r, ignore, got))
    except mu.exceptions.EmbeddingError as e:
        if type(e) not in left:
            bad("verify", "verify_embedding raised %r ignoring %r although the diagnosis is %r" % (e, ignore, got))
        else:
            st["raised"] = 1
    return {"violations": V, "stats": st, "evals": 1, "sig": desc[:500] if k else None, "case": {"diagnose": desc[:600]}}
