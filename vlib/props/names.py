"""The same seeded search with other labels, containers, edge directions, repeated edges and hint orders: the same answer."""
import hashlib
from vlib import graphs, oracle
from vlib.props import search

HINTS = ("initial_chains", "fixed_chains", "restrict_chains")


class Label:
    """a label with nothing but an identity"""
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "L%d" % self.i


class Clash:
    """labels which all have the same hash"""
    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Clash) and o.i == self.i

    def __repr__(self):
        return "C%d" % self.i


def scheme(rng, nodes):
    """new names for nodes: a dict"""
    k = rng.choice(["shuffle", "reverse", "other", "other", "object", "clash", "text"])
    n = list(nodes)
    if k == "shuffle":
        m = list(n)
        rng.shuffle(m)
    elif k == "reverse":
        m = n[::-1]
    elif k == "other":
        f = graphs.relabel_scheme(rng)[1]
        m = [f(i) for i in range(len(n))]
        rng.shuffle(m)
    elif k == "object":
        m = [Label(i) for i in range(len(n))]
    elif k == "clash":
        m = [Clash(i) for i in range(len(n))]
    else:
        m = ["%032x" % rng.getrandbits(120) for _ in n]
    return k, dict(zip(n, m))


def rewrite(rng, edges):
    """another list of the same edges, in which nodes appear for the first time in the same order"""
    seen, out, old = set(), [], []
    for a, b in edges:
        if a in seen and b in seen and rng.random() < .5:
            a, b = b, a
        seen.update((a, b))
        out.append((a, b))
        old.append((a, b))
        while rng.random() < .15:
            x = rng.choice(old)
            out.append(x if rng.random() < .5 else x[::-1])
        if rng.random() < .05:
            out.append((a, a))
    return out


def boxed(rng, edges):
    k = rng.choice(["list", "tuple", "iter", "lists", "dict", "nx"])
    if k == "nx":
        # a graph which gives the edges in this order, and has the isolated nodes at the end only as nodes
        class G:
            pass
        g, e = G(), list(edges)
        while e and e[-1][0] == e[-1][1] and not any(e[-1][0] in x for x in e[:-1]):
            e.pop()
        order = list(dict.fromkeys(v for x in e for v in x))
        rng.shuffle(order)
        last = [x[0] for x in edges[len(e):]]
        for v in order:
            last.insert(rng.randint(0, len(last)), v)
        g.edges = lambda: e
        g.nodes = lambda: last
        return k, g
    return k, {"list": list, "tuple": tuple, "iter": iter, "lists": lambda x: [list(e) for e in x],
               "dict": lambda x: dict.fromkeys(map(tuple, x)).keys()}[k](edges)


def run(i, rng, spec):
    from minorminer import find_embedding
    case = search.gen(i, rng, dict(spec, extra={"focus": rng.choice(["mixed", "constraints"])}))
    mkS, mkT = case.pop("_mk")
    sadj = oracle.adjacency(case["S"], case["Snodes"])
    tadj = oracle.adjacency(case["T"], case["Tnodes"])
    P = case["params"]
    P["timeout"] = 1000
    P.pop("verbose", None)
    P.pop("interactive", None)
    search.add_hints(case, rng, sadj, tadj, find_embedding)
    for k in HINTS:
        if k in P:
            P[k] = {v: list(c) if isinstance(c, (list, tuple)) else [] for v, c in P[k].items()}
    if "suspend_chains" in P:
        P["suspend_chains"] = {v: [list(b) for b in bs] for v, bs in P["suspend_chains"].items()}

    def listed(g):
        if not hasattr(g, "edges"):
            return [tuple(e) for e in g]
        e = list(g.edges())
        met = {v for x in e for v in x}
        return e + [(v, v) for v in g.nodes() if v not in met]
    S, T = listed(mkS()), listed(mkT())
    calls = [0]

    def ask(S, T, P):
        calls[0] += 1
        try:
            r = find_embedding(S, T, **P)
        except (RuntimeError, ValueError) as e:
            return type(e).__name__, None
        if isinstance(r, tuple):
            return list((v, list(c)) for v, c in r[0].items()), bool(r[1])
        return list((v, list(c)) for v, c in r.items()), None

    base = ask(list(S), list(T), P)
    V, st = [], {"embedded": int(type(base[0]) is list and bool(base[0])), "refused": int(type(base[0]) is str), "names": [], "boxes": []}
    snodes = list(dict.fromkeys(v for e in S for v in e))
    tnodes = list(dict.fromkeys(v for e in T for v in e))
    # the order of equally large components follows the order of the edges, so only names are exchanged where there are several
    whole = all(len(oracle.components(oracle.adjacency(E, []))) == 1 for E in (S, T))
    st["connected"] = int(whole)
    for rep in range(4):
        rename, other = rep in (0, 2, 3), rep in (1, 2, 3)
        dup = other and whole
        ks, f = scheme(rng, snodes) if rename else ("same", {v: v for v in snodes})
        kt, g = scheme(rng, tnodes) if rename else ("same", {v: v for v in tnodes})
        S2, T2 = (rewrite(rng, S), rewrite(rng, T)) if dup else (S, T)
        bs, S2 = boxed(rng, [(f[a], f[b]) for a, b in S2]) if other else ("list", [(f[a], f[b]) for a, b in S2])
        bt, T2 = boxed(rng, [(g[a], g[b]) for a, b in T2]) if other else ("list", [(g[a], g[b]) for a, b in T2])
        st["names"] += [ks, kt]
        st["boxes"] += [bs, bt]
        Q = dict(P)
        for k in HINTS:
            if k in P:
                items = [(f.get(v, v), [g.get(q, q) for q in c]) for v, c in P[k].items()]
                if other:
                    rng.shuffle(items)
                    items = [(v, rng.choice([list, tuple, lambda c: c])(c)) for v, c in items]
                Q[k] = dict(items)
        if "suspend_chains" in P:
            Q["suspend_chains"] = {f[v]: [[g[q] for q in b] for b in bl] for v, bl in P["suspend_chains"].items()}
        got = ask(S2, T2, Q)
        want = base if type(base[0]) is str else ([(f[v], [g[q] for q in c]) for v, c in base[0]], base[1])
        if got != want:
            V.append({"key": "renamed" if not other else "both" if rename else "rewritten",
                      "msg": "source names %s, target names %s, source as %s, target as %s\nexpected %r\ngot      %r\nS=%r\nT=%r\n%r\nbecame %r" % (ks, kt, bs, bt, want, got, S, T, P, Q)})
            V[-1]["msg"] = V[-1]["msg"][:9000]
            break
    sig = hashlib.sha256(repr(base).encode()).hexdigest()[:16] if st["embedded"] else None
    st["hints"] = [k for k in HINTS + ("suspend_chains",) if k in P]
    return {"violations": V, "stats": st, "sig": sig, "evals": calls[0], "case": {"source": case["source"], "target": case["target"], "params": repr(P)[:300]}}
