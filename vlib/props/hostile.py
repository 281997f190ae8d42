"""Hostile and degenerate use of find_embedding and miner, for the sanitizer build.

Any result and any ordinary exception is fine here; what the case looks for is a sanitizer
report, a failed internal self-check (AssertionError from the CPPDEBUG diagnostics), a crash
or a hang."""
import copy, hashlib, logging
import networkx as nx
from vlib import graphs, oracle
from vlib.props import search

OK = (ValueError, RuntimeError, TypeError, KeyError, OverflowError, MemoryError, StopIteration, IndexError)


def degenerate(rng):
    k = rng.choice(["none", "one", "loop", "edge", "two", "star", "dense", "iso", "twins"])
    if k == "none":
        return []
    if k == "one":
        g = nx.Graph()
        g.add_node("a")
        return g
    if k == "loop":
        return [("a", "a")]
    if k == "edge":
        return [("a", "b")] * rng.randint(1, 3)
    if k == "two":
        return [(0, 0), (1, 1)] + ([(2, 2)] if rng.random() < .5 else [])
    if k == "star":
        return [(0, i) for i in range(1, rng.randint(2, 9))]
    if k == "dense":
        return list(nx.complete_graph(rng.randint(2, 20)).edges)
    if k == "iso":
        g = nx.empty_graph(rng.randint(1, 6))
        if len(g) > 1 and rng.random() < .7:
            g.add_edge(0, len(g) - 1)
        return g
    return [(0, 1), (1, 0), (0, 0), (2, 3), (3, 2), (2, 2)]


def edges_of(g):
    return (list(g.edges), list(g.nodes)) if isinstance(g, nx.Graph) else (list(g), [])


def hints(rng, S, T):
    """Any hints at all: inconsistent, overlapping, disconnected, empty, duplicated."""
    P = {}
    if not S or not T:
        return P
    def chain(hi=5):
        return [rng.choice(T) for _ in range(rng.randint(0, hi))]
    def chains(p, hi=5):
        d = {v: rng.choice([list, list, tuple, iter])(chain(hi)) if rng.random() < .1 else chain(hi) for v in S if rng.random() < p}
        return d
    which = rng.choice([0, 1, 1, 2, 3])
    for _ in range(which):
        k = rng.choice(["fixed_chains", "initial_chains", "restrict_chains", "suspend_chains"])
        p = rng.choice([.1, .4, .8, 1])
        if k == "suspend_chains":
            P[k] = {v: [chain(4) for _ in range(rng.randint(0, 3))] for v in S if rng.random() < p * .5}
        elif k == "fixed_chains":
            if rng.random() < .5:  # disjoint
                free = list(T)
                rng.shuffle(free)
                P[k] = {}
                for v in S:
                    if free and rng.random() < p:
                        P[k][v] = [free.pop() for _ in range(min(len(free), rng.choice([1, 1, 2, 3])))]
            else:
                P[k] = chains(p, 3)
        elif k == "restrict_chains":
            P[k] = {v: (chain(12) if rng.random() < .5 else rng.sample(T, rng.randint(1, len(T)))) for v in S if rng.random() < p}
        else:
            P[k] = chains(p, rng.choice([1, 5, 40]))
    return P


def params(rng):
    P = graphs.search_params(rng)
    P["timeout"] = rng.choice([0, 1e-9, .01, .5, 2, 2, 2, 2, -1, 1e300, float("inf")])
    if P["timeout"] > 2:
        P["tries"], P["max_no_improvement"] = 2, 3
    if rng.random() < .2:
        P["inner_rounds"] = rng.choice([0, 1, 2, 1000000])
    if rng.random() < .2:
        P["tries"] = rng.choice([0, 1, 20])
    if rng.random() < .2:
        P["max_fill"] = rng.choice([0, 1, 2, 3, 62, 63, 64, 65, 10**6, 2**31 - 1, -1])
    if rng.random() < .2:
        P["max_beta"] = rng.choice([1.0, 1.0000001, 1e-3, 0, -1, 1e300, float("inf"), float("nan"), 2 ** .5])
    if rng.random() < .3:
        P["threads"] = rng.choice([0, 1, 2, 5, 17, 64])
    if rng.random() < .1:
        P["random_seed"] = rng.choice([0, 1, 2**63, 2**64 - 1])
    if rng.random() < .2:
        P["return_overlap"] = True
    if rng.random() < .2:
        P["interactive"] = True
    if rng.random() < .2:
        P["skip_initialization"] = True
    if rng.random() < .1:
        P["verbose"] = rng.choice([1, 2, 3, 4])
    if P.get("threads", 1) > 8:
        P["tries"] = 1
    return P


def gen(i, rng, spec):
    fs = graphs.relabel_scheme(rng)[1]
    if rng.random() < .3:
        S = degenerate(rng)
    else:
        g = graphs.source(rng)[1]
        S = list(g.edges) + [(v, v) for v in g if g.degree(v) == 0]
    if rng.random() < .2:
        T = degenerate(rng)
    else:
        g = graphs.target(rng)[1]
        T = list(g.edges) + [(v, v) for v in g if g.degree(v) == 0]
    P = params(rng)
    if rng.random() < .05:
        # more chains on one qubit than the weights have bits
        n = rng.choice([60, 63, 64, 65, 66, 70, 100, 130])
        S = rng.choice([[(v, (v + 1) % n) for v in range(n)], [(v, v) for v in range(n)], [(0, v) for v in range(1, n)],
                        [(v, rng.randrange(v)) for v in range(1, n)]])
        P.update(tries=1, timeout=rng.choice([.5, 2]), max_no_improvement=2, chainlength_patience=1)
        P.pop("skip_initialization", None)
    return {"S": S, "T": T, "P": P}


def run(i, rng, spec):
    from minorminer import _minorminer as mm
    logging.getLogger("minorminer._minorminer").setLevel(logging.CRITICAL)
    case = gen(i, rng, spec)
    S, T, P = case["S"], case["T"], case["P"]
    se, sn = edges_of(S)
    te, tn = edges_of(T)
    SV = list(oracle.adjacency(se, sn))
    TV = list(oracle.adjacency(te, tn))
    P.update(hints(rng, SV, TV))
    if len(SV) >= 60 and TV and rng.random() < .9:
        piles = [rng.choice(TV) for _ in range(rng.choice([1, 1, 2]))]
        P["initial_chains"] = {v: [rng.choice(piles)] for v in SV if rng.random() < .98}
    case["case"] = repr(P)
    st = {"calls": 0, "exceptions": [], "returned": 0, "embedded": 0}
    V = []

    def call(what, f, *a, **k):
        st["calls"] += 1
        try:
            r = f(*a, **k)
        except AssertionError as e:
            V.append({"key": "self-check:%s" % str(e)[:80], "msg": "%s raised %r\nS=%r\nT=%r\nP=%r" % (what, e, S, T, P)})
            return None
        except OK as e:
            if "MinorMiner" in str(e):
                V.append({"key": "odd-exception", "msg": repr(e)})
            st["exceptions"].append(type(e).__name__ + ":" + str(e)[:40])
            return None
        st["returned"] += 1
        return r

    mode = rng.choice(["fe", "miner"])
    if spec["extra"].get("dbg"):
        # the library's self-checks presume a complete search over at least one free variable
        mode = "fe"
        f = P.get("fixed_chains")
        if f and len(f) >= len(SV):
            f.pop(next(iter(f)))
    if mode == "fe":
        r = call("find_embedding", mm.find_embedding, S, T, **P)
        emb = r[0] if isinstance(r, tuple) else r
        if emb:
            st["embedded"] = 1
            # feed the answer back as hints
            k = rng.choice(["initial_chains", "fixed_chains", "restrict_chains"])
            Q = {a: b for a, b in P.items() if a not in ("initial_chains", "fixed_chains", "suspend_chains", "restrict_chains")}
            Q[k] = {v: c for v, c in list(emb.items())[1:] if rng.random() < .7}
            if k == "initial_chains" and rng.random() < .5:
                Q["skip_initialization"] = True
            call("again", mm.find_embedding, S, T, **Q)
    else:
        m = call("miner", mm.miner, S, T, **P)
        emb = {}
        if m is not None:
            for _ in range(rng.randint(1, 7)):
                op = rng.choice(["find", "finds", "quick", "quick", "set", "improve"])
                if op == "find":
                    r = call(op, m.find_embedding)
                    emb = (r[0] if isinstance(r, tuple) else r) or emb
                elif op == "finds":
                    r = call(op, m.find_embeddings, 2)
                elif op == "quick":
                    k = dict(chainlength_bound=rng.choice([0, 0, 1, 3, 10, -1, 2**31-1, -2**31]), overlap_bound=rng.choice([0, 0, 1, 3, 100, -1, 2**31-1, -2**31]),
                             local_search=rng.random() < .5, clear_first=rng.random() < .5,
                             round_beta=rng.choice([1e64, 1.5, 2.0, 1.0001, .5, 0, -1, -3, -1e300, float("inf"), float("-inf"), float("nan")]))
                    if rng.random() < .5 and SV:
                        k["varorder"] = [rng.choice(SV) for _ in range(rng.randint(1, 8))]
                    else:
                        k["strategy"] = rng.choice(list(mm.VARORDER))
                    r = call(op, m.quickpass, **k)
                    emb = r or emb
                elif op == "set":
                    call(op, m.set_initial_chains, rng.choice([emb, hints(rng, SV, TV).get("initial_chains", {})]))
                else:
                    call(op, m.improve_embeddings, [emb])
            del m
        st["embedded"] = bool(emb)
    st["exception_kinds"] = st.pop("exceptions")
    sig = hashlib.sha256(repr((S if not isinstance(S, nx.Graph) else list(S.edges), len(TV), case["case"])).encode()).hexdigest()[:16]
    return {"violations": V, "stats": st, "sig": sig if st["returned"] else None,
            "case": {"S": len(SV), "T": len(TV), "params": case["case"][:400], "mode": mode}, "evals": st["calls"]}
