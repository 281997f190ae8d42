"""The same seeded search under different circumstances: each must give the same chains."""
import hashlib, logging, random, threading, time
import networkx as nx
from vlib import graphs, oracle
from vlib.props import search


def canon(x):
    """A text that does not depend on hash randomisation, except through the order in which x is iterated."""
    if isinstance(x, frozenset):  # only labels are frozensets
        return "fs" + repr(sorted(map(canon, x)))
    if isinstance(x, dict):
        return "{" + ",".join(canon(k) + ":" + canon(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, set)):
        return "[" + ",".join(map(canon, x)) + "]"
    if isinstance(x, tuple):
        return "(" + ",".join(map(canon, x)) + ")"
    return repr(x)


def shape(g):
    """What a graph argument offers the parser, in order."""
    if hasattr(g, "edges"):
        return canon([list(g.edges()), list(g.nodes())])
    return canon([tuple(e) for e in g])


def gen(i, rng, spec):
    case = search.gen(i, rng, dict(spec, extra={"focus": "mixed"}))
    P = case["params"]
    P["timeout"] = 1000
    P.pop("verbose", None)
    P.pop("interactive", None)
    case["hard"] = rng.random() < .25
    return case


class Handler(logging.Handler):
    def __init__(self, act):
        super().__init__()
        self.act, self.n, self.busy = act, 0, False

    def handle(self, record):  # without the handler's lock
        self.n += 1
        if self.n < 200:
            self.act()
        return True


def run(i, rng, spec):
    from minorminer import find_embedding, _minorminer as mm
    case = gen(i, rng, spec)
    mkS, mkT = case.pop("_mk")
    sadj = oracle.adjacency(case["S"], case["Snodes"])
    tadj = oracle.adjacency(case["T"], case["Tnodes"])
    search.add_hints(case, rng, sadj, tadj, find_embedding)
    P = case["params"]
    for k in ("initial_chains", "fixed_chains", "restrict_chains"):
        if k in P:  # an iterator would be consumed by the first call
            P[k] = {v: (c if isinstance(c, (list, tuple)) else []) for v, c in P[k].items()}
    if rng.random() < .15:
        P["random_seed"] = rng.choice([0, 1, 2**32, 2**64 - 1])
    V = []
    asked = canon(P) + shape(mkS()) + shape(mkT())
    count = {"calls": 0}

    def one(**kw):
        count["calls"] += 1
        try:
            r = find_embedding(mkS(), mkT(), **dict(P, **kw))
        except (RuntimeError, ValueError) as e:
            return "%s:%s" % (type(e).__name__, e)
        e, f = r if isinstance(r, tuple) else (r, None)
        return canon([(v, list(c)) for v, c in e.items()]) + repr(f and bool(f))

    base = one()
    ways = {"again": one()}
    pick = spec["extra"].get("ways")
    # after unrelated searches, with other seeds
    for _ in range(rng.randint(1, 3)):
        find_embedding(nx.complete_graph(rng.randint(2, 5)), nx.grid_2d_graph(4, 5), random_seed=rng.getrandbits(40), tries=1,
                       threads=rng.choice([1, 1, 2]), timeout=10)
    junk = [bytes([rng.randrange(256)]) * rng.randrange(10, 100000) for _ in range(20)]
    del junk
    ways["later"] = one()
    lg = logging.getLogger("minorminer._minorminer")
    lv = lg.level
    lg.setLevel(logging.CRITICAL)
    ways["verbose"] = one(verbose=rng.choice([1, 2, 3]))
    ways["interactive"] = one(interactive=True)
    lg.setLevel(lv)
    if rng.random() < .3:
        # searches that take turns: the log handler lets another thread run, or searches itself
        other = rng.random() < .4
        h = Handler((lambda: find_embedding(nx.complete_graph(3), nx.grid_2d_graph(3, 3), random_seed=5, timeout=10)) if other else (lambda: time.sleep(0)))
        lg.addHandler(h)
        lg.setLevel(logging.DEBUG)
        try:
            if other:
                ways["handler searches"] = one(verbose=2)
            else:
                v = [rng.choice([1, 2, 3]) for _ in range(3)]
                got = [None] * 3
                ts = [threading.Thread(target=lambda k=k: got.__setitem__(k, one(verbose=v[k]))) for k in range(3)]
                [t.start() for t in ts]
                [t.join() for t in ts]
                ways.update(("python thread %d" % k, got[k] or "nothing") for k in range(3))
        finally:
            lg.removeHandler(h)
            lg.setLevel(lv)
        count["interleaved"] = h.n
    if rng.random() < .3:
        ways["timeout"] = one(timeout=rng.choice([500, 1e5]))
    for k, r in ways.items():
        if r != base:
            V.append({"key": "differs:" + k, "msg": "first call: %s\n%s: %s\ncase: %r" % (base[:1500], k, r[:1500], case)})
    th = rng.choice([2, 3, 5, 8])
    if P.get("threads", 1) <= 1 and rng.random() < .7:
        a = one(threads=th)
        for rep in range(2):
            b = one(threads=th)
            if a != b:
                V.append({"key": "differs:threads", "msg": "threads=%d: %s\nthen: %s\ncase: %r" % (th, a[:1500], b[:1500], case)})
    else:
        a = ""
    # an object API run with the same parameters
    st = {"calls": count["calls"], "embedded": int("[(" in base and "RuntimeError" not in base),
          "failed": int(base.startswith(("Runt", "Value"))), "threads_repeated": int(bool(a)), "log_calls_with_a_switch": count.get("interleaved", 0), "threads_in_case": int(P.get("threads", 1) > 1)}
    sig = hashlib.sha256(base.encode()).hexdigest()[:16] if st["embedded"] else None
    P = {k: v for k, v in P.items()}
    return {"violations": V, "stats": st, "sig": sig, "evals": count["calls"], "collect": [hashlib.sha256(asked.encode()).hexdigest(), hashlib.sha256((base + "|" + a).encode()).hexdigest()],
            "case": {"source": case["source"], "target": case["target"], "params": repr(P)[:300]}}
