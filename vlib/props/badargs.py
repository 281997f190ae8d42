"""Malformed arguments and failing calls, interleaved with valid ones whose answers are known."""
import collections, hashlib, logging, resource, sys
import networkx as nx

ALLOWED = Exception
S0 = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
T0 = list(nx.convert_node_labels_to_integers(nx.grid_2d_graph(4, 5)).edges)
REF = []
UNRAISABLE = []


class Boom(Exception):
    pass


class Hostile:
    """An object each of whose protocol methods raises."""
    def __init__(self, what):
        self.what = what
    def __hash__(self):
        if self.what == "hash":
            raise Boom("hash")
        return 7
    def __eq__(self, o):
        if self.what == "eq":
            raise Boom("eq")
        return self is o
    def __iter__(self):
        if self.what == "iter":
            raise Boom("iter")
        if self.what == "next":
            yield (0, 1)
            raise Boom("next")
        yield from [(0, 1), (1, 2)]
    def __int__(self):
        if self.what == "int":
            raise Boom("int")
        return 3
    __index__ = __int__
    def __float__(self):
        if self.what == "float":
            raise Boom("float")
        return 1.0
    def __bool__(self):
        if self.what == "bool":
            raise Boom("bool")
        return True
    def __getitem__(self, k):
        raise Boom("getitem")
    def __len__(self):
        raise Boom("len")


class EdgesAttr:
    def __init__(self, what):
        self.what = what
        self.edges = {"none": None, "list": [(0, 1)], "raise": self.bad}.get(what, lambda: [(0, 1), (1, 2)])
    def bad(self):
        raise Boom("edges")
    def nodes(self):
        if self.what == "nodes":
            raise Boom("nodes")
        if self.what == "unhashable":
            return [[1]]
        return Hostile("iter") if self.what == "iter" else [0, 1, 2, 9]


class BadMap(collections.abc.Mapping):
    def __init__(self, what, keys=(0, 1)):
        self.what, self.ks = what, keys
    def __iter__(self):
        if self.what == "iter":
            raise Boom("iter")
        yield from self.ks
        if self.what == "late":
            raise Boom("late")
    def __len__(self):
        return len(self.ks)
    def __getitem__(self, k):
        if self.what == "get":
            raise Boom("get")
        return Hostile("next") if self.what == "chain" else [1, 2]


def late(edges):
    yield from edges
    raise Boom("late")


HOST = ["hash", "eq", "iter", "next", "int", "float", "bool", "ok"]


def junk(rng):
    k = rng.randrange(16)
    return [None, 0, -1, 3.5, "abc", b"xy", object(), [], {}, (), [1, [2]], {1: 2}, float("nan"), Hostile(rng.choice(HOST)), set([1]), 1 << 80][k]


def bad_graph(rng, edges):
    k = rng.randrange(18)
    e = list(edges)
    return ("graph%d" % k, [
        lambda: None, lambda: 5, lambda: "ab", lambda: "abc", lambda: [1, 2], lambda: e + [(1, 2, 3)], lambda: e + [(1,)],
        lambda: e + [([1], 2)], lambda: late(e), lambda: Hostile(rng.choice(HOST)), lambda: EdgesAttr(rng.choice(["none", "list", "raise", "nodes", "unhashable", "iter", "ok"])),
        lambda: {0: 1}, lambda: e + [(Hostile("hash"), 1)], lambda: e + [(Hostile("eq"), Hostile("eq"))], lambda: [None], lambda: [], lambda: e + [None],
        lambda: [(float("nan"), float("nan")), (float("nan"), 1)]][k]())


INTS = ["max_no_improvement", "random_seed", "tries", "verbose", "chainlength_patience", "inner_rounds", "max_fill", "threads",
        "return_overlap", "skip_initialization"]
FLOATS = ["timeout", "max_beta"]
HINTS = ["fixed_chains", "initial_chains", "restrict_chains", "suspend_chains"]


def bad_param(rng):
    """(what, name, value, exception that must come or None)"""
    k = rng.random()
    if k < .1:
        return "unknown", rng.choice(["Tries", "seed", "foo", "timeouts", "max_fills", "", "chains"]), rng.choice([1, None]), ValueError
    if k < .35:
        v = junk(rng)
        n = rng.choice(INTS + FLOATS + ["interactive"])
        if isinstance(v, float) and v != v and n == "timeout":
            v = None
        if n == "timeout" and not isinstance(v, (str, bytes, list, dict, tuple, set, Hostile)):
            v = "x"
        return "junk", n, v, None
    if k < .5:
        n = rng.choice(INTS)
        v = rng.choice([1 << 31, -(1 << 31) - 1, 1 << 64, -(1 << 70), 2 ** 63, -1]) if n != "chainlength_patience" else rng.choice([1 << 31, 1 << 64])
        if n in ("tries", "inner_rounds", "max_no_improvement") and v == -1:
            v = 1 << 33
        return "range", n, v, None
    n = rng.choice(HINTS)
    sus = n == "suspend_chains"
    w = (lambda c: [c]) if sus else (lambda c: c)
    j = rng.randrange(14)
    if j == 0:
        return "unknown-source", n, {"nobody": w([1])}, RuntimeError
    if j == 1:
        return "unknown-target", n, {0: w([1, "nowhere"])}, RuntimeError
    if j == 2:
        return "unknown-both", n, {0: w([1]), "nobody": w(["nowhere"])}, RuntimeError
    v = [None, None, None, {0: w([[1]])}, {0: w(5)}, {0: 5}, junk(rng), BadMap(rng.choice(["iter", "late", "get", "chain"])), {0: w(late([1, 2]))},
         {0: w(Hostile(rng.choice(HOST)))}, [(0, [1])], [0, 1], {0: w("12")}, {0: w({3: 4})}][j]
    return "hint%d" % j, n, v, None


def good(mm, j):
    """Reference problems; each must give the same answer for ever."""
    P = dict(random_seed=17 + j, tries=2, timeout=20)
    if j == 0:
        return mm.find_embedding(S0, T0, **P)
    if j == 1:
        return mm.find_embedding(nx.complete_graph(5), nx.grid_2d_graph(6, 6), return_overlap=True, **P)
    if j == 2:
        return mm.find_embedding(S0, T0, fixed_chains={0: [0, 1]}, restrict_chains={1: list(range(15))}, threads=2, **P)
    if j == 3:
        m = mm.miner(S0, T0, **P)
        return [m.quickpass(), m.find_embedding(), m.quickpass(clear_first=False, overlap_bound=1)]
    return mm.find_embedding(S0, T0, suspend_chains={0: [[5, 6], [15]]}, initial_chains={1: [3]}, **P)


def setup(spec):
    from minorminer import _minorminer as mm
    logging.getLogger("minorminer._minorminer").setLevel(logging.CRITICAL)
    REF[:] = [good(mm, j) for j in range(5)]
    sys.unraisablehook = lambda u: UNRAISABLE.append("%r in %r" % (u.exc_value, u.object))


class Low:
    """Little address space left: threads cannot be started."""
    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        vm = int(open("/proc/self/statm").read().split()[0]) * 4096
        resource.setrlimit(resource.RLIMIT_AS, (vm + (6 << 20), self.old[1]))
    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_AS, self.old)


def run(i, rng, spec):
    from minorminer import _minorminer as mm
    V, st = [], {"calls": 0, "exception_kinds": [], "raised": 0, "returned": 0}
    trace = []
    UNRAISABLE.clear()

    def attempt(what, f, must=None):
        st["calls"] += 1
        trace.append(what)
        try:
            r = f()
        except Exception as e:
            st["raised"] += 1
            st["exception_kinds"].append("%s:%s" % (type(e).__name__, str(e)[:30]))
            if isinstance(e, (SystemError, AssertionError)):
                V.append({"key": "odd-exception:%s" % type(e).__name__, "msg": "%s raised %r" % (what, e)})
            if must and not isinstance(e, must):
                V.append({"key": "wrong-exception", "msg": "%s raised %r, not %s" % (what, e, must.__name__)})
            return e
        except BaseException as e:
            V.append({"key": "not-an-Exception", "msg": "%s raised %r" % (what, e)})
            return e
        st["returned"] += 1
        if must:
            V.append({"key": "accepted", "msg": "%s returned %r instead of raising %s" % (what, r, must.__name__)})
        return None

    mode = rng.choice(["find", "find", "miner", "method", "method", "low", "empty", "full"])
    base = dict(timeout=1, tries=1, max_no_improvement=2, random_seed=rng.getrandbits(30))
    if mode in ("find", "miner"):
        for _ in range(rng.randint(1, 3)):
            S, T, P, must, what = S0, T0, dict(base), None, []
            if rng.random() < .5:
                if rng.random() < .5:
                    w, S = bad_graph(rng, S0)
                else:
                    w, T = bad_graph(rng, T0)
                what.append(w)
            else:
                for _ in range(rng.choice([1, 1, 2])):
                    w, n, v, m = bad_param(rng)
                    P[n] = v
                    what.append("%s %s=%r" % (w, n, v if type(v) in (int, str, float, dict, list) else type(v)))
                    must = m if len(what) == 1 else None
            f = mm.find_embedding if mode == "find" else mm.miner
            attempt("%s: %s" % (mode, "; ".join(what)), lambda: f(S, T, **P), must)
    elif mode == "low":
        P = dict(base, threads=rng.choice([2, 4, 9, 16]), tries=2)
        if rng.random() < .5:
            with Low():
                attempt("find_embedding without room for threads", lambda: mm.find_embedding(S0, T0, **P))
        else:
            m = mm.miner(S0, T0, **P)
            with Low():
                attempt("miner without room for threads", lambda: m.find_embedding())
                attempt("quickpass without room for threads", lambda: m.quickpass())
            attempt("miner afterwards", lambda: m.find_embedding())
    elif mode == "full":
        # fixed chains leave few qubits, or none, for the other variables
        q = rng.randint(1, 6)
        T = rng.choice([nx.path_graph, nx.complete_graph, nx.star_graph])(q)
        S = rng.choice([nx.path_graph, nx.empty_graph, nx.complete_graph])(rng.randint(2, 5))
        free = list(T)
        rng.shuffle(free)
        left = rng.choice([0, 0, 0, 1])
        k = rng.randint(1, len(S) - 1)
        F = {v: [] for v in range(k)}
        for q in free[left:]:
            F[rng.randrange(k)].append(q)
        P = dict(base, fixed_chains={v: c for v, c in F.items() if c}, return_overlap=rng.random() < .5)
        if rng.random() < .4:
            P["threads"] = rng.choice([2, 3])
        if rng.random() < .3:
            P["restrict_chains"] = {k: rng.sample(sorted(T), rng.randint(1, len(T)))}
        if rng.random() < .3:
            P["max_fill"] = rng.choice([0, 1, 2])
        if rng.random() < .3:
            P["suspend_chains"] = {k: [rng.sample(sorted(T), 1)]}
        trace.append((list(S.edges), list(T.edges), P))
        attempt("find_embedding without free qubits", lambda: mm.find_embedding(S, T, **P))
        box = []
        attempt("miner without free qubits", lambda: box.append(mm.miner(S, T, **P)))
        for m in box:
            attempt("find without free qubits", lambda: m.find_embedding())
            attempt("quickpass without free qubits", lambda: m.quickpass(local_search=rng.random() < .5, overlap_bound=rng.choice([0, 2])))
    elif mode == "empty":
        ro = rng.random() < .5
        S = rng.choice([[], nx.Graph(), (), iter([])])
        T = rng.choice([[], nx.Graph(), T0, T0])
        P = dict(base, return_overlap=ro)
        box = []
        attempt("empty source", lambda: box.append(mm.find_embedding(S, T, **P)))
        if box and box[0] != (({}, 1) if ro else {}):
            V.append({"key": "empty-source", "msg": "find_embedding of an empty source with return_overlap=%r gave %r" % (ro, box[0])})
        attempt("empty target", lambda: mm.find_embedding(S0, rng.choice([[], nx.Graph()]), **P), ValueError)
        attempt("miner of empty source", lambda: mm.miner([], T0, **base), ValueError)
    else:
        # the same history of valid calls, with and without failing calls in between, gives the same answers
        P = dict(base)
        if rng.random() < .5:
            P["initial_chains"] = {0: [rng.randrange(20)], 1: [rng.randrange(20)]}
        if rng.random() < .3:
            P["threads"] = 2
        a, b = mm.miner(S0, T0, **P), mm.miner(S0, T0, **P)
        for _ in range(rng.randint(2, 5)):
            for _ in range(rng.randint(0, 3)):
                op = rng.choice(["varorder", "varjunk", "strategy", "keepfirst", "bound", "n", "set", "set", "improve", "key", "names"])
                if op == "varorder":
                    attempt("quickpass unknown label", lambda: a.quickpass(varorder=[0, "zz"]), ValueError)
                elif op == "varjunk":
                    j = rng.choice([5, object(), [[1]], Hostile("iter"), [Hostile("hash")], late([0])])
                    attempt("quickpass varorder=%r" % type(j), lambda: a.quickpass(varorder=j), Exception)
                elif op == "strategy":
                    j = rng.choice(["x", object(), [1], 1.5j])
                    attempt("quickpass strategy=%r" % (j,), lambda: a.quickpass(strategy=j), Exception)
                elif op == "bound":
                    attempt("quickpass big bound", lambda: a.quickpass(**{rng.choice(["chainlength_bound", "overlap_bound"]): rng.choice([1 << 40, "3", -(1 << 50)])}), Exception)
                elif op == "n":
                    attempt("find_embeddings(bad)", lambda: a.find_embeddings(rng.choice(["x", None, [1]])), Exception)
                elif op == "set":
                    j = rng.choice([{0: ["no"]}, {"no": [1]}, 5, {0: 5}, BadMap("late"), BadMap("get"), {1: [2], 0: late([1])}])
                    attempt("set_initial_chains(%r)" % (j if isinstance(j, dict) else type(j),), lambda: a.set_initial_chains(j), Exception)
                elif op == "improve":
                    attempt("improve_embeddings(bad)", lambda: a.improve_embeddings(rng.choice([5, "x", {0: [1]}, [{0: ["no"]}], [7]])), Exception)
                elif op == "key":
                    attempt("quality_key(bad)", lambda: a.quality_key(rng.choice([5, "x", {0: 1}, None, {0: [[1]]}])), Exception)
                elif op == "names":
                    attempt("unknown keyword", lambda: a.quickpass(foo=1), TypeError)
            op = rng.choice(["find", "quick", "quickv", "quickkeepstate", "finds", "set"])
            r = []
            seed = rng.random()
            for m in (a, b):
                try:
                    if op == "find":
                        r.append(m.find_embedding())
                    elif op == "quick":
                        r.append(m.quickpass(chainlength_bound=int(seed * 4), local_search=seed < .5))
                    elif op == "quickv":
                        r.append(m.quickpass(varorder=[2, 0, 3], clear_first=seed < .5))
                    elif op == "quickkeepstate":
                        r.append(m.quickpass(clear_first=False, overlap_bound=1))
                    elif op == "finds":
                        r.append(m.find_embeddings(2))
                    else:
                        m.set_initial_chains({0: [int(seed * 20)]})
                        r.append(None)
                except Exception as e:
                    r.append(repr(e))
            st["calls"] += 2
            trace.append(op)
            if r[0] != r[1]:
                V.append({"key": "history-dependent", "msg": "after failing calls %s gave %r, without them %r; history %r" % (op, r[0], r[1], trace)})
                break
    if UNRAISABLE:
        V.append({"key": "swallowed-exception", "msg": "%s after %r" % (UNRAISABLE[:2], trace)})
    j = rng.randrange(5)
    try:
        g = good(mm, j)
        same = g == REF[j]
    except Exception as e:
        g, same = repr(e), False
    st["calls"] += 1
    if not same:
        V.append({"key": "later-calls-differ", "msg": "reference problem %d gave %r, at first %r; after %r" % (j, g, REF[j], trace)})
    sig = hashlib.sha256(repr(trace).encode()).hexdigest()[:16] if st["raised"] else None
    return {"violations": V, "stats": st, "sig": sig, "evals": st["calls"], "case": {"mode": mode, "history": trace[:12]}}
