"""Random histories of miner calls on one object, judged call by call."""
import collections, hashlib, logging
import networkx as nx
from vlib import graphs, oracle
from vlib.props import search


def key_of(emb, embedded=False):
    """The documented quality key, recomputed: overlaps first, then chain lengths, largest first."""
    if emb == {}:
        return (2,)
    hist = lambda xs: [z for s, n in sorted(collections.Counter(x for x in xs if x).items(), reverse=True) for z in (s, n)]
    uses = collections.Counter(q for c in emb.values() for q in c)
    O = [] if embedded else hist(n - 1 for n in uses.values())
    return (1 if O else 0, O, hist(len(c) for c in emb.values()))


def worse(a, b):
    """chain-length profile of a is worse than that of b"""
    ca, cb = (collections.Counter(len(c) for c in e.values()) for e in (a, b))
    for n in sorted(set(ca) | set(cb), reverse=True):
        if ca[n] != cb[n]:
            return ca[n] > cb[n]
    return False


def setup(spec):
    logging.getLogger("minorminer._minorminer").setLevel(logging.CRITICAL)


def gen(i, rng, spec):
    g, h = graphs.source(rng)[1], graphs.target(rng)[1]
    se = list(g.edges) + [(v, v) for v in g if g.degree(v) == 0]
    te = list(h.edges) + [(v, v) for v in h if h.degree(v) == 0]
    rng.shuffle(se)
    f, t = graphs.relabel_scheme(rng)[1], graphs.relabel_scheme(rng)[1]
    P = graphs.search_params(rng)
    P["return_overlap"] = rng.random() < .4
    P.pop("verbose", None)
    if rng.random() < .12:
        P["timeout"] = 0
    return {"S": [(f(a), f(b)) for a, b in se], "T": [(t(a), t(b)) for a, b in te], "P": P}


def run(i, rng, spec):
    from minorminer import _minorminer as mm
    c = gen(i, rng, spec)
    S, T, P = c["S"], c["T"], c["P"]
    sadj, tadj = oracle.adjacency(S), oracle.adjacency(T)
    SV, V, trace = list(sadj), [], []
    st = {"calls": 0, "ops": []}

    def bad(key, msg):
        V.append({"key": key, "msg": msg + "\nhistory %r\nS=%r\nT=%r\nP=%r" % (trace, S, T, P)})

    comp = max(oracle.components(tadj), key=len)
    fixed = {}
    if rng.random() < .35 and len(comp) > 3:
        warm = mm.find_embedding(S, T, random_seed=1, tries=1, max_no_improvement=3, timeout=5)
        if warm and all(q in comp for ch in warm.values() for q in ch):
            for v in rng.sample(SV, rng.randint(1, max(1, len(SV) // 2))):
                fixed[v] = warm[v]
            P["fixed_chains"] = fixed
    init = {}
    if rng.random() < .25 and not fixed:
        init = {v: search.rand_connected(rng, tadj, sorted(comp, key=repr), rng.randint(1, 3)) for v in SV if rng.random() < .5}
        P["initial_chains"] = init
    try:
        m = mm.miner(S, T, **P)
    except (RuntimeError, ValueError):
        return {"stats": st, "evals": 1}
    fresh = True
    state_clean, obound, cur = False, 0, {}
    valids = []
    free = [v for v in SV if v not in fixed]
    reserved = {q for ch in fixed.values() for q in ch}
    sigparts = []

    def check_valid(e, what):
        fl = oracle.embedding_faults(e, sadj, tadj)
        st["valid_checked"] = st.get("valid_checked", 0) + 1
        if fl:
            bad(what + "-" + fl[0][0], "%s: %r\n%r" % (what, fl, e))
        else:
            valids.append(e)
        for v, ch in fixed.items():
            if set(e.get(v, ())) != set(ch):
                bad(what + "-fixed", "chain of %r is %r, fixed to %r" % (v, e.get(v), ch))

    for step in range(rng.randint(1, 6)):
        op = rng.choice(["find", "finds", "quick", "quick", "quick", "improve", "improve", "set", "key"])
        st["calls"] += 1
        st["ops"].append(op)
        if op in ("find", "finds"):
            n = rng.choice([0, 1, 2, 3, -1])
            trace.append((op, n))
            try:
                r = m.find_embedding() if op == "find" else m.find_embeddings(n)
            except RuntimeError as e:
                if not str(e).startswith(search.ALLOWED_RT):
                    bad("exception", repr(e))
                fresh = False
                state_clean = False
                continue
            if op == "find" and fresh:
                # an untouched miner does what find_embedding does
                r2 = mm.find_embedding(S, T, **P)
                if r2 != r:
                    bad("differs-from-find_embedding", "%r vs %r" % (r, r2))
            if op == "finds":
                if not isinstance(r, list) or len(r) > max(0, n):
                    bad("too-many", "%r" % (r,))
                if P["return_overlap"] and len(r) != max(0, n):
                    bad("count", "%d embeddings for n=%d" % (len(r), n))
                embs = r
            else:
                embs = [r]
            for e in embs:
                flag = None
                if isinstance(e, tuple):
                    e, flag = e
                if op == "finds" and not P["return_overlap"] and not e:
                    bad("empty-in-list", repr(r))
                if flag or (not P["return_overlap"] and e):
                    check_valid(e, op)
                elif flag is not None and set(e) == set(SV) and not oracle.embedding_faults(e, sadj, tadj):
                    bad(op + "-flag-false-but-valid", "%r" % (r,))
                elif e and all(e.values()):
                    hard = oracle.embedding_faults(e, sadj, tadj, overlap_ok=True)
                    if hard:
                        bad(op + "-overlapped-" + hard[0][0], "%r %r" % (hard, e))
                sigparts.append(repr(e))
            fresh = False
            state_clean = False
        elif op == "quick":
            k = dict(chainlength_bound=rng.choice([0, 0, 1, 2, 3, 6]), overlap_bound=rng.choice([0, 0, 1, 2]),
                     local_search=rng.random() < .4, clear_first=rng.random() < .5)
            if rng.random() < .3:
                k["round_beta"] = rng.choice([1.5, 2., 10.])
            if rng.random() < .5:
                order = rng.sample(SV, rng.randint(1, len(SV)))
                k["varorder"] = order
            else:
                order = list(SV)
                k["strategy"] = rng.choice([x for x in mm.VARORDER if x != mm.VARORDER.VARORDER_KEEP])
            trace.append((op, {a: b for a, b in k.items() if a != "strategy"}, str(k.get("strategy"))))
            cleared = k["clear_first"] or not getattr_quick(trace)
            was = cur if not cleared else {}
            try:
                r = m.quickpass(**k)
            except RuntimeError as e:
                if "ordering has length zero" not in str(e):
                    bad("exception", repr(e))
                trace.pop()
                continue
            if cleared:
                state_clean = not init
                obound = k["overlap_bound"]
            else:
                obound = max(obound, k["overlap_bound"])
            if any(not ch for ch in r.values()):
                bad("quick-empty-chain", repr(r))
            for v, ch in fixed.items():
                if set(r.get(v, ())) != set(ch):
                    bad("quick-fixed", "chain of %r is %r, fixed to %r" % (v, r.get(v), ch))
            for v, ch in r.items():
                if v not in fixed and reserved & set(ch):
                    bad("quick-reserved", "chain of %r %r uses reserved qubits" % (v, ch))
            if k["chainlength_bound"]:
                for v in order:
                    if v in r and v not in fixed:
                        st["bounds_checked"] = st.get("bounds_checked", 0) + 1
                        if len(r[v]) > k["chainlength_bound"]:
                            bad("quick-long", "chain of %r %r, bound %d" % (v, r[v], k["chainlength_bound"]))
            if state_clean:
                uses = collections.Counter(q for ch in r.values() for q in ch)
                if uses and max(uses.values()) > 1 + obound:
                    bad("quick-overlap", "qubit used %d times, bound %d\n%r" % (max(uses.values()), obound, r))
                sub = {v: {u for u in sadj[v] if u in r and not (u in fixed and v in fixed)} for v in r}
                hard = oracle.embedding_faults(r, sub, tadj, overlap_ok=obound > 0)
                st["quick_checked"] = st.get("quick_checked", 0) + 1
                if hard:
                    bad("quick-" + hard[0][0], "%r\n%r" % (hard, r))
                extra = set(r) - set(was) - set(order) - set(fixed)
                if extra:
                    bad("quick-unasked", "chains for %r were not asked for" % (extra,))
            elif any(len(set(ch)) != len(ch) for ch in r.values()):
                bad("quick-repeat", repr(r))
            cur = r
            fresh = False
            sigparts.append(repr(r))
        elif op == "set":
            e = rng.choice(valids) if valids and rng.random() < .6 else \
                {v: search.rand_connected(rng, tadj, sorted(comp - reserved, key=repr), rng.randint(1, 3)) for v in SV if v not in fixed and rng.random() < .5} if comp - reserved else {}
            trace.append((op, e))
            try:
                m.set_initial_chains(e)
            except ValueError as x:
                if "corrupted" not in str(x) or len(oracle.components(tadj)) < 2:
                    bad("exception", repr(x))
                continue
            init = e
            fresh = False
        elif op == "improve":
            ins = [rng.choice(valids) for _ in range(rng.randint(0, 2))] if valids else [{}]
            trace.append((op, ins))
            try:
                r = m.improve_embeddings(ins)
            except RuntimeError as e:
                if not str(e).startswith(search.ALLOWED_RT) or any(ins):
                    bad("exception", repr(e))
                fresh, state_clean = False, False
                init = {"?": 1}
                continue
            fresh, state_clean = False, False
            if len(r) != len(ins):
                bad("improve-count", "%d for %d" % (len(r), len(ins)))
            for a, b in zip(r, ins):
                if b and P["timeout"] == 0 and not any(a.values()):
                    pass        # out of time before anything was found
                elif b:
                    st["improved_checked"] = st.get("improved_checked", 0) + 1
                    check_valid(a, "improve")
                    if worse(a, b) or m.quality_key(a) > m.quality_key(b):
                        bad("improve-worse", "%r\nfrom %r" % (a, b))
            init = ins[-1] if ins else init
            sigparts.append(repr(r))
        else:
            es = [{}] + valids[:2]
            es.append({v: [rng.choice(sorted(comp, key=repr)) for _ in range(rng.randint(0, 4))] for v in SV})
            es.append(cur)
            for e in es:
                for embedded in (False, True):
                    st["keys_checked"] = st.get("keys_checked", 0) + 1
                    a, b = m.quality_key(e, embedded=embedded), key_of(e, embedded)
                    if a != b:
                        bad("quality-key", "quality_key(%r, embedded=%r) = %r, recomputed %r" % (e, embedded, a, b))
    sig = hashlib.sha256(repr(sigparts).encode()).hexdigest()[:16] if any(len(x) > 4 for x in sigparts) else None
    return {"violations": V, "stats": st, "sig": sig, "evals": st["calls"], "case": {"S": len(SV), "T": len(tadj), "history": repr(trace)[:600]}}


def getattr_quick(trace):
    return any(t[0] == "quick" for t in trace[:-1])
