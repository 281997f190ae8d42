"""Valid embeddings given back to the search must not come out worse."""
import logging
from vlib import graphs, oracle
from vlib.props import search, miners


def setup(spec):
    logging.getLogger("minorminer._minorminer").setLevel(logging.CRITICAL)


def profile(e, skip=()):
    return sorted((len(c) for v, c in e.items() if v not in skip), reverse=True)


def known(rng, vast=False):
    """A target, a source that is a minor of it and a valid embedding, fat on purpose."""
    while True:
        t = graphs.vast(rng)[3] if vast else graphs.target(rng)[1]
        tadj = {v: set(t[v]) - {v} for v in t}
        comps = sorted(oracle.components(tadj), key=len)
        comp = comps[-1]
        if len(comp) < 4 or (len(comps) > 1 and len(comps[-2]) == len(comp)):
            continue  # the search uses one largest component
        free, chains = set(comp), []
        for _ in range(rng.randint(20, 90) if vast else rng.randint(2, 12)):
            c = search.rand_connected(rng, tadj, free, rng.randint(1, rng.choice([2, 9, 30] if vast else [2, 4, 9])))
            if not c:
                break
            chains.append(list(c))
            free -= set(c)
        own = {q: k for k, c in enumerate(chains) for q in c}
        edges = {(min(own[a], own[b]), max(own[a], own[b])) for a in own for b in tadj[a] if b in own and own[a] != own[b]}
        p = rng.choice([1, .8, .5])
        edges = [e for e in sorted(edges) if rng.random() < p]
        covered = {v for e in edges for v in e}
        edges += [(k, k) for k in range(len(chains)) if k not in covered]
        te = [tuple(e) for e in t.edges] + [(v, v) for v in t if not tadj[v]]
        return edges, te, {k: c for k, c in enumerate(chains)}


def run(i, rng, spec):
    from minorminer import _minorminer as mm
    se, te, emb = known(rng, spec["extra"].get("vast", False))
    f, t = graphs.relabel_scheme(rng)[1], graphs.relabel_scheme(rng)[1]
    rng.shuffle(se), rng.shuffle(te)
    S = [(f(a), f(b)) for a, b in se]
    T = [(t(a), t(b)) for a, b in te]
    E = {f(v): [t(q) for q in c] for v, c in emb.items()}
    for c in E.values():
        rng.shuffle(c)
    sadj, tadj = oracle.adjacency(S), oracle.adjacency(T)
    P = graphs.search_params(rng)
    P.pop("verbose", None)
    P["timeout"] = 1000
    if spec["extra"].get("vast"):
        P.update(tries=min(P["tries"], 1), max_no_improvement=min(P["max_no_improvement"], 2), chainlength_patience=rng.choice([0, 1, 1, 2]))
    V, st = [], {"steps": 0}
    if oracle.embedding_faults(E, sadj, tadj):
        raise AssertionError("generator made an invalid embedding")
    fixed = {}
    if rng.random() < .25 and len(E) > 1:
        fixed = {v: E[v] for v in rng.sample(list(E), rng.randint(1, len(E) - 1))}
        P["fixed_chains"] = fixed
    free = len(set().union(*map(set, tadj.values())) | set(tadj)) - sum(map(len, fixed.values()))
    mode = rng.choice(["skip", "skip", "keep", "miner", "miner", "set", "patience", "patience"][:6 if spec["extra"].get("vast") else 9])
    st["mode"] = [mode]

    def bad(key, msg):
        V.append({"key": mode + "-" + key, "msg": msg + "\nE=%r\nS=%r\nT=%r\nP=%r" % (E, S, T, P)})

    def judge(a, b, what):
        """b must be valid and no worse than a"""
        st["steps"] += 1
        fl = oracle.embedding_faults(b, sadj, tadj)
        if fl:
            bad("invalid", "%s gave %r: %r" % (what, b, fl))
            return False
        for v, c in fixed.items():
            if set(b[v]) != set(c):
                bad("fixed", "%s changed the fixed chain of %r" % (what, v))
        if miners.worse({v: c for v, c in b.items() if v not in fixed}, {v: c for v, c in a.items() if v not in fixed}):
            bad("worse", "%s turned chain lengths %r into %r" % (what, profile(a, fixed), profile(b, fixed)))
            return False
        if profile(b) < profile(a):
            st["improved"] = st.get("improved", 0) + 1
        return True

    try:
        init = {v: c for v, c in E.items() if v not in fixed}
        if mode in ("skip", "keep"):
            cur = E
            for k in range(rng.randint(1, 3)):
                kw = dict(P, initial_chains={v: c for v, c in cur.items() if v not in fixed or rng.random() < .5})
                if mode == "skip":
                    kw["skip_initialization"] = True
                kw["random_seed"] = rng.getrandbits(32)
                if rng.random() < .3:
                    kw["return_overlap"] = True
                r = mm.find_embedding(S, T, **kw)
                if isinstance(r, tuple):
                    if not r[1]:
                        bad("lost", "a valid start came back flagged invalid: %r" % (r,))
                        break
                    r = r[0]
                if not judge(cur, r, "find_embedding"):
                    break
                cur = r
        elif mode in ("miner", "set"):
            m = mm.miner(S, T, **P)
            if rng.random() < .5:
                try:
                    m.find_embeddings(1)
                except RuntimeError:
                    pass
            if mode == "set":
                cur = E
                for k in range(rng.randint(1, 3)):
                    m.set_initial_chains({v: c for v, c in cur.items() if v not in fixed})
                    r = m.find_embedding()
                    r = r[0] if isinstance(r, tuple) else r
                    if not judge(cur, r, "set_initial_chains + find_embedding"):
                        break
                    cur = r
            else:
                cur = [E] * rng.randint(1, 3)
                for k in range(rng.randint(1, 3)):
                    r = m.improve_embeddings(cur)
                    if len(r) != len(cur):
                        bad("count", "%d embeddings in, %d out" % (len(cur), len(r)))
                        break
                    r = [x[0] if isinstance(x, tuple) else x for x in r]
                    if not all([judge(a, b, "improve_embeddings") for a, b in zip(cur, r)]):
                        break
                    cur = r
        else:
            # same seed, growing patience
            ps = sorted(rng.sample([0, 1, 2, 3, 4, 6, 10, 15], 3))
            start = rng.random() < .5
            last = None
            for p in ps:
                kw = dict(P, chainlength_patience=p)
                if start:
                    kw.update(initial_chains=init, skip_initialization=True)
                r = mm.find_embedding(S, T, **kw)
                if last is not None:
                    if bool(r) != bool(last):
                        bad("success", "chainlength_patience %r: %r, before: %r" % (p, r, last))
                        break
                    if r and not judge(last, r, "raising chainlength_patience to %d" % p):
                        break
                last = r
                if not r:
                    break
    except RuntimeError as e:
        if not str(e).startswith(search.ALLOWED_RT):
            bad("exception", repr(e))
        elif mode != "patience" or start:
            bad("refused", repr(e))
    return {"violations": V, "stats": st, "evals": st["steps"], "sig": (mode, profile(E), len(S), len(T)) if st["steps"] else None,
            "case": {"mode": mode, "source": len(sadj), "target": len(tadj), "lengths": profile(E), "fixed": len(fixed)}}
