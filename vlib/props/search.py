"""Random minor-embedding problems, with every documented hint and constraint, judged by
an independent minor-embedding oracle.  extra["focus"] selects the emphasis."""
import copy, hashlib, logging
from vlib import graphs, oracle

logging.getLogger("minorminer._minorminer").addHandler(logging.NullHandler())
logging.getLogger("minorminer._minorminer").propagate = False
logging.getLogger("minorminer._minorminer").setLevel(logging.DEBUG)
TAGS = {"C05": set(), "C01": {"valid"}, "C02": {"fixed", "suspend", "restrict", "pin"}, "C03": {"contract"}}


def rand_connected(rng, adj, pool, size):
    pool = set(pool)
    if not pool:
        return []
    c = [rng.choice(sorted(pool, key=repr))]
    while len(c) < size:
        front = sorted({y for x in c for y in adj[x] if y in pool and y not in c}, key=repr)
        if not front:
            break
        c.append(rng.choice(front))
    return c


def gen(i, rng, spec):
    focus = spec["extra"].get("focus", "mixed")
    big = spec["extra"].get("big", 1.0)
    sk, s = graphs.source(rng, big)
    tk, t = graphs.target(rng, big)
    if rng.random() < .35:
        # a source that certainly embeds: contract connected parts of the target
        tk2, s2 = "minor-of-" + tk, minor_of(rng, t)
        if s2 is not None:
            sk, s = tk2, s2
    vast = rng.random() < spec["extra"].get("vast", 0)
    if vast:
        sk, s, tk, t = graphs.vast(rng)
    crowd = not vast and focus == "contract" and rng.random() < .1
    if crowd:
        # many components on few qubits: every qubit fills up before the last one is placed
        import networkx as nx
        tk, t = "crowded", rng.choice([nx.path_graph, nx.cycle_graph, nx.complete_graph])(rng.randint(2, 6))
        k = rng.randint(1, 3)
        sk, s = "crowd", nx.disjoint_union_all([nx.path_graph(k) if rng.random() < .8 else nx.complete_graph(k) for _ in range(rng.randint(2, 14))])
    sname, sf = graphs.relabel_scheme(rng)
    tname, tf = graphs.relabel_scheme(rng)
    skind, mkS, sedges, snodes = graphs.present(rng, s, sf)
    tkind, mkT, tedges, tnodes = graphs.present(rng, t, tf)
    case = {"source": [sk, s.number_of_nodes(), s.number_of_edges(), sname, skind],
            "target": [tk, t.number_of_nodes(), t.number_of_edges(), tname, tkind],
            "S": sedges, "Snodes": snodes, "T": tedges, "Tnodes": tnodes,
            "params": graphs.search_params(rng), "focus": focus}
    case["params"]["return_overlap"] = rng.random() < .5
    if crowd:
        case["params"].update(max_fill=rng.choice([1, 1, 2, 3]), return_overlap=True)
    if rng.random() < .1:
        case["params"]["interactive"] = True
    if vast:
        P = case["params"]
        P.update(tries=min(P["tries"], 1), max_no_improvement=min(P["max_no_improvement"], 2), chainlength_patience=rng.choice([0, 1, 1, 2]), timeout=4,
                 inner_rounds=min(P.get("inner_rounds", 3), 5))
    case["_mk"] = (mkS, mkT)
    return case


def minor_of(rng, t):
    import networkx as nx
    comp = max(nx.connected_components(t), key=len)
    if len(comp) < 3:
        return None
    adj = {v: set(t[v]) for v in t}
    free, chains = set(comp), []
    for _ in range(rng.randint(2, 10)):
        c = rand_connected(rng, adj, free, rng.randint(1, 4))
        if not c:
            break
        chains.append(c)
        free -= set(c)
    g = nx.Graph()
    g.add_nodes_from(range(len(chains)))
    own = {q: k for k, c in enumerate(chains) for q in c}
    for a, b in t.edges:
        if a in own and b in own and own[a] != own[b] and rng.random() < .8:
            g.add_edge(own[a], own[b])
    return g


def add_hints(case, rng, sadj, tadj, find):
    """Adds hints and constraints in place; returns facts the oracle needs."""
    focus = case["focus"]
    P = case["params"]
    S = sorted(sadj, key=repr)
    T = sorted(tadj, key=repr)
    comps = sorted(oracle.components(tadj), key=len, reverse=True)
    main = comps[0]
    mains = sorted(main, key=repr)
    warm = None
    want = {"plain": 0.3, "mixed": .7, "constraints": 1.0, "contract": .6}.get(focus, .7)
    if rng.random() < want and rng.random() < .7:
        try:
            w = find(case["S"] + [(v, v) for v in case["Snodes"]], case["T"] + [(v, v) for v in case["Tnodes"]],
                     random_seed=rng.getrandbits(31), tries=2, timeout=min(20, P["timeout"]), chainlength_patience=0)
        except RuntimeError:
            w = None
        warm = w or None
    facts = {"warm": bool(warm)}
    if rng.random() >= want:
        return facts
    kinds = []
    if focus == "constraints":
        kinds = rng.choice([["fixed"], ["suspend"], ["restrict"], ["fixed", "suspend"], ["fixed", "restrict"],
                            ["suspend", "restrict"], ["fixed", "suspend", "restrict"], ["fixed", "initial"],
                            ["restrict", "initial"], ["suspend", "initial"]])
    else:
        kinds = rng.choice([["initial"], ["initial"], ["fixed"], ["fixed", "initial"], ["suspend"], ["restrict"],
                            ["initial", "suspend"], ["initial", "skip"], ["initial", "skip"], ["fixed", "initial", "skip"]])
    fixed = {}
    if "fixed" in kinds:
        if warm and rng.random() < .7:
            for v in rng.sample(S, rng.randint(1, max(1, len(S) - 1))):
                fixed[v] = list(warm[v])
        else:
            free = set(mains)
            for v in rng.sample(S, min(len(S), rng.choice([1, 1, 2, 3]))):
                if any(u in sadj[v] for u in fixed):
                    continue
                c = rand_connected(rng, tadj, sorted(free, key=repr), rng.choice([1, 1, 2, 4]))
                if c:
                    fixed[v] = c
                    free -= set(c)
        if any(q not in main for c in fixed.values() for q in c) and len(comps) > 1:
            fixed = {v: c for v, c in fixed.items() if all(q in main for q in c)}
        if len(fixed) >= len(S):
            fixed.pop(next(iter(fixed)))
        if fixed:
            P["fixed_chains"] = {v: (tuple(c) if rng.random() < .3 else list(c)) for v, c in fixed.items()}
    taken = {q for c in fixed.values() for q in c}
    if "initial" in kinds:
        init = {}
        mode = rng.choice(["warm", "perturb", "random", "overlap", "partial", "junk"])
        if mode in ("warm", "perturb", "partial") and not warm:
            mode = "random"
        if mode == "warm":
            init = {v: list(c) for v, c in warm.items()}
        elif mode == "partial":
            init = {v: list(c) for v, c in warm.items() if rng.random() < .6}
        elif mode == "perturb":
            init = {v: list(c) for v, c in warm.items()}
            for v in rng.sample(S, min(len(S), 3)):
                op = rng.choice(["drop", "grow", "swap"])
                if op == "drop" and len(init[v]) > 1:
                    init[v].pop(rng.randrange(len(init[v])))
                elif op == "grow":
                    init[v] += [q for q in sorted(tadj[init[v][0]], key=repr)][:2]
                else:
                    u = rng.choice(S)
                    init[u], init[v] = init[v], init[u]
        elif mode == "overlap":
            c = rand_connected(rng, tadj, mains, rng.randint(1, 6))
            init = {v: list(c) for v in S}
        elif mode == "random":
            for v in S:
                if rng.random() < .7:
                    init[v] = rand_connected(rng, tadj, mains, rng.randint(1, 4))
        else:
            for v in S:
                if rng.random() < .7:
                    init[v] = [rng.choice(mains) for _ in range(rng.randint(0, 5))]
        if rng.random() < .1:
            rng.choice([lambda: init.update({rng.choice(S): ()}), lambda: init.update({rng.choice(S): iter(())})])()
        P["initial_chains"] = init
        facts["init"] = mode
        if "skip" in kinds:
            P["skip_initialization"] = True
    if "restrict" in kinds:
        res = {}
        prob = rng.choice([.5, .5, 1.0])
        common = set(rng.sample(mains, rng.randint(max(1, len(mains) // 3), len(mains)))) if rng.random() < .4 else None
        for v in S:
            if rng.random() < prob and v not in fixed:
                if common is not None:
                    res[v] = sorted(common, key=repr)
                    continue
                dom = set(rng.sample(mains, rng.randint(max(1, len(mains) // 3), len(mains))))
                if warm and rng.random() < .8:
                    dom |= {q for q in warm[v] if q in main}
                if rng.random() < .15:
                    dom = set(rand_connected(rng, tadj, mains, rng.randint(1, 6)))
                res[v] = sorted(dom, key=repr)
        if res:
            P["restrict_chains"] = res
    if "suspend" in kinds:
        sus = {}
        avail = [q for q in mains if q not in taken] or mains
        for v in rng.sample(S, min(len(S), rng.choice([1, 1, 2, 3]))):
            if v in fixed:
                continue
            blobs = []
            for _ in range(rng.choice([1, 1, 2])):
                b = rng.sample(avail, min(len(avail), rng.choice([1, 2, 3, 8])))
                if warm and rng.random() < .7:
                    b = list(dict.fromkeys(b + [q for q in warm[v] if q in main][:1]))
                blobs.append(b if rng.random() < .8 else [])
            sus[v] = blobs
        if sus:
            P["suspend_chains"] = sus
    return facts


ALLOWED_RT = ("Failed during initialization", "cannot bootstrap from initial embedding", "problem has too few nodes",
              "problem is too large")


def run(i, rng, spec):
    from minorminer import find_embedding
    case = gen(i, rng, spec)
    mkS, mkT = case.pop("_mk")
    want = TAGS.get(spec["extra"].get("pid"))
    sadj = oracle.adjacency(case["S"], case["Snodes"])
    tadj = oracle.adjacency(case["T"], case["Tnodes"])
    facts = add_hints(case, rng, sadj, tadj, find_embedding)
    P = case["params"]
    V = []

    def bad(tag, key, msg):
        if want is None or tag in want:
            V.append({"key": tag + ":" + key, "msg": msg + "\ncase: %r" % (case,)})

    if i % 50 == 0:
        # the empty source graph has the empty embedding
        e = find_embedding([], mkT(), return_overlap=P["return_overlap"])
        if e != (({}, 1) if P["return_overlap"] else {}):
            bad("contract", "empty-source", "return_overlap=%r: %r" % (P["return_overlap"], e))
    hints = {k: P[k] for k in ("initial_chains", "fixed_chains", "restrict_chains", "suspend_chains") if k in P}
    frozen = {k: ({v: (list(c) if isinstance(c, (list, tuple)) else None) for v, c in h.items()}) for k, h in hints.items()}
    S, T = mkS(), mkT()
    import networkx as nx
    before = [(list(g.nodes), list(g.edges)) if isinstance(g, nx.Graph) else (list(g) if isinstance(g, list) else None) for g in (S, T)]
    stats = {"threads>1": P.get("threads", 1) > 1}
    for k in hints:
        stats["with_" + k] = 1
    try:
        out = find_embedding(S, T, **P)
    except RuntimeError as e:
        stats["init_failures"] = 1
        if not str(e).startswith(ALLOWED_RT):
            bad("contract", "unexpected-RuntimeError", repr(e))
        return done(case, V, stats, None)
    except ValueError as e:
        stats["value_errors"] = 1
        if "corrupted" in str(e) and len(oracle.components(tadj)) > 1:
            return done(case, V, stats, None)
        if not sadj and not tadj:
            return done(case, V, stats, None)
        bad("contract", "unexpected-ValueError", repr(e))
        return done(case, V, stats, None)
    # ---- C03: shape of the answer
    success = None
    if P["return_overlap"]:
        if not (isinstance(out, tuple) and len(out) == 2):
            bad("contract", "not-a-pair", repr(out)[:300])
            return done(case, V, stats, None)
        emb, success = out
        if success not in (0, 1, True, False):
            bad("contract", "flag-not-bool", repr(success))
    else:
        emb = out
    if not isinstance(emb, dict):
        bad("contract", "not-a-dict", repr(out)[:300])
        return done(case, V, stats, None)
    for g, b, mk in ((S, before[0], "S"), (T, before[1], "T")):
        now = (list(g.nodes), list(g.edges)) if isinstance(g, nx.Graph) else (list(g) if isinstance(g, list) else None)
        if now != b:
            bad("contract", "input-modified", mk)
    for k, h in hints.items():
        now = {v: (list(c) if isinstance(c, (list, tuple)) else None) for v, c in h.items()}
        if now != frozen[k]:
            bad("contract", "hints-modified", k)
    for v, c in emb.items():
        if not isinstance(c, list):
            bad("contract", "chain-not-a-list", repr((v, c)))
    if success is None and emb and set(emb) != set(sadj):
        bad("contract", "keys", "keys %r vs variables %r" % (sorted(map(repr, emb)), sorted(map(repr, sadj))))
    if any(isinstance(v, tuple) and len(v) == 3 and v[0] == "__MINORMINER_INTERNAL_PIN_FOR_SUSPENSION" for v in emb) or \
       any(isinstance(q, tuple) and len(q) == 3 and q[0] == "__MINORMINER_INTERNAL_PIN_FOR_SUSPENSION" for c in emb.values() for q in c):
        bad("pin", "leak", repr(emb))
    got = bool(success) if success is not None else bool(emb)
    fixed = {v: list(c) for v, c in frozen.get("fixed_chains", {}).items() if c}
    # ---- C01: validity
    if got:
        stats["embedded"] = 1
        stats["max_chain"] = max(len(c) for c in emb.values())
        stats["chains"] = len(emb)
        faults = oracle.embedding_faults(emb, sadj, tadj)
        # the user's own fixed chains may be inconsistent among themselves
        pre = oracle.embedding_faults(fixed, sadj, tadj, need_all=False, limit=99)
        faults = [f for f in faults if f not in pre]
        if faults:
            bad("valid", faults[0][0], "reported as a valid embedding, but %r\nembedding: %r" % (faults, emb))
    elif success is not None and emb:
        stats["overlapped"] = 1
        # an embedding reported as invalid is overlapped, never disconnected or incomplete
        if set(emb) != set(sadj):
            bad("contract", "overlap-keys", "%r" % (emb,))
        else:
            pre = oracle.embedding_faults(fixed, sadj, tadj, need_all=False, limit=99)
            faults = [f for f in oracle.embedding_faults(emb, sadj, tadj, limit=99) if f not in pre]
            kinds = {f[0] for f in faults}
            empty = any(not c for c in emb.values())
            timeout_empty = all(not c for v, c in emb.items() if v not in fixed)
            if not timeout_empty:
                hard = [f for f in oracle.embedding_faults(emb, sadj, tadj, overlap_ok=True, limit=99) if f not in pre]
                if hard:
                    bad("contract", "overlapped-" + hard[0][0], "an overlapped embedding must still be semi-valid: %r\n%r" % (hard[:3], emb))
                if not faults and not pre:
                    bad("contract", "flag-false-but-valid", "%r" % (emb,))
                if P.get("max_fill") and not P.get("initial_chains"):
                    stats["fill_checked"] = 1
                    use = {}
                    for v, ch in emb.items():
                        for q in ch:
                            use[q] = use.get(q, 0) + 1
                    if max(use.values()) > P["max_fill"]:
                        bad("contract", "max_fill", "max_fill %d, a qubit is used %d times\n%r" % (P["max_fill"], max(use.values()), emb))
    elif success is not None and success:
        bad("contract", "flag-true-but-empty", repr(out))
    # ---- C02: constraints
    if emb and (got or success is not None):
        for v, c in fixed.items():
            stats["fixed_checked"] = stats.get("fixed_checked", 0) + 1
            if set(emb.get(v, [])) != set(c):
                bad("fixed", "changed", "fixed chain of %r: asked %r got %r" % (v, c, emb.get(v)))
        taken = {q for c in fixed.values() for q in c}
        for v, c in emb.items():
            if v not in fixed and taken & set(c):
                bad("fixed", "shared", "chain of %r uses fixed qubits %r" % (v, taken & set(c)))
    if got:
        for v, blobs in (P.get("suspend_chains") or {}).items():
            for b in blobs:
                if b:
                    stats["blobs_checked"] = stats.get("blobs_checked", 0) + 1
                    if not set(b) & set(emb.get(v, [])):
                        bad("suspend", "missed", "%r misses blob %r: %r" % (v, b, emb.get(v)))
        # restrict_chains is documented as soft: what is certain is that, unless a hint says
        # otherwise, a chain meets its own domain and leaves it only into the domains of
        # variables it is coupled to (a suspension's pin is such a variable, without a domain)
        dom_of = {v: set(d) for v, d in (P.get("restrict_chains") or {}).items() if len(d)}
        sus = {v for v, b in (P.get("suspend_chains") or {}).items() if any(len(x) for x in b)}
        if dom_of and not P.get("initial_chains"):
            for v, dom in dom_of.items():
                if v in fixed:
                    continue
                stats["domains_checked"] = stats.get("domains_checked", 0) + 1
                c = set(emb.get(v, []))
                if not c & dom:
                    bad("restrict", "misses-domain", "%r avoids its domain %r\n%r" % (v, dom, emb))
                if v in sus or any(u not in dom_of for u in sadj[v]):
                    continue
                stats["domains_closed"] = stats.get("domains_closed", 0) + 1
                allowed = set(dom).union(*[dom_of[u] for u in sadj[v]]) if sadj[v] else dom
                if c - allowed:
                    bad("restrict", "outside", "%r strays to %r\n%r" % (v, c - allowed, emb))
    sig = None
    if emb:
        sig = hashlib.sha256(repr((sorted(map(repr, case["S"])), sorted(map(repr, case["T"])), sorted(map(repr, emb.items())))).encode()).hexdigest()[:16]
    return done(case, V, stats, sig)


def done(case, V, stats, sig):
    stats["sources"] = [case["source"][0]]
    stats["targets"] = [case["target"][0]]
    small = {k: case[k] for k in ("source", "target")}
    small["params"] = {k: (v if not isinstance(v, dict) else "%d entries" % len(v)) for k, v in case["params"].items()}
    return {"violations": V, "stats": stats, "sig": sig, "case": small if not V else case}
