"""Answers of busgraph_cache over histories of cache use, damage, and other processes."""
import hashlib, os, pickle, random, shutil, signal, time
import networkx as nx
import dwave.graphs as dg
from vlib import dwgraphs, oracle


def setup(spec):
    pass


# -- graphs ---------------------------------------------------------------
def to_linear(g):
    """function from the labels of g to integer labels"""
    d, lab = g.graph, g.graph["labels"]
    if lab == "int":
        return lambda q: q
    if d["family"] == "chimera":
        c = dg.chimera_coordinates(d["rows"], d["columns"], d["tile"])
        return c.chimera_to_linear
    if d["family"] == "zephyr":
        return dg.zephyr_coordinates(d["rows"], d["tile"]).zephyr_to_linear
    c = dg.pegasus_coordinates(d["rows"])
    return c.pegasus_to_linear if lab == "coordinate" else c.nice_to_linear


def relabelled(rng, g):
    """the same graph in another labelling"""
    lin, d = to_linear(g), g.graph
    back = lambda q: q
    attr = dict(d)
    opts = ["int", "coordinate"]
    if d["family"] == "pegasus" and d["labels"] == "nice":
        opts.append("nice")
    lab = rng.choice(opts)
    if lab != "int":
        if d["family"] == "chimera":
            back = dg.chimera_coordinates(d["rows"], d["columns"], d["tile"]).linear_to_chimera
        elif d["family"] == "zephyr":
            back = dg.zephyr_coordinates(d["rows"], d["tile"]).linear_to_zephyr
        else:
            c = dg.pegasus_coordinates(d["rows"])
            back = c.linear_to_pegasus if lab == "coordinate" else c.linear_to_nice
    attr["labels"] = lab
    nodes = list(g.nodes)
    edges = [tuple(e) for e in g.edges]
    rng.shuffle(nodes)
    rng.shuffle(edges)
    h = nx.Graph(**attr)
    h.add_nodes_from(back(lin(v)) for v in nodes)
    h.add_edges_from((back(lin(a)), back(lin(b))) if rng.random() < .5 else (back(lin(b)), back(lin(a))) for a, b in edges)
    return h


def neighbour(rng, g):
    """a graph that differs from g in a coupler or a node"""
    h = g.copy()
    r = rng.random()
    if r < .7 and h.number_of_edges():
        odd = [e for e in h.edges if set(h[e[0]]) & set(h[e[1]])] if rng.random() < .5 else list(h.edges)
        h.remove_edges_from(rng.sample(odd or list(h.edges), 1))
    elif len(h) > 1:
        h.remove_node(rng.choice(list(h)))
    return h


def cheap(rng):
    while True:
        desc, g = dwgraphs.random_graph(rng, .4, vast=.01, slow=False)
        if len(g) and desc[1][-1] != "torus":
            return desc, g


# -- answers --------------------------------------------------------------
def answers(g, plan, seed, bgc=None):
    """Everything the plan asks for, in integer labels"""
    from minorminer import busclique
    if bgc is None:
        bgc = busclique.busgraph_cache(g, seed=seed)
    lin = to_linear(g)
    out = []
    for op, *a in plan:
        if op == "fn" and seed != 0:
            e = busclique.find_clique_embedding(a[0], g, seed=seed)
        elif op == "fn":
            e = busclique.find_clique_embedding(a[0], g)
        else:
            e = getattr(bgc, op)(*a)
        out.append(sorted((repr(k), tuple(lin(q) for q in c)) for k, c in e.items()))
    return out


def random_plan(rng):
    plan = []
    for _ in range(rng.randint(1, 4)):
        plan.append(rng.choice([("largest_clique",), ("find_clique_embedding", rng.randint(1, 9)),
                                ("largest_clique_by_chainlength", rng.randint(1, 6)), ("fn", rng.randint(1, 6)),
                                ("find_clique_embedding", 4), ("find_clique_embedding", 3), ("fn", 4),
                                ("largest_balanced_biclique",), ("find_biclique_embedding", rng.randint(1, 4), rng.randint(1, 4))]))
    return plan


def cache_home(d):
    os.environ["XDG_DATA_HOME"] = d


def in_child(f, limit=50):
    """f() in a forked process: ('ok', result) | ('exc', text) | ('died', status)"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                res = ("ok", f())
            except BaseException as e:
                import traceback
                res = ("exc", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", st)


def cache_files(base):
    out = []
    for d, _, fs in os.walk(base):
        out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def harm(rng, base):
    """damage the cache directory; returns a description"""
    fs = cache_files(base)
    main = [f for f in fs if not os.path.basename(f).startswith(".")]
    lru = [f for f in fs if f.endswith(".lru")]
    kind = rng.choice(["truncate", "truncate", "garbage", "empty", "delete", "deleteall", "swap", "wrongtype", "lru-truncate", "lru-garbage",
                       "lru-empty", "lru-delete", "lru-wrongtype", "rmdir", "clear", "leftover", "entry-wrongkey"])
    pre = ""
    if kind.startswith("lru-"):
        pre = "lru-"
        main, kind = lru, kind[4:]
        if main and kind == "delete" and rng.random() < .5:
            [os.unlink(f) for f in main]
            return "lru-delete"
    if kind == "clear":
        from minorminer import busclique
        busclique.busgraph_cache.clear_all_caches()
        return kind
    if kind == "rmdir":
        shutil.rmtree(base, ignore_errors=True)
        return kind
    if not main:
        return "nothing"
    f = rng.choice(main)
    if kind == "truncate":
        with open(f, "r+b") as fh:
            fh.truncate(rng.randint(0, max(0, os.path.getsize(f) - 1)))
    elif kind == "garbage":
        with open(f, "wb") as fh:
            fh.write(bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 60))))
    elif kind == "empty":
        open(f, "wb").close()
    elif kind == "delete":
        os.unlink(f)
    elif kind == "deleteall":
        [os.unlink(x) for x in main]
    elif kind == "swap":
        same = [x for x in main if x != f and os.path.dirname(x) == os.path.dirname(f)]
        if same:
            shutil.copy(rng.choice(same), f)
    elif kind == "wrongtype":
        with open(f, "wb") as fh:
            pickle.dump(rng.choice([None, 5, "x", (1, 2)]), fh)
    elif kind == "leftover":
        with open(f + "~", "wb") as fh:
            fh.write(open(f, "rb").read()[:rng.randint(0, 40)])
    elif kind == "entry-wrongkey":
        with open(f, "wb") as fh:
            pickle.dump({b"someone else": {"raw": [()], "size": {0: 0}, "length": {0: 0}, "max_side": {None: 0}}}, fh)
    return pre + kind


def run(i, rng, spec):
    from minorminer import busclique
    top = os.path.join(spec["scratch"], "c%d" % i)
    V, st = [], {"queries": 0, "damage": [], "how": [], "families": [], "pairs_sharing_labels": 0}
    cache_home(os.path.join(top, "shared"))
    shared = busclique.busgraph_cache.cache_rootdir()
    assert shared.startswith(top), shared
    desc, g0 = cheap(rng)
    pool = [g0]
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        src = rng.choice(pool)
        if r < .6:
            pool.append(neighbour(rng, src))
        elif r < .8:
            pool.append(relabelled(rng, src))
        else:
            pool.append(cheap(rng)[1])
    pool = [g for g in pool if len(g)]
    seeds = [0, 0, rng.getrandbits(32)]
    refs, plans, trace = {}, {}, []

    def reference(gi, seed, plan):
        """a private cache that no one else has used"""
        cache_home(os.path.join(top, "private"))
        shutil.rmtree(os.path.join(top, "private"), ignore_errors=True)
        a = answers(pool[gi], plan, seed)
        cache_home(os.path.join(top, "shared"))
        return a

    objs = []
    try:
        for step in range(rng.randint(4, 10)):
            if rng.random() < .35:
                k = harm(rng, shared)
                st["damage"].append(k)
                trace.append("damage " + k)
                continue
            gi, seed = rng.randrange(len(pool)), rng.choice(seeds)
            plan = rng.choice(plans.setdefault((gi, seed), [random_plan(rng), random_plan(rng)]))
            key = (gi, seed, str(plan))
            if key not in refs:
                refs[key] = reference(gi, seed, plan)
            how = rng.choice(["new", "new", "process", "relabelled", "old"])
            old = [o for o in objs if o[:2] == (gi, seed)]
            if how == "old" and old:
                got = ("ok", answers(pool[gi], plan, seed, old[-1][2]))
            elif how == "process":
                got = in_child(lambda: answers(pool[gi], plan, seed))
            elif how == "relabelled":
                got = ("ok", answers(relabelled(rng, pool[gi]), plan, seed))
            else:
                b = busclique.busgraph_cache(pool[gi], seed=seed)
                objs.append((gi, seed, b))
                got = ("ok", answers(pool[gi], plan, seed, b))
            st["queries"] += 1
            st["how"].append(how)
            trace.append("graph %d seed %d %s %s" % (gi, seed, how, plan))
            if got[0] != "ok" or got[1] != refs[key]:
                V.append({"key": "differs" if got[0] == "ok" else "fails-" + got[0],
                          "msg": "answer with a shared cache: %s\nanswer with a private cache: %s\nhistory: %s\ngraphs: %s" % (
                              str(got)[:1500], str(refs[key])[:1500], trace,
                              [(dict(g.graph), sorted(g.nodes), sorted(map(sorted, g.edges))) for g in pool] if len(g0) < 60 else desc)})
                break
            # a wrong reference would be a wrong answer too
        for (gi, seed, _), ref in refs.items():
            check_valid(pool[gi], plans[(gi, seed)], ref, _, V)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    st["families"].append(desc[0])
    return {"violations": V, "stats": st, "evals": st["queries"], "sig": hashlib.sha1(str((desc, trace)).encode()).hexdigest() if st["queries"] > 1 else None,
            "case": {"graph": desc, "history": trace}}


def check_valid(g, plans, ref, plankey, V):
    lin = to_linear(g)
    tadj = {lin(v): {lin(w) for w in g[v]} - {lin(v)} for v in g}
    plan = [p for p in plans if str(p) == plankey][0]
    for (op, *a), ans in zip(plan, ref):
        e = {k: list(c) for k, c in ans}
        if not e or "biclique" in op:
            continue
        s = set(e)
        f = oracle.embedding_faults(e, {v: s - {v} for v in s}, tadj)
        if f:
            V.append({"key": "invalid", "msg": "%s%r: %r %r" % (op, a, f, e)})
