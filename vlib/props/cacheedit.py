"""Histories of cache-editing calls against a model of what each call promises."""
import hashlib, logging, os, random, shutil
import networkx as nx
from vlib import dwgraphs, oracle
from vlib.props import cachetrans as ct

BIG = 10 ** 6


def setup(spec):
    pass


def length(e):
    return max(map(len, e.values())) if e else BIG


def chains(e):
    return sorted(sorted(map(repr, c)) for c in e.values())


class View:
    """everything the public interface says about a cache"""

    def __init__(self, bgc, top):
        self.big = bgc.largest_clique()
        self.n = max(top, len(self.big)) + 2
        self.by = {k: bgc.find_clique_embedding(k) for k in range(1, self.n)}
        self.cl = {k: bgc.largest_clique_by_chainlength(k) for k in range(0, 14)}

    def same(self, o, lengths=True):
        """answers equal up to the naming of the chains; returns a description of a difference"""
        if len(self.big) != len(o.big):
            return "largest_clique %d vs %d" % (len(self.big), len(o.big))
        for k in range(1, min(self.n, o.n)):
            if chains(self.by[k]) != chains(o.by[k]):
                return "find_clique_embedding(%d): %r vs %r" % (k, self.by[k], o.by[k])
        for k in self.cl if lengths else ():
            if len(self.cl[k]) != len(o.cl[k]):
                return "largest_clique_by_chainlength(%d): %d vs %d" % (k, len(self.cl[k]), len(o.cl[k]))
        return None


def run(i, rng, spec):
    from minorminer import busclique
    B = busclique.busgraph_cache
    top = os.path.join(spec["scratch"], "e%d" % i)
    ct.cache_home(os.path.join(top, "home"))
    base = B.cache_rootdir()
    assert base.startswith(top)
    while True:
        desc, g = dwgraphs.random_graph(rng, .4 if rng.random() < .8 else .6)
        if len(g) and desc[1][-1] != "torus":
            break
    tadj = dwgraphs.adj(g)
    lin = ct.to_linear(g)
    V, trace = [], []
    st = {"operations": 0, "embeddings_checked": 0, "ops": [], "disk_checks": 0}
    seeds = [0, rng.getrandbits(32), rng.getrandbits(32)]
    objs = {s: B(g, seed=s) for s in seeds}

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\nhistory: %s\n%s" % (msg, trace, desc)})

    def view(b, who):
        v = View(b, 6)
        for what, e, n in [("largest_clique", v.big, len(v.big))] + [("find_clique_embedding(%d)" % k, e, k) for k, e in v.by.items()] + \
                [("largest_clique_by_chainlength(%d)" % k, e, len(e)) for k, e in v.cl.items()]:
            if not e:
                continue
            st["embeddings_checked"] += 1
            if set(e) != set(range(n)):
                bad("labels", "%s %s has labels %r" % (who, what, sorted(e)))
            f = oracle.embedding_faults({k: list(c) for k, c in e.items()}, {k: set(e) - {k} for k in e}, tadj)
            if f:
                bad("invalid-" + f[0][0], "%s %s: %r %r" % (who, what, f, e))
        for k, e in v.cl.items():
            if e and length(e) > k:
                bad("chainlength", "%s largest_clique_by_chainlength(%d) has a chain of %d" % (who, k, length(e)))
        return v

    def disk():
        out = {}
        for d, _, fs in os.walk(os.path.join(base, "clique")):
            for f in fs:
                if not f.startswith("."):
                    out[f] = open(os.path.join(d, f), "rb").read()
        return out

    def cand(b):
        """a valid clique embedding in the labels of g, as a user might bring it"""
        r = rng.random()
        e = rng.choice([b.largest_clique, lambda: b.find_clique_embedding(rng.randint(1, 8))])()
        e = {k: list(c) for k, c in e.items()}
        if r < .3 and e:
            ks = rng.sample(sorted(e), rng.randint(1, len(e)))
            e = {k: e[k] for k in ks}
        if r < .7 and e:                                           # chains grown by free neighbours
            used = {q for c in e.values() for q in c}
            for _ in range(rng.randint(1, 6)):
                k = rng.choice(sorted(e))
                opts = sorted({w for q in e[k] for w in g[q]} - used)
                if opts:
                    q = rng.choice(opts)
                    e[k].append(q)
                    used.add(q)
        elif r < .9:
            n = rng.randint(2, 6)
            from minorminer import find_embedding
            try:
                f = find_embedding(nx.complete_graph(n), g, random_seed=rng.getrandbits(30), tries=1, max_no_improvement=2, timeout=5)
            except RuntimeError:                                   # tiny targets
                f = None
            if f:
                e = f
        rename = rng.random()
        if rename < .3:
            e = {"x%s" % k: tuple(c) for k, c in e.items()}
        elif rename < .6:
            e = [tuple(c) for c in e.values()]
        return e

    def vals(e):
        return list(e.values()) if isinstance(e, dict) else list(e)

    qualities = {None: None,
                 "total": lambda emb: -sum(map(len, emb)),
                 "longer": lambda emb: sum(map(len, emb)),
                 "tuple": lambda emb: (-max(map(len, emb)), sum(len(c) == max(map(len, emb)) for c in emb))}

    def q_of(qf, e):
        emb = [[lin(q) for q in c] for c in e.values()]
        return qf(emb) if emb else None

    try:
        for step in range(rng.randint(3, 9)):
            s = rng.choice(seeds)
            b = objs[s]
            if rng.random() < .25:
                b = objs[s] = B(g, seed=s)                          # forget what is in memory
                trace.append("reload %d" % seeds.index(s))
            # what this cache holds, seen through a second object if nothing was loaded yet
            before = view(b if b._cliques is not None else B(g, seed=s), "before")
            d0 = disk()
            wd = rng.random() < .5
            op = rng.choice(["insert", "insert", "direct", "merge", "update", "get", "badarg", "mine" if rng.random() < .25 else "insert"])
            st["ops"].append(op)
            st["operations"] += 1
            qn = rng.choice([None, None, "total", "longer", "tuple"])
            qf = qualities[qn]
            trace.append("%s cache %d%s q=%s" % (op, seeds.index(s), " +disk" if wd else "", qn))
            if op == "insert":
                e = cand(rng.choice(list(objs.values())))
                keep = repr(e)
                b.insert_clique_embedding(e, write_to_disk=wd, quality_function=qf)
                if repr(e) != keep:
                    bad("input", "insert_clique_embedding changed its argument")
                after = view(b, "after insert")
                n = len(e)
                if len(after.big) < max(len(before.big), n):
                    bad("insert-largest", "largest %d, had %d and inserted %d" % (len(after.big), len(before.big), n))
                srt = sorted(vals(e), key=len)
                for k in range(1, after.n):
                    was, now = before.by.get(k, {}), after.by[k]
                    new = {j: c for j, c in enumerate(srt[:k])} if k <= n else {}
                    if qf is None:
                        if length(now) != min(length(was), length(new)):
                            bad("insert-length", "size %d: chain length %d, had %d and inserted %d" % (k, length(now), length(was), length(new)))
                    elif (was or new) and not now:
                        bad("insert-lost", "size %d lost" % k)
                    elif was and now and q_of(qf, now) < q_of(qf, was):
                        bad("insert-quality", "size %d: quality %r, had %r" % (k, q_of(qf, now), q_of(qf, was)))
            elif op == "direct":
                e = cand(rng.choice(list(objs.values())))
                b.insert_clique_embedding(e, write_to_disk=wd, direct=True)
                after = view(b, "after direct insert")
                n = len(e)
                if n and chains(after.by[n] if n < after.n else {}) != chains(dict(enumerate(vals(e)))):
                    bad("direct", "size %d is %r, inserted %r" % (n, after.by.get(n), e))
                for k in range(1, min(after.n, before.n)):
                    if k != n and after.by[k] != before.by[k]:
                        bad("direct-other", "size %d changed by a direct insertion of size %d" % (k, n))
            elif op == "merge":
                o = objs[rng.choice([x for x in seeds if x != s])]
                ov = view(o, "other")
                b.merge_clique_cache(o, quality_function=qf, write_to_disk=wd)
                after = view(b, "after merge")
                if len(after.big) < max(len(before.big), len(ov.big)):
                    bad("merge-largest", "largest %d, had %d and %d" % (len(after.big), len(before.big), len(ov.big)))
                for k in range(1, after.n):
                    was, new, now = before.by.get(k, {}), ov.by.get(k, {}), after.by[k]
                    if (was or new) and not now:
                        bad("merge-lost", "size %d lost" % k)
                    elif qf is None and length(now) != min(length(was), length(new)):
                        bad("merge-length", "size %d: chain length %d, had %d and %d" % (k, length(now), length(was), length(new)))
                    elif qf is not None and was and new and now and q_of(qf, now) != max(q_of(qf, was), q_of(qf, new)):
                        bad("merge-quality", "size %d: quality %r, had %r and %r" % (k, q_of(qf, now), q_of(qf, was), q_of(qf, new)))
                if qf is None:
                    for k in after.cl:
                        if len(after.cl[k]) < max(len(before.cl[k]), len(ov.cl[k])):
                            bad("merge-chainlength", "largest clique of length %d has %d, had %d and %d" % (k, len(after.cl[k]), len(before.cl[k]), len(ov.cl[k])))
                d = view(o, "merged-from").same(ov)
                if d:
                    bad("merge-source", "merging changed the other cache: " + d)
            elif op in ("update", "get"):
                o = objs[rng.choice(seeds)]
                ov = view(o, "exporter")
                sparse, comp = rng.random() < .5, rng.random() < .5
                c = o.get_clique_cache(sparse=sparse, compress=comp)
                if comp != isinstance(c, bytes) or not comp and sparse != isinstance(c, dict):
                    bad("export-type", "get_clique_cache(%s, %s) is a %s" % (sparse, comp, type(c)))
                if not comp:
                    keys = dict(c.items() if sparse else enumerate(c))
                    for k, emb in keys.items():
                        if len(emb) != k and len(emb):
                            bad("export-size", "export at size %d has %d chains" % (k, len(emb)))
                    for k in range(1, ov.n):
                        a = sorted(sorted(map(repr, (lin(q) for q in x))) for x in ov.by[k].values())
                        z = sorted(sorted(map(repr, x)) for x in keys.get(k, ()))
                        if a != z:
                            bad("export", "size %d: cache has %r, export has %r" % (k, a, z))
                            break
                if op == "get":
                    after = view(b, "after get")
                    d = after.same(before)
                    wd = False
                    if d:
                        bad("get-changes", d)
                else:
                    if rng.random() < .3:
                        g2 = ct.relabelled(rng, g)                    # exports are integer labelled
                        b = objs[s] = B(g, seed=s)
                        b.update_clique_cache(B(g2, seed=s).get_clique_cache(), write_to_disk=False)
                    b.update_clique_cache(c, write_to_disk=wd)
                    after = view(b, "after update")
                    d = after.same(ov, False)                         # an export is indexed by size only
                    if d:
                        bad("roundtrip", "cache differs from the one it was set from (sparse=%s, compress=%s): %s" % (sparse, comp, d))
            elif op == "badarg":
                wd = False
                try:
                    b.insert_clique_embedding([[rng.choice(list(g))]], direct=True, quality_function=len)
                    bad("badarg", "direct=True with a quality function was accepted")
                except ValueError:
                    pass
                after = view(b, "after badarg")
                d = after.same(before)
                if d:
                    bad("badarg-changes", d)
            elif op == "mine":
                logging.getLogger("minorminer._minorminer").setLevel(logging.CRITICAL)
                random.seed(rng.getrandbits(30))
                d_before = view(B(g), "disk")
                m = busclique.mine_clique_embeddings(g, num_seeds=rng.randint(0, 2), regularize=rng.random() < .7, heuristic_bound=rng.choice([None, 3, 5]) if len(g) < 60 else 4,
                                                     heuristic_runs=1, heuristic_args=dict(tries=1, max_no_improvement=1, chainlength_patience=0, timeout=2),
                                                     mask_bound=rng.choice([1, 8, 64]))
                mv = view(m, "mined")
                for k in range(1, mv.n):
                    was = d_before.by.get(k, {})
                    if length(mv.by[k]) > length(was):
                        bad("mine-worse", "size %d: chain length %d, the stored cache had %d" % (k, length(mv.by[k]), length(was)))
                d = view(B(g), "disk after mining").same(mv)
                if d:
                    bad("mine-disk", "mining was not stored: " + d)
                objs = {x: B(g, seed=x) for x in seeds}
                continue
            # disk
            st["disk_checks"] += 1
            d1 = disk()
            if wd:
                d = view(B(g, seed=s), "reloaded").same(after)
                if d:
                    bad("not-stored", "%s with write_to_disk: a new object differs: %s" % (op, d))
            else:
                ch = [f for f in d0 if d1.get(f) != d0[f]]
                if ch:
                    bad("stored", "%s without write_to_disk changed %s" % (op, ch))
            if V:
                break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return {"violations": V[:3], "stats": st, "evals": st["operations"], "sig": hashlib.sha1(str((desc, trace)).encode()).hexdigest(),
            "case": {"graph": desc, "history": trace}}
