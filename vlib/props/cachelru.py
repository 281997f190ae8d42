"""Size, eviction order and containment of the cache directory over long histories; clear_all_caches."""
import hashlib, os, shutil, sys
import networkx as nx
import dwave.graphs as dg
from vlib import dwgraphs
from vlib.props import cachetrans as ct

LIMIT = 100
OPS = []
WATCH = {"on": False}


def audit(ev, args):
    if not WATCH["on"]:
        return
    if ev == "open":
        p, m, fl = args
        if isinstance(p, int):
            return
        w = (isinstance(fl, int) and fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) or (isinstance(m, str) and m[:1] in "wax")
        OPS.append(("w" if w else "r", os.fsdecode(p), None))
    elif ev in ("os.remove", "os.mkdir", "os.rmdir", "os.rename", "os.truncate", "os.link", "os.symlink", "os.chmod", "shutil.rmtree"):
        OPS.append((ev, os.fsdecode(args[0]), os.fsdecode(args[1]) if ev in ("os.rename", "os.link", "os.symlink") else None))


def setup(spec):
    sys.addaudithook(audit)


def tiny(k, rng):
    """distinct small graphs, cheap to embed"""
    if k % 3 == 0:
        g = dg.chimera_graph(1, 1, 3)
    elif k % 3 == 1:
        g = dg.chimera_graph(1, 2, 2, coordinates=rng.random() < .5)
    else:
        g = dg.zephyr_graph(1, 1)
    es = sorted(map(tuple, g.edges))
    bits = k // 3 + 1
    g.remove_edges_from([e for j, e in enumerate(es) if bits >> j & 1])
    return g


def snapshot(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, top)] = ("link", os.readlink(p)) if os.path.islink(p) else open(p, "rb").read()
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, top) + "/"] = os.readlink(p) if os.path.islink(p) else None
    return out


def run(i, rng, spec):
    return (evict if rng.random() < .3 else clear)(i, rng, spec)


def contained(ops, base, home, V):
    for ev, a, b in ops:
        if ev == "r" or ev == "w" and a.startswith("/dev/") or "__pycache__" in a:
            continue
        for p in (a, b):
            if p is None:
                continue
            p = os.path.abspath(p)
            if p != base and not p.startswith(base + os.sep) and not (ev == "os.mkdir" and base.startswith(p)):
                V.append({"key": "outside", "msg": "%s touches %s outside the cache directory %s" % (ev, p, base)})
                return


def evict(i, rng, spec):
    from minorminer import busclique
    top = os.path.join(spec["scratch"], "l%d" % i)
    home = os.path.join(top, "home")
    os.makedirs(home)
    ct.cache_home(home)
    base = busclique.busgraph_cache.cache_rootdir()
    assert base.startswith(top)
    V, trace = [], []
    st = {"queries": 0, "evictions": 0, "hits": 0, "max_files": 0, "file_operations": 0}
    order = {"clique": [], "biclique": []}      # model: most recently used first
    fname = {}
    ids = list(range(rng.randint(104, 125)))
    kinds = rng.choice([["clique"], ["biclique"], ["clique", "biclique"]])
    try:
        for step in range(rng.randint(130, 190)):
            kind = rng.choice(kinds)
            used = order[kind]
            r = rng.random()
            new = [k for k in ids if k not in used]
            if new and (r < .75 or not used):
                k = new[0]
            elif r < .9 and len(used) > 5:
                k = used[-rng.randint(1, min(6, len(used)))]           # close to eviction
            else:
                k = rng.choice(used)
            g = tiny(k, rng)
            d = os.path.join(base, kind)
            before = set(os.listdir(d)) if os.path.isdir(d) else set()
            del OPS[:]
            WATCH["on"] = True
            try:
                bgc = busclique.busgraph_cache(g)
                bgc.largest_clique() if kind == "clique" else bgc.largest_balanced_biclique()
            finally:
                WATCH["on"] = False
            st["queries"] += 1
            st["file_operations"] += len(OPS)
            contained(OPS, base, home, V)
            dirs = {p for ev, p, _ in OPS if ev == "w" and p.startswith(base)}
            if dirs and not os.path.isdir(d):
                V.append({"key": "layout", "msg": "no directory %s after a query" % d})
                break
            after = {f for f in os.listdir(d) if not f.startswith(".")}
            st["max_files"] = max(st["max_files"], len(after))
            # which file serves this graph is read off the first query: the one that appeared
            if (kind, k) not in fname:
                fresh = after - before
                if len(fresh) == 1:
                    fname[kind, k] = fresh.pop()
            if len(after) > LIMIT:
                V.append({"key": "bound", "msg": "%d cache files of kind %s after %d queries (limit %d)" % (len(after), kind, st["queries"], LIMIT)})
                break
            if any(f.endswith("~") or "tmp" in f for f in after):
                V.append({"key": "leftover", "msg": "temporary file left behind: %s" % sorted(f for f in after if f.endswith("~"))})
                break
            if k in used:
                used.remove(k)
            used.insert(0, k)
            names = [fname.get((kind, x)) for x in used]
            if None in names or len(set(names)) != len(names):
                continue                                              # files shared between graphs: only the bound applies
            want = set(names[:LIMIT])
            if step and len(used) > LIMIT:
                st["evictions"] += 1
            if want != after:
                V.append({"key": "lru", "msg": "step %d (%s graph %d): files that should have been kept are missing: %s; files that should be gone: %s"
                          % (step, kind, k, [(used.index(x), fname[kind, x]) for x in used[:LIMIT] if fname[kind, x] not in after], sorted(after - want))})
                break
            trace.append((kind[0], k))
    finally:
        WATCH["on"] = False
        shutil.rmtree(top, ignore_errors=True)
    return {"violations": V[:3], "stats": st, "evals": st["queries"], "sig": hashlib.sha1(str(trace).encode()).hexdigest(),
            "case": {"kind": "evict", "history": str(trace)[:1500]}}


def clear(i, rng, spec):
    from minorminer import busclique
    B = busclique.busgraph_cache
    top = os.path.join(spec["scratch"], "l%d" % i)
    home = os.path.join(top, "home")
    os.makedirs(home)
    ct.cache_home(home)
    V, trace = [], []
    st = {"clears": 0, "decoys": 0, "files_cleared": 0}
    roots = {v: B.cache_rootdir(v) for v in range(0, 30)}
    base = B.cache_rootdir()
    cur = [v for v in roots if roots[v] == base][0]
    assert all(r.startswith(top) for r in roots.values())
    try:
        for rnd in range(rng.randint(1, 3)):
            for _ in range(rng.randint(0, 4)):
                bgc = B(tiny(rng.randint(0, 60), rng), seed=rng.choice([0, 5]))
                rng.choice([bgc.largest_clique, bgc.largest_balanced_biclique])()
            # caches of older versions, in whatever layout they had
            for v in rng.sample(range(cur), rng.randint(0, 3)):
                d = os.path.join(roots[v], *rng.choice([["clique"], ["biclique"], [], ["deep", "er", "still"], ["a"]]))
                os.makedirs(d, exist_ok=True)
                for n in range(rng.randint(0, 3)):
                    open(os.path.join(d, "f%d" % n), "w").write("old")
            # things that are not cache files
            decoys = {}

            def decoy(rel, link=None):
                p = os.path.join(top, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.lexists(p):
                    open(p, "w").write("keep " + rel)
                decoys[rel] = open(p).read()
            for rel in rng.sample(["home/other.txt", "home/otherapp/x", "outside/a/b.txt", "outside/c.txt",
                                   os.path.relpath(roots[cur + 1], top) + "/clique/f", os.path.relpath(roots[cur + 3], top) + "/z",
                                   os.path.relpath(base, top) + "0/q", os.path.relpath(base, top) + ".txt",
                                   os.path.relpath(os.path.dirname(base), top) + "/busclique/k"], rng.randint(2, 9)):
                decoy(rel)
            st["decoys"] += len(decoys)
            if rng.random() < .3 and os.path.isdir(base):
                decoy("outside/linked/precious")
                link = os.path.join(base, rng.choice(["", "clique"]), "link")
                if os.path.isdir(os.path.dirname(link)) and not os.path.lexists(link):
                    os.symlink(os.path.join(top, "outside/linked") if rng.random() < .5 else os.path.join(top, "outside/linked/precious"), link)
                    trace.append("link")
            inside = sum(len(fs) for v in range(cur + 1) for _, _, fs in os.walk(roots[v]))
            del OPS[:]
            WATCH["on"] = True
            try:
                B.clear_all_caches()
            finally:
                WATCH["on"] = False
            st["clears"] += 1
            st["files_cleared"] += inside
            trace.append((inside, sorted(decoys)))
            left = [os.path.join(d, f) for v in range(cur + 1) for d, _, fs in os.walk(roots[v]) for f in fs]
            if left:
                V.append({"key": "not-cleared", "msg": "files left after clear_all_caches: %s" % left[:5]})
            gone = [rel for rel in decoys if not os.path.exists(os.path.join(top, rel)) or open(os.path.join(top, rel)).read() != decoys[rel]]
            if gone:
                V.append({"key": "not-ours", "msg": "clear_all_caches removed or changed files that are not caches: %s" % gone})
            if V:
                break
            g = tiny(rng.randint(0, 60), rng)
            if not B(g).largest_clique():
                V.append({"key": "after", "msg": "no answer after clear_all_caches"})
        B.clear_all_caches()
        B.clear_all_caches()
    finally:
        WATCH["on"] = False
        shutil.rmtree(top, ignore_errors=True)
    return {"violations": V[:3], "stats": st, "evals": st["clears"], "sig": hashlib.sha1(str(trace).encode()).hexdigest(),
            "case": {"kind": "clear", "history": str(trace)[:1500]}}
