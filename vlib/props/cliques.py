"""Clique embeddings on random faulty lattices, one-shot and cached."""
import itertools
from vlib import dwgraphs, oracle


def setup(spec):
    pass


def clique_adj(labels):
    s = set(labels)
    return {v: s - {v} for v in s}


def length(e):
    return max(map(len, e.values())) if e else 0


def run(i, rng, spec):
    try:
        return case(i, rng, spec)
    except ValueError as e:
        if "not in its topology" in str(e):
            return {"stats": {"refused_torus": 1}, "evals": 1}
        raise


def case(i, rng, spec):
    from minorminer import busclique
    desc, g = dwgraphs.random_graph(rng, spec["extra"].get("big", 1.0), vast=spec["extra"].get("vast", .015), slow="big" not in spec["extra"])
    tadj = dwgraphs.adj(g)
    V, st = [], {"families": [desc[0]], "faults": [desc[2]], "max_nodes": len(g), "embeddings": 0, "asked": 0}
    sizes = []

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s nodes=%r edges=%r" % (msg, desc, sorted(g.nodes), sorted(map(sorted, g.edges)))})

    def judge(e, labs, what):
        st["asked"] += 1
        if not isinstance(e, dict):
            bad("type", "%s returned %r" % (what, type(e)))
            return False
        if not e:
            return False
        st["embeddings"] += 1
        if set(e) != set(labs):
            bad("labels", "%s returned labels %r instead of %r" % (what, sorted(map(repr, e)), labs))
            return False
        f = oracle.embedding_faults({k: list(c) for k, c in e.items()}, clique_adj(labs), tadj)
        if f:
            bad("invalid-" + f[0][0], "%s: %r: %r" % (what, f, e))
            return False
        return True

    cached = rng.random() < .5
    bgc = busclique.busgraph_cache(g, seed=rng.getrandbits(32) if rng.random() < .3 else 0) if cached else None
    top = 3 * max(1, int(len(g) ** .5)) + 4
    for k in range(rng.randint(1, 4)):
        n = rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, top), rng.randint(0, top)])
        arg, labs = dwgraphs.labels(rng, n)
        seed = rng.choice([None, 0, 1, rng.getrandbits(32), 2 ** 32 - 1])
        mode = rng.choice(["oneshot", "oneshot", "cachedfn"]) if not cached else "bgc"
        what = "find_clique_embedding(%r) [%s, seed %r]" % (n, mode, seed)
        if mode == "oneshot":
            e = busclique.find_clique_embedding(arg, g, seed=seed, use_cache=False)
            if seed is not None:
                e2 = busclique.find_clique_embedding(labs, g, seed=seed, use_cache=False)
                if e2 != e:
                    bad("seed", "%s: equal seeds gave %r and %r" % (what, e, e2))
        elif mode == "cachedfn":
            if rng.random() < .5 or seed is None:
                e = busclique.find_clique_embedding(arg, g)
                e2 = busclique.find_clique_embedding(labs, g)
            else:
                e = busclique.find_clique_embedding(arg, g, seed=seed)
                e2 = busclique.find_clique_embedding(labs, g, seed=seed)
            if e2 != e:
                bad("repeat", "%s: asking twice gave %r and %r" % (what, e, e2))
        else:
            e = bgc.find_clique_embedding(arg)
        judge(e, labs, what)
        if n == 1 and len(g) and not e or n == 2 and g.number_of_edges() and not e:
            bad("trivial", "%s: a K_%d exists but none was returned" % (what, n))
        sizes.append((n, len(e), length(e)))
    if cached:
        e = bgc.largest_clique()
        judge(e, range(len(e)), "largest_clique")
        if not e and len(g):
            bad("trivial", "largest_clique is empty on a graph with nodes")
        sizes.append(("L", len(e)))
        for cl in rng.sample(range(0, 14), 3):
            e = bgc.largest_clique_by_chainlength(cl)
            judge(e, range(len(e)), "largest_clique_by_chainlength(%d)" % cl)
            if e and length(e) > cl:
                bad("chainlength", "largest_clique_by_chainlength(%d) has a chain of %d" % (cl, length(e)))
    return {"violations": V, "stats": st, "evals": st["asked"], "sig": str((desc, sizes)) if st["embeddings"] else None,
            "case": {"graph": desc, "sizes": sizes}}
