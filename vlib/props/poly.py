"""The polynomial-time native embedder of minorminer.utils.polynomialembedder."""
import itertools
import random
import warnings
import networkx as nx
import dwave.graphs as dg


def setup(spec):
    warnings.simplefilter("ignore")


def lines_in(adj, x0, x1, y0, y1, L):
    """(horizontal, vertical) unbroken lines across a rectangle, counted from scratch."""
    def good(line):
        return all(q in adj for q in line) and all(b in adj[a] for a, b in zip(line, line[1:]))
    h = sum(good([(x, y, 0, k) for x in range(x0, x1 + 1)]) for y in range(y0, y1 + 1) for k in range(L))
    v = sum(good([(x, y, 1, k) for y in range(y0, y1 + 1)]) for x in range(x0, x1 + 1) for k in range(L))
    return h, v


def adjacency(edges):
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    return adj


def without(edges, gone):
    return [(a, b) for a, b in edges if a not in gone and b not in gone]


def rect_sizes(edges, evil, M, N, L):
    """[(w, h, lines, lines)] of every rectangle of every way to give up an end of each broken cell coupler."""
    out = set()
    for d in itertools.product(*evil):
        adj = adjacency(without(edges, set(d)))
        for x0 in range(M):
            for x1 in range(x0, M):
                for y0 in range(N):
                    for y1 in range(y0, N):
                        out.add((x1 - x0 + 1, y1 - y0 + 1) + lines_in(adj, x0, x1, y0, y1, L))
    return out


def run(i, rng, spec):
    from minorminer.utils import polynomialembedder as pe
    random.seed(rng.getrandbits(32))
    M, N, L = rng.choice([1, 2, 2, 3, 3, 4, 5]), rng.choice([1, 2, 2, 3, 3, 4, 5]), rng.choice([1, 2, 3, 4, 4, 4, 5])
    vast = rng.random() < .008
    if vast:
        M, N, L = rng.randint(5, 12), rng.randint(5, 12), 4
    g = dg.chimera_graph(M, N, L, coordinates=True)
    level = rng.choice(["none", "qubits", "qubits", "couplers", "both", "both", "heavy", "cells", "cells", "manycells"])
    if vast and level == "manycells":
        level = "qubits"
    q = {"none": 0, "qubits": .08, "couplers": 0, "both": .05, "heavy": .4, "cells": .05, "manycells": .05}[level]
    c = {"none": 0, "qubits": 0, "couplers": .1, "both": .05, "heavy": .2, "cells": .03, "manycells": 0}[level]
    gone = {v for v in g if rng.random() < q}
    edges = [e for e in g.edges if e[0] not in gone and e[1] not in gone and (e[0][:2] == e[1][:2] or rng.random() >= c)]
    inner = [e for e in edges if e[0][:2] == e[1][:2]]
    cut = rng.sample(inner, min(len(inner), {"cells": rng.randint(0, 3), "manycells": rng.randint(4, 14)}.get(level, 0)))
    edges = [e for e in edges if e not in set(cut)]
    qubits = {v for e in edges for v in e}
    evil = [e for e in cut if e[0] in qubits and e[1] in qubits]
    edges = [e if rng.random() < .5 else e[::-1] for e in edges]
    rng.shuffle(edges)
    linear = rng.random() < .5
    # dwave: (row, column, u, k) with u=0 between rows; here: (x, y, u, k) with u=0 between x
    lin = {v: ((N * v[0] + v[1]) * 2 + v[2]) * L + v[3] for v in qubits}
    back = {n: v for v, n in lin.items()}
    given = [(lin[a], lin[b]) for a, b in edges] if linear else list(edges)
    limit = rng.choice([64, 64, 64, 8, 1])
    kw = {"M": M, "L": L, "linear": linear}
    if M != N or rng.random() < .5:
        kw["N"] = N
    if limit != 64:
        kw["proc_limit"] = limit
    if rng.random() < .3:
        kw["random_bundles"] = True
    desc = "C(%d,%d,%d) %r edges=%r" % (M, N, L, {a: b for a, b in kw.items() if a not in "MNL"}, sorted(edges) if level != "none" else "all")
    V, st = [], {"processors": 1, "evil": len(evil), "answers": 0}

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\n%s" % (msg, desc[:4000])})
    adj = adjacency(edges)
    proc = pe.processor(given, **kw)
    exhaustive = 2 ** len(evil) <= limit and (M * N <= 64 if not evil else M * N <= 9)

    def chains(emb, what):
        """chains as coordinates, judged as disjoint paths of working qubits"""
        try:
            cs = [[back[x] if linear else x for x in ch] for ch in emb]
        except KeyError as e:
            bad("unknown-qubit", "%s uses %r: %r" % (what, e, emb))
            return None
        seen = set()
        for ch in cs:
            if not ch or len(set(ch)) != len(ch) or seen & set(ch) or not set(ch) <= qubits:
                bad("qubits", "%s has chains that are empty, overlapping or of missing qubits: %r" % (what, cs))
                return None
            if any(b not in adj[a] for a, b in zip(ch, ch[1:])):
                bad("broken", "%s has a broken chain %r" % (what, ch))
                return None
            seen |= set(ch)
        return cs

    def joined(a, b):
        b = set(b)
        return any(adj[p] & b for p in a)

    def clique(emb, what):
        if emb is None or not isinstance(emb, list):
            bad("type", "%s is %r" % (what, emb))
            return None
        cs = chains(emb, what)
        if cs is None:
            return None
        st["answers"] += 1
        for a, b in itertools.combinations(cs, 2):
            if not joined(a, b):
                bad("clique-edge", "%s: chains %r and %r are not coupled" % (what, a, b))
                return None
        return cs

    def biclique(emb, what):
        if type(emb) is not tuple or len(emb) != 2:
            bad("type", "%s is %r" % (what, emb))
            return None
        cs = chains(list(emb[0]) + list(emb[1]), what)
        if cs is None:
            return None
        st["answers"] += 1
        A, B = cs[:len(emb[0])], cs[len(emb[0]):]
        for a in A:
            for b in B:
                if not joined(a, b):
                    bad("biclique-edge", "%s: chains %r and %r are not coupled" % (what, a, b))
                    return None
        for side in (A, B):
            if len({len(x) for x in side}) > 1:
                bad("uneven", "%s has chains of several lengths on one side: %r" % (what, side))
        return A, B
    kind = rng.choice(["clique", "clique", "clique", "biclique", "biclique"])
    if kind == "clique":
        sizes = {}
        for w in range(0, min(M, N) + 2):
            cs = clique(proc.nativeCliqueEmbed(w), "nativeCliqueEmbed(%d)" % w)
            if cs is None:
                return {"violations": V, "stats": st, "evals": 1}
            if any(len(x) != w + 1 for x in cs):
                bad("length", "nativeCliqueEmbed(%d) has chains %r" % (w, cs))
            sizes[w + 1] = len(cs)
        top = rng.choice([None, None, 1, 2, 3, min(M, N) + 1, M + N + 3, 100])
        big = clique(proc.largestNativeClique() if top is None else proc.largestNativeClique(max_chain_length=top), "largestNativeClique(%r)" % top)
        if big is None:
            return {"violations": V, "stats": st, "evals": 1}
        if top is not None and any(len(x) > top for x in big):
            bad("too-long", "largestNativeClique(%d) has chains %r" % (top, big))
        fair = [n for a, n in sizes.items() if a <= (min(M, N) + 1 if top is None else top)]
        if exhaustive and fair and len(big) < max(fair):
            bad("smaller", "largestNativeClique(%r) has %d chains although nativeCliqueEmbed finds %r" % (top, len(big), sizes))
        if exhaustive and fair and len(big) == max(fair) and big and len(big[0]) > min(a for a, n in sizes.items() if n == len(big)):
            bad("longer", "largestNativeClique(%r) has chains of %d although nativeCliqueEmbed finds %r" % (top, len(big[0]), sizes))
        for n in {0, 1, len(big), len(big) + 1, rng.randint(0, 12)}:
            cs = clique(proc.tightestNativeClique(n), "tightestNativeClique(%d)" % n)
            if cs is None:
                break
            ok = [a for a, k in sizes.items() if k >= n and 2 <= a <= min(M, N) + 1]
            if len(cs) not in (0, n) or exhaustive and ok and not cs and n:
                bad("tightest-size", "tightestNativeClique(%d) has %d chains although nativeCliqueEmbed finds %r" % (n, len(cs), sizes))
            elif cs and exhaustive and not evil and len(cs[0]) > min(ok):
                bad("tightest-length", "tightestNativeClique(%d) has chains of %d although nativeCliqueEmbed finds %r" % (n, len(cs[0]), sizes))
        if not evil and not V:
            eden = pe.eden_processor(edges, M, N, L)
            for what, (score, cl) in (("largestNativeClique", eden.largestNativeClique()), ("nativeCliqueEmbed", eden.nativeCliqueEmbed(rng.randint(1, min(M, N))))):
                if score != len(cl):
                    bad("score", "eden_processor.%s says %r for %d chains" % (what, score, len(cl)))
            # the same question put to the other clique embedder
            from minorminer.busclique import busgraph_cache
            G = dg.chimera_graph(M, N, L, edge_list=[(lin[a], lin[b]) for a, b in edges], node_list=[lin[v] for v in qubits])
            if len(G):
                try:
                    other = busgraph_cache(G, seed=0).largest_clique()
                except Exception as e:
                    other = None
                if other is not None:
                    st["compared"] = 1
                    if top is None and len(other) > len(big) and max(map(len, other.values()), default=0) <= min(M, N) + 1 and min(map(len, other.values()), default=0) > 1:
                        bad("optimum", "largestNativeClique has %d chains, but there is a native clique of %d: %r" % (len(big), len(other), other))
    else:
        rects = rect_sizes(edges, evil, M, N, L) if exhaustive else None
        imb, top = rng.choice([0, 0, None, 1, 2]), rng.choice([None, None, 1, 2, 3])
        args = {}
        if imb != 0 or rng.random() < .5:
            args["chain_imbalance"] = imb
        if top is not None:
            args["max_chain_length"] = top

        def fits(w, h):
            return (top is None or max(w, h) <= top) and (imb is None or abs(w - h) <= imb)

        def limits(r, what):
            A, B = r
            if A and B and not fits(len(A[0]), len(B[0])) or top is not None and any(len(x) > top for x in A + B):
                bad("limits", "%s has chains of %d and %d" % (what, len(A[0]) if A else 0, len(B[0]) if B else 0))
        what = "largestNativeBiClique(%r)" % (args,)
        r = biclique(proc.largestNativeBiClique(**args), what)
        if r is None:
            return {"violations": V, "stats": st, "evals": 1}
        limits(r, what)
        got = tuple(sorted(map(len, r)))
        if rects is not None:
            best = max(tuple(sorted((a, b))) for w, h, a, b in rects if fits(w, h))
            if got != best:
                bad("biclique-size", "%s has %r chains instead of %r" % (what, got, best))
            st["exact"] = 1
        for n, m in {got, got[::-1], (got[0] + 1, got[1]), (1, None), (rng.randint(0, 9), rng.randint(0, 9)), (rng.randint(1, 6), None)}:
            what = "tightestNativeBiClique(%r, %r, %r)" % (n, m, args)
            out = proc.tightestNativeBiClique(n, m, **args) if m is not None else proc.tightestNativeBiClique(n, **args)
            k = n if m is None else m
            fit = None if rects is None else [(w, h) for w, h, a, b in rects if fits(w, h) and (a >= n and b >= k or a >= k and b >= n)]
            if out is None:
                st["none"] = st.get("none", 0) + 1
                if fit:
                    bad("biclique-missed", "%s found nothing although there is a rectangle of %r" % (what, fit[0]))
                continue
            t = biclique(out, what)
            if t is None:
                break
            if (len(t[0]), len(t[1])) != (n, k):
                bad("biclique-tightest-size", "%s has %d and %d chains" % (what, len(t[0]), len(t[1])))
            limits(t, what)
            if fit and not evil and n and k:
                mine = tuple(sorted((len(t[0][0]), len(t[1][0])), reverse=True))
                want = min((max(p), min(p)) for p in fit)
                if mine > want:
                    bad("biclique-tightest-length", "%s has chains of %r although %r is possible" % (what, mine, want))
    if rng.random() < .3 and not V:
        # the same seed, the same answers
        s = rng.getrandbits(30)
        ans = []
        for _ in range(2):
            random.seed(s)
            p = pe.processor(list(given), **kw)
            ans.append((p.largestNativeClique(), p.largestNativeBiClique(), p.tightestNativeClique(3)))
        if ans[0] != ans[1]:
            bad("seed", "the same seed gave %r and %r" % tuple(ans))
    return {"violations": V, "stats": st, "evals": 1, "sig": desc[:700] if edges else None, "case": {"poly": desc[:300]}}
