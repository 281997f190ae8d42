"""Rectangle packing against a geometric oracle."""


def setup(spec):
    pass


def gen(i, rng, spec):
    k = rng.choice(["few", "few", "many", "equal", "flat", "tall", "squares", "ones", "pow", "large", "single", "comb", "huge"])
    n = {"single": 1, "many": rng.randint(15, 60) if rng.random() < .97 else rng.randint(60, 110), "ones": rng.randint(1, 40)}.get(k, rng.randint(1, 12))
    m = rng.choice([1, 3, 10, 30, 100])
    if k == "equal":
        s = [(rng.randint(1, m), rng.randint(1, m))] * n
    elif k == "flat":
        s = [(rng.randint(1, 50 * m), rng.randint(1, 3)) for _ in range(n)]
    elif k == "tall":
        s = [(rng.randint(1, 3), rng.randint(1, 50 * m)) for _ in range(n)]
    elif k == "squares":
        s = [(a, a) for a in (rng.randint(1, m) for _ in range(n))]
    elif k == "ones":
        s = [(1, 1)] * n
    elif k == "pow":
        s = [(2 ** rng.randint(0, 8), 2 ** rng.randint(0, 8)) for _ in range(n)]
    elif k == "large":
        n = rng.randint(1, 4)
        top = rng.choice([2 ** 15, 2 ** 16, 2 ** 20, 2 ** 27])
        s = [(rng.randint(max(1, top // 2), top), rng.randint(max(1, top // 2), top)) for _ in range(n)]
    elif k == "huge":
        n = rng.randint(1, 4)
        big, turn = 2 ** rng.choice([29, 30, 31, 31, 32, 32, 33, 40, 61]) + rng.randint(-3, 3), rng.random() < .5
        s = [(big, rng.choice([1, 1, 2, 3])) for _ in range(n)]
        s = [r[::-1] for r in s] if turn else s
    elif k == "comb":
        s = [(rng.randint(5, 20) * m, 1) for _ in range(n // 2 + 1)] + [(1, rng.randint(5, 20) * m) for _ in range(n // 2 + 1)]
    else:
        s = [(rng.randint(1, m), rng.randint(1, m)) for _ in range(n)]
    W, H = max(w for w, _ in s), max(h for _, h in s)
    lim = lambda big, tot: rng.choice([None, None, big, rng.randint(big, max(big, tot)), max(1, big - rng.randint(0, 2)), int((big * tot) ** .5) + 1, tot, min(10 * tot, 2 ** 62)])
    return k, s, lim(W, sum(w for w, _ in s)), lim(H, sum(h for _, h in s))


def disjoint(a, b):
    (x1, y1, w1, h1), (x2, y2, w2, h2) = a, b
    return x1 + w1 <= x2 or x2 + w2 <= x1 or y1 + h1 <= y2 or y2 + h2 <= y1


def run(i, rng, spec):
    from minorminer._extern import rpack
    k, s, mw, mh = gen(i, rng, spec)
    V, st = [], {"kinds": [k], "packed": 0, "impossible": 0, "rectangles": len(s), "limited": int(mw is not None or mh is not None)}

    def bad(key, msg):
        V.append({"key": key, "msg": "%s\nsizes=%r max_width=%r max_height=%r" % (msg, s, mw, mh)})
    W, H = max(w for w, _ in s), max(h for _, h in s)
    must_fail = mw is not None and mw < W or mh is not None and mh < H
    sure = not must_fail and (mw is None or mh is None or mw >= W and mh >= sum(h for _, h in s) or mh >= H and mw >= sum(w for w, _ in s))
    huge = sum(w for w, _ in s) * sum(h for _, h in s) > 2 ** 63 - 1
    form = rng.choice([list, tuple, iter, lambda z: [list(r) for r in z]])
    given = form(s)
    kw = {}
    if mw is not None or rng.random() < .3:
        kw["max_width"] = mw
    if mh is not None or rng.random() < .3:
        kw["max_height"] = mh
    pos = None
    try:
        pos = rpack.pack(given, **kw)
    except rpack.PackingImpossibleError as e:
        st["impossible"] = 1
        if sure:
            bad("refused", "packing is possible but was refused: %s" % e)
        part = e.args[1] if len(e.args) > 1 else []
        if any(x < 0 or y < 0 for x, y in part):
            bad("partial-negative", "the partial result has negative positions %r" % (part,))
    except OverflowError:
        st["overflow"] = 1
        if not huge:
            bad("overflow", "OverflowError for sizes whose areas fit 63 bits")
    if pos is not None:
        st["packed"] = 1
        if must_fail:
            bad("accepted", "packed into less than the largest rectangle: %r" % pos)
        if type(pos) is not list or len(pos) != len(s) or any(len(p) != 2 or any(type(c) is not int or c < 0 for c in p) for p in pos):
            bad("shape", "bad positions %r" % (pos,))
        else:
            R = [p + z for p, z in zip(pos, s)]
            over = [(a, b) for a in range(len(R)) for b in range(a) if not disjoint(R[a], R[b])]
            bw, bh = max(x + w for x, y, w, h in R), max(y + h for x, y, w, h in R)
            if over:
                bad("overlap", "rectangles %r overlap: %r" % (over[:4], pos))
            if mw is not None and bw > mw or mh is not None and bh > mh:
                bad("limit", "the packing is %d by %d" % (bw, bh))
            if mw is None and mh is None:
                worst = min(sum(w for w, _ in s) * H, W * sum(h for _, h in s))
                if bw * bh > worst and not huge:
                    bad("wasteful", "a box of %d by %d is larger than a single row or column" % (bw, bh))
            if rpack.bbox_size(s, pos) != (bw, bh) or rpack.enclosing_size(s, pos) != (bw, bh):
                bad("bbox", "bbox_size is %r instead of %r" % (rpack.bbox_size(s, pos), (bw, bh)))
            d = sum(w * h for w, h in s) / (bw * bh)
            if abs(rpack.packing_density(s, pos) - d) > 1e-12 or d > 1 + 1e-12:
                bad("density", "density %r instead of %r" % (rpack.packing_density(s, pos), d))
            if (rpack.overlapping(s, pos) is None) != (not over):
                bad("overlapping", "overlapping() says %r" % (rpack.overlapping(s, pos),))
            try:
                pos2 = rpack.pack(list(s), **kw)
                if pos2 != pos:
                    bad("unrepeatable", "packing again gives %r instead of %r" % (pos2, pos))
            except rpack.PackingImpossibleError:
                bad("unrepeatable", "packing again is impossible")
    # the helpers on arbitrary positions
    p2 = [(rng.randint(0, 12), rng.randint(0, 12)) for _ in s]
    R = [p + z for p, z in zip(p2, s)]
    over = {(a, b) for a in range(len(R)) for b in range(len(R)) if a != b and not disjoint(R[a], R[b])}
    got = rpack.overlapping(s, p2)
    if (got is None) != (not over) or got is not None and tuple(got) not in over:
        bad("overlapping", "overlapping() says %r for %r, truth %r" % (got, p2, sorted(over)[:4]))
    bw, bh = max(x + w for x, y, w, h in R), max(y + h for x, y, w, h in R)
    if rpack.bbox_size(s, p2) != (bw, bh):
        bad("bbox", "bbox_size is %r instead of %r" % (rpack.bbox_size(s, p2), (bw, bh)))
    # bad requests
    j = rng.randint(0, 7)
    wrong = [lambda: rpack.pack([(0, 1)] + s), lambda: rpack.pack(s + [(3, -1)]), lambda: rpack.pack([(1.5, 2)]), lambda: rpack.pack([("a", 2)]),
             lambda: rpack.pack(s, max_width="x"), lambda: rpack.pack(s, max_height=2.5), lambda: rpack.pack(s, max_width=0), lambda: rpack.pack(s, max_height=0)][j]
    try:
        r = wrong()
        bad("bad-request", "bad request %d was answered with %r" % (j, r))
    except (ValueError, TypeError, rpack.PackingImpossibleError):
        pass
    except OverflowError:
        if not huge and j > 1:
            raise
    if i == 0 and (rpack.pack([]) != [] or rpack.pack(iter([])) != []):
        bad("empty", "no rectangles: %r" % (rpack.pack([]),))
    return {"violations": V, "stats": st, "evals": 1, "sig": "%r %r %r" % (s[:8], mw, mh) if len(s) > 1 else None, "case": {"sizes": s[:12], "max": [mw, mh], "positions": pos and pos[:12]}}
