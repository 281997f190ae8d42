"""Timeouts and interrupts. Searches are given endless patience, so that only the timeout or the interrupt can end them."""
import hashlib, io, logging, os, select, signal, sys, time
import networkx as nx
from vlib import graphs, oracle

MARGIN = 12.0   # seconds; a pass of the problems used takes milliseconds
ENDLESS = 10 ** 6
REF = []


class KI(KeyboardInterrupt):
    """raised by our SIGINT handler, so one that was raised inside the search can be told apart"""


def handler(sig, frame):
    HITS.append(time.monotonic())
    if ARMED:
        raise KI()


HITS, ARMED = [], []


def setup(spec):
    from minorminer import _minorminer as mm
    logging.getLogger("minorminer._minorminer").setLevel(logging.CRITICAL)
    signal.signal(signal.SIGINT, handler)
    REF.append(mm.find_embedding([(0, 1), (1, 2), (2, 0)], list(nx.grid_graph([3, 3]).edges), random_seed=5))


def infeasible(rng):
    k = rng.randrange(4)
    if k == 0:
        return nx.complete_graph(5), nx.grid_2d_graph(rng.randint(3, 6), rng.randint(3, 6))       # planar target
    if k == 1:
        return nx.complete_graph(rng.randint(4, 6)), nx.ladder_graph(rng.randint(6, 12))          # treewidth 2
    if k == 2:
        return nx.complete_bipartite_graph(3, 3), nx.grid_2d_graph(5, 5)
    return nx.complete_graph(11), nx.complete_graph(10)


def feasible(rng):
    k = rng.randrange(3)
    if k == 0:
        return nx.complete_graph(rng.randint(3, 5)), nx.grid_graph([3, 3, 4])
    if k == 1:
        return nx.cycle_graph(rng.randint(4, 9)), nx.grid_2d_graph(6, 6)
    return nx.grid_2d_graph(3, 3), nx.grid_graph([4, 4, 3])


class Passes(logging.Handler):
    """records when the search announces the start of each pass"""
    def emit(self, r):
        m = r.getMessage()
        if "initialized" in m or "improvement pass" in m:
            MARKS.append((time.monotonic(), "pass" in m))


MARKS = []
AFTER = 3      # passes that may begin after the deadline: the one announced while it passed, and the first of the next phase


def snake(rng):
    """A large grid cut into consecutive pieces of one path: a valid embedding that can be improved for many passes."""
    n, k = rng.randint(8, 20), rng.randint(3, 9)
    t = nx.grid_2d_graph(n, n)
    walk = [(a, b if a % 2 == 0 else n - 1 - b) for a in range(n) for b in range(n)]
    chains = {v: walk[k * v:k * v + k] for v in range(n * n // k)}
    own = {q: v for v, c in chains.items() for q in c}
    s = nx.path_graph(len(chains))
    every = rng.choice([1, 2, 3, 5])
    s.add_edges_from((own[a], own[b]) for a, b in t.edges if a in own and b in own and own[a] != own[b] and (own[a] + own[b]) % every == 0)
    lab = {q: j for j, q in enumerate(t)}
    return s, nx.relabel_nodes(t, lab), {v: [lab[q] for q in c] for v, c in chains.items()}


def gen(i, rng, spec):
    phase = rng.choice(["overfill", "overfill", "restart", "rounds", "chains", "chains", "skip", "init", "snake"])
    if phase == "snake":
        g, h, start = snake(rng)
        return {"phase": phase, "how": "timeout", "api": "find", "S": list(g.edges), "T": list(h.edges), "delay": 0, "again": False,
                "P": dict(random_seed=rng.getrandbits(32), return_overlap=rng.random() < .5, initial_chains=start, skip_initialization=True, chainlength_patience=ENDLESS,
                          timeout=rng.choice([0, 0, 1e-6, .001, .01]), interactive=rng.random() < .5, threads=rng.choice([1, 1, 1, 2]))}
    g, h = feasible(rng) if phase in ("chains", "skip") else infeasible(rng)
    g = nx.convert_node_labels_to_integers(g)
    h = nx.convert_node_labels_to_integers(h)
    P = dict(random_seed=rng.getrandbits(32), return_overlap=rng.random() < .5, tries=ENDLESS)
    if phase == "overfill":
        P.update(max_no_improvement=ENDLESS)
    elif phase == "restart":
        P.update(max_no_improvement=rng.choice([1, 2, 5]))
    elif phase == "rounds":
        P.update(inner_rounds=rng.choice([1, 2, 5]), max_no_improvement=ENDLESS)
    elif phase == "init":
        P.update(max_no_improvement=1)
    else:
        P.update(chainlength_patience=ENDLESS)
    if rng.random() < .3:
        P["threads"] = rng.choice([2, 3])
    P["interactive"] = rng.random() < .5
    how = rng.choice(["timeout", "timeout", "interrupt", "interrupt", "patience"])
    api = rng.choice(["find", "find", "miner", "improve"]) if phase != "skip" else "find"
    if how == "timeout":
        P["timeout"] = rng.choice([0, 1e-6, .002, .02, .1, .3])
        if rng.random() < .1:
            P["timeout"] = -1
    elif how == "interrupt":
        P["timeout"] = rng.choice([1000, 1e9, 1e300, float("inf"), 60])
    else:
        P["timeout"] = rng.choice([1000, 1e9, 1e300])
        P.update(tries=rng.choice([0, 1, 2]), max_no_improvement=rng.choice([0, 1, 2]), chainlength_patience=rng.choice([0, 1, 3]))
    aim = None
    if how == "interrupt" and P["interactive"] and rng.random() < .6:
        # the interrupt follows one of the messages, so it falls into the pass after it
        P["verbose"] = 3
        aim = [rng.choice(["initialized", "embedding trial", "embedding trial", "overfill improvement pass", "reducing chain", "chainlength improvement"]), rng.choice([1, 1, 1, 2, 3, 5])]
    return {"phase": phase, "how": how, "api": api, "S": list(g.edges), "T": list(h.edges), "P": P, "aim": aim,
            "delay": rng.choice([0, .001, .005, .02, .05, .1, .15]) * rng.uniform(.5, 1.5), "again": rng.random() < .3}


def aimed(fd, word, count, delay):
    """Interrupts the parent after the count-th message with the word (or, failing that, a second after the first message)."""
    seen, text, fired, first = 0, b"", False, None
    while True:
        wait = None if first is None or fired else max(0, first + 1 - time.monotonic())
        if not select.select([fd], [], [], wait)[0]:
            os.kill(os.getppid(), signal.SIGINT)
            fired = True
            continue
        b = os.read(fd, 65536)
        if not b:
            break
        first = first or time.monotonic()
        if fired:
            continue
        text += b
        if text.count(word.encode()) >= count or time.monotonic() > first + 1:
            t = time.monotonic() + delay / 1000
            while time.monotonic() < t:
                pass
            os.kill(os.getppid(), signal.SIGINT)
            fired = True


def run(i, rng, spec):
    from minorminer import _minorminer as mm
    c = gen(i, rng, spec)
    S, T, P, V = c["S"], c["T"], c["P"], []
    st = {"calls": 1, "how": [c["how"] + "/" + c["phase"] + "/" + c["api"]]}
    sadj, tadj = oracle.adjacency(S), oracle.adjacency(T)

    def bad(key, msg):
        V.append({"key": key, "msg": msg + "\n%r" % (c,)})

    if c["phase"] == "skip":
        e = mm.find_embedding(S, T, random_seed=1, timeout=5, tries=30)
        if not e:
            return {"inconclusive": "no start"}
        P["initial_chains"], P["skip_initialization"] = e, True
    if c["api"] == "find":
        f = lambda: mm.find_embedding(S, T, **P)
    else:
        m = mm.miner(S, T, **P)
        f = m.find_embedding if c["api"] == "miner" else lambda: m.improve_embeddings([{}])
    HITS.clear()
    MARKS.clear()
    kid = None
    watch = c["how"] == "timeout" and P["timeout"] < 1 and (c["phase"] == "snake" or i % 3 == 0)
    log = logging.getLogger("minorminer._minorminer")
    if watch:
        P["verbose"] = 3
        hook = Passes()
        log.setLevel(1)
        log.propagate = False
        log.addHandler(hook)
    if c["how"] == "interrupt":
        rd, wr = os.pipe()
        kid = os.fork()
        if not kid:
            try:
                os.close(wr)
                if c.get("aim"):
                    aimed(rd, *c["aim"], c["delay"])
                else:
                    os.read(rd, 1)
                    time.sleep(c["delay"])
                    os.kill(os.getppid(), signal.SIGINT)
            finally:
                os._exit(0)
    told = None
    if c.get("aim"):
        # all in C, so that no Python code runs (and takes the interrupt) while the search writes
        told, stdout = io.TextIOWrapper(io.FileIO(wr, "w", closefd=False), write_through=True), sys.stdout
    out, exc, t0 = None, None, time.monotonic()
    try:
        try:
            ARMED.append(1)
            if told:
                sys.stdout = told
            elif kid:
                os.write(wr, b"x")
            out = f()
        finally:
            ARMED.clear()
    except KeyboardInterrupt as e:
        exc = e
    except RuntimeError as e:
        exc = e
        if not str(e).startswith(("Failed during init", "cannot bootstrap")):
            bad("unexpected-exception", repr(e))
    t1 = time.monotonic()
    if told:
        sys.stdout = stdout
    if watch:
        log.removeHandler(hook)
        log.setLevel(logging.CRITICAL)
        log.propagate = True
        ready = [t for t, p in MARKS if not p]
        if ready:
            # the deadline is set before the search is initialized
            dead = ready[0] + max(0, P["timeout"])
            late = sum(p and t > dead for t, p in MARKS)
            st["passes_seen"] = sum(p for _, p in MARKS)
            st["passes_late"] = late
            if late > AFTER and c["api"] == "find":
                bad("passes-after-deadline", "%d passes began after the deadline" % late)
    if kid:
        os.close(wr)
        os.waitpid(kid, 0)
        os.close(rd)
        for _ in range(200):       # the interpreter runs the handler soon after the signal
            if HITS:
                break
            time.sleep(.002)
    early = kid and (not HITS or isinstance(exc, KI))
    if signal.getsignal(signal.SIGINT) is not handler:
        bad("signal-disposition", "SIGINT handler is now %r" % (signal.getsignal(signal.SIGINT),))
        signal.signal(signal.SIGINT, handler)
    el = t1 - t0
    ended = False
    if c["how"] == "timeout":
        st["timeouts"] = 1
        if el > max(0, P["timeout"]) + MARGIN:
            bad("late", "timeout %r, returned after %.2f s" % (P["timeout"], el))
        if isinstance(exc, KeyboardInterrupt):
            bad("spurious-interrupt", repr(exc))
        endless = P.get("tries") == ENDLESS and exc is None
        ok = embedded(out, P, c, sadj, tadj)
        if endless and (not ok or P.get("chainlength_patience") == ENDLESS) and el < .7 * P["timeout"] and c["phase"] != "init":
            bad("too-early", "timeout %r, endless patience, gave up after %.4f s" % (P["timeout"], el))
        ended = True
    elif c["how"] == "interrupt" and not early:
        hit = HITS[0]
        if t0 < hit < t1:
            st["interrupts_inside"] = 1
            st["interrupts_aimed"] = int(bool(c.get("aim")))
            ended = True
            if t1 - hit > MARGIN:
                bad("late-after-interrupt", "%.2f s after the interrupt" % (t1 - hit))
            if P["interactive"]:
                if exc is not None and isinstance(exc, KeyboardInterrupt):
                    bad("interactive-raised", repr(exc))
            elif exc is None:
                bad("interrupt-swallowed", "returned %r" % (out,))
            elif not isinstance(exc, KeyboardInterrupt):
                bad("interrupt-other", repr(exc))
    elif kid:
        st["interrupts_outside"] = 1
    if exc is None:
        embs = out if isinstance(out, list) else [out]
        for e in embs:
            flag = None
            if isinstance(e, tuple):
                e, flag = e
            elif P["return_overlap"]:
                flag = False if c["api"] == "improve" else None
            if flag or (flag is None and e):
                faults = oracle.embedding_faults(e, sadj, tadj)
                st["valid_checked"] = 1
                if faults:
                    bad("invalid-" + faults[0][0], "%r %r" % (faults, e))
            elif e and any(e.values()):
                st["overlapped_checked"] = 1
                hard = oracle.embedding_faults(e, sadj, tadj, overlap_ok=True)
                if hard:
                    bad("overlapped-" + hard[0][0], "%r %r" % (hard, e))
        if c["phase"] in ("skip", "snake") and exc is None:
            e = out[0] if isinstance(out, tuple) else out
            if not e:
                bad("lost-start", "a valid start was given, nothing came back")
    if c["again"]:
        for _ in range(2):
            try:
                r = mm.find_embedding([(0, 1), (1, 2), (2, 0)], list(nx.grid_graph([3, 3]).edges), random_seed=5)
                if r != REF[0]:
                    bad("later-call-differs", "%r %r" % (r, REF[0]))
                break
            except KI:
                pass
        if c["api"] == "miner" and c["how"] == "interrupt":
            # the interrupted miner is still usable
            try:
                m.quickpass()
            except KI:
                pass
            except RuntimeError as e:
                pass
    sig = hashlib.sha256(repr((c["S"], c["T"], sorted(P.items(), key=repr), c["delay"])).encode()).hexdigest()[:16] if ended else None
    return {"violations": V, "stats": st, "sig": sig, "case": {"phase": c["phase"], "how": c["how"], "api": c["api"], "P": {k: v for k, v in P.items() if k != "initial_chains"}, "seconds": round(el, 4)}}


def embedded(out, P, c, sadj, tadj):
    if isinstance(out, list):
        out = out[0] if out else {}
    if isinstance(out, tuple):
        return bool(out[1])
    return bool(out) and not oracle.embedding_faults(out, sadj, tadj)
