"""Many processes and threads on one cache directory, with delays, kills and write errors injected at file operations.

An audit hook sees every file operation of a participant on the cache directory (whatever code performs it), logs it with
the participant's name, sleeps, or kills the process there."""
import hashlib, os, pickle, random, resource, shutil, signal, sys, threading, time, traceback
from vlib.props import cachetrans as ct

HOOK = {"f": None}


def audit(ev, args):
    f = HOOK["f"]
    if f and (ev == "open" or ev.startswith("os.") or ev.startswith("fcntl.")):
        f(ev, args)


def setup(spec):
    sys.addaudithook(audit)


def participant(me, rng, plan, top, base, pool, out):
    """one process: its threads run their queries; results and file operations go to files of its own"""
    log = os.open(os.path.join(top, "oplog"), os.O_WRONLY | os.O_APPEND)
    kill_at = plan["kill_at"]
    local = threading.local()
    count = [0]
    mode = plan["delay"]
    dr = random.Random(plan["delay_seed"])

    def hook(ev, args):
        if getattr(local, "busy", False):
            return
        if ev.startswith("fcntl."):
            name = "lock"
        else:
            p = args[0] if args else None
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, str) or not p.startswith(base):
                return
            name = os.path.basename(p)
            if ev == "open":
                m, fl = args[1], args[2]
                ev = "w" if (isinstance(fl, int) and fl & (os.O_WRONLY | os.O_RDWR)) or (isinstance(m, str) and m[:1] in "wax") else "r"
        local.busy = True
        try:
            count[0] += 1
            os.write(log, ("%d.%s %s %s\n" % (me, threading.current_thread().name, ev, name)).encode())
            if kill_at == count[0]:
                os.kill(os.getpid(), signal.SIGKILL)
            if mode == "all" or mode == "some" and dr.random() < .4 or mode == "rename" and ev in ("os.rename", "os.remove") \
                    or mode == "write" and ev in ("w", "os.rename"):
                time.sleep(dr.choice([0, .0005, .002, .006]))
        finally:
            local.busy = False

    if plan["kill_after"]:
        def bomb():
            time.sleep(plan["kill_after"])
            os.kill(os.getpid(), signal.SIGKILL)
        threading.Thread(target=bomb, daemon=True).start()
    if plan["fsize"] is not None:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    results = []

    def work(t):
        for gi, seed, qplan in plan["threads"][t]:
            try:
                results.append((gi, seed, str(qplan), "ok", ct.answers(pool[gi], qplan, seed)))
            except BaseException as e:
                results.append((gi, seed, str(qplan), "exc", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1200:]))

    # wait for the starting gun
    while not os.path.exists(os.path.join(top, "go")):
        time.sleep(.0005)
    if plan["fsize"] is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (plan["fsize"], resource.RLIM_INFINITY))
    HOOK["f"] = hook
    ts = [threading.Thread(target=work, args=(t,), name="t%d" % t) for t in range(len(plan["threads"]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    HOOK["f"] = None
    if plan["fsize"] is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    with open(out + ".tmp", "wb") as fh:
        pickle.dump(results, fh)
    os.rename(out + ".tmp", out)


def run(i, rng, spec):
    from minorminer import busclique
    top = os.path.join(spec["scratch"], "r%d" % i)
    os.makedirs(top)
    V = []
    st = {"participants": 0, "killed": 0, "write_errors": 0, "answers": 0, "file_operations": 0, "interleavings": []}
    shared = os.path.join(top, "shared")
    ct.cache_home(shared)
    base = busclique.busgraph_cache.cache_rootdir()
    assert base.startswith(top)
    pool, plans = [], []
    desc, g0 = ct.cheap(rng)
    pool.append(g0)
    for _ in range(rng.randint(0, 2)):
        pool.append(ct.neighbour(rng, pool[0]) if rng.random() < .6 else ct.cheap(rng)[1])
    pool = [g for g in pool if len(g)]
    queries, refs = [], {}
    for gi in range(len(pool)):
        for _ in range(rng.randint(1, 2)):
            seed, plan = rng.choice([0, 0, 7]), ct.random_plan(rng)
            ct.cache_home(os.path.join(top, "private"))
            shutil.rmtree(os.path.join(top, "private"), ignore_errors=True)
            refs[(gi, seed, str(plan))] = ct.answers(pool[gi], plan, seed)
            queries.append((gi, seed, plan))
    ct.cache_home(shared)
    trace = []

    def judge(who, res):
        for gi, seed, qplan, kind, val in res:
            st["answers"] += 1
            if kind == "exc":
                V.append({"key": "exception", "msg": "%s: graph %d seed %d %s raised\n%s" % (who, gi, seed, qplan, val)})
            elif val != refs[(gi, seed, qplan)]:
                V.append({"key": "answer", "msg": "%s: graph %d seed %d %s gave %s instead of %s" % (who, gi, seed, qplan, str(val)[:800], str(refs[(gi, seed, qplan)])[:800])})

    try:
        for rnd in range(rng.randint(1, 3)):
            for f in ("go", "oplog"):
                if os.path.exists(os.path.join(top, f)):
                    os.unlink(os.path.join(top, f))
            open(os.path.join(top, "oplog"), "w").close()
            plans = []
            faults = rng.choice(["none", "kill", "kill", "kill", "fsize", "none"])
            for p in range(rng.randint(2, 5)):
                threads = [[rng.choice(queries) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 1, 2, 3]))]
                victim = rng.random() < .5
                plans.append({"threads": threads, "delay": rng.choice(["all", "some", "rename", "write", "none"]), "delay_seed": rng.getrandbits(30),
                              "kill_at": rng.randint(1, 25) if faults == "kill" and victim else 0,
                              "kill_after": rng.uniform(0, .05) if faults == "kill" and not victim and rng.random() < .3 else 0,
                              "fsize": rng.choice([0, 1, 64, 500, 2000]) if faults == "fsize" and victim else None})
            pids = []
            for p, plan in enumerate(plans):
                out = os.path.join(top, "out%d.%d" % (rnd, p))
                pid = os.fork()
                if not pid:
                    try:
                        participant(p, rng, plan, top, base, pool, out)
                    finally:
                        os._exit(0)
                pids.append((pid, out, plan))
                st["participants"] += 1
            open(os.path.join(top, "go"), "w").close()
            limit = time.time() + 40
            for pid, out, plan in pids:
                while True:
                    w, status = os.waitpid(pid, os.WNOHANG)
                    if w:
                        break
                    if time.time() > limit:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        status = None
                        break
                    time.sleep(.002)
                who = "round %d process %d (%s)" % (rnd, pid, {k: v for k, v in plan.items() if k not in ("threads", "delay_seed")})
                if status is None:
                    V.append({"key": "hang", "msg": who + " did not finish within 40 s"})
                    continue
                if os.path.exists(out):
                    res = pickle.load(open(out, "rb"))
                    if plan["fsize"] is not None:
                        # a user without disk space may be told so
                        st["write_errors"] += sum(r[3] == "exc" for r in res)
                        res = [r for r in res if r[3] != "exc"]
                    judge(who, res)
                elif plan["kill_at"] or plan["kill_after"]:
                    st["killed"] += 1
                else:
                    V.append({"key": "died", "msg": who + " died with status %r" % status})
            log = open(os.path.join(top, "oplog")).read()
            st["file_operations"] += log.count("\n")
            st["interleavings"].append(hashlib.sha1(log.encode()).hexdigest()[:12])
            trace.append([faults, len(plans), log.count("\n")])
            # whoever comes later gets the right answers too
            if len(V) == 0:
                gi, seed, plan = rng.choice(queries)
                for who, q in (("later user", queries if rnd % 2 else [rng.choice(queries)]),):
                    r = ct.in_child(lambda: [(g, s, str(p), "ok", ct.answers(pool[g], p, s)) for g, s, p in q])
                    if r[0] == "ok":
                        judge(who + " after round %d" % rnd, r[1])
                    else:
                        V.append({"key": "later-exception", "msg": "later user after round %d (%s): %s" % (rnd, faults, r[1])})
            if V:
                V[0]["msg"] += "\nfile operations:\n" + log[-3000:]
                break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    sigs = st.pop("interleavings")
    return {"violations": V[:5], "stats": st, "evals": st["answers"], "sigs": sigs, "sig": sigs[0] if sigs else None,
            "case": {"graph": desc, "rounds": trace}}
