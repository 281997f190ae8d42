"""Drives the cases of a property through worker processes and settles the verdict."""
import argparse, hashlib, json, os, re, select, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from . import build

KNOWN = os.path.join(build.VERIF, "known_findings.json")


def load_known(pid):
    with open(KNOWN) as fh:
        return {e["key"]: e for e in json.load(fh)["known"] if e["property"] == pid}


def crash_key(rc, err):
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:120]
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "tsan:" + m.group(1).strip()
    m = re.search(r"==\d+== ([A-Z][^\n]*)", err)
    if m:
        return "valgrind:" + re.sub(r"\d+", "N", m.group(1))[:80]
    m = re.search(r"Assertion `([^']*)' failed", err)
    if m:
        return "assert:" + m.group(1)
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "terminate:" + m.group(1)
    m = re.search(r"Embedding diagnostic|CorruptEmbedding", err)
    return "crash:rc=%s" % rc


class Ctx:
    """One run of one check."""

    def __init__(self, pid, level="exploration"):
        ap = argparse.ArgumentParser()
        ap.add_argument("pid", nargs="?")
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay")
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
        ap.add_argument("-v", action="store_true")
        self.args = a = ap.parse_args()
        self.pid, self.tier, self.seed, self.level = pid, a.tier, a.seed, level
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.evals = 0
        self.sigs = set()
        self.stats = {}
        self.samples = []
        self.viol = []        # (key, msg, replay dict)
        self.errors = []
        self.inconclusive = []
        self.rules = []
        self.assumptions = []
        self.floor = 1
        self.lock = threading.Lock()
        self.hangs = 0
        # no case is started after this many seconds: a broken tree must still get an answer
        self.deadline = self.t0 + (5 * 3600 if self.tier == "thorough" else 540)
        self.replay_only = None
        if a.replay:
            self.replay_only = json.load(open(a.replay))
            self.seed = self.replay_only.get("seed", self.seed)
            self.tier = self.replay_only.get("tier", self.tier)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # -- recording -------------------------------------------------------
    def stat(self, k, v):
        if isinstance(v, bool):
            v = int(v)
        if k.startswith("max_"):
            self.stats[k] = max(self.stats.get(k, v), v)
        elif k.startswith("min_"):
            self.stats[k] = min(self.stats.get(k, v), v)
        elif isinstance(v, (int, float)):
            self.stats[k] = self.stats.get(k, 0) + v
        elif isinstance(v, list):
            self.stats.setdefault(k, set()).update(map(str, v))

    def violation(self, key, msg, replay):
        with self.lock:
            self.viol.append((key, msg, replay))

    def record(self, module, i, res):
        with self.lock:
            self.evals += res.get("evals", 1)
            for k, v in res.get("stats", {}).items():
                self.stat(k, v)
            self.stat("max_case_seconds", res.get("t", 0))
            if res.get("error"):
                self.errors.append("case %s/%d: %s" % (module, i, res["error"]))
            if res.get("inconclusive"):
                self.inconclusive.append("case %s/%d: %s" % (module, i, res["inconclusive"]))
            for s in res.get("sigs", []):
                self.sigs.add(s)
            if res.get("sig"):
                self.sigs.add(str(res["sig"]))
                if len(self.samples) < 4 and res.get("case") is not None:
                    self.samples.append({"module": module, "index": i, "case": res["case"]})
            for v in res.get("violations", []):
                self.viol.append((v["key"], v["msg"],
                                  {"property": self.pid, "module": module, "index": i, "seed": self.seed,
                                   "tier": self.tier, "case": v.get("case", res.get("case"))}))

    # -- running cases in workers ------------------------------------------
    def run_cases(self, module, n, mods=("mm",), variant="o1", sanitizer=None, nproc=8, timeout=120,
                  extra=None, env=None, hang_is_violation=False, rlimit_as=4 << 30, max_crashes=6, start=0, collect=None):
        root = build.package(mods, variant)
        if sanitizer:
            rlimit_as = None
        indices = list(range(start, start + n))
        if self.replay_only:
            if self.replay_only.get("module") != module:
                return
            indices = [self.replay_only["index"]]
        chunks = [indices[k::nproc] for k in range(nproc)]
        state = {"crashes": 0}

        def lane(k):
            todo = chunks[k]
            retried = set()
            while todo and state["crashes"] < max_crashes and self.hangs < 4:
                if time.time() > self.deadline:
                    self.cut = getattr(self, "cut", 0) + len(todo)
                    break
                wd = self.sub("w-%s-%d" % (module, k))
                spec = {"module": module, "indices": todo, "seed": self.seed, "tier": self.tier,
                        "rlimit_as": rlimit_as, "scratch": wd, "lane": k, "extra": extra or {}}
                errp = os.path.join(wd, "stderr")
                r, w = os.pipe()

                with open(errp, "wb") as ef:
                    p = subprocess.Popen([build.PYTHON, "-m", "vlib.worker"], stdin=subprocess.PIPE,
                                         stdout=subprocess.DEVNULL, stderr=ef, pass_fds=(w,),
                                         start_new_session=True, cwd=wd,
                                         env=build.worker_env(root, wd, sanitizer, dict(env or {}, VP_FD=str(w))))
                os.close(w)
                p.stdin.write(json.dumps(spec).encode())
                p.stdin.close()
                buf, cur, done, ended, hung, late = b"", None, set(), False, False, False
                limit = timeout * (2 if todo and todo[0] in retried else 1)
                last = time.time()
                while not late:
                    left = limit + (60 if cur is None else 0) - (time.time() - last)
                    if left <= 0:
                        hung = True
                        break
                    rl, _, _ = select.select([r], [], [], min(left, 5))
                    if not rl:
                        continue
                    data = os.read(r, 1 << 16)
                    if not data:
                        break
                    buf += data
                    *lines, buf = buf.split(b"\n")
                    for ln in lines:
                        if ln.startswith(b"S "):
                            cur, last = int(ln[2:]), time.time()
                            if last > self.deadline:
                                late = True
                            limit = timeout * (2 if cur in retried else 1)
                        elif ln.startswith(b"D "):
                            _, i, js = ln.split(b" ", 2)
                            done.add(int(i))
                            cur = None
                            last = time.time()
                            res = json.loads(js)
                            if collect is not None and "collect" in res:
                                with self.lock:
                                    collect[int(i)] = res["collect"]
                            self.record(module, int(i), res)
                        elif ln == b"E":
                            ended = True
                os.close(r)
                try:
                    if hung or late:
                        os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                rc = p.wait()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                todo = [i for i in todo if i not in done]
                if ended:
                    break
                if late:
                    self.cut = getattr(self, "cut", 0) + len(todo)
                    break
                err = open(errp, "rb").read().decode(errors="replace")
                m = re.search(r"runtime error:|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|Assertion `|terminate called|Fatal Python", err)
                err = err[max(0, m.start() - 200):][:6000] if m else err[-6000:]
                if cur is None:
                    with self.lock:
                        self.errors.append("worker of %s ended outside a case (rc=%s hung=%s): %s" % (module, rc, hung, err[-2000:]))
                    break
                if hung:
                    if cur not in retried:
                        retried.add(cur)
                        todo = [cur] + [i for i in todo if i != cur]
                        continue
                    self.hangs += 1
                    if hang_is_violation:
                        self.violation("hang", "case %s/%d did not finish within %ds (twice)" % (module, cur, limit),
                                       {"property": self.pid, "module": module, "index": cur, "seed": self.seed, "tier": self.tier})
                        state["crashes"] += 2
                    else:
                        with self.lock:
                            self.inconclusive.append("hang: case %s/%d" % (module, cur))
                elif rc == -signal.SIGKILL:
                    with self.lock:
                        self.inconclusive.append("killed (memory?): case %s/%d" % (module, cur))
                else:
                    state["crashes"] += 1
                    key = crash_key(rc, err)
                    case = describe(module, cur, self.seed, self.tier, extra)
                    self.violation(key, "worker died (rc=%s) in case %s/%d\n%s" % (rc, module, cur, err[-6000:]),
                                   {"property": self.pid, "module": module, "index": cur, "seed": self.seed,
                                    "tier": self.tier, "case": case})
                todo = [i for i in todo if i != cur]

        ts = [threading.Thread(target=lane, args=(k,)) for k in range(nproc) if chunks[k]]
        [t.start() for t in ts]
        [t.join() for t in ts]

    # -- running C++ harnesses -----------------------------------------------
    def run_exe(self, name, exe, n, nproc=8, timeout=120, env=None, args=(), start=0, max_crashes=3, memcheck=False):
        """exe SEED LO HI STEP [args]: prints CASE i / BAD i key msg / STAT k v / SIG x / SAMPLE text / END evaluations.
        memcheck: run under valgrind and judge only what valgrind reports (and crashes), not BAD lines."""
        cmd = [exe]
        if memcheck:
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=yes", "--num-callers=20", exe]
        lo0, hi = start, start + n
        if self.replay_only:
            if self.replay_only.get("module") != name:
                return
            lo0, hi, nproc = self.replay_only["index"], self.replay_only["index"] + 1, 1
        e = build.worker_env(build.REPO, self.sub("exe-" + name), None, env)
        e.pop("PYTHONPATH")

        def lane(k):
            lo, crashes = lo0 + k, 0
            while lo < hi and crashes < max_crashes and time.time() < self.deadline:
                errp = os.path.join(self.sub("exe-" + name), "err%d" % k)
                with open(errp, "wb") as ef:
                    p = subprocess.Popen(cmd + [str(self.seed), str(lo), str(hi), str(nproc)] + list(args), stdout=subprocess.PIPE,
                                         stdin=subprocess.DEVNULL, stderr=ef, start_new_session=True, env=e)
                cur, last, buf, ended, hung, late = None, time.time(), b"", False, False, False
                while True:
                    if time.time() > self.deadline:
                        late = True
                        break
                    if time.time() - last > timeout:
                        hung = True
                        break
                    rl, _, _ = select.select([p.stdout], [], [], 2)
                    if not rl:
                        continue
                    data = os.read(p.stdout.fileno(), 1 << 16)
                    if not data:
                        break
                    buf += data
                    *lines, buf = buf.split(b"\n")
                    with self.lock:
                        for ln in lines:
                            f = ln.decode(errors="replace").split(" ", 3)
                            if f[0] == "CASE":
                                cur, last = int(f[1]), time.time()
                            elif f[0] == "STAT":
                                self.stat(f[1], int(f[2]))
                            elif f[0] == "SIG":
                                self.sigs.add(f[1])
                                if len(self.samples) < 3 and f[1] not in [s.get("sig") for s in self.samples]:
                                    self.samples.append({"harness": name, "index": cur, "seed": self.seed, "sig": f[1]})
                            elif f[0] == "SAMPLE" and len(self.samples) < 6:
                                self.samples.append({"harness": name, "index": cur, "case": " ".join(f[1:])})
                            elif f[0] == "BAD" and not memcheck:
                                self.viol.append((f[2], f[3] if len(f) > 3 else "", {"property": self.pid, "module": name,
                                                  "index": int(f[1]), "seed": self.seed, "tier": self.tier}))
                            elif f[0] == "END":
                                ended = True
                                self.evals += int(f[1])
                try:
                    os.killpg(p.pid, signal.SIGKILL) if hung or late else None
                except ProcessLookupError:
                    pass
                rc = p.wait()
                p.stdout.close()
                err = open(errp, "rb").read().decode(errors="replace")
                rep = {"property": self.pid, "module": name, "index": cur, "seed": self.seed, "tier": self.tier}
                if late:
                    return
                if cur is None:
                    with self.lock:
                        self.errors.append("%s did not start (rc=%s): %s" % (name, rc, err[-1500:]))
                    return
                if hung:
                    self.violation("hang", "%s: case %s made no progress for %ds" % (name, cur, timeout), rep)
                elif rc or not ended:
                    m = re.search(r"runtime error:|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|Assertion `|terminate called|==\d+== (?=[A-Z])", err)
                    txt = err[max(0, m.start() - 200):][:7000] if m else err[-5000:]
                    self.violation(crash_key(rc, txt), "%s: rc=%s around case %s\n%s" % (name, rc, cur, txt), rep)
                else:
                    return
                crashes += 1
                if ended:
                    return
                lo = cur + nproc

        ts = [threading.Thread(target=lane, args=(k,)) for k in range(nproc) if lo0 + k < hi]
        [t.start() for t in ts]
        [t.join() for t in ts]

    # -- verdict ------------------------------------------------------------
    def run_harness(self, name, flags, n, compiler="clang++", **kw):
        """A C++ workload that goes beside the one through Python: code it cannot be compiled against is not judged by it."""
        label = kw.pop("label", name)
        try:
            exe = build.harness(name, [name + ".cpp"], flags, compiler=compiler)
        except build.BuildError as e:
            print("NOTE: the C++ workload %s does not compile against this tree and is left out: %s" % (label, str(e)[-600:]))
            self.stat("cpp_workload_left_out_" + label, 1)
            return
        self.run_exe(label, exe, n, **kw)

    def finish(self):
        known = load_known(self.pid)
        fresh, seen = [], {}
        for key, msg, rep in self.viol:
            if key in known:
                seen[key] = known[key]
            else:
                fresh.append((key, msg, rep))
        stats = {k: (sorted(v)[:60] if isinstance(v, set) else v) for k, v in self.stats.items()}
        for k, v in self.stats.items():
            if isinstance(v, set):
                stats[k + "_count"] = len(v)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.sigs), "rule": " ".join(self.rules),
               "samples": self.samples or [{"note": "no sample recorded"}], "observed": stats}
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        if getattr(self, "cut", 0):
            cov["cases_not_started_for_lack_of_time"] = self.cut
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        if not self.replay_only:
            with open(os.path.join(build.VERIF, "evidence", self.pid + ".json"), "w") as fh:
                json.dump(ev, fh, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for key in sorted(known):
            if key in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]["what"]))
        print("%s: %d evaluations, %d distinct non-trivial, %d violations, %d inconclusive, %.1fs"
              % (self.pid, self.evals, len(self.sigs), len(fresh), len(self.inconclusive), ev["wall_s"]))
        for k in sorted(stats):
            if self.args.v:
                print("   ", k, stats[k])
        if fresh:
            rd = os.path.join(build.VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            done = set()
            for key, msg, rep in fresh[:40]:
                if key in done:
                    continue
                done.add(key)
                name = "%s-%s.json" % (self.pid, hashlib.sha256((key + str(rep.get("index"))).encode()).hexdigest()[:10])
                path = os.path.join(rd, name)
                with open(path, "w") as fh:
                    json.dump(dict(rep, key=key, msg=msg[:12000]), fh, indent=1, default=str)
                print("--- %s\n%s" % (key, msg[:3000]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.errors:
            print("HARNESS ERROR: " + self.errors[0])
            return 2
        if not self.replay_only and len(self.sigs) < self.floor:
            print("INCONCLUSIVE: only %d non-trivial cases observed (floor %d): %s" % (len(self.sigs), self.floor, self.inconclusive[:3]))
            return 2
        if self.inconclusive and len(self.inconclusive) > max(3, 0.05 * self.evals):
            print("INCONCLUSIVE: %s" % self.inconclusive[:3])
            return 2
        return 0


def describe(module, i, seed, tier, extra):
    """The input of a case that killed its worker, if the module can generate it without running it."""
    try:
        code = ("import json,sys,importlib; from vlib.worker import rng_for\n"
                "m=importlib.import_module('vlib.props.%s')\n"
                "print(json.dumps(m.gen(%d, rng_for(%r,'%s',%d), %r), default=str))"
                % (module, i, seed, module, i, {"tier": tier, "extra": extra or {}, "seed": seed}))
        env = build.worker_env(build.REPO, "/tmp")
        r = subprocess.run([build.PYTHON, "-c", code], capture_output=True, text=True, timeout=60, env=env)
        return json.loads(r.stdout)
    except Exception:
        return None


def main(pid, body, **kw):
    ctx = Ctx(pid, **kw)
    try:
        body(ctx)
        rc = ctx.finish()
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
