"""Worker process: runs cases of a property module and reports each one on fd 3."""
import importlib, json, os, sys, time, traceback, random, hashlib


NOW = time.time  # a check may put the clock under its control


def rng_for(seed, name, i):
    h = hashlib.sha256(("%s:%s:%d" % (seed, name, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def in_repo_code(tb, pkgroot):
    for f in traceback.extract_tb(tb):
        fn = f.filename
        if fn.startswith(pkgroot) or fn.endswith(".pyx") or fn.startswith("minorminer/"):
            return True
    return False


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (tuple, frozenset)) for y in x):
            return repr(x)
        return [jsonable(y, depth + 1) for y in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main():
    spec = json.load(sys.stdin)
    out = os.fdopen(int(os.environ["VP_FD"]), "w", buffering=1)
    import resource
    if spec.get("rlimit_as"):
        resource.setrlimit(resource.RLIMIT_AS, (spec["rlimit_as"],) * 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module("vlib.props." + spec["module"])
    pkgroot = os.environ["VP_PKGROOT"]
    if hasattr(mod, "setup"):
        mod.setup(spec)
    for i in spec["indices"]:
        rng = rng_for(spec["seed"], spec["module"], i)
        out.write("S %d\n" % i)
        t0 = NOW()
        try:
            res = mod.run(i, rng, spec) or {}
        except MemoryError:
            res = {"inconclusive": "MemoryError"}
        except Exception as e:
            tb = sys.exc_info()[2]
            txt = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
            if in_repo_code(tb, pkgroot):
                res = {"violations": [{"key": "unexpected-exception:%s" % type(e).__name__, "msg": txt}],
                       "case": getattr(mod, "LAST", None)}
            else:
                res = {"error": txt}
        res["t"] = round(NOW() - t0, 4)
        out.write("D %d %s\n" % (i, json.dumps(jsonable(res))))
    out.write("E\n")


if __name__ == "__main__":
    main()
