"""Builds of /repo's current working tree, outside /repo.

Python packages are built into /verif/build/<variant>-<hash>/ where the hash
covers every source file of the packages and every header, so a build can never
be stale; C++ harnesses likewise.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, sysconfig, threading, time, glob

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
VENV = "/opt/minorminer-venv"
CYTHON = [VENV + "/bin/python", "-m", "cython"]
PYTHON = "/usr/bin/python3"
SITE = VENV + "/lib/python3.12/site-packages"
EXT = ".cpython-312-x86_64-linux-gnu.so"
PYINC = "/usr/include/python3.12"

RTDIR = "/usr/lib/llvm-18/lib/clang/18/lib/linux"

SRC_EXT = (".py", ".pyx", ".pxi", ".pxd", ".hpp", ".h", ".c", ".cc")

VARIANTS = {
    # how the package is compiled: compiler, flags.  "rel" is what setup.py does
    "rel": ("g++", "gcc", "-Ofast -fomit-frame-pointer -DNDEBUG -w"),
    "o1": ("clang++", "clang", "-O1 -fno-math-errno -DNDEBUG -w"),
    "o0": ("clang++", "clang", "-O0 -DNDEBUG -w"),
    "asan": ("clang++", "clang",
             "-O1 -gline-tables-only -fno-omit-frame-pointer -w -DNDEBUG "
             "-fsanitize=address,undefined -fno-sanitize=vptr,function "
             "-fno-sanitize-recover=all -shared-libsan"),
    "asandbg": ("clang++", "clang",
             "-O1 -gline-tables-only -fno-omit-frame-pointer -w -DCPPDEBUG -UNDEBUG "
             "-fsanitize=address,undefined -fno-sanitize=vptr,function "
             "-fno-sanitize-recover=all -shared-libsan"),
}


class BuildError(Exception):
    pass


def _venv_python_include():
    inc = sysconfig.get_paths()["include"]
    for c in (inc, PYINC):
        if os.path.exists(os.path.join(c, "Python.h")):
            return c
    out = subprocess.run([VENV + "/bin/python", "-c",
                          "import sysconfig;print(sysconfig.get_paths()['include'])"],
                         capture_output=True, text=True)
    return out.stdout.strip()


def source_files():
    out = []
    for top in ("minorminer", "include"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
            for f in sorted(files):
                if f.endswith(SRC_EXT):
                    p = os.path.join(d, f)
                    # generated files that git ignores
                    if f in ("_core.c",) and d.endswith("rpack"):
                        continue
                    out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in source_files():
        with open(p, "rb") as fh:
            h.update(os.path.relpath(p, REPO).encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class _Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.path = path

    def __enter__(self):
        self.fh = open(self.path, "w")
        fcntl.flock(self.fh, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.fh.close()


def _run(cmd, cwd, log):
    with open(log, "a") as fh:
        fh.write("$ " + " ".join(cmd) + "\n")
        fh.flush()
        r = subprocess.run(cmd, cwd=cwd, stdout=fh, stderr=subprocess.STDOUT)
    if r.returncode:
        tail = open(log, errors="replace").read()[-3000:]
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


def _build_mod(root, mod, variant):
    cxx, cc, flags = VARIANTS[variant]
    flags = flags.split()
    inc = ["-I.", "-Iinclude", "-Iinclude/find_embedding", "-Iinclude/busclique",
           "-Iminorminer/_extern/rpack/include", "-I" + _venv_python_include()]
    log = os.path.join(root, "build-%s.log" % mod)
    if mod == "rp":
        base = "minorminer/_extern/rpack/_core"
        _run(CYTHON + ["-I", ".", base + ".pyx", "-o", base + ".c"], root, log)
        srcs = [base + ".c"] + sorted(
            os.path.relpath(p, root) for p in glob.glob(os.path.join(root, "minorminer/_extern/rpack/src/*.c")))
        opt = [] if variant.startswith("asan") else ["-fwrapv"]
        _run([cc] + flags + opt + ["-fPIC", "-shared"] + inc + srcs + ["-o", base + EXT], root, log)
        return
    base = {"mm": "minorminer/_minorminer", "mm0": "minorminer/_minorminer", "bq": "minorminer/busclique"}[mod]
    if mod == "mm0":  # only needed so that the package imports
        flags, variant = VARIANTS["o0"][2].split(), "o0"
    _run(CYTHON + ["--cplus", "-I", ".", base + ".pyx", "-o", base + ".cpp"], root, log)
    opt = [] if variant.startswith("asan") else ["-fwrapv"]
    _run([cxx, "-std=c++17", "-include", "memory", "-fno-rtti"] + flags + opt + ["-fPIC", "-shared"] + inc
         + [base + ".cpp", "-o", base + EXT + ".tmp", "-pthread"], root, log)
    os.rename(os.path.join(root, base + EXT + ".tmp"), os.path.join(root, base + EXT))


def package(mods=("mm", "bq", "rp"), variant="o1"):
    """Directory to put on PYTHONPATH, holding the package built from /repo's working tree."""
    h = hashlib.sha256((tree_hash() + repr(VARIANTS[variant])).encode()).hexdigest()[:16]
    root = os.path.join(BUILD, "%s-%s" % (variant, h))
    with _Lock(os.path.join(BUILD, "%s-%s.lock" % (variant, h))):
        if not os.path.exists(os.path.join(root, "copied")):
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            for p in source_files():
                dst = os.path.join(root, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(p, dst)
            open(os.path.join(root, "copied"), "w").close()
        todo = [m for m in mods if not os.path.exists(os.path.join(root, "built-" + m))
                and not (m == "mm0" and os.path.exists(os.path.join(root, "built-mm")))]
        errs = []

        def one(m):
            try:
                _build_mod(root, m, variant)
                open(os.path.join(root, "built-" + m), "w").close()
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=one, args=(m,)) for m in todo]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
    return root


def harness(name, sources, flags, compiler="clang++", extra_hash=""):
    """Compile a C++ harness from /verif/harness against /repo's headers."""
    h = hashlib.sha256()
    h.update(tree_hash().encode())
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    hdrs = sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))
    for p in srcs + hdrs:
        h.update(open(p, "rb").read())
    h.update((" ".join(flags) + compiler).encode())
    root = os.path.join(BUILD, "h-%s-%s" % (name, h.hexdigest()[:16]))
    exe = os.path.join(root, name)
    with _Lock(root + ".lock"):
        if not os.path.exists(exe):
            os.makedirs(root, exist_ok=True)
            for top in ("include", "minorminer"):
                dst = os.path.join(root, top)
                shutil.rmtree(dst, ignore_errors=True)
                for p in source_files():
                    rel = os.path.relpath(p, REPO)
                    if rel.startswith(top + os.sep) and rel.endswith((".hpp", ".h", ".c")):
                        d = os.path.join(root, rel)
                        os.makedirs(os.path.dirname(d), exist_ok=True)
                        shutil.copyfile(p, d)
            std = ["-std=c++17", "-include", "memory"] if compiler.endswith("++") else []
            _run([compiler] + std + list(flags)
                 + ["-I" + root, "-I" + root + "/include", "-I" + root + "/include/find_embedding",
                    "-I" + os.path.join(VERIF, "harness")]
                 + srcs + ["-o", exe + ".tmp", "-pthread"], root, os.path.join(root, "build.log"))
            os.rename(exe + ".tmp", exe)
    return exe


def worker_env(pkgroot, scratch, sanitizer=None, extra=None):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": scratch, "XDG_DATA_HOME": os.path.join(scratch, "data"),
        "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1",
        "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "PYTHONPATH": os.pathsep.join([pkgroot, SITE, VERIF]), "TMPDIR": scratch,
        "PYTHONFAULTHANDLER": "1", "VP_PKGROOT": pkgroot, "PYTHONWARNINGS": "ignore",
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
    }
    if sanitizer == "asan":
        env["LD_PRELOAD"] = RTDIR + "/libclang_rt.asan-x86_64.so"
        env["PYTHONFAULTHANDLER"] = ""
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:max_allocation_size_mb=4000:symbolize=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        env["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18" if os.path.exists("/usr/bin/llvm-symbolizer-18") else "/usr/lib/llvm-18/bin/llvm-symbolizer"
    if extra:
        env.update(extra)
    return env
