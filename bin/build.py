"""Builds the library from REPO's current sources plus one driver, per instrumentation flavour."""
import fcntl, glob, hashlib, os, shutil, subprocess, sysconfig, time
from concurrent.futures import ThreadPoolExecutor
from stages import FLAVOURS


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))


def sources(repo, here):
    fs = []
    for d in ("src", "include", "python", "matlab", "simulink"):
        for root, _, names in os.walk(os.path.join(repo, d)):
            fs += [os.path.join(root, n) for n in names if n.endswith((".c", ".h", ".cpp", ".hpp", ".m"))]
    for root, _, names in os.walk(os.path.join(here, "harness")):
        fs += [os.path.join(root, n) for n in names if n.endswith((".c", ".h", ".cpp", ".hpp", ".py"))]
    fs += [os.path.join(here, "bin", "stages.py"), os.path.join(here, "bin", "build.py"), os.path.join(here, "bin", "special.py")]
    return sorted(fs)


def tree_hash(repo, here):
    h = hashlib.sha256(os.path.abspath(repo).encode())
    for f in sources(repo, here):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def builddir(repo, here):
    top = os.path.join(here, "build")
    os.makedirs(top, exist_ok=True)
    d = os.path.join(top, tree_hash(repo, here))
    if not os.path.isdir(d):
        olds = sorted((os.path.join(top, x) for x in os.listdir(top)), key=os.path.getmtime)
        for o in olds[:-3]:      # another run may still be using a recent one
            if time.time() - os.path.getmtime(o) > 1800 or len(olds) > 40:
                shutil.rmtree(o, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    return d


def sanenv(here):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:handle_abort=1",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78", MSAN_OPTIONS="exitcode=79", TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1",
             LSAN_OPTIONS="exitcode=76", PYTHONDONTWRITEBYTECODE="1", MALLOC_CHECK_="3", LC_ALL="C", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    e.pop("LD_PRELOAD", None)
    e["QPM_REPO"] = os.environ.get("QPM_REPO", "/repo")
    e["QPM_HERE"] = here
    return e


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def lib_objects(fl, bd, repo):
    """objects of every C file in src/, compiled in this flavour"""
    f = FLAVOURS[fl]
    od = os.path.join(bd, fl)
    done = os.path.join(od, "objs.ok")
    with Lock(os.path.join(bd, fl + ".lock")):
        if not os.path.exists(done):
            os.makedirs(od, exist_ok=True)
            srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c")))
            if not srcs:
                raise BuildError("no sources in " + repo)
            cmds = [[f["cc"]] + f["cflags"] + ["-I" + os.path.join(repo, "include"), "-c", s, "-o", os.path.join(od, os.path.basename(s)[:-2] + ".o")] for s in srcs]
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(sh, cmds))
            open(done, "w").close()
    return sorted(glob.glob(os.path.join(od, "*.o")))


def prepare(st, repo, here):
    bd = builddir(repo, here)
    fl = st["flavour"]
    if st.get("python"):
        return prepare_python(st, repo, here, bd)
    if st.get("special"):
        import special
        return special.prepare(st, repo, here, bd)
    f = FLAVOURS[fl]
    objs = lib_objects(fl, bd, repo)
    exe = os.path.join(bd, "%s-%s" % (st["driver"], fl))
    with Lock(exe + ".lock"):
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            sh([f["cxx"]] + f["cxxflags"] + ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(here, "harness"),
                os.path.join(here, "harness", st["driver"] + ".cpp")] + objs + f["ldflags"] + ["-lm", "-lpthread", "-o", tmp])
            os.rename(tmp, exe)
    return [exe] + st.get("args", []), sanenv(here)


def pyext(fl, bd, repo):
    """the Python extension, compiled in this flavour (plain gcc or ASan+UBSan)"""
    f = FLAVOURS[fl]
    import numpy
    od = os.path.join(bd, "py-" + fl)
    so = os.path.join(od, "qpSWIFT" + sysconfig.get_config_var("EXT_SUFFIX"))
    with Lock(os.path.join(bd, "py-" + fl + ".lock")):
        if not os.path.exists(so):
            os.makedirs(od, exist_ok=True)
            srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c"))) + [os.path.join(repo, "python", "pyqpSWIFT.c")]
            inc = ["-I" + os.path.join(repo, "include"), "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
            objs = [os.path.join(od, os.path.basename(s)[:-2] + ".o") for s in srcs]
            cmds = [[f["cc"]] + f["cflags"] + ["-fPIC", "-w"] + (["-Wno-error=incompatible-function-pointer-types", "-Wno-error=int-conversion", "-Wno-error=implicit-function-declaration"] if f["cc"] == "clang" else []) + inc + ["-c", s, "-o", o] for s, o in zip(srcs, objs)]
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(sh, cmds))
            sh([f["cc"]] + f["cflags"] + ["-shared"] + objs + (["-shared-libasan"] if f["cc"] == "clang" and fl.startswith("asan") else []) + ["-lm", "-o", so + ".tmp"])
            os.rename(so + ".tmp", so)
    return od


def clib_so(fl, bd, repo, here):
    """the C library as a shared object, for the ctypes reference of the Python checks"""
    objs = None
    f = FLAVOURS[fl]
    so = os.path.join(bd, "libqpref-%s.so" % fl)
    with Lock(so + ".lock"):
        if not os.path.exists(so):
            srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c"))) + [os.path.join(here, "harness", "py", "qpref.c")]
            sh([f["cc"]] + f["cflags"] + ["-fPIC", "-shared", "-w", "-Wl,-Bsymbolic", "-I" + os.path.join(repo, "include")] + srcs + ["-lm", "-o", so + ".tmp"])
            os.rename(so + ".tmp", so)
    return so


def prepare_python(st, repo, here, bd):
    fl = st["flavour"]
    env = sanenv(here)
    od = pyext(fl, bd, repo)
    env["PYTHONPATH"] = od + ":" + os.path.join(here, "harness", "py")
    env["QPM_EXT"] = od
    env["QPM_REF"] = clib_so("plain", bd, repo, here)
    if fl.startswith("asan"):
        rt = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        if not os.path.exists(rt):
            rt = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env["LD_PRELOAD"] = rt
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        env["PYTHONMALLOC"] = "malloc"
    env.update(st.get("env", {}))
    return ["/usr/bin/python3", "-X", "faulthandler", os.path.join(here, "harness", "py", st["driver"] + ".py")] + st.get("args", []), env
