"""Builds the MATLAB gateway and the Simulink blocks of REPO against stand-in runtimes."""
import glob, os
from concurrent.futures import ThreadPoolExecutor
from build import BuildError, Lock, clib_so, sanenv, sh
from stages import FLAVOURS


def prepare(st, repo, here, bd):
    fl, kind = st["flavour"], st["special"]
    f = FLAVOURS[fl]
    mock = os.path.join(here, "harness", kind)
    od = os.path.join(bd, "%s-%s" % (kind, fl))
    exe = os.path.join(od, st["driver"])
    os.makedirs(od, exist_ok=True)
    with Lock(os.path.join(bd, "%s-%s.lock" % (kind, fl))):
        if not os.path.exists(exe):
            glue = sorted(glob.glob(os.path.join(repo, "matlab", "*.c"))) if kind == "mex" else sorted(glob.glob(os.path.join(repo, "simulink", "*.c")))
            srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c"))) + glue
            if not glue:
                raise BuildError("no gateway sources in " + repo)
            objs = [os.path.join(od, os.path.basename(s)[:-2] + ".o") for s in srcs]
            inc = ["-I" + mock, "-I" + os.path.join(here, "harness", "mex"), "-I" + os.path.join(repo, "include")]
            cmds = [[f["cc"]] + f["cflags"] + ["-DMATLAB_MEX_FILE"] + inc + ["-c", s, "-o", o] for s, o in zip(srcs, objs)]
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(sh, cmds))
            wrap = ["-Wl,--wrap=QP_SOLVE"]
            sh([f["cxx"]] + f["cxxflags"] + ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(here, "harness"), "-I" + mock, "-I" + os.path.join(here, "harness", "mex"), os.path.join(here, "harness", st["driver"] + ".cpp")] + objs + f["ldflags"] + wrap + ["-lm", "-ldl", "-lpthread", "-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
    env = sanenv(here)
    env["QPM_REF"] = clib_so(fl, bd, repo, here)
    return [exe] + st.get("args", []), env
