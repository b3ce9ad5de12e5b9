"""C27: reference counts of everything passed in, live objects and native memory are the same after any number of calls as before, on every path"""
import ctypes, gc, os, sys, warnings
import numpy as np
import qpcommon as q

ASAN = os.environ.get("QPM_EXACT", "1") != "1"


class I(int): pass
class F(float): pass
class S(str): pass
class MI(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = MI


def native():
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


PATHS = ["sol", "basic", "adv", "adv_noeq", "basic_noeq", "sol_noeq", "only_A", "c_kind", "h_kind", "b_kind", "A_kind", "G_kind", "P_kind", "bA_shape", "hG_shape", "cP_shape", "empty_c", "empty_h", "zero_dim_c",
         "zero_dim_h", "zero_dim_b", "zero_dim_P", "MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT_warn", "OUTPUT_error", "parse_c", "parse_opts", "unknown_kw", "missing", "copy_fails_c", "copy_fails_h", "copy_fails_P", "copy_fails_G", "copy_fails_b", "copy_fails_A",
         "int_overflow", "p_zero_arrays", "other_dtypes", "no_opts"]


def tracked(kw):
    objs = [(k, v) for k, v in kw.items()]
    if isinstance(kw.get("opts"), dict):
        objs += [("key " + str(k), k) for k in kw["opts"]] + [("value of " + str(k), v) for k, v in kw["opts"].items()]
    objs += [("dtype of " + k, v.dtype) for k, v in kw.items() if isinstance(v, np.ndarray)]
    objs += [("base of " + k, v.base) for k, v in kw.items() if isinstance(v, np.ndarray) and v.base is not None]
    objs += [("numpy.ndarray", np.ndarray), ("double dtype", np.dtype("f8"))]
    return objs


def build(r, path, cx):
    while True:
        c, h, P, G, A, b = q.problem(r, nmax=r.choice([2, 6, 15]), kind="good" if r.random() < .9 else None, p0=0)
        if A is not None and len(b): break
    eq = "noeq" not in path and path not in ("no_opts",) or r.random() < 0
    kw = dict(c=c, h=h, P=P, G=G)
    if eq: kw.update(A=A, b=b)
    if path == "only_A": kw.pop(r.choice(["A", "b"]))
    if path == "p_zero_arrays": kw.update(A=np.zeros((0, len(c))), b=np.zeros(0))
    o = {S("MAXITER"): I(r.choice([1, 5, 50, 100])), S("ABSTOL"): F(1e-6), S("RELTOL"): F(1e-6), S("SIGMA"): F(10.), S("VERBOSE"): I(0), S("OUTPUT"): I(2)}
    for k in list(o):
        if r.random() < .3: del o[k]
    if path.startswith(("adv", "basic", "sol")) or path in ("p_zero_arrays", "other_dtypes"):
        o["OUTPUT"] = I({"adv": 2, "bas": 1, "sol": 0}.get(path[:3], r.choice([0, 1, 2])))
    if path.endswith("_kind"): kw[path[0]] = kw[path[0]].astype(r.choice(["i8", "c16", "O"]))
    if path == "bA_shape": kw["b"] = np.zeros(len(b) + 1)
    if path == "hG_shape": kw["h"] = np.zeros(len(h) + 1)
    if path == "cP_shape": kw["P"] = np.zeros((len(c), len(c) + 1))
    if path == "empty_c": kw.update(c=np.zeros(0), P=np.zeros((0, 0)), G=np.zeros((len(h), 0))); kw.pop("A"); kw.pop("b")
    if path == "empty_h": kw.update(h=np.zeros(0), G=np.zeros((0, len(c))))
    if path.startswith("zero_dim"): kw[path[-1]] = np.zeros(())
    bad = dict(MAXITER=[I(0), I(777), F(3.), S("x"), I(10 ** 30)], ABSTOL=[F(2), F(0), I(1), F("nan")], RELTOL=[F(2), F(0), I(1), F("nan")], SIGMA=[F(-1), I(4), F("nan")], VERBOSE=[I(-1), F(1.), I(10 ** 30)])
    if path in bad: o[S(path)] = r.choice(bad[path])
    if path == "int_overflow": o[S(r.choice(["MAXITER", "VERBOSE", "OUTPUT"]))] = I(2 ** 64 + r.randint(0, 9))
    if path.startswith("OUTPUT_"): o[S("OUTPUT")] = r.choice([I(-1), S("two"), F(2.), [1, 2], I(10 ** 40)])
    if path == "parse_c": kw[r.choice("chPG")] = r.choice([S("x"), [1., 2.], I(3)])
    if path != "no_opts": kw["opts"] = o
    if path == "parse_opts": kw["opts"] = r.choice([[1], S("x"), I(4)])
    if path == "unknown_kw": kw["lower"] = np.zeros(3)
    if path == "missing": kw.pop(r.choice("chPG"))
    if path.startswith("copy_fails"):
        k = path[-1]; v = np.full(kw[k].shape, np.longdouble("1e4000"))      # cannot be converted under errstate raise
        kw[k] = v[::-1] if r.random() < .5 else np.asfortranarray(v)
    if path == "other_dtypes":
        for k in list(kw):
            if isinstance(kw[k], np.ndarray): kw[k] = np.asfortranarray(kw[k].astype(r.choice(["f4", ">f8", "g", "f2", "f8"])))[tuple(slice(None, None, -1) for _ in kw[k].shape)]
    return kw


def call(kw, npos, mode):
    args = []
    kws = dict(kw)
    for nm in ("c", "h", "P", "G", "A", "b", "opts")[:npos]:
        if nm not in kws: break
        args.append(kws.pop(nm))
    with warnings.catch_warnings():
        warnings.simplefilter(mode)
        st = np.seterr(all="raise")
        try:
            return q.qpSWIFT.run(*args, **kws)
        except Exception as e:      # noqa: BLE001
            return type(e)
        finally:
            np.seterr(**st)


def results(d):
    out = []
    if isinstance(d, dict):
        for k, v in d.items():
            out += [(k + "." + j, w) for j, w in v.items()] if isinstance(v, dict) else [(k, v)]
    return out


def one(cx, r):
    path = r.choice(PATHS) if r.random() < .6 else r.choice(PATHS[:7])
    kw = build(r, path, cx)
    npos = r.randint(0, 7); mode = "error" if path == "OUTPUT_error" else "ignore"
    desc = "path %s npos=%d opts=%r shapes %r" % (path, npos, kw.get("opts"), {k: v.shape for k, v in kw.items() if isinstance(v, np.ndarray)})
    reps = r.randint(2, 9)
    for _ in range(2): res = call(kw, npos, mode)     # caches warmed
    res = None
    objs = tracked(kw)
    before = [sys.getrefcount(o) for _, o in objs]
    for _ in range(reps):
        res = call(kw, npos, mode)
        res = None
    after = [sys.getrefcount(o) for _, o in objs]
    for (nm, _), x, y in zip(objs, before, after):
        cx.count("refcounts_compared")
        if x != y: cx.fail("refcount", "the reference count of %s went from %d to %d over %d calls: %s" % (nm, x, y, reps, desc))
    cx.seen(desc); cx.count("path_" + path); cx.count("calls", reps)
    # the returned structure is exclusively the caller's
    res = call(kw, npos, mode)
    cx.count("outcome_" + ("dict" if isinstance(res, dict) else res.__name__))
    if isinstance(res, dict):
        if sys.getrefcount(res) != 2: cx.fail("result-refs", "the result dictionary has %d references: %s" % (sys.getrefcount(res) - 1, desc))
        for k in list(res):
            v = res[k]
            if sys.getrefcount(v) != 3: cx.fail("result-refs", "result[%r] has %d references, one expected: %s" % (k, sys.getrefcount(v) - 2, desc))
            if isinstance(v, dict):
                for j in list(v):
                    w = v[j]
                    if isinstance(w, (np.ndarray, float)) and sys.getrefcount(w) != 3: cx.fail("result-refs", "result[%r][%r] has %d references, one expected: %s" % (k, j, sys.getrefcount(w) - 2, desc))
                    w = None
            v = None
        # results outlive everything else
        if r.random() < .7:
            keep = [(k, v, v.copy()) for k, v in results(res) if isinstance(v, np.ndarray)]
            objs = None; kw2 = None
            if r.random() < .5: kw = None
            res = None; gc.collect(0)
            junk = [np.full(len(v) or 1, np.nan) for _, v, _ in keep for _ in range(20)]
            q.qpSWIFT.run(np.array([-3., 1.]), np.array([1., 1.]), np.eye(2), np.eye(2))
            for k, v, w in keep:
                cx.count("results_outliving")
                if v.tobytes() != w.tobytes(): cx.fail("result-dies", "result %s changed after the inputs and the result were released: %s" % (k, desc))
            junk = keep = v = w = None
    res = None
    # live objects and native memory
    if kw is not None and cx.idx % 4 == 0:
        N = 60
        grew = []
        for attempt in range(4):
            for _ in range(10): call(kw, npos, mode)
            b0, m0 = sys.getallocatedblocks(), native()
            for _ in range(N): call(kw, npos, mode)
            b1, m1 = sys.getallocatedblocks(), native()
            grew.append(((b1 - b0), (m1 - m0)))
            if (b1 - b0) < N // 2 and (ASAN or (m1 - m0) < N * 8): break
        else:
            cx.fail("growth", "over %d calls the live blocks and native bytes grew by %r in 4 measurements: %s" % (N, grew, desc))
        cx.count("growth_measured")
    cx.sample("%s: %d references unchanged over %d calls" % (desc, len(before), reps))


q.main(one)
