"""C26: the Python entry point returns the C library's results for every dtype, layout, option and call form"""
import ctypes, os, sys, warnings
import numpy as np
import qpcommon as q

libc = ctypes.CDLL(None)
DT = ["f8", "f8", "<f8", ">f8", "f4", ">f4", "f2", ">f2", "g"]
EXACT = os.environ.get("QPM_EXACT", "1") == "1"


class Sub(np.ndarray):
    pass


class Capture:
    """what reaches file descriptor 1"""

    def __enter__(self):
        sys.stdout.flush(); libc.fflush(None)
        self.save = os.dup(1); self.f = os.memfd_create("cap"); os.dup2(self.f, 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(); libc.fflush(None)
        os.dup2(self.save, 1); os.close(self.save)
        os.lseek(self.f, 0, 0); self.text = b""
        while True:
            t = os.read(self.f, 1 << 20)
            if not t: break
            self.text += t
        os.close(self.f)


def layout(r, a, cx):
    """the same values in some dtype, byte order, stride pattern, alignment; returns the view and the buffer owning it"""
    dt = np.dtype(r.choice(DT))
    if not np.all(np.isfinite(a)) or np.abs(a).max(initial=0) > 1e4:
        dt = np.dtype(r.choice(["f8", ">f8", "g", "f4"]))
    a = a.astype(dt)
    k = r.randrange(12)
    cx.count("dtype_" + dt.str.strip("<=|").replace(">", "big_"))
    names = ["C", "F", "strided", "reversed", "misaligned", "offset_view", "transposed", "readonly", "subclass", "broadcast", "swapped_axes", "fortran_strided"]
    def done(v, base, nm):
        cx.count("layout_" + nm)
        assert v.shape == a.shape and np.array_equal(v, a, equal_nan=True)
        return v, base
    if k == 1:
        v = np.asfortranarray(a); return done(v, v, names[1])
    if k == 2:
        st = [r.randint(1, 3) for _ in a.shape]
        big = np.full(tuple(s * t + 1 for s, t in zip(a.shape, st)), 777, dtype=dt)
        v = big[tuple(slice(0, s * t, t) for s, t in zip(a.shape, st))]; v[...] = a; return done(v, big, names[2])
    if k == 3:
        big = np.full(a.shape, 777, dtype=dt); v = big[tuple(slice(None, None, -1) if r.random() < .7 else slice(None) for _ in a.shape)]; v[...] = a; return done(v, big, names[3])
    if k == 4:
        buf = np.zeros(a.size * dt.itemsize + 16, dtype=np.uint8); o = r.randint(1, 7)
        v = buf[o:o + a.size * dt.itemsize].view(dt).reshape(a.shape); v[...] = a; return done(v, buf, names[4])
    if k == 5:
        big = np.full(tuple(s + 4 for s in a.shape), 777, dtype=dt); v = big[tuple(slice(2, 2 + s) for s in a.shape)]; v[...] = a; return done(v, big, names[5])
    if k == 6 and a.ndim == 2:
        base = np.ascontiguousarray(a.T); return done(base.T, base, names[6])
    if k == 7:
        v = a.copy(); v.flags.writeable = False; return done(v, v, names[7])
    if k == 8:
        v = a.copy().view(Sub); return done(v, v, names[8])
    if k == 9 and a.size and a.ndim == 1 and np.all(a == a[0]):
        base = np.array([a[0]], dtype=dt); return done(np.broadcast_to(base, a.shape), base, names[9])
    if k == 9 and a.size and a.ndim == 2 and np.all(a == a[:1]):
        base = a[:1].copy(); return done(np.broadcast_to(base, a.shape), base, names[9])
    if k == 10 and a.ndim == 2:
        big = np.full((a.shape[1] * 2, a.shape[0] * 2 + 1), 777, dtype=dt); v = big[::2, 1::2].T; v[...] = a; return done(v, big, names[10])
    if k == 11 and a.ndim == 2:
        big = np.full((a.shape[0] + 3, a.shape[1] + 2), 777, dtype=dt, order="F"); v = big[1:-2, 1:-1]; v[...] = a; return done(v, big, names[11])
    return done(a, a, "C")


def one(cx, r):
    big = r.random() < .008
    c, h, P, G, A, b = q.problem(r, nmax=r.choice([3, 8, 8, 20]), kind="large" if big else None)
    if big: cx.count("large_problems")
    if r.random() < .15:      # constant rows and vectors, so that zero-stride layouts occur
        h[...] = h[0]; c[...] = c[0]
        if r.random() < .5: G[...] = G[:1]
    if A is None and r.random() < .15:
        A, b = np.zeros((0, len(c))), np.zeros(0)      # an equality block without rows
    vs = {}; bases = []
    for nm, a in (("c", c), ("h", h), ("P", P), ("G", G), ("A", A), ("b", b)):
        if a is not None:
            v, base = layout(r, np.array(a), cx); vs[nm] = v; bases.append((nm, base, base.tobytes(), v))
    opts = None
    if r.random() < .8:
        opts = {}
        if r.random() < .4: opts["MAXITER"] = r.choice([1, 2, 3, 5, 8, 50, 100, 199, r.randint(1, 199)])
        if r.random() < .4: opts["ABSTOL"] = r.choice([10 ** -r.uniform(2, 9), 0.5, 1e-12])
        if r.random() < .4: opts["RELTOL"] = r.choice([10 ** -r.uniform(2, 9), 0.5, 1e-12])
        if r.random() < .3: opts["SIGMA"] = r.choice([100.0, 10 ** r.uniform(-2, 3), 1e-12, 0.5])
        if r.random() < .3: opts["VERBOSE"] = r.choice([0, 0, 1, 2, 3, 2 ** 40])
        if r.random() < .85: opts["OUTPUT"] = r.choice([0, 1, 2, 2, 2, 3, 7, 10, 2 ** 62])
        if r.random() < .2: opts["maxiter"] = "ignored"
        if r.random() < .1: opts[17] = None
    before = None if opts is None else dict(opts)
    ref = q.Ref(*[np.array(vs[k], dtype=np.float64) if k in vs else None for k in ("c", "h", "P", "G", "A", "b")], opts=opts)
    args, kw = [vs["c"], vs["h"], vs["P"], vs["G"]], {}
    rest = [(k, vs[k]) for k in ("A", "b") if k in vs] + ([("opts", opts)] if opts is not None else [])
    form = r.randrange(4)
    if form == 0 and len(rest) == 3 or (form == 0 and rest and rest[0][0] == "A"):
        args += [v for _, v in rest]
    elif form == 1:
        kw = dict(zip(("c", "h", "P", "G"), args)); kw.update(rest); args = []
        if r.random() < .5: kw = dict(r.sample(sorted(kw.items(), key=lambda t: t[0]), len(kw)))
    elif form == 2:
        k = r.randint(0, 4); kw = dict(list(zip(("c", "h", "P", "G"), args))[k:]); args = args[:k]; kw.update(rest)
    else:
        kw = dict(rest)
    cx.count("form_%d" % form)
    desc = "n=%d m=%d p=%s opts=%r form=%d %s" % (len(c), len(h), None if b is None else len(b), opts, form, {k: (v.dtype.str, v.strides) for k, v in vs.items()})
    with Capture() as cap:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            try:
                res = q.qpSWIFT.run(*args, **kw)
            except Exception as e:      # noqa: BLE001
                res = e
    if not isinstance(res, dict):
        cx.fail("raised", "valid arguments raised %r: %s" % (res, desc)); return
    cx.seen(*[v for v in vs.values()], sorted((str(k), repr(v)) for k, v in (opts or {}).items()))
    for nm, base, raw, v in bases:
        if base.tobytes() != raw:
            cx.fail("input-modified", "the argument %s or the memory around it was modified: %s" % (nm, desc))
    if opts is not None and opts != before:
        cx.fail("options-modified", desc)
    verb = (opts or {}).get("VERBOSE", 0)
    if verb == 0 and cap.text:
        cx.fail("printed", "printed %r at verbosity 0: %s" % (cap.text[:80], desc))
    if verb > 0:
        cx.count("verbose_calls")
        t = cap.text.decode("latin1"); got = {}
        for line in t.split("Settings Applied")[-1].split("\n")[:9]:
            f = line.split(":")
            if len(f) == 2:
                try: got[f[0].strip()] = float(f[1])
                except ValueError: pass
        want = {"Maximum Iterations": ref.opt[0], "ABSTOL": ref.opt[2], "RELTOL": ref.opt[1], "SIGMA": ref.opt[3], "VERBOSE": float(verb)}
        for k, w in want.items():
            if k in got:
                cx.count("settings_read_back")
                if not abs(got[k] - w) <= 2e-6 * abs(w): cx.fail("settings-shown", "%s shown as %r, in use %r: %s" % (k, got[k], w, desc))
        if not t: cx.fail("not-printed", "nothing printed at verbosity %d: %s" % (verb, desc))
    out = (opts or {}).get("OUTPUT", 10); eq = A is not None
    want = {"sol"} | ({"basicInfo"} if out in (1, 2) else set()) | ({"advInfo"} if out == 2 else set())
    if set(res) != want:
        cx.fail("keys", "result has %r, documented %r: %s" % (sorted(res), sorted(want), desc)); return
    tol = 1e-12 if EXACT else 1e-6
    arrays = [("sol", res["sol"], ref.x)]
    if out in (1, 2):
        bi = res["basicInfo"]; cx.count("basic_info")
        if set(bi) != {"ExitFlag", "Iterations", "Setup_Time", "Solve_Time"}: cx.fail("keys", "basicInfo has %r: %s" % (sorted(bi), desc)); return
        if type(bi["ExitFlag"]) is not int or type(bi["Iterations"]) is not int or (EXACT and (bi["ExitFlag"], bi["Iterations"]) != (ref.flag, ref.it)):
            cx.fail("flag", "exit flag %r after %r iterations, the C library gives %r after %r: %s" % (bi["ExitFlag"], bi["Iterations"], ref.flag, ref.it, desc)); return
        for k in ("Setup_Time", "Solve_Time"):
            if type(bi[k]) is not float or not 0 <= bi[k] < 1000: cx.fail("time", "%s = %r: %s" % (k, bi[k], desc))
    if out == 2:
        ai = res["advInfo"]; cx.count("adv_info")
        w = {"fval", "kktTime", "ldlTime", "z", "s"} | ({"y"} if eq else set())
        if set(ai) != w: cx.fail("keys", "advInfo has %r, documented %r: %s" % (sorted(ai), sorted(w), desc)); return
        arrays += [("z", ai["z"], ref.z), ("s", ai["s"], ref.s)] + ([("y", ai["y"], ref.y)] if eq else [])
        if type(ai["fval"]) is not float or (EXACT and not q.close(ai["fval"], ref.fval, tol)): cx.fail("fval", "fval %r, the C library gives %r: %s" % (ai["fval"], ref.fval, desc))
        for k in ("kktTime", "ldlTime"):
            if type(ai[k]) is not float or not 0 <= ai[k] < 1000: cx.fail("time", "%s = %r: %s" % (k, ai[k], desc))
    for nm, a, w in arrays:
        cx.count("arrays_compared")
        if type(a) is not np.ndarray or a.dtype != np.float64 or not a.dtype.isnative or a.shape != w.shape or not a.flags.owndata or not a.flags.writeable or not a.flags.c_contiguous:
            cx.fail("array-kind", "%s is %r: %s" % (nm, getattr(a, "flags", type(a)), desc)); continue
        if any(np.shares_memory(a, v) for v in vs.values()): cx.fail("aliases-input", "%s shares memory with an argument: %s" % (nm, desc))
        if (EXACT or (ref.flag == 0 and ref.it < 30)) and not q.close(a, w, tol if EXACT else 1e-4):
            cx.fail("values", "%s = %r, the C library gives %r: %s" % (nm, a[:6], w[:6], desc)) if len(a) < 50 else cx.fail("values", "%s: entry %d is %r, the C library gives %r: %s" % (nm, int(np.argmax(~(np.abs(a - w) <= tol))), a[int(np.argmax(~(np.abs(a - w) <= tol)))], w[int(np.argmax(~(np.abs(a - w) <= tol)))], desc))
    for i in range(len(arrays)):
        for j in range(i):
            if np.shares_memory(arrays[i][1], arrays[j][1]): cx.fail("aliases", "%s and %s share memory: %s" % (arrays[i][0], arrays[j][0], desc))
    cx.sample("%s -> flag %s after %s iterations" % (desc, ref.flag, ref.it))


q.main(one)
