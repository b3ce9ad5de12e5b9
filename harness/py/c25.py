"""C25: hostile arguments; an independent validity predicate decides what each call must do. A crash kills this worker and is reported by the runner."""
import collections, decimal, fractions, math, sys, warnings
import numpy as np
import qpcommon as q


class Sub(np.ndarray): pass
class I(int): pass
class F(float): pass
class S(str): pass
class D(dict):
    def __getitem__(self, k): raise RuntimeError("overridden")
    def get(self, *a): raise RuntimeError("overridden")
class BadKey:
    """hashes like an option name and refuses to be compared"""
    def __init__(self, name): self.h = hash(name)
    def __hash__(self): return self.h
    def __eq__(self, o): raise RuntimeError("not comparable")
class Liar:
    def __float__(self): return 0.5
    def __index__(self): return 5
    def __int__(self): return 5
    def __array__(self, *a, **k): return np.zeros(3)
class LyingInt(int):
    def __int__(self): raise RuntimeError
    def __index__(self): raise RuntimeError
    def __lt__(self, o): raise RuntimeError
    def __gt__(self, o): raise RuntimeError
class LyingFloat(float):
    def __float__(self): raise RuntimeError
    def __lt__(self, o): raise RuntimeError
    def __gt__(self, o): raise RuntimeError


OK, BAD, EITHER = 0, 1, 2
FL = ["f8", ">f8", "f4", "f2", "g", ">f4"]
NF = ["i8", "i4", "u1", "?", "c16", "c8", "S4", "U3", "O", "M8[s]", "m8[s]", "V8", [("a", "f8")], "G"]


def hostile_array(r, a, cx):
    """some array of the same rank and values but perhaps unacceptable; also non-arrays"""
    k = r.randrange(17)
    if a.ndim == 0 or a.size == 0: k = r.choice([0, 1, 7, 12])
    n = a.shape
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if k == 0:
            dt = r.choice(NF)
            try: v = a.astype(dt) if not isinstance(dt, list) else np.zeros(n, dt)
            except Exception: v = np.zeros(n, dt)      # noqa: BLE001
            return v, "dtype_" + str(v.dtype.kind)
        if k == 1: return np.zeros((), r.choice(FL)), "zero_dim"
        if k == 2 and a.ndim < 20: return a.reshape((1,) * r.randint(1, 3) + n), "extra_dim"
        if k in (2, 3): return a.reshape(-1) if a.ndim > 1 else (a.reshape(-1, 1) if r.random() < .5 else a.reshape(1, -1)), "other_rank"
        if k == 4:
            s = list(n); i = r.randrange(len(s)); s[i] = max(0, s[i] + r.choice([-1, 1, -s[i], s[i], 7])); return np.resize(a, s) if np.prod(s) and a.size else np.zeros(s), "other_extent"
        if k == 5: return np.zeros([0] * a.ndim, r.choice(FL)), "empty"
        if k == 6: return a.T.copy() if a.ndim == 2 else a[::-1], "transposed"
        if k == 7: return r.choice([None, 3, 2.5, "abc", b"xyz", [], [1.0, 2.0], (1.0,), {}, {1}, object(), np.float64(3), np.float64, range(3), memoryview(b"12345678"), a.tolist(), Liar(), float("nan"), iter([1.0]), slice(3), np.ndarray, NotImplemented, Ellipsis]), "not_an_array"
        if k == 8: return np.ma.masked_array(a), "masked"
        if k == 9: return np.asmatrix(a) if a.ndim == 2 else np.asmatrix(a).T, "matrix"
        if k == 10: return a.view(np.recarray), "recarray"
        if k == 11: return np.broadcast_to(np.float64(1), n), "broadcast"
        if k == 12: return np.zeros((1,) * 32 if r.random() < .5 else (2,) * 10), "many_dims"
        if k == 13: return np.lib.stride_tricks.as_strided(a, shape=n, strides=[0] * a.ndim) if a.size else a, "zero_stride"
        if k == 14: return a.view(Sub), "subclass"
        if k == 16:
            d = [i for i in range(1, a.size + 1) if a.size % i == 0]; i = r.choice(d); return a.reshape(i, a.size // i) if a.ndim == 2 or r.random() < .5 else a.reshape(1, -1)[0], "same_size"
        return np.full(n, r.choice([np.nan, np.inf, -np.inf, 1e308, 5e-324]), r.choice(["f8", "g"])), "wild_values"


def isfloat(a):
    return isinstance(a, np.ndarray) and a.dtype.kind == "f"


BIG = [2 ** 31, 2 ** 63 - 1, 2 ** 63, 2 ** 64 + 5, -2 ** 63, -2 ** 63 - 1, 10 ** 30, -10 ** 100]


def hostile_option(r, k):
    """(value, verdict)"""
    odd = [None, "5", b"5", [], {}, (), object(), 3 + 0j, decimal.Decimal("0.5"), fractions.Fraction(1, 2), np.float32(.5), np.array(.5), np.array([5]), np.int64(5), np.int32(5), np.bool_(True), Liar(), float, lambda: 5, Ellipsis]
    if k in ("ABSTOL", "RELTOL"):
        v = r.choice(odd + [0.0, -0.0, 1.0, math.nextafter(1, 0), math.nextafter(1, 2), 5e-324, math.inf, -math.inf, math.nan, 1, 0, -1, True, False, F(.5), F(2), F(0), np.float64(1e-3), np.float64(1.5), LyingFloat(.5), LyingFloat(7), 1e-300, .5, -.5] + BIG)
        if isinstance(v, float): return v, OK if 0 < float.__float__(v) < 1 else BAD
        return v, BAD
    if k == "SIGMA":
        v = r.choice(odd + [0.0, -0.0, 1.0, 5e-324, math.inf, -math.inf, math.nan, 1, 100, -1, True, F(.5), F(-2), np.float64(10), np.float64(-1), LyingFloat(.5), 1e308, -5e-324] + BIG)
        if isinstance(v, float): return v, OK if float.__float__(v) > 0 else BAD
        return v, BAD
    v = r.choice(odd + [0, 1, 199, 200, 201, -1, 5, 1.0, 5.0, math.nan, math.inf, True, False, I(5), I(0), I(-3), I(250), LyingInt(5), LyingInt(-5)] + BIG)
    if isinstance(v, bool): return v, EITHER
    if k == "MAXITER":
        return (v, OK if 0 < int.__index__(v) < 200 else BAD) if isinstance(v, int) else (v, BAD)
    if k == "VERBOSE":
        if isinstance(v, int) and int.__index__(v) > 0: v = r.choice([0, I(0), 2 ** 63, 2 ** 80])
        return (v, OK if 0 <= int.__index__(v) < 2 ** 63 else BAD) if isinstance(v, int) else (v, BAD)
    return (v, OK if 0 <= int.__index__(v) < 2 ** 63 else BAD) if isinstance(v, int) else (v, BAD)    # OUTPUT


def verdict(kw, cx):
    """what the documentation promises for these keyword arguments: OK, BAD (TypeError) or EITHER"""
    unsure = False
    for k in ("c", "h", "P", "G"):
        if k not in kw or not isinstance(kw[k], np.ndarray): return BAD
    for k in ("A", "b"):
        if k in kw and not isinstance(kw[k], np.ndarray): return BAD
    if "opts" in kw and not isinstance(kw["opts"], dict): return BAD
    if set(kw) - {"c", "h", "P", "G", "A", "b", "opts"}: return BAD
    c, h, P, G = (kw[k] for k in ("c", "h", "P", "G"))
    if not all(map(isfloat, (c, h, P, G))): return BAD
    if c.ndim != 1 or h.ndim != 1 or P.ndim != 2 or G.ndim != 2: return BAD
    n, m = len(c), len(h)
    if not n or not m or P.shape != (n, n) or G.shape != (m, n): return BAD
    if "A" in kw and "b" in kw:
        A, b = kw["A"], kw["b"]
        if not isfloat(A) or not isfloat(b) or A.ndim != 2 or b.ndim != 1 or A.shape != (len(b), n): return BAD
    elif "A" in kw or "b" in kw:
        unsure = True       # half an equality block: undocumented
        cx.count("half_equality")
    return EITHER if unsure else OK


def good(cx, why):
    c, h, P, G = np.array([-3.0, -4.0]), np.array([1.0, 1.0]), np.eye(2), np.eye(2)
    try:
        res = q.qpSWIFT.run(c, h, P, G, opts={"OUTPUT": 1})
        ok = np.allclose(res["sol"], [1, 1], atol=1e-3) and res["basicInfo"]["ExitFlag"] == 0
    except Exception as e:      # noqa: BLE001
        ok = False; res = e
    if not ok: cx.fail("aftermath", "a plain call after %s gave %r" % (why, res))


def one(cx, r):
    c, h, P, G, A, b = q.problem(r, nmax=5)
    kw = dict(c=c, h=h, P=P, G=G)
    if A is not None and r.random() < .8: kw.update(A=A, b=b)
    elif r.random() < .1: kw.update(A=np.zeros((0, len(c))), b=np.zeros(0))
    notes = []; touched = set()
    hard = None            # exception types other than TypeError that the arguments themselves legitimately cause
    nh = r.choice([0, 0, 1, 1, 1, 2, 4])
    for _ in range(nh):
        k = r.choice(sorted(kw))
        if k not in touched:
            touched.add(k)
            kw[k], note = hostile_array(r, kw[k], cx); notes.append(k + ":" + note); cx.count("hostile_" + note)
    if r.random() < .05:
        k, l = r.sample(sorted(kw), 2)
        if k not in touched and l not in touched: kw[k], kw[l] = kw[l], kw[k]; notes.append("swapped %s %s" % (k, l)); cx.count("hostile_swapped")
    if r.random() < .08:
        k = r.choice(sorted(kw)); kw.pop(k); notes.append(k + ":missing")
    if r.random() < .03: kw[r.choice(["C", "d", "options", "", "lb"])] = 1; notes.append("extra")
    optv = OK; outbad = False
    if r.random() < .5:
        o = r.choice([dict, dict, dict, D, collections.OrderedDict])()
        for k in ("MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT"):
            if r.random() < .3:
                v, t = hostile_option(r, k)
                if r.random() < .5: v, t = dict(MAXITER=(20, OK), ABSTOL=(1e-6, OK), RELTOL=(1e-6, OK), SIGMA=(10.0, OK), VERBOSE=(0, OK), OUTPUT=(r.choice([0, 1, 2]), OK))[k]
                dict.__setitem__(o, S(k) if r.random() < .1 else k, v)
                if k == "OUTPUT":
                    if t == BAD: outbad = True
                    elif t == EITHER: outbad = None if outbad is False else outbad
                elif t == BAD: optv = BAD
                elif t == EITHER and optv == OK: optv = EITHER
        if r.random() < .1: dict.__setitem__(o, r.choice([3, None, (1, 2), "maxiter", S("sigma"), b"MAXITER", float("nan")]), object())
        if r.random() < .03:
            k = r.choice(["MAXITER", "OUTPUT", "SIGMA"])
            if k not in o and b"MAXITER" not in o: dict.__setitem__(o, BadKey(k), 5); optv = EITHER if optv == OK else optv; hard = (RuntimeError,); notes.append("uncomparable-key")
        kw["opts"] = o
        if r.random() < .04: kw["opts"] = r.choice([None, [], 5, "x", (("MAXITER", 5),), type(o), np.zeros(3)]); optv = OK; outbad = False
    if r.random() < .012 and "c" in kw:
        N = 2 ** 22; z = lambda *s: np.broadcast_to(np.float64(0), s)   # noqa: E731
        kw.update(c=z(N), h=z(3), P=z(N, N), G=z(3, N)); kw.pop("A", None); kw.pop("b", None); hard = (MemoryError,); notes.append("uncopyable"); cx.count("uncopyable")
    if r.random() < .04:
        k = r.choice(["c", "h", "P", "G"])
        if isfloat(kw.get(k)) and 0 < kw[k].size < 10000: kw[k] = np.full(kw[k].shape, np.longdouble("1e4000")); hard = (hard or ()) + (RuntimeWarning, FloatingPointError); notes.append("overflowing")
    want = verdict(kw, cx)
    if want != BAD and "opts" in kw:
        want = BAD if optv == BAD else EITHER if EITHER in (want, optv) else OK
    # positional or keyword, possibly with surplus positionals
    order = ["c", "h", "P", "G", "A", "b", "opts"]
    k = r.randint(0, 7); args = []; kws = dict(kw)
    for nm in order[:k]:
        if nm not in kws: break
        args.append(kws.pop(nm))
    if r.random() < .02:
        args += [np.zeros(1)] * 8; want = BAD; notes.append("surplus")
    elif args and r.random() < .02:
        kws[order[0]] = args[0]; want = BAD; notes.append("duplicate")
    mode = r.choice(["always", "error", "error", "ignore"])
    desc = "%s want=%s warn=%s %s opts=%r" % (notes, want, mode, {k: (getattr(v, "dtype", type(v)), getattr(v, "shape", "")) for k, v in kw.items() if k != "opts"}, kw.get("opts"))
    cx.seen(desc)
    outcome = None
    with warnings.catch_warnings(record=(mode == "always")) as rec:
        warnings.simplefilter(mode)
        st = np.geterr()
        if r.random() < .3: np.seterr(all="raise")
        try:
            res = q.qpSWIFT.run(*args, **kws)
            outcome = "result"
        except BaseException as e:      # noqa: BLE001
            res = e; outcome = "exception"
        finally:
            np.seterr(**st)
        warned = [w for w in (rec or []) if issubclass(w.category, UserWarning)]
    if outcome == "exception" and isinstance(res, SystemError):
        cx.fail("system-error", "%r: %s" % (res, desc)); return
    if outcome == "exception" and hard and isinstance(res, hard):
        cx.count("resource_or_caller_exceptions")
    elif want == BAD:
        if outcome == "result": cx.fail("accepted", "invalid arguments returned a result: " + desc)
        elif not isinstance(res, TypeError): cx.fail("exception-type", "invalid arguments raised %r: %s" % (res, desc))
        elif not str(res): cx.fail("exception-text", "no message: " + desc)
        cx.count("rejections")
    elif outcome == "exception":
        if outbad is not False and mode == "error" and isinstance(res, UserWarning): cx.count("warning_became_error")
        elif want == EITHER and isinstance(res, TypeError): cx.count("either_rejected")
        else: cx.fail("refused", "valid arguments raised %r: %s" % (res, desc))
    else:
        cx.count("results")
        if type(res) is not dict or "sol" not in res or type(res["sol"]) is not np.ndarray or res["sol"].shape != kw["c"].shape:
            cx.fail("result-kind", "%r: %s" % (res, desc))
        if outbad and hard is None:
            if set(res) != {"sol"}: cx.fail("output-fallback", "invalid OUTPUT did not fall back to the default, result has %r: %s" % (sorted(res), desc))
            if mode == "error": cx.fail("output-warning", "invalid OUTPUT did not warn: " + desc)
            if mode == "always" and not warned: cx.fail("output-warning", "invalid OUTPUT did not warn: " + desc)
            cx.count("output_fallbacks")
        if mode == "always" and outbad is False and warned: cx.fail("stray-warning", "%r: %s" % ([str(w.message) for w in warned], desc))
    if sys.exc_info()[0] is not None: cx.fail("pending", desc)
    if r.random() < .3: good(cx, desc)
    cx.sample(desc + " -> " + repr(res)[:200])


q.main(one)
