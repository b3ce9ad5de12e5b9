"""Shared by the Python monitors: command line, reporting, problem generation and the C reference."""
import argparse, ctypes, hashlib, os, random, struct, sys
import numpy as np

EXT = os.environ["QPM_EXT"]
sys.path.insert(0, EXT)
import qpSWIFT  # noqa: E402

_so = ctypes.CDLL(os.environ["QPM_REF"])
_D = ctypes.POINTER(ctypes.c_double)
_so.qpref_solve.restype = ctypes.c_long
_so.qpref_solve.argtypes = [ctypes.c_long] * 3 + [_D] * 7 + [ctypes.c_int] + [_D] * 5


def _p(a):
    return None if a is None else a.ctypes.data_as(_D)


def defaults():
    o = np.zeros(5)
    _so.qpref_defaults(_p(o))
    return o


class Ref:
    """what the C library computes for these values (converted to double, row-major)"""

    def __init__(self, c, h, P, G, A=None, b=None, opts=None):
        cv = lambda a: None if a is None else np.array(a, dtype=np.float64, order="C", copy=True)   # noqa: E731
        c, h, P, G, A, b = map(cv, (c, h, P, G, A, b))
        n, m, p = len(c), len(h), (len(b) if b is not None and A is not None else 0)
        o = defaults()
        for k, i in (("MAXITER", 0), ("RELTOL", 1), ("ABSTOL", 2), ("SIGMA", 3)):
            if opts and k in opts:
                o[i] = float(opts[k])
        o[4] = 0
        self.x, self.y, self.z, self.s, st = np.empty(n), np.empty(p), np.empty(m), np.empty(m), np.empty(6)
        self.flag = _so.qpref_solve(n, m, p, _p(P), _p(A) if p else None, _p(G), _p(c), _p(h), _p(b) if p else None, _p(o), 0, _p(self.x), _p(self.y), _p(self.z), _p(self.s), _p(st))
        self.it, self.fval = int(st[0]), st[1]
        self.opt = o


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.tobytes() == b.tobytes():
        return True
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    f = np.isfinite(a)
    return bool(np.all(np.abs(a[f] - b[f]) <= tol * (1 + np.abs(b[f]).max(initial=0))))


def large(r):
    """hundreds of variables and constraints, few nonzeros"""
    n = r.choice([127, 128, 255, 256, 257, r.randint(60, 700)])
    m = r.choice([n, 2 * n, 255, 256, 512, r.randint(1, 900)])
    p = r.choice([0, 0, n // 2, min(n, 256), min(n, 257), r.randint(1, n)])
    rs = np.random.RandomState(r.getrandbits(32))
    P = np.diag(rs.randint(1, 9, n) / 4.0); G = np.zeros((m, n)); A = np.zeros((p, n))
    G[np.arange(m), rs.randint(0, n, m)] = rs.randint(1, 9, m) / 4.0
    A[np.arange(p), np.arange(p)] = rs.randint(1, 9, p) / 4.0
    x0 = rs.randint(-8, 9, n) / 4.0
    c = -(P @ (rs.randint(-8, 9, n) / 4.0)) - G.T @ (rs.randint(1, 9, m) / 4.0)
    return [c, G @ x0 + rs.randint(1, 9, m) / 4.0, P, G] + ([A, A @ x0] if p else [None, None])


def problem(r, nmax=10, kind=None, p0=0.4):
    """strictly feasible convex problem with exactly representable (float16) data, or hostile data"""
    if kind == "large":
        return large(r)
    n = r.randint(1, nmax)
    m = r.randint(1, 2 * n + 2)
    p = 0 if r.random() < p0 else r.randint(0, n if r.random() < .2 else max(0, n - 1))
    rs = np.random.RandomState(r.getrandbits(32))
    d = lambda *sh: rs.randint(-8, 9, sh) / 4.0   # noqa: E731
    dens = r.choice([1, 1, .5, .3])
    L = np.tril(d(n, n)) * (rs.rand(n, n) < dens) * .5
    P = L @ L.T + np.diag(rs.randint(1, 9, n) / 4.0)
    if r.random() < .2:
        P = np.diag(rs.randint(1, 9, n) / 4.0)
    G = d(m, n) * (rs.rand(m, n) < dens)
    A = d(p, n) * (rs.rand(p, n) < dens)
    for i in range(p):
        A[i, i] = r.choice([1.0, 2.0, -1.5])
        A[i, :i] = 0 if i < n else A[i, :i]
    x0 = d(n)
    h = G @ x0 + rs.randint(1, 9, m) / 4.0
    b = A @ x0
    z0 = rs.randint(1, 9, m) / 4.0
    c = -(P @ d(n) + A.T @ d(p) + G.T @ z0)
    kind = kind or ("wild" if r.random() < .12 else "good")
    if kind == "wild":
        w = r.randrange(4)
        if w == 0:
            r.choice([c, h, P, G])[...] = 0
        elif w == 1:
            a = r.choice([c, h, P, G])
            a.flat[r.randrange(a.size)] = r.choice([np.nan, np.inf, -np.inf])
        elif w == 2:
            h[...] = d(m)
        else:
            P[...] = 0
            c[...] = d(n)
    return [c, h, P, G] + ([A, b] if p else [None, None])


class Ctx:
    def __init__(self):
        self.fails = self.fails_case = self.evals = self.nontrivial = self.skipped = self.nsamples = 0
        self.cnt, self.hashes = {}, []

    def count(self, k, v=1):
        self.cnt[k] = self.cnt.get(k, 0) + v

    def cmax(self, k, v):
        self.cnt[k] = max(self.cnt.get(k, v), v)

    def fail(self, key, msg):
        self.fails += 1
        self.fails_case += 1
        if self.fails_case <= 3:
            self.out.write("V\t%d\t%s\t%s\n" % (self.idx, key, str(msg).replace("\n", " ").replace("\t", " ")[:1500]))
            self.out.flush()

    def sample(self, msg):
        if self.nsamples < 3:
            self.nsamples += 1
            self.out.write("S\t%d\t%s\n" % (self.idx, str(msg).replace("\n", " ").replace("\t", " ")[:1000]))

    def seen(self, *objs):
        h = hashlib.blake2b(digest_size=8)
        for o in objs:
            h.update(o.tobytes() if isinstance(o, (np.ndarray, np.generic)) else repr(o).encode())
        self.hashes.append(struct.unpack("<Q", h.digest())[0])
        self.nontrivial += 1


def main(one, fini=None):
    ap = argparse.ArgumentParser()
    for k in ("seed", "start", "count"):
        ap.add_argument("--" + k, type=int, default=1)
    ap.add_argument("--progress")
    ap.add_argument("--out")
    ap.add_argument("--hashes")
    ap.add_argument("--thorough", action="store_true")
    a, _ = ap.parse_known_args()
    cx = Ctx()
    cx.out = open(a.out, "w") if a.out else os.fdopen(os.dup(1), "w")
    cx.thorough = a.thorough
    pf = open(a.progress, "w") if a.progress else None
    for k in range(a.count):
        cx.idx = a.start + k
        cx.fails_case = 0
        if pf:
            os.pwrite(pf.fileno(), b"%-20d\n" % cx.idx, 0)
        r = random.Random((a.seed * 1000003 + 17) * 1000000007 + cx.idx)
        cx.evals += 1
        one(cx, r)
        if cx.fails > 20:
            break
    if fini:
        fini(cx)
    if a.hashes:
        with open(a.hashes, "wb") as f:
            f.write(struct.pack("<%dQ" % len(cx.hashes), *cx.hashes))
    cx.out.write("E\t%d\t%d\t%d\t%d" % (cx.evals, cx.nontrivial, cx.skipped, cx.fails) + "".join("\t%s=%.17g" % (k, float(v)) for k, v in cx.cnt.items()) + "\nDONE\n")
    cx.out.flush()
    sys.stdout.flush()
    os._exit(0)
