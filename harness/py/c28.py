"""C28: solves in several threads, and solves whose input arrays another thread overwrites meanwhile, return what the C library computes for the values at the call; other threads run during a solve"""
import sys, threading, time
import numpy as np
import qpcommon as q

T = 6


class Mutator(threading.Thread):
    """runs whenever it gets the interpreter lock; a while after being armed it ruins every array it was given"""

    def __init__(self):
        super().__init__(daemon=True)
        self.armed = None; self.hits = 0; self.times = []; self.ready = threading.Event(); self.park = threading.Event()

    def run(self):
        while True:
            self.park.wait()
            self.ready.set()
            a = self.armed
            self.times.append(time.perf_counter())
            if a is not None:
                # numpy gives up the lock while it copies the arguments; by the time this sleep ends the copies are made and the solve is under way
                time.sleep(a[2])
                if self.armed is a:
                    for v in a[0]: v.fill(a[1])
                    self.hits += 1
                    self.armed = None
            time.sleep(.0002)


def wake():
    """the mutator is running, and from here on only runs when the interpreter lock is given up"""
    if not started[0]: mut.start(); started[0] = True
    mut.ready.clear(); mut.armed = None; mut.park.set(); mut.ready.wait()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1000)
    for _ in range(3): time.sleep(.0004)        # its next waits for the lock use the new interval
    return old


def park(old):
    mut.armed = None; mut.park.clear()
    sys.setswitchinterval(old)


mut = Mutator()
started = [False]


def hard_problem(r):
    """a solve of many iterations, so that it lasts milliseconds"""
    n = r.randint(15, 35); m = r.randint(n, 2 * n)
    rs = np.random.RandomState(r.getrandbits(32))
    L = rs.randn(n, n); P = L @ L.T + .1 * np.eye(n); G = rs.randn(m, n); h = rs.rand(m) + .5; c = rs.randn(n)
    A, b = (rs.randn(n // 3, n), None) if r.random() < .5 else (None, None)
    if A is not None: b = A @ (rs.randn(n) * .01)
    return [c, h, P, G, A, b], {"MAXITER": 199, "ABSTOL": 1e-300, "RELTOL": 1e-300, "OUTPUT": 2}


class Ser:
    """the undisturbed result"""

    def __init__(self, prob, opts):
        res = q.qpSWIFT.run(*prob, opts) if prob[4] is not None else q.qpSWIFT.run(*prob[:4], opts=opts)
        bi, ai = res["basicInfo"], res["advInfo"]
        self.flag, self.it, self.x, self.z, self.s, self.y, self.fval, self.t = bi["ExitFlag"], bi["Iterations"], res["sol"], ai["z"], ai["s"], ai.get("y"), ai["fval"], bi["Solve_Time"]


def differs(res, ref, eq):
    if not isinstance(res, dict): return repr(res)
    bi, ai = res.get("basicInfo"), res.get("advInfo")
    got = [("sol", res["sol"], ref.x)]
    if ai: got += [("z", ai["z"], ref.z), ("s", ai["s"], ref.s)] + ([("y", ai["y"], ref.y)] if eq else [])
    if bi and (bi["ExitFlag"], bi["Iterations"]) != (ref.flag, ref.it): return "flag %r after %r iterations instead of %r after %r" % (bi["ExitFlag"], bi["Iterations"], ref.flag, ref.it)
    for nm, a, w in got:
        if not q.close(a, w, 1e-9): return "%s = %r instead of %r" % (nm, a[:5], w[:5])
    if ai and not q.close(ai["fval"], ref.fval, 1e-9): return "fval %r instead of %r" % (ai["fval"], ref.fval)
    return None


def check(cx, res, ref, eq, why, desc):
    w = differs(res, ref, eq)
    if w: cx.fail(why, w + ": " + desc)
    else: cx.count("results_compared")


def mutation(cx, r):
    for _ in range(20):
        prob, opts = hard_problem(r)
        if r.random() < .2: prob = [None if a is None else a.astype("f4") for a in prob]
        if r.random() < .3: prob = [None if a is None else np.asfortranarray(a) for a in prob]
        eq = prob[4] is not None
        ref = Ser(prob, opts)
        if ref.t > .0015: break
    else: return
    good = [None if a is None else a.copy() for a in prob]
    args = prob + [opts] if eq else prob[:4]
    kw = {} if eq else {"opts": opts}
    fill = r.choice([np.nan, 0., 1e9, -1.])
    arrs = [a for a in prob if a is not None]
    if r.random() < .5: arrs = r.sample(arrs, 1)
    delay = r.uniform(.0003, min(.001, ref.t * .6))
    old = wake()
    try:
        bad = reps = hit = 0; last = None
        while reps < 3 or (bad and reps < 12):
            for a, g in zip(prob, good):
                if a is not None: a[...] = g
            time.sleep(.0005)
            h0 = mut.hits
            mut.armed = (arrs, fill, delay)
            res = q.qpSWIFT.run(*args, **kw)
            mut.armed = None
            reps += 1
            if mut.hits == h0: continue
            hit += 1
            w = differs(res, ref, eq)
            if w: bad += 1; last = w
            else: cx.count("results_compared")
            res = None
        cx.count("overwritten_during_solve", hit); cx.count("mutation_solves", reps)
        if bad >= 4 and bad > hit / 2: cx.fail("mutation", "%s in %d of %d solves with the inputs overwritten with %r in another thread during the solve, n=%d m=%d %s" % (last, bad, reps, fill, len(good[0]), len(good[1]), opts))
        elif bad: cx.count("unrepeated_differences", bad)
    finally:
        park(old)
    cx.seen(*[g for g in good if g is not None])


def progress(cx, r):
    prob, opts = hard_problem(r)
    eq = prob[4] is not None
    args = prob + [opts] if eq else prob[:4]
    kw = {} if eq else {"opts": opts}
    best = 2.; n = 0; spent = 0.
    old = wake()
    try:
        for rep in range(60):
            time.sleep(.0005)
            mut.times = []
            t0 = time.perf_counter()
            res = q.qpSWIFT.run(*args, **kw)
            t1 = time.perf_counter()
            if t1 - t0 < .004: continue
            ts = [t0] + [t for t in mut.times if t0 < t < t1] + [t1]
            gap = max(b - a for a, b in zip(ts, ts[1:])) / (t1 - t0)      # longest part of the call during which the other thread never ran
            best = min(best, gap); n += 1; spent += t1 - t0
            res = None
            if n >= 5 and best < .7: break
            if spent > 3.0: break
    finally:
        park(old)
    cx.count("progress_solves", n); cx.count("solves_with_progress", n if best < .9 else 0)
    if n >= 20 and best > .95: cx.fail("no-progress", "another thread did not run for at least %.1f%% of the time of each of %d solves" % (100 * best, n))
    if n: cx.seen(*[g for g in prob if g is not None])


def concurrent(cx, r):
    shared = r.random() < .4
    jobs = []
    k = r.choice([1, 3, 6]) if shared else T * 2
    for _ in range(k):
        prob = q.problem(r, nmax=r.choice([4, 10, 25]))
        opts = {"OUTPUT": 2}
        if r.random() < .3: opts["MAXITER"] = r.choice([1, 3, 10])
        if r.random() < .3: opts["SIGMA"] = r.choice([1., 50.])
        if r.random() < .3: opts["ABSTOL"] = opts["RELTOL"] = r.choice([1e-3, 1e-8])
        jobs.append((prob, opts, Ser(prob, opts)))
    out = [[] for _ in range(T)]; gate = threading.Barrier(T)

    def work(t):
        gate.wait()
        for rep in range(8):
            j = jobs[(t * 5 + rep) % len(jobs)]
            prob, opts, _ = j
            try:
                res = q.qpSWIFT.run(*prob, opts) if prob[4] is not None else q.qpSWIFT.run(*prob[:4], opts=opts)
            except Exception as e:      # noqa: BLE001
                res = e
            out[t].append((j, res))
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 5e-3]))
    try:
        th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
        for t in th: t.start()
        for t in th: t.join()
    finally:
        sys.setswitchinterval(old)
    for t in range(T):
        if len(out[t]) != 8: cx.fail("thread-died", "a thread finished only %d of 8 solves" % len(out[t]))
        for (prob, opts, ref), res in out[t]:
            check(cx, res, ref, prob[4] is not None, "concurrent", "%d threads %s n=%d m=%d %s" % (T, "sharing arrays" if shared else "", len(prob[0]), len(prob[1]), opts))
            cx.count("concurrent_solves")
    cx.seen(*[a for j in jobs for a in j[0] if a is not None])


def one(cx, r):
    k = cx.idx % 10
    if k == 0: progress(cx, r)
    elif k < 5: mutation(cx, r)
    else: concurrent(cx, r)
    cx.sample("case %d: another thread overwrote the inputs of %d solves so far" % (cx.idx, mut.hits))


q.main(one)
