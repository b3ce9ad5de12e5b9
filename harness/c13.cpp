// C13: the caller's arrays are read-only to the library, read only within bounds, and never freed
#include "guard.hpp"
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.1) ? 2 : (int)r.i(0, 1);
  Prob q; if (k0 < 4) q = gen_wild(r, sc); else if (k0 == 4) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  Cfg c = rand_cfg(r, q); c.perm = r.b(.4); c.defaults = r.b(.3); if (r.b(.2)) c.maxit = r.i(0, 4); c.eqenc = (int)r.i(0, 6); bool release = c.fmt >= FMT_ROW && r.b(.7); int mode = (int)r.i(0, 5); DESC(q, c);
  cx.seen(q.hash()); cx.count(FMTN[c.fmt]);
  uint64_t enc = r.next(); vl perm; if (c.perm) { perm = rand_perm(r, q.n + q.m + q.p); cx.count("with_permutation"); }
  Snap want; { Inst in; in.permv = perm; Rng e(enc); in.load(q, c, e); in.setup(); long f = in.solve(); want = in.snap(f); in.cleanup(); }
  GInst in; in.permv = perm; Rng e(enc); in.load(q, c, e);
  for (int rep = 0; rep < 2; rep++) {
    in.setup();
    if (release && rep == 1) { in.g[0].drop(); in.g[1].drop(); in.g[2].drop(); cx.count("dense_matrices_released_after_setup"); }
    long f = -9; if (mode || rep) f = in.solve(); Snap s; if (mode || rep) s = in.snap(f); in.cleanup();
    for (int k = 0; k < 13; k++) if (in.g[k].base && !(q.p == 0 && (k == 1 || k == 5 || k == 6 || k == 10))) { cx.count("arrays_compared"); if (!in.g[k].same()) cx.fail("array-modified", "caller's array %d changed: %s", k, desc); }
    // a different array alignment cannot matter, and neither can reusing the arrays
    if (f != -9) { if (c.fmt <= FMT_SORTED || c.fmt >= FMT_ROW) { cx.count(rep ? "reused_and_compared" : "compared"); if (!snapeq(s, want)) cx.fail("result-differs", "result with %s arrays differs from the one with ordinary arrays: flag %ld/%ld it %ld/%ld: %s", rep ? "reused read-only" : "read-only", s.flag, want.flag, s.it, want.it, desc); } }
    else cx.count("cleanup_without_solve");
  }
  cx.sample("%s flag=%ld", desc, want.flag);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
