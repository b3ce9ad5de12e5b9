// C06: every iterate stays strictly interior
#include "gen2.hpp"
static void one(Ctx& cx, Rng& r) {
  int sc = r.b(.15) ? 2 : (int)r.i(0, 1); if (r.b(.01)) sc = 3;
  Prob q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  Cfg c = rand_cfg(r, q); uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p); const vl* pp = c.perm ? &perm : nullptr;
  c.reltol = c.abstol = std::pow(10.0, r.u(-8, -5));
  if (c.sigma_d > 0) c.abstol = 1e-5;
  DESC(q, c);
  Snap full = run_once(q, c, enc, pp); long K = full.it; if (K > 40) K = 40;
  Snap prev; cx.seen(q.hash() ^ (uint64_t)c.fmt);
  for (long k = 0; k <= K; k++) {
    Cfg d = c; d.maxit = k; Snap s = run_once(q, d, enc, pp);
    if (s.it != k) { cx.fail("prefix-count", "limit %ld stopped at %ld although the full run goes to %ld: %s", k, s.it, full.it, desc); return; }
    cx.count("iterates");
    if (!allfinite(s.x) || !allfinite(s.y) || !allfinite(s.z) || !allfinite(s.s)) { cx.fail("nonfinite", "iterate %ld has a non-finite variable: %s", k, desc); return; }
    for (double v : s.s) if (!(v > 0)) { cx.fail("s-not-positive", "iterate %ld has slack %.17g: %s", k, v, desc); return; }
    for (double v : s.z) if (!(v > 0)) { cx.fail("z-not-positive", "iterate %ld has multiplier %.17g: %s", k, v, desc); return; }
    if (k) {
      if (!(s.ap > 0 && s.ap <= 1)) cx.fail("alpha-p-range", "iterate %ld primal step %.17g: %s", k, s.ap, desc);
      if (!(s.ad > 0 && s.ad <= 1)) cx.fail("alpha-d-range", "iterate %ld dual step %.17g: %s", k, s.ad, desc);
      double ms = 1e300, mz = 1e300;
      for (int i = 0; i < q.m; i++) { ms = std::min(ms, s.s[i] / prev.s[i]); mz = std::min(mz, s.z[i] / prev.z[i]); }
      if (ms < 0.01 * (1 - 1e-8)) cx.fail("s-too-close", "iterate %ld shrinks a slack by %.17g: %s", k, ms, desc);
      if (mz < 0.01 * (1 - 1e-8)) cx.fail("z-too-close", "iterate %ld shrinks a multiplier by %.17g: %s", k, mz, desc);
      if (ms < 0.0101) cx.count("primal_boundary_limited"); if (mz < 0.0101) cx.count("dual_boundary_limited");
      if (s.ap == 1) cx.count("full_primal_step"); if (s.ad == 1) cx.count("full_dual_step"); if (s.ap != s.ad) cx.count("different_primal_dual_steps");
    }
    if (k == full.it && !(biteq(s.x, full.x) && biteq(s.y, full.y) && biteq(s.z, full.z) && biteq(s.s, full.s))) cx.fail("prefix-differs", "truncated run to %ld does not hold the full run's iterate: %s", k, desc);
    prev = s;
  }
  // stopped at an arbitrary iterate by tolerance rather than by limit: same iterate
  cx.sample("%s iterations=%ld flag=%ld", desc, full.it, full.flag);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
