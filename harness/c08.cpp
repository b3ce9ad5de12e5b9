// C08: the documented starting point
#include "refstep.hpp"
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.1) ? 2 : (int)r.i(0, 1);
  Prob q; if (k0 < 3) q = gen_wild(r, sc); else if (k0 == 3) q = gen_bad(r, (int)r.i(0, 2), sc).q; else { q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); if (r.b(.3)) rescale(r, q, 4); }
  // move the right-hand side so that every sign pattern of h-Gx occurs
  if (r.b(.5)) { double sh = r.u(-6, 6); for (auto& v : q.h) v += sh; q.known = q.strict = false; }
  Cfg c = rand_cfg(r, q, false); DESC(q, c);
  Inst in; Rng e(r.next()); in.load(q, c, e); in.setup(); Snap s = in.snap(); vl ord(in.q->kkt->P, in.q->kkt->P + q.n + q.m + q.p); in.cleanup();
  cx.seen(q.hash()); int m = q.m, n = q.n;
  if (!allfinite(s.x) || !allfinite(s.z) || !allfinite(s.s)) { cx.fail("nonfinite-start", "non-finite start: %s", desc); return; }
  // s and z are +-(h-Gx), each shifted uniformly by the documented amount
  vld v(m); ld tolv = 0, mn = 1e4000L, mx = -1e4000L, big = 0;
  for (int i = 0; i < m; i++) { ld t = q.h[i], a = fabsl((ld)q.h[i]); for (int j = 0; j < n; j++) { ld w = (ld)q.g_(i, j) * s.x[j]; t -= w; a += fabsl(w); } v[i] = t; tolv = std::max(tolv, EPS * (2 * n + 8) * a); mn = std::min(mn, t); mx = std::max(mx, t); big = std::max(big, fabsl(t)); }
  tolv = 4 * tolv + 8 * EPS * (1 + big);
  // beyond 1e12 or so a unit shift is no longer resolved by double arithmetic
  if (tolv > 0.01L) { cx.skipped++; cx.count("shift_below_rounding"); return; }
  for (double v : s.s) if (!(v > 0)) { cx.fail("s-start", "starting slack %.17g: %s", v, desc); return; }
  for (double v : s.z) if (!(v > 0)) { cx.fail("z-start", "starting multiplier %.17g: %s", v, desc); return; }
  ld shs, shz; bool as = false, az = false;
  if (fabsl(mn) <= tolv) { as = true; shs = 0; } else shs = mn > 0 ? 0 : 1 - mn;
  if (fabsl(mx) <= tolv) { az = true; shz = 0; } else shz = mx < 0 ? 0 : 1 + mx;
  cx.count(mn > 0 ? "s_unshifted" : "s_shifted"); cx.count(mx < 0 ? "z_unshifted" : "z_shifted");
  if (as || az) cx.count("sign_too_close_to_call");
  for (int i = 0; i < m; i++) {
    if (!as && fabsl(s.s[i] - (v[i] + shs)) > tolv) { cx.fail("s-shift", "s_%d=%.17g but h-Gx=%.17Lg with shift %.17Lg: %s", i, s.s[i], v[i], shs, desc); break; }
    if (!az && fabsl(s.z[i] - (shz - v[i])) > tolv) { cx.fail("z-shift", "z_%d=%.17g but -(h-Gx)=%.17Lg with shift %.17Lg: %s", i, s.z[i], -v[i], shz, desc); break; }
  }
  // x and y: the least-squares problem, against a dense long-double solve, within the accuracy its conditioning allows
  if (n + m + q.p <= 140) {
    StartT<ld> E = start_from<ld>(q, true, ord); if (!E.ok) { cx.count("singular_reference"); return; }
    StartT<ld> R = start_from<ld>(q, false, ord); StartT<double> D = start_from<double>(q, false, ord);
    if (R.wild || D.wild) { cx.skipped++; cx.count("cancelled_pivot"); return; }
    ld sx = std::max<ld>(1e-3L, vmaxabs(E.x)), sy = std::max<ld>(sx, vmaxabs(E.y)), tx = (10 * vdist(E.x, R.x) + 1000 * vdist(R.x, D.x)) / sx + 1e-8L, ty = (10 * vdist(E.y, R.y) + 1000 * vdist(R.y, D.y)) / sy + 1e-8L;
    if (tx < 1e-4L && ty < 1e-4L) {
      ld dx = vdist(s.x, E.x) / sx, dy = q.p ? vdist(s.y, E.y) / sy : 0; cx.count("start_compared"); if (q.p) cx.count("start_compared_with_equalities"); cx.cmax("max_difference_over_tolerance", (double)std::max(dx / tx, dy / ty));
      if (!(dx <= tx)) cx.fail("x-start", "starting x differs from the least-squares solution by %.3Le (tolerance %.1Le): %s", dx, tx, desc);
      if (!(dy <= ty)) cx.fail("y-start", "starting y differs from the least-squares solution by %.3Le (tolerance %.1Le): %s", dy, ty, desc);
    } else { cx.skipped++; cx.count("start_ill_conditioned"); }
  }
  cx.sample("%s min(h-Gx)=%.3Lg max=%.3Lg", desc, mn, mx);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
