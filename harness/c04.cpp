// C04: no false optimum on problems without one
#include "gen2.hpp"
static void one(Ctx& cx, Rng& r) {
  int kind = (int)r.i(0, NBAD - 1);
  Bad B = gen_bad(r, kind, r.b(.25) ? 2 : (int)r.i(0, 1));
  Cfg c = rand_cfg(r, B.q); c.maxit = r.b(.6) ? 100 : r.i(1, 150);
  if (r.b(.3)) { c.reltol = c.abstol = 1e-6; }
  double tol = c.reltol; if (!bad_certified(B, tol)) { cx.skipped++; cx.count("certificate_too_weak_for_tolerance"); return; }
  Prob& q = B.q; DESC(q, c);
  Inst in; Rng e(r.next()); in.load(q, c, e); in.setup(); long f = in.solve(); Snap s = in.snap(f); in.cleanup();
  cx.count(BADN[kind]); cx.seen(q.hash());
  if (f == QP_OPTIMAL && kind < BAD_NAN) {
    // the certificate refutes tolerance-accurate residuals in exact arithmetic: a run that drifted so far out that rounding
    // in one residual evaluation exceeds the margin cannot be judged
    Kkt k = kkt_eval(q, s); ld lim = (ld)tol / sqrtl(3.0L);
    if (k.finite && (k.ex > 0.01L * lim || k.ey > 0.01L * lim || k.ez > 0.01L * lim)) { cx.skipped++; cx.count("drifted_beyond_double_precision"); return; }
  }
  if (f == QP_OPTIMAL) { cx.fail((std::string("false-optimum-") + BADN[kind]).c_str(), "OPTIMAL on a problem with an exact certificate that it has none (margin %g): it=%ld %s", B.delta, s.it, desc); return; }
  if (f != QP_MAXIT && f != QP_KKTFAIL && f != QP_FATAL) cx.fail("flag-undefined", "flag %ld: %s", f, desc);
  if (s.it < 0 || s.it > c.maxit) cx.fail("iteration-limit", "it=%ld: %s", s.it, desc);
  if (kind >= BAD_NAN) cx.count(allfinite(s.x) ? "x_finite_after" : "x_nonfinite_after");
  cx.sample("%s flag=%ld it=%ld", desc, f, s.it);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
