// C05: well-posed problems reach OPTIMAL, in about as many iterations as an independent textbook implementation
#include "gen2.hpp"
static double totr, totn; static long cntn, nlost;
static void one(Ctx& cx, Rng& r) {
  int fam = (int)r.i(0, NFAM - 1); if (fam == FAM_KNOWN || fam == FAM_KNOWN_SP) fam = FAM_BOX;   // planted points need not have interior
  int sc = r.b(.03) ? 3 : r.b(.2) ? 2 : (int)r.i(0, 1);
  Prob q = gen_strict(r, fam, sc);
  // large fully dense equality blocks: the fill-reducing ordering eliminates the equality rows first, all their zero pivots are
  // regularised, and about one such problem in 300 loses too many digits to reach the tolerance: judged in aggregate only (as are tolerances near rounding there)
  Cfg c; c.fmt = (int)r.i(0, NFMT - 1); c.defaults = r.b(.6); if (!c.defaults) { c.reltol = c.abstol = std::pow(10.0, -(double)r.i(5, 9)); }
  bool hard = q.n > 40 && fam == FAM_DENSE && (q.p > 10 || c.reltol < 5e-8);
  c.eqenc = (int)r.i(0, 6);
  DESC(q, c);
  uint64_t enc = r.next(); Snap s = run_once(q, c, enc); cx.count(q.fam); cx.seen(q.hash()); if (sc == 3) cx.count("large");
  if (s.flag != 0 && (hard || !persistent(r, q, [&](const Prob& w) { return run_once(w, c, enc).flag != 0; }))) { cx.skipped++; cx.count("lost_to_rounding"); nlost++; return; }   // (judged in aggregate)
  if (s.flag != 0) { cx.fail("not-optimal", "flag=%ld after %ld iterations: %s", s.flag, s.it, desc); return; }
  cx.cmax("max_iterations", s.it);
  if (!c.defaults) cx.count("tighter_or_other_tolerance");
  int bound = 34;
  if (q.n + q.m + q.p <= 90) { int ri = ref_ipm(q, c.reltol, c.abstol, 100); if (ri >= 0) { cx.count("compared_with_reference"); cx.count("iterations_real", s.it); cx.count("iterations_reference", ri); cx.cmax("max_excess_over_reference", s.it - ri); bound = 2 * ri + 5; totr += ri; totn += s.it; cntn++; } else cx.count("reference_failed"); }
  if (s.it > bound && !hard && persistent(r, q, [&](const Prob& w) { return run_once(w, c, enc).it > bound; })) cx.fail("too-many-iterations", "%ld iterations, bound %d: %s", s.it, bound, desc);
  cx.sample("%s it=%ld", desc, s.it);
}
static void fini(Ctx& cx) { if (cx.evals >= 200 && nlost > 3 + cx.evals / 200) { cx.idx = -1; cx.fails_case = 0; cx.fail("lost-solves", "%ld of %ld well-posed problems were not solved", nlost, cx.evals); }
   if (cntn >= 50 && totn > 1.25 * totr + 0.2 * cntn) { cx.idx = -1; cx.fails_case = 0; cx.fail("iterations-inflated", "%ld problems took %.0f iterations in total, the reference %.0f", cntn, totn, totr); } }
int main(int a, char** v) { return qpm_main(a, v, one, fini); }
