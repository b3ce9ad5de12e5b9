// C07: each iteration is the documented predictor-corrector step, compared step by step with an independent dense reference
#include "refstep.hpp"
static void one(Ctx& cx, Rng& r) {
  int sc = r.b(.12) ? 2 : (int)r.i(0, 1);
  Prob q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); bool huge = q.n + q.m + q.p > 120; if (huge && (q.n + q.m + q.p > 420 || r.b(.75))) { cx.count("too_large_for_dense_reference"); return; }
  if (r.b(.15)) rescale(r, q, 2);
  bool slow = !huge && r.b(.3);   // data in large units: many well-conditioned steps before convergence
  if (slow && r.b(.7)) rescale(r, q, r.u(4, 10));
  else if (slow) { double t = std::pow(10.0, r.u(1, 6)); bool all = r.b(.5); for (auto& v : q.c) v *= t; for (auto& v : q.b) v *= t; if (all) for (auto& v : q.h) v *= t; q.known = q.strict = false; }
  bool longrun = !huge && !slow && r.b(.05);   // a target so high that the method still moves in well-conditioned steps after dozens of iterations
  if (longrun) { double t = r.u(0, 1); if (t < .45) q = gen_bad(r, r.b(.7) ? BAD_FARKAS : BAD_UNB, (int)r.i(0, 1)).q; else if (t < .65) rescale(r, q, r.u(4, 10)); }
  Cfg c = rand_cfg(r, q); uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p); const vl* pp = c.perm ? &perm : nullptr;
  if (r.b(.3) && c.fmt < FMT_ROW) { c.sigma_d = r.b(.55) ? r.u(0.001, 0.5) : r.b(.7) ? r.u(.5, 1) : r.b(.6) ? r.u(1, 2.5) : -r.u(0, 1); if (c.sigma_d > .5) cx.count("sigma_d_large"); }
  c.sigma = r.b(.6) ? 100 : r.b(.3) ? c.sigma_d : r.u(0, 2);
  if (slow && r.b(.8)) { c.sigma_d = 0; c.sigma = 100; }
  if (longrun) { c.sigma_d = r.u(.75, .99); c.sigma = r.b(.5) ? 100 : c.sigma_d; }
  DESC(q, c);
  vl ord; { Inst in; if (pp) in.permv = *pp; Rng e(enc); in.load(q, c, e); in.setup(); ord.assign(in.q->kkt->P, in.q->kkt->P + q.n + q.m + q.p); }
  ld sg = c.sigma; int K = huge ? 3 : slow ? (int)r.i(10, 40) : (int)r.i(3, 14); bool any = false, either = false;
  int k0 = longrun ? (int)r.i(15, r.b(.3) ? 210 : 70) : 0; if (longrun) { K = k0 + (int)r.i(2, 6); either = true; }
  Snap s = iterate_k(q, c, enc, k0, pp);
  for (int k = k0; k < K; k++) {
    Snap t = iterate_k(q, c, enc, k + 1, pp);
    if (!allfinite(s.x) || !allfinite(s.z) || !allfinite(s.s)) break;
    Kkt kk = kkt_eval(q, s); if (!(kk.mins > 0 && kk.minz > 0) || kk.mu < 1e-10) break;
    cx.count("steps");
    // verdict for one branch of the method: 1 agrees, 0 differs, -1 cannot be judged
    char why[700]; ld tolused = 1; auto judge = [&](ld sgin, StepT<ld>& E, bool& sure) -> int {
      sure = false; E = step_from<ld>(q, s, sgin, c.sigma_d, true, ord); if (!E.ok) { cx.count("singular_reference"); return -1; }
      StepT<ld> R = step_from<ld>(q, s, sgin, c.sigma_d, false, ord); StepT<double> D = step_from<double>(q, s, sgin, c.sigma_d, false, ord), D2 = step_from<double>(q, s, sgin, c.sigma_d, false, ord, 7 + k);
      if (R.wild || D.wild || E.wild || D2.wild || ratio_ambiguous(s, E, R, D) || ratio_ambiguous(s, E, R, D2)) { cx.count("decided_by_rounding"); return -1; }
      // does the next iteration start in a branch that rounding cannot change?
      if (E.centering) sure = true; else { bool at = E.sigma == (ld)c.sigma_d; ld t3 = E.rho < 1 ? E.rho * E.rho * E.rho : 1, df = at ? fabsl(t3 - c.sigma_d) : fabsl(E.sigma - c.sigma_d); sure = !(df < 1e-6L + 1e-3L * c.sigma_d) || (c.sigma_d == 0 && E.rho > 1e-13L + 1000 * (fabsl(E.rho - D.rho) + fabsl(E.rho - D2.rho) + fabsl(E.rho - R.rho))); }
      struct { const char* nm; ld er, rd, sc, real; } B[4];
      auto blk = [&](int i, const char* nm, const vld& e, const vld& g, const vd& d, const vd& d2, const vd& old, const vd& nw) { B[i].nm = nm; ld sc_ = std::max<ld>(std::max(vmaxabs(old), vmaxabs(e)), 1e-3L); B[i].er = vdist(e, g) / sc_; B[i].rd = std::max(vdist(g, d), vdist(g, d2)) / sc_; B[i].sc = sc_; B[i].real = vdist(nw, e) / sc_; };
      blk(0, "x", E.x, R.x, D.x, D2.x, s.x, t.x); blk(1, "y", E.y, R.y, D.y, D2.y, s.y, t.y); blk(2, "z", E.z, R.z, D.z, D2.z, s.z, t.z); blk(3, "s", E.s, R.s, D.s, D2.s, s.s, t.s);
      ld spread = 0, rd = 0; for (auto& b : B) { spread = std::max(spread, b.er); rd = std::max(rd, b.rd); }
      ld tol = 10 * spread + 1000 * rd + 1e-7L + 1000 * EPS * std::max(R.amp, D.amp); tolused = tol;
      ld tola = 10 * std::max(fabsl(E.ap - R.ap), fabsl(E.ad - R.ad)) + 1000 * std::max({fabsl(R.ap - D.ap), fabsl(R.ad - D.ad), fabsl(R.ap - D2.ap), fabsl(R.ad - D2.ad)}) + 1e-6L;
      if (!(tol < 1e-4L) || !(tola < 1e-3L)) { cx.count("steps_too_ill_conditioned"); return -1; }
      B[3].rd += 0.2L * EPS * E.msmax / B[3].sc; tol = std::max(tol, 1000 * B[3].rd + 1e-7L);
      for (auto& b : B) { if (!either) cx.cmax("max_difference_over_tolerance", (double)(b.real / tol));
        if (!(b.real <= tol)) { snprintf(why, sizeof why, "iterate %d->%d: %s differs from the documented step by %.3Le (tolerance %.1Le, reference spread %.1Le %.1Le); step sizes real %.9f/%.9f reference %.9Lf/%.9Lf sigma=%.6Lg rho=%.6Lg", k, k + 1, b.nm, b.real, tol, spread, rd, t.ap, t.ad, E.ap, E.ad, E.sigma, E.rho); return 0; } }
      if (!(fabsl(E.ap - t.ap) <= tola) || !(fabsl(E.ad - t.ad) <= tola)) { snprintf(why, sizeof why, "iterate %d->%d step sizes real %.9f/%.9f reference %.9Lf/%.9Lf", k, k + 1, t.ap, t.ad, E.ap, E.ad); return 0; }
      return 1; };
    StepT<ld> E; bool sure; int v;
    if (!either) { v = judge(sg, E, sure); if (v == 0) { cx.fail(E.centering ? "centering-step-differs" : "step-differs", "%s: %s", why, desc); return; } if (!sure || v < 0) either = true; if (E.ok) sg = E.sigma; }
    else { // rounding decided the branch: the step has to be that of one of the two
      StepT<ld> C; bool s2; v = judge(1e9L + c.sigma_d, E, sure); int vc = judge(c.sigma_d, C, s2);
      if (v == 0 && vc == 0) { cx.fail("step-differs", "neither branch: %s: %s", why, desc); return; }
      if (v >= 0 && vc >= 0) { cx.count("branch_recovered"); if (v == 1 && vc == 0 && sure) { either = false; sg = E.sigma; } else if (vc == 1 && v == 0) { either = false; sg = c.sigma_d; E = C; } }
      if (v == 1 && vc == 1) v = 1; else if (v == -1 || vc == -1) v = -1; else v = 1; }
    if (v == 1) { any = true; cx.count("steps_compared"); cx.count(E.centering ? "centering_steps" : "predictor_corrector_steps");
      if (E.ap < 1 && fabsl(E.ap - 0.99L) > 1e-9L) cx.count("boundary_limited_primal"); if (E.ad < 1 && fabsl(E.ad - 0.99L) > 1e-9L) cx.count("boundary_limited_dual");
      if (fabsl(E.ap - 0.99L) < 1e-12L || fabsl(E.ad - 0.99L) < 1e-12L) cx.count("no_blocking_constraint");
      if (!E.centering && E.rho > 1) cx.count("rho_above_one"); if (!E.centering && E.sigma == (ld)c.sigma_d && c.sigma_d > 0) cx.count("sigma_floor_hit");
      if (tolused < 1e-6L) { cx.count("compared_tightly"); if (huge) cx.count("huge_tight"); if (k >= 40 && fabsl(E.ap - E.ad) > 1e-6L) cx.count("different_step_sizes_after_40_iterations"); if (k >= 40) cx.count(k >= 100 ? "tight_after_100_iterations" : "tight_after_40_iterations"); if (!E.centering) { if (k >= 10) cx.count("late_tight_predictor"); if (k >= 14) cx.count("very_late_tight_predictor"); } } }
    else cx.skipped++;
    s = t;
  }
  if (any) cx.seen(q.hash() ^ (uint64_t)c.fmt);
  cx.sample("%s", desc);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
