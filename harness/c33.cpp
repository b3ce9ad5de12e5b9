// C33: one instance solved several times with changed options. Every call must tell the truth about the point it leaves.
#include "gen2.hpp"
static long nagain, nnot;
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.02) ? 2 : (int)r.i(0, 1); bool strict = k0 >= 3;
  Prob q; if (k0 == 0) q = gen_wild(r, sc); else if (k0 < 3) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  Cfg c = rand_cfg(r, q); c.sigma = 100; if (c.fmt < FMT_ROW) c.sigma_d = r.b(.8) ? 0 : c.sigma_d; c.maxit = r.b(.5) ? 100 : r.i(0, 12); cx.seen(q.hash());
  Inst in; Rng e(r.next()); in.load(q, c, e); in.setup(); Snap prev = in.snap(); long pf = -9; double ts = prev.ts; Cfg pc = c; bool pok = false; int calls = (int)r.i(2, 5); std::string hist;
  for (int k = 0; k < calls; k++) {
    bool same = false;
    if (k) { int w = (int)r.i(0, 9); pc = c; same = w == 0;
      if (w == 0) { cx.count("same_options_again"); }
      else if (w == 1) { c.reltol = c.abstol = 0; c.maxit = r.i(1, 120); }                              // out of reach
      else if (w < 5) { c.reltol = std::pow(10.0, r.u(-12, 0)); c.abstol = std::pow(10.0, r.u(-12, 0)); c.maxit = r.b(.7) ? 100 : r.i(0, 12); }
      else if (w < 7) { c.reltol *= std::pow(10.0, r.u(-3, 0)); c.abstol *= std::pow(10.0, r.u(-3, 0)); c.maxit = 100; }   // tighten
      else if (w == 7) { c.reltol = 1e-6; c.abstol = 1e-6; c.maxit = 100; }
      else if (w == 8) { Kkt kk = kkt_eval(q, prev); if (kk.finite && kk.mu > 1e-200L && kk.mu < 1e100L && std::max(kk.rx, std::max(kk.ry, kk.rz)) < 1e100L) { c.reltol = (double)(std::max(kk.rx, std::max(kk.ry, kk.rz)) * sqrtl(3.0L)) * r.u(.5, 1.5); c.abstol = (double)kk.mu * r.u(.5, 1.5); } c.maxit = r.i(0, 4); }
      else { c.maxit = r.i(0, 30); }
      in.q->options->reltol = c.reltol; in.q->options->abstol = c.abstol; in.q->options->maxit = c.maxit; in.q->options->verbose = 0; }
    DESC(q, c); char hb[96]; long f = in.solve(); Snap s = in.snap(f); snprintf(hb, sizeof hb, " [%d: reltol=%.3g abstol=%.3g maxit=%ld -> %ld it=%ld]", k, c.reltol, c.abstol, (long)c.maxit, f, s.it); hist += hb; long did = s.it - prev.it;
    if (f != in.q->stats->Flag) cx.fail("flag-differs", "returned %ld, stats hold %ld: %s%s", f, (long)in.q->stats->Flag, desc, hist.c_str());
    if (!bits(s.ts, ts)) cx.fail("tsetup-changed", "setup time changed by solving: %s%s", desc, hist.c_str());
    if (k) { cx.count("repeated_solves"); if (pf == 0 && f != 0) cx.count("optimum_then_limit"); if (pf == 2 && f == 0) cx.count("limit_then_optimum"); if (pf == 0 && f == 0 && did > 0) cx.count("optimum_refined"); }
    if (f != QP_OPTIMAL && f != QP_MAXIT) { cx.fail("flag-value", "call %d returned %ld: %s%s", k, f, desc, hist.c_str()); return; }
    Kkt kk = kkt_eval(q, s); int mt = kk.finite ? meets(kk, q, c.reltol, c.abstol) : 0;
    if (f == QP_OPTIMAL) { cx.count("optimal"); if (k) cx.count("optimal_again"); bool pos = true; for (double v : s.s) pos &= v >= 0; for (double v : s.z) pos &= v >= 0;   // (tolerances of zero drive them into underflow)
      if (!kk.finite) cx.fail("nonfinite-optimal", "call %d: OPTIMAL with non-finite variables: %s%s", k, desc, hist.c_str());
      else if (!pos) cx.fail("not-interior", "call %d: OPTIMAL with a negative slack or multiplier: %s%s", k, desc, hist.c_str());
      else if (mt == 0) cx.fail("false-optimal", "call %d: OPTIMAL but rx=%.6Le ry=%.6Le rz=%.6Le gap=%.6Le: %s%s", k, kk.rx, kk.ry, kk.rz, kk.mu, desc, hist.c_str()); else if (mt < 0) cx.count("within_rounding_of_threshold");
      if (kk.finite && kk.rx < 1e100L && kk.rz < 1e100L && kk.ry < 1e100L && kk.mu > 1e-200L) { auto off = [](double g, ld t, ld e) { return !(fabsl((ld)g - t) <= 2 * e + 1e-12L * fabsl(t) + 1e-150L); };
        if (off(s.nrx, kk.rx, kk.ex) || off(s.nrz, kk.rz, kk.ez) || (q.p && off(s.nry, kk.ry, kk.ey)) || off(s.nmu, kk.mu, kk.emu) || off(s.fval, kk.f, kk.ef)) cx.fail("stats", "call %d: reported rx=%.9g ry=%.9g rz=%.9g gap=%.9g fval=%.12g, the point has %.9Lg %.9Lg %.9Lg %.9Lg %.12Lg: %s%s", k, s.nrx, s.nry, s.nrz, s.nmu, s.fval, kk.rx, kk.ry, kk.rz, kk.mu, kk.f, desc, hist.c_str()); } }
    else { cx.count("limit_reached"); if (did >= 0 && did < c.maxit && did != s.it) cx.fail("early-limit", "call %d: MAXIT after %ld of %ld iterations: %s%s", k, did, (long)c.maxit, desc, hist.c_str()); }
    // a point that already meets the tolerances is returned as it is
    if (k && c.maxit > 0) { Kkt pk = kkt_eval(q, prev); bool pp = pk.finite && pk.mu > 1e-200L && std::max(pk.mu, std::max(pk.rx, std::max(pk.ry, pk.rz))) < 1e100L; for (double v : prev.s) pp &= v > 0; for (double v : prev.z) pp &= v > 0; if (pp && meets(pk, q, c.reltol, c.abstol) == 1) { cx.count("already_optimal"); if (f != 0 || !biteq(s.x, prev.x) || !biteq(s.s, prev.s) || !biteq(s.z, prev.z) || !biteq(s.y, prev.y)) cx.fail("moved-from-optimum", "call %d: the point already met the tolerances (rx=%.3Le ry=%.3Le rz=%.3Le gap=%.3Le) but the call returned %ld at another or the same point: %s%s", k, pk.rx, pk.ry, pk.rz, pk.mu, f, desc, hist.c_str()); } }
    if (same && pok && pf == 0 && c.maxit > 0 && f != 0) cx.fail("optimum-lost", "call %d: repeated with the same options after OPTIMAL: %ld: %s%s", k, f, desc, hist.c_str());
    for (double v : {s.tv, s.tk, s.tl}) if (!(v >= 0) || !std::isfinite(v)) cx.fail("time", "time %.6g: %s%s", v, desc, hist.c_str());
    if (!(s.tl <= s.tk * (1 + 1e-9) + 1e-12) || !(s.tk <= s.tv * (1 + 1e-9) + 1e-12)) cx.fail("time-order", "call %d: factorisation %.6g, kkt %.6g, solve %.6g s: %s%s", k, s.tl, s.tk, s.tv, desc, hist.c_str());
    // carrying on reaches what a fresh run reaches (in aggregate)
    if (k && strict && f != 0 && c.maxit == 100 && c.reltol >= 1e-9 && c.abstol >= 1e-9) { Inst g; Rng e2(r.next()); g.permv = in.permv; g.load(q, c, e2); g.setup(); if (g.solve() == 0) { cx.count("not_reached_again"); nnot++; } }
    if (k && strict && f == 0 && did > 0 && c.maxit == 100 && c.reltol >= 1e-9 && c.abstol >= 1e-9) { cx.count("reached_again"); nagain++; }
    prev = s; pf = f; pok = true; }
  if (r.b(.3)) { // a run cut into several calls is the same run
    c.maxit = r.i(2, r.b(.2) ? 150 : 25); c.sigma = 100; bool far = r.b(.5); c.reltol = far ? 0 : std::pow(10.0, r.u(-12, -3)); c.abstol = far ? 0 : std::pow(10.0, r.u(-12, -3)); uint64_t enc = r.next(); DESC(q, c);
    Inst a, b; a.permv = in.permv; b.permv = in.permv; { Rng e1(enc), e2(enc); a.load(q, c, e1); b.load(q, c, e2); } a.setup(); b.setup(); long fa = a.solve(); Snap sa = a.snap(fa); long left = c.maxit, fb = QP_MAXIT, parts = 0; std::string cut;
    bool lax = false; int nlax = 0; while (left > 0 && (fb == QP_MAXIT || lax)) { // some calls are satisfied by less
      lax = nlax < 8 && r.b(.3); double fl = lax ? std::pow(10.0, r.u(0, 5)) : 1; nlax += lax; b.q->options->reltol = c.reltol * fl + (lax && far && r.b(.5) ? 1e-3 : 0); b.q->options->abstol = c.abstol * fl + (lax && far ? 1e-3 : 0);
      long k = r.i(1, std::min<long>(left, r.b(.3) ? 1 : 40)), i0 = b.q->stats->IterationCount; b.q->options->maxit = k; fb = b.solve(); if (lax && fb == QP_OPTIMAL) { cx.count("cuts_by_tolerance"); left -= b.q->stats->IterationCount - i0; } else left -= k; parts++; cut += " " + std::to_string(k) + (lax ? "*" : ""); if (r.b(.1)) { b.q->options->maxit = 0; if (b.solve() != QP_MAXIT) cx.fail("zero-limit", "a call with limit 0 did not return MAXIT: %s", desc); } }
    if (lax && left <= 0) fb = fa;
    Snap sb = b.snap(fb); if (parts > 1) { cx.count("cut_runs"); cx.count("cut_run_calls", (double)parts); if (sb.it > 40) cx.count("long_cut_runs"); }
    if (fa != fb || sa.it != sb.it || !biteq(sa.x, sb.x) || !biteq(sa.y, sb.y) || !biteq(sa.z, sb.z) || !biteq(sa.s, sb.s)) cx.fail("cut-run-differs", "one run of %ld: flag %ld, %ld iterations; cut into%s: flag %ld, %ld iterations%s: %s", (long)c.maxit, fa, sa.it, cut.c_str(), fb, sb.it, fa == fb && sa.it == sb.it ? ", other variables" : "", desc); }
  cx.sample("%s%s", in.dense ? "dense" : "sparse", hist.c_str());
}
static void fini(Ctx& cx) { if (nagain + nnot >= 60 && nnot > 6 + (nagain + nnot) / 10) { cx.idx = -1; cx.fails_case = 0; cx.fail("not-continued", "%ld of %ld repeated solves did not reach what a fresh one reaches", nnot, nagain + nnot); } }
int main(int a, char** v) { return qpm_main(a, v, one, fini); }
