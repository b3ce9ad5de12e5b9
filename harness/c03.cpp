// C03: termination is exact.  The sequence of iterates is recorded through truncated runs; from it the monitor
// predicts, in extended precision, where a solve with given tolerances and limit has to stop, and compares.
#include "gen2.hpp"
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = (int)r.i(0, 1); if (r.b(.1)) sc = 2;
  Prob q; if (k0 == 0) q = gen_wild(r, 1); else if (k0 == 1) q = gen_bad(r, (int)r.i(0, NBAD - 1), 1).q; else { q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); if (r.b(.3)) rescale(r, q, r.u(1, 6)); }
  Cfg c = rand_cfg(r, q); uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p);
  const vl* pp = c.perm ? &perm : nullptr;
  int K = (int)r.i(6, 16); if (r.b(.15) && q.n + q.m < 80) { K = (int)r.i(24, 60); if (c.fmt < FMT_ROW && r.b(.7)) c.sigma_d = r.u(.3, .97); cx.count("long_trajectories"); } DESC(q, c);
  std::vector<Kkt> tr; std::vector<Snap> sn;
  for (int k = 0; k <= K; k++) {
    Snap s = iterate_k(q, c, enc, k, pp);
    if (s.flag != QP_MAXIT || s.it != k) { cx.fail("truncated-run", "limit %d with unattainable tolerances gave flag=%ld it=%ld: %s", k, s.flag, s.it, desc); return; }
    tr.push_back(kkt_eval(q, s)); sn.push_back(s);
  }
  cx.count("trajectories"); cx.seen(q.hash() ^ (uint64_t)c.fmt);
  for (int t = 0; t < 12; t++) {
    Cfg d = c; int j = (int)r.i(0, K); double f;
    auto near_ = [&](ld v) { double w = (double)v; double k = r.b(.5) ? 1 + r.u(1e-6, 1e-2) : 1 - r.u(1e-6, 1e-2); if (r.b(.3)) k = std::pow(10.0, r.u(-1, 1)); return w > 0 && std::isfinite(w) ? w * k : 1e-6; };
    d.reltol = std::pow(10.0, r.u(-9, 3)); d.abstol = std::pow(10.0, r.u(-9, 3));
    const Kkt& kj = tr[j];
    int mode = (int)r.i(0, 4); f = std::sqrt(3.0);
    if (mode == 0) { d.reltol = near_(kj.rx * f); d.abstol = 1e30; } else if (mode == 1) { d.reltol = near_(kj.rz * f); d.abstol = 1e30; }
    else if (mode == 2) { d.abstol = near_(kj.mu); d.reltol = 1e30; } else if (mode == 3 && q.p) { d.reltol = near_(kj.ry * f); d.abstol = 1e30; }
    d.maxit = r.b(.5) ? K : r.i(0, K);
    int stop = -1; bool amb = false;
    for (int k = 0; k < d.maxit; k++) { int v = meets(tr[k], q, d.reltol, d.abstol); if (v < 0) { amb = true; break; } if (v == 1) { stop = k; break; } }
    if (!amb && stop > 20) cx.count("late_stops");
    long sentmax = d.maxit; if (!amb && stop >= 0 && r.b(.25)) { long hv[] = {0x7fffffffffffffffL, 1L << 32, (1L << 32) + 1 + r.i(0, 3), (1L << 31), (1L << 40), 100000L, 32768L, 65536L}; sentmax = hv[r.i(0, 7)]; cx.count("huge_limits"); }
    if (amb) { cx.skipped++; cx.count("too_close_to_call"); continue; }
    Inst in; if (pp) in.permv = *pp; Rng e(enc); in.load(q, d, e); in.setup(); in.q->options->maxit = sentmax; long ret = in.solve(); Snap s = in.snap(); long fl = s.flag; in.cleanup();
    cx.count("predictions"); char b[32]; snprintf(b, sizeof b, "bracketing_mode_%d", mode); cx.count(b);
    if (ret != fl) cx.fail("return-vs-flag", "returned %ld but the stored flag is %ld: %s", ret, fl, desc);
    long wf = stop >= 0 ? QP_OPTIMAL : QP_MAXIT, wi = stop >= 0 ? stop : d.maxit;
    cx.count(stop >= 0 ? "stops_optimal" : "stops_maxit");
    if (ret != wf || s.it != wi) { int kk = (int)std::min<long>(std::max<long>(s.it, 0), K);
      cx.fail(ret == 0 && wf == 0 ? (s.it < wi ? "optimal-too-early" : "optimal-too-late") : ret == 0 ? "false-optimal" : wf == 0 ? "missed-optimal" : "wrong-limit",
        "flag=%ld it=%ld but the first iterate meeting reltol=%.9g abstol=%.9g within maxit=%ld calls for flag=%ld it=%ld (at it: rx=%.9Lg ry=%.9Lg rz=%.9Lg mu=%.9Lg): %s", ret, s.it, d.reltol, d.abstol, d.maxit, wf, wi, tr[kk].rx, tr[kk].ry, tr[kk].rz, tr[kk].mu, desc); }
    else if (!biteq(s.x, sn[wi].x) || !biteq(s.z, sn[wi].z)) cx.fail("iterate-differs", "stopped at %ld but holds other variables than that iterate: %s", wi, desc);
  }
  if (r.b(.25)) { // tolerances nothing meets: every limit is used up, however long
    Cfg d = c; d.reltol = d.abstol = 0; if (r.b(.3)) d.reltol = 1e30; else if (r.b(.3)) d.abstol = 1e30; long lim[] = {62 + r.i(0, 3), 99 + r.i(0, 3), 126 + r.i(0, 3), 199 + r.i(0, 2), 254 + r.i(0, 3), r.i(60, 700), r.i(500, 1025)}; d.maxit = lim[r.i(0, q.n + q.m > 60 ? 4 : 6)]; if (q.n + q.m > 200) d.maxit = std::min<long>(d.maxit, 128);
    if (q.n + q.m + q.p <= 12 && r.b(.05)) { long big[] = {2047 + r.i(0, 2), 4095 + r.i(0, 2), r.i(1025, 9000), 9999 + r.i(0, 2), 16383 + r.i(0, 2), 32766 + r.i(0, 3), 65534 + r.i(0, 3), r.i(9000, 70000)}; d.maxit = big[r.i(0, 7)]; cx.count("limits_in_the_thousands"); }
    Prob z; const Prob* w = &q; if (r.b(.2)) { // a starting point whose residuals are exactly zero: zero is not below a tolerance of zero
      z.n = (int)r.i(1, 5); z.m = (int)r.i(1, 5); z.p = r.b(.5) ? (int)r.i(1, z.n) : 0; z.P.assign((size_t)z.n * z.n, 0); for (int i = 0; i < z.n; i++) z.P[(size_t)i * z.n + i] = r.i(1, 4); z.A.assign((size_t)z.p * z.n, 0); for (int i = 0; i < z.p; i++) z.A[(size_t)i * z.n + i] = 1; z.G.assign((size_t)z.m * z.n, 0); z.c.assign(z.n, 0); z.b.assign(z.p, 0); z.h.resize(z.m); for (auto& v : z.h) v = (double)r.i(1, 8); z.fam = "zero-residual"; w = &z; d.reltol = 0; d.abstol = 1e30; d.perm = false; pp = nullptr; cx.count("zero_residual_starts"); }
    Inst in; if (pp) in.permv = *pp; Rng e(enc); in.load(*w, d, e); in.setup(); long ret = in.solve(); Snap s = in.snap(); in.cleanup(); cx.count("exhausted_limits"); cx.cmax("max_limit_used_up", (double)d.maxit);
    // an exact zero residual is not below a tolerance of zero either
    if (ret != QP_MAXIT || s.flag != QP_MAXIT || s.it != d.maxit) cx.fail("limit-not-used-up", "limit %ld with tolerances reltol=%g abstol=%g gave flag=%ld after %ld iterations (%s): %s", (long)d.maxit, d.reltol, d.abstol, ret, s.it, w->fam, desc); }
  cx.sample("%s iterates=%d rx0=%.2Le rxK=%.2Le", desc, K + 1, tr[0].rx, tr[K].rx);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
