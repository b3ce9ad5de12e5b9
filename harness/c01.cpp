// C01: OPTIMAL is a certificate
#include "gen2.hpp"
static void one(Ctx& cx, Rng& r) {
  Prob q; int k = (int)r.i(0, 9), sc = r.b(.03) ? 3 : r.b(.2) ? 2 : (int)r.i(0, 1);
  if (k == 0) q = gen_wild(r, std::min(sc, 2)); else if (k == 1) q = gen_bad(r, (int)r.i(0, 2), std::min(sc, 2)).q;
  else { q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); if (r.b(.35)) rescale(r, q, r.u(1, 8)); }
  if (r.b(.08)) { double e = r.u(4, 14); for (auto& v : q.h) if (r.b(.3)) v += std::pow(10.0, r.b(.7) ? e : r.u(4, 20)); q.known = false; cx.count("loose_rows"); }   // bounds that are there in name only
  Cfg c = rand_cfg(r, q);
  c.reltol = std::pow(10.0, r.u(-10, 1)); c.abstol = std::pow(10.0, r.u(-10, 1));
  if (r.b(.3)) c.reltol = 1e-6; if (r.b(.3)) c.abstol = 1e-6;
  c.maxit = r.b(.7) ? 100 : r.i(0, 40);
  if (r.b(.1)) { c.defaults = true; c.reltol = c.abstol = 1e-6; c.sigma = 100; c.maxit = 100; }
  Snap s = run_once(q, c, r.next());
  uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p); Snap last;
  auto run = [&](const char* kind) -> bool {
    Snap s = run_once(q, c, enc, &perm); last = s; DESC(q, c);
    cx.count("runs"); if (s.flag != 0) { cx.count("not_optimal"); return false; }
    cx.count("optimal"); cx.count(kind);
    Kkt kk = kkt_eval(q, s);
    if (!kk.finite) { cx.fail("nonfinite-optimal", "OPTIMAL with non-finite variables: %s", desc); return true; }
    for (double v : s.s) if (!(v > 0)) { cx.fail("s-not-positive", "OPTIMAL with s_i=%.17g: %s", v, desc); break; }
    for (double v : s.z) if (!(v > 0)) { cx.fail("z-not-positive", "OPTIMAL with z_i=%.17g: %s", v, desc); break; }
    int mt = meets(kk, q, c.reltol, c.abstol);
    if (mt < 0) cx.count("within_rounding_of_threshold");
    ld t = (ld)c.reltol / sqrtl(3.0L);
    if (kk.rx > 0.5L * t) cx.count("binding_rx"); if (kk.rz > 0.5L * t) cx.count("binding_rz"); if (q.p && kk.ry > 0.5L * t) cx.count("binding_ry"); if (kk.mu > 0.5L * c.abstol) cx.count("binding_mu");
    char b[32]; snprintf(b, sizeof b, "optimal_%s", FMTN[c.fmt]); cx.count(b);
    if (q.p) cx.count("optimal_with_equalities"); if (q.m > 128) cx.count("optimal_many_inequalities"); if (q.p > 32) cx.count("optimal_many_equalities");
    cx.sample("%s it=%ld rx=%.2Le ry=%.2Le rz=%.2Le mu=%.2Le", desc, s.it, kk.rx, kk.ry, kk.rz, kk.mu);
    if (mt == 0) cx.fail(kk.rx > t ? "rx-above-tol" : q.p && kk.ry > t ? "ry-above-tol" : kk.rz > t ? "rz-above-tol" : "gap-above-tol", "OPTIMAL but rx=%.6Le ry=%.6Le rz=%.6Le (limit %.6Le) gap=%.6Le (limit %.6e): it=%ld %s", kk.rx, kk.ry, kk.rz, t, kk.mu, c.abstol, s.it, desc);
    return true; };
  bool any = run("as_requested"); long its = last.it;
  // tolerances set just below what a chosen iterate has: it is no certificate, and must not be taken for one
  for (int t = 0; t < 2 && r.b(.6); t++) {
    Snap k = iterate_k(q, c, enc, r.i(0, std::min<long>(its > 0 ? its : 0, 30)), &perm); Kkt kk = kkt_eval(q, k); if (!kk.finite) break;
    double f = r.b(.5) ? 1 - std::pow(10.0, r.u(-6, -2)) : r.u(.2, 1), big = r.b(.7) ? 1e30 : 1; c.defaults = false; c.maxit = r.b(.7) ? 100 : k.it + 1;
    int w = (int)r.i(0, q.p ? 3 : 2); c.reltol = c.abstol = big; if (w == 2) c.abstol = (double)kk.mu * f; else c.reltol = (double)((w == 0 ? kk.rx : w == 1 ? kk.rz : kk.ry) * sqrtl(3.0L)) * f;
    cx.count("bracketed_runs"); any |= run("bracketed_optimal"); }
  if (any) cx.seen(q.hash() ^ (uint64_t)c.fmt);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
