// C02: the optimum returned is the true minimiser.  Independent optima: planted KKT points, exhaustive active-set
// enumeration of small strictly convex problems, and weak-duality brackets from a long-double reference solve.
#include "gen2.hpp"
struct Opt { vd x, y, z, s; };
// exhaustive active-set search (strictly convex, small): exact up to long-double rounding
static bool enumerate(const Prob& q, Opt& o, ld& slack) {
  int n = q.n, m = q.m, p = q.p; ld best = 1e4000L; bool ok = false;
  for (unsigned msk = 0; msk < (1u << m); msk++) {
    std::vector<int> act; for (int i = 0; i < m; i++) if (msk >> i & 1) act.push_back(i);
    int a = (int)act.size(); if (a + p > n) continue;
    int N = n + p + a; LU lu; lu.N = N; lu.M.assign((size_t)N * N, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) lu.at(i, j) = q.P[(size_t)i * n + j];
    for (int k = 0; k < p; k++) for (int j = 0; j < n; j++) lu.at(n + k, j) = lu.at(j, n + k) = q.A[(size_t)k * n + j];
    for (int k = 0; k < a; k++) for (int j = 0; j < n; j++) lu.at(n + p + k, j) = lu.at(j, n + p + k) = q.G[(size_t)act[k] * n + j];
    lu.factor(); if (!lu.ok) continue;
    vld r(N); for (int j = 0; j < n; j++) r[j] = -(ld)q.c[j]; for (int k = 0; k < p; k++) r[n + k] = q.b[k]; for (int k = 0; k < a; k++) r[n + p + k] = q.h[act[k]];
    vld d = lu.solve(r); bool feas = true; ld mins = 1e300L, minz = 1e300L;
    for (int k = 0; k < a; k++) { minz = std::min(minz, d[n + p + k]); if (d[n + p + k] < -1e-10L) feas = false; }
    for (int i = 0; i < m && feas; i++) { if (msk >> i & 1) continue; ld t = q.h[i]; for (int j = 0; j < n; j++) t -= (ld)q.G[(size_t)i * n + j] * d[j]; mins = std::min(mins, t); if (t < -1e-10L) feas = false; }
    if (!feas) continue;
    ld f = 0; for (int i = 0; i < n; i++) { f += (ld)q.c[i] * d[i]; for (int j = 0; j < n; j++) f += 0.5L * d[i] * q.P[(size_t)i * n + j] * d[j]; }
    if (f < best) { best = f; ok = true; o.x.assign(d.begin(), d.begin() + n); o.y.assign(d.begin() + n, d.begin() + n + p); o.z.assign(m, 0); for (int k = 0; k < a; k++) o.z[act[k]] = (double)std::max<ld>(0, d[n + p + k]);
      o.s.assign(m, 0); for (int i = 0; i < m; i++) { if (msk >> i & 1) continue; ld t = q.h[i]; for (int j = 0; j < n; j++) t -= (ld)q.G[(size_t)i * n + j] * d[j]; o.s[i] = (double)std::max<ld>(0, t); } slack = 0; }
  }
  return ok;
}
static void one(Ctx& cx, Rng& r) {
  int mode = (int)r.i(0, 9); Prob q; Opt o; const char* src;
  if (mode < 4) { q = gen_strict(r, r.b(.5) ? FAM_KNOWN : FAM_KNOWN_SP, r.b(.2) ? 2 : (int)r.i(0, 1)); o.x = q.xs; o.y = q.ys; o.z = q.zs; o.s = q.ss; src = "planted"; }
  else if (mode < 8) { // enumeration
    do { q = gen_strict(r, r.b(.5) ? FAM_DENSE : FAM_SPARSE, (int)r.i(0, 1)); } while (q.n > 5 || q.m > 7 || !q.sconvex);
    if (r.b(.3)) for (auto& v : q.c) v *= 4;
    ld sl; if (!enumerate(q, o, sl)) { cx.skipped++; return; } src = "enumerated"; }
  else { q = gen_strict(r, (int)r.i(0, NFAM - 1), r.b(.3) ? 2 : 1); if (q.n + q.m + q.p > (r.b(.2) ? 420 : 110)) { cx.count("too_large_for_reference"); return; } RefState st; if (ref_ipm(q, 1e-12, 1e-13, 60, &st) < 0) { cx.skipped++; cx.count("reference_failed"); return; } o.x = tod(st.x); o.y = tod(st.y); o.z = tod(st.z); o.s = tod(st.s); src = "reference"; }
  Cfg c = rand_cfg(r, q); c.reltol = std::pow(10.0, r.u(-9, -4)); c.abstol = std::pow(10.0, r.u(-9, -4)); c.sigma_d = 0; DESC(q, c);
  Snap s = run_once(q, c, r.next()); cx.count("runs");
  if (s.flag != 0) { cx.count("not_optimal"); return; }
  cx.count(src); cx.seen(q.hash());
  int n = q.n, m = q.m, p = q.p; ld tol = (ld)c.reltol / sqrtl(3.0L) * 1.0001L + 1e-11L, gap = ((ld)c.abstol * m) * 1.0001L + 1e-11L;
  // |f-f*| and ||x-x*|| bounds from monotonicity of the KKT operator (see DESIGN.md), in terms of the requested tolerances only
  ld ex = ndiff(s.x, o.x), ey = ndiff(s.y, o.y), ez = ndiff(s.z, o.z), zmag = nrm(o.z), ymag = nrm(o.y);
  Kkt ko = kkt_eval(q, o.x, o.y, o.z, o.s); ld slop = (ko.rx + ko.ry + ko.rz) * (1 + ex + ey + ez) + m * ko.mu + 1e-12L * (1 + zmag + ymag);
  ld B = ex * tol + ey * tol + ez * tol + gap + slop;
  Kkt k = kkt_eval(q, s); ld df = fabsl(k.f - ko.f), fb = ymag * tol + zmag * tol + 1.5L * B + k.ef + ko.ef;
  ld fs = std::max<ld>(1, fabsl(ko.f));
  cx.cmax("max_objective_error_over_bound", (double)(df / fb));
  if (!(df <= fb)) cx.fail("objective-wrong", "objective %.12Lg, true minimum %.12Lg (%s), bound %.2Le: %s", k.f, ko.f, src, fb, desc);
  // an infeasible or divergent answer would inflate the bound itself: it has to stay in proportion to the tolerances
  if (q.sconvex) {
    // lmin |ex|^2 <= B with B increasing in |ex|,|ey|,|ez|
    ld xb = tol / q.lmin + sqrtl((ey * tol + ez * tol + gap + slop) / q.lmin) + 1e-12L;
    cx.count("strictly_convex"); cx.cmax("max_x_error_over_bound", (double)(ex / xb));
    if (!(ex <= xb)) cx.fail("x-wrong", "||x-x*||=%.3Le, bound %.2Le (%s): %s", ex, xb, src, desc);
  }
  // the reported objective is the objective at x
  if (fabsl((ld)s.fval - k.f) > 4 * k.ef + 1e-13L * fs) cx.fail("fval-wrong", "reported %.15g, true objective at x %.15Lg: %s", s.fval, k.f, desc);
  // multipliers: unique under LICQ
  std::vector<int> act; ld ezI2 = 0; for (int i = 0; i < m; i++) { if (o.s[i] < 1e-6) act.push_back(i); else ezI2 += (ld)s.z[i] * s.z[i]; }
  int a = (int)act.size() + p;
  bool strictc = true; for (int i = 0; i < m; i++) if (o.s[i] >= 1e-6 && o.s[i] < 0.05) strictc = false;
  if (q.sconvex && a > 0 && a <= n && strictc && mode < 8) {
    LU lu; lu.N = a; lu.M.assign((size_t)a * a, 0); auto row = [&](int i, int j) -> ld { return i < p ? q.A[(size_t)i * n + j] : q.G[(size_t)act[i - p] * n + j]; };
    for (int i = 0; i < a; i++) for (int k2 = 0; k2 < a; k2++) { ld t = 0; for (int j = 0; j < n; j++) t += row(i, j) * row(k2, j); lu.at(i, k2) = t; }
    lu.factor();
    if (lu.ok) {
      ld f2 = 0; for (int i = 0; i < a; i++) { vld e(a, 0); e[i] = 1; vld cc = lu.solve(e); for (ld t : cc) f2 += t * t; }
      ld smin = 1 / sqrtl(sqrtl(f2)); // lower bound on the smallest singular value
      ld Pn = 0, Gn = 0; for (double t : q.P) Pn += (ld)t * t; for (double t : q.G) Gn += (ld)t * t;
      ld eb = (tol + sqrtl(Pn) * ex + sqrtl(Gn) * sqrtl(ezI2) + 1e-10L) / smin, ezA = ey * ey; for (int i : act) ezA += ((ld)s.z[i] - o.z[i]) * ((ld)s.z[i] - o.z[i]); ezA = sqrtl(ezA);
      ld zI = 0; for (int i = 0; i < m; i++) if (o.s[i] >= 0.05) zI = std::max(zI, (ld)s.z[i] * o.s[i]);
      if (eb < 0.05L) { cx.count("multipliers_compared"); if (!(ezA <= eb)) cx.fail("multiplier-wrong", "multipliers differ from the unique ones by %.3Le, bound %.2Le (%s): %s", ezA, eb, src, desc); }
      if (!(zI <= B + 1e-9L)) cx.fail("complementarity", "z_i*s*_i=%.3Le on an inactive constraint, bound %.2Le: %s", zI, B, desc);
    }
  }
  cx.sample("%s src=%s f=%.9Lg f*=%.9Lg |x-x*|=%.2Le", desc, src, k.f, ko.f, ex);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
