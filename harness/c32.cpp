// C32: degenerate but solvable variants of a clean problem end OPTIMAL at the clean problem's answer
#include "gen2.hpp"
static long ndep, ldep;
static void addrow(vd& M, vd& rhs, int& cnt, int n, const vd& row, double b, int at) { M.insert(M.begin() + (size_t)at * n, row.begin(), row.end()); rhs.insert(rhs.begin() + at, b); cnt++; }
enum { D_DUPROW, D_REDUNDANT, D_ZEROROW, D_ZEROROW0, D_DUPEQ, D_DEPEQ, D_ZEROEQ, D_IMPLPAIR, D_TIGHTDUP, ND };
static const char* DN[] = {"duplicated-inequality", "redundant-inequality", "zero-inequality", "zero-inequality-rhs0", "duplicated-equality", "dependent-equality", "zero-equality", "relaxed-pair", "opposite-relaxed"};
static bool mutate(Rng& r, Prob& q, int k, const vd& xs) {
  int n = q.n; vd row(n, 0); auto pick = [&](int c) { return r.b(.2) ? 0 : r.b(.25) ? c - 1 : (int)r.i(0, c - 1); }; auto where = [&](int c) { return r.b(.25) ? 0 : r.b(.35) ? c : (int)r.i(0, c); };
  switch (k) {
    case D_DUPROW: { int i = pick(q.m); double s = r.b(.5) ? 1 : std::ldexp(1.0, (int)r.i(-2, 2)); for (int j = 0; j < n; j++) row[j] = s * q.g_(i, j); addrow(q.G, q.h, q.m, n, row, s * q.h[i], where(q.m)); return true; }
    case D_REDUNDANT: { double b = 0; int c = (int)r.i(1, 3); for (int t = 0; t < c; t++) { int i = pick(q.m); double s = (double)r.i(1, 4) / 2; for (int j = 0; j < n; j++) row[j] += s * q.g_(i, j); b += s * q.h[i]; } addrow(q.G, q.h, q.m, n, row, b + r.u(0.1, 2), where(q.m)); return true; }
    case D_ZEROROW: addrow(q.G, q.h, q.m, n, row, r.b(.3) ? 1e-3 : r.u(.1, 5), where(q.m)); return true;
    case D_ZEROROW0: addrow(q.G, q.h, q.m, n, row, 0, where(q.m)); return true;
    case D_DUPEQ: { if (!q.p) return false; int i = pick(q.p); double s = r.b(.5) ? 1 : (r.b(.5) ? -1 : 2); for (int j = 0; j < n; j++) row[j] = s * q.a_(i, j); addrow(q.A, q.b, q.p, n, row, s * q.b[i], where(q.p)); return true; }
    case D_DEPEQ: { if (q.p < 2) return false; double b = 0; int c = (int)r.i(2, 3); for (int t = 0; t < c; t++) { int i = pick(q.p); double s = r.b(.5) ? 1 : -1; for (int j = 0; j < n; j++) row[j] += s * q.a_(i, j); b += s * q.b[i]; } addrow(q.A, q.b, q.p, n, row, b, where(q.p)); return true; }
    case D_ZEROEQ: addrow(q.A, q.b, q.p, n, row, 0, where(q.p)); return true;
    case D_IMPLPAIR: { if (!q.p) return false; int i = pick(q.p); double d = std::pow(10.0, r.u(-3, 0)); for (int j = 0; j < n; j++) row[j] = q.a_(i, j); addrow(q.G, q.h, q.m, n, row, q.b[i] + d, where(q.m)); for (auto& t : row) t = -t; addrow(q.G, q.h, q.m, n, row, -q.b[i] + d, where(q.m)); return true; }
    default: { int i = pick(q.m); double v = 0; for (int j = 0; j < n; j++) { row[j] = -q.g_(i, j); v += row[j] * xs[j]; } addrow(q.G, q.h, q.m, n, row, v + r.u(.2, 2), where(q.m)); return true; } }
}
static void one(Ctx& cx, Rng& r) {
  Prob q; int shape = (int)r.i(0, 5); char what[200] = ""; size_t wl = 0; auto note = [&](const char* s) { if (wl < sizeof what - 1) { int w = snprintf(what + wl, sizeof what - wl, "%s%s", wl ? "+" : "", s); if (w > 0) wl = std::min(sizeof what - 1, wl + (size_t)w); } };
  for (int tries = 0; tries < 50; tries++) {
    static const int fams[] = {FAM_DENSE, FAM_SPARSE, FAM_BOX, FAM_MPC, FAM_KNOWN, FAM_KNOWN_SP, FAM_ARROW, FAM_PORT, FAM_LOWRANK, FAM_LP};
    q = gen_strict(r, fams[r.i(0, 9)], r.b(.02) ? 2 : (int)r.i(0, 1)); if (shape == 4 && q.n != 1) { q.alloc(1, (int)r.i(1, 3), 0); q.fam = "single-variable"; q.p_(0, 0) = r.u(.3, 3); q.sconvex = true; q.lmin = .3; genM(r, q.G, q.m, 1, 1, true, true); finish_strict(r, q, true); q.known = false; }
    break;
  }
  if (shape == 5) { int n = q.n; vd P = q.P; if (!q.sconvex) for (int i = 0; i < n; i++) P[(size_t)i * n + i] += 1; Prob t; t.alloc(n, 1, q.p); t.P = P; t.A = q.A; for (int j = 0; j < n; j++) t.g_(0, j) = q.g_(0, j); t.fam = "single-inequality"; t.sconvex = true; t.lmin = .2; q = t; finish_strict(r, q, true); }
  // columns that occur nowhere in one of the matrices
  if (shape == 3 && q.n > 1 && !q.known) { int n = q.n, j = (int)r.i(0, n - 1); int w = (int)r.i(0, 2); if (r.b(.3)) j = n - 1; if (w == 0 && q.sconvex) { for (int i = 0; i < q.m; i++) q.g_(i, j) = 0; for (int i = 0; i < q.m; i++) { bool any = false; for (int t = 0; t < n; t++) any |= q.g_(i, t) != 0; if (!any) q.g_(i, j ? 0 : 1) = 1; } finish_strict(r, q, true); note("zero-column-G"); cx.count("zero_columns"); }
    else if (w == 1 && q.p) { vd A = q.A; for (int i = 0; i < q.p; i++) q.a_(i, j) = 0; if (rows_full_rank(q.A, q.p, n, 0.02L)) { finish_strict(r, q, true); note("zero-column-A"); cx.count("zero_columns"); } else q.A = A; }
    else if (w == 2) { for (int i = 0; i < n; i++) q.p_(i, j) = q.p_(j, i) = 0; q.sconvex = false; vd rw(n, 0); rw[j] = 1; addrow(q.G, q.h, q.m, n, rw, 0, q.m); rw[j] = -1; addrow(q.G, q.h, q.m, n, rw, 0, 0); finish_strict(r, q, true); note("zero-column-P"); cx.count("zero_columns"); } }
  Prob clean = q; double tol = std::pow(10.0, r.u(-8, -5)); Cfg c0; c0.reltol = c0.abstol = tol; Snap base = run_once(clean, c0, 1); if (base.flag != 0 || meets(kkt_eval(clean, base), clean, tol, tol) == 0) { cx.skipped++; cx.count("clean_problem_unsolved"); return; }
  int K = (shape >= 3 && r.b(.4)) ? 0 : (int)r.i(1, r.b(.2) ? 6 : 2); int only = getenv("C32_ONLY") ? atoi(getenv("C32_ONLY")) : -1; unsigned used = 0;
  for (int k = 0; k < K; k++) { int d = only >= 0 ? only : (int)r.i(0, ND - 1); if (mutate(r, q, d, base.x)) { note(DN[d]); used |= 1u << d; } }
  q.known = false; if (!wl && shape < 4) { cx.skipped++; return; }
  Cfg c = rand_cfg(r, q, false); bool depeq = used & (1u << D_DUPEQ | 1u << D_DEPEQ); if (!q.sconvex || q.p) c.perm = false; c.reltol = c.abstol = tol; uint64_t enc = r.next(); Snap s = run_once(q, c, enc); DESC(q, c); cx.seen(q.hash());
  char nm[64]; for (int d = 0; d < ND; d++) if (used >> d & 1) { snprintf(nm, sizeof nm, "v_%s", DN[d]); cx.count(nm); if (s.flag != 0) { snprintf(nm, sizeof nm, "unsolved_%s", DN[d]); cx.count(nm); } }
  if (shape == 4) cx.count("single_variable"); if (shape == 5) cx.count("single_constraint");
  if (depeq) { ndep++; if (s.flag != 0) { ldep++; cx.skipped++; return; } }   // a rank-deficient equality block: rounding may cost a few (judged in aggregate)
  if (s.flag != 0 && !persistent(r, q, [&](const Prob& w) { return run_once(w, c, enc).flag != 0; })) { cx.skipped++; cx.count("lost_to_rounding"); return; }
  if (s.flag != 0) { cx.fail("not-solved", "exit flag %ld after %ld iterations [%s]: %s", s.flag, s.it, what, desc); return; }
  Kkt k = kkt_eval(q, s); if (meets(k, q, tol, tol) == 0) { cx.fail("certificate", "OPTIMAL but residuals %.3Lg %.3Lg %.3Lg mu %.3Lg [%s]: %s", k.rx, k.ry, k.rz, k.mu, what, desc); return; }
  // both answers are tol-accurate for problems with the same solution set
  ld zn = nrm(s.z), z0 = nrm(base.z), yn = nrm(s.y), y0 = nrm(base.y), xn = nrm(s.x), x0 = nrm(base.x); int M = std::max(q.m, clean.m); Kkt kb = kkt_eval(clean, base);
  ld gap = (ld)tol * (M + 2 + xn + x0 + zn + z0 + yn + y0) * 2 + k.ef + kb.ef; ld fd = fabsl(k.f - kb.f); cx.count("objectives_compared"); cx.cmax("max_objective_ratio", (double)(fd / gap));
  if (fd > gap) { cx.fail("objective", "objective %.12Lg, the clean problem has %.12Lg (bound %.3Lg) [%s]: %s", k.f, kb.f, gap, what, desc); return; }
  if (q.sconvex && q.lmin > 0) { ld d = ndiff(s.x, base.x), e = sqrtl(4 * gap / q.lmin) + 4 * (ld)tol * (1 + xn + x0) / q.lmin; cx.count("solutions_compared"); if (d > e) cx.fail("solution", "solution %.3Lg away from the clean problem's (bound %.3Lg) [%s]: %s", d, e, what, desc); }
  cx.sample("[%s] %s -> %ld iterations, clean %ld", what, desc, s.it, base.it);
}
static void fini(Ctx& cx) { cx.count("dependent_equalities", (double)ndep); cx.count("dependent_equalities_lost", (double)ldep); if (ndep >= 200 && ldep > 3 + ndep / 100) { cx.fails_case = 0; cx.fail("dependent-equalities", "%ld of %ld problems with consistent dependent equalities were not solved", ldep, ndep); } }
int main(int a, char** v) { return qpm_main(a, v, one, fini); }
