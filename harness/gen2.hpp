// further generators: infeasible / unbounded / non-finite problems with exact certificates, degenerate variants
#pragma once
#include "qpm.hpp"

struct Bad { Prob q; int kind = 0; double delta = 0, wnorm = 0; vd lam, nu, dir; };
enum { BAD_FARKAS, BAD_EQ, BAD_UNB, BAD_NAN, BAD_INF, NBAD };
static const char* BADN[] = {"primal-infeasible", "inconsistent-equalities", "unbounded", "nan-data", "inf-data"};

static inline Bad gen_bad(Rng& r, int kind, int sc) {
  Bad B; B.kind = kind;
  if (kind == BAD_NAN || kind == BAD_INF) {
    B.q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
    Prob& q = B.q; double v = kind == BAD_NAN ? NAN : (r.b(.5) ? INFINITY : -INFINITY);
    std::vector<vd*> ar = {&q.P, &q.G, &q.c}; if (q.p) { ar.push_back(&q.A); ar.push_back(&q.b); } if (kind == BAD_NAN) ar.push_back(&q.h);
    vd& a = *ar[(size_t)r.i(0, (long)ar.size() - 1)];
    long k = r.i(0, (long)a.size() - 1);
    if (&a == &q.P) { long i = k / q.n, j = k % q.n; a[(size_t)(i * q.n + j)] = v; a[(size_t)(j * q.n + i)] = v; }
    else a[(size_t)k] = v;
    q.fam = BADN[kind]; q.strict = q.known = q.sconvex = false;
    return B;
  }
  for (;;) {
    int n = std::min(pick_n(r, sc), 24), m = (int)r.i(1, 2 * n + 2), p = (int)r.i(0, std::max(0, n - 1));
    if (kind == BAD_EQ) p = (int)r.i(1, n + 1);
    if (kind == BAD_EQ && p == 1) p = 2;
    Prob q; q.alloc(n, m, p); q.fam = BADN[kind];
    genP(r, q, (int)r.i(0, 5), true);
    genM(r, q.A, p, n, r.b(.5) ? 1 : std::min(1.0, 3.0 / n), true, true);
    genM(r, q.G, m, n, r.b(.5) ? 1 : std::min(1.0, 3.0 / n), true, true);
    for (auto& v : q.c) v = r.dy(16, 8);
    vd x0(n); for (auto& v : x0) v = (double)r.i(-8, 8) / 4;
    vld gx = mulv(q.G, m, n, x0), ax = mulv(q.A, p, n, x0);
    for (int i = 0; i < m; i++) q.h[i] = (double)(gx[i] + (ld)r.i(1, 16) / 4);
    for (int i = 0; i < p; i++) q.b[i] = (double)ax[i];
    if (kind == BAD_FARKAS) {
      if (m < 2) continue;
      // last row := -(sum lam_i g_i + sum nu_i a_i)/lam_m, and h chosen so that lam'h + nu'b = -delta
      B.lam.assign(m, 0); B.nu.assign(p, 0);
      int cnt = (int)r.i(1, std::min(3, m - 1));
      for (int k = 0; k < cnt; k++) B.lam[r.i(0, m - 2)] = (double)r.i(1, 4);
      if (p && r.b(.5)) B.nu[r.i(0, p - 1)] = r.b(.5) ? 1 : -1;
      B.lam[m - 1] = 1; vd row(n, 0); double s = 0;
      for (int i = 0; i < m - 1; i++) { for (int j = 0; j < n; j++) row[j] -= B.lam[i] * q.g_(i, j); s += B.lam[i] * q.h[i]; }
      for (int i = 0; i < p; i++) { for (int j = 0; j < n; j++) row[j] -= B.nu[i] * q.a_(i, j); s += B.nu[i] * q.b[i]; }
      for (int j = 0; j < n; j++) q.g_(m - 1, j) = row[j];
      B.delta = std::ldexp(1.0, (int)r.i(-8, 4)); q.h[m - 1] = -B.delta - s;
      ld w = 0; for (double t : B.lam) w += (ld)t * t; for (double t : B.nu) w += (ld)t * t; B.wnorm = (double)sqrtl(w);
      if (r.b(.5)) { // hide the row anywhere
        int k = (int)r.i(0, m - 1); for (int j = 0; j < n; j++) std::swap(q.g_(k, j), q.g_(m - 1, j)); std::swap(q.h[k], q.h[m - 1]); std::swap(B.lam[k], B.lam[m - 1]); }
    } else if (kind == BAD_EQ) {
      B.nu.assign(p, 0); B.lam.assign(m, 0); B.nu[p - 1] = 1; vd row(n, 0); double s = 0;
      for (int i = 0; i < p - 1; i++) if (r.b(.6) || i == 0) { B.nu[i] = r.b(.5) ? 1 : -1; for (int j = 0; j < n; j++) row[j] -= B.nu[i] * q.a_(i, j); s += B.nu[i] * q.b[i]; }
      for (int j = 0; j < n; j++) q.a_(p - 1, j) = row[j];
      B.delta = std::ldexp(1.0, (int)r.i(-8, 4)); q.b[p - 1] = -B.delta - s;
      ld w = 0; for (double t : B.nu) w += (ld)t * t; B.wnorm = (double)sqrtl(w);
    } else {
      // recession direction d = e_0 after an integer shear x_j -> x_j + t*x_0 (exact on dyadic data)
      for (int i = 0; i < n; i++) q.p_(i, 0) = q.p_(0, i) = 0;
      for (int i = 0; i < p; i++) q.a_(i, 0) = 0;
      for (int i = 0; i < m; i++) q.g_(i, 0) = r.b(.5) ? 0 : -(double)r.i(1, 8) / 4;
      gx = mulv(q.G, m, n, x0); for (int i = 0; i < m; i++) q.h[i] = (double)(gx[i] + (ld)r.i(1, 16) / 4);
      ax = mulv(q.A, p, n, x0); for (int i = 0; i < p; i++) q.b[i] = (double)ax[i];
      q.c[0] = -std::ldexp(1.0, (int)r.i(-6, 3)); B.delta = -q.c[0];
      B.dir.assign(n, 0); B.dir[0] = 1;
      if (r.b(.6) && n > 1) {  // w = T x with x_j = w_j - t_j w_0 : direction becomes e_0 + sum t_j e_j
        vd t(n, 0); for (int j = 1; j < n; j++) if (r.b(.5)) t[j] = (double)r.i(-2, 2);
        vd p0(n, 0); for (int i = 0; i < n; i++) { ld s2 = 0; for (int j = 1; j < n; j++) s2 -= (ld)q.P[(size_t)i * n + j] * t[j]; p0[i] = (double)s2; }
        ld p00 = 0; for (int j = 1; j < n; j++) p00 -= (ld)t[j] * p0[j];
        for (int i = 1; i < n; i++) q.p_(i, 0) = q.p_(0, i) = p0[i]; q.p_(0, 0) = (double)p00;
        for (int i = 0; i < p; i++) { ld s2 = 0; for (int j = 1; j < n; j++) s2 -= (ld)q.a_(i, j) * t[j]; q.a_(i, 0) = (double)s2; }
        for (int i = 0; i < m; i++) { ld s2 = q.g_(i, 0); for (int j = 1; j < n; j++) s2 -= (ld)q.g_(i, j) * t[j]; q.g_(i, 0) = (double)s2; }
        for (int j = 1; j < n; j++) { q.c[0] -= q.c[j] * t[j]; B.dir[j] = t[j]; }
      }
      ld w = 0; for (double t : B.dir) w += (ld)t * t; B.wnorm = (double)sqrtl(w);
    }
    B.q = q; return B;
  }
}
// the exact certificate that residuals below tol are impossible
static inline bool bad_certified(const Bad& B, double reltol) {
  const Prob& q = B.q; int n = q.n, m = q.m, p = q.p;
  if (B.kind >= BAD_NAN) return true;
  if (B.kind == BAD_UNB) {
    vld pd = mulv(q.P, n, n, B.dir), ad = mulv(q.A, p, n, B.dir), gd = mulv(q.G, m, n, B.dir); ld cd = 0;
    for (int j = 0; j < n; j++) cd += (ld)q.c[j] * B.dir[j];
    for (ld t : pd) if (t != 0) return false; for (ld t : ad) if (t != 0) return false; for (ld t : gd) if (t > 0) return false;
    return -cd > 1.01L * (ld)reltol / sqrtl(3.0L) * B.wnorm;
  }
  vld g = tmulv(q.G, m, n, B.lam), a = tmulv(q.A, p, n, B.nu); for (int j = 0; j < n; j++) if (g[j] + a[j] != 0) return false;
  ld s = 0; for (int i = 0; i < m; i++) { if (B.lam[i] < 0) return false; s += (ld)B.lam[i] * q.h[i]; } for (int i = 0; i < p; i++) s += (ld)B.nu[i] * q.b[i];
  return -s > 1.01L * 2 * (ld)reltol / sqrtl(3.0L) * B.wnorm;
}

// hundreds of variables and constraints, few nonzeros: counts past every small-integer boundary
static inline Prob gen_large(Rng& r, bool want_p = false, int nmax = 700) {
  static const int pick[] = {127, 128, 255, 256, 257}; Prob q; int n = r.b(.5) ? pick[r.i(0, 4)] : (int)r.i(60, nmax), m = r.b(.4) ? pick[r.i(2, 4)] : r.b(.3) ? 512 : (int)r.i(1, 900), p = r.b(.4) ? 0 : r.b(.3) ? std::min(n, 256) : (int)r.i(1, n); if (want_p && !p) p = (int)r.i(1, n);
  q.alloc(n, m, p); q.fam = "large"; vd x0(n); for (auto& v : x0) v = (double)r.i(-8, 8) / 4;
  for (int i = 0; i < n; i++) { q.p_(i, i) = (double)r.i(1, 8) / 4; q.c[i] = -q.p_(i, i) * (double)r.i(-8, 8) / 4; }
  for (int i = 0; i < p; i++) { q.a_(i, i) = (double)r.i(1, 8) / 4; q.b[i] = q.a_(i, i) * x0[i]; }
  for (int i = 0; i < m; i++) { int j = (int)r.i(0, n - 1); q.g_(i, j) = (double)r.i(1, 8) / 4; q.h[i] = q.g_(i, j) * x0[j] + (double)r.i(1, 8) / 4; q.c[j] -= q.g_(i, j) * (double)r.i(1, 8) / 4; }
  return q;
}
