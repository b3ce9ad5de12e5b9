// The documented iteration, evaluated three ways from the same starting data:
//   exact : long double, pivoted LU on the KKT system
//   reg   : long double, LDL' without pivoting in the given elimination order with the documented pivot regularisation
//   dbl   : the same in double
// The spread between them is what rounding and regularisation can legitimately change; a real result is only
// compared where that spread is small, and then within a multiple of it.
#pragma once
#include "gen2.hpp"
template <class T> static inline T tabs(T a) { return a < 0 ? -a : a; }
template <class T> struct DenseLdl {
  int N; std::vector<T> L, D; vl P; bool wild = false; ld amp = 1;
  void factor(const vld& K, int n_, const vl& perm) {
    N = n_; P = perm; L.assign((size_t)N * N, 0); D.assign(N, 0);
    for (int k = 0; k < N; k++) {
      std::vector<T> y(k + 1); for (int j = 0; j <= k; j++) y[j] = (T)K[(size_t)P[k] * N + P[j]];
      T d = y[k], acc = tabs(y[k]);
      for (int j = 0; j < k; j++) { T yj = y[j]; if (yj == 0) continue; for (int i = j + 1; i < k; i++) y[i] -= L[(size_t)i * N + j] * yj; T l = yj / D[j]; d -= l * yj; acc += tabs(l * yj); L[(size_t)k * N + j] = l; }
      if (acc > 0 && tabs(d) <= (T)1e-10 * acc) wild = true;  // a pivot that is nothing but rounding: its sign and size are arbitrary
      T sg = d <= 0 ? -1 : 1; D[k] = sg * d <= (T)1e-14 ? sg * (T)1e-7 : d; if (sg * d <= (T)1e-14) amp = std::max(amp, 1e7L); else amp = std::max(amp, (ld)(acc / (sg * d)));
    }
  }
  std::vector<T> solve(const std::vector<T>& b) const {
    std::vector<T> x(N), r(N); for (int k = 0; k < N; k++) x[k] = b[P[k]];
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) { T l = L[(size_t)i * N + j]; if (l != 0) x[i] -= l * x[j]; }
    for (int i = 0; i < N; i++) x[i] /= D[i];
    for (int i = N - 1; i >= 0; i--) for (int j = 0; j < i; j++) { T l = L[(size_t)i * N + j]; if (l != 0) x[j] -= l * x[i]; }
    for (int k = 0; k < N; k++) r[P[k]] = x[k];
    return r;
  }
};
static inline vld build_kkt(const Prob& q, const vld& d) { RefKkt K; int n = q.n, m = q.m, p = q.p; K.N = n + m + p; K.K.assign((size_t)K.N * K.N, 0); auto at = [&](int i, int j) -> ld& { return K.K[(size_t)i * K.N + j]; };
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) at(i, j) = q.P[(size_t)i * n + j];
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) at(n + i, j) = at(j, n + i) = q.A[(size_t)i * n + j];
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) at(n + p + i, j) = at(j, n + p + i) = q.G[(size_t)i * n + j];
  for (int i = 0; i < m; i++) at(n + p + i, n + p + i) = -d[i];
  return K.K; }
template <class T> struct StepT { std::vector<T> x, y, z, s, dS[2], dz[2]; T ap = 0, ad = 0, sigma = 0, rho = 0; bool centering = false, ok = true, wild = false; ld amp = 1, msmax = 0; };
template <class T> static inline void ratioT(const std::vector<T>& s, const std::vector<T>& ds, T& a) { bool f = false; a = (T)1e10; for (size_t i = 0; i < s.size(); i++) if (ds[i] < 0 && -s[i] / ds[i] < a) { a = -s[i] / ds[i]; f = true; } if (!f) a = 1; }
// can rounding decide which constraint blocks, or whether any does?
template <class T> static inline bool ratio_ambiguous(const std::vector<T>& s, const std::vector<T>& ds, const std::vector<T>& mag) {
  T sc = 0; for (size_t i = 0; i < s.size(); i++) { if (tabs(ds[i]) > sc) sc = tabs(ds[i]); if (s[i] > sc) sc = s[i]; }
  std::vector<T> a = ds, b = ds; for (size_t i = 0; i < s.size(); i++) { T e = (T)1e-14 * (sc > mag[i] ? sc : mag[i]); a[i] -= e; b[i] += e; }
  T ra, rb; ratioT(s, a, ra); ratioT(s, b, rb); return !(tabs(ra - rb) <= (T)1e-4 * (tabs(ra) < tabs(rb) ? tabs(ra) : tabs(rb)));
}
template <class T> static inline StepT<T> step_from(const Prob& q, const Snap& st, ld sigma_in, ld sigma_d, bool exact, const vl& perm, uint64_t noise = 1) {
  int n = q.n, m = q.m, p = q.p, N = n + m + p; StepT<T> R; typedef std::vector<T> V;
  V x(st.x.begin(), st.x.end()), y(st.y.begin(), st.y.end()), z(st.z.begin(), st.z.end()), s(st.s.begin(), st.s.end());
  V r(N, 0); for (int i = 0; i < n; i++) { T t = -(T)q.c[i]; for (int j = 0; j < n; j++) t -= (T)q.P[(size_t)i * n + j] * x[j]; for (int k = 0; k < p; k++) t -= (T)q.A[(size_t)k * n + i] * y[k]; for (int k = 0; k < m; k++) t -= (T)q.G[(size_t)k * n + i] * z[k]; r[i] = t; }
  for (int k = 0; k < p; k++) { T t = q.b[k]; for (int j = 0; j < n; j++) t -= (T)q.A[(size_t)k * n + j] * x[j]; r[n + k] = t; }
  V rz(m); for (int k = 0; k < m; k++) { T t = (T)q.h[k] - s[k]; for (int j = 0; j < n; j++) t -= (T)q.G[(size_t)k * n + j] * x[j]; rz[k] = t; }
  T mu = 0; for (int i = 0; i < m; i++) mu += s[i] * z[i]; mu /= m;
  if (sizeof(T) == sizeof(double)) { // any order of summation is legitimate: shift each residual by the rounding its terms allow
    auto nz = [&](int i) { return (T)Rng(mix(noise, (uint64_t)i)).u(-3, 3) * (T)EPS; };
    for (int i = 0; i < n; i++) { T a = tabs((T)q.c[i]); for (int j = 0; j < n; j++) a += tabs((T)q.P[(size_t)i * n + j] * x[j]); for (int k = 0; k < p; k++) a += tabs((T)q.A[(size_t)k * n + i] * y[k]); for (int k = 0; k < m; k++) a += tabs((T)q.G[(size_t)k * n + i] * z[k]); r[i] += nz(i) * a; }
    for (int k = 0; k < p; k++) { T a = tabs((T)q.b[k]); for (int j = 0; j < n; j++) a += tabs((T)q.A[(size_t)k * n + j] * x[j]); r[n + k] += nz(n + k) * a; }
    for (int k = 0; k < m; k++) { T a = tabs((T)q.h[k]) + s[k]; for (int j = 0; j < n; j++) a += tabs((T)q.G[(size_t)k * n + j] * x[j]); rz[k] += nz(n + p + k) * a; } }
  vld dd(m); for (int i = 0; i < m; i++) dd[i] = (ld)(s[i] / z[i]);
  vld K = build_kkt(q, dd); LU lu; DenseLdl<T> L;
  if (exact) { lu.N = N; lu.M = K; lu.factor(); if (!lu.ok) { R.ok = false; return R; } } else { L.factor(K, N, perm); R.wild = L.wild; R.amp = L.amp; }
  V mz(m), ms(m);   // size of what the steps were computed from: cancellation leaves rounding of that size
  auto dir = [&](const V& ds, V& d, V& dS, V& dz) { V b = r; for (int i = 0; i < m; i++) b[n + p + i] = rz[i] - ds[i] / z[i];
    if (exact) { vld bb(b.begin(), b.end()); vld t = lu.solve(bb); d.assign(t.begin(), t.end()); } else d = L.solve(b);
    dS.resize(m); dz.resize(m); for (int i = 0; i < m; i++) { dz[i] = d[n + p + i]; dS[i] = (ds[i] - s[i] * dz[i]) / z[i]; }
    T dm = 0; for (int i = 0; i < N; i++) if (tabs(d[i]) > dm) dm = tabs(d[i]); T zm = 0; for (int i = 0; i < m; i++) if (tabs(dz[i]) > zm) zm = tabs(dz[i]);
    for (int i = 0; i < m; i++) { mz[i] = dm; ms[i] = (tabs(ds[i]) + s[i] * zm) / z[i] + dm; R.msmax = std::max(R.msmax, (ld)ms[i]); } };
  V ds(m), d, dS, dz; T ap, ad; R.centering = !(sigma_in > sigma_d);
  if (!R.centering) {
    for (int i = 0; i < m; i++) ds[i] = -s[i] * z[i];
    dir(ds, d, dS, dz); ratioT(s, dS, ap); ratioT(z, dz, ad); if (ratio_ambiguous(s, dS, ms) || ratio_ambiguous(z, dz, mz)) R.wild = true;
    R.dS[0] = dS; R.dz[0] = dz; T num = 0, den = 0; for (int i = 0; i < m; i++) { num += (s[i] + ap * dS[i]) * (z[i] + ad * dz[i]); den += s[i] * z[i]; }
    T rho = num / den; R.rho = rho; T t = rho < 1 ? rho : (T)1; t = t * t * t; R.sigma = t > (T)sigma_d ? t : (T)sigma_d;
    for (int i = 0; i < m; i++) ds[i] = -s[i] * z[i] - dS[i] * dz[i] + R.sigma * mu;
  } else { R.sigma = (T)sigma_d; for (int i = 0; i < m; i++) ds[i] = -s[i] * z[i] + (T)sigma_d * mu; }
  dir(ds, d, dS, dz); ratioT(s, dS, ap); ratioT(z, dz, ad); if (ratio_ambiguous(s, dS, ms) || ratio_ambiguous(z, dz, mz)) R.wild = true; R.ap = (T)0.99L * ap < 1 ? (T)0.99L * ap : (T)1; R.ad = (T)0.99L * ad < 1 ? (T)0.99L * ad : (T)1;
  R.dS[1] = dS; R.dz[1] = dz; R.x = x; R.y = y; R.z = z; R.s = s;
  for (int i = 0; i < n; i++) R.x[i] += R.ap * d[i]; for (int i = 0; i < p; i++) R.y[i] += R.ad * d[n + i];
  for (int i = 0; i < m; i++) { R.s[i] += R.ap * dS[i]; R.z[i] += R.ad * dz[i]; }
  return R;
}
// the same decision, against the observed difference between the extended and the double evaluation
static inline bool ratio_ambiguous(const Snap& st, const StepT<ld>& E, const StepT<ld>& R, const StepT<double>& D) {
  for (int k = 0; k < 2; k++) for (int w = 0; w < 2; w++) {
    const vld& e = w ? E.dz[k] : E.dS[k]; const vld& g = w ? R.dz[k] : R.dS[k]; const vd& d = w ? D.dz[k] : D.dS[k]; const vd& cur = w ? st.z : st.s; if (e.empty()) continue;
    ld df = 0; for (size_t i = 0; i < e.size(); i++) df = std::max(df, std::max(fabsl(e[i] - d[i]), fabsl(e[i] - g[i]))); df *= 100; ld g_ = 0; for (const vd* v : {&st.x, &st.y, &st.z, &st.s}) for (double t : *v) g_ = std::max(g_, fabsl((ld)t)); df = std::max(df, 20 * EPS * std::max(R.amp, D.amp) * g_);  // cancellation in the pivots amplifies rounding
    vld c(cur.begin(), cur.end()), a = e, b = e; for (size_t i = 0; i < e.size(); i++) { a[i] -= df; b[i] += df; }
    ld ra, rb; ratioT(c, a, ra); ratioT(c, b, rb); bool full = std::min(ra, rb) > 1.1L && (0.99L * ra >= 1) == (0.99L * rb >= 1); if (k == 1 && full) continue; if (!(fabsl(ra - rb) <= 1e-3L * std::min(ra, rb))) return true; }
  return false;
}
template <class T> struct StartT { std::vector<T> x, y; bool ok = true, wild = false; };
template <class T> static inline StartT<T> start_from(const Prob& q, bool exact, const vl& perm) {
  int n = q.n, m = q.m, p = q.p, N = n + m + p; StartT<T> R; typedef std::vector<T> V;
  vld K = build_kkt(q, vld(m, 1.0L)); V b(N); for (int i = 0; i < n; i++) b[i] = -(T)q.c[i]; for (int i = 0; i < p; i++) b[n + i] = q.b[i]; for (int i = 0; i < m; i++) b[n + p + i] = q.h[i];
  V d; if (exact) { LU lu; lu.N = N; lu.M = K; lu.factor(); if (!lu.ok) { R.ok = false; return R; } vld bb(b.begin(), b.end()); vld t = lu.solve(bb); d.assign(t.begin(), t.end()); } else { DenseLdl<T> L; L.factor(K, N, perm); R.wild = L.wild; d = L.solve(b); }
  R.x.assign(d.begin(), d.begin() + n); R.y.assign(d.begin() + n, d.begin() + n + p); return R;
}
template <class A, class B> static inline ld vdist(const A& a, const B& b) { ld m = 0; for (size_t i = 0; i < a.size(); i++) { ld d = fabsl((ld)a[i] - (ld)b[i]); if (!(d <= m)) m = d; if (!(d == d)) return 1e300L; } return m; }
template <class A> static inline ld vmaxabs(const A& a) { ld m = 0; for (size_t i = 0; i < a.size(); i++) { ld d = fabsl((ld)a[i]); if (!(d <= m)) m = d; } return m; }
