// Common monitor library: problem generators, encodings, the wrapper that drives the real
// solver through its public API, and the long-double oracles.
// Header-only and free of iostreams/strings so that it can also be built under MSan.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <numeric>
#include <unistd.h>
#include <utility>
#include <vector>
#include <string>
#include "qpSWIFT.h"
#undef MAX
#undef MIN
#undef EMPTY
#undef FLIP
#undef UNFLIP
#undef TRUE
#undef FALSE
#undef PRIVATE
#undef GLOBAL
#undef ID
#undef IMPLIES
#undef CheckFullNumber

typedef long double ld;
typedef std::vector<double> vd;
typedef std::vector<long> vl;
typedef std::vector<ld> vld;

// ------------------------------------------------------------------ random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  long i(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
  bool b(double p) { return u() < p; }
  double n() {
    double a = u(), c = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * c);
  }
  double dy(int num = 16, int den = 8) {  // small dyadic rational, never zero
    long k = i(1, num);
    return (b(0.5) ? -1.0 : 1.0) * (double)k / den;
  }
  template <class V> void shuffle(V& v) {
    for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[(size_t)i(0, (long)k - 1)]);
  }
};
static inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull + b);
  r.next();
  return r.next();
}
struct Hash {
  uint64_t h = 1469598103934665603ull;
  void add(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  }
  void addv(const vd& v) { if (!v.empty()) add(v.data(), v.size() * sizeof(double)); }
  void addl(const vl& v) { if (!v.empty()) add(v.data(), v.size() * sizeof(long)); }
  void addi(long v) { add(&v, sizeof v); }
};

// ------------------------------------------------------------------ run context / reporting
struct Ctx {
  uint64_t seed = 1;
  long idx = 0;
  bool replay = false;
  bool thorough = false;
  int fails_case = 0;
  long fails = 0, evals = 0, nontrivial = 0, skipped = 0;
  FILE* out = stdout;
  int maxsamples = 3;
  int samples = 0;
  struct Cnt { char k[48]; double v; };
  std::vector<Cnt> cnt;
  std::vector<uint64_t> hashes;
  void count(const char* k, double v = 1) {
    for (auto& c : cnt) if (!strcmp(c.k, k)) { c.v += v; return; }
    Cnt c; memset(&c, 0, sizeof c); strncpy(c.k, k, 47); c.v = v; cnt.push_back(c);
  }
  void cmax(const char* k, double v) {
    for (auto& c : cnt) if (!strcmp(c.k, k)) { if (v > c.v) c.v = v; return; }
    Cnt c; memset(&c, 0, sizeof c); strncpy(c.k, k, 47); c.v = v; cnt.push_back(c);
  }
  void fail(const char* key, const char* fmt, ...) {
    fails++;
    if (fails_case++ > 3) return;
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char* p = buf; *p; p++) if (*p == '\n') *p = ' ';
    fprintf(out, "V\t%ld\t%s\t%s\n", idx, key, buf);
    fflush(out);
  }
  void sample(const char* fmt, ...) {
    if (samples >= maxsamples) return;
    samples++;
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    fprintf(out, "S\t%ld\t%s\n", idx, buf);
    fflush(out);
  }
  void seen(uint64_t h) { hashes.push_back(h); nontrivial++; }
};

// ------------------------------------------------------------------ problems
struct Prob {
  int n = 0, m = 0, p = 0;
  vd P, A, G;  // dense, row-major
  vd c, b, h;
  const char* fam = "";
  bool strict = false;    // strictly feasible primal and dual, well scaled
  bool sconvex = false;   // P positive definite with margin
  bool known = false;     // xs, ys, zs, ss is the KKT point
  double lmin = 0;        // lower bound on the smallest eigenvalue of P when sconvex
  vd xs, ys, zs, ss;
  uint64_t hash() const {
    Hash h_; h_.addi(n); h_.addi(m); h_.addi(p); h_.addv(P); h_.addv(A); h_.addv(G);
    h_.addv(c); h_.addv(b); h_.addv(h); return h_.h;
  }
  void alloc(int n_, int m_, int p_) {
    n = n_; m = m_; p = p_;
    P.assign((size_t)n * n, 0); A.assign((size_t)p * n, 0); G.assign((size_t)m * n, 0);
    c.assign(n, 0); b.assign(p, 0); h.assign(m, 0);
  }
  double& p_(int i, int j) { return P[(size_t)i * n + j]; }
  double& a_(int i, int j) { return A[(size_t)i * n + j]; }
  double& g_(int i, int j) { return G[(size_t)i * n + j]; }
};

static inline vld mulv(const vd& M, int r, int c, const vd& x) {
  vld y(r, 0);
  for (int i = 0; i < r; i++) { ld t = 0; for (int j = 0; j < c; j++) if (M[(size_t)i*c+j] != 0) t += (ld)M[(size_t)i * c + j] * x[j]; y[i] = t; }
  return y;
}
static inline vld tmulv(const vd& M, int r, int c, const vd& x) {
  vld y(c, 0);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (M[(size_t)i*c+j] != 0) y[j] += (ld)M[(size_t)i * c + j] * x[i];
  return y;
}

// random symmetric PSD matrix.  kind: 0 zero, 1 diagonal PD, 2 low rank, 3 dense PD, 4 sparse PD, 5 low rank sparse
static inline void genP(Rng& r, Prob& q, int kind, bool dyadic) {
  int n = q.n;
  auto val = [&]() { return dyadic ? r.dy(8, 4) : r.n(); };
  q.sconvex = false; q.lmin = 0;
  if (kind == 0) return;
  if (kind == 1) { double lm = 1e9; for (int i = 0; i < n; i++) { q.p_(i, i) = dyadic ? (double)r.i(1, 16) / 4 : r.u(0.2, 4); lm = std::min(lm, q.p_(i, i)); } q.sconvex = true; q.lmin = lm; return; }
  int rank = (kind == 2 || kind == 5) ? (int)r.i(1, std::max(1, n / 2)) : std::max(1, n);
  if (n > 40) rank = std::min(rank, 25 + n / 8);
  double dens = (kind == 4 || kind == 5) ? std::min(1.0, 3.0 / n) : 1.0;
  for (int k = 0; k < rank; k++) {
    vd v(n, 0);
    bool any = false;
    for (int i = 0; i < n; i++) if (r.b(dens)) { v[i] = val() / (dyadic ? 1.0 : std::sqrt((double)rank)); any = true; }
    if (!any) v[r.i(0, n - 1)] = val();
    for (int i = 0; i < n; i++) if (v[i] != 0) for (int j = 0; j < n; j++) if (v[j] != 0) q.p_(i, j) += v[i] * v[j];
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) q.p_(i, j) = q.p_(j, i);
  if (kind == 3 || kind == 4) { for (int i = 0; i < n; i++) q.p_(i, i) += dyadic ? 1.0 : r.u(0.3, 1.5); q.sconvex = true; q.lmin = 0.299; }
}
static inline void genM(Rng& r, vd& M, int rows, int cols, double dens, bool dyadic, bool ensure_row) {
  for (int i = 0; i < rows; i++) {
    bool any = false;
    for (int j = 0; j < cols; j++) if (r.b(dens)) { M[(size_t)i * cols + j] = dyadic ? r.dy(8, 4) : r.n(); any = true; }
    if (!any && ensure_row) M[(size_t)i * cols + r.i(0, cols - 1)] = dyadic ? r.dy(8, 4) : (r.b(.5) ? 1 : -1) * r.u(0.3, 2);
  }
}
struct Size { int nlo, nhi; };
static inline int pick_n(Rng& r, int sc) {  // size class 0 tiny .. 3 large
  switch (sc) { case 0: return (int)r.i(1, 4); case 1: return (int)r.i(2, 12); case 2: return (int)r.i(10, 40); default: return (int)r.i(50, 140); }
}
static inline bool rows_full_rank(const vd& A, int p, int n, ld tol = 1e-3L) {
  if (p > n) return false;
  std::vector<vld> M(p, vld(n));
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) M[i][j] = A[(size_t)i * n + j];
  vl used(n, 0);
  for (int i = 0; i < p; i++) {
    int bi = -1, bj = -1; ld best = 0;
    for (int a = i; a < p; a++) for (int j = 0; j < n; j++) if (!used[j] && fabsl(M[a][j]) > best) { best = fabsl(M[a][j]); bi = a; bj = j; }
    if (best < tol) return false;
    std::swap(M[i], M[bi]); used[bj] = 1;
    for (int a = i + 1; a < p; a++) { ld f = M[a][bj] / M[i][bj]; if (f != 0) for (int j = 0; j < n; j++) M[a][j] -= f * M[i][j]; }
  }
  return true;
}

// strictly feasible primal-dual pair, well scaled; every structure the solver is meant for
enum { FAM_DENSE, FAM_SPARSE, FAM_BOX, FAM_LP, FAM_MPC, FAM_TALL, FAM_LOWRANK, FAM_KNOWN, FAM_KNOWN_SP, FAM_SVM, FAM_PORT, FAM_ARROW, NFAM };
static const char* FAMN[] = {"dense", "sparse", "box", "lp", "mpc", "tall", "lowrank", "known", "known-sparse", "svm", "portfolio", "arrow"};

static inline void finish_strict(Rng& r, Prob& q, bool dyadic) {
  // primal interior x0, dual interior (y0,z0) with another x1 for P
  vd x0(q.n), x1(q.n), y0(q.p), z0(q.m);
  for (auto& v : x0) v = dyadic ? (double)r.i(-8, 8) / 4 : r.n();
  for (auto& v : x1) v = dyadic ? (double)r.i(-8, 8) / 4 : r.n();
  for (auto& v : y0) v = dyadic ? (double)r.i(-8, 8) / 4 : r.n();
  for (auto& v : z0) v = dyadic ? (double)r.i(1, 16) / 4 : r.u(0.1, 2);
  vld gx = mulv(q.G, q.m, q.n, x0), ax = mulv(q.A, q.p, q.n, x0);
  for (int i = 0; i < q.m; i++) q.h[i] = (double)(gx[i] + (dyadic ? (ld)r.i(1, 16) / 4 : (ld)r.u(0.1, 2)));
  for (int i = 0; i < q.p; i++) q.b[i] = (double)ax[i];
  vld px = mulv(q.P, q.n, q.n, x1), aty = tmulv(q.A, q.p, q.n, y0), gtz = tmulv(q.G, q.m, q.n, z0);
  for (int j = 0; j < q.n; j++) q.c[j] = (double)-(px[j] + aty[j] + gtz[j]);
  q.strict = true;
}
static inline void finish_known(Rng& r, Prob& q) {
  int n = q.n, m = q.m, p = q.p;
  q.xs.resize(n); q.ys.resize(p); q.zs.assign(m, 0); q.ss.assign(m, 0);
  for (auto& v : q.xs) v = (double)r.i(-16, 16) / 8;
  for (auto& v : q.ys) v = (double)r.i(-16, 16) / 8;
  vl ix(m); std::iota(ix.begin(), ix.end(), 0); r.shuffle(ix);
  int amax = std::min(m, n - p), act = amax > 0 ? (int)r.i(0, amax) : 0;
  for (int k = 0; k < m; k++) { int i = (int)ix[k]; if (k < act) q.zs[i] = (double)r.i(2, 16) / 8; else q.ss[i] = (double)r.i(2, 16) / 8; }
  vld gx = mulv(q.G, m, n, q.xs), ax = mulv(q.A, p, n, q.xs), px = mulv(q.P, n, n, q.xs), aty = tmulv(q.A, p, n, q.ys), gtz = tmulv(q.G, m, n, q.zs);
  for (int i = 0; i < m; i++) q.h[i] = (double)(gx[i] + q.ss[i]);
  for (int i = 0; i < p; i++) q.b[i] = (double)ax[i];
  for (int j = 0; j < n; j++) q.c[j] = (double)-(px[j] + aty[j] + gtz[j]);
  q.known = true;
}
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define QPM_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define QPM_SAN 1
#endif
#endif
#ifdef QPM_SAN
static double qpm_big = 0.003;
#else
static double qpm_big = 0.012;   // share of problems with a large dimension (cheap ones: sparse, tall, long horizon)
#endif
static inline Prob gen_big(Rng& r, int fam) {
  Prob q; q.fam = FAMN[fam]; bool dy = r.b(.4); int n, m, p;
  switch (fam) {
    case FAM_DENSE: case FAM_TALL: case FAM_LOWRANK: case FAM_SVM:
      n = (int)r.i(1, 8); m = (int)r.i(129, r.b(.2) ? 1100 : 500); p = 0; q.alloc(n, m, p); genP(r, q, (int)r.i(1, 3), dy); genM(r, q.G, m, n, r.u(.4, 1), dy, true); break;
    case FAM_MPC: { int nx = (int)r.i(1, 3), nu = (int)r.i(1, 2), N = (int)r.i(60, 200) / (nx + nu); n = N * (nx + nu); p = N * nx; m = 2 * n; q.alloc(n, m, p); genP(r, q, 1, dy);
      vd Ad(nx * nx), Bd(nx * nu); for (auto& v : Ad) v = r.dy(4, 4) * .5; for (auto& v : Bd) v = r.dy(8, 4);
      for (int k = 0; k < N; k++) for (int i = 0; i < nx; i++) { int row = k * nx + i; q.a_(row, k * (nx + nu) + nu + i) = -1;
        for (int j = 0; j < nu; j++) q.a_(row, k * (nx + nu) + j) = Bd[i * nu + j];
        if (k) for (int j = 0; j < nx; j++) q.a_(row, (k - 1) * (nx + nu) + nu + j) = Ad[i * nx + j]; }
      for (int i = 0; i < n; i++) { q.g_(i, i) = 1; q.g_(n + i, i) = -1; } break; }
    case FAM_PORT: n = (int)r.i(60, 200); p = 1; m = n; q.alloc(n, m, p); genP(r, q, 1, dy); for (int i = 0; i < n; i++) { q.a_(0, i) = 1; q.g_(i, i) = -1; } break;
    case FAM_ARROW: n = (int)r.i(100, 300); p = (int)r.i(0, 1); m = (int)r.i(1, 6); q.alloc(n, m, p); genP(r, q, 1, dy); genM(r, q.G, m, n, r.u(.1, 1), dy, true); if (p) for (int i = 0; i < n; i++) q.a_(0, i) = r.dy(8, 4); break;
    default: { n = (int)r.i(60, 200); bool eq = r.b(.5); p = 0; if (fam == FAM_KNOWN || fam == FAM_KNOWN_SP) dy = true;
      if (eq) p = (int)r.i(1, std::max(1, n / 2)); m = 2 * n; q.alloc(n, m, p); genP(r, q, 1, dy);
      for (int i = 0; i < n; i++) { q.g_(i, i) = 1; q.g_(n + i, i) = -1; }
      for (int i = 0; i < p; i++) { q.a_(i, 2 * i) = 1 + (double)r.i(0, 4) / 4; if (2 * i + 1 < n) q.a_(i, 2 * i + 1) = r.dy(8, 4); if (2 * i + 2 < n && r.b(.3)) q.a_(i, 2 * i + 2) = .25; }
      if (fam == FAM_SPARSE) for (int k = 0; k < n; k++) q.g_((int)r.i(0, m - 1), (int)r.i(0, n - 1)) = r.dy(8, 4); break; }
  }
  if (fam == FAM_KNOWN || fam == FAM_KNOWN_SP) {
    if (fam == FAM_KNOWN && r.b(.4)) { n = (int)r.i(1, 8); m = (int)r.i(129, 600); q.alloc(n, m, 0); genP(r, q, r.b(.6) ? 3 : 1, true); genM(r, q.G, m, n, 1, true, true); }
    finish_known(r, q); }
  else finish_strict(r, q, dy);
  return q;
}
static inline Prob gen_strict(Rng& r, int fam, int sc) {
  if (r.b(qpm_big)) return gen_big(r, fam);
  Prob q; q.fam = FAMN[fam];
  int n = pick_n(r, sc), m, p;
  bool dy = r.b(0.4);
  for (int tries = 0;; tries++) {
    switch (fam) {
      case FAM_DENSE: m = (int)r.i(1, 2 * n + 2); p = (int)r.i(0, std::max(0, n - 1)); p = r.b(.4) ? 0 : p; q.alloc(n, m, p);
        genP(r, q, r.b(.7) ? 3 : 1, dy); genM(r, q.A, p, n, 1, dy, true); genM(r, q.G, m, n, 1, dy, true); break;
      case FAM_SPARSE: m = (int)r.i(1, 3 * n + 2); p = r.b(.4) ? 0 : (int)r.i(0, std::max(0, n / 2)); q.alloc(n, m, p);
        genP(r, q, r.b(.5) ? 4 : 1, dy); genM(r, q.A, p, n, std::min(1.0, 2.5 / n), dy, true); genM(r, q.G, m, n, std::min(1.0, 2.5 / n), dy, true); break;
      case FAM_BOX: p = r.b(.5) ? 0 : (int)r.i(0, std::max(0, n / 3)); q.alloc(n, 2 * n, p); genP(r, q, (int)r.i(1, 5), dy);
        for (int i = 0; i < n; i++) { q.g_(i, i) = 1; q.g_(n + i, i) = -1; } genM(r, q.A, p, n, std::min(1.0, 4.0 / n), dy, true); break;
      case FAM_LP: p = r.b(.5) ? 0 : (int)r.i(0, std::max(0, n / 3)); m = n + (int)r.i(1, 2 * n + 1); q.alloc(n, m, p);
        for (int i = 0; i < n; i++) q.g_(i, i) = r.b(.5) ? 1 : -1;
        { vd M((size_t)(m - n) * n, 0); genM(r, M, m - n, n, std::min(1.0, 4.0 / n), dy, true); std::copy(M.begin(), M.end(), q.G.begin() + (size_t)n * n); }
        genM(r, q.A, p, n, std::min(1.0, 4.0 / n), dy, true); break;
      case FAM_MPC: { int nx = (int)r.i(1, 3), nu = (int)r.i(1, 2), N = std::max(1, n / (nx + nu)); n = N * (nx + nu); p = N * nx; m = 2 * n;
        q.alloc(n, m, p); genP(r, q, 1, dy);
        vd Ad(nx * nx), Bd(nx * nu); for (auto& v : Ad) v = r.dy(4, 4) * .5; for (auto& v : Bd) v = r.dy(8, 4);
        for (int k = 0; k < N; k++) for (int i = 0; i < nx; i++) {
          int row = k * nx + i; q.a_(row, k * (nx + nu) + nu + i) = -1;
          for (int j = 0; j < nu; j++) q.a_(row, k * (nx + nu) + j) = Bd[i * nu + j];
          if (k) for (int j = 0; j < nx; j++) q.a_(row, (k - 1) * (nx + nu) + nu + j) = Ad[i * nx + j];
        }
        for (int i = 0; i < n; i++) { q.g_(i, i) = 1; q.g_(n + i, i) = -1; } break; }
      case FAM_TALL: n = std::min(n, 12); m = (int)r.i(3 * n, 10 * n + 5); p = 0; q.alloc(n, m, p); genP(r, q, (int)r.i(1, 3), dy); genM(r, q.G, m, n, r.u(.3, 1), dy, true); break;
      case FAM_LOWRANK: m = n + (int)r.i(1, n + 1); p = r.b(.6) ? 0 : (int)r.i(0, std::max(0, n / 3)); q.alloc(n, m, p); genP(r, q, r.b(.5) ? 2 : 5, dy);
        for (int i = 0; i < n; i++) q.g_(i, i) = r.b(.5) ? 1 : -1;
        { vd M((size_t)(m - n) * n, 0); genM(r, M, m - n, n, std::min(1.0, 3.0 / n), dy, true); std::copy(M.begin(), M.end(), q.G.begin() + (size_t)n * n); }
        genM(r, q.A, p, n, std::min(1.0, 4.0 / n), dy, true); break;
      case FAM_KNOWN: m = (int)r.i(1, 2 * n + 2); p = r.b(.4) ? 0 : (int)r.i(0, std::max(0, n / 2)); q.alloc(n, m, p); dy = true; genP(r, q, r.b(.6) ? 3 : 1, dy); genM(r, q.A, p, n, 1, dy, true); genM(r, q.G, m, n, 1, dy, true); break;
      case FAM_KNOWN_SP: m = (int)r.i(1, 3 * n + 2); p = r.b(.4) ? 0 : (int)r.i(0, std::max(0, n / 2)); q.alloc(n, m, p); dy = true; genP(r, q, r.b(.5) ? 4 : 1, dy); genM(r, q.A, p, n, std::min(1.0, 3.0 / n), dy, true); genM(r, q.G, m, n, std::min(1.0, 3.0 / n), dy, true); break;
      case FAM_SVM: { int d = std::max(1, std::min(n / 3, 6)), N = std::max(2, n - d); n = d + 1 + N; m = 2 * N; p = 0; q.alloc(n, m, p);
        for (int i = 0; i < d; i++) q.p_(i, i) = 1; q.p_(d, d) = 0; 
        for (int k = 0; k < N; k++) { double y = r.b(.5) ? 1 : -1; for (int j = 0; j < d; j++) q.g_(k, j) = -y * r.n(); q.g_(k, d) = -y; q.g_(k, d + 1 + k) = -1; q.h[k] = -1; q.c[d + 1 + k] = 1; q.g_(N + k, d + 1 + k) = -1; }
        break; }
      case FAM_PORT: { p = 1; m = n; q.alloc(n, m, p); genP(r, q, r.b(.5) ? 3 : 2, dy); for (int i = 0; i < n; i++) { q.a_(0, i) = 1; q.g_(i, i) = -1; } break; }
      default: { // arrow: one dense row/column, otherwise diagonal
        p = r.b(.5) ? 1 : 0; if (n < 2) p = 0; m = n + 1; q.alloc(n, m, p); genP(r, q, 1, dy); for (int i = 0; i < n; i++) { q.g_(i, i) = r.b(.5) ? 1 : -1; q.g_(n, i) = dy ? r.dy(8, 4) : r.n(); }
        if (p) for (int i = 0; i < n; i++) q.a_(0, i) = r.dy(8, 4);
        break; }
    }
    if (q.p && fam != FAM_MPC && !rows_full_rank(q.A, q.p, q.n, dy ? 1e-6L : 0.02L)) { if (tries < 20) continue; q.p = 0; q.A.clear(); q.b.clear(); }
    break;
  }
  if (fam == FAM_KNOWN || fam == FAM_KNOWN_SP) { finish_known(r, q); }
  else finish_strict(r, q, dy);
  return q;
}
// hostile but well-formed: random structure incl. empty rows/columns/matrices, any data
static inline Prob gen_wild(Rng& r, int sc) {
  Prob q; q.fam = "wild";
  int n = pick_n(r, sc), m = (int)r.i(1, 2 * n + 3), p = r.b(.4) ? 0 : (int)r.i(0, n + 2);
  q.alloc(n, m, p);
  genP(r, q, (int)r.i(0, 5), r.b(.5));
  double dg = r.b(.2) ? 0 : r.u(0, 1), da = r.b(.2) ? 0 : r.u(0, 1);
  genM(r, q.G, m, n, dg, r.b(.5), false); genM(r, q.A, p, n, da, r.b(.5), false);
  if (r.b(.3)) { int j = (int)r.i(0, n - 1); for (int i = 0; i < m; i++) q.g_(i, j) = 0; }
  if (r.b(.3)) { int i = (int)r.i(0, m - 1); for (int j = 0; j < n; j++) q.g_(i, j) = 0; }
  if (r.b(.2)) { int i = m - 1; for (int j = 0; j < n; j++) q.g_(i, j) = 0; }
  if (r.b(.2)) { for (int j = 0; j < n; j++) q.g_(0, j) = 0; }
  double scal = r.b(.2) ? std::pow(10.0, r.u(-6, 6)) : 1;
  for (auto& v : q.c) v = r.b(.2) ? 0 : r.n() * scal;
  for (auto& v : q.h) v = r.b(.2) ? 0 : r.n() * scal;
  for (auto& v : q.b) v = r.b(.2) ? 0 : r.n() * scal;
  if (r.b(.1)) for (auto& v : q.G) v *= std::pow(10.0, r.u(-8, 8));
  return q;
}

// ------------------------------------------------------------------ encodings
struct Csc { long m = 0, n = 0; vl jc, ir; vd pr; };
enum { FMT_SORTED, FMT_SHUF, FMT_DUP, FMT_XZERO, FMT_MESS, FMT_ROW, FMT_COL, NFMT };
static const char* FMTN[] = {"sparse", "sparse-unsorted", "sparse-dup", "sparse-xzero", "sparse-mess", "dense-row", "dense-col"};
static inline Csc to_csc(const vd& M, int rows, int cols, int fmt, Rng& r, bool sym) {
  Csc C; C.m = rows; C.n = cols; C.jc.assign(cols + 1, 0);
  bool xz = fmt == FMT_XZERO || fmt == FMT_MESS, dup = fmt == FMT_DUP || fmt == FMT_MESS, shuf = fmt == FMT_SHUF || fmt == FMT_MESS;
  (void)sym;
  for (int j = 0; j < cols; j++) {
    std::vector<std::pair<long, double>> e;
    for (int i = 0; i < rows; i++) {
      double v = M[(size_t)i * cols + j];
      if (v != 0 || std::isnan(v)) {
        if (dup && r.b(.3)) { e.push_back({i, v * 0.5}); e.push_back({i, v * 0.5}); }
        else e.push_back({i, v});
      } else if (xz && r.b(.25)) e.push_back({i, 0.0});
    }
    if (shuf) r.shuffle(e);
    for (auto& t : e) { C.ir.push_back(t.first); C.pr.push_back(t.second); }
    C.jc[j + 1] = (long)C.ir.size();
  }
  return C;
}
struct Cfg {
  int fmt = FMT_SORTED;
  bool perm = false;
  double sigma_d = 0, reltol = 1e-6, abstol = 1e-6, sigma = 100;
  long maxit = 100;
  int verbose = 0;
  int eqenc = 0;          // how an absent equality block is encoded
  bool defaults = false;  // leave the options alone
};
struct Snap {
  long flag = -9, it = -9, amd = -9;
  vd x, y, z, s;
  double fval = 0, nrx = 0, nry = 0, nrz = 0, nmu = 0, ap = 0, ad = 0;
  double ts = 0, tv = 0, tk = 0, tl = 0;
};
static inline bool biteq(const vd& a, const vd& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static inline bool bits(double a, double b) { return !memcmp(&a, &b, sizeof a); }
static inline bool snapeq(const Snap& a, const Snap& b) {
  return a.flag == b.flag && a.it == b.it && biteq(a.x, b.x) && biteq(a.y, b.y) && biteq(a.z, b.z) && biteq(a.s, b.s) && bits(a.fval, b.fval) && bits(a.nrx, b.nrx) && bits(a.nry, b.nry) && bits(a.nrz, b.nrz) && bits(a.nmu, b.nmu);
}
static inline vl rand_perm(Rng& r, int N) { vl v(N); std::iota(v.begin(), v.end(), 0); r.shuffle(v); return v; }

// exactly sized heap copies, so that ASan sees any overrun
template <class T> struct Buf {
  T* p = nullptr; size_t n = 0;
  Buf() {}
  Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
  void set(const std::vector<T>& v) { delete[] p; n = v.size(); p = new T[n]; if (n) memcpy(p, v.data(), n * sizeof(T)); }
  ~Buf() { delete[] p; }
};
struct Inst {
  Cfg cfg; int n, m, p; bool dense;
  Buf<long> Pj, Pi, Aj, Ai, Gj, Gi, perm;
  Buf<double> Px, Ax, Gx, c, b, h;
  vl permv;
  QP* q = nullptr;
  Inst() {}
  Inst(const Inst&) = delete;
  static vd colmaj(const vd& M, int r, int c) { vd o(M.size()); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[(size_t)j * r + i] = M[(size_t)i * c + j]; return o; }
  void load(const Prob& pr, const Cfg& cf, Rng& r) {
    cfg = cf; n = pr.n; m = pr.m; p = pr.p; dense = cf.fmt >= FMT_ROW;
    if (dense) {
      if (cf.fmt == FMT_ROW) { Px.set(pr.P); Ax.set(pr.A); Gx.set(pr.G); }
      else { Px.set(colmaj(pr.P, n, n)); Ax.set(colmaj(pr.A, p, n)); Gx.set(colmaj(pr.G, m, n)); }
    } else {
      Csc a = to_csc(pr.P, n, n, cf.fmt, r, true); Pj.set(a.jc); Pi.set(a.ir); Px.set(a.pr);
      a = to_csc(pr.A, p, n, cf.fmt, r, false); Aj.set(a.jc); Ai.set(a.ir); Ax.set(a.pr);
      a = to_csc(pr.G, m, n, cf.fmt, r, false); Gj.set(a.jc); Gi.set(a.ir); Gx.set(a.pr);
    }
    c.set(pr.c); b.set(pr.b); h.set(pr.h);
    if (cf.perm) { if ((int)permv.size() != n + m + p) permv = rand_perm(r, n + m + p); perm.set(permv); }
  }
  void setup() {
    long* pp = cfg.perm ? perm.p : nullptr;
    long ep = p; double *ax = Ax.p, *bb = b.p; long *aj = Aj.p, *ai = Ai.p;
    if (p == 0) {
      switch (cfg.eqenc) {  // an absent equality block, in every documented encoding
        case 0: ax = nullptr; bb = nullptr; aj = ai = nullptr; break;
        case 1: break;                                                            // p = 0, pointers present
        case 2: ep = 2; ax = nullptr; break;                                      // no A values
        case 3: ep = 3; bb = nullptr; break;                                      // no b
        case 4: ep = 1; if (dense) { ax = nullptr; } else aj = nullptr; break;    // no column pointers
        case 5: ep = 5; if (dense) { bb = nullptr; } else ai = nullptr; break;    // no row indices
        default: ep = 7; ax = nullptr; bb = nullptr; aj = ai = nullptr; break;
      }
    }
    if (dense) q = QP_SETUP_dense(n, m, ep, Px.p, ax, Gx.p, c.p, h.p, bb, pp, cfg.fmt == FMT_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
    else q = QP_SETUP(n, m, ep, Pj.p, Pi.p, Px.p, aj, ai, ax, Gj.p, Gi.p, Gx.p, c.p, h.p, bb, cfg.sigma_d, pp);
    if (!cfg.defaults) apply();
  }
  void apply() {
    q->options->maxit = cfg.maxit; q->options->reltol = cfg.reltol; q->options->abstol = cfg.abstol; q->options->sigma = cfg.sigma; q->options->verbose = cfg.verbose;
  }
  long solve() { return QP_SOLVE(q); }
  void cleanup() { if (q) { if (dense) QP_CLEANUP_dense(q); else QP_CLEANUP(q); } q = nullptr; }
  Snap snap(long ret = -9) {
    Snap s; s.flag = ret == -9 ? q->stats->Flag : ret; s.it = q->stats->IterationCount; s.amd = q->stats->AMD_RESULT;
    s.x.assign(q->x, q->x + n); s.z.assign(q->z, q->z + m); s.s.assign(q->s, q->s + m);
    if (p) s.y.assign(q->y, q->y + p);
    s.fval = q->stats->fval; s.nrx = q->stats->n_rx; s.nry = q->stats->n_ry; s.nrz = q->stats->n_rz; s.nmu = q->stats->n_mu; s.ap = q->stats->alpha_p; s.ad = q->stats->alpha_d;
    s.ts = q->stats->tsetup; s.tv = q->stats->tsolve; s.tk = q->stats->kkt_time; s.tl = q->stats->ldl_numeric;
    return s;
  }
  ~Inst() { cleanup(); }
};
// one full lifecycle on fresh buffers
static inline Snap run_once(const Prob& pr, const Cfg& cf, uint64_t encseed, const vl* perm = nullptr, Snap* start = nullptr) {
  Inst in; Rng r(encseed); if (perm) in.permv = *perm;
  in.load(pr, cf, r); in.setup(); if (start) *start = in.snap();
  long f = in.solve(); Snap s = in.snap(f); in.cleanup(); return s;
}
static inline Cfg rand_cfg(Rng& r, const Prob& q, bool opts = true) {
  Cfg c; c.fmt = (int)r.i(0, NFMT - 1); c.perm = r.b(.25); c.eqenc = (int)r.i(0, 6); (void)q;
  if (opts) {
    c.reltol = std::pow(10.0, r.u(-8.5, -3)); c.abstol = std::pow(10.0, r.u(-8.5, -3));
    if (c.fmt < FMT_ROW && r.b(.2)) { c.sigma_d = r.u(0.0, 0.3); c.abstol = std::max(c.abstol, 1e-6); }
    c.sigma = r.b(.7) ? 100 : r.u(0.5, 200);
  }
  return c;
}

// ------------------------------------------------------------------ oracles
static const ld EPS = 2.220446049250313e-16L;
struct Kkt { bool finite = true; ld rx = 0, ry = 0, rz = 0, mu = 0, f = 0; ld ex = 0, ey = 0, ez = 0, emu = 0, ef = 0; double mins = 1e300, minz = 1e300; };
static inline bool allfinite(const vd& v) { for (double t : v) if (!std::isfinite(t)) return false; return true; }
// residuals of the user's problem at (x,y,z,s) with running error bounds for a double evaluation
static inline Kkt kkt_eval(const Prob& q, const vd& x, const vd& y, const vd& z, const vd& s) {
  Kkt k; k.finite = allfinite(x) && allfinite(y) && allfinite(z) && allfinite(s);
  if (!k.finite) return k;
  int n = q.n, m = q.m, p = q.p;
  vld r(n), a(n), px(n, 0), pa(n, 0);
  for (int j = 0; j < n; j++) { r[j] = q.c[j]; a[j] = fabsl((ld)q.c[j]); }
  vl len(n, 2);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double v = q.P[(size_t)i * n + j]; if (v != 0) { ld t = (ld)v * x[j]; r[i] += t; a[i] += fabsl(t); px[i] += t; pa[i] += fabsl(t); len[i]++; } }
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) { double v = q.A[(size_t)i * n + j]; if (v != 0) { ld t = (ld)v * y[i]; r[j] += t; a[j] += fabsl(t); len[j]++; } }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double v = q.G[(size_t)i * n + j]; if (v != 0) { ld t = (ld)v * z[i]; r[j] += t; a[j] += fabsl(t); len[j]++; } }
  ld e2 = 0, s2 = 0;
  for (int j = 0; j < n; j++) { s2 += r[j] * r[j]; ld e = EPS * (2 * len[j] + 4) * a[j]; e2 += e * e; }
  k.rx = sqrtl(s2); k.ex = sqrtl(e2) + k.rx * EPS * (n + 8);
  s2 = e2 = 0;
  for (int i = 0; i < p; i++) { ld t = -(ld)q.b[i], b = fabsl((ld)q.b[i]); int L = 2; for (int j = 0; j < n; j++) { double v = q.A[(size_t)i * n + j]; if (v != 0) { ld w = (ld)v * x[j]; t += w; b += fabsl(w); L++; } } s2 += t * t; ld e = EPS * (2 * L + 4) * b; e2 += e * e; }
  k.ry = sqrtl(s2); k.ey = sqrtl(e2) + k.ry * EPS * (p + 8);
  s2 = e2 = 0;
  for (int i = 0; i < m; i++) { ld t = (ld)s[i] - q.h[i], b = fabsl((ld)q.h[i]) + fabsl((ld)s[i]); int L = 3; for (int j = 0; j < n; j++) { double v = q.G[(size_t)i * n + j]; if (v != 0) { ld w = (ld)v * x[j]; t += w; b += fabsl(w); L++; } } s2 += t * t; ld e = EPS * (2 * L + 4) * b; e2 += e * e; }
  k.rz = sqrtl(s2); k.ez = sqrtl(e2) + k.rz * EPS * (m + 8);
  ld g = 0, ga = 0; for (int i = 0; i < m; i++) { g += (ld)s[i] * z[i]; ga += fabsl((ld)s[i] * z[i]); k.mins = std::min(k.mins, s[i]); k.minz = std::min(k.minz, z[i]); }
  k.mu = g / m; k.emu = EPS * (2 * m + 8) * ga / m;
  ld f = 0, fa = 0; int L = n + 4; for (int j = 0; j < n; j++) { f += 0.5L * px[j] * x[j] + (ld)q.c[j] * x[j]; fa += fabsl(0.5L * pa[j] * x[j]) + fabsl((ld)q.c[j] * x[j]); L = std::max<int>(L, n + 2 * (int)len[j]); }
  k.f = f; k.ef = EPS * (2 * L + 8) * fa;
  return k;
}
static inline Kkt kkt_eval(const Prob& q, const Snap& s) { return kkt_eval(q, s.x, s.y, s.z, s.s); }
// does (k) meet the requested tolerances?  1 yes, 0 no, -1 too close to call
static inline int meets(const Kkt& k, const Prob& q, double reltol, double abstol) {
  ld t = (ld)reltol / sqrtl(3.0L); int r = 1;
  if (!k.finite) return 0;
  auto one = [&](ld v, ld e, ld lim) { e = 4 * e + 1e-13L * lim; if (v > lim + e) return 0; if (v < lim - e) return 1; return -1; };
  int a[4] = {one(k.rx, k.ex, t), one(k.rz, k.ez, t), q.p ? one(k.ry, k.ey, t) : 1, one(k.mu, k.emu, abstol)};
  for (int v : a) { if (v == 0) return 0; if (v < 0) r = -1; }
  return r;
}
static inline void describe(const Prob& q, const Cfg& c, char* buf, size_t n) {
  snprintf(buf, n, "fam=%s n=%d m=%d p=%d fmt=%s perm=%d sigma_d=%g reltol=%g abstol=%g sigma=%g maxit=%ld eqenc=%d", q.fam, q.n, q.m, q.p, FMTN[c.fmt], (int)c.perm, c.sigma_d, c.reltol, c.abstol, c.sigma, c.maxit, c.eqenc);
}
#define DESC(q, c) char desc[400]; describe(q, c, desc, sizeof desc)

static inline ld nrm(const vd& v) { ld s = 0; for (double t : v) s += (ld)t * t; return sqrtl(s); }
static inline ld ndiff(const vd& a, const vd& b) { ld s = 0; for (size_t i = 0; i < a.size(); i++) s += ((ld)a[i] - b[i]) * ((ld)a[i] - b[i]); return sqrtl(s); }
static inline ld infd(const vd& a, const vd& b) { ld s = 0; if (a.size() != b.size()) return 1e300L; for (size_t i = 0; i < a.size(); i++) { ld d = fabsl((ld)a[i] - b[i]); if (!(d <= s)) s = d; } return s; }
static inline ld infn(const vd& a) { ld s = 0; for (double t : a) { ld d = fabsl((ld)t); if (!(d <= s)) s = d; } return s; }

// ------------------------------------------------------------------ dense long-double reference
struct LU {  // partial pivoting
  int N = 0; vld M; vl pv; bool ok = true;
  ld& at(int i, int j) { return M[(size_t)i * N + j]; }
  void factor() {
    pv.resize(N); std::iota(pv.begin(), pv.end(), 0);
    for (int k = 0; k < N; k++) {
      int b = k; ld best = fabsl(at(k, k)); for (int i = k + 1; i < N; i++) if (fabsl(at(i, k)) > best) { best = fabsl(at(i, k)); b = i; }
      if (!(best > 1e-25L)) { ok = false; return; }
      if (b != k) { for (int j = 0; j < N; j++) std::swap(at(k, j), at(b, j)); std::swap(pv[k], pv[b]); }
      for (int i = k + 1; i < N; i++) { ld f = at(i, k) / at(k, k); at(i, k) = f; if (f != 0) for (int j = k + 1; j < N; j++) at(i, j) -= f * at(k, j); }
    }
  }
  vld solve(const vld& r) { vld x(N); for (int i = 0; i < N; i++) { ld t = r[pv[i]]; for (int j = 0; j < i; j++) t -= at(i, j) * x[j]; x[i] = t; } for (int i = N - 1; i >= 0; i--) { ld t = x[i]; for (int j = i + 1; j < N; j++) t -= at(i, j) * x[j]; x[i] = t / at(i, i); } return x; }
};
struct RefKkt { LU lu; vld K; int N = 0;
  void build(const Prob& q, const vld& d) { int n = q.n, m = q.m, p = q.p; N = n + m + p; K.assign((size_t)N * N, 0); auto at = [&](int i, int j) -> ld& { return K[(size_t)i * N + j]; };
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) at(i, j) = q.P[(size_t)i * n + j];
    for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) at(n + i, j) = at(j, n + i) = q.A[(size_t)i * n + j];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) at(n + p + i, j) = at(j, n + p + i) = q.G[(size_t)i * n + j];
    for (int i = 0; i < m; i++) at(n + p + i, n + p + i) = -d[i];
    lu.N = N; lu.M = K; lu.factor(); }
  // bound on the relative error of a solve d by the real code: rounding plus the regularisation of structurally zero pivots
  ld errbound(const Prob& q, const vld& d) {
    int n = q.n, p = q.p; ld dn = 0; for (ld t : d) dn = std::max(dn, fabsl(t)); if (dn == 0) return 0;
    vld e(N); ld kmax = 0; for (ld t : K) kmax = std::max(kmax, fabsl(t));
    for (int i = 0; i < N; i++) { bool zd = i < n + p && K[(size_t)i * N + i] == 0; ld a = 0; for (int j = 0; j < N; j++) a += fabsl(K[(size_t)i * N + j]) * fabsl(d[j]); e[i] = (zd || q.p ? 2e-7L : 0) * fabsl(d[i]) + 1e-13L * a; }
    // |K^-1| e by explicit columns
    vld acc(N, 0), u(N, 0);
    for (int j = 0; j < N; j++) { if (e[j] == 0) continue; std::fill(u.begin(), u.end(), 0); u[j] = 1; vld c = lu.solve(u); for (int i = 0; i < N; i++) acc[i] += fabsl(c[i]) * e[j]; }
    ld m_ = 0; for (ld t : acc) m_ = std::max(m_, t); return m_ / dn;
  }
};
struct RefState { vld x, y, z, s; ld sigma; };
struct RefStep { RefState nx; ld ap, ad; ld err; bool ok; bool centering; ld rho; };
static inline void ratio(const vld& s, const vld& ds, ld& a) { bool f = false; a = 1e10L; for (size_t i = 0; i < s.size(); i++) if (ds[i] < 0 && -s[i] / ds[i] < a) { a = -s[i] / ds[i]; f = true; } if (!f) a = 1; }
// one step of the documented method from the given state
static inline RefStep ref_step(const Prob& q, const RefState& st, ld sigma_d, bool wanterr = true) {
  int n = q.n, m = q.m, p = q.p, N = n + m + p; RefStep R; R.ok = true; R.err = 0; R.rho = 0;
  vld rx(n), ry(p), rz(m);
  for (int i = 0; i < n; i++) { ld t = -(ld)q.c[i]; for (int j = 0; j < n; j++) t -= (ld)q.P[(size_t)i * n + j] * st.x[j]; for (int k = 0; k < p; k++) t -= (ld)q.A[(size_t)k * n + i] * st.y[k]; for (int k = 0; k < m; k++) t -= (ld)q.G[(size_t)k * n + i] * st.z[k]; rx[i] = t; }
  for (int k = 0; k < p; k++) { ld t = q.b[k]; for (int j = 0; j < n; j++) t -= (ld)q.A[(size_t)k * n + j] * st.x[j]; ry[k] = t; }
  for (int k = 0; k < m; k++) { ld t = (ld)q.h[k] - st.s[k]; for (int j = 0; j < n; j++) t -= (ld)q.G[(size_t)k * n + j] * st.x[j]; rz[k] = t; }
  ld mu = 0; for (int i = 0; i < m; i++) mu += st.s[i] * st.z[i]; mu /= m;
  vld dd(m); for (int i = 0; i < m; i++) dd[i] = st.s[i] / st.z[i];
  RefKkt K; K.build(q, dd); if (!K.lu.ok) { R.ok = false; return R; }
  auto dir = [&](const vld& ds, vld& d, vld& dS) { vld r(N); for (int i = 0; i < n; i++) r[i] = rx[i]; for (int i = 0; i < p; i++) r[n + i] = ry[i]; for (int i = 0; i < m; i++) r[n + p + i] = rz[i] - ds[i] / st.z[i]; d = K.lu.solve(r); dS.resize(m); for (int i = 0; i < m; i++) dS[i] = (ds[i] - st.s[i] * d[n + p + i]) / st.z[i]; };
  vld ds(m), d, dS, dz(m); ld ap, ad; R.nx.sigma = st.sigma; R.centering = !(st.sigma > sigma_d);
  if (!R.centering) {
    for (int i = 0; i < m; i++) ds[i] = -st.s[i] * st.z[i];
    dir(ds, d, dS); if (wanterr) R.err = std::max(R.err, K.errbound(q, d));
    for (int i = 0; i < m; i++) dz[i] = d[n + p + i];
    ratio(st.s, dS, ap); ratio(st.z, dz, ad);
    ld num = 0, den = 0; for (int i = 0; i < m; i++) { num += (st.s[i] + ap * dS[i]) * (st.z[i] + ad * dz[i]); den += st.s[i] * st.z[i]; }
    ld rho = num / den; R.rho = rho; ld t = std::min<ld>(1, rho); R.nx.sigma = std::max<ld>(sigma_d, t * t * t);
    for (int i = 0; i < m; i++) ds[i] = -st.s[i] * st.z[i] - dS[i] * dz[i] + R.nx.sigma * mu;
  } else { R.nx.sigma = sigma_d; for (int i = 0; i < m; i++) ds[i] = -st.s[i] * st.z[i] + sigma_d * mu; }
  dir(ds, d, dS); if (wanterr) R.err = std::max(R.err, K.errbound(q, d));
  for (int i = 0; i < m; i++) dz[i] = d[n + p + i];
  ratio(st.s, dS, ap); ratio(st.z, dz, ad); R.ap = std::min<ld>(0.99L * ap, 1); R.ad = std::min<ld>(0.99L * ad, 1);
  R.nx.x = st.x; R.nx.y = st.y; R.nx.z = st.z; R.nx.s = st.s;
  for (int i = 0; i < n; i++) R.nx.x[i] += R.ap * d[i]; for (int i = 0; i < p; i++) R.nx.y[i] += R.ad * d[n + i]; for (int i = 0; i < m; i++) { R.nx.s[i] += R.ap * dS[i]; R.nx.z[i] += R.ad * dz[i]; }
  return R;
}
static inline bool ref_start(const Prob& q, RefState& st, ld* err = nullptr) {
  int n = q.n, m = q.m, p = q.p, N = n + m + p; RefKkt K; K.build(q, vld(m, 1.0L)); if (!K.lu.ok) return false;
  vld r(N); for (int i = 0; i < n; i++) r[i] = -(ld)q.c[i]; for (int i = 0; i < p; i++) r[n + i] = q.b[i]; for (int i = 0; i < m; i++) r[n + p + i] = q.h[i];
  vld d = K.lu.solve(r); if (err) *err = K.errbound(q, d);
  st.x.assign(d.begin(), d.begin() + n); st.y.assign(d.begin() + n, d.begin() + n + p); st.s.resize(m); st.z.resize(m);
  vld v(m); ld mn = 1e4000L, mx = -1e4000L; for (int k = 0; k < m; k++) { ld t = q.h[k]; for (int j = 0; j < n; j++) t -= (ld)q.G[(size_t)k * n + j] * d[j]; v[k] = t; mn = std::min(mn, t); mx = std::max(mx, t); }
  for (int k = 0; k < m; k++) { st.s[k] = -mn < 0 ? v[k] : v[k] + (1 - mn); st.z[k] = mx < 0 ? -v[k] : -v[k] + (1 + mx); }
  st.sigma = 100; return true;
}
static inline vd tod(const vld& v) { return vd(v.begin(), v.end()); }
static inline vld told(const vd& v) { return vld(v.begin(), v.end()); }
// iterations an independent long-double implementation needs; -1 if it does not get there
static inline int ref_ipm(const Prob& q, double reltol, double abstol, int maxit, RefState* fin = nullptr, ld sigma_d = 0, ld sigma = 100) {
  RefState st; if (!ref_start(q, st)) return -1; st.sigma = sigma;
  for (int k = 0; k <= maxit; k++) {
    vd x = tod(st.x), y = tod(st.y), z = tod(st.z), s = tod(st.s); Kkt kk = kkt_eval(q, x, y, z, s); ld t = (ld)reltol / sqrtl(3.0L);
    if (!kk.finite) return -1;
    if (kk.rx < t && kk.rz < t && (!q.p || kk.ry < t) && kk.mu < abstol) { if (fin) *fin = st; return k; }
    RefStep R = ref_step(q, st, sigma_d, false); if (!R.ok) return -1; st = R.nx;
  }
  return -1;
}


// truncated runs: iterate k of the solve (fresh instance, same data, tolerances that are never met)
static inline Snap iterate_k(const Prob& q, Cfg c, uint64_t enc, long k, const vl* perm = nullptr) {
  c.reltol = 0; c.abstol = 0; c.maxit = k; c.verbose = 0; return run_once(q, c, enc, perm);
}
// a lost solve that rounding alone explains is gone on neighbouring data: keep only failures most neighbours share
static inline bool persistent(Rng& r, const Prob& q, const std::function<bool(const Prob&)>& bad) {
  int k = 0;
  for (int t = 0; t < 8; t++) {
    Prob w = q; int n = q.n; auto f = [&]() { return 1 + 0.3 * r.u(-1, 1); };   // rescaled variables and rows: the same problem in other units
    for (int j = 0; j < n; j++) { double t = f(); w.c[j] *= t; for (int i = 0; i < n; i++) { w.p_(i, j) *= t; w.p_(j, i) *= t; } for (int i = 0; i < q.p; i++) w.a_(i, j) *= t; for (int i = 0; i < q.m; i++) w.g_(i, j) *= t; }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) w.p_(i, j) = w.p_(j, i);
    for (int i = 0; i < q.p; i++) { double t = f(); w.b[i] *= t; for (int j = 0; j < n; j++) w.a_(i, j) *= t; }
    for (int i = 0; i < q.m; i++) { double t = f(); w.h[i] *= t; for (int j = 0; j < n; j++) w.g_(i, j) *= t; }
    k += bad(w);
  }
  return k >= 5;
}
// random rescaling of rows, columns and objective (keeps convexity and feasibility; the answer changes scale)
static inline void rescale(Rng& r, Prob& q, double mag) {
  auto sc = [&]() { return std::ldexp(1.0, (int)std::lround(r.u(-mag, mag))); };
  for (int i = 0; i < q.p; i++) { double t = sc(); for (int j = 0; j < q.n; j++) q.a_(i, j) *= t; q.b[i] *= t; }
  for (int i = 0; i < q.m; i++) { double t = sc(); for (int j = 0; j < q.n; j++) q.g_(i, j) *= t; q.h[i] *= t; }
  if (r.b(.5)) { double t = sc(); for (auto& v : q.P) v *= t; for (auto& v : q.c) v *= t; }
  q.known = false; q.strict = false; q.sconvex = false;
}
// everything the library writes to stdout while f runs
struct Capture {
  int save = -1, fd = -1;
  Capture() { fflush(stdout); save = dup(1); char nm[] = "/tmp/qpmcapXXXXXX"; fd = mkstemp(nm); if (fd >= 0) unlink(nm); dup2(fd, 1); }
  void reset() { fflush(stdout); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
  std::vector<char> get() { fflush(stdout); long n = (long)lseek(fd, 0, SEEK_END); std::vector<char> b((size_t)n + 1, 0); if (n > 0 && pread(fd, b.data(), (size_t)n, 0) != n) b[0] = 0; return b; }
  ~Capture() { fflush(stdout); dup2(save, 1); close(save); close(fd); }
};

// ------------------------------------------------------------------ main loop
typedef void (*CaseFn)(Ctx&, Rng&);
static int qpm_main(int argc, char** argv, CaseFn fn, void (*fini)(Ctx&) = nullptr) {
  Ctx cx; long start = 0, count = 1; const char* prog = nullptr; const char* outf = nullptr; const char* hf = nullptr;
  for (int i = 1; i < argc; i++) {
    auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*)"0"; };
    if (!strcmp(argv[i], "--seed")) cx.seed = strtoull(val(), 0, 10);
    else if (!strcmp(argv[i], "--start")) start = atol(val());
    else if (!strcmp(argv[i], "--count")) count = atol(val());
    else if (!strcmp(argv[i], "--progress")) prog = val();
    else if (!strcmp(argv[i], "--out")) outf = val();
    else if (!strcmp(argv[i], "--hashes")) hf = val();
    else if (!strcmp(argv[i], "--thorough")) cx.thorough = true;
    else if (!strcmp(argv[i], "--replay")) { start = atol(val()); count = 1; cx.replay = true; }
  }
  if (outf) { cx.out = fopen(outf, "w"); if (!cx.out) return 9; }
  FILE* pf = prog ? fopen(prog, "w") : nullptr;
  for (long k = 0; k < count; k++) {
    cx.idx = start + k; cx.fails_case = 0;
    if (pf) { char b[32]; int L = snprintf(b, sizeof b, "%-20ld\n", cx.idx); if (pwrite(fileno(pf), b, L, 0) != L) return 9; }
    Rng r(mix(cx.seed * 1000003ull + 17, (uint64_t)cx.idx)); cx.evals++; fn(cx, r);
    if (cx.fails > 20) break;
  }
  if (fini) fini(cx);
  if (hf) { FILE* f = fopen(hf, "wb"); if (f) { if (!cx.hashes.empty()) fwrite(cx.hashes.data(), 8, cx.hashes.size(), f); fclose(f); } }
  fprintf(cx.out, "E\t%ld\t%ld\t%ld\t%ld", cx.evals, cx.nontrivial, cx.skipped, cx.fails);
  for (auto& c : cx.cnt) fprintf(cx.out, "\t%s=%.17g", c.k, c.v);
  fprintf(cx.out, "\nDONE\n"); fflush(cx.out); if (outf) fclose(cx.out);
  if (pf) fclose(pf);
  return 0;
}
