// large sparse problems, never stored densely: generators with closed-form optima where possible, and sparse long-double oracles
#pragma once
#include "graphs.hpp"
struct SM { long r = 0, c = 0; vl jc, ir; vd pr; long nnz() const { return (long)ir.size(); } };
struct Trip { std::vector<std::vector<std::pair<long, double>>> col; void init(long c) { col.assign((size_t)c, {}); } void add(long i, long j, double v) { col[(size_t)j].push_back({i, v}); }
  SM csc(long r) { SM M; M.r = r; M.c = (long)col.size(); M.jc.push_back(0); for (auto& c : col) { std::sort(c.begin(), c.end()); for (auto& t : c) { M.ir.push_back(t.first); M.pr.push_back(t.second); } M.jc.push_back((long)M.ir.size()); } return M; } };
struct SProb { long n = 0, m = 0, p = 0; SM P, A, G; vd c, b, h; const char* fam = ""; bool known = false; vd xs;
  uint64_t hash() const { Hash k; k.addi(n); k.addi(m); k.addi(p); for (const SM* M : {&P, &A, &G}) { k.addl(M->jc); k.addl(M->ir); k.addv(M->pr); } k.addv(c); k.addv(b); k.addv(h); return k.h; } };
enum { SF_BOX, SF_CHAIN, SF_MPC, SF_PORT, SF_TALL, SF_WIDE, SF_GRID, SF_ARROW, SF_PINNED, SF_BLOCKS, SF_RANDOM, NSF };
static const char* SFN[] = {"separable-box", "chain", "dynamics", "portfolio", "tall", "wide", "grid", "arrow", "pinned", "blocks", "random"};
// size: 0 thousands, 1 tens of thousands, 2 beyond every 16-bit limit
static inline SProb gen_sparse(Rng& r, int fam, int size) {
  SProb q; q.fam = SFN[fam]; Trip P, A, G; long n, m = 0, p = 0; auto dim = [&](long a, long b, long c) { return size == 0 ? r.i(a, 2 * a) : size == 1 ? r.i(b, 2 * b) : r.i(c, c + c / 8); };
  auto box = [&](double lo, double hi) { for (long j = 0; j < n; j++) { G.add(j, j, 1); G.add(n + j, j, -1); } m = 2 * n; q.h.resize(m); for (long j = 0; j < n; j++) { q.h[j] = r.u(hi, hi + 1); q.h[n + j] = r.u(lo, lo + 1); } };
  auto strict = [&]() { vd x0(n), x1(n), y0(p), z0(m); for (auto& v : x0) v = r.n(); for (auto& v : x1) v = r.n(); for (auto& v : y0) v = r.n(); for (auto& v : z0) v = r.u(.1, 2);
    vld gx(m, 0), ax(p, 0); for (long j = 0; j < n; j++) { for (auto& t : G.col[j]) gx[t.first] += (ld)t.second * x0[j]; for (auto& t : A.col[j]) ax[t.first] += (ld)t.second * x0[j]; }
    q.h.resize(m); q.b.resize(p); for (long i = 0; i < m; i++) q.h[i] = (double)(gx[i] + r.u(.1, 2)); for (long i = 0; i < p; i++) q.b[i] = (double)ax[i];
    vld g(n, 0); for (long j = 0; j < n; j++) { for (auto& t : P.col[j]) g[t.first] += (ld)t.second * x1[j]; for (auto& t : G.col[j]) g[j] += (ld)t.second * z0[t.first]; for (auto& t : A.col[j]) g[j] += (ld)t.second * y0[t.first]; }
    q.c.resize(n); for (long j = 0; j < n; j++) q.c[j] = (double)-g[j]; };
  auto init = [&](long k) { n = k; P.init(n); A.init(n); G.init(n); };
  vd pd; auto diagP = [&]() { pd.resize(n); for (long j = 0; j < n; j++) P.add(j, j, pd[j] = r.u(.3, 3)); };
  switch (fam) {
    case SF_BOX: { init(dim(700, 7000, 35000)); diagP(); box(.2, .2); q.c.resize(n); q.xs.resize(n); for (long j = 0; j < n; j++) { q.c[j] = r.n() * 2; q.xs[j] = std::min(q.h[j], std::max(-q.h[n + j], -q.c[j] / pd[j])); } q.known = true; break; }
    case SF_CHAIN: { init(dim(700, 6000, 34000)); for (long j = 0; j < n; j++) { P.add(j, j, r.u(2.2, 4)); if (j) { double v = r.u(-1, 1); P.add(j, j - 1, v); P.add(j - 1, j, v); } } if (r.b(.5)) { m = n - 1; for (long j = 0; j + 1 < n; j++) { G.add(j, j, r.u(.5, 1.5)); G.add(j, j + 1, r.n()); } strict(); } else { box(.5, .5); q.c.resize(n); for (auto& v : q.c) v = r.n(); } break; }
    case SF_MPC: { long N = dim(300, 2500, 17000); init(2 * N); double a = r.u(.3, 1), bb = r.u(.3, 1); diagP(); p = N; for (long k = 0; k < N; k++) { A.add(k, 2 * k + 1, -1); A.add(k, 2 * k, bb); if (k) A.add(k, 2 * k - 1, a); } box(2, 2); q.c.resize(n); for (auto& v : q.c) v = r.n() * .5; q.b.assign(p, 0); q.b[0] = r.u(-1, 1); break; }
    case SF_PORT: { init(dim(800, 6000, 34000)); diagP(); p = 1; m = n; for (long j = 0; j < n; j++) { A.add(0, j, 1); G.add(j, j, -1); } q.b.assign(1, (double)n / 50); q.h.assign(m, 0); q.c.resize(n); for (auto& v : q.c) v = r.n();
      ld lo = -100, hi = 100; for (int t = 0; t < 200; t++) { ld y = (lo + hi) / 2, s = 0; for (long j = 0; j < n; j++) s += std::max<ld>(0, -(q.c[j] + y) / pd[j]); (s > q.b[0] ? lo : hi) = y; } q.xs.resize(n); for (long j = 0; j < n; j++) q.xs[j] = (double)std::max<ld>(0, -(q.c[j] + lo) / pd[j]); q.known = true; break; }
    case SF_TALL: { init(r.i(1, 4)); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) P.add(i, j, i == j ? 2 : .3); m = dim(1500, 10000, 67000); for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) if (n == 1 || (i + j) % 3) G.add(i, j, r.n()); strict(); break; }
    case SF_WIDE: { init(dim(1500, 10000, 67000)); diagP(); m = r.i(1, 2); for (long i = 0; i < m; i++) for (long j = i; j < n; j += m) G.add(i, j, r.b(.5) ? 1 : -1); if (m == 1 && n > 5000 && r.b(.3)) { p = 1; A.add(0, n - 1, 1); } strict(); break; }
    case SF_GRID: { long k = size == 0 ? r.i(15, 30) : size == 1 ? r.i(40, 60) : r.i(100, 110); init(k * k); for (long y = 0; y < k; y++) for (long x = 0; x < k; x++) { long v = y * k + x; P.add(v, v, 4.1); if (x + 1 < k) { P.add(v, v + 1, -1); P.add(v + 1, v, -1); } if (y + 1 < k) { P.add(v, v + k, -1); P.add(v + k, v, -1); } } m = n; for (long j = 0; j < n; j++) { G.add(j, j, -1); } q.h.resize(m); for (auto& v : q.h) v = r.u(0, .4); q.c.resize(n); for (auto& v : q.c) v = r.u(-.2, 1); break; }
    case SF_ARROW: { init(dim(900, 7000, 34000)); for (long j = 0; j < n; j++) { P.add(j, j, j ? 2 : 1 + (double)n / 8); if (j) { double v = r.u(-.5, .5); P.add(0, j, v); P.add(j, 0, v); } } m = r.i(1, n); for (long i = 0; i < m; i++) G.add(i, i, r.b(.5) ? 1 : -1); strict(); break; }
    case SF_PINNED: { init(dim(900, 7000, 34000)); diagP(); p = n - r.i(0, n / 3); for (long j = 0; j < p; j++) A.add(j, j, r.b(.5) ? 1 : r.u(.5, 2)); m = n; for (long j = 0; j < n; j++) G.add(j, j, 1); q.b.resize(p); q.h.resize(m); q.c.resize(n); q.xs.resize(n); for (long j = 0; j < n; j++) { q.c[j] = r.n(); if (j < p) { q.xs[j] = r.n(); q.b[j] = A.col[j][0].second * q.xs[j]; q.xs[j] = q.b[j] / A.col[j][0].second; q.h[j] = q.xs[j] + r.u(.1, 1); } else { q.h[j] = r.n(); q.xs[j] = std::min(q.h[j], -q.c[j] / pd[j]); } } q.known = true; break; }
    case SF_BLOCKS: { init(size == 0 ? r.i(500, 1200) : size == 1 ? r.i(2000, 4000) : r.i(4000, 6000)); std::vector<long> lab(n); std::iota(lab.begin(), lab.end(), 0L); r.shuffle(lab); bool band = r.b(.6); long w = (long)(r.u(1.2, 3) * std::sqrt(2.0 * n) / (band ? 2 : 1)); if (band) for (long i = 0; i < n; i++) for (long j = std::max(0L, i - w); j <= i; j++) { double v = i == j ? 1 + 1.2 * w : r.u(-.5, .5); P.add(lab[i], lab[j], v); if (i != j) P.add(lab[j], lab[i], v); } else
      for (long a = 0; a < n; a += w) { long e = std::min(n, a + w); for (long i = a; i < e; i++) for (long j = a; j <= i; j++) { double v = i == j ? 1 + .6 * (e - a) : r.u(-.5, .5); P.add(lab[i], lab[j], v); if (i != j) P.add(lab[j], lab[i], v); } }
      m = n; for (long j = 0; j < n; j++) G.add(j, lab[j], r.b(.5) ? 1 : -1); strict(); break; }
    default: { init(size == 0 ? r.i(200, 500) : size == 1 ? r.i(500, 900) : r.i(900, 1300)); diagP(); m = 2 * n; p = r.i(0, n / 4); for (long i = 0; i < m; i++) for (int t = 0; t < 2; t++) { long j = r.i(0, n - 1); bool dup = false; for (auto& e : G.col[j]) dup |= e.first == i; if (!dup) G.add(i, j, r.n()); } for (long i = 0; i < p; i++) { A.add(i, i, 1 + r.u()); A.add(i, p + r.i(0, n - p - 1), r.n()); } strict(); break; } }
  q.n = n; q.m = m; q.p = p; q.P = P.csc(n); q.A = A.csc(p); q.G = G.csc(m); return q;
}
// one stretch of constraints (first, last or in between) written in much larger units: residuals then live there
static inline void hot_rows(Rng& r, SProb& q) { long a = r.i(0, 2), k = std::max<long>(1, (long)(q.m * r.u(.002, .2))), b = a == 0 ? 0 : a == 1 ? q.m - k : r.i(0, q.m - k); double f = std::exp2((double)r.i(2, 10)); for (size_t t = 0; t < q.G.ir.size(); t++) if (q.G.ir[t] >= b && q.G.ir[t] < b + k) q.G.pr[t] *= f; for (long i = b; i < b + k; i++) q.h[i] *= f; }
struct SInst { QP* q = nullptr; SProb w; vl perm; double sd = 0; bool useperm = false;   // w: the arrays handed over
  explicit SInst(const SProb& pr) : w(pr) {}
  void setup() { q = QP_SETUP(w.n, w.m, w.p, w.P.jc.data(), w.P.ir.data(), w.P.pr.data(), w.p ? w.A.jc.data() : nullptr, w.p ? w.A.ir.data() : nullptr, w.p ? w.A.pr.data() : nullptr, w.G.jc.data(), w.G.ir.data(), w.G.pr.data(), w.c.data(), w.h.data(), w.p ? w.b.data() : nullptr, sd, useperm ? perm.data() : nullptr); }
  Snap snap(long f) { Snap s; s.flag = f; s.it = q->stats->IterationCount; s.amd = q->stats->AMD_RESULT; s.x.assign(q->x, q->x + w.n); s.z.assign(q->z, q->z + w.m); s.s.assign(q->s, q->s + w.m); if (w.p) s.y.assign(q->y, q->y + w.p); s.fval = q->stats->fval; s.nrx = q->stats->n_rx; s.nry = q->stats->n_ry; s.nrz = q->stats->n_rz; s.nmu = q->stats->n_mu; return s; }
  void cleanup() { QP_CLEANUP(q); q = nullptr; } };
static inline Kkt skkt(const SProb& q, const Snap& v) {
  Kkt k; k.finite = allfinite(v.x) && allfinite(v.y) && allfinite(v.z) && allfinite(v.s); if (!k.finite) return k; long n = q.n, m = q.m, p = q.p;
  vld rx(n), ax(n), ry(p), ay(p), rz(m), az(m), px(n, 0), pa(n, 0); vl lx(n, 2), ly(p, 2), lz(m, 3); for (long j = 0; j < n; j++) { rx[j] = q.c[j]; ax[j] = fabsl(rx[j]); } for (long i = 0; i < p; i++) { ry[i] = -(ld)q.b[i]; ay[i] = fabsl(ry[i]); } for (long i = 0; i < m; i++) { rz[i] = (ld)v.s[i] - q.h[i]; az[i] = fabsl((ld)v.s[i]) + fabsl((ld)q.h[i]); }
  for (long j = 0; j < n; j++) {
    for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) { long i = q.P.ir[t]; ld e = (ld)q.P.pr[t] * v.x[j]; rx[i] += e; ax[i] += fabsl(e); px[i] += e; pa[i] += fabsl(e); lx[i]++; }
    for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) { long i = q.G.ir[t]; ld e = (ld)q.G.pr[t] * v.z[i]; rx[j] += e; ax[j] += fabsl(e); lx[j]++; e = (ld)q.G.pr[t] * v.x[j]; rz[i] += e; az[i] += fabsl(e); lz[i]++; }
    if (p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) { long i = q.A.ir[t]; ld e = (ld)q.A.pr[t] * v.y[i]; rx[j] += e; ax[j] += fabsl(e); lx[j]++; e = (ld)q.A.pr[t] * v.x[j]; ry[i] += e; ay[i] += fabsl(e); ly[i]++; } }
  auto nr = [&](const vld& r, const vld& a, const vl& L, ld& out, ld& err) { ld s = 0, e2 = 0; for (size_t i = 0; i < r.size(); i++) { s += r[i] * r[i]; ld e = EPS * (2 * L[i] + 4) * a[i]; e2 += e * e; } out = sqrtl(s); err = sqrtl(e2) + out * EPS * (r.size() + 8); };
  nr(rx, ax, lx, k.rx, k.ex); nr(ry, ay, ly, k.ry, k.ey); nr(rz, az, lz, k.rz, k.ez);
  ld g = 0, ga = 0; for (long i = 0; i < m; i++) { ld t = (ld)v.s[i] * v.z[i]; g += t; ga += fabsl(t); k.mins = std::min(k.mins, v.s[i]); k.minz = std::min(k.minz, v.z[i]); } k.mu = g / m; k.emu = EPS * (2 * m + 8) * ga / m;
  ld f = 0, fa = 0; long L = n + 4; for (long j = 0; j < n; j++) { f += .5L * px[j] * v.x[j] + (ld)q.c[j] * v.x[j]; fa += fabsl(.5L * pa[j] * v.x[j]) + fabsl((ld)q.c[j] * v.x[j]); L = std::max(L, n + 2 * lx[j]); } k.f = f; k.ef = EPS * (2 * L + 8) * fa; return k;
}
// the KKT pattern as adjacency lists
static inline Adj kkt_adj(const SProb& q) { Adj a((size_t)(q.n + q.m + q.p)); auto e = [&](long i, long j) { a[i].push_back(j); a[j].push_back(i); };
  for (long j = 0; j < q.n; j++) { for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) if (q.P.ir[t] < j) e(q.P.ir[t], j); if (q.p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) e(q.n + q.A.ir[t], j); for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) e(q.n + q.p + q.G.ir[t], j); } for (auto& c : a) std::sort(c.begin(), c.end()); return a; }
