// C29: every sparse and vector kernel of the library against dense long-double models, on every shape
#include "gen2.hpp"
#define W __attribute__((weak))
extern "C" {
W void SparseMatrixSetup(qp_int, qp_int, qp_int, qp_int*, qp_int*, qp_real*, smat*); W void SparseMatrixMultiply(smat*, qp_real*, qp_real*, qp_int); W void SparseMatrixTransMultiply(smat*, qp_real*, qp_real*, qp_int);
W void SparseMatrixTranspose(smat*, smat*); W void formkktmatrix_U(smat*, smat*, smat*, smat*); W void formkktmatrix_full(smat*, smat*, smat*, smat*, smat*, smat*); W void updatekktmatrix(smat*, qp_real*, qp_real*, qp_real*, qp_real*, qp_real, qp_real, qp_int, qp_int, qp_int, qp_int);
W void updatekktmatrix_b(qp_real*, qp_real*, qp_real*, qp_real*, qp_real*, qp_real*, qp_int, qp_int, qp_int); W qp_int checksign(qp_real*, qp_real*, qp_real, qp_int); W void updatevariables(qp_real*, qp_real*, qp_real, qp_int);
W void formlambda(qp_real*, qp_real*, qp_real*, qp_int); W qp_real formrho(qp_real*, qp_real*, qp_real*, qp_real*, qp_real, qp_real, qp_int); W void findsteplength(qp_real*, qp_real*, qp_real*, qp_real*, qp_int, qp_real*, qp_real*);
W qp_real obj_value(smat*, qp_real*, qp_real*, qp_real*); W qp_real innerproduct(qp_real*, qp_real*, qp_int); W void densetosparse(qp_int, qp_int, qp_real*, smat*); W void densetosparse_ROWMAJOR(qp_int, qp_int, qp_real*, smat*);
W void form_ds(qp_real*, qp_real*, qp_real*, qp_real*, qp_real, qp_real, qp_int, qp_int); W void Transpose_Row_Count(qp_int, qp_int, qp_int*, qp_int*, qp_int*, qp_int*); W void test_reach(qp_int*, qp_int*, qp_int*, qp_int, qp_int, qp_int); W void computeresiduals(QP*);
W qp_real norm(qp_real*, qp_int); W void findminmax(qp_real*, long, qp_real*, qp_real*);
}
static bool specials;
static double val(Rng& r) {
  if (specials && r.b(.06)) switch (r.i(0, 5)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 4.9e-324; case 4: return -1e-310; default: return 1e-308; }
  switch (r.i(0, 5)) { case 0: return r.dy(16, 8); case 1: return (double)r.i(1, 9) * (r.b(.5) ? 1 : -1); case 2: return std::ldexp(r.n(), (int)r.i(-60, 60)); default: { double v = r.n(); return v == 0 ? 1 : v; } }
}
static vd vec(Rng& r, int n) { vd v(n); for (auto& t : v) t = val(r); return v; }
// a is an acceptable evaluation of the long-double value t whose terms sum to ab in magnitude
static bool ok(double a, ld t, ld ab, int len) {
  if (std::isnan((double)t)) return std::isnan(a);
  if (std::isinf((double)t) || ab > 1e306L) return std::isinf((double)t) && ab <= 1e306L ? a == (double)t : (std::isinf(t) ? bits(a, (double)t) : true);
  return fabsl((ld)a - t) <= 2 * EPS * (len + 3) * ab + (len + 2) * 5e-324L * 2;
}
struct Mat { int m = 0, n = 0; std::vector<std::vector<std::pair<long, double>>> col; Buf<long> jc, ir; Buf<double> pr; smat s; vl jv, iv; vd pv;
  void pack() { jv.assign(1, 0); iv.clear(); pv.clear(); for (auto& c : col) { for (auto& e : c) { iv.push_back(e.first); pv.push_back(e.second); } jv.push_back((long)iv.size()); } jc.set(jv); ir.set(iv); pr.set(pv);
    if (SparseMatrixSetup) SparseMatrixSetup(m, n, jv[n], jc.p, ir.p, pr.p, &s); else { s.jc = jc.p; s.ir = ir.p; s.pr = pr.p; s.m = m; s.n = n; s.nnz = jv[n]; } }
  bool same() const { return !memcmp(jc.p, jv.data(), jv.size() * 8) && (iv.empty() || (!memcmp(ir.p, iv.data(), iv.size() * 8) && !memcmp(pr.p, pv.data(), pv.size() * 8))); } };
static void rmat(Rng& r, Mat& M, int m, int n) {
  M.m = m; M.n = n; M.col.assign(n, {}); double d = r.b(.15) ? 0 : r.b(.2) ? 1 : r.u(); bool dup = r.b(.3), shuf = r.b(.4), xz = r.b(.3); int zr = r.b(.3) && m ? (int)r.i(0, m - 1) : -1, zc = r.b(.3) && n ? (int)r.i(0, n - 1) : -1;
  for (int j = 0; j < n; j++) { for (int i = 0; i < m; i++) if (i != zr && j != zc && r.b(d)) { M.col[j].push_back({i, xz && r.b(.2) ? 0.0 : val(r)}); if (dup && r.b(.2)) M.col[j].push_back({i, val(r)}); } if (shuf) r.shuffle(M.col[j]); }
  M.pack();
}
static int dim(Rng& r, bool zero) { return r.b(.15) ? (zero ? (int)r.i(0, 1) : 1) : r.b(.05) ? (int)r.i(20, 70) : (int)r.i(1, 9); }
typedef std::vector<std::vector<std::vector<double>>> Dense;   // every stored entry of every cell (specials cannot be summed)
struct TM { vl jc, ir; vd pr; };
static TM mirror(const Mat& M) { std::vector<std::vector<std::pair<long, double>>> t(M.m); for (int j = 0; j < M.n; j++) for (auto& e : M.col[j]) t[e.first].push_back({j, e.second}); TM o; o.jc.assign(1, 0); for (auto& c : t) { for (auto& e : c) { o.ir.push_back(e.first); o.pr.push_back(e.second); } o.jc.push_back((long)o.ir.size()); } return o; }
static bool eqm(const smat& s, const vl& jc, const vl& ir, const vd& pr) { if (memcmp(s.jc, jc.data(), jc.size() * 8)) return false; for (size_t k = 0; k < ir.size(); k++) if (s.ir[k] != ir[k] || !bits(s.pr[k], pr[k])) return false; return true; }
struct TB { Buf<long> jc, ir; Buf<double> pr; smat s; void alloc(int rows, int cols, long nz) { jc.set(vl(cols + 1, -7)); ir.set(vl(nz, -7)); pr.set(vd(nz, 777)); memset(&s, 0, sizeof s); s.jc = jc.p; s.ir = ir.p; s.pr = pr.p; s.m = rows; s.n = cols; s.nnz = nz; } };
// transposes of equal columns may legitimately list repeated entries in any order: compare as multisets per cell
static bool eqt(const smat& s, const TM& t) { int n = (int)t.jc.size() - 1; for (int j = 0; j <= n; j++) if (s.jc[j] != t.jc[j]) return false;
  for (int j = 0; j < n; j++) { std::vector<std::pair<long, uint64_t>> a, b; for (long k = t.jc[j]; k < t.jc[j + 1]; k++) { uint64_t u, v; memcpy(&u, &s.pr[k], 8); memcpy(&v, &t.pr[k], 8); a.push_back({s.ir[k], u}); b.push_back({t.ir[k], v}); if (k > t.jc[j] && s.ir[k] < s.ir[k - 1]) return false; } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) return false; } return true; }
static void conversions(Ctx& cx, Rng& r) {
  int m = dim(r, true), n = dim(r, true); vd R((size_t)m * n); double d = r.b(.15) ? 0 : r.b(.2) ? 1 : r.u(); int zr = r.b(.3) && m ? (int)r.i(0, m - 1) : -1, zc = r.b(.3) && n ? (int)r.i(0, n - 1) : -1;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) R[(size_t)i * n + j] = i != zr && j != zc && r.b(d) ? val(r) : (r.b(.3) ? -0.0 : 0.0);
  vl jc(1, 0), ir; vd pr; for (int j = 0; j < n; j++) { for (int i = 0; i < m; i++) if (R[(size_t)i * n + j] != 0) { ir.push_back(i); pr.push_back(R[(size_t)i * n + j]); } jc.push_back((long)ir.size()); }
  { Hash h; h.addi(m); h.addi(n); h.addv(R); cx.seen(h.h); }
  for (int k = 0; k < 2; k++) { Buf<double> B; vd src = k ? Inst::colmaj(R, m, n) : R; B.set(src); smat s; memset(&s, 0x5a, sizeof s); if (k ? !densetosparse : !densetosparse_ROWMAJOR) continue; if (k) densetosparse(m, n, B.p, &s); else densetosparse_ROWMAJOR(m, n, B.p, &s);
    cx.count("conversions"); if (s.m != m || s.n != n || s.nnz != (long)ir.size() || !eqm(s, jc, ir, pr)) cx.fail(k ? "densetosparse" : "densetosparse-rowmajor", "%d x %d matrix with %zu nonzeros: converted matrix has m=%ld n=%ld nnz=%ld or other entries", m, n, ir.size(), (long)s.m, (long)s.n, (long)s.nnz);
    if (src.size() && memcmp(B.p, src.data(), src.size() * 8)) cx.fail("conversion-input", "the dense input was written to"); free(s.jc); free(s.ir); free(s.pr); }
}
static void products(Ctx& cx, Rng& r) {
  int m = dim(r, true), n = dim(r, true); Mat M; rmat(r, M, m, n); { Hash h; h.addi(m); h.addi(n); h.addl(M.jv); h.addl(M.iv); h.addv(M.pv); cx.seen(h.h); }
  if (M.s.m != m || M.s.n != n || M.s.nnz != M.jv[n] || M.s.jc != M.jc.p || M.s.ir != M.ir.p || M.s.pr != M.pr.p) cx.fail("setup", "SparseMatrixSetup stored other dimensions or arrays");
  for (int start = 0; start < 2; start++) for (int tr = 0; tr < 2; tr++) {
    if (tr ? !SparseMatrixTransMultiply : !SparseMatrixMultiply) continue; int lx = tr ? m : n, ly = tr ? n : m; Buf<double> x, y; vd xv = vec(r, lx), yv = vec(r, ly); if (start && r.b(.5)) yv.assign(ly, NAN); x.set(xv); y.set(yv);
    vld t(ly), ab(ly); vl len(ly, 1); for (int i = 0; i < ly; i++) { t[i] = start ? 0 : yv[i]; ab[i] = fabsl(t[i]); }
    for (int j = 0; j < n; j++) for (auto& e : M.col[j]) { int o = tr ? j : (int)e.first; ld w = (ld)e.second * xv[tr ? e.first : j]; t[o] -= w; ab[o] += fabsl(w); len[o]++; }
    if (tr) SparseMatrixTransMultiply(&M.s, x.p, y.p, start ? (r.b(.5) ? 1 : -3) : 0); else SparseMatrixMultiply(&M.s, x.p, y.p, start ? (r.b(.5) ? 1 : 2) : 0);
    cx.count("products"); for (int i = 0; i < ly; i++) if (!ok(y.p[i], t[i], ab[i], (int)len[i])) { cx.fail(tr ? "trans-multiply" : "multiply", "%d x %d start=%d entry %d: %.17g, expected %.17Lg", m, n, start, i, y.p[i], t[i]); break; }
    if (lx && memcmp(x.p, xv.data(), lx * 8)) cx.fail("multiply-input", "the vector operand was written to"); }
  if (SparseMatrixTranspose) { TB T; TM w = mirror(M); T.alloc(n, m, M.jv[n]); SparseMatrixTranspose(&M.s, &T.s); cx.count("transposes"); if (!eqt(T.s, w)) cx.fail("transpose", "%d x %d matrix with %ld entries: the transpose differs", m, n, M.jv[n]); }
  if (Transpose_Row_Count) { Buf<long> ti, tp; ti.set(vl(M.jv[n], -1)); tp.set(vl(m + 1, -1)); TM w = mirror(M); Transpose_Row_Count(m, n, M.ir.p, M.jc.p, ti.p, tp.p); bool g = true; for (int i = 0; i <= m && g; i++) g = tp.p[i] == w.jc[i]; if (g) for (size_t k = 0; k < w.ir.size() && g; k++) g = ti.p[k] == w.ir[k]; cx.count("row_structures"); if (!g) cx.fail("row-structure", "%d x %d: the row structure differs", m, n); }
  if (!M.same()) cx.fail("matrix-input", "the matrix operand was written to");
}
// the assembled matrix against [P A' G'; A 0 0; G 0 diag]; every stored entry must have its counterpart
static bool kkt_ok(const smat& K, const Mat& P, const Mat* A, const Mat& G, const vd& diag, char* why, size_t wl) {
  int n = P.n, p = A ? A->m : 0, m = G.m, N = n + p + m; typedef std::pair<std::pair<long, long>, uint64_t> E; std::vector<E> want, got; auto put = [](std::vector<E>& v, long i, long j, double x) { uint64_t u; memcpy(&u, &x, 8); v.push_back({{j, i}, u}); };
  for (int j = 0; j < n; j++) { for (auto& e : P.col[j]) put(want, e.first, j, e.second); if (A) for (auto& e : A->col[j]) { put(want, n + e.first, j, e.second); put(want, j, n + e.first, e.second); } for (auto& e : G.col[j]) { put(want, n + p + e.first, j, e.second); put(want, j, n + p + e.first, e.second); } }
  for (int i = 0; i < m; i++) put(want, n + p + i, n + p + i, diag[i]);
  if (K.jc[0] != 0) { snprintf(why, wl, "first pointer %ld", (long)K.jc[0]); return false; } for (int j = 0; j < N; j++) if (K.jc[j + 1] < K.jc[j]) { snprintf(why, wl, "pointers descend at column %d", j); return false; }
  if (K.jc[N] != (long)want.size()) { snprintf(why, wl, "%ld stored entries, expected %zu", (long)K.jc[N], want.size()); return false; }
  for (int j = 0; j < N; j++) for (long k = K.jc[j]; k < K.jc[j + 1]; k++) put(got, K.ir[k], j, K.pr[k]);
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  for (size_t k = 0; k < want.size(); k++) if (want[k] != got[k]) { if (want[k].first == got[k].first) { double a, b; memcpy(&a, &got[k].second, 8); memcpy(&b, &want[k].second, 8); snprintf(why, wl, "entry (%ld,%ld) is %.17g, expected %.17g", want[k].first.second, want[k].first.first, a, b); if (std::fabs(a - b) <= 4e-16 * std::fabs(b)) continue; } else snprintf(why, wl, "entry (%ld,%ld) stored, expected (%ld,%ld)", got[k].first.second, got[k].first.first, want[k].first.second, want[k].first.first); return false; }
  return true;
}
static void assembly(Ctx& cx, Rng& r) {
  int n = dim(r, false), m = dim(r, false), p = r.b(.4) ? 0 : (int)r.i(1, n); Mat P, A, G; rmat(r, P, n, n); rmat(r, G, m, n); if (p) rmat(r, A, p, n); char why[256] = "";
  { Hash h; h.addi(n); h.addi(m); h.addi(p); h.addl(P.iv); h.addl(G.iv); h.addl(A.iv); h.addv(P.pv); h.addv(G.pv); cx.seen(h.h); }
  if (formkktmatrix_full && SparseMatrixTranspose) { TB Gt, At, K; Gt.alloc(n, m, G.jv[n]); SparseMatrixTranspose(&G.s, &Gt.s); Gt.s.m = n; Gt.s.n = m; if (p) { At.alloc(n, p, A.jv[n]); SparseMatrixTranspose(&A.s, &At.s); At.s.m = n; At.s.n = p; }
    long nz = P.jv[n] + 2 * G.jv[n] + (p ? 2 * A.jv[n] : 0) + m; int N = n + m + p; K.alloc(N, N, nz); bool half = !p && r.b(.5); smat dummy = G.s; formkktmatrix_full(&P.s, &G.s, p ? &A.s : half && r.b(.5) ? &dummy : nullptr, &Gt.s, p ? &At.s : nullptr, &K.s); cx.count("assemblies");
    vd dg(m, -1.0); if (!kkt_ok(K.s, P, p ? &A : nullptr, G, dg, why, sizeof why)) cx.fail("assembly", "n=%d m=%d p=%d: %s", n, m, p, why);
    else if (updatekktmatrix) { specials = false; for (int ind = 0; ind < 3; ind++) { Buf<double> s, z, ds, dz; vd sv(m), zv(m), dsv = vec(r, m), dzv = vec(r, m); for (auto& t : sv) t = std::pow(10, r.u(-9, 9)); for (auto& t : zv) t = std::pow(10, r.u(-9, 9)); s.set(sv); z.set(zv); ds.set(dsv); dz.set(dzv); double ap = r.u(), ad = r.u();
        if (ind == 2) { bool bad = false; for (int i = 0; i < m; i++) bad |= std::fabs(zv[i] - ad * dzv[i]) < 1e-6 * zv[i]; if (bad) continue; }
        updatekktmatrix(&K.s, s.p, z.p, ds.p, dz.p, ap, ad, m, n, p, ind); for (int i = 0; i < m; i++) { double a = sv[i] / zv[i], b = (sv[i] - ap * dsv[i]) / (zv[i] - ad * dzv[i]); dg[i] = ind == 0 ? -a : ind == 1 ? -(a - 1) : -(a - b); }
        cx.count("diagonal_updates"); if (ind == 0) { if (!kkt_ok(K.s, P, p ? &A : nullptr, G, dg, why, sizeof why)) { cx.fail("diagonal", "n=%d m=%d p=%d: %s", n, m, p, why); break; } }
        else { for (int i = 0; i < m; i++) { long c = n + p + i; double got = NAN; int cnt = 0; for (long k = K.s.jc[c]; k < K.s.jc[c + 1]; k++) if (K.s.ir[k] == c) { got = K.s.pr[k]; cnt++; } ld a = (ld)sv[i] / zv[i], b = ((ld)sv[i] - (ld)ap * dsv[i]) / ((ld)zv[i] - (ld)ad * dzv[i]), e = ind == 1 ? -(a - 1) : -(a - b), mag = ind == 1 ? fabsl(a) + 1 : fabsl(a) + (fabsl((ld)sv[i]) + fabsl((ld)ap * dsv[i])) / fabsl((ld)zv[i] - (ld)ad * dzv[i]) * (1 + (zv[i] + fabsl((ld)ad * dzv[i])) / fabsl((ld)zv[i] - (ld)ad * dzv[i]));
            if (cnt != 1 || !(fabsl(got - e) <= 32 * EPS * mag)) { cx.fail("diagonal-variant", "indicator %d, inequality %d of %d: %.17g, expected %.17Lg", ind, i, m, got, e); break; } } } } specials = r.b(.3); } }
  // upper-triangular form (no equalities; it is declared for matrices whose every row of G has an entry)
  if (formkktmatrix_U && SparseMatrixTranspose && !p) { vl rows(m, 0); for (auto& c : G.col) for (auto& e : c) rows[e.first]++; bool full = true; for (long t : rows) full &= t > 0;
    if (full) { TB Gt, K; Gt.alloc(n, m, G.jv[n]); SparseMatrixTranspose(&G.s, &Gt.s); Gt.s.m = n; Gt.s.n = m; long up = 0; for (int j = 0; j < n; j++) for (auto& e : P.col[j]) up += e.first <= j; K.alloc(n + m, n + m, up + G.jv[n] + m); formkktmatrix_U(&P.s, &G.s, &Gt.s, &K.s); cx.count("upper_assemblies");
      typedef std::pair<std::pair<long, long>, std::int64_t> T; std::vector<T> w, g; auto put = [](std::vector<T>& v, long i, long j, double x) { std::int64_t k; memcpy(&k, &x, 8); v.push_back({{j, i}, k}); }; for (int j = 0; j < n; j++) { for (auto& e : P.col[j]) if (e.first <= j) put(w, e.first, j, e.second); for (auto& e : G.col[j]) put(w, j, n + e.first, e.second); } for (int i = 0; i < m; i++) put(w, n + i, n + i, -1.0);
      bool good = K.s.jc[0] == 0 && K.s.jc[n + m] == (long)w.size(); for (int j = 0; j < n + m && good; j++) good = K.s.jc[j + 1] >= K.s.jc[j]; if (good) for (int j = 0; j < n + m; j++) for (long k = K.s.jc[j]; k < K.s.jc[j + 1]; k++) put(g, K.s.ir[k], j, K.s.pr[k]); std::sort(w.begin(), w.end()); std::sort(g.begin(), g.end()); if (!good || w != g) cx.fail("assembly-upper", "n=%d m=%d: the stored entries are not the upper triangle of the KKT matrix", n, m); } }
  if (!P.same() || !G.same() || (p && !A.same())) cx.fail("assembly-input", "an operand was written to");
}
// the matrices a real setup builds
static void after_setup(Ctx& cx, Rng& r) {
  Prob q = r.b(.5) ? gen_wild(r, (int)r.i(0, 1)) : gen_strict(r, (int)r.i(0, NFAM - 1), (int)r.i(0, r.b(.1) ? 2 : 1)); Cfg c = rand_cfg(r, q); if (c.fmt == FMT_MESS) c.fmt = FMT_DUP; Inst in; in.load(q, c, r); in.setup(); cx.seen(q.hash());
  auto mat = [](const smat* s, Mat& M) { M.m = (int)s->m; M.n = (int)s->n; M.col.assign(M.n, {}); for (int j = 0; j < M.n; j++) for (long k = s->jc[j]; k < s->jc[j + 1]; k++) M.col[j].push_back({s->ir[k], s->pr[k]}); M.pack(); }; Mat P, A, G; mat(in.q->P, P); mat(in.q->G, G); bool eq = in.q->p != 0; if (eq) mat(in.q->A, A);
  auto dense = [&](const Mat& M, const vd& D, const char* nm) { vd S(D.size(), 0); for (int j = 0; j < M.n; j++) for (auto& e : M.col[j]) S[(size_t)e.first * M.n + j] += e.second; for (size_t k = 0; k < D.size(); k++) if (S[k] != D[k] && !(std::isnan(S[k]) && std::isnan(D[k])) && !(std::fabs(D[k]) < 1e-300)) { cx.fail("setup-matrix", "%s: entry %zu is %.17g, the problem has %.17g", nm, k, S[k], D[k]); return; } };
  if (G.m != q.m || G.n != q.n || P.m != q.n || P.n != q.n || (eq && (A.m != q.p || A.n != q.n)) || eq != (q.p != 0)) { cx.fail("setup-shape", "matrices of other dimensions after setup"); return; }
  dense(P, q.P, "P"); dense(G, q.G, "G"); if (eq) dense(A, q.A, "A"); char why[256]; vd dg(q.m, -1.0);
  if (in.q->kkt && in.q->kkt->kktmatrix && in.q->kkt->kktmatrix->jc) { cx.count("setups"); if (!kkt_ok(*in.q->kkt->kktmatrix, P, eq ? &A : nullptr, G, dg, why, sizeof why)) { DESC(q, c); cx.fail("setup-kkt", "KKT matrix after setup: %s: %s", why, desc); } }
  if (in.q->Gt && !eqt(*in.q->Gt, mirror(G))) cx.fail("setup-transpose", "G' after setup differs"); if (eq && in.q->At && !eqt(*in.q->At, mirror(A))) cx.fail("setup-transpose", "A' after setup differs");
  // residuals of an arbitrary point through the library's own routine
  if (computeresiduals && r.b(.7)) { QP* Q = in.q; for (int i = 0; i < q.n; i++) Q->x[i] = r.n(); if (eq) for (int i = 0; i < q.p; i++) Q->y[i] = r.n(); for (int i = 0; i < q.m; i++) { Q->z[i] = r.u(.1, 3); Q->s[i] = r.u(.1, 3); } vd x(Q->x, Q->x + q.n), y, z(Q->z, Q->z + q.m), s(Q->s, Q->s + q.m); if (eq) y.assign(Q->y, Q->y + q.p); computeresiduals(Q); Kkt k = kkt_eval(q, x, y, z, s); cx.count("residuals");
    auto bad = [&](double a, ld t, ld e) { return !(fabsl(a - t) <= 4 * e + 1e-12L * t); }; if (k.finite && (bad(Q->stats->n_rx, k.rx, k.ex) || bad(Q->stats->n_rz, k.rz, k.ez) || (eq && bad(Q->stats->n_ry, k.ry, k.ey)) || bad(Q->stats->n_mu, k.mu, k.emu))) { DESC(q, c); cx.fail("residuals", "rx %.17g/%.17Lg ry %.17g/%.17Lg rz %.17g/%.17Lg mu %.17g/%.17Lg: %s", Q->stats->n_rx, k.rx, Q->stats->n_ry, k.ry, Q->stats->n_rz, k.rz, Q->stats->n_mu, k.mu, desc); } }
}
static void vectors(Ctx& cx, Rng& r) {
  int n = r.b(.1) ? (int)r.i(30, 200) : (int)r.i(0, 9); vd a = vec(r, n), b = vec(r, n); double al = r.b(.2) ? 0 : r.b(.2) ? -1 : r.n(); Buf<double> A, B; A.set(a); B.set(b); { Hash h; h.addv(a); h.addv(b); cx.seen(h.h); } cx.count("vector_cases");
  if (updatevariables) { updatevariables(A.p, B.p, al, n); for (int i = 0; i < n; i++) { ld w = (ld)b[i] * al; if (!ok(A.p[i], (ld)a[i] + w, fabsl((ld)a[i]) + fabsl(w), 2)) { cx.fail("updatevariables", "entry %d of %d: %.17g", i, n, A.p[i]); break; } } A.set(a); }
  if (innerproduct) { ld t = 0, ab = 0; for (int i = 0; i < n; i++) { ld w = (ld)a[i] * b[i]; t += w; ab += fabsl(w); } double g = innerproduct(A.p, B.p, n); if (!ok(g, t, ab, n)) cx.fail("innerproduct", "n=%d: %.17g, expected %.17Lg", n, g, t); }
  if (norm) { ld t = 0; for (double v : a) t += (ld)v * v; double g = norm(A.p, n); t = sqrtl(t); if (std::isnan((double)t) ? !std::isnan(g) : std::isinf((double)t) ? g != INFINITY : t > 1e150L || (t < 1e-140L) ? false : !(fabsl(g - t) <= 4 * EPS * (n + 4) * t)) cx.fail("norm", "n=%d: %.17g, expected %.17Lg", n, g, t); }
  bool sp = specials; specials = false; int m = (int)std::max(1, n); vd s(m), z(m), ds = vec(r, m), dz = vec(r, m); for (auto& t : s) t = r.b(.3) ? (double)r.i(1, 16) / 4 : r.u(1e-6, 9); for (auto& t : z) t = r.b(.3) ? (double)r.i(1, 16) / 4 : r.u(1e-6, 9);
  int mode = (int)r.i(0, 4); for (int i = 0; i < m; i++) { if (mode == 1) ds[i] = std::fabs(ds[i]); if (mode == 2) dz[i] = std::fabs(dz[i]); if (mode == 3) { ds[i] = r.b(.5) ? 0 : -(double)r.i(1, 8) / 4; dz[i] = r.b(.5) ? -0.0 : -(double)r.i(1, 8) / 4; } } Buf<double> S, Z, DS, DZ; S.set(s); Z.set(z); DS.set(ds); DZ.set(dz);
  if (findminmax) { double mn = 5, mx = -5; findminmax(A.n ? A.p : S.p, A.n ? n : m, &mn, &mx); const vd& v = A.n ? a : s; double em = v[0], eM = v[0]; bool nan = std::any_of(v.begin(), v.end(), [](double t) { return std::isnan(t); }); for (double t : v) { em = std::min(em, t); eM = std::max(eM, t); } if (!nan && (mn != em || mx != eM)) cx.fail("findminmax", "n=%zu: %g..%g, expected %g..%g", v.size(), mn, mx, em, eM); }
  if (findsteplength) { double ap = -1, ad = -1; findsteplength(S.p, DS.p, Z.p, DZ.p, m, &ap, &ad); cx.count("ratio_tests"); for (int k = 0; k < 2; k++) { const vd &x = k ? z : s, &d = k ? dz : ds; ld e = 1e300L; bool blk = false; for (int i = 0; i < m; i++) if (d[i] < 0) { e = std::min(e, -(ld)x[i] / d[i]); blk = true; } if (blk && e > 9e9L) continue; if (!blk) e = 1; else cx.count("blocked"); double g = k ? ad : ap; if (!(fabsl(g - e) <= 4 * EPS * e)) cx.fail("findsteplength", "%s step %.17g, the ratio test gives %.17Lg (m=%d)", k ? "dual" : "primal", g, e, m); } }
  if (checksign) { vd x = s, d = ds; double al2 = (double)r.i(0, 8) / 4; if (mode == 3) { for (auto& t : x) t = (double)r.i(-4, 16) / 4; } Buf<double> X, D; X.set(x); D.set(d); int w = 0; bool close = false; for (int i = 0; i < m; i++) { ld t = (ld)x[i] + (ld)al2 * d[i]; if (t < 0) w = 1; if (t != 0 && fabsl(t) < 4 * EPS * fabsl((ld)x[i])) close = true; } long g = checksign(X.p, D.p, al2, m); cx.count(w ? "sign_lost" : "sign_kept"); if (!close && (g != 0) != (w != 0)) cx.fail("checksign", "m=%d alpha=%g: %ld, expected %d", m, al2, g, w); }
  if (formlambda) { Buf<double> L; L.set(vd(m, NAN)); formlambda(L.p, S.p, Z.p, m); for (int i = 0; i < m; i++) { ld e = sqrtl((ld)s[i] * z[i]); if (!(fabsl(L.p[i] - e) <= 4 * EPS * e)) { cx.fail("formlambda", "entry %d of %d: %.17g, expected %.17Lg", i, m, L.p[i], e); break; } } }
  if (formrho) { double ap = r.u(), ad = r.u(); ld t = 0, ab = 0, q = 0; for (int i = 0; i < m; i++) { ld w1 = s[i] + (ld)ap * ds[i], w2 = z[i] + (ld)ad * dz[i]; t += w1 * w2; ab += (s[i] + fabsl((ld)ap * ds[i])) * (z[i] + fabsl((ld)ad * dz[i])); q += (ld)s[i] * z[i]; } double g = formrho(S.p, DS.p, Z.p, DZ.p, ap, ad, m); if (!(fabsl(g - t / q) <= 4 * EPS * (m + 6) * ab / q)) cx.fail("formrho", "m=%d: %.17g, expected %.17Lg", m, g, t / q); }
  if (form_ds) { double sg = r.u(), mu = r.u(0, 3); for (int sel : {(int)QP_PURE_NEWTON_STEP, (int)QP_CENTERING_CORRECTOR_STEP, (int)QP_CENTERING_STEP}) { Buf<double> O; O.set(vd(m, NAN)); Buf<double> L; L.set(s); form_ds(O.p, L.p, DS.p, DZ.p, sg, mu, m, sel); for (int i = 0; i < m; i++) { ld l2 = (ld)s[i] * s[i], c = sel == QP_CENTERING_CORRECTOR_STEP ? (ld)ds[i] * dz[i] : 0, k = sel == QP_PURE_NEWTON_STEP ? 0 : (ld)sg * mu; if (!ok(O.p[i], -l2 - c + k, l2 + fabsl(c) + k, 4)) { cx.fail("form_ds", "selector %d entry %d of %d: %.17g, expected %.17Lg", sel, i, m, O.p[i], -l2 - c + k); break; } } } }
  if (updatekktmatrix_b) { int nn = (int)r.i(1, 6), p = r.b(.4) ? 0 : (int)r.i(1, 4); vd rx = vec(r, nn), ry = vec(r, p), rz = vec(r, m); Buf<double> X, Y, R, O; X.set(rx); Y.set(ry); R.set(rz); O.set(vd(nn + p + m, NAN)); updatekktmatrix_b(O.p, X.p, Y.p, R.p, DS.p, Z.p, nn, m, p); bool g = true; for (int i = 0; i < nn; i++) g &= bits(O.p[i], rx[i]); for (int i = 0; i < p; i++) g &= bits(O.p[nn + i], ry[i]); for (int i = 0; i < m; i++) { ld w = (ld)ds[i] / z[i]; g &= ok(O.p[nn + p + i], rz[i] - w, fabsl((ld)rz[i]) + fabsl(w), 3); } if (!g) cx.fail("updatekktmatrix_b", "n=%d m=%d p=%d: right-hand side differs", nn, m, p); }
  specials = sp;
}
static void more(Ctx& cx, Rng& r) {
  if (obj_value) { int n = dim(r, false); specials = false; Mat P; rmat(r, P, n, n); vd c = vec(r, n), x = vec(r, n); Buf<double> C, X, T; C.set(c); X.set(x); T.set(vd(n, NAN)); ld t = 0, ab = 0; int len = 0; for (int j = 0; j < n; j++) { for (auto& e : P.col[j]) { ld w = .5L * x[j] * (ld)e.second * x[e.first]; t += w; ab += fabsl(w); len++; } ld w = (ld)c[j] * x[j]; t += w; ab += fabsl(w); } double g = obj_value(&P.s, C.p, X.p, T.p); cx.count("objectives"); if (!ok(g, t, ab, 2 * n + len + 8)) cx.fail("obj_value", "n=%d: %.17g, expected %.17Lg", n, g, t); }
  if (test_reach) { int n = (int)r.i(1, 9), m = (int)r.i(1, 9), p = (int)r.i(0, 4), N = n + m + p; vl par(N), perm = rand_perm(r, N), pinv(N); for (int k = 0; k < N; k++) pinv[perm[k]] = k; for (int k = 0; k < N; k++) par[k] = k == N - 1 || r.b(.15) ? -1 : r.i(k + 1, N - 1); std::vector<char> w(N, 0); w[N - 1] = 1; for (int j = n + p; j < N; j++) for (long i = pinv[j]; i != -1; i = par[i]) w[i] = 1; Buf<long> A, B, U; A.set(par); B.set(pinv); U.set(vl(N, 0)); test_reach(A.p, B.p, U.p, n, m, p); cx.count("reaches"); for (int i = 0; i < N; i++) if ((U.p[i] == N) != (w[i] != 0)) { cx.fail("test_reach", "node %d of %d: marked %d, reachable %d", i, N, (int)(U.p[i] == N), (int)w[i]); break; } }
}
static void one(Ctx& cx, Rng& r) {
  specials = r.b(.3);
  switch (cx.idx % 5) { case 0: conversions(cx, r); break; case 1: products(cx, r); break; case 2: assembly(cx, r); break; case 3: specials = false; after_setup(cx, r); break; default: vectors(cx, r); more(cx, r); }
}
int main(int a, char** v) { return qpm_main(a, v, one); }
