// C21: sparse LDL' factorisation: structure, backward error of factor and solves, pivot regularisation, validators
#include "graphs.hpp"
extern "C" { __attribute__((weak)) qp_int LDL_cache_numeric(qp_int, qp_int*, qp_int*, qp_real*, qp_int*, qp_int*, qp_int*, qp_int*, qp_real*, qp_real*, qp_real*, qp_int*, qp_int*, qp_int*); __attribute__((weak)) qp_int LDL_row_cache_numeric(qp_int, qp_int*, qp_int*, qp_real*, qp_int*, qp_int*, qp_int*, qp_int*, qp_real*, qp_real*, qp_real*, qp_int*, qp_int*, qp_int*); __attribute__((weak)) void Transpose_Row_Count(qp_int, qp_int, qp_int*, qp_int*, qp_int*, qp_int*); }
static void validators(Ctx& cx, Rng& r, int n, const vl& Ap, const vl& Ai) {
  Buf<long> b, fl; fl.set(vl(n, -3)); vl p = rand_perm(r, n); b.set(p);
  if (LDL_valid_perm(n, n ? b.p : nullptr, n ? fl.p : fl.p) != 1) cx.fail("perm-rejected", "a valid permutation of %d was rejected", n); if (LDL_valid_perm(n, nullptr, fl.p) != 1) cx.fail("perm-null", "absent permutation rejected"); if (LDL_valid_perm(n, b.p, nullptr) != 0) cx.fail("perm-noflag", "missing workspace accepted"); if (LDL_valid_perm(-1, b.p, fl.p) != 0) cx.fail("perm-negative", "negative size accepted");
  if (n) for (int k = 0; k < 3; k++) { vl q = p; int at = k == 0 ? 0 : k == 1 ? n - 1 : (int)r.i(0, n - 1); switch (r.i(0, 3)) { case 0: q[at] = n; break; case 1: q[at] = -1; break; case 2: q[at] = r.b(.5) ? 0x7fffffffffffffffL : (long)0x8000000000000000L; break; default: if (n < 2) { q[at] = 7; break; } { int o = (int)r.i(0, n - 2); if (o >= at) o++; q[at] = q[o]; } } b.set(q); fl.set(vl(n, r.i(-2, 2))); cx.count("bad_permutations"); if (LDL_valid_perm(n, b.p, fl.p) != 0) cx.fail("perm-accepted", "invalid permutation accepted, n=%d entry %d=%ld", n, at, q[at]); }
  Buf<long> a, i; a.set(Ap); i.set(Ai); if (LDL_valid_matrix(n, a.p, i.p) != 1) cx.fail("matrix-rejected", "valid matrix rejected, n=%d", n);
  if (LDL_valid_matrix(n, nullptr, i.p) || LDL_valid_matrix(n, a.p, nullptr) || LDL_valid_matrix(-1, a.p, i.p)) cx.fail("matrix-null", "missing array or negative size accepted");
  if (!Ai.empty()) { vl t = Ai; size_t at = r.b(.3) ? 0 : r.b(.4) ? t.size() - 1 : (size_t)r.i(0, (long)t.size() - 1); t[at] = r.b(.5) ? n + r.i(0, 2) : -1 - r.i(0, 2); i.set(t); cx.count("bad_matrices"); if (LDL_valid_matrix(n, a.p, i.p)) cx.fail("matrix-row", "row %ld accepted in a matrix of %d rows", t[at], n); i.set(Ai); }
  { vl t = Ap; t[0] = r.b(.5) ? 1 : -1; a.set(t); if (LDL_valid_matrix(n, a.p, i.p)) cx.fail("matrix-first", "first pointer %ld accepted", t[0]); }
  if (n >= 1) { vl t = Ap; int k = (int)r.i(1, n); t[k] = t[k - 1] - r.i(1, 9); a.set(t); cx.count("bad_matrices"); if (LDL_valid_matrix(n, a.p, i.p)) cx.fail("matrix-pointers", "descending pointers accepted (%ld after %ld)", t[k], t[k - 1]); }
  if (n >= 2) { vl t = Ap; int k = (int)r.i(1, n - 1); t[k] = t[k + 1] + r.i(1, 9); a.set(t); cx.count("bad_matrices"); if (LDL_valid_matrix(n, a.p, i.p)) cx.fail("matrix-pointers", "descending pointers accepted"); }
}
// output arrays start as NaNs with a recognisable payload, which arithmetic preserves
static double sentinel() { uint64_t u = 0x7ff80000dead0000ULL; double d; memcpy(&d, &u, 8); return d; }
static bool is_sentinel(double d) { uint64_t u; memcpy(&u, &d, 8); return (u & 0x000fffffffff0000ULL) == 0x00080000dead0000ULL && std::isnan(d); }
static void one(Ctx& cx, Rng& r) {
  Pat S = gen_pat(r, r.b(.04) ? 150 : r.b(.3) ? 40 : 14); int n = S.n; int kind = (int)r.i(0, 6); double scale = r.b(.2) ? std::pow(10.0, r.u(-9, 9)) : 1;
  // symmetric values; some diagonals absent, zero or tiny
  std::vector<vd> A(n, vd(n, 0)); std::vector<std::vector<char>> has(n, std::vector<char>(n, 0)); int nv = n / 2;
  for (int j = 0; j < n; j++) for (long i : S.col[j]) if (i < j) { A[i][j] = A[j][i] = (kind == 6 ? r.dy(4, 1) : r.n()) * scale; if (r.b(.03)) A[i][j] = A[j][i] = 0; has[i][j] = has[j][i] = 1; }
  for (int j = 0; j < n; j++) { has[j][j] = 1; switch (kind) { case 0: { ld t = 1; for (long i : S.col[j]) t += fabs(A[i][j]) / scale; A[j][j] = (double)(t * scale * (r.b(.5) ? 1 : -1)); break; } case 1: A[j][j] = (j < nv ? 1 : -1) * r.u(.3, 3) * scale; break; case 2: A[j][j] = r.n() * scale; break; case 3: if (j < nv) A[j][j] = r.u(.5, 2) * scale; else if (r.b(.5)) has[j][j] = 0; break; case 4: if (r.b(.4)) { has[j][j] = r.b(.5); } else A[j][j] = r.n() * scale; break;
      case 5: A[j][j] = r.b(.3) ? (r.b(.5) ? 1 : -1) * std::pow(10.0, r.u(-16, -12)) : (r.b(.1) ? (r.b(.5) ? 1e-14 : -1e-14) : r.n() * scale); break; default: A[j][j] = r.b(.2) ? 0 : (double)r.i(-6, 6); } }
  bool useP = r.b(.8); vl perm(n); std::iota(perm.begin(), perm.end(), 0); if (useP) { if (r.b(.5)) r.shuffle(perm); else if (n) { Buf<long> ap, ai, P; vl a(n + 1, 0), b; for (int j = 0; j < n; j++) { for (long i : S.col[j]) b.push_back(i); a[j + 1] = (long)b.size(); } ap.set(a); ai.set(b); P.set(vl(n)); double C[AMD_CONTROL]; amd_l_defaults(C); if (amd_l_order(n, ap.p, ai.p, P.p, C, nullptr) >= 0) perm.assign(P.p, P.p + n); } }
  vl inv(n); for (int k = 0; k < n; k++) inv[perm[k]] = k;
  bool dup = r.b(.25), shuf = r.b(.3), upper = !useP && r.b(.5); vl Ap(n + 1, 0), Ai; vd Ax; bool dups = false;
  for (int j = 0; j < n; j++) { std::vector<std::pair<long, double>> e; for (int i = 0; i < n; i++) if (has[i][j] && !(upper && i > j)) { if (dup && r.b(.3)) { e.push_back({i, A[i][j] / 2}); e.push_back({i, A[i][j] / 2}); dups = true; } else e.push_back({i, A[i][j]}); } if (shuf) r.shuffle(e); for (auto& t : e) { Ai.push_back(t.first); Ax.push_back(t.second); } Ap[j + 1] = (long)Ai.size(); }
  char desc[256]; snprintf(desc, sizeof desc, "pattern=%s n=%d nz=%ld kind=%d perm=%d dup=%d unsorted=%d upper=%d scale=%g", S.kind, n, Ap[n], kind, (int)useP, (int)dups, (int)shuf, (int)upper, scale);
  Hash hh; hh.addl(Ap); hh.addl(Ai); hh.addv(Ax); hh.addl(perm); cx.seen(hh.h);
  validators(cx, r, n, Ap, Ai);
  Buf<long> ap, ai, P, Pinv, Lp, Par, Lnz, Flag, Pat_, Li; Buf<double> ax, Lx, D, Y; ap.set(Ap); ai.set(Ai); ax.set(Ax); P.set(perm); vl junk(n); for (auto& t : junk) t = r.i(-5, n + 5); Pinv.set(junk); Lp.set(vl(n + 1, -9)); Par.set(junk); Lnz.set(junk); Flag.set(junk); Pat_.set(junk); vd jd(n, r.b(.5) ? sentinel() : 1e33); D.set(jd); Y.set(jd);
  long* pp = useP ? P.p : nullptr; long* pi = useP ? Pinv.p : nullptr;
  LDL_symbolic(n, ap.p, ai.p, Lp.p, Par.p, Lnz.p, Flag.p, pp, pi);
  Adj adj(n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i != j && has[i][j]) adj[j].push_back(i);
  vl want = sym_counts(adj, perm); if (Lp.p[0] != 0) { cx.fail("symbolic", "first pointer %ld: %s", Lp.p[0], desc); return; }
  for (int k = 0; k < n; k++) if (Lp.p[k + 1] - Lp.p[k] != want[k]) { cx.fail("symbolic", "column %d of L: %ld entries predicted, elimination gives %ld: %s", k, Lp.p[k + 1] - Lp.p[k], want[k], desc); return; }
  if (useP) for (int k = 0; k < n; k++) if (Pinv.p[perm[k]] != k) { cx.fail("inverse-permutation", "Pinv[P[%d]] = %ld: %s", k, Pinv.p[perm[k]], desc); return; }
  long nz = Lp.p[n]; Li.set(vl(nz, -1)); vd jx(nz, sentinel()); Lx.set(jx); vl Parv(Par.p, Par.p + n), Lpv(Lp.p, Lp.p + n + 1); cx.count("factor_nonzeros", (double)nz);
  long d = LDL_numeric(n, ap.p, ai.p, ax.p, Lp.p, Par.p, Lnz.p, Li.p, Lx.p, D.p, Y.p, Pat_.p, Flag.p, pp, pi);
  if (d != n) { cx.fail("incomplete", "factorisation stopped at %ld of %d: %s", d, n, desc); return; }
  if (memcmp(ap.p, Ap.data(), Ap.size() * 8) || (!Ai.empty() && (memcmp(ai.p, Ai.data(), Ai.size() * 8) || memcmp(ax.p, Ax.data(), Ax.size() * 8))) || (n && memcmp(P.p, perm.data(), n * 8))) cx.fail("inputs-changed", "factorisation changed its inputs: %s", desc);
  // structure
  for (int k = 0; k < n; k++) { if (Lnz.p[k] != want[k]) { cx.fail("counts", "column %d holds %ld entries, %ld predicted: %s", k, Lnz.p[k], want[k], desc); return; } long last = k; for (long t = Lpv[k]; t < Lpv[k + 1]; t++) { if (Li.p[t] <= last || Li.p[t] >= n) { cx.fail("indices", "row indices of column %d not ascending within range: %s", k, desc); return; } last = Li.p[t]; } long par = want[k] ? Li.p[Lpv[k]] : -1; if (Parv[k] != par) cx.fail("etree", "parent of %d is %ld, elimination tree says %ld: %s", k, Parv[k], par, desc); }
  auto judge = [&](const double* Dv, const double* Lv, const char* who) {
    std::vector<vld> L(n, vld(n, 0)); bool fin = true; for (int k = 0; k < n; k++) { if (!std::isfinite(Dv[k])) fin = false; L[k][k] = 1; for (long t = Lpv[k]; t < Lpv[k + 1]; t++) { L[Li.p[t]][k] = Lv[t]; if (!std::isfinite(Lv[t])) fin = false; } }
    if (!fin) { for (int k = 0; k < n; k++) { bool w = is_sentinel(Dv[k]); for (long t = Lpv[k]; t < Lpv[k + 1]; t++) w = w || is_sentinel(Lv[t]); if (w) { cx.fail("unwritten", "%s: column %d of the factor was never computed, or from values never computed: %s", who, k, desc); return false; } }
      // otherwise it must have overflowed, which a factor without small pivots cannot
      std::vector<vld> R(n, vld(n, 0)); vld RD(n, 0); bool tame = true; for (int i = 0; i < n && tame; i++) for (int j = 0; j <= i && tame; j++) { ld s = A[perm[i]][perm[j]], a = fabsl(s); for (int k = 0; k < j; k++) { ld t = R[i][k] * RD[k] * R[j][k]; s -= t; a += fabsl(t); } if (i != j) R[i][j] = s / RD[j]; else { RD[i] = s; if (fabsl(s) < 1e-6L * a || fabsl(s) < 1e-9L) tame = false; } if (!(fabsl(s) < 1e100L) || !(fabsl(i != j ? R[i][j] : s) < 1e100L)) tame = false; }
      if (tame) { cx.fail("not-finite", "%s: non-finite factor of a well-conditioned matrix: %s", who, desc); return false; }
      cx.count("overflowed"); cx.skipped++; return false; }
    const ld g = 4 * (n + 8) * EPS; long bad = 0;
    for (int i = 0; i < n && bad < 2; i++) for (int j = 0; j <= i && bad < 2; j++) {
      ld s = A[perm[i]][perm[j]], a = fabsl(s); for (int k = 0; k < j; k++) { ld t = L[i][k] * Dv[k] * L[j][k]; s -= t; a += fabsl(t); }
      if (i != j) { ld t = L[i][j] * Dv[j], e = g * (a + fabsl(t)) + 1e-300L; if (fabsl(s - t) > e) { cx.fail("factor", "%s: entry (%d,%d) of LDL' off by %.3Lg, bound %.3Lg: %s", who, i, j, fabsl(s - t), e, desc); bad++; } }
      else { ld e = g * a; double dk = Dv[i]; if (a == fabsl((ld)A[perm[i]][perm[i]]) ) e = 0; bool reg = dk == 1e-7 || dk == -1e-7;
        if (fabsl(s) > 1e-14L + e) { if (fabsl(s - dk) > e + EPS * fabsl(s)) { cx.fail("pivot", "%s: pivot %d is %.17g, exact %.17Lg, bound %.3Lg: %s", who, i, dk, s, e, desc); bad++; } cx.count("pivots_checked"); }
        else if (fabsl(s) + e <= 1e-14L) { cx.count("pivots_regularised"); if (!reg || (s < -e && dk > 0) || (s > e && dk < 0) || (s == 0 && e == 0 && dk > 0)) { cx.fail("regularisation", "%s: pivot %d is %.17g for an exact value of %.3Lg (+-%.1Lg): %s", who, i, dk, s, e, desc); bad++; } }
        else { cx.count("pivots_on_the_edge"); if (!reg && (fabsl(s - dk) > e + EPS * fabsl(s) || fabs(dk) <= 1e-14)) { cx.fail("pivot", "%s: pivot %d is %.17g, exact %.17Lg, bound %.3Lg: %s", who, i, dk, s, e, desc); bad++; } } } }
    cx.count("factors_checked"); return bad == 0; };
  bool ok = judge(D.p, Lx.p, "LDL_numeric"); if (!ok) return;
  // solves, stage by stage
  { vd b(n); for (auto& t : b) t = r.b(.1) ? 0 : r.n() * scale; Buf<double> B, X; B.set(b); X.set(vd(n, NAN)); const ld g = 4 * (n + 8) * EPS; vd cur = b;
    if (useP) { LDL_perm(n, X.p, B.p, P.p); for (int k = 0; k < n; k++) if (X.p[k] != b[perm[k]]) { cx.fail("perm", "permuted vector wrong at %d: %s", k, desc); return; } } else X.set(b);
    cur.assign(X.p, X.p + n); LDL_lsolve(n, X.p, Lp.p, Li.p, Lx.p); vd y(X.p, X.p + n); if (!allfinite(y)) { cx.skipped++; return; }
    vld res(n), ab(n); for (int i = 0; i < n; i++) { res[i] = (ld)cur[i] - y[i]; ab[i] = fabsl((ld)cur[i]) + fabsl((ld)y[i]); } for (int k = 0; k < n; k++) for (long t = Lpv[k]; t < Lpv[k + 1]; t++) { ld v = (ld)Lx.p[t] * y[k]; res[Li.p[t]] -= v; ab[Li.p[t]] += fabsl(v); }
    for (int i = 0; i < n; i++) if (fabsl(res[i]) > g * ab[i] + 1e-300L) { cx.fail("lsolve", "residual of the forward solve at %d: %.3Lg, bound %.3Lg: %s", i, fabsl(res[i]), g * ab[i], desc); return; }
    LDL_dsolve(n, X.p, D.p); for (int i = 0; i < n; i++) if (!(fabsl((ld)X.p[i] * D.p[i] - y[i]) <= 4 * EPS * fabsl((ld)y[i]) + 1e-300L)) { cx.fail("dsolve", "diagonal solve wrong at %d: %s", i, desc); return; }
    vd w(X.p, X.p + n); LDL_ltsolve(n, X.p, Lp.p, Li.p, Lx.p); vd x(X.p, X.p + n); if (!allfinite(x)) { cx.skipped++; return; }
    for (int k = 0; k < n; k++) { ld s = (ld)w[k] - x[k], a = fabsl((ld)w[k]) + fabsl((ld)x[k]); for (long t = Lpv[k]; t < Lpv[k + 1]; t++) { ld v = (ld)Lx.p[t] * x[Li.p[t]]; s -= v; a += fabsl(v); } if (fabsl(s) > g * a + 1e-300L) { cx.fail("ltsolve", "residual of the backward solve at %d: %.3Lg, bound %.3Lg: %s", k, fabsl(s), g * a, desc); return; } }
    if (useP) { LDL_permt(n, B.p, X.p, P.p); for (int k = 0; k < n; k++) if (B.p[perm[k]] != x[k]) { cx.fail("permt", "back-permuted vector wrong at %d: %s", k, desc); return; } } cx.count("solves_checked"); }
  // the two column- and row-oriented variants declared alongside
  if (!dups && !upper && n && Transpose_Row_Count && nz) { Buf<long> Ltp, Lti, U; Ltp.set(vl(n + 1, 0)); Lti.set(vl(nz, 0)); U.set(vl(n, n)); Transpose_Row_Count(n, n, Li.p, Lp.p, Lti.p, Ltp.p);
    std::vector<vl> rows(n); for (int k = 0; k < n; k++) for (long t = Lpv[k]; t < Lpv[k + 1]; t++) rows[Li.p[t]].push_back(k); bool good = Ltp.p[0] == 0; for (int i = 0; i < n && good; i++) { if (Ltp.p[i + 1] - Ltp.p[i] != (long)rows[i].size()) good = false; else for (size_t t = 0; t < rows[i].size(); t++) if (Lti.p[Ltp.p[i] + t] != rows[i][t]) good = false; }
    if (!good) { cx.fail("row-structure", "row structure of L differs from its column structure: %s", desc); return; } cx.count("row_structures_checked");
    // each is run in full, and then again after some diagonal entries changed, with only the affected columns marked
    vl mark(n, 0); std::vector<std::pair<int, long>> chg; vd newv; bool part = r.b(.7); if (part) for (int j = 0; j < n; j++) if (r.b(n > 6 ? .2 : .4)) for (long t = Ap[j]; t < Ap[j + 1]; t++) if (Ai[t] == j) { chg.push_back({j, t}); newv.push_back(r.b(.2) ? -Ax[t] : Ax[t] * r.u(.5, 3)); for (long i = inv[j]; i != -1; i = Parv[i]) mark[i] = n; }
    for (int w = 0; w < 2; w++) { auto fn = w ? LDL_cache_numeric : LDL_row_cache_numeric; if (!fn) continue; Buf<double> L2, D2, Y2; L2.set(vd(nz, sentinel())); D2.set(vd(n, sentinel())); Y2.set(vd(n, 0)); fn(n, ap.p, ai.p, ax.p, Ltp.p, Lti.p, Li.p, Lp.p, L2.p, D2.p, Y2.p, pp, pi, U.p); bool fine = judge(D2.p, L2.p, w ? "LDL_cache_numeric" : "LDL_row_cache_numeric"); cx.count(w ? "column_variant" : "row_variant");
      if (!fine || chg.empty()) continue; Buf<long> U2; U2.set(mark); vd D0(D2.p, D2.p + n); vd keep; for (size_t t = 0; t < chg.size(); t++) { keep.push_back(A[chg[t].first][chg[t].first]); A[chg[t].first][chg[t].first] = newv[t]; ax.p[chg[t].second] = newv[t]; }
      fn(n, ap.p, ai.p, ax.p, Ltp.p, Lti.p, Li.p, Lp.p, L2.p, D2.p, Y2.p, pp, pi, U2.p); judge(D2.p, L2.p, w ? "LDL_cache_numeric (partial)" : "LDL_row_cache_numeric (partial)"); cx.count("partial_refactorisations"); for (int k = 0; k < n; k++) if (!mark[k] && !bits(D2.p[k], D0[k])) { cx.fail("partial", "pivot %d changed although its column was not marked: %s", k, desc); break; }
      for (size_t t = 0; t < chg.size(); t++) { A[chg[t].first][chg[t].first] = keep[t]; ax.p[chg[t].second] = Ax[chg[t].second]; } } }
  cx.sample("%s lnz=%ld", desc, nz);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
