// C19: the fill-reducing ordering: permutation, status, statistics, fill quality, dense rows
#include "graphs.hpp"
static double g_amd = 0, g_md = 0;
static void one(Ctx& cx, Rng& r) {
  bool big = cx.thorough ? r.b(.05) : r.b(.01); int nmax = big ? 1500 : r.b(.3) ? 150 : 40;
  Pat S = gen_pat(r, nmax); int n = S.n; bool unsym = r.b(.4), diag = r.b(.5), jum = r.b(.3);
  // the matrix handed over: any subset of the two halves whose union is the pattern
  Adj col(n); for (int j = 0; j < n; j++) for (long i : S.col[j]) if (i < j) { int w = unsym ? (int)r.i(0, 2) : 2; if (w == 0 || w == 2) col[j].push_back(i); if (w == 1 || w == 2) col[i].push_back(j); }
  for (int j = 0; j < n; j++) { if (diag && r.b(.8)) col[j].push_back(j); std::sort(col[j].begin(), col[j].end()); }
  long nzu = 0, nzd = 0, both = 0; for (int j = 0; j < n; j++) { nzu += (long)col[j].size(); for (long i : col[j]) { if (i == j) nzd++; else if (i > j && std::binary_search(col[i].begin(), col[i].end(), (long)j)) both++; } }
  bool isj = false;
  if (jum) for (int j = 0; j < n; j++) if (r.b(.4)) { if (r.b(.4)) for (size_t t = 0, T = col[j].size(); t < T; t++) if (r.b(.3)) for (int d = (int)r.i(1, 3); d; d--) col[j].push_back(col[j][t]); r.shuffle(col[j]); for (size_t t = 1; t < col[j].size(); t++) if (col[j][t] <= col[j][t - 1]) isj = true; }
  vl Ap(n + 1, 0), Ai; for (int j = 0; j < n; j++) { for (long i : col[j]) Ai.push_back(i); Ap[j + 1] = (long)Ai.size(); }
  Buf<long> ap, ai, P; ap.set(Ap); ai.set(Ai); P.set(vl(n, -7));
  double Control[AMD_CONTROL], Info[AMD_INFO]; amd_l_defaults(Control); bool ctl = r.b(.85), inf = r.b(.9); double alpha = 10; 
  if (Control[AMD_DENSE] != 10 || Control[AMD_AGGRESSIVE] == 0) cx.fail("defaults", "default controls %g %g", Control[AMD_DENSE], Control[AMD_AGGRESSIVE]);
  if (ctl && r.b(.5)) Control[AMD_DENSE] = alpha = r.b(.2) ? -1 : r.b(.2) ? 0 : r.b(.1) ? 1e9 : r.u(0, 6); if (ctl && r.b(.4)) Control[AMD_AGGRESSIVE] = r.b(.7) ? 0 : 3;
  char desc[256]; snprintf(desc, sizeof desc, "pattern=%s n=%d nz=%ld jumbled=%d dense=%g aggressive=%g control=%d", S.kind, n, Ap[n], (int)isj, Control[AMD_DENSE], Control[AMD_AGGRESSIVE], (int)ctl);
  Hash hh; hh.addl(Ap); hh.addl(Ai); hh.addi((long)(alpha * 1000)); cx.seen(hh.h);
  for (auto& t : Info) t = -77;
  long f = amd_l_order(n, ap.p, ai.p, P.p, ctl ? Control : nullptr, inf ? Info : nullptr);
  cx.count(isj ? "jumbled" : "sorted");
  long want = isj && n ? AMD_OK_BUT_JUMBLED : AMD_OK; if (f != want) { cx.fail("status", "status %ld, expected %ld: %s", f, want, desc); if (f < 0) return; }
  if (inf && Info[AMD_STATUS] != (double)f) cx.fail("info-status", "Info status %g, returned %ld: %s", Info[AMD_STATUS], f, desc);
  if (n && (memcmp(ap.p, Ap.data(), Ap.size() * 8) || (!Ai.empty() && memcmp(ai.p, Ai.data(), Ai.size() * 8)))) cx.fail("inputs-changed", "the ordering changed its input: %s", desc);
  vl perm(P.p, P.p + n), seen(n, 0); for (long v : perm) { if (v < 0 || v >= n || seen[v]) { cx.fail("permutation", "not a permutation: %s", desc); return; } seen[v] = 1; }
  long nza = 0; vl deg(n, 0); for (int j = 0; j < n; j++) { deg[j] = (long)S.col[j].size(); nza += deg[j]; }
  ld thr = alpha < 0 ? std::max<ld>(16, n - 2) : std::max<ld>(16, (ld)alpha * sqrtl((ld)n)); std::vector<char> den(n, 0); long nd = 0; for (int j = 0; j < n; j++) if (deg[j] > thr) { den[j] = 1; nd++; }
  // a threshold the product alpha*sqrt(n) hits exactly up to rounding is not judged
  bool edgy = false; if (alpha >= 0) { ld t = (ld)alpha * sqrtl((ld)n); if (fabsl(t - roundl(t)) < 1e-9L * (1 + t)) edgy = true; }
  if (!edgy && alpha >= 0) { if (nd) cx.count("dense_rows_present"); for (int k = 0; k < n - nd; k++) if (den[perm[k]]) { cx.fail("dense-not-last", "row with %ld entries (threshold %g) placed at %d of %d: %s", deg[perm[k]], (double)thr, k, n, desc); break; } }
  vl cnt = sym_counts(S.col, perm); double lnz = 0, ldl = 0, lu = 0, dmx = 0; for (long c : cnt) { lnz += c; ldl += c * (c + 1.0) / 2; lu += (double)c * c; dmx = std::max(dmx, c + 1.0); }
  if (inf) {
    auto ex = [&](int k, const char* nm, double v) { if (!(Info[k] == v)) cx.fail(nm, "%s = %.17g, exact value %.17g: %s", nm, Info[k], v, desc); cx.count("exact_statistics"); };
    ex(AMD_N, "N", n);
    if (n) {
    if (isj) { if (Info[AMD_NZ] != (double)Ap[n] && Info[AMD_NZ] != (double)nzu) cx.fail("NZ", "NZ = %g, matrix has %ld entries (%ld distinct): %s", Info[AMD_NZ], Ap[n], nzu, desc); } else ex(AMD_NZ, "NZ", (double)Ap[n]);
    ex(AMD_NZDIAG, "NZDIAG", (double)nzd); ex(AMD_NZ_A_PLUS_AT, "NZ_A_PLUS_AT", (double)nza); ex(AMD_SYMMETRY, "SYMMETRY", nzu == nzd ? 1.0 : 2.0 * both / (double)(nzu - nzd));
    if (!edgy && alpha >= 0) ex(AMD_NDENSE, "NDENSE", (double)nd); else if (alpha < 0 && !(Info[AMD_NDENSE] >= 0 && Info[AMD_NDENSE] <= (double)nd)) cx.fail("NDENSE", "NDENSE = %g although dense rows are not to be set aside: %s", Info[AMD_NDENSE], desc);
    auto ub = [&](int k, const char* nm, double v, double cap) { if (!(Info[k] >= v)) cx.fail(nm, "%s = %.17g below the true value %.17g: %s", nm, Info[k], v, desc); if (!(Info[k] <= cap)) cx.fail(nm, "%s = %.17g above what any ordering can need (%.17g): %s", nm, Info[k], cap, desc); cx.count("bounds_checked"); };
    double N = n, f2 = 0, f3 = 0; for (int k = 0; k < n; k++) { f2 += k * (k + 1.0) / 2; f3 += (double)k * k; }
    ub(AMD_LNZ, "LNZ", lnz, N * (N - 1) / 2 * (1 + 1e-12)); ub(AMD_NDIV, "NDIV", lnz, N * (N - 1) / 2 * (1 + 1e-12)); ub(AMD_NMULTSUBS_LDL, "NMULTSUBS_LDL", ldl, f2 * (1 + 1e-9)); ub(AMD_NMULTSUBS_LU, "NMULTSUBS_LU", lu, f3 * (1 + 1e-9)); ub(AMD_DMAX, "DMAX", dmx, N);
    if (Info[AMD_NCMPA] > 0) cx.count("garbage_collected"); if (!(Info[AMD_NCMPA] >= 0)) cx.fail("NCMPA", "NCMPA %g", Info[AMD_NCMPA]);
    if (Info[AMD_LNZ] == lnz) { // the bounds hold front by front, so an exact total means every front is exact, and the work counts follow from the fronts
      cx.count("bound_exact"); auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + b); }; if (Info[AMD_NDIV] != lnz || !near(Info[AMD_NMULTSUBS_LDL], ldl) || !near(Info[AMD_NMULTSUBS_LU], lu) || Info[AMD_DMAX] != dmx) cx.fail("work-counts", "LNZ is exact (%g) but NDIV %.12g, NMULTSUBS_LDL %.12g (true %.12g), NMULTSUBS_LU %.12g (true %.12g), DMAX %g (true %g): %s", lnz, Info[AMD_NDIV], Info[AMD_NMULTSUBS_LDL], ldl, Info[AMD_NMULTSUBS_LU], lu, Info[AMD_DMAX], dmx, desc); } if (lnz > 0) cx.cmax("max_bound_over_true", Info[AMD_LNZ] / lnz);
    double kb = Info[AMD_MEMORY]; if (!(kb >= 8.0 * ((double)Ap[n] * 0 + 7 * n))) cx.fail("MEMORY", "MEMORY %g too small for n=%d: %s", kb, n, desc);
    } }
  if (n && n <= 150 && nd == 0) { long md = exact_md(S.col); g_amd += lnz; g_md += (double)md; cx.count("fill_compared"); cx.count("fill_amd", lnz); cx.count("fill_exact_md", (double)md); double rat = (lnz + n) / (md + n); cx.cmax("max_fill_ratio", rat);
    if (rat > 1.6) cx.fail("fill", "fill %g, exact minimum degree needs %ld: %s", lnz, md, desc); if (md == 0 || lnz < md) cx.count("fill_not_worse"); }
  if (big) cx.count("large"); cx.sample("%s lnz=%g", desc, lnz);
}
static void fini(Ctx& cx) { if (g_md > 20000) { cx.cmax("max_aggregate_fill_ratio", g_amd / g_md); if (g_amd > 1.05 * g_md) cx.fail("fill-aggregate", "over all cases of this worker fill %g against %g for exact minimum degree", g_amd, g_md); } }
int main(int a, char** v) { return qpm_main(a, v, one, fini); }
