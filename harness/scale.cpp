// large problems: one oracle per mode (the property the stage belongs to)
#include "sparse.hpp"
static std::string g_mode;
static bool is(const char* m) { return g_mode == m; }
static void one(Ctx& cx, Rng& r) {
  int fam = (int)r.i(0, NSF - 1), size = cx.thorough ? (r.b(.4) ? 0 : r.b(.6) ? 1 : 2) : r.b(.6) ? 0 : r.b(.7) ? 1 : 2; if ((is("mem") || is("order")) && size == 2 && !r.b(.5)) size = 1;
  SProb q = gen_sparse(r, fam, size); bool hot = (is("cert") || is("stats") || is("stop") || is("interior")) && r.b(.4); if (hot) { hot_rows(r, q); cx.count("uneven_units"); } long n = q.n, m = q.m, p = q.p, N = n + m + p; char desc[200]; snprintf(desc, sizeof desc, "%s n=%ld m=%ld p=%ld nz=%ld/%ld/%ld", q.fam, n, m, p, q.P.nnz(), q.G.nnz(), q.A.nnz());
  cx.seen(q.hash()); char cb[32]; snprintf(cb, sizeof cb, "size_%d", size); cx.count(cb); cx.cmax("max_dimension", (double)N); cx.cmax("max_nonzeros", (double)(q.P.nnz() + q.G.nnz() + q.A.nnz())); Prob dummy; dummy.p = (int)p; dummy.m = (int)m; dummy.n = (int)n;
  auto run = [&](long maxit, double rt = 1e-6, double at = 1e-6) { SInst in(q); in.setup(); in.q->options->maxit = maxit; in.q->options->reltol = rt; in.q->options->abstol = at; long f = QP_SOLVE(in.q); Snap s = in.snap(f); in.cleanup(); return s; };
  if (is("cert") || is("solved") || is("known") || is("stats")) {
    double rt = r.b(.5) ? 1e-6 : std::pow(10, r.u(-7, -2)), at = r.b(.5) ? 1e-6 : std::pow(10, r.u(-7, -2)); if (r.b(.4)) { if (r.b(.75)) rt = std::pow(10, r.u(-9, 1)), at = 1e9; else rt = 1e9, at = std::pow(10, r.u(-9, 1)); } if (is("stats") && r.b(.3)) rt = std::pow(10, r.u(0, 5)), at = 1e9; if (is("known") || is("solved")) rt = at = 1e-6;
    Snap s = run(100, rt, at); if (is("solved")) { cx.cmax("max_iterations", (double)s.it); if (s.flag != 0) { cx.fail("large-not-solved", "flag %ld after %ld iterations: %s", s.flag, s.it, desc); return; } if (s.it > 45) cx.fail("large-too-many-iterations", "%ld iterations: %s", s.it, desc); cx.count("optimal"); cx.count("iterations", (double)s.it); cx.sample("%s it=%ld", desc, s.it); return; }
    if (s.flag != 0) { cx.count("not_optimal"); return; } cx.count("optimal"); Kkt k = skkt(q, s);
    if (is("cert")) { if (!k.finite) cx.fail("large-nonfinite", "OPTIMAL with non-finite variables: %s", desc); else if (!(k.mins > 0) || !(k.minz > 0)) cx.fail("large-not-positive", "min s %g, min z %g: %s", k.mins, k.minz, desc); else if (meets(k, dummy, rt, at) == 0) cx.fail("large-no-certificate", "OPTIMAL but rx=%.3Le ry=%.3Le rz=%.3Le (limit %.3e) gap=%.3Le (limit %.3e): %s", k.rx, k.ry, k.rz, rt / std::sqrt(3.), k.mu, at, desc); }
    if (is("stats")) { auto cmp = [&](const char* nm, double g, ld w, ld e) { cx.count("statistics_compared"); if (!(fabsl((ld)g - w) <= 4 * e + 1e-13L * fabsl(w))) cx.fail("large-statistic", "%s reported %.17g, true value %.17Lg (margin %.2Le): %s", nm, g, w, 4 * e, desc); };
      cmp("fval", s.fval, k.f, k.ef); cmp("n_rx", s.nrx, k.rx, k.ex); cmp("n_rz", s.nrz, k.rz, k.ez); if (p) cmp("n_ry", s.nry, k.ry, k.ey); cmp("n_mu", s.nmu, k.mu, k.emu); }
    if (is("known") && q.known) { // strong convexity: lmin/2 |x-x*|^2 <= f(x) - f* + residual terms
      ld lmin = 1e9, f0 = 0, f1 = 0, e2 = 0; for (long j = 0; j < n; j++) { ld d = q.P.pr[j]; lmin = std::min(lmin, d); f0 += .5L * d * q.xs[j] * q.xs[j] + (ld)q.c[j] * q.xs[j]; f1 += .5L * d * s.x[j] * s.x[j] + (ld)q.c[j] * s.x[j]; e2 += ((ld)s.x[j] - q.xs[j]) * ((ld)s.x[j] - q.xs[j]); }
      // z*, y*: with the residuals below tol, |x-x*| lmin <= tol + sqrt(lmin (gap m + |dy| tol + |dz| tol)); the multipliers of these families are bounded by |c|+|P||x|
      ld dm = 0; for (long j = 0; j < n; j++) { ld t = fabsl((ld)q.P.pr[j] * q.xs[j] + q.c[j]); dm += t * t; } ld ny = nrm(s.y), nz = nrm(s.z), mult = 2 * sqrtl(dm) * (p == 1 ? sqrtl((ld)n) : 4) + ny + nz; ld tol = 1e-6L / sqrtl(3.0L), bd = tol / lmin + sqrtl((1e-6L * m + mult * tol + tol * tol) / lmin) * 1.5L + 1e-9L * (1 + nrm(q.xs));
      cx.count("minimisers_compared"); if (!(sqrtl(e2) <= bd)) cx.fail("large-wrong-minimiser", "x is %.3Le from the minimiser (bound %.3Le), objective %.17Lg instead of %.17Lg: %s", sqrtl(e2), bd, f1, f0, desc); cx.cmax("max_distance_over_bound", (double)(sqrtl(e2) / bd)); }
    cx.sample("%s it=%ld rx=%.2Le rz=%.2Le mu=%.2Le", desc, s.it, k.rx, k.rz, k.mu);
  } else if (is("stop")) {
    Snap s = run(100); if (s.flag != 0) { cx.count("not_optimal"); return; } long k = s.it; Snap a = run(k), b = run(k + 1); cx.count("limits_tried", 2);
    if (a.flag != 2 || a.it != k || !biteq(a.x, s.x) || !biteq(a.z, s.z)) cx.fail("large-limit", "limit %ld: flag %ld after %ld iterations, same point %d (unlimited run stops there OPTIMAL): %s", k, a.flag, a.it, (int)biteq(a.x, s.x), desc);
    if (b.flag != 0 || b.it != k || !biteq(b.x, s.x)) cx.fail("large-limit", "limit %ld: flag %ld after %ld iterations (unlimited run stops OPTIMAL after %ld): %s", k + 1, b.flag, b.it, k, desc);
    for (int t = 0; t < 2 && k > 0; t++) { long l = r.i(0, k - 1); Snap d = run(l); Kkt kk = skkt(q, d); cx.count("limits_tried"); if (d.flag != 2 || d.it != l) cx.fail("large-limit", "limit %ld: flag %ld after %ld iterations: %s", l, d.flag, d.it, desc); if (kk.finite && meets(kk, dummy, 1e-6, 1e-6) == 1) cx.fail("large-missed-stop", "iterate %ld already met the tolerances, the solve went on to %ld: %s", l, k, desc); }
    if (size < 2 && r.b(.3)) { long l = r.b(.5) ? r.i(k + 1, 130) : 126 + r.i(0, 4); Snap d = run(l, 0, 0); cx.count("exhausted_limits"); if (d.flag != 2 || d.it != l) cx.fail("large-limit-not-used-up", "limit %ld with tolerances of zero: flag %ld after %ld iterations: %s", l, d.flag, d.it, desc); }
  } else if (is("interior")) {
    Snap s = run(100); if (s.flag != 0) cx.count("not_optimal"); if (s.it > 0) { long l = r.i(0, s.it - 1); SInst in(q); in.setup(); in.q->options->maxit = l; Snap d = in.snap(QP_SOLVE(in.q)); in.q->options->maxit = 1; Snap e = in.snap(QP_SOLVE(in.q)); double ap = in.q->stats->alpha_p, ad = in.q->stats->alpha_d; in.cleanup(); cx.count("steps_checked");
      if (e.it == l + 1) { double mn = 1e300; for (long i = 0; i < m; i++) mn = std::min(mn, std::min(e.s[i] / d.s[i], e.z[i] / d.z[i])); if (!(mn >= .0099)) cx.fail("large-step-too-long", "iteration %ld takes a slack or multiplier to %.3g of its value: %s", l, mn, desc); if (!(ap > 0 && ap <= 1 && ad > 0 && ad <= 1)) cx.fail("large-step-size", "step sizes %g, %g: %s", ap, ad, desc); } }
    for (int t = 0; t < 3; t++) { Snap d = run(r.i(0, s.it)); double mn = 1e300; for (double v : d.s) mn = std::min(mn, v); for (double v : d.z) mn = std::min(mn, v); cx.count("iterates"); if (!(mn > 0) || !allfinite(d.x) || !allfinite(d.y) || !allfinite(d.s) || !allfinite(d.z)) cx.fail("large-not-interior", "iterate %ld: smallest slack or multiplier %g, or a non-finite variable: %s", d.it, mn, desc); }
  } else if (is("start")) {
    SInst in(q); in.setup(); Snap s = in.snap(0); in.cleanup(); vld gx(m, 0), rx(n), ax(n), ry(p), ay(p); for (long j = 0; j < n; j++) { rx[j] = q.c[j]; ax[j] = fabsl(rx[j]); } for (long i = 0; i < p; i++) { ry[i] = -(ld)q.b[i]; ay[i] = fabsl(ry[i]); }
    for (long j = 0; j < n; j++) for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) gx[q.G.ir[t]] += (ld)q.G.pr[t] * s.x[j];
    ld lo1 = 1e300L, lo2 = 1e300L, sc = 0; vld zr(m); for (long i = 0; i < m; i++) { zr[i] = gx[i] - q.h[i]; lo1 = std::min(lo1, -zr[i]); lo2 = std::min(lo2, zr[i]); sc = std::max(sc, fabsl(zr[i])); }
    for (long j = 0; j < n; j++) { for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) { ld e = (ld)q.P.pr[t] * s.x[j]; rx[q.P.ir[t]] += e; ax[q.P.ir[t]] += fabsl(e); } for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) { ld e = (ld)q.G.pr[t] * zr[q.G.ir[t]]; rx[j] += e; ax[j] += fabsl(e); } if (p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) { ld e = (ld)q.A.pr[t] * s.y[q.A.ir[t]]; rx[j] += e; ax[j] += fabsl(e); e = (ld)q.A.pr[t] * s.x[j]; ry[q.A.ir[t]] += e; ay[q.A.ir[t]] += fabsl(e); } }
    ld sr = 0, sa = 0; for (long j = 0; j < n; j++) { sr += rx[j] * rx[j]; sa += ax[j] * ax[j]; } for (long i = 0; i < p; i++) { sr += ry[i] * ry[i]; sa += ay[i] * ay[i]; } ld rel = sqrtl(sr) / (sqrtl(sa) + 1e-300L); cx.cmax("max_relative_residual", (double)rel); if (!(rel <= 2e-6L)) cx.fail("large-start-not-least-squares", "the starting x, y leave a relative residual of %.2Le in the least-squares conditions: %s", rel, desc);
    ld tol = 1e-6L * (1 + sc), d1 = 0, d2 = 0; if (fabsl(lo1) < 10 * tol || fabsl(lo2) < 10 * tol) { cx.count("shift_decided_by_rounding"); return; } ld s1 = lo1 > 0 ? 0 : 1 - lo1, s2 = lo2 > 0 ? 0 : 1 - lo2; for (long i = 0; i < m; i++) { d1 = std::max(d1, fabsl(s.s[i] - (-zr[i] + s1))); d2 = std::max(d2, fabsl(s.z[i] - (zr[i] + s2))); } cx.count("start_compared"); if (!(d1 <= tol)) cx.fail("large-start-s", "starting s off by %.2Le: %s", d1, desc); if (!(d2 <= tol)) cx.fail("large-start-z", "starting z off by %.2Le: %s", d2, desc);
  } else if (is("same")) {
    SInst a(q), b(q); a.setup(); b.setup(); long fb = QP_SOLVE(b.q), fa = QP_SOLVE(a.q); Snap sa = a.snap(fa), sb = b.snap(fb); b.cleanup(); a.cleanup(); Snap sc = run(100); cx.count("lifecycles_compared", 3); if (!snapeq(sa, sb) || !snapeq(sa, sc)) cx.fail("large-not-repeatable", "two solves of the same problem differ: %s", desc);
  } else if (is("readonly")) {
    SInst in(q); in.useperm = r.b(.3); if (in.useperm) in.perm = rand_perm(r, (int)std::min<long>(N, 1)); if (in.useperm) { in.perm.resize(N); std::iota(in.perm.begin(), in.perm.end(), 0); std::stable_partition(in.perm.begin(), in.perm.end(), [&](long v) { return v >= n + p; }); if (fam == SF_TALL || fam == SF_WIDE || fam == SF_PORT || fam == SF_ARROW || fam == SF_BLOCKS || N > 60000) in.useperm = false; } vl pc = in.perm;
    in.setup(); in.q->options->maxit = 4; QP_SOLVE(in.q); in.cleanup(); cx.count("arrays_compared", 12); if (in.w.hash() != q.hash() || in.perm != pc) cx.fail("large-inputs-changed", "the caller's arrays were changed: %s", desc);
  } else if (is("mem")) {
    SInst in(q); in.setup(); in.q->options->maxit = r.b(.3) ? 100 : 3; long f = r.b(.9) ? QP_SOLVE(in.q) : -1; in.cleanup(); cx.count(f == 0 ? "flag_0" : f == 2 ? "flag_2" : "other");
    if (n * (m + n + p) <= 3000000) { vd D((size_t)n * n, 0), Gd((size_t)m * n, 0), Ad((size_t)p * n, 0); for (long j = 0; j < n; j++) { for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) D[q.P.ir[t] * n + j] = q.P.pr[t]; for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) Gd[q.G.ir[t] * n + j] = q.G.pr[t]; if (p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) Ad[q.A.ir[t] * n + j] = q.A.pr[t]; }
      QP* w = QP_SETUP_dense(n, m, p, D.data(), p ? Ad.data() : nullptr, Gd.data(), q.c.data(), q.h.data(), p ? q.b.data() : nullptr, nullptr, ROW_MAJOR_ORDERING); w->options->maxit = 3; QP_SOLVE(w); QP_CLEANUP_dense(w); cx.count("dense_setups"); }
  } else if (is("formats")) {
    if (n * (m + n + p) > 6000000) { cx.count("too_large_for_dense"); return; } Snap s = run(100);
    vd D((size_t)n * n, 0), Gr((size_t)m * n, 0), Ar((size_t)p * n, 0), Gc((size_t)m * n, 0), Ac((size_t)p * n, 0); for (long j = 0; j < n; j++) { for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) D[q.P.ir[t] * n + j] = q.P.pr[t]; for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) Gr[q.G.ir[t] * n + j] = Gc[j * m + q.G.ir[t]] = q.G.pr[t]; if (p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) Ar[q.A.ir[t] * n + j] = Ac[j * p + q.A.ir[t]] = q.A.pr[t]; }
    for (int row = 0; row < 2; row++) { QP* w = QP_SETUP_dense(n, m, p, D.data(), p ? (row ? Ar : Ac).data() : nullptr, (row ? Gr : Gc).data(), q.c.data(), q.h.data(), p ? q.b.data() : nullptr, nullptr, row ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING); long f = QP_SOLVE(w); vd x(w->x, w->x + n), z(w->z, w->z + m); long it = w->stats->IterationCount; QP_CLEANUP_dense(w); cx.count("solutions_compared");
      if (f != s.flag || it != s.it || !biteq(x, s.x) || !biteq(z, s.z)) cx.fail("large-format", "the dense %s form gives flag %ld after %ld iterations and %s x, the sparse one flag %ld after %ld: %s", row ? "row-major" : "column-major", f, it, biteq(x, s.x) ? "the same" : "another", s.flag, s.it, desc); }
  } else if (is("perm")) {
    SInst in(q); in.useperm = true; in.perm.resize(N); std::iota(in.perm.begin(), in.perm.end(), 0);
    // variables and slacks in a local order that keeps the fill low, equalities last within their neighbourhood: take the solver's own ordering and exchange two ends of it
    { SInst own(q); own.setup(); in.perm.assign(own.q->kkt->P, own.q->kkt->P + N); own.cleanup(); } for (int t = 0; t < 3; t++) { long a = r.i(0, N - 2); std::swap(in.perm[a], in.perm[a + 1]); }
    in.setup(); if (in.q->stats->AMD_RESULT != -3) cx.fail("large-amd-result", "AMD_RESULT=%ld although an ordering was supplied: %s", (long)in.q->stats->AMD_RESULT, desc); if (memcmp(in.q->kkt->P, in.perm.data(), N * sizeof(long))) cx.fail("large-ordering-not-used", "the ordering in use is not the one supplied: %s", desc);
    vl cnt = sym_counts(kkt_adj(q), in.perm); cx.count("factor_structures_checked"); for (long k = 0; k < N; k++) if (in.q->kkt->Lp[k + 1] - in.q->kkt->Lp[k] != cnt[k]) { cx.fail("large-factor-structure", "column %ld of L has %ld entries instead of %ld: %s", k, (long)(in.q->kkt->Lp[k + 1] - in.q->kkt->Lp[k]), cnt[k], desc); break; } in.cleanup();
  } else if (is("order")) {
    Adj S = kkt_adj(q); if (r.b(.3)) { vl pp = rand_perm(r, (int)N); Adj c2(N); for (long j = 0; j < N; j++) for (long i : S[j]) c2[pp[j]].push_back(pp[i]); S = c2; for (auto& c : S) std::sort(c.begin(), c.end()); }
    vl Ap(N + 1, 0), Ai; for (long j = 0; j < N; j++) { for (long i : S[j]) Ai.push_back(i); Ap[j + 1] = (long)Ai.size(); } vl a2 = Ap, i2 = Ai, P(N, -7); double C[AMD_CONTROL], I[AMD_INFO]; amd_l_defaults(C); long f = amd_l_order(N, Ap.data(), Ai.data(), P.data(), C, I); cx.count("orderings");
    if (f != AMD_OK) { cx.fail("large-status", "status %ld: %s", f, desc); return; } if (a2 != Ap || i2 != Ai) cx.fail("large-inputs-changed", "the ordering changed its input: %s", desc); vl seen(N, 0); for (long v : P) { if (v < 0 || v >= N || seen[v]) { cx.fail("large-permutation", "not a permutation: %s", desc); return; } seen[v] = 1; }
    ld thr = std::max<ld>(16, 10 * sqrtl((ld)N)); long nd = 0; std::vector<char> den(N, 0); for (long j = 0; j < N; j++) if ((ld)S[j].size() > thr) { den[j] = 1; nd++; } for (long k = 0; k < N - nd; k++) if (den[P[k]]) { cx.fail("large-dense-not-last", "row with %zu entries (threshold %.1Lf) placed at %ld of %ld: %s", S[P[k]].size(), thr, k, N, desc); break; } if (nd) cx.count("dense_rows_present"); if (I[AMD_NDENSE] != (double)nd) cx.fail("large-NDENSE", "NDENSE %g, %ld rows are dense: %s", I[AMD_NDENSE], nd, desc);
    vl cnt = sym_counts(S, P); double lnz = 0, fl = 0, lu = 0, dm = 0; for (long c : cnt) { lnz += c; fl += c * (c + 1.0) / 2; lu += (double)c * c; dm = std::max(dm, c + 1.0); } auto ub = [&](int k, const char* nm, double v) { cx.count("bounds_checked"); if (!(I[k] >= v)) cx.fail("large-bound", "%s %.17g below the true value %.17g: %s", nm, I[k], v, desc); }; ub(AMD_LNZ, "LNZ", lnz); ub(AMD_NDIV, "NDIV", lnz); ub(AMD_NMULTSUBS_LDL, "NMULTSUBS_LDL", fl); ub(AMD_NMULTSUBS_LU, "NMULTSUBS_LU", lu); ub(AMD_DMAX, "DMAX", dm);
    if (I[AMD_NZ] != (double)Ai.size() || I[AMD_N] != (double)N || I[AMD_NZ_A_PLUS_AT] != (double)Ai.size() || I[AMD_SYMMETRY] != 1 || I[AMD_NZDIAG] != 0) cx.fail("large-statistics", "N=%g NZ=%g NZ_A_PLUS_AT=%g SYMMETRY=%g NZDIAG=%g for n=%ld, nz=%zu: %s", I[AMD_N], I[AMD_NZ], I[AMD_NZ_A_PLUS_AT], I[AMD_SYMMETRY], I[AMD_NZDIAG], N, Ai.size(), desc);
    // fill: these patterns have orderings whose factors are linear in the data (grids: n log n)
    double nz = (double)Ai.size() / 2 + N, cap = fam == SF_RANDOM ? 1e300 : fam == SF_GRID ? 31 * N * std::log2((double)N) / 4 : 6 * nz; cx.cmax(fam == SF_GRID ? "max_grid_fill_over_nlogn" : fam == SF_RANDOM ? "max_random_fill" : "max_fill_over_nonzeros", fam == SF_GRID ? lnz / (N * std::log2((double)N)) : lnz / nz); if (lnz > cap) cx.fail("large-fill", "factor with %g entries for a matrix of %g: %s", lnz, nz, desc);
  } else if (is("factor")) {
    if (r.b(.06)) { // triangular solves with columns of any length: a full factor, unit diagonal implied
      long k = r.i(1500, 4300); vl Lp(k + 1), Li; vd Lx; Li.reserve((size_t)k * k / 2); Lx.reserve((size_t)k * k / 2); long band = r.b(.5) ? k : r.i(1, k), every = r.i(1, 40); for (long j = 0; j < k; j++) { Lp[j] = (long)Li.size(); if (j % every == 0 || j + 1 == k) for (long i = j + 1; i < k; i++) if (i - j <= band || i + 3 > k) { Li.push_back(i); Lx.push_back((double)r.i(-3, 3)); } } Lp[k] = (long)Li.size();
      // integer data small enough that every operation is exact
      vd x(k), b(k, 0), c(k, 0), y; for (auto& v : x) v = (double)r.i(-9, 9); for (long j = 0; j < k; j++) { b[j] += x[j]; c[j] += x[j]; for (long t = Lp[j]; t < Lp[j + 1]; t++) { b[Li[t]] += Lx[t] * x[j]; c[j] += Lx[t] * x[Li[t]]; } }
      y = b; LDL_lsolve(k, y.data(), Lp.data(), Li.data(), Lx.data()); cx.count("long_columns"); cx.cmax("max_column", (double)std::min(band, k - 1)); if (y != x) cx.fail("large-lsolve", "the exact solution of L x = b is not recovered, order %ld, columns of %ld: %s", k, band, desc); y = c; LDL_ltsolve(k, y.data(), Lp.data(), Li.data(), Lx.data()); if (y != x) cx.fail("large-ltsolve", "the exact solution of L' x = b is not recovered, order %ld, columns of %ld: %s", k, band, desc); }
    // K = [P+I A' G'; A -I 0; G 0 -I] in a low-fill ordering, factorised and solved through the exported routines
    Trip T; T.init(N); for (long j = 0; j < n; j++) { bool d = false; for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) { T.add(q.P.ir[t], j, q.P.pr[t] + (q.P.ir[t] == j ? 1 : 0)); d |= q.P.ir[t] == j; } if (!d) T.add(j, j, 1); if (p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) { T.add(n + q.A.ir[t], j, q.A.pr[t]); T.add(j, n + q.A.ir[t], q.A.pr[t]); } for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) { T.add(n + p + q.G.ir[t], j, q.G.pr[t]); T.add(j, n + p + q.G.ir[t], q.G.pr[t]); } } for (long i = n; i < N; i++) T.add(i, i, -1 - r.u());
    vd sc(N, 1); if (r.b(.5)) { int lo = (int)r.i(-12, 0), hi = (int)r.i(0, 12); for (auto& v : sc) v = std::exp2((double)r.i(lo, hi)); cx.count("rescaled_matrices"); for (long j = 0; j < N; j++) for (auto& e : T.col[j]) e.second *= sc[j] * sc[e.first]; }   // pivots of any size, same rounding
    SM K = T.csc(N); vl P(N), Pi(N), Par(N), Lnz(N), Fl(N), Lp(N + 1); double C[AMD_CONTROL], I[AMD_INFO]; amd_l_defaults(C); if (amd_l_order(N, K.jc.data(), K.ir.data(), P.data(), C, I) < 0) return;
    if (!LDL_valid_perm(N, P.data(), Fl.data()) || !LDL_valid_matrix(N, K.jc.data(), K.ir.data())) { cx.fail("large-validator", "a valid permutation or matrix was rejected: %s", desc); return; }
    LDL_symbolic(N, K.jc.data(), K.ir.data(), Lp.data(), Par.data(), Lnz.data(), Fl.data(), P.data(), Pi.data()); vl cnt = sym_counts(kkt_adj(q), P); cx.count("factor_structures_checked"); for (long k = 0; k < N; k++) if (Lp[k + 1] - Lp[k] != cnt[k]) { cx.fail("large-counts", "column %ld of L predicted with %ld entries instead of %ld: %s", k, Lp[k + 1] - Lp[k], cnt[k], desc); return; }
    vl Li(Lp[N] + 1), Pat(N); vd Lx(Lp[N] + 1), D(N), Y(N, 0); if (LDL_numeric(N, K.jc.data(), K.ir.data(), K.pr.data(), Lp.data(), Par.data(), Lnz.data(), Li.data(), Lx.data(), D.data(), Y.data(), Pat.data(), Fl.data(), P.data(), Pi.data()) != N) { cx.fail("large-incomplete", "factorisation incomplete: %s", desc); return; }
    for (long k = 0; k < N; k++) for (long t = Lp[k]; t < Lp[k + 1]; t++) if (Li[t] <= (t > Lp[k] ? Li[t - 1] : k) || Li[t] >= N) { cx.fail("large-indices", "column %ld of L: indices not ascending: %s", k, desc); return; }
    vd b(N), x(N), w(N); for (long i = 0; i < N; i++) b[i] = r.n() * sc[i]; LDL_perm(N, w.data(), b.data(), P.data()); LDL_lsolve(N, w.data(), Lp.data(), Li.data(), Lx.data()); LDL_dsolve(N, w.data(), D.data()); LDL_ltsolve(N, w.data(), Lp.data(), Li.data(), Lx.data()); LDL_permt(N, x.data(), w.data(), P.data());
    vld rs(N), ra(N); for (long i = 0; i < N; i++) rs[i] = -(ld)b[i], ra[i] = fabsl(rs[i]); for (long j = 0; j < N; j++) for (long t = K.jc[j]; t < K.jc[j + 1]; t++) { ld e = (ld)K.pr[t] * x[j]; rs[K.ir[t]] += e; ra[K.ir[t]] += fabsl(e); } ld a = 0, s = 0; for (long i = 0; i < N; i++) { ld u = rs[i] / sc[i], v = ra[i] / sc[i]; a += u * u; s += v * v; } ld rel = sqrtl(a / s); cx.cmax("max_relative_residual", (double)rel); cx.count("solves_checked"); if (!(rel <= 1e-11L)) cx.fail("large-solve", "relative residual %.2Le: %s", rel, desc);
  } else if (is("kernels")) {
    // the assembled KKT matrix, the transposes kept by an instance, and products with the data
    SInst in(q); in.setup(); smat* Kk = in.q->kkt->kktmatrix; Trip T; T.init(N); for (long j = 0; j < n; j++) { for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) T.add(q.P.ir[t], j, q.P.pr[t]); if (p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) { T.add(n + q.A.ir[t], j, q.A.pr[t]); T.add(j, n + q.A.ir[t], q.A.pr[t]); } for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) { T.add(n + p + q.G.ir[t], j, q.G.pr[t]); T.add(j, n + p + q.G.ir[t], q.G.pr[t]); } } for (long i = n + p; i < N; i++) T.add(i, i, -1);
    SM K = T.csc(N); cx.count("assemblies"); bool ok = Kk->n == N && Kk->jc[N] == K.nnz() && !memcmp(Kk->jc, K.jc.data(), (N + 1) * sizeof(long)) && !memcmp(Kk->ir, K.ir.data(), K.nnz() * sizeof(long)) && !memcmp(Kk->pr, K.pr.data(), K.nnz() * sizeof(double)); if (!ok) cx.fail("large-kkt", "the assembled KKT matrix is not [P A' G'; A 0 0; G 0 -I]: %s", desc);
    smat G, Gt; memset(&G, 0, sizeof G); memset(&Gt, 0, sizeof Gt); vl tj(m + 1), ti(q.G.nnz() + 1); vd tp(q.G.nnz() + 1); SparseMatrixSetup(m, n, q.G.nnz(), q.G.jc.data(), q.G.ir.data(), q.G.pr.data(), &G); SparseMatrixSetup(n, m, q.G.nnz(), tj.data(), ti.data(), tp.data(), &Gt); SparseMatrixTranspose(&G, &Gt); Trip U; U.init(m); for (long j = 0; j < n; j++) for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) U.add(j, q.G.ir[t], q.G.pr[t]); SM W = U.csc(n); cx.count("transposes");
    if (memcmp(Gt.jc, W.jc.data(), (m + 1) * sizeof(long)) || memcmp(Gt.ir, W.ir.data(), W.nnz() * sizeof(long)) || memcmp(Gt.pr, W.pr.data(), W.nnz() * sizeof(double))) cx.fail("large-transpose", "the transpose is not exact: %s", desc);
    vd x(n), y(m), y2(n); for (auto& v : x) v = (double)r.i(-8, 8) / 4; vld ex(m, 0); for (long j = 0; j < n; j++) for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) ex[q.G.ir[t]] += (ld)q.G.pr[t] * x[j]; SparseMatrixMultiply(&G, x.data(), y.data(), 0); ld d1 = 0, d0 = 0; for (long i = 0; i < m; i++) { d1 = std::max(d1, fabsl(y[i] + ex[i])); d0 = std::max(d0, fabsl(ex[i])); } cx.count("products"); if (!(d1 <= 1e-12L * (1 + d0)))
      cx.fail("large-product", "-G*x off by %.2Le: %s", d1, desc);
    in.cleanup();
  }
}
int main(int a, char** v) { for (int i = 1; i + 1 < a; i++) if (!strcmp(v[i], "--mode")) g_mode = v[i + 1]; return qpm_main(a, v, one); }
