// C11: ordering and labelling do not change the answer
#include "gen2.hpp"
// column counts of L for a symmetric pattern under a permutation (independent symbolic elimination)
static vl symbolic(const std::vector<std::vector<char>>& S, const vl& P) {
  int N = (int)P.size(); std::vector<std::vector<char>> M(N, std::vector<char>(N)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) M[i][j] = S[P[i]][P[j]];
  vl cnt(N, 0); for (int k = 0; k < N; k++) { std::vector<int> nb; for (int i = k + 1; i < N; i++) if (M[i][k]) nb.push_back(i); cnt[k] = (long)nb.size(); for (int a : nb) for (int b : nb) M[a][b] = 1; } return cnt; }
static void one(Ctx& cx, Rng& r) {
  int sc = r.b(.12) ? 2 : (int)r.i(0, 1); Prob q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); int n = q.n, m = q.m, p = q.p, N = n + m + p; if (N > 420) { cx.count("too_large"); return; }
  Cfg c; c.fmt = (int)r.i(0, NFMT - 1); c.reltol = c.abstol = std::pow(10.0, r.u(-8, -4)); c.eqenc = (int)r.i(0, 6); DESC(q, c); uint64_t enc = r.next();
  Snap base = run_once(q, c, enc); cx.seen(q.hash());
  auto compare = [&](const Snap& a, const char* key, const char* what, const std::function<Snap(const Prob&)>& again) {
    if (a.flag != base.flag) { if (!q.strict || (p > 10 && n > 20 && !strcmp(q.fam, "dense")) || !persistent(r, q, [&](const Prob& w) { return again(w).flag != run_once(w, c, enc).flag; })) { cx.skipped++; cx.count("flag_decided_by_rounding"); return; } cx.fail(key, "%s: exit flag %ld instead of %ld: %s", what, a.flag, base.flag, desc); return; }
    if (a.flag != 0) return; Kkt k = kkt_eval(q, a); if (meets(k, q, c.reltol, c.abstol) == 0) { cx.fail(key, "%s: answer does not solve the problem (rx=%.2Le ry=%.2Le rz=%.2Le mu=%.2Le): %s", what, k.rx, k.ry, k.rz, k.mu, desc); return; }
    if (std::labs(a.it - base.it) > 2) { cx.count("iterations_differ_by_more_than_two"); if (q.strict && !(p > 10 && n > 20 && !strcmp(q.fam, "dense")) && std::labs(a.it - base.it) > 30 && persistent(r, q, [&](const Prob& w) { return std::labs(again(w).it - run_once(w, c, enc).it) > 30; })) { cx.fail(key, "%s: %ld iterations instead of %ld: %s", what, a.it, base.it, desc); return; } }
    if (q.sconvex) { ld tol = 2 * (ld)c.reltol / sqrtl(3.0L), gap = 2 * (ld)c.abstol * m, ex = ndiff(a.x, base.x), ey = ndiff(a.y, base.y), ez = ndiff(a.z, base.z), xb = tol / q.lmin + sqrtl(((ey + ez) * tol + gap) / q.lmin) + 1e-9L * (1 + nrm(a.x)); cx.count("solutions_compared"); if (!(ex <= xb)) cx.fail(key, "%s: x differs by %.2Le (bound %.2Le): %s", what, ex, xb, desc); } };
  // 1. caller-supplied orderings
  std::vector<std::vector<char>> S; bool pat = c.fmt != FMT_XZERO && c.fmt != FMT_MESS && N <= 90;
  if (pat) { S.assign(N, std::vector<char>(N, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (q.P[(size_t)i * n + j] != 0) S[i][j] = 1; for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) if (q.A[(size_t)i * n + j] != 0) S[n + i][j] = S[j][n + i] = 1; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (q.G[(size_t)i * n + j] != 0) S[n + p + i][j] = S[j][n + p + i] = 1; }
  for (int t = 0; t < 4; t++) {
    vl P(N); std::iota(P.begin(), P.end(), 0); const char* nm;
    switch (t) { case 0: nm = "random ordering"; r.shuffle(P); break; case 1: nm = "identity ordering"; break; case 2: nm = "reversed ordering"; std::reverse(P.begin(), P.end()); break;
      default: { nm = "block-shuffled ordering"; vl a, b2, d; for (int i = 0; i < N; i++) (i < n ? a : i < n + p ? b2 : d).push_back(i); r.shuffle(a); r.shuffle(b2); r.shuffle(d); P.clear(); for (auto v : d) P.push_back(v); for (auto v : a) P.push_back(v); for (auto v : b2) P.push_back(v); } }
    if (t == 0 && r.b(.5)) { std::stable_partition(P.begin(), P.end(), [&](long v) { return v < n || v >= n + p; }); nm = "random ordering, equalities last"; }
    Cfg d = c; d.perm = true; Inst in; in.permv = P; Rng e(enc); in.load(q, d, e); in.setup();
    if (in.q->stats->AMD_RESULT != -3) cx.fail("amd-result", "AMD_RESULT=%ld although an ordering was supplied: %s", in.q->stats->AMD_RESULT, desc);
    if (memcmp(in.q->kkt->P, P.data(), N * sizeof(long))) cx.fail("ordering-not-used", "the elimination ordering in use is not the one supplied (%s): %s", nm, desc);
    if (pat) { vl cnt = symbolic(S, P); cx.count("factor_structures_checked"); for (int k = 0; k < N; k++) if (in.q->kkt->Lp[k + 1] - in.q->kkt->Lp[k] != cnt[k]) { cx.fail("factor-structure", "column %d of L has %ld entries, elimination in the supplied ordering gives %ld (%s): %s", k, in.q->kkt->Lp[k + 1] - in.q->kkt->Lp[k], cnt[k], nm, desc); break; } }
    long f = in.solve(); Snap s = in.snap(f); in.cleanup();
    if (memcmp(in.perm.p, P.data(), N * sizeof(long))) cx.fail("ordering-modified", "the supplied ordering was modified (%s): %s", nm, desc);
    cx.count("orderings");
    // an equality row eliminated before its variables has a zero pivot, which the documented regularisation replaces: the answer
    // then only has to be certified; and
    // without pivoting, a singular P block eliminated first has no accurate factorisation in some orderings:
    // the answer is compared where the KKT matrix is quasi-definite (P positive definite)
    bool eqlast = true, seeneq = false; for (long v : P) { if (v >= n && v < n + p) seeneq = true; else if (v < n && seeneq) eqlast = false; }
    if (q.sconvex && eqlast) { cx.count("orderings_answer_compared"); compare(s, "ordering-changes-answer", nm, [&](const Prob& w) { return run_once(w, d, enc, &P); }); }
    else if (s.flag == 0) { cx.count("orderings_certified"); Kkt k = kkt_eval(q, s); if (meets(k, q, c.reltol, c.abstol) == 0) cx.fail("ordering-wrong-answer", "%s: OPTIMAL but not a solution (rx=%.2Le rz=%.2Le): %s", nm, k.rx, k.rz, desc); }
  }
  // 2. relabelling variables and reordering rows
  for (int t = 0; t < 2; t++) {
    vl pv = rand_perm(r, n), pa = rand_perm(r, p), pg = rand_perm(r, m);
    auto relabel = [&](const Prob& q) { Prob w = q;
    for (int i = 0; i < n; i++) { w.c[i] = q.c[pv[i]]; for (int j = 0; j < n; j++) w.P[(size_t)i * n + j] = q.P[(size_t)pv[i] * n + pv[j]]; }
    for (int i = 0; i < p; i++) { w.b[i] = q.b[pa[i]]; for (int j = 0; j < n; j++) w.A[(size_t)i * n + j] = q.A[(size_t)pa[i] * n + pv[j]]; }
    for (int i = 0; i < m; i++) { w.h[i] = q.h[pg[i]]; for (int j = 0; j < n; j++) w.G[(size_t)i * n + j] = q.G[(size_t)pg[i] * n + pv[j]]; } return w; };
    Prob w = relabel(q);
    Snap s = run_once(w, c, enc), u = s; for (int i = 0; i < n; i++) u.x[pv[i]] = s.x[i]; for (int i = 0; i < p; i++) u.y[pa[i]] = s.y[i]; for (int i = 0; i < m; i++) { u.z[pg[i]] = s.z[i]; u.s[pg[i]] = s.s[i]; }
    cx.count("relabellings"); compare(u, "relabelling-changes-answer", "relabelled problem", [&](const Prob& x) { return run_once(relabel(x), c, enc); });
  }
  cx.sample("%s flag=%ld it=%ld", desc, base.flag, base.it);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
