// C20: ordering failures: every allocation point failing, every malformed input, and what setup makes of it
#include "graphs.hpp"
static long g_call = 0, g_live = 0, g_failat = -1; static bool g_persist = false; static unsigned long g_mask = 0; static bool g_usemask = false; static size_t g_lim = (size_t)-1;
static bool failnow() { long k = g_call++; if (g_usemask) return k < 60 && (g_mask >> k & 1); return g_failat >= 0 && (g_persist ? k >= g_failat : k == g_failat); }
static void* my_malloc(size_t n) { if (failnow() || n > g_lim) return nullptr; g_live++; return malloc(n ? n : 1); }
static void* my_calloc(size_t a, size_t b) { if (failnow()) return nullptr; g_live++; return calloc(a ? a : 1, b ? b : 1); }
static void* my_realloc(void* o, size_t n) { if (failnow()) return nullptr; if (!o) g_live++; return realloc(o, n); }
static void my_free(void* p) { if (p) g_live--; free(p); }
static void hook() { amd_malloc = my_malloc; amd_calloc = my_calloc; amd_realloc = my_realloc; amd_free = my_free; g_call = 0; g_live = 0; g_failat = -1; g_persist = false; g_usemask = false; }
struct Mat { Buf<long> ap, ai; vl Ap, Ai; bool jum = false; int n; void set() { ap.set(Ap); ai.set(Ai); } bool same() { return !memcmp(ap.p, Ap.data(), Ap.size() * 8) && (Ai.empty() || !memcmp(ai.p, Ai.data(), Ai.size() * 8)); } };
static void order(Ctx& cx, Rng& r) {
  Pat S = gen_pat(r, r.b(.1) ? 120 : 20); int n = S.n; if (n == 0) { n = 1; S.n = 1; S.col.resize(1); }
  bool jum = r.b(.5); Mat M; M.n = n; Adj col = S.col; for (int j = 0; j < n; j++) { if (r.b(.5)) col[j].push_back(j); std::sort(col[j].begin(), col[j].end()); if (jum) { if (r.b(.3) && !col[j].empty()) col[j].push_back(col[j][0]); r.shuffle(col[j]); } }
  M.Ap.assign(n + 1, 0); for (int j = 0; j < n; j++) { for (size_t t = 0; t < col[j].size(); t++) { M.Ai.push_back(col[j][t]); if (t && col[j][t] <= col[j][t - 1]) M.jum = true; } M.Ap[j + 1] = (long)M.Ai.size(); } M.set();
  Hash hh; hh.addl(M.Ap); hh.addl(M.Ai); cx.seen(hh.h); char desc[200]; snprintf(desc, sizeof desc, "pattern=%s n=%d nz=%ld jumbled=%d", S.kind, n, M.Ap[n], (int)M.jum);
  double Control[AMD_CONTROL], Info[AMD_INFO]; amd_l_defaults(Control); Buf<long> P; P.set(vl(n, -7));
  hook(); long f0 = amd_l_order(n, M.ap.p, M.ai.p, P.p, Control, Info); long K = g_call; vl p0(P.p, P.p + n);
  if (f0 != (M.jum ? 1 : 0)) cx.fail("clean-status", "status %ld without a fault: %s", f0, desc); if (g_live) cx.fail("leak", "%ld blocks left after a clean ordering: %s", g_live, desc);
  cx.cmax("max_allocation_points", (double)K); cx.count("allocation_points", (double)K);
  auto attempt = [&](const char* what) { for (auto& t : Info) t = -77; bool inf = r.b(.8); long f = amd_l_order(n, M.ap.p, M.ai.p, P.p, r.b(.8) ? Control : nullptr, inf ? Info : nullptr); cx.count("faults_injected");
    if (f != AMD_OUT_OF_MEMORY) cx.fail("oom-status", "%s: status %ld: %s", what, f, desc); if (inf && Info[AMD_STATUS] != AMD_OUT_OF_MEMORY) cx.fail("oom-info", "%s: Info status %g: %s", what, Info[AMD_STATUS], desc);
    if (g_live) cx.fail("oom-leak", "%s: %ld blocks not released: %s", what, g_live, desc); if (!M.same()) cx.fail("inputs-changed", "%s: inputs changed: %s", what, desc); };
  char w[80];
  for (long k = 0; k < K; k++) { hook(); g_failat = k; snprintf(w, sizeof w, "allocation %ld of %ld fails", k, K); attempt(w); hook(); g_failat = k; g_persist = true; snprintf(w, sizeof w, "allocations from %ld of %ld fail", k, K); attempt(w); }
  if (K <= 8) for (unsigned long m = 1; m < (1ul << K); m++) { hook(); g_usemask = true; g_mask = m; snprintf(w, sizeof w, "allocation subset %lx of %ld fails", m, K); attempt(w); cx.count("fault_subsets"); }
  hook(); P.set(vl(n, -7)); long f1 = amd_l_order(n, M.ap.p, M.ai.p, P.p, Control, Info); if (f1 != f0 || vl(P.p, P.p + n) != p0) cx.fail("after-fault", "ordering differs after faults: %s", desc);
  // malformed input
  auto bad = [&](const char* what, long N, const long* ap, const long* ai, long* pp) { hook(); for (auto& t : Info) t = -77; bool inf = r.b(.8); long f = amd_l_order(N, ap, ai, pp, Control, inf ? Info : nullptr); cx.count("malformed_inputs");
    if (f != AMD_INVALID) cx.fail("invalid-accepted", "%s: status %ld: %s", what, f, desc); if (inf && Info[AMD_STATUS] != AMD_INVALID) cx.fail("invalid-info", "%s: Info status %g: %s", what, Info[AMD_STATUS], desc); if (g_live) cx.fail("invalid-leak", "%s: %ld blocks: %s", what, g_live, desc);
    if (ap && ai && N >= 0 && amd_l_valid(N, N, ap, ai) != AMD_INVALID) cx.fail("valid", "%s: accepted by the validator: %s", what, desc); };
  bad("no column pointers", n, nullptr, M.ai.p, P.p); bad("no row indices", n, M.ap.p, nullptr, P.p); hook(); if (amd_l_order(n, M.ap.p, M.ai.p, nullptr, Control, Info) != AMD_INVALID) cx.fail("invalid-accepted", "no output accepted: %s", desc); bad("negative n", -n, M.ap.p, M.ai.p, P.p);
  if (amd_l_valid(n, n, M.ap.p, M.ai.p) != (M.jum ? 1 : 0)) cx.fail("valid-status", "validator: %ld: %s", (long)amd_l_valid(n, n, M.ap.p, M.ai.p), desc);
  { Buf<long> t; vl a = M.Ap; a[0] = r.b(.5) ? 1 : -1; t.set(a); bad("first pointer not 0", n, t.p, M.ai.p, P.p); }
  { Buf<long> t; vl a = M.Ap; a[n] = -r.i(1, 5); t.set(a); bad("negative size", n, t.p, M.ai.p, P.p); }
  if (!M.Ai.empty()) for (int k = 0; k < 3; k++) { Buf<long> t; vl a = M.Ai; size_t at = k == 0 ? 0 : k == 1 ? a.size() - 1 : (size_t)r.i(0, (long)a.size() - 1); long vals[] = {-1, n, n + 1, 0x7fffffffffffffffL, (long)0x8000000000000000L, -(long)n}; a[at] = vals[r.i(0, 5)]; t.set(a); bad("row index out of range", n, M.ap.p, t.p, P.p); }
  if (n >= 2) { // one pointer out of order, the arrays sized as the last pointer says
    Buf<long> t; vl a = M.Ap; int k = (int)r.i(1, n - 1); if (r.b(.5)) a[k] = a[k + 1] + r.i(1, 1000); else if (a[k - 1] > 0) a[k] = r.i(-3, a[k - 1] - 1); else a[k] = -1; t.set(a); bad("descending column pointers", n, t.p, M.ai.p, P.p); cx.count("bad_pointers"); }
  { // more entries than bytes can be addressed
    Buf<long> t; vl a = M.Ap; long big[] = {0x1fffffffffffffffL, 0x2000000000000000L, 0x3fffffffffffffffL + r.i(0, 9), 0x7fffffffffffffffL}; a[n] = big[r.i(0, 3)]; t.set(a); bool inf = r.b(.7); for (auto& v : Info) v = -77; hook(); cx.count("too_large"); long f = amd_l_order(n, t.p, M.ai.p, P.p, r.b(.8) ? Control : nullptr, inf ? Info : nullptr);
    if (f != AMD_OUT_OF_MEMORY || (inf && Info[AMD_STATUS] != AMD_OUT_OF_MEMORY)) cx.fail("too-large", "%ld entries claimed: status %ld, in Info %g: %s", a[n], f, inf ? Info[AMD_STATUS] : -1.0, desc); if (g_live) cx.fail("too-large-leak", "%ld blocks not released: %s", g_live, desc); }
  cx.sample("%s allocation points=%ld", desc, K);
}
static void setup(Ctx& cx, Rng& r) {
  Prob q = gen_strict(r, (int)r.i(0, NFAM - 1), r.b(.1) ? 2 : (int)r.i(0, 1)); Cfg c = rand_cfg(r, q, false); c.perm = false; c.eqenc = (int)r.i(0, 6); DESC(q, c); uint64_t enc = r.next(); cx.seen(q.hash() ^ enc); vl perm;
  hook(); Snap ref = run_once(q, c, enc); long K = g_call; if (ref.amd < 0) cx.fail("amd-result", "AMD_RESULT %ld without a fault: %s", ref.amd, desc); if (g_live) cx.fail("leak", "%ld ordering blocks left: %s", g_live, desc);
  bool judge = q.strict && q.sconvex && !(q.fam == FAMN[FAM_DENSE] && q.n > 40 && q.p > 10);
  for (long k = 0; k <= K; k++) { // the ordering fails inside setup at each allocation, and at all of them
    Inst in; Rng e(enc); in.load(q, c, e); hook(); if (k == K) { g_failat = 0; g_persist = true; } else g_failat = k; long calls; in.setup(); calls = g_call; g_failat = -1; long amd = in.q->stats->AMD_RESULT; cx.count("setup_faults"); if (!calls) { cx.count("setup_without_allocation"); continue; }
    if (amd != AMD_OUT_OF_MEMORY) cx.fail("failure-hidden", "AMD_RESULT %ld after allocation %ld failed: %s", amd, k, desc); if (g_live) cx.fail("setup-leak", "%ld ordering blocks left after failed ordering: %s", g_live, desc);
    int N = q.n + q.m + q.p; if (in.q->kkt && in.q->kkt->P) { vl s(N, 0); for (int t = 0; t < N; t++) { long v = in.q->kkt->P[t]; if (v < 0 || v >= N || s[v]++) { cx.fail("fallback-permutation", "fallback ordering is not a permutation at %d: %s", t, desc); break; } } }
    long f = in.solve(); Snap s = in.snap(f); in.cleanup(); char fl[24]; snprintf(fl, sizeof fl, "fallback_flag_%ld", f); cx.count(fl); if (s.amd != amd) cx.fail("failure-hidden", "AMD_RESULT became %ld during the solve: %s", s.amd, desc);
    if (f == QP_OPTIMAL) { Kkt kk = kkt_eval(q, s); if (meets(kk, q, c.reltol, c.abstol) == 0) cx.fail("fallback-certificate", "OPTIMAL with fallback ordering but residuals %.3Lg %.3Lg %.3Lg %.3Lg: %s", kk.rx, kk.ry, kk.rz, kk.mu, desc); }
    if (judge && ref.flag == QP_OPTIMAL) { if (f != QP_OPTIMAL) cx.fail("fallback-unsolved", "flag %ld with the fallback ordering, solved with the ordering: %s", f, desc);
      else { ld nn = sqrtl((ld)q.n), d = ndiff(s.x, ref.x); ld z1 = 0; for (double t : s.z) z1 += t; for (double t : ref.z) z1 += t; ld y1 = nrm(s.y) + nrm(ref.y); ld lim = sqrtl((ld)(2 * (q.m * 2e-6L + 2e-6L * (nrm(s.x) + nrm(ref.x) + z1 + y1 + 1)) / q.lmin)) * 2 + 1e-6L * nn; cx.count("fallback_answers_compared"); cx.cmax("max_fallback_distance_over_bound", (double)(d / lim)); if (!(d <= lim)) cx.fail("fallback-answer", "fallback answer differs by %.3Lg (bound %.3Lg): %s", d, lim, desc); } }
  }
  hook(); Snap again = run_once(q, c, enc); if (!snapeq(ref, again)) cx.fail("after-fault", "results differ after faults: %s", desc); amd_malloc = malloc; amd_free = free; amd_calloc = calloc; amd_realloc = realloc;
}
static void one(Ctx& cx, Rng& r) { if (r.b(.6)) order(cx, r); else setup(cx, r); }
int main(int a, char** v) { return qpm_main(a, v, one); }
