// C16: allocation conservation, from a log of every allocator call the library makes (interposed at link time)
#include <malloc.h>
#include <unordered_map>
#include "gen2.hpp"
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_memalign(size_t, size_t); char* __real_strdup(const char*); }
struct Ev { char k; void* p; size_t n; };
static bool g_on = false; static Ev g_ev[200000]; static int g_n = 0;
static bool g_quar = true; static void* g_q[200000]; static int g_qn = 0;
static void rec(char k, void* p, size_t n) { if (g_on && g_n < 200000) g_ev[g_n++] = {k, p, n}; }
extern "C" {
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); rec('a', p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); rec('a', p, a * b); return p; }
void* __wrap_realloc(void* o, size_t n) { if (g_on) { void* p = __real_malloc(n); if (p && o) { size_t k = malloc_usable_size(o); memcpy(p, o, k < n ? k : n); } rec('f', o, 0); rec('a', p, n); if (o) g_q[g_qn++] = o; return p; } return __real_realloc(o, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); rec('a', p, n); return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { int r = __real_posix_memalign(o, a, n); if (!r) rec('a', *o, n); return r; }
void* __wrap_memalign(size_t a, size_t n) { void* p = __real_memalign(a, n); rec('a', p, n); return p; }
char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); rec('a', p, strlen(s) + 1); return p; }
// frees are only recorded while watching, so that a double free is seen rather than suffered, and no address is reused
void __wrap_free(void* p) { if (g_on) { rec('f', p, 0); if (g_qn < 200000) g_q[g_qn++] = p; return; } __real_free(p); }
}
#ifndef AMD_H
extern "C" { extern void* (*amd_malloc)(size_t); }
#endif
static int g_amdfail = -1; static void* (*g_amdreal)(size_t); static void* amd_starved(size_t n) { return g_amdfail-- == 0 ? nullptr : g_amdreal(n); }   // one allocation of the ordering fails
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.02) ? 3 : r.b(.1) ? 2 : (int)r.i(0, 1);
  Prob q; if (k0 < 3) q = gen_wild(r, sc); else if (k0 < 5) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  if (r.b(.1)) std::fill(q.G.begin(), q.G.end(), 0.0); if (r.b(.1)) std::fill(q.P.begin(), q.P.end(), 0.0); if (r.b(.1)) std::fill(q.A.begin(), q.A.end(), 0.0);
  Cfg c = rand_cfg(r, q); c.perm = r.b(.4); c.eqenc = (int)r.i(0, 6); c.maxit = r.b(.5) ? 100 : r.b(.3) ? r.i(101, 400) : r.i(0, 6); c.verbose = r.b(.1) ? (int)r.i(1, 5) : 0; if (r.b(.1)) { c.reltol = std::pow(10.0, r.u(-16, 3)); c.abstol = std::pow(10.0, r.u(-16, 3)); c.sigma = std::pow(10.0, r.u(-4, 5)); } if (r.b(.1)) c.defaults = true; bool solve = !r.b(.12); if (r.b(.05)) c.reltol = c.abstol = 0; DESC(q, c);
  cx.seen(q.hash()); static Capture* cap = nullptr; if (!cap) { cap = new Capture(); printf("warm up stdio %f\n", 1.0); fflush(stdout); } cap->reset();
  bool again = r.b(.25); long am = r.i(0, 40); double ar = std::pow(10, r.u(-12, 0)); if (again && solve) cx.count("solved_twice");
  Inst in; Rng e(r.next()); in.load(q, c, e);
  bool starve = r.b(.1); int sat = (int)r.i(0, 4); if (starve) { g_amdreal = amd_malloc; g_amdfail = sat; amd_malloc = amd_starved; }
  g_n = 0; g_qn = 0; g_on = true; in.setup(); if (starve) { amd_malloc = g_amdreal; if (in.q->stats->AMD_RESULT < 0 && in.q->stats->AMD_RESULT != -3) cx.count("ordering_failed"); } int nset = g_n; long f = -9; if (solve) f = in.solve(); if (solve && again) { in.q->options->maxit = am; in.q->options->reltol = ar; f = in.solve(); } int nsol = g_n; QP* qp = in.q; (void)qp; bool dense = in.dense; (void)dense; in.cleanup(); g_on = false; int nall = g_n;
  if (nall >= 200000) { cx.skipped++; return; }
  char fl[24]; snprintf(fl, sizeof fl, solve ? "solved_flag_%ld" : "cleanup_without_solve", f); cx.count(fl); cx.count(c.perm ? "caller_permutation" : "own_permutation"); cx.count(c.fmt >= FMT_ROW ? "dense_variant" : "sparse_variant"); if (q.p) cx.count("with_equalities");
  std::unordered_map<void*, int> st; std::unordered_map<void*, size_t> sz; long na = 0, nf = 0; size_t bytes = 0; int bad = 0;
  for (int i = 0; i < nall && bad < 3; i++) { Ev& v = g_ev[i]; const char* ph = i < nset ? "setup" : i < nsol ? "solve" : "cleanup";
    if (i >= nset && i < nsol) { cx.fail(v.k == 'a' ? "allocation-in-solve" : "free-in-solve", "%s of %zu bytes during solve: %s", v.k == 'a' ? "allocation" : "free", v.n, desc); bad++; }
    if (i >= nsol && v.k == 'a') { cx.fail("allocation-in-cleanup", "allocation of %zu bytes during cleanup: %s", v.n, desc); bad++; }
    if (v.k == 'a') { if (!v.p) continue; na++; bytes += v.n; st[v.p] = 1; sz[v.p] = v.n; }
    else { if (!v.p) continue; nf++; auto it = st.find(v.p); if (it == st.end()) { cx.fail("foreign-free", "%s frees a block the library did not allocate: %s", ph, desc); bad++; } else if (it->second == 2) { cx.fail("double-free", "%s frees a block of %zu bytes twice: %s", ph, sz[v.p], desc); bad++; } else it->second = 2; } }
  long left = 0; size_t lb = 0; for (auto& t : st) if (t.second == 1) { left++; lb += sz[t.first]; }
  if (left) cx.fail("leak", "%ld of %ld blocks (%zu bytes) never released (cleanup %s solving): %s", left, na, lb, solve ? "after" : "without", desc);
  cx.count("allocations", (double)na); cx.count("frees", (double)nf); if (na < 20) cx.count("suspiciously_few_allocations");
  // only now give the memory back (blocks that belong to someone else stay)
  for (int i = 0; i < g_qn; i++) { auto it = st.find(g_q[i]); if (it != st.end() && it->second) { it->second = 0; __real_free(g_q[i]); } } for (auto& t : st) if (t.second == 1) __real_free(t.first);
  cx.sample("%s allocations=%ld frees=%ld bytes=%zu in-solve=%d", desc, na, nf, bytes, nsol - nset);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
