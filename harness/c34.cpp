// C34: memory and work stay proportional to the nonzeros of the data and of the factor.
// Work is the number of basic blocks of the library executed (compiler-inserted callbacks), memory the bytes requested from the allocator.
#include <malloc.h>
#include "sparse.hpp"
#include "stack.hpp"
struct Budget { const char* what; double used; };
static uint64_t g_pc = 0, g_limit = ~0ull; extern "C" void __sanitizer_cov_trace_pc() { if (++g_pc > g_limit) { g_limit = ~0ull; throw Budget{"work", (double)g_pc}; } }
static double g_cap = 1e300;
extern "C" { void* __real_malloc(size_t) __attribute__((weak)); void* __real_calloc(size_t, size_t) __attribute__((weak)); void* __real_realloc(void*, size_t) __attribute__((weak)); void __real_free(void*) __attribute__((weak)); }
static bool g_on = false; static double g_cur = 0, g_peak = 0, g_blocks = 0; static size_t g_maxblock = 0;
static void add(void* p, double sgn) { if (!g_on || !p) return; size_t k = malloc_usable_size(p); g_cur += sgn * (double)k; if (sgn > 0) { g_blocks++; if (k > g_maxblock) g_maxblock = k; } if (g_cur > g_peak) g_peak = g_cur; }
extern "C" {
static void cap(double n) { if (g_on && g_cur + n > g_cap) { g_on = false; throw Budget{"memory", g_cur + n}; } }
void* __wrap_malloc(size_t n) { cap((double)n); void* p = __real_malloc(n); add(p, 1); return p; }
void* __wrap_calloc(size_t a, size_t b) { cap((double)a * b); void* p = __real_calloc(a, b); add(p, 1); return p; }
void* __wrap_realloc(void* o, size_t n) { add(o, -1); void* p = __real_realloc(o, n); add(p, 1); return p; }
void __wrap_free(void* p) { add(p, -1); __real_free(p); } }
static void one(Ctx& cx, Rng& r) {
  int fam = (int)r.i(0, NSF - 1), size = r.b(.5) ? 0 : r.b(.75) ? 1 : 2; SProb q = gen_sparse(r, fam, size); long n = q.n, m = q.m, p = q.p, N = n + m + p; char desc[240]; snprintf(desc, sizeof desc, "%s n=%ld m=%ld p=%ld nz=%ld/%ld/%ld", q.fam, n, m, p, q.P.nnz(), q.G.nnz(), q.A.nnz()); cx.seen(q.hash()); cx.cmax("max_dimension", (double)N);
  bool dense = n * (n + m + p) <= 4000000 && r.b(.5); vd D, Gd, Ad; if (dense) { D.assign((size_t)n * n, 0); Gd.assign((size_t)m * n, 0); Ad.assign((size_t)p * n, 0); for (long j = 0; j < n; j++) { for (long t = q.P.jc[j]; t < q.P.jc[j + 1]; t++) D[q.P.ir[t] * n + j] = q.P.pr[t]; for (long t = q.G.jc[j]; t < q.G.jc[j + 1]; t++) Gd[q.G.ir[t] * n + j] = q.G.pr[t]; if (p) for (long t = q.A.jc[j]; t < q.A.jc[j + 1]; t++) Ad[q.A.ir[t] * n + j] = q.A.pr[t]; } cx.count("dense_setups"); }
  // every family has an ordering with a factor of this order; far beyond it the run is cut off
  double nz = (double)q.P.nnz() + 2.0 * q.G.nnz() + 2.0 * q.A.nnz() + N, entries = dense ? (double)n * (n + m + p) : 0; bool grid = fam == SF_GRID, rnd = fam == SF_RANDOM; double lcap = rnd ? 60 * nz : grid ? 31 * N * std::log2((double)N) / 4 : 6 * nz, fcap = rnd ? 200 * lcap : grid ? 40 * std::pow((double)N, 1.5) : fam == SF_BLOCKS ? nz * nz / n : 20 * nz;
  SInst in(q); if (!dense && r.b(.35)) { for (SM* M : {&in.w.P, &in.w.A, &in.w.G}) for (long j = 0; j < M->c; j++) for (long t = M->jc[j + 1] - 1; t > M->jc[j]; t--) { long u = r.i(M->jc[j], t); std::swap(M->ir[t], M->ir[u]); std::swap(M->pr[t], M->pr[u]); } cx.count("unsorted_columns"); }
  long mit = r.i(3, 8); g_cur = g_peak = g_blocks = 0; g_maxblock = 0; uint64_t t0 = g_pc, t1 = 0, t2 = 0, t3 = 0; QP* w; static MeteredStack stk; size_t deep = 0; double held = 0, peak = 0; vl P; long it = 0; g_limit = t0 + (uint64_t)(300 * (nz + lcap + fcap + entries) + 80 * (mit + 1) * (nz + lcap + fcap)); g_cap = 8 * 80 * (nz + lcap); g_on = true;
  try { deep = stk.run([&] {
    if (dense) w = QP_SETUP_dense(n, m, p, D.data(), p ? Ad.data() : nullptr, Gd.data(), q.c.data(), q.h.data(), p ? q.b.data() : nullptr, nullptr, ROW_MAJOR_ORDERING); else { in.setup(); w = in.q; }
    t1 = g_pc; held = g_cur; peak = g_peak; g_on = false; P.assign(w->kkt->P, w->kkt->P + N); g_on = true; w->options->maxit = mit; QP_SOLVE(w); t2 = g_pc; it = w->stats->IterationCount; if (dense) QP_CLEANUP_dense(w); else in.cleanup(); t3 = g_pc; g_on = false; g_limit = ~0ull; });
  } catch (const Budget& b) { g_on = false; g_limit = ~0ull; cx.fail("out-of-budget", "cut off: %s of %.3g, far beyond what %g nonzeros and a factor of %g entries need: %s", b.what, b.what[0] == 'w' ? b.used - (double)t0 : b.used, nz, lcap, desc); return; }
  cx.cmax("max_stack_bytes", (double)deep); if (deep) cx.count("stacks_metered"); if (deep > 200000) cx.fail("stack", "setup, solve and cleanup need %zu bytes of stack: %s", deep, desc);
  vl cnt = sym_counts(kkt_adj(q), P); double lnz = 0, fl = 0; for (long c : cnt) { lnz += c; fl += .5 * c * (c + 1.0); }
  double mem = held / 8 / (nz + lnz), pk = peak / 8 / (nz + lnz), set = (double)(t1 - t0) / (nz + lnz + fl + entries), sol = (double)(t2 - t1) / ((it + 1) * (nz + lnz + fl)), cl = (double)(t3 - t2) / (N + 100);
  cx.count(dense ? "dense" : "sparse"); cx.count("setup_blocks", (double)(t1 - t0)); cx.count("solve_blocks", (double)(t2 - t1)); cx.cmax("max_words_held_per_nonzero", mem); cx.cmax("max_words_peak_per_nonzero", pk); cx.cmax("max_setup_work", set); cx.cmax("max_solve_work", sol); cx.cmax("max_cleanup_work", cl); cx.cmax("max_allocations", g_blocks); if (fl < 1e6 && N > 20000) cx.count("nearly_linear_large_problems");
  cx.sample("%s lnz=%g flops=%g: words held %.2f peak %.2f per nonzero, setup work %.2f, work per iteration %.2f", desc, lnz, fl, mem, pk, set, sol);
  cx.cmax(grid ? "max_grid_fill_over_nlogn" : rnd ? "max_random_fill_over_nonzeros" : "max_fill_over_nonzeros", grid ? lnz / (N * std::log2((double)N)) : lnz / nz); cx.cmax(grid ? "max_grid_flops_over_n15" : rnd ? "max_random_flops_over_fill" : "max_flops_over_nonzeros", grid ? fl / std::pow((double)N, 1.5) : rnd ? fl / lnz : fl / nz);
  if (!rnd && lnz > lcap) cx.fail("factor-fill", "the factor has %g entries for %g nonzeros in the matrix: %s", lnz, nz, desc);
  if (mem > 40) cx.fail("memory-held", "an instance holds %.0f bytes, %.1f words per nonzero of the data and the factor: %s", held, mem, desc);
  if (pk > 80) cx.fail("memory-peak", "setup needs %.0f bytes, %.1f words per nonzero of the data and the factor: %s", peak, pk, desc);
  if (set > 300) cx.fail("setup-work", "setup executes %.3g basic blocks, %.1f per nonzero, entry read and factor operation: %s", (double)(t1 - t0), set, desc);
  if (sol > 80) cx.fail("solve-work", "%ld iterations execute %.3g basic blocks, %.1f per iteration, nonzero and factor operation: %s", it, (double)(t2 - t1), sol, desc);
  if (g_blocks > 2000) cx.fail("allocations", "%.0f allocations: %s", g_blocks, desc);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
