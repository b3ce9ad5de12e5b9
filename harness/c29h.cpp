// C29, more than 2^31 elements: dense conversion and vector routines on arrays of never-written pages (all zero, no memory used) with a few entries placed in them
#include "qpm.hpp"
#include <map>
#include <sys/mman.h>
#define W __attribute__((weak))
extern "C" {
W void findsteplength(qp_real*, qp_real*, qp_real*, qp_real*, qp_int, qp_real*, qp_real*); W qp_real formrho(qp_real*, qp_real*, qp_real*, qp_real*, qp_real, qp_real, qp_int);
W qp_real innerproduct(qp_real*, qp_real*, qp_int); W void densetosparse(qp_int, qp_int, qp_real*, smat*); W void densetosparse_ROWMAJOR(qp_int, qp_int, qp_real*, smat*); W qp_real norm(qp_real*, qp_int); W void findminmax(qp_real*, long, qp_real*, qp_real*);
}
static void one(Ctx& cx, Rng& r) {
  int kind = (int)((cx.idx + cx.seed) % 4); const long T = 1L << 31; char d[160]; cx.seen(cx.idx * 7919 + cx.seed * 104729 + kind);
  if (!(kind == 0 ? (void*)densetosparse : kind == 1 ? (void*)densetosparse_ROWMAJOR : kind == 2 ? (void*)((norm && innerproduct) ? findminmax : nullptr) : (void*)(formrho ? findsteplength : nullptr))) { cx.count("routine_not_exported"); return; }
  long m, n; if (kind == 1) { n = r.i(1, 4); m = T / n + r.i(2, 4000); } else if (kind == 0) { n = r.b(.5) ? r.i(1, 5) : r.i(20000, 60000); m = T / n + r.i(2, 4000); } else { n = 1; m = T + r.i(2, 100000); }
  size_t N = (size_t)m * n; double* p = (double*)mmap(0, N * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { cx.count("no_address_space"); return; } madvise(p, N * 8, MADV_HUGEPAGE);
  std::map<size_t, double> e; e[N - 1] = 3; for (int t = 0; t < 12; t++) e[t < 4 ? (size_t)r.i(0, (long)N - 1) : t < 8 ? (size_t)(T - 2 + r.i(0, 4)) % N : t < 10 ? (size_t)r.i((long)N - 50, (long)N - 1) : (size_t)r.i(0, 50)] = (double)r.i(1, 9); for (auto& x : e) p[x.first] = x.second;
  snprintf(d, sizeof d, "%ld x %ld", m, n);
  if (kind < 2) { smat A; memset(&A, 0, sizeof A); if (kind) densetosparse_ROWMAJOR(m, n, p, &A); else densetosparse(m, n, p, &A); cx.count(kind ? "huge_row_major" : "huge_column_major"); std::map<std::pair<long, long>, double> w; for (auto& x : e) w[kind ? std::make_pair((long)(x.first % n), (long)(x.first / n)) : std::make_pair((long)(x.first / m), (long)(x.first % m))] = x.second;
    bool ok = A.m == m && A.n == n && A.nnz == (long)w.size() && A.jc[0] == 0 && A.jc[n] == (long)w.size(); if (ok) { long t = 0; for (auto& x : w) { if (A.ir[t] != x.first.second || A.pr[t] != x.second || !(A.jc[x.first.first] <= t && t < A.jc[x.first.first + 1])) ok = false; t++; } for (long j = 0; j < n; j++) if (A.jc[j] > A.jc[j + 1]) ok = false; }
    if (!ok) cx.fail("huge-conversion", "%s-major %s dense matrix with %zu nonzeros: the converted matrix has %ld or other ones", kind ? "row" : "column", d, w.size(), (long)A.nnz); else cx.count("entries_checked", (double)w.size()); FREE(A.ir); FREE(A.jc); FREE(A.pr); }
  else if (kind == 2) { double s2 = 0, mx = 0; for (auto& x : e) s2 += x.second * x.second, mx = std::max(mx, x.second); double a = norm(p, m), b = innerproduct(p, p, m), lo = -1, hi = -1; findminmax(p, m, &lo, &hi); cx.count("huge_reductions", 3); if (!(fabs(a * a - s2) <= 1e-12 * s2)) cx.fail("huge-norm", "norm of %ld entries is %.17g, squares sum to %g", m, a, s2); if (b != s2) cx.fail("huge-innerproduct", "inner product of %ld entries is %.17g instead of %g", m, b, s2); if (lo != 0 || hi != mx) cx.fail("huge-minmax", "extrema of %ld entries are %g, %g instead of 0, %g", m, lo, hi, mx); }
  else { for (auto& x : e) p[x.first] = -x.second;
    double ap = 0, ad = 0; size_t B = N * 8; double* q = (double*)mmap(0, B, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) { munmap(p, N * 8); cx.count("no_address_space"); return; } madvise(q, B, MADV_HUGEPAGE); double best = 1e10; for (auto& x : e) { q[x.first] = r.u(1, 50); } size_t last = (--e.end())->first; q[last] = .5 * -p[last]; for (auto& x : e) best = std::min(best, q[x.first] / x.second);
    findsteplength(q, p, q, p, m, &ap, &ad); cx.count("huge_step_lengths"); if (!(fabs(ap - best) <= 1e-14 * best) || ap != ad) cx.fail("huge-step", "step lengths %.17g, %.17g instead of %.17g over %ld entries", ap, ad, best, m);
    double rho = formrho(q, p, q, p, 0, 0, m); if (!(fabs(rho - 1) <= 1e-12)) cx.fail("huge-rho", "rho of no step at all is %.17g over %ld entries", rho, m); munmap(q, B); }
  munmap(p, N * 8);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
