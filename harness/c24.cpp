// C24: reported times, under a virtual clock that is advanced by chosen amounts between any two readings
#include <time.h>
#include <sys/time.h>
#include "gen2.hpp"
static bool g_on = false; static __int128 g_now = 0; static Rng* g_r = nullptr; static int g_mode = 0; struct Rd { __int128 t; int ph; int clk; }; static Rd g_rd[100000]; static int g_n = 0, g_ph = 0; static bool g_wrongclock = false; static int g_long = -1;
static void advance() { // how far the clock moves before the next reading
  Rng& r = *g_r; __int128 d = 0; const __int128 S = 1000000000; switch (g_mode) {
    case 0: d = r.i(0, 2000); break;                                            // ordinary: nanoseconds to microseconds
    case 1: d = S - (g_now % S) + r.i(-3, 3); if (d < 0) d = 0; break;          // lands around every second boundary
    case 2: d = (__int128)r.i(0, 100) * S + r.i(0, 999999999); break;           // long phases
    case 3: d = r.i(0, 1999999999); break;
    case 4: case 7: d = 0; break;                                                       // a clock too coarse to move
    case 5: d = r.b(.1) ? (__int128)r.i(1, 4000000) * S : r.i(0, 5); break;     // hours to weeks in one phase
    default: d = r.b(.5) ? S : S - 1; }
  g_now += d; }
extern "C" { int __real_clock_gettime(clockid_t, struct timespec*); int __real_gettimeofday(struct timeval*, void*); time_t __real_time(time_t*); clock_t __real_clock(void);
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!g_on) return __real_clock_gettime(c, t); if (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_RAW && c != CLOCK_BOOTTIME) { g_wrongclock = true; /* a clock that is set back at random */ __int128 w = g_now / 2 + (__int128)g_r->i(0, 1000000000) * 3; t->tv_sec = (time_t)(w / 1000000000); t->tv_nsec = (long)(w % 1000000000); return 0; } advance(); if (g_n < 100000) g_rd[g_n++] = {g_now, g_ph, (int)c}; t->tv_sec = (time_t)(g_now / 1000000000); t->tv_nsec = (long)(g_now % 1000000000); return 0; }
int __wrap_gettimeofday(struct timeval* t, void* z) { if (!g_on) return __real_gettimeofday(t, z); g_wrongclock = true; struct timespec s; __wrap_clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t __wrap_time(time_t* t) { if (!g_on) return __real_time(t); g_wrongclock = true; struct timespec s; __wrap_clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
clock_t __wrap_clock(void) { if (!g_on) return __real_clock(); g_wrongclock = true; return (clock_t)g_r->i(0, 1000000); } }
// work clock (mode 7): time passes only inside the solver's own phases, so what each reported time must be is known however the clock is read
enum { W_LDL, W_KKT, W_OTHER }; static __int128 g_w[3][3];
static void work(int k) { if (!g_on || g_mode != 7) return; Rng& r = *g_r; __int128 d = r.b(.2) ? r.i(0, 3000000000L) : r.i(1, 2000000); g_now += d; g_w[g_ph][k] += d; }
#define WK(ret, name, par, arg, kind) extern "C" { __attribute__((weak)) ret __real_##name par; ret __wrap_##name par { work(kind); return __real_##name arg; } }
WK(qp_int, LDL_numeric, (qp_int n, qp_int* a, qp_int* b, qp_real* c, qp_int* d, qp_int* e, qp_int* f, qp_int* g, qp_real* h, qp_real* i, qp_real* j, qp_int* k, qp_int* l, qp_int* m, qp_int* o), (n, a, b, c, d, e, f, g, h, i, j, k, l, m, o), W_LDL)
WK(void, LDL_lsolve, (qp_int n, qp_real* x, qp_int* a, qp_int* b, qp_real* c), (n, x, a, b, c), W_KKT)
WK(void, LDL_ltsolve, (qp_int n, qp_real* x, qp_int* a, qp_int* b, qp_real* c), (n, x, a, b, c), W_KKT)
WK(void, LDL_dsolve, (qp_int n, qp_real* x, qp_real* d), (n, x, d), W_KKT)
WK(void, LDL_perm, (qp_int n, qp_real* x, qp_real* b, qp_int* p), (n, x, b, p), W_KKT)
WK(void, LDL_permt, (qp_int n, qp_real* x, qp_real* b, qp_int* p), (n, x, b, p), W_KKT)
WK(void, computeresiduals, (QP* q), (q), W_OTHER)
WK(void, SparseMatrixTranspose, (smat* a, smat* b), (a, b), W_OTHER)
WK(void, densetosparse, (qp_int m, qp_int n, qp_real* a, smat* b), (m, n, a, b), W_OTHER)
WK(void, densetosparse_ROWMAJOR, (qp_int m, qp_int n, qp_real* a, smat* b), (m, n, a, b), W_OTHER)
WK(qp_int, amd_l_order, (qp_int n, const qp_int* a, const qp_int* b, qp_int* p, double* c, double* i), (n, a, b, p, c, i), W_OTHER)
WK(void, findsteplength, (qp_real* a, qp_real* b, qp_real* c, qp_real* d, qp_int m, qp_real* e, qp_real* f), (a, b, c, d, m, e, f), W_OTHER)
static ld secs(__int128 d) { return (ld)d / 1e9L; }
static void one(Ctx& cx, Rng& r) {
  Rng cr(r.next()); g_r = &cr; g_mode = r.b(.3) ? 7 : (int)r.i(0, 6); memset(g_w, 0, sizeof g_w); const __int128 S = 1000000000; g_now = r.b(.3) ? r.i(0, 5000) : (__int128)r.i(0, 4000000000L) * S + (r.b(.4) ? 999999999 - r.i(0, 50) : r.i(0, 999999999)); g_n = 0; g_wrongclock = false;
  // tic and toc themselves
  for (int k = 0; k < 6; k++) { qp_timer t; memset(&t, 0xA5, sizeof t); g_on = true; g_n = 0; tic(&t); __int128 a = g_now; double d = toc(&t); __int128 b = g_now; g_on = false; cx.count("intervals_measured"); ld tru = secs(b - a); if ((b / S) != (a / S)) cx.count("across_second_boundary"); if (b - a > 3600 * S) cx.count("longer_than_an_hour"); if (b % S < a % S) cx.count("borrow_needed");
    if (!(fabsl(d - tru) <= 1e-15L + 4e-16L * tru)) cx.fail("toc", "elapsed %.12g s reported, clock moved %.12Lg s (from %ld.%09ld to %ld.%09ld)", d, tru, (long)(a / S), (long)(a % S), (long)(b / S), (long)(b % S));
    g_on = true; double d2 = toc(&t); __int128 c2 = g_now; g_on = false; tru = secs(c2 - a); if (!(fabsl(d2 - tru) <= 1e-15L + 4e-16L * tru)) cx.fail("toc-again", "second reading %.12g s, clock moved %.12Lg s", d2, tru); }
  int k0 = (int)r.i(0, 5), sc = (int)r.i(0, 1); Prob q; if (k0 == 0) q = gen_wild(r, sc); else if (k0 == 1) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  Cfg c = rand_cfg(r, q); c.maxit = r.b(.5) ? r.i(0, 6) : 30; if (r.b(.2)) c.sigma = 0; DESC(q, c); Hash hh; hh.addi((long)q.hash()); hh.addi(g_mode); cx.seen(hh.h);
  Inst in; Rng e(r.next()); in.load(q, c, e); g_n = 0;
  g_on = true; g_ph = 0; in.setup(); int n0 = g_n; g_ph = 1; Snap a = in.snap(); long f = in.solve(); int n1 = g_n; g_ph = 2; Snap s = in.snap(f), s2; bool again = g_mode == 7 && r.b(.4); if (again) { in.q->options->maxit = r.i(0, 6); if (r.b(.5)) in.q->options->reltol = in.q->options->abstol = 0; long f2 = in.solve(); s2 = in.snap(f2); } in.cleanup(); g_on = false;
  if (g_wrongclock) { cx.fail("clock", "a clock that is not monotonic is read: %s", desc); return; }
  cx.count("lifecycles"); cx.count("clock_readings", g_n); if (n0 < 2 || n1 - n0 < 2) { cx.fail("not-timed", "%d clock readings in setup, %d in the solve: %s", n0, n1 - n0, desc); return; }
  auto tol = [](ld t) { return 1e-14L + 1e-13L * t; }; ld ts = secs(g_rd[n0 - 1].t - g_rd[0].t), tv = secs(g_rd[n1 - 1].t - g_rd[n0].t);
  if (!(fabsl(s.ts - ts) <= tol(ts)) || !bits(a.ts, s.ts)) cx.fail("tsetup", "tsetup %.12g s (%.12g before solving), setup spans %.12Lg s: %s", s.ts, a.ts, ts, desc);
  if (!(fabsl(s.tv - tv) <= tol(tv))) cx.fail("tsolve", "tsolve %.12g s, the solve spans %.12Lg s: %s", s.tv, tv, desc);
  for (double v : {s.ts, s.tv, s.tk, s.tl}) if (!(v >= 0) || !std::isfinite(v)) cx.fail("negative", "time %.12g: %s", v, desc);
  if (!(s.tk <= s.tv * (1 + 1e-12) + 1e-14)) cx.fail("kkt-over-solve", "kkt time %.12g above solve time %.12g: %s", s.tk, s.tv, desc); if (!(s.tl <= s.tk * (1 + 1e-12) + 1e-14)) cx.fail("ldl-over-kkt", "factorisation time %.12g above kkt time %.12g: %s", s.tl, s.tk, desc);
  if (g_mode == 7) { cx.count("work_clock_lifecycles"); ld w0 = secs(g_w[0][0] + g_w[0][1] + g_w[0][2]);
    if (!(fabsl(s.ts - w0) <= tol(w0) * 10)) cx.fail("tsetup-work", "tsetup %.12g s, setup worked %.12Lg s: %s", s.ts, w0, desc);
    for (int k = 1; k <= 1 + again; k++) { const Snap& t = k == 1 ? s : s2; ld w1 = secs(g_w[k][0] + g_w[k][1] + g_w[k][2]), wl = secs(g_w[k][W_LDL]), wk = secs(g_w[k][W_LDL] + g_w[k][W_KKT]); bool fin = t.flag == QP_OPTIMAL || t.flag == QP_MAXIT; if (k == 2) cx.count("second_solves_timed");
      if (!(fabsl(t.tv - w1) <= tol(w1) * 10)) cx.fail("tsolve-work", "solve %d: tsolve %.12g s, the solve worked %.12Lg s: %s", k, t.tv, w1, desc);
      if (fin && t.it > 0) cx.count("work_clock_steps", t.it - (k == 2 ? s.it : 0));
      if (fin && !(fabsl(t.tl - wl) <= tol(wl) * 100)) cx.fail("ldl-work", "solve %d: factorisation time %.12g s, factorising took %.12Lg s in %ld iterations: %s", k, t.tl, wl, t.it, desc);
      if (fin && !(fabsl(t.tk - wk) <= tol(wk) * 100)) cx.fail("kkt-work", "solve %d: kkt time %.12g s, factorising and solving took %.12Lg s in %ld iterations: %s", k, t.tk, wk, t.it, desc); } }
  // nested readings of the solve: [tsolve [kkt [ldl ldl] kkt] [kkt kkt] ... tsolve]; the pattern of pairs is recovered when it is the familiar one
  if (s.flag == QP_OPTIMAL || s.flag == QP_MAXIT) { int k = n0 + 1, end = n1 - 1; long pc = 0, tot = end - k; ld kk = 0, ll = 0; bool fit = s.it >= 0; Cfg d = c; double sg = d.sigma, sd = c.fmt >= FMT_ROW ? 0 : c.sigma_d; (void)sg; (void)sd;
    if (fit && tot == 6 * s.it) { for (int j = k; j < end; j += 6) { kk += secs(g_rd[j + 3].t - g_rd[j].t) + secs(g_rd[j + 5].t - g_rd[j + 4].t); ll += secs(g_rd[j + 2].t - g_rd[j + 1].t); } cx.count("nested_times_recomputed"); if (!(fabsl(s.tk - kk) <= tol(kk) * 10)) cx.fail("kkt_time", "kkt time %.12g, its phases sum to %.12Lg: %s", s.tk, kk, desc); if (!(fabsl(s.tl - ll) <= tol(ll) * 10)) cx.fail("ldl_time", "factorisation time %.12g, its phases sum to %.12Lg: %s", s.tl, ll, desc); } (void)pc;
    if (s.it > 0 && g_mode == 2 && tot == 6 * s.it && !(s.tk > 0)) cx.fail("kkt-zero", "kkt time 0 although %ld steps were made: %s", s.it, desc); }
  cx.sample("%s clock mode %d readings=%d tsetup=%g tsolve=%g", desc, g_mode, g_n, s.ts, s.tv);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
