// C35: the ordering's reports and its pluggable allocator and printer
#include <malloc.h>
#include <unordered_map>
#include "graphs.hpp"
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_memalign(size_t, size_t); char* __real_strdup(const char*); }
static bool g_on = false; static long g_stray = 0;
extern "C" {
void* __wrap_malloc(size_t n) { if (g_on) g_stray++; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (g_on) g_stray++; return __real_calloc(a, b); }
void* __wrap_realloc(void* o, size_t n) { if (g_on) g_stray++; return __real_realloc(o, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (g_on) g_stray++; return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (g_on) g_stray++; return __real_posix_memalign(o, a, n); }
void* __wrap_memalign(size_t a, size_t n) { if (g_on) g_stray++; return __real_memalign(a, n); }
char* __wrap_strdup(const char* s) { if (g_on) g_stray++; return __real_strdup(s); }
void __wrap_free(void* p) { if (g_on && p) g_stray++; __real_free(p); } }
// an allocator that shares nothing with the C library's: handing its blocks to free, or the reverse, is seen at once
static std::unordered_map<void*, size_t>* g_live; static long g_foreign = 0, g_calls = 0; static double g_cur, g_peak;
static void* my_malloc(size_t n) { bool o = g_on; g_on = false; g_calls++; char* p = (char*)__real_malloc(n + 64); void* q = nullptr; if (p) { memset(p, 0x5A, n + 64); q = p + 32; (*g_live)[q] = n; g_cur += (double)n; g_peak = std::max(g_peak, g_cur); } g_on = o; return q; }
static void my_free(void* q) { bool o = g_on; g_on = false; if (q) { auto it = g_live->find(q); if (it == g_live->end()) g_foreign++; else { g_cur -= (double)it->second; char* p = (char*)q; for (size_t i = 0; i < 32; i++) if (p[-1 - (long)i] != 0x5A || p[it->second + i] != 0x5A) g_foreign++; g_live->erase(it); __real_free(p - 32); } } g_on = o; }
static void* my_calloc(size_t a, size_t b) { void* p = my_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static void* my_realloc(void* o, size_t n) { void* p = my_malloc(n); if (p && o) { bool w = g_on; g_on = false; auto it = g_live->find(o); size_t k = it == g_live->end() ? 0 : it->second; g_on = w; memcpy(p, o, std::min(k, n)); my_free(o); } return p; }
static std::string* g_txt; static long g_prints = 0;
static int my_printf(const char* f, ...) { bool o = g_on; g_on = false; char b[4096]; va_list ap; va_start(ap, f); int k = vsnprintf(b, sizeof b, f, ap); va_end(ap); g_txt->append(b); g_prints++; g_on = o; return k; }
// numbers that end a line after a colon, in order
static vd numbers(const std::string& s) { vd v; size_t a = 0; while (a < s.size()) { size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size(); std::string l = s.substr(a, e - a); size_t c = l.rfind(':'); if (c != std::string::npos) { const char* q = l.c_str() + c + 1; char* end; double d = strtod(q, &end); while (*end == ' ') end++; if (end != q && !*end) v.push_back(d); } a = e + 1; } return v; }
static void one(Ctx& cx, Rng& r) {
  static Capture* cap = nullptr; if (!cap) { cap = new Capture(); g_live = new std::unordered_map<void*, size_t>; g_txt = new std::string; } cap->reset();
  bool big = r.b(.01); Pat S = gen_pat(r, big ? 800 : r.b(.3) ? 120 : 30); int n = S.n; vl Ap(n + 1, 0), Ai; bool diag = r.b(.4), jum = r.b(.3), bad = r.b(.15), oom = r.b(.15); for (int j = 0; j < n; j++) { for (long i : S.col[j]) if (i < j || r.b(.8)) Ai.push_back(i); if (diag) Ai.push_back(j); std::sort(Ai.begin() + Ap[j], Ai.end()); if (jum && r.b(.3)) { vl t(Ai.begin() + Ap[j], Ai.end()); r.shuffle(t); std::copy(t.begin(), t.end(), Ai.begin() + Ap[j]); } Ap[j + 1] = (long)Ai.size(); }
  if (bad && n) { if (Ai.size() && r.b(.7)) Ai[(size_t)r.i(0, (long)Ai.size() - 1)] = r.b(.5) ? -1 : n; else Ap[0] = 1; }
  vl P(n + 1, -1); double C[AMD_CONTROL], I[AMD_INFO], C0[AMD_CONTROL], I0[AMD_INFO]; amd_l_defaults(C); if (r.b(.6)) C[AMD_DENSE] = r.b(.3) ? -r.u(.5, 3) : r.b(.2) ? 0 : r.u(0, 12); if (r.b(.5)) C[AMD_AGGRESSIVE] = r.b(.5) ? 0 : r.i(1, 3);
  for (auto& v : I) v = -1; char desc[160]; snprintf(desc, sizeof desc, "pattern=%s n=%d nz=%ld dense=%g aggressive=%g bad=%d", S.kind, n, (long)Ai.size(), C[AMD_DENSE], C[AMD_AGGRESSIVE], (int)bad); Hash hh; hh.addl(Ap); hh.addl(Ai); hh.add(C, sizeof C); cx.seen(hh.h);
  g_txt->clear(); g_prints = 0; g_stray = g_foreign = g_calls = 0; g_cur = g_peak = 0;
  amd_malloc = my_malloc; amd_free = my_free; amd_calloc = my_calloc; amd_realloc = my_realloc; amd_printf = my_printf; if (oom) { static long left; left = r.i(0, 1); static void* (*fail)(size_t) = [](size_t k) -> void* { return left-- > 0 ? my_malloc(k) : nullptr; }; amd_malloc = fail; amd_calloc = [](size_t, size_t) -> void* { return nullptr; }; amd_realloc = [](void*, size_t) -> void* { return nullptr; }; }
  g_on = true; long f = amd_l_order(n, Ap.data(), Ai.data(), P.data(), C, I); g_on = false; char sc[32]; snprintf(sc, sizeof sc, "status_%ld", f); cx.count(sc); cx.count("orderings"); cx.count("custom_allocations", (double)g_calls);
  if (g_stray) cx.fail("allocator-bypassed", "%ld allocator calls went to the C library although another allocator is configured: %s", g_stray, desc); if (g_foreign) cx.fail("allocator-mismatch", "a block the configured allocator did not hand out was freed, or a block was overrun: %s", desc);
  if (!g_live->empty()) { cx.fail("allocator-leak", "%zu blocks of the configured allocator are left after status %ld: %s", g_live->size(), f, desc); for (auto& t : *g_live) __real_free((char*)t.first - 32); g_live->clear(); }
  if (g_prints || !g_txt->empty()) cx.fail("ordering-prints", "the ordering printed: %.100s: %s", g_txt->c_str(), desc);
  amd_malloc = my_malloc; amd_calloc = my_calloc; amd_realloc = my_realloc; memcpy(C0, C, sizeof C); memcpy(I0, I, sizeof I);
  if (f >= 0 && n) { double k = g_peak / I[AMD_MEMORY]; cx.cmax(f ? "max_memory_over_reported_jumbled" : "max_memory_over_reported", k); cx.cmax("max_reported_over_memory", 1 / k); if (!(k > .8 && k < 1.25)) cx.fail("memory-statistic", "memory used %.0f bytes, reported %.0f: %s", g_peak, I[AMD_MEMORY], desc); }
  // reports
  auto list = [](const vd& v) { std::string s; char b[40]; for (double d : v) { snprintf(b, sizeof b, " %.12g", d); s += b; } return s; };
  if (r.b(.1)) for (auto& v : I) v = r.b(.2) ? -1 : std::floor(std::pow(10., r.u(0, 15))); if (r.b(.2)) I[AMD_SYMMETRY] = r.u(); memcpy(I0, I, sizeof I);
  g_on = true; amd_l_info(I); g_on = false; std::string t = *g_txt; g_txt->clear(); vd want; auto ps = [&](double v) { if (v >= 0) want.push_back(v); }; double N = I[AMD_N], z = I[AMD_LNZ], dv = I[AMD_NDIV], a = I[AMD_NMULTSUBS_LDL], u = I[AMD_NMULTSUBS_LU];
  ps(N); ps(I[AMD_NZ]); if (I[AMD_SYMMETRY] >= 0) { char b[400]; snprintf(b, sizeof b, "%.4f", I[AMD_SYMMETRY]); want.push_back(atof(b)); } ps(I[AMD_NZDIAG]); ps(I[AMD_NZ_A_PLUS_AT]); ps(I[AMD_NDENSE]); ps(I[AMD_MEMORY]); ps(I[AMD_NCMPA]); ps(z); if (N >= 0 && z >= 0) want.push_back(N + z); ps(dv); ps(a); ps(u); ps(I[AMD_DMAX]); if (N >= 0 && dv >= 0 && a >= 0 && u >= 0) { want.push_back(N + dv + 2 * a); want.push_back(dv + 2 * a); want.push_back(9 * dv + 8 * a); want.push_back(dv + 2 * u); want.push_back(9 * dv + 8 * u); }
  vd got = numbers(t); cx.count("info_reports"); cx.count("numbers_compared", (double)want.size()); auto near = [](const vd& x, const vd& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!(std::fabs(x[i] - y[i]) <= 1e-12 * std::fabs(y[i]))) return false; return true; };
  if (!near(got, want)) cx.fail("info-report", "printed numbers%s, expected%s: %s", list(got).c_str(), list(want).c_str(), desc);
  auto has = [&](const char* w) { for (size_t i = 0; i + strlen(w) <= t.size(); i++) if (!strncasecmp(t.c_str() + i, w, strlen(w))) return true; return false; }; const char* st = I[AMD_STATUS] == AMD_OK ? "OK" : I[AMD_STATUS] == AMD_OUT_OF_MEMORY ? "out of memory" : I[AMD_STATUS] == AMD_INVALID ? "invalid" : I[AMD_STATUS] == AMD_OK_BUT_JUMBLED ? "jumbled" : "unknown"; if (!has(st) || ((I[AMD_STATUS] == AMD_OK || !strcmp(st, "unknown")) && (has("jumbled") || has("out of memory"))) || (I[AMD_STATUS] != AMD_INVALID && has("invalid"))) cx.fail("info-status", "status %g reported as: %.120s: %s", I[AMD_STATUS], t.c_str(), desc);
  bool nul = r.b(.15); g_on = true; amd_l_control(nul ? nullptr : C); g_on = false; std::string k = *g_txt; g_txt->clear(); double al = nul ? 10 : C[AMD_DENSE]; bool ag = nul || C[AMD_AGGRESSIVE] != 0; vd cn = numbers(k); char b[40]; snprintf(b, sizeof b, "%g", al); cx.count("control_reports"); vd cw = {atof(b), (double)sizeof(long)}; if (!near(cn, cw)) cx.fail("control-report", "printed numbers%s, expected%s: %s", list(cn).c_str(), list(cw).c_str(), desc);
  bool yes = k.find("absorption:  yes") != std::string::npos || k.find("yes") != std::string::npos, no = k.find(": no\n") != std::string::npos || k.find(":  no\n") != std::string::npos; if (yes != ag || no == ag) cx.fail("control-aggressive", "aggressive absorption %d reported as: %s", (int)ag, k.c_str()); bool nd = k.find("no rows treated as dense") != std::string::npos; if (nd != (al < 0)) cx.fail("control-dense", "dense parameter %g reported as: %s", al, k.c_str());
  if (memcmp(C, C0, sizeof C) || memcmp(I, I0, sizeof I)) cx.fail("report-changes", "a report changed the settings or statistics it prints: %s", desc); if (g_stray) cx.fail("report-allocates", "a report allocated memory: %s", desc);
  if (r.b(.2)) { amd_l_info(nullptr); if (!numbers(*g_txt).empty()) cx.fail("info-null", "numbers printed for absent statistics: %s", g_txt->c_str()); g_txt->clear(); }
  g_prints = 0; amd_printf = nullptr; amd_l_info(I); amd_l_control(C); amd_l_info(nullptr); cx.count("silent_reports"); if (g_prints || !g_txt->empty()) cx.fail("printer-kept", "printing goes on after the printer was removed: %s", desc);
  if (r.b(.2)) { std::vector<char> o = cap->get(); if (o.size() > 1) cx.fail("stdout", "output went to stdout instead of the configured printer: %.100s: %s", o.data(), desc); amd_printf = printf; amd_l_info(I); fflush(stdout); o = cap->get(); if (std::string(o.data()) != t) cx.fail("printer-differs", "printf and another printer receive different text: %s", desc); cx.count("stdout_reports"); }
  amd_printf = printf; amd_malloc = malloc; amd_free = free; amd_calloc = calloc; amd_realloc = realloc;
  cx.sample("%s status=%ld:%s", desc, f, list(got).c_str());
}
int main(int a, char** v) { return qpm_main(a, v, one); }
