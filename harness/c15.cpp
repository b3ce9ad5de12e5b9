// C15: nothing depends on memory that was never written: same problem on differently poisoned heaps, plus MSan
#include <malloc.h>
#include "gen2.hpp"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
static void poison_heap(Rng& r, int fill) {   // leave freed blocks of many sizes full of the pattern
  std::vector<void*> v; for (int k = 0; k < 200; k++) { size_t n = (size_t)r.i(1, 4000); void* p = malloc(n); memset(p, fill, n); v.push_back(p); } for (void* p : v) free(p);
}
static std::vector<char> untime(std::vector<char> t) {   // times legitimately differ between runs
  std::string s(t.data()), o; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); if (l.find("Time") == std::string::npos) o += l + "\n"; i = e + 1; } return std::vector<char>(o.begin(), o.end()); }
struct Res { Snap start, end; std::vector<char> text; double st[4]; };
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.1) ? 2 : (int)r.i(0, 1);
  Prob q; if (k0 < 3) q = gen_wild(r, sc); else if (k0 < 5) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  Cfg c = rand_cfg(r, q); c.perm = r.b(.3); c.eqenc = (int)r.i(0, 6); if (r.b(.3)) c.maxit = r.i(0, 6); c.verbose = r.b(.4) ? (int)r.i(1, 2) : 0; if (r.b(.15)) c.sigma = 0; uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p); DESC(q, c);
  cx.seen(q.hash() ^ enc);
  static Capture* cap = nullptr; if (!cap) cap = new Capture();
  Res R[3]; int fills[3] = {0x00, 0xFF, (int)r.i(1, 254)};
#ifdef MSAN
  int runs = 1;
#else
  int runs = 3;
#endif
  for (int t = 0; t < runs; t++) {
#ifndef MSAN
    Rng pr(enc + t); mallopt(M_PERTURB, fills[t] ? fills[t] ^ 0xFF : 0); poison_heap(pr, fills[t]);
#endif
    cap->reset(); Inst in; in.permv = perm; Rng e(enc); in.load(q, c, e); in.setup(); R[t].start = in.snap(); long f = in.solve(); R[t].end = in.snap(f); in.cleanup();
    std::vector<char> tx = cap->get(); R[t].text = untime(tx);
#ifdef MSAN
    // everything a caller may look at is initialised
    auto chk = [&](const Snap& s, const char* w) { const char* bad = nullptr; auto d = [&](const void* p, size_t n, const char* nm) { if (n && __msan_test_shadow(p, n) >= 0) bad = nm; };
      d(s.x.data(), s.x.size() * 8, "x"); d(s.y.data(), s.y.size() * 8, "y"); d(s.z.data(), s.z.size() * 8, "z"); d(s.s.data(), s.s.size() * 8, "s"); d(&s.fval, 8, "fval"); d(&s.nrx, 8, "n_rx"); d(&s.nry, 8, "n_ry"); d(&s.nrz, 8, "n_rz"); d(&s.nmu, 8, "n_mu"); d(&s.ap, 8, "alpha_p"); d(&s.ad, 8, "alpha_d"); d(&s.flag, 8, "flag"); d(&s.it, 8, "iterations"); d(&s.amd, 8, "AMD_RESULT"); d(&s.ts, 8, "tsetup"); d(&s.tl, 8, "ldl_numeric");
      if (strcmp(w, "setup")) { d(&s.tv, 8, "tsolve"); d(&s.tk, 8, "kkt_time"); }
      cx.count("published_values_checked"); if (bad) { char key[64]; snprintf(key, sizeof key, "uninitialised-%s", bad); cx.fail(key, "%s is uninitialised after %s: %s", bad, w, desc); } };
    chk(R[t].start, "setup"); chk(R[t].end, "solve");
#endif
    if (c.verbose) { cx.count("verbose_traces"); if (tx.size() > 10) cx.count("verbose_bytes", (double)tx.size()); }
  }
#ifndef MSAN
  mallopt(M_PERTURB, 0);
  for (int t = 1; t < runs; t++) { cx.count("heap_variants_compared");
    auto eq = [&](const Snap& a, const Snap& b, const char* w) { if (!snapeq(a, b) || !bits(a.ap, b.ap) || !bits(a.ad, b.ad) || a.amd != b.amd) cx.fail("heap-dependent", "%s results depend on prior heap contents (fill %02x/%02x): flag %ld/%ld it %ld/%ld: %s", w, fills[0], fills[t], a.flag, b.flag, a.it, b.it, desc); };
    eq(R[0].start, R[t].start, "setup"); eq(R[0].end, R[t].end, "solve");
    if (R[0].text != R[t].text) cx.fail("heap-dependent-text", "printed text depends on prior heap contents: %s", desc); }
#endif
  cx.sample("%s flag=%ld printed=%ld bytes", desc, R[0].end.flag, (long)R[0].text.size());
}
int main(int a, char** v) { return qpm_main(a, v, one); }
