// C17: instances are isolated and deterministic; every instance is also run alone in its own process, forked from a pristine parent
#include <sys/wait.h>
#include "gen2.hpp"
struct Rec { std::string b; void d(const void* p, size_t n) { b.append((const char*)p, n); } void v(const vd& x) { size_t n = x.size(); d(&n, sizeof n); if (n) d(x.data(), n * 8); }
  void snap(const Snap& s) { d(&s.flag, 8); d(&s.it, 8); d(&s.amd, 8); v(s.x); v(s.y); v(s.z); v(s.s); double t[7] = {s.fval, s.nrx, s.nry, s.nrz, s.nmu, s.ap, s.ad}; d(t, sizeof t); } };
struct Job { Prob q; Cfg c; uint64_t enc; vl perm; int solves; };
struct Live { Inst in; Rec r; int stage = 0; };
// one call of an instance's life: 0 setup, 1 options, 2 solve, 3 look again, 4 cleanup
static void step(Live& L, const Job& j) {
  switch (L.stage++) {
    case 0: { L.in.permv = j.perm; Rng e(j.enc); L.in.cfg = j.c; Cfg c = j.c; c.defaults = true; L.in.load(j.q, c, e); L.in.setup(); double o[4] = {(double)L.in.q->options->maxit, L.in.q->options->reltol, L.in.q->options->abstol, L.in.q->options->sigma}; L.r.d(o, sizeof o); L.r.snap(L.in.snap()); break; }
    case 1: L.r.snap(L.in.snap()); if (!j.c.defaults) { L.in.cfg = j.c; L.in.apply(); } break;
    case 2: { L.r.snap(L.in.snap()); long f = L.in.solve(); L.r.snap(L.in.snap(f)); break; }
    case 3: L.r.snap(L.in.snap()); break;
    case 4: L.r.snap(L.in.snap()); L.in.cleanup(); break; }
}
template <class F> static bool in_child(F f, std::string& out) {
  int p[2]; if (pipe(p)) return false; fflush(stdout); pid_t pid = fork(); if (pid < 0) { close(p[0]); close(p[1]); return false; }
  if (!pid) { close(p[0]); std::string s = f(); size_t o = 0; while (o < s.size()) { ssize_t w = write(p[1], s.data() + o, s.size() - o); if (w <= 0) _exit(3); o += (size_t)w; } _exit(0); }
  close(p[1]); char buf[65536]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) out.append(buf, (size_t)k); close(p[0]); int st; waitpid(pid, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void relabel(Rng& r, Prob& q) { int n = q.n; vl pv = rand_perm(r, n), pg = rand_perm(r, q.m), pa = rand_perm(r, q.p); Prob w = q;
  for (int i = 0; i < n; i++) { w.c[i] = q.c[pv[i]]; for (int j = 0; j < n; j++) w.P[(size_t)i * n + j] = q.P[(size_t)pv[i] * n + pv[j]]; }
  for (int i = 0; i < q.p; i++) { w.b[i] = q.b[pa[i]]; for (int j = 0; j < n; j++) w.A[(size_t)i * n + j] = q.A[(size_t)pa[i] * n + pv[j]]; }
  for (int i = 0; i < q.m; i++) { w.h[i] = q.h[pg[i]]; for (int j = 0; j < n; j++) w.G[(size_t)i * n + j] = q.G[(size_t)pg[i] * n + pv[j]]; } q = w; }
static void one(Ctx& cx, Rng& r) {
  int K = (int)r.i(2, 5); std::vector<Job> jobs(K); bool twin = r.b(.5);
  for (int k = 0; k < K; k++) { Job& j = jobs[k]; if (twin && k && r.b(.6)) { j = jobs[r.i(0, k - 1)]; j.q.known = false;
      switch (r.i(0, 5)) { case 0: break; case 1: for (auto& v : j.q.c) v += r.n(); break;
        case 2: for (auto* a : {&j.q.G, &j.q.A, &j.q.h, &j.q.b}) for (auto& v : *a) if (v != 0) v *= 1 + .05 * r.u(-1, 1); break;   // same pattern, other values
        case 3: j.c.perm = !j.c.perm; if (j.c.perm) j.perm = rand_perm(r, j.q.n + j.q.m + j.q.p); else j.perm.clear(); break;
        case 4: j.c.reltol *= .1; j.c.sigma = r.u(1, 200); j.c.maxit = r.i(0, 30); j.c.defaults = false; break;
        default: relabel(r, j.q); }   // same sizes and entry counts, other pattern
      continue; }
    int k0 = (int)r.i(0, 9), sc = r.b(.05) ? 2 : (int)r.i(0, 1); j.q = k0 < 2 ? gen_wild(r, sc) : k0 == 2 ? gen_bad(r, (int)r.i(0, NBAD - 1), sc).q : gen_strict(r, (int)r.i(0, NFAM - 1), sc); j.c = rand_cfg(r, j.q); j.c.maxit = r.b(.6) ? 100 : r.i(0, 9); j.c.defaults = r.b(.3); j.c.perm = r.b(.3); j.c.eqenc = (int)r.i(0, 6); j.enc = r.next(); if (j.c.perm) j.perm = rand_perm(r, j.q.n + j.q.m + j.q.p); }
  Hash hh; for (auto& j : jobs) { uint64_t t = j.q.hash(); hh.add(&t, 8); } cx.seen(hh.h);
  std::vector<std::string> solo(K); 
  for (int k = 0; k < K; k++) if (!in_child([&] { Live L; for (int t = 0; t < 5; t++) step(L, jobs[k]); return L.r.b; }, solo[k])) { cx.fail("child-died", "a single lifecycle did not complete: fam=%s n=%d m=%d p=%d", jobs[k].q.fam, jobs[k].q.n, jobs[k].q.m, jobs[k].q.p); return; }
  uint64_t sched = r.next(); int rounds = (int)r.i(1, 3); std::string all; char order[256]; int on = 0;
  { Rng s(sched); std::vector<int> st(K, 0); for (int t = 0; t < 5 * K && on < 240; t++) { int k; do k = (int)s.i(0, K - 1); while (st[k] == 5); on += snprintf(order + on, sizeof order - (size_t)on, "%c%d", "sovlc"[st[k]], k); st[k]++; } }
  bool ok = in_child([&] { std::string o; for (int rd = 0; rd < rounds; rd++) { Rng s(rd ? sched + (uint64_t)rd : sched); std::vector<Live*> L; for (int k = 0; k < K; k++) L.push_back(new Live()); std::vector<int> st(K, 0);
      for (int t = 0; t < 5 * K; t++) { int k; do k = (int)s.i(0, K - 1); while (st[k] == 5); step(*L[k], jobs[k]); st[k]++; if (s.b(.15)) { Live d; int n = (int)s.i(1, 5), w = (int)s.i(0, K - 1); for (int z = 0; z < n; z++) step(d, jobs[w]); } }
      for (int k = 0; k < K; k++) { size_t n = L[k]->r.b.size(); o.append((char*)&n, sizeof n); o += L[k]->r.b; delete L[k]; } } return o; }, all);
  if (!ok) { cx.fail("interleaving-died", "the interleaved run did not complete (%d instances, schedule %s)", K, order); return; }
  cx.count("interleavings", rounds); cx.count("calls", 5.0 * K * rounds); size_t o = 0;
  for (int rd = 0; rd < rounds; rd++) for (int k = 0; k < K; k++) { size_t n = 0; if (o + 8 > all.size()) { cx.fail("interleaving-died", "short record"); return; } memcpy(&n, all.data() + o, 8); o += 8; cx.count("lifecycles_compared");
      if (n != solo[k].size() || all.compare(o, n, solo[k])) { size_t at = 0; while (at < n && at < solo[k].size() && all[o + at] == solo[k][at]) at++; const Prob& q = jobs[k].q; cx.fail("not-isolated", "instance %d (fam=%s n=%d m=%d p=%d fmt=%s) differs at byte %zu of %zu from its run alone; round %d, schedule %s (s setup o options v solve l look c cleanup)", k, q.fam, q.n, q.m, q.p, FMTN[jobs[k].c.fmt], at, n, rd, order); return; } o += n; }
  cx.sample("K=%d rounds=%d schedule %s", K, rounds, order);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
