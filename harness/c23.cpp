// C23: everything the library prints, captured and checked against the iterates it describes
#include "gen2.hpp"
struct Cap2 { int s1, s2, fd; Cap2() { fflush(stdout); fflush(stderr); s1 = dup(1); s2 = dup(2); char nm[] = "/tmp/qpmcapXXXXXX"; fd = mkstemp(nm); unlink(nm); }
  void on() { fflush(stdout); fflush(stderr); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); dup2(fd, 1); dup2(fd, 2); }
  std::string off() { fflush(stdout); fflush(stderr); dup2(s1, 1); dup2(s2, 2); long n = (long)lseek(fd, 0, SEEK_END); std::string b((size_t)n, 0); if (n > 0 && pread(fd, &b[0], (size_t)n, 0) != n) b = "?"; return b; } };
static bool field(const std::string& l, const char* name, double& v) { size_t p = l.find(name); if (p == std::string::npos) return false; p = l.find(':', p); if (p == std::string::npos) return false; const char* s = l.c_str() + p + 1; char* e; v = strtod(s, &e); return e != s; }
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.05) ? 2 : (int)r.i(0, 1); Prob q; if (k0 < 2) q = gen_wild(r, sc); else if (k0 < 4) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else { q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); if (r.b(.2)) rescale(r, q, r.u(1, 6)); }
  Cfg c = rand_cfg(r, q); uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p); if (r.b(.5)) c.maxit = r.i(0, 10); else c.maxit = 40; if (r.b(.04)) { c.maxit = r.i(60, 300); c.reltol = c.abstol = 0; cx.count("long_traces"); } if (r.b(.03)) c.maxit = -1; DESC(q, c); cx.seen(q.hash() ^ enc);
  bool split = c.maxit >= 0 && r.b(.2); long k1 = split ? r.i(0, 6) : 0, it0 = 0; // the measured call may be a later call on the same instance
   static Cap2* cap = nullptr; if (!cap) cap = new Cap2();
  Snap quiet; { Inst in; in.permv = perm; Rng e(enc); Cfg d = c; d.verbose = 0; in.load(q, d, e); cap->on(); in.setup(); if (split) { long mx = in.q->options->maxit; in.q->options->maxit = k1; if (in.q->stats->Flag == QP_KKTFAIL || in.solve() == QP_KKTFAIL) split = false; in.q->options->maxit = mx; } long f = in.solve(); quiet = in.snap(f); in.cleanup(); std::string t = cap->off(); cx.count("silent_runs"); if (!t.empty()) cx.fail("not-silent", "verbose 0 printed %ld bytes starting '%.60s': %s", (long)t.size(), t.c_str(), desc); }
  static const int vv[] = {1, 1, 2, 3, 5, 10, 1000, 65536, 2147483647}; int vb = vv[r.i(0, 8)]; Snap s; std::string t, t1, t2;
  { Inst in; in.permv = perm; Rng e(enc); Cfg d = c; d.verbose = vb; in.load(q, d, e); cap->on(); in.setup(); t1 = cap->off(); if (split) { long mx = in.q->options->maxit; cap->on(); in.q->options->maxit = k1; in.solve(); in.q->options->maxit = mx; it0 = in.q->stats->IterationCount; cap->off(); cx.count("continued_solves"); } cap->on(); long f = in.solve(); t = cap->off(); s = in.snap(f); cap->on(); in.cleanup(); t2 = cap->off(); }
  if (!t1.empty()) cx.fail("setup-prints", "setup printed before verbosity was asked for: '%.60s': %s", t1.c_str(), desc);
  if (!snapeq(s, quiet) || !bits(s.ap, quiet.ap) || !bits(s.ad, quiet.ad)) cx.fail("side-effect", "verbose=%d changes the result (flag %ld/%ld it %ld/%ld): %s", vb, s.flag, quiet.flag, s.it, quiet.it, desc);
  std::vector<std::string> L; { size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); L.push_back(t.substr(i, e - i)); i = e + 1; } }
  // the trace: It-lines and step lines in order
  struct Row { long k; double v[5]; int state; double a[2]; }; std::vector<Row> rows; bool okfmt = true; long steps = 0; int clo = 0, clm = 0, clx = 0; double itn = -7, st = -7, kt = -7, lt = -7;
  for (auto& l : L) {
    if (l.compare(0, 3, "It:") == 0) { Row w; w.state = 0; char* e; w.k = strtol(l.c_str() + 3, &e, 10); const char* nm[5] = {"pcost", "rx", "ry", "rz", "mu"}; for (int i = 0; i < 5; i++) if (!field(l, nm[i], w.v[i])) okfmt = false; if (rows.size() && rows.back().state == 0) okfmt = false; rows.push_back(w); }
    else if (l.find("Step Size") != std::string::npos) { steps++; if (rows.empty() || rows.back().state) okfmt = false; else { rows.back().state = 1; if (!field(l, "Primal Step", rows.back().a[0]) || !field(l, "Dual Step", rows.back().a[1])) okfmt = false; } }
    else { if (l.find("Optimal Solution Found") != std::string::npos) clo++; if (l.find("Maximum Iterations") != std::string::npos) clm++; if (l.find("Unknown Error") != std::string::npos || l.find("fail") != std::string::npos) clx++; double v; if (l.find("Iterations  ") == 0 && field(l, "Iterations", v)) itn = v; if (field(l, "Solve Time", v) && l.find("Solve Time") == 0) st = v; if (field(l, "KKT_Solve Time", v)) kt = v; if (field(l, "LDL Time", v)) lt = v; } }
  char key[64]; auto bad = [&](const char* k, const char* fmt, double a, double b, long at) { char m[200]; snprintf(m, sizeof m, fmt, a, b); cx.fail(k, "%s (line of iterate %ld, flag=%ld it=%ld verbose=%d): %s", m, at, s.flag, s.it, vb, desc); };
  if (!okfmt) { cx.fail("trace-format", "iteration and step lines out of order or unreadable: %s", desc); return; }
  long made = s.it - it0, want = s.flag == QP_OPTIMAL ? made + 1 : made; cx.count("traces"); cx.count("trace_lines", (double)rows.size());
  if ((long)rows.size() != want || steps != made) { bad("trace-length", "%g iterate lines and %g step lines", (double)rows.size(), (double)steps, s.it); return; }
  for (size_t k = 0; k < rows.size(); k++) { if (rows[k].k != it0 + (long)k) { bad("iteration-number", "printed iteration %g where %g is due", (double)rows[k].k, (double)(it0 + (long)k), it0 + (long)k); return; } if (k + 1 < rows.size() && !rows[k].state) { bad("step-line-missing", "no step line%.0f%.0f", 0, 0, (long)k); return; } }
  if (clo != (s.flag == QP_OPTIMAL) || clm != (s.flag == QP_MAXIT) || (clx > 0 && s.flag < 3 && s.flag != 1) ) bad("closing", "closing messages: optimal %g, limit %g", clo, clm, s.it);
  if (s.flag == QP_OPTIMAL || s.flag == QP_MAXIT) { cx.count(s.flag ? "closing_limit" : "closing_optimal"); if (itn != (double)s.it) bad("closing-iterations", "closing line says %g iterations, %g were made", itn, (double)s.it, s.it);
    auto near = [](double ms, double sec) { return fabs(ms - sec * 1e3) <= 1e-6 + 1e-9 * fabs(ms); }; cx.count("closing_times"); if (!near(st, s.tv) && !near(st, s.tv + s.ts)) bad("closing-time", "Solve Time %g ms printed, statistics say %g ms", st, s.tv * 1e3, s.it); if (!near(kt, s.tk)) bad("closing-kkt-time", "KKT time %g ms printed, statistics say %g ms", kt, s.tk * 1e3, s.it); if (!near(lt, s.tl)) bad("closing-ldl-time", "LDL time %g ms printed, statistics say %g ms", lt, s.tl * 1e3, s.it); }
  // values against iterates reached by truncated runs
  vl ks; for (size_t k = 0; k < rows.size(); k++) if (k < 4 || r.b(rows.size() > 50 ? .08 : .35) || k + 1 == rows.size()) ks.push_back((long)k);
  const char* nm[5] = {"pcost", "rx", "ry", "rz", "mu"};
  for (long k : ks) { Snap x = iterate_k(q, c, enc, it0 + k, &perm); if (x.it != it0 + k) continue; Kkt kk = kkt_eval(q, x); if (!kk.finite) { cx.count("nonfinite_iterates"); break; } ld tv[5] = {kk.f, kk.rx, kk.ry, kk.rz, kk.mu}, te[5] = {kk.ef, kk.ex, kk.ey, kk.ez, kk.emu};
    for (int i = 0; i < 5; i++) { if (!(fabsl(tv[i]) < 1e300L) || !(te[i] < 1e300L)) { cx.count("nonfinite_values"); continue; } ld tol = 4 * te[i] + 6e-7L * fabsl(tv[i]) + 1e-150L; cx.count("printed_values_compared"); if (!(fabsl(rows[k].v[i] - tv[i]) <= tol)) { snprintf(key, sizeof key, "value-%s", nm[i]); bad(key, "printed %.7g, true value %.7g", rows[k].v[i], (double)tv[i], k); } }
    if (rows[k].state) { Snap y = iterate_k(q, c, enc, it0 + k + 1, &perm); if (y.it == it0 + k + 1 && std::isfinite(y.ap) && std::isfinite(y.ad)) { cx.count("printed_steps_compared"); if (!(fabs(rows[k].a[0] - y.ap) <= 6e-7)) bad("value-primal-step", "printed %g, taken %g", rows[k].a[0], y.ap, k); if (!(fabs(rows[k].a[1] - y.ad) <= 6e-7)) bad("value-dual-step", "printed %g, taken %g", rows[k].a[1], y.ad, k);
        // the step really taken, from the change of the slacks and multipliers is checked in C06/C07; here against the iterates: 1-step consistency
      } } }
  cx.sample("%s verbose=%d printed %ld lines, %ld iterates", desc, vb, (long)L.size(), (long)rows.size());
}
int main(int a, char** v) { return qpm_main(a, v, one); }
