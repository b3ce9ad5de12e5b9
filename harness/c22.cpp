// C22: defaults, and each option taking effect on its own
#include "gen2.hpp"
static bool defaults_ok(Ctx& cx, QP* q, const char* w, const char* desc) {
  settings* o = q->options; cx.count("default_settings_read");
  if (o->maxit != 100 || o->reltol != 1e-6 || o->abstol != 1e-6 || o->sigma != 100 || o->verbose != 0) { cx.fail("defaults", "%s: maxit=%ld reltol=%g abstol=%g sigma=%g verbose=%ld: %s", w, o->maxit, o->reltol, o->abstol, o->sigma, o->verbose, desc); return false; } return true; }
static void one(Ctx& cx, Rng& r) {
  int sc = r.b(.05) ? 2 : (int)r.i(0, 1); Prob q = r.b(.15) ? gen_bad(r, (int)r.i(0, 2), sc).q : gen_strict(r, (int)r.i(0, NFAM - 1), sc); Cfg c = rand_cfg(r, q, false); uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p); if (c.fmt < FMT_ROW && r.b(.2)) c.sigma_d = r.b(.3) ? r.u(.3, .95) : r.u(0, .3); DESC(q, c); cx.seen(q.hash() ^ enc);
  // documented defaults, before and after other instances had their options changed
  { Cfg d = c; d.defaults = true; Inst a, b; Rng e(enc), e2(enc); a.permv = perm; b.permv = perm; a.load(q, d, e); b.load(q, d, e2); a.setup(); if (!defaults_ok(cx, a.q, "fresh instance", desc)) return;
    a.q->options->maxit = 3; a.q->options->reltol = 1e-2; a.q->options->abstol = .5; a.q->options->sigma = 1; a.q->options->verbose = 0; b.setup(); if (!defaults_ok(cx, b.q, "instance created after another's options were changed", desc)) return; if (a.q->options == b.q->options) cx.fail("shared-options", "instances share their settings: %s", desc);
    double rt = a.q->options->reltol; a.solve(); if (a.q->options->maxit != 3 || a.q->options->reltol != rt || a.q->options->abstol != .5 || a.q->options->verbose != 0) cx.fail("options-changed", "solving changed the settings: maxit=%ld reltol=%g abstol=%g verbose=%ld: %s", a.q->options->maxit, a.q->options->reltol, a.q->options->abstol, a.q->options->verbose, desc); if (!defaults_ok(cx, b.q, "untouched instance after another was solved", desc)) return;
    long f = b.solve(); Snap sb = b.snap(f); Cfg x = c; x.defaults = false; Snap se = run_once(q, x, enc, &perm); if (!snapeq(sb, se)) cx.fail("default-values", "leaving the defaults and setting them gives different results: %s", desc); }
  // the sequence of iterates, from runs that can only end by the limit
  int K = r.b(.1) ? 60 : 26; std::vector<Snap> it; std::vector<Kkt> kk; for (int k = 0; k <= K; k++) { Snap s = iterate_k(q, c, enc, k, &perm); if (s.flag == QP_OPTIMAL) { cx.fail("zero-tolerances-met", "OPTIMAL after %ld iterations although both tolerances are 0 (limit %d): %s", s.it, k, desc); return; } if (s.it > k || (s.flag == QP_MAXIT && s.it != k)) { cx.fail("limit", "limit %d gave flag %ld after %ld iterations: %s", k, s.flag, s.it, desc); return; } if (s.it != k) break; it.push_back(s); kk.push_back(kkt_eval(q, s)); if (!kk.back().finite) break; }
  if (it.size() < 3) { cx.skipped++; return; } int M = (int)it.size(); if (!kk.back().finite) M--; if (M < 3) { cx.skipped++; return; }
  auto rmax = [&](int k) { ld t = std::max(kk[k].rx, kk[k].rz); return q.p ? std::max(t, kk[k].ry) : t; }; auto emax = [&](int k) { return kk[k].ex + kk[k].ez + (q.p ? kk[k].ey : 0); };
  // stopping index for given tolerances: -1 unknown (too close), M not within the trace
  auto predict = [&](double rt, double at, long maxit) { for (int k = 0; k < M; k++) { if (k >= maxit) return std::make_pair(k, (long)QP_MAXIT); int m = meets(kk[k], q, rt, at); if (m < 0) return std::make_pair(-1, -1L); if (m == 1) return std::make_pair(k, (long)QP_OPTIMAL); } return std::make_pair(-1, -1L); };
  auto check = [&](const Cfg& d, const char* what) -> Snap { Snap s = run_once(q, d, enc, &perm); auto pr = predict(d.reltol, d.abstol, d.maxit); if (pr.first >= 0) { cx.count("option_effects_predicted");
      if (s.flag != pr.second || s.it != pr.first) cx.fail(what, "%s: flag %ld after %ld iterations, these options end it with %ld after %d (reltol=%g abstol=%g maxit=%ld verbose=%d): %s", what, s.flag, s.it, pr.second, pr.first, d.reltol, d.abstol, d.maxit, d.verbose, desc);
      }
    if ((s.flag == QP_OPTIMAL || s.flag == QP_MAXIT) && s.it >= 0 && s.it < (long)it.size()) { const Snap& t = it[s.it]; cx.count("iterates_compared"); if (!biteq(s.x, t.x) || !biteq(s.y, t.y) || !biteq(s.z, t.z) || !biteq(s.s, t.s)) cx.fail("iterates", "%s: iterate %ld differs from the one visited with other options: %s", what, s.it, desc); }
    return s; };
  static Capture* cap = nullptr; if (!cap) cap = new Capture(); cap->reset();
  auto between = [&](ld hi, ld lo) { return (double)(sqrtl(std::max(hi, 1e-300L)) * sqrtl(std::max(lo, 1e-300L))); };
  Cfg b = c; int k1 = (int)r.i(1, M - 1); ld mur = kk[k1].mu;
  // base: both tolerances met somewhere in the trace
  b.reltol = between(rmax(k1 - 1), rmax(k1)) * (double)sqrtl(3.0L); b.abstol = between(kk[k1 - 1].mu > 0 ? kk[k1 - 1].mu : mur, mur > 0 ? mur : 1e-12L); b.maxit = 100; (void)emax;
  if (!(b.reltol > 0) || !(b.abstol > 0) || !std::isfinite(b.reltol) || !std::isfinite(b.abstol)) { cx.skipped++; return; }
  Snap s0 = check(b, "residual-and-gap-tolerance");
  auto tighter = [&](const Cfg& d, const Snap& s, const char* w) { cx.count("tightened"); if (s0.flag == QP_OPTIMAL && s.flag == QP_OPTIMAL && s.it < s0.it) cx.fail("tightening-ends-earlier", "%s: %ld iterations instead of %ld (reltol=%g abstol=%g): %s", w, s.it, s0.it, d.reltol, d.abstol, desc); };
  { Cfg d = b; int k2 = (int)r.i(1, M - 1); d.reltol = between(rmax(k2 - 1), rmax(k2)) * (double)sqrtl(3.0L); if (d.reltol > 0 && std::isfinite(d.reltol)) { Snap s = check(d, "residual-tolerance"); if (d.reltol < b.reltol) tighter(d, s, "tighter residual tolerance"); } }
  { Cfg d = b; int k2 = (int)r.i(1, M - 1); d.abstol = between(kk[k2 - 1].mu, kk[k2].mu); if (d.abstol > 0 && std::isfinite(d.abstol)) { Snap s = check(d, "gap-tolerance"); if (d.abstol < b.abstol) tighter(d, s, "tighter gap tolerance"); } }
  { Cfg d = b; d.reltol = 1e30; check(d, "residual-tolerance-off"); d = b; d.abstol = 1e30; check(d, "gap-tolerance-off"); }
  { Cfg d = b; d.maxit = r.i(0, M - 1); check(d, "iteration-limit"); cx.count("limits"); if (s0.flag == QP_OPTIMAL) { long hv[] = {0x7fffffffffffffffL, 1L << 32, (1L << 32) + 1 + r.i(0, 3), 1L << 31, 1L << 40, 100000L, 32768L}; d.maxit = hv[r.i(0, 6)]; check(d, "large-iteration-limit"); cx.count("huge_limits"); } }
  { Cfg d = b; static const int vv[] = {1, 1, 2, 3, 5, 10, 1000, 65536, 2147483647}; d.verbose = vv[r.i(0, 8)]; cap->reset(); Snap s = check(d, "verbosity"); if (!snapeq(s, s0)) cx.fail("verbosity-effect", "verbosity %d changes the result: %s", d.verbose, desc); if (cap->get().size() < 30) cx.fail("verbosity-silent", "verbose=%d prints nothing: %s", d.verbose, desc);
    std::vector<char> o = cap->get(); long li = 0; for (const char* t = o.data(); (t = strstr(t, "pcost")); t++) li++; cx.count("verbosity_lines", (double)li); if (li < s.it) cx.fail("verbosity-lines", "verbose=%d prints %ld iteration lines in %ld iterations: %s", d.verbose, li, s.it, desc); cap->reset(); }
  { Cfg d = b; if (r.b(.5)) { d.reltol = 0; } else d.abstol = 0; d.maxit = std::min<long>(r.i(1, 12), M - 1); if (d.maxit > 0) check(d, "zero-tolerance"); }
  // the centering setting: above sigma_d the step is the predictor-corrector one whatever its value, otherwise it is the pure centering step towards sigma_d*mu
  { Cfg d = c; bool sd = d.fmt < FMT_ROW; d.sigma_d = sd ? (r.b(.3) ? r.u(.3, .95) : r.u(.001, .3)) : 0; Snap z0 = iterate_k(q, d, enc, 0, &perm); Cfg h = d; h.sigma = 100; Snap a = iterate_k(q, h, enc, 1, &perm); h.sigma = sd ? d.sigma_d * r.u(1.01, 3) : r.u(1e-6, 5); Snap a2 = iterate_k(q, h, enc, 1, &perm);
    if (a.it == 1 && z0.it == 0) { cx.count("sigma_pairs"); if (a2.it != 1 || !biteq(a.x, a2.x) || !biteq(a.y, a2.y) || !biteq(a.z, a2.z) || !biteq(a.s, a2.s)) cx.fail("sigma-above", "sigma=%g and sigma=100, both above sigma_d=%g, give different first iterates: %s", h.sigma, d.sigma_d, desc);
      if (sd || r.b(.5)) { h.sigma = sd ? (r.b(.3) ? d.sigma_d : d.sigma_d * r.u(0, .99)) : 0; Snap b1 = iterate_k(q, h, enc, 1, &perm); Kkt k0 = kkt_eval(q, z0), k1 = kkt_eval(q, b1);
        if (b1.it == 1 && k0.finite && k1.finite && b1.ap > 1e-3 && b1.ad > 1e-3) { ld mu0 = 0; for (int i = 0; i < q.m; i++) mu0 += (ld)z0.s[i] * z0.z[i]; mu0 /= q.m; ld worst = 0; int wi = -1; for (int i = 0; i < q.m; i++) { ld dz = ((ld)b1.z[i] - z0.z[i]) / b1.ad, ds = ((ld)b1.s[i] - z0.s[i]) / b1.ap, s0i = z0.s[i], z0i = z0.z[i]; ld e = fabsl(s0i * dz + z0i * ds + s0i * z0i - d.sigma_d * mu0); ld sc2 = fabsl(s0i * dz) + fabsl(z0i * ds) + s0i * z0i + mu0; e = sc2 > 0 ? e / sc2 : 0; if (e > worst) { worst = e; wi = i; } }
          cx.count("sigma_effects"); cx.cmax("max_sigma_step_error", (double)worst); if (worst > 1e-5L) cx.fail("sigma-below", "sigma=%g <= sigma_d=%g: the first step is not the centering step (constraint %d, relative error %Lg): %s", h.sigma, d.sigma_d, wi, worst, desc); } } } }
  cx.sample("%s trace=%d base reltol=%g abstol=%g flag=%ld it=%ld", desc, M, b.reltol, b.abstol, s0.flag, s0.it);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
