// C14: no memory error or undefined behaviour (the verdict is the sanitizers'); problem lifecycles
#include "gen2.hpp"
static void degrade(Rng& r, Prob& q) {
  for (int k = 0; k < 3; k++) switch (r.i(0, 7)) {
    case 0: { long i = r.i(0, q.m - 1); for (int j = 0; j < q.n; j++) q.g_((int)i, j) = 0; break; }
    case 1: { long j = r.i(0, q.n - 1); for (int i = 0; i < q.m; i++) q.g_(i, (int)j) = 0; break; }
    case 2: if (q.p) { long i = r.i(0, q.p - 1); for (int j = 0; j < q.n; j++) q.a_((int)i, j) = 0; } break;
    case 3: { long j = r.i(0, q.n - 1); for (int i = 0; i < q.n; i++) q.p_(i, (int)j) = q.p_((int)j, i) = 0; break; }
    case 4: if (r.b(.3)) std::fill(q.G.begin(), q.G.end(), 0.0); break;
    case 5: if (r.b(.3)) std::fill(q.A.begin(), q.A.end(), 0.0); break;
    case 6: if (r.b(.3)) std::fill(q.P.begin(), q.P.end(), 0.0); break;
    default: break; }
}
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.02) ? 3 : r.b(.1) ? 2 : (int)r.i(0, 1);
  Prob q; if (k0 < 4) q = gen_wild(r, sc); else if (k0 < 6) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  if (r.b(.4)) degrade(r, q);
  if (r.b(.05)) { double big = std::pow(10.0, r.u(100, 308)); for (auto& v : q.h) v *= big; } if (r.b(.05)) { double t = std::pow(10.0, r.u(-308, -100)); for (auto& v : q.G) v *= t; }
  Cfg c = rand_cfg(r, q); c.perm = r.b(.3); c.defaults = r.b(.2); c.eqenc = (int)r.i(0, 6); c.maxit = r.b(.5) ? 100 : r.i(0, 20); if (r.b(.05)) c.reltol = c.abstol = 0; if (r.b(.02)) c.maxit = -1; DESC(q, c);
  cx.seen(q.hash()); cx.count(FMTN[c.fmt]);
  Inst in; Rng e(r.next()); in.load(q, c, e); in.setup(); Snap s0 = in.snap(); long f = -9; if (r.b(.95)) f = in.solve(); Snap s = in.snap(); in.cleanup();
  char k[24]; snprintf(k, sizeof k, "flag_%ld", f); cx.count(k); if (!allfinite(s.x)) cx.count("nonfinite_result");
  cx.sample("%s flag=%ld", desc, f);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
