// C09: reported statistics describe the returned point
#include <malloc.h>
#include "gen2.hpp"
static void cmpst(Ctx& cx, const Prob& q, const Snap& s, const Snap& at, const char* what, const char* desc) {
  Kkt k = kkt_eval(q, at); if (!k.finite) { cx.skipped++; return; }
  auto chk = [&](const char* nm, ld rep, ld tru, ld e) { ld tol = 4 * e + 1e-15L * fabsl(tru) + 1e-150L;  /* squares of smaller values underflow in double */ cx.count("values_compared"); if (!(fabsl(rep - tru) <= tol)) { char key[64]; snprintf(key, sizeof key, "%s-%s", nm, what); cx.fail(key, "%s reported %.15Lg, recomputed %.15Lg (rounding bound %.1Le), it=%ld: %s", nm, rep, tru, tol, s.it, desc); } };
  chk("fval", s.fval, k.f, k.ef); chk("n_rx", s.nrx, k.rx, k.ex); chk("n_rz", s.nrz, k.rz, k.ez); chk("n_mu", s.nmu, k.mu, k.emu);
  if (q.p) chk("n_ry", s.nry, k.ry, k.ey);
}
static void one(Ctx& cx, Rng& r) {
  int k0 = (int)r.i(0, 9), sc = r.b(.15) ? 2 : (int)r.i(0, 1);
  Prob q; if (k0 == 0) q = gen_wild(r, sc); else if (k0 == 1) q = gen_bad(r, (int)r.i(0, 2), sc).q; else { q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); if (r.b(.3)) rescale(r, q, r.u(1, 6)); }
  Cfg c = rand_cfg(r, q); c.maxit = r.b(.5) ? 100 : r.i(0, 12); uint64_t enc = r.next(); vl perm; if (c.perm) perm = rand_perm(r, q.n + q.m + q.p); const vl* pp = c.perm ? &perm : nullptr;
  DESC(q, c); int fill = (int)r.i(1, 255); mallopt(M_PERTURB, fill);
  Snap s = run_once(q, c, enc, pp); mallopt(M_PERTURB, fill ^ 0xff); Snap s2 = run_once(q, c, enc, pp); mallopt(M_PERTURB, 0);
  cx.seen(q.hash() ^ (uint64_t)c.maxit);
  if (!snapeq(s, s2) || !bits(s.ap, s2.ap) || !bits(s.ad, s2.ad)) cx.fail("leftover-memory", "statistics or variables depend on prior heap contents: %s", desc);
  if (s.flag == QP_OPTIMAL) { cx.count("after_optimal"); cmpst(cx, q, s, s, "optimal", desc); if (q.p) cx.count("with_equalities"); }
  else if (s.flag == QP_MAXIT && c.maxit > 0) { Cfg d = c; d.maxit = c.maxit - 1; Snap b = run_once(q, d, enc, pp); if (b.it == d.maxit) { cx.count("after_maxit"); cmpst(cx, q, s, b, "maxit", desc); } }
  else if (s.flag == QP_MAXIT) { cx.count("never_evaluated"); if (!std::isfinite(s.fval) || !std::isfinite(s.nrx) || !std::isfinite(s.nry) || !std::isfinite(s.nrz) || !std::isfinite(s.nmu) || !std::isfinite(s.ap) || !std::isfinite(s.ad)) cx.fail("undefined-stat", "non-finite statistic without any iteration: %s", desc); }
  if (q.p == 0 && s.nry != 0) cx.fail("n_ry-absent", "n_ry=%g although there are no equalities: %s", s.nry, desc);
  cx.sample("%s flag=%ld it=%ld fval=%.9g n_rx=%.3g", desc, s.flag, s.it, s.fval, s.nrx);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
