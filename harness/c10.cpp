// C10: all input formats give the same result
#include "gen2.hpp"
static bool sameopt(const Prob& q, const Snap& a, const Snap& b, double reltol, double abstol, ld& worst) {
  // both are tolerance-accurate solutions of the same problem: their distance is bounded by the tolerances
  ld tol = 2 * (ld)reltol / sqrtl(3.0L), gap = 2 * (ld)abstol * q.m, ex = ndiff(a.x, b.x), ey = ndiff(a.y, b.y), ez = ndiff(a.z, b.z);
  ld xb = tol / q.lmin + sqrtl(((ey + ez) * tol + gap) / q.lmin) + 1e-9L * (1 + nrm(a.x)); worst = ex / xb; return ex <= xb; }
static void one(Ctx& cx, Rng& r) {
  int sc = r.b(.15) ? 2 : (int)r.i(0, 1); bool wild = r.b(.1);
  Prob q = wild ? gen_wild(r, sc) : gen_strict(r, (int)r.i(0, NFAM - 1), sc);
  // zero out entries to create empty rows/columns in the pattern
  Cfg c = rand_cfg(r, q, false); c.perm = false; c.reltol = c.abstol = std::pow(10.0, r.u(-8.5, -5)); c.maxit = r.b(.3) ? r.i(0, 8) : 100;
  uint64_t enc = r.next(); vl perm; if (r.b(.3)) { c.perm = true; perm = rand_perm(r, q.n + q.m + q.p); } const vl* pp = c.perm ? &perm : nullptr;
  Snap st[NFMT]; for (int f = 0; f < NFMT; f++) { Cfg d = c; d.fmt = f; st[f] = run_once(q, d, enc + f, pp); }
  DESC(q, c); cx.seen(q.hash());
  for (int f : {(int)FMT_ROW, (int)FMT_COL}) if (!snapeq(st[f], st[FMT_SORTED])) cx.fail(f == FMT_ROW ? "row-differs" : "col-differs", "%s differs from sorted sparse: flag %ld/%ld it %ld/%ld |dx|=%.3Le: %s", FMTN[f], st[f].flag, st[0].flag, st[f].it, st[0].it, infd(st[f].x, st[0].x), desc);
  cx.count("dense_bit_identical_checks", 2);
  for (int f : {(int)FMT_SHUF, (int)FMT_DUP, (int)FMT_XZERO, (int)FMT_MESS}) {
    if (wild) continue;
    const Snap &a = st[f], &b = st[FMT_SORTED]; cx.count("sparse_variants"); char b2[40];
    if (a.flag != b.flag) {
      // a flag may differ when a tolerance is met by a hair at the limit, or when an arbitrary ordering of a singular KKT matrix leaves no accurate factorisation
      Kkt k = kkt_eval(q, a.flag == 0 ? b : a); if (c.maxit == 100 && q.strict && c.reltol >= 1e-7 && (!c.perm || (q.sconvex && !q.p)) && persistent(r, q, [&](const Prob& w) { Cfg d = c, e = c; d.fmt = f; e.fmt = FMT_SORTED; return run_once(w, d, enc + f, pp).flag != run_once(w, e, enc, pp).flag; })) { snprintf(b2, sizeof b2, "flag-%s", FMTN[f]); cx.fail(b2, "exit flag %ld as %s, %ld as sorted sparse (rx=%.2Le): %s", a.flag, FMTN[f], b.flag, k.rx, desc); } else { cx.skipped++; cx.count("flag_at_limit"); } continue; }
    if (a.flag == 0) {
      Kkt k = kkt_eval(q, a); if (meets(k, q, c.reltol, c.abstol) == 0) { snprintf(b2, sizeof b2, "wrong-problem-%s", FMTN[f]); cx.fail(b2, "solution from %s does not solve the stated problem: rx=%.3Le ry=%.3Le rz=%.3Le: %s", FMTN[f], k.rx, k.ry, k.rz, desc); continue; }
      if (std::labs(a.it - b.it) <= 1) cx.count("iterations_within_one"); else cx.count("iterations_further_apart");
      if (q.sconvex) { ld w; cx.count("solutions_compared"); if (!sameopt(q, a, b, c.reltol, c.abstol, w)) { snprintf(b2, sizeof b2, "solution-%s", FMTN[f]); cx.fail(b2, "x differs by %.3Le between %s and sorted sparse (%.1Lf times the bound): %s", ndiff(a.x, b.x), FMTN[f], w, desc); } }
      if (a.it == b.it) cx.cmax("max_same_iterate_difference", (double)(infd(a.x, b.x) / std::max<ld>(1, infn(b.x))));
    }
  }
  cx.sample("%s flag=%ld it=%ld", desc, st[0].flag, st[0].it);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
