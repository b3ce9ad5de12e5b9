// C12: equalities are honoured when given and absent when not
#include "gen2.hpp"
static void one(Ctx& cx, Rng& r) {
  int sc = r.b(.15) ? 2 : (int)r.i(0, 1); Cfg c = rand_cfg(r, Prob()); c.perm = false; uint64_t enc = r.next();
  if (r.b(.5)) {
    // a. every encoding of "no equalities" is the same problem, bit for bit, including full equality data with one array withheld
    Prob q; do { q = r.b(.15) ? gen_wild(r, sc) : gen_strict(r, (int)r.i(0, NFAM - 1), sc); if (q.p && q.fam[0] == 'w') { q.p = 0; q.A.clear(); q.b.clear(); } } while (q.p); DESC(q, c); cx.seen(q.hash());
    Cfg d = c; d.eqenc = 0; Snap base = run_once(q, d, enc); vl perm = rand_perm(r, q.n + q.m); bool up = r.b(.3); if (up) { d.perm = c.perm = true; base = run_once(q, d, enc, &perm); }
    for (int e = 1; e <= 6; e++) { d.eqenc = e; Snap s = run_once(q, d, enc, up ? &perm : nullptr); cx.count("absent_encodings"); if (!snapeq(s, base)) cx.fail("absent-encoding", "encoding %d of an absent equality block changes the result (flag %ld/%ld it %ld/%ld): %s", e, s.flag, base.flag, s.it, base.it, desc); }
    // real equality arrays, one of them NULL (or p = 0)
    int n = q.n, p = (int)r.i(1, n + 1); vd A((size_t)p * n, 0), b(p); genM(r, A, p, n, .6, false, true); for (auto& v : b) v = r.n() * 10; Rng e2(enc); Csc C = to_csc(A, p, n, c.fmt, e2, false);
    for (int w = 0; w < 5; w++) {
      Inst in; if (up) in.permv = perm; Rng e(enc); in.load(q, c, e); long* pp = up ? in.perm.p : nullptr; bool dn = in.dense; vd cm = c.fmt == FMT_COL ? Inst::colmaj(A, p, n) : A;
      if (dn && (w == 1 || w == 2)) continue;
      if (dn) in.q = QP_SETUP_dense(n, q.m, w == 4 ? 0 : p, in.Px.p, w == 0 ? nullptr : cm.data(), in.Gx.p, in.c.p, in.h.p, w == 3 ? nullptr : b.data(), pp, c.fmt == FMT_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
      else in.q = QP_SETUP(n, q.m, w == 4 ? 0 : p, in.Pj.p, in.Pi.p, in.Px.p, w == 1 ? nullptr : C.jc.data(), w == 2 ? nullptr : C.ir.data(), w == 0 ? nullptr : C.pr.data(), in.Gj.p, in.Gi.p, in.Gx.p, in.c.p, in.h.p, w == 3 ? nullptr : b.data(), c.sigma_d, pp);
      in.apply(); if (in.q->p != 0) cx.fail("absent-but-counted", "p=%ld with withheld array %d: %s", in.q->p, w, desc);
      long f = in.solve(); Snap s = in.snap(f); in.cleanup(); cx.count("withheld_arrays");
      if (!snapeq(s, base)) cx.fail("withheld-array", "equality data with withheld array %d changes the result (flag %ld/%ld it %ld/%ld): %s", w, s.flag, base.flag, s.it, base.it, desc);
    }
    cx.sample("%s flag=%ld it=%ld", desc, base.flag, base.it); return;
  }
  if (r.b(.2)) {
    // a'. rows without any entry are still rows: 0 = 0 changes nothing, 0 = b with b != 0 is never reported satisfied
    Prob q; do q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); while (!q.strict); c.sigma_d = 0; c.maxit = 100; c.reltol = c.abstol = std::pow(10.0, r.u(-8, -5)); Prob w = q; w.known = false;
    bool all = !q.p || r.b(.6); int k = (int)r.i(1, 3); if (all) { w.p = k; w.A.assign((size_t)k * q.n, 0); w.b.assign(k, 0); Prob z = q; z.p = 0; z.A.clear(); z.b.clear(); q = z; } else for (int t = 0; t < k; t++) { int at = (int)r.i(0, w.p); w.A.insert(w.A.begin() + (size_t)at * w.n, w.n, 0.0); w.b.insert(w.b.begin() + at, 0.0); w.p++; }
    bool bad = r.b(.4); if (bad) { std::vector<int> zr; for (int i = 0; i < w.p; i++) { bool z = true; for (int j = 0; j < w.n; j++) z &= w.a_(i, j) == 0; if (z) zr.push_back(i); } w.b[zr[r.i(0, (long)zr.size() - 1)]] = (r.b(.5) ? 1 : -1) * std::pow(10.0, r.u(-3, 2)); }
    w.fam = bad ? "empty-row-unsatisfiable" : all ? "all-rows-empty" : "some-rows-empty"; if (bad && r.b(.3)) c.maxit = r.i(1, 30); DESC(w, c); cx.seen(w.hash());
    if (!bad && all && !q.sconvex) { /* P may be unbounded below without its equalities */ cx.count("empty_rows_skipped"); cx.skipped++; return; }
    Inst in; Rng e(enc); in.load(w, c, e); in.setup(); if (in.q->p != w.p) cx.fail("rows-not-counted", "p=%ld although %d equality rows were given: %s", in.q->p, w.p, desc); long f = in.solve(); Snap s = in.snap(f); in.cleanup(); cx.count(bad ? "empty_rows_unsatisfiable" : "empty_rows_satisfied");
    if (bad) { if (f == 0) cx.fail("unsatisfiable-row-ignored", "OPTIMAL although a row reads 0 = b: %s", desc); }
    else if (f != 0) { if (persistent(r, w, [&](const Prob& u) { return run_once(u, c, enc).flag != 0 && run_once(q, c, enc).flag == 0; })) cx.fail("empty-row-not-solved", "flag %ld: %s", f, desc); else cx.count("lost_to_rounding"); }
    else { Snap o = run_once(q, c, enc); if (o.flag == 0 && q.sconvex) { Kkt ka = kkt_eval(w, s), kb = kkt_eval(q, o); ld gap = (ld)c.reltol * (q.m + 2 + nrm(s.x) + nrm(o.x) + nrm(s.z) + nrm(o.z) + nrm(s.y) + nrm(o.y)) * 2 + ka.ef + kb.ef; cx.count("empty_rows_compared"); if (!(fabsl(ka.f - kb.f) <= gap)) cx.fail("empty-row-changes-answer", "objective %.12Lg, without the empty rows %.12Lg (bound %.2Le): %s", ka.f, kb.f, gap, desc); } }
    cx.sample("%s flag=%ld it=%ld", desc, s.flag, s.it); return;
  }
  // b. present equalities are enforced row by row
  Prob q; do q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); while (!q.p || !q.strict); c.sigma_d = 0; c.reltol = c.abstol = std::pow(10.0, r.u(-8, -5)); DESC(q, c); cx.seen(q.hash());
  Snap s = run_once(q, c, enc); cx.count("with_equalities");
  if (s.flag == 0) { vld ax = mulv(q.A, q.p, q.n, s.x); for (int i = 0; i < q.p; i++) { ld a = fabsl((ld)q.b[i]); for (int j = 0; j < q.n; j++) a += fabsl((ld)q.a_(i, j) * s.x[j]); cx.count("rows_checked"); if (!(fabsl(ax[i] - q.b[i]) <= c.reltol + 100 * EPS * (q.n + 2) * a)) { cx.fail("row-not-enforced", "equality row %d violated by %.3Le: %s", i, fabsl(ax[i] - q.b[i]), desc); break; } } }
  else cx.fail("equality-not-solved", "flag %ld: %s", s.flag, desc);
  // dropping any one equality that is not implied must matter: moving its right-hand side moves the answer
  { Prob w = q; int i = (int)r.i(0, q.p - 1); vd x1(q.n); for (int j = 0; j < q.n; j++) x1[j] = s.x[j] + r.n() * .5; vld g = mulv(q.G, q.m, q.n, x1), a2 = mulv(q.A, q.p, q.n, x1); for (int k = 0; k < q.m; k++) w.h[k] = std::max(q.h[k], (double)g[k] + r.u(.2, 1)); for (int k = 0; k < q.p; k++) w.b[k] = (double)a2[k];
    (void)i; Snap t = run_once(w, c, enc); if (t.flag == 0) { vld ax = mulv(w.A, w.p, w.n, t.x); for (int k = 0; k < w.p; k++) { ld a = fabsl((ld)w.b[k]); for (int j = 0; j < w.n; j++) a += fabsl((ld)w.a_(k, j) * t.x[j]); cx.count("rows_checked"); if (!(fabsl(ax[k] - w.b[k]) <= c.reltol + 100 * EPS * (w.n + 2) * a)) { cx.fail("row-not-enforced", "equality row %d violated by %.3Le after moving the right-hand side: %s", k, fabsl(ax[k] - w.b[k]), desc); break; } } } else cx.count("moved_not_optimal"); }
  // c. equalities implied by construction do not change the answer: the optimum of the equality-free problem already satisfies them
  { Prob k; do { k = gen_strict(r, r.b(.5) ? FAM_KNOWN : FAM_KNOWN_SP, (int)r.i(0, 1)); } while (!k.sconvex); Prob w = k; w.fam = "implied-equality"; int add = (int)r.i(1, std::max(1, (k.n - k.p) / 2)); if (k.p + add > k.n) add = 0;
    if (add) { int np = k.p + add; vd A((size_t)np * k.n, 0); std::copy(k.A.begin(), k.A.end(), A.begin()); vd b = k.b; vd M((size_t)add * k.n, 0); genM(r, M, add, k.n, .7, true, true); std::copy(M.begin(), M.end(), A.begin() + (size_t)k.p * k.n); vld v = mulv(M, add, k.n, k.xs); for (auto t : v) b.push_back((double)t); w.A = A; w.b = b; w.p = np;
      if (rows_full_rank(w.A, w.p, w.n, 0.02L)) { Cfg d = c; Snap a = run_once(k, d, enc), e = run_once(w, d, enc); cx.count("implied_equalities"); ld tol = (ld)c.reltol, gap = (ld)c.abstol * k.m;
        if (a.flag == 0 && e.flag == 0) { vd ys = k.ys; ys.resize(np, 0); for (const Snap* u : {&a, &e}) { bool isw = u == &e; ld ez = ndiff(u->z, k.zs), ey = isw ? ndiff(u->y, ys) : ndiff(u->y, k.ys), xb = tol / k.lmin + sqrtl(((ey + ez) * tol + gap) / k.lmin) + 1e-11L, ex = ndiff(u->x, k.xs); if (!(ex <= xb)) cx.fail("implied-equality", "%s implied equalities ||x-x*||=%.3Le bound %.2Le: n=%d m=%d p=%d+%d fmt=%s", isw ? "with" : "without", ex, xb, k.n, k.m, k.p, add, FMTN[d.fmt]); } }
        else { cx.count("implied_not_optimal"); } } } }
  cx.sample("%s flag=%ld it=%ld", desc, s.flag, s.it);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
