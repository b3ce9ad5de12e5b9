// C14: public ordering, factorisation and validation routines under the sanitizers
#include "gen2.hpp"
static void one(Ctx& cx, Rng& r) {
  int N = (int)(r.b(.1) ? r.i(30, 120) : r.i(0, 24)); double dn = r.u() * r.u(); if (r.b(.1)) dn = 0;
  std::vector<std::vector<long>> col(N); std::vector<std::vector<double>> val(N); bool jumble = r.b(.3), sym = r.b(.6);
  for (int j = 0; j < N; j++) for (int i = 0; i < (sym ? j + 1 : N); i++) if (r.b(dn) || (r.b(.5) && i == j)) { double v = r.n(); if (i == j) v += r.b(.5) ? 3 : -3; col[j].push_back(i); val[j].push_back(v); if (sym && i != j) { col[i].push_back(j); val[i].push_back(v); } }
  if (r.b(.2) && N > 2) { int d = (int)r.i(0, N - 1); for (int i = 0; i < N; i++) if (i != d) { bool h = false; for (long t : col[d]) h |= t == i; if (!h) { col[d].push_back(i); val[d].push_back(.1); if (sym) { col[i].push_back(d); val[i].push_back(.1); } } } jumble = true; }
  if (jumble) for (int j = 0; j < N; j++) { vl ix(col[j].size()); std::iota(ix.begin(), ix.end(), 0); r.shuffle(ix); auto c2 = col[j]; auto v2 = val[j]; for (size_t t = 0; t < ix.size(); t++) { col[j][t] = c2[ix[t]]; val[j][t] = v2[ix[t]]; } if (r.b(.2) && !col[j].empty()) { col[j].push_back(col[j][0]); val[j].push_back(0); } }
  vl Ap(N + 1, 0), Ai; vd Ax; for (int j = 0; j < N; j++) { for (size_t t = 0; t < col[j].size(); t++) { Ai.push_back(col[j][t]); Ax.push_back(val[j][t]); } Ap[j + 1] = (long)Ai.size(); }
  Buf<long> ap, ai, P, Pinv, Lp, Parent, Lnz, Flag, Li, Pattern; Buf<double> ax, Lx, D, Y, B, X; ap.set(Ap); ai.set(Ai); ax.set(Ax); vl z(N, -7); P.set(z);
  Hash hh; hh.addl(Ap); hh.addl(Ai); cx.seen(hh.h);
  double Control[AMD_CONTROL], Info[AMD_INFO]; amd_l_defaults(Control); if (r.b(.3)) Control[AMD_DENSE] = r.b(.3) ? -1 : r.u(0, 12); if (r.b(.3)) Control[AMD_AGGRESSIVE] = r.b(.5);
  // hostile arguments first: everything invalid must be rejected without touching memory
  switch (r.i(0, 9)) {
    case 0: if (amd_l_order(N, nullptr, ai.p, P.p, Control, Info) != AMD_INVALID) cx.count("null_Ap_accepted"); break;
    case 1: if (N) (void)amd_l_order(-N, ap.p, ai.p, P.p, Control, Info); break;
    case 2: if (N && !Ai.empty()) { auto t = Ai; t[(size_t)r.i(0, (long)t.size() - 1)] = r.b(.5) ? N + r.i(0, 3) : -1 - r.i(0, 3); Buf<long> b; b.set(t); long f = amd_l_order(N, ap.p, b.p, P.p, Control, Info); cx.count("bad_row_rejected", f == AMD_INVALID); long v = amd_l_valid(N, N, ap.p, b.p); cx.count("bad_row_invalid", v == AMD_INVALID); } break;
    case 3: if (N > 1) { auto t = Ap; t[(size_t)r.i(0, N - 1)] += (r.b(.5) ? -1 : 1) * r.i(1, 50); Buf<long> b; b.set(t); vl big((size_t)Ap[N] + 60, 0); (void)LDL_valid_matrix(N, b.p, ai.p); (void)big; cx.count("bad_pointers"); } break;
    default: break; }
  long f = amd_l_order(N, ap.p, ai.p, P.p, r.b(.9) ? Control : nullptr, r.b(.9) ? Info : nullptr); cx.count(f == 0 ? "amd_ok" : f == 1 ? "amd_jumbled" : "amd_failed");
  (void)amd_l_valid(N, N, ap.p, ai.p);
  if (N && f >= 0) {
    vl pv(P.p, P.p + N); if (r.b(.4)) { r.shuffle(pv); P.set(pv); } if (r.b(.2)) P.set(vl());
    long* pp = P.n ? P.p : nullptr; Pinv.set(z); Lp.set(vl(N + 1, -1)); Parent.set(z); Lnz.set(z); Flag.set(z); Pattern.set(z); D.set(vd(N, NAN)); Y.set(vd(N, NAN));
    if (!LDL_valid_matrix(N, ap.p, ai.p)) cx.fail("valid-rejected", "valid matrix rejected, n=%d", N);
    (void)LDL_valid_perm(N, pp, Flag.p); { vl bad = pv; bad[(size_t)r.i(0, N - 1)] = r.b(.5) ? N : -1; Buf<long> b; b.set(bad); if (LDL_valid_perm(N, b.p, Flag.p)) cx.count("bad_perm_accepted"); }
    if (sym && !jumble) { LDL_symbolic(N, ap.p, ai.p, Lp.p, Parent.p, Lnz.p, Flag.p, pp, pp ? Pinv.p : nullptr); long nz = Lp.p[N]; Li.set(vl(nz, -1)); Lx.set(vd(nz, NAN));
      long d = LDL_numeric(N, ap.p, ai.p, ax.p, Lp.p, Parent.p, Lnz.p, Li.p, Lx.p, D.p, Y.p, Pattern.p, Flag.p, pp, pp ? Pinv.p : nullptr); cx.count("factorised"); cx.count("factor_nonzeros", (double)nz); (void)d;
      B.set(vd(N, 1)); X.set(vd(N, 0)); if (pp) LDL_perm(N, X.p, B.p, pp); LDL_lsolve(N, X.p, Lp.p, Li.p, Lx.p); LDL_dsolve(N, X.p, D.p); LDL_ltsolve(N, X.p, Lp.p, Li.p, Lx.p); if (pp) LDL_permt(N, B.p, X.p, pp);
      Buf<long> Ltp, Lti; Ltp.set(vl(N + 1, 0)); Lti.set(vl(nz, 0)); Transpose_Row_Count(N, N, Li.p, Lp.p, Lti.p, Ltp.p); }
  }
  cx.sample("n=%d nz=%ld jumbled=%d amd=%ld", N, Ap[N], (int)jumble, f);
}
int main(int a, char** v) { return qpm_main(a, v, one); }
