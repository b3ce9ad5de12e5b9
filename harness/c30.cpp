// C30: the MATLAB gateway under a stand-in runtime, against the C library for the same data and options
#include "gen2.hpp"
#include "mex/mexrt.hpp"
#include <dlfcn.h>
static decltype(&QP_SETUP) ref_setup; static decltype(&QP_SOLVE) ref_solve; static decltype(&QP_CLEANUP) ref_cleanup;
static long solves;
extern "C" qp_int __real_QP_SOLVE(QP*);
static double ti[4];
extern "C" qp_int __wrap_QP_SOLVE(QP* q) { solves++; qp_int f = __real_QP_SOLVE(q); ti[0] = q->stats->tsetup; ti[1] = q->stats->tsolve; ti[2] = q->stats->kkt_time; ti[3] = q->stats->ldl_numeric; return f; }

struct Opt { std::string name; mxArray* v; };
static mxArray* dense(const vd& v, bool row) { auto* a = row ? mexrt::num({1, v.size()}, mxDOUBLE_CLASS, false) : mexrt::num({v.size(), 1}, mxDOUBLE_CLASS, false); if (!v.empty()) memcpy(a->data, v.data(), v.size() * 8); return a; }
static mxArray* sparse(const Csc& c) { auto* a = mxCreateSparse(c.m, c.n, c.ir.size(), mxREAL); for (size_t i = 0; i < c.jc.size(); i++) a->jc[i] = (size_t)c.jc[i]; for (size_t i = 0; i < c.ir.size(); i++) { a->ir[i] = (size_t)c.ir[i]; ((double*)a->data)[i] = c.pr[i]; } return a; }
static mxArray* scalar(double v) { auto* a = mexrt::num({1, 1}, mxDOUBLE_CLASS, false); *(double*)a->data = v; return a; }
static void flat(const mxArray* a, std::string& o) {
  o.append((const char*)&a->cls, sizeof a->cls); for (size_t d : a->dims) o.append((const char*)&d, 8);
  if (a->data) o.append(a->data, a->bytes); if (a->ir) { o.append((char*)a->ir, a->nzmax * 8); o.append((char*)a->jc, (a->dims[1] + 1) * 8); }
  for (auto& s : a->names) o += s; for (auto* v : a->vals) if (v) flat(v, o);
}
enum { OKV, BADV, EITHERV };
static mxArray* odd(Rng& r) {   // something that is not a plain real double
  switch (r.i(0, 9)) {
    case 0: return mexrt::num({1, 1}, mxINT32_CLASS, false);
    case 1: return mexrt::num({0, 0}, mxDOUBLE_CLASS, false);
    case 2: return mxCreateString("50");
    case 3: return mexrt::num({1, 1}, mxDOUBLE_CLASS, true);
    case 4: { auto* a = mexrt::num({1, 1}, mxSINGLE_CLASS, false); *(float*)a->data = 5; return a; }
    case 5: return mexrt::num({1, 1}, mxCELL_CLASS, false);
    case 6: { const char* f[] = {"x"}; return mexrt::strct({1, 1}, 1, f); }
    case 7: return mexrt::num({1, 1}, mxFUNCTION_CLASS, false);
    case 8: return mexrt::num({1, 1}, mxINT8_CLASS, false);
    default: return mexrt::num({0, 1}, mxDOUBLE_CLASS, false);
  }
}
static const char* OPTN[] = {"MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE"};

static void one(Ctx& cx, Rng& r) {
  if (!ref_setup) {
    void* so = dlopen(getenv("QPM_REF"), RTLD_NOW | RTLD_LOCAL);
    if (!so) { fprintf(stderr, "%s\n", dlerror()); exit(9); }
    ref_setup = (decltype(ref_setup))dlsym(so, "QP_SETUP"); ref_solve = (decltype(ref_solve))dlsym(so, "QP_SOLVE"); ref_cleanup = (decltype(ref_cleanup))dlsym(so, "QP_CLEANUP");
  }
  mexrt::sweep(); mexrt::clear(); mexrt::reset();
  Prob q; int k = (int)r.i(0, 9);
  if (r.b(.006)) { q = gen_large(r); cx.count("large_problems"); } else if (k == 0) q = gen_wild(r, (int)r.i(0, 1)); else if (k == 1) q = gen_bad(r, (int)r.i(0, NBAD - 1), (int)r.i(0, 1)).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), (int)r.i(0, 1));
  int n = q.n, m = q.m, p = q.p; char note[400] = "";
  auto add = [&](const char* s) { strncat(note, s, sizeof note - strlen(note) - 1); strncat(note, ";", sizeof note - strlen(note) - 1); };
  int want = OKV; auto bad = [&](const char* s) { want = BADV; add(s); }; auto either = [&](const char* s) { if (want == OKV) want = EITHERV; add(s); };
  int fmt = r.b(.8) ? FMT_SORTED : FMT_XZERO;
  Csc cP = to_csc(q.P, n, n, fmt, r, true), cA = to_csc(q.A, p, n, fmt, r, false), cG = to_csc(q.G, m, n, fmt, r, false);
  bool eq = p > 0;
  mxArray *P = sparse(cP), *G = sparse(cG), *A = nullptr, *b = nullptr, *c = dense(q.c, r.b(.2)), *h = dense(q.h, r.b(.2));
  if (eq) { A = sparse(cA); b = dense(q.b, r.b(.2)); }
  else if (r.b(.1)) { Csc e; e.m = 0; e.n = n; e.jc.assign(n + 1, 0); A = sparse(e); b = dense({}, false); eq = true; either("empty-equalities"); }
  // options
  mxArray* opts = nullptr; double maxit = 100, abstol = 1e-6, reltol = 1e-6, sigma = 100, verbose = 0; vl perm; bool useperm = false;
  { double one = 1; qp_int j[] = {0, 1}, i0[] = {0}; QP* t = ref_setup(1, 1, 0, j, i0, &one, nullptr, nullptr, nullptr, j, i0, &one, &one, &one, nullptr, 0, nullptr); maxit = t->options->maxit; abstol = t->options->abstol; reltol = t->options->reltol; sigma = t->options->sigma; verbose = t->options->verbose; ref_cleanup(t); }
  std::vector<Opt> ov;
  if (r.b(.7)) {
    bool hostile = r.b(.35);
    for (int o = 0; o < 5; o++) if (r.b(.35)) {
      double v; bool isbad = false;
      static const double MI[] = {0, 1, 2, 3, 7, 30, 100, 199, 200}, TO[] = {0, 1, 1e-6, 1e-3, 1e-9, .5}, SI[] = {0, 100, 1, .5, 1e3, 1e-6};
      if (o == 0) v = MI[r.i(0, 8)]; else if (o < 3) v = r.b(.5) ? TO[r.i(0, 5)] : std::pow(10., r.u(-9, -1)); else if (o == 3) v = SI[r.i(0, 5)]; else v = r.b(.6) ? 0 : (double)r.i(1, 4);
      mxArray* a = nullptr; bool upper = r.b(.5);
      if (hostile && r.b(.4)) {
        if (r.b(.4)) { a = odd(r); isbad = true; add("odd-option"); }
        else if (r.b(.2)) { v = NAN; isbad = true; add("nan-option"); }
        else if (o == 0) { static const double B[] = {-1, -2, 201, 1e9, -1e300, INFINITY, -INFINITY, 200.5}; v = B[r.i(0, 7)]; isbad = true; add("maxiter-range"); }
        else if (o < 3) { static const double B[] = {-0.1, -1e-300, 1.0000001, 2, INFINITY, -INFINITY, -1}; v = B[r.i(0, 6)]; isbad = true; add("tolerance-range"); }
        else { static const double B[] = {-0.1, -1, -1e-300, -INFINITY}; v = B[r.i(0, 3)]; isbad = true; add("negative-option"); }
      }
      if (isbad) want = BADV;
      if (!a) { a = scalar(v); if (!isbad) (o == 0 ? maxit : o == 1 ? abstol : o == 2 ? reltol : o == 3 ? sigma : verbose) = v; }
      std::string nm = OPTN[o]; if (!upper) for (auto& ch : nm) ch = (char)tolower(ch);
      ov.push_back({nm, a});
    }
    if (r.b(.35)) {
      int N = n + m + p; perm = rand_perm(r, N); vd pv(N); for (int i = 0; i < N; i++) pv[i] = (double)perm[i] + 1;
      mxArray* a = nullptr; int hk = hostile && r.b(.6) ? (int)r.i(0, 8) : -1;
      if (N == 1 && (hk == 0 || hk == 7)) hk = 1;
      if (hk == 0) { pv[r.i(1, N - 1)] = pv[0]; bad("perm-duplicate"); }
      else if (hk == 1) { pv[r.i(0, N - 1)] = r.b(.5) ? 0 : r.b(.5) ? N + 1 : r.b(.5) ? -3 : 1e300; bad("perm-range"); }
      else if (hk == 2) { pv.push_back(N + 1); bad("perm-long"); }
      else if (hk == 3) { pv.pop_back(); bad("perm-short"); }
      else if (hk == 4) { a = odd(r); if (a->count() == (size_t)N && a->cls == mxDOUBLE_CLASS && !a->cplx) want = want; else bad("perm-odd"); }
      else if (hk == 5) { Csc s; s.m = N; s.n = 1; s.jc = {0, N}; for (int i = 0; i < N; i++) { s.ir.push_back(i); s.pr.push_back(pv[i]); } a = sparse(s); bad("perm-sparse"); }
      else if (hk == 6) { a = mexrt::num({(size_t)N, 2}, mxDOUBLE_CLASS, false); if (N >= 2) bad("perm-matrix"); else either("perm-matrix"); }
      else if (hk == 7) { for (auto& v : pv) v -= 1; bad("perm-zero-based"); }
      else if (hk == 8) { pv[r.i(0, N - 1)] = NAN; bad("perm-nan"); }
      if (!a) a = dense(pv, r.b(.4));
      static const char* PN[] = {"PERMUT", "permut", "Permut"};
      ov.push_back({PN[r.i(0, 2)], a}); useperm = want != BADV; cx.count("permutations_given");
    }
    if (r.b(.1)) ov.push_back({"unknown", odd(r)});
    r.shuffle(ov);
    std::vector<const char*> nm; for (auto& o : ov) nm.push_back(o.name.c_str());
    opts = mexrt::strct({1, 1}, (int)nm.size(), nm.data()); for (size_t i = 0; i < ov.size(); i++) opts->vals[i] = ov[i].v;
    if (r.b(.03)) { opts = r.b(.5) ? scalar(5) : odd(r); if (r.b(.3)) { const char* f[] = {"MAXITER"}; opts = mexrt::strct({0, 0}, 1, f); } useperm = false; want = want == BADV && note[0] == 'e' ? want : EITHERV; add("opts-not-a-struct"); maxit = -1; }
  }
  // hostile operands
  if (r.b(.25)) {
    mxArray** T[] = {&P, &c, &G, &h, &A, &b}; int t = (int)r.i(0, eq ? 5 : 3); mxArray*& x = *T[t]; bool mat = t == 0 || t == 2 || t == 4; want = want == EITHERV ? EITHERV : want; int was = want; char d[60]; snprintf(d, sizeof d, "%c:", "PcGhAb"[t]);
    std::string nt = d; int kk = (int)r.i(0, 6); mxArray* o = x;
    if (kk == 0) { o = odd(r); if (!mat && o->cls == mxDOUBLE_CLASS && !o->cplx) nt += "empty"; else nt += "odd"; want = BADV; }
    else if (kk == 1) { if (mat) o = mexrt::num(x->dims, mxDOUBLE_CLASS, false); else { Csc s; s.m = (long)x->count(); s.n = 1; s.jc = {0, 0}; o = sparse(s); } nt += "wrong-storage"; want = BADV; }
    else if (kk == 2) { x->cplx = true; nt += "complex"; want = BADV; }
    else if (kk == 3 && mat) { x->cls = mxLOGICAL_CLASS; nt += "logical"; want = BADV; }
    else if (kk == 4) { if (mat) { Csc s; s.m = (long)x->dims[0] + 1; s.n = (long)x->dims[1]; s.jc.assign(s.n + 1, 0); o = sparse(s); } else { vd v(x->count() + 1, 1.0); o = dense(v, false); } nt += "longer"; want = BADV; }
    else if (kk == 5) { if (mat) { Csc s; s.m = (long)x->dims[0]; s.n = (long)x->dims[1] + 1; s.jc.assign(s.n + 1, 0); o = sparse(s); } else { vd v(x->count() - (x->count() > 0), 1.0); o = dense(v, false); } nt += "shorter"; want = BADV; }
    else if (kk == 6 && !mat && x->count() > 1) { o = mexrt::num({x->count(), 2}, mxDOUBLE_CLASS, false); nt += "two-columns"; want = BADV; }
    if (t >= 4 && p == 0 && want == BADV && was != BADV && (kk == 5 || kk == 6)) want = EITHERV;
    x = o; if (want == BADV) useperm = false; add(nt.c_str());
  }
  std::vector<const mxArray*> in{P, c}; if (eq) { in.push_back(A); in.push_back(b); } in.push_back(G); in.push_back(h); if (opts) in.push_back(opts);
  int nrhs = (int)in.size(), nlhs = (int)r.i(1, 3);
  if (r.b(.04)) { int d = (int)r.i(0, 2); if (d == 0) { nrhs = (int)r.i(0, 3); bad("too-few"); } else if (d == 1) { while (in.size() < 8) in.push_back(h); nrhs = 8; bad("too-many"); } else { nlhs = 4; bad("four-outputs"); } }
  if (r.b(.02)) { nlhs = 0; add("no-outputs"); }
  mexrt::made.clear();    // what exists now belongs to the workspace, not to the gateway
  std::string before; for (auto* a : in) flat(a, before);
  mxArray* out[4] = {nullptr, nullptr, nullptr, nullptr}; solves = 0;
  bool ok = mexrt::call(nlhs, out, nrhs, in.data());
  std::string after; for (auto* a : in) flat(a, after);
  std::string ob; for (auto& o : ov) if (o.v->cls == mxDOUBLE_CLASS && o.v->count() == 1 && !o.v->cplx) { char t[60]; snprintf(t, sizeof t, "%s=%g ", o.name.c_str(), *(double*)o.v->data); ob += t; }
  char desc[900]; snprintf(desc, sizeof desc, "n=%d m=%d p=%d eq=%d nlhs=%d nrhs=%d opts{%s}%s notes[%s]", n, m, p, eq, nlhs, nrhs, ob.c_str(), useperm ? " perm" : "", note);
  cx.seen(q.hash() ^ std::hash<std::string>()(desc));
  for (auto& f : mexrt::faults) cx.fail("runtime-misuse", "%s: %s", f.c_str(), desc);
  if (before != after) cx.fail("input-modified", "an argument was modified: %s", desc);
  if (mexrt::locked) { cx.fail("locked", "%s", desc); mexrt::locked = 0; }
  if (nlhs == 0) {
    if (!ok || mexrt::printed.empty() || solves) cx.fail("help", "with no outputs the help text is printed; got error=%d printed=%zu solves=%ld: %s", !ok, mexrt::printed.size(), solves, desc);
    cx.count("help_calls");
  } else if (!ok) {
    cx.count("errors");
    if (want == OKV) cx.fail("refused", "valid arguments raised '%s': %s", mexrt::err.c_str(), desc);
    if (mexrt::err.empty()) cx.fail("silent-error", "an error without a message: %s", desc);
    if (solves) cx.fail("late-error", "'%s' raised after the solver had run: %s", mexrt::err.c_str(), desc);
    mexrt::sweep(); for (auto& o : out) o = nullptr;
  } else {
    if (want == BADV) cx.fail("accepted", "invalid arguments were accepted: %s", desc);
    cx.count("results");
    if (!mexrt::blocks.empty()) cx.fail("leak", "%zu blocks not released on return: %s", mexrt::blocks.size(), desc);
    for (int i = 0; i < 4; i++) if ((out[i] != nullptr) != (i < nlhs)) cx.fail("outputs", "output %d is %s: %s", i, out[i] ? "set" : "missing", desc);
    for (int i = 0; i < nlhs; i++) if (out[i]) { if (!mexrt::made.count(out[i])) cx.fail("output-alias", "output %d is not a new array: %s", i, desc); mexrt::own(out[i]); }
    if (!mexrt::made.empty()) cx.fail("array-leak", "%zu arrays neither returned nor destroyed: %s", mexrt::made.size(), desc);
    if (solves != 1) cx.fail("solves", "solver run %ld times: %s", solves, desc);
    if (want == OKV && maxit >= 0 && !cx.fails_case) {
      Snap s; { std::vector<qp_int> pj(cP.jc.begin(), cP.jc.end()), pi(cP.ir.begin(), cP.ir.end()), aj(cA.jc.begin(), cA.jc.end()), ai(cA.ir.begin(), cA.ir.end()), gj(cG.jc.begin(), cG.jc.end()), gi(cG.ir.begin(), cG.ir.end()), pm(perm.begin(), perm.end());
        pi.resize(pi.size() + 1); ai.resize(ai.size() + 1); gi.resize(gi.size() + 1); vd px = cP.pr, ax = cA.pr, gx = cG.pr, c_ = q.c, h_ = q.h, b_ = q.b; px.push_back(0); ax.push_back(0); gx.push_back(0);
        QP* t = ref_setup(n, m, p, pj.data(), pi.data(), px.data(), p ? aj.data() : nullptr, p ? ai.data() : nullptr, p ? ax.data() : nullptr, gj.data(), gi.data(), gx.data(), c_.data(), h_.data(), p ? b_.data() : nullptr, 0, useperm ? pm.data() : nullptr);
        t->options->maxit = (qp_int)maxit; t->options->abstol = abstol; t->options->reltol = reltol; t->options->sigma = sigma; t->options->verbose = 0;
        s.flag = ref_solve(t); s.it = t->stats->IterationCount; s.x.assign(t->x, t->x + n); s.z.assign(t->z, t->z + m); s.s.assign(t->s, t->s + m); if (p) s.y.assign(t->y, t->y + p); s.fval = t->stats->fval; ref_cleanup(t); }
      auto vec = [&](const mxArray* a, const vd& w, const char* nm) {
        cx.count("arrays_compared");
        if (!a) { cx.fail("missing", "%s is missing: %s", nm, desc); return; }
        if (a->cls != mxDOUBLE_CLASS || a->cplx || a->sparse || a->dims.size() != 2 || a->dims[0] != w.size() || a->dims[1] != 1) { cx.fail("shape", "%s is %zux%zu %s, expected a column of %zu doubles: %s", nm, a->dims[0], a->dims[1], mxGetClassName(a), w.size(), desc); return; }
        const double* d = (double*)a->data;
        for (size_t i = 0; i < w.size(); i++) if (!bits(d[i], w[i]) && !(std::isnan(d[i]) && std::isnan(w[i])) && !(std::fabs(d[i] - w[i]) <= 1e-12 * std::fabs(w[i]))) { cx.fail("value", "%s[%zu] = %.17g, the C library gives %.17g (flag %ld after %ld iterations): %s", nm, i, d[i], w[i], s.flag, s.it, desc); return; }
      };
      vec(out[0], s.x, "sol");
      auto fields = [&](const mxArray* a, std::set<std::string> w, const char* nm) { if (a->cls != mxSTRUCT_CLASS || a->count() != 1 || std::set<std::string>(a->names.begin(), a->names.end()) != w || a->names.size() != w.size()) { cx.fail("fields", "%s does not have the documented fields: %s", nm, desc); return false; } return true; };
      auto time = [&](const mxArray* a, const char* nm) { double v = a && a->data && a->count() == 1 && a->cls == mxDOUBLE_CLASS ? *(double*)a->data : NAN; if (!(v >= 0 && v < 1000)) cx.fail("time", "%s = %g: %s", nm, v, desc); int i = nm[0] == 'K' ? 2 : nm[0] == 'L' ? 3 : nm[1] == 'o' ? 1 : 0; if (v != ti[i]) cx.fail("time-differs", "%s = %g, the solver recorded %g: %s", nm, v, ti[i], desc); };
      if (nlhs >= 2 && fields(out[1], {"Iterations", "ExitFlag", "Setup_Time", "Solve_Time"}, "basic_info")) {
        vec(mxGetField(out[1], 0, "Iterations"), {(double)s.it}, "Iterations"); vec(mxGetField(out[1], 0, "ExitFlag"), {(double)s.flag}, "ExitFlag"); time(mxGetField(out[1], 0, "Setup_Time"), "Setup_Time"); time(mxGetField(out[1], 0, "Solve_Time"), "Solve_Time"); cx.count("basic_info");
      }
      if (nlhs == 3 && fields(out[2], {"Fval", "KKT_Time", "LDL_Time", "y", "z", "s"}, "adv_info")) {
        vec(mxGetField(out[2], 0, "Fval"), {s.fval}, "Fval"); vec(mxGetField(out[2], 0, "z"), s.z, "z"); vec(mxGetField(out[2], 0, "s"), s.s, "s"); time(mxGetField(out[2], 0, "KKT_Time"), "KKT_Time"); time(mxGetField(out[2], 0, "LDL_Time"), "LDL_Time"); cx.count("adv_info");
        const mxArray* y = mxGetField(out[2], 0, "y"); if (p) vec(y, s.y, "y"); else if (y && y->count()) cx.fail("y", "a non-empty y without equalities: %s", desc);
      }
      if (verbose == 0 && !mexrt::printed.empty()) cx.fail("printed", "printed at verbosity 0 (%.60s): %s", mexrt::printed.c_str(), desc);
      if (verbose > 0) {
        cx.count("verbose_calls"); const char* t = mexrt::printed.c_str(); struct { const char* k; double v; } kv[] = {{"Maximum Iterations", maxit}, {"ABSTOL", abstol}, {"RELTOL", reltol}, {"SIGMA", sigma}, {"VERBOSE", verbose}};
        if (!*t) cx.fail("not-printed", "nothing printed at verbosity %g: %s", verbose, desc);
        for (auto& e : kv) { const char* f = strstr(t, e.k); if (!f) continue; f = strchr(f, ':'); if (!f) continue; double v = atof(f + 1); cx.count("settings_read_back"); if (!(std::fabs(v - e.v) <= 2e-6 * std::fabs(e.v))) cx.fail("settings-shown", "%s shown as %g, in use %g: %s", e.k, v, e.v, desc); }
        const char* f = strstr(t, "Permutation vector :"); if (f && (strstr(f, "User-defined") != nullptr) != useperm && strstr(f, "AMD")) { if ((strncmp(f + 21, "User-defined", 12) == 0) != useperm) cx.fail("permutation-shown", "%.40s: %s", f, desc); }
      }
      char fl[30]; snprintf(fl, sizeof fl, "flag_%ld", s.flag); cx.count(fl); if (useperm) cx.count("permutations_used");
      cx.sample("%s flag %ld after %ld iterations", desc, s.flag, s.it);
    }
  }
  mexrt::sweep(); mexrt::clear();
}
int main(int a, char** v) { return qpm_main(a, v, one); }
