// problem arrays in their own mappings: read-only, with an inaccessible page directly before or directly behind the data
#pragma once
#include <sys/mman.h>
#include "gen2.hpp"
struct Guard {
  char* base = nullptr; size_t tot = 0, len = 0; char* data = nullptr; std::vector<char> copy;
  Guard() {} Guard(const Guard&) = delete; Guard& operator=(const Guard&) = delete;
  void drop() { if (base) munmap(base, tot); base = nullptr; }
  ~Guard() { drop(); }
  void* put(const void* src, size_t bytes, bool at_end) {
    drop(); size_t pg = 4096, body = (bytes + pg - 1) / pg * pg; tot = body + 2 * pg; len = bytes;
    base = (char*)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(9); }
    memset(base + pg, 0xA5, body); data = at_end ? base + pg + body - bytes : base + pg;
    if (bytes) memcpy(data, src, bytes);
    copy.assign((const char*)src, (const char*)src + bytes);
    mprotect(base, pg, PROT_NONE); mprotect(base + pg + body, pg, PROT_NONE); if (body) mprotect(base + pg, body, PROT_READ);
    return data;
  }
  void forbid() { if (base) mprotect(base, tot, PROT_NONE); }
  bool same() const { return !len || !memcmp(data, copy.data(), len); }
};
struct GInst {
  Guard g[14]; Cfg cfg; int n, m, p; bool dense; QP* q = nullptr; vl permv;
  long *Pj = 0, *Pi = 0, *Aj = 0, *Ai = 0, *Gj = 0, *Gi = 0, *perm = 0; double *Px = 0, *Ax = 0, *Gx = 0, *c = 0, *b = 0, *h = 0;
  long* L(int k, const vl& v, bool e) { return (long*)g[k].put(v.data(), v.size() * sizeof(long), e); }
  double* D(int k, const vd& v, bool e) { return (double*)g[k].put(v.data(), v.size() * sizeof(double), e); }
  void load(const Prob& pr, const Cfg& cf, Rng& r) {
    cfg = cf; n = pr.n; m = pr.m; p = pr.p; dense = cf.fmt >= FMT_ROW; auto e = [&]() { return r.b(.7); };
    if (dense) { bool row = cf.fmt == FMT_ROW; Px = D(0, row ? pr.P : Inst::colmaj(pr.P, n, n), e()); Ax = D(1, row ? pr.A : Inst::colmaj(pr.A, p, n), e()); Gx = D(2, row ? pr.G : Inst::colmaj(pr.G, m, n), e()); }
    else { Csc a = to_csc(pr.P, n, n, cf.fmt, r, true); Pj = L(3, a.jc, e()); Pi = L(4, a.ir, e()); Px = D(0, a.pr, e());
      a = to_csc(pr.A, p, n, cf.fmt, r, false); Aj = L(5, a.jc, e()); Ai = L(6, a.ir, e()); Ax = D(1, a.pr, e());
      a = to_csc(pr.G, m, n, cf.fmt, r, false); Gj = L(7, a.jc, e()); Gi = L(8, a.ir, e()); Gx = D(2, a.pr, e()); }
    c = D(9, pr.c, e()); b = D(10, pr.b, e()); h = D(11, pr.h, e());
    if (cf.perm) { if ((int)permv.size() != n + m + p) permv = rand_perm(r, n + m + p); perm = L(12, permv, e()); }
    if (p == 0) { g[1].forbid(); g[5].forbid(); g[6].forbid(); g[10].forbid(); }   // an absent block is not to be looked at
  }
  void setup() {
    long ep = p; double *ax = Ax, *bb = b; long *aj = Aj, *ai = Ai;
    if (p == 0) switch (cfg.eqenc) { case 0: ax = bb = nullptr; aj = ai = nullptr; break; case 1: break; case 2: ep = 2; ax = nullptr; break; case 3: ep = 3; bb = nullptr; break;
        case 4: ep = 1; if (dense) ax = nullptr; else aj = nullptr; break; case 5: ep = 5; if (dense) bb = nullptr; else ai = nullptr; break; default: ep = 7; ax = bb = nullptr; aj = ai = nullptr; }
    if (dense) q = QP_SETUP_dense(n, m, ep, Px, ax, Gx, c, h, bb, perm, cfg.fmt == FMT_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
    else q = QP_SETUP(n, m, ep, Pj, Pi, Px, aj, ai, ax, Gj, Gi, Gx, c, h, bb, cfg.sigma_d, perm);
    if (!cfg.defaults) { q->options->maxit = cfg.maxit; q->options->reltol = cfg.reltol; q->options->abstol = cfg.abstol; q->options->sigma = cfg.sigma; q->options->verbose = cfg.verbose; }
  }
  long solve() { return QP_SOLVE(q); }
  Snap snap(long f) { Snap s; s.flag = f; s.it = q->stats->IterationCount; s.amd = q->stats->AMD_RESULT; s.x.assign(q->x, q->x + n); s.z.assign(q->z, q->z + m); s.s.assign(q->s, q->s + m); if (p) s.y.assign(q->y, q->y + p);
    s.fval = q->stats->fval; s.nrx = q->stats->n_rx; s.nry = q->stats->n_ry; s.nrz = q->stats->n_rz; s.nmu = q->stats->n_mu; return s; }
  void cleanup() { if (q) { if (dense) QP_CLEANUP_dense(q); else QP_CLEANUP(q); } q = nullptr; }
};
