// C18: independent instances used concurrently, sharing read-only problem arrays; TSan watches, results are compared bit for bit
#include <atomic>
#include <thread>
#include "gen2.hpp"
struct Shared { Inst in; Prob q; Cfg c; };
static Snap life(const Shared& S, bool* ok) {
  const Inst& b = S.in; long* pp = S.c.perm ? b.perm.p : nullptr; QP* q; const Prob& P = S.q; *ok = true;
  if (b.dense) q = QP_SETUP_dense(P.n, P.m, P.p, b.Px.p, b.Ax.p, b.Gx.p, b.c.p, b.h.p, b.b.p, pp, S.c.fmt == FMT_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
  else q = QP_SETUP(P.n, P.m, P.p, b.Pj.p, b.Pi.p, b.Px.p, b.Aj.p, b.Ai.p, b.Ax.p, b.Gj.p, b.Gi.p, b.Gx.p, b.c.p, b.h.p, b.b.p, S.c.sigma_d, pp);
  q->options->maxit = S.c.maxit; q->options->reltol = S.c.reltol; q->options->abstol = S.c.abstol; q->options->sigma = S.c.sigma;
  long f = QP_SOLVE(q); Snap s; s.flag = f; s.it = q->stats->IterationCount; s.amd = q->stats->AMD_RESULT; s.x.assign(q->x, q->x + P.n); s.z.assign(q->z, q->z + P.m); s.s.assign(q->s, q->s + P.m); if (P.p) s.y.assign(q->y, q->y + P.p);
  s.fval = q->stats->fval; s.nrx = q->stats->n_rx; s.nry = q->stats->n_ry; s.nrz = q->stats->n_rz; s.nmu = q->stats->n_mu; if (!(q->stats->tsolve >= 0) || !(q->stats->tsetup >= 0)) *ok = false;
  if (b.dense) QP_CLEANUP_dense(q); else QP_CLEANUP(q); return s;
}
struct Ker { vl ap, ai; vd ax; int N = 0; };
static std::vector<char> kernel(const Ker& K) {
  int N = K.N; vl ap = K.ap, ai = K.ai; vl P(N), Pinv(N), Lp(N + 1), Pa(N), Ln(N), Fl(N), Pt(N); double C[AMD_CONTROL], I[AMD_INFO]; amd_l_defaults(C); long f = amd_l_order(N, (long*)K.ap.data(), (long*)K.ai.data(), P.data(), C, I);
  LDL_symbolic(N, (long*)K.ap.data(), (long*)K.ai.data(), Lp.data(), Pa.data(), Ln.data(), Fl.data(), P.data(), Pinv.data()); long nz = Lp[N]; vl Li(nz + 1); vd Lx(nz + 1), D(N), Y(N), X(N), B(N, 1.0);
  long d = LDL_numeric(N, (long*)K.ap.data(), (long*)K.ai.data(), (double*)K.ax.data(), Lp.data(), Pa.data(), Ln.data(), Li.data(), Lx.data(), D.data(), Y.data(), Pt.data(), Fl.data(), P.data(), Pinv.data());
  LDL_perm(N, X.data(), B.data(), P.data()); LDL_lsolve(N, X.data(), Lp.data(), Li.data(), Lx.data()); LDL_dsolve(N, X.data(), D.data()); LDL_ltsolve(N, X.data(), Lp.data(), Li.data(), Lx.data()); LDL_permt(N, B.data(), X.data(), P.data());
  long v = LDL_valid_perm(N, P.data(), Fl.data()); std::vector<char> o; auto add = [&](const void* p, size_t n) { const char* c = (const char*)p; o.insert(o.end(), c, c + n); }; add(&f, 8); add(&d, 8); add(&v, 8); add(P.data(), N * 8); add(B.data(), N * 8); add(D.data(), N * 8); add(I, sizeof I); return o;
}
static void one(Ctx& cx, Rng& r) {
  int T = (int)r.i(2, 4), K = (int)r.i(1, 3); std::vector<Shared*> S; std::vector<Ker> kers(2);
  for (int k = 0; k < K; k++) { Shared* s = new Shared(); int sc = r.b(.05) ? 2 : (int)r.i(0, 1), k0 = (int)r.i(0, 9); s->q = k0 < 2 ? gen_wild(r, sc) : gen_strict(r, (int)r.i(0, NFAM - 1), sc); s->c = rand_cfg(r, s->q); s->c.eqenc = 0; s->c.maxit = r.b(.7) ? 100 : r.i(0, 9); Rng e(r.next()); s->in.load(s->q, s->c, e); S.push_back(s); }
  for (auto& k : kers) { k.N = (int)r.i(1, 30); int N = k.N; std::vector<char> M((size_t)N * N, 0); double dn = r.u(0, .5); for (int i = 0; i < N; i++) { M[(size_t)i * N + i] = 1; for (int j = 0; j < i; j++) if (r.b(dn)) M[(size_t)i * N + j] = M[(size_t)j * N + i] = 1; } k.ap.assign(N + 1, 0); for (int j = 0; j < N; j++) { for (int i = 0; i < N; i++) if (M[(size_t)i * N + j]) { k.ai.push_back(i); k.ax.push_back(i == j ? N + 1.0 : 1.0 / (1 + i + j)); } k.ap[j + 1] = (long)k.ai.size(); } }
  int L = (int)r.i(2, 5); std::vector<vl> plan(T); for (auto& p : plan) for (int t = 0; t < L; t++) p.push_back(r.i(0, K + 1));
  std::vector<std::vector<Snap>> got(T, std::vector<Snap>(L)); std::vector<std::vector<std::vector<char>>> gk(T, std::vector<std::vector<char>>(L)); std::vector<char> okv(T, 1);
  std::atomic<int> ready(0); std::atomic<bool> go(false); std::vector<std::thread> th;
  for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (!go) std::this_thread::yield(); for (int k = 0; k < L; k++) { bool ok = true; if (plan[t][k] < K) got[t][k] = life(*S[plan[t][k]], &ok); else gk[t][k] = kernel(kers[plan[t][k] - K]); if (!ok) okv[t] = 0; } });
  while (ready < T) std::this_thread::yield(); go = true; for (auto& t : th) t.join();
  Hash hh; for (auto s : S) { uint64_t t = s->q.hash(); hh.add(&t, 8); } cx.seen(hh.h); cx.count("threads", T);
  for (int t = 0; t < T; t++) { if (!okv[t]) cx.fail("negative-time", "negative time under concurrency"); for (int k = 0; k < L; k++) { bool ok; int w = (int)plan[t][k]; if (w < K) { Snap s = life(*S[w], &ok); cx.count("lifecycles_compared"); if (!snapeq(s, got[t][k])) cx.fail("concurrent-differs", "thread %d, fam=%s n=%d m=%d p=%d: concurrent result differs from the sequential one: flag %ld/%ld it %ld/%ld", t, S[w]->q.fam, S[w]->q.n, S[w]->q.m, S[w]->q.p, got[t][k].flag, s.flag, got[t][k].it, s.it); }
      else { cx.count("kernels_compared"); if (kernel(kers[w - K]) != gk[t][k]) cx.fail("concurrent-kernel-differs", "thread %d: ordering or factorisation differs under concurrency, n=%d", t, kers[w - K].N); } } }
  cx.sample("threads=%d problems=%d lifecycles per thread=%d", T, K, L); for (auto s : S) delete s;
}
int main(int a, char** v) { return qpm_main(a, v, one); }
