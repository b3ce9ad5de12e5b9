// sparse patterns for the ordering and factorisation checks, and an independent symbolic elimination
#pragma once
#include "gen2.hpp"
typedef std::vector<std::vector<long>> Adj;
struct Pat { int n = 0; Adj col; const char* kind = ""; };   // column lists, any order, possibly with diagonal and duplicates
static inline void edge(Pat& P, long i, long j) { if (i != j) { P.col[j].push_back(i); P.col[i].push_back(j); } }
static inline void uniq(Pat& P) { for (auto& c : P.col) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); } }
static inline Pat gen_pat(Rng& r, int nmax) {   // symmetric, sorted, unique
  Pat P; int k = (int)r.i(0, 13); int n = (int)r.i(0, nmax); P.n = n; P.col.resize(n);
  auto grid = [&](int w, int hgt, bool diag) { P.n = w * hgt; P.col.assign(P.n, {}); for (int y = 0; y < hgt; y++) for (int x = 0; x < w; x++) { if (x + 1 < w) edge(P, y * w + x, y * w + x + 1); if (y + 1 < hgt) edge(P, y * w + x, (y + 1) * w + x); if (diag && x + 1 < w && y + 1 < hgt) edge(P, y * w + x, (y + 1) * w + x + 1); } };
  switch (k) {
    case 0: P.kind = "random-sparse"; for (int e = 0; e < n * 2; e++) edge(P, r.i(0, n - 1), r.i(0, n - 1)); break;
    case 1: { P.kind = "random-density"; double d = r.u() * r.u(); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r.b(d)) edge(P, i, j); break; }
    case 2: { P.kind = "grid"; int w = (int)r.i(1, std::max(1, (int)std::sqrt((double)nmax))); grid(w, (int)r.i(1, std::max(1, nmax / w)), r.b(.4)); break; }
    case 3: { P.kind = "band"; int w = (int)r.i(1, 5); for (int i = 0; i < n; i++) for (int j = std::max(0, i - w); j < i; j++) edge(P, i, j); break; }
    case 4: { P.kind = "arrow"; int a = n ? (int)r.i(1, std::min(n, 4)) : 0; for (int t = 0; t < a; t++) { int c = (int)r.i(0, n - 1); for (int i = 0; i < n; i++) edge(P, i, c); } break; }
    case 5: { P.kind = "cliques"; for (int t = 0, T = (int)r.i(1, 8); t < T && n; t++) { int s = (int)r.i(1, std::max(1, n / 3)); vl m; for (int i = 0; i < s; i++) m.push_back(r.i(0, n - 1)); for (long a : m) for (long b : m) if (a < b) edge(P, a, b); } break; }
    case 6: { P.kind = "tree"; for (int i = 1; i < n; i++) edge(P, i, r.i(0, i - 1)); break; }
    case 7: { P.kind = "blocks"; for (int b0 = 0; b0 < n;) { int s = (int)r.i(1, 6); for (int i = b0; i < std::min(n, b0 + s); i++) for (int j = b0; j < i; j++) edge(P, i, j); b0 += s; } break; }
    case 8: { P.kind = "kkt"; int nv = n / 2; for (int i = nv; i < n; i++) for (int t = 0, T = (int)r.i(1, 4); t < T && nv; t++) edge(P, i, r.i(0, nv - 1)); for (int e = 0; e < nv; e++) if (nv) edge(P, r.i(0, nv - 1), r.i(0, nv - 1)); break; }
    case 9: { P.kind = "twins"; int h = std::max(1, n / 3); for (int e = 0; e < h * 2 && n; e++) { long a = r.i(0, h - 1), b = r.i(0, h - 1); for (long s = 0; s < 3; s++) for (long t = 0; t < 3; t++) if (a + s * h < n && b + t * h < n) edge(P, a + s * h, b + t * h); } break; }
    case 10: P.kind = "empty"; break;
    case 11: P.kind = "full"; n = P.n = std::min(n, 60); P.col.assign(n, {}); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) edge(P, i, j); break;
    case 12: { P.kind = "dense-rows"; for (int e = 0; e < n && n; e++) edge(P, r.i(0, n - 1), r.i(0, n - 1)); int a = n ? (int)r.i(1, std::max(1, std::min(n / 3, 12))) : 0; double d = r.u(.2, 1); for (int t = 0; t < a; t++) { int c = (int)r.i(0, n - 1); for (int i = 0; i < n; i++) if (r.b(d)) edge(P, i, c); } break; }
    default: { P.kind = "bipartite"; int h = n / 2; double d = r.u() * .4; for (int i = 0; i < h; i++) for (int j = h; j < n; j++) if (r.b(d)) edge(P, i, j); break; } }
  uniq(P);
  if (r.b(.7)) { vl p = rand_perm(r, P.n); Adj c2(P.n); for (int j = 0; j < P.n; j++) for (long i : P.col[j]) c2[p[j]].push_back(p[i]); P.col = c2; uniq(P); }
  return P;
}
// column counts (off-diagonal) of L for the symmetric pattern adj eliminated in the order perm
static inline vl sym_counts(const Adj& adj, const vl& perm) {
  int n = (int)adj.size(); vl inv(n), cnt(n, 0); for (int k = 0; k < n; k++) inv[perm[k]] = k;
  std::vector<vl> st(n), kids(n);
  for (int k = 0; k < n; k++) { vl s; for (long i : adj[perm[k]]) if (inv[i] > k) s.push_back(inv[i]); for (long c : kids[k]) { for (long i : st[c]) if (i > k) s.push_back(i); vl().swap(st[c]); }
    std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); cnt[k] = (long)s.size(); if (!s.empty()) kids[s[0]].push_back(k); st[k].swap(s); }
  return cnt;
}
// greedy exact minimum degree: the number of off-diagonal entries of L
static inline long exact_md(Adj adj) {
  int n = (int)adj.size(); std::vector<char> gone(n, 0); long nz = 0; std::vector<std::vector<char>> M(n, std::vector<char>(n, 0)); vl deg(n, 0);
  for (int j = 0; j < n; j++) for (long i : adj[j]) if (i != j) M[i][j] = M[j][i] = 1;
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) deg[j] += M[i][j];
  for (int k = 0; k < n; k++) { int b = -1; for (int j = 0; j < n; j++) if (!gone[j] && (b < 0 || deg[j] < deg[b])) b = j; nz += deg[b]; gone[b] = 1; vl nb; for (int i = 0; i < n; i++) if (!gone[i] && M[i][b]) nb.push_back(i);
    for (long a : nb) { M[a][b] = M[b][a] = 0; deg[a]--; } for (long a : nb) for (long c : nb) if (a < c && !M[a][c]) { M[a][c] = M[c][a] = 1; deg[a]++; deg[c]++; } }
  return nz;
}
