// distributed dofs, vectors and matrices with symbolic entries
#pragma once
#include "meshgen.hpp"
#include <parallelvector.hpp>
#include <parallel_matrices.hpp>
#include <dcc_map.hpp>
#include <hybrid_matrix.hpp>
namespace hx {
typedef std::vector<VD> MD;
struct PD { int np = 1, nd = 0, es = 1; VI m; VVI g; std::vector<std::map<int,int>> l;   // m: ranks sharing the dof; g, l: local to global and back
  void init() { g.resize(np); l.resize(np); for (int r = 0; r < np; r++) for (int d = 0; d < nd; d++) if (has(m[d], r)) { l[r][d] = g[r].size(); g[r].push_back(d); } }
  shared_ptr<ParallelDofs> mk(int r) const { VVI t; for (int d : g[r]) t.push_back(dps(m[d], r, np)); return make_shared<ParallelDofs>(fmpi::world(), tab(t), es); }
  int master(int d) const { return __builtin_ctz(m[d]); } };
inline shared_ptr<BaseVector> pvec(shared_ptr<ParallelDofs> pd, PARALLEL_STATUS s) { switch (pd->GetEntrySize()) { case 1: return make_shared<ParallelVVector<double>>(pd, s); case 2: return make_shared<ParallelVVector<Vec<2>>>(pd, s); case 3: return make_shared<ParallelVVector<Vec<3>>>(pd, s); } throw Exception("entry size"); }
// a parallel vector: per rank and global number, cumulated (same values on all ranks) or distributed
struct PVec { bool cum = false; std::vector<VD> v;
  void fill(const PD &p, const char *n, bool c) { cum = c; v.assign(p.np, VD()); for (int r = 0; r < p.np; r++) for (int i = 0; i < p.nd * p.es; i++) { int d = i / p.es, ma = p.master(d); v[r].push_back(!has(p.m[d], r) ? 0.0 : !c || ma == r ? sx::real(nm(n, r, i)) : v[ma][i]); } }
  shared_ptr<BaseVector> mk(const PD &p, int r, shared_ptr<ParallelDofs> pd) const { auto x = pvec(pd, cum ? CUMULATED : DISTRIBUTED); auto f = x->FVDouble(); for (size_t k = 0; k < p.g[r].size(); k++) for (int j = 0; j < p.es; j++) f[k * p.es + j] = v[r][p.g[r][k] * p.es + j]; return x; }
  VD global(const PD &p) const { VD g; for (int i = 0; i < p.nd * p.es; i++) { int d = i / p.es; double s = 0; if (cum) s = v[p.master(d)][i]; else for (int r = 0; r < p.np; r++) if (has(p.m[d], r)) s += v[r][i]; g.push_back(s); } return g; } };
inline double ent(double x, int, int) { return x; } template<class T> inline double ent(const T &x, int a, int b) { return x(a, b); }
inline void setent(double &x, int, int, double v) { x = v; } template<class T> inline void setent(T &x, int a, int b, double v) { x(a, b) = v; }
template<class TM> struct ParMat { static constexpr int B = ngbla::Height<TM>(); PD p; int pat = 0; bool sym = false; std::vector<MD> a;   // a[r][i][j]: contribution of rank r, scalar global numbers
  void pick(int nd3) { p.np = 1 + sx::choose("ranks", 3); p.es = B; p.nd = nd3; int ns = (1 << p.np) - 1; for (int d = 0; d < p.nd; d++) p.m.push_back(p.np == 3 && !sx::tier() && d == 0 ? (int[]){7, 3, 5}[sx::choose("sharing", 3)] : 1 + sx::choose("sharing", ns)); pat = sx::choose("pattern", 2); p.init(); }
  bool on(int r, int i, int j) const { return has(p.m[i], r) && has(p.m[j], r) && (i == j || pat == 0 || i + j == 1); }   // full, or one coupling only
  void fill() { a.assign(p.np, MD(p.nd * B, VD(p.nd * B, 0.0))); for (int r = 0; r < p.np; r++) for (int i = 0; i < p.nd * B; i++) for (int j = 0; j < p.nd * B; j++) if (on(r, i / B, j / B)) a[r][i][j] = sym && j < i ? a[r][j][i] : sx::real(nm(nm("a", r), i, j)); }
  MD global() const { MD g(p.nd * B, VD(p.nd * B, 0.0)); for (int r = 0; r < p.np; r++) for (int i = 0; i < p.nd * B; i++) for (int j = 0; j < p.nd * B; j++) if (on(r, i / B, j / B)) g[i][j] += a[r][i][j]; return g; }
  shared_ptr<SparseMatrix<TM>> loc(int r) const { int n = p.g[r].size(); Array<int> per(n); per = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (on(r, p.g[r][i], p.g[r][j])) per[i]++; auto A = make_shared<SparseMatrix<TM>>(per, n); for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < n; j++) if (on(r, p.g[r][i], p.g[r][j])) { A->GetRowIndices(i)[c] = j; for (int x = 0; x < B; x++) for (int y = 0; y < B; y++) setent(A->GetRowValues(i)[c], x, y, a[r][p.g[r][i] * B + x][p.g[r][j] * B + y]); c++; } } return A; }
  shared_ptr<ParallelMatrix> mat(int r, shared_ptr<ParallelDofs> pd) const { return make_shared<ParallelMatrix>(loc(r), pd, pd, C2D); } };
}
