// algebraic meshes with H1 or elasticity energies, built from a PMesh and global data; dense reference of their replacement matrix
#pragma once
#include "aggs.hpp"
#include "spcheck.hpp"
#include <utils_denseLA.hpp>
#include <h1.hpp>
#include <h1_impl.hpp>
#include <h1_energy_impl.hpp>
#include <spw_agg.hpp>
#include <elasticity.hpp>
#include <elasticity_impl.hpp>
#include <vertex_factory_impl.hpp>
namespace hx {
// DIM 1: H1 (scalar), 2 and 3: elasticity. dofs per vertex: 1, 3, 6
template<int DIM> struct En { static constexpr int N = DIM == 1 ? 1 : DIM == 2 ? 3 : 6;
  using F = typename std::conditional_t<DIM == 1, std::common_type<H1AMGFactory<1>>, std::common_type<ElasticityAMGFactory<DIM == 1 ? 2 : DIM>>>::type; using M = typename F::TMESH; using E = typename F::ENERGY; };
// matrix of the rigid body modes transported along t: (u, r) to (u + r x t, r)
template<int DIM> inline DMat refQ(const VD &t) { constexpr int N = En<DIM>::N; DMat q(N, VD(N, 0.0)); for (int i = 0; i < N; i++) q[i][i] = 1.0; if (DIM == 2) { q[0][2] = -t[1]; q[1][2] = t[0]; } if (DIM == 3) for (int k = 0; k < 3; k++) { int a = (k+1) % 3, b = (k+2) % 3; q[a][3+k] = -t[b]; q[b][3+k] = t[a]; } return q; }
inline VD pos(int v) { static const double X[6][3] = {{0,0,0},{4,2,-2},{-2,6,2},{8,-4,6},{2,10,-8},{-6,-2,12}}; return VD(X[v], X[v] + 3); }
inline VD sub(const VD &a, const VD &b, double s = 1.0) { VD c(3); for (int i = 0; i < 3; i++) c[i] = s * (a[i] - b[i]); return c; }
// symbolic symmetric weight; dominant: diagonally dominant with positive diagonal
template<int DIM> inline DMat symw(const char *n, bool dominant) { constexpr int N = En<DIM>::N; DMat m(N, VD(N)); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) m[i][j] = m[j][i] = sx::real(nm(n, i, j)); if (dominant) for (int i = 0; i < N; i++) { sx::assume(m[i][i] >= 1.0); for (int j = 0; j < i; j++) { sx::assume(m[i][j] <= 1.0 / 8); sx::assume(m[i][j] >= -1.0 / 8); } } return m; }
struct Wts { std::vector<DMat> e, v; std::vector<VD> x; };
template<int DIM> inline Wts symwts(const PMesh &p, bool vw, bool dominant) { Wts W; constexpr int N = En<DIM>::N; for (int e = 0; e < p.ne(); e++) W.e.push_back(symw<DIM>(nm("w", e), dominant)); for (int v = 0; v < p.nv(); v++) { W.v.push_back(vw ? symw<DIM>(nm("l", v), false) : DMat(N, VD(N, 0.0))); W.x.push_back(pos(v)); } return W; }
// local mesh with cumulated data, the sharing ranks all hold the weights
template<int DIM> inline shared_ptr<typename En<DIM>::M> emesh(PMesh &p, const Wts &W, int r) { typedef typename En<DIM>::M TM; auto M = p.build(r); size_t n = M->GetNN<NT_VERTEX>(), ne = M->GetNN<NT_EDGE>(); shared_ptr<TM> H;
  if constexpr (DIM == 1) { Array<IVec<2,double>> vd(n); for (size_t k = 0; k < n; k++) { vd[k][0] = W.v[p.vg[r][k]][0][0]; vd[k][1] = 1.0; } Array<double> ed(ne); for (size_t k = 0; k < ne; k++) ed[k] = W.e[p.eg[r][k]][0][0]; H = make_shared<TM>(std::move(*M), std::make_tuple(new H1VData(std::move(vd), CUMULATED), new H1EData(std::move(ed), CUMULATED))); }
  else { constexpr int N = En<DIM>::N; Array<ElastVData<DIM>> vd(n); Array<ElasticityEdgeData<DIM>> ed(ne); for (size_t k = 0; k < n; k++) { int g = p.vg[r][k]; for (int d = 0; d < DIM; d++) vd[k].pos(d) = W.x[g][d]; vd[k].rot_scaling = 1.0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vd[k].wt(i, j) = W.v[g][i][j]; } for (size_t k = 0; k < ne; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) ed[k](i, j) = W.e[p.eg[r][k]][i][j]; H = make_shared<TM>(std::move(*M), std::make_tuple(new AttachedEVD<DIM>(std::move(vd), CUMULATED), new AttachedEED<DIM>(std::move(ed), CUMULATED))); }
  p.m[r] = H; return H; }
// position of a vertex as stored in the mesh
template<int DIM, class M> inline VD vpos(const M &m, int k) { VD x(3, 0.0); if constexpr (DIM > 1) for (int d = 0; d < DIM; d++) x[d] = get<0>(m.Data())->Data()[k].pos(d); return x; }
inline void addblock(DMat &A, int i, int j, const DMat &b, double s = 1.0) { int n = b.size(); for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) A[i*n+k][j*n+l] += s * b[k][l]; }
// global replacement matrix: edges seen from their mid points, and the vertex weights
template<int DIM> inline DMat refA(const PMesh &p, const Wts &W, bool vw) { constexpr int N = En<DIM>::N; DMat A(N * p.nv(), VD(N * p.nv(), 0.0)); for (int e = 0; e < p.ne(); e++) { int ij[2] = {p.ed[e].first, p.ed[e].second}; DMat Q[2]; for (int a = 0; a < 2; a++) Q[a] = refQ<DIM>(sub(W.x[ij[1-a]], W.x[ij[a]], 0.5)); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) addblock(A, ij[a], ij[b], mul(tr(Q[a]), mul(W.e[e], Q[b])), a == b ? 1.0 : -1.0); } if (vw) for (int v = 0; v < p.nv(); v++) addblock(A, v, v, W.v[v]); return A; }
// one agglomeration per set partition: the centre is the vertex with the most ranks, the first or the last one of these
inline Aggs partition(const PMesh &p, bool none, bool last = false) { int n = p.nv(), c = 0; Aggs a; VI grp; a.ctr.assign(n, -1); a.own.assign(n, -1); bool left = false; for (int v = 0; v < n; v++) { int k = sx::choose("group", std::min(c, 3) + 1 + (none && !left)); if (k > c) { left = true; grp.push_back(-1); continue; } grp.push_back(k); if (k == c) c++; }
  auto cnt = [&](int u) { return __builtin_popcount(p.vm[u]); }; for (int v = 0; v < n; v++) if (grp[v] >= 0) { int best = -1; for (int u = 0; u < n; u++) if (grp[u] == grp[v] && (best < 0 || cnt(u) > cnt(best) || (last && cnt(u) == cnt(best)))) best = u; a.ctr[v] = best; if ((p.vm[v] & ~p.vm[best]) || (p.vm[v] & -p.vm[v]) != (p.vm[best] & -p.vm[best])) sx::assume(false); a.own[best] = __builtin_ctz(p.vm[best]); } return a; }
}
