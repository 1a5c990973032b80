// PROPERTY: C14
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp base/coarsening/base_coarse.cpp base/factory/base_factory.cpp base/coarsening/dof_map.cpp base/utils/utils_denseLA.cpp
// ASSUME: agglomerates are those of C11 that the master of their centre holds; vertices have fixed positions in general position; rotations are not scaled
#include "elastgen.hpp"
using namespace hx;
template<int DIM> static void run(PMesh &p, Aggs &a) { constexpr int N = En<DIM>::N; typedef typename En<DIM>::M TMESH; int np = p.np, nv = p.nv(); fmpi::Mode md{false, 0, false}; if (np > 1) { md.lazy = md.rev = true; md.first = np - 1; } auto W = symwts<DIM>(p, true, false); bool vw = true;
  DMat C(N * nv, VD(N * nv, 0.0)), F = C; std::vector<VD> cx(nv);   // coarse and fine replacement matrix as sum over the ranks, coarse positions
  std::vector<std::vector<std::pair<int,VD>>> xs(np);
  fmpi::run(np, md, [&](int r) { auto H = emesh<DIM>(p, W, r); auto g = mk<TMESH>(H, p, a, r); auto CM = dynamic_pointer_cast<TMESH>(g->GetMappedMesh()); CM->CumulateData(); auto vm = g->template GetMap<NT_VERTEX>(); int nc = CM->template GetNN<NT_VERTEX>(); VI gc(nc, -1), gf(p.vg[r]); for (size_t k = 0; k < gf.size(); k++) if (vm[k] >= 0) gc[vm[k]] = a.ctr[gf[k]];
    auto put = [&](TMESH &M, const VI &gn, DMat &D) { auto A = AssembleAhatSparse<typename En<DIM>::E>(M, vw); auto d = dense<N,N>(*A); for (size_t i = 0; i < gn.size(); i++) for (size_t j = 0; j < gn.size(); j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) D[gn[i]*N+k][gn[j]*N+l] += d[i*N+k][j*N+l]; };
    put(*H, gf, F); put(*CM, gc, C); for (int k = 0; k < nc; k++) xs[r].push_back({gc[k], vpos<DIM>(*CM, k)}); });
  for (auto &l : xs) for (auto &q : l) { if (cx[q.first].empty()) cx[q.first] = q.second; for (int d = 0; d < 3; d++) sx::check_eq(cx[q.first][d], q.second[d], "all ranks know the same position of a coarse vertex"); }
  auto R = refA<DIM>(p, W, vw); same(F, R, "replacement matrix of the fine mesh"); DMat P(N * nv, VD(N * nv, 0.0)); for (int v = 0; v < nv; v++) if (a.ctr[v] >= 0) addblock(P, v, a.ctr[v], refQ<DIM>(sub(W.x[v], cx[a.ctr[v]])));
  same(C, mul(tr(P), mul(R, P)), "replacement matrix of the coarse mesh is the Galerkin projection"); sx::reach("end"); }
template<int DIM> static void seq(int n) { PMesh p; p.np = 1; p.dummy = sx::flag("sequential"); p.vm.assign(n, 1); edges(p, sx::choose("edges", 3), 0); p.init(); Aggs a = partition(p, true, sx::flag("last centre")); run<DIM>(p, a); }
template<int DIM> static void par(int np, int n) { PMesh p; p.np = np; int nm = (1 << np) - 1; for (int i = 0; i < n; i++) p.vm.push_back(np == 3 && i ? (int[]){7, 3, 6, 4}[sx::choose("sharing", sx::tier() ? 4 : 3)] : 1 + sx::choose("sharing", nm)); edges(p, sx::choose("edges", 2), 0); p.init(); Aggs a = partition(p, true, sx::flag("last centre")); run<DIM>(p, a); }
#define AGS "complete graph, path and star, every partition of the vertices into agglomerates, centre the first or the last vertex shared by most ranks, one vertex left out or not; any edge and vertex weights"
SX_HARNESS(C14_h1, "H1: 4 vertices (thorough: 5), one rank and sequential; " AGS, 0) { seq<1>(4 + sx::tier()); }
SX_HARNESS(C14_h1_2, "H1: 2 ranks, 3 vertices (thorough: 4) with every sharing pattern, complete graph or path; " AGS, 0) { par<1>(2, 3 + sx::tier()); }
SX_HARNESS(C14_h1_3, "H1: 3 ranks, 3 vertices with a selection of sharing patterns; " AGS, 0) { par<1>(3, 3); }
SX_HARNESS(C14_el2, "2D elasticity: 4 vertices, one rank and sequential; " AGS, 0) { seq<2>(4); }
SX_HARNESS(C14_el2_2, "2D elasticity: 2 ranks, 3 vertices with every sharing pattern, complete graph or path; " AGS, 0) { par<2>(2, 3); }
SX_HARNESS(C14_el3, "3D elasticity: 3 vertices, one rank and sequential; " AGS, 0) { seq<3>(3); }
SX_HARNESS(C14_el3_2, "3D elasticity: 2 ranks, 2 vertices (thorough: 3) with every sharing pattern; " AGS, 0) { par<3>(2, 2 + sx::tier()); }
SX_HARNESS(C14_el2_3, "2D elasticity: 3 ranks, 3 vertices with a selection of sharing patterns; " AGS, 1) { par<2>(3, 3); }
