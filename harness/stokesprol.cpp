// PROPERTY: C21
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp base/coarsening/base_coarse.cpp base/coarsening/grid_contract.cpp base/coarsening/dof_contract.cpp base/coarsening/dof_map.cpp base/factory/base_factory.cpp base/utils/utils.cpp base/utils/utils_denseLA.cpp stokes/common/loop_utils.cpp stokes/ncfes/nc_stokes_gg_2d_spw.cpp stokes/ncfes/nc_stokes_gg_2d_mis.cpp
// ASSUME: meshes, loops and agglomerates as for C20, no Dirichlet edges; potentials: every edge on a loop has some flow; prolongation: agglomerates have at least one vertex of positive volume
#include "stokesgen.hpp"
#include <spw_agg.hpp>
#include <spw_agg_map.hpp>
#include <mis_agg.hpp>
#include <mis_agg_map.hpp>
#include <nodal_factory.hpp>
#include <nodal_factory_impl.hpp>
#include <stokes_factory.hpp>
#include <stokes_factory_impl.hpp>
#include <nc_stokes_factory.hpp>
#include <nc_stokes_factory_impl.hpp>
using namespace hx;
typedef NCGGStokesEnergy<2> EN;
class Fac : public NCStokesAMGFactory<SM, EN> { public: typedef NCStokesAMGFactory<SM, EN> B; Fac() : B(make_shared<B::Options>()) {} using B::BuildPrimarySpaceProlongation; using B::BuildUDofs; };
typedef BaseStokesLevelCapsule Cap;
// rows of a matrix of small blocks, by global vertex / edge
template<class M> static auto row(const M &m, int i) { std::map<int, VD> r; auto ri = m.GetRowIndices(i); auto rv = m.GetRowValues(i); for (size_t k = 0; k < ri.Size(); k++) { VD v; for (int a = 0; a < 2; a++) v.push_back(ngbla::Height<typename M::TENTRY>() == 1 ? rv[k](0, a) : rv[k](a, 0)); sx::check(!r.count(ri[k]), "an entry once"); r[ri[k]] = v; } return r; }
static void pot(int np) { Case C; setup(C, np, sx::choose("graph", 3), np == 1); auto &p = C.p; int n = p.nv(); for (int e = 0; e < p.ne(); e++) { C.fl[e] = sx::real(nm("flow", e, 0)); C.fm.push_back(sx::real(nm("flow", e, 1))); sx::assume(C.fl[e] * C.fl[e] + C.fm[e] * C.fm[e] >= 0.0625); }
  int vs = sx::choose("case", 3 + (int)C.loops.size()), off = vs - 3; if (vs == 1 || vs == 2) C.vol[1] = vs == 1 ? 0.0 : -1.0; C.vol[0] = sx::real("volume"); sx::assume(C.vol[0] >= 0.015625); sx::assume(C.vol[0] <= 4.0); fmpi::Mode md{false, 0, false};
  std::vector<std::map<int,std::map<int,VD>>> D(np), K(np);   // D[r][v][e], K[r][loop][e]
  fmpi::run(np, md, [&](int r) { auto S = mesh(C, r); auto cap = make_shared<Cap>(); cap->mesh = S; cap->eqc_h = S->GetEQCHierarchy(); auto L = S->GetLoops(); VI lg; for (auto &l : C.loops) (void)l; { int k = 0; for (size_t i = 0; i < C.loops.size(); i++) { int m = 0; for (int v : C.loops[i]) m |= 1 << C.own[v]; if (has(m, r)) { lg.push_back(i); k++; } } sx::check(k == (int)L.Size(), "number of loops"); }
    if (off >= 0) { auto ac = make_shared<BitArray>(L.Size()); for (size_t k = 0; k < L.Size(); k++) if (lg[k] != off) ac->SetBit(k); else ac->Clear(k); S->SetActiveLoops(ac); }
    Fac f; cap->uDofs = f.BuildUDofs(*cap); f.BuildDivMat(*cap); f.BuildCurlMat(*cap); auto [de, d2e, e2d] = S->GetDOFedEdges(); (void)de; (void)e2d; auto dm = dynamic_pointer_cast<Fac::TDM>(cap->div_mat); auto cm = dynamic_pointer_cast<Fac::TCM>(cap->curl_mat); auto ct = dynamic_pointer_cast<Fac::TCTM>(cap->curl_mat_T); sx::check(dm && cm && ct, "matrices"); sx::check((int)dm->Height() == (int)p.vg[r].size() && dm->Width() == d2e.Size() && cm->Height() == d2e.Size() && (int)cm->Width() == (int)L.Size() && ct->Height() == L.Size() && ct->Width() == d2e.Size(), "matrix sizes");
    for (size_t v = 0; v < p.vg[r].size(); v++) for (auto &x : row(*dm, v)) D[r][p.vg[r][v]][p.eg[r][d2e[x.first]]] = x.second; for (size_t k = 0; k < L.Size(); k++) for (auto &x : row(*ct, k)) K[r][lg[k]][p.eg[r][d2e[x.first]]] = x.second;
    for (size_t k = 0; k < d2e.Size(); k++) for (auto &x : row(*cm, k)) { auto &y = K[r][lg[x.first]]; int e = p.eg[r][d2e[k]]; sx::check(y.count(e), "pattern of the transposed matrix"); for (int a = 0; a < 2; a++) sx::check_eq(x.second[a], y[e][a], "transposed matrix"); }
    size_t nz = 0, nt = 0; for (size_t k = 0; k < d2e.Size(); k++) nz += cm->GetRowIndices(k).Size(); for (size_t k = 0; k < L.Size(); k++) nt += ct->GetRowIndices(k).Size(); sx::check(nz == nt, "entries of the transposed matrix"); });
  // divergence: flow out of a vertex by volume, summed over the ranks
  for (int v = 0; v < n; v++) for (int e = 0; e < p.ne(); e++) { bool on = p.ed[e].first == v || p.ed[e].second == v; double s = p.ed[e].first == v ? 1.0 : -1.0, f = C.vol[v] > 0.0 ? s / C.vol[v] : 0.0; for (int a = 0; a < 2; a++) { double x = 0; for (int r = 0; r < np; r++) if (D[r].count(v) && D[r][v].count(e)) x += D[r][v][e][a]; sx::check_eq(x, on ? f * (a ? C.fm[e] : C.fl[e]) : 0.0, "divergence: flow out of the vertex by its volume"); } }
  // curl: unit flow along the loop, the same on every rank with the dof
  for (size_t l = 0; l < C.loops.size(); l++) { CH ch = image(C.loops[l]); for (int r = 0; r < np; r++) for (int e = 0; e < p.ne(); e++) { int a = p.ed[e].first, b = p.ed[e].second; bool dof = p.el[r].count(e) && (C.own[a] == r || C.own[b] == r); bool ent = K[r].count(l) && K[r][l].count(e); bool want = dof && (int)l != off && ch.count(p.ed[e]); sx::check(ent == want, "a potential reaches exactly the edges of its loop"); if (ent) { auto &x = K[r][l][e]; sx::check_eq(x[0] * C.fl[e] + x[1] * C.fm[e], (double)ch[p.ed[e]], "unit flow along the loop"); sx::check_eq(x[0] * C.fm[e], x[1] * C.fl[e], "in the direction of the flow"); } }
    for (int v = 0; v < n; v++) { double s = 0; for (int r = 0; r < np; r++) if (D[r].count(v)) for (auto &x : D[r][v]) if (K[r].count(l) && K[r][l].count(x.first)) for (int a = 0; a < 2; a++) s += x.second[a] * K[r][l][x.first][a]; sx::check_eq(s, 0.0, "the curl of a potential has no divergence"); } }
  sx::reach("end"); }
SX_HARNESS(C21_potential, "curl and divergence matrices on one rank: three graphs with 4 to 6 vertices and 3 or 4 loops, all flow vectors of norm 1/4 or more, the volume of vertex 0 between 1/64 and 4, a vertex of zero or negative volume or an inactive loop", 0) { pot(1); }
SX_HARNESS(C21_potential2, "as C21_potential on 2 ranks, every distribution of the solid vertices", 0) { pot(2); }
static const int PY[][2] = {{3,4},{4,-3},{5,12},{12,5},{8,15},{15,-8},{7,24}};
static void prol(int np, bool sym = false) { Case C; setup(C, np, sx::choose("graph", 3), !sym); agg(C); auto &p = C.p; auto &a = C.a; int n = p.nv(); bool spl = false; for (int v = 0; v < n; v++) spl |= a.ctr[v] != v; sx::assume(spl); for (int e = 0; e < p.ne(); e++) { C.fl[e] = PY[e][0]; C.fm.push_back(PY[e][1]); C.w0[e] = 1 + e; C.w1[e] = 2 + (3 * e) % 4; } for (int v = 0; v < n; v++) C.vw[v] = 0.0;
  int vs = sx::choose("volumes", 3), vv = vs ? sx::choose("vertex", n) : -1; if (vs) C.vol[vv] = vs == 1 ? 0.0 : -1.0; for (int v = 0; v < n; v++) if (a.ctr[v] == v) { bool pos = false; for (int u = 0; u < n; u++) if (a.ctr[u] == v && C.vol[u] > 0.0) pos = true; sx::assume(pos); }
  if (sym) { for (int v = 0; v < n; v++) { int k = 0; for (int u = 0; u < n; u++) k += a.ctr[u] == v; sx::assume(k <= 3); } sx::assume(vv != 0); C.vol[0] = sx::real("volume"); sx::assume(C.vol[0] >= 0.015625); sx::assume(C.vol[0] <= 4.0); } fmpi::Mode md{false, 0, false};
  fmpi::run(np, md, [&](int r) { auto S = mesh(C, r); auto g = make_shared<GivenSMap<SM>>(S, &p, &a, r); AggOptions o; g->InitializeAgg(o, 0); auto sv = make_shared<BitArray>(*S->GetGhostVerts()); sv->Invert(); if (np > 1) g->SetSolidVerts(sv); auto M = dynamic_pointer_cast<SM>(g->GetMappedMesh()); g->MapAdditionalDataB(); auto vm = g->GetMap<NT_VERTEX>(), em = g->GetMap<NT_EDGE>(); auto fc = make_shared<Cap>(), cc = make_shared<Cap>(); Fac f; fc->mesh = S; cc->mesh = M; fc->uDofs = f.BuildUDofs(*fc); cc->uDofs = f.BuildUDofs(*cc); fc->baselevel = 0; Array<int> pr(0); Fac::TSPM A(pr, 0); auto P = f.BuildPrimarySpaceProlongation(*fc, *cc, *g, *S, *M, vm, em, g->GetMapC2F<NT_VERTEX>(), &A);
    auto [de, d2e, e2d] = S->GetDOFedEdges(); auto [ce, cd2e, ce2d] = M->GetDOFedEdges(); (void)de; (void)ce; sx::check(P->Height() == d2e.Size() && P->Width() == cd2e.Size(), "size of the prolongation"); auto E = S->GetNodes<NT_EDGE>(); auto CE = M->GetNodes<NT_EDGE>(); M->CumulateData(); auto ced = get<1>(M->Data())->Data(); auto fed = get<1>(S->Data())->Data();
    for (size_t k = 0; k < d2e.Size(); k++) { int e = d2e[k]; auto ri = P->GetRowIndices(k); for (size_t j = 0; j < ri.Size(); j++) { sx::check(ri[j] >= 0 && ri[j] < (int)cd2e.Size() && (!j || ri[j] > ri[j-1]), "columns of the prolongation"); } if (em[e] == -1) continue; sx::check(ri.Size() == 1 && ri[0] == ce2d[em[e]], "a facet between agglomerates follows its coarse facet"); for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) sx::check_eq(P->GetRowValues(k)[0](x, y), x == y ? 1.0 : 0.0, "facet values are those of the coarse facet"); }
    for (size_t cd = 0; cd < cd2e.Size(); cd++) for (int y = 0; y < 2; y++) { VD dv(p.vg[r].size(), 0.0); for (size_t k = 0; k < d2e.Size(); k++) { auto ri = P->GetRowIndices(k); for (size_t j = 0; j < ri.Size(); j++) if (ri[j] == (int)cd) { int e = d2e[k]; double q = 0; for (int x = 0; x < 2; x++) q += fed[e].flow[x] * P->GetRowValues(k)[j](x, y); dv[E[e].v[0]] += q; dv[E[e].v[1]] -= q; } }
      for (size_t cv = 0; cv < M->GetNN<NT_VERTEX>(); cv++) { if (M->GetGhostVerts()->Test(cv)) continue; int m = 0; double vol = 0; bool neg = false, zero = false; for (size_t k = 0; k < vm.Size(); k++) if (vm[k] == (int)cv) { m++; double w = C.vol[p.vg[r][k]]; if (w > 0.0) vol += w; else if (w < 0.0) neg = true; else zero = true; } int cen = cd2e[cd]; double Q = CE[cen].v[0] == (int)cv ? ced[cen].flow[y] : CE[cen].v[1] == (int)cv ? -ced[cen].flow[y] : 0.0; double tot = 0; if (m < 2) continue; for (size_t k = 0; k < vm.Size(); k++) if (vm[k] == (int)cv && C.vol[p.vg[r][k]] > 0.0) { double w = C.vol[p.vg[r][k]]; if (neg) sx::check_eq(dv[k], 0.0, "no divergence next to an outflow"); else if (!zero) sx::check_eq(dv[k] * vol, Q * w, "the divergence of the coarse function is spread by volume"); tot += dv[k]; } if (!neg) for (size_t k = 0; k < vm.Size(); k++) if (vm[k] == (int)cv && C.vol[p.vg[r][k]] > 0.0) sx::check_eq(dv[k] * vol, tot * C.vol[p.vg[r][k]], "the divergence is constant on an agglomerate"); } } });
  sx::reach("end"); }
SX_HARNESS(C21_potential3, "as C21_potential on 3 ranks, every distribution of the solid vertices", 1) { pot(3); }
SX_HARNESS(C21_prol, "prolongation on one rank: three graphs with 4 to 6 vertices, every agglomeration into connected agglomerates, a vertex of zero or negative volume", 0) { prol(1); }
SX_HARNESS(C21_prolvol, "as C21_prol, agglomerates of up to 3 vertices, the volume of vertex 0 between 1/64 and 4", 0) { prol(1, true); }
SX_HARNESS(C21_prol2, "as C21_prol on 2 ranks, every distribution of the solid vertices", 0) { prol(2); }
SX_HARNESS(C21_prol3, "as C21_prol on 3 ranks, every distribution of the solid vertices", 1) { prol(3); }
