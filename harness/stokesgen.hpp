// Stokes meshes with prescribed loops, flows and agglomerates
#pragma once
#include "aggs.hpp"
#include <grid_contract.hpp>
#include <nc_stokes_mesh.hpp>
#include <stokes_map.hpp>
#include <nc_stokes_mesh_impl.hpp>
#include <stokes_map_impl.hpp>
namespace hx {
typedef NCGGStokesMesh<2> SM; typedef NCStokesGGVD<2> SVD; typedef NCStokesGGED<2> SED; typedef std::map<PII,int> CH;
template<class M> class GivenSMap : public StokesCoarseMap<M> { public: const PMesh *p; const Aggs *a; int r; GivenSMap(shared_ptr<M> m, const PMesh *ap, const Aggs *aa, int ar) : StokesCoarseMap<M>(m), p(ap), a(aa), r(ar) {}
 protected: unique_ptr<BaseAgglomerator> createAgglomerator() override { auto g = make_unique<GivenAgg>(); g->M = dynamic_pointer_cast<BlockTM>(this->GetMesh()); g->p = p; g->a = a; g->r = r; return g; } };
struct Case { PMesh p; VI own; VVI loops; Aggs a; VD fl, fm, w0, w1, vw, vol; };   // fl, fm: components of the flow
inline void addch(CH &c, int x, int y, int s = 1) { if (x == y) return; if (x > y) { std::swap(x, y); s = -s; } int &k = c[{x, y}]; k += s; if (!k) c.erase({x, y}); }
inline CH image(const VI &loop, const VI *map = nullptr) { CH c; int n = loop.size(); for (int i = 0; i < n; i++) { int x = loop[i], y = loop[(i + 1) % n]; addch(c, map ? (*map)[x] : x, map ? (*map)[y] : y); } return c; }
static const std::vector<std::vector<PII>> GR = {{{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}, {{0,1},{1,2},{2,3},{3,4},{0,4},{2,4}}, {{0,1},{1,2},{2,3},{3,4},{4,5},{0,5},{0,3}}};
static const std::vector<VVI> LO = {{{0,1,2},{0,3,1},{1,2,3},{0,1,2,3}}, {{0,1,2,3,4},{4,2,1,0},{2,3,4}}, {{1,2,3,4,5,0},{0,1,2,3},{3,4,5,0}}};
inline void setup(Case &C, int np, int graph, bool order = true) { std::cout.setstate(std::ios::failbit); auto &p = C.p; p.np = np; int n = graph == 0 ? 4 : graph == 1 ? 5 : 6; C.loops = LO[graph]; if (order && sx::flag("loops in the other order")) std::reverse(C.loops.begin(), C.loops.end());
  p.dummy = false; for (int v = 0; v < n; v++) C.own.push_back(np == 1 ? 0 : v == 0 && np == 2 && !sx::tier() ? 0 : np == 3 && !sx::tier() ? (v < 2 ? 1 + v % 2 : sx::choose("solid on", 3)) : sx::choose("solid on", np)); { int m = 0; for (int o : C.own) m |= 1 << o; sx::assume(m == (1 << np) - 1); } p.vm.assign(n, 0); for (int v = 0; v < n; v++) p.vm[v] = 1 << C.own[v]; for (auto e : GR[graph]) { p.vm[e.first] |= 1 << C.own[e.second]; p.vm[e.second] |= 1 << C.own[e.first]; }
  for (auto e : GR[graph]) { p.ed.push_back(e); p.know.push_back(p.vm[e.first] & p.vm[e.second]); } p.init(); for (int e = 0; e < p.ne(); e++) { C.fl.push_back(1.0 + 0.173 * e * e); C.w0.push_back(1.0 + e); C.w1.push_back(2.5 - 0.1 * e); } for (int v = 0; v < n; v++) { C.vw.push_back(0.5 * v); C.vol.push_back(1.0 + v); } }
// connected agglomerates of vertices that are solid on the same rank
inline void agg(Case &C) { auto &p = C.p; int n = p.nv(); auto &a = C.a; a.ctr.assign(n, -1); a.own = C.own; a.sv = true; VVI bl; for (int v = 0; v < n; v++) { VI opt; for (size_t b = 0; b < bl.size(); b++) if (C.own[bl[b][0]] == C.own[v]) opt.push_back(b); size_t k = opt.empty() ? 0 : sx::choose("agglomerate", opt.size() + 1); if (k == opt.size()) bl.push_back({v}); else bl[opt[k]].push_back(v); }
  for (auto &b : bl) { VI seen{b[0]}; for (size_t i = 0; i < seen.size(); i++) for (int u : b) if (std::find(seen.begin(), seen.end(), u) == seen.end()) for (auto &e : p.ed) if (e == PII(std::min(u, seen[i]), std::max(u, seen[i]))) { seen.push_back(u); break; } if (seen.size() != b.size()) sx::assume(false); int m = 0, c = -1; for (int v : b) m |= p.vm[v]; for (int v : b) if (p.vm[v] == m) { c = v; break; } if (c < 0) sx::assume(false); for (int v : b) a.ctr[v] = c; } }
inline shared_ptr<SM> mesh(Case &C, int r) { auto &p = C.p; auto M = p.build(r); int n = M->GetNN<NT_VERTEX>(), ne = M->GetNN<NT_EDGE>(); Array<SVD> vd(n); Array<SED> ed(ne); for (int k = 0; k < n; k++) { vd[k].vd = C.vw[p.vg[r][k]]; vd[k].vol = C.vol[p.vg[r][k]]; } auto E = M->GetNodes<NT_EDGE>(); for (int k = 0; k < ne; k++) { int e = p.eg[r][k]; bool sw = p.vg[r][E[k].v[0]] > p.vg[r][E[k].v[1]]; ed[k].edi = sw ? C.w1[e] : C.w0[e]; ed[k].edj = sw ? C.w0[e] : C.w1[e]; ed[k].flow = 0.0; ed[k].flow[0] = sw ? -C.fl[e] : C.fl[e]; if (!C.fm.empty()) ed[k].flow[1] = sw ? -C.fm[e] : C.fm[e]; }
  auto S = make_shared<SM>(std::move(*M), std::make_tuple(new AttachedSVD<SVD>(std::move(vd), CUMULATED), new AttachedSED<SED>(std::move(ed), CUMULATED))); p.m[r] = S; auto gv = make_shared<BitArray>(n); gv->Clear(); for (int k = 0; k < n; k++) if (C.own[p.vg[r][k]] != r) gv->SetBit(k); S->SetGhostVerts(gv);
  VVI lo, dp; for (auto &l : C.loops) { int ranks = 0; for (int v : l) ranks |= 1 << C.own[v]; if (!has(ranks, r)) continue; VI c; int m = l.size(); for (int i = 0; i < m; i++) { int x = l[i], y = l[(i + 1) % m]; for (int e = 0; e < p.ne(); e++) if (p.ed[e] == PII(std::min(x, y), std::max(x, y)) && p.el[r].count(e)) c.push_back(loopEncode(p.vl[r].at(x), p.vl[r].at(y), p.el[r].at(e))); } lo.push_back(c); dp.push_back(dps(ranks, r, p.np)); }
  auto tl = tab(lo), td = tab(dp); int cnt = 0; S->AddOrientedLoops(tl, td, [&](int k, int nk) { sx::check(k == cnt && nk == cnt, "loops keep their numbers"); cnt++; }); sx::check(cnt == (int)lo.size(), "all loops are numbered"); auto L = S->GetLoops(); sx::check(L.Size() == lo.size(), "number of loops"); for (size_t k = 0; k < lo.size(); k++) sx::check(vec(L[k]) == lo[k], "loops are taken over"); return S; }
}
