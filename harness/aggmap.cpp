// PROPERTY: C11
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp base/coarsening/base_coarse.cpp
// ASSUME: the agglomerates handed to the map are ones the map documents as admissible: the ranks sharing a member also share the centre; without solid vertices centre and members have the same master rank, which holds the agglomerate; with solid vertices the holder is a rank sharing all members
#include "aggs.hpp"
#include <h1.hpp>
#include <h1_impl.hpp>
using namespace hx;
// coarse mesh on all ranks, as the images of the fine mesh
static void cmap(const PMesh &p, const Aggs &a, PMesh &c, std::vector<shared_ptr<BlockTM>> &cm, VVI &vmap, VVI &emap) { c.np = p.np; c.dummy = p.dummy; c.init(); c.h = p.h; c.m = cm; c.vm.assign(p.nv(), 0); for (int v = 0; v < p.nv(); v++) if (a.ctr[v] == v) c.vm[v] = p.vm[v]; std::map<PII,int> cid; VI fe(p.ne(), -1); for (int e = 0; e < p.ne(); e++) { int x = a.ctr[p.ed[e].first], y = a.ctr[p.ed[e].second]; if (x < 0 || y < 0 || x == y) continue; if (x > y) std::swap(x, y); if (!cid.count({x, y})) { cid[{x, y}] = c.ed.size(); c.ed.push_back({x, y}); } fe[e] = cid[{x, y}]; }
  for (int r = 0; r < p.np; r++) { int n = p.vg[r].size(), nc = 0; for (int v = 0; v < p.nv(); v++) if (c.vm[v] && has(c.vm[v], r)) nc++; sx::check((int)vmap[r].size() == n, "vertex map length"); c.vg[r].assign(nc, -1); for (int k = 0; k < n; k++) { int g = a.ctr[p.vg[r][k]], l = vmap[r][k]; sx::check((l == -1) == (g == -1) && l >= -1 && l < nc, "exactly the vertices in agglomerates are mapped, onto the coarse vertices of the rank"); if (l < 0) continue; sx::check(c.vg[r][l] == -1 || c.vg[r][l] == g, "vertices of different agglomerates to different coarse vertices"); c.vg[r][l] = g; if (c.vl[r].count(g)) sx::check(c.vl[r][g] == l, "all vertices of an agglomerate to one coarse vertex"); c.vl[r][g] = l; } for (int k = 0; k < nc; k++) sx::check(c.vg[r][k] >= 0, "every coarse vertex is the image of some vertex");
    auto E = c.m[r]->GetNodes<NT_EDGE>(); int ne = 0; for (int e = 0; e < c.ne(); e++) if (has(c.em(e), r)) ne++; sx::check((int)E.Size() == ne, "number of coarse edges"); c.eg[r].assign(ne, -1); for (int k = 0; k < ne; k++) { int x = c.vg[r].at(E[k].v[0]), y = c.vg[r].at(E[k].v[1]); if (x > y) std::swap(x, y); sx::check(E[k].id == k && cid.count({x, y}), "coarse edges join agglomerates that a fine edge joins"); int e = cid[{x, y}]; sx::check(!c.el[r].count(e), "coarse edges are distinct"); c.eg[r][k] = e; c.el[r][e] = k; }
    sx::check(emap[r].size() == p.eg[r].size(), "edge map length"); for (size_t k = 0; k < emap[r].size(); k++) { int e = fe[p.eg[r][k]]; sx::check(e < 0 ? emap[r][k] == -1 : (emap[r][k] >= 0 && emap[r][k] < ne && c.eg[r][emap[r][k]] == e), "edge map: to the coarse edge of its end points, -1 within an agglomerate"); } } }
template<NODE_TYPE NT> static void c2f(const BaseCoarseMap &m, const VI &f) { auto t = m.GetMapC2F<NT>(); size_t s = 0, w = 0; for (int x : f) if (x >= 0) w++; sx::check(t.Size() == m.GetMappedNN<NT>(), "reverse map size"); for (size_t k = 0; k < t.Size(); k++) for (size_t j = 0; j < t[k].Size(); j++) { s++; sx::check(f[t[k][j]] == (int)k && (!j || t[k][j-1] < t[k][j]), "reverse map lists the preimages"); } sx::check(s == w, "reverse map complete"); }
static PMesh small() { PMesh p; int c = sx::choose("ranks", 4); p.dummy = c == 0; p.np = c == 0 ? 1 : c; int nv = p.np < 3 && sx::tier() ? 4 : 3; int nm = (1 << p.np) - 1, kind = p.np == 3 && !sx::tier() ? 0 : sx::choose("edges", 2); for (int i = 0; i < nv; i++) p.vm.push_back(p.np == 3 && !sx::tier() && i ? (int[]){7, 3, 6}[sx::choose("sharing", 3)] : 1 + sx::choose("sharing", nm)); edges(p, kind, 0); p.init(); return p; }

struct Run { PMesh p, c; Aggs a; VVI vm, em; };
static void onelevel(bool sv, bool data) { Run R; auto &p = R.p; p = small(); R.a = anyaggs(p, sv); fmpi::Mode md{false, 0, false}; if (p.np > 1) md = mmode(p.np); R.vm.resize(p.np); R.em.resize(p.np); std::vector<shared_ptr<BaseCoarseMap>> mp(p.np); std::vector<shared_ptr<BlockTM>> cm(p.np), fm(p.np); int np = p.np;
  std::vector<VD> w0(np), w1(np), we(np), c0(np), c1(np), ce(np), f0(np), fe(np); bool vcum = data && sx::flag("vertex data cumulated"), ecum = data && (sx::tier() ? sx::flag("edge data cumulated") : !vcum);
  if (data) for (int r = 0; r < np; r++) { for (int k = 0; k < p.nv(); k++) { bool h = has(p.vm[k], r), first = __builtin_ctz(p.vm[k]) == r; w0[r].push_back(!h ? 0.0 : vcum && !first ? w0[__builtin_ctz(p.vm[k])][k] : sx::real(nm("w", r, k))); w1[r].push_back(!h ? 0.0 : vcum && !first ? w1[__builtin_ctz(p.vm[k])][k] : sx::real(nm("u", r, k))); } for (int k = 0; k < p.ne(); k++) { bool h = has(p.em(k), r), first = __builtin_ctz(p.em(k)) == r; we[r].push_back(!h ? 0.0 : ecum && !first ? we[__builtin_ctz(p.em(k))][k] : sx::real(nm("e", r, k))); } }
  fmpi::run(np, md, [&](int r) { auto M = p.build(r); Array<IVec<2,double>> vd(M->GetNN<NT_VERTEX>()); Array<double> ed(M->GetNN<NT_EDGE>()); if (data) { for (size_t k = 0; k < vd.Size(); k++) { vd[k][0] = w0[r][p.vg[r][k]]; vd[k][1] = w1[r][p.vg[r][k]]; } for (size_t k = 0; k < ed.Size(); k++) ed[k] = we[r][p.eg[r][k]]; } else { vd = 0.0; ed = 0.0; }
    auto H = make_shared<H1Mesh>(std::move(*M), std::make_tuple(new H1VData(std::move(vd), vcum ? CUMULATED : DISTRIBUTED), new H1EData(std::move(ed), ecum ? CUMULATED : DISTRIBUTED))); p.m[r] = H; fm[r] = H; auto g = mk<H1Mesh>(H, p, R.a, r); if (sv) { auto s = make_shared<BitArray>(p.vg[r].size()); s->Set(); g->SetSolidVerts(s); } auto C = dynamic_pointer_cast<H1Mesh>(g->GetMappedMesh()); cm[r] = C; for (int x : g->GetMap<NT_VERTEX>()) R.vm[r].push_back(x); for (int x : g->GetMap<NT_EDGE>()) R.em[r].push_back(x); mp[r] = g;
    for (size_t k = 0; k < p.vg[r].size(); k++) { int v = p.vg[r][k]; sx::check(g->GetAggCenter()->Test(k) == (R.a.ctr[v] == v && R.a.own[v] == r), "centres"); }
    if (data) { C->CumulateData(); for (auto &x : get<0>(C->Data())->Data()) { c0[r].push_back(x[0]); c1[r].push_back(x[1]); } for (auto &x : get<1>(C->Data())->Data()) ce[r].push_back(x); } });
  auto &c = R.c; cmap(p, R.a, c, cm, R.vm, R.em); VI gm; for (int e = 0; e < c.ne(); e++) gm.push_back(c.em(e)); checknum<NT_VERTEX>(c, c.vg, c.vm); checknum<NT_EDGE>(c, c.eg, gm); for (int r = 0; r < np; r++) { c2f<NT_VERTEX>(*mp[r], R.vm[r]); c2f<NT_EDGE>(*mp[r], R.em[r]); }
  if (data) { auto tot = [&](std::vector<VD> &w, int k, int m, bool cum) { if (cum) return w[__builtin_ctz(m)][k]; double s = 0; for (int r = 0; r < np; r++) if (has(m, r)) s += w[r][k]; return s; };
    for (int r = 0; r < np; r++) { for (size_t k = 0; k < c.vg[r].size(); k++) { int g = c.vg[r][k]; double s = 0, t = 0; for (int v = 0; v < p.nv(); v++) if (R.a.ctr[v] == g) { s += tot(w0, v, p.vm[v], vcum); t += tot(w1, v, p.vm[v], vcum); } for (int e = 0; e < p.ne(); e++) { int x = R.a.ctr[p.ed[e].first], y = R.a.ctr[p.ed[e].second]; if ((x == g && y == -1) || (y == g && x == -1)) s += tot(we, e, p.em(e), ecum); } sx::check_eq(c0[r][k], s, "coarse vertex weight: vertices of the agglomerate and edges to vertices without agglomerate"); sx::check_eq(c1[r][k], t, "coarse vertex data: sum over the agglomerate"); }
      for (size_t k = 0; k < c.eg[r].size(); k++) { PII pr = c.ed[c.eg[r][k]]; double s = 0; for (int e = 0; e < p.ne(); e++) { int x = R.a.ctr[p.ed[e].first], y = R.a.ctr[p.ed[e].second]; if (x > y) std::swap(x, y); if (PII(x, y) == pr) s += tot(we, e, p.em(e), ecum); } sx::check_eq(ce[r][k], s, "coarse edge weight: sum over the fine edges joining the agglomerates"); } } }
  sx::reach("end"); }
SX_HARNESS(C11_aggsv, "agglomerate maps on 1, 2 and 3 ranks and sequential: 3 vertices (thorough: 4 on 1 and 2 ranks) with every sharing pattern (3 ranks: a selection), complete graph or path, every admissible agglomeration with vertices left out, either order of the agglomerates, agglomerates held by any rank that shares all members (solid vertices)", 0) { onelevel(true, false); }
SX_HARNESS(C11_agg, "as C11_aggsv, agglomerates held by the master of the centre, with H1 vertex and edge weights attached, symbolic, cumulated or distributed", 0) { onelevel(false, true); }
class MapX : public BaseCoarseMap { public: MapX(const VI &v, const VI &e, int n, int m) : BaseCoarseMap(nullptr) { for (int i = 0; i < 4; i++) NN[i] = mapped_NN[i] = 0; NN[0] = v.size(); NN[1] = e.size(); mapped_NN[0] = n; mapped_NN[1] = m; for (int x : v) node_maps[0].Append(x); for (int x : e) node_maps[1].Append(x); } };
SX_HARNESS(C11_conc, "concatenation of two coarse maps: 4 to 3 to 2 vertices and 3 to 2 to 1 edges, every pair of maps", 0) { auto pick = [](const char *s, int n, int m) { VI v; for (int i = 0; i < n; i++) { int x = sx::integer(nm(s, i), -1, m - 1); v.push_back(x); } return v; }; bool ed = sx::flag("edges"); VI a = pick("a", ed ? 3 : 4, ed ? 2 : 3), b = pick("b", ed ? 2 : 3, ed ? 1 : 2), z; auto A = make_shared<MapX>(ed ? z : a, ed ? a : z, ed ? 0 : 3, ed ? 2 : 0), B = make_shared<MapX>(ed ? z : b, ed ? b : z, ed ? 0 : 2, ed ? 1 : 0); auto C = A->Concatenate(B); auto chk = [&](auto M) { sx::check((int)M.Size() == (int)a.size(), "length"); for (size_t k = 0; k < M.Size(); k++) { int m = a[k]; sx::check(M[k] == (m < 0 ? -1 : b[m]), "composition"); } }; if (ed) { chk(C->GetMap<NT_EDGE>()); c2f<NT_EDGE>(*C, vec(C->GetMap<NT_EDGE>())); } else { chk(C->GetMap<NT_VERTEX>()); c2f<NT_VERTEX>(*C, vec(C->GetMap<NT_VERTEX>())); } sx::check(C->GetNN<NT_VERTEX>() == (ed ? 0u : 4u) && C->GetMappedNN<NT_VERTEX>() == (ed ? 0u : 2u) && C->GetNN<NT_EDGE>() == (ed ? 3u : 0u) && C->GetMappedNN<NT_EDGE>() == (ed ? 1u : 0u), "sizes"); sx::reach("end"); }
