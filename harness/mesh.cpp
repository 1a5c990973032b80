// PROPERTY: C11
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp
#include "meshchk.hpp"
using namespace hx;
static PMesh anymesh(bool full) { PMesh p; int c = sx::choose("ranks", 4); p.dummy = c == 0; p.np = c == 0 ? 1 : c; int nv = p.np == 3 ? 3 : 4; int nm = (1 << p.np) - 1; int kind = !full ? 0 : sx::choose("edges", p.np == 3 && !sx::tier() ? 2 : 4), who = p.np == 1 || !full ? 0 : sx::choose("listed by", sx::tier() ? 3 : 2) * (sx::tier() ? 1 : 2); for (int i = 0; i < nv; i++) p.vm.push_back(1 + sx::choose("sharing", nm)); edges(p, kind, who); p.init(); return p; }
SX_HARNESS(C11_mesh, "block meshes on 1, 2 and 3 ranks and sequential: 4 vertices (3 for 3 ranks) with every sharing pattern, complete, path, star and empty edge sets, each edge listed by all, the lowest or the highest rank sharing it", 0) {
  auto p = anymesh(true); fmpi::Mode md{false, 0, false}; if (p.np > 1) md = mmode(p.np); fmpi::run(p.np, md, [&](int r) { p.build(r); }); VI em; for (int e = 0; e < p.ne(); e++) em.push_back(p.em(e)); checknum<NT_VERTEX>(p, p.vg, p.vm); checknum<NT_EDGE>(p, p.eg, em);
  for (int r = 0; r < p.np; r++) { auto C = p.m[r]->GetEdgeCM(); int n = p.vg[r].size(); sx::check((int)C->Height() == n && (int)C->Width() == n, "connectivity size"); size_t nz = 0; for (int i = 0; i < n; i++) { auto ri = C->GetRowIndices(i); nz += ri.Size(); for (size_t j = 0; j < ri.Size(); j++) { sx::check(!j || ri[j-1] < ri[j], "connectivity rows ascending"); int id = int(C->GetRowValues(i)[j]); auto ed = p.m[r]->GetNode<NT_EDGE>(id); sx::check((ed.v[0] == i && ed.v[1] == ri[j]) || (ed.v[1] == i && ed.v[0] == ri[j]), "connectivity names the edge"); } } sx::check(nz == 2 * p.eg[r].size(), "connectivity complete"); int a = 0; if (p.h[r]->GetNEQCS()) { p.m[r]->Apply<NT_EDGE>([&](const auto &e) { a++; }, true); for (int k = 0; k < (int)p.eg[r].size(); k++) if (__builtin_ctz(em[p.eg[r][k]]) == r) a--; sx::check(a == 0, "master loop visits the edges of which the rank is master"); } }
  sx::reach("end"); }
SX_HARNESS(C11_data, "nodal data on block meshes: scatter from the master, reduction, cumulating and distributing attached data, meshes sent to another rank; symbolic values", 0) {
  auto p = anymesh(sx::tier()); fmpi::Mode md{false, 0, false}; if (p.np > 1) md = mmode(p.np); int what = sx::choose("what", 4); std::vector<VD> v(p.np), e(p.np), vo(p.np), eo(p.np); for (int r = 0; r < p.np; r++) { for (int k = 0; k < p.nv(); k++) v[r].push_back(sx::real(nm("v", r, k))); for (int k = 0; k < p.ne(); k++) e[r].push_back(sx::real(nm("e", r, k))); } std::vector<shared_ptr<BlockTM>> got(p.np); std::vector<int> st(p.np);
  fmpi::run(p.np, md, [&](int r) { auto M = p.build(r); Array<double> a, b; for (int k : p.vg[r]) a.Append(v[r][k]); for (int k : p.eg[r]) b.Append(e[r][k]); if (what == 0) { M->ScatterNodalData<NT_VERTEX>(a); M->ScatterNodalData<NT_EDGE>(b); } else if (what == 1) { auto red = [](auto &t) { return sum_table(t); }; M->AllreduceNodalData<NT_VERTEX>(a, red); M->AllreduceNodalData<NT_EDGE>(b, [](auto &t) { return sum_table(t); }); }
    else if (what == 2) { AttachedNodeData<NT_VERTEX, double> A(std::move(a), DISTRIBUTED); AttachedNodeData<NT_EDGE, double> B(std::move(b), CUMULATED); A.SetMesh(M.get()); B.SetMesh(M.get()); A.Cumulate(); A.Cumulate(); B.Distribute(); st[r] = A.GetParallelStatus() == CUMULATED && B.GetParallelStatus() == DISTRIBUTED; a = Array<double>(A.Data()); b = Array<double>(B.Data()); }
    else if (p.np > 1) { auto c = fmpi::world(); if (r == 0) c.Recv(got[r], p.np - 1, 5); else if (r == p.np - 1) c.Send(M, 0, 5); }
    for (auto x : a) vo[r].push_back(x); for (auto x : b) eo[r].push_back(x); });
  auto chk = [&](int r, const VI &g, auto gm, const std::vector<VD> &in, const VD &out, bool isv) { for (size_t k = 0; k < g.size(); k++) { int m = gm(g[k]), ma = __builtin_ctz(m); double s = 0; for (int q = 0; q < p.np; q++) if (has(m, q)) s += in[q][g[k]]; double w = what == 0 ? in[ma][g[k]] : what == 1 ? s : what == 2 ? (isv ? s : r == ma ? in[r][g[k]] : 0.0) : in[r][g[k]]; sx::check_eq(out[k], w, what == 0 ? "value of the master" : what == 3 ? "untouched" : "reduced value"); } };
  for (int r = 0; r < p.np; r++) { chk(r, p.vg[r], [&](int k) { return p.vm[k]; }, v, vo[r], true); chk(r, p.eg[r], [&](int k) { return p.em(k); }, e, eo[r], false); if (what == 2) sx::check(st[r], "status"); }
  if (what == 3 && p.np > 1) { auto &G = *got[0]; auto &M = *p.m[p.np - 1]; sx::check(G.GetNN<NT_VERTEX>() == M.GetNN<NT_VERTEX>() && G.GetNN<NT_EDGE>() == M.GetNN<NT_EDGE>() && G.GetNNGlobal<NT_EDGE>() == M.GetNNGlobal<NT_EDGE>() && G.GetNEqcs() == M.GetNEqcs(), "sent mesh: counts"); for (size_t k = 0; k < M.GetNN<NT_EDGE>(); k++) sx::check(G.GetNode<NT_EDGE>(k) == M.GetNode<NT_EDGE>(k), "sent mesh: edges"); for (size_t k = 0; k < M.GetNN<NT_VERTEX>(); k++) sx::check(G.GetEQCOfNode<NT_VERTEX>(k) == M.GetEQCOfNode<NT_VERTEX>(k), "sent mesh: classes"); for (size_t k = 0; k < M.GetNN<NT_EDGE>(); k++) sx::check(G.GetEQCOfNode<NT_EDGE>(k) == M.GetEQCOfNode<NT_EDGE>(k) && G.MapNodeToEQC<NT_EDGE>(k) == M.MapNodeToEQC<NT_EDGE>(k), "sent mesh: edge classes"); }
  sx::reach("end"); }
