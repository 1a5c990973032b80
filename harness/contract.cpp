// PROPERTY: C16
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp base/coarsening/base_coarse.cpp base/coarsening/grid_contract.cpp base/coarsening/dof_contract.cpp base/coarsening/dof_map.cpp
// ASSUME: groups of ranks partition the communicator, members in ascending order and groups ordered by their first member (what PartitionProcsMETIS produces)
#include "meshchk.hpp"
#include "pargen.hpp"
#include <h1.hpp>
#include <h1_impl.hpp>
#include <grid_contract.hpp>
#include <dof_contract.hpp>
using namespace hx;
// set partitions of the ranks
static void parts(int np, int k, VVI cur, std::vector<VVI> &out) { if (k == np) { out.push_back(cur); return; } for (size_t i = 0; i < cur.size(); i++) { auto c = cur; c[i].push_back(k); parts(np, k + 1, c, out); } cur.push_back({k}); parts(np, k + 1, cur, out); }
static VVI pickgroups(int np) { std::vector<VVI> all; parts(np, 0, {}, all); return all[sx::choose("groups", all.size())]; }
static VI groupof(const VVI &g, int np) { VI o(np, -1); for (size_t i = 0; i < g.size(); i++) for (int r : g[i]) o[r] = i; return o; }
static int cmask(int m, const VI &of) { int o = 0; for (size_t r = 0; r < of.size(); r++) if (has(m, r)) o |= 1 << of[r]; return o; }

static void mesh(int np, int nv, bool data, bool oriented) { PMesh p; p.np = np; int ns = (1 << np) - 1, lo = 1; for (int k = 0; k < nv; k++) { int m = lo + sx::choose("sharing", ns - lo + 1); p.vm.push_back(m); if (!sx::tier() || np > 3) lo = m; }   // quick tier and 4 ranks: vertices ordered by sharing pattern
  edges(p, sx::choose("edges", sx::tier() ? 3 : 2), 0); p.init(); auto G = pickgroups(np); VI of = groupof(G, np); auto md = data && !sx::tier() ? fmpi::Mode{false, 0, false} : mmode(np); int ng = G.size();
  bool vcum = data && sx::flag("vertex data cumulated"), ecum = data && (sx::tier() ? sx::flag("edge data cumulated") : !vcum); std::vector<VD> w(np), we(np); if (data) for (int r = 0; r < np; r++) { auto val = [&](std::vector<VD> &w, const char *n, int k, int m, bool cum) { bool h = has(m, r); int f = __builtin_ctz(m); w[r].push_back(!h ? 0.0 : cum && f != r ? w[f][k] : sx::real(nm(n, r, k))); }; for (int k = 0; k < p.nv(); k++) val(w, "w", k, p.vm[k], vcum); for (int k = 0; k < p.ne(); k++) val(we, "e", k, p.em(k), ecum); }
  std::vector<shared_ptr<H1Mesh>> fm(np), cm(ng); std::vector<shared_ptr<AlgContractMap<H1Mesh>>> mp(np);
  fmpi::run(np, md, [&](int r) { auto M = p.build(r); Array<IVec<2,double>> vd(M->GetNN<NT_VERTEX>()); Array<double> ed(M->GetNN<NT_EDGE>()); for (size_t k = 0; k < vd.Size(); k++) { vd[k][0] = data ? w[r][p.vg[r][k]] : 0.0; vd[k][1] = 0; } for (size_t k = 0; k < ed.Size(); k++) ed[k] = data ? we[r][p.eg[r][k]] : 0.0;
    auto H = make_shared<H1Mesh>(std::move(*M), std::make_tuple(new H1VData(std::move(vd), vcum ? CUMULATED : DISTRIBUTED), new H1EData(std::move(ed), ecum ? CUMULATED : DISTRIBUTED))); p.m[r] = H; fm[r] = H;
    auto g = make_shared<AlgContractMap<H1Mesh>>(tab(G), H, oriented); auto C = g->GetMappedMesh(); mp[r] = g; bool master = G[of[r]][0] == r; sx::check(g->IsMaster() == master, "first member is the master of its group"); sx::check((C != nullptr) == master, "only masters get a mesh"); sx::check(vec(g->GetGroup()) == G[of[r]], "group"); if (master) { cm[of[r]] = dynamic_pointer_cast<H1Mesh>(C); sx::check(cm[of[r]] != nullptr, "mesh type"); } });
  PMesh c; c.np = ng; for (int m : p.vm) c.vm.push_back(cmask(m, of)); c.ed = p.ed; VI gm; for (int e = 0; e < p.ne(); e++) { c.know.push_back(0); gm.push_back(c.em(e)); } c.init();
  for (int q = 0; q < ng; q++) { auto &M = *cm[q]; c.m[q] = cm[q]; c.h[q] = cm[q]->GetEQCHierarchy(); auto &g = *mp[G[q][0]]; int n = M.GetNN<NT_VERTEX>(), ne = M.GetNN<NT_EDGE>(); c.vg[q].assign(n, -1); c.eg[q].assign(ne, -1); sx::check((int)c.h[q]->GetCommunicator().Size() == ng && (int)c.h[q]->GetCommunicator().Rank() == q, "communicator of the masters"); sx::check((int)g.GetMappedNN<NT_VERTEX>() == n && (int)g.GetMappedNN<NT_EDGE>() == ne, "mapped counts"); for (int r = 0; r < np; r++) sx::check(g.GetProcMap()[r] == of[r], "rank map");
    for (size_t k = 0; k < G[q].size(); k++) { int r = G[q][k]; auto vm = g.GetNodeMap<NT_VERTEX>(k); auto em = g.GetNodeMap<NT_EDGE>(k); sx::check(vm.Size() == p.vg[r].size() && em.Size() == p.eg[r].size(), "node map size");
      for (size_t i = 0; i < vm.Size(); i++) { int v = p.vg[r][i]; sx::check(vm[i] >= 0 && vm[i] < n && (c.vg[q][vm[i]] == -1 || c.vg[q][vm[i]] == v), "a contracted vertex stands for one vertex"); sx::check(!c.vl[q].count(v) || c.vl[q][v] == (int)vm[i], "all members map a vertex to the same contracted vertex"); c.vg[q][vm[i]] = v; c.vl[q][v] = vm[i]; }
      for (size_t i = 0; i < em.Size(); i++) { int e = p.eg[r][i]; sx::check(em[i] >= 0 && em[i] < ne && (c.eg[q][em[i]] == -1 || c.eg[q][em[i]] == e), "a contracted edge stands for one edge"); c.eg[q][em[i]] = e; c.el[q][e] = em[i]; auto E = M.GetNode<NT_EDGE>(em[i]); auto F = fm[r]->GetNode<NT_EDGE>(i); int a = vm[F.v[0]], b = vm[F.v[1]]; bool fl = a > b; sx::check(E.v[0] == std::min(a, b) && E.v[1] == std::max(a, b), "contracted edge joins the contracted vertices"); if (oriented) sx::check(g.GetFlipNodes<NT_EDGE>(k).Test(i) == fl, "flip bit: orientation changed"); } }
    for (int v : c.vg[q]) sx::check(v != -1, "every contracted vertex comes from a member");
    // edges that no member lists (both vertices in the group, joined on another rank)
    for (int k = 0; k < ne; k++) { auto E = M.GetNode<NT_EDGE>(k); sx::check(E.id == k && E.v[0] >= 0 && E.v[0] < E.v[1] && E.v[1] < n, "contracted edge"); int a = c.vg[q][E.v[0]], b = c.vg[q][E.v[1]]; if (a > b) std::swap(a, b); int id = -1; for (int e = 0; e < p.ne(); e++) if (p.ed[e] == PII(a, b)) id = e; sx::check(id >= 0 && (c.eg[q][k] == -1 || c.eg[q][k] == id), "contracted edges are edges"); c.eg[q][k] = id; sx::check(!c.el[q].count(id) || c.el[q][id] == k, "every edge once"); c.el[q][id] = k; } }
  checknum<NT_VERTEX>(c, c.vg, c.vm); checknum<NT_EDGE>(c, c.eg, gm);
  if (data) { auto tot = [&](std::vector<VD> &w, int k, int m, bool cum) { if (cum) return w[__builtin_ctz(m)][k]; double s = 0; for (int r = 0; r < np; r++) if (has(m, r)) s += w[r][k]; return s; };
    std::vector<VD> cw(ng), ce(ng); for (int q = 0; q < ng; q++) { auto V = get<0>(cm[q]->Data()); auto E = get<1>(cm[q]->Data()); sx::check(V->GetParallelStatus() == (vcum ? CUMULATED : DISTRIBUTED) && E->GetParallelStatus() == (ecum ? CUMULATED : DISTRIBUTED), "status of the data"); for (auto &x : V->Data()) cw[q].push_back(x[0]); for (double x : E->Data()) ce[q].push_back(x); sx::check((int)cw[q].size() == (int)c.vg[q].size() && ce[q].size() == c.eg[q].size(), "size of the data"); }
    for (int v = 0; v < p.nv(); v++) { double s = 0; for (int q = 0; q < ng; q++) if (has(c.vm[v], q)) { double x = cw[q][c.vl[q][v]]; if (vcum) sx::check_eq(x, tot(w, v, p.vm[v], true), "cumulated vertex data on every group"); s += x; } if (!vcum) sx::check_eq(s, tot(w, v, p.vm[v], false), "distributed vertex data: same sum"); }
    for (int e = 0; e < p.ne(); e++) { double s = 0; for (int q = 0; q < ng; q++) if (has(gm[e], q)) { double x = ce[q][c.el[q][e]]; if (ecum) sx::check_eq(x, tot(we, e, p.em(e), true), "cumulated edge data on every group"); s += x; } if (!ecum) sx::check_eq(s, tot(we, e, p.em(e), false), "distributed edge data: same sum"); } }
  sx::reach("end"); }
static int ranks() { return 1 + sx::choose("ranks", 3); }
SX_HARNESS(C16_mesh, "mesh with 3 vertices on 1 to 3 ranks (sharing patterns in ascending order), complete graph or path, every grouping of the ranks, oriented and not; two delivery schedules", 0) { bool o = sx::flag("oriented"); mesh(ranks(), 3, false, o); }
SX_HARNESS(C16_data, "as C16_mesh with H1 vertex and edge data attached, cumulated or distributed", 0) { mesh(ranks(), 3, true, false); }
SX_HARNESS(C16_mesh4, "4 ranks, 3 vertices, sharing patterns in ascending order", 1) { mesh(4, 3, false, false); }
SX_HARNESS(C16_data4, "4 ranks, 2 vertices, sharing patterns in ascending order, data attached", 1) { mesh(4, 2, true, false); }

// ---- dofs
template<class TV> static void dofs(int nd3, bool mat) { constexpr int B = VecHeight<TV>(); typedef typename CtrMap<TV>::TM TM; ParMat<TM> A; A.pick(nd3); PD &p = A.p; auto G = pickgroups(p.np); VI of = groupof(G, p.np); int np = p.np, ng = G.size(); bool rv = sx::flag("reverse numbering"); auto md = mmode(np);
  PD c; c.np = ng; c.nd = p.nd; c.es = B; for (int m : p.m) c.m.push_back(cmask(m, of)); c.init(); if (rv) for (int q = 0; q < ng; q++) { int n = c.g[q].size(); VI h(c.g[q].rbegin(), c.g[q].rend()); c.g[q] = h; for (int i = 0; i < n; i++) c.l[q][h[i]] = i; }
  if (mat) A.fill(); int what = mat ? 4 : sx::choose("transfer", 4); PVec x, y; double fac = what & 1 ? sx::real("fac") : 1.0; if (!mat) { x.fill(p, "x", sx::flag("fine cumulated")); y.fill(c, "y", sx::flag("coarse cumulated")); }
  std::vector<VD> out(np); VI st(np, -1); MD am(p.nd * B, VD(p.nd * B, 0.0));
  fmpi::run(np, md, [&](int r) { auto pd = p.mk(r); int q = of[r]; bool master = G[q][0] == r; Array<int> mem(ng); for (int i = 0; i < ng; i++) mem[i] = G[i][0]; auto w = fmpi::world(); auto cc = w.CreateSubCommunicatorGlobal(mem); shared_ptr<ParallelDofs> cpd; Table<int> maps; if (master) { VVI t; for (int d : c.g[q]) t.push_back(dps(c.m[d], q, ng)); cpd = make_shared<ParallelDofs>(cc, tab(t), B); VVI m; for (int k : G[q]) { VI row; for (int d : p.g[k]) row.push_back(c.l[q][d]); m.push_back(row); } maps = tab(m); }
    Array<int> grp(G[q].size()); for (size_t i = 0; i < G[q].size(); i++) grp[i] = G[q][i]; auto M = make_shared<CtrMap<TV>>(UniversalDofs(pd), master ? UniversalDofs(cpd) : UniversalDofs(), std::move(grp), std::move(maps)); sx::check(M->IsMaster() == master && M->GetBlockSize() == B && M->GetMappedBlockSize() == B, "map");
    if (mat) { auto C = dynamic_pointer_cast<SparseMatrix<TM>>(M->AssembleMatrix(A.loc(r))); sx::check((C != nullptr) == master, "only masters get a matrix"); if (master) { int n = c.g[q].size(); sx::check((int)C->Height() == n && (int)C->Width() == n, "size of the contracted matrix"); for (int i = 0; i < n; i++) { auto ri = C->GetRowIndices(i); auto rvv = C->GetRowValues(i); for (int k = 0; k < (int)ri.Size(); k++) { sx::check(ri[k] >= 0 && ri[k] < n && (!k || ri[k - 1] < ri[k]), "columns ascending"); bool any = false; for (int m : G[q]) any |= A.on(m, c.g[q][i], c.g[q][ri[k]]) ; sx::check(any, "entries come from a member"); for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) am[c.g[q][i] * B + a][c.g[q][ri[k]] * B + b] += ent(rvv[k], a, b); } } } return; }
    M->SetUpMPIStuff(); for (int rep = 0; rep < 2; rep++) { auto f = x.mk(p, r, pd); shared_ptr<BaseVector> cv; if (master) cv = y.mk(c, q, cpd); BaseVector *cp = cv.get();
      if (what == 0) M->TransferF2C(f.get(), cp); else if (what == 1) M->AddF2C(fac, f.get(), cp); else if (what == 2) M->TransferC2F(f.get(), cp); else M->AddC2F(fac, f.get(), cp);
      if (rep == 0) continue; if (what < 2) { if (master) { st[r] = cv->GetParallelStatus(); for (double d : cv->FVDouble()) out[r].push_back(d); } } else { st[r] = f->GetParallelStatus(); for (double d : f->FVDouble()) out[r].push_back(d); } } });
  if (mat) { auto g = A.global(); for (int i = 0; i < p.nd * B; i++) for (int j = 0; j < p.nd * B; j++) sx::check_eq(am[i][j], g[i][j], "contracted matrix: same sum of contributions"); sx::reach("end"); return; }
  VD gx = x.global(p), gy = y.global(c); for (int i = 0; i < p.nd * B; i++) { int d = i / B; if (what < 2) { double s = 0; for (int q = 0; q < ng; q++) { int r = G[q][0]; if (!has(c.m[d], q)) continue; double v = out[r][c.l[q][d] * B + i % B]; if (st[r] == CUMULATED) { s = v; } else s += v; } sx::check_eq(s, what == 0 ? gx[i] : gy[i] + fac * gx[i], what == 0 ? "restriction: value of the fine dof" : "adding restriction"); }
    else for (int r = 0; r < np; r++) if (has(p.m[d], r)) { sx::check(st[r] == CUMULATED, "prolongated vector is cumulated"); sx::check_eq(out[r][p.l[r][d] * B + i % B], what == 2 ? gy[i] : gx[i] + fac * gy[i], what == 2 ? "prolongation: value of the coarse dof" : "adding prolongation"); } }
  sx::reach("end"); }
SX_HARNESS(C16_dof, "contraction of 3 scalar dofs on 1 to 3 ranks (3 ranks: the first dof shared by one of three sets), every grouping, contracted dofs numbered in either order, cumulated and distributed vectors, each transfer twice; all real values", 0) { dofs<double>(sx::tier() ? 3 : 2, false); }
SX_HARNESS(C16_dof_b, "as C16_dof with 2 dofs of entry size 2", 1) { dofs<Vec<2,double>>(2, false); }
SX_HARNESS(C16_mat, "matrix contraction: 3 scalar dofs (2 in the quick tier) on 1 to 3 ranks, full or sparse local matrices, every grouping; all real values", 0) { dofs<double>(sx::tier() ? 3 : 2, true); }
SX_HARNESS(C16_mat_b, "as C16_mat with 2x2 entries", 0) { dofs<Vec<2,double>>(2, true); }
