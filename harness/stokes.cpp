// PROPERTY: C20
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp base/coarsening/base_coarse.cpp base/coarsening/grid_contract.cpp base/coarsening/dof_contract.cpp base/coarsening/dof_map.cpp base/utils/utils.cpp stokes/common/loop_utils.cpp
// ASSUME: every rank has a solid vertex; every vertex is solid on exactly one rank, which knows all its edges; loops are closed and simple and known to exactly the ranks with a solid vertex on them; agglomerates are connected, consist of vertices that are solid on one rank, cover all vertices, and the ranks that know a member know the centre
#include "stokesgen.hpp"
#include <set>
using namespace hx;
// the loops of a mesh, as chains of edges between global vertices, and the ranks that share them
struct Part { std::vector<CH> ch; VVI dp; VI act; };
static Part part(const SM &M, const VI &vg) { Part P; auto L = M.GetLoops(); auto E = M.GetNodes<NT_EDGE>(); for (size_t k = 0; k < L.Size(); k++) { CH c; for (int s : L[k]) { auto [o, e] = loopDecode(s); sx::check(e >= 0 && e < (int)E.Size(), "edges of a loop exist"); int x = vg[E[e].v[0]], y = vg[E[e].v[1]]; if (o == NEGATIVE) std::swap(x, y); sx::check(!c.count({std::min(x, y), std::max(x, y)}), "a loop has an edge once"); addch(c, x, y); } P.ch.push_back(c); P.dp.push_back(vec(M.GetLoopUDofs().GetDistantProcs(k))); if (M.GetActiveLoops()) P.act.push_back(M.GetActiveLoops()->Test(k)); } return P; }
struct Glob { CH ch; std::map<int,int> num; int act = -1; };   // num: number on every rank that has it
static std::vector<Glob> join(std::vector<Part> &P) { int np = P.size(); std::vector<std::vector<std::map<int,int>>> id(np); std::map<std::pair<int,int>,int> key; std::vector<PII> all; std::vector<int> rep; auto find = [&](int x) { while (rep[x] != x) x = rep[x]; return x; }; for (int r = 0; r < np; r++) for (size_t k = 0; k < P[r].ch.size(); k++) { key[{r, (int)k}] = all.size(); rep.push_back(all.size()); all.push_back({r, (int)k}); }
  for (int r = 0; r < np; r++) for (int q = r + 1; q < np; q++) { VI a, b; for (size_t k = 0; k < P[r].dp.size(); k++) for (int d : P[r].dp[k]) if (d == q) a.push_back(k); for (size_t k = 0; k < P[q].dp.size(); k++) for (int d : P[q].dp[k]) if (d == r) b.push_back(k); sx::check(a.size() == b.size(), "two ranks share the same number of loops"); for (size_t i = 0; i < a.size(); i++) rep[find(key[{r, a[i]}])] = find(key[{q, b[i]}]); }
  std::map<int,Glob> G; for (size_t i = 0; i < all.size(); i++) { auto &g = G[find(i)]; int r = all[i].first, k = all[i].second; sx::check(!g.num.count(r), "a rank has a loop once"); g.num[r] = k; for (auto &x : P[r].ch[k]) { if (g.ch.count(x.first)) sx::check(g.ch[x.first] == x.second, "ranks agree on the direction of a loop"); g.ch[x.first] = x.second; } if (!P[r].act.empty()) { sx::check(g.act < 0 || g.act == P[r].act[k], "ranks agree on whether a loop is active"); g.act = P[r].act[k]; } }
  std::vector<Glob> o; for (auto &x : G) { for (auto &n : x.second.num) { VI w; for (auto &m : x.second.num) if (m.first != n.first) w.push_back(m.first); sx::check(P[n.first].dp[n.second] == w, "the ranks of a loop are those that have it"); } o.push_back(x.second); } return o; }
static bool cycle(const CH &c) { std::map<int,int> nx, in; for (auto &x : c) { int a = x.first.first, b = x.first.second; if (x.second < 0) std::swap(a, b); if (x.second != 1 && x.second != -1) return false; if (nx.count(a) || in.count(b)) return false; nx[a] = b; in[b] = a; } if (c.size() < 3) return false; int v = nx.begin()->first, n = 0; do { if (!nx.count(v)) return false; v = nx[v]; n++; } while (v != nx.begin()->first && n <= (int)c.size()); return n == (int)c.size(); }
// rank of a set of chains over the rationals (small integers: a prime field will do)
static int rk(std::vector<CH> v) { const long p = 10007; std::vector<std::map<PII,long>> m; for (auto &c : v) { std::map<PII,long> x; for (auto &k : c) x[k.first] = (k.second % p + p) % p; m.push_back(x); } int r = 0; while (!m.empty()) { auto x = m.back(); m.pop_back(); while (!x.empty() && !x.begin()->second) x.erase(x.begin()); if (x.empty()) continue; r++; PII k = x.begin()->first; long iv = 1; for (long e = p - 2, b = x.begin()->second; e; e >>= 1, b = b * b % p) if (e & 1) iv = iv * b % p; for (auto &y : m) if (y.count(k)) { long f = y[k] * iv % p; for (auto &z : x) { long &t = y[z.first]; t = (t + (p - f) * z.second) % p; } for (auto it = y.begin(); it != y.end();) it = it->second ? std::next(it) : y.erase(it); } } return r; }
static fmpi::Mode md(int np) { fmpi::Mode m{false, 0, false}; if (np > 1) m = mmode(np); return m; }
typedef std::pair<double,double> PDD;
static const double FM[] = {0.75, 1.875, -0.75, 3.9375, -1.875, 7.96875, -3.9375};   // 1 + FM * FM is a square
static void adf(PDD &x, Case &C, int e, bool pos) { x.first += pos ? C.fl[e] : -C.fl[e]; x.second += pos ? C.fm[e] : -C.fm[e]; }
static void coarse(Case &C) { auto &p = C.p; int ff = sx::choose("flows", 3); if (ff) for (auto &f : C.fl) f = 1.0; for (int e = 0; e < p.ne(); e++) C.fm.push_back(ff == 2 ? FM[e] : 0.0); auto &a = C.a; int np = p.np; std::vector<Part> F(np), P(np); VVI cv(np); std::vector<std::map<PII,PDD>> cf(np); std::vector<std::map<int,int>> gh(np); std::vector<std::map<int,double>> vol(np);
  fmpi::run(np, md(np), [&](int r) { auto S = mesh(C, r); F[r] = part(*S, p.vg[r]); auto g = make_shared<GivenSMap<SM>>(S, &p, &a, r); AggOptions o; g->InitializeAgg(o, 0); auto sv = make_shared<BitArray>(*S->GetGhostVerts()); sv->Invert(); if (np > 1) g->SetSolidVerts(sv); auto cm = dynamic_pointer_cast<SM>(g->GetMappedMesh()); g->MapAdditionalDataB(); auto vm = g->GetMap<NT_VERTEX>(); VI gv(cm->GetNN<NT_VERTEX>(), -1); for (size_t k = 0; k < vm.Size(); k++) { sx::check(vm[k] >= 0, "all vertices are mapped"); gv[vm[k]] = a.ctr[p.vg[r][k]]; }
    { auto B = S->LoopBlocks(*g); auto L = S->GetLoops(); auto em = g->GetMap<NT_EDGE>(); std::map<int,std::set<int>> want; std::set<std::set<int>> wb, gb; bool any = false; for (size_t l = 0; l < L.Size(); l++) { bool in = true; for (int x : L[l]) if (em[std::abs(x) - 1] != -1) { want[em[std::abs(x) - 1]].insert(l); in = false; } if (in) wb.insert(std::set<int>{(int)l}); } for (auto &x : want) { wb.insert(x.second); any |= x.second.size() > 1; } for (size_t b = 0; b < B.Size(); b++) { std::set<int> t(B[b].begin(), B[b].end()); sx::check(t.size() == B[b].Size(), "a loop once in a block"); gb.insert(t); } sx::check(any ? gb == wb : B.Size() == 0, "blocks of loops: those through a coarse edge, loops inside an agglomerate alone"); }
    P[r] = part(*cm, gv); cv[r] = gv; cm->CumulateData(); auto E = cm->GetNodes<NT_EDGE>(); auto ed = get<1>(cm->Data())->Data(); auto vd = get<0>(cm->Data())->Data(); for (size_t k = 0; k < E.Size(); k++) { int x = gv[E[k].v[0]], y = gv[E[k].v[1]]; cf[r][{std::min(x, y), std::max(x, y)}] = x < y ? PDD(ed[k].flow[0], ed[k].flow[1]) : PDD(-ed[k].flow[0], -ed[k].flow[1]); } for (size_t k = 0; k < gv.size(); k++) { gh[r][gv[k]] = cm->GetGhostVerts()->Test(k); vol[r][gv[k]] = vd[k].vol; }
    auto [de, d2e, e2d] = cm->GetDOFedEdges(); int c = 0; for (size_t k = 0; k < E.Size(); k++) { bool on = !cm->GetGhostVerts()->Test(E[k].v[0]) || !cm->GetGhostVerts()->Test(E[k].v[1]); sx::check(de->Test(k) == on && e2d[k] == (on ? c : -1), "edges with a solid vertex have a dof"); if (on) { sx::check(d2e[c] == (int)k, "dofs point back to edges"); c++; } } sx::check((int)d2e.Size() == c, "number of edge dofs"); });
  join(F); auto G = join(P); std::vector<CH> gc, all; for (auto &g : G) { sx::check(cycle(g.ch), "a coarse loop is a simple closed loop of at least three edges"); for (auto &x : g.ch) for (int r = 0; r < np; r++) { auto k = [&](int v) { return std::find(cv[r].begin(), cv[r].end(), v) != cv[r].end(); }; bool dof = C.own[x.first.first] == r || C.own[x.first.second] == r; if (dof) sx::check(g.num.count(r), "a rank with a dof on a coarse loop has the loop"); if (g.num.count(r)) sx::check(P[r].ch[g.num[r]].count(x.first) == (k(x.first.first) && k(x.first.second)), "the part of a rank consists of all edges it knows"); } gc.push_back(g.ch); }
  std::vector<CH> im; for (auto &l : C.loops) im.push_back(image(l, &a.ctr)); all = gc; for (auto &c : im) all.push_back(c); int R = rk(gc); sx::check(rk(all) == R, "images of the fine loops are sums of coarse loops");
  for (auto &g : gc) { bool ok = false; for (auto &l : C.loops) { std::map<PII,int> s; int n = l.size(); for (int i = 0; i < n; i++) { int x = a.ctr[l[i]], y = a.ctr[l[(i + 1) % n]]; if (x != y) s[{std::min(x, y), std::max(x, y)}]++; } bool in = true; for (auto &x : g) in &= s.count(x.first) > 0; ok |= in; } sx::check(ok, "a coarse loop consists of images of edges of one fine loop"); }
  for (size_t i = 0; i < G.size(); i++) for (size_t j = 0; j < i; j++) { bool same = G[i].ch.size() == G[j].ch.size(), ranks = np == 1; for (auto &x : G[i].ch) same &= G[j].ch.count(x.first) > 0; if (ranks) sx::check(!same, "no loop twice"); }
  for (int r = 0; r < np; r++) for (int v : cv[r]) { sx::check(gh[r][v] == (C.own[v] != r), "a coarse vertex is solid on the rank of its agglomerate"); double s = 0; for (int u = 0; u < p.nv(); u++) if (a.ctr[u] == v) s += C.vol[u]; std::map<int,PDD> nb; for (int e = 0; e < p.ne(); e++) { int x = a.ctr[p.ed[e].first], y = a.ctr[p.ed[e].second]; if (x != y && (x == v || y == v)) adf(nb[x + y - v], C, e, x < y); } bool stuck = nb.size() == 1 && nb.begin()->second == PDD(0.0, 0.0); sx::check_eq(vol[r][v], stuck ? 0.0 : s, "volumes add up, and vanish only for a vertex whose only edge has no flow"); }
  std::map<PII,PDD> ex; for (int e = 0; e < p.ne(); e++) { int x = a.ctr[p.ed[e].first], y = a.ctr[p.ed[e].second]; if (x == y) continue; adf(ex[{std::min(x, y), std::max(x, y)}], C, e, x < y); }
  for (int r = 0; r < np; r++) for (auto &x : cf[r]) { sx::check(ex.count(x.first), "coarse edges are images"); auto &w = ex[x.first]; sx::check(std::abs(x.second.first - w.first) <= 1e-9 && std::abs(x.second.second - w.second) <= 1e-9, "flows add up, with the direction of the edge"); }
  for (auto &g : G) { bool z = false, near = false; for (auto &x : g.ch) { double f = std::max(std::abs(ex[x.first].first), std::abs(ex[x.first].second)); if (f == 0.0) z = true; else if (f < 1e-6) near = true; } if (!near) sx::check(g.act == !z, "exactly the loops with an edge without flow are inactive"); }
  sx::reach("end"); }
// contraction onto groups of ranks
static void parts(int np, int k, VVI cur, std::vector<VVI> &out) { if (k == np) { out.push_back(cur); return; } for (size_t i = 0; i < cur.size(); i++) { auto c = cur; c[i].push_back(k); parts(np, k + 1, c, out); } cur.push_back({k}); parts(np, k + 1, cur, out); }
static void contract(Case &C) { auto &p = C.p; int np = p.np; std::vector<VVI> all; parts(np, 0, {}, all); VVI G = all[sx::choose("groups", all.size())]; int ng = G.size(); VI of(np); for (int q = 0; q < ng; q++) for (int r : G[q]) of[r] = q; if (sx::flag("an edge without flow")) C.fl[1] = 0.0;
  std::vector<Part> F(np), P(ng); std::vector<shared_ptr<SM>> fm(np); std::vector<shared_ptr<StokesContractMap<SM>>> mp(np); VVI cv(ng);
  fmpi::run(np, md(np), [&](int r) { auto S = mesh(C, r); fm[r] = S; F[r] = part(*S, p.vg[r]); S->GetDOFedEdges(); auto g = make_shared<StokesContractMap<SM>>(tab(G), S); mp[r] = g; bool ma = G[of[r]][0] == r; auto M = dynamic_pointer_cast<SM>(g->GetMappedMesh()); sx::check((M != nullptr) == ma, "only masters get a mesh"); if (!ma) return; int q = of[r]; int n = M->GetNN<NT_VERTEX>(); auto E = M->GetNodes<NT_EDGE>(); M->CumulateData(); auto ed = get<1>(M->Data())->Data(); auto vd = get<0>(M->Data())->Data(); VI &gv = cv[q]; gv.assign(n, -1); for (size_t k = 0; k < G[q].size(); k++) { auto vm = g->GetNodeMap<NT_VERTEX>(k); for (size_t i = 0; i < vm.Size(); i++) gv[vm[i]] = p.vg[G[q][k]][i]; } for (int v : gv) sx::check(v >= 0, "contracted vertices come from members");
    P[q] = part(*M, gv); for (int k = 0; k < n; k++) { int v = gv[k]; sx::check(!M->GetGhostVerts()->Test(k) == (of[C.own[v]] == q), "a vertex is solid where a member has it as solid vertex"); sx::check_eq(vd[k].vol, C.vol[v], "volumes stay"); }
    for (size_t k = 0; k < E.Size(); k++) { int x = gv[E[k].v[0]], y = gv[E[k].v[1]], e = -1; bool sw = x > y; if (sw) std::swap(x, y); for (int i = 0; i < p.ne(); i++) if (p.ed[i] == PII(x, y)) e = i; sx::check(e >= 0, "contracted edges are edges"); sx::check_eq(ed[k].flow[0], sw ? -C.fl[e] : C.fl[e], "flows follow the direction of the edge"); sx::check_eq(ed[k].edi, sw ? C.w1[e] : C.w0[e], "weights stay with their vertex"); sx::check_eq(ed[k].edj, sw ? C.w0[e] : C.w1[e], "weights stay with their vertex"); }
    auto [de, d2e, e2d] = M->GetDOFedEdges(); for (size_t k = 0; k < E.Size(); k++) sx::check(de->Test(k) == (!M->GetGhostVerts()->Test(E[k].v[0]) || !M->GetGhostVerts()->Test(E[k].v[1])), "edges with a solid vertex have a dof"); (void)d2e; (void)e2d; });
  auto FG = join(F); auto PG = join(P); sx::check(FG.size() == PG.size(), "the loops stay"); for (int q = 0; q < ng; q++) { auto &g = *mp[G[q][0]]; auto LM = g.GetLoopMaps(); auto DM = g.GetDofedEdgeMaps(); auto M = dynamic_pointer_cast<SM>(g.GetMappedMesh()); auto [de, d2e, e2d] = M->GetDOFedEdges(); std::vector<CH> u(P[q].ch.size());
    for (size_t k = 0; k < G[q].size(); k++) { int r = G[q][k]; sx::check(LM[k].Size() == F[r].ch.size(), "all loops of a member are mapped"); for (size_t j = 0; j < F[r].ch.size(); j++) { int l = LM[k][j]; sx::check(l >= 0 && l < (int)u.size(), "loops are mapped to loops"); for (auto &x : F[r].ch[j]) { sx::check(!u[l].count(x.first) || u[l][x.first] == x.second, "members agree"); u[l][x.first] = x.second; } int fg = -1, pg = -1; for (size_t i = 0; i < FG.size(); i++) if (FG[i].num.count(r) && FG[i].num[r] == (int)j) fg = i; for (size_t i = 0; i < PG.size(); i++) if (PG[i].num.count(q) && PG[i].num[q] == l) pg = i; sx::check(fg >= 0 && pg >= 0 && FG[fg].ch == PG[pg].ch, "a loop is mapped to the same loop"); }
      auto em = g.GetNodeMap<NT_EDGE>(k); auto [fde, fd2e, fe2d] = fm[r]->GetDOFedEdges(); sx::check(DM[k].Size() == fd2e.Size(), "all edge dofs of a member are mapped"); for (size_t j = 0; j < fd2e.Size(); j++) sx::check(DM[k][j] == e2d[em[fd2e[j]]] && DM[k][j] >= 0, "the dof of an edge is mapped to the dof of the contracted edge"); }
    for (size_t l = 0; l < u.size(); l++) sx::check(u[l] == P[q].ch[l], "a contracted loop is the union of the parts of the members"); }
  for (auto &g : PG) { bool z = false; for (auto &x : g.ch) for (int e = 0; e < p.ne(); e++) if (p.ed[e] == x.first && C.fl[e] == 0.0) z = true; sx::check(g.act == !z, "exactly the loops with an edge without flow are inactive"); }
  sx::reach("end"); }
SX_HARNESS(C20_contract2, "contraction of meshes with loops from 2 ranks, either grouping, every distribution of the solid vertices", 0) { Case C; setup(C, 2, sx::choose("graph", 3)); contract(C); }
SX_HARNESS(C20_contract3, "contraction from 3 ranks, every grouping", 0) { Case C; setup(C, 3, sx::choose("graph", 2 + sx::tier())); contract(C); }
SX_HARNESS(C20_coarse, "coarse loops on one rank: complete graph on 4 vertices with triangles and a quadrilateral, 5 vertices with loops that overlap, a hexagon with a diagonal; every agglomeration into connected agglomerates, either order of the loops", 0) { Case C; setup(C, 1, sx::choose("graph", 3)); agg(C); coarse(C); }
SX_HARNESS(C20_coarse2, "as C20_coarse on 2 ranks, every distribution of the solid vertices", 0) { Case C; setup(C, 2, sx::choose("graph", 3)); agg(C); coarse(C); }
SX_HARNESS(C20_coarse3, "as C20_coarse2 on 3 ranks, graphs with 4 and 5 (thorough: 6) vertices", 0) { Case C; setup(C, 3, sx::choose("graph", 2 + sx::tier())); agg(C); coarse(C); }
