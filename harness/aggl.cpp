// PROPERTY: C19
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp base/coarsening/base_coarse.cpp base/factory/base_factory.cpp base/coarsening/dof_map.cpp base/utils/utils_denseLA.cpp h1/h1_dim1_agg.cpp
// ASSUME: edge weights are positive and at least 1e-3; vertex weights are not negative; solid vertices: every shared vertex is solid on exactly one of its ranks, local ones always
#include "elastgen.hpp"
#include <spw_agg.hpp>
#include <mis_agg.hpp>
using namespace hx;
typedef H1AMGFactory<1> F1; typedef F1::TMESH::T_MESH_W_DATA MW;
namespace amg { extern template class SPWAgglomerator<F1::ENERGY, MW, F1::ENERGY::NEED_ROBUST>; extern template class MISAgglomerator<F1::ENERGY, MW, F1::ENERGY::NEED_ROBUST>; }
typedef SPWAgglomerator<F1::ENERGY, MW, F1::ENERGY::NEED_ROBUST> SPW; typedef MISAgglomerator<F1::ENERGY, MW, F1::ENERGY::NEED_ROBUST> MIS;
struct Cfg { int kind = 0, rounds = 3; bool orphan = true, rp = true; AVG_TYPE avg = MIN; double vthr = 0, ethr = 0.025; bool geom = true, boost = false, d2 = false; AVG_TYPE mavg = MIN; VI fr, sol; VVI fix; };   // fr: vertex is free, sol: rank on which the vertex is solid, fix: prescribed agglomerates
typedef std::vector<VI> Out;   // agglomerates as sorted lists of global vertices, centre first
template<class A> static void setup(A &, const Cfg &);
template<> void setup(SPW &a, const Cfg &c) { SPWAggOptions o; o.numRounds = c.rounds; o.orphanRound = c.orphan; o.robustPick = c.rp; o.scalAvg = c.avg; a.Initialize(o, 0); }
template<> void setup(MIS &a, const Cfg &c) { MISAggOptions o; o.mis_neib_boost = c.boost; o.agg_minmax_avg = c.mavg; o.mis_dist2 = SpecOpt<bool>(c.d2); o.ecw_geom = c.geom; a.Initialize(o, 0); }
template<class A> static Out form(PMesh &p, const Cfg &c, shared_ptr<MW> H, int r, VI *l2a = nullptr) { int n = p.vg[r].size(); A a(H); AggOptions o; o.edge_thresh = c.ethr; o.vert_thresh = c.vthr; a.InitializeBaseAgg(o, 0); setup(a, c); BaseAgglomerator &b = a;
  auto bits = [&](auto f) { auto x = make_shared<BitArray>(n); x->Clear(); for (int k = 0; k < n; k++) if (f(p.vg[r][k])) x->SetBit(k); return x; };
  if (c.fr.size()) { auto x = bits([&](int g) { return c.fr[g]; }); b.SetFreeVerts(x); } if (c.sol.size()) { auto x = bits([&](int g) { return c.sol[g] == r; }); b.SetSolidVerts(x); }
  VVI fx; for (auto &f : c.fix) { bool mine = true; for (int g : f) if (!has(p.vm[g], r) || __builtin_ctz(p.vm[g]) != r) mine = false; if (mine) { VI l; for (int g : f) l.push_back(p.vl[r].at(g)); std::sort(l.begin(), l.end()); fx.push_back(l); } } if (fx.size()) b.SetFixedAggs(tab(fx));
  Array<Agglomerate> ag; Array<int> va; b.FormAgglomerates(ag, va);
  sx::check((int)va.Size() == n, "every vertex of the rank has an entry"); VI cnt(ag.Size(), 0); for (int k = 0; k < n; k++) { sx::check(va[k] >= -1 && va[k] < (int)ag.Size(), "agglomerate numbers are in range"); if (va[k] >= 0) cnt[va[k]]++; }
  auto active = [&](int g) { return (c.fr.empty() || c.fr[g]) && (c.sol.size() ? c.sol[g] == r : __builtin_ctz(p.vm[g]) == r); }; auto fixed = [&](int g) { for (auto &f : c.fix) for (int x : f) if (x == g) return true; return false; };
  Out out; for (int k = 0; k < (int)ag.Size(); k++) { auto M = ag[k].members(); int cg = -1; sx::check(ag[k].id == k, "agglomerates are numbered consecutively"); sx::check(M.Size() > 0 && (int)M.Size() == cnt[k], "members are exactly the vertices mapped to the agglomerate"); VI g; bool isc = false, isfix = false;
    for (size_t j = 0; j < M.Size(); j++) { int m = M[j]; sx::check(m >= 0 && m < n && va[m] == k, "members map back to their agglomerate"); sx::check(!j || M[j-1] < m, "members are ascending and unique"); if (m == ag[k].center()) isc = true; g.push_back(p.vg[r][m]); if (fixed(g.back())) isfix = true; else sx::check(active(g.back()), "only free vertices that belong to the rank are agglomerated"); }
    sx::check(isc, "the centre is a member"); cg = p.vg[r][ag[k].center()]; for (int x : g) sx::check((p.vm[x] & ~p.vm[cg]) == 0, "all ranks of a member know the centre");
    std::sort(g.begin(), g.end()); if (isfix) { bool f = false; for (auto q : c.fix) { std::sort(q.begin(), q.end()); f |= q == g; } sx::check(f, "prescribed agglomerates are kept"); }
    else { VI seen{g[0]}; for (size_t i = 0; i < seen.size(); i++) for (auto &e : p.ed) for (int s = 0; s < 2; s++) { int a = s ? e.second : e.first, b = s ? e.first : e.second; if (a == seen[i] && std::find(g.begin(), g.end(), b) != g.end() && std::find(seen.begin(), seen.end(), b) == seen.end()) seen.push_back(b); } sx::check(seen.size() == g.size(), "agglomerates are connected"); }
    g.insert(g.begin(), cg); out.push_back(g); }
  if (c.vthr == 0) for (int k = 0; k < n; k++) { int g = p.vg[r][k]; if (fixed(g)) { continue; } if (!active(g)) { sx::check(va[k] == -1, "other vertices are left out"); continue; } bool con = false; for (auto &e : p.ed) con |= e.first == g || e.second == g; if (con) sx::check(va[k] >= 0, "every free connected vertex that belongs to the rank is in an agglomerate"); }
  if (l2a) { l2a->assign(p.nv(), -1); for (int k = 0; k < n; k++) (*l2a)[p.vg[r][k]] = va[k]; }
  std::sort(out.begin(), out.end()); return out; }
static Out form(PMesh &p, const Cfg &c, shared_ptr<MW> H, int r, VI *l = nullptr) { return c.kind ? form<MIS>(p, c, H, r, l) : form<SPW>(p, c, H, r, l); }
static Wts weights(const PMesh &p, bool vw) { Wts W = symwts<1>(p, vw, false); for (auto &w : W.e) { sx::assume(w[0][0] >= 1e-3); sx::assume(w[0][0] <= 1e3); } if (vw) for (auto &w : W.v) { sx::assume(w[0][0] >= 0.0); sx::assume(w[0][0] <= 1e3); } return W; }
static void go(PMesh &p, Cfg &c, bool vw) { Wts W = weights(p, vw); fmpi::Mode md{false, 0, false}; fmpi::run(p.np, md, [&](int r) { auto H = emesh<1>(p, W, r); Out a = form(p, c, H, r); }); sx::reach("end"); }
static int T() { return sx::tier(); }
static void dirichlet(const PMesh &p, Cfg &c) { int d = sx::choose("dirichlet", p.nv() + 1); if (d) { c.fr.assign(p.nv(), 1); c.fr[d-1] = 0; } }
static Cfg cfg(int kind) { Cfg c; c.kind = kind; if (kind == 0) { c.rounds = 1 + sx::choose("rounds", 2 + T()); c.orphan = sx::flag("orphans"); c.rp = T() ? sx::flag("robust pick") : c.orphan; } else { c.geom = sx::flag("geom"); c.d2 = sx::flag("distance 2"); } return c; }
static void share(PMesh &p, int np, VI S, int n, int kinds) { p.np = np + 1; for (int i = 0; i < n; i++) p.vm.push_back(S[sx::choose("sharing", S.size())]); edges(p, sx::choose("edges", kinds), 0); p.init(); }
static void seq(int kind, int n) { PMesh p; p.np = 1; p.dummy = sx::flag("sequential"); p.vm.assign(n, 1); edges(p, sx::choose("edges", 3), 0); p.init(); Cfg c = cfg(kind); dirichlet(p, c); go(p, c, false); }
static void par(int kind, int n) { PMesh p; share(p, 2, {2, 4, 6}, n, 1 + T()); Cfg c = cfg(kind); dirichlet(p, c); go(p, c, false); }
SX_HARNESS(C19_spw1, "SPW, 3 vertices (thorough: 4) on one rank and sequential; complete graph, path or star; any of them a Dirichlet vertex; 1 or 2 (thorough: to 3) rounds, with and without orphan treatment", 0) { seq(0, 3 + T()); }
SX_HARNESS(C19_mis1, "MIS, 3 vertices (thorough: 4) on one rank and sequential; complete graph, path or star; any of them a Dirichlet vertex; both means, distance 1 or 2", 0) { seq(1, 3 + T()); }
SX_HARNESS(C19_spw2, "SPW, 3 vertices on 2 ranks, all sharing patterns, complete graph (thorough: also path); any of them a Dirichlet vertex; 1 or 2 (thorough: to 3) rounds, with and without orphan treatment", 0) { par(0, 3); }
SX_HARNESS(C19_mis2, "MIS, 3 vertices on 2 ranks, all sharing patterns, complete graph (thorough: also path); any of them a Dirichlet vertex; both means, distance 1 or 2", 0) { par(1, 3); }
SX_HARNESS(C19_spw3, "SPW, 4 vertices on 3 ranks, the first rank knows all of them, the others one each; complete graph; 1 (thorough: every) numbering; 1 round and orphan treatment", 0) { PMesh p; p.np = 4; VI q{0, 1, 2, 3}; p.vm = {10, 6, 2, 2}; for (int k = T() ? sx::choose("order", 24) : 0; k > 0; k--) std::next_permutation(q.begin(), q.end()); VI m = p.vm; for (int i = 0; i < 4; i++) p.vm[q[i]] = m[i]; edges(p, 0, 0); p.init(); Cfg c; c.kind = 0; c.rounds = 1; go(p, c, false); }
SX_HARNESS(C19_spw3t, "SPW, 4 vertices on 3 ranks of which every one is known to the first (or the second only), complete graph or path, any of them a Dirichlet vertex, 1 or 2 rounds and orphan treatment", 1) { PMesh p; share(p, 3, {10, 6, 2, 14, 4}, 4, 2); Cfg c; c.kind = 0; c.rounds = 1 + sx::choose("rounds", 2); dirichlet(p, c); go(p, c, false); }
SX_HARNESS(C19_mis3t, "MIS, 4 vertices on 3 ranks of which every one is known to the first (or the second only), complete graph or path", 1) { PMesh p; share(p, 3, {10, 6, 2, 14, 4}, 4, 2); Cfg c = cfg(1); go(p, c, false); }
// prescribed agglomerates
static void fix(int kind) { PMesh p; int n = 4; if (sx::flag("parallel")) { p.np = 3; for (int i = 0; i < n; i++) p.vm.push_back(i < 3 + T() ? (sx::flag("shared") ? 6 : 2) : 2); edges(p, !T(), 0); p.init(); } else { p.np = 1; p.vm.assign(n, 1); edges(p, !T(), 0); p.init(); } Cfg c; c.kind = kind; c.rounds = 2; static const VVI F[4] = {{{0, 1}}, {{0, 3}, {1}}, {{2}}, {{1, 3}}}; auto &f = F[sx::choose("prescribed", 2 + 2 * T())];
  for (auto &a : f) for (int x : a) if (kind ? p.vm[x] != p.vm[a[0]] : (p.vm[x] & ~p.vm[a[0]]) != 0) { sx::reach("end"); return; } c.fix = f; go(p, c, false); }
SX_HARNESS(C19_spw_fix, "SPW, 4 vertices on 1 or 2 ranks, path (thorough: complete graph), one or two prescribed agglomerates of one or two vertices, whose first one knows all ranks of the others, 2 rounds and orphan treatment", 0) { fix(0); }
SX_HARNESS(C19_mis_fix, "MIS, 4 vertices on 1 or 2 ranks, path (thorough: complete graph), one or two prescribed agglomerates of one or two vertices, which are shared by the same ranks", 0) { fix(1); }
// vertices shared by ranks are agglomerated by the rank on which they are solid
static void sol(int kind) { PMesh p; share(p, 2, {2, 4, 6}, 3 + T(), 1); Cfg c; c.kind = kind; c.rounds = 1 + sx::choose("rounds", 2); for (int m : p.vm) c.sol.push_back(m == 6 ? 1 + sx::choose("solid", 2) : __builtin_ctz(m)); go(p, c, false); }
SX_HARNESS(C19_spw_sol, "SPW, 3 vertices (thorough: 4) on 2 ranks, all sharing patterns and solid ranks, complete graph, 1 or 2 rounds and orphan treatment", 0) { sol(0); }
SX_HARNESS(C19_mis_sol, "MIS, 3 vertices (thorough: 4) on 2 ranks, all sharing patterns and solid ranks, complete graph", 0) { sol(1); }
// vertex weights and thresholds
static void wts(int kind) { PMesh p; int n = 3; if (T() && sx::flag("parallel")) share(p, 2, {2, 6}, n, 1); else { p.np = 1; p.vm.assign(n, 1); edges(p, T() ? sx::choose("edges", 2) : 1, 0); p.init(); } Cfg c; c.kind = kind; c.rounds = 1; bool th = sx::flag("vertex threshold"); c.vthr = th ? 0.9 : 0; c.ethr = (T() ? sx::flag("edge threshold") : th) ? 0.3 : 0.025; c.avg = (AVG_TYPE)sx::choose("average", 5); if (kind) { c.mavg = c.avg; c.geom = T() ? sx::flag("geom") : th; } go(p, c, true); }
SX_HARNESS(C19_spw_wts, "SPW, 3 vertices on one rank (thorough: also 2 ranks), path (thorough: also complete graph), all vertex weights, with and without vertex threshold, five means", 0) { wts(0); }
SX_HARNESS(C19_mis_wts, "MIS, 3 vertices on one rank (thorough: also 2 ranks), path (thorough: also complete graph), all vertex weights, with and without vertex threshold, two edge thresholds, five means", 0) { wts(1); }
// the heap is filled with one or another pattern: the outcome must not depend on it
static void det(int kind) { PMesh p; p.np = 3; static const int S[3] = {6, 2, 4}; for (int i = 0; i < 3; i++) p.vm.push_back(S[sx::choose("sharing", 3)]); edges(p, sx::choose("edges", 2), 0); p.init(); Cfg c; c.kind = kind; c.rounds = 1; c.orphan = false; c.rp = sx::flag("robust pick"); c.avg = (AVG_TYPE)(T() ? sx::choose("average", 5) : 2 * sx::choose("average", 3)); Wts W = weights(p, false); fmpi::Mode md{false, 0, false}; std::vector<Out> o[2];
  for (int k = 0; k < 2; k++) { o[k].resize(p.np); sx::heap(k ? 0x41 : 0xc1); PMesh q = p; fmpi::run(p.np, md, [&](int r) { auto H = emesh<1>(q, W, r); o[k][r] = form(q, c, H, r); }); sx::heap(-1); }
  sx::check(o[0] == o[1], "the agglomerates depend on the mesh, the weights and the options only"); sx::reach("end"); }
SX_HARNESS(C19_spw_det, "SPW, 3 vertices on 2 ranks, with two different contents of fresh memory", 0) { det(0); }
SX_HARNESS(C19_mis_det, "MIS, 3 vertices on 2 ranks, with two different contents of fresh memory", 0) { det(1); }
// one round of pairing against its definition: soc(i,j) = w_ij / mean(strongest edge of i, strongest edge of j), strong for i: at least a quarter of the largest soc of i
SX_HARNESS(C19_spw_soc, "SPW, 3 vertices (complete graph, path or star; thorough: 4 vertices, path or star) on one rank, one round of pairing, three means", 0) { PMesh p; int n = 3 + T(); p.np = 1; p.vm.assign(n, 1); edges(p, T() ? 1 + sx::choose("edges", 2) : sx::choose("edges", 3), 0); p.init(); Cfg c; c.rounds = 1; c.orphan = false; c.rp = sx::flag("robust pick"); static const AVG_TYPE A[3] = {MIN, MAX, ALG}; c.avg = A[sx::choose("mean", 3)]; Wts W = weights(p, false); fmpi::Mode md{false, 0, false};
  fmpi::run(1, md, [&](int r) { auto H = emesh<1>(p, W, r); VI a; Out o = form(p, c, H, r, &a); VD mx(n, 0.0); for (int e = 0; e < p.ne(); e++) for (int v : {p.ed[e].first, p.ed[e].second}) mx[v] = std::max(mx[v], W.e[e][0][0]);
    auto den = [&](int i, int j) { return c.avg == MIN ? std::min(mx[i], mx[j]) : c.avg == MAX ? std::max(mx[i], mx[j]) : 0.5 * (mx[i] + mx[j]); }; VD soc, ms(n, 0.0);
    for (int e = 0; e < p.ne(); e++) { int i = p.ed[e].first, j = p.ed[e].second; soc.push_back(W.e[e][0][0] / den(i, j)); ms[i] = std::max(ms[i], soc[e]); ms[j] = std::max(ms[j], soc[e]); }
    VI cnt(n, 0); for (int v = 0; v < n; v++) cnt[a[v]]++; for (int x : cnt) sx::check(x <= 2, "one round forms pairs");
    for (int e = 0; e < p.ne(); e++) { int i = p.ed[e].first, j = p.ed[e].second; if (a[i] == a[j]) sx::check(soc[e] >= 0.25 * ms[i] || soc[e] >= 0.25 * ms[j], "only strongly connected vertices are paired"); else if (cnt[a[i]] == 1 && cnt[a[j]] == 1) sx::check(!(soc[e] >= 0.25 * ms[i] && soc[e] >= 0.25 * ms[j]), "vertices connected strongly both ways do not both stay single"); } }); sx::reach("end"); }
