// PROPERTY: C12
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/mesh/base_mesh.cpp base/coarsening/agglomerate_map.cpp base/coarsening/agglomerator.cpp base/coarsening/base_coarse.cpp base/factory/base_factory.cpp base/coarsening/dof_map.cpp base/utils/utils_denseLA.cpp
// ASSUME: agglomerates are those of C11 that the master of their centre holds; weights of edges are positive and at least 1e-6 (elasticity: symmetric, diagonally dominant around fixed values); elasticity: vertices have fixed positions in general position, rotations are not scaled
#include "elastgen.hpp"
using namespace hx;
typedef VertexAMGFactoryOptions VO;
// the factory with its protected parts exposed
template<int DIM> class FacD : public En<DIM>::F { public: FacD(shared_ptr<typename En<DIM>::F::Options> o) : En<DIM>::F(o) {} using En<DIM>::F::BuildCoarseDOFMap; }; typedef FacD<1> Fac;
typedef BaseAMGFactory::LevelCapsule Cap; typedef std::map<int,double> Row;
static VI cols(const Row &r) { VI c; for (auto &x : r) c.push_back(x.first); return c; }
struct Case { PMesh p; Aggs a; int type; int maxr = 3, maxc = 5; double frac = 0.1, omega = 1.0; bool mat = false, fill = false; };
static void run(Case &C) { auto &p = C.p; auto &a = C.a; int np = p.np, nv = p.nv(); fmpi::Mode md{false, 0, false}; if (np == 3 && !sx::tier()) { md.lazy = md.rev = true; md.first = 2; } else if (np > 1) md = mmode(np);
  VD w, A; for (int e = 0; e < p.ne(); e++) { w.push_back(sx::real(nm("w", e))); sx::assume(w[e] >= 1e-6); }
  // fine matrix: a weighted graph Laplacian, on the edges of the mesh or on all pairs of vertices a rank has in common
  std::vector<std::vector<double>> m(nv, VD(nv, 0.0)); if (C.mat) for (int i = 0; i < nv; i++) for (int j = 0; j < i; j++) { bool ed = C.fill && (p.vm[i] & p.vm[j]); for (auto &e : p.ed) if (e == PII(j, i)) ed = true; if (!ed) continue; m[i][j] = m[j][i] = sx::real(nm("a", i, j)); sx::assume(m[i][j] <= -1e-3); }
  std::vector<std::map<int,Row>> rows(np); std::vector<VI> fid(np), cid(np);
  fmpi::run(np, md, [&](int r) { auto M = p.build(r); int n = M->GetNN<NT_VERTEX>(); Array<IVec<2,double>> vd(n); vd = 0.0; Array<double> ed(M->GetNN<NT_EDGE>()); for (size_t k = 0; k < ed.Size(); k++) ed[k] = w[p.eg[r][k]];
    auto H = make_shared<H1Mesh>(std::move(*M), std::make_tuple(new H1VData(std::move(vd), CUMULATED), new H1EData(std::move(ed), CUMULATED))); p.m[r] = H; auto g = mk<H1Mesh>(H, p, a, r); auto CM = dynamic_pointer_cast<H1Mesh>(g->GetMappedMesh());
    auto o = make_shared<VO>(); o->prol_type = VO::PROL_TYPE(C.type); o->sp_min_frac = C.frac; o->sp_max_per_row = C.maxr; o->sp_max_per_row_classic = C.maxc; o->sp_omega = C.omega; o->log_level = VO::LOG_LEVEL::NONE; Fac F(o);
    auto f = make_shared<Cap>(), c = make_shared<Cap>(); f->eqc_h = c->eqc_h = p.h[r]; f->mesh = H; c->mesh = CM; f->uDofs = F.BuildUDofs(*f); c->uDofs = F.BuildUDofs(*c); c->baselevel = 1;
    if (C.mat) { std::vector<VI> cl(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int x = p.vg[r][i], y = p.vg[r][j]; bool on = x == y || (C.fill && (p.vm[x] & p.vm[y])); for (auto &e : p.ed) if (e == PII(std::min(x, y), std::max(x, y))) on = true; if (on) cl[i].push_back(j); }
      Array<int> pr(n); for (int i = 0; i < n; i++) pr[i] = cl[i].size(); auto S = make_shared<SparseMat<1,1>>(pr, n); for (int i = 0; i < n; i++) { auto ri = S->GetRowIndices(i); auto rv = S->GetRowValues(i); double d = 0; int kd = 0; for (size_t k = 0; k < cl[i].size(); k++) { ri[k] = cl[i][k]; if (cl[i][k] == i) { kd = k; continue; } int x = p.vg[r][i], y = p.vg[r][cl[i][k]]; bool mine = (p.vm[x] & p.vm[y] & -(p.vm[x] & p.vm[y])) == 1 << r; rv[k] = mine ? m[x][y] : 0.0; d -= rv[k]; } rv[kd] = d; } f->mat = S; }
    auto st = F.BuildCoarseDOFMap(g, f, c); auto P = dynamic_pointer_cast<ProlMap<double>>(st); sx::check(P != nullptr, "prolongation map"); auto G = P->GetProl(); sx::check((int)G->Height() == n && G->Width() == CM->GetNN<NT_VERTEX>(), "size of the prolongation");
    sx::check((int)P->GetUDofs().GetND() == n && P->GetMappedUDofs().GetND() == CM->GetNN<NT_VERTEX>(), "dofs of the prolongation");
    auto vm = g->GetMap<NT_VERTEX>(); VI gc(CM->GetNN<NT_VERTEX>(), -1); for (int i = 0; i < n; i++) if (vm[i] >= 0) gc[vm[i]] = a.ctr[p.vg[r][i]];
    for (int i = 0; i < n; i++) { auto ri = G->GetRowIndices(i); auto rv = G->GetRowValues(i); Row R; for (size_t k = 0; k < ri.Size(); k++) { sx::check(ri[k] >= 0 && ri[k] < (int)gc.size() && gc[ri[k]] >= 0 && !R.count(gc[ri[k]]), "columns are coarse vertices of the rank, each once"); R[gc[ri[k]]] = rv[k]; if (k) sx::check(ri[k-1] < ri[k], "columns are sorted"); } rows[r][p.vg[r][i]] = R; } });
  for (int v = 0; v < nv; v++) { int first = __builtin_ctz(p.vm[v]); const Row &R = rows[first].at(v); for (int r = first + 1; r < np; r++) if (has(p.vm[v], r)) { const Row &Q = rows[r].at(v); sx::check(cols(R) == cols(Q), "all ranks of a vertex have the same columns"); for (auto &x : R) sx::check_eq(Q.at(x.first), x.second, "all ranks of a vertex have the same values"); }
    if (a.ctr[v] < 0) { sx::check(R.empty(), "no entries for a vertex without agglomerate"); continue; }
    sx::check(R.count(a.ctr[v]), "interpolates from the own agglomerate"); double s = 0; for (auto &x : R) s += x.second; sx::check_eq(s, 1.0, "the row preserves constants");
    // neighbours the master of the vertex knows
    std::vector<std::pair<int,int>> nb; int inagg = 0; for (int e = 0; e < p.ne(); e++) { auto E = p.ed[e]; if ((E.first != v && E.second != v) || !has(p.em(e), first)) continue; int u = E.first == v ? E.second : E.first; nb.push_back({u, e}); if (a.ctr[u] == a.ctr[v]) inagg++; }
    for (auto &x : R) if (x.first != a.ctr[v]) { bool ok = false; for (auto &q : nb) ok |= a.ctr[q.first] == x.first; if (C.mat && C.fill) for (int u = 0; u < nv; u++) ok |= a.ctr[u] == x.first && (p.vm[u] & p.vm[v]); sx::check(ok, "interpolates from agglomerates of neighbours only"); sx::check((p.vm[v] & ~p.vm[x.first]) == 0, "all ranks of the vertex have the coarse vertices"); }
    if (C.type == 0 || !inagg) { sx::check(R.size() == 1, "piecewise constant row"); continue; }
    bool classic = C.type == 2 && C.mat && p.vm[v] == 1 << first; if (classic) { std::set<int> s; for (int u = 0; u < nv; u++) if (u == v || has(p.vm[u], first)) { bool on = u == v || C.fill; for (auto &q : nb) on |= q.first == u; if (!on) continue; if (a.ctr[u] < 0) classic = false; s.insert(a.ctr[u]); } if ((int)s.size() > C.maxc) classic = false; }
    sx::check((int)R.size() <= (classic ? C.maxc : C.maxr), "at most the given number of entries"); if (R.size() == 1) continue;
    Row T; double sum = 0; if (classic) { for (int u = 0; u < nv; u++) if (u != v && (p.vm[u] & p.vm[v])) { bool on = C.fill; for (auto &q : nb) on |= q.first == u; if (!on) continue; sum -= m[v][u]; T[a.ctr[u]] -= m[v][u]; } } else for (auto &q : nb) if (R.count(a.ctr[q.first])) { sum += w[q.second]; T[a.ctr[q.first]] += w[q.second]; }
    for (auto &x : R) sx::check_eq(x.second * sum, (x.first == a.ctr[v] ? (1.0 - C.omega) * sum : 0.0) + C.omega * T[x.first], classic ? "row of the Jacobi smoothed prolongation of the fine matrix" : "row of the Jacobi smoothed prolongation of the replacement matrix of the used edges"); }
  sx::reach("end"); }

// agglomerations where smoothing has something to do: some agglomerate with a member and another one
static bool nontriv(const Aggs &a) { std::set<int> s; bool mem = false; for (size_t v = 0; v < a.ctr.size(); v++) if (a.ctr[v] >= 0) { s.insert(a.ctr[v]); if (a.ctr[v] != (int)v) mem = true; } return mem && s.size() > 1; }
static void setup(Case &C, int type, bool mat) { C.type = type; C.omega = sx::real("omega"); if (type) C.maxr = 2 + sx::choose("entries", 2); if (mat) { C.mat = true; C.maxc = C.p.nv() > 3 && sx::flag("few classic entries") ? 2 : 5; } if (type && (sx::tier() || (C.maxr == 3 && C.p.nv() == 3)) && sx::flag("no threshold")) C.frac = 0.0; }
static void seq(int type, bool mat) { Case C; auto &p = C.p; p.np = 1; p.dummy = type == 0 && sx::flag("sequential"); int n = sx::tier() && type == 0 ? 5 : 4; p.vm.assign(n, 1); static const std::vector<std::vector<PII>> G = {{{0,1},{1,2},{2,3}}, {{0,1},{0,2},{0,3}}, {{0,1},{0,3},{1,2},{2,3}}, {{0,1},{0,2},{1,2},{2,3}}}; int kind = sx::choose("edges", type && sx::tier() ? 5 : 4); if (type == 0 || kind > 3) edges(p, kind % 4, 0); else { p.ed = G[kind]; p.know.assign(p.ne(), 1); } p.init(); if (type == 0) C.a = anyaggs(p, false); else { C.a = partition(p, sx::tier() || kind < 2); if (!nontriv(C.a)) sx::assume(false); } if (mat) C.fill = p.ne() < n && sx::flag("fill in"); setup(C, type, mat); run(C); }
static void par(int type, bool mat, int np, int n) { Case C; auto &p = C.p; p.np = np; int nm = (1 << np) - 1; for (int i = 0; i < n; i++) p.vm.push_back(np == 3 && i ? (int[]){7, 3, 6, 4}[sx::choose("sharing", sx::tier() ? 4 : 3)] : 1 + sx::choose("sharing", nm)); edges(p, sx::tier() ? sx::choose("edges", 2) : 0, 0); p.init(); C.a = partition(p, sx::tier()); if (type && !nontriv(C.a)) sx::assume(false); setup(C, type, mat); run(C); }
#define AG "agglomerates: every partition of the vertices (centre: the first vertex shared by most ranks); any positive weights and damping; 2 or 3 entries per row, with threshold 0.1 (3 vertices or thorough: also without)"
SX_HARNESS(C12_pw, "H1, piecewise constant: 4 vertices (thorough: 5) on one rank and sequential, complete graph, path, star and no edges, every agglomeration with vertices left out", 0) { seq(0, false); }
SX_HARNESS(C12_aux, "H1, smoothed with the replacement matrix: 4 vertices on one rank: path, star, cycle, triangle with a tail (thorough: complete graph), one vertex left out or not (cycle, triangle: thorough only); " AG, 0) { seq(1, false); }
SX_HARNESS(C12_semi, "H1, smoothed with any fine matrix with zero row sums, on the graph of the mesh or with fill-in, or the replacement matrix: as C12_aux", 0) { seq(2, true); }
SX_HARNESS(C12_pw2, "H1, piecewise constant: 2 ranks, 4 vertices with every sharing pattern", 0) { par(0, false, 2, 4); }
SX_HARNESS(C12_aux2, "H1, replacement matrix: 2 ranks, 3 vertices (thorough: 4) with every sharing pattern, complete graph; " AG, 0) { par(1, false, 2, 3 + sx::tier()); }
SX_HARNESS(C12_aux3, "H1, replacement matrix: 3 ranks, 3 vertices with a selection of sharing patterns, complete graph; " AG, 0) { par(1, false, 3, 3); }
SX_HARNESS(C12_semi2, "H1, fine matrix or replacement matrix: 2 ranks, 3 vertices (thorough: 4) with every sharing pattern; " AG, 0) { par(2, true, 2, 3 + sx::tier()); }
SX_HARNESS(C12_semi3, "H1, fine matrix or replacement matrix: 3 ranks, 3 vertices, a selection of sharing patterns; " AG, 0) { par(2, true, 3, 3); }
// elasticity: rows reproduce rigid body modes, whatever symmetric matrix stands in for the inverse of the diagonal
extern "C" void __sx_eig_any(int);
template<int DIM> static void erun(Case &C) { constexpr int N = En<DIM>::N; typedef typename En<DIM>::M TMESH; auto &p = C.p; auto &a = C.a; int np = p.np, nv = p.nv(); fmpi::Mode md{false, 0, false}; if (np > 1) { md.lazy = md.rev = true; md.first = np - 1; } Wts W; for (int v = 0; v < nv; v++) { W.v.push_back(DMat(N, VD(N, 0.0))); W.x.push_back(pos(v)); } for (int e = 0; e < p.ne(); e++) { DMat m(N, VD(N, 0.0)); double f = C.mat ? sx::real(nm("s", e)) : 1.0; if (C.mat) { sx::assume(f >= 1.0); sx::assume(f <= 1.5); } for (int i = 0; i < N; i++) { m[i][i] = f * (4 + (e == 1 ? 3 : e) + i); for (int j = 0; j < i; j++) { double x; if (C.mat) x = f * 0.125 * (i - 2 * j); else { x = sx::real(nm("w", e, i * N + j)); sx::assume(x <= 0.125); sx::assume(x >= -0.125); } m[i][j] = m[j][i] = x; } } W.e.push_back(m); } __sx_eig_any(1);
  std::vector<std::map<int,std::map<int,DMat>>> rows(np); std::vector<std::map<int,VD>> cx(np);
  fmpi::run(np, md, [&](int r) { auto H = emesh<DIM>(p, W, r); auto g = mk<TMESH>(H, p, a, r); auto CM = dynamic_pointer_cast<TMESH>(g->GetMappedMesh()); int n = H->template GetNN<NT_VERTEX>(), nc = CM->template GetNN<NT_VERTEX>();
    auto o = make_shared<typename En<DIM>::F::Options>(); o->prol_type = VO::PROL_TYPE(C.type); o->sp_min_frac = C.frac; o->sp_max_per_row = C.maxr; o->sp_max_per_row_classic = C.maxc; o->sp_omega = C.omega; o->log_level = VO::LOG_LEVEL::NONE; FacD<DIM> F(o);
    auto f = make_shared<Cap>(), c = make_shared<Cap>(); f->eqc_h = c->eqc_h = p.h[r]; f->mesh = H; c->mesh = CM; f->uDofs = F.BuildUDofs(*f); c->uDofs = F.BuildUDofs(*c); c->baselevel = 1; if (C.mat) { Wts L = W; PMesh q = p; if (np > 1) for (int e = 0; e < p.ne(); e++) if ((p.em(e) & -p.em(e)) != 1 << r) L.e[e] = DMat(N, VD(N, 0.0)); auto A = refA<DIM>(q, L, false); std::vector<VI> cl(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int x = p.vg[r][i], y = p.vg[r][j]; bool on = x == y; for (auto &e : p.ed) if (e == PII(std::min(x, y), std::max(x, y))) on = true; if (on) cl[i].push_back(j); }
      Array<int> pr(n); for (int i = 0; i < n; i++) pr[i] = cl[i].size(); auto S = make_shared<SparseMat<N,N>>(pr, n); for (int i = 0; i < n; i++) { auto ri = S->GetRowIndices(i); auto rv = S->GetRowValues(i); for (size_t k = 0; k < cl[i].size(); k++) { ri[k] = cl[i][k]; for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) rv[k](x, y) = A[p.vg[r][i]*N+x][p.vg[r][cl[i][k]]*N+y]; } } f->mat = S; }
    auto st = F.BuildCoarseDOFMap(g, f, c); auto P = dynamic_pointer_cast<ProlMap<Mat<N,N,double>>>(st); sx::check(P != nullptr, "prolongation map"); auto G = P->GetProl(); sx::check((int)G->Height() == n && (int)G->Width() == nc, "size of the prolongation"); CM->CumulateData(); auto vm = g->template GetMap<NT_VERTEX>(); VI gc(nc, -1); for (int i = 0; i < n; i++) if (vm[i] >= 0) gc[vm[i]] = a.ctr[p.vg[r][i]]; for (int k = 0; k < nc; k++) cx[r][gc[k]] = vpos<DIM>(*CM, k);
    for (int i = 0; i < n; i++) { auto ri = G->GetRowIndices(i); auto rv = G->GetRowValues(i); auto &R = rows[r][p.vg[r][i]]; for (size_t k = 0; k < ri.Size(); k++) { sx::check(ri[k] >= 0 && ri[k] < nc && !R.count(gc[ri[k]]), "columns are coarse vertices of the rank, each once"); DMat m(N, VD(N)); for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) m[x][y] = rv[k](x, y); R[gc[ri[k]]] = m; if (k) sx::check(ri[k-1] < ri[k], "columns are sorted"); } } });
  __sx_eig_any(0); VD o(3, 0.0);
  for (int v = 0; v < nv; v++) { int first = __builtin_ctz(p.vm[v]); auto &R = rows[first].at(v); for (int r = first + 1; r < np; r++) if (has(p.vm[v], r)) { auto &Q = rows[r].at(v); sx::check(Q.size() == R.size(), "all ranks of a vertex have the same columns"); for (auto &x : R) { sx::check(Q.count(x.first), "all ranks of a vertex have the same columns"); same(Q.at(x.first), x.second, "all ranks of a vertex have the same values"); } }
    if (a.ctr[v] < 0) { sx::check(R.empty(), "no entries for a vertex without agglomerate"); continue; } sx::check(R.count(a.ctr[v]), "interpolates from the own agglomerate"); DMat S(N, VD(N, 0.0)); for (auto &x : R) S = add(S, mul(x.second, refQ<DIM>(sub(cx[first].at(x.first), o)))); same(S, refQ<DIM>(sub(W.x[v], o)), "the row preserves rigid body modes"); }
  sx::reach("end"); }
template<int DIM> static void eseq(int type, bool mat) { Case C; auto &p = C.p; p.np = 1; p.vm.assign(3, 1); edges(p, sx::choose("edges", 2), 0); p.init(); C.a = partition(p, true, sx::flag("last centre")); C.type = type; C.mat = mat; if (type && !nontriv(C.a)) sx::assume(false); erun<DIM>(C); }
template<int DIM> static void epar(int type, bool mat) { Case C; auto &p = C.p; p.np = 2; for (int i = 0; i < 3; i++) p.vm.push_back(1 + sx::choose("sharing", 3)); edges(p, 0, 0); p.init(); C.a = partition(p, sx::tier()); C.type = type; C.mat = mat; if (type && !nontriv(C.a)) sx::assume(false); erun<DIM>(C); }
SX_HARNESS(C12_epw2, "2D elasticity, piecewise rigid body modes; 3 vertices, complete graph or path, every partition into agglomerates with one vertex left out or not, centre the first or the last vertex; any edge weights", 0) { eseq<2>(0, false); }
SX_HARNESS(C12_epw3, "3D elasticity, piecewise rigid body modes; 3 vertices, complete graph or path, every partition into agglomerates with one vertex left out or not, centre the first or the last vertex; any edge weights", 0) { eseq<3>(0, false); }
SX_HARNESS(C12_eaux2, "2D elasticity, smoothed with the replacement matrix; 3 vertices, complete graph or path, every partition into agglomerates with one vertex left out or not, centre the first or the last vertex; any symmetric edge weights near fixed ones, any positive semidefinite matrix in place of the inverted diagonal", 0) { eseq<2>(2, false); }
SX_HARNESS(C12_esemi2, "2D elasticity, smoothed with the fine matrix; 3 vertices, complete graph or path, every partition into agglomerates with one vertex left out or not, centre the first or the last vertex; any scalings of the edge matrices, any positive semidefinite matrix in place of the inverted diagonal", 0) { eseq<2>(2, true); }
SX_HARNESS(C12_epaux2, "2D elasticity, smoothed with the replacement matrix: 2 ranks, 3 vertices with every sharing pattern, complete graph; any symmetric edge weights near fixed ones, any positive semidefinite matrix in place of the inverted diagonal", 0) { epar<2>(2, false); }
