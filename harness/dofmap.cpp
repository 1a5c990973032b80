// PROPERTY: C05
// TUS: base/coarsening/dof_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp
#include "spcheck.hpp"
#include "smcheck.hpp"
#include <dof_map.hpp>
using namespace hx;
namespace amg { extern shared_ptr<BaseDOFMapStep> MakeSingleStep3 (FlatArray<shared_ptr<BaseDOFMapStep>> init_steps); }
typedef std::vector<std::vector<int>> VV; typedef shared_ptr<BaseDOFMapStep> ST;
static UniversalDofs ud(int n, int bs) { return UniversalDofs(n, bs); }
static std::vector<double> vals(const BaseVector &v, int n) { std::vector<double> r(n); for (int i = 0; i < n; i++) r[i] = at(v, i); return r; }
static std::vector<double> mv(const DMat &P, const std::vector<double> &x) { std::vector<double> y(P.size(), 0.0); for (size_t i = 0; i < P.size(); i++) for (size_t j = 0; j < x.size(); j++) y[i] += P[i][j] * x[j]; return y; }
// step acts as P / P^T, in set and add mode
static void check_step(const BaseDOFMapStep &s, const DMat &P, int nf, int nc) {
  auto xf = s.CreateVector(), xc = s.CreateMappedVector(); sx::check(xf != nullptr && xc != nullptr, "vectors exist"); sx::check((int)xf->FVDouble().Size() == nf && (int)xc->FVDouble().Size() == nc, "vector sizes fit");
  DMat PT = tr(P, nc); int mode = sx::choose("mode", 4); double c = sx::real("fac"); symb(*xf, nf, "xf"); symb(*xc, nc, "xc"); auto f = vals(*xf, nf), k = vals(*xc, nc);
  if (mode < 2) { auto e = mv(PT, f); if (mode == 0) s.TransferF2C(xf.get(), xc.get()); else s.AddF2C(c, xf.get(), xc.get());
    for (int i = 0; i < nc; i++) sx::check_eq(at(*xc, i), mode == 0 ? e[i] : k[i] + c * e[i], "restriction = transposed prolongation"); for (int i = 0; i < nf; i++) sx::check_eq(at(*xf, i), f[i], "input of the transfer untouched"); }
  else { auto e = mv(P, k); if (mode == 2) s.TransferC2F(xf.get(), xc.get()); else s.AddC2F(c, xf.get(), xc.get());
    for (int i = 0; i < nf; i++) sx::check_eq(at(*xf, i), mode == 2 ? e[i] : f[i] + c * e[i], "prolongation"); for (int i = 0; i < nc; i++) sx::check_eq(at(*xc, i), k[i], "input of the transfer untouched"); }
}
template<int H, int W> struct PS { shared_ptr<SparseMat<H,W>> P; shared_ptr<ProlMap<StripTM<H,W>>> s; DMat d; };
template<int H, int W> static PS<H,W> mk(const char *n, int nf, int nc, const VV &pt, bool fin = true, bool sb = false) { PS<H,W> r; r.P = symsp<H,W>(n, nc, pt, sb); r.d = dense<H,W>(*r.P); r.s = make_shared<ProlMap<StripTM<H,W>>>(r.P, ud(nf, H), ud(nc, W)); if (fin) r.s->Finalize(); return r; }

SX_HARNESS(C05_prol, "ProlMap<double>, 3 fine 2 coarse nodes, all patterns", 0) { auto p = mk<1,1>("p", 3, 2, anypat("p", 3, 2)); check_step(*p.s, p.d, 3, 2); sx::reach("end"); }
SX_HARNESS(C05_prol_b, "ProlMap 1x2, 2x2, 2x3, 3x6 entries, 2 fine 1 coarse node", 0) { int k = sx::choose("dims", 4); VV pt{{0},{0}};
  if (k == 0) { auto p = mk<1,2>("p", 2, 1, pt); check_step(*p.s, p.d, 2, 2); } else if (k == 1) { auto p = mk<2,2>("p", 2, 1, pt); check_step(*p.s, p.d, 4, 2); } else if (k == 2) { auto p = mk<2,3>("p", 2, 1, pt); check_step(*p.s, p.d, 4, 3); } else { auto p = mk<3,6>("p", 2, 1, pt); check_step(*p.s, p.d, 6, 6); }
  sx::reach("end"); }
SX_HARNESS(C05_assemble, "Galerkin matrix of ProlMap, entries 1x1, 1x2, 2x2, 2x3; 3 fine 2 coarse nodes", 0) {
  auto go = [&](auto HH, auto WW) { constexpr int H = HH, W = WW; auto p = mk<H,W>("p", 3, 2, VV{{0},{0,1},{1}}, sx::flag("finalized"), H*W > 2); auto A = symsp<H,H>("a", 3, VV{{0,1},{0,1,2},{1,2}}, H*W > 2); auto a = dense<H,H>(*A);
    auto C = p.s->AssembleMatrix(A); same(denseB<W,W>(C), mul(tr(p.d), mul(a, p.d)), "coarse matrix = P^T A P"); sx::check(dynamic_pointer_cast<SparseMat<W,W>>(C) != nullptr, "full sparse matrix type"); };
  int k = sx::choose("dims", 4); if (k == 0) go(IC<1>(), IC<1>()); else if (k == 1) go(IC<1>(), IC<2>()); else if (k == 2) go(IC<2>(), IC<2>()); else go(IC<2>(), IC<3>()); sx::reach("end"); }
// concatenation of two steps: dimensions (H,M) then (M,W)
template<int H, int M, int W> static void conc() { auto p = mk<H,M>("p", 3, 2, VV{{0},{0,1},{1}}, sx::flag("fin"), H*M > 2); auto q = mk<M,W>("q", 2, 1, VV{{0},{0}}, false, M*W > 2); auto d = mul(p.d, q.d, W);
  ST c = p.s->Concatenate(q.s); bool single = c != nullptr; if (!c) { Array<ST> st(2); st[0] = p.s; st[1] = q.s; c = make_shared<ConcDMS>(st); } c->Finalize();
  sx::check(c->GetBlockSize() == H && c->GetMappedBlockSize() == W, "block sizes of the concatenation"); sx::check(c->GetUDofs().GetND() == 3 && c->GetMappedUDofs().GetND() == 1, "unknowns of the concatenation"); if (single) sx::reach("single"); check_step(*c, d, 3*H, W); }
SX_HARNESS(C05_conc, "two ProlMaps concatenated: entries (1,1)(1,1), (2,2)(2,2), (1,2)(2,2), (2,3)(3,3), (2,2)(2,3), (1,1)(1,2), (1,2)(2,1)", 0) { int k = sx::choose("dims", 7);
  if (k == 0) conc<1,1,1>(); else if (k == 1) conc<2,2,2>(); else if (k == 2) conc<1,2,2>(); else if (k == 3) conc<2,3,3>(); else if (k == 4) conc<2,2,3>(); else if (k == 5) conc<1,1,2>(); else conc<1,2,1>(); sx::reach("end"); }
SX_HARNESS(C05_conc3, "three concatenated steps as single step or as symbolic chain, all transfer modes", 0) {
  auto p = mk<1,2>("p", 4, 3, VV{{0},{0,1},{1},{2}}); auto q = mk<2,2>("q", 3, 2, VV{{0},{0,1},{1}}, true, true); auto r = mk<2,2>("r", 2, 1, VV{{0},{0}}, true, true); Array<ST> st(3); st[0] = p.s; st[1] = q.s; st[2] = r.s; auto d = mul(p.d, mul(q.d, r.d));
  int how = sx::choose("how", 4); ST c; if (how == 0) c = MakeSingleStep2(st); else if (how == 1) c = MakeSingleStep3(st); else if (how == 2) c = make_shared<ConcDMS>(st); else { Array<ST> in(2), out(2); in[0] = q.s; in[1] = r.s; auto ic = make_shared<ConcDMS>(in); out[0] = p.s; out[1] = ic; c = sx::flag("flat") ? MakeSingleStep3(out) : ST(make_shared<ConcDMS>(out)); }
  c->Finalize(); check_step(*c, d, 4, 2); sx::reach("end"); }
SX_HARNESS(C05_conc_assemble, "Galerkin matrix of a chain of three steps", 0) { auto p = mk<1,1>("p", 4, 3, VV{{0},{0},{1},{2}}); auto q = mk<1,1>("q", 3, 2, VV{{0},{0,1},{1}}); auto r = mk<1,1>("r", 2, 1, VV{{0},{0}}); Array<ST> st(3); st[0] = p.s; st[1] = q.s; st[2] = r.s; auto A = symsp<1,1>("a", 4, VV{{0,1},{0,1,2},{1,2,3},{2,3}}); auto a = dense<1,1>(*A);
  auto d = mul(p.d, mul(q.d, r.d)); ST c = sx::flag("single") ? MakeSingleStep2(st) : ST(make_shared<ConcDMS>(st)); c->Finalize(); same(denseB<1,1>(c->AssembleMatrix(A)), mul(tr(d), mul(a, d)), "coarse matrix of the chain"); sx::reach("end"); }
// the level hierarchy
SX_HARNESS(C05_map, "DOFMap of three steps: transfer between every pair of levels, sub maps, concatenations", 0) {
  int n[4] = {4, 3, 2, 1}; auto p = mk<1,1>("p", 4, 3, VV{{0},{0},{1},{2}}); auto q = mk<1,1>("q", 3, 2, VV{{0},{0,1},{1}}); auto r = mk<1,1>("r", 2, 1, VV{{0},{0}}); DMat P[3] = {p.d, q.d, r.d};
  auto map = make_shared<DOFMap>(); if (sx::flag("prepend")) { map->AddStep(q.s); map->AddStep(r.s); map->PrependStep(p.s); } else { map->AddStep(p.s); map->AddStep(q.s); map->AddStep(r.s); }
  sx::check(map->GetNSteps() == 3 && map->GetNLevels() == 4, "number of levels"); for (int l = 0; l < 4; l++) sx::check((int)map->GetUDofs(l).GetND() == n[l], "unknowns per level");
  int la = sx::choose("la", 4), lb = sx::choose("lb", 4); auto vi = map->CreateVector(la), vo = map->CreateVector(lb); symb(*vi, n[la], "x"); symb(*vo, n[lb], "y"); auto x = vals(*vi, n[la]);
  map->TransferAtoB(la, lb, vi.get(), vo.get()); auto e = x; if (la < lb) for (int l = la; l < lb; l++) e = mv(tr(P[l]), e); else for (int l = la - 1; l >= lb; l--) e = mv(P[l], e);
  for (int i = 0; i < n[lb]; i++) sx::check_eq(at(*vo, i), e[i], "transfer between levels"); for (int i = 0; i < n[la]; i++) sx::check_eq(at(*vi, i), x[i], "input untouched");
  if (la < lb) { auto st = map->ConcStep(la, lb, sx::flag("symbolic")); st->Finalize(); DMat d = P[la]; for (int l = la + 1; l < lb; l++) d = mul(d, P[l]); check_step(*st, d, n[la], n[lb]); auto sub = map->SubMap(la, lb); sx::check((int)sub->GetNSteps() == lb - la, "steps of the sub map"); for (int l = la; l < lb; l++) sx::check(sub->GetStep(l - la) == map->GetStep(l), "sub map steps"); }
  sx::reach("end"); }
SX_HARNESS(C05_map_assemble, "matrices of a three-level DOFMap", 0) { auto p = mk<1,1>("p", 3, 2, VV{{0},{0,1},{1}}, false); auto q = mk<1,1>("q", 2, 1, VV{{0},{0}}, false); DOFMap map; map.AddStep(p.s); map.AddStep(q.s); auto A = symsp<1,1>("a", 3, VV{{0,1},{0,1,2},{1,2}}); auto a = dense<1,1>(*A);
  auto ms = map.AssembleMatrices(A); sx::check(ms.Size() == 3, "one matrix per level"); auto a1 = mul(tr(p.d), mul(a, p.d)); same(denseB<1,1>(ms[0]), a, "finest matrix"); same(denseB<1,1>(ms[1]), a1, "level 1"); same(denseB<1,1>(ms[2]), mul(tr(q.d), mul(a1, q.d)), "level 2"); sx::reach("end"); }
SX_HARNESS(C05_multi, "MultiDofMapStep with one or two maps: acts as its first map; component access and concatenation keep components apart", 0) {
  auto p = mk<1,1>("p", 3, 2, VV{{0},{0,1},{1}}); auto s2 = mk<1,1>("s", 4, 2, VV{{0},{0},{1},{1}}); auto q = mk<1,1>("q", 2, 1, VV{{0},{0}}); int nm_ = 1 + sx::choose("extra", 2); Array<ST> ms(nm_); ms[0] = p.s; if (nm_ > 1) ms[1] = s2.s; auto m = make_shared<MultiDofMapStep>(ms); m->Finalize();
  sx::check(m->GetNMaps() == nm_ && m->GetPrimMap() == ST(p.s), "primary map"); sx::check((int)m->GetUDofs().GetND() == 3 && (int)m->GetMappedUDofs().GetND() == 2, "unknowns"); sx::check(m->GetBlockSize() == 1 && m->GetMappedBlockSize() == 1, "block sizes"); check_step(*m, p.d, 3, 2);
  auto A = symsp<1,1>("a", 3, VV{{0,1},{0,1,2},{1,2}}); same(denseB<1,1>(m->AssembleMatrix(A)), mul(tr(p.d), mul(dense<1,1>(*A), p.d)), "coarse matrix of the primary map");
  Array<ST> st(2); st[0] = m; st[1] = q.s; auto c = MakeSingleStep3(st); c->Finalize(); auto x = c->CreateMappedVector(); auto y = c->CreateVector(); symb(*x, 1, "z"); c->TransferC2F(y.get(), x.get()); auto e = mv(mul(p.d, q.d), vals(*x, 1)); for (int i = 0; i < 3; i++) sx::check_eq(at(*y, i), e[i], "chain through a multi step"); sx::reach("end"); }
SX_HARNESS(C05_setprol, "replacing the prolongation refreshes its transpose", 0) { auto p = mk<1,1>("p", 3, 2, VV{{0},{0,1},{1}}); auto Q = symsp<1,1>("q", 2, VV{{1},{0},{0,1}}); p.s->SetProl(Q); p.s->Finalize(); check_step(*p.s, dense<1,1>(*Q), 3, 2); sx::reach("end"); }
