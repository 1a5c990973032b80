// PROPERTY: C01 C02 C03
// TUS: base/linalg/dyn_block.cpp base/smoothers/dyn_block_smoother.cpp base/smoothers/base_smoother.cpp base/smoothers/hybrid_base_smoother.cpp base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/bla_extension.cpp
#include "smcheck.hpp"
#include <dyn_block.hpp>
#include <dyn_block_impl.hpp>
#include <dyn_block_smoother.hpp>
using namespace hx;
// patterns over 3..4 unknowns with diagonal; the unknowns with identical rows become one block
static SpSys<1> sys(bool free_, int maxn = 4) {
  int k = sx::choose("pattern", maxn == 4 ? 5 : 3); std::vector<std::pair<int,int>> e; int n = 3;
  switch (k) { case 0: e = {{0,1},{1,2}}; break; case 1: e = {{0,1}}; break; case 2: e = {{0,2}}; break; case 3: n = 4; e = {{0,1},{2,3},{1,2}}; break; default: n = 4; e = {{0,1},{2,3}}; }
  auto s = mksys<1>(n, patt(n, e), free_); inv_ok(s, {0,1}); if (n == 4) inv_ok(s, {2,3}); if (k == 2) inv_ok(s, {0,2}); return s; }
static shared_ptr<DynBlockSmoother<double>> mk(const SpSys<1> &s, double om = 1.0) { return make_shared<DynBlockSmoother<double>>(ConvertToDynSPM(*s.A), s.fd, om); }
SX_HARNESS(C01_dyn, "dynamic block smoother, 3..4 unknowns, 5 patterns, all flag combinations", 0) { auto s = sys(false); check_flags(*mk(s), s, 1); }
SX_HARNESS(C01_dyn_free, "same with every set of free unknowns, damped", 0) { auto s = sys(true, 3); check_flags(*mk(s, 0.5), s, 1); }
SX_HARNESS(C01_dyn_kinds, "all sweep kinds, 3 unknowns in two blocks", 0) { auto s = mksys<1>(3, patt(3, {{0,1}}), false); inv_ok(s, {0,1}); check_flags(*mk(s), s, 4); }
SX_HARNESS(C02_dyn, "dynamic block smoother, adjoint sweeps", 0) { auto s = sys(true); check_adjoint(*mk(s), s); }
SX_HARNESS(C03_dyn, "consistency of dynamic block sweeps, every set of free unknowns", 0) { auto s = sys(true); check_consistent(*mk(s), s); }
static std::vector<std::vector<int>> blocksOf(const DynBlockSparseMatrix<double> &D, const Sys &s) { std::vector<std::vector<int>> b; Array<unsigned> rb(s.n + 1), cb(s.n + 1); for (int k = 0; k < (int)D.GetNumBlocks(); k++) { auto [r, c, v] = D.GetBlockRCV(k, rb, cb); std::vector<int> q; for (auto i : r) if (s.free[i]) q.push_back(i); if (q.size()) b.push_back(q); } return b; }
SX_HARNESS(C03_dyn_tb, "dynamic block sweep = exact solves with its row blocks (free part)", 0) { auto s = sys(true); auto D = ConvertToDynSPM(*s.A); DynBlockSmoother<double> sm(D, s.fd); check_textbook(sm, s, blocksOf(*D, s)); }
SX_HARNESS(C03_dyn_mod, "replaced diagonal entries are used in the block inverses", 0) { auto s = mksys<1>(3, patt(3, {{0,1}}), false); auto D = ConvertToDynSPM(*s.A); Array<double> md(3); for (int i = 0; i < 3; i++) md[i] = nonzero(nm("md", i)); sx::assume(md[0]*md[1] - s.M[0][1]*s.M[0][1] != 0.0);
  DynBlockSmoother<double> sm(D, md, nullptr); auto x = vvec(3, 1), b = vvec(3, 1), r = vvec(3, 1); symb(b, 3, "b"); setzero(x, 3); setzero(r, 3); bool bw = sx::flag("backward"); plain(sm, bw, x, b, r); double d = md[0]*md[1] - s.M[0][1]*s.M[0][1];
  sx::check_eq(at(x, 0) * d, md[1]*at(b, 0) - s.M[0][1]*at(b, 1), "block solve"); sx::check_eq(at(x, 1) * d, md[0]*at(b, 1) - s.M[0][1]*at(b, 0), "block solve"); sx::check_eq(at(x, 2) * md[2], at(b, 2), "block solve"); sx::reach("end"); }
