// PROPERTY: C01 C02 C03
// TUS: base/smoothers/gssmoother.cpp base/smoothers/base_smoother.cpp base/smoothers/block_gssmoother.cpp base/smoothers/loc_block_gssmoother.cpp
#include "smcheck.hpp"
#include <block_gssmoother.hpp>
using namespace hx;
typedef std::vector<std::vector<int>> VV;
// block layouts over 4 (3) nodes: order inside a block is arbitrary, blocks may overlap, may be empty, nodes may be uncovered
static VV lay4(int k) { switch (k) { case 0: return {{0,1},{2,3}}; case 1: return {{1,0},{2}}; case 2: return {{0,1},{1,2},{3}}; case 3: return {{3,0},{},{1,2}}; default: return {{2},{0,3},{1}}; } }
static VV lay3(int k) { switch (k) { case 0: return {{0,1},{2}}; case 1: return {{1,0},{1,2}}; default: return {{2},{},{0}}; } }
static VV scal(const VV &b, int bs) { VV r; for (auto &q : b) { r.push_back({}); auto s = q; std::sort(s.begin(), s.end()); for (int d : s) for (int k = 0; k < bs; k++) r.back().push_back(d*bs+k); } return r; }
template<int BS> static void cover(SpSys<BS> &s, const VV &b) { s.free.assign(s.n, 0); for (auto &q : scal(b, BS)) for (int d : q) s.free[d] = 1; for (auto &q : scal(b, BS)) inv_ok<BS>(s, q); }
template<class F> static void bs4(F f, bool overlap_ok = true) {
  auto s = mksys<1>(4, patt(4, {{0,1},{1,2},{2,3},{0,3}}), false); int k = sx::choose("layout", 5); if (!overlap_ok && k == 2) k = 0; auto b = lay4(k); cover(s, b); f(s, b); }
template<class F> static void bs3(F f) { auto s = mksys<1>(3, patt(3, {{0,1},{1,2}}), false); auto b = lay3(sx::choose("layout", 3)); cover(s, b); f(s, b); }
template<class F> static void bsb(F f) { auto s = mksys<2>(2, patt(2, {{0,1}}), false, false); int k = sx::choose("layout", 2); VV b = k ? VV{{1},{0}} : VV{{0}}; cover(s, b); f(s, b); }
typedef BSmoother<double> B1; typedef BSmoother<Mat<2,2,double>> B1b; typedef BSmoother2<double> B2; typedef BSmoother2<Mat<2,2,double>> B2b;

SX_HARNESS(C01_bs, "BSmoother<double>, n=3, 3 block layouts, coloured or sequential", 0) { bs3([&](auto &s, auto &b) { B1 sm(s.A, mktable(b), sx::flag("parallel"), false, false); check_flags(sm, s); }); }
SX_HARNESS(C01_bs_sl2, "BSmoother<double> shared loop, n=3", 1) { bs3([&](auto &s, auto &b) { B1 sm(s.A, mktable(b), true, true, false); check_flags(sm, s); }); }
SX_HARNESS(C01_bs_b2, "BSmoother<Mat<2,2>>, 2 nodes", 0) { bsb([&](auto &s, auto &b) { B1b sm(s.A, mktable(b), sx::flag("parallel"), false, false); check_flags(sm, s); }); }
SX_HARNESS(C01_bs2, "BSmoother2<double>, n=3, all K/symm variants", 0) { bs3([&](auto &s, auto &b) { auto sm = make_shared<B2>(s.A, mktable(b), false, false, false, false); check_flags(*sm, s, 4); }); }
SX_HARNESS(C01_bs2_b2, "BSmoother2<Mat<2,2>>, 2 nodes", 0) { bsb([&](auto &s, auto &b) { auto sm = make_shared<B2b>(s.A, mktable(b), false, false, false, false); check_flags(*sm, s, 1); }); }

// non-overlapping variant: blocks are a partition
static VV lay3p(int k) { switch (k) { case 0: return {{0,1},{2}}; case 1: return {{2},{1},{0}}; default: return {{1},{2,0}}; } }
template<class F> static void bs3p(F f) { auto s = mksys<1>(3, patt(3, {{0,1},{1,2},{0,2}}), false); auto b = lay3p(sx::choose("layout", 3)); cover(s, b); f(s, b); }
SX_HARNESS(C01_bs2_no, "BSmoother2<double> non-overlapping mode, n=3, 3 partitions, all K/symm variants", 0) { bs3p([&](auto &s, auto &b) { auto sm = make_shared<B2>(s.A, mktable(b), false, false, false, true); check_flags(*sm, s, 4); }); }
template<class F> static void bsbf(F f) { auto s = mksys<2>(2, patt(2, {{0,1}}), false, true); VV b = {{1},{0}}; cover(s, b); f(s, b); }
SX_HARNESS(C01_bs2_no_b2, "BSmoother2<Mat<2,2>> non-overlapping mode, 2 nodes, full coupling", 0) { bsbf([&](auto &s, auto &b) { auto sm = make_shared<B2b>(s.A, mktable(b), false, false, false, true); check_flags(*sm, s, 2); }); }
SX_HARNESS(C02_bs2_no, "BSmoother2<double> non-overlapping mode, n=3", 0) { bs3p([&](auto &s, auto &b) { auto sm = make_shared<B2>(s.A, mktable(b), false, false, false, true); check_adjoint(*sm, s); }); }
SX_HARNESS(C03_bs2_no_text, "BSmoother2<double> non-overlapping mode, n=3, against textbook", 0) { bs3p([&](auto &s, auto &b) { auto sm = make_shared<B2>(s.A, mktable(b), false, false, false, true); check_textbook(*sm, s, scal(b, 1)); }); }

SX_HARNESS(C02_bs, "BSmoother<double>, n=4, 5 block layouts, coloured or sequential", 0) { bs4([&](auto &s, auto &b) { B1 sm(s.A, mktable(b), sx::flag("parallel"), false, false); check_adjoint(sm, s); }); }
SX_HARNESS(C02_bs2, "BSmoother2<double>, n=4, 5 layouts", 0) { bs4([&](auto &s, auto &b) { auto sm = make_shared<B2>(s.A, mktable(b), false, false, false, false); check_adjoint(*sm, s); }); }
SX_HARNESS(C02_bs_b2, "BSmoother<Mat<2,2>>, 2 nodes", 0) { bsb([&](auto &s, auto &b) { B1b sm(s.A, mktable(b), sx::flag("parallel"), false, false); check_adjoint(sm, s); }); }
SX_HARNESS(C02_bs2_b2, "BSmoother2<Mat<2,2>>, 2 nodes", 0) { bsb([&](auto &s, auto &b) { auto sm = make_shared<B2b>(s.A, mktable(b), false, false, false, false); check_adjoint(*sm, s); }); }

SX_HARNESS(C03_bs, "BSmoother<double>, n=3", 0) { bs3([&](auto &s, auto &b) { B1 sm(s.A, mktable(b), sx::flag("parallel"), false, false); check_consistent(sm, s); }); }
SX_HARNESS(C03_bs2, "BSmoother2<double>, n=3", 0) { bs3([&](auto &s, auto &b) { auto sm = make_shared<B2>(s.A, mktable(b), false, false, false, false); check_consistent(*sm, s); }); }
SX_HARNESS(C03_bs_text, "BSmoother<double> sequential, n=4, 5 layouts, against textbook block Gauss-Seidel", 0) { bs4([&](auto &s, auto &b) { B1 sm(s.A, mktable(b), false, false, false); check_textbook(sm, s, scal(b, 1)); }); }
SX_HARNESS(C03_bs2_text, "BSmoother2<double>, n=4, 5 layouts, against textbook", 0) { bs4([&](auto &s, auto &b) { auto sm = make_shared<B2>(s.A, mktable(b), false, false, false, false); check_textbook(*sm, s, scal(b, 1)); }); }
SX_HARNESS(C03_bs_b2_text, "BSmoother<Mat<2,2>>, 2 nodes, against textbook", 0) { bsb([&](auto &s, auto &b) { B1b sm(s.A, mktable(b), false, false, false); check_textbook(sm, s, scal(b, 2)); }); }
SX_HARNESS(C03_bs2_b2_text, "BSmoother2<Mat<2,2>>, 2 nodes, against textbook", 0) { bsb([&](auto &s, auto &b) { auto sm = make_shared<B2b>(s.A, mktable(b), false, false, false, false); check_textbook(*sm, s, scal(b, 2)); }); }
// replaced diagonal (modified diagonals of the parallel smoother)
template<class SM> static void repl(bool two) {
  auto s = mksys<1>(3, patt(3, {{0,1},{1,2},{0,2}}), false); VV b = {{0,1},{2}}; Array<double> md(3); for (int i = 0; i < 3; i++) md[i] = nonzero(nm("md", i));
  sx::assume(md[0]*md[1] - s.M[0][1]*s.M[0][1] != 0.0);
  shared_ptr<BaseSmoother> sm; if (two) sm = make_shared<B2>(s.A, mktable(b), false, false, false, false, md); else sm = make_shared<B1>(s.A, mktable(b), false, false, false, md);
  bool bw = sx::flag("backward"), ur = sx::flag("update_res"); auto x = vvec(3,1), x2 = vvec(3,1), bb = vvec(3,1), r = vvec(3,1); symb(x, 3, "x"); symb(bb, 3, "b"); setzero(r, 3); for (int i = 0; i < 3; i++) at(x2,i) = at(x,i);
  if (bw) sm->SmoothBack(x, bb, r, false, ur, false); else sm->Smooth(x, bb, r, false, ur, false);
  for (int q = 0; q < 2; q++) { auto &B = b[bw ? 1-q : q]; DM D(B.size(), std::vector<double>(B.size())); for (size_t i = 0; i < B.size(); i++) for (size_t j = 0; j < B.size(); j++) D[i][j] = i == j ? md[B[i]] : s.M[B[i]][B[j]]; dense_inv(D);
    std::vector<double> rr(B.size()); for (size_t i = 0; i < B.size(); i++) rr[i] = at(bb, B[i]) - row(s, B[i], x2); for (size_t i = 0; i < B.size(); i++) { double u = 0; for (size_t j = 0; j < B.size(); j++) u += D[i][j]*rr[j]; at(x2, B[i]) += u; } }
  for (int i = 0; i < 3; i++) sx::check_eq(at(x,i), at(x2,i), "block solves with the given diagonal");
  if (ur) for (int i = 0; i < 3; i++) sx::check_eq(at(r,i), at(bb,i) - row(s, i, x), "residual of the original matrix");
  sx::reach("end");
}
SX_HARNESS(C03_bs_repl, "BSmoother<double> with replaced diagonal, n=3", 0) { repl<B1>(false); }
SX_HARNESS(C03_bs2_repl, "BSmoother2<double> with replaced diagonal, n=3", 0) { repl<B2>(true); }
// additive application
SX_HARNESS(C03_bs_jac, "BSmoother/BSmoother2 MultAdd, n=3 non-overlapping blocks", 0) {
  auto s = mksys<1>(3, patt(3, {{0,1},{1,2}}), false); VV b = {{0,1},{2}}; cover(s, b); double c = sx::real("c"); shared_ptr<BaseSmoother> sm; sm = make_shared<B1>(s.A, mktable(b), false, false, false);
  auto x = vvec(3,1), bb = vvec(3,1); symb(x, 3, "x"); symb(bb, 3, "b"); double x0[3]; for (int i = 0; i < 3; i++) x0[i] = at(x,i); sm->MultAdd(c, bb, x);
  double d = s.M[0][0]*s.M[1][1]-s.M[0][1]*s.M[0][1], u[3] = {(s.M[1][1]*at(bb,0)-s.M[0][1]*at(bb,1))/d, (s.M[0][0]*at(bb,1)-s.M[0][1]*at(bb,0))/d, at(bb,2)/s.M[2][2]};
  for (int i = 0; i < 3; i++) sx::check_eq(at(x,i), x0[i] + c*u[i], "MultAdd adds the scaled block solves"); sx::reach("end");
}
