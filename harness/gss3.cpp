// PROPERTY: C01 C02 C03
// TUS: base/smoothers/gssmoother.cpp base/smoothers/base_smoother.cpp
#include "smcheck.hpp"
#include <gssmoother.hpp>
using namespace hx;
static std::vector<std::vector<int>> P3() { int p = sx::choose("pattern", 3); if (p == 0) return patt(3, {{0,1},{1,2},{0,2}}); if (p == 1) return patt(3, {{0,1},{1,2}}); return patt(3, {{0,2}}); }
template<int BS> static void node_ok(SpSys<BS> &s) { if (BS == 2) for (int I = 0; I < s.n / 2; I++) inv_ok<BS>(s, {2*I, 2*I+1}); }

SX_HARNESS(C01_gss3, "GSS3<double>, n=3, 3 sparsity patterns, all free sets", 0) { auto s = mksys<1>(3, P3(), true); GSS3<double> sm(s.A, s.fd); check_flags(sm, s, 1); }
SX_HARNESS(C01_gss3_k, "GSS3<double>, n=2, symm/K-step variants", 0) { auto s = mksys<1>(2, patt(2, {{0,1}}), true); GSS3<double> sm(s.A, s.fd); check_flags(sm, s, 4); }
SX_HARNESS(C01_gss3_b2, "GSS3<Mat<2,2>>, 2 nodes", 0) { auto s = mksys<2>(2, patt(2, {{0,1}}), true); node_ok(s); GSS3<Mat<2,2,double>> sm(s.A, s.fd); check_flags(sm, s, 1); }
SX_HARNESS(C01_proxy, "ProxySmoother over GSS3, n=2, 1..3 steps, symmetric or not", 0) {
  auto s = mksys<1>(2, patt(2, {{0,1}}), false); auto in = make_shared<GSS3<double>>(s.A, s.fd); int k = 1 + sx::choose("steps", sx::tier() ? 3 : 2); ProxySmoother sm(in, k, sx::flag("symm")); check_flags(sm, s, 1); }
SX_HARNESS(C01_jacobi, "JacobiSmoother<double>, n=3", 0) { auto s = mksys<1>(3, P3(), true); double om = sx::real("omega"); JacobiSmoother<double> sm(s.A, s.fd, om); check_flags(sm, s, 4); }
SX_HARNESS(C01_jacobi_b2, "JacobiSmoother<Mat<2,2>>, 2 nodes", 0) { auto s = mksys<2>(2, patt(2, {{0,1}}), true); node_ok(s); double om = sx::real("omega"); JacobiSmoother<Mat<2,2,double>> sm(s.A, s.fd, om); check_flags(sm, s, 1); }

SX_HARNESS(C02_gss3, "GSS3<double>, n=3", 0) { auto s = mksys<1>(3, P3(), true); GSS3<double> sm(s.A, s.fd); check_adjoint(sm, s); }
SX_HARNESS(C02_gss3_b2, "GSS3<Mat<2,2>>, 2 nodes", 0) { auto s = mksys<2>(2, patt(2, {{0,1}}), true); node_ok(s); GSS3<Mat<2,2,double>> sm(s.A, s.fd); check_adjoint(sm, s); }
SX_HARNESS(C02_proxy, "ProxySmoother, n=2", 0) { auto s = mksys<1>(2, patt(2, {{0,1}}), false); auto in = make_shared<GSS3<double>>(s.A, s.fd); ProxySmoother sm(in, 2, sx::flag("symm")); check_adjoint(sm, s); }
SX_HARNESS(C02_jacobi, "JacobiSmoother, n=3", 0) { auto s = mksys<1>(3, P3(), true); double om = sx::real("omega"); JacobiSmoother<double> sm(s.A, s.fd, om); check_adjoint(sm, s); }

SX_HARNESS(C03_gss3, "GSS3<double>, n=3", 0) { auto s = mksys<1>(3, P3(), true); GSS3<double> sm(s.A, s.fd); check_consistent(sm, s); }
SX_HARNESS(C03_gss3_b2, "GSS3<Mat<2,2>>, 2 nodes", 0) { auto s = mksys<2>(2, patt(2, {{0,1}}), true); node_ok(s); GSS3<Mat<2,2,double>> sm(s.A, s.fd); check_consistent(sm, s); }
SX_HARNESS(C03_jacobi, "JacobiSmoother<double>, n=3", 0) { auto s = mksys<1>(3, P3(), true); double om = sx::real("omega"); JacobiSmoother<double> sm(s.A, s.fd, om); check_consistent(sm, s); }
SX_HARNESS(C03_gss3_text, "GSS3<double>, n=3 against textbook Gauss-Seidel", 0) {
  auto s = mksys<1>(3, P3(), true); GSS3<double> sm(s.A, s.fd); std::vector<std::vector<int>> bl; for (int i = 0; i < 3; i++) if (s.free[i]) bl.push_back({i}); check_textbook(sm, s, bl); }
SX_HARNESS(C03_gss3_text_b2, "GSS3<Mat<2,2>>, 2 nodes against textbook block Gauss-Seidel", 0) {
  auto s = mksys<2>(2, patt(2, {{0,1}}), true); node_ok(s); GSS3<Mat<2,2,double>> sm(s.A, s.fd); std::vector<std::vector<int>> bl; for (int i = 0; i < 2; i++) if (s.free[2*i]) bl.push_back({2*i,2*i+1}); check_textbook(sm, s, bl); }
// range-limited sweeps: [0,k) then [k,n) is the full sweep (and the reverse backward), rhs- and residual-based
SX_HARNESS(C03_gss3_range, "GSS3<double>, n=3, every split", 0) {
  auto s = mksys<1>(3, P3(), true); GSS3<double> sm(s.A, s.fd); int k = sx::choose("split", 4); bool bw = sx::flag("backward"), rs = sx::flag("res");
  VVector<double> x(3), b(3), r(3), x2(3), r2(3); symb(x, 3, "x"); symb(b, 3, "b"); for (int i = 0; i < 3; i++) x2(i) = x(i); for (int i = 0; i < 3; i++) r(i) = b(i) - row(s, i, x);
  if (bw) sm.SmoothBack(x2, b, r2, false, false, false); else sm.Smooth(x2, b, r2, false, false, false);
  if (rs) { if (bw) { sm.SmoothBackRES(k, 3, x, r); sm.SmoothBackRES(0, k, x, r); } else { sm.SmoothRES(0, k, x, r); sm.SmoothRES(k, 3, x, r); } }
  else    { if (bw) { sm.SmoothBack(k, 3, x, b); sm.SmoothBack(0, k, x, b); } else { sm.Smooth(0, k, x, b); sm.Smooth(k, 3, x, b); } }
  for (int i = 0; i < 3; i++) sx::check_eq(x(i), x2(i), "split sweep = full sweep");
  if (rs) for (int i = 0; i < 3; i++) sx::check_eq(r(i), b(i) - row(s, i, x), "residual up to date after split sweep");
  sx::reach("end");
}
// MultAdd: block-Jacobi application
SX_HARNESS(C03_gss3_jac, "GSS3 MultAdd/Mult/MultTrans, n=3", 0) {
  auto s = mksys<1>(3, P3(), true); GSS3<double> sm(s.A, s.fd); VVector<double> x(3), b(3), y(3), z(3); symb(x, 3, "x"); symb(b, 3, "b"); double c = sx::real("c");
  double x0[3]; for (int i = 0; i < 3; i++) x0[i] = x(i);
  sm.MultAdd(c, b, x); sm.Mult(b, y); sm.MultTrans(b, z);
  for (int i = 0; i < 3; i++) { double e = s.free[i] ? b(i) / s.M[i][i] : 0.0; sx::check_eq(x(i), x0[i] + c * e, "MultAdd = scaled diagonal inverse"); sx::check_eq(y(i), e, "Mult"); sx::check_eq(z(i), e, "MultTrans"); }
  sx::reach("end");
}
// replaced diagonal is the one that gets inverted
SX_HARNESS(C03_gss3_repl, "GSS3/GSS4 with replaced diagonal, n=3, all free sets", 0) {
  auto s = mksys<1>(3, P3(), true); Array<double> md(3); for (int i = 0; i < 3; i++) md[i] = nonzero(nm("md", i));
  bool bw = sx::flag("backward"), rs = sx::flag("res"), four = sx::flag("gss4"); VVector<double> x(3), b(3), r(3), x2(3); symb(x, 3, "x"); symb(b, 3, "b");
  for (int i = 0; i < 3; i++) { x2(i) = x(i); r(i) = b(i) - row(s, i, x); }
  if (four) { GSS4<double> sm(s.A, md, s.fd); if (rs) { if (bw) sm.SmoothBackRES(x, r); else sm.SmoothRES(x, r); } else { if (bw) sm.SmoothBack(x, b); else sm.Smooth(x, b); } }
  else { GSS3<double> sm(s.A, md, s.fd); if (rs) { if (bw) sm.SmoothBackRES(0, 3, x, r); else sm.SmoothRES(0, 3, x, r); } else { if (bw) sm.SmoothBack(0, 3, x, b); else sm.Smooth(0, 3, x, b); } }
  for (int q = 0; q < 3; q++) { int i = bw ? 2 - q : q; if (s.free[i]) x2(i) += (b(i) - row(s, i, x2)) / md[i]; }
  for (int i = 0; i < 3; i++) sx::check_eq(x(i), x2(i), "sweep with given diagonal");
  if (rs) for (int i = 0; i < 3; i++) sx::check_eq(r(i), b(i) - row(s, i, x), "residual");
  sx::reach("end");
}
SX_HARNESS(C03_gss4, "GSS4<double>, n=3, all free sets, against textbook", 0) {
  auto s = mksys<1>(3, P3(), true); bool bw = sx::flag("backward"), rs = sx::flag("res"); GSS4<double> sm(s.A, s.fd);
  VVector<double> x(3), b(3), r(3), x2(3), y(3); symb(x, 3, "x"); symb(b, 3, "b"); for (int i = 0; i < 3; i++) { x2(i) = x(i); r(i) = b(i) - row(s, i, x); y(i) = 0.0; }
  sm.MultAdd(1.0, b, y);
  if (rs) { if (bw) sm.SmoothBackRES(x, r); else sm.SmoothRES(x, r); } else { if (bw) sm.SmoothBack(x, b); else sm.Smooth(x, b); }
  for (int q = 0; q < 3; q++) { int i = bw ? 2 - q : q; if (s.free[i]) x2(i) += (b(i) - row(s, i, x2)) / s.M[i][i]; }
  for (int i = 0; i < 3; i++) { sx::check_eq(x(i), x2(i), "sweep = textbook Gauss-Seidel"); sx::check_eq(y(i), s.free[i] ? b(i) / s.M[i][i] : 0.0, "MultAdd = diagonal inverse"); }
  if (rs) for (int i = 0; i < 3; i++) sx::check_eq(r(i), b(i) - row(s, i, x), "residual");
  sx::reach("end");
}
