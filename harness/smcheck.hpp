// Generic checks of a smoother against its matrix. Everything goes through the public BaseSmoother interface.
#pragma once
#include "common.hpp"
#include <base_smoother.hpp>
#include <functional>
namespace hx {
using DM = std::vector<std::vector<double>>;
using VF = std::function<AutoVector()>;
inline AutoVector vvec(int n, int bs) {
  if (bs == 1) return make_unique<VVector<double>>(n);
  if (bs == 2) return make_unique<VVector<Vec<2,double>>>(n / 2);
  if (bs == 3) return make_unique<VVector<Vec<3,double>>>(n / 3);
  if (bs == 6) return make_unique<VVector<Vec<6,double>>>(n / 6);
  throw Exception("vvec");
}
struct Sys { int n = 0, bs = 1; DM M; std::vector<char> free; };   // n scalar unknowns
inline double &at(const BaseVector &v, int i) { return v.FVDouble()(i); }
inline double row(const Sys &s, int i, const BaseVector &x) { double r = 0; for (int j = 0; j < s.n; j++) r += s.M[i][j] * at(x, j); return r; }
inline void setzero(BaseVector &v, int n) { for (int i = 0; i < n; i++) at(v, i) = 0.0; }
inline void symb(BaseVector &v, int n, const char *nm_) { for (int i = 0; i < n; i++) at(v, i) = sx::real(nm(nm_, i)); }

// sweep with default flags into x
inline void plain(const BaseSmoother &sm, bool bw, BaseVector &x, const BaseVector &b, BaseVector &res) {
  if (bw) sm.SmoothBack(x, b, res, false, false, false); else sm.Smooth(x, b, res, false, false, false);
}
// C01: flags are optimisations only
// kind: 0 Smooth/Back, 1 SmoothSymm, 2 SmoothK(2)/BackK(2), 3 SmoothSymmK(2)
inline void call(const BaseSmoother &sm, int kind, bool bw, BaseVector &x, const BaseVector &b, BaseVector &r, bool ru, bool ur, bool xz) {
  switch (kind) {
  case 0: if (bw) sm.SmoothBack(x, b, r, ru, ur, xz); else sm.Smooth(x, b, r, ru, ur, xz); break;
  case 1: sm.SmoothSymm(x, b, r, ru, ur, xz); break;
  case 2: if (bw) sm.SmoothBackK(2, x, b, r, ru, ur, xz); else sm.SmoothK(2, x, b, r, ru, ur, xz); break;
  default: sm.SmoothSymmK(2, x, b, r, ru, ur, xz);
  }
}
inline void check_flags(const BaseSmoother &sm, const Sys &s, int kinds = 1) {
  int n = s.n; bool ru = sx::flag("res_updated"), ur = sx::flag("update_res"), xz = sx::flag("x_zero"), bw = sx::flag("backward");
  int kind = kinds > 1 ? sx::choose("kind", kinds) : 0;
  auto x = vvec(n, s.bs), b = vvec(n, s.bs), r = vvec(n, s.bs), x2 = vvec(n, s.bs), r2 = vvec(n, s.bs), b0 = vvec(n, s.bs);
  symb(b, n, "b"); for (int i = 0; i < n; i++) at(b0, i) = at(b, i);
  if (xz) setzero(x, n); else symb(x, n, "x");
  for (int i = 0; i < n; i++) at(x2, i) = at(x, i);
  if (ru) for (int i = 0; i < n; i++) at(r, i) = at(b, i) - row(s, i, x); else symb(r, n, "garbage");
  setzero(r2, n);
  call(sm, kind, bw, x, b, r, ru, ur, xz);
  // reference: plain sweeps, nothing known, nothing kept
  if (kind == 0) plain(sm, bw, x2, b, r2);
  else if (kind == 2) { plain(sm, bw, x2, b, r2); plain(sm, bw, x2, b, r2); }
  else for (int k = 0; k < (kind == 1 ? 1 : 2); k++) { plain(sm, false, x2, b, r2); plain(sm, true, x2, b, r2); }
  for (int i = 0; i < n; i++) sx::check_eq(at(x, i), at(x2, i), "same iterate for every flag combination");
  if (ur) for (int i = 0; i < n; i++) sx::check_eq(at(r, i), at(b, i) - row(s, i, x), "residual up to date on return");
  for (int i = 0; i < n; i++) sx::check_eq(at(b, i), at(b0, i), "right hand side untouched");
  sx::reach("end");
}
// C02: backward sweep is the adjoint of the forward one (A symmetric): c.F(b) == b.B(c) from zero
inline void check_adjoint(const BaseSmoother &sm, const Sys &s) {
  int n = s.n; auto x = vvec(n, s.bs), b = vvec(n, s.bs), r = vvec(n, s.bs), y = vvec(n, s.bs), c = vvec(n, s.bs);
  // both operators are linear maps of the right hand side: check all pairs of unit vectors, chosen symbolically
  std::vector<std::vector<double>> F(n, std::vector<double>(n)), B(n, std::vector<double>(n));
  bool ur = sx::flag("update_res");
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < n; i++) at(b, i) = (i == j) ? 1.0 : 0.0;
    setzero(x, n); setzero(y, n); setzero(r, n);
    sm.Smooth(x, b, r, false, ur, true); setzero(r, n);
    sm.SmoothBack(y, b, r, false, ur, true);
    for (int i = 0; i < n; i++) { F[i][j] = at(x, i); B[i][j] = at(y, i); }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sx::check_eq(F[i][j], B[j][i], "backward = adjoint of forward");
  sx::reach("end");
}
// C03: a sweep only depends on the residual, keeps the exact solution, leaves non-free unknowns alone
inline void check_consistent(const BaseSmoother &sm, const Sys &s) {
  int n = s.n; bool bw = sx::flag("backward"), ur = sx::flag("update_res"), fix = sx::flag("exact");
  auto x = vvec(n, s.bs), b = vvec(n, s.bs), r = vvec(n, s.bs), x2 = vvec(n, s.bs), b2 = vvec(n, s.bs), x0 = vvec(n, s.bs);
  symb(x, n, "x"); for (int i = 0; i < n; i++) at(x0, i) = at(x, i);
  for (int i = 0; i < n; i++) at(b2, i) = (fix && s.free[i]) ? 0.0 : sx::real(nm("rho", i));   // residual
  for (int i = 0; i < n; i++) at(b, i) = row(s, i, x) + at(b2, i);
  setzero(r, n); setzero(x2, n);
  if (bw) { sm.SmoothBack(x, b, r, false, ur, false); if (!fix) sm.SmoothBack(x2, b2, r, false, ur, true); }
  else    { sm.Smooth(x, b, r, false, ur, false); if (!fix) sm.Smooth(x2, b2, r, false, ur, true); }
  if (fix) for (int i = 0; i < n; i++) sx::check_eq(at(x, i), at(x0, i), "solved equations are left alone");
  else     for (int i = 0; i < n; i++) sx::check_eq(at(x, i) - at(x0, i), at(x2, i), "update depends on the residual only");
  for (int i = 0; i < n; i++) if (!s.free[i]) sx::check_eq(at(x, i), at(x0, i), "non-free unknown untouched");
  sx::reach("end");
}
// C03: textbook multiplicative block sweep; dense inverse by cofactors/elimination in exact arithmetic
inline bool dense_inv(DM &a) {
  int n = a.size(); DM v(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) v[i][i] = 1.0;
  if (n == 1) { a[0][0] = 1.0 / a[0][0]; return true; }
  if (n == 2) { double d = a[0][0]*a[1][1] - a[0][1]*a[1][0]; double p = a[1][1]/d, q = -a[0][1]/d, r = -a[1][0]/d, t = a[0][0]/d; a = {{p,q},{r,t}}; return true; }
  if (n == 3) {
    auto m = [&](int i, int j, int k, int l) { return a[i][k]*a[j][l] - a[i][l]*a[j][k]; };
    double d = a[0][0]*m(1,2,1,2) - a[0][1]*m(1,2,0,2) + a[0][2]*m(1,2,0,1);
    DM w = {{m(1,2,1,2)/d, -m(0,2,1,2)/d, m(0,1,1,2)/d}, {-m(1,2,0,2)/d, m(0,2,0,2)/d, -m(0,1,0,2)/d}, {m(1,2,0,1)/d, -m(0,2,0,1)/d, m(0,1,0,1)/d}};
    a = w; return true;
  }
  for (int k = 0; k < n; k++) {
    double p = 1.0 / a[k][k];
    for (int j = 0; j < n; j++) { a[k][j] *= p; v[k][j] *= p; }
    for (int i = 0; i < n; i++) if (i != k) { double f = a[i][k]; for (int j = 0; j < n; j++) { a[i][j] -= f * a[k][j]; v[i][j] -= f * v[k][j]; } }
  }
  a = v; return true;
}
// blocks in execution order (forward); each: list of scalar dofs; D: optional replacement diagonal block
inline void textbook(const Sys &s, const std::vector<std::vector<int>> &blocks, bool bw, BaseVector &x, const BaseVector &b) {
  int nb = blocks.size();
  for (int q = 0; q < nb; q++) {
    auto &B = blocks[bw ? nb - 1 - q : q]; int m = B.size(); DM D(m, std::vector<double>(m));
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) D[i][j] = s.M[B[i]][B[j]];
    dense_inv(D);
    std::vector<double> r(m); for (int i = 0; i < m; i++) r[i] = at(b, B[i]) - row(s, B[i], x);
    for (int i = 0; i < m; i++) { double u = 0; for (int j = 0; j < m; j++) u += D[i][j] * r[j]; at(x, B[i]) += u; }
  }
}
inline void check_textbook(const BaseSmoother &sm, const Sys &s, const std::vector<std::vector<int>> &blocks) {
  int n = s.n; bool bw = sx::flag("backward"), ur = sx::flag("update_res");
  auto x = vvec(n, s.bs), b = vvec(n, s.bs), r = vvec(n, s.bs), x2 = vvec(n, s.bs);
  symb(x, n, "x"); symb(b, n, "b"); setzero(r, n); for (int i = 0; i < n; i++) at(x2, i) = at(x, i);
  if (bw) sm.SmoothBack(x, b, r, false, ur, false); else sm.Smooth(x, b, r, false, ur, false);
  textbook(s, blocks, bw, x2, b);
  for (int i = 0; i < n; i++) sx::check_eq(at(x, i), at(x2, i), "sweep = successive exact block solves");
  sx::reach("end");
}
// symmetric system matrix with symbolic entries on a symmetric sparsity pattern over nodes
inline std::vector<std::vector<int>> patt(int nn, const std::vector<std::pair<int,int>> &e) {
  std::vector<std::vector<int>> c(nn); for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) { bool on = i == j; for (auto &q : e) if ((q.first == i && q.second == j) || (q.first == j && q.second == i)) on = true; if (on) c[i].push_back(j); } return c;
}
template<int BS> struct TMs { typedef Mat<BS,BS,double> T; }; template<> struct TMs<1> { typedef double T; };
template<int BS> inline double &ent(typename TMs<BS>::T &m, int i, int j) { if constexpr (BS == 1) return m; else return m(i, j); }
template<int BS> struct SpSys : Sys { std::vector<std::vector<int>> cols; shared_ptr<SparseMatrix<typename TMs<BS>::T>> A; shared_ptr<BitArray> fd; };
// dens: full symbolic blocks; else diagonal coupling blocks (off-diagonal node pairs couple componentwise) to keep terms small
template<int BS> inline SpSys<BS> mksys(int nn, const std::vector<std::vector<int>> &cols, bool symbfree, bool full = true, const char *name = "a") {
  SpSys<BS> s; s.n = nn * BS; s.bs = BS; s.cols = cols; s.M.assign(s.n, std::vector<double>(s.n, 0.0)); s.free.assign(s.n, 1);
  for (int I = 0; I < nn; I++) for (int J : cols[I]) if (J <= I) for (int i = 0; i < BS; i++) for (int j = 0; j < BS; j++) {
    int p = I*BS+i, q = J*BS+j; if (I == J && j > i) continue;
    bool on = full || i == j || (I == J); if (!on) continue;
    double v = (p == q) ? nonzero(nm(name, p, q)) : sx::real(nm(name, p, q));
    s.M[p][q] = s.M[q][p] = v;
  }
  Array<int> per(nn); for (int i = 0; i < nn; i++) per[i] = cols[i].size();
  s.A = make_shared<SparseMatrix<typename TMs<BS>::T>>(per, nn);
  for (int I = 0; I < nn; I++) { auto ri = s.A->GetRowIndices(I); for (size_t k = 0; k < cols[I].size(); k++) ri[k] = cols[I][k]; }
  for (int I = 0; I < nn; I++) { auto ri = s.A->GetRowIndices(I); auto rv = s.A->GetRowValues(I); for (size_t k = 0; k < ri.Size(); k++) for (int i = 0; i < BS; i++) for (int j = 0; j < BS; j++) ent<BS>(rv[k], i, j) = s.M[I*BS+i][ri[k]*BS+j]; }
  if (symbfree) { s.fd = make_shared<BitArray>(nn); s.fd->Clear(); for (int i = 0; i < nn; i++) { bool f = sx::flag(nm("free", i)); if (f) s.fd->SetBit(i); for (int k = 0; k < BS; k++) s.free[i*BS+k] = f; } }
  return s;
}
template<int BS> inline void inv_ok(const SpSys<BS> &s, const std::vector<int> &dofs) {  // the block is invertible
  int m = dofs.size(); if (m == 2) sx::assume(s.M[dofs[0]][dofs[0]]*s.M[dofs[1]][dofs[1]] - s.M[dofs[0]][dofs[1]]*s.M[dofs[1]][dofs[0]] != 0.0);
}
inline Table<int> mktable(const std::vector<std::vector<int>> &b) { TableCreator<int> c(b.size()); for (; !c.Done(); c++) for (size_t i = 0; i < b.size(); i++) for (int d : b[i]) c.Add(i, d); return c.MoveTable(); }
}
