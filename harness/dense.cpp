// PROPERTY: C08
// TUS: base/utils/utils_denseLA.cpp
// ASSUME: eigenvalues are zero or between 0.1 and 10 (outside that range the tolerances of the code decide); LAPACK eigen/Cholesky routines behave as specified
#include "spcheck.hpp"
#include <utils_denseLA.hpp>
#include <alg_mesh.hpp>
#include <spw_agg.hpp>
#include <agglomerator_utils.hpp>
using namespace hx;
static LocalHeap &heap() { static LocalHeap lh(4000000, "dense"); return lh; }
__attribute__((noinline)) static double quo(double a, double b) { volatile double d = b; return a / d; }
typedef std::vector<double> DV;
// orthogonal matrices with rational entries
static DMat ortho(int n, int k) {
  if (n == 1) return {{1}};
  if (n == 2) { if (k == 0) return {{1,0},{0,1}}; if (k == 1) return {{0,1},{1,0}}; int a = k == 2 ? 3 : 5, b = k == 2 ? 4 : 12, c = k == 2 ? 5 : 13; return {{quo(a,c), quo(b,c)}, {quo(-b,c), quo(a,c)}}; }
  if (k == 0) return {{1,0,0},{0,1,0},{0,0,1}}; if (k == 1) return {{0,1,0},{0,0,1},{1,0,0}};
  if (k == 2) return {{quo(2,3),quo(-1,3),quo(2,3)},{quo(2,3),quo(2,3),quo(-1,3)},{quo(-1,3),quo(2,3),quo(2,3)}};
  if (k == 3) return {{quo(3,5),0,quo(4,5)},{0,1,0},{quo(-4,5),0,quo(3,5)}};
  return {{0,quo(3,5),quo(4,5)},{1,0,0},{0,quo(-4,5),quo(3,5)}}; }
struct Eig { int n, rank; DMat V; DV l, m; DMat A; };   // A = V^T diag(l) V, l ascending, zeros first
static DMat vtdv(const DMat &V, const DV &l) { int n = V.size(); DMat a(n, DV(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0; for (int k = 0; k < n; k++) s += l[k] * V[k][i] * V[k][j]; a[i][j] = a[j][i] = s; } return a; }
static void announce(const DMat &V, const DV &l) { int n = V.size(); std::vector<int> p; for (int i = 0; i < n; i++) { p.push_back(i); } DV v; for (auto &r : V) for (double x : r) v.push_back(x); __sx_eig_add(n, v.data(), l.data()); }
static Eig eig(int n, int nk, const char *nmz, int minrank = 0) { Eig e; e.n = n; e.V = ortho(n, sx::choose(nm((std::string(nmz) + "V").c_str(), n), nk)); e.rank = minrank + sx::choose(nm(std::string(nmz) + "rank"), n + 1 - minrank); e.m.assign(n, 0.0);
  for (int k = n - e.rank; k < n; k++) { e.m[k] = sx::real(nm(nmz, k)); sx::assume(e.m[k] >= 0.1); sx::assume(e.m[k] <= 10.0); if (n == 3 && k == 1 && e.rank == 3) e.m[1] = e.m[0] * (sx::flag("double") ? 2.0 : 1.0); if (k) sx::assume(e.m[k] >= e.m[k-1]); }
  for (double x : e.m) e.l.push_back(x); e.A = vtdv(e.V, e.l); announce(e.V, e.l); 
  // restriction to the non-zero diagonal block when the kernel contains coordinate directions
  std::vector<int> nz; for (int i = 0; i < n; i++) { bool z = true; for (int k = 0; k < n; k++) if (k >= n - e.rank && e.V[k][i] != 0.0) z = false; if (!z) nz.push_back(i); }
  if (!nz.empty() && (int)nz.size() < n) { int q = nz.size(); DMat W; DV l; for (int k = 0; k < n; k++) { bool in = true; double s = 0; for (int i = 0; i < n; i++) { bool isnz = false; for (int c : nz) if (c == i) isnz = true; if (!isnz && e.V[k][i] != 0.0) in = false; } (void)s; if (in && (int)W.size() < q) { DV r; for (int c : nz) r.push_back(e.V[k][c]); W.push_back(r); l.push_back(e.l[k]); } } if ((int)W.size() == q) announce(W, l); }
  return e; }
static DMat pinv(const Eig &e) { DV l(e.n, 0.0); for (int k = e.n - e.rank; k < e.n; k++) l[k] = 1.0 / e.m[k]; return vtdv(e.V, l); }
static void put(FlatMatrix<double> M, const DMat &a) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) M(i, j) = a[i][j]; }
template<int N> static Mat<N,N,double> tomat(const DMat &a) { Mat<N,N,double> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i,j) = a[i][j]; return m; }
template<class M> static void eqm(const M &m, const DMat &a, const char *l) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) sx::check_eq(m(i,j), a[i][j], l); }
static int nk(int n) { return n == 1 ? 1 : n == 2 ? (sx::tier() ? 4 : 3) : (sx::tier() ? 5 : 4); }
// pseudo-inverse of semi-definite matrices of every rank
static void pis(int n) {
  auto &lh = heap(); HeapReset hr(lh); auto e = eig(n, nk(n), "m"); auto P = pinv(e); int kind = sx::choose("routine", 5); Matrix<double> Mm(n, n); FlatMatrix<double> M(Mm); put(M, e.A);
  if (kind == 0) CallOnNonZeroDiagonalBlock(M, lh, [&](FlatMatrix<double> s) { CalcPseudoInverseTryNormal(s, lh); });
  else if (kind == 1) CalcPseudoInverseNew<double>(M, lh);
  else if (kind == 2) { int rk = CalcPseudoInverseWithTol(M, lh); sx::check(rk == e.rank, "reported rank"); }
  else if (kind == 3) CalcPseudoInverseFM(M, lh);
  else { if (e.rank == 0) return; CalcPseudoInverseWithTolNonZeroBlock(M, lh); }
  eqm(M, P, "pseudo-inverse of a symmetric semi-definite matrix"); sx::reach("end"); }
SX_HARNESS(C08_pinv1, "pseudo-inverses, 1x1, every rank", 0) { pis(1); }
SX_HARNESS(C08_pinv2, "pseudo-inverses, 2x2, every rank, all eigenvalues in 0.1..10, 3 (thorough 4) orthogonal bases", 0) { pis(2); }
SX_HARNESS(C08_pinv3, "pseudo-inverses, 3x3, every rank, all eigenvalues in 0.1..10, 4 (thorough 5) orthogonal bases", 0) { pis(3); }
template<int N> static void pimat() { auto &lh = heap(); HeapReset hr(lh); auto e = eig(N, nk(N), "m"); auto P = pinv(e); auto M = tomat<N>(e.A); int kind = sx::choose("routine", 4);
  if (kind == 0) CalcPseudoInverseTryNormal(M, lh); else if (kind == 1) CalcPseudoInverseNew(M, lh); else if (kind == 2) CalcPseudoInverse(M, lh); else CalcPseudoInverse<N>(M);
  eqm(M, P, "pseudo-inverse of a matrix entry"); sx::reach("end"); }
SX_HARNESS(C08_pinv_mat2, "pseudo-inverses of Mat<2,2>, every rank", 0) { pimat<2>(); }
SX_HARNESS(C08_pinv_mat3, "pseudo-inverses of Mat<3,3>, every rank", 0) { pimat<3>(); }
SX_HARNESS(C08_pinv_blocks, "pseudo-inverses of a 2x2 matrix of Mat<2,2>: block diagonal of rank-deficient blocks", 0) {
  auto &lh = heap(); HeapReset hr(lh); auto e = eig(2, 3, "m"); int perm = sx::choose("perm", 3), kind = sx::choose("routine", 3); double d0 = sx::flag("zero0") ? 0.0 : 2.0, d1 = 3.0; auto P = pinv(e);
  // scalar index i of e's rows in the 4x4 matrix
  int pos[3][2] = {{0,1},{1,2},{0,3}}; std::vector<int> rest; for (int i = 0; i < 4; i++) if (i != pos[perm][0] && i != pos[perm][1]) rest.push_back(i);
  DMat A(4, DV(4, 0.0)), X(4, DV(4, 0.0)); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { A[pos[perm][i]][pos[perm][j]] = e.A[i][j]; X[pos[perm][i]][pos[perm][j]] = P[i][j]; } A[rest[0]][rest[0]] = d0; X[rest[0]][rest[0]] = d0 == 0.0 ? 0.0 : 1.0 / d0; A[rest[1]][rest[1]] = d1; X[rest[1]][rest[1]] = quo(1, d1);
  // decomposition of the whole matrix and of its non-zero part, ascending
  for (int z = 0; z < 2; z++) { std::vector<std::pair<double, DV>> ev; for (int k = 0; k < 2; k++) { DV v(4, 0.0); v[pos[perm][0]] = e.V[k][0]; v[pos[perm][1]] = e.V[k][1]; ev.push_back({e.l[k], v}); } for (int q = 0; q < 2; q++) { DV v(4, 0.0); v[rest[q]] = 1; ev.push_back({q ? d1 : d0, v}); }
    for (int i = 0; i < 4; i++) for (int j = i; j > 0 && ev[j].first < ev[j-1].first; j--) std::swap(ev[j], ev[j-1]);
    std::vector<int> keep; for (int i = 0; i < 4; i++) if (!z || A[i][i] != 0.0) keep.push_back(i);
    DMat V; DV l; for (auto &p : ev) { DV v; bool in = true; for (int i = 0; i < 4; i++) { bool kp = false; for (int c : keep) kp |= c == i; if (!kp && p.second[i] != 0.0) in = false; } if (!in) continue; for (int c : keep) v.push_back(p.second[c]); V.push_back(v); l.push_back(p.first); } if (V.size() == keep.size() && V.size()) announce(V, l); }
  Matrix<Mat<2,2,double>> Bm(2, 2); FlatMatrix<Mat<2,2,double>> B(Bm); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) B(i/2, j/2)(i%2, j%2) = A[i][j];
  if (kind == 0) CalcPseudoInverseTryNormal(B, lh); else if (kind == 1) CalcPseudoInverseNew<2,double>(B, lh); else CalcPseudoInverseWithTol<2>(B, lh);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) sx::check_eq(B(i/2, j/2)(i%2, j%2), X[i][j], "pseudo-inverse of a matrix of blocks"); sx::reach("end"); }
// both overloads use the same default tolerance
SX_HARNESS(C08_pinv_tol, "CalcPseudoInverseWithTol on FlatMatrix<double> and FlatMatrix<Mat<2,2>>, second eigenvalue anywhere in 1e-18..1e2", 0) {
  auto &lh = heap(); HeapReset hr(lh); auto V = ortho(2, 2); double s = sx::real("s"); sx::assume(s >= 1e-9); sx::assume(s <= 10.0); DV l = {s * s, 100.0}; announce(V, l); auto A = vtdv(V, l);
  Matrix<double> Mm(2, 2); FlatMatrix<double> M(Mm); put(M, A); Matrix<Mat<2,2,double>> Bm(1, 1); FlatMatrix<Mat<2,2,double>> B(Bm); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) B(0,0)(i,j) = A[i][j];
  int rk = CalcPseudoInverseWithTol(M, lh); CalcPseudoInverseWithTol<2>(B, lh); sx::check(rk == 1 || rk == 2, "rank");
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx::check_eq(B(0,0)(i,j), M(i,j), "scalar and block overload agree"); sx::reach("end"); }
// direct inverse of arbitrary well-conditioned matrices
static void dinv(int n, bool symm) { auto &lh = heap(); HeapReset hr(lh); Matrix<double> Am(n, n), Xm(n, n); FlatMatrix<double> A(Am), X(Xm); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i,j) = symm && j < i ? A(j,i) : (n == 3 && !sx::tier() && i == 0 && j == 2) ? 0.0 : sx::real(nm("a", i, j)); X = A;
  bool ok = TryDirectInverse_simple<double>(X, lh); if (!ok) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sx::check_eq(X(i,j), A(i,j), "a failed direct inverse leaves the matrix alone"); sx::reach("singular"); return; }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += A(i,k) * X(k,j); sx::check_eq(s, i == j ? 1.0 : 0.0, "A times its direct inverse"); } sx::reach("end"); }
SX_HARNESS(C08_dinv2, "TryDirectInverse_simple, arbitrary 2x2", 0) { dinv(2, false); }
SX_HARNESS(C08_dinv3, "TryDirectInverse_simple, symmetric 3x3", 0) { dinv(3, true); }
SX_HARNESS(C08_dinv_lapack, "TryDirectInverse_Lapack, symmetric 2x2", 0) { auto &lh = heap(); HeapReset hr(lh); int n = 2; Matrix<double> Am(n, n), Xm(n, n); FlatMatrix<double> A(Am), X(Xm); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i,j) = j < i ? A(j,i) : sx::real(nm("a", i, j)); X = A;
  bool ok = TryDirectInverse_Lapack<double>(X, lh); double det = A(0,0) * A(1,1) - A(0,1) * A(0,1); sx::check(ok == (A(0,0) > 0.0 && det > 0.0), "Cholesky succeeds exactly on positive definite matrices");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (!ok) { sx::check_eq(X(i,j), A(i,j), "a failed inverse leaves the matrix alone"); continue; } double s = 0; for (int k = 0; k < n; k++) s += A(i,k) * X(k,j); sx::check_eq(s, i == j ? 1.0 : 0.0, "A times its Lapack inverse"); } sx::reach("end"); }
// definiteness tests
SX_HARNESS(C08_spd, "CheckForSPD, every symmetric 2x2 matrix", 0) { auto &lh = heap(); HeapReset hr(lh); double a = sx::real("a"), b = sx::real("b"), c = sx::real("c"); Matrix<double> Am(2, 2); FlatMatrix<double> A(Am); A(0,0) = a; A(1,1) = c; A(0,1) = A(1,0) = b;
  bool r = CheckForSPD<double>(A, lh); sx::check(r == (a > 0.0 && a * c - b * b > 0.0), "CheckForSPD accepts exactly the positive definite matrices"); sx::reach("end"); }
SX_HARNESS(C08_sspd, "CheckForSSPD, symmetric 2x2 and 3x3 matrices with eigenvalues 0 or of modulus 0.01..100", 0) { auto &lh = heap(); HeapReset hr(lh); int n = 2 + sx::choose("n", sx::tier() ? 2 : 1); DMat V = ortho(n, sx::choose("V", n == 2 ? 4 : 3)); DV l; bool semi = true;
  for (int k = 0; k < n; k++) { int sg = sx::choose(nm("sign", k), 3); double m = 0; if (sg) { m = sx::real(nm("m", k)); sx::assume(m >= 0.01); sx::assume(m <= 100.0); if (sg == 2) { m = -m; semi = false; } } l.push_back(m); }
  Matrix<double> Am(n, n); FlatMatrix<double> A(Am); put(A, vtdv(V, l)); bool r = CheckForSSPD<double>(A, lh); sx::check(r == semi, "CheckForSSPD accepts exactly the semi-definite matrices"); sx::reach("end"); }
SX_HARNESS(C08_sspd_any, "CheckForSSPD, symmetric 2x2 with integer-scaled entries", 0) { auto &lh = heap(); HeapReset hr(lh); static const double tab[5] = {0, 1, -1, 2, 0.5}; double a = tab[sx::choose("a", 5)], c = tab[sx::choose("c", 5)], b = sx::real("b"); sx::assume(b == 0.0 || b >= 0.001 || b <= -0.001); sx::assume(b <= 100.0 && b >= -100.0);
  double det = a * c - b * b; sx::assume(det >= 0.001 || det <= -0.001 || det == 0.0); Matrix<double> Am(2, 2); FlatMatrix<double> A(Am); A(0,0) = a; A(1,1) = c; A(0,1) = A(1,0) = b; bool r = CheckForSSPD<double>(A, lh); sx::check(r == (a >= 0.0 && c >= 0.0 && det >= 0.0), "CheckForSSPD accepts exactly the semi-definite matrices"); sx::reach("end"); }
// regularisation of the kernel
SX_HARNESS(C08_regtm, "RegTM on a 2x2 diagonal block of a 3x3 entry, every rank, with and without a cap", 0) { auto e = eig(2, 4, "m", 1); Mat<3,3,double> m, o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i,j) = sx::real(nm("r", i, j)); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m(1+i,1+j) = e.A[i][j]; o = m;
  bool cap = sx::flag("cap"); double c = -1; if (cap) { c = sx::real("c"); sx::assume(c >= 0.0); } RegTM<1,2,3>(m, c); double add = e.l[2 - e.rank]; if (cap && c < add) add = c; DV l = e.l; for (int k = 0; k < 2 - e.rank; k++) l[k] = add; auto E = vtdv(e.V, l);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx::check_eq(m(i,j), i && j ? E[i-1][j-1] : o(i,j), "kernel shifted by the smallest non-zero eigenvalue, rest unchanged"); sx::reach("end"); }
// smallest generalised eigenvalues, matrices with common eigenvectors
static double mn(double a, double b) { return a < b ? a : b; }
template<int N> static void gev() { auto &lh = heap(); HeapReset hr(lh); DMat V = ortho(N, sx::choose("V", nk(N))); int kind = sx::choose("routine", 4); if (kind == 3 && N != 2) kind = 0; DV d(N), r(N), a(N); int zd = sx::choose("kernel", N); // first zd eigenvalues of D vanish
  for (int k = 0; k < N; k++) { d[k] = 0; if (k >= zd) { double m = sx::real(nm("d", k)); sx::assume(m >= 0.1); sx::assume(m <= 10.0); d[k] = m * m; if (k) sx::assume(d[k] >= d[k-1]); } r[k] = sx::real(nm("e", k)); sx::assume(r[k] == 0.0 || r[k] >= 0.001); sx::assume(r[k] <= 100.0); if (k < zd && kind == 3) sx::assume(r[k] >= 0.01); }
  double want = -1; for (int k = zd; k < N; k++) { double q = r[k] / d[k]; want = k == zd ? q : mn(want, q); }
  announce(V, d); { DMat W = V; DV q; for (int k = 0; k < N; k++) q.push_back(k < zd ? r[k] : r[k] / d[k]); for (int i = 0; i < N; i++) for (int j = i; j > 0 && q[j] < q[j-1]; j--) { std::swap(q[j], q[j-1]); std::swap(W[j], W[j-1]); } announce(W, q); }   // equal eigenvalues of D: any basis
  auto D = tomat<N>(vtdv(V, d)), E = tomat<N>(vtdv(V, r)); double got;
  Matrix<double> Dm(N, N), Em(N, N); FlatMatrix<double> fd(Dm), fe(Em); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { fd(i,j) = D(i,j); fe(i,j) = E(i,j); }
  if (kind == 0) { got = MinGEV<double>(fe, fd, lh); } else if (kind == 1) got = CalcRobustPairSOC(D, E, lh); else if (kind == 2) got = MEV<N>(fd, fe); else { got = MinGEV<double,N>(E, D, lh); }
  sx::check_eq(got, want, "smallest generalised eigenvalue on the complement of the kernel"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { sx::check_eq(kind == 0 || kind == 2 ? fe(i,j) : E(i,j), vtdv(V, r)[i][j], "arguments unchanged"); sx::check_eq(kind == 0 || kind == 2 ? fd(i,j) : D(i,j), vtdv(V, d)[i][j], "arguments unchanged"); } sx::reach("end"); }
SX_HARNESS(C08_gev2, "generalised eigenvalue bounds, 2x2 matrices with common eigenvectors", 0) { gev<2>(); }
SX_HARNESS(C08_gev3, "generalised eigenvalue bounds, 3x3 matrices with common eigenvectors", 1) { gev<3>(); }
// products, traces, copies between blocks and scalars
SX_HARNESS(C08_small, "triple products, traces, block copies, 2x2 entries", 0) { typedef Mat<2,2,double> M2; auto sym = [&](const char *n) { M2 m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m(i,j) = sx::real(nm(n, i, j)); return m; };
  M2 A = sym("a"), B = sym("b"), C = sym("c"), O = sym("o"); double f = sx::real("f"); auto dm = [](const M2 &m) { return DMat{{m(0,0), m(0,1)}, {m(1,0), m(1,1)}}; };
  auto abc = mul(dm(A), mul(dm(B), dm(C))); eqm(TripleProd(A, B, C), abc, "triple product"); auto atba = mul(tr(dm(A)), mul(dm(B), dm(A))); eqm(AT_B_A(A, B), atba, "A^T B A"); M2 X = O; AddTripleProd(f, X, A, B, C); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx::check_eq(X(i,j), O(i,j) + f * abc[i][j], "added triple product"); X = O; Add_AT_B_A(f, X, A, B); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx::check_eq(X(i,j), O(i,j) + f * atba[i][j], "added A^T B A");
  sx::check_eq(calc_trace(A), A(0,0) + A(1,1), "trace"); sx::check_eq(CalcAvgTrace(A), (A(0,0) + A(1,1)) / 2, "average trace"); Matrix<double> Fm(2, 2); FlatMatrix<double> F(Fm); ToFlat<2>(A, F); sx::check_eq(calc_trace(F), A(0,0) + A(1,1), "trace"); sx::check_eq(CalcAvgTrace(F), (A(0,0) + A(1,1)) / 2, "average trace");
  Matrix<double> Gm(5, 5); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) Gm(i,j) = sx::real(nm("g", i, j)); Matrix<double> G0(5, 5); G0 = Gm; int oi = sx::choose("oi", 4), oj = sx::choose("oj", 4), op = sx::choose("op", 4); M2 Y = O;
  if (op == 0) addTM(Gm, oi, oj, f, A); else if (op == 1) setFromTM(Gm, oi, oj, f, A); else if (op == 2) addToTM(Y, f, Gm, oi, oj); else setTM(Y, f, Gm, oi, oj);
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { bool in = i >= oi && i < oi + 2 && j >= oj && j < oj + 2; double w = G0(i,j); if (in && op == 0) w += f * A(i-oi, j-oj); if (in && op == 1) w = f * A(i-oi, j-oj); sx::check_eq(Gm(i,j), w, "block written into a scalar matrix"); if (in && op > 1) sx::check_eq(Y(i-oi, j-oj), (op == 2 ? O(i-oi, j-oj) : 0.0) + f * G0(i,j), "block read from a scalar matrix"); } sx::reach("end"); }
