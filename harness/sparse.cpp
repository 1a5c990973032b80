// PROPERTY: C06
// TUS: base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp
#include "spcheck.hpp"
#include <special_matrix.hpp>
using namespace hx;
namespace amg { extern shared_ptr<BaseMatrix> restrictMatrixToBlocks(shared_ptr<BaseMatrix> A, FlatTable<int> rowBlocks, FlatTable<int> colBlocks, double const &compressTol); }
typedef std::vector<std::vector<int>> VV;

SX_HARNESS(C06_transpose, "3x2 scalar sparse matrix, all 64 sparsity patterns", 0) { auto A = symsp<1,1>("a", 2, anypat("a", 3, 2)); auto T = TransposeSPM(*A); wellformed<1,1>(*T); same(dense<1,1>(*T), tr(dense<1,1>(*A), 2), "transpose"); sx::reach("end"); }
SX_HARNESS(C06_transpose_b, "2x2 sparse matrix with 2x3 / 1x2 / 3x3 entries, all patterns", 0) {
  auto pt = anypat("a", 2, 2); int k = sx::choose("dims", 3);
  if (k == 0) { auto A = symsp<2,3>("a", 2, pt); auto T = TransposeSPM(*A); wellformed<3,2>(*T); same(dense<3,2>(*T), tr(dense<2,3>(*A), 6), "transpose"); }
  else if (k == 1) { auto A = symsp<1,2>("a", 2, pt); auto T = TransposeAGeneric(A); same(denseB<2,1>(T), tr(dense<1,2>(*A), 4), "transpose"); }
  else { auto A = symsp<3,3>("a", 2, pt); auto T = TransposeAGeneric(A); same(denseB<3,3>(T), tr(dense<3,3>(*A), 6), "transpose"); }
  sx::reach("end"); }
static void mm(int h, int n, int w) { auto A = symsp<1,1>("a", n, anypat("a", h, n)); auto B = symsp<1,1>("b", w, anypat("b", n, w)); auto C = MatMultAB(*A, *B); wellformed<1,1>(*C); same(dense<1,1>(*C), mul(dense<1,1>(*A), dense<1,1>(*B), w), "product"); sx::reach("end"); }
SX_HARNESS(C06_mult, "2x2 times 2x2 scalar sparse matrices, all 256 pattern pairs", 0) { mm(2, 2, 2); }
SX_HARNESS(C06_mult_row, "1x3 times 3x3 scalar, all 4096 pattern pairs", 0) { mm(1, 3, 3); }
SX_HARNESS(C06_mult_big, "2x3 times 3x2 scalar, all 4096 pattern pairs", 1) { mm(2, 3, 2); }
template<int A_, int B_, int C_> static void mmb(bool all) { auto pa = all ? anypat("a", 1, 2) : VV{{0,1},{1}}; auto pb = anypat("b", 2, 2); auto A = symsp<A_,B_>("a", 2, pa); auto B = symsp<B_,C_>("b", 2, pb);
  auto C = MatMultABGeneric(A, B); same(denseB<A_,C_>(C), mul(dense<A_,B_>(*A), dense<B_,C_>(*B)), "product"); sx::reach("end"); }
SX_HARNESS(C06_mult_b, "block entries (1,2)x(2,2), (2,3)x(3,3), (3,3)x(3,2)", 0) { int k = sx::choose("dims", 3); if (k == 0) mmb<1,2,2>(true); else if (k == 1) mmb<2,3,3>(false); else mmb<3,3,2>(false); }
SX_HARNESS(C06_mult_elast, "block entries (3,6)x(6,6) and (6,3)x(3,6)", 0) { auto f = [&](auto HA, auto WA, auto WB) { constexpr int a = HA, b = WA, c = WB; auto A = symsp<a,b>("a", 1, VV{{0}}, true); auto B = symsp<b,c>("b", 2, VV{{0,1}}, true); auto C = MatMultABGeneric(A, B); same(denseB<a,c>(C), mul(dense<a,b>(*A), dense<b,c>(*B)), "product"); };
  if (sx::flag("shape")) f(IC<3>(), IC<6>(), IC<6>()); else f(IC<6>(), IC<3>(), IC<6>()); sx::reach("end"); }
// columns that fall into the same slot of the accumulation hash (2048 slots)
SX_HARNESS(C06_mult_hash, "1x3 times 3x4100, columns chosen from 6 with colliding hash values", 0) {
  int cand[6] = {0, 1, 2048, 2049, 4096, 4097}; VV pb(3); for (int i = 0; i < 3; i++) { int k = sx::choose(nm("row", i), 6); pb[i] = {cand[k]}; int k2 = sx::choose(nm("row2", i), 3); if (k2 == 1 && k < 5) pb[i].push_back(cand[k+1]); if (k2 == 2 && k < 4) pb[i].push_back(cand[k+2]); }
  auto A = symsp<1,1>("a", 3, VV{{0,1,2}}); auto B = symsp<1,1>("b", 4100, pb); auto C = MatMultAB(*A, *B); wellformed<1,1>(*C);
  auto C2 = MatMultAB(*A, *B); for (int k = 0; k < (int)C2->NZE(); k++) C2->GetRowValues(0)[k] = 7.0; MatMultABUpdateVals(*A, *B, *C2);
  for (int c : cand) { double e = 0; for (int i = 0; i < 3; i++) for (size_t k = 0; k < pb[i].size(); k++) if (pb[i][k] == c) e += A->GetRowValues(0)[i] * B->GetRowValues(i)[k];
    double g = 0, g2 = 0; bool has = false, want = false; for (int i = 0; i < 3; i++) for (int q : pb[i]) want |= q == c; auto ri = C->GetRowIndices(0); for (int k = 0; k < (int)ri.Size(); k++) if (ri[k] == c) { g = C->GetRowValues(0)[k]; g2 = C2->GetRowValues(0)[k]; has = true; }
    sx::check(has == want, "pattern of the product"); sx::check_eq(g, e, "product entry"); sx::check_eq(g2, e, "updated product entry"); }
  sx::reach("end"); }
// many rows merged at once (above the 16-row fast path of the pattern merge)
SX_HARNESS(C06_mult_many, "1x18 times 18x5, each row of B one symbolic column (first and last five rows) plus fixed ones", 0) {
  VV pb(18); for (int i = 0; i < 18; i++) pb[i] = {(i * 3) % 5}; for (int i : {0, 9, 17}) pb[i] = {sx::choose(nm("col", i), 5)}; { int k = sx::choose("extra", 4); for (int i : {3, 17}) if (pb[i][0] < k) pb[i].push_back(k); }
  std::vector<int> all; for (int i = 0; i < 18; i++) all.push_back(i); auto A = symsp<1,1>("a", 18, VV{all}); auto B = symsp<1,1>("b", 5, pb); auto C = MatMultAB(*A, *B); wellformed<1,1>(*C); same(dense<1,1>(*C), mul(dense<1,1>(*A), dense<1,1>(*B), 5), "product"); sx::reach("end"); }
SX_HARNESS(C06_update, "values of an existing 2x2 product pattern recomputed, all pattern pairs", 0) {
  auto A = symsp<1,1>("a", 2, anypat("a", 2, 2)); auto B = symsp<1,1>("b", 2, anypat("b", 2, 2)); auto C = MatMultAB(*A, *B); for (int i = 0; i < 2; i++) for (auto &v : C->GetRowValues(i)) v = sx::real(nm("junk", i));
  MatMultABUpdateVals(*A, *B, *C); same(dense<1,1>(*C), mul(dense<1,1>(*A), dense<1,1>(*B), 2), "updated product"); sx::reach("end"); }
template<int H, int W> static void galerkin() { auto P = symsp<H,W>("p", 1, VV{{0},{0}}); auto A = symsp<H,H>("a", 2, anypat("a", 2, 2)); auto PT = TransposeSPM(*P);
  auto R = RestrictMatrix<H,W>(*PT, *A, *P); auto d = mul(dense<W,H>(*PT), mul(dense<H,H>(*A), dense<H,W>(*P), W)); auto r = dense<W,W>(*R); bool any = A->NZE() > 0; if (any) same(r, d, "triple product");
  auto [AP, C] = RestrictMatrixKeepFactor(*A, *P, *PT); same(denseB<H,W>(AP), mul(dense<H,H>(*A), dense<H,W>(*P), W), "A P"); same(denseB<W,W>(C), d, "P^T A P"); sx::reach("end"); }
SX_HARNESS(C06_galerkin, "Galerkin product, 2 fine 1 coarse nodes, entries 1x1, 1x2 and 2x2, all patterns of A", 0) { int k = sx::choose("dims", 3); if (k == 0) galerkin<1,1>(); else if (k == 1) galerkin<1,2>(); else galerkin<2,2>(); }
SX_HARNESS(C06_galerkin3, "scalar Galerkin product, 3 fine 2 coarse nodes, P pattern symbolic", 0) { auto P = symsp<1,1>("p", 2, anypat("p", 3, 2)); auto A = symsp<1,1>("a", 3, VV{{0,1},{0,1,2},{1,2}}); auto PT = TransposeSPM(*P);
  auto R = RestrictMatrix<1,1>(*PT, *A, *P); wellformed<1,1>(*R); same(dense<1,1>(*R), mul(dense<1,1>(*PT), mul(dense<1,1>(*A), dense<1,1>(*P), 2), 2), "triple product"); sx::reach("end"); }
SX_HARNESS(C06_perm, "permutation matrix of 3 nodes, scalar and 2x2", 0) { int p[3] = {sx::choose("p0", 3), sx::choose("p1", 3), sx::choose("p2", 3)}; sx::assume(p[0] != p[1] && p[1] != p[2] && p[0] != p[2]); Array<int> s(3); for (int i = 0; i < 3; i++) s[i] = p[i];
  auto P = BuildPermutationMatrix<1>(s); auto d = dense<1,1>(*P); auto P2 = BuildPermutationMatrix<2>(s); auto d2 = dense<2,2>(*P2); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { sx::check_eq(d[i][j], p[i] == j ? 1.0 : 0.0, "permutation"); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) sx::check_eq(d2[2*i+a][2*j+b], p[i] == j && a == b ? 1.0 : 0.0, "block permutation"); } sx::reach("end"); }

// ---- symbolic operator expressions -> sparse matrix
typedef shared_ptr<BaseMatrix> BM;
SX_HARNESS(C06_expr_ab, "product, transpose and nested products of 2x2 matrices", 0) {
  auto A = symsp<1,1>("a", 2, anypat("a", 2, 2)); auto B = symsp<1,1>("b", 2, VV{{0,1},{1}}); auto a = dense<1,1>(*A), b = dense<1,1>(*B); int k = sx::choose("expr", 5); BM E; DMat e;
  BM I = make_shared<IdentityMatrix>(2, false);
  if (k == 0) { E = make_shared<ProductMatrix>(A, B); e = mul(a, b); } else if (k == 1) { E = make_shared<Transpose>(BM(A)); e = tr(a); } else if (k == 2) { E = make_shared<ProductMatrix>(make_shared<Transpose>(BM(A)), make_shared<ProductMatrix>(B, A)); e = mul(tr(a), mul(b, a)); }
  else if (k == 3) { E = make_shared<ProductMatrix>(A, I); e = a; } else { E = make_shared<ProductMatrix>(I, A); e = a; }
  same(denseB<1,1>(BaseMatrixToSparse(E)), e, "sparse matrix = expression"); sx::reach("end"); }
SX_HARNESS(C06_expr_sum, "sum of two 2x2 (scalar) / 1-row 2x2-block matrices, all pattern pairs", 0) {
  if (sx::flag("block")) { auto A = symsp<2,2>("a", 2, anypat("a", 1, 2)); auto B = symsp<2,2>("b", 2, anypat("b", 1, 2)); same(denseB<2,2>(BaseMatrixToSparse(make_shared<SumMatrix>(A, B))), add(dense<2,2>(*A), dense<2,2>(*B)), "sum"); }
  else { auto A = symsp<1,1>("a", 2, anypat("a", 2, 2)); auto B = symsp<1,1>("b", 2, anypat("b", 2, 2)); same(denseB<1,1>(BaseMatrixToSparse(make_shared<SumMatrix>(A, B))), add(dense<1,1>(*A), dense<1,1>(*B)), "sum"); }
  sx::reach("end"); }
// NGSolve's A - B is SumMatrix(A, B, 1, -1) (recorded finding: the factors are ignored)
SX_HARNESS(C06_sumfac, "scaled sum of two 1x1 matrices with factors from {-1, 1}", 0) {
  auto A = symsp<1,1>("a", 1, VV{{0}}); auto B = symsp<1,1>("b", 1, VV{{0}}); double fa = sx::flag("nega") ? -1 : 1, fb = sx::flag("negb") ? -1 : 1;
  auto d = denseB<1,1>(BaseMatrixToSparse(make_shared<SumMatrix>(A, B, fa, fb)));
  bool unit = fa == 1 && fb == 1; sx::check_eq(d[0][0], fa * A->GetRowValues(0)[0] + fb * B->GetRowValues(0)[0], unit ? "sum with unit factors" : "sum with factors other than one"); sx::reach("end"); }
SX_HARNESS(C06_expr_id, "sum with the identity, scalar and 2x2 entries", 0) {
  BM I = make_shared<IdentityMatrix>(2, false); bool left = sx::flag("left");
  auto chk = [&](auto A, auto BS) { constexpr int bs = BS; auto a = dense<bs,bs>(*A); for (size_t i = 0; i < a.size(); i++) a[i][i] += 1.0; BM E = left ? make_shared<SumMatrix>(I, A) : make_shared<SumMatrix>(A, I); same(denseB<bs,bs>(BaseMatrixToSparse(E)), a, "A + I"); };
  if (sx::flag("block")) chk(symsp<2,2>("a", 2, VV{{0,1},{1}}), IC<2>()); else chk(symsp<1,1>("a", 2, anypat("a", 2, 2)), IC<1>());
  sx::reach("end"); }
SX_HARNESS(C06_expr_block, "block matrix of scalar blocks (heights 1,2; widths 2,1), every subset of blocks with all rows and columns present", 0) {
  bool on[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) on[i][j] = sx::flag(nm("blk", i, j)); sx::assume((on[0][0] || on[0][1]) && (on[1][0] || on[1][1]) && (on[0][0] || on[1][0]) && (on[0][1] || on[1][1]));
  DMat e(3, std::vector<double>(3, 0.0)); int ro[2] = {0, 1}, co[2] = {0, 2}; Array<Array<BM>> m(2); for (int i = 0; i < 2; i++) { m[i].SetSize(2); for (int j = 0; j < 2; j++) { m[i][j] = nullptr; if (!on[i][j]) continue;
    VV pt = i == 0 ? (j == 0 ? VV{{0,1}} : VV{{0}}) : (j == 0 ? VV{{1},{0}} : VV{{},{0}}); auto A = symsp<1,1>(nm("a", i, j), j == 0 ? 2 : 1, pt); auto d = dense<1,1>(*A); for (size_t p = 0; p < d.size(); p++) for (size_t q = 0; q < d[p].size(); q++) e[ro[i]+p][co[j]+q] = d[p][q]; m[i][j] = A; } }
  same(denseB<1,1>(BaseMatrixToSparse(make_shared<BlockMatrix>(m))), e, "sparse matrix = block matrix"); sx::reach("end"); }
SX_HARNESS(C06_expr_emb, "embedding of a 2x2 matrix into 4 rows at every offset", 0) { int off = sx::choose("off", 3); auto A = symsp<1,1>("a", 2, anypat("a", 2, 2)); DMat e(4, std::vector<double>(2, 0.0)); auto a = dense<1,1>(*A); for (int i = 0; i < 2; i++) e[off+i] = a[i];
  same(denseB<1,1>(BaseMatrixToSparse(make_shared<EmbeddedMatrix>(4, IntRange(off, off+2), A))), e, "embedding"); sx::reach("end"); }
SX_HARNESS(C06_compress, "dropping small entries: 1x3 scalar and 2x2-block matrix, all values and thresholds", 0) {
  double t = positive("tol"); 
  if (sx::flag("block")) { auto A = symsp<2,2>("a", 2, VV{{0,1}}); auto C = dynamic_pointer_cast<SparseMatTM<2,2>>(CompressAGeneric(A, t)); auto a = dense<2,2>(*A), c = dense<2,2>(*C); wellformed<2,2>(*C);
    for (int j = 0; j < 2; j++) { double s = 0; for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) s += a[p][2*j+q] < 0 ? -a[p][2*j+q] : a[p][2*j+q]; bool keep = s > 4*t; for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) sx::check_eq(c[p][2*j+q], keep ? a[p][2*j+q] : 0.0, "entries above the threshold are kept"); } }
  else { auto A = symsp<1,1>("a", 3, VV{{0,1,2}}); auto C = dynamic_pointer_cast<SparseMatTM<1,1>>(CompressAGeneric(A, t)); auto a = dense<1,1>(*A), c = dense<1,1>(*C); wellformed<1,1>(*C);
    int n = 0; for (int j = 0; j < 3; j++) { bool keep = a[0][j] > t || -a[0][j] > t; n += keep; sx::check_eq(c[0][j], keep ? a[0][j] : 0.0, "entries above the threshold are kept"); } sx::check((int)C->NZE() == n, "only those are stored"); }
  sx::reach("end"); }
SX_HARNESS(C06_restrict_blocks, "4x4 matrix restricted to two blocks, symbolic assignment of nodes to blocks, entries of known sign", 0) {
  int g[4]; for (int i = 0; i < 4; i++) g[i] = sx::choose(nm("grp", i), 2); auto A = symsp<1,1>("a", 4, VV{{0,1,3},{0,1,2},{1,2,3},{0,2,3}}); for (int i = 0; i < 4; i++) { auto rv = A->GetRowValues(i); for (int k = 0; k < (int)rv.Size(); k++) if (k % 2) sx::assume(rv[k] > 1.0); else sx::assume(rv[k] < -1.0); } auto a = dense<1,1>(*A);
  TableCreator<int> tc(2); for (; !tc.Done(); tc++) for (int i = 0; i < 4; i++) tc.Add(g[i], i); auto T = tc.MoveTable();
  auto R = restrictMatrixToBlocks(A, T, T, 1e-20); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (g[i] != g[j]) a[i][j] = 0.0; same(denseB<1,1>(R), a, "in-block entries only"); sx::reach("end"); }
