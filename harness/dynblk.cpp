// PROPERTY: C07
// TUS: base/linalg/dyn_block.cpp base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp
// ASSUME: automatic blocking only for structurally symmetric matrices, given blockings only for matrices whose entries come in complete blocks (its documented use)
#include "spcheck.hpp"
#include <dyn_block.hpp>
#include <dyn_block_impl.hpp>
using namespace hx;
typedef std::vector<std::vector<int>> VV;
typedef DynBlockSparseMatrix<double> DB;
// every structurally symmetric pattern; diag: full diagonal, else diagonal entries optional (rows may be empty)
static VV sympat(int n, bool diag) { VV c(n); std::vector<std::vector<char>> on(n, std::vector<char>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) on[i][j] = on[j][i] = (i == j && diag) || sx::flag(nm("nz", i, j)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (on[i][j]) c[i].push_back(j); return c; }
// the operator, its blocks and its counters all describe A
static void represents(DB &D, const DMat &a, int h, int w, int nze) {
  sx::check(D.VHeight() == h && D.VWidth() == w, "dimensions");
  sx::check((int)D.GetNZE() == nze, "stored entries"); sx::check((int)D.GetNumScalRows() == h && (int)D.GetNumScalCols() == w, "scalar sizes");
  std::vector<int> seen(h, 0); DMat g(h, std::vector<double>(w, 0.0)); std::vector<std::vector<int>> hit(h, std::vector<int>(w, 0));
  Array<unsigned> rb(h + 1), cb(w + 1); unsigned mr = 0, mc = 0;
  for (int k = 0; k < (int)D.GetNumBlocks(); k++) {
    auto [rows, cols, vals] = static_cast<const DB&>(D).GetBlockRCV(k, rb, cb);
    sx::check(rows.Size() >= 1, "no empty row block"); sx::check(rows.Size() * cols.Size() == D.GetScalNZE(k), "a block is dense");
    mr = std::max<unsigned>(mr, rows.Size()); mc = std::max<unsigned>(mc, cols.Size());
    for (int i = 0; i < (int)rows.Size(); i++) { if (i) sx::check(rows[i-1] < rows[i], "rows of a block ascending"); seen[rows[i]]++; for (int j = 0; j < (int)cols.Size(); j++) { if (j) sx::check(cols[j-1] < cols[j], "columns of a block ascending"); g[rows[i]][cols[j]] = vals(i, j); hit[rows[i]][cols[j]]++; } } }
  for (int i = 0; i < h; i++) sx::check(seen[i] == 1, "every row in exactly one block");
  sx::check(D.GetMaxScalRowsInRowBlock() == mr && D.GetMaxScalColsInRowBlock() == mc, "announced maximal block size");
  same(g, a, "blocks hold the entries of the matrix");
  auto x = D.CreateRowVector(), y = D.CreateColVector(); sx::check((int)x.Size() == w && (int)y.Size() == h, "vector sizes");
  std::vector<double> y0(h); for (int j = 0; j < w; j++) x.FVDouble()(j) = sx::real(nm("x", j)); for (int i = 0; i < h; i++) y0[i] = y.FVDouble()(i) = sx::real(nm("y", i)); double s = sx::real("s");
  D.MultAdd(s, x, y); for (int i = 0; i < h; i++) { double e = 0; for (int j = 0; j < w; j++) e += a[i][j] * x.FVDouble()(j); sx::check_eq(y.FVDouble()(i), y0[i] + s * e, "MultAdd"); }
  D.Mult(x, y); for (int i = 0; i < h; i++) { double e = 0; for (int j = 0; j < w; j++) e += a[i][j] * x.FVDouble()(j); sx::check_eq(y.FVDouble()(i), e, "Mult"); }
  sx::reach("end"); }
SX_HARNESS(C07_auto3, "automatic blocking, 3 unknowns, every structurally symmetric pattern (rows may be empty)", 0) { auto A = symsp<1,1>("a", 3, sympat(3, false)); auto D = ConvertToDynSPM(*A); represents(*D, dense<1,1>(*A), 3, 3, A->NZE()); }
SX_HARNESS(C07_auto4, "automatic blocking, 4 unknowns, every structurally symmetric pattern with full diagonal", 0) { auto A = symsp<1,1>("a", 4, sympat(4, true)); auto D = ConvertToDynSPM(*A); represents(*D, dense<1,1>(*A), 4, 4, A->NZE()); }
SX_HARNESS(C07_auto5, "automatic blocking, 5 unknowns, every structurally symmetric pattern with full diagonal", 0) { auto A = symsp<1,1>("a", 5, sympat(5, true)); auto D = ConvertToDynSPM(*A); represents(*D, dense<1,1>(*A), 5, 5, A->NZE()); }
SX_HARNESS(C07_many, "24 unknowns in a chain of 2-blocks (sorting more than a handful of rows), symbolic choice of extra couplings", 0) {
  VV c(24); int e = sx::choose("extra", 11), f = sx::choose("extra2", 4) * 3; for (int i = 0; i < 24; i++) { int b = i / 2; for (int j = 0; j < 24; j++) { int d = j / 2; bool on = b == d || (std::abs(b - d) == 1 && (std::min(b, d) % 3)) || (std::min(b, d) == e && std::max(b, d) == e + 1) || (std::min(b, d) == f && std::max(b, d) == 11); if (on) c[i].push_back(j); } }
  auto A = symsp<1,1>("a", 24, c); auto D = ConvertToDynSPM(*A); represents(*D, dense<1,1>(*A), 24, 24, A->NZE()); }
static DynVectorBlocking<> blocking(const std::vector<int> &sz) { Array<unsigned> o(sz.size() + 1); o[0] = 0; for (size_t i = 0; i < sz.size(); i++) o[i+1] = o[i] + sz[i]; unsigned n = o[sz.size()]; return DynVectorBlocking<>(sz.size(), n, std::move(o)); }
static void given(int nrb, int ncb, int maxbs, int how) {
  std::vector<int> rs(nrb), cs(ncb); for (int i = 0; i < nrb; i++) rs[i] = 1 + sx::choose(nm("rowblk", i), maxbs); for (int i = 0; i < ncb; i++) cs[i] = 1 + sx::choose(nm("colblk", i), maxbs);
  auto bp = anypat("a", nrb, ncb); VV c; int w = 0; std::vector<int> off; for (int s : cs) { off.push_back(w); w += s; } int h = 0;
  for (int i = 0; i < nrb; i++) for (int q = 0; q < rs[i]; q++, h++) { c.emplace_back(); for (int J : bp[i]) for (int p = 0; p < cs[J]; p++) c.back().push_back(off[J] + p); }
  auto A = symsp<1,1>("a", w, c); auto a = dense<1,1>(*A); auto R = blocking(rs), C = blocking(cs);
  if (how == 0) { DB D(*A, R, C, false); represents(D, a, h, w, A->NZE()); sx::check((int)D.GetNumBlockRows() == nrb && (int)D.GetNumBlockCols() == ncb, "numbers of blocks");
    for (int k = 0, q = 0; k < nrb; q += rs[k], k++) { auto r = D.GetScalRows(k); sx::check((int)r.First() == q && (int)r.Next() == q + rs[k] && (int)D.GetRowBlockSize(k) == rs[k], "rows of a block"); } }
  else { DB D(*A, &C); represents(D, a, h, w, A->NZE()); } }
SX_HARNESS(C07_given, "given blockings, 2x2 blocks of sizes 1..2, every block pattern, rectangular", 0) { given(2, 2, 2, 0); }
SX_HARNESS(C07_given3, "given blockings, 3x1 and 1x3 blocks of sizes 1..2, every block pattern", 0) { if (sx::flag("tall")) given(3, 1, 2, 0); else given(1, 3, 2, 0); }
SX_HARNESS(C07_colblk, "given column blocking, rows grouped automatically, 2x2 blocks of sizes 1..2", 0) { given(2, 2, 2, 1); }
