// Symbolic sparse matrices and their dense meaning.
#pragma once
#include "common.hpp"
#include <utils_sparseLA.hpp>
namespace hx {
typedef std::vector<std::vector<double>> DMat;
template<int H, int W> inline double &mel(StripTM<H,W> &m, int i, int j) { if constexpr (H == 1 && W == 1) return m; else return m(i, j); }
template<int H, int W> inline double melc(const StripTM<H,W> &m, int i, int j) { if constexpr (H == 1 && W == 1) return m; else return m(i, j); }
// columns per row; values symbolic
template<int H, int W> inline shared_ptr<SparseMat<H,W>> symsp(const char *n, int w, const std::vector<std::vector<int>> &cols, bool sparse_blocks = false) {
  int h = cols.size(); Array<int> per(h); for (int i = 0; i < h; i++) per[i] = cols[i].size();
  auto A = make_shared<SparseMat<H,W>>(per, w);
  for (int i = 0; i < h; i++) { auto ri = A->GetRowIndices(i); for (size_t k = 0; k < cols[i].size(); k++) ri[k] = cols[i][k]; }
  for (int i = 0; i < h; i++) { auto rv = A->GetRowValues(i); for (size_t k = 0; k < cols[i].size(); k++) for (int a = 0; a < H; a++) for (int b = 0; b < W; b++)
    mel<H,W>(rv[k], a, b) = sparse_blocks && ((a + b) % 2) ? 0.0 : sx::real(nm(std::string(n) + std::to_string(i) + "." + std::to_string(a) + "_" + std::to_string(cols[i][k]) + "." + std::to_string(b))); }
  return A; }
// every 0/1 pattern
inline std::vector<std::vector<int>> anypat(const char *n, int h, int w) { std::vector<std::vector<int>> c(h); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (sx::flag(nm((std::string(n) + "nz").c_str(), i, j))) c[i].push_back(j); return c; }
template<int H, int W> inline DMat dense(const SparseMatTM<H,W> &A) { DMat d(A.Height()*H, std::vector<double>(A.Width()*W, 0.0));
  for (int i = 0; i < (int)A.Height(); i++) { auto ri = A.GetRowIndices(i); auto rv = A.GetRowValues(i); for (int k = 0; k < (int)ri.Size(); k++) {
    sx::check(ri[k] >= 0 && ri[k] < (int)A.Width(), "column index in range"); for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) d[i*H+a][ri[k]*W+b] += melc<H,W>(rv[k], a, b); } }
  return d; }
// well-formed CRS: strictly increasing columns
template<int H, int W> inline void wellformed(const SparseMatTM<H,W> &A) { for (int i = 0; i < (int)A.Height(); i++) { auto ri = A.GetRowIndices(i); for (int k = 0; k < (int)ri.Size(); k++) { sx::check(ri[k] >= 0 && ri[k] < (int)A.Width(), "column index in range"); if (k) sx::check(ri[k-1] < ri[k], "columns strictly increasing"); } } }
template<int H, int W> inline DMat denseB(shared_ptr<BaseMatrix> A) { auto p = dynamic_pointer_cast<SparseMatTM<H,W>>(A); sx::check(p != nullptr, "sparse matrix of the expected entry type"); wellformed<H,W>(*p); return dense<H,W>(*p); }
inline DMat mul(const DMat &a, const DMat &b, int wb) { DMat c(a.size(), std::vector<double>(wb, 0.0)); for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < wb; j++) for (size_t k = 0; k < b.size(); k++) c[i][j] += a[i][k] * b[k][j]; return c; }
inline DMat tr(const DMat &a, int w) { DMat c(w, std::vector<double>(a.size())); for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < w; j++) c[j][i] = a[i][j]; return c; }
inline DMat mul(const DMat &a, const DMat &b) { return mul(a, b, b.size() ? b[0].size() : 0); }
inline DMat tr(const DMat &a) { return tr(a, a.size() ? a[0].size() : 0); }
inline DMat add(const DMat &a, const DMat &b) { DMat c = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) c[i][j] += b[i][j]; return c; }
inline void same(const DMat &a, const DMat &b, const char *l) { sx::check(a.size() == b.size(), "same height"); for (size_t i = 0; i < a.size(); i++) { sx::check(a[i].size() == b[i].size(), "same width"); for (size_t j = 0; j < a[i].size(); j++) sx::check_eq(a[i][j], b[i][j], l); } }
}
