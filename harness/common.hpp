#pragma once
#include <sx.h>
#include <base.hpp>
#include <cstdio>
#include <string>
#include <vector>
namespace hx {
using namespace amg;
using namespace ngla;

// keep harness-made names alive
inline const char *nm(const std::string &s) { static std::vector<std::string*> keep; keep.push_back(new std::string(s)); return keep.back()->c_str(); }
inline const char *nm(const char *p, int i) { return nm(std::string(p) + std::to_string(i)); }
inline const char *nm(const char *p, int i, int j) { return nm(std::string(p) + std::to_string(i) + "_" + std::to_string(j)); }

inline double nonzero(const char *n) { double d = sx::real(n); sx::assume(d != 0.0); return d; }
inline double positive(const char *n) { double d = sx::real(n); sx::assume(d > 0.0); return d; }

// scalar sparse matrix from a 0/1 pattern, entries from a functor
template<class F>
inline shared_ptr<SparseMatrix<double>> spmat(int h, int w, const std::vector<std::vector<int>> &cols, F f)
{
  Array<int> per(h); for (int i = 0; i < h; i++) per[i] = cols[i].size();
  auto A = make_shared<SparseMatrix<double>>(per, w);
  for (int i = 0; i < h; i++) { auto ri = A->GetRowIndices(i); for (size_t j = 0; j < cols[i].size(); j++) ri[j] = cols[i][j]; }
  for (int i = 0; i < h; i++) { auto ri = A->GetRowIndices(i); auto rv = A->GetRowValues(i); for (int j = 0; j < (int)ri.Size(); j++) rv[j] = f(i, ri[j]); }
  return A;
}
}
