// PROPERTY: C01 C02 C03
// TUS: base/distributed/universal_dofs.cpp base/smoothers/gssmoother.cpp base/smoothers/base_smoother.cpp base/linalg/utils_sparseLA.cpp base/linalg/utils_sparseMM.cpp base/linalg/dyn_block.cpp
#include "smcheck.hpp"
#include "spcheck.hpp"
#include <gssmoother.hpp>
using namespace hx;
// Hiptmair smoother: range matrix, potential matrix (independent of each other), discrete gradient with symbolic entries
struct HM { SpSys<1> s, p; shared_ptr<SparseMatrix<double>> D, DT; shared_ptr<BaseSmoother> sp, sr; shared_ptr<HiptMairSmoother> sm; bool pf; int np; DM d; };
static HM hm(int n, int np, bool fullA, bool freed) {
  HM h; h.np = np; h.s = mksys<1>(n, n == 2 ? patt(2, {{0,1}}) : fullA ? patt(3, {{0,1},{1,2},{0,2}}) : patt(3, {{0,1},{1,2}}), freed); h.p = mksys<1>(np, np == 1 ? patt(1, {}) : patt(2, {{0,1}}), false, true, "p");
  std::vector<std::vector<int>> c(n); for (int i = 0; i < n; i++) for (int j = 0; j < np; j++) if (np == 1 || i == j || i == j + 1) c[i].push_back(j);
  h.d.assign(n, std::vector<double>(np, 0.0)); for (int i = 0; i < n; i++) for (int j : c[i]) h.d[i][j] = sx::real(nm("d", i, j));
  h.D = spmat(n, np, c, [&](int i, int j) { return h.d[i][j]; }); std::vector<std::vector<int>> ct(np); for (int i = 0; i < n; i++) for (int j : c[i]) ct[j].push_back(i); h.DT = spmat(np, n, ct, [&](int i, int j) { return h.d[j][i]; });
  h.sp = make_shared<GSS3<double>>(h.p.A, nullptr); h.sr = make_shared<GSS3<double>>(h.s.A, h.s.fd); h.pf = sx::flag("potFirst"); bool ad = sx::flag("adopt");
  h.sm = make_shared<HiptMairSmoother>(h.sp, h.sr, h.p.A, h.s.A, h.D, h.DT, ad, h.pf); return h; }
SX_HARNESS(C01_hm, "HiptMairSmoother over two GSS3, 3 range and 1 potential unknowns, both orders, with and without stored A*D", 0) { auto h = hm(3, 1, false, false); check_flags(*h.sm, h.s, 1); }
SX_HARNESS(C01_hm_k, "HiptMairSmoother, 2 range and 1 potential unknown, K-step and symmetric variants", 0) { auto h = hm(2, 1, false, false); check_flags(*h.sm, h.s, sx::tier() ? 4 : 3); }
SX_HARNESS(C02_hm, "HiptMairSmoother, 3 range and 2 potential unknowns", 0) { auto h = hm(3, 2, false, true); check_adjoint(*h.sm, h.s); }
SX_HARNESS(C03_hm, "HiptMairSmoother, 3 range and 1 potential unknown", 0) { auto h = hm(3, 1, false, false); check_consistent(*h.sm, h.s); }
// textbook: range sweep plus potential sweep on D^T r, in the stated order, reversed backward
SX_HARNESS(C03_hm_text, "HiptMairSmoother, 3 range and 2 potential unknowns, against range sweep + transferred potential sweep", 0) {
  auto h = hm(3, sx::tier() ? 2 : 1, false, false); int n = 3, np = h.np; bool bw = sx::flag("backward"), ur = sx::flag("update_res"); auto x = vvec(n, 1), b = vvec(n, 1), r = vvec(n, 1), y = vvec(n, 1), pr = vvec(np, 1), ps = vvec(np, 1);
  symb(x, n, "x"); symb(b, n, "b"); setzero(r, n); for (int i = 0; i < n; i++) at(y, i) = at(x, i); if (bw) h.sm->SmoothBack(x, b, r, false, ur, false); else h.sm->Smooth(x, b, r, false, ur, false);
  std::vector<std::vector<int>> rows(n), prow(np); for (int i = 0; i < n; i++) rows[i] = {i}; for (int i = 0; i < np; i++) prow[i] = {i};
  for (int st = 0; st < 2; st++) { bool pot = (st == 0) == (h.pf != bw); if (!pot) textbook(h.s, rows, bw, y, b); else { for (int j = 0; j < np; j++) { double v = 0; for (int i = 0; i < n; i++) v += h.d[i][j] * (at(b, i) - row(h.s, i, y)); at(pr, j) = v; } setzero(ps, np); textbook(h.p, prow, bw, ps, pr); for (int i = 0; i < n; i++) { double v = 0; for (int j = 0; j < np; j++) v += h.d[i][j] * at(ps, j); at(y, i) += v; } } }
  for (int i = 0; i < n; i++) sx::check_eq(at(x, i), at(y, i), "range sweep and potential correction in the stated order"); sx::reach("end"); }
// Richardson with an arbitrary matrix as preconditioner
static shared_ptr<RichardsonSmoother> rich(SpSys<1> &s, bool symm) { int n = s.n; auto C = make_shared<SpSys<1>>(mksys<1>(n, patt(n, n == 3 ? std::vector<std::pair<int,int>>{{0,1},{0,2}} : std::vector<std::pair<int,int>>{{0,1}}), false, true, "c")); return make_shared<RichardsonSmoother>(s.A, C->A, sx::real("omega")); }
SX_HARNESS(C01_rich, "RichardsonSmoother with a sparse matrix as preconditioner, n=2, K-step and symmetric variants", 0) { auto s = mksys<1>(2, patt(2, {{0,1}}), false); auto sm = rich(s, true); check_flags(*sm, s, 4); }
SX_HARNESS(C02_rich, "RichardsonSmoother, symmetric preconditioner, n=3", 0) { auto s = mksys<1>(3, patt(3, {{0,1},{1,2}}), false); auto sm = rich(s, true); check_adjoint(*sm, s); }
SX_HARNESS(C03_rich, "RichardsonSmoother, n=3", 0) { auto s = mksys<1>(3, patt(3, {{0,1},{1,2}}), false); auto sm = rich(s, true); check_consistent(*sm, s); }
