// PROPERTY: C04 C22
// TUS: base/solve/amg_matrix.cpp base/solve/LinearSolver.cpp base/coarsening/dof_map.cpp base/smoothers/base_smoother.cpp base/smoothers/gssmoother.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp
#include "spcheck.hpp"
#include "smcheck.hpp"
#include <dof_map.hpp>
#include <amg_matrix.hpp>
#include <LinearSolver.hpp>
#include <gssmoother.hpp>
using namespace hx;
typedef std::vector<std::vector<int>> VV; typedef std::vector<double> VD;
// a smoother given by a matrix: forward x += M r, backward x += M^T r; honours all flags, poisons what it need not keep
struct MatSm : public BaseSmoother { DMat A, M; int n; MatSm(shared_ptr<BaseMatrix> a, DMat _A, DMat _M) : BaseSmoother(a), A(_A), M(_M), n(_A.size()) {}
  void go(bool t, BaseVector &x, const BaseVector &b, BaseVector &res, bool ru, bool ur, bool xz) const { VD r(n), u(n, 0.0);
    if (xz) for (int i = 0; i < n; i++) sx::check_eq(at(x, i), 0.0, "guess announced as zero is zero");
    for (int i = 0; i < n; i++) { double v = at(b, i); for (int j = 0; j < n; j++) v -= A[i][j] * at(x, j); if (ru) sx::check_eq(at(res, i), v, "residual announced as up to date is up to date"); r[i] = v; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) u[i] += (t ? M[j][i] : M[i][j]) * r[j]; for (int i = 0; i < n; i++) at(x, i) += u[i];
    for (int i = 0; i < n; i++) { if (ur) { double v = r[i]; for (int j = 0; j < n; j++) v -= A[i][j] * u[j]; at(res, i) = v; } else at(res, i) = sx::real(nm("stale", i)); } }
  void Smooth(BaseVector &x, const BaseVector &b, BaseVector &res, bool ru, bool ur, bool xz) const override { go(false, x, b, res, ru, ur, xz); }
  void SmoothBack(BaseVector &x, const BaseVector &b, BaseVector &res, bool ru, bool ur, bool xz) const override { go(true, x, b, res, ru, ur, xz); } };
static VD mv(const DMat &P, const VD &x) { VD y(P.size(), 0.0); for (size_t i = 0; i < P.size(); i++) for (size_t j = 0; j < x.size(); j++) y[i] += P[i][j] * x[j]; return y; }
static VD axpy(VD y, double s, const VD &x) { for (size_t i = 0; i < x.size(); i++) y[i] += s * x[i]; return y; }
struct Hier { int L; std::vector<int> n; std::vector<DMat> A, M, P, PT; std::vector<shared_ptr<SparseMatrix<double>>> sA; shared_ptr<AMGMatrix> amg; shared_ptr<DOFMap> map; Array<shared_ptr<BaseSmoother>> sm; DMat C; bool inv;
  VD V(int l, const VD &b, VD x) const { if (l == L - 1) return inv ? mv(C, b) : VD(n[l], 0.0); x = axpy(x, 1, mv(M[l], res(l, b, x))); x = axpy(x, 1, mv(P[l], V(l + 1, mv(PT[l], res(l, b, x)), VD(n[l+1], 0.0)))); return axpy(x, 1, mv(tr(M[l]), res(l, b, x))); }
  VD res(int l, const VD &b, const VD &x) const { return axpy(b, -1, mv(A[l], x)); }
  VD W(int l, const VD &b) const { if (l == L - 1) return inv ? mv(C, b) : VD(n[l], 0.0); VD x(n[l], 0.0); for (int k = 0; k < 2; k++) { x = axpy(x, 1, mv(M[l], res(l, b, x))); x = axpy(x, 1, mv(P[l], W(l + 1, mv(PT[l], res(l, b, x))))); x = axpy(x, 1, mv(tr(M[l]), res(l, b, x))); } return x; }
  VD BS(int l, const VD &b) const { if (l == L - 1) return inv ? mv(C, b) : VD(n[l], 0.0); VD x = V(l, b, VD(n[l], 0.0)); x = axpy(x, 1, mv(P[l], BS(l + 1, mv(PT[l], res(l, b, x))))); return V(l, b, x); } };
static DMat cst(int n, int m, int s) { DMat d(n, VD(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) d[i][j] = ((i * 7 + j * 3 + s) % 5 + 1) * (((i + j + s) % 3) ? 0.5 : -0.25); return d; }
static shared_ptr<SparseMatrix<double>> full(const DMat &d, int w) { VV c(d.size()); for (auto &r : c) for (int j = 0; j < w; j++) r.push_back(j); return spmat(d.size(), w, c, [&](int i, int j) { return d[i][j]; }); }
// level sizes; sym: level whose operators are symbolic (-1: all)
static Hier hier(std::vector<int> n, int sym, bool inv) { Hier h; h.n = n; h.L = n.size(); h.inv = inv; h.map = make_shared<DOFMap>(); h.sm.SetSize(h.L - 1);
  for (int l = 0; l < h.L; l++) { bool s = sym == -1 || sym == l; DMat a = cst(n[l], n[l], l); for (int i = 0; i < n[l]; i++) for (int j = 0; j <= i; j++) { double v = s ? sx::real(nm(nm("a", l, i), j)) : a[i][j]; a[i][j] = a[j][i] = v; } h.A.push_back(a); h.sA.push_back(full(a, n[l]));
    DMat m = cst(n[l], n[l], l + 2); if (s) for (int i = 0; i < n[l]; i++) for (int j = 0; j < n[l]; j++) m[i][j] = j > i ? 0.0 : sx::real(nm(nm("m", l, i), j)); h.M.push_back(m);
    if (l + 1 < h.L) { DMat p = cst(n[l], n[l+1], l + 1); if (s) for (auto &r : p) for (auto &v : r) v = sx::real(nm("p", l, h.P.size() * 10 + (&v - &r[0]) + 4 * (&r - &p[0]))); h.P.push_back(p); h.PT.push_back(tr(p, n[l+1])); auto pm = make_shared<ProlMap<double>>(full(p, n[l+1]), UniversalDofs(n[l], 1), UniversalDofs(n[l+1], 1)); pm->Finalize(); h.map->AddStep(pm); h.sm[l] = make_shared<MatSm>(h.sA[l], a, m); } }
  int k = n.back(); DMat c(k, VD(k)); for (int i = 0; i < k; i++) for (int j = 0; j <= i; j++) c[i][j] = c[j][i] = sx::real(nm("c", i, j)); h.C = c;
  h.map->Finalize(); h.amg = make_shared<AMGMatrix>(h.map, h.sm); if (inv) h.amg->SetCoarseInv(full(c, k), h.sA.back()); return h; }
static VD symv(BaseVector &v, int n, const char *s) { symb(v, n, s); VD r(n); for (int i = 0; i < n; i++) r[i] = at(v, i); return r; }
static Hier anyh(bool inv, int cy = 0) { int k = sx::choose("hierarchy", 5); if (cy) { if (k == 0) return hier({2, 1}, sx::tier() ? -1 : 0, inv); if (k == 1) return hier({1, 1, 1}, 0, inv); if (k == 3 && !sx::tier()) return hier({2, 2, 1}, 4, inv); } if (k == 0) return hier({2, 1}, -1, inv); if (k == 1) return hier({2, 1, 1}, 0, inv); if (k == 2) return hier({2, 1, 1}, 1, inv); if (k == 3) return hier({2, 2, 1}, 1, inv); return hier({3, 2, 1, 1}, sx::tier() ? 2 : 4, inv); }
SX_HARNESS(C04_cycle, "AMGMatrix with 2, 3 or 4 levels, V, W and nested V cycle, with and without coarse inverse; operators of every level in turn symbolic", 0) {
  bool inv = sx::flag("inv"); int cy = sx::choose("cycle", 3); auto h = anyh(inv, cy); h.amg->SetVWB(cy); int how = sx::choose("how", 4), n = h.n[0]; auto x = vvec(n, 1), b = vvec(n, 1); auto B = symv(b, n, "b"); auto X = symv(x, n, "x"); double s = sx::real("s");
  if (how == 0) h.amg->Mult(*b, *x); else if (how == 1) h.amg->MultTrans(*b, *x); else if (how == 2) h.amg->MultAdd(s, *b, *x); else h.amg->MultTransAdd(s, *b, *x);
  auto E = cy == 0 ? h.V(0, B, VD(n, 0.0)) : cy == 1 ? h.W(0, B) : h.BS(0, B); for (int i = 0; i < n; i++) { sx::check_eq(at(x, i), how < 2 ? E[i] : X[i] + s * E[i], "cycle = textbook recursion"); sx::check_eq(at(b, i), B[i], "right hand side untouched"); } sx::reach("end"); }
SX_HARNESS(C04_symm, "the cycle is a symmetric operator and repeated application gives the same result (no state kept between applications)", 0) {
  int cy = sx::choose("cycle", 3); auto h = anyh(true, cy); h.amg->SetVWB(cy); int n = h.n[0]; auto x = vvec(n, 1), b = vvec(n, 1), y = vvec(n, 1), c = vvec(n, 1); auto B = symv(b, n, "b"), C = symv(c, n, "c"); symb(x, n, "x"); symb(y, n, "y"); h.amg->Mult(*b, *x); h.amg->Mult(*c, *y); double u = 0, v = 0; for (int i = 0; i < n; i++) { u += at(x, i) * C[i]; v += at(y, i) * B[i]; } sx::check_eq(u, v, "symmetric preconditioner");
  VD x1(n); for (int i = 0; i < n; i++) x1[i] = at(x, i); h.amg->Mult(*b, *x); for (int i = 0; i < n; i++) sx::check_eq(at(x, i), x1[i], "second application gives the same result"); sx::reach("end"); }
SX_HARNESS(C04_from_level, "SmoothVFromLevel on every level, all flag combinations: one V cycle on the given iterate, residual kept when asked", 0) {
  auto h = anyh(true); int l = sx::choose("level", h.L - 1), n = h.n[l]; bool ru = sx::flag("ru"), ur = sx::flag("ur"), xz = sx::flag("xz"); auto x = vvec(n, 1), b = vvec(n, 1), r = vvec(n, 1); auto B = symv(b, n, "b"); VD X(n, 0.0); if (xz) setzero(x, n); else X = symv(x, n, "x"); auto R = h.res(l, B, X); if (ru) for (int i = 0; i < n; i++) at(r, i) = R[i]; else symb(r, n, "old");
  int how = sx::choose("how", 3); if (how == 0) h.amg->SmoothVFromLevel(l, x, b, r, ru, ur, xz); else { AMGSmoother s(h.amg, l); if (how == 1) s.Smooth(x, b, r, ru, ur, xz); else s.SmoothBack(x, b, r, ru, ur, xz); } auto E = h.V(l, B, X); for (int i = 0; i < n; i++) { sx::check_eq(at(x, i), E[i], "one V cycle"); sx::check_eq(at(b, i), B[i], "right hand side untouched"); } if (ur) { auto q = h.res(l, B, E); for (int i = 0; i < n; i++) sx::check_eq(at(r, i), q[i], "residual of the new iterate"); } sx::reach("end"); }
SX_HARNESS(C04_single_fls, "AMGSmoother with a single fine level sweep: coarse V cycle and sweep, backward the reverse; all flags", 0) {
  auto h = sx::flag("big") ? hier({2, 2, 1, 1}, 1, true) : hier({2, 1, 1}, sx::choose("sym", 2), true); int l = h.L == 4 ? sx::choose("level", 2) : 0, n = h.n[l]; bool ru = sx::flag("ru"), ur = sx::flag("ur"), xz = sx::flag("xz"), bw = sx::flag("bw"); auto x = vvec(n, 1), b = vvec(n, 1), r = vvec(n, 1); auto B = symv(b, n, "b"); VD X(n, 0.0); if (xz) setzero(x, n); else X = symv(x, n, "x"); auto R = h.res(l, B, X); if (ru) for (int i = 0; i < n; i++) at(r, i) = R[i]; else symb(r, n, "old");
  AMGSmoother s(h.amg, l, true); if (bw) s.SmoothBack(x, b, r, ru, ur, xz); else s.Smooth(x, b, r, ru, ur, xz); auto E = X; for (int st = 0; st < 2; st++) if ((st == 0) == bw) E = axpy(E, 1, mv(bw ? tr(h.M[l]) : h.M[l], h.res(l, B, E))); else E = axpy(E, 1, mv(h.P[l], h.V(l + 1, mv(h.PT[l], h.res(l, B, E)), VD(h.n[l+1], 0.0))));
  for (int i = 0; i < n; i++) sx::check_eq(at(x, i), E[i], "coarse correction and sweep in the stated order"); if (ur) { auto q = h.res(l, B, E); for (int i = 0; i < n; i++) sx::check_eq(at(r, i), q[i], "residual of the new iterate"); } sx::reach("end"); }
SX_HARNESS(C04_embedded, "EmbeddedAMGMatrix: embedding around an AMG matrix, with and without a finest level smoother, all cycles", 0) {
  auto h = hier({2, 1}, sx::choose("sym", 2), true); int cy = sx::choose("cycle", 3); h.amg->SetVWB(cy); bool fl = sx::flag("fls"); DMat E = {{sx::real("e0"), 0.0}, {1.0, sx::real("e1")}, {0.0, 2.0}}, A = cst(3, 3, 1), M = cst(3, 3, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) A[i][j] = A[j][i];
  auto ds = make_shared<ProlMap<double>>(full(E, 2), UniversalDofs(3, 1), UniversalDofs(2, 1)); ds->Finalize(); shared_ptr<BaseSmoother> fs; auto sa = full(A, 3); if (fl) fs = make_shared<MatSm>(sa, A, M); EmbeddedAMGMatrix em(fs, h.amg, ds);
  auto x = vvec(3, 1), b = vvec(3, 1); auto B = symv(b, 3, "b"), X = symv(x, 3, "x"); int how = sx::choose("how", 4); double s = sx::real("s"); if (how == 0) em.Mult(*b, *x); else if (how == 1) em.MultTrans(*b, *x); else if (how == 2) em.MultAdd(s, *b, *x); else em.MultTransAdd(s, *b, *x);
  auto cyc = [&](const VD &q) { return cy == 0 ? h.V(0, q, VD(2, 0.0)) : cy == 1 ? h.W(0, q) : h.BS(0, q); }; VD R; auto res = [&](const VD &y) { return axpy(B, -1, mv(A, y)); };
  if (fl) { VD y = mv(M, B); y = axpy(y, 1, mv(E, cyc(mv(tr(E), res(y))))); R = axpy(y, 1, mv(tr(M), res(y))); } else R = mv(E, cyc(mv(tr(E), B)));
  for (int i = 0; i < 3; i++) { sx::check_eq(at(x, i), how < 2 ? R[i] : X[i] + s * R[i], "embedded cycle"); sx::check_eq(at(b, i), B[i], "right hand side untouched"); } sx::reach("end"); }
SX_HARNESS(C04_bf, "coarse inverse seen on the finest level (CINV), basis functions (GetBF) of every level and component, level and dof counts", 0) {
  auto h = hier({3, 2, 1}, -1, true); int n = 3; if (sx::flag("cinv")) { shared_ptr<BaseVector> x = h.map->CreateVector(0), b = h.map->CreateVector(0); auto B = symv(*b, n, "b"); symb(*x, n, "x"); h.amg->CINV(x, b); auto E = mv(h.P[0], mv(h.P[1], mv(h.C, mv(h.PT[1], mv(h.PT[0], B))))); for (int i = 0; i < n; i++) sx::check_eq(at(*x, i), E[i], "prolongated coarse solution"); auto y = vvec(n, 1); h.amg->Mult(*b, *y); auto F = h.V(0, B, VD(n, 0.0)); for (int i = 0; i < n; i++) sx::check_eq(at(y, i), F[i], "cycle unaffected by an earlier CINV"); sx::reach("cinv"); return; }
  int l = sx::choose("level", 3), d = sx::choose("dof", h.n[l]), on = sx::choose("on", l + 1); auto v = vvec(h.n[on], 1); symb(v, h.n[on], "v"); h.amg->GetBF(v, l, d, 0, 0, on); VD e(h.n[l], 0.0); e[d] = 1.0; for (int k = l - 1; k >= on; k--) e = mv(h.P[k], e); for (int i = 0; i < h.n[on]; i++) sx::check_eq(at(v, i), e[i], "column of the concatenated prolongations");
  sx::check(h.amg->GetNLevels(0) == 3, "levels"); auto nd = h.amg->GetNDof(l, 0); sx::check((int)get<0>(nd) == h.n[l] && get<1>(nd) == 1, "dofs per level"); sx::reach("end"); }
SX_HARNESS(C04_gss, "V cycle with real Gauss-Seidel smoothers on two levels, symbolic matrices: symmetric operator", 0) {
  auto s0 = mksys<1>(2, patt(2, {{0,1}}), false); double p0 = sx::real("p0"), p1 = sx::real("p1"), c = sx::real("c"); DMat P = {{p0}, {p1}}; auto map = make_shared<DOFMap>(); auto pm = make_shared<ProlMap<double>>(full(P, 1), UniversalDofs(2, 1), UniversalDofs(1, 1)); pm->Finalize(); map->AddStep(pm); map->Finalize(); Array<shared_ptr<BaseSmoother>> sm(1); sm[0] = make_shared<GSS3<double>>(s0.A, nullptr); AMGMatrix m(map, sm); m.SetCoarseInv(full(DMat{{c}}, 1), full(DMat{{1.0}}, 1)); m.SetVWB(sx::choose("cycle", 2));
  DM F(2, VD(2)); for (int j = 0; j < 2; j++) { auto x = vvec(2, 1), b = vvec(2, 1); setzero(b, 2); at(b, j) = 1.0; m.Mult(*b, *x); for (int i = 0; i < 2; i++) F[i][j] = at(x, i); } sx::check_eq(F[0][1], F[1][0], "symmetric preconditioner"); sx::reach("end"); }
// a linear solver whose iteration and error are chosen by the harness
struct TestSolver : public LinearSolver { int its = 0; std::vector<double> e; VD x0, r0; TestSolver(shared_ptr<BaseMatrix> A, int ms, double rt) : LinearSolver(A, ms, rt) {}
  void DoIteration(BaseVector &x, const BaseVector &b, BaseVector &res) override { if (its == 0) for (int i = 0; i < 2; i++) { x0.push_back(at(x, i)); r0.push_back(at(res, i)); } its++; }
  double ComputeError(BaseVector &x, const BaseVector &b, BaseVector &res) override { double v = sx::real(nm("err", e.size())); sx::assume(v >= 0); e.push_back(v); return v; }
  AutoVector CreateColVector() const override { return make_unique<VVector<double>>(2); } AutoVector CreateRowVector() const override { return make_unique<VVector<double>>(2); } AutoVector CreateVector() const override { return make_unique<VVector<double>>(2); } };
SX_HARNESS(C22_solver, "LinearSolver with an arbitrary error history, up to 3 steps, with and without tolerance, saved errors, zero or given start", 0) {
  DMat a = {{sx::real("a00"), sx::real("a01")}, {sx::real("a10"), sx::real("a11")}}; auto A = full(a, 2); int ms = sx::choose("max_steps", 4); double rt = sx::flag("tol") ? sx::real("rtol") : 0.0; sx::assume(rt >= 0); bool init = sx::flag("initialize"), save = sx::flag("save"), own = sx::flag("own"); TestSolver s(A, ms, rt); if (save) s.SetSaveErrors(true); auto x = vvec(2, 1), b = vvec(2, 1), r = vvec(2, 1); auto X = symv(x, 2, "x"), B = symv(b, 2, "b"); symb(r, 2, "r"); bool xz = !init && sx::flag("xzero"); if (xz) { setzero(x, 2); X = VD(2, 0.0); }
  if (own) s.Solve(x, b, init, xz); else s.Solve(x, b, r, init, xz); bool conv = false; int steps = 0; if (rt > 0) { for (int k = 0; k < ms && !conv; k++) { steps++; conv = s.e[k+1] < rt * s.e[0]; } } else steps = ms;
  sx::check(s.its == steps, "iterates until the error is below the tolerance, or to the end"); sx::check(s.GetConverged() == conv, "reports convergence"); if (conv) sx::check(s.GetNeededSteps() == steps, "number of steps needed"); else sx::check(s.GetNeededSteps() == -1, "no step count without convergence");
  if (save) { sx::check((int)s.GetErrors().Size() >= steps + 1, "errors saved"); for (int k = 0; k <= steps; k++) sx::check_eq(s.GetErrors()[k], s.e[k], "saved error"); }
  if (steps) { VD x1 = init ? VD(2, 0.0) : X; auto q = axpy(B, -1, mv(a, x1)); for (int i = 0; i < 2; i++) { sx::check_eq(s.x0[i], x1[i], "start iterate"); sx::check_eq(s.r0[i], q[i], "residual of the start iterate"); } } sx::reach("end"); }
SX_HARNESS(C22_amg, "AMGAsLinearSolver: k steps are k V cycles on the given iterate, Mult starts from zero, MultAdd adds the scaled solution", 0) {
  auto h = hier({2, 1}, sx::choose("sym", 3), true); int k = 1 + sx::choose("steps", 2); AMGAsLinearSolver s(h.amg, k, 0.0); auto x = vvec(2, 1), b = vvec(2, 1); auto X = symv(x, 2, "x"), B = symv(b, 2, "b"); int how = sx::choose("how", 5); double c = sx::real("s"); VD y = how == 0 ? X : VD(2, 0.0); for (int i = 0; i < k; i++) y = h.V(0, B, y);
  if (how && sx::flag("again")) { auto z = vvec(2, 1); symb(z, 2, "z"); s.Mult(b, z); } if (how == 0) s.Solve(x, b, false, false); else if (how == 1) s.Mult(b, x); else if (how == 2) s.MultTrans(b, x); else if (how == 3) s.MultAdd(c, b, x); else s.MultTransAdd(c, b, x); for (int i = 0; i < 2; i++) sx::check_eq(at(x, i), how < 3 ? y[i] : X[i] + c * y[i], "steps of the cycle"); sx::check(s.VHeight() == 2 && s.VWidth() == 2, "size"); sx::reach("end"); }
