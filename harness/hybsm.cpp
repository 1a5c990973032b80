// PROPERTY: C23
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/linalg/bla_extension.cpp base/smoothers/hybrid_base_smoother.cpp base/smoothers/hybrid_smoother.cpp base/smoothers/gssmoother.cpp base/smoothers/block_gssmoother.cpp base/smoothers/loc_block_gssmoother.cpp base/smoothers/dyn_block_smoother.cpp base/smoothers/base_smoother.cpp
// ASSUME: the global matrix is symmetric with positive diagonal (concrete squares) and off-diagonal entries below half the geometric mean of the diagonal entries, quick tier: all contributions to them non-positive; shared dofs are numbered in the same relative order on all ranks
#include "pargen.hpp"
#include <gssmoother.hpp>
#include <block_gssmoother.hpp>
#include <dyn_block_smoother.hpp>
using namespace hx;
enum KIND { GSS, BS2, BS1, DYN };
// the diagonal of the global matrix: squares, split evenly over the ranks
struct HS { ParMat<double> P; int np = 1, kind = 0, N = 0; bool sub = false; int steps = 1; bool overlap = true; fmpi::Mode md; VI fr;
  void pick(int k, bool freed) { kind = k; P.sym = true; N = 3; P.p.es = 1; P.p.nd = N; if (sx::tier()) { P.pick(3); } else { static const int S[12][4] = {{1,1,1,1}, {2,3,3,3}, {2,1,2,3}, {2,3,1,2}, {2,2,3,3}, {2,1,3,1}, {2,3,2,2}, {3,7,7,7}, {3,7,1,6}, {3,3,6,5}, {3,1,7,4}, {3,5,3,2}}; auto &q = S[sx::choose("sharing", 12)]; P.p.np = q[0]; P.p.m = {q[1], q[2], q[3]}; P.pat = k == DYN ? sx::choose("pattern", 2) : 0; P.p.init(); }
    np = P.p.np; bool late = sx::flag("late and overlapped"); md = np > 1 ? fmpi::Mode{late, 0, false} : fmpi::Mode{false, 0, false}; overlap = late; fr.assign(N, 1); if (freed) { int f = sx::choose("fixed dof", sx::tier() ? N + 1 : 2); if (f) fr[f - 1] = 0; } }
  void fill() { P.fill(); for (int i = 0; i < N; i++) { int c = 0; double D[3] = {4, 16, 1}; for (int r = 0; r < np; r++) c += has(P.p.m[i], r); int k = 0; for (int r = 0; r < np; r++) if (has(P.p.m[i], r)) { P.a[r][i][i] = c == 3 ? (k == 0 ? D[i] / 2 : D[i] / 4) : D[i] / c; k++; } }
    for (int r = 0; r < np; r++) for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (P.on(r, i, j) && !sx::tier()) sx::assume(P.a[r][i][j] <= 0.0); auto G = P.global(); double B[3][3] = {{0, 4, 1}, {4, 0, 2}, {1, 2, 0}}; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) { bool on = false; for (int r = 0; r < np; r++) on |= P.on(r, i, j); if (on) { sx::assume(G[i][j] > -B[i][j]); sx::assume(G[i][j] < B[i][j]); } } }
  shared_ptr<BaseSmoother> mk(int r, shared_ptr<ParallelDofs> pd) const { auto A = P.mat(r, pd); int n = P.p.g[r].size(); auto fd = make_shared<BitArray>(n); fd->Clear(); bool all = true; VVI bl; for (int i = 0; i < n; i++) if (fr[P.p.g[r][i]]) { fd->SetBit(i); bl.push_back({i}); } else all = false; if (all) fd = nullptr;
    switch (kind) { case GSS: { auto s = make_shared<HybridGSSmoother<double>>(A, fd, false, overlap, false, false, steps); s->Finalize(); return s; } case DYN: return make_shared<HybridDynBlockSmoother<double>>(A, fd, steps, false, overlap, 1.0);
      default: { if (bl.size() > 1) { bl[1].push_back(bl[0][0]); std::sort(bl[1].begin(), bl[1].end()); bl.erase(bl.begin()); } return make_shared<HybridBS<double>>(A, tab(bl), false, overlap, false, false, false, kind == BS2, false, false, steps); } } }
  double row(const MD &G, int i, const VD &x) const { double s = 0; for (int j = 0; j < N; j++) s += G[i][j] * x[j]; return s; }
  // global values of a vector handed back by the ranks: cumulated vectors must agree
  VD val(const std::vector<VD> &v, const VI &st, const char *w) const { VD o; for (int i = 0; i < N; i++) { double s = 0; bool f = true; for (int r = 0; r < np; r++) if (has(P.p.m[i], r)) { double t = v[r][P.p.l[r].at(i)]; if (st[r] == CUMULATED) { if (f) s = t; else sx::check_eq(t, s, w); } else s += t; f = false; } o.push_back(s); } for (int r = 0; r < np; r++) sx::check(st[r] == st[0], "same status on all ranks"); return o; } };
static PVec pv(const PD &p, const VD &g, bool cum) { PVec v; v.cum = cum; v.v.assign(p.np, VD(p.nd, 0.0)); for (int i = 0; i < p.nd; i++) for (int r = 0; r < p.np; r++) if (has(p.m[i], r) && (cum || p.master(i) == r)) v.v[r][i] = g[i]; return v; }
static void grab(const BaseVector &v, VD &o, int &st) { st = v.GetParallelStatus(); for (double t : v.FVDouble()) o.push_back(t); }
// same iterate for all flags, residual as promised, right hand side keeps its value
static void flags(int kind) { HS H; H.pick(kind, false); bool ru = sx::flag("res_updated"), ur = sx::flag("update_res"), xz = sx::flag("x_zero"), bw = sx::flag("backward"), bc = sx::flag("rhs cumulated"); H.fill(); int np = H.np, N = H.N; auto G = H.P.global(); VD x0, b0, r0; PVec B; B.fill(H.P.p, "b", bc); b0 = B.global(H.P.p); for (int i = 0; i < N; i++) x0.push_back(xz ? 0.0 : sx::real(nm("x", i))); for (int i = 0; i < N; i++) r0.push_back(b0[i] - H.row(G, i, x0));
  std::vector<VD> x1(np), x2(np), rr(np), bb(np); VI s1(np), s2(np), sr(np), sb(np);
  fmpi::run(np, H.md, [&](int r) { auto pd = H.P.p.mk(r); auto sm = H.mk(r, pd); auto x = pv(H.P.p, x0, true).mk(H.P.p, r, pd), y = pv(H.P.p, x0, true).mk(H.P.p, r, pd), b = B.mk(H.P.p, r, pd), c = B.mk(H.P.p, r, pd), q = pvec(pd, DISTRIBUTED); q->SetScalar(7.0); q->SetParallelStatus(DISTRIBUTED); shared_ptr<BaseVector> res; if (ru) { if (xz) res = B.mk(H.P.p, r, pd); else res = pv(H.P.p, r0, false).mk(H.P.p, r, pd); } else { res = pvec(pd, DISTRIBUTED); res->SetScalar(5.0); res->SetParallelStatus(DISTRIBUTED); }
    if (bw) { sm->SmoothBack(*x, *b, *res, ru, ur, xz); sm->SmoothBack(*y, *c, *q, false, false, false); } else { sm->Smooth(*x, *b, *res, ru, ur, xz); sm->Smooth(*y, *c, *q, false, false, false); } grab(*x, x1[r], s1[r]); grab(*y, x2[r], s2[r]); grab(*res, rr[r], sr[r]); grab(*b, bb[r], sb[r]); });
  VD X = H.val(x1, s1, "ranks agree on the iterate"), Y = H.val(x2, s2, "ranks agree on the iterate"), R = ur ? H.val(rr, sr, "ranks agree on the residual") : VD(), Bv = H.val(bb, sb, "ranks agree on the right hand side"); for (int r = 0; r < np; r++) sx::check(s1[r] == CUMULATED || np == 1, "iterate is cumulated");
  for (int i = 0; i < N; i++) { sx::check_eq(X[i], Y[i], "same iterate for every flag combination"); sx::check_eq(Bv[i], b0[i], "right hand side keeps its value"); if (ur) sx::check_eq(R[i], b0[i] - H.row(G, i, X), "residual up to date on return"); } sx::reach("end"); }
static void adjoint(int kind) { HS H; H.pick(kind, kind != BS1); bool ur = sx::flag("update_res"); H.fill(); int np = H.np, N = H.N; VD b0, c0; for (int i = 0; i < N; i++) { b0.push_back(sx::real(nm("b", i))); c0.push_back(sx::real(nm("c", i))); } std::vector<VD> o1(np), o2(np); VI s1(np), s2(np); VD z(N, 0.0);
  fmpi::run(np, H.md, [&](int r) { auto pd = H.P.p.mk(r); auto sm = H.mk(r, pd); auto x = pv(H.P.p, z, true).mk(H.P.p, r, pd), y = pv(H.P.p, z, true).mk(H.P.p, r, pd), b = pv(H.P.p, b0, false).mk(H.P.p, r, pd), c = pv(H.P.p, c0, false).mk(H.P.p, r, pd), q = pvec(pd, DISTRIBUTED); q->SetScalar(0.0); q->SetParallelStatus(DISTRIBUTED); sm->Smooth(*x, *b, *q, false, ur, true); sm->SmoothBack(*y, *c, *q, false, ur, true); grab(*x, o1[r], s1[r]); grab(*y, o2[r], s2[r]); });
  VD X = H.val(o1, s1, "ranks agree"), Y = H.val(o2, s2, "ranks agree"); double u = 0, v = 0; for (int i = 0; i < N; i++) { if (!H.fr[i]) { sx::check_eq(X[i], 0.0, "fixed dof untouched"); sx::check_eq(Y[i], 0.0, "fixed dof untouched"); } u += X[i] * c0[i]; v += Y[i] * b0[i]; } sx::check_eq(u, v, "backward sweep is the adjoint of the forward sweep"); sx::reach("end"); }
// the update depends on the residual only, fixed dofs stay, every free dof with a residual is updated by a damped block solve
static void consistent(int kind) { HS H; H.pick(kind, true); bool bw = sx::flag("backward"), ur = sx::flag("update_res"); H.steps = 1 + sx::flag("two local steps"); H.fill(); int np = H.np, N = H.N; auto G = H.P.global(); VD x0, r0, b0; for (int i = 0; i < N; i++) x0.push_back(sx::real(nm("x", i))); for (int i = 0; i < N; i++) { r0.push_back(sx::real(nm("r", i))); b0.push_back(r0[i] + H.row(G, i, x0)); } std::vector<VD> o1(np), o2(np), o3(np); VI s1(np), s2(np), s3(np); VD z(N, 0.0);
  fmpi::run(np, H.md, [&](int r) { auto pd = H.P.p.mk(r); auto sm = H.mk(r, pd); auto go = [&](const VD &x0, const VD &b0, VD &o, int &s, bool zero, int n) { auto x = pv(H.P.p, x0, true).mk(H.P.p, r, pd), b = pv(H.P.p, b0, false).mk(H.P.p, r, pd), q = pvec(pd, DISTRIBUTED); q->SetScalar(0.0); q->SetParallelStatus(DISTRIBUTED); for (int k = 0; k < n; k++) if (bw) sm->SmoothBack(*x, *b, *q, false, ur, zero); else sm->Smooth(*x, *b, *q, false, ur, zero); grab(*x, o, s); }; go(x0, b0, o1[r], s1[r], false, 1); go(z, r0, o2[r], s2[r], true, 1); if (np == 1 && H.steps == 2) { HS K = H; K.steps = 1; sm = K.mk(r, pd); go(x0, b0, o3[r], s3[r], false, 2); } });
  VD X = H.val(o1, s1, "ranks agree"), Y = H.val(o2, s2, "ranks agree"); for (int i = 0; i < N; i++) { sx::check_eq(X[i] - x0[i], H.fr[i] ? Y[i] : 0.0, "update depends on the residual only, fixed dofs stay"); if (np == 1 && H.steps == 2) sx::check_eq(X[i], o3[0][i], "on one rank, two local steps are two sweeps"); } sx::reach("end"); }
SX_HARNESS(C23_gss_flags, "hybrid Gauss-Seidel: all flag combinations, both directions, right hand side distributed or cumulated; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { flags(GSS); }
SX_HARNESS(C23_bs2_flags, "hybrid block smoother with one schedule: all flag combinations, both directions, right hand side distributed or cumulated; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { flags(BS2); }
SX_HARNESS(C23_bs1_flags, "hybrid block smoother with three local ones: all flag combinations, both directions, right hand side distributed or cumulated; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { flags(BS1); }
SX_HARNESS(C23_dyn_flags, "hybrid dynamic block smoother: all flag combinations, both directions, right hand side distributed or cumulated; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { flags(DYN); }
SX_HARNESS(C23_gss_adjoint, "hybrid Gauss-Seidel: forward against backward sweep, one dof possibly fixed; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { adjoint(GSS); }
SX_HARNESS(C23_bs2_adjoint, "hybrid block smoother with one schedule: forward against backward sweep, one dof possibly fixed; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { adjoint(BS2); }
SX_HARNESS(C23_bs1_adjoint, "hybrid block smoother with three local ones: forward against backward sweep, one dof possibly fixed; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { adjoint(BS1); }
SX_HARNESS(C23_dyn_adjoint, "hybrid dynamic block smoother: forward against backward sweep, one dof possibly fixed; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { adjoint(DYN); }
SX_HARNESS(C23_gss_cons, "hybrid Gauss-Seidel: one and two local steps, both directions, one dof possibly fixed; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { consistent(GSS); }
SX_HARNESS(C23_bs2_cons, "hybrid block smoother with one schedule: one and two local steps, both directions, one dof possibly fixed; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { consistent(BS2); }
SX_HARNESS(C23_dyn_cons, "hybrid dynamic block smoother: one and two local steps, both directions, one dof possibly fixed; 3 dofs, 12 sharing patterns on 1 to 3 ranks (thorough: all), messages early or late and overlapped; all real off-diagonal entries within the assumption and all vectors", 0) { consistent(DYN); }
// every rank is master of one dof: the sweep is a Jacobi step, damped enough for convergence: the diagonal used is at least half the scaled absolute row sum
static void damp(int kind) { HS H; H.kind = kind; H.P.sym = true; H.N = 3; H.P.p.es = 1; H.P.p.nd = 3; int np = 2 + sx::choose("ranks", 2); H.np = H.P.p.np = np; H.N = H.P.p.nd = np; if (np == 2) { H.P.p.m = {3, 2 + sx::choose("other shared", 1)}; } else { static const int S[3][3] = {{7, 6, 4}, {3, 6, 4}, {7, 2, 4}}; auto &q = S[sx::choose("sharing", 3)]; H.P.p.m = {q[0], q[1], q[2]}; } H.P.p.init(); H.fr.assign(H.N, 1); bool bw = sx::flag("backward"); H.P.fill(); for (int i = 0; i < H.N; i++) { int c = 0; double D[3] = {4, 16, 1}; for (int r = 0; r < np; r++) c += has(H.P.p.m[i], r); int k = 0; for (int r = 0; r < np; r++) if (has(H.P.p.m[i], r)) { H.P.a[r][i][i] = c == 3 ? (k == 0 ? D[i] / 2 : D[i] / 4) : D[i] / c; k++; } }
  auto G = H.P.global(); int N = H.N; VD b(N, 1.0), z(N, 0.0); std::vector<VD> o(np); VI st(np); fmpi::run(np, fmpi::Mode{false, 0, false}, [&](int r) { auto pd = H.P.p.mk(r); auto sm = H.mk(r, pd); auto x = pv(H.P.p, z, true).mk(H.P.p, r, pd), f = pv(H.P.p, b, false).mk(H.P.p, r, pd), q = pvec(pd, DISTRIBUTED); q->SetScalar(0.0); q->SetParallelStatus(DISTRIBUTED); if (bw) sm->SmoothBack(*x, *f, *q, false, false, true); else sm->Smooth(*x, *f, *q, false, false, true); grab(*x, o[r], st[r]); });
  VD X = H.val(o, st, "ranks agree"); double sq[3] = {2, 4, 1}; for (int i = 0; i < N; i++) { double s = G[i][i]; for (int j = 0; j < N; j++) if (j != i) s += (G[i][j] < 0 ? -G[i][j] : G[i][j]) * sq[i] / sq[j]; sx::check(X[i] > 0, "positive diagonal"); sx::check(X[i] * G[i][i] <= 1.0, "at least the diagonal of the matrix"); sx::check(0.5 * X[i] * s <= 1.0, "damped for the couplings to other ranks"); } sx::reach("end"); }
SX_HARNESS(C23_gss_damp, "hybrid Gauss-Seidel: every rank master of one dof, 2 and 3 ranks, couplings of any sign; all real off-diagonal entries", 0) { damp(GSS); }
SX_HARNESS(C23_bs2_damp, "hybrid block smoother with one schedule: every rank master of one dof, 2 and 3 ranks, couplings of any sign; all real off-diagonal entries", 0) { damp(BS2); }
SX_HARNESS(C23_dyn_damp, "hybrid dynamic block smoother: every rank master of one dof, 2 and 3 ranks, couplings of any sign; all real off-diagonal entries", 0) { damp(DYN); }
