// PROPERTY: C13
// TUS: base/utils/utils_denseLA.cpp
// ASSUME: rotation scalings are positive
#include "spcheck.hpp"
#include <utils_denseLA.hpp>
#include <elasticity_mesh.hpp>
#include <elasticity_energy.hpp>
#include <elasticity_energy_impl.hpp>
#include <h1_energy.hpp>
#include <h1_energy_impl.hpp>
#include <nc_stokes_mesh.hpp>
using namespace hx;
typedef std::vector<double> DV;
template<int DIM> using EN = EpsEpsEnergy<DIM, ElastVData<DIM>, ElasticityEdgeData<DIM>>;
template<int N> static DMat dm(const Mat<N,N,double> &m) { DMat d(N, DV(N)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) d[i][j] = m(i,j); return d; }
static DMat ident(int n, double v = 1.0) { DMat d(n, DV(n, 0.0)); for (int i = 0; i < n; i++) d[i][i] = v; return d; }
static DMat scaled(double s, DMat a) { for (auto &r : a) for (auto &x : r) x = s * x; return a; }
template<int N> static Mat<N,N,double> symat(const char *n, bool symm) { Mat<N,N,double> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i,j) = (symm && j < i) ? m(j,i) : sx::real(nm(n, i, j)); return m; }
// textbook transformation of rigid body modes: (u, r) at x -> (u + scale * r x t, rs * r)
template<int DIM> static DMat refQ(double rs, const Vec<DIM> &t) {
  constexpr int N = DIM == 2 ? 3 : 6; DMat q = ident(N);
  if (DIM == 2) { q[0][2] = -t(1); q[1][2] = t(0); q[2][2] = rs; }
  else { // columns 3..5: e_k x t
    for (int k = 0; k < 3; k++) { int a = (k+1) % 3, b = (k+2) % 3; q[a][3+k] = -t(b % DIM); q[b][3+k] = t(a % DIM); q[3+k][3+k] = rs; } }
  return q; }
template<int DIM> static ElastVData<DIM> symvd(const char *n, bool wts = false) { ElastVData<DIM> v(0.0); for (int d = 0; d < DIM; d++) v.pos(d) = sx::real(nm(n, d));
  double r = sx::real(nm((std::string(n) + "r").c_str())); sx::assume(r > 0.0); v.rot_scaling = r * r; if (wts) v.wt = symat<DIM == 2 ? 3 : 6>(nm((std::string(n) + "w").c_str()), true); return v; }
template<int DIM> static typename EN<DIM>::TQ symQ(Vec<DIM> &t, double &rs) { int k = sx::choose("scale", 2); rs = k ? sx::real("rs") : 1.0; if (k) sx::assume(rs > 0.0); for (int d = 0; d < DIM; d++) t(d) = sx::real(nm("t", d)); return typename EN<DIM>::TQ(rs, t); }
// ---- the compact transformation TQ
template<int DIM> static void tq(int op) {
  constexpr int N = DIM == 2 ? 3 : 6; typedef Mat<N,N,double> TM; Vec<DIM> t; double rs; auto Q = symQ<DIM>(t, rs); auto R = refQ<DIM>(rs, t);
  bool symm = op >= 2; TM E = symat<N>("E", symm); DMat e = dm<N>(E), x;
  double scal = sx::real("alpha"); int form = op == 4 ? 0 : sx::choose("form", 3); TM O;
  if (op == 4) { if (sx::flag("plain")) { Q.SetQ(O); same(dm<N>(O), R, "SetQ"); } else { Q.SetQ(scal, O); same(dm<N>(O), scaled(scal, R), "SetQ with a factor"); } sx::reach("end"); return; }
  if (form == 0) { O = E; if (op == 0) Q.MQ(O); if (op == 1) Q.QTM(O); if (op == 2) Q.QTMQ(O); if (op == 3) Q.QMQT(O); }
  else if (form == 1) { if (op == 0) Q.MQ(scal, E, O); if (op == 1) Q.QTM(scal, E, O); if (op == 2) Q.QTMQ(scal, E, O); if (op == 3) Q.QMQT(scal, E, O); }
  else { if (op == 0) O = Q.GetMQ(scal, E); if (op == 1) O = Q.GetQTM(scal, E); if (op == 2) O = Q.GetQTMQ(scal, E); if (op == 3) O = Q.GetQMQT(scal, E); }
  if (op == 0) x = mul(e, R); if (op == 1) x = mul(tr(R), e); if (op == 2) x = mul(tr(R), mul(e, R)); if (op == 3) x = mul(R, mul(e, tr(R)));
  same(dm<N>(O), form ? scaled(scal, x) : x, op == 0 ? "M Q" : op == 1 ? "Q^T M" : op == 2 ? "Q^T M Q" : "Q M Q^T"); sx::reach("end"); }
SX_HARNESS(C13_tq2_mq, "2D, M Q: any matrix, tangent, scaling", 0) { tq<2>(0); }
SX_HARNESS(C13_tq2_qtm, "2D, Q^T M", 0) { tq<2>(1); }
SX_HARNESS(C13_tq2_qtmq, "2D, Q^T M Q: any symmetric M", 0) { tq<2>(2); }
SX_HARNESS(C13_tq2_qmqt, "2D, Q M Q^T: any symmetric M", 0) { tq<2>(3); }
SX_HARNESS(C13_tq2_set, "2D, the matrix of Q", 0) { tq<2>(4); }
SX_HARNESS(C13_tq3_mq, "3D, M Q: any matrix, tangent, scaling", 0) { tq<3>(0); }
SX_HARNESS(C13_tq3_qtm, "3D, Q^T M", 0) { tq<3>(1); }
SX_HARNESS(C13_tq3_qtmq, "3D, Q^T M Q: any symmetric M", 0) { tq<3>(2); }
SX_HARNESS(C13_tq3_qmqt, "3D, Q M Q^T: any symmetric M", 0) { tq<3>(3); }
SX_HARNESS(C13_tq3_set, "3D, the matrix of Q", 0) { tq<3>(4); }
// ---- the static routines working with the full matrix of Q
template<int DIM> static void statics() {
  constexpr int N = DIM == 2 ? 3 : 6; typedef Mat<N,N,double> TM; typedef EN<DIM> E; Vec<DIM> t; double rs; auto Q = symQ<DIM>(t, rs); auto R = refQ<DIM>(rs, t); TM MQ; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) MQ(i,j) = R[i][j];
  int op = sx::choose("routine", 8); TM M = symat<N>("M", op < 4), O; DMat m = dm<N>(M), o0(N, DV(N, 0.0)), x; double s = sx::real("alpha");
  bool add = op == 1 || op == 5 || op == 7; if (add) { O = symat<N>("O", false); o0 = dm<N>(O); }
  if (op == 0) { O = M; E::QtMQ(MQ, O); x = mul(tr(R), mul(m, R)); }
  if (op == 1) { E::AddQtMQ(s, O, MQ, M); x = scaled(s, mul(tr(R), mul(m, R))); }
  if (op == 2) { E::SetQtMQ(s, O, MQ, M); x = scaled(s, mul(tr(R), mul(m, R))); }
  if (op == 3) { O = E::CalcQtMQ(MQ, M); x = mul(tr(R), mul(m, R)); }
  if (op == 4) { E::CalcMQ(s, M, MQ, O); x = scaled(s, mul(m, R)); }
  if (op == 5) { E::AddMQ(s, M, MQ, O); x = scaled(s, mul(m, R)); }
  if (op == 6) { E::CalcQTM(s, MQ, M, O); x = scaled(s, mul(tr(R), m)); }
  if (op == 7) { E::AddQTM(s, MQ, M, O); x = scaled(s, mul(tr(R), m)); }
  same(dm<N>(O), add ? ::hx::add(o0, x) : x, "product with the matrix of Q"); sx::reach("end"); }
SX_HARNESS(C13_static2, "2D static product routines", 0) { statics<2>(); }
SX_HARNESS(C13_static3, "3D static product routines", 0) { statics<3>(); }
// ---- transformations between vertices
template<int DIM> static void trafo() {
  constexpr int N = DIM == 2 ? 3 : 6; typedef Mat<N,N,double> TM; typedef EN<DIM> E; auto a = symvd<DIM>("a"), b = symvd<DIM>("b"); TM A, B;
  int w = sx::choose("what", 5); Vec<DIM> tab = b.pos - a.pos; DMat Rab = refQ<DIM>(a.rot_scaling / b.rot_scaling, Vec<DIM>(a.rot_scaling * tab));
  if (w == 0) { int f = sx::choose("form", 4); if (f == 0) E::GetQiToj(a, b).SetQ(A); else if (f == 1) E::CalcQHh(a, b, A); else if (f == 2) E::ModQHh(a, b, A); else typename E::TQ(a, b).SetQ(A); same(dm<N>(A), Rab, "transformation from a vertex to another"); sx::reach("end"); return; }
  if (w == 1) { auto c = symvd<DIM>("c"); TM C; E::GetQiToj(a, b).SetQ(A); E::GetQiToj(b, c).SetQ(B); E::GetQiToj(a, c).SetQ(C); same(mul(dm<N>(B), dm<N>(A)), dm<N>(C), "transformations compose"); E::GetQiToj(b, a).SetQ(C); same(mul(dm<N>(C), dm<N>(A)), ident(N), "there and back"); sx::reach("end"); return; }
  auto m = E::CalcMPData(a, b);
  if (w == 2) { // midpoint: half way in the scaled sense, geometric mean of the scalings, no weight
    double ra = sqrt(a.rot_scaling), rb = sqrt(b.rot_scaling); sx::check_eq(m.rot_scaling, ra * rb, "scaling of the mid-point"); for (int d = 0; d < DIM; d++) sx::check_eq((ra + rb) * m.pos(d), ra * a.pos(d) + rb * b.pos(d), "position of the mid-point"); same(dm<N>(m.wt), ident(N, 0.0), "no weight"); sx::reach("end"); return; }
  DMat Ram = refQ<DIM>(a.rot_scaling / m.rot_scaling, Vec<DIM>(a.rot_scaling * (m.pos - a.pos))), Rbm = refQ<DIM>(b.rot_scaling / m.rot_scaling, Vec<DIM>(b.rot_scaling * (m.pos - b.pos)));
  if (w == 3) { int f = sx::choose("form", 4); if (f == 0) { auto [x, y] = E::GetQijQji(a, b); x.SetQ(A); y.SetQ(B); } else if (f == 1) E::CalcQs(a, b, A, B); else if (f == 2) { E::CalcQij(a, b, A); E::CalcQij(b, a, B); } else E::ModQs(a, b, A, B);
    same(dm<N>(A), Ram, "transformation to the mid-point"); same(dm<N>(B), Rbm, "transformation to the mid-point from the other end"); }
  if (w == 4) { E::CalcInvQs(a, b, A, B); same(mul(dm<N>(A), Ram), ident(N), "inverse transformation"); same(mul(dm<N>(B), Rbm), ident(N), "inverse transformation, other end"); }
  sx::reach("end"); }
SX_HARNESS(C13_trafo2, "2D: any three vertices with positive rotation scalings", 0) { trafo<2>(); }
SX_HARNESS(C13_trafo3, "3D: any three vertices with positive rotation scalings", 0) { trafo<3>(); }
// ---- replacement matrix of an edge
template<int DIM> static void rmblock() {
  constexpr int N = DIM == 2 ? 3 : 6; typedef Mat<N,N,double> TM; typedef EN<DIM> E; auto a = symvd<DIM>("a"), b = symvd<DIM>("b"); TM e = symat<N>("E", true); FlatMatrix<TM> blk; Array<TM> mem(4); blk.AssignMemory(2, 2, mem.Data());
  int f = sx::choose("form", 3); if (f == 0) E::CalcRMBlock(blk, e, a, b); else if (f == 1) E::CalcRMBlock2(blk, e, a, b);
  bool got[2][2] = {{false,false},{false,false}}; if (f == 2) E::CalcRMBlockRow(e, a, b, [&](auto i, auto j, auto const &v) { blk(i,j) = v; got[i][j] = true; });
  if (f == 2) sx::check(got[0][0] && got[0][1] && !got[1][0] && !got[1][1], "one row of the block");
  TM A, B; E::CalcQs(a, b, A, B); DMat qa = dm<N>(A), qb = scaled(-1.0, dm<N>(B)), ee = dm<N>(e);
  for (int i = 0; i < (f == 2 ? 1 : 2); i++) for (int j = 0; j < 2; j++) same(dm<N>(blk(i,j)), mul(tr(i ? qb : qa), mul(ee, j ? qb : qa)), "replacement matrix of an edge");
  // rigid body modes are in its kernel
  DMat M; { auto m = E::CalcMPData(a, b); DMat za = dm<N>(B), zb = dm<N>(A); (void)m; for (int i = 0; i < (f == 2 ? 1 : 2); i++) same(::hx::add(mul(dm<N>(blk(i,0)), za), mul(dm<N>(blk(i,1)), zb)), ident(N, 0.0), "rigid body modes are in the kernel"); }
  sx::reach("end"); }
SX_HARNESS(C13_rmblock2, "2D: any symmetric edge matrix, any two vertices", 0) { rmblock<2>(); }
SX_HARNESS(C13_rmblock3, "3D: any symmetric edge matrix, any two vertices", 0) { rmblock<3>(); }
// ---- weights, means, access
template<int DIM> static void misc() {
  constexpr int N = DIM == 2 ? 3 : 6; typedef Mat<N,N,double> TM; typedef EN<DIM> E; int w = sx::choose("what", 4); if (w >= 2) w++;
  if (w == 0) { auto a = symvd<DIM>("a", true), b = symvd<DIM>("b", true); auto m = E::CalcMPDataWW(a, b), m0 = E::CalcMPData(a, b); sx::check_eq(m.rot_scaling, m0.rot_scaling, "scaling"); for (int d = 0; d < DIM; d++) sx::check_eq(m.pos(d), m0.pos(d), "position");
    // the merged weight acts on mid-point values exactly as both weights act on the transformed values
    TM ma, mb; E::GetQiToj(m0, a).SetQ(ma); E::GetQiToj(m0, b).SetQ(mb); DMat qa = dm<N>(ma), qb = dm<N>(mb); same(dm<N>(m.wt), ::hx::add(mul(tr(qa), mul(dm<N>(a.wt), qa)), mul(tr(qb), mul(dm<N>(b.wt), qb))), "weights merged in the mid-point"); }
  if (w == 1) { TM a = symat<N>("a", true), b = symat<N>("b", true); double ta = 0, tb = 0; for (int i = 0; i < N; i++) { ta += a(i,i); tb += b(i,i); } sx::assume(ta > 0.0); sx::assume(tb > 0.0); auto ar = E::AMean(a, b); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { sx::check_eq(2.0 * ar(i,j), a(i,j) + b(i,j), "arithmetic mean"); } }
  if (w == 3) { ElastVData<DIM> v(0.0); TM e, m = symat<N>("m", false); if (sx::flag("scalar")) { double s = sx::real("s"); E::SetVMatrix(v, s); E::SetEMatrix(e, s); same(dm<N>(v.wt), ident(N, s), "weight from a scalar"); same(dm<N>(e), ident(N, s), "edge matrix from a scalar"); } else { E::SetVMatrix(v, m); E::SetEMatrix(e, m); same(dm<N>(v.wt), dm<N>(m), "weight"); same(dm<N>(e), dm<N>(m), "edge matrix"); }
    same(dm<N>(E::GetVMatrix(v)), dm<N>(v.wt), "GetVMatrix"); same(dm<N>(E::GetEMatrix(e)), dm<N>(e), "GetEMatrix"); double tv = 0, te = 0; for (int i = 0; i < N; i++) { tv += v.wt(i,i); te += e(i,i); } sx::check_eq(N * E::GetApproxVWeight(v), tv, "scalar weight of a vertex is the mean trace"); sx::check_eq(N * E::GetApproxWeight(e), te, "scalar weight of an edge is the mean trace"); }
  if (w == 4) { // vertex data survives buffering
    auto a = symvd<DIM>("a", true); a.wt = symat<N>("f", false); constexpr int L = SIZE_IN_BUFFER<ElastVData<DIM>>(); std::vector<double> buf(1 + DIM + N * N + 4, 0.0); int p = PackIntoBuffer(a, buf.data()); ElastVData<DIM> b(0.0); int u = UnpackFromBuffer(b, buf.data()); sx::check(p == L && u == L, "consumed size is the announced size"); sx::check(L == 1 + DIM + N * N, "the announced size holds all values");
    sx::check_eq(a.rot_scaling, b.rot_scaling, "scaling"); for (int d = 0; d < DIM; d++) sx::check_eq(a.pos(d), b.pos(d), "position"); same(dm<N>(a.wt), dm<N>(b.wt), "weight"); }
  sx::reach("end"); }
SX_HARNESS(C13_misc2, "2D: merged weights, means, accessors, buffering", 0) { misc<2>(); }
SX_HARNESS(C13_misc3, "3D: merged weights, means, accessors, buffering", 0) { misc<3>(); }
// ---- scalar (H1) energy: all transformations are identities
template<int DIM, class TVD> static void h1() {
  typedef H1Energy<DIM, TVD, double> E; typedef typename E::TM TM; auto put = [](const char *n) { TM m; if constexpr (DIM == 1) m = sx::real(n); else for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) m(i,j) = sx::real(nm(n, i, j)); return m; };
  auto at = [](const TM &m, int i, int j) -> double { if constexpr (DIM == 1) return m; else return m(i,j); };
  auto cmp = [&](const TM &x, const TM &y, double s, const char *l) { for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) sx::check_eq(at(x,i,j), s * at(y,i,j), l); };
  auto isid = [&](const TM &x, double s, const char *l) { for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) sx::check_eq(at(x,i,j), i == j ? s : 0.0, l); };
  auto vd = [](const char *n) { TVD v; if constexpr (std::is_same_v<TVD,double>) v = sx::real(n); else { v[0] = sx::real(n); v[1] = 0; } return v; }; auto vw = [](const TVD &v) -> double { if constexpr (std::is_same_v<TVD,double>) return v; else return v[0]; };
  TVD a = vd("a"), b = vd("b"); double s = sx::real("s"), e = sx::real("e"); TM M = put("M"), O, P; typename E::TQ Q = E::GetQiToj(a, b); int w = sx::choose("what", 6);
  if (w == 0) { O = M; Q.MQ(O); cmp(O, M, 1, "MQ"); Q.QTM(O); cmp(O, M, 1, "QTM"); Q.QTMQ(O); cmp(O, M, 1, "QTMQ"); Q.MQ(s, M, O); cmp(O, M, s, "MQ"); Q.QTM(s, M, O); cmp(O, M, s, "QTM"); Q.QMQT(s, M, O); cmp(O, M, s, "QMQT"); cmp(Q.GetMQ(s, M), M, s, "GetMQ"); cmp(Q.GetQTM(s, M), M, s, "GetQTM"); cmp(Q.GetQTMQ(s, M), M, s, "GetQTMQ"); cmp(Q.GetQMQT(s, M), M, s, "GetQMQT"); Q.SetQ(O); isid(O, 1, "SetQ"); Q.SetQ(s, O); isid(O, s, "SetQ"); }
  if (w == 1) { O = M; P = put("Q"); E::QtMQ(P, O); E::AddQtMQ(s, O, P, M); cmp(O, M, 1 + s, "AddQtMQ"); E::SetQtMQ(s, O, P, M); cmp(O, M, s, "SetQtMQ"); cmp(E::CalcQtMQ(P, M), M, 1, "CalcQtMQ"); E::CalcQij(a, b, O); isid(O, 1, "CalcQij"); E::CalcQs(a, b, O, P); isid(O, 1, "CalcQs"); isid(P, 1, "CalcQs"); E::CalcInvQs(a, b, O, P); isid(O, 1, "CalcInvQs"); isid(P, 1, "CalcInvQs"); E::CalcQHh(a, b, O); isid(O, 1, "CalcQHh"); }
  if (w == 2) { Array<TM> mem(4); FlatMatrix<TM> blk(2, 2, mem.Data()); if (sx::flag("lambda")) E::CalcRMBlock(e, a, b, [&](auto i, auto j, auto const &v) { blk(i,j) = v; }); else E::CalcRMBlock(blk, e, a, b); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) isid(blk(i,j), i == j ? e : -e, "replacement matrix of an edge"); }
  if (w == 3) { auto m = E::CalcMPDataWW(a, b); sx::check_eq(vw(m), vw(a) + vw(b), "weights merged in the mid-point"); sx::check_eq(vw(E::CalcMPData(a, b)), 0.0, "mid-point has no weight"); }
  if (w == 4) { double x = positive("x"), y = positive("y"); TM A, B; SetScalIdentity(x, A); SetScalIdentity(y, B); isid(E::AMean(A, B), 0.5 * (x + y), "arithmetic mean"); isid(E::HMean(A, B), 2 * x * y / (x + y), "harmonic mean"); B = A; isid(E::GMean(A, B), x, "geometric mean"); }
  if (w == 5) { TVD v = a; double d = e; E::SetVMatrix(v, s); sx::check_eq(vw(v), s, "SetVMatrix"); isid(E::GetVMatrix(v), s, "GetVMatrix"); sx::check_eq(E::GetApproxVWeight(v), s, "scalar weight"); TM X; SetScalIdentity(e, X); E::SetEMatrix(d, X); sx::check_eq(d, e, "SetEMatrix"); isid(E::GetEMatrix(d), e, "GetEMatrix"); sx::check_eq(E::GetApproxWeight(d), e, "scalar edge weight"); if constexpr (!std::is_same_v<TVD,double>) { E::SetVMatrix(v, X); sx::check_eq(vw(v), e, "SetVMatrix from a matrix"); } }
  sx::reach("end"); }
SX_HARNESS(C13_h1_1, "scalar energy, one component", 0) { h1<1, IVec<2,double>>(); }
SX_HARNESS(C13_h1_2, "scalar energy, two components", 0) { h1<2, IVec<2,double>>(); }
SX_HARNESS(C13_h1_3, "scalar energy, three components", 0) { h1<3, IVec<2,double>>(); }
SX_HARNESS(C13_h1_2d, "scalar energy, two components, plain weights", 0) { h1<2, double>(); }
// ---- the energy of Stokes dual edges wraps a scalar energy
template<int DIM> static void stokes() {
  typedef NCGGStokesEnergy<DIM> E; typedef typename E::TM TM; auto diag = [](const TM &m, double v, const char *l) { for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) sx::check_eq(m(i,j), i == j ? v : 0.0, l); };
  auto ed = [](const char *n, bool zi, bool zj) { NCStokesGGED<DIM> e(0.0); e.edi = zi ? 0.0 : positive(nm((std::string(n) + "i").c_str())); e.edj = zj ? 0.0 : positive(nm((std::string(n) + "j").c_str())); return e; };
  auto vd = [](const char *n) { NCStokesGGVD<DIM> v(0.0); v.vd = sx::real(n); v.vol = sx::real(nm((std::string(n) + "vol").c_str())); return v; };
  int w = sx::choose("what", 4);
  if (w == 0) { bool zi = sx::flag("zi"), zj = sx::flag("zj"); auto a = ed("e", zi, zj); TM m = E::GetEMatrix(a); if (zi || zj) diag(m, 0.0, "no connection without energy on both sides"); else { double s = positive("s"); for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) if (i != j) sx::check_eq(m(i,j), 0.0, "diagonal"); else { sx::check(m(i,i) > 0.0, "positive"); sx::check_eq(m(i,i) * (a.edi + a.edj), 4.0 * a.edi * a.edj, "harmonic mean of the two sides"); }
      auto b = a; b.edi = a.edj; b.edj = a.edi; TM q = E::GetEMatrix(b); auto c = a; c.edi = s * a.edi; c.edj = s * a.edj; TM r = E::GetEMatrix(c); for (int i = 0; i < DIM; i++) { sx::check_eq(q(i,i), m(i,i), "does not depend on the orientation"); sx::check_eq(r(i,i), s * m(i,i), "scales with the energy"); } } }
  if (w == 1) { auto a = vd("a"); TM m = E::GetVMatrix(a); diag(m, (a.vol > 0.0) ? a.vd : 0.0, "only real vertices have a weight"); sx::check_eq(E::GetApproxVWeight(a), a.vd, "scalar weight"); }
  if (w == 2) { auto a = vd("a"), b = vd("b"); auto m = E::CalcMPDataWW(a, b); sx::check_eq(m.vd, a.vd + b.vd, "merged weight"); sx::check_eq(m.vol, a.vol + b.vol, "merged volume"); }
  if (w == 3) { auto a = vd("a"), b = vd("b"), c = vd("c"); bool ri = sx::flag("ri"), rj = sx::flag("rj"); auto e = ed("e", false, false), f = ed("f", false, false); Array<TM> mem(4); FlatMatrix<TM> blk(2, 2, mem.Data()); E::CalcRMBlock(blk, a, b, c, e, ri, f, rj); double x = ri ? e.edj : e.edi, y = rj ? f.edj : f.edi;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < DIM; k++) for (int l = 0; l < DIM; l++) sx::check_eq(blk(i,j)(k,l) * (x + y), k != l ? 0.0 : (i == j ? 2.0 : -2.0) * x * y, "dual edge: harmonic mean of the half edges at the common vertex"); sx::check_eq(E::GetApproxWtDualEdge(e, ri, f, rj) * (x + y), 2.0 * DIM * x * y, "scalar weight of a dual edge"); }
  sx::reach("end"); }
SX_HARNESS(C13_stokes2, "2D Stokes energy", 0) { stokes<2>(); }
SX_HARNESS(C13_stokes3, "3D Stokes energy", 0) { stokes<3>(); }
