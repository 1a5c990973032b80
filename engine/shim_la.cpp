// Instrumented stand-ins for the dense/sparse kernels that live (compiled, uninstrumented) in the NGSolve shared libraries.
// NgsAMG calls them; they are environment, not subject: each stand-in is the textbook definition of the kernel it replaces.
// Linked into symbolic executables only (they interpose the library symbols); replay uses the real libraries.
#include <cmath>
#include <la.hpp>
#include <sparsematrix_impl.hpp>
#include <special_matrix.hpp>
#include <paralleldofs.hpp>
#include <parallelvector.hpp>

namespace ngla {
  static void sizes(size_t a, size_t b, const char *w) { if (a != b) throw Exception(string(w) + ": size mismatch"); }
  BaseVector & BaseVector::Scale(double s) { if (s == 1) return *this; for (auto & v : FVDouble()) v *= s; return *this; }
  BaseVector & BaseVector::SetScalar(double s) { for (auto & v : FVDouble()) v = s; return *this; }
  BaseVector & BaseVector::Set(double s, const BaseVector & v) {
    sizes(Size(), v.Size(), "BaseVector::Set");
    auto a = FVDouble(); auto b = v.FVDouble();
    for (size_t i = 0; i < a.Size(); i++) a[i] = s * b[i];
    return *this; }
  BaseVector & BaseVector::Add(double s, const BaseVector & v) {
    sizes(Size(), v.Size(), "BaseVector::Add");
    auto a = FVDouble(); auto b = v.FVDouble();
    for (size_t i = 0; i < a.Size(); i++) a[i] += s * b[i];
    return *this; }
  static double ip(FlatVector<double> a, FlatVector<double> b) { double s = 0; for (size_t i = 0; i < a.Size(); i++) s += a[i] * b[i]; return s; }
  double BaseVector::L2Norm() const { auto a = FVDouble(); return sqrt(ip(a, a)); }
  double BaseVector::InnerProductD(const BaseVector & v2) const { return dynamic_cast<const S_BaseVector<double>&>(*this).InnerProduct(v2); }
  // members of the explicitly instantiated S_BaseVector<double> and their virtual-base thunks, by symbol name
  typedef S_BaseVector<double> SBV;
  double sbv_ip(const SBV *t, const BaseVector & v2, bool) asm("_ZNK4ngla12S_BaseVectorIdE12InnerProductERKNS_10BaseVectorEb");
  double sbv_ip(const SBV *t, const BaseVector & v2, bool) { return ip(t->FVDouble(), v2.FVDouble()); }
  double sbv_ipd(const SBV *t, const BaseVector & v2) asm("_ZNK4ngla12S_BaseVectorIdE13InnerProductDERKNS_10BaseVectorE");
  double sbv_ipd(const SBV *t, const BaseVector & v2) { return ip(t->FVDouble(), v2.FVDouble()); }
  BaseVector & sbv_set(SBV *t, double s) asm("_ZN4ngla12S_BaseVectorIdE9SetScalarEd");
  BaseVector & sbv_set(SBV *t, double s) { for (auto & v : t->FVDouble()) v = s; return *t; }
  void sbv_get(const SBV *t, FlatArray<int> ind, FlatVector<double> v) asm("_ZNK4ngla12S_BaseVectorIdE11GetIndirectEN6ngcore9FlatArrayIimEEN5ngbla10VectorViewIdmSt17integral_constantIiLi1EEEE");
  void sbv_get(const SBV *t, FlatArray<int> ind, FlatVector<double> v) {
    FlatVector<double> lv = t->FVDouble(); int es = t->EntrySize();
    for (size_t i = 0, ii = 0; i < ind.Size(); i++)
      if (ind[i] >= 0) { size_t base = size_t(es) * ind[i]; for (int j = 0; j < es; j++) v[ii++] = lv[base + j]; }
      else for (int j = 0; j < es; j++) v[ii++] = 0; }
  __asm__(".text\n"
#define THUNK(off, sym) ".globl _ZTv0_n" #off "_" sym "\n.type _ZTv0_n" #off "_" sym ",@function\n_ZTv0_n" #off "_" sym ": mov (%rdi),%r10\nadd -" #off "(%r10),%rdi\njmp _Z" sym "\n"
    THUNK(128, "N4ngla12S_BaseVectorIdE9SetScalarEd") THUNK(80, "NK4ngla12S_BaseVectorIdE13InnerProductDERKNS_10BaseVectorE")
    THUNK(272, "NK4ngla12S_BaseVectorIdE11GetIndirectEN6ngcore9FlatArrayIimEEN5ngbla10VectorViewIdmSt17integral_constantIiLi1EEEE"));
  // parallel vectors: the arithmetic of NGSolve's S_ParallelBaseVector(Ptr)<double>; communication is the library's
  struct PVAcc : public S_ParallelBaseVectorPtr<double> { static Table<double> *rv(S_ParallelBaseVectorPtr<double> *v) { return v->*(&PVAcc::recvvalues); } };
  void pv_addrecv(S_ParallelBaseVectorPtr<double> *t, int sender) asm("_ZN4ngla23S_ParallelBaseVectorPtrIdE13AddRecvValuesEi");
  void pv_addrecv(S_ParallelBaseVectorPtr<double> *t, int sender) {
    FlatArray<int> ex = t->GetParallelDofs()->GetExchangeDofs(sender); FlatVector<double> v = t->FVDouble(); FlatArray<double> in = (*PVAcc::rv(t))[sender]; int es = t->EntrySize();
    for (size_t i = 0; i < ex.Size(); i++) for (int j = 0; j < es; j++) v[size_t(es) * ex[i] + j] += in[i * es + j]; }
  BaseVector & ParallelBaseVector::Set(double s, const BaseVector & v) {
    auto a = FVDouble(); auto b = v.FVDouble(); for (size_t i = 0; i < a.Size(); i++) a[i] = s * b[i];
    const ParallelBaseVector *p = dynamic_cast_ParallelBaseVector(&v);
    if (p && p->IsParallelVector()) { this->SetParallelDofs(p->GetParallelDofs()); this->SetParallelStatus(p->Status()); } else { this->SetParallelDofs(nullptr); this->SetParallelStatus(NOT_PARALLEL); }
    return *this; }
  BaseVector & ParallelBaseVector::Add(double s, const BaseVector & v) {
    const ParallelBaseVector *p = dynamic_cast_ParallelBaseVector(&v);
    if (p && Status() != p->Status()) { if (Status() == DISTRIBUTED) Cumulate(); else p->Cumulate(); }
    auto a = FVDouble(); auto b = v.FVDouble(); for (size_t i = 0; i < a.Size(); i++) a[i] += s * b[i];
    return *this; }
  double pv_ip(const S_ParallelBaseVector<double> *t, const BaseVector & v2, bool) asm("_ZNK4ngla20S_ParallelBaseVectorIdE12InnerProductERKNS_10BaseVectorEb");
  double pv_ip(const S_ParallelBaseVector<double> *t, const BaseVector & v2, bool) {
    const ParallelBaseVector *p2 = dynamic_cast_ParallelBaseVector(&v2);
    if (!t->IsParallelVector() || !p2 || !p2->IsParallelVector()) return ip(t->FVDouble(), v2.FVDouble());
    if (t->Status() == p2->Status()) { if (t->Status() == DISTRIBUTED) p2->Cumulate(); else t->Distribute(); if (t->Status() == p2->Status()) p2->Cumulate(); }
    double s = ip(t->FVDouble(), v2.FVDouble()), g = s; NG_MPI_Allreduce(&s, &g, 1, NG_MPI_DOUBLE, NG_MPI_SUM, t->GetParallelDofs()->GetCommunicator()); return g; }
  double pv_l2(const S_ParallelBaseVectorPtr<double> *t) asm("_ZNK4ngla23S_ParallelBaseVectorPtrIdE6L2NormEv");
  double pv_l2(const S_ParallelBaseVectorPtr<double> *t) {
    t->Cumulate(); auto pd = t->GetParallelDofs(); FlatVector<double> v = t->FVDouble(); int es = t->EntrySize(); double s = 0; for (size_t i = 0; i < pd->GetNDofLocal(); i++) if (pd->IsMasterDof(i)) for (int j = 0; j < es; j++) s += v[i * es + j] * v[i * es + j];
    double g = s; NG_MPI_Allreduce(&s, &g, 1, NG_MPI_DOUBLE, NG_MPI_SUM, pd->GetCommunicator()); return sqrt(g); }
  __asm__(".text\n"
    THUNK(192, "N4ngla23S_ParallelBaseVectorPtrIdE13AddRecvValuesEi") THUNK(72, "NK4ngla20S_ParallelBaseVectorIdE12InnerProductERKNS_10BaseVectorEb") THUNK(96, "NK4ngla23S_ParallelBaseVectorPtrIdE6L2NormEv"));
  void BaseVector::SetIndirect(FlatArray<int> ind, FlatVector<double> v) {
    FlatVector<double> lv = FVDouble(); int es = EntrySize();
    for (size_t i = 0, ii = 0; i < ind.Size(); i++)
      if (ind[i] >= 0) { size_t base = size_t(es) * ind[i]; for (int j = 0; j < es; j++) lv[base + j] = v[ii++]; }
      else ii += es; }
  void BaseVector::AddIndirect(FlatArray<int> ind, FlatVector<double> v, bool) {
    FlatVector<double> lv = FVDouble(); int es = EntrySize();
    for (size_t i = 0, ii = 0; i < ind.Size(); i++)
      if (ind[i] >= 0) { size_t base = size_t(es) * ind[i]; for (int j = 0; j < es; j++) lv[base + j] += v[ii++]; }
      else ii += es; }

#define SPM(...) template class __VA_ARGS__;
  SPM(SparseMatrixTM<double>) SPM(SparseMatrix<double>)
  SPM(SparseMatrixTM<Mat<2,2,double>>) SPM(SparseMatrix<Mat<2,2,double>>)
  SPM(SparseMatrixTM<Mat<3,3,double>>) SPM(SparseMatrix<Mat<3,3,double>>)
  SPM(SparseMatrixTM<Mat<1,2,double>>) SPM(SparseMatrix<Mat<1,2,double>>)
  SPM(SparseMatrixTM<Mat<2,1,double>>) SPM(SparseMatrix<Mat<2,1,double>>)
  SPM(SparseMatrixTM<Mat<1,3,double>>) SPM(SparseMatrix<Mat<1,3,double>>)
  SPM(SparseMatrixTM<Mat<3,1,double>>) SPM(SparseMatrix<Mat<3,1,double>>)
  template<class TM> static void dma(const DiagonalMatrix<TM> &D, double s, const BaseVector & x, BaseVector & y, bool tr) {
    sizes(x.Size(), D.VWidth(), "DiagonalMatrix::MultAdd");
    typedef typename mat_traits<TM>::TV_ROW TV; auto fx = x.FV<TV>(); auto fy = y.FV<TV>();
    for (size_t i = 0; i < fx.Size(); i++) { TV t; if (tr) t = s * (Trans(D(i)) * fx(i)); else t = s * (D(i) * fx(i)); fy(i) += t; } }
#define DIAGM(T) template<> void DiagonalMatrix<T>::MultAdd(double s, const BaseVector & x, BaseVector & y) const { dma<T>(*this, s, x, y, false); } \
                 template<> void DiagonalMatrix<T>::MultTransAdd(double s, const BaseVector & x, BaseVector & y) const { dma<T>(*this, s, x, y, true); }
  DIAGM(double)
  typedef Mat<2,2,double> M2_; typedef Mat<3,3,double> M3_;
  DIAGM(M2_) DIAGM(M3_)
}

namespace ngbla {
  typedef BareSliceMatrix<> BM; typedef SliceMatrix<double> SM; typedef FlatVector<> FV;
  void CopyVector(BareVector<double> s, FlatVector<double> d) NETGEN_NOEXCEPT { for (size_t i = 0; i < d.Size(); i++) d[i] = s[i]; }
  void CopyVector(BareSliceVector<double> s, BareSliceVector<double> d, size_t n) NETGEN_NOEXCEPT { for (size_t i = 0; i < n; i++) d[i] = s[i]; }
  void CopyVector(double a, BareVector<double> s, FlatVector<double> d) NETGEN_NOEXCEPT { for (size_t i = 0; i < d.Size(); i++) d[i] = a * s[i]; }
  void CopyVector(double a, BareSliceVector<double> s, SliceVector<double> d) NETGEN_NOEXCEPT { for (size_t i = 0; i < d.Size(); i++) d[i] = a * s[i]; }
  void AddVector(double a, BareVector<const double> s, FlatVector<double> d) NETGEN_NOEXCEPT { for (size_t i = 0; i < d.Size(); i++) d[i] += a * s[i]; }
  void AddVector(double a, BareSliceVector<const double> s, BareSliceVector<double> d, size_t n) NETGEN_NOEXCEPT { for (size_t i = 0; i < n; i++) d[i] += a * s[i]; }
  void SetVector(double v, FlatVector<double> d) NETGEN_NOEXCEPT { for (size_t i = 0; i < d.Size(); i++) d[i] = v; }
  void SetVector(double v, BareSliceVector<double> d, size_t n) NETGEN_NOEXCEPT { for (size_t i = 0; i < n; i++) d[i] = v; }
  void TransposeMatrix(SliceMatrix<> a, SliceMatrix<> b) { for (size_t i = 0; i < a.Height(); i++) for (size_t j = 0; j < a.Width(); j++) b(j,i) = a(i,j); }

  static void mv(BM a, FV x, FV y) NETGEN_NOEXCEPT { for (size_t i = 0; i < y.Size(); i++) { double s = 0; for (size_t j = 0; j < x.Size(); j++) s += a(i,j) * x[j]; y[i] = s; } }
  static void amv(double c, BM a, FV x, FV y) { for (size_t i = 0; i < y.Size(); i++) { double s = 0; for (size_t j = 0; j < x.Size(); j++) s += a(i,j) * x[j]; y[i] += c * s; } }
  static void mtv(BM a, FV x, FV y) NETGEN_NOEXCEPT { for (size_t i = 0; i < y.Size(); i++) { double s = 0; for (size_t j = 0; j < x.Size(); j++) s += a(j,i) * x[j]; y[i] = s; } }
  static void amtv(double c, BM a, FV x, FV y) { for (size_t i = 0; i < y.Size(); i++) { double s = 0; for (size_t j = 0; j < x.Size(); j++) s += a(j,i) * x[j]; y[i] += c * s; } }
  static void amtvI(double c, BM a, FV x, FV y, FlatArray<int> ind) {
    for (size_t i = 0; i < y.Size(); i++) { double s = 0; for (size_t j = 0; j < ind.Size(); j++) s += a(j,i) * x[ind[j]]; y[i] += c * s; } }
  void MultAddMatTransVecIndirect_intern(double c, BM a, FV x, FV y, FlatArray<int> ind) { amtvI(c, a, x, y, ind); }

  template<int MODE> static void REGCALL ab(size_t ha, size_t wa, size_t wb, BM a, BM b, BM c) {   // 0 set, 1 minus, 2 add, 3 sub
    for (size_t i = 0; i < ha; i++) for (size_t k = 0; k < wb; k++) {
      double s = 0; for (size_t j = 0; j < wa; j++) s += a(i,j) * b(j,k);
      if (MODE == 0) c(i,k) = s; else if (MODE == 1) c(i,k) = -s; else if (MODE == 2) c(i,k) += s; else c(i,k) -= s; } }
  void REGCALL MultMatMat_intern(size_t ha, size_t wa, size_t wb, BM a, BM b, BM c) { ab<0>(ha, wa, wb, a, b, c); }
  template<int MODE> static void REGCALL atb(size_t ha, size_t wa, size_t wb, BM a, BM b, BM c) {
    for (size_t i = 0; i < wa; i++) for (size_t k = 0; k < wb; k++) {
      double s = 0; for (size_t j = 0; j < ha; j++) s += a(j,i) * b(j,k);
      if (MODE == 0) c(i,k) = s; else if (MODE == 1) c(i,k) = -s; else if (MODE == 2) c(i,k) += s; else c(i,k) -= s; } }
  template<int MODE> static void abt_(size_t ha, size_t hb, size_t w, BM a, BM b, BM c) {
    for (size_t i = 0; i < ha; i++) for (size_t k = 0; k < hb; k++) {
      double s = 0; for (size_t j = 0; j < w; j++) s += a(i,j) * b(k,j);
      if (MODE == 0) c(i,k) = s; else if (MODE == 1) c(i,k) = -s; else if (MODE == 2) c(i,k) += s; else c(i,k) -= s; } }
  template<int MODE, int W> static void REGCALL abt(size_t ha, size_t hb, BM a, BM b, BM c) { abt_<MODE>(ha, hb, W, a, b, c); }
  void MultABt_intern(SM a, SM b, BareSliceMatrix<double> c) { abt_<0>(a.Height(), b.Height(), a.Width(), a, b, c); }
  void AddABt_intern(SM a, SM b, BareSliceMatrix<double> c) { abt_<2>(a.Height(), b.Height(), a.Width(), a, b, c); }
  void MinusMultABt(SM a, SM b, BareSliceMatrix<double> c) { abt_<1>(a.Height(), b.Height(), a.Width(), a, b, c); }
  void SubABt(SM a, SM b, BareSliceMatrix<double> c) { abt_<3>(a.Height(), b.Height(), a.Width(), a, b, c); }
  void AddABtSym(SM a, SM b, BareSliceMatrix<double> c) { for (size_t i = 0; i < a.Height(); i++) for (size_t k = 0; k <= i; k++) { double s = 0; for (size_t j = 0; j < a.Width(); j++) s += a(i,j) * b(k,j); c(i,k) += s; } }
  void SubADBt(SM a, SliceVector<double> d, SM b, SM c) { for (size_t i = 0; i < a.Height(); i++) for (size_t k = 0; k < b.Height(); k++) { double s = 0; for (size_t j = 0; j < a.Width(); j++) s += a(i,j) * d[j] * b(k,j); c(i,k) -= s; } }
  void SubAtDB(SM a, SliceVector<double> d, SM b, SM c) { for (size_t i = 0; i < a.Width(); i++) for (size_t k = 0; k < b.Width(); k++) { double s = 0; for (size_t j = 0; j < a.Height(); j++) s += a(j,i) * d[j] * b(j,k); c(i,k) -= s; } }
  void ScaleCols(SliceMatrix<double,RowMajor> a, BareSliceVector<double> d) { for (size_t i = 0; i < a.Height(); i++) for (size_t j = 0; j < a.Width(); j++) a(i,j) *= d[j]; }
  void ScaleCols(SliceMatrix<double,ColMajor> a, BareSliceVector<double> d) { for (size_t i = 0; i < a.Height(); i++) for (size_t j = 0; j < a.Width(); j++) a(i,j) *= d[j]; }

  template<bool ADD, ORDERING ord>
  void NgGEMV(double s, BareSliceMatrix<double,ord> a, FlatVector<const double> x, FlatVector<double> y) NETGEN_NOEXCEPT {
    for (size_t i = 0; i < y.Size(); i++) { double t = 0; for (size_t j = 0; j < x.Size(); j++) t += a(i,j) * x[j]; if (ADD) y[i] += s * t; else y[i] = s * t; } }
  template<bool ADD, ORDERING ord>
  void NgGEMV(double s, BareSliceMatrix<double,ord> a, BareSliceVector<double> x, size_t sx, BareSliceVector<double> y, size_t sy) NETGEN_NOEXCEPT {
    for (size_t i = 0; i < sy; i++) { double t = 0; for (size_t j = 0; j < sx; j++) t += a(i,j) * x[j]; if (ADD) y[i] += s * t; else y[i] = s * t; } }
#define GEMV(A,O) template void NgGEMV<A,O>(double, BareSliceMatrix<double,O>, FlatVector<const double>, FlatVector<double>) NETGEN_NOEXCEPT; \
                  template void NgGEMV<A,O>(double, BareSliceMatrix<double,O>, BareSliceVector<double>, size_t, BareSliceVector<double>, size_t) NETGEN_NOEXCEPT;
  GEMV(true,RowMajor) GEMV(true,ColMajor) GEMV(false,RowMajor) GEMV(false,ColMajor)

  // inverse by Gauss-Jordan; pivot = first entry that is non-zero (exact arithmetic needs no magnitude pivoting)
  void CalcInverse(FlatMatrix<double> inv, INVERSE_LIB) {
    size_t n = inv.Height(); Matrix<double> m(n, n), r(n, n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { m(i,j) = inv(i,j); r(i,j) = (i == j) ? 1.0 : 0.0; }
    for (size_t c = 0; c < n; c++) {
      size_t p = c; while (p < n && m(p,c) == 0.0) p++;
      if (p == n) throw Exception("Inverse matrix: Matrix singular");
      if (p != c) for (size_t j = 0; j < n; j++) { std::swap(m(p,j), m(c,j)); std::swap(r(p,j), r(c,j)); }
      double q = 1.0 / m(c,c);
      for (size_t j = 0; j < n; j++) { m(c,j) *= q; r(c,j) *= q; }
      for (size_t i = 0; i < n; i++) if (i != c) {
        double f = m(i,c); if (f == 0.0) continue;
        for (size_t j = 0; j < n; j++) { m(i,j) -= f * m(c,j); r(i,j) -= f * r(c,j); } }
    }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) inv(i,j) = r(i,j); }
  template <class T2> void CalcInverse(FlatMatrix<T2> inv, INVERSE_LIB);
  template <> void CalcInverse<double>(FlatMatrix<double> inv, INVERSE_LIB il) { CalcInverse(inv, il); }

  template<int N> static void binv(FlatMatrix<Mat<N,N,double>> inv) { size_t n = inv.Height(); Matrix<double> m(n*N, n*N);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) m(i*N+k, j*N+l) = inv(i,j)(k,l);
    CalcInverse(FlatMatrix<double>(m), INVERSE_LIB::INV_NGBLA);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) inv(i,j)(k,l) = m(i*N+k, j*N+l); }
  template <> void CalcInverse<Mat<1,1,double>>(FlatMatrix<Mat<1,1,double>> inv, INVERSE_LIB il) { binv<1>(inv); }
  template <> void CalcInverse<Mat<2,2,double>>(FlatMatrix<Mat<2,2,double>> inv, INVERSE_LIB il) { binv<2>(inv); }
  template <> void CalcInverse<Mat<3,3,double>>(FlatMatrix<Mat<3,3,double>> inv, INVERSE_LIB il) { binv<3>(inv); }

  template<int MODE, int W> struct FillAbt { static void go(pfunc_abt *t) { t[W] = &abt<MODE, W>; FillAbt<MODE, W-1>::go(t); } };
  template<int MODE> struct FillAbt<MODE, -1> { static void go(pfunc_abt *) {} };
  extern "C" void __sx_shim_init();
  __attribute__((constructor)) static void fill() {
    for (auto & f : dispatch_matvec) f = &mv;
    for (auto & f : dispatch_addmatvec) f = &amv;
    for (auto & f : dispatch_mattransvec) f = &mtv;
    for (auto & f : dispatch_addmattransvec) f = &amtv;
    for (auto & f : dispatch_addmattransvecI) f = &amtvI;
    for (auto & f : dispatch_multAB) f = &ab<0>;
    for (auto & f : dispatch_minusmultAB) f = &ab<1>;
    for (auto & f : dispatch_addAB) f = &ab<2>;
    for (auto & f : dispatch_subAB) f = &ab<3>;
    for (auto & f : dispatch_atb<false,true>::ptrs) f = &atb<0>;
    for (auto & f : dispatch_atb<false,false>::ptrs) f = &atb<1>;
    for (auto & f : dispatch_atb<true,true>::ptrs) f = &atb<2>;
    for (auto & f : dispatch_atb<true,false>::ptrs) f = &atb<3>;
    FillAbt<0,24>::go(dispatch_abt); FillAbt<2,24>::go(dispatch_addabt);
  }
}

// symmetric eigenvalue problem: diagonal matrices are sorted, others must have been announced by the harness (sx::eig) with their decomposition
#include <vector>
extern "C" void __sx_api_inconclusive(const char *);
extern "C" double __sx_api_real(const char *);
namespace { struct EigDec { int n; std::vector<double> v, l; }; }
static std::vector<EigDec> &eigreg() { static std::vector<EigDec> r; return r; }
extern "C" void __sx_eig_add(int n, const double *v, const double *l) { eigreg().push_back({n, std::vector<double>(v, v + n*n), std::vector<double>(l, l + n)}); }
extern "C" void __sx_eig_clear() { eigreg().clear(); }
// any mode: the matrix is taken to be any positive definite one. With V arbitrary and unit eigenvalues, V^T V is any symmetric positive semidefinite matrix, so whatever is computed from V^T f(1) V covers every (pseudo) inverse of such a matrix
static bool eigany = false; static int eiganyn = 0;
extern "C" void __sx_eig_any(int on) { eigany = on; }
static void eigsym(int n, const double *a, int lda, double *lam, double *vec) {   // only one triangle is read, vec may be null
  bool diag = true; for (int i = 0; i < n && diag; i++) for (int j = 0; j < i && diag; j++) if (a[i*lda+j] != 0.0) diag = false;
  if (diag) { std::vector<int> p(n); for (int i = 0; i < n; i++) { p[i] = i; for (int k = i; k > 0 && a[p[k]*lda+p[k]] < a[p[k-1]*lda+p[k-1]]; k--) std::swap(p[k], p[k-1]); }
    std::vector<double> l(n); for (int i = 0; i < n; i++) l[i] = a[p[i]*lda+p[i]];
    for (int i = 0; i < n; i++) { lam[i] = l[i]; if (vec) for (int j = 0; j < n; j++) vec[i*n+j] = p[i] == j ? 1.0 : 0.0; }
    return; }
  if (eigany) { char b[64]; for (int i = 0; i < n; i++) { lam[i] = 1.0; if (vec) for (int j = 0; j < n; j++) { snprintf(b, 64, "evec%d_%d_%d", eiganyn, i, j); vec[i*n+j] = __sx_api_real(strdup(b)); } } eiganyn++; return; }
  for (auto &e : eigreg()) if (e.n == n) { bool same = true;
    for (int i = 0; i < n && same; i++) for (int j = 0; j <= i && same; j++) { double s = 0; for (int k = 0; k < n; k++) s += e.l[k] * e.v[k*n+i] * e.v[k*n+j]; if (s != a[i*lda+j]) same = false; }
    if (same) { for (int i = 0; i < n; i++) { lam[i] = e.l[i]; if (vec) for (int j = 0; j < n; j++) vec[i*n+j] = e.v[i*n+j]; } return; } }
  __sx_api_inconclusive("symmetric eigenvalue problem whose decomposition the harness did not announce"); }
extern "C" int dsyev_(char *jobz, char *, int *n, double *a, int *lda, double *w, double *, int *, int *info) {
  std::vector<double> v(*n * *n); eigsym(*n, a, *lda, w, v.data());
  for (int i = 0; i < *n; i++) for (int j = 0; j < *n; j++) a[i * *lda + j] = *jobz == 'V' ? v[i * *n + j] : 0.0;   // 'N' destroys the matrix
  *info = 0; return 0; }
namespace ngbla { void LapackEigenValuesSymmetric(FlatMatrix<double> a, FlatVector<double> lami, FlatMatrix<double> evecs) {
  int n = a.Height(); if (!n) return; std::vector<double> v(n*n), l(n); eigsym(n, &a(0,0), n, l.data(), v.data());
  for (int i = 0; i < n; i++) { lami(i) = l[i]; for (int j = 0; j < n; j++) if (evecs.Height()) evecs(i,j) = v[i*n+j]; else a(i,j) = 0.0; } } }
// Cholesky (uplo 'U' in column-major order = lower triangle row by row); the factor is kept square-root free until it is stored
extern "C" int dpotrf_(char *, int *pn, double *a, int *lda, int *info) { int n = *pn, L = *lda; *info = 0;
  for (int j = 0; j < n; j++) { double s = a[j*L+j]; for (int k = 0; k < j; k++) s -= a[j*L+k] * a[j*L+k]; if (!(s > 0.0)) { *info = j + 1; return 0; } double r = std::sqrt(s); a[j*L+j] = r;
    for (int i = j + 1; i < n; i++) { double t = a[i*L+j]; for (int k = 0; k < j; k++) t -= a[i*L+k] * a[j*L+k]; a[i*L+j] = t / r; } }
  return 0; }
extern "C" int dpotri_(char *, int *pn, double *a, int *lda, int *info) { int n = *pn, L = *lda; *info = 0; std::vector<double> w(n*n, 0.0);   // w = inverse of the factor
  for (int c = 0; c < n; c++) for (int i = c; i < n; i++) { double t = i == c ? 1.0 : 0.0; for (int k = c; k < i; k++) t -= a[i*L+k] * w[k*n+c]; w[i*n+c] = t / a[i*L+i]; }
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double t = 0; for (int k = i; k < n; k++) t += w[k*n+i] * w[k*n+j]; a[i*L+j] = t; }
  return 0; }
extern "C" int dpstrf_(char *, int *pn, double *a, int *lda, int *piv, int *rank, double *tol, double *, int *info) { int n = *pn, L = *lda; for (int i = 0; i < n; i++) piv[i] = i + 1; *info = 0;
  double mx = a[0]; for (int i = 1; i < n; i++) if (a[i*L+i] > mx) mx = a[i*L+i]; if (!(mx > 0.0)) { *rank = 0; *info = 1; return 0; } double stop = *tol < 0 ? n * 2.220446049250313e-16 * mx : *tol;
  for (int j = 0; j < n; j++) { std::vector<double> d(n); for (int i = j; i < n; i++) { d[i] = a[i*L+i]; for (int k = 0; k < j; k++) d[i] -= a[i*L+k] * a[i*L+k]; }
    int p = j; for (int i = j + 1; i < n; i++) if (d[i] > d[p]) p = i;
    if (j > 0 && (d[p] <= stop)) { *rank = j; *info = 1; return 0; }
    if (p != j) { std::swap(piv[p], piv[j]); a[p*L+p] = a[j*L+j]; for (int k = 0; k < j; k++) std::swap(a[p*L+k], a[j*L+k]); for (int i = p + 1; i < n; i++) std::swap(a[i*L+p], a[i*L+j]); for (int i = j + 1; i < p; i++) std::swap(a[i*L+j], a[p*L+i]); }
    double r = std::sqrt(d[p]); a[j*L+j] = r; for (int i = j + 1; i < n; i++) { double t = a[i*L+j]; for (int k = 0; k < j; k++) t -= a[i*L+k] * a[j*L+k]; a[i*L+j] = t / r; } }
  *rank = n; return 0; }
extern "C" double dlange_(char *, int *pm, int *pn, double *a, int *lda, double *) { double m = 0; for (int i = 0; i < *pn; i++) for (int j = 0; j < *pm; j++) { double v = std::fabs(a[i * *lda + j]); if (v > m) m = v; } return m; }
