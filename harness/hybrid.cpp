// PROPERTY: C09
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp base/linalg/bla_extension.cpp
// ASSUME: shared dofs are numbered in the same relative order on all ranks, as NGSolve's ParallelDofs requires; the distributed matrix has a structurally symmetric pattern with a full diagonal on every rank
#include "pargen.hpp"
using namespace hx;
enum OP { MULT, MADD, TRANS, TADD };
template<class TM, class HM> static void go(bool chunk, bool ents) { constexpr int B = ngbla::Height<TM>(); ParMat<TM> P; P.pick(sx::tier() ? 3 : B == 1 ? 3 : 2); int np = P.p.np; auto md = np > 1 ? mmode(np) : fmpi::Mode{false, 0, false}; int op = ents ? 0 : sx::choose("operation", std::is_same<HM, DynamicBlockHybridMatrix<double>>::value ? 2 : 4), xs = ents ? 0 : sx::choose("x", 2), ys = ents || op == MULT || op == TRANS ? 0 : sx::choose("y", 2); P.fill(); PVec X, Y; X.fill(P.p, "x", xs); Y.fill(P.p, "y", ys); double s = sx::real("s"); int N = P.p.nd * B;
  std::vector<MD> mg(np, MD(N, VD(N, 0.0))), gg = mg; VVI ms(np); std::vector<VD> out(np), xo(np); VI hg(np), st(np);
  fmpi::run(np, md, [&](int r) { auto pd = P.p.mk(r); auto A = P.mat(r, pd); shared_ptr<DCCMap<double>> D; if (chunk) D = make_shared<ChunkedDCCMap<double>>(make_shared<EQCHierarchy>(pd, true), pd); auto H = chunk ? make_shared<HM>(A, D) : make_shared<HM>(A); for (int k = 0; k < (int)P.p.g[r].size(); k++) ms[r].push_back(H->GetDCCMap().GetMasterDOFs()->Test(k)); hg[r] = H->HasGGlobal() * 2 + H->HasGLocal();
    sx::check(H->Height() == (int)P.p.g[r].size() && H->Width() == H->Height(), "size"); sx::check((H->GetG() != nullptr) == H->HasGLocal(), "ghost part");
    auto dense = [&](shared_ptr<BaseMatrix> M, MD &d) { if (!M) return; if (auto sp = dynamic_pointer_cast<SparseMatrix<TM>>(M)) { for (size_t i = 0; i < sp->Height(); i++) { auto ri = sp->GetRowIndices(i); for (size_t j = 0; j < ri.Size(); j++) { sx::check(ri[j] >= 0 && ri[j] < (int)sp->Width() && (!j || ri[j-1] < ri[j]), "well-formed rows"); for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) d[P.p.g[r][i] * B + a][P.p.g[r][ri[j]] * B + b] += ent(sp->GetRowValues(i)[j], a, b); } } } };
    if (ents) { dense(H->GetM(), mg[r]); dense(H->GetG(), gg[r]); size_t z = 0; auto nz = [&](shared_ptr<BaseMatrix> m) { return m ? m->NZE() : 0; }; z = nz(H->GetM()) + nz(H->GetG()); sx::check(H->NZE() == z, "number of entries"); return; }
    auto x = X.mk(P.p, r, pd), y = Y.mk(P.p, r, pd); if (op == MULT) H->Mult(*x, *y); else if (op == MADD) H->MultAdd(s, *x, *y); else if (op == TRANS) H->MultTrans(*x, *y); else H->MultTransAdd(s, *x, *y); st[r] = y->GetParallelStatus(); for (double v : y->FVDouble()) out[r].push_back(v); x->Cumulate(); for (double v : x->FVDouble()) xo[r].push_back(v); });
  auto G = P.global(); int any = 0; for (int r = 0; r < np; r++) any |= hg[r] & 1; for (int r = 0; r < np; r++) sx::check((hg[r] >> 1) == any, "all ranks know whether any has a ghost part");
  if (ents) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double t = 0; for (int r = 0; r < np; r++) t += mg[r][i][j] + gg[r][i][j]; sx::check_eq(t, G[i][j], "master and ghost parts of all ranks add up to the matrix"); } for (int r = 0; r < np; r++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { auto mine = [&](int d) { return has(P.p.m[d], r) && ms[r][P.p.l[r][d]]; }; bool mm = mine(i / B) && mine(j / B); sx::check_eq(mg[r][i][j], mm ? G[i][j] : 0.0, "the master part is the diagonal block of the matrix at the dofs of which the rank is master"); int mi = -1, mj = -1; for (int q = 0; q < np; q++) { if (has(P.p.m[i / B], q) && ms[q][P.p.l[q][i / B]]) mi = q; if (has(P.p.m[j / B], q) && ms[q][P.p.l[q][j / B]]) mj = q; } if (mi == mj) sx::check_eq(gg[r][i][j], 0.0, "no ghost entry between dofs with the same master"); } }
  else { VD gx = X.global(P.p), gy = Y.global(P.p); for (int i = 0; i < N; i++) { double t = 0, w = 0; for (int r = 0; r < np; r++) { sx::check(st[r] == DISTRIBUTED, "status"); if (has(P.p.m[i / B], r)) t += out[r][P.p.l[r][i / B] * B + i % B]; } for (int j = 0; j < N; j++) w += (op < TRANS ? G[i][j] : G[j][i]) * gx[j]; if (op & 1) w = gy[i] + s * w; sx::check_eq(t, w, op == MULT ? "Mult" : op == MADD ? "MultAdd" : op == TRANS ? "MultTrans" : "MultTransAdd"); for (int r = 0; r < np; r++) if (has(P.p.m[i / B], r)) sx::check_eq(xo[r][P.p.l[r][i / B] * B + i % B], gx[i], "argument keeps its value"); } }
  sx::reach("end"); }
SX_HARNESS(C09_parts, "decomposition, both master maps; 1 to 3 ranks, 3 dofs of every sharing pattern (3 ranks: selected for one dof in the quick tier), full or sparse local matrices; all real entries", 0) { go<double, HybridMatrix<double>>(sx::flag("chunked"), true); }
SX_HARNESS(C09_parts2, "decomposition, blocks of 2; 1 to 3 ranks, 2 (thorough 3) dofs of every sharing pattern (3 ranks: selected for one dof in the quick tier), full or sparse local matrices; all real entries", 0) { go<Mat<2,2,double>, HybridMatrix<Mat<2,2,double>>>(false, true); }
SX_HARNESS(C09_mult, "Mult, MultAdd and transposes for cumulated or distributed vectors, delivery of messages early or late; 1 to 3 ranks, 3 dofs of every sharing pattern (3 ranks: selected for one dof in the quick tier), full or sparse local matrices; all real entries, scale and vectors", 0) { go<double, HybridMatrix<double>>(sx::tier() ? sx::flag("chunked") : false, false); }
SX_HARNESS(C09_mult2, "as C09_mult with blocks of 2; 1 to 3 ranks, 2 (thorough 3) dofs of every sharing pattern (3 ranks: selected for one dof in the quick tier), full or sparse local matrices; all real entries, scale and vectors", 0) { go<Mat<2,2,double>, HybridMatrix<Mat<2,2,double>>>(false, false); }
SX_HARNESS(C09_dyn, "Mult and MultAdd of the matrix with dynamic blocks; 1 to 3 ranks, 3 dofs of every sharing pattern (3 ranks: selected for one dof in the quick tier), full or sparse local matrices; all real entries, scale and vectors", 0) { go<double, DynamicBlockHybridMatrix<double>>(false, false); }
