// PROPERTY: C10
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp
// ASSUME: shared dofs are numbered in the same relative order on all ranks, as NGSolve's ParallelDofs requires
#include "pargen.hpp"
using namespace hx;
static void go(bool chunk) { PD p; p.np = 1 + sx::choose("ranks", 3); p.es = 1 + sx::choose("entry", 2); int nsh = (1 << p.np) - 1; p.nd = p.np < 3 ? 3 : sx::tier() ? 3 : 2; for (int d = 0; d < p.nd; d++) p.m.push_back(1 + sx::choose("sharing", nsh)); p.init(); auto md = p.np > 1 ? fmpi::mode(p.np) : fmpi::Mode{false, 0, false}; int st[2] = {sx::choose("first vector", 2), sx::choose("second vector", 2)}, N = p.nd * p.es;
  std::vector<VD> in[2], co[2], cu[2]; VVI ms(p.np), stat(p.np); for (int q = 0; q < 2; q++) { in[q].resize(p.np); co[q].resize(p.np); cu[q].resize(p.np); for (int r = 0; r < p.np; r++) for (int i = 0; i < N; i++) { int ma = __builtin_ctz(p.m[i / p.es]); in[q][r].push_back(!has(p.m[i / p.es], r) ? 0.0 : !st[q] || ma == r ? sx::real(hx::nm(q ? "w" : "v", r, i)) : in[q][ma][i]); } }
  fmpi::run(p.np, md, [&](int r) { auto pd = p.mk(r); shared_ptr<DCCMap<double>> M; if (chunk) M = make_shared<ChunkedDCCMap<double>>(make_shared<EQCHierarchy>(pd, true), pd); else M = make_shared<BasicDCCMap<double>>(pd); for (size_t k = 0; k < p.g[r].size(); k++) ms[r].push_back(M->GetMasterDOFs()->Test(k)); sx::check(M->GetMasterDOFs()->Size() == p.g[r].size(), "master flags");
    for (int q = 0; q < 2; q++) { auto v = pvec(pd, st[q] ? CUMULATED : DISTRIBUTED); auto fv = v->FVDouble(); for (size_t k = 0; k < p.g[r].size(); k++) for (int j = 0; j < p.es; j++) fv[k * p.es + j] = in[q][r][p.g[r][k] * p.es + j];
      M->StartDIS2CO(*v); M->ApplyDIS2CO(*v); M->FinishDIS2CO(); stat[r].push_back(v->GetParallelStatus()); for (double x : fv) co[q][r].push_back(x); M->StartCO2CU(*v); M->ApplyCO2CU(*v); M->FinishCO2CU(); stat[r].push_back(v->GetParallelStatus()); for (double x : fv) cu[q][r].push_back(x); M->StartCO2CU(*v); M->ApplyCO2CU(*v); M->FinishCO2CU(); for (size_t i = 0; i < fv.Size(); i++) sx::check_eq(fv[i], cu[q][r][i], "cumulated vector stays"); } });
  for (int d = 0; d < p.nd; d++) { int n = 0; for (int r = 0; r < p.np; r++) if (has(p.m[d], r) && ms[r][p.l[r][d]]) n++; sx::check(n == 1, "every dof has exactly one master among its ranks"); }
  for (int r = 0; r < p.np; r++) { for (int q = 0; q < 4; q++) sx::check(stat[r][q] == (q % 2 ? CUMULATED : DISTRIBUTED), "status"); for (int q = 0; q < 2; q++) for (size_t k = 0; k < p.g[r].size(); k++) for (int j = 0; j < p.es; j++) { int d = p.g[r][k], i = d * p.es + j; double s = 0; if (st[q]) s = in[q][r][i]; else for (int t = 0; t < p.np; t++) if (has(p.m[d], t)) s += in[q][t][i]; double c = co[q][r][k * p.es + j], u = cu[q][r][k * p.es + j]; sx::check_eq(c, ms[r][k] ? s : 0.0, "concentrated: full value at the master, zero elsewhere"); sx::check_eq(u, s, "cumulated: full value on every rank"); } }
  sx::reach("end"); }
SX_HARNESS(C10_basic, "1 to 3 ranks, 3 dofs (2 on 3 ranks in the quick tier) of every sharing pattern, entry size 1 and 2, two successive vectors that may be distributed or cumulated, message delivery early, late or reversed; all real values", 0) { go(false); }
SX_HARNESS(C10_chunk, "as C10_basic for the map with chunked masters", 0) { go(true); }
