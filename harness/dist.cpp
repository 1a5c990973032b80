// PROPERTY: C15
// TUS: base/distributed/eqchierarchy.cpp base/distributed/universal_dofs.cpp base/linalg/hybrid_matrix.cpp base/linalg/dcc_map.cpp base/linalg/utils_sparseMM.cpp base/linalg/utils_sparseLA.cpp base/linalg/dyn_block.cpp
#include "fakempi.hpp"
#include <algorithm>
#include <universal_dofs.hpp>
#include <eqchierarchy.hpp>
#include <reducetable.hpp>
using namespace hx;
typedef std::vector<int> VI; typedef std::vector<VI> VVI;
static bool has(int m, int r) { return m >> r & 1; }
static VI dps(int m, int r, int np) { VI v; for (int p = 0; p < np; p++) if (p != r && has(m, p)) v.push_back(p); return v; }
static Table<int> tab(const VVI &v) { Array<int> s(v.size()); for (size_t i = 0; i < v.size(); i++) s[i] = v[i].size(); Table<int> t(s); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) t[i][j] = v[i][j]; return t; }
static VI vec(FlatArray<int> a) { VI v; for (auto x : a) v.push_back(x); return v; }
static int mask(const VI &d, int r) { int m = 1 << r; for (int p : d) m |= 1 << p; return m; }
// the shared sets (bit masks) chosen for this path
static VI sets(int np, bool full = false) { VI all; for (int m = 0; m < (1 << np); m++) if (__builtin_popcount(m) >= 2) all.push_back(m); int n = all.size(); int c; if (np <= 3 || full) c = sx::choose("sets", 1 << n); else { static const int pick[] = {0x403, 0x407, 0x413, 0x7ff, 0x541, 0x44c, 0, 1, 0x400, 0x2a, 0x615, 0x180, 0x3c0, 0x21, 0x033}; c = pick[sx::choose("sets", 15)]; } VI v; for (int i = 0; i < n; i++) if (has(c, i)) v.push_back(all[i]); return v; }
static int anynp(int more = 0) { return 2 + sx::choose("np", sx::tier() || more ? 3 : 2); }
static void checkh(const EQCHierarchy &h, int r, int np, const VI &in, bool cut, bool loc) { int n = h.GetNEQCS(); VI m(n); VI uni; for (int e = 0; e < n; e++) { auto d = vec(h.GetDistantProcs(e)); for (size_t i = 0; i < d.size(); i++) { sx::check(d[i] != r && d[i] >= 0 && d[i] < np && (!i || d[i-1] < d[i]), "distant ranks sorted, without the own rank"); if (std::find(uni.begin(), uni.end(), d[i]) == uni.end()) uni.push_back(d[i]); } m[e] = mask(d, r); for (int f = 0; f < e; f++) sx::check(m[f] != m[e], "equivalence classes are distinct"); if (e) sx::check(vec(h.GetDistantProcs(e-1)).size() <= d.size(), "ordered by size");
    sx::check(h.GetMasterOfEQC(e) == __builtin_ctz(m[e]), "lowest rank is the master"); sx::check(h.IsMasterOfEQC(e) == (__builtin_ctz(m[e]) == r), "master flag"); sx::check((int)h.FindEQCWithDPs(h.GetDistantProcs(e)) == e, "found by its ranks"); sx::check((int)h.GetEQCOfID(h.GetEQCID(e)) == e, "found by its id"); }
  std::sort(uni.begin(), uni.end()); sx::check(vec(h.GetDistantProcs()) == uni, "all distant ranks"); if (loc && n) sx::check(m[0] == 1 << r, "class 0 is the local one");
  for (int s : in) if (has(s, r)) sx::check(std::find(m.begin(), m.end(), s) != m.end(), "every given class is there"); if (!cut) { int k = loc ? 1 : 0; for (int s : in) if (has(s, r)) k++; sx::check(n == k, "no other classes"); }
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { auto f = [&](int q) { for (int e = 0; e < n; e++) if (m[e] == q) return e; return -1; }; sx::check(h.GetMergedEQC(a, b) == f(m[a] | m[b]) && h.IsMergeValid(a, b) == (f(m[a] | m[b]) >= 0), "union of two classes"); sx::check(h.GetCommonEQC(a, b) == f(m[a] & m[b]), "intersection of two classes"); if (cut) sx::check(h.GetCommonEQC(a, b) >= 0, "intersections complete"); sx::check(h.IsLEQ(a, b) == ((m[a] & m[b]) == m[a]), "subset order");
    if (cut && std::find(in.begin(), in.end(), m[a]) != in.end() && std::find(in.begin(), in.end(), m[b]) != in.end()) for (int s : in) if (has(s, r) && ((m[a] | m[b]) & s) == (m[a] | m[b])) sx::check(h.IsMergeValid(a, b), "unions of given classes within a given class are there"); } }
static void across(const std::vector<shared_ptr<EQCHierarchy>> &h, int np) { std::map<int, VI> know; std::map<int, int> ids; for (int r = 0; r < np; r++) if (h[r]) for (size_t e = 0; e < h[r]->GetNEQCS(); e++) { int m = mask(vec(h[r]->GetDistantProcs(e)), r); know[m].push_back(r); if (ids.count(m)) sx::check(ids[m] == h[r]->GetEQCID(e), "same id on all ranks"); else { for (auto &p : ids) sx::check(p.second != h[r]->GetEQCID(e), "different classes have different ids"); ids[m] = h[r]->GetEQCID(e); } } for (auto &p : know) sx::check((int)p.second.size() == __builtin_popcount(p.first), "known to all of its ranks"); }
SX_HARNESS(C15_eqc, "EQCHierarchy for 2 and 3 ranks with every set of shared classes and 4 ranks with 15 selected sets (thorough: every set), with and without cut/union completion, from tables, member lists of any one rank, and parallel dofs", 0) {
  int np = anynp(1); auto in = sets(np, sx::tier()); int how = sx::choose("ctor", 3); bool cut = sx::flag("cut"); auto md = fmpi::mode(np); std::vector<shared_ptr<EQCHierarchy>> h(np); bool loc = true; VI owner; for (size_t k = 0; k < in.size(); k++) { int o = how == 1 ? (k % 2 ? 31 - __builtin_clz(in[k]) : __builtin_ctz(in[k])) : 0; owner.push_back(o); }
  fmpi::run(np, md, [&](int r) { VVI d; if (how == 0) { d.push_back({}); for (int s : in) if (has(s, r)) d.push_back(dps(s, r, np)); h[r] = make_shared<EQCHierarchy>(tab(d), fmpi::world(), cut); }
    else if (how == 1) { VI all; for (int p = 0; p < np; p++) if (p != r) all.push_back(p); for (size_t k = 0; k < in.size(); k++) if (owner[k] == r) d.push_back(dps(in[k], r, np)); auto t = tab(d); Array<int> a; for (int p : all) a.Append(p); h[r] = make_shared<EQCHierarchy>(a, t, fmpi::world(), cut); }
    else { d.push_back({}); for (int s : in) if (has(s, r)) { d.push_back(dps(s, r, np)); d.push_back(dps(s, r, np)); } auto pd = make_shared<ParallelDofs>(fmpi::world(), tab(d)); h[r] = make_shared<EQCHierarchy>(pd, cut); } });
  for (int r = 0; r < np; r++) checkh(*h[r], r, np, in, cut, loc); across(h, np); for (int r = 1; r < np; r++) sx::check(h[r]->IsRankZeroIdle() == h[0]->IsRankZeroIdle() && h[r]->IsTrulyParallel() == h[0]->IsTrulyParallel(), "ranks agree on the idle rank"); if (sx::tier() == 0 || true) sx::reach("end"); }
static shared_ptr<EQCHierarchy> mkh(const VI &in, int r, int np) { VVI d; d.push_back({}); for (int s : in) if (has(s, r)) d.push_back(dps(s, r, np)); return make_shared<EQCHierarchy>(tab(d), fmpi::world(), false); }
SX_HARNESS(C15_dummy, "the hierarchy of a single process", 0) {
  EQCHierarchy h; sx::check(h.IsDummy() && h.GetNEQCS() == 1 && h.GetDistantProcs().Size() == 0 && h.GetDistantProcs(0).Size() == 0, "one class without distant ranks"); sx::check(h.IsMasterOfEQC(0) && h.GetMasterOfEQC(0) == 0 && !h.IsRankZeroIdle() && !h.IsTrulyParallel(), "the only rank is the master"); sx::check(h.GetMergedEQC(0, 0) == 0 && h.IsMergeValid(0, 0) && h.GetCommonEQC(0, 0) == 0 && h.IsLEQ(0, 0), "unions and intersections"); sx::check(h.GetEQCOfID(h.GetEQCID(0)) == 0, "found by its id"); Array<int> none; sx::check(h.FindEQCWithDPs(none) == 0, "found by its ranks"); sx::reach("end"); }
SX_HARNESS(C15_exchange, "exchange of per-class data for 2 and 3 ranks (thorough 4), every set of shared classes: scatter, gather, reduce with symbolic values and row lengths 0..2", 0) {
  int np = anynp(); auto in = sets(np); int what = sx::choose("what", 5); auto md = fmpi::mode(np); int ln = sx::choose("len", 3); auto len = [&](int m, int r) { return (m * 5 + r * 3 + ln) % 3; }; std::map<int, std::map<int, std::vector<double>>> val;
  VI all = in; for (int r = 0; r < np; r++) all.push_back(1 << r); for (int m : all) for (int r = 0; r < np; r++) if (has(m, r)) for (int i = 0; i < 2; i++) val[m][r].push_back(sx::real(nm(nm("v", m, r), i)));
  std::vector<Table<double>> out(np); std::vector<std::vector<VI>> got(np); std::vector<shared_ptr<EQCHierarchy>> H(np); std::vector<Array<double>> arr(np); std::vector<Array<Array<double>>> buf(np); std::vector<Table<int>> ind(np);
  fmpi::run(np, md, [&](int r) { auto h = H[r] = mkh(in, r, np); int n = h->GetNEQCS(); auto M = [&](int e) { return mask(vec(h->GetDistantProcs(e)), r); }; auto L = [&](int e) { return what == 0 || what == 3 ? len(M(e), 7) : len(M(e), r); };
    Array<int> sz(n); for (int e = 0; e < n; e++) sz[e] = what == 4 ? len(M(e), h->GetMasterOfEQC(e)) : L(e); if (what == 4) for (int e = 0; e < n; e++) if (!h->IsMasterOfEQC(e)) sz[e] = 0; Table<double> t(sz); for (int e = 0; e < n; e++) for (int i = 0; i < sz[e]; i++) t[e][i] = val[M(e)][r][i];
    if (what == 0) { auto rq = h->ScatterEQCData(t); MyMPI_WaitAll(rq); out[r] = std::move(t); }
    else if (what == 1) { arr[r].SetSize(n); for (int e = 0; e < n; e++) arr[r][e] = val[M(e)][r][0]; h->ScatterEQCArray(FlatArray<double>(arr[r])); }
    else if (what == 2 || what == 3) { auto lam = [&](const auto &in) { Array<double> o; if (what == 2) { for (auto k : Range(in.Size())) for (auto x : in[k]) o.Append(x); } else { o.SetSize(in[0].Size()); o = 0.0; double w = 1; for (auto k : Range(in.Size())) { for (auto j : Range(o)) o[j] += w * in[k][j]; w *= 2; } } return o; }; shared_ptr<const EQCHierarchy> ch = h; out[r] = ReduceTable<double, double>(t, ch, lam); }
    else { Table<int> ti(sz); for (int e = 0; e < n; e++) for (int i = 0; i < sz[e]; i++) ti[e][i] = 100 * M(e) + i + 1; auto o = ScatterEqcData(std::move(ti), *h); for (size_t e = 0; e < o.Size(); e++) got[r].push_back(vec(o[e])); } 
    if (what == 1) { buf[r].SetSize(n); for (int e = 0; e < n; e++) { buf[r][e].SetSize(L(e)); for (int i = 0; i < L(e); i++) buf[r][e][i] = val[M(e)][r][i]; } auto tp = GatherEQCData(buf[r], *h); MyMPI_WaitAll(get<0>(tp)); ind[r] = std::move(get<1>(tp)); } });
  for (int r = 0; r < np; r++) for (size_t e = 0; e < H[r]->GetNEQCS(); e++) { int m = mask(vec(H[r]->GetDistantProcs(e)), r), ma = __builtin_ctz(m); 
    if (what == 0) { for (int i = 0; i < len(m, 7); i++) sx::check_eq(out[r][e][i], val[m][ma][i], "row of the master"); }
    else if (what == 1) { sx::check_eq(arr[r][e], val[m][ma][0], "value of the master"); if (r == ma) { int c = 0, k = 1; auto go = [&](int p) { for (int i = 0; i < len(m, p); i++, c++) sx::check_eq(buf[r][e][c], val[m][p][i], "gathered data"); sx::check(ind[r][e][k++] == c, "offsets of gathered data"); }; go(r); for (int p = 0; p < np; p++) if (p != r && has(m, p)) go(p); sx::check((int)buf[r][e].Size() == c, "gathered size"); } }
    else if (what == 2) { int c = 0; for (int p = 0; p < np; p++) if (has(m, p)) for (int i = 0; i < len(m, p); i++, c++) { sx::check(c < (int)out[r][e].Size(), "reduced row length"); sx::check_eq(out[r][e][c], val[m][p][i], "rows handed over in rank order"); } sx::check((int)out[r][e].Size() == c, "reduced row length"); }
    else if (what == 3) { for (int i = 0; i < len(m, 7); i++) { double s = 0, w = 1; for (int p = 0; p < np; p++) if (has(m, p)) { s += w * val[m][p][i]; w *= 2; } sx::check_eq(out[r][e][i], s, "reduced on every rank"); } }
    else { VI w; for (int i = 0; i < len(m, ma); i++) w.push_back(100 * m + i + 1); sx::check(got[r].size() == H[r]->GetNEQCS() && got[r][e] == w, "row of the master on every rank"); } } sx::reach("end"); }
SX_HARNESS(C15_dofs, "parallel dofs for 2 and 3 ranks: reduction of dof values, universal dofs, hierarchy of selected dofs; 3 shared dof groups of any sharing pattern", 0) {
  int np = 2 + sx::choose("np", 2); VI pat; VI all; for (int m = 1; m < (1 << np); m++) all.push_back(m); for (int k = 0; k < (np == 2 || sx::tier() ? 3 : 2); k++) pat.push_back(all[sx::choose("dof", all.size())]); auto md = fmpi::mode(np); int n = pat.size(); std::vector<std::vector<double>> v(n, std::vector<double>(np)); for (int k = 0; k < n; k++) for (int r = 0; r < np; r++) v[k][r] = sx::real(nm("v", k, r)); std::vector<VI> my(np); std::vector<std::vector<double>> o(np), q(np); std::vector<size_t> glob(np), hs(np); std::vector<shared_ptr<EQCHierarchy>> H(np), S(np); std::vector<UniversalDofs> ud(np);
  fmpi::run(np, md, [&](int r) { VVI d; for (int k = 0; k < n; k++) if (has(pat[k], r)) { my[r].push_back(k); d.push_back(dps(pat[k], r, np)); } auto pd = make_shared<ParallelDofs>(fmpi::world(), tab(d)); Array<double> a; for (int k : my[r]) a.Append(v[k][r]); Array<double> b(a); MyAllReduceDofData(*pd, FlatArray<double>(a), [](auto &x, const auto &y) { x += y; }); MyAllReduceDofData(*pd, FlatArray<double>(b), [](auto &x, const auto &y) { x = 2 * x + y; }); for (auto x : a) o[r].push_back(x); for (auto x : b) q[r].push_back(x); ud[r] = UniversalDofs(pd); glob[r] = ud[r].GetNDGlob(); auto t = BuildDPTable(*pd); for (size_t i = 0; i < t.Size(); i++) sx::check(vec(t[i]) == d[i], "table of sharing ranks");
    auto sel = make_shared<BitArray>(my[r].size()); sel->Clear(); for (size_t i = 0; i < my[r].size(); i++) if (my[r][i] != 1) sel->SetBit(i); H[r] = make_shared<EQCHierarchy>(pd, false, -1, sel); int mx = 0; for (int k : my[r]) if (k < n - 1) mx++; S[r] = make_shared<EQCHierarchy>(pd, false, mx); });
  for (int r = 0; r < np; r++) { for (size_t i = 0; i < my[r].size(); i++) { int k = my[r][i]; double s = 0, w = 0; for (int p = 0; p < np; p++) if (has(pat[k], p)) { s += v[k][p]; w = 2 * w + v[k][p]; } if (__builtin_popcount(pat[k]) == 1) { s = w = v[k][r]; } sx::check_eq(o[r][i], s, "sum over all ranks sharing the dof"); sx::check_eq(q[r][i], w, "reduced in rank order, same on all ranks"); } sx::check(glob[r] == (size_t)n, "global number of dofs"); sx::check(ud[r].GetND() == my[r].size() && ud[r].IsParallel() && ud[r].IsValid() && ud[r].GetBS() == 1, "local number of dofs");
    VI a, b; for (int k = 0; k < n; k++) if (__builtin_popcount(pat[k]) > 1) { if (k != 1) if (std::find(a.begin(), a.end(), pat[k]) == a.end()) a.push_back(pat[k]); if (k != n - 1) if (std::find(b.begin(), b.end(), pat[k]) == b.end()) b.push_back(pat[k]); } checkh(*H[r], r, np, a, false, my[r].size() > 0); checkh(*S[r], r, np, b, false, my[r].size() > 0); } across(H, np); across(S, np); sx::reach("end"); }
SX_HARNESS(C15_comm, "NgsAMG_Comm: tables and sparse matrices sent, broadcast of tables and arrays, gather, in-place reduction, sub-communicators; 2 and 3 ranks, symbolic values, sizes 0..3", 0) {
  int np = 2 + sx::choose("np", 2), root = sx::choose("root", np), what = sx::choose("what", 6), rows = sx::choose("rows", 4), shape = sx::choose("shape", 3); auto md = fmpi::mode(np); VI len(rows); for (int i = 0; i < rows; i++) len[i] = (i + shape) % 3 * (shape != 2 || i == 1); std::vector<double> v; for (int i = 0; i < 12; i++) v.push_back(sx::real(nm("v", i))); auto val = [&](int i, int j) { return v[(3 * i + j) % 12]; };
  auto mk = [&]() { Array<int> s(rows); for (int i = 0; i < rows; i++) s[i] = len[i]; Table<double> t(s); for (int i = 0; i < rows; i++) for (int j = 0; j < len[i]; j++) t[i][j] = val(i, j); return t; }; auto same = [&](Table<double> &t) { sx::check((int)t.Size() == rows, "table rows"); for (int i = 0; i < rows; i++) { sx::check((int)t[i].Size() == len[i], "row length"); for (int j = 0; j < len[i]; j++) sx::check_eq(t[i][j], val(i, j), "table entry"); } };
  fmpi::run(np, md, [&](int r) { auto c = fmpi::world(); int nx = (root + 1) % np; if (what == 0) { Table<double> t; if (r == root) { t = mk(); c.Send(FlatTable<double>(t), nx, 7); } else if (r == nx) { c.Recv(t, root, 7); same(t); } }
    else if (what == 1) { Table<double> t; if (r == root) t = mk(); else if (shape) t = Table<double>(5, 2); c.Bcast(t, root); same(t); }
    else if (what == 2) { int W = shape + 1; if (r == root) { VVI cols(rows); for (int i = 0; i < rows; i++) for (int j = 0; j < len[i] && j < W; j++) cols[i].push_back(j); auto A = spmat(rows, W, cols, [&](int i, int j) { return val(i, j); }); c.Send(*static_cast<SparseMatrixTM<double>*>(A.get()), nx, 7); } else if (r == nx) { shared_ptr<SparseMatrixTM<double>> A; c.Recv(A, root, 7); sx::check((int)A->Height() == rows && (int)A->Width() == W, "matrix size"); for (int i = 0; i < rows; i++) { sx::check((int)A->GetRowIndices(i).Size() == min(len[i], W), "matrix row"); for (int j = 0; j < min(len[i], W); j++) { sx::check(A->GetRowIndices(i)[j] == j, "matrix column"); sx::check_eq(A->GetRowValues(i)[j], val(i, j), "matrix entry"); } } } }
    else if (what == 3) { Array<double> m(np); c.Gather(v[r], FlatArray<double>(m), root); if (r == root) for (int p = 0; p < np; p++) sx::check_eq(m[p], v[p], "gathered"); Array<double> a(rows); for (int i = 0; i < rows; i++) a[i] = r == root ? v[i] : 0.0; c.Bcast(FlatArray<double>(a), root); for (int i = 0; i < rows; i++) sx::check_eq(a[i], v[i], "broadcast"); }
    else if (what == 4) { Array<double> a(rows); for (int i = 0; i < rows; i++) a[i] = val(i, r); c.AllReduceFA(FlatArray<double>(a)); for (int i = 0; i < rows; i++) { double s = 0; for (int p = 0; p < np; p++) s += val(i, p); sx::check_eq(a[i], s, "sum over ranks"); } }
    else { Array<int> g; for (int p = 0; p < np; p++) if (p != root) g.Append(p); auto s = c.CreateSubCommunicatorGlobal(g); if (r == root) sx::check(!s.isValid(), "rank outside of the sub-communicator"); else { sx::check(s.Size() == np - 1 && s.Rank() == (r > root ? r - 1 : r), "ranks of the sub-communicator"); Array<double> a(1); a[0] = v[r]; s.AllReduceFA(FlatArray<double>(a)); double q = 0; for (int p = 0; p < np; p++) if (p != root) q += v[p]; sx::check_eq(a[0], q, "sum within the sub-communicator"); } } });
  sx::reach("end"); }
