// PROPERTY: C24
// TUS: stokes/common/loop_utils.cpp base/utils/utils.cpp
// ASSUME: consecutive vertices of a chunk differ, vertex ids are positive (equivalence class ids start at one)
#include "common.hpp"
#include "fakempi.hpp"
#include <base.hpp>
#include <loop_utils.hpp>
using namespace amg; using namespace hx;
typedef std::vector<int> VI; typedef std::vector<VI> VVI; static bool has(int m, int r) { return m >> r & 1; }
static Table<int> tab(const VVI &v) { Array<int> s(v.size()); for (size_t i = 0; i < v.size(); i++) s[i] = v[i].size(); Table<int> t(s); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) t[i][j] = v[i][j]; return t; }
typedef IVec<2, int> V2; typedef IVec<4, int> V4; typedef std::vector<V2> VV2;
static bool eq(const V2 &a, const V2 &b) { return a[0] == b[0] && a[1] == b[1]; }
static V2 vert(int nc, int nl) { V2 v; v[0] = sx::integer("class", 1, nc); v[1] = sx::integer("vertex", 0, nl - 1); return v; }
typedef std::vector<std::pair<V2, V2>> ED;
static void same(ED a, ED b, const char *l) { sx::check(a.size() == b.size(), l); for (auto &x : a) { bool f = false; for (size_t k = 0; k < b.size(); k++) if (eq(x.first, b[k].first) && eq(x.second, b[k].second)) { b.erase(b.begin() + k); f = true; break; } sx::check(f, l); } }
static void simple(const Array<Array<V2>> &out, ED &e) { for (auto &o : out) { int n = o.Size(); sx::check(n >= 2, "no empty parts"); for (int i = 0; i + 1 < n; i++) { e.push_back({o[i], o[i+1]}); for (int j = i + 1; j < n; j++) if (i > 0 || j + 1 < n) sx::check(!eq(o[i], o[j]), "every part visits a vertex once, except for the first one of a closed part"); } } }
SX_HARNESS(C24_split, "SplitChunk: chunks of 2 to 5 (thorough: 6) vertices out of 4 in 2 classes, open or closed", 0) { int S = 2 + sx::choose("size", 4 + sx::tier()); Array<V2> c(S); for (int i = 0; i < S; i++) { c[i] = vert(2, 2); if (i) sx::assume(!eq(c[i], c[i-1])); } Array<V2> keep(c); Array<Array<V2>> out; LocalHeap lh(100000, "l"); SplitChunk(c, out, lh);
  ED a, b; for (int i = 0; i + 1 < S; i++) a.push_back({c[i], c[i+1]}); simple(out, b); same(a, b, "the parts consist of the edges of the chunk, in the same direction"); for (int i = 0; i < S; i++) sx::check(eq(c[i], keep[i]), "the chunk is left alone"); sx::reach("end"); }
static void simp(int n, int nc, int nl) { int s = n > 3 && !sx::tier() ? 2 : sx::choose("first chunk", n + 1); Array<V4> d0(s), d1(n - s); ED a; for (int i = 0; i < n; i++) { V2 x = vert(nc, nl), y = vert(nc, nl); sx::assume(!eq(x, y)); V4 t; t[0] = x[0]; t[1] = x[1]; t[2] = y[0]; t[3] = y[1]; (i < s ? d0[i] : d1[i-s]) = t; a.push_back({x, y}); }
  Array<FlatArray<V4>> dat(2); dat[0].Assign(d0); dat[1].Assign(d1); Array<Array<V2>> out; LocalHeap lh(100000, "l"); SimpleLoopsFromChunks(dat, out, lh); ED b; simple(out, b); same(a, b, "the loops consist of the given edges, in the same direction");
  for (int i = 0; i < n; i++) { V4 t = i < s ? d0[i] : d1[i-s]; sx::check(t[0] == a[i].first[0] && t[1] == a[i].first[1] && t[2] == a[i].second[0] && t[3] == a[i].second[1], "the chunks are left alone"); } sx::reach("end"); }
SX_HARNESS(C24_simple, "SimpleLoopsFromChunks: 1 to 3 (thorough: 4) directed edges between 4 vertices of 2 classes, in one or two chunks", 0) { simp(1 + sx::choose("edges", 3 + sx::tier()), 2, 2); }
SX_HARNESS(C24_simple1, "SimpleLoopsFromChunks: 4 (thorough: 5) directed edges between 3 vertices of a class, in two chunks of two (thorough: in one or two chunks)", 0) { simp(4 + sx::tier(), 1, 3); }
// a closed loop given from another start or in the other direction
SX_HARNESS(C24_rotate, "rotateVLoop: simple closed loops of 3 or 4 (thorough: 5) vertices out of 6 in 2 classes, from every start and in both directions", 0) { int n = 3 + sx::choose("size", 2 + sx::tier()); VV2 v; for (int i = 0; i < n; i++) { v.push_back(vert(2, 3)); for (int j = 0; j < i; j++) sx::assume(!eq(v[i], v[j])); } int s = sx::choose("start", n), dir = sx::flag("reverse") ? n - 1 : 1;
  Array<V2> a(n + 1), b(n + 1), buf; for (int i = 0; i <= n; i++) { a[i] = v[i % n]; b[i] = v[(s + i * dir) % n]; } rotateVLoop(a, buf); rotateVLoop(b, buf); for (int i = 0; i <= n; i++) sx::check(eq(a[i], b[i]), "a closed loop has one normal form"); auto less = [](V2 x, V2 y) { return x[0] < y[0] || (x[0] == y[0] && x[1] < y[1]); };
  for (int i = 1; i < n; i++) sx::check(less(a[0], a[i]), "a closed loop starts at its smallest vertex"); sx::check(eq(a[0], a[n]), "a closed loop stays closed"); ED e, f; for (int i = 0; i < n; i++) { e.push_back({a[i], a[i+1]}); f.push_back({v[i], v[(i+1) % n]}); }
  bool fw = false; for (auto &x : f) if (eq(x.first, a[0]) && eq(x.second, a[1])) fw = true; if (!fw) for (auto &x : f) std::swap(x.first, x.second); same(e, f, "a closed loop keeps its edges"); sx::reach("end"); }
SX_HARNESS(C24_rotate_open, "rotateVLoop: simple open loops of 2 to 4 vertices out of 6 in 2 classes, in both directions", 0) { int n = 2 + sx::choose("size", 3); Array<V2> a(n), b(n), buf; for (int i = 0; i < n; i++) { a[i] = vert(2, 3); b[n-1-i] = a[i]; for (int j = 0; j < i; j++) sx::assume(!eq(a[i], a[j])); } Array<V2> o(a); rotateVLoop(a, buf); rotateVLoop(b, buf); bool rev = !eq(a[0], o[0]);
  for (int i = 0; i < n; i++) { sx::check(eq(a[i], b[i]), "an open loop has one normal form"); sx::check(eq(a[i], o[rev ? n-1-i : i]), "an open loop is kept or reversed"); } sx::check(a[0][0] < a[n-1][0] || (a[0][0] == a[n-1][0] && a[0][1] < a[n-1][1]), "an open loop starts at its smaller end"); sx::reach("end"); }
// edges with symbolic ends that make up paths and cycles
SX_HARNESS(C24_orient, "SortAndOrientLoop: 1 to 4 edges between 4 (thorough: 5) vertices, at most two at every vertex, any directions", 0) { int n = 1 + sx::choose("edges", 4), NV = 4 + sx::tier(); Array<V2> e(n); e[0][0] = 0; e[0][1] = 1; for (int i = 1; i < n; i++) { e[i][0] = sx::integer("from", 0, NV - 1); e[i][1] = sx::integer("to", 0, NV - 1); sx::assume(e[i][0] != e[i][1]); }
  VI deg(NV, 0), comp(NV); for (int v = 0; v < NV; v++) comp[v] = v; Array<V2> o(n); for (int i = 0; i < n; i++) for (int a = 0; a < NV; a++) for (int b = 0; b < NV; b++) if (e[i][0] == a) if (e[i][1] == b) { o[i][0] = a; o[i][1] = b; }   // path by path the ends are known
  for (int i = 0; i < n; i++) { deg[o[i][0]]++; deg[o[i][1]]++; int x = comp[o[i][0]], y = comp[o[i][1]]; for (int &c : comp) if (c == y) c = x; } for (int d : deg) sx::assume(d <= 2); int nc = 0; for (int v = 0; v < NV; v++) if (deg[v] && comp[v] == v) nc++; LocalHeap lh(100000, "l");
  int r = SortAndOrientLoop(e, lh, [](auto &t) { std::swap(t[0], t[1]); }, [](auto &a, bool fl, auto &b) { int x = a[fl ? 0 : 1]; return x == b[0] ? 1 : x == b[1] ? -1 : 0; }); sx::check(r == nc, "the number of chunks is the number of components"); VI in(NV, 0), ou(NV, 0); std::vector<bool> used(n, false);
  for (int i = 0; i < n; i++) { bool f = false; for (int j = 0; j < n && !f; j++) if (!used[j] && ((e[i][0] == o[j][0] && e[i][1] == o[j][1]) || (e[i][0] == o[j][1] && e[i][1] == o[j][0]))) used[j] = f = true; sx::check(f, "edges are reordered and flipped only"); ou[e[i][0]]++; in[e[i][1]]++; }
  for (int v = 0; v < NV; v++) { sx::check(in[v] <= 1 && ou[v] <= 1, "edges follow one another head to tail"); if (deg[v] == 2) sx::check(in[v] == 1 && ou[v] == 1, "edges follow one another head to tail"); }
  bool closed = true; for (int d : deg) closed &= d != 1; if (closed) { int br = 0; for (int i = 0; i + 1 < n; i++) br += e[i][1] != e[i+1][0]; sx::check(br <= nc - 1, "closed chunks are listed in order"); } sx::reach("end"); }
SX_HARNESS(C24_code, "loopEncode and loopDecode: all vertex numbers up to 1000000 and edge numbers up to 100", 0) { int a = sx::integer("a", 0, 1000000), b = sx::integer("b", 0, 1000000), e = sx::integer("e", 0, 100); sx::assume(a != b); auto [o, k] = loopDecode(loopEncode(a, b, e)); sx::check(k == e, "the edge number is coded"); sx::check((o == POSITIVE) == (a < b), "the direction is coded"); sx::reach("end"); }
// loops known to several ranks: a rank that removes its part leaves the others' tables
SX_HARNESS(C24_shrink, "ShrinkDPTable: 2 loops on 3 ranks, all sharing patterns and all choices of ranks that remove them", 0) { int np = 3, n = 2; VI sh, rm; for (int k = 0; k < n; k++) { sh.push_back(sx::choose("sharing", 4)); static const int M[4] = {7, 3, 6, 5}; sh[k] = M[sh[k]]; int r = 0; for (int p = 0; p < np; p++) if (has(sh[k], p) && sx::flag("removed")) r |= 1 << p; rm.push_back(r); } int md = sx::flag("late delivery");
  fmpi::Mode mode{(bool)md, 0, false}; fmpi::run(np, mode, [&](int r) { VI loc; for (int k = 0; k < n; k++) if (has(sh[k], r)) loc.push_back(k); VVI t; VI all; BitArray rem(loc.size()); rem.Clear(); for (int p = 0; p < np; p++) if (p != r) { bool any = false; for (int k : loc) any |= has(sh[k], p); if (any) all.push_back(p); } for (size_t i = 0; i < loc.size(); i++) { VI x; for (int p = 0; p < np; p++) if (p != r && has(sh[loc[i]], p)) x.push_back(p); t.push_back(x); if (has(rm[loc[i]], r)) rem.SetBit(i); }
    Array<int> A(all.size()); for (size_t i = 0; i < all.size(); i++) A[i] = all[i]; auto T = tab(t); NgsAMG_Comm comm = fmpi::world(); auto [nt, map] = ShrinkDPTable(rem, T, A, comm); int c = 0; for (size_t i = 0; i < loc.size(); i++) { if (has(rm[loc[i]], r)) { sx::check(map[i] == -1, "removed loops have no number"); continue; } sx::check(map[i] == c++, "kept loops are numbered consecutively"); VI want; for (int p : t[i]) if (!has(rm[loc[i]], p)) want.push_back(p); auto row = nt[map[i]]; sx::check(row.Size() == want.size(), "a kept loop is shared with the ranks that keep it"); for (size_t j = 0; j < want.size(); j++) sx::check(row[j] == want[j], "a kept loop is shared with the ranks that keep it"); } sx::check((int)nt.Size() == c, "the table has the kept loops"); }); sx::reach("end"); }
