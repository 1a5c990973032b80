// PROPERTY: C17
// TUS: base/utils/utils.cpp
#include "common.hpp"
#include <utils.hpp>
#include <utils_arrays_tables.hpp>
#include <utils_numeric_types.hpp>
#include <utils_buffering.hpp>
#include <set>
#include <algorithm>
using namespace hx;
typedef std::vector<int> V;
// strictly (or weakly) increasing array of symbolic integers
static Array<int> sorted(const char *n, int maxn, int lo, int hi, bool strict = true, int minn = 0) {
  int s = minn + sx::choose(nm((std::string(n) + "n").c_str(), 0), maxn - minn + 1); Array<int> a(s); for (int i = 0; i < s; i++) { a[i] = sx::integer(nm(n, i), lo, hi); if (i) sx::assume(strict ? a[i-1] < a[i] : a[i-1] <= a[i]); } return a; }
static Array<int> anyarr(const char *n, int s, int lo, int hi) { Array<int> a(s); for (int i = 0; i < s; i++) a[i] = sx::integer(nm(n, i), lo, hi); return a; }
template<class A> static bool has(const A &a, int v) { for (int i = 0; i < (int)a.Size(); i++) if (a[i] == v) return true; return false; }
template<class A> static void is_sorted_set(const A &a) { for (int i = 1; i < (int)a.Size(); i++) sx::check(a[i-1] < a[i], "result strictly increasing"); }
// out is the sorted set { v : f(v) } for every v in [lo,hi], and contains nothing else
template<class A, class F> static void is_set(const A &out, int lo, int hi, F f, const char *l) { is_sorted_set(out); if (out.Size()) sx::check(out[0] >= lo && out[out.Size()-1] <= hi, l); int v = sx::integer("probe", lo, hi); bool in = has(out, v); sx::check(in == f(v), l); }
static LocalHeap &lh() { static LocalHeap l(1 << 20, "tables"); return l; }

SX_HARNESS(C17_find, "find_in_sorted_array, merge_pos_in_sorted_array: sorted arrays of up to 9 symbolic entries, any element", 0) {
  auto a = sorted("a", 9, -50, 50); int e = sx::integer("e", -60, 60);
  if (sx::flag("find")) { size_t p = find_in_sorted_array(e, FlatArray<int>(a)); if (p == size_t(-1)) { for (int v : a) sx::check(v != e, "reported missing but present"); } else { sx::check(p < a.Size(), "position in range"); sx::check(a[p] == e, "position holds the element"); } sx::reach("end"); }
  else { size_t p = merge_pos_in_sorted_array(e, FlatArray<int>(a)); sx::check(p <= a.Size(), "position in range"); if (p > 0) sx::check(a[p-1] <= e, "left part not larger"); if (p < a.Size()) sx::check(e < a[p], "right part larger"); sx::reach("end"); } }
SX_HARNESS(C17_find_dups, "merge_pos_in_sorted_array and insert_into_sorted_array on arrays with repeated entries, up to 8", 0) {
  auto a = sorted("a", 8, 0, 20, false, 5); int e = sx::integer("e", -1, 21); Array<int> b(a); insert_into_sorted_array(e, b);
  sx::check(b.Size() == a.Size() + 1, "one entry more"); for (int i = 1; i < (int)b.Size(); i++) sx::check(b[i-1] <= b[i], "stays sorted"); int p = -1; for (int i = 0; i < (int)b.Size() && p < 0; i++) if (i == (int)a.Size() || b[i] != a[i]) p = i; for (int i = p; i < (int)a.Size(); i++) sx::check(b[i+1] == a[i], "other entries shifted by one"); sx::check(b[p] == e, "new entry is the element"); sx::reach("end"); }
SX_HARNESS(C17_insert, "insert_into_sorted_array_nodups, sorted_insert_unique, removeEntry on up to 7 entries", 0) {
  auto a = sorted("a", 7, 0, 100); int e = sx::integer("e", -1, 101); Array<int> b(a); bool was = has(a, e); bool added; int pos = -2;
  if (sx::flag("tuple")) { auto t = sorted_insert_unique(e, b); added = get<0>(t); pos = get<1>(t); } else added = insert_into_sorted_array_nodups(e, b);
  sx::check(added == !was, "added iff it was missing"); sx::check(b.Size() == a.Size() + (was ? 0 : 1), "size"); is_set(b, -1, 101, [&](int v) { return v == e || has(a, v); }, "union with the element");
  if (added && pos != -2) { sx::check(b[pos] == e, "reported position"); removeEntry(pos, b); sx::check(b.Size() == a.Size(), "size after removal"); for (int i = 0; i < (int)a.Size(); i++) sx::check(b[i] == a[i], "removal restores the array"); sx::reach("removed"); } sx::reach("end"); }
static V perm(int n) { V p; V left; for (int i = 0; i < n; i++) left.push_back(i); for (int i = 0; i < n; i++) { int k = sx::choose(nm("perm", i), left.size()); p.push_back(left[k]); left.erase(left.begin() + k); } return p; }
SX_HARNESS(C17_perm, "ApplyPermutation (in place and buffered), ApplyAndKeepPermutation, InvertPermutation: all permutations of up to 5 symbolic reals", 0) {
  int n = 1 + sx::choose("n", 5); V p = perm(n); Array<double> a(n), o(n), buf(n); for (int i = 0; i < n; i++) a[i] = o[i] = sx::real(nm("a", i)); Array<int> q(n), inv(n); for (int i = 0; i < n; i++) q[i] = p[i];
  int k = sx::choose("kind", 4); if (k == 0) ApplyPermutation<double>(a, q); else if (k == 1) { ApplyAndKeepPermutation<double>(a, q); for (int i = 0; i < n; i++) sx::check(q[i] == p[i], "permutation kept"); } else if (k == 2) { ApplyPermutation<double>(a, q, buf); for (int i = 0; i < n; i++) sx::check(q[i] == p[i], "permutation kept"); }
  else { ApplyAndKeepPermutation<double>(a, q); InvertPermutation<int>(q, inv); for (int i = 0; i < n; i++) sx::check(inv[q[i]] == i && q[inv[i]] == i, "inverse permutation"); ApplyAndKeepPermutation<double>(a, inv); for (int i = 0; i < n; i++) sx::check_eq(a[i], o[i], "inverse undoes"); sx::reach("inv"); return; }
  for (int i = 0; i < n; i++) sx::check_eq(a[i], o[p[i]], "sorted[k] = orig[perm[k]]"); sx::reach("end"); }
SX_HARNESS(C17_max, "ind_of_max, is_zero, average, kappaOf of symbolic reals", 0) {
  int n = sx::choose("n", 5); Array<double> a(n); for (int i = 0; i < n; i++) a[i] = sx::real(nm("a", i)); int k = ind_of_max<double>(a); if (n == 0) sx::check(k == -1, "no maximum of nothing"); else { sx::check(k >= 0 && k < n, "index in range"); for (int i = 0; i < n; i++) { sx::check(a[i] <= a[k], "is the maximum"); if (i < k) sx::check(a[i] < a[k], "first maximum"); } }
  double x = sx::real("x"), y = sx::real("y"); sx::assume(x > 0 && y > 0); double mi = average<MIN>(x, y), ge = average<GEOM>(x, y), ha = average<HARM>(x, y), al = average<ALG>(x, y), ma = average<MAX>(x, y);
  sx::check_eq(mi, x < y ? x : y, "minimum"); sx::check_eq(ma, x < y ? y : x, "maximum"); sx::check_eq(2 * al, x + y, "arithmetic mean"); sx::check_eq(ha * (x + y), 2 * x * y, "harmonic mean"); sx::check_eq(ge * ge, x * y, "geometric mean"); sx::check(ge >= 0, "geometric mean sign"); sx::reach("end"); }
SX_HARNESS(C17_zero, "is_zero of vectors and matrices", 0) { Vec<3, double> v; Mat<2, 3, double> m; IVec<2, int> t; bool zv = true, zm = true, zt = true; for (int i = 0; i < 3; i++) { v(i) = sx::real(nm("v", i)); if (v(i) != 0) zv = false; } for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { m(i, j) = (i + j) % 2 ? 0.0 : sx::real(nm("m", i, j)); if (m(i, j) != 0) zm = false; } for (int i = 0; i < 2; i++) { t[i] = sx::integer(nm("t", i), -1, 1); if (t[i] != 0) zt = false; }
  sx::check(is_zero(v) == zv, "zero vector"); sx::check(is_zero(m) == zm, "zero matrix"); sx::check(is_zero(t) == zt, "zero tuple"); sx::reach("end"); }
template<int N> static void lexi() { IVec<N, int> a, b; for (int i = 0; i < N; i++) { a[i] = sx::integer(nm("a", i), -1000000, 1000000); b[i] = sx::integer(nm("b", i), -1000000, 1000000); } bool lt = a < b, gt = b < a; int d = 0; while (d < N && a[d] == b[d]) d++; sx::check(lt == (d < N && a[d] < b[d]), "lexicographically smaller"); sx::check(gt == (d < N && b[d] < a[d]), "lexicographically larger"); sx::reach("end"); }
SX_HARNESS(C17_tuple_order, "ordering of integer tuples of length 2 to 5 is the lexicographic order", 0) { int k = sx::choose("n", 4); if (k == 0) lexi<2>(); else if (k == 1) lexi<3>(); else if (k == 2) lexi<4>(); else lexi<5>(); }
SX_HARNESS(C17_lex, "lex_smaller of arrays up to 3 entries: size first, then entries; strict total order", 0) {
  int na = sx::choose("na", 4), nb = sx::choose("nb", 4); auto a = anyarr("a", na, -9, 9), b = anyarr("b", nb, -9, 9); bool ab = lex_smaller<int>(a, b), ba = lex_smaller<int>(b, a); bool eq = na == nb; if (eq) for (int i = 0; i < na; i++) if (a[i] != b[i]) eq = false; sx::check(!(ab && ba), "antisymmetric"); sx::check((ab || ba) == !eq, "total"); if (na != nb) sx::check(ab == (na < nb), "shorter first"); sx::reach("end"); }
SX_HARNESS(C17_merge2, "union of two sorted arrays (up to 2+2 entries, thorough 4+4): all merge variants", 0) {
  int T = sx::tier(); auto a = sorted("a", 2 + 2 * T, -20, 20), b = sorted("b", 2 + 2 * T, -20, 20); auto both = [&](int v) { return has(a, v) || has(b, v); }; int k = sx::choose("kind", 4); HeapReset hr(lh());
  if (k == 0) { Array<int> o(17); merge_arrays<int>(a, b, o); is_set(o, -20, 20, both, "union"); } else if (k == 1) { auto o = merge_arrays_lh<int>(a, b, lh()); is_set(o, -20, 20, both, "union"); } else if (k == 2) { Array<int> o(b); merge_a_into_b<int>(a, o, lh()); is_set(o, -20, 20, both, "union"); } else { Array<Array<int>> t(2); t[0] = a; t[1] = b; auto o = merge_arrays(t); is_set(o, -20, 20, both, "union"); }
  sx::reach("end"); }
SX_HARNESS(C17_mergeN, "union of up to 3 sorted rows of up to 2 entries (two rows of 2 or three of 1; thorough: 3 rows of 2, 4 of 1)", 0) {
  int T = sx::tier(), n = sx::choose("rows", 4 + T); Array<Array<int>> r(n); Array<int> sz(n); for (int i = 0; i < n; i++) { r[i] = sorted(nm("r", i), n < 3 + T ? 2 : 1, 0, 9); sz[i] = r[i].Size(); } Table<int> t(sz); for (int i = 0; i < n; i++) t[i] = r[i]; auto any = [&](int v) { for (int i = 0; i < n; i++) if (has(r[i], v)) return true; return false; }; HeapReset hr(lh());
  int k = sx::choose("kind", 3); if (n == 0 && k) return; if (k == 0) { auto o = merge_arrays(r); is_set(o, 0, 9, any, "union"); } else if (k == 1) { auto o = mergeFlatArrays(n, lh(), [&](int i) { return t[i]; }); is_set(o, 0, 9, any, "union"); } else { Array<int> o; MergeArrays(o, lh(), n, [&](int i) { return t[i]; }); is_set(o, 0, 9, any, "union"); }
  sx::reach("end"); }
SX_HARNESS(C17_merge17, "union of more than 16 rows (hashed merge): 17 rows, three of them with symbolic contents, values colliding in the hash", 0) {
  int n = 17; static const int pos[3] = {0, 8, 16}; Array<Array<int>> r(n); Array<int> sz(n); sz = 0; static const int val[5] = {1, 2, 1025, 1026, 2049}; // 1,1025,2049 and 2,1026 share hash slots
  for (int k = 0; k < 3; k++) { auto &x = r[pos[k]]; for (int v = 0; v < 5; v++) if ((sx::tier() || (v != 2 + k && v)) && sx::flag(nm("in", k, v))) x.Append(val[v]); sz[pos[k]] = x.Size(); } Table<int> t(sz); for (int i = 0; i < n; i++) t[i] = r[i]; HeapReset hr(lh());
  auto o = mergeFlatArrays(n, lh(), [&](int i) { return t[i]; }); is_sorted_set(o); for (int v : val) { bool any = false; for (int i = 0; i < n; i++) any = any || has(r[i], v); sx::check(has(o, v) == any, "union"); } for (int v : o) { bool k = false; for (int w : val) k = k || v == w; sx::check(k, "nothing else"); } sx::reach("end"); }
SX_HARNESS(C17_sets, "intersection, difference, iterate_* and partitionAB of two sorted arrays (up to 2+2 entries, thorough 3+3, block size 1 to 3)", 0) {
  auto a = sorted("a", 2 + sx::tier(), -20, 20), b = sorted("b", 2 + sx::tier(), -20, 20); HeapReset hr(lh()); int k = sx::choose("kind", 8);
  if (k == 0) { Array<int> c; intersect_sorted_arrays(a, b, c); is_set(c, -20, 20, [&](int v) { return has(a, v) && has(b, v); }, "intersection"); sx::check(is_intersect_empty(a, b) == (c.Size() == 0), "disjointness test"); }
  else if (k == 1) { auto c = setMinus<int>(a, b, lh()); is_set(c, -20, 20, [&](int v) { return has(a, v) && !has(b, v); }, "difference"); }
  else if (k == 2) { Array<int> c; iterate_intersection(a, b, [&](int i, int j) { sx::check(a[i] == b[j], "matching positions"); c.Append(a[i]); }); is_set(c, -20, 20, [&](int v) { return has(a, v) && has(b, v); }, "intersection"); }
  else if (k == 3) { Array<int> x, y, z; iterate_ABC(a, b, [&](int i) { x.Append(a[i]); }, [&](int j) { y.Append(b[j]); }, [&](int i, int j) { sx::check(a[i] == b[j], "matching positions"); z.Append(a[i]); }); int w = sx::choose("w", 3); if (w == 0) is_set(x, -20, 20, [&](int v) { return has(a, v) && !has(b, v); }, "only in a"); else if (w == 1) is_set(y, -20, 20, [&](int v) { return !has(a, v) && has(b, v); }, "only in b"); else is_set(z, -20, 20, [&](int v) { return has(a, v) && has(b, v); }, "in both"); }
  else if (k == 4) { Array<int> u; iterate_ABC(a, b, [&](ABC_KIND w, int i, int j) { if (w == INTERSECTION) { sx::check(a[i] == b[j], "matching positions"); u.Append(a[i]); } else if (w == A_NOT_B) { sx::check(j == -1 && !has(b, a[i]), "only in a"); u.Append(a[i]); } else { sx::check(i == -1 && !has(a, b[j]), "only in b"); u.Append(b[j]); } }); is_set(u, -20, 20, [&](int v) { return has(a, v) || has(b, v); }, "all visited in order"); }
  else if (k == 5) { Array<int> u; iterate_AC(a, b, [&](ABC_KIND w, int i, int j) { if (w == INTERSECTION) sx::check(a[i] == b[j], "matching positions"); else sx::check(w == A_NOT_B && j == -1 && !has(b, a[i]), "only in a"); u.Append(a[i]); }); sx::check(u.Size() == a.Size(), "all of a visited"); for (int i = 0; i < (int)a.Size(); i++) sx::check(u[i] == a[i], "in order"); }
  else if (k == 6) { Array<int> u; iterate_anotb(a, b, [&](int i) { u.Append(a[i]); }); is_set(u, -20, 20, [&](int v) { return has(a, v) && !has(b, v); }, "difference"); }
  else { Array<int> sub; for (int i = 0; i < (int)a.Size(); i++) if (sx::flag(nm("sub", i))) sub.Append(a[i]); int bs = 1 + sx::choose("bs", 3); auto pr = partitionAB(sub, a, lh(), bs); auto A = get<0>(pr), B = get<1>(pr); sx::check(A.Size() == bs * sub.Size() && B.Size() == bs * (a.Size() - sub.Size()), "sizes of the parts"); int ia = 0, ib = 0; for (int i = 0; i < (int)a.Size(); i++) for (int l = 0; l < bs; l++) { if (has(sub, a[i])) { sx::check(ia < (int)A.Size() && A[ia] == bs * i + l, "indices of the subset"); ia++; } else { sx::check(ib < (int)B.Size() && B[ib] == bs * i + l, "indices of the rest"); ib++; } } }
  sx::reach("end"); }
SX_HARNESS(C17_positions, "posSortedInSorted: positions of the entries of a in b, -1 where missing", 0) { auto a = sorted("a", 3, -20, 20), b = sorted("b", 3, -20, 20); HeapReset hr(lh()); auto p = posSortedInSorted<int>(a, b, lh()); sx::check(p.Size() == a.Size(), "one position per entry"); for (int i = 0; i < (int)a.Size(); i++) { if (p[i] == -1) sx::check(!has(b, a[i]), "missing"); else { sx::check(p[i] >= 0 && p[i] < (int)b.Size(), "in range"); sx::check(b[p[i]] == a[i], "position"); } } sx::reach("end"); }
SX_HARNESS(C17_reduce, "sum_table, min_table, max_table, reduce_table, CopyTable, MakeFT: up to 3 rows of up to 3 reals", 0) {
  int n = sx::choose("rows", 4), w = sx::choose("cols", 4); Array<Array<double>> ts(n); Array<FlatArray<double>> t(n); for (int i = 0; i < n; i++) { ts[i].SetSize(w); t[i].Assign(ts[i]); for (int j = 0; j < w; j++) t[i][j] = sx::real(nm("t", i, j)); } int k = sx::choose("kind", 4);
  if (k == 3) { Array<int> s2(n); for (int i = 0; i < n; i++) s2[i] = sx::choose(nm("s", i), 3); Table<double> u(s2); int m = 0; for (int i = 0; i < n; i++) for (int j = 0; j < s2[i]; j++) u[i][j] = sx::real(nm("u", i, j)), m++; Array<double> data(m + 2); int c = 2; Array<size_t> fi(n + 1); for (int i = 0; i < n; i++) { fi[i] = c - 2; for (int j = 0; j < s2[i]; j++) data[c++] = u[i][j]; } fi[n] = c - 2; auto f = MakeFT<double>(n, fi, data, 2); auto cp = CopyTable<double>(u); sx::check((int)f.Size() == n && (int)cp.Size() == n, "rows"); for (int i = 0; i < n; i++) { sx::check((int)f[i].Size() == s2[i] && (int)cp[i].Size() == s2[i], "row sizes"); for (int j = 0; j < s2[i]; j++) { sx::check_eq(f[i][j], u[i][j], "view entry"); sx::check_eq(cp[i][j], u[i][j], "copied entry"); } } sx::reach("copy"); return; }
  Array<double> o; if (k == 0) o = sum_table(t); else if (k == 1) o = min_table(t); else o = reduce_table(t, [](double x, double y) { return x + 2 * y; });
  sx::check((int)o.Size() == (n ? w : 0), "one entry per column"); for (int j = 0; j < (int)o.Size(); j++) { double e = t[0][j]; for (int i = 1; i < n; i++) e = k == 0 ? e + t[i][j] : k == 1 ? (t[i][j] < e ? t[i][j] : e) : e + 2 * t[i][j]; sx::check_eq(o[j], e, "reduced column"); } sx::reach("end"); }
template<class T> static void packs(T &a, T &b, int n, std::vector<double*> pa, std::vector<double*> pb) { sx::check(SIZE_IN_BUFFER<T>() == n, "size in buffer"); double buf[40]; for (int i = 0; i < 40; i++) buf[i] = 7.0; for (int i = 0; i < n; i++) { *pa[i] = sx::real(nm("a", i)); *pb[i] = 0; } int c = PackIntoBuffer(a, buf + 1); sx::check(c == n, "packed size"); sx::check_eq(buf[0], 7.0, "nothing before"); sx::check_eq(buf[n+1], 7.0, "nothing after"); sx::check(UnpackFromBuffer(b, buf + 1) == n, "unpacked size"); for (int i = 0; i < n; i++) { sx::check_eq(*pb[i], *pa[i], "value survives the round trip"); } }
SX_HARNESS(C17_buffer, "buffering of scalars, vectors, matrices and tuples is a round trip of the declared size", 0) { int k = sx::choose("type", 5); std::vector<double*> p, q;
  if (k == 0) { double a, b; packs(a, b, 1, {&a}, {&b}); } else if (k == 1) { Vec<3, double> a, b; for (int i = 0; i < 3; i++) p.push_back(&a(i)), q.push_back(&b(i)); packs(a, b, 3, p, q); } else if (k == 2) { Mat<3, 3, double> a, b; for (int i = 0; i < 9; i++) p.push_back(&a(i / 3, i % 3)), q.push_back(&b(i / 3, i % 3)); packs(a, b, 9, p, q); } else if (k == 3) { Mat<6, 6, double> a, b; for (int i = 0; i < 36; i++) p.push_back(&a(i / 6, i % 6)), q.push_back(&b(i / 6, i % 6)); packs(a, b, 36, p, q); } else { IVec<4, double> a, b; for (int i = 0; i < 4; i++) p.push_back(&a[i]), q.push_back(&b[i]); packs(a, b, 4, p, q); }
  sx::reach("end"); }
SX_HARNESS(C17_ident, "SetIdentity, SetScalIdentity, addIdentity on fixed and flat matrices of scalars and blocks", 0) {
  double s = sx::real("s"); int k = sx::choose("kind", 7); auto e = [&](double v, int i, int j, double d) { sx::check_eq(v, i == j ? d : 0.0, "multiple of the identity"); };
  if (k == 0) { Mat<2, 3, double> m; m = 5.0; SetIdentity(m); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) e(m(i, j), i, j, 1.0); } else if (k == 1) { Mat<3, 2, double> m; m = 5.0; SetScalIdentity(s, m); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) e(m(i, j), i, j, s); }
  else if (k == 2) { double x = 4.0; SetIdentity(x); sx::check_eq(x, 1.0, "scalar identity"); SetScalIdentity(s, x); sx::check_eq(x, s, "scalar"); addIdentity(x, 2.0); sx::check_eq(x, s + 2.0, "scalar plus identity"); }
  else if (k == 3) { Mat<3, 3, double> m; for (int i = 0; i < 9; i++) m(i / 3, i % 3) = sx::real(nm("m", i)); auto o = m; addIdentity(m, s); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx::check_eq(m(i, j), o(i, j) + (i == j ? s : 0.0), "sum with a multiple of the identity"); }
  else if (k == 4) { Matrix<double> st(3, 2); st = 9.0; FlatMatrixFixWidth<2, double> f(2, &st(0, 0)); SetIdentity(f); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) e(f(i, j), i, j, 1.0); SetScalIdentity(s, f); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) e(f(i, j), i, j, s); }
  else { Matrix<double> f(3, 3); f = 0.0; if (k == 5) SetIdentity(FlatMatrix<double>(f)); else SetScalIdentity(s, FlatMatrix<double>(f)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e(f(i, j), i, j, k == 5 ? 1.0 : s); }
  sx::reach("end"); }
