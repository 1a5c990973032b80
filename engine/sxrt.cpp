// Symbolic execution runtime (see DESIGN.md, "engine").
#include "sx.h"
#include <z3++.h>
#include <gmpxx.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/prctl.h>
#include <execinfo.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <exception>

typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;

// ---------------------------------------------------------------- shared memory
struct Shared {
  std::atomic<long> tokens;
  std::atomic<u64> paths, killed, forks, qsat, qunsat, qunk, checks, checks_dis, eqchecks, rawq, normq, samp, errs, viols, us, maxterms, nreal, nint, concs, bvq, realq, maxdepth;
  std::atomic<int> stop;
  std::atomic<u64> loglen;
  char log[8 << 20];
  u8 cov[1 << 20];
  std::atomic<u32> nreach; char reach[64][64]; std::atomic<u64> reachn[64];
};
static Shared *S = nullptr;
static int g_in_rt = 0;
static bool g_active = false;

static void shlog(const std::string &s) {
  u64 p = S->loglen.fetch_add(s.size());
  if (p + s.size() < sizeof(S->log)) memcpy(S->log + p, s.data(), s.size());
}
static int g_tier = 0;
static int g_verbose = 0;
static u64 g_rlimit = 8000000;   // z3 resource limit / query
static size_t g_maxterms = 60000;
static pid_t g_root = 0;

struct RT { int o; bool fe; RT() { o = g_in_rt++; if (!o && g_active) { fedisableexcept(FE_INVALID); } }
            ~RT() { if (!--g_in_rt && g_active) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_INVALID); } } };

[[noreturn]] static void endpath(bool completed);
static std::vector<std::pair<std::string, int>> g_inputs; // name, kind: >=0 real var / <0 int index
static std::string model_text(bool refresh);
static std::string g_choices;   // structural choices made on this path, for messages

[[noreturn]] static void inconclusive(const std::string &msg) {
  RT rt;
  if (S->errs.fetch_add(1) < 20) {
    std::string m = "E|" + msg + (g_choices.size() ? " [" + g_choices + "]" : "");
    for (auto &c : m) if (c == '\n') c = ' ';
    shlog(m + "\n");
    if (g_verbose) { void *bt[40]; int n = backtrace(bt, 40); fprintf(stderr, "INCONCLUSIVE %s\n", msg.c_str()); backtrace_symbols_fd(bt, n, 2); }
  }
  if (S->errs > 40) S->stop = 1;
  endpath(false);
}

// ---------------------------------------------------------------- polynomials
typedef std::vector<std::pair<u32, u32>> MonoV;   // (var, exp) sorted by var
struct MonoHash { size_t operator()(const MonoV &m) const { size_t h = 1469598103u; for (auto &p : m) h = (h ^ (p.first * 1000003u + p.second)) * 1099511628211ull; return h; } };
static std::vector<MonoV> monos; static std::unordered_map<MonoV, u32, MonoHash> monoIdx; static std::unordered_map<u64, u32> monoMul;
static std::vector<u32> monoDeg;
static u32 monoGet(const MonoV &m) { auto it = monoIdx.find(m); if (it != monoIdx.end()) return it->second; u32 id = monos.size(); monos.push_back(m); u32 d = 0; for (auto &p : m) d += p.second; monoDeg.push_back(d); monoIdx[m] = id; return id; }
static u32 monoTimes(u32 a, u32 b) {
  if (a == 0) return b; if (b == 0) return a;
  if (a > b) std::swap(a, b);
  u64 k = ((u64)a << 32) | b; auto it = monoMul.find(k); if (it != monoMul.end()) return it->second;
  MonoV r; const MonoV &x = monos[a], &y = monos[b]; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
  }
  u32 id = monoGet(r); monoMul[k] = id; return id;
}
// lex order: true if a > b
static bool monoGreater(u32 a, u32 b) {
  if (a == b) return false;
  const MonoV &x = monos[a], &y = monos[b]; size_t i = 0;
  for (;; i++) {
    if (i == x.size()) return false;
    if (i == y.size()) return true;
    if (x[i].first != y[i].first) return x[i].first < y[i].first;
    if (x[i].second != y[i].second) return x[i].second > y[i].second;
  }
}
static bool monoDivides(u32 d, u32 a, u32 &q) {
  if (d == 0) { q = a; return true; }
  const MonoV &x = monos[a], &y = monos[d]; MonoV r; size_t i = 0;
  for (auto &p : y) { while (i < x.size() && x[i].first < p.first) r.push_back(x[i++]); if (i == x.size() || x[i].first != p.first || x[i].second < p.second) return false;
    if (x[i].second > p.second) r.push_back({p.first, x[i].second - p.second}); i++; }
  while (i < x.size()) r.push_back(x[i++]);
  q = monoGet(r); return true;
}
typedef std::vector<std::pair<u32, mpq_class>> Poly;  // sorted, leading monomial first
struct Var { std::string name; int sqrtOf = -1; /*poly id*/ };
static std::vector<Var> vars;
static void polySort(Poly &p) { std::sort(p.begin(), p.end(), [](auto &a, auto &b) { return monoGreater(a.first, b.first); }); }
static void termcheck(size_t n) { if (n > S->maxterms) S->maxterms = n; if (n > g_maxterms) inconclusive("polynomial term limit exceeded"); }
static Poly polyAdd(const Poly &a, const Poly &b, const mpq_class &cb = 1) {
  Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size()) r.push_back(a[i++]);
    else if (i == a.size()) { r.push_back({b[j].first, b[j].second * cb}); j++; }
    else if (a[i].first == b[j].first) { mpq_class c = a[i].second + b[j].second * cb; if (c != 0) r.push_back({a[i].first, c}); i++; j++; }
    else if (monoGreater(a[i].first, b[j].first)) r.push_back(a[i++]);
    else { r.push_back({b[j].first, b[j].second * cb}); j++; }
  }
  termcheck(r.size());
  return r;
}
static bool g_haveSqrt = false;
static std::vector<Poly> polys;
static Poly polyMulRaw(const Poly &a, const Poly &b) {
  if (a.empty() || b.empty()) return {};
  if (b.size() == 1) { Poly r; r.reserve(a.size()); for (auto &t : a) r.push_back({monoTimes(t.first, b[0].first), t.second * b[0].second}); return r; }
  if (a.size() == 1) return polyMulRaw(b, a);
  std::unordered_map<u32, mpq_class> m;
  for (auto &x : a) { for (auto &y : b) { m[monoTimes(x.first, y.first)] += x.second * y.second; } if (m.size() > g_maxterms) termcheck(m.size()); }
  Poly r; r.reserve(m.size()); for (auto &t : m) if (t.second != 0) r.push_back({t.first, t.second});
  polySort(r); termcheck(r.size()); return r;
}
static Poly polyReduceSqrt(Poly p) {
  if (!g_haveSqrt) return p;
  for (bool again = true; again;) {
    again = false; Poly keep; Poly acc;
    for (auto &t : p) {
      int hit = -1; const MonoV mv = monos[t.first];
      for (size_t i = 0; i < mv.size(); i++) if (mv[i].second >= 2 && vars[mv[i].first].sqrtOf >= 0) hit = i;
      if (hit < 0) { keep.push_back(t); continue; }
      again = true; MonoV m2 = mv; u32 e = m2[hit].second / 2; u32 v = m2[hit].first; m2[hit].second %= 2; if (!m2[hit].second) m2.erase(m2.begin() + hit);
      Poly q{{monoGet(m2), t.second}}; for (u32 k = 0; k < e; k++) q = polyMulRaw(q, polys[vars[v].sqrtOf]);
      acc = polyAdd(acc, q);
    }
    p = polyAdd(keep, acc);
  }
  return p;
}
static Poly polyMul(const Poly &a, const Poly &b) { return polyReduceSqrt(polyMulRaw(a, b)); }
static bool polyDivExact(const Poly &a, const Poly &d, Poly &q) {
  if (d.empty()) return false;
  q.clear();
  if (a.empty()) return true;
  if (d.size() == 1) { for (auto &t : a) { u32 m; if (!monoDivides(d[0].first, t.first, m)) return false; q.push_back({m, t.second / d[0].second}); } return true; }
  if (g_haveSqrt) return false;
  // quick check on trailing monomial
  { u32 m; if (!monoDivides(d.back().first, a.back().first, m)) return false; }
  struct G { bool operator()(u32 x, u32 y) const { return monoGreater(x, y); } };
  std::map<u32, mpq_class, G> r; for (auto &t : a) r[t.first] = t.second;
  while (!r.empty()) {
    auto it = r.begin(); u32 m; if (!monoDivides(d[0].first, it->first, m)) return false;
    mpq_class c = it->second / d[0].second; q.push_back({m, c});
    for (auto &t : d) { u32 mm = monoTimes(m, t.first); auto &x = r[mm]; x -= c * t.second; if (x == 0) r.erase(mm); }
    if (q.size() > a.size() * 4 + 8) return false;
  }
  return true;
}
static std::unordered_map<size_t, std::vector<int>> polyIdx;
static int polyIntern(const Poly &p) {
  size_t h = p.size(); for (auto &t : p) h = h * 1000003u + t.first * 31u + mpz_get_ui(t.second.get_num_mpz_t()) * 7u + mpz_get_ui(t.second.get_den_mpz_t());
  for (int i : polyIdx[h]) if (polys[i] == p) return i;
  polys.push_back(p); polyIdx[h].push_back(polys.size() - 1); return polys.size() - 1;
}
// rational function: num / prod(den_i^e_i), den polys monic, non constant, no monomial content except single variables
struct RF { Poly num; std::vector<std::pair<int, int>> den; };
static void rfCancel(RF &r) {
  if (r.num.empty()) { r.den.clear(); return; }
  for (size_t i = 0; i < r.den.size();) {
    Poly q;
    while (r.den[i].second > 0 && r.num.size() >= 1 && polyDivExact(r.num, polys[r.den[i].first], q)) { r.num = q; r.den[i].second--; }
    if (r.den[i].second == 0) r.den.erase(r.den.begin() + i); else i++;
  }
}
static Poly polyPow(int id, int e) { Poly r{{0, 1}}; for (int i = 0; i < e; i++) r = polyMul(r, polys[id]); return r; }
static RF rfAdd(const RF &a, const RF &b, int sgn) {
  if (a.den == b.den) { RF r{polyAdd(a.num, b.num, sgn), a.den}; if (r.den.size()) rfCancel(r); return r; }
  RF r; Poly na = a.num, nb = b.num; size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    if (j == b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) { nb = polyMul(nb, polyPow(a.den[i].first, a.den[i].second)); r.den.push_back(a.den[i++]); }
    else if (i == a.den.size() || b.den[j].first < a.den[i].first) { na = polyMul(na, polyPow(b.den[j].first, b.den[j].second)); r.den.push_back(b.den[j++]); }
    else { int ea = a.den[i].second, eb = b.den[j].second, e = std::max(ea, eb);
      if (ea < e) na = polyMul(na, polyPow(a.den[i].first, e - ea)); if (eb < e) nb = polyMul(nb, polyPow(b.den[j].first, e - eb));
      r.den.push_back({a.den[i].first, e}); i++; j++; }
  }
  r.num = polyAdd(na, nb, sgn); rfCancel(r); return r;
}
static RF rfMul(const RF &a, const RF &b) {
  RF r; r.num = polyMul(a.num, b.num);
  size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    if (j == b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) r.den.push_back(a.den[i++]);
    else if (i == a.den.size() || b.den[j].first < a.den[i].first) r.den.push_back(b.den[j++]);
    else { r.den.push_back({a.den[i].first, a.den[i].second + b.den[j].second}); i++; j++; }
  }
  if (r.den.size()) rfCancel(r);
  return r;
}
static std::vector<int> denPool;
// split a polynomial into constant * prod den factors
static void factorDen(Poly p, mpq_class &c, std::map<int, int> &f) {
  c = 1;
  // monomial content
  std::map<u32, u32> mn; bool first = true;
  for (auto &t : p) { std::map<u32, u32> m; for (auto &x : monos[t.first]) m[x.first] = x.second; if (first) { mn = m; first = false; } else { for (auto it = mn.begin(); it != mn.end();) { auto k = m.find(it->first); if (k == m.end()) it = mn.erase(it); else { it->second = std::min(it->second, k->second); ++it; } } } }
  if (!mn.empty()) { MonoV mv(mn.begin(), mn.end()); Poly q, d{{monoGet(mv), 1}}; polyDivExact(p, d, q); p = q; for (auto &x : mn) { Poly v{{monoGet({{x.first, 1}}), 1}}; f[polyIntern(v)] += x.second; } }
  c = p[0].second; for (auto &t : p) t.second /= c;
  for (bool again = true; again && p.size() > 1;) { again = false; for (int id : denPool) if (polys[id].size() > 1 && polys[id].size() <= p.size()) { Poly q; if (polyDivExact(p, polys[id], q)) { f[id]++; p = q; again = true; break; } } }
  if (p.size() > 1 || (p.size() == 1 && p[0].first != 0)) { mpq_class c2 = p[0].second; if (c2 != 1) { c *= c2; for (auto &t : p) t.second /= c2; } int id = polyIntern(p); if (std::find(denPool.begin(), denPool.end(), id) == denPool.end()) denPool.push_back(id); f[id]++; }
  else if (p.size() == 1) c *= p[0].second;
}

// ---------------------------------------------------------------- real expression nodes
enum { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_DIV, K_NEG };
struct Node { u8 k; u32 a = 0, b = 0; mpq_class c; std::shared_ptr<RF> nf; };
static std::vector<Node> nodes;   // index 0 unused
static std::unordered_map<u64, u32> nodeIdx[8];
static const u64 TAG = 0xFFF5A5C300000000ull;
static inline bool isbox(double d) { u64 u; memcpy(&u, &d, 8); return (u >> 32) == (TAG >> 32); }
static inline bool isbadbox(double d) { u64 u; memcpy(&u, &d, 8); u32 h = u >> 32; return h == 0x7FF5A5C3u || h == 0xFFFDA5C3u || h == 0x7FFDA5C3u; }
static inline double box(u32 h) { u64 u = TAG | h; double d; memcpy(&d, &u, 8); return d; }
static inline u32 unbox(double d) { u64 u; memcpy(&u, &d, 8); return (u32)u; }
static std::map<mpq_class, u32> constIdx;
static u32 nodeConst(const mpq_class &c) { auto it = constIdx.find(c); if (it != constIdx.end()) return it->second; Node n; n.k = K_CONST; n.c = c; nodes.push_back(n); return constIdx[c] = nodes.size() - 1; }
static mpq_class toq(double d) { mpq_class q; if (std::isnan(d) || std::isinf(d)) inconclusive("non-finite constant in symbolic real arithmetic"); mpq_set_d(q.get_mpq_t(), d); return q; }
static u32 node(double d) {
  if (isbox(d)) return unbox(d);
  if (isbadbox(d)) inconclusive("symbolic real damaged by uninstrumented bit manipulation");
  return nodeConst(toq(d));
}
static double retnode(u32 h) {
  if (nodes[h].k == K_CONST) { double d = nodes[h].c.get_d(); mpq_class q; mpq_set_d(q.get_mpq_t(), d); if (q == nodes[h].c) return d; }
  return box(h);
}
static u32 mk(u8 k, u32 a, u32 b) {
  Node &x = nodes[a];
  if (x.k == K_CONST && (k == K_NEG || nodes[b].k == K_CONST)) {
    mpq_class r; switch (k) { case K_ADD: r = x.c + nodes[b].c; break; case K_SUB: r = x.c - nodes[b].c; break; case K_MUL: r = x.c * nodes[b].c; break; case K_DIV: r = x.c / nodes[b].c; break; case K_NEG: r = -x.c; break; }
    return nodeConst(r);
  }
  if (k != K_NEG) {
    Node &y = nodes[b];
    if (k == K_ADD) { if (x.k == K_CONST && x.c == 0) return b; if (y.k == K_CONST && y.c == 0) return a; }
    if (k == K_SUB) { if (y.k == K_CONST && y.c == 0) return a; if (a == b) return nodeConst(0); }
    if (k == K_MUL) { if (x.k == K_CONST) { if (x.c == 0) return a; if (x.c == 1) return b; } if (y.k == K_CONST) { if (y.c == 0) return b; if (y.c == 1) return a; } }
    if (k == K_DIV) { if (y.k == K_CONST && y.c == 1) return a; }
    if ((k == K_ADD || k == K_MUL) && a > b) std::swap(a, b);
  }
  u64 key = ((u64)a << 32) | b; auto it = nodeIdx[k].find(key); if (it != nodeIdx[k].end()) return it->second;
  Node n; n.k = k; n.a = a; n.b = b; nodes.push_back(n); return nodeIdx[k][key] = nodes.size() - 1;
}
static const RF &nf(u32 h);
static void nfCompute(u32 h) {
  RF r; Node n = nodes[h];
  switch (n.k) {
    case K_CONST: if (n.c != 0) r.num = Poly{{0, n.c}}; break;
    case K_VAR: r.num = Poly{{monoGet({{n.a, 1}}), 1}}; break;
    case K_ADD: r = rfAdd(nf(n.a), nf(n.b), 1); break;
    case K_SUB: r = rfAdd(nf(n.a), nf(n.b), -1); break;
    case K_MUL: r = rfMul(nf(n.a), nf(n.b)); break;
    case K_NEG: r = nf(n.a); for (auto &t : r.num) t.second = -t.second; break;
    case K_DIV: {
      const RF &b = nf(n.b); if (b.num.empty()) inconclusive("division by identically zero expression");
      mpq_class c; std::map<int, int> f; factorDen(b.num, c, f);
      RF inv; inv.num = Poly{{0, 1 / c}}; inv.den.assign(f.begin(), f.end());
      for (auto &d : b.den) inv.num = polyMul(inv.num, polyPow(d.first, d.second));
      r = rfMul(nf(n.a), inv); break; }
  }
  nodes[h].nf = std::make_shared<RF>(std::move(r));
}
static const RF &nf(u32 h) {
  if (nodes[h].nf) return *nodes[h].nf;
  std::vector<u32> st{h};
  while (!st.empty()) {
    u32 x = st.back(); if (nodes[x].nf) { st.pop_back(); continue; }
    Node &n = nodes[x]; bool ok = true;
    if (n.k >= K_ADD) { if (!nodes[n.a].nf) { st.push_back(n.a); ok = false; } if (n.k != K_NEG && !nodes[n.b].nf) { st.push_back(n.b); ok = false; } }
    if (ok) { nfCompute(x); st.pop_back(); }
  }
  return *nodes[h].nf;
}
// ---------------------------------------------------------------- z3
static z3::context &ctx() { static z3::context *c = nullptr; if (!c) c = new z3::context(); return *c; }
static z3::expr zq(const mpq_class &q) { return ctx().real_val(q.get_str().c_str()); }
static z3::expr zvar(u32 v) { return ctx().real_const(("r" + std::to_string(v)).c_str()); }
static std::unordered_map<int, z3::expr> zpolyCache;
static z3::expr zpolyE(const Poly &p) {
  z3::expr_vector s(ctx());
  for (auto &t : p) {
    z3::expr_vector f(ctx()); if (t.second != 1 || t.first == 0) f.push_back(zq(t.second));
    for (auto &x : monos[t.first]) for (u32 e = 0; e < x.second; e++) f.push_back(zvar(x.first));
    if (f.size() == 1) s.push_back(f[0]); else { Z3_ast as[64]; if (f.size() > 64) inconclusive("degree"); for (unsigned i = 0; i < f.size(); i++) as[i] = f[i]; s.push_back(z3::expr(ctx(), Z3_mk_mul(ctx(), f.size(), as))); }
  }
  if (s.size() == 0) return zq(0);
  return s.size() == 1 ? s[0] : z3::sum(s);
}
static z3::expr zpoly(int id) { auto it = zpolyCache.find(id); if (it != zpolyCache.end()) return it->second; z3::expr e = zpolyE(polys[id]); zpolyCache.emplace(id, e); return e; }

enum { R_LT, R_LE, R_EQ, R_NE, R_GE, R_GT };
static int negrel(int r) { static const int n[] = {R_GE, R_GT, R_NE, R_EQ, R_LT, R_LE}; return n[r]; }
static int fliprel(int r) { static const int n[] = {R_GT, R_GE, R_EQ, R_NE, R_LE, R_LT}; return n[r]; }
static int relmask(int r) { static const int m[] = {1, 3, 2, 5, 6, 4}; return m[r]; }  // neg=1 zero=2 pos=4
struct Con { std::vector<int> f; int rel; };
static std::vector<Con> pc;                       // path condition (reals)
static std::unordered_map<int, int> signKnown;    // poly -> mask
static std::vector<mpq_class> model; static bool modelOk = true; static bool modelExact = true;
static int depth = 0;

static void polyVars(int id, std::set<u32> &v) { for (auto &t : polys[id]) for (auto &x : monos[t.first]) { if (v.insert(x.first).second && vars[x.first].sqrtOf >= 0) polyVars(vars[x.first].sqrtOf, v); } }
static std::unordered_map<int, std::shared_ptr<std::set<u32>>> pvCache;
static const std::set<u32> &pv(int id) { auto &p = pvCache[id]; if (!p) { auto s = std::make_shared<std::set<u32>>(); polyVars(id, *s); pvCache[id] = s; return *s; } return *p; }
static u32 polyDeg(int id) { u32 d = 0; for (auto &t : polys[id]) d = std::max(d, monoDeg[t.first]); return d; }

static mpq_class varVal(u32 v, const std::vector<mpq_class> &m);
static mpq_class polyEval(const Poly &p, const std::vector<mpq_class> &m) {
  mpq_class s = 0; for (auto &t : p) { mpq_class x = t.second; for (auto &f : monos[t.first]) { const mpq_class v = varVal(f.first, m); for (u32 e = 0; e < f.second; e++) x *= v; } s += x; } return s;
}
static mpq_class varVal(u32 v, const std::vector<mpq_class> &m) {
  if (vars[v].sqrtOf < 0) return m[v];
  mpq_class a = polyEval(polys[vars[v].sqrtOf], m); double d = a.get_d(); mpq_class r; if (d < 0) d = 0; mpq_set_d(r.get_mpq_t(), std::sqrt(d)); return r;
}
static int polySign(int id, const std::vector<mpq_class> &m, bool &exact) {
  mpq_class v = polyEval(polys[id], m);
  if (g_haveSqrt) { bool has = false; for (u32 x : pv(id)) if (vars[x].sqrtOf >= 0) has = true; if (has) { exact = false; if (std::fabs(v.get_d()) < 1e-9) return 0; } }
  return sgn(v);
}
static bool conEval(const Con &c, const std::vector<mpq_class> &m, bool &exact) {
  int s = 1; for (int f : c.f) s *= polySign(f, m, exact);
  int mask = s < 0 ? 1 : s == 0 ? 2 : 4; return relmask(c.rel) & mask;
}
static z3::expr conZ(const Con &c) {
  z3::expr e = zq(1); if (c.f.size()) { e = zpoly(c.f[0]); for (size_t i = 1; i < c.f.size(); i++) e = e * zpoly(c.f[i]); }
  z3::expr o = zq(0);
  switch (c.rel) { case R_LT: return e < o; case R_LE: return e <= o; case R_EQ: return e == o; case R_NE: return e != o; case R_GE: return e >= o; default: return e > o; }
}
static u64 now_us() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// relevant slice of the path condition for a variable set
static void slice(std::set<u32> &vs, std::vector<const Con*> &out) {
  std::vector<char> used(pc.size(), 0);
  for (bool again = true; again;) {
    again = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      bool hit = false; for (int f : pc[i].f) { for (u32 v : pv(f)) if (vs.count(v)) { hit = true; break; } if (hit) break; }
      if (hit) { used[i] = 1; again = true; out.push_back(&pc[i]); for (int f : pc[i].f) for (u32 v : pv(f)) vs.insert(v); }
    }
  }
}
// 1 sat 0 unsat -1 unknown ; fills m (copy of current model updated) if sat
static int solveReal(const std::vector<Con> &extra, const z3::expr *raw, const std::set<u32> *rawVars, std::vector<mpq_class> *m, bool *exactModel) {
  std::set<u32> vs; for (auto &c : extra) for (int f : c.f) for (u32 v : pv(f)) vs.insert(v);
  if (rawVars) for (u32 v : *rawVars) vs.insert(v);
  for (;;) { size_t n = vs.size(); std::vector<u32> t(vs.begin(), vs.end()); for (u32 v : t) if (vars[v].sqrtOf >= 0) for (u32 w : pv(vars[v].sqrtOf)) vs.insert(w); if (vs.size() == n) break; }
  std::vector<const Con*> sl; slice(vs, sl);
  u32 deg = raw ? 2 : 0; for (auto &c : extra) { u32 d = 0; for (int f : c.f) d += polyDeg(f); deg = std::max(deg, d); }
  for (auto c : sl) { u32 d = 0; for (int f : c->f) d += polyDeg(f); deg = std::max(deg, d); }
  for (u32 v : vs) if (vars[v].sqrtOf >= 0) deg = 2;
  u64 t0 = now_us(); int res = -1;
  try {
    z3::solver s = deg <= 1 ? z3::solver(ctx(), "QF_LRA") : z3::tactic(ctx(), "qfnra-nlsat").mk_solver();
    z3::params p(ctx()); p.set("rlimit", (unsigned)g_rlimit); s.set(p);
    for (auto c : sl) s.add(conZ(*c));
    for (auto &c : extra) s.add(conZ(c));
    if (raw) s.add(*raw);
    for (u32 v : vs) if (vars[v].sqrtOf >= 0) { s.add(zvar(v) >= 0); s.add(zvar(v) * zvar(v) == zpoly(vars[v].sqrtOf)); }
    auto r = s.check();
    res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
    if (res == 1 && m) {
      z3::model zm = s.get_model(); *m = model; m->resize(vars.size()); bool ex = true;
      for (u32 v : vs) if (vars[v].sqrtOf < 0) {
        z3::expr e = zm.eval(zvar(v), true); std::string st;
        if (e.is_numeral()) { (*m)[v] = mpq_class(Z3_get_numeral_string(ctx(), e)); (*m)[v].canonicalize(); }
        else if (e.is_algebraic()) { st = Z3_get_numeral_decimal_string(ctx(), e, 25); if (!st.empty() && st.back() == '?') st.pop_back();
          size_t dot = st.find('.'); std::string num = st, den = "1"; if (dot != std::string::npos) { num = st.substr(0, dot) + st.substr(dot + 1); den += std::string(st.size() - dot - 1, '0'); }
          bool neg = num[0] == '-'; if (neg) num = num.substr(1); mpq_class q(num + "/" + den, 10); q.canonicalize(); (*m)[v] = neg ? mpq_class(-q) : q; ex = false; }
        else { (*m)[v] = 0; ex = false; }
      }
      if (exactModel) *exactModel = ex;
    }
  } catch (z3::exception &e) { if (g_verbose) fprintf(stderr, "z3: %s\n", e.msg()); res = -1; }
  S->us += now_us() - t0; S->realq++;
  if (res == 1) S->qsat++; else if (res == 0) S->qunsat++; else S->qunk++;
  return res;
}
static u64 rngs = 88172645463325252ull;
static u64 rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }
static mpq_class rndval() { static const int den[] = {1, 1, 1, 2, 4}; mpq_class q((long)(rnd() % 19) - 9, den[rnd() % 5]); q.canonicalize(); return q; }
// look for a witness by perturbing the current model
static bool sampleModel(const std::vector<Con> &extra, std::vector<mpq_class> &m, int tries) {
  std::set<u32> vs; for (auto &c : extra) for (int f : c.f) for (u32 v : pv(f)) if (vars[v].sqrtOf < 0) vs.insert(v);
  if (vs.empty()) return false;
  std::vector<u32> vl(vs.begin(), vs.end());
  std::set<u32> vsc = vs; std::vector<const Con*> sl; slice(vsc, sl);
  model.resize(vars.size());
  for (int t = 0; t < tries; t++) {
    m = model; size_t k = 1 + rnd() % vl.size(); if (t % 3 == 0) k = vl.size(); if (t % 3 == 1) k = 1;
    for (size_t i = 0; i < k; i++) m[t % 3 == 0 ? vl[i] : vl[rnd() % vl.size()]] = (t & 8) ? mpq_class(rndval() * 16) : rndval();
    bool ok = true, ex = true;
    for (auto &c : extra) if (!conEval(c, m, ex)) { ok = false; break; }
    if (ok) for (auto c : sl) if (!conEval(*c, m, ex)) { ok = false; break; }
    if (ok) { S->samp++; return true; }
  }
  return false;
}

// ---------------------------------------------------------------- bit vectors
static std::vector<z3::expr> &ints() { static auto *v = new std::vector<z3::expr>; if (v->empty()) v->push_back(ctx().bv_val(0, 8)); return *v; }
static z3::solver &bvs() { static z3::solver *s = nullptr; if (!s) { s = new z3::solver(ctx(), "QF_BV"); } return *s; }
static std::unique_ptr<z3::model> bvModel; static bool bvUsed = false;
static int bvCheck(z3::expr *e, bool keep) {
  u64 t0 = now_us(); int res = -1;
  try {
    bvs().push(); if (e) bvs().add(*e);
    auto r = bvs().check(); res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
    if (res == 1 && keep) bvModel.reset(new z3::model(bvs().get_model()));
    bvs().pop();
  } catch (z3::exception &x) { res = -1; }
  S->us += now_us() - t0; S->bvq++;
  if (res == 1) S->qsat++; else if (res == 0) S->qunsat++; else S->qunk++;
  return res;
}
// ---------------------------------------------------------------- forking
static std::vector<pid_t> kids; static bool g_child = false;
static void waitkids() { for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR); if (WIFSIGNALED(st)) { S->errs++; shlog("E|path process died by signal " + std::to_string(WTERMSIG(st)) + "\n"); S->stop = 1; } } kids.clear(); }
static void mergecov(); static void logWitness();
[[noreturn]] static void endpath(bool completed) {
  g_in_rt++; g_active = false; fedisableexcept(FE_ALL_EXCEPT);
  mergecov();
  if (completed) { u64 k = S->paths++; if (k == 0 || k == 3 || k == 11 || k == 40 || k == 150 || k == 600 || k == 2500) logWitness(); } else S->killed++;
  if ((u64)depth > S->maxdepth) S->maxdepth = depth;
  S->tokens++;
  waitkids();
  _exit(0);
}
// returns true in the child
static bool dofork() {
  if (S->stop) endpath(false);
  S->forks++;
  bool tok = false; long t = S->tokens.load(); while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; }
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) inconclusive("fork failed");
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); kids.clear(); g_child = true; rngs ^= 0x9E3779B97F4A7C15ull * (2 * depth + 1); rnd(); return true; }
  if (tok) kids.push_back(p);
  else {
    // our token passes to the child, which releases it when it ends
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    if (WIFSIGNALED(st)) { S->errs++; S->stop = 1; shlog("E|path process died by signal " + std::to_string(WTERMSIG(st)) + "\n"); }
    S->tokens--;
    if (S->stop) endpath(false);
  }
  return false;
}
static void childtok(bool) {}

static std::string conStr(const Con &c);
static void addCon(const Con &c) {
  depth++;
  if (c.f.size() == 1) { auto it = signKnown.find(c.f[0]); int old = it == signKnown.end() ? 7 : it->second; signKnown[c.f[0]] = old & relmask(c.rel); }
  pc.push_back(c);
}
static bool simpCon(Con &c, bool &val) {  // true if decided
  int sg = 1; std::vector<int> f;
  for (int id : c.f) {
    const Poly &p = polys[id];
    if (p.empty()) { f.clear(); val = relmask(c.rel) & 2; return true; }
    if (p.size() == 1 && p[0].first == 0) { if (p[0].second < 0) sg = -sg; continue; }
    mpq_class l = p[0].second; int id2 = id;
    if (l != 1) { Poly q = p; for (auto &t : q) t.second /= l; id2 = polyIntern(q); if (l < 0) sg = -sg; }
    auto it = signKnown.find(id2);
    if (it != signKnown.end()) { if (it->second == 4) continue; if (it->second == 1) { sg = -sg; continue; } if (it->second == 2) { val = relmask(c.rel) & 2; return true; } }
    auto k = std::find(f.begin(), f.end(), id2); if (k != f.end() && (signKnown.count(id2) && !(signKnown[id2] & 2))) { f.erase(k); continue; }
    f.push_back(id2);
  }
  if (sg < 0) c.rel = fliprel(c.rel);
  c.f = f;
  if (f.empty()) { val = relmask(c.rel) & 4; return true; }
  if (f.size() == 1) { auto it = signKnown.find(f[0]); if (it != signKnown.end()) { int k = it->second, m = relmask(c.rel); if (!(k & ~m)) { val = true; return true; } if (!(k & m)) { val = false; return true; } } }
  return false;
}
static bool decide(Con c, bool noFork = false) {
  bool v; if (simpCon(c, v)) return v;
  Con n = c; n.rel = negrel(c.rel);
  model.resize(vars.size());
  bool side, exact = true; std::vector<mpq_class> other; bool oex = true;
  if (modelOk) {
    side = conEval(c, model, exact);
    const Con &q = side ? n : c;
    int r = 0; bool known = false;
    if (sampleModel({q}, other, 24)) { r = 1; known = true; }
    if (!known) r = solveReal({q}, nullptr, nullptr, &other, &oex);
    if (r < 0) inconclusive("solver unknown on branch feasibility (real)");
    if (r == 0) { // only `side`
      if (c.f.size() == 1) { auto it = signKnown.find(c.f[0]); int old = it == signKnown.end() ? 7 : it->second; signKnown[c.f[0]] = old & relmask(side ? c.rel : n.rel); }
      return side;
    }
    if (dofork()) { addCon(side ? n : c); model = other; modelExact = oex; return !side; }
    addCon(side ? c : n); return side;
  }
  return false;
}

static bool decideRF(const RF &r, int rel) {
  Con c; c.rel = rel; c.f.push_back(polyIntern(r.num));
  for (auto &d : r.den) if (d.second & 1) c.f.push_back(d.first);
  return decide(c);
}
// equality-type decisions do not need denominators
static bool decideEqRF(const RF &r, int rel) { Con c; c.rel = rel; c.f.push_back(polyIntern(r.num)); return decide(c); }

// ---------------------------------------------------------------- instrumentation entry points: doubles
static bool g_exact = true;
#define CK2(a, b) if (__builtin_expect(!isbox(a) && !isbox(b), 1))
static void ckbad(double a) { if (isbadbox(a)) inconclusive("symbolic real damaged by uninstrumented bit manipulation"); }
static inline bool finite2(double a, double b) { return std::isfinite(a) && std::isfinite(b); }
extern "C" {
double __sx_fadd(double a, double b) {
  CK2(a, b) { ckbad(a); ckbad(b); if (!g_exact || !g_active || !finite2(a, b)) { if (std::isinf(a) && std::isinf(b) && a != b) return std::nan(""); return a + b; }
    double r = a + b; double bb = r - a; double e = (a - (r - bb)) + (b - bb); if (e == 0 && std::isfinite(r)) return r; }
  RT rt; return retnode(mk(K_ADD, node(a), node(b)));
}
double __sx_fsub(double a, double b) {
  CK2(a, b) { ckbad(a); ckbad(b); if (!g_exact || !g_active || !finite2(a, b)) { if (std::isinf(a) && a == b) return std::nan(""); return a - b; }
    double r = a - b; double bb = r - a; double e = (a - (r - bb)) - (b + bb); if (e == 0 && std::isfinite(r)) return r; }
  RT rt; return retnode(mk(K_SUB, node(a), node(b)));
}
double __sx_fmul(double a, double b) {
  CK2(a, b) { ckbad(a); ckbad(b); if (!g_exact || !g_active || !finite2(a, b)) { if ((std::isinf(a) && b == 0) || (std::isinf(b) && a == 0)) return std::nan(""); return a * b; }
    double r = a * b; if (std::isfinite(r) && std::fma(a, b, -r) == 0 && (r != 0 || a == 0 || b == 0)) return r; }
  RT rt; return retnode(mk(K_MUL, node(a), node(b)));
}
double __sx_fdiv(double a, double b) {
  CK2(a, b) { ckbad(a); ckbad(b); if (b == 0 || !g_exact || !g_active || !finite2(a, b)) { if (b == 0 && a == 0) return std::nan(""); if (std::isinf(a) && std::isinf(b)) return std::nan(""); return a / b; }
    double r = a / b; if (std::isfinite(r) && std::fma(r, b, -a) == 0 && (r != 0 || a == 0)) return r; }
  RT rt; u32 hb = node(b);
  if (!isbox(b)) { if (b == 0) { __sx_api_fail("division of a real by zero"); } }
  else { if (nodes[hb].k != K_CONST) { const RF r = nf(hb); if (decideEqRF(r, R_EQ)) { __sx_api_fail("division by zero"); } } }
  return retnode(mk(K_DIV, node(a), hb));
}
double __sx_fneg(double a) { if (!isbox(a)) { ckbad(a); return -a; } RT rt; return retnode(mk(K_NEG, unbox(a), 0)); }
u8 __sx_fcmp(u32 pred, double a, double b) {
  // LLVM fcmp predicates: bit0 eq, bit1 gt, bit2 lt, bit3 uno
  CK2(a, b) {
    ckbad(a); ckbad(b);
    if (std::isnan(a) || std::isnan(b)) return (pred >> 3) & 1;
    if (std::isless(a, b)) return (pred >> 2) & 1; if (std::isgreater(a, b)) return (pred >> 1) & 1; return pred & 1; }
  RT rt;
  if (!isbox(a) && std::isnan(a)) return (pred >> 3) & 1;
  if (!isbox(b) && std::isnan(b)) return (pred >> 3) & 1;
  u32 p = pred & 7; // 0 false 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 true
  if (!isbox(a) && std::isinf(a)) return a > 0 ? (p >> 1) & 1 : (p >> 2) & 1;
  if (!isbox(b) && std::isinf(b)) return b > 0 ? (p >> 2) & 1 : (p >> 1) & 1;
  if (p == 0) return 0; if (p == 7) return 1;
  static const int rels[] = {0, R_EQ, R_GT, R_GE, R_LT, R_LE, R_NE, 0};
  u32 d = mk(K_SUB, node(a), node(b)); const RF r = nf(d);
  int rel = rels[p];
  if (rel == R_EQ || rel == R_NE) return decideEqRF(r, rel);
  return decideRF(r, rel);
}
double __sx_fabs(double a) { if (!isbox(a)) { ckbad(a); return std::fabs(a); } return __sx_fcmp(4, a, 0.0) ? __sx_fneg(a) : a; }
double __sx_fmin(double a, double b) { CK2(a, b) { return std::fmin(a, b); } return __sx_fcmp(4, b, a) ? b : a; }
double __sx_fmax(double a, double b) { CK2(a, b) { return std::fmax(a, b); } return __sx_fcmp(4, a, b) ? b : a; }
static u32 newVar(const std::string &name) {
  vars.push_back({name}); Node n; n.k = K_VAR; n.a = vars.size() - 1; nodes.push_back(n); model.resize(vars.size()); return nodes.size() - 1;
}
static bool perfectSqrt(const mpq_class &q, mpq_class &r) {
  if (q < 0) return false; mpz_class n = q.get_num(), d = q.get_den();
  if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) { mpz_class a, b; mpz_sqrt(a.get_mpz_t(), n.get_mpz_t()); mpz_sqrt(b.get_mpz_t(), d.get_mpz_t()); r = mpq_class(a, b); r.canonicalize(); return true; } return false; }
static std::map<int, u32> sqrtAtom;
static u32 sqrtPoly(const Poly &p) { // sqrt of polynomial, known >= 0
  if (p.empty()) return nodeConst(0);
  if (p.size() == 1) { // c * monomial with even exponents
    bool even = true; for (auto &x : monos[p[0].first]) if (x.second & 1 || vars[x.first].sqrtOf >= 0) even = false; mpq_class r;
    if (even && perfectSqrt(p[0].second, r)) {
      u32 res = nodeConst(r);
      for (auto &x : monos[p[0].first]) { u32 vn = 0; for (u32 i = 1; i < nodes.size(); i++) if (nodes[i].k == K_VAR && nodes[i].a == x.first) { vn = i; break; }
        double av = __sx_fabs(box(vn)); u32 an = node(av); for (u32 e = 0; e < x.second / 2; e++) res = mk(K_MUL, res, an); }
      return res; }
  }
  int id = polyIntern(p); auto it = sqrtAtom.find(id); if (it != sqrtAtom.end()) return it->second;
  u32 h = newVar("sqrt"); vars.back().sqrtOf = id; g_haveSqrt = true; pvCache.clear(); return sqrtAtom[id] = h;
}
double __sx_sqrt(double a) {
  if (!isbox(a)) { ckbad(a); if (!(a >= 0)) return std::nan(""); double r = std::sqrt(a); if (!g_exact || !g_active || !std::isfinite(r) || std::fma(r, r, -a) == 0) return r; }
  RT rt; u32 h = node(a);
  if (__sx_fcmp(4, box(h), 0.0)) { __sx_api_fail("sqrt of negative value"); }
  const RF r = nf(h);
  Poly P = r.num; u32 den = nodeConst(1);
  // sqrt(N/D) : multiply N by odd den factors
  for (auto &d : r.den) {
    u32 dn = 0; { // node for den poly
      u32 s = nodeConst(0); for (auto &t : polys[d.first]) { u32 m = nodeConst(t.second); for (auto &x : monos[t.first]) for (u32 e = 0; e < x.second; e++) { u32 vn = 0; for (u32 i = 1; i < nodes.size(); i++) if (nodes[i].k == K_VAR && nodes[i].a == x.first) { vn = i; break; } m = mk(K_MUL, m, vn); } s = mk(K_ADD, s, m); } dn = s; }
    dn = node(__sx_fabs(box(dn)));
    int e = d.second; if (e & 1) { P = polyMul(P, polys[d.first]); e++; }
    for (int i = 0; i < e / 2; i++) den = mk(K_MUL, den, dn);
  }
  // rational content: c * P' ; keep it simple: pull out perfect square content
  u32 s = sqrtPoly(P);
  return retnode(mk(K_DIV, s, den));
}
double __sx_powi(double a, int e) { if (!isbox(a) && !(g_exact && g_active)) return std::pow(a, e); double r = 1; for (int i = 0; i < std::abs(e); i++) r = __sx_fmul(r, a); return e < 0 ? __sx_fdiv(1, r) : r; }
double __sx_pow(double a, double b) {
  CK2(a, b) return std::pow(a, b);
  if (!isbox(b)) { if (b == std::floor(b) && std::fabs(b) < 32) return __sx_powi(a, (int)b); if (b == 0.5) return __sx_sqrt(a); }
  inconclusive("pow with symbolic/irrational exponent");
}
static mpz_class mpqFloor(const mpq_class &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
// value k with k <= a < k+1, forking over all feasible k
static mpz_class floorFork(double a) {
  RT rt; u32 h = node(a); if (nodes[h].k == K_CONST) return mpqFloor(nodes[h].c);
  for (int it = 0; it < 64; it++) {
    const RF r = nf(h); mpq_class v = polyEval(r.num, model); for (auto &d : r.den) { mpq_class x = polyEval(polys[d.first], model); for (int e = 0; e < d.second; e++) v /= x; }
    mpz_class k = mpqFloor(v); double kd = k.get_d();
    if (__sx_fcmp(3, a, kd) && __sx_fcmp(4, a, kd + 1)) return k;
  }
  inconclusive("too many values converting a symbolic real to an integer");
}
double __sx_floor(double a) { if (!isbox(a)) return std::floor(a); return floorFork(a).get_d(); }
double __sx_ceil(double a) { if (!isbox(a)) return std::ceil(a); return __sx_fneg(__sx_floor(__sx_fneg(a))); }
u64 __sx_fptoi(double a, u32 bits) { if (!isbox(a)) return (u64)(long)a; if (__sx_fcmp(3, a, 0.0)) return (u64)(long)floorFork(a).get_d(); return (u64)(-(long)floorFork(__sx_fneg(a)).get_d()); }
u8 __sx_isbox(double a) { return isbox(a); }
void __sx_ckd(double a, const char *what) { if (isbox(a)) inconclusive(std::string("symbolic real reaches unsupported operation: ") + what); ckbad(a); }
}
// ---------------------------------------------------------------- integers
struct ShB { u32 h; u8 idx, conc; };
struct ShPage { ShB b[4096]; u32 n; };
static std::unordered_map<u64, ShPage*> *pages = nullptr; static u64 nsym = 0;
static inline ShPage *page(u64 a) { auto it = pages->find(a >> 12); return it == pages->end() ? nullptr : it->second; }
static void clearRange(u64 p, u64 n) {
  if (!nsym || !n) return; g_in_rt++;
  u64 e = p + n;
  if (n > (1u << 20)) { for (auto &kv : *pages) { u64 base = kv.first << 12; if (base + 4096 > p && base < e) for (u64 i = 0; i < 4096; i++) if (base + i >= p && base + i < e && kv.second->b[i].h) { kv.second->b[i].h = 0; nsym--; } } g_in_rt--; return; }
  for (u64 pg = p >> 12; pg <= (e - 1) >> 12; pg++) { auto it = pages->find(pg); if (it == pages->end() || !it->second->n) continue; ShPage *P = it->second;
    u64 lo = std::max(p, pg << 12), hi = std::min(e, (pg + 1) << 12); for (u64 a = lo; a < hi; a++) if (P->b[a & 4095].h) { P->b[a & 4095].h = 0; P->n--; nsym--; } }
  g_in_rt--;
}
static void setByte(u64 a, u32 h, u8 idx, u8 conc) {
  ShPage *P = page(a); if (!P) { if (!h) return; P = (ShPage*)calloc(1, sizeof(ShPage)); (*pages)[a >> 12] = P; }
  ShB &b = P->b[a & 4095]; if (b.h && !h) { nsym--; P->n--; } if (!b.h && h) { nsym++; P->n++; } b.h = h; b.idx = idx; b.conc = conc;
}
static ShB getByte(u64 a) { ShPage *P = page(a); if (!P) return {0, 0, 0}; ShB b = P->b[a & 4095]; if (b.h && *(volatile u8*)a != b.conc) { P->b[a & 4095].h = 0; P->n--; nsym--; return {0, 0, 0}; } return b; }
static u32 newInt(const z3::expr &e) { ints().push_back(e); return ints().size() - 1; }
static z3::expr iexpr(u64 v, u32 s, u32 bits) { if (s) { z3::expr e = ints()[s]; if (e.get_sort().bv_size() != bits) inconclusive("internal: width mismatch"); return e; } return ctx().bv_val((uint64_t)v, bits); }
static bool decideBV(z3::expr c) {
  c = c.simplify(); if (c.is_true()) return true; if (c.is_false()) return false;
  z3::expr n = !c; bool side;
  if (!bvModel) { int r = bvCheck(nullptr, true); if (r != 1) inconclusive("bv path condition not satisfiable"); }
  z3::expr me = bvModel->eval(c, true);
  side = me.is_true();
  z3::expr oth = side ? n : c, mine = side ? c : n;
  u64 t0 = now_us(); bvs().push(); bvs().add(oth); auto r = bvs().check();
  std::unique_ptr<z3::model> om; if (r == z3::sat) om.reset(new z3::model(bvs().get_model()));
  bvs().pop(); S->us += now_us() - t0; S->bvq++;
  if (r == z3::unknown) { S->qunk++; inconclusive("solver unknown on branch feasibility (bv)"); }
  if (r == z3::unsat) { S->qunsat++; return side; }
  S->qsat++; depth++;
  if (dofork()) { bvs().add(oth); bvModel = std::move(om); return !side; }
  bvs().add(mine); return side;
}
static u64 bvval(const z3::expr &e) { uint64_t v = 0; if (!Z3_get_numeral_uint64(ctx(), e, &v)) inconclusive("bv numeral"); return v; }
static u32 argbuf[64]; static const void *argowner = nullptr; static u32 zerobuf[64]; static u32 argcur[64];
static const void *retowner = nullptr; static u32 retsh = 0;
static std::unordered_set<const void*> *instr = nullptr;
struct Mod { void **tab; u64 n; u8 *cov; u64 base; };
static std::vector<Mod> *mods = nullptr;
static void mergecov() { for (auto &m : *mods) for (u64 i = 0; i < m.n; i++) if (m.cov[i] && m.base + i < sizeof(S->cov)) S->cov[m.base + i] = 1; }
static u64 concretize(u32 h, u32 bits) {
  RT rt; z3::expr e = ints()[h].simplify(); if (e.is_numeral()) return bvval(e);
  S->concs++;
  for (int it = 0; it < 300; it++) {
    if (!bvModel) { if (bvCheck(nullptr, true) != 1) inconclusive("bv path condition not satisfiable"); }
    u64 k = bvval(bvModel->eval(e, true));
    if (decideBV(e == ctx().bv_val((uint64_t)k, e.get_sort().bv_size()))) return k;
  }
  inconclusive("too many values concretising an integer");
}
extern "C" {
void __sx_register(void **tab, u64 n, u8 *cov) {
  if (!instr) { instr = new std::unordered_set<const void*>; mods = new std::vector<Mod>; pages = new std::unordered_map<u64, ShPage*>; }
  u64 base = mods->size() ? mods->back().base + mods->back().n : 0;
  for (u64 i = 0; i < n; i++) instr->insert(tab[2 * i]);
  mods->push_back({tab, n, cov, base});
}
u32 *__sx_enter(const void *f) { if (argowner != f) { argowner = nullptr; return zerobuf; } argowner = nullptr; memcpy(argcur, argbuf, sizeof(argbuf)); return argcur; }
u64 __sx_arg(const void *callee, u32 idx, u64 v, u32 s, u32 bits) {
  if (idx >= 64) inconclusive("too many int args");
  if (idx == 0) argowner = nullptr;
  argbuf[idx] = s;
  if (!s) return v;
  if (!instr->count(callee)) { argbuf[idx] = 0; return concretize(s, bits); }
  argowner = callee; return v;
}
void __sx_ret(const void *f, u32 s) { retowner = s ? f : nullptr; retsh = s; }
u32 __sx_retget(const void *f) { if (retowner && retowner == f) { retowner = nullptr; return retsh; } retowner = nullptr; return 0; }
u64 __sx_conc(u64 v, u32 s, u32 bits) { if (!s) return v; return concretize(s, bits); }
u32 __sx_ibin(u32 op, u32 bits, u64 a, u32 sa, u64 b, u32 sb) {
  if (!sa && !sb) return 0; RT rt;
  z3::expr x = iexpr(a, sa, bits), y = iexpr(b, sb, bits), r = x;
  // LLVM Instruction opcodes (18)
  enum { Add = 13, FAdd, Sub, FSub, Mul, FMul, UDiv, SDiv, FDiv, URem, SRem, FRem, Shl, LShr, AShr, And, Or, Xor };
  switch (op) {
    case Add: r = x + y; break; case Sub: r = x - y; break; case Mul: r = x * y; break;
    case UDiv: r = z3::udiv(x, y); break; case SDiv: r = x / y; break; case URem: r = z3::urem(x, y); break; case SRem: r = z3::srem(x, y); break;
    case Shl: r = z3::shl(x, y); break; case LShr: r = z3::lshr(x, y); break; case AShr: r = z3::ashr(x, y); break;
    case And: r = x & y; break; case Or: r = x | y; break; case Xor: r = x ^ y; break;
    default: inconclusive("unknown int op");
  }
  r = r.simplify(); return newInt(r);
}
u32 __sx_icast(u32 op, u32 fb, u32 tb, u32 s) {
  if (!s) return 0; RT rt; z3::expr x = iexpr(0, s, fb);
  enum { Trunc = 38, ZExt, SExt };
  z3::expr r = op == Trunc ? x.extract(tb - 1, 0) : op == ZExt ? z3::zext(x, tb - fb) : z3::sext(x, tb - fb);
  return newInt(r.simplify());
}
u8 __sx_icmp(u32 pred, u32 bits, u64 a, u32 sa, u64 b, u32 sb) {
  if (!sa && !sb) {
    long x = bits == 64 ? (long)a : (long)(a << (64 - bits)) >> (64 - bits), y = bits == 64 ? (long)b : (long)(b << (64 - bits)) >> (64 - bits);
    switch (pred) { case 32: return a == b; case 33: return a != b; case 34: return a > b; case 35: return a >= b; case 36: return a < b; case 37: return a <= b; case 38: return x > y; case 39: return x >= y; case 40: return x < y; case 41: return x <= y; }
  }
  RT rt; z3::expr x = iexpr(a, sa, bits), y = iexpr(b, sb, bits), c = ctx().bool_val(true);
  switch (pred) { case 32: c = x == y; break; case 33: c = x != y; break; case 34: c = z3::ugt(x, y); break; case 35: c = z3::uge(x, y); break; case 36: c = z3::ult(x, y); break; case 37: c = z3::ule(x, y); break; case 38: c = x > y; break; case 39: c = x >= y; break; case 40: c = x < y; break; case 41: c = x <= y; break; default: inconclusive("icmp pred"); }
  return decideBV(c);
}
u32 __sx_iload(const void *p, u32 n) {
  if (!nsym) return 0; u64 a = (u64)p;
  ShPage *P = page(a), *Q = page(a + n - 1); if ((!P || !P->n) && (!Q || !Q->n)) return 0;
  g_in_rt++; ShB b[8]; bool any = false; for (u32 i = 0; i < n; i++) { b[i] = getByte(a + i); any |= b[i].h != 0; }
  g_in_rt--; if (!any) return 0;
  RT rt;
  bool whole = b[0].h && ints()[b[0].h].get_sort().bv_size() == 8 * n; for (u32 i = 0; i < n && whole; i++) if (b[i].h != b[0].h || b[i].idx != i) whole = false;
  if (whole) return b[0].h;
  auto be = [&](u32 i) -> z3::expr { if (!b[i].h) return ctx().bv_val((unsigned)((u8*)p)[i], 8); return ints()[b[i].h].extract(8 * b[i].idx + 7, 8 * b[i].idx); };
  z3::expr e = be(0); for (u32 i = 1; i < n; i++) e = z3::concat(be(i), e);
  return newInt(e.simplify());
}
void __sx_istore(void *p, u32 n, u64 v, u32 s) {
  if (!s) { if (nsym) clearRange((u64)p, n); return; }
  g_in_rt++; for (u32 i = 0; i < n; i++) setByte((u64)p + i, s, i, (u8)(v >> (8 * i))); g_in_rt--;
}
void __sx_clear(void *p, u64 n) { if (nsym) clearRange((u64)p, n); }
void __sx_memcpy_pre(void *d, void *s, u64 n) {
  if (!nsym || !n) return; u64 D = (u64)d, A = (u64)s; g_in_rt++;
  std::vector<ShB> tmp(n); bool any = false; for (u64 i = 0; i < n; i++) { tmp[i] = getByte(A + i); any |= tmp[i].h != 0; }
  clearRange(D, n); if (any) for (u64 i = 0; i < n; i++) if (tmp[i].h) setByte(D + i, tmp[i].h, tmp[i].idx, tmp[i].conc);
  g_in_rt--;
}
void __sx_memconc(void *p, u64 n) {
  if (!nsym) return; u64 a = (u64)p;
  bool any = false; for (u64 pg = a >> 12; pg <= (a + n - 1) >> 12; pg++) { ShPage *P = page(pg << 12); if (P && P->n) any = true; } if (!any) return;
  for (u64 i = 0; i < n; i++) { ShB b = getByte(a + i); if (b.h) { u32 w = ints()[b.h].get_sort().bv_size(); u64 v = concretize(b.h, w); u32 h = b.h; 
      for (u64 j = i; j < n; j++) { ShB c = getByte(a + j); if (c.h == h) { u8 cv = (u8)(v >> (8 * c.idx)); setByte(a + j, 0, 0, 0); ((u8*)p)[j] = cv; } } } }
}
void __sx_ptrarg(const void *callee, void *p) {
  if (!nsym || !p) return; if (instr->count(callee)) return;
  if ((const void*)callee == (const void*)&__sx_api_int) return;
  static const void *dealloc[12]; if (!dealloc[0]) { void *h = RTLD_DEFAULT; const char *nms[] = {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}; int k = 0; for (auto n : nms) if (void *a = dlsym(h, n)) dealloc[k++] = a; }
  for (const void *q : dealloc) if (q && (const void*)callee == q) return;   // freeing memory does not read it
  u64 a = (u64)p; ShPage *P = page(a); if (!P || !P->n) return;
  u64 n = 0; while (n < 256 && getByte(a + n).h) n++;
  if (n) __sx_memconc(p, n);
}
// ---------------------------------------------------------------- malloc hooks: fresh memory carries no shadow
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void*, size_t); void *__libc_memalign(size_t, size_t);
static int g_fill = -1;   // harness asked for fresh memory with this content
void *malloc(size_t n) { void *p = __libc_malloc(n); if (g_fill >= 0 && !g_in_rt && p && n <= (1 << 20)) memset(p, g_fill, n); if (nsym && !g_in_rt && p) clearRange((u64)p, n); return p; }
void __sx_api_heap(int v) { g_fill = v; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (nsym && !g_in_rt && p) clearRange((u64)p, a * b); return p; }
}
// ---------------------------------------------------------------- harness API
struct H { const char *n, *b; void (*f)(); int t; };
static std::vector<H> &hs() { static std::vector<H> v; return v; }
static std::vector<std::pair<std::string, int>> inputs; // kind: >=0 var index ; <0 : -(int handle)
static std::string dtext(const mpq_class &q) { char b[64]; snprintf(b, 64, "%.17g", q.get_d()); return b; }
static std::string modelText(const std::vector<mpq_class> &m) {
  std::string s; int i = 0; bool anyint = false; for (auto &x : inputs) if (x.second < 0) anyint = true;
  if (anyint && !bvModel) bvCheck(nullptr, true);
  for (auto &x : inputs) {
    std::string v;
    if (x.second >= 0) v = dtext((size_t)x.second < m.size() ? m[x.second] : mpq_class(0));
    else { z3::expr e = bvModel ? bvModel->eval(ints()[-x.second], true) : ctx().bv_val(0, 8); u32 w = ints()[-x.second].get_sort().bv_size(); u64 u = e.is_numeral() ? bvval(e) : 0; long l = w == 64 ? (long)u : (w == 8 ? (long)u : (long)(int32_t)u); v = std::to_string(l); }
    s += std::to_string(i++) + " " + x.first + " " + v + ";";
  }
  return s;
}
static void recordViolation(const char *label, const std::vector<mpq_class> &m) {
  u64 n = S->viols.fetch_add(1);
  if (n > 60) S->stop = 1;
  if (n < 200) shlog(std::string("V|") + label + "|" + modelText(m) + "\n");
}
static void logWitness() { if (!modelOk || !modelExact) return; shlog("W||" + modelText(model) + "\n"); }
extern "C" {
void __sx_api_register(const char *n, const char *b, void (*f)(), int t) { hs().push_back({n, b, f, t}); }
int __sx_api_tier() { return g_tier; }
int __sx_api_replay() { return 0; }
int __sx_api_is_sym(double a) { return isbox(a); }
void __sx_api_exact(int on) { g_exact = on; }
int __sx_api_guard_begin() { return 0; }
double __sx_api_sqrt(double a) { return __sx_sqrt(a); }
double __sx_api_real(const char *name) { RT rt; u32 h = newVar(name); inputs.push_back({name, (int)nodes[h].a}); model[nodes[h].a] = rndval(); S->nreal++; return box(h); }
void __sx_api_int(void *p, int bytes, const char *name, long lo, long hi) {
  RT rt; int bits = bytes * 8; z3::expr e = ctx().bv_const((std::string("i") + std::to_string(inputs.size())).c_str(), bits);
  u32 h = newInt(e); inputs.push_back({name, -(int)h}); S->nint++;
  if (bytes == 1) bvs().add(z3::uge(e, ctx().bv_val((unsigned)lo, 8)) && z3::ule(e, ctx().bv_val((unsigned)hi, 8)));
  else bvs().add(e >= ctx().bv_val((int64_t)lo, bits) && e <= ctx().bv_val((int64_t)hi, bits));
  bvModel.reset();
  u64 pat = rnd(); if (bytes == 4) pat = 0x5EA00000u | (pat & 0xFFFFF); if (bytes == 8) pat = 0x5EA0000000000000ull | (pat & 0xFFFFFFFFFFull);
  memcpy(p, &pat, bytes);
  g_in_rt++; for (int i = 0; i < bytes; i++) setByte((u64)p + i, h, i, (u8)(pat >> (8 * i))); g_in_rt--;
}
int __sx_api_choose(const char *name, int k) {   // structural choice: every value explored on a path of its own, returned as a plain integer
  RT rt; int v = k - 1; for (int c = 0; c < k - 1; c++) { depth++; S->qsat++; if (dofork()) { v = c; break; } }
  u32 h = newInt(ctx().bv_val(v, 32)); inputs.push_back({name, -(int)h}); S->nint++; if (g_choices.size() < 400) g_choices += std::string(g_choices.size() ? " " : "") + name + "=" + std::to_string(v); return v;
}
void __sx_api_assume(int c) { if (!c) endpath(false); }
void __sx_api_fail(const char *msg) { RT rt; S->checks++; recordViolation(msg, model); endpath(false); }
void __sx_api_check(int c, const char *l) {
  RT rt; S->checks++;
  if (c) { S->checks_dis++; return; }
  recordViolation(l, model); endpath(false);
}
void __sx_api_print(const char *l, double v) {
  RT rt; if (!isbox(v)) { fprintf(stderr, "PRINT %s %.17g\n", l, v); return; }
  const RF &r = nf(unbox(v)); std::string s; for (auto &t : r.num) { s += " + " + t.second.get_str(); for (auto &x : monos[t.first]) s += "*" + vars[x.first].name + (x.second > 1 ? "^" + std::to_string(x.second) : ""); }
  if (r.den.size()) { s = "(" + s + ")/("; for (auto &d : r.den) { s += "["; for (auto &t : polys[d.first]) { s += " + " + t.second.get_str(); for (auto &x : monos[t.first]) s += "*" + vars[x.first].name + (x.second > 1 ? "^" + std::to_string(x.second) : ""); } s += "]^" + std::to_string(d.second); } s += ")"; }
  fprintf(stderr, "PRINT %s = %s\n", l, s.c_str());
}
void __sx_api_print_str(const char *s) { fprintf(stderr, "PRINT %s\n", s); }
}
// raw (un-normalised) fraction encoding of a node for z3
static std::unordered_map<u32, std::pair<z3::expr, z3::expr>> rawCache;
static bool isOne(const z3::expr &e) { return e.is_numeral() && std::string(Z3_get_numeral_string(ctx(), e)) == "1"; }
static std::pair<z3::expr, z3::expr> rawZ(u32 h) {
  auto it = rawCache.find(h); if (it != rawCache.end()) return it->second;
  Node n = nodes[h]; z3::expr one = zq(1); std::pair<z3::expr, z3::expr> r(one, one);
  auto mul = [&](const z3::expr &a, const z3::expr &b) -> z3::expr { if (isOne(a)) return b; if (isOne(b)) return a; return a * b; };
  switch (n.k) {
    case K_CONST: r = {zq(n.c), one}; break;
    case K_VAR: r = {zvar(n.a), one}; break;
    case K_NEG: { auto a = rawZ(n.a); r = {-a.first, a.second}; break; }
    case K_ADD: case K_SUB: { auto a = rawZ(n.a), b = rawZ(n.b);
      if (z3::eq(a.second, b.second)) r = {n.k == K_ADD ? a.first + b.first : a.first - b.first, a.second};
      else { z3::expr x = mul(a.first, b.second), y = mul(b.first, a.second); r = {n.k == K_ADD ? x + y : x - y, mul(a.second, b.second)}; } break; }
    case K_MUL: { auto a = rawZ(n.a), b = rawZ(n.b); r = {mul(a.first, b.first), mul(a.second, b.second)}; break; }
    case K_DIV: { auto a = rawZ(n.a), b = rawZ(n.b); r = {mul(a.first, b.second), mul(a.second, b.first)}; break; }
  }
  rawCache.emplace(h, r); return r;
}
static size_t dagSize(u32 h, std::set<u32> &seen, std::set<u32> &vs, size_t lim) {
  std::vector<u32> st{h}; while (!st.empty() && seen.size() < lim) { u32 x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; Node &n = nodes[x]; if (n.k == K_VAR) vs.insert(n.a); if (n.k >= K_ADD) { st.push_back(n.a); if (n.k != K_NEG) st.push_back(n.b); } } return seen.size();
}
static int g_rawlimit = 60;
extern "C" void __sx_api_check_eq(double a, double b, const char *label) {
  RT rt; S->checks++; S->eqchecks++;
  if (!isbox(a) && !isbox(b)) {
    if (a == b) { S->checks_dis++; return; }
    recordViolation(label, model); endpath(false);
  }
  if ((!isbox(a) && !std::isfinite(a)) || (!isbox(b) && !std::isfinite(b))) { recordViolation(label, model); endpath(false); }
  u32 ha = node(a), hb = node(b);
  if (ha == hb) { S->checks_dis++; return; }
  u32 d = mk(K_SUB, ha, hb); const RF r = nf(d);
  if (r.num.empty()) {
    // normal form says equal: let z3 confirm on the un-normalised terms when small, on the residual otherwise
    std::set<u32> seen, vs; size_t n = dagSize(d, seen, vs, g_rawlimit + 1);
    int res = -1;
    if (n <= (size_t)g_rawlimit) {
      u64 t0 = now_us();
      try {
        auto z = rawZ(d); z3::expr ne = (z.first != zq(0));
        z3::solver s = z3::tactic(ctx(), "qfnra-nlsat").mk_solver(); z3::params p(ctx()); p.set("rlimit", 400000u); s.set(p);
        for (u32 v : vs) if (vars[v].sqrtOf >= 0) { s.add(zvar(v) >= 0); s.add(zvar(v) * zvar(v) == zpoly(vars[v].sqrtOf)); }
        s.add(ne); auto q = s.check(); res = q == z3::sat ? 1 : q == z3::unsat ? 0 : -1;
      } catch (z3::exception &) { res = -1; }
      S->us += now_us() - t0; S->realq++;
      if (res == 1) { S->qsat++; inconclusive("normal form and z3 disagree"); }
      if (res == 0) { S->qunsat++; S->rawq++; }
    }
    if (res < 0) { z3::expr f = zpolyE(r.num) != zq(0); int q = solveReal({}, &f, nullptr, nullptr, nullptr); if (q != 0) inconclusive("z3 cannot discharge residual"); S->normq++; }
    S->checks_dis++; return;
  }
  Con c; c.rel = R_NE; c.f.push_back(polyIntern(r.num)); bool v;
  if (simpCon(c, v)) { if (!v) { S->checks_dis++; return; } recordViolation(label, model); endpath(false); }
  std::vector<mpq_class> m; bool ex = true;
  // prefer a witness with a visible difference
  if (modelOk && conEval(c, model, ex)) { recordViolation(label, model); }
  else if (sampleModel({c}, m, 60)) recordViolation(label, m);
  else {
    int q = solveReal({c}, nullptr, nullptr, &m, &ex);
    if (q == 0) { S->checks_dis++; S->normq++; return; }
    if (q < 0) inconclusive(std::string("solver unknown on assertion ") + label);
    recordViolation(label, m);
  }
  endpath(false);
}
extern "C" void __sx_api_inconclusive(const char *m) { inconclusive(m); }
extern "C" void __sx_api_reach(const char *l) {
  for (int i = 0; i < 64; i++) {
    if (!strcmp(S->reach[i], l)) { S->reachn[i]++; return; }
    if (!S->reach[i][0]) { strncpy(S->reach[i], l, 63); S->reachn[i]++; return; }
  }
}
// ---------------------------------------------------------------- signals, main
static std::string demangle(const char *n) { int st; char *d = abi::__cxa_demangle(n, 0, 0, &st); std::string r = d ? d : n; free(d); return r; }
static void onsig(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = (ucontext_t*)uc; void *pc_ = (void*)u->uc_mcontext.gregs[REG_RIP];
  Dl_info di; std::string where = "?"; if (dladdr(pc_, &di)) { where = di.dli_sname ? demangle(di.dli_sname) : (di.dli_fname ? di.dli_fname : "?"); if (where.size() > 200) where.resize(200); }
  char b[64]; snprintf(b, 64, " @%p", pc_);
  if (g_verbose || getenv("SX_BT")) { void *bt[60]; int n = backtrace(bt, 60); fprintf(stderr, "SIGNAL %d in %s\n", sig, where.c_str()); backtrace_symbols_fd(bt, n, 2); }
  signal(sig, SIG_DFL);
  if (sig == SIGFPE && si->si_code != FPE_INTDIV) inconclusive("uninstrumented floating point operation on a symbolic real in " + where + b);
  if (g_in_rt > 0) inconclusive("runtime crash, signal " + std::to_string(sig) + " in " + where + b);
  // crash of the code under test: candidate violation, confirmed (or not) by native replay
  g_in_rt++;
  std::string m = "crash: signal " + std::to_string(sig) + " in " + where;
  for (auto &c : m) if (c == '|' || c == '\n') c = ' ';
  S->checks++; recordViolation(m.c_str(), model);
  endpath(false);
}
extern "C" void __sx_unresolved(const char *n) { inconclusive("call into a translation unit that is not part of this harness: " + demangle(n)); }
static void onterm() {
  g_in_rt++; std::string m = "uncaught exception";
  try { if (auto p = std::current_exception()) std::rethrow_exception(p); }
  catch (std::exception &e) { m += std::string(": ") + e.what(); }
  catch (...) { if (auto *t = abi::__cxa_current_exception_type()) m += ": " + demangle(t->name()); }
  for (auto &c : m) if (c == '|' || c == '\n') c = ' ';
  if (m.size() > 300) m.resize(300);
  if (getenv("SX_BT")) { void *bt[60]; int n = backtrace(bt, 60); backtrace_symbols_fd(bt, n, 2); }
  S->checks++; recordViolation(m.c_str(), model); endpath(false);
}
static std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) r += ' '; else r += c; } return r + "\""; }

static void runHarness(H &h) {
  static char altstk[1 << 16]; stack_t ss; ss.ss_sp = altstk; ss.ss_size = sizeof(altstk); ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  for (int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  std::set_terminate(onterm);
  nodes.clear(); nodes.push_back(Node()); monoGet({}); ints(); bvs();
  g_active = true; feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_INVALID);
  S->tokens--;
  h.f();
  endpath(true);
}
int main(int argc, char **argv) {
  std::string want, out, covout, only; int jobs = 8, budget = 600; bool list = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--list") list = true; else if (a == "--only") only = argv[++i]; else if (a == "--harness") want = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--tier") g_tier = atoi(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--budget") budget = atoi(argv[++i]); else if (a == "-v") g_verbose = 1; else if (a == "--seed") { rngs ^= strtoull(argv[++i], 0, 10) * 0x9E3779B97F4A7C15ull; rnd(); } }
  if (list) { for (auto &h : hs()) printf("%s\t%d\t%s\n", h.n, h.t, h.b); return 0; }
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string js = "[";
  std::set<std::string> fns; bool first = true; int rc = 0;
  for (auto &h : hs()) {
    if (want.size() ? want != h.n : h.t > g_tier) continue;
    if (only.size() && strncmp(h.n, only.c_str(), only.size())) continue;
    memset((void*)S, 0, sizeof(Shared));
    S->tokens = jobs; auto t0 = now_us();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { setpgid(0, 0); g_root = getpid(); int fd = 2; if (!g_verbose && !getenv("SX_OUT")) { freopen("/dev/null", "w", stdout); } (void)fd; runHarness(h); }
    setpgid(p, p); bool timeout = false; int st = 0;
    for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if ((now_us() - t0) / 1000000 > (u64)budget) { timeout = true; kill(-p, SIGKILL); waitpid(p, &st, 0); break; } usleep(2000); }
    kill(-p, SIGKILL);
    if (timeout) { S->errs++; shlog("E|time budget exhausted\n"); }
    else if (WIFSIGNALED(st) || WEXITSTATUS(st)) { S->errs++; shlog("E|root path process died\n"); }
    for (auto &m : *mods) for (u64 i = 0; i < m.n; i++) if (m.base + i < sizeof(S->cov) && S->cov[m.base + i]) { std::string d = demangle((const char*)m.tab[2 * i + 1]); fns.insert(d); }
    js += std::string(first ? "" : ",") + "\n{\"harness\":" + jstr(h.n) + ",\"bounds\":" + jstr(h.b); first = false;
    auto add = [&](const char *k, u64 v) { js += std::string(",\"") + k + "\":" + std::to_string(v); };
    add("paths", S->paths); add("paths_cut", S->killed); add("forks", S->forks); add("queries", S->realq + S->bvq); add("sat", S->qsat); add("unsat", S->qunsat); add("unknown", S->qunk);
    add("real_queries", S->realq); add("bv_queries", S->bvq); add("witness_sampled", S->samp); add("checks", S->checks); add("checks_discharged", S->checks_dis); add("eq_checks", S->eqchecks); add("z3_raw_identities", S->rawq); add("z3_residual_queries", S->normq);
    add("errors", S->errs); add("violations", S->viols); add("solver_ms", S->us / 1000); add("max_poly_terms", S->maxterms); add("real_inputs", S->nreal); add("int_inputs", S->nint); add("concretisations", S->concs); add("max_depth", S->maxdepth);
    add("wall_ms", (now_us() - t0) / 1000);
    js += ",\"reach\":{"; for (int i = 0; i < 64 && S->reach[i][0]; i++) { js += std::string(i ? "," : "") + jstr(S->reach[i]) + ":" + std::to_string(S->reachn[i].load()); } js += "}";
    js += ",\"log\":["; { std::string l(S->log, std::min<u64>(S->loglen, sizeof(S->log))); bool f = true; size_t p0 = 0; int cnt = 0; while (p0 < l.size() && cnt < 400) { size_t e = l.find('\n', p0); if (e == std::string::npos) break; js += std::string(f ? "" : ",") + jstr(l.substr(p0, e - p0)); f = false; p0 = e + 1; cnt++; } } js += "]}";
    if (S->errs || S->viols) rc = 1;
  }
  js += "\n]";
  std::string fj = "["; first = true; for (auto &f : fns) { fj += std::string(first ? "" : ",\n") + jstr(f); first = false; } fj += "]";
  std::string all = "{\"harnesses\":" + js + ",\"functions\":" + fj + "}\n";
  if (out.size()) { FILE *f = fopen(out.c_str(), "w"); fwrite(all.data(), 1, all.size(), f); fclose(f); } else fputs(js.c_str(), stdout);
  return rc;
}
