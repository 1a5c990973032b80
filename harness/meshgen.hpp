// distributed test meshes: global vertices with the set of ranks that share them, global edges with the ranks that list them
#pragma once
#include "fakempi.hpp"
#include <algorithm>
#include <universal_dofs.hpp>
#include <eqchierarchy.hpp>
#include <reducetable.hpp>
#include <alg_mesh.hpp>
namespace hx {
typedef std::vector<int> VI; typedef std::vector<VI> VVI; typedef std::vector<double> VD; typedef std::pair<int,int> PII;
inline bool has(int m, int r) { return m >> r & 1; }
inline VI dps(int m, int r, int np) { VI v; for (int p = 0; p < np; p++) if (p != r && has(m, p)) v.push_back(p); return v; }
inline Table<int> tab(const VVI &v) { Array<int> s(v.size()); for (size_t i = 0; i < v.size(); i++) s[i] = v[i].size(); Table<int> t(s); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) t[i][j] = v[i][j]; return t; }
template<class T> inline VI vec(FlatArray<T> a) { VI v; for (auto x : a) v.push_back(x); return v; }
inline int mask(const VI &d, int r) { int m = 1 << r; for (int p : d) m |= 1 << p; return m; }
struct PMesh {
  int np = 1; bool dummy = false; VI vm; std::vector<PII> ed; VI know;   // know: ranks that list the edge
  int nv() const { return vm.size(); } int ne() const { return ed.size(); } int em(int e) const { return vm[ed[e].first] & vm[ed[e].second]; }
  VVI vg, eg;                              // per rank: local -> global
  std::vector<std::map<int,int>> vl, el;   // per rank: global -> local
  std::vector<shared_ptr<EQCHierarchy>> h; std::vector<shared_ptr<BlockTM>> m;
  void init() { vg.resize(np); eg.resize(np); vl.resize(np); el.resize(np); h.resize(np); m.resize(np); }
  shared_ptr<BlockTM> build(int r) { VI my; VVI d; for (int v = 0; v < nv(); v++) if (has(vm[v], r)) { my.push_back(v); d.push_back(dps(vm[v], r, np)); } int n = my.size(); if (dummy) h[r] = make_shared<EQCHierarchy>(); else { auto pd = make_shared<ParallelDofs>(fmpi::world(), tab(d)); h[r] = make_shared<EQCHierarchy>(pd, true); }
    auto M = make_shared<BlockTM>(h[r]); VI sort(n, -1); Array<int> tmp; M->SetVs(n, [&](auto k) -> FlatArray<int> { tmp.SetSize(d[k].size()); for (size_t i = 0; i < d[k].size(); i++) tmp[i] = d[k][i]; return tmp; }, [&](auto i, auto j) { sort[i] = j; });
    vg[r].assign(n, -1); for (int i = 0; i < n; i++) { sx::check(sort[i] >= 0 && sort[i] < n && vg[r][sort[i]] == -1, "vertex numbering is a permutation"); vg[r][sort[i]] = my[i]; vl[r][my[i]] = sort[i]; }
    VI me; for (int e = 0; e < ne(); e++) if (has(know[e], r)) me.push_back(e); VI es(me.size(), -1); M->SetNodes<NT_EDGE>(me.size(), [&](auto k) { int a = vl[r][ed[me[k]].first], b = vl[r][ed[me[k]].second]; if (a > b) std::swap(a, b); return IVec<2,int>(a, b); }, [&](auto i, auto j) { es[i] = j; });
    auto E = M->GetNodes<NT_EDGE>(); eg[r].assign(E.Size(), -1); for (size_t k = 0; k < E.Size(); k++) { int a = vg[r][E[k].v[0]], b = vg[r][E[k].v[1]]; if (a > b) std::swap(a, b); for (int e = 0; e < ne(); e++) if (ed[e] == PII(a, b)) eg[r][k] = e; sx::check(eg[r][k] >= 0 && E[k].id == (int)k && !el[r].count(eg[r][k]), "edges are the given ones, once each"); el[r][eg[r][k]] = k; }
    for (size_t k = 0; k < me.size(); k++) sx::check(es[k] >= 0 && es[k] < (int)E.Size() && eg[r][es[k]] == me[k], "edge numbering is that of the given edges"); m[r] = M; return M; } };
inline std::vector<PII> pairs(int n) { std::vector<PII> v; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) v.push_back({i, j}); return v; }
// quick tier: two of the schedules
inline fmpi::Mode mmode(int np) { if (sx::tier()) return fmpi::mode(np); fmpi::Mode m{false, 0, false}; if (sx::flag("mpi")) { m.lazy = m.rev = true; m.first = np - 1; } return m; }
// all sharing patterns of nv vertices on np ranks; kind of edge set: 0 all, 1 path, 2 star, 3 none
inline void edges(PMesh &p, int kind, int who) { for (auto e : pairs(p.nv())) { if (kind == 3 || (kind == 1 && e.second != e.first + 1) || (kind == 2 && e.first != 0)) continue; int m = p.vm[e.first] & p.vm[e.second]; if (!m) continue; p.ed.push_back(e); p.know.push_back(who == 0 ? m : who == 1 ? (m & -m) : 1 << (31 - __builtin_clz(m))); } }
}
