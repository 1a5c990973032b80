// agglomerates prescribed by the harness, and coarse maps built from them
#pragma once
#include "meshchk.hpp"
#include <agglomerate_map.hpp>
namespace hx {
// an agglomerator with prescribed agglomerates: ctr[v] is the global centre of the agglomerate of v, -1 for a vertex without; own[c] the rank that holds the agglomerate of c
struct Aggs { VI ctr, own; bool rev = false, sv = false; };
class GivenAgg : public BaseAgglomerator { public: shared_ptr<BlockTM> M; const PMesh *p; const Aggs *a; int r;
  void FormAgglomerates(Array<Agglomerate> &out, Array<int> &v2a) override { int n = p->vg[r].size(); v2a.SetSize(n); v2a = -1; out.SetSize0(); VI c; for (int g = 0; g < p->nv(); g++) if (a->ctr[g] == g && a->own[g] == r) c.push_back(g); if (a->rev) std::reverse(c.begin(), c.end());
    for (int g : c) { int l = p->vl[r].at(g); out.Append(Agglomerate(l, (int)out.Size())); for (int m = 0; m < p->nv(); m++) if (a->ctr[m] == g) { int k = p->vl[r].at(m); v2a[k] = out.Size() - 1; if (m != g) out.Last().AddSort(k); } } }
 protected: BlockTM const &GetBTM() const override { return *M; } };
template<class M> class GivenMap : public AgglomerateCoarseMap<M> { public: const PMesh *p; const Aggs *a; int r; GivenMap(shared_ptr<M> m, const PMesh *ap, const Aggs *aa, int ar) : AgglomerateCoarseMap<M>(m), p(ap), a(aa), r(ar) {}
 protected: unique_ptr<BaseAgglomerator> createAgglomerator() override { auto g = make_unique<GivenAgg>(); g->M = dynamic_pointer_cast<BlockTM>(this->GetMesh()); g->p = p; g->a = a; g->r = r; return g; } };
// all agglomerations of the mesh into agglomerates that a rank can form: the ranks of a member are among those of the centre; the holder shares all members
inline Aggs anyaggs(const PMesh &p, bool sv) { Aggs a; a.sv = sv; int n = p.nv(); a.ctr.assign(n, -1); a.own.assign(n, -1); std::vector<int> isc(n); for (int v = 0; v < n; v++) isc[v] = sx::choose("role", 3); // 0 centre, 1 none, 2 member
  VI low(n); for (int v = 0; v < n; v++) low[v] = p.vm[v] & -p.vm[v]; bool any = false; for (int v = 0; v < n; v++) { if (isc[v] == 0) { a.ctr[v] = v; any = true; } else if (isc[v] == 2) { VI c; for (int u = 0; u < n; u++) if (isc[u] == 0 && (p.vm[v] & ~p.vm[u]) == 0 && (sv || low[u] == low[v])) c.push_back(u); if (c.empty()) sx::assume(false); a.ctr[v] = c[c.size() > 1 ? sx::choose("centre", c.size()) : 0]; } }
  for (int u = 0; u < n; u++) if (isc[u] == 0) { int m = p.vm[u]; for (int v = 0; v < n; v++) if (a.ctr[v] == u) m &= p.vm[v]; if (!m) sx::assume(false); a.own[u] = !sv || !sx::flag("last holder") ? __builtin_ctz(m) : 31 - __builtin_clz(m); } a.rev = p.np == 3 && !sx::tier() ? sv : sx::flag("reversed"); return a; }
template<class M> inline shared_ptr<GivenMap<M>> mk(shared_ptr<M> m, const PMesh &p, const Aggs &a, int r) { auto g = make_shared<GivenMap<M>>(m, &p, &a, r); AggOptions o; g->InitializeAgg(o, 0); return g; }
}
