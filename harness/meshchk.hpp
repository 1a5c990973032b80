#pragma once
#include "meshgen.hpp"
namespace hx {
// numbering, classes and counts of vertices and edges, compared over all ranks
template<NODE_TYPE NT> static void checknum(PMesh &p, const VVI &g, const VI &gm) { int tot = 0; for (int m : gm) if (m) tot++; for (int r = 0; r < p.np; r++) { auto &M = *p.m[r]; auto &h = *p.h[r]; int n = h.GetNEQCS(); if (!n) { sx::check(g[r].empty(), "rank without classes has no nodes"); sx::check((int)M.GetNNGlobal<NT>() == tot, "global count"); continue; }
    int mine = 0; for (int m : gm) if (has(m, r)) mine++; sx::check((int)g[r].size() == mine && (int)M.GetNN<NT>() == mine, "every node shared by the rank, no other"); sx::check((int)M.GetNNGlobal<NT>() == tot, "global count"); int en = 0, cn = 0; for (int e = 0; e < n; e++) { en += M.GetENN<NT>(e); cn += M.GetCNN<NT>(e); } sx::check(en == (int)M.GetENN<NT>() && (NT == NT_VERTEX || cn == (int)M.GetCNN<NT>()) && en + cn == mine, "counts by class");
    for (int k = 0; k < mine; k++) { int e = M.GetEQCOfNode<NT>(k); sx::check(e >= 0 && e < n, "class of a node"); sx::check(mask(vec(h.GetDistantProcs(e)), r) == gm[g[r][k]], "class is that of the sharing ranks"); int l = M.MapNodeToEQC<NT>(k); bool isE = k < en; int back; if constexpr (NT == NT_VERTEX) back = M.MapENodeFromEQC<NT>(l, e); else back = isE ? M.MapENodeFromEQC<NT>(l, e) : M.MapCNodeFromEQC<NT>(l, e); sx::check(back == k && l >= 0 && l < (int)(isE ? M.GetENN<NT>(e) : M.GetCNN<NT>(e)), "number within the class and back"); if (k && (k < en || k > en)) sx::check((int)M.GetEQCOfNode<NT>(k - 1) <= e, "ordered by class");
      if constexpr (NT == NT_EDGE) { auto ed = M.GetNode<NT_EDGE>(k); bool same = M.GetEQCOfNode<NT_VERTEX>(ed.v[0]) == M.GetEQCOfNode<NT_VERTEX>(ed.v[1]); sx::check(same == isE, "edges within a class come first"); } }
    int s = 0; for (int e = 0; e < n; e++) { auto N = M.GetENodes<NT>(e); sx::check((int)N.Size() == (int)M.GetENN<NT>(e), "nodes by class"); for (auto q : N) { sx::check((int)GetNodeId<NT>(q) == s, "nodes by class"); s++; } } if constexpr (NT == NT_EDGE) for (int e = 0; e < n; e++) { auto N = M.GetCNodes<NT>(e); sx::check((int)N.Size() == (int)M.GetCNN<NT>(e), "cross nodes by class"); for (auto q : N) { sx::check((int)q.id == s, "cross nodes by class"); s++; } }
    // same order on all ranks of the class
    for (int q = 0; q < r; q++) for (int i = 0; i < mine; i++) for (int j = 0; j < i; j++) { int a = g[r][i], b = g[r][j]; if (gm[a] != gm[b] || !has(gm[a], q)) continue; int x = std::find(g[q].begin(), g[q].end(), a) - g[q].begin(), y = std::find(g[q].begin(), g[q].end(), b) - g[q].begin(); sx::check((x > y) == (i > j), "same order on all ranks"); } } }
}
