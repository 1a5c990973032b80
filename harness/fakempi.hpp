// In-process MPI: every rank is a coroutine of the harness process, all MPI functions are implemented here (and, like everything in a
// harness, executed symbolically, so symbolic data can travel in messages). Sends/receives obey MPI matching rules; two delivery modes:
//   eager: data is copied at the (I)Send and delivered as soon as a matching receive is posted
//   lazy : a non-blocking send's buffer is read as late as MPI permits (its own Wait, or when the receiver completes), receive buffers are
//          written when the receiver or the sender waits, blocking sends only return once received
// A state in which no rank can proceed is a violation, as are mismatched collectives, truncated messages and messages never received.
#pragma once
#include "common.hpp"
#include <ucontext.h>
#include <functional>
#include <map>
#include <deque>
#include <cstring>
namespace fmpi {
using namespace ngcore;
typedef std::vector<char> Buf;
struct Type { size_t size, ext; int base; std::vector<std::pair<size_t,size_t>> blk; };   // blk: (offset, bytes) of one element
enum { T_CHAR = 1, T_SHORT, T_INT, T_U64, T_DOUBLE, T_FLOAT, T_BOOL, T_CPLX, T_FIRST };
struct Req { bool send = false, done = false, freed = false, persistent = false, active = false, matched = false; void *buf = nullptr; int n = 0; size_t t = 0; int peer = 0, tag = 0; uintptr_t comm = 0; int me = 0; Buf data; size_t got = 0; int gsrc = -1, gtag = -1; };
struct Comm { std::vector<int> mem; };   // world ranks
struct Coll { int arrived = 0, left = 0; std::string what; std::vector<Buf> in; Buf out; };
struct World {
  int np = 1, cur = -1; bool lazy = false, rev = false; std::vector<ucontext_t> ctx; ucontext_t main; std::vector<char*> stk; std::vector<int> fin; long progress = 0;
  std::vector<Type> types; std::vector<Comm> comms; std::vector<Req*> reqs; std::map<std::pair<uintptr_t,long>, Coll*> colls; std::map<std::pair<int,uintptr_t>, long> seq; std::map<std::vector<long>, uintptr_t> mk; std::vector<std::vector<int>> groups;
  std::vector<Req*> flight;   // posted sends and receives in posting order
  std::function<void(int)> body; std::string err; };
inline World *&W() { static World *w = nullptr; return w; }
inline void die(const char *s) { sx::check(false, s); throw Exception(std::string("fake MPI: ") + s); }
inline void yield() { World &w = *W(); if (w.cur < 0) die("MPI call blocks outside of a rank"); swapcontext(&w.ctx[w.cur], &w.main); }
template<class F> inline void block(F ready) { while (!ready()) yield(); W()->progress++; }
inline Type &ty(size_t t) { World &w = *W(); if (t >= w.types.size() || t == 0) die("valid MPI datatype"); return w.types[t]; }
inline int myrank(uintptr_t c) { World &w = *W(); if (c == 0 || c >= w.comms.size()) die("valid communicator"); for (size_t i = 0; i < w.comms[c].mem.size(); i++) if (w.comms[c].mem[i] == w.cur) return i; die("rank belongs to the communicator it uses"); return -1; }
inline int csize(uintptr_t c) { if (c == 0 || c >= W()->comms.size()) die("valid communicator"); return W()->comms[c].mem.size(); }
inline Buf pack(const void *p, int n, size_t t) { Type &T = ty(t); Buf b(T.size * (size_t)n); size_t k = 0; for (int i = 0; i < n; i++) for (auto &bl : T.blk) { memcpy(b.data() + k, (const char*)p + i * T.ext + bl.first, bl.second); k += bl.second; } return b; }
inline void unpack(const Buf &b, size_t off, void *p, int n, size_t t) { Type &T = ty(t); size_t k = off, e = b.size(); for (int i = 0; i < n; i++) for (auto &bl : T.blk) { if (k >= e) return; memcpy((char*)p + i * T.ext + bl.first, b.data() + k, bl.second); k += bl.second; } }
inline size_t newtype(Type t) { W()->types.push_back(t); return W()->types.size() - 1; }
inline size_t basic(size_t s, int b) { Type t; t.size = t.ext = s; t.base = b; t.blk = {{0, s}}; return newtype(t); }
// --- point to point
inline void deliver(Req *r, Req *s) { Type &T = ty(r->t); Buf b = W()->lazy && s->n >= 0 ? pack(s->buf, s->n, s->t) : s->data; if (b.size() > T.size * (size_t)r->n) die("message fits into the receive buffer"); unpack(b, 0, r->buf, r->n, r->t); r->got = b.size(); s->done = true; r->done = true; W()->progress++; }
inline void progress_all() { World &w = *W();   // match posted sends and receives, in order
  for (size_t i = 0; i < w.flight.size(); i++) { Req *r = w.flight[i]; if (r->send || r->matched) continue; for (size_t j = 0; j < w.flight.size(); j++) { Req *s = w.flight[j]; if (!s->send || s->matched || s->comm != r->comm) continue; if (s->peer != r->me || (r->peer != -1 && r->peer != s->me) || (r->tag != -1 && r->tag != s->tag)) continue;
      r->matched = s->matched = true; r->gsrc = s->me; r->gtag = s->tag; if (!w.lazy) deliver(r, s); else { Req *a = r, *b = s; a->data.clear(); a->got = 0; /* completed at wait */ w.mk[{-1, (long)(size_t)a}] = (uintptr_t)b; w.mk[{-1, (long)(size_t)b}] = (uintptr_t)a; } break; } }
  std::vector<Req*> f; for (auto q : w.flight) if (!q->done) f.push_back(q); w.flight.swap(f); }
inline Req *newreq(bool send, void *buf, int n, size_t t, int peer, int tag, uintptr_t c) { Req *r = new Req; r->send = send; r->buf = buf; r->n = n; r->t = t; r->peer = peer; r->tag = tag; r->comm = c; r->me = myrank(c); if (n < 0) die("message size"); ty(t); if (peer != -1 && (peer < 0 || peer >= csize(c))) die("message partner is a rank of the communicator"); if (send && peer == -1) die("message partner"); return r; }
inline void start(Req *r) { World &w = *W(); r->active = true; r->done = r->matched = false; if (r->send && !w.lazy) { r->data = pack(r->buf, r->n, r->t); r->done = false; } w.flight.push_back(r);
  if (r->send && !w.lazy) { /* buffered: complete for the sender at once, the flight entry keeps a copy */ Req *c = new Req(*r); c->freed = true; w.flight.back() = c; c->buf = nullptr; struct X { static void setd(Req *q) { q->done = true; } }; X::setd(r); }
  w.progress++; progress_all(); }
inline bool ready(Req *r) { World &w = *W(); progress_all(); if (r->done) return true; if (!w.lazy) return false; return r->matched; }
inline void complete(Req *r) { World &w = *W(); if (r->done) return; auto it = w.mk.find({-1, (long)(size_t)r}); if (it == w.mk.end()) die("request"); Req *s = (Req*)it->second; w.mk.erase(it); w.mk.erase({-1, (long)(size_t)s}); if (r->send) deliver(s, r); else deliver(r, s); progress_all(); }
inline int addreq(Req *r, NG_MPI_Request *q) { W()->reqs.push_back(r); q->value = W()->reqs.size(); return 0; }   // handles are index + 1; 0 is the null request
inline Req *getreq(NG_MPI_Request *q) { if (q->value == 0) return nullptr; if (q->value > W()->reqs.size() || !W()->reqs[q->value - 1]) die("valid MPI request"); return W()->reqs[q->value - 1]; }
inline void finish(NG_MPI_Request *q, Req *r) { if (r->persistent) { r->active = false; return; } W()->reqs[q->value - 1] = nullptr; q->value = 0; }
inline bool idle(Req *r) { return !r || (r->persistent && !r->active); }
inline int Isend(void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *q) { Req *r = newreq(true, b, n, t.value, p, tag, c.value); start(r); return addreq(r, q); }
inline int Irecv(void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *q) { Req *r = newreq(false, b, n, t.value, p, tag, c.value); start(r); return addreq(r, q); }
inline int Send_init(void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *q) { Req *r = newreq(true, b, n, t.value, p, tag, c.value); r->persistent = true; return addreq(r, q); }
inline int Recv_init(void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Request *q) { Req *r = newreq(false, b, n, t.value, p, tag, c.value); r->persistent = true; return addreq(r, q); }
inline int Startall(int n, NG_MPI_Request *q) { for (int i = 0; i < n; i++) { Req *r = getreq(q + i); if (!r || !r->persistent || r->active) die("persistent request started while inactive"); if (W()->lazy || !r->send) start(r); else start(r); } return 0; }
inline int Wait(NG_MPI_Request *q, NG_MPI_Status *st) { Req *r = getreq(q); if (idle(r)) return 0; block([&]() { return ready(r); }); complete(r); finish(q, r); return 0; }
inline int Waitall(int n, NG_MPI_Request *q, NG_MPI_Status *st) { World &w = *W(); std::vector<int> left; for (int i = 0; i < n; i++) if (!idle(getreq(q + i))) left.push_back(i);
  while (left.size()) { std::vector<int> nl; for (int k : left) { Req *r = getreq(q + k); if (ready(r)) { complete(r); finish(q + k, r); } else nl.push_back(k); } if (nl.size() == left.size()) yield(); left.swap(nl); } w.progress++; return 0; }
inline int Waitany(int n, NG_MPI_Request *q, int *which, NG_MPI_Status *st) { bool any = false; for (int i = 0; i < n; i++) if (!idle(getreq(q + i))) any = true; if (!any) { *which = -32766; return 0; } int hit = -1;
  block([&]() { for (int k = 0; k < n; k++) { int i = W()->rev ? n - 1 - k : k; Req *r = getreq(q + i); if (!idle(r) && ready(r)) { hit = i; return true; } } return false; }); Req *r = getreq(q + hit); complete(r); finish(q + hit, r); *which = hit; return 0; }
inline int Request_free(NG_MPI_Request *q) { Req *r = getreq(q); if (!r) die("valid request freed"); r->freed = true; if (r->send && !r->done && !r->persistent && W()->lazy) { r->data = pack(r->buf, r->n, r->t); r->n = -1; } if (r->persistent && r->active && !r->done) die("active persistent request freed"); W()->reqs[q->value - 1] = nullptr; q->value = 0; return 0; }
inline int Send(void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c) { NG_MPI_Request q; Isend(b, n, t, p, tag, c, &q); return Wait(&q, nullptr); }
inline int Recv(void *b, int n, NG_MPI_Datatype t, int p, int tag, NG_MPI_Comm c, NG_MPI_Status *s) { NG_MPI_Request q; Irecv(b, n, t, p, tag, c, &q); return Wait(&q, s); }
inline bool probe1(int src, int tag, uintptr_t c, NG_MPI_Status *st) { World &w = *W(); progress_all(); int me = myrank(c); for (size_t j = 0; j < w.flight.size(); j++) { Req *s = w.flight[j]; if (!s->send || s->matched || s->comm != c || s->peer != me || (src != -1 && src != s->me) || (tag != -1 && tag != s->tag)) continue; st->data[0] = s->me; st->data[1] = s->tag; st->data[2] = w.lazy && s->n >= 0 ? ty(s->t).size * s->n : s->data.size(); return true; } return false; }
inline int Probe(int src, int tag, NG_MPI_Comm c, NG_MPI_Status *st) { block([&]() { return probe1(src, tag, c.value, st); }); return 0; }
inline int Iprobe(int src, int tag, NG_MPI_Comm c, int *f, NG_MPI_Status *st) { *f = probe1(src, tag, c.value, st); if (!*f) yield(); return 0; }
inline int Get_count(NG_MPI_Status *st, NG_MPI_Datatype t, int *n) { *n = st->data[2] / ty(t.value).size; return 0; }
// --- collectives: contributions are collected; nobody leaves before everybody has entered
inline void coll(const char *what, uintptr_t c, const Buf &in, std::function<void(std::vector<Buf>&)> use) { World &w = *W(); int me = myrank(c), n = csize(c); long k = w.seq[{w.cur, c}]++; Coll *&co = w.colls[{c, k}]; if (!co) { co = new Coll; co->in.resize(n); co->what = what; } Coll *q = co;
  if (q->what != what) die("all ranks make the same collective call"); q->in[me] = in; q->arrived++; w.progress++; block([&]() { return q->arrived == n; }); use(q->in); if (++q->left == n) { w.colls.erase({c, k}); delete q; } }
inline void red(char *a, const char *b, int base, uintptr_t op) {
#define FM_OP(T) { T x, y; memcpy(&x, a, sizeof(T)); memcpy(&y, b, sizeof(T)); T z = op == 1 ? (T)(x + y) : op == 2 ? (x > y ? x : y) : op == 3 ? (x < y ? x : y) : (T)(x || y); memcpy(a, &z, sizeof(T)); }
  if (base == T_INT) FM_OP(int) else if (base == T_U64) FM_OP(uint64_t) else if (base == T_DOUBLE) FM_OP(double) else if (base == T_CHAR) FM_OP(char) else if (base == T_BOOL) FM_OP(bool) else if (base == T_SHORT) FM_OP(short) else die("reduction on a basic datatype"); }
#undef FM_OP
inline Buf reduceall(std::vector<Buf> &in, size_t t, uintptr_t op) { Buf r = in[0]; size_t s = ty(t).size; for (size_t k = 1; k < in.size(); k++) { if (in[k].size() != r.size()) die("same reduction size on all ranks"); for (size_t o = 0; o < r.size(); o += s) red(r.data() + o, in[k].data() + o, ty(t).base, op); } return r; }
inline void *inplace() { return (void*)(size_t)0x77; }
inline int Barrier(NG_MPI_Comm c) { coll("Barrier", c.value, Buf(), [](std::vector<Buf>&) {}); return 0; }
inline int Allreduce(void *a, void *b, int n, NG_MPI_Datatype t, NG_MPI_Op op, NG_MPI_Comm c) { coll("Allreduce", c.value, pack(a == inplace() ? b : a, n, t.value), [&](std::vector<Buf> &in) { unpack(reduceall(in, t.value, op.value), 0, b, n, t.value); }); return 0; }
inline int Reduce(void *a, void *b, int n, NG_MPI_Datatype t, NG_MPI_Op op, int root, NG_MPI_Comm c) { int me = myrank(c.value); coll("Reduce", c.value, pack(a == inplace() ? b : a, n, t.value), [&](std::vector<Buf> &in) { if (me == root) unpack(reduceall(in, t.value, op.value), 0, b, n, t.value); }); return 0; }
inline int Bcast(void *a, int n, NG_MPI_Datatype t, int root, NG_MPI_Comm c) { int me = myrank(c.value); coll("Bcast", c.value, me == root ? pack(a, n, t.value) : Buf(), [&](std::vector<Buf> &in) { if (in[root].size() != ty(t.value).size * n) die("same broadcast size on all ranks"); if (me != root) unpack(in[root], 0, a, n, t.value); }); return 0; }
inline int Gather(void *a, int n, NG_MPI_Datatype t, void *b, int m, NG_MPI_Datatype u, int root, NG_MPI_Comm c) { int me = myrank(c.value); Buf mine = a == inplace() ? Buf() : pack(a, n, t.value); coll("Gather", c.value, mine, [&](std::vector<Buf> &in) { if (me == root) for (size_t k = 0; k < in.size(); k++) { if ((int)k == me && a == inplace()) continue; if (in[k].size() != ty(u.value).size * m) die("gathered size"); unpack(in[k], 0, (char*)b + k * m * ty(u.value).ext, m, u.value); } }); return 0; }
inline int Gatherv(void *a, int n, NG_MPI_Datatype t, void *b, int *m, int *d, NG_MPI_Datatype u, int root, NG_MPI_Comm c) { int me = myrank(c.value); Buf mine = a == inplace() ? Buf() : pack(a, n, t.value); coll("Gatherv", c.value, mine, [&](std::vector<Buf> &in) { if (me == root) for (size_t k = 0; k < in.size(); k++) { if ((int)k == me && a == inplace()) continue; if (in[k].size() > ty(u.value).size * m[k]) die("gathered size"); unpack(in[k], 0, (char*)b + d[k] * ty(u.value).ext, m[k], u.value); } }); return 0; }
inline int Scatter(void *a, int n, NG_MPI_Datatype t, void *b, int m, NG_MPI_Datatype u, int root, NG_MPI_Comm c) { int me = myrank(c.value); coll("Scatter", c.value, me == root ? pack(a, n * csize(c.value), t.value) : Buf(), [&](std::vector<Buf> &in) { if (b == inplace() && me == root) return; if (in[root].size() != ty(u.value).size * m * csize(c.value)) die("scattered size"); unpack(in[root], me * m * ty(u.value).size, b, m, u.value); }); return 0; }
inline int Allgather(void *a, int n, NG_MPI_Datatype t, void *b, int m, NG_MPI_Datatype u, NG_MPI_Comm c) { int me = myrank(c.value); coll("Allgather", c.value, a == inplace() ? pack((char*)b + me * m * ty(u.value).ext, m, u.value) : pack(a, n, t.value), [&](std::vector<Buf> &in) { for (size_t k = 0; k < in.size(); k++) { if (in[k].size() != ty(u.value).size * m) die("gathered size"); unpack(in[k], 0, (char*)b + k * m * ty(u.value).ext, m, u.value); } }); return 0; }
inline int Alltoall(void *a, int n, NG_MPI_Datatype t, void *b, int m, NG_MPI_Datatype u, NG_MPI_Comm c) { int me = myrank(c.value); coll("Alltoall", c.value, pack(a, n * csize(c.value), t.value), [&](std::vector<Buf> &in) { for (size_t k = 0; k < in.size(); k++) unpack(in[k], me * m * ty(u.value).size, (char*)b + k * m * ty(u.value).ext, m, u.value); }); return 0; }
// --- communicators, groups, datatypes
inline int Initialized(int *f) { *f = 1; return 0; }
inline int Comm_rank(NG_MPI_Comm c, int *r) { *r = myrank(c.value); return 0; }
inline int Comm_size(NG_MPI_Comm c, int *r) { *r = csize(c.value); return 0; }
inline int Comm_free(NG_MPI_Comm *) { return 0; }
inline int Comm_group(NG_MPI_Comm c, NG_MPI_Group *g) { csize(c.value); W()->groups.push_back(W()->comms[c.value].mem); g->value = W()->groups.size() - 1; return 0; }
inline int Group_incl(NG_MPI_Group g, int n, int *r, NG_MPI_Group *o) { auto v = W()->groups.at(g.value); std::vector<int> u; for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= (int)v.size()) die("group members"); for (int x : u) if (x == v[r[i]]) die("group members are distinct"); u.push_back(v[r[i]]); } W()->groups.push_back(u); o->value = W()->groups.size() - 1; return 0; }
inline int mkcomm(const std::vector<int> &g, uintptr_t parent, long tag, NG_MPI_Comm *o) { World &w = *W(); bool in = false; for (int r : g) if (r == w.cur) in = true; if (!in) { o->value = 0; return 0; } long k = w.seq[{w.cur, (1ul << 40) + parent * 1000003 + tag}]++; std::vector<long> key{(long)parent, tag, k}; for (int r : g) key.push_back(r); auto it = w.mk.find(key); if (it == w.mk.end()) { Comm c; c.mem = g; w.comms.push_back(c); w.mk[key] = w.comms.size() - 1; o->value = w.comms.size() - 1; } else o->value = it->second; return 0; }
inline int Comm_create(NG_MPI_Comm c, NG_MPI_Group g, NG_MPI_Comm *o) { coll("Comm_create", c.value, Buf(), [](std::vector<Buf>&) {}); return mkcomm(W()->groups.at(g.value), c.value, -1, o); }
inline int Comm_create_group(NG_MPI_Comm c, NG_MPI_Group g, int tag, NG_MPI_Comm *o) { mkcomm(W()->groups.at(g.value), c.value, tag, o); if (o->value) Barrier(*o); return 0; }
inline int Type_contiguous(int n, NG_MPI_Datatype t, NG_MPI_Datatype *o) { Type T = ty(t.value), R; R.size = T.size * n; R.ext = T.ext * n; R.base = 0; for (int i = 0; i < n; i++) for (auto b : T.blk) R.blk.push_back({b.first + i * T.ext, b.second}); o->value = newtype(R); return 0; }
inline int Type_create_struct(int n, int *bl, NG_MPI_Aint *d, NG_MPI_Datatype *t, NG_MPI_Datatype *o) { Type R; R.size = R.ext = 0; R.base = 0; for (int i = 0; i < n; i++) { Type T = ty(t[i].value); for (int k = 0; k < bl[i]; k++) for (auto b : T.blk) { size_t of = d[i].value + k * T.ext + b.first; R.blk.push_back({of, b.second}); R.size += b.second; if (of + b.second > R.ext) R.ext = of + b.second; } } size_t al = 1; for (auto b : R.blk) al = std::max(al, std::min<size_t>(b.second, 8)); R.ext = (R.ext + al - 1) / al * al; o->value = newtype(R); return 0; }
inline int Type_create_resized(NG_MPI_Datatype t, NG_MPI_Aint lb, NG_MPI_Aint e, NG_MPI_Datatype *o) { Type R = ty(t.value); R.ext = e.value; o->value = newtype(R); return 0; }
inline int Type_indexed(int n, int *bl, int *d, NG_MPI_Datatype t, NG_MPI_Datatype *o) { Type T = ty(t.value), R; R.size = R.ext = 0; R.base = 0; for (int i = 0; i < n; i++) for (int k = 0; k < bl[i]; k++) for (auto b : T.blk) { size_t of = (d[i] + k) * T.ext + b.first; R.blk.push_back({of, b.second}); R.size += b.second; if (of + b.second > R.ext) R.ext = of + b.second; } o->value = newtype(R); return 0; }
inline int Type_commit(NG_MPI_Datatype *) { return 0; }
inline int Type_free(NG_MPI_Datatype *) { return 0; }
inline int Type_size(NG_MPI_Datatype t, int *s) { *s = ty(t.value).size; return 0; }
inline int Type_get_extent(NG_MPI_Datatype t, NG_MPI_Aint *l, NG_MPI_Aint *e) { l->value = 0; e->value = ty(t.value).ext; return 0; }
inline void install() { static bool once = false; if (once) return; once = true; World *w = new World; W() = w; w->types.resize(1); w->comms.resize(2); w->comms[1].mem = {0};
  NG_MPI_COMM_WORLD = uintptr_t(1); NG_MPI_CHAR = uintptr_t(basic(1, T_CHAR)); NG_MPI_SHORT = uintptr_t(basic(2, T_SHORT)); NG_MPI_INT = uintptr_t(basic(4, T_INT)); NG_MPI_UINT64_T = uintptr_t(basic(8, T_U64)); NG_MPI_DOUBLE = uintptr_t(basic(8, T_DOUBLE)); NG_MPI_FLOAT = uintptr_t(basic(4, T_FLOAT)); NG_MPI_C_BOOL = uintptr_t(basic(1, T_BOOL)); NG_MPI_CXX_DOUBLE_COMPLEX = uintptr_t(basic(16, T_CPLX));
  NG_MPI_SUM = uintptr_t(1); NG_MPI_MAX = uintptr_t(2); NG_MPI_MIN = uintptr_t(3); NG_MPI_LOR = uintptr_t(4); NG_MPI_REQUEST_NULL = uintptr_t(0); NG_MPI_ANY_SOURCE = -1; NG_MPI_ANY_TAG = -1; NG_MPI_IN_PLACE = inplace(); NG_MPI_STATUS_IGNORE = nullptr; NG_MPI_STATUSES_IGNORE = nullptr; NG_MPI_PROC_NULL = -2;
  NG_MPI_Isend = Isend; NG_MPI_Irecv = Irecv; NG_MPI_Send = Send; NG_MPI_Recv = Recv; NG_MPI_Send_init = Send_init; NG_MPI_Recv_init = Recv_init; NG_MPI_Startall = Startall; NG_MPI_Wait = Wait; NG_MPI_Waitall = Waitall; NG_MPI_Waitany = Waitany; NG_MPI_Request_free = Request_free; NG_MPI_Probe = Probe; NG_MPI_Iprobe = Iprobe; NG_MPI_Get_count = Get_count;
  NG_MPI_Barrier = Barrier; NG_MPI_Allreduce = Allreduce; NG_MPI_Reduce = Reduce; NG_MPI_Bcast = Bcast; NG_MPI_Gather = Gather; NG_MPI_Gatherv = Gatherv; NG_MPI_Scatter = Scatter; NG_MPI_Allgather = Allgather; NG_MPI_Alltoall = Alltoall;
  NG_MPI_Initialized = Initialized; NG_MPI_Comm_rank = Comm_rank; NG_MPI_Comm_size = Comm_size; NG_MPI_Comm_free = Comm_free; NG_MPI_Comm_group = Comm_group; NG_MPI_Group_incl = Group_incl; NG_MPI_Comm_create = Comm_create; NG_MPI_Comm_create_group = Comm_create_group;
  NG_MPI_Type_contiguous = Type_contiguous; NG_MPI_Type_create_struct = Type_create_struct; NG_MPI_Type_create_resized = Type_create_resized; NG_MPI_Type_indexed = Type_indexed; NG_MPI_Type_commit = Type_commit; NG_MPI_Type_free = Type_free; NG_MPI_Type_size = Type_size; NG_MPI_Type_get_extent = Type_get_extent; }
inline void entry() { World &w = *W(); int me = w.cur; try { w.body(me); } catch (const Exception &e) { w.err = e.What(); } catch (const std::exception &e) { w.err = e.what(); } w.fin[me] = 1; w.progress++; for (;;) swapcontext(&w.ctx[me], &w.main); }
// run body(rank) on np ranks; order: a rotation of the ranks (0..np-1), the first to run first
inline void run(int np, std::function<void(int)> body, bool lazy = false, int first = 0, bool rev = false) { install(); World &w = *W(); w.np = np; w.lazy = lazy; w.rev = rev; w.body = body; w.ctx.resize(np); w.stk.resize(np); w.fin.assign(np, 0); w.comms.resize(2); w.comms[1].mem.clear(); for (int i = 0; i < np; i++) w.comms[1].mem.push_back(i); w.seq.clear(); w.mk.clear(); w.flight.clear(); w.err = "";
  for (int i = 0; i < np; i++) { w.stk[i] = (char*)malloc(1 << 21); getcontext(&w.ctx[i]); w.ctx[i].uc_stack.ss_sp = w.stk[i]; w.ctx[i].uc_stack.ss_size = 1 << 21; w.ctx[i].uc_link = nullptr; makecontext(&w.ctx[i], (void(*)())entry, 0); }
  for (;;) { long p = w.progress; bool all = true; for (int k = 0; k < np; k++) { int i = (first + k) % np; if (rev) i = (first + np - k) % np; if (w.fin[i]) continue; w.cur = i; swapcontext(&w.main, &w.ctx[i]); w.cur = -1; if (!w.fin[i]) all = false; if (w.err.size()) throw Exception(w.err); } if (all) break; if (w.progress == p) { sx::check(false, "no rank waits forever"); throw Exception("deadlock"); } }
  for (auto q : w.flight) if (q->send) { sx::check(false, "every message sent is received"); break; } for (int i = 0; i < np; i++) free(w.stk[i]); }
// the delivery mode is a structural choice
struct Mode { bool lazy; int first; bool rev; };
inline Mode mode(int np) { Mode m; int k = sx::choose("mpi", sx::tier() ? 2 * np + 1 : 3); m.lazy = k & 1; m.first = k == 0 ? 0 : k == 1 ? np - 1 : (k / 2) % np; m.rev = k == 2 || k > np; return m; }
inline void run(int np, Mode m, std::function<void(int)> body) { run(np, body, m.lazy, m.first, m.rev); }
inline amg::NgsAMG_Comm world() { return amg::NgsAMG_Comm(NG_MPI_COMM_WORLD, false); }
}
