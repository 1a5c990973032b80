// Harness API. Same harness source is compiled (a) instrumented, linked with sxrt.cpp (symbolic),
// (b) natively, linked with sxreplay.cpp (concrete replay of a solver model).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
  double __sx_api_real(const char *name);
  void   __sx_api_int(void *p, int bytes, const char *name, long lo, long hi);
  int    __sx_api_choose(const char *name, int k);
  void   __sx_api_assume(int c);
  void   __sx_api_check(int c, const char *label);
  void   __sx_api_check_eq(double a, double b, const char *label);
  void   __sx_api_reach(const char *label);
  int    __sx_api_tier();
  int    __sx_api_replay();
  int    __sx_api_is_sym(double a);
  void   __sx_api_exact(int on);
  void   __sx_api_heap(int v);     // fill pattern of memory the code under test allocates from now on (-1: leave alone)
  void   __sx_api_print(const char *label, double v);
  void   __sx_api_print_str(const char *s);
  void   __sx_api_fail(const char *msg);
  void   __sx_api_register(const char *name, const char *bounds, void (*f)(), int tier);
  double __sx_api_sqrt(double a);
  void   __sx_eig_add(int n, const double *v, const double *l);   // announces a symmetric eigenvalue problem: rows of v, ascending l
  void   __sx_eig_clear();
  int    __sx_api_guard_begin();   // native code allowed to touch symbolic bits (no trap) - returns old state
}
namespace sx {
  inline double real(const char *n) { return __sx_api_real(n); }
  inline int    integer(const char *n, long lo, long hi) { int v; __sx_api_int(&v, 4, n, lo, hi); return v; }
  inline long   integer64(const char *n, long lo, long hi) { long v; __sx_api_int(&v, 8, n, lo, hi); return v; }
  inline unsigned char byte(const char *n, long lo, long hi) { unsigned char v; __sx_api_int(&v, 1, n, lo, hi); return v; }
  // structural choice: forked on immediately, returned as a plain integer
  inline int    choose(const char *n, int k) { return __sx_api_choose(n, k); }
  inline bool   flag(const char *n) { return choose(n, 2) == 1; }
  inline void   assume(bool c) { __sx_api_assume(c); }
  inline void   check(bool c, const char *l) { __sx_api_check(c, l); }
  inline void   check_eq(double a, double b, const char *l) { __sx_api_check_eq(a, b, l); }
  inline void   reach(const char *l) { __sx_api_reach(l); }
  inline void   heap(int v) { __sx_api_heap(v); }
  inline int    tier() { return __sx_api_tier(); }   // 0 quick, 1 thorough
  inline bool   replay() { return __sx_api_replay(); }
}
struct SxReg { SxReg(const char *n, const char *b, void (*f)(), int t) { __sx_api_register(n, b, f, t); } };
// tier 0: run in quick+thorough, 1: thorough only
#define SX_HARNESS(name, bounds, tier) static void sxh_##name(); static SxReg sxr_##name(#name, bounds, sxh_##name, tier); static void sxh_##name()
