// native replay runtime: values come from a file "idx name value" per line
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
struct H { const char *n, *b; void (*f)(); int t; };
static std::vector<H> &hs() { static std::vector<H> v; return v; }
static std::vector<std::pair<std::string, std::string>> vals; static size_t pos = 0;
static int viol = 0, tier = 0; static double tol = 1e-8; static const char *want = nullptr;
static const std::string &next(const char *n) {
  if (pos >= vals.size()) { static std::string z = "0"; pos++; return z; }
  if (vals[pos].first != n) { printf("REPLAY-DIVERGED at %zu: want %s have %s\n", pos, n, vals[pos].first.c_str()); fflush(stdout); _Exit(4); }
  return vals[pos++].second;
}
extern "C" {
  double __sx_api_real(const char *n) { return strtod(next(n).c_str(), nullptr); }
  void __sx_api_int(void *p, int b, const char *n, long lo, long hi) { long v = strtol(next(n).c_str(), nullptr, 10); if (v < lo) v = lo; if (v > hi) v = hi; memcpy(p, &v, b); }
  int __sx_api_choose(const char *n, int k) { int v; __sx_api_int(&v, 4, n, 0, k - 1); return v; }
  void __sx_api_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _Exit(3); } }
  void __sx_api_check(int c, const char *l) { if (!c) { printf("REPLAY-VIOLATION %s\n", l); fflush(stdout); viol++; } }
  void __sx_api_check_eq(double a, double b, const char *l) {
    double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    if (!(std::fabs(a - b) <= tol * s)) { printf("REPLAY-VIOLATION %s: %.17g != %.17g\n", l, a, b); fflush(stdout); viol++; }
  }
  void __sx_api_reach(const char *) {}
  int __sx_api_tier() { return tier; }
  int __sx_api_replay() { return 1; }
  int __sx_api_is_sym(double) { return 0; }
  void __sx_api_exact(int) {}
  static int g_fill = -1;
  void *__libc_malloc(size_t);
  void *malloc(size_t n) { void *p = __libc_malloc(n); if (g_fill >= 0 && p && n <= (1 << 20)) memset(p, g_fill, n); return p; }
  void __sx_api_heap(int v) { g_fill = v; }
  void __sx_eig_add(int, const double *, const double *) {}
  void __sx_eig_clear() {}
  void __sx_eig_any(int) {}
  void __sx_api_inconclusive(const char *) {}
  void __sx_api_print(const char *l, double v) { printf("PRINT %s %.17g\n", l, v); }
  void __sx_api_print_str(const char *s) { printf("PRINT %s\n", s); }
  void __sx_api_fail(const char *m) { printf("REPLAY-VIOLATION %s\n", m); viol++; }
  double __sx_api_sqrt(double a) { return std::sqrt(a); }
  int __sx_api_guard_begin() { return 0; }
  void __sx_unresolved(const char *n) { printf("REPLAY-UNRESOLVED %s\n", n); fflush(stdout); _Exit(5); }
  void __sx_api_register(const char *n, const char *b, void (*f)(), int t) { hs().push_back({n, b, f, t}); }
}
int main(int argc, char **argv) {
  // replay <harness> <file> [tier]
  if (argc < 3) return 64;
  if (argc > 3) tier = atoi(argv[3]); if (argc > 4) tol = 1e-5;   // models of passing paths: rounding is outside the claim
  FILE *f = fopen(argv[2], "r"); if (!f) return 65;
  char line[2048];   // the name may contain blanks
  while (fgets(line, sizeof line, f)) { std::string l(line); while (l.size() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); size_t a = l.find(' '), b = l.rfind(' '); if (a != std::string::npos && b > a) vals.push_back({l.substr(a + 1, b - a - 1), l.substr(b + 1)}); }
  fclose(f);
  for (auto &h : hs()) if (!strcmp(h.n, argv[1])) {
    h.f();
    printf("REPLAY-END violations=%d\n", viol); fflush(stdout);
    _Exit(viol ? 1 : 0);
  }
  printf("REPLAY-NO-HARNESS\n"); return 66;
}
