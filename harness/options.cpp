// PROPERTY: C18
// TUS: 
#include "common.hpp"
#include <utils.hpp>
#include <SpecOpt.hpp>
using namespace hx;
template<class T> static SpecOpt<T> mko(const char *n, int k, T (*f)(const char*)) { Array<T> a(k); for (int i = 0; i < k; i++) a[i] = f(nm(n, i)); SpecOpt<T> o(f(nm((std::string(n) + "def").c_str(), 0))); o.spec_opt.SetSize(k); for (int i = 0; i < k; i++) o.spec_opt[i] = a[i]; return o; }
static double rd(const char *n) { return sx::real(n); }
static bool rb(const char *n) { return sx::flag(n); }
SX_HARNESS(C18_level, "GetOpt(level): special value where given, default elsewhere; copy, move, assignment; up to 3 special values, levels 0 to 12", 0) {
  int k = sx::choose("k", 4), l = sx::integer("level", 0, 12), how = sx::choose("how", 5); auto o = mko<double>("o", k, rd); double e = o.default_opt; for (int i = 0; i < k; i++) if (l == i) e = o.spec_opt[i]; double d = o.default_opt;
  if (how == 0) sx::check_eq(o.GetOpt(l), e, "option of the level"); else if (how == 1) { SpecOpt<double> c(o); sx::check_eq(c.GetOpt(l), e, "copied option"); sx::check_eq(o.GetOpt(l), e, "source untouched"); } else if (how == 2) { SpecOpt<double> c(std::move(o)); sx::check_eq(c.GetOpt(l), e, "moved option"); } else if (how == 3) { auto c = mko<double>("p", sx::choose("kp", 3), rd); c = o; sx::check_eq(c.GetOpt(l), e, "assigned option"); } else { double v = sx::real("v"); o = v; sx::check_eq(o.GetOpt(l), v, "assigned value holds on all levels"); }
  (void)d; sx::reach("end"); }
SX_HARNESS(C18_or, "combining two switches level-wise: up to 2 special values each", 0) { int ka = sx::choose("ka", 3), kb = sx::choose("kb", 3); auto a = mko<bool>("a", ka, rb), b = mko<bool>("b", kb, rb); bool e[4]; for (int l = 0; l < 4; l++) e[l] = a.GetOpt(l) || b.GetOpt(l); a |= b; for (int l = 0; l < 4; l++) sx::check(a.GetOpt(l) == e[l], "on where either is on"); sx::reach("end"); }
SX_HARNESS(C18_flags_num, "numeric options from flags: default and up to 3 special values, set or not", 0) {
  Flags f; double v = sx::real("v"); bool set = sx::flag("set"); if (set) f.SetFlag("key", v); int k = sx::choose("k", 4); Array<double> a(k); for (int i = 0; i < k; i++) a[i] = sx::real(nm("s", i)); if (k) f.SetFlag("key_spec", a); double d = sx::real("d"); SpecOpt<double> o(d); o.SetFromFlags(f, "key");
  for (int l = 0; l < 5; l++) sx::check_eq(o.GetOpt(l), l < k ? a[l] : set ? v : d, "value of the level"); sx::reach("end"); }
SX_HARNESS(C18_flags_int, "integer options from flags", 0) { Flags f; int v = sx::integer("v", 0, 3); bool set = sx::flag("set"); if (set) f.SetFlag("key", double(v)); int k = sx::choose("k", 3); Array<double> a(k); int s[3]; for (int i = 0; i < k; i++) { s[i] = sx::choose(nm("s", i), 3); a[i] = s[i]; } if (k) f.SetFlag("key_spec", a); SpecOpt<int> o(17); o.SetFromFlags(f, "key"); for (int l = 0; l < 4; l++) sx::check(o.GetOpt(l) == (l < k ? s[l] : set ? v : 17), "value of the level"); sx::reach("end"); }
SX_HARNESS(C18_flags_bool, "switches from flags: unset keeps the default, set overrides it, special values per level", 0) {
  Flags f; int set = sx::choose("set", 3); if (set) f.SetFlag("key", set == 2); int k = sx::choose("k", 4); Array<double> a(k); for (int i = 0; i < k; i++) a[i] = sx::real(nm("s", i)); if (k) f.SetFlag("key_spec", a); bool d = sx::flag("d");
  if (sx::flag("xbool")) { SpecOpt<xbool> o; o.SetFromFlags(f, "key"); for (int l = 0; l < 5; l++) { xbool x = o.GetOpt(l); if (l < k) sx::check(a[l] != 0 ? x.IsTrue() : x.IsFalse(), "value of the level"); else sx::check(set == 0 ? (!x.IsTrue() && !x.IsFalse()) : set == 2 ? x.IsTrue() : x.IsFalse(), "default"); } }
  else { SpecOpt<bool> o(d); o.SetFromFlags(f, "key"); for (int l = 0; l < 5; l++) sx::check(o.GetOpt(l) == (l < k ? a[l] != 0 : set ? set == 2 : d), "value of the level"); } sx::reach("end"); }
enum EN { EA, EB, EC };
static const char *ens[4] = {"a", "b", "c", "unknown"};
SX_HARNESS(C18_flags_enum, "named choices from flags: known names select, unknown or missing names keep the default", 0) {
  Flags f; int d = sx::choose("d", 3), v = sx::choose("v", 5), k = sx::choose("k", 3), s[3]; if (v < 4) f.SetFlag("key", ens[v]); Array<string> a(k); for (int i = 0; i < k; i++) { s[i] = sx::choose(nm("s", i), 4); a[i] = ens[s[i]]; } if (k) f.SetFlag("key_spec", a); EN e = v < 3 ? EN(v) : EN(d);
  if (sx::flag("single")) { EN o = EN(d); SetEnumOpt(f, o, "key", Array<string>({"a","b","c"}), Array<EN>({EA,EB,EC})); sx::check(o == e, "named choice"); EN dd = EN(sx::choose("dd", 3)); SetEnumOpt(f, o, "key", Array<string>({"a","b","c"}), Array<EN>({EA,EB,EC}), dd); sx::check(o == (v < 3 ? EN(v) : dd), "named choice with default"); sx::reach("single"); return; }
  SpecOpt<EN> o; if (sx::flag("ctor")) { Array<string> n({"a","b","c"}); Array<EN> x({EA,EB,EC}); o = SpecOpt<EN>(f, EN(d), "key", n, x); } else { o = EN(d); o.SetFromFlagsEnum(f, "key", Array<string>({"a","b","c"}), Array<EN>({EA,EB,EC})); }
  for (int l = 0; l < 4; l++) sx::check(o.GetOpt(l) == (l < k ? (s[l] < 3 ? EN(s[l]) : e) : e), "choice of the level"); sx::reach("end"); }
SX_HARNESS(C18_flags_string, "string options from flags", 0) { Flags f; bool set = sx::flag("set"); if (set) f.SetFlag("key", "v"); int k = sx::choose("k", 3); Array<string> a(k); for (int i = 0; i < k; i++) a[i] = std::string("s") + char('0' + i); if (k) f.SetFlag("key_spec", a); SpecOpt<string> o(string("d")); o.SetFromFlags(f, "key"); for (int l = 0; l < 4; l++) sx::check(o.GetOpt(l) == (l < k ? std::string("s") + char('0' + l) : set ? "v" : "d"), "value of the level"); sx::reach("end"); }
