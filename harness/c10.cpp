// C10: all forms of one operation agree; aliasing; operands that are not assigned to stay unchanged.
#include "common.hpp"
#include <boost/numeric/interval/ext/integer.hpp>
enum Op { ADD, SUB, MUL, DIV, MIN, MAX, HULL, FMOD, NOP };
static const char *opn[] = {"add", "sub", "mul", "div", "min", "max", "hull", "fmod"};
template <class I> I bin(int op, const I &a, const I &b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; case MIN: return (bn::min)(a, b); case MAX: return (bn::max)(a, b); case HULL: return bn::hull(a, b); default: return bn::fmod(a, b); } }
template <class I> I bin_it(int op, const I &a, const T &b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; case MIN: return (bn::min)(a, b); case MAX: return (bn::max)(a, b); case HULL: return bn::hull(a, b); default: return bn::fmod(a, b); } }
template <class I> I bin_ti(int op, const T &a, const I &b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; case MIN: return (bn::min)(a, b); case MAX: return (bn::max)(a, b); case HULL: return bn::hull(a, b); default: return bn::fmod(a, b); } }
template <class I> I bin_i_int(int op, const I &a, int b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
template <class I> I bin_int_i(int op, int a, const I &b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
template <class I, class O> void cmp(int op, I &a, const O &b) { switch (op) { case ADD: a += b; break; case SUB: a -= b; break; case MUL: a *= b; break; default: a /= b; } }
template <class I> I two(int op, const T &a, const T &b) { switch (op) { case ADD: return il::add<I>(a, b); case SUB: return il::sub<I>(a, b); case MUL: return il::mul<I>(a, b); default: return il::div<I>(a, b); } }

static bool same(const Res &a, const Res &b) { if (a.threw || b.threw) return a.threw == b.threw; if (a.empty || b.empty) return a.empty == b.empty; return a.l == b.l && a.u == b.u; }
template <class I> struct Watch { // operands that must not change
  const I &a; T l, u; Watch(const I &x) : a(x), l(x.lower()), u(x.upper()) {}
  bool ok() const { return memcmp_eq(a.lower(), l) && memcmp_eq(a.upper(), u); }
  static bool memcmp_eq(const T &x, const T &y) { return (x == y && std::signbit(x) == std::signbit(y)) || (x != x && y != y); }
};
static bool mod_ok(const Iv<T> &x, const Iv<T> &y) { // domain of C09: n is an exact integer
  if (!(y.l > 0) || std::isinf(x.l) || std::isinf(x.u) || std::isinf(y.u)) return false;
  T d = x.l < 0 ? y.l : y.u; return std::fabs(x.l) / d < std::ldexp(T(1), orc::FT<T>::prec);
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); int op = (int)s.below(NOP); Iv<T> x = g.interval();
  int n = s.range(-20, 20); bool is_int = s.chance(1, 3); if (is_int && s.chance(1, 3)) n = (int)s.bits();
  T t = is_int ? (T)n : g.finite(); 
  if (is_int && (long long)t != n) is_int = false;   // not exactly representable: conversion documented as inexact
  if (op == FMOD) { t = std::fabs(t); n = std::abs(n); if (is_int) t = (T)n; }
  Iv<T> y(t, t), z = op == FMOD ? Iv<T>(orc::mn(std::fabs(x.l), std::fabs(x.u)), orc::mx(std::fabs(x.l), std::fabs(x.u))) : x;
  g.hash(x); g.hash(t); c.h(op); g.classify(x, "x"); c.label(std::string("op:") + opn[op]);
  NOTE(c, std::string(opn[op]) + " forms (" + pname<I>() + ") x=" + str(x) + " number=" + str(t) + (is_int ? " (int)" : ""));
  std::string key = std::string(opn[op]) + "|" + pname<I>();
  c.nontrivial();
  const I a = mk<I>(x), p(t); const T tc = t;
  Watch<I> wa(a), wp(p);
  // x op t
  if (op != FMOD || mod_ok(x, y)) {
    Res ref = run([&] { return bin<I>(op, a, p); });
    NOTE(c, "x op t = " + ref.s());
    auto eq = [&](const char *form, const Res &r) { PBT_CHECK(c, same(ref, r), key + "|" + form, std::string(form) + " gives " + r.s() + " but interval,interval gives " + ref.s() + " (x op number)"); };
    eq("interval,number", run([&] { return bin_it<I>(op, a, tc); }));
    if (op <= DIV) {
      eq("compound interval", run([&] { I r = a; cmp(op, r, p); return r; }));
      eq("compound number", run([&] { I r = a; cmp(op, r, tc); return r; }));
      if (is_int) { eq("interval,int", run([&] { return bin_i_int<I>(op, a, n); })); c.label("int form"); }
      if (x.l == x.u) eq("two numbers", run([&] { return two<I>(op, x.l, tc); }));
    }
  }
  // t op x
  if (op != FMOD || mod_ok(y, z)) {
    const I b = mk<I>(z);
    Res ref = run([&] { return bin<I>(op, p, b); });
    NOTE(c, "t op x = " + ref.s());
    auto eq = [&](const char *form, const Res &r) { PBT_CHECK(c, same(ref, r), key + "|" + form, std::string(form) + " gives " + r.s() + " but interval,interval gives " + ref.s() + " (number op x)"); };
    eq("number,interval", run([&] { return bin_ti<I>(op, tc, b); }));
    if (op <= DIV && is_int) eq("int,interval", run([&] { return bin_int_i<I>(op, n, b); }));
    if (op <= DIV) eq("compound, point target", run([&] { I r = p; cmp(op, r, b); return r; }));
    if (op == HULL && x.l == x.u) { eq("two numbers", run([&] { return I::hull(tc, x.l); })); eq("two numbers swapped", run([&] { return I::hull(x.l, tc); })); }
    PBT_CHECK(c, Watch<I>(b).ok(), key + "|operand", "operand changed");
  }
  PBT_CHECK(c, wa.ok() && wp.ok() && Watch<I>::memcmp_eq(tc, t), key + "|operand changed", "an operand that is not assigned to was modified");
}
PBT_PROP(forms_def, 3) { prop<IDef>(s, c); }
PBT_PROP(forms_std, 3) { prop<IStd>(s, c); }
PBT_PROP(forms_opp, 1) { prop<IOpp>(s, c); }

template <class I> void alias(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Iv<T> x = g.interval(); T t = g.finite();
  int op = (int)s.below(4), how = (int)s.below(16);
  g.hash(x); g.hash(t); c.h(op * 100 + how); g.classify(x, "x");
  static const char *hn[] = {"x op= x", "x op= x.lower()", "x op= x.upper()", "x = x op x", "x = x.lower()", "x = x.upper()", "x.assign(min, x.lower())", "x.assign(x.upper(), max)", "x.assign(x.lower(), x.upper())", "x = hull/intersect/min/max(x,x)", "x = -x", "x = x", "x = I(x.upper())", "x.assign(x.lower(), x.lower())", "x.assign(x.upper(), x.upper())", "x = t op x / x op t into itself"};
  c.label(std::string("alias:") + hn[how]);
  NOTE(c, std::string("aliasing ") + hn[how] + " op=" + opn[op] + " (" + pname<I>() + ") x=" + str(x) + " t=" + str(t));
  if ((how == 1 || how == 4 || how == 6 || how == 13) && std::isinf(x.l)) throw pbt::Discard();
  if ((how == 2 || how == 5 || how == 7 || how == 12 || how == 14) && std::isinf(x.u)) throw pbt::Discard();
  const I a = mk<I>(x), b = mk<I>(x); // distinct objects
  T l = x.l, u = x.u; T lo = -std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::max();
  Res ref, got;
  switch (how) {
    case 0: ref = run([&] { return bin<I>(op, a, b); }); got = run([&] { I r = a; cmp(op, r, r); return r; }); break;
    case 1: ref = run([&] { return bin<I>(op, a, I(l)); }); got = run([&] { I r = a; cmp(op, r, r.lower()); return r; }); break;
    case 2: ref = run([&] { return bin<I>(op, a, I(u)); }); got = run([&] { I r = a; cmp(op, r, r.upper()); return r; }); break;
    case 3: ref = run([&] { return bin<I>(op, a, b); }); got = run([&] { I r = a; r = bin<I>(op, r, r); return r; }); break;
    case 4: ref = run([&] { return I(l); }); got = run([&] { I r = a; r = r.lower(); return r; }); break;
    case 5: ref = run([&] { return I(u); }); got = run([&] { I r = a; r = r.upper(); return r; }); break;
    case 6: ref = run([&] { return I(lo, l); }); got = run([&] { I r = a; r.assign(lo, r.lower()); return r; }); break;
    case 7: ref = run([&] { return I(u, hi); }); got = run([&] { I r = a; r.assign(r.upper(), hi); return r; }); break;
    case 8: ref = run([&] { return a; }); got = run([&] { I r = a; r.assign(r.lower(), r.upper()); return r; }); break;
    case 9: ref = run([&] { return a; }); got = run([&] { I r = a; switch (op) { case 0: r = bn::hull(r, r); break; case 1: r = bn::intersect(r, r); break; case 2: r = (bn::min)(r, r); break; default: r = (bn::max)(r, r); } return r; }); break;
    case 10: ref = run([&] { return I(-u, -l); }); got = run([&] { I r = a; r = -r; return r; }); break;
    case 11: ref = run([&] { return a; }); got = run([&] { I r = a; I &r2 = r; r = r2; return r; }); break;
    case 12: ref = run([&] { return I(u); }); got = run([&] { I r = a; r = I(r.upper()); return r; }); break;
    case 13: ref = run([&] { return I(l); }); got = run([&] { I r = a; r.assign(r.lower(), r.lower()); return r; }); break;
    case 14: ref = run([&] { return I(u); }); got = run([&] { I r = a; r.assign(r.upper(), r.upper()); return r; }); break;
    default: ref = run([&] { return bin_ti<I>(op, t, a); }); got = run([&] { I r = a; r = bin_ti<I>(op, t, r); return r; }); break;
  }
  NOTE(c, "reference=" + ref.s() + " got=" + got.s());
  PBT_CHECK(c, same(ref, got), std::string("alias|") + hn[how] + "|" + (how < 4 || how == 15 ? opn[op] : "") + "|" + pname<I>(), std::string(hn[how]) + " gives " + got.s() + ", with distinct objects " + ref.s());
  c.nontrivial(x.l != x.u);
}
PBT_PROP(alias_def, 2) { alias<IDef>(s, c); }
PBT_PROP(alias_std, 2) { alias<IStd>(s, c); }
