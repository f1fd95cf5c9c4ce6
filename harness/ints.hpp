// Comparisons and set functions over built-in integer base types (signed and unsigned), including the ends of their ranges.
#pragma once
#include "families.hpp"
#include "pbt.hpp"
#include <limits>
namespace ints {
namespace b = boost::numeric; namespace l = boost::numeric::interval_lib;
template <class T> const char *tn() { return std::is_same<T, int>::value ? "int" : std::is_same<T, unsigned>::value ? "unsigned" : std::is_same<T, long long>::value ? "long long" : std::is_same<T, signed char>::value ? "signed char" : "?"; }
template <class T> struct IV { T l, u; bool e; std::string s() const { return e ? "empty" : "[" + std::to_string(l) + "," + std::to_string(u) + "]"; } };
template <class T> struct Ops { IV<T> x, y; T t; bool empties; };
template <class T> Ops<T> gen(pbt::Src &s, pbt::Ctx &c) {
  Ops<T> o; o.empties = s.coin(); T a[6]; int n = 0; const T mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
  auto num = [&]() -> T { T r; switch (s.weighted({4, 4, 2, 2, 1})) { case 0: r = n ? a[s.below(n)] : T(0); break; case 1: r = n ? a[s.below(n)] : T(1); if (s.coin()) { if (r < mx) r++; } else if (r > mn) r--; break; case 2: r = s.coin() ? mn : mx; break; case 3: r = (T)s.below(5); break; default: r = (T)s.bits(); } if (n < 6) a[n++] = r; c.h((uint64_t)r); return r; };
  auto iv = [&]() -> IV<T> { if (o.empties && s.chance(1, 12)) return {T(1), T(0), true}; T p = num(), q = s.chance(1, 5) ? p : num(); if (q < p) std::swap(p, q); return {p, q, false}; };
  o.x = iv(); o.y = s.chance(1, 10) ? o.x : iv(); o.t = num(); c.h(o.empties + 2 * o.x.e + 4 * o.y.e); c.nontrivial(); c.label(std::string("over ") + tn<T>());
  NOTE(c, std::string(tn<T>()) + (o.empties ? " (empties allowed)" : " (default policies)") + " x=" + o.x.s() + " y=" + o.y.s() + " t=" + std::to_string(o.t)); return o;
}
template <class T, class F> void with(pbt::Src &s, pbt::Ctx &c, F f) {
  Ops<T> o = gen<T>(s, c); auto mk = [](auto z, const IV<T> &v) { typedef decltype(z) I; return v.e ? I::empty() : I(v.l, v.u); };
  if (o.empties) { typedef b::interval<T, l::policies<l::rounded_math<T>, l::checking_base<T>>> I; f(o, mk(I(), o.x), mk(I(), o.y)); } else { typedef b::interval<T> I; f(o, mk(I(), o.x), mk(I(), o.y)); }
}
// the families whose name starts with one of the prefixes
template <class T> void compare(pbt::Src &s, pbt::Ctx &c, std::initializer_list<const char *> pre) {
  with<T>(s, c, [&](const Ops<T> &o, const auto &X, const auto &Y) {
    fam::all(X, Y, o.t, o.x.e, o.x.l, o.x.u, o.y.e, o.y.l, o.y.u, o.t, [&](const std::string &name, int want, int got) {
      bool mine = false; for (const char *p : pre) mine = mine || name.compare(0, std::char_traits<char>::length(p), p) == 0;
      if (mine) PBT_CHECK(c, want == got, std::string(tn<T>()) + "|" + name, name + " for x=" + o.x.s() + " y=" + o.y.s() + " t=" + std::to_string(o.t) + " gives " + fam::ansn[got] + ", expected " + fam::ansn[want]); }); });
}
template <class T> void sets(pbt::Src &s, pbt::Ctx &c) {
  with<T>(s, c, [&](const Ops<T> &o, const auto &X, const auto &Y) {
    typedef std::decay_t<decltype(X)> I; const IV<T> &x = o.x, &y = o.y; T t = o.t; std::string w = " for x=" + x.s() + " y=" + y.s() + " t=" + std::to_string(t), n = std::string(tn<T>()) + "|";
    auto is = [&](const char *op, auto f, IV<T> e) { IV<T> g; bool threw = false; try { I r = f(); g = {r.lower(), r.upper(), b::empty(r)}; } catch (const std::runtime_error &) { threw = true; }
      bool ok = e.e && !o.empties ? threw : !threw && (e.e ? g.e : !g.e && g.l == e.l && g.u == e.u); PBT_CHECK(c, ok, n + op, std::string(op) + w + " gives " + (threw ? "the creation error" : g.s()) + ", expected " + e.s()); };
    auto yes = [&](const char *op, bool want, auto f) { bool g = false, threw = false; try { g = f(); } catch (const std::exception &) { threw = true; } PBT_CHECK(c, !threw && g == want, n + op, std::string(op) + w + (threw ? " threw" : " is wrong")); };
    const IV<T> none{T(1), T(0), true}; auto hull = [&](const IV<T> &p, const IV<T> &q) -> IV<T> { return p.e ? q : q.e ? p : IV<T>{std::min(p.l, q.l), std::max(p.u, q.u), false}; };
    IV<T> in = x.e || y.e ? none : IV<T>{std::max(x.l, y.l), std::min(x.u, y.u), false}; if (!in.e && in.u < in.l) in = none; IV<T> p{t, t, false};
    is("intersect", [&] { return b::intersect(X, Y); }, in); is("hull", [&] { return b::hull(X, Y); }, hull(x, y)); is("hull(x,t)", [&] { return b::hull(X, t); }, hull(x, p)); is("hull(t,x)", [&] { return b::hull(t, X); }, hull(x, p));
    if (!x.e) is("hull of numbers", [&] { return I::hull(t, x.l); }, hull(p, IV<T>{x.l, x.l, false}));
    bool sub = x.e || (!y.e && y.l <= x.l && x.u <= y.u), sup = y.e || (!x.e && x.l <= y.l && y.u <= x.u);
    yes("subset", sub, [&] { return b::subset(X, Y); }); yes("proper_subset", sub && !sup, [&] { return b::proper_subset(X, Y); }); yes("equal", sub && sup, [&] { return b::equal(X, Y); }); yes("overlap", !in.e, [&] { return b::overlap(X, Y); });
    yes("in", !x.e && x.l <= t && t <= x.u, [&] { return b::in(t, X); }); yes("zero_in", !x.e && x.l <= T(0) && x.u >= T(0), [&] { return b::zero_in(X); }); yes("singleton", !x.e && x.l == x.u, [&] { return b::singleton(X); }); yes("empty", x.e, [&] { return b::empty(X); }); });
}
// measures and image functions, as far as the numbers involved are representable
enum Part { MEASURES, IMAGES };
template <class T> void image(pbt::Src &s, pbt::Ctx &c, Part part) {
  typedef __int128 Z; const Z mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(); auto fits = [&](Z v) { return mn <= v && v <= mx; };
  with<T>(s, c, [&](const Ops<T> &o, const auto &X, const auto &Y) {
    typedef std::decay_t<decltype(X)> I; const IV<T> &x = o.x, &y = o.y; T t = o.t; std::string w = " for x=" + x.s() + " y=" + y.s() + " t=" + std::to_string(t), n = std::string(tn<T>()) + "|";
    struct ZI { Z l, u; bool e; };
    auto is = [&](const char *op, ZI e, auto f) { if (!e.e && (!fits(e.l) || !fits(e.u))) return; IV<T> g{}; bool threw = false; try { I r = f(); g = {r.lower(), r.upper(), b::empty(r)}; } catch (const std::exception &) { threw = true; }
      const IV<T> ex = {T(e.l), T(e.u), e.e}; bool ok = e.e && !o.empties ? threw : !threw && (e.e ? g.e : !g.e && g.l == e.l && g.u == e.u); PBT_CHECK(c, ok, n + op, std::string(op) + w + " gives " + (threw ? "an exception" : g.s()) + ", expected " + ex.s()); };
    auto num = [&](const char *op, Z e, auto f) { if (!fits(e)) return; T g = f(); PBT_CHECK(c, Z(g) == e, n + op, std::string(op) + w + " gives " + std::to_string(g) + ", expected " + std::to_string((long long)e)); };
    Z xl = x.l, xu = x.u, yl = y.l, yu = y.u, v = t; bool be = x.e || y.e; auto mi = [](Z p, Z q) { return p < q ? p : q; }; auto ma = [](Z p, Z q) { return p < q ? q : p; };
    if (part == MEASURES) {
      if (x.e) { if (o.empties) num("width", 0, [&] { return b::width(X); }); return; }   // no NaN for the others
      num("lower", xl, [&] { return b::lower(X); }); num("upper", xu, [&] { return b::upper(X); }); num("checked_lower", xl, [&] { return b::checked_lower(X); }); num("checked_upper", xu, [&] { return b::checked_upper(X); });
      num("width", xu - xl, [&] { return b::width(X); }); if (mn < 0 && xl > mn) num("norm", ma(-xl, xu), [&] { return b::norm(X); });
      if (v >= 0 && fits(xl - v) && fits(xu + v)) is("widen", {xl - v, xu + v, false}, [&] { return b::widen(X, t); });
      if (fits(xl + xu) && (xl > mn || mn == 0)) {
        T m = b::median(X); Z d = 2 * Z(m) - (xl + xu); PBT_CHECK(c, d >= -1 && d <= 1 && xl <= m && m <= xu, n + "median", "median" + w + " gives " + std::to_string(m));
        std::pair<I, I> p = b::bisect(X); PBT_CHECK(c, p.first.lower() == x.l && p.first.upper() == m && p.second.lower() == m && p.second.upper() == x.u, n + "bisect", "bisect" + w + " is wrong, median " + std::to_string(m)); }
      return;
    }
    if (x.e || (xl > mn || mn == 0)) is("abs", {xl > 0 ? xl : xu < 0 ? -xu : 0, ma(-xl, xu), x.e}, [&] { return b::abs(X); });
    is("min", {mi(xl, yl), mi(xu, yu), be}, [&] { return (b::min)(X, Y); }); is("max", {ma(xl, yl), ma(xu, yu), be}, [&] { return (b::max)(X, Y); });
    is("min(x,t)", {mi(xl, v), mi(xu, v), x.e}, [&] { return (b::min)(X, t); }); is("max(x,t)", {ma(xl, v), ma(xu, v), x.e}, [&] { return (b::max)(X, t); });
    is("min(t,x)", {mi(xl, v), mi(xu, v), x.e}, [&] { return (b::min)(t, X); }); is("max(t,x)", {ma(xl, v), ma(xu, v), x.e}, [&] { return (b::max)(t, X); });
    if (x.e || (xl >= -2000000000 && xu <= 2000000000)) { Z p = xl * xl, q = xu * xu; if (x.e || (fits(p) && fits(q) && sizeof(T) > 1)) is("square", {xl <= 0 && xu >= 0 ? 0 : mi(p, q), ma(p, q), x.e}, [&] { return b::square(X); }); } });
}
}
#define INT_COMPARE(T, ...) PBT_PROP(over_##T, 1) { ints::compare<ints_##T>(s, c, {__VA_ARGS__}); }
typedef int ints_int; typedef unsigned ints_unsigned; typedef signed char ints_schar; typedef long long ints_llong;
