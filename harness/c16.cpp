// C16: construction, conversion and assignment enclose their source tightly.
#include "common.hpp"
typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_catch_nan<T>>> ICatch;           // empties allowed, NaN numbers refused
typedef bn::interval<T, il::policies<il::save_state<std_arith<T>>, il::checking_catch_nan<T, il::checking_no_empty<T>>>> ICatchNE;
template <> struct allows_empty<ICatch> { enum { value = 1 }; };
template <> inline const char *pname<ICatch>() { return "opp/catch_nan"; }
template <> inline const char *pname<ICatchNE>() { return "std/catch_nan+no_empty"; }
template <class I> struct nanpol { enum { value = 0 }; };      // 0: NaN gives empty, 1: NaN gives the invalid-number error, 2: NaN numbers are not looked for
template <> struct nanpol<ICatch> { enum { value = 1 }; };
template <> struct nanpol<ICatchNE> { enum { value = 1 }; };
template <> struct nanpol<IDef> { enum { value = 2 }; };
template <> struct nanpol<IStdStrict> { enum { value = 2 }; };

enum Kind { IV, EMPTY, CREATE, INVALID, ODD };
static const char *kn[] = {"interval", "empty", "creation error", "invalid-number error", "other exception"};
struct Got { Kind k = IV; T l = 0, u = 0; std::string s() const { return k == IV ? orc::str2(l, u) : kn[k]; } };
template <class F> Got outcome(F f) {
  Got g;
  try { auto x = f(); g.l = x.lower(); g.u = x.upper(); if (bn::empty(x)) g.k = EMPTY; }
  catch (const std::invalid_argument &) { g.k = INVALID; } catch (const std::runtime_error &) { g.k = CREATE; } catch (...) { g.k = ODD; }
  return g;
}
static bool same(const Got &g, Kind k, const Iv<T> &w) { return g.k == k && (k != IV || (g.l == w.l && g.u == w.u)); }

template <class U> struct SrcT { static const char *n(); };
#define SN(U) template <> const char *SrcT<U>::n() { return #U; }
SN(bool) SN(char) SN(signed char) SN(unsigned char) SN(short) SN(unsigned short) SN(int) SN(unsigned int) SN(long) SN(unsigned long) SN(long long) SN(unsigned long long) SN(wchar_t) SN(char16_t) SN(char32_t) SN(float) SN(double) SN(long double)

template <class U> mpq_class exact(U v) {
  if constexpr (std::is_integral<U>::value) {
    mpz_class z; bool neg = v < 0; unsigned long long m = neg ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v;
    mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &m); if (neg) z = -z; return mpq_class(z);
  } else return orc::q(v);
}
template <class U> T dn(U v) { if constexpr (!std::is_integral<U>::value) if (std::isinf(v)) return v > 0 ? orc::inf<T>() : -orc::inf<T>(); return orc::from_q<T>(exact(v), orc::DN); }
template <class U> T up(U v) { if constexpr (!std::is_integral<U>::value) if (std::isinf(v)) return v > 0 ? orc::inf<T>() : -orc::inf<T>(); return orc::from_q<T>(exact(v), orc::UP); }
template <class U> bool isnanv(U v) { if constexpr (std::is_integral<U>::value) return false; else return v != v; }
template <class U> std::string show(U v) { if constexpr (std::is_integral<U>::value) return exact(v).get_str(); else return str(v); }

template <class U> U gen_src(pbt::Src &s, pbt::Ctx &c, bool nan_ok) {
  if constexpr (std::is_same<U, bool>::value) return s.coin();
  else if constexpr (std::is_integral<U>::value) {
    typedef std::numeric_limits<U> L; typedef typename std::make_unsigned<U>::type UU;
    switch (s.weighted({3, 3, 4, 3, 3})) {
      case 0: return (U)s.below(20);
      case 1: return (U)(0 - (int)s.below(20));
      case 2: switch (s.below(4)) { case 0: return L::max(); case 1: return L::min(); case 2: return (U)(L::max() - (U)s.below(8)); default: return (U)(L::min() + (U)s.below(8)); }
      case 3: { int b = s.range(0, (int)sizeof(U) * 8 - 1); UU m = (UU)((UU)1 << b); m = (UU)(m + (UU)s.below(5) - 2); if (s.coin()) m = (UU)(0 - m); return (U)m; }   // powers of two and neighbours
      default: return (U)(UU)(s.bits() >> s.below(64));
    }
  } else {
    if (nan_ok && s.chance(1, 12)) return s.coin() ? std::numeric_limits<U>::quiet_NaN() : -std::numeric_limits<U>::quiet_NaN();
    pbt::Ctx &cc = c; 
    if (s.chance(1, 2)) { // values of the target type and their neighbourhood in the source type
      Gen<T> g(s, cc); U r = (U)g.finite(); if (std::isinf(r)) r = std::numeric_limits<U>::max();
      for (int i = (int)s.below(4); i > 0; i--) r = s.coin() ? Gen<U>::ulp_up(r) : Gen<U>::ulp_dn(r);
      if (std::isinf(r)) r = std::numeric_limits<U>::max();
      return r;
    }
    Gen<U> g(s, cc); return g.finite();
  }
}
template <class I> Kind bad_kind(bool nan) { // outcome for a source that denotes nothing
  if (nan && nanpol<I>::value == 1) return INVALID;
  return allows_empty<I>::value ? EMPTY : CREATE;
}
template <class I, class U> void single(pbt::Src &s, pbt::Ctx &c) {
  U v = gen_src<U>(s, c, nanpol<I>::value != 2); bool nan = isnanv(v);
  std::string key = std::string("number|") + SrcT<U>::n() + "|" + pname<I>();
  c.label(std::string("source:") + SrcT<U>::n()); c.h(std::hash<std::string>()(show(v)));
  NOTE(c, key + " " + show(v));
  Kind wk = nan ? bad_kind<I>(true) : IV; Iv<T> w; if (!nan) { w = Iv<T>(dn(v), up(v)); c.nontrivial(w.l != w.u || s.chance(1, 4)); if (w.l != w.u) c.label("inexact"); if (std::isinf(w.u)||std::isinf(w.l)) c.label("out of range"); } else { c.nontrivial(); c.label("NaN"); }
  auto eq = [&](const char *f, const Got &g) { PBT_CHECK(c, same(g, wk, w), key + "|" + f, std::string(f) + " of " + show(v) + " gives " + g.s() + ", expected " + (wk == IV ? str(w) : kn[wk])); };
  eq("construct", outcome([&] { return I(v); }));
  eq("assign", outcome([&] { I r; r = v; return r; }));
  eq("construct pair", outcome([&] { return I(v, v); }));
  if constexpr (std::is_same<U, T>::value) {
    eq("assign(v,v)", outcome([&] { I r; r.assign(v, v); return r; }));
    eq("hull(v,v)", outcome([&] { return I::hull(v, v); }));
  }
}
template <class I, class U, class V> void pair_at(pbt::Src &s, pbt::Ctx &c, U v, V w) {
  bool nan = isnanv(v) || isnanv(w);
  auto isinfv = [](auto x) { if constexpr (std::is_integral<decltype(x)>::value) return false; else return (bool)std::isinf(x); };
  bool vi = isinfv(v), wi = isinfv(w);
  bool rev = !nan && !vi && !wi && exact(v) > exact(w);
  std::string key = std::string("pair|") + SrcT<U>::n() + "," + SrcT<V>::n() + "|" + pname<I>();
  bool inexact = false;
  // C++ compares a signed and an unsigned (or an integer and a narrower floating) number after conversion
  if constexpr (!std::is_same<U, V>::value) { if (!nan && !vi && !wi && (v <= w) == rev) inexact = true, key = std::string("mixed-pair-compared-inexactly|") + (std::is_integral<U>::value && std::is_integral<V>::value ? "signed/unsigned" : "integer/floating"); }
  c.label(key.substr(0, 40)); c.h(std::hash<std::string>()(show(v) + "," + show(w)));
  NOTE(c, key + " " + SrcT<U>::n() + "," + SrcT<V>::n() + " " + pname<I>() + " (" + show(v) + " , " + show(w) + ")");
  Kind wk = IV; Iv<T> want; if (nan) { wk = bad_kind<I>(true); c.label("NaN in pair"); } else if (rev) { wk = bad_kind<I>(false); c.label("reversed pair"); } else want = Iv<T>(dn(v), up(w));
  c.nontrivial();
  Got g = outcome([&] { return I(v, w); });
  if (g.k == IV && !(g.l <= g.u)) c.fail(key + "|malformed", "pair gives the malformed interval " + g.s());
  if (inexact && !same(g, rev ? IV : bad_kind<I>(false), Iv<T>(dn(v), up(w)))) key += "|other-outcome";
  PBT_CHECK(c, same(g, wk, want), key, "pair (" + show(v) + "," + show(w) + ") gives " + g.s() + ", expected " + (wk == IV ? str(want) : kn[wk]));
  if constexpr (std::is_same<U, T>::value && std::is_same<V, T>::value) {
    Got g2 = outcome([&] { I r; r.assign(v, w); return r; });
    PBT_CHECK(c, same(g2, wk, want), key + "|assign", "assign(" + show(v) + "," + show(w) + ") gives " + g2.s() + ", expected " + (wk == IV ? str(want) : kn[wk]));
  }
}
template <class I, class U, class V> void pair(pbt::Src &s, pbt::Ctx &c) {
  bool nok = true; // a pair with a NaN is refused by every policy: the bounds are not ordered
  U v = gen_src<U>(s, c, nok); V w = gen_src<V>(s, c, nok);
  if constexpr (std::is_same<U, V>::value) { if (s.chance(1, 4)) w = v; if (!(v <= w) && s.chance(2, 3)) std::swap(v, w); }
  else if (s.chance(1, 3) && !isnanv(v)) { // v itself or a neighbour as the other type, when it can hold it
    if constexpr (std::is_integral<V>::value) { mpz_class z(exact(v)); z += (long)s.below(3) - 1; if (z >= exact(std::numeric_limits<V>::min()) && z <= exact(std::numeric_limits<V>::max())) { bool ng = z < 0; if (ng) z = -z; unsigned long long m = 0; mpz_export(&m, 0, 1, 8, 0, 0, z.get_mpz_t()); w = (V)(ng ? 0 - m : m); } }
    else { w = (V)v; if (std::isinf(w)) w = std::numeric_limits<V>::max(); }
  }
  if constexpr (!std::is_integral<U>::value) if (s.chance(1, 12)) v = -std::numeric_limits<U>::infinity();
  if constexpr (!std::is_integral<V>::value) if (s.chance(1, 12)) w = std::numeric_limits<V>::infinity();
  pair_at<I, U, V>(s, c, v, w);
}
// interval of another base type or policy
template <class I, class J> void from_interval(pbt::Src &s, pbt::Ctx &c) {
  typedef typename J::base_type S; 
  Iv<S> x; Gen<S> g(s, c);
  constexpr bool je = !std::is_same<typename J::traits_type::checking, il::checking_strict<S>>::value;
  if (je && s.chance(1, 8)) x = Iv<S>();
  else if (s.chance(1, 2)) { S a = gen_src<S>(s, c, false), b = gen_src<S>(s, c, false); x = Iv<S>(orc::mn(a, b), orc::mx(a, b)); }
  else x = g.interval();
  const J a = x.empty ? J::empty() : J(x.l, x.u);
  std::string key = std::string("interval<") + SrcT<S>::n() + (std::is_same<typename J::traits_type::checking, ordered_of<S>>::value ? ",ordered>" : std::is_same<typename J::traits_type::checking, marked_of<S>>::value ? ",marked>" : je ? ",base>" : ",strict>") + "|" + pname<I>();
  c.label(key); c.h(orc::hbits(x.l)); c.h(orc::hbits(x.u)); NOTE(c, key + " " + (x.empty ? std::string("empty") : str(x)));
  Kind wk = IV; Iv<T> want; if (x.empty) wk = allows_empty<I>::value ? EMPTY : CREATE; else want = Iv<T>(dn(x.l), up(x.u));
  c.nontrivial();
  auto eq = [&](const char *f, const Got &r) { PBT_CHECK(c, same(r, wk, want), key + "|" + f, std::string(f) + " gives " + r.s() + ", expected " + (wk == IV ? str(want) : kn[wk])); };
  eq("construct", outcome([&] { return I(a); }));
  eq("assign", outcome([&] { I r(T(3), T(7)); r = a; return r; }));
  PBT_CHECK(c, x.empty || (a.lower() == x.l && a.upper() == x.u), "source changed", "source changed");
}
// interval over a built-in integer type
template <class I, class U, bool ALLOW> void from_ints(pbt::Src &s, pbt::Ctx &c) {
  typedef il::policies<il::rounded_math<U>, typename std::conditional<ALLOW, il::checking_base<U>, il::checking_strict<U>>::type> PU; typedef bn::interval<U, PU> J;
  bool e = ALLOW && s.chance(1, 8); U a = gen_src<U>(s, c, false), b = s.chance(1, 4) ? a : gen_src<U>(s, c, false); if (b < a) std::swap(a, b);
  const J j = e ? J::empty() : J(a, b); std::string key = std::string("interval<") + SrcT<U>::n() + (ALLOW ? ",base>|" : ",strict>|") + pname<I>(), x = e ? "empty" : "[" + show(a) + "," + show(b) + "]";
  c.label(key); c.h(e); c.h((uint64_t)a); c.h((uint64_t)b); NOTE(c, key + " " + x); c.nontrivial();
  Kind wk = IV; Iv<T> want; if (e) wk = allows_empty<I>::value ? EMPTY : CREATE; else want = Iv<T>(dn(a), up(b));
  auto eq = [&](const char *f, const Got &r) { PBT_CHECK(c, same(r, wk, want), key + "|" + f, std::string(f) + " from " + x + " gives " + r.s() + ", expected " + (wk == IV ? str(want) : kn[wk])); };
  eq("construct", outcome([&] { return I(j); })); eq("assign", outcome([&] { I r(T(3), T(7)); r = j; return r; }));
  PBT_CHECK(c, e || (j.lower() == a && j.upper() == b), "source changed", "source changed");
}
template <class I> void any_ints(pbt::Src &s, pbt::Ctx &c) {
  switch (s.below(9)) { case 0: from_ints<I, int, true>(s, c); break; case 1: from_ints<I, int, false>(s, c); break; case 2: from_ints<I, long long, true>(s, c); break; case 3: from_ints<I, long, false>(s, c); break; case 4: from_ints<I, unsigned, true>(s, c); break;
    case 5: from_ints<I, unsigned long long, false>(s, c); break; case 6: from_ints<I, signed char, true>(s, c); break; case 7: from_ints<I, unsigned short, true>(s, c); break; default: from_ints<I, unsigned long, true>(s, c); }
}
template <class I> void basics(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Iv<T> x = g.interval(); g.hash(x); NOTE(c, std::string("basics ") + pname<I>() + " " + str(x)); c.nontrivial();
  const I a(x.l, x.u); I b(a), d; 
  PBT_CHECK(c, d.lower() == 0 && d.upper() == 0, "default", "default constructed interval is not zero");
  PBT_CHECK(c, b.lower() == x.l && b.upper() == x.u, "copy", "copy differs");
  d = a; PBT_CHECK(c, d.lower() == x.l && d.upper() == x.u, "copy assign", "copy assignment differs");
  d.assign(x.l, x.u); PBT_CHECK(c, d.lower() == x.l && d.upper() == x.u, "assign", "assign differs");
  I w = I::whole(); PBT_CHECK(c, w.lower() == -orc::inf<T>() && w.upper() == orc::inf<T>(), "whole", "whole() is not the entire line");
  Got e = outcome([&] { return I::empty(); });
  PBT_CHECK(c, e.k == (allows_empty<I>::value ? EMPTY : CREATE), "empty", "empty() gives " + e.s());
  T p = x.l; if (std::isinf(p)) p = x.u; if (std::isinf(p)) p = 1;
  I h1 = I::hull(p, std::isinf(x.u) ? p : x.u); PBT_CHECK(c, h1.lower() == p, "hull", "hull of two numbers");
}
typedef bn::interval<float, il::policies<il::rounded_math<float>, il::checking_base<float>>> FB;
typedef bn::interval<double, il::policies<il::rounded_math<double>, il::checking_base<double>>> DB;
typedef bn::interval<long double, il::policies<il::rounded_math<long double>, il::checking_base<long double>>> LB;
typedef bn::interval<float, il::policies<il::rounded_math<float>, ordered_of<float>>> FO;
typedef bn::interval<double, il::policies<il::rounded_math<double>, ordered_of<double>>> DO;
typedef bn::interval<long double, il::policies<il::rounded_math<long double>, marked_of<long double>>> LM;
typedef bn::interval<float> FS; typedef bn::interval<double> DS; typedef bn::interval<long double> LS;
template <class I> void any_single(pbt::Src &s, pbt::Ctx &c) {
  switch (s.below(18)) {
#define K(n, U) case n: single<I, U>(s, c); break;
    K(0, int) K(1, unsigned) K(2, long) K(3, unsigned long) K(4, long long) K(5, unsigned long long) K(6, float) K(7, double) K(8, long double) K(9, bool) K(10, char) K(11, signed char) K(12, unsigned char) K(13, short) K(14, unsigned short) K(15, wchar_t) K(16, char16_t) K(17, char32_t)
  }
}
template <class I> void any_pair(pbt::Src &s, pbt::Ctx &c) {
  switch (s.below(18)) {
#define P2(n, U, V) case n: pair<I, U, V>(s, c); break;
    P2(0, int, int) P2(1, unsigned, unsigned) P2(2, long, long) P2(3, unsigned long long, unsigned long long) P2(4, float, float) P2(5, double, double) P2(6, long double, long double)
    P2(7, int, double) P2(8, double, int) P2(9, float, double) P2(10, double, float) P2(11, int, float) P2(12, float, long long) P2(13, long, double) P2(14, unsigned, long double) P2(15, long double, float) P2(16, int, unsigned) P2(17, unsigned char, short)
  }
}
template <class I> void any_interval(pbt::Src &s, pbt::Ctx &c) {
  switch (s.below(9)) { case 6: from_interval<I, FO>(s, c); break; case 7: from_interval<I, DO>(s, c); break; case 8: from_interval<I, LM>(s, c); break; case 0: from_interval<I, FB>(s, c); break; case 1: from_interval<I, DB>(s, c); break; case 2: from_interval<I, LB>(s, c); break; case 3: from_interval<I, FS>(s, c); break; case 4: from_interval<I, DS>(s, c); break; default: from_interval<I, LS>(s, c); }
}
#define ALL(I, n, w) PBT_PROP(number_##n, w) { any_single<I>(s, c); } PBT_PROP(pair_##n, w) { any_pair<I>(s, c); } PBT_PROP(interval_##n, w) { any_interval<I>(s, c); } PBT_PROP(ints_##n, w) { any_ints<I>(s, c); } PBT_PROP(basics_##n, 1) { basics<I>(s, c); }
ALL(IDef, def, 3) ALL(IOrd, ord, 1) ALL(IOpp, opp, 2) ALL(IStd, std, 3) ALL(ICatch, catch, 1) ALL(ICatchNE, catchne, 1)
PBT_ENUM(mixed_pairs, 6) { // listed finding and its repaired relatives
  int k = (int)s.below(6); c.h(k);
  switch (k) {
    case 0: pair_at<IOpp, int, float>(s, c, -2147483647, -2147483648.f); break;
    case 1: pair_at<IOpp, long, double>(s, c, 9007199254740993L, 9007199254740992.); break;
    case 2: pair_at<IOpp, int, unsigned>(s, c, -1, 5u); break;
    case 3: pair_at<IDef, int, unsigned>(s, c, -1, 5u); break;
    case 4: pair_at<IOpp, int, float>(s, c, 16777217, 16777216.f); break;
    default: pair_at<IOpp, int, float>(s, c, 16777215, 16777216.f); break;
  }
}
