// C24: text output and numeric limits describe the interval faithfully.
#include "policies.hpp"
#include <boost/numeric/interval/io.hpp>
#include <boost/numeric/interval/limits.hpp>
#include <iomanip>
#include <locale>
#include <sstream>
template <class C> struct Punct : std::numpunct<C> {
  C point, sep; std::string grp; Punct(C p, C s, std::string g) : point(p), sep(s), grp(std::move(g)) {}
  C do_decimal_point() const override { return point; } C do_thousands_sep() const override { return sep; } std::string do_grouping() const override { return grp; }
};
struct Fmt { int base = 0, flt = 0, adj = 0, prec = 6, width = 0, loc = 0, state = 0; bool pos = false, point = false, upper = false, showbase = false; char fill = ' '; };
static Fmt gen_fmt(pbt::Src &s) {
  Fmt f; f.flt = s.weighted({5, 2, 3, 2}); f.adj = (int)s.below(4); f.prec = s.coin() ? 6 : s.range(0, 24); f.width = s.chance(1, 3) ? s.range(1, 30) : 0; f.loc = s.weighted({6, 1, 1, 1}); f.state = s.weighted({30, 1, 1, 1});
  f.base = s.weighted({4, 1, 1}); f.pos = s.chance(1, 3); f.point = s.chance(1, 3); f.upper = s.chance(1, 3); f.showbase = s.chance(1, 3); static const char fl[] = {' ', '*', '0', '[', '-', ','}; f.fill = s.pick(fl); return f;
}
static std::string show(const Fmt &f) { char b[160]; static const char *fn[] = {"default", "fixed", "scientific", "hexfloat"}, *an[] = {"none", "left", "right", "internal"}; snprintf(b, 160, "%s precision %d width %d fill '%c' adjust %s showpos %d showpoint %d uppercase %d showbase %d base %d locale %d state %d", fn[f.flt], f.prec, f.width, f.fill, an[f.adj], f.pos, f.point, f.upper, f.showbase, f.base, f.loc, f.state); return b; }
template <class C> void apply(std::basic_ostream<C> &o, const Fmt &f) {
  if (f.loc == 1) o.imbue(std::locale(std::locale::classic(), new Punct<C>(',', '.', "\3"))); else if (f.loc == 2) o.imbue(std::locale(std::locale::classic(), new Punct<C>(';', ',', "\1\2"))); else if (f.loc == 3) o.imbue(std::locale(std::locale::classic(), new Punct<C>(']', '[', "\2")));
  switch (f.flt) { case 1: o << std::fixed; break; case 2: o << std::scientific; break; case 3: o << std::hexfloat; break; default: break; }
  switch (f.adj) { case 1: o << std::left; break; case 2: o << std::right; break; case 3: o << std::internal; break; default: break; }
  if (f.base == 1) o << std::hex; if (f.base == 2) o << std::oct;
  if (f.pos) o << std::showpos; if (f.point) o << std::showpoint; if (f.upper) o << std::uppercase; if (f.showbase) o << std::showbase;
  o << std::setprecision(f.prec); o.fill(C(f.fill)); o.width(f.width);
}
template <class C, class V> std::basic_string<C> alone(const Fmt &f, V v) { std::basic_ostringstream<C> o; apply<C>(o, f); o.width(0); o << v; return o.str(); }
template <class C> std::basic_string<C> wid(const char *t) { std::basic_string<C> r; for (; *t; t++) r += C(*t); return r; }
template <class C> std::basic_string<C> pad(std::basic_string<C> t, const Fmt &f) {   // a pending field width applies to the first piece
  if ((int)t.size() >= f.width) return t; std::basic_string<C> p(f.width - t.size(), C(f.fill)); return f.adj == 1 ? t + p : p + t;
}
template <class C> std::string nar(const std::basic_string<C> &t) { std::string r; for (C x : t) r += x > 0 && x < 127 ? (char)x : '?'; return r; }
template <class I, class C> void text(pbt::Ctx &c, const I &x, bool isempty, const Fmt &f, const char *what) {
  std::basic_ostringstream<C> o; apply<C>(o, f);
  if (f.state == 1) o.setstate(std::ios::failbit); else if (f.state == 2) o.setstate(std::ios::badbit); else if (f.state == 3) o.setstate(std::ios::eofbit);
  auto fl = o.flags(); auto st = o.rdstate(); auto lc = o.getloc();
  std::basic_ostream<C> &r = (o << x); std::basic_string<C> got = o.str(), want;
  std::string key = std::string("text|") + what;
  if (isempty) want = pad(wid<C>("[]"), f); else want = pad(wid<C>("["), f) + alone<C>(f, x.lower()) + C(',') + alone<C>(f, x.upper()) + C(']');
  PBT_CHECK(c, &r == &o, key + "|stream", "the inserter does not return the stream");
  PBT_CHECK(c, o.flags() == fl && o.precision() == f.prec && o.fill() == C(f.fill) && o.getloc() == lc, key + "|flags", "output changed the stream's formatting state");
  if (f.state) { PBT_CHECK(c, got.empty(), key + "|failed", "output to a stream that is not good printed '" + nar(got) + "'"); return; }
  PBT_CHECK(c, got == want, key, std::string(what) + " printed '" + nar(got) + "', the bounds print as '" + nar(want) + "'");
  PBT_CHECK(c, o.rdstate() == st && o.width() == 0, key + "|state", "after output the stream's state or width is not as after printing the pieces");
  o << x; Fmt f0 = f; f0.width = 0;   // chained output continues with width zero
  std::basic_string<C> again = isempty ? wid<C>("[]") : C('[') + alone<C>(f0, x.lower()) + C(',') + alone<C>(f0, x.upper()) + C(']');
  PBT_CHECK(c, o.str() == want + again, key + "|twice", "second output printed '" + nar(o.str()) + "'");
}
template <class I> void text_fp(pbt::Src &s, pbt::Ctx &c, const char *pn, bool empties) {
  Gen<T> g(s, c); Iv<T> v = empties && s.chance(1, 5) ? Iv<T>() : g.interval(); Fmt f = gen_fmt(s);
  if (f.flt == 1 && !v.empty && s.chance(9, 10)) { if (std::fabs(v.l) > 1e20) v.l = -7 / T(3); if (std::fabs(v.u) > 1e20) v.u = v.l < 1e20 ? v.l + 1 : v.l; if (!(v.l <= v.u)) v.l = v.u; }
  I x = mk<I>(v); g.hash(v); c.h(f.prec + 100 * f.width + 10000 * f.flt); c.nontrivial(); bool w = s.coin();
  NOTE(c, std::string(pn) + (w ? " wide " : " narrow ") + str(v) + " " + show(f)); c.label(w ? "wide" : "narrow"); c.label_if(v.empty, "empty"); c.label_if(f.width > 0, "width"); c.label_if(f.loc > 0, "locale");
  if (w) text<I, wchar_t>(c, x, v.empty, f, pn); else text<I, char>(c, x, v.empty, f, pn);
}
PBT_PROP(text_strict, 2) { text_fp<IDef>(s, c, "strict", false); }
PBT_PROP(text_base, 3) { text_fp<IOpp>(s, c, "base", true); }
// base types printed by other inserters
PBT_PROP(text_int, 1) {
  typedef bn::interval<int, il::policies<il::rounded_math<int>, il::checking_base<int>>> II; Fmt f = gen_fmt(s); bool e = s.chance(1, 6), w = s.coin();
  int a = s.coin() ? s.range(-300, 300) : (int)s.bits(), b = s.coin() ? a + (int)s.below(100) : (int)s.bits(); if (b < a) std::swap(a, b);
  II x = e ? II::empty() : II(a, b); c.h(a); c.h(b); c.h(f.width + 100 * f.base); c.nontrivial(); NOTE(c, "int " + (e ? std::string("empty") : std::to_string(a) + "," + std::to_string(b)) + " " + show(f)); c.label("int");
  if (w) text<II, wchar_t>(c, x, e, f, "int"); else text<II, char>(c, x, e, f, "int");
}
// full precision text gives the bounds back
PBT_PROP(reparse, 2) {
  Gen<T> g(s, c); Iv<T> v = g.interval(); IDef x = mk<IDef>(v); std::ostringstream o; bool hex = s.coin();
  if (hex) o << std::hexfloat; else { o << std::setprecision(std::numeric_limits<T>::max_digits10 + (int)s.below(4)); if (s.coin()) o << std::scientific; }
  o << x; std::string t = o.str(); g.hash(v); c.nontrivial(); NOTE(c, str(v) + " printed " + t);
  size_t k = t.find(','); PBT_CHECK(c, t.size() > 4 && t[0] == '[' && t.back() == ']' && k != std::string::npos, "reparse|form", "printed '" + t + "'");
  auto parse = [](const std::string &u) -> T { if constexpr (sizeof(T) == 4) return std::strtof(u.c_str(), nullptr); else if constexpr (sizeof(T) == 8) return std::strtod(u.c_str(), nullptr); else return std::strtold(u.c_str(), nullptr); };
  T a = parse(t.substr(1, k - 1)), b = parse(t.substr(k + 1, t.size() - k - 2));
  PBT_CHECK(c, a == v.l && b == v.u && std::signbit(a) == std::signbit(v.l) && std::signbit(b) == std::signbit(v.u), "reparse|value", "'" + t + "' parses to " + orc::str2(a, b));
}
// --- limits ------------------------------------------------------------------------------------------------------
enum { L_MIN, L_MAX, L_EPS, L_DEN, L_INF, L_QNAN, L_SNAN, L_CONST, L_LOWEST, NL };
static const char *ln[] = {"min", "max", "epsilon", "denorm_min", "infinity", "quiet_NaN", "signaling_NaN", "constants", "lowest"};
template <class C> void limits(pbt::Ctx &c, int m) {
  typedef IV_<C> I; typedef std::numeric_limits<I> N; typedef std::numeric_limits<T> B; std::string pn = P<C>::name(), key = std::string("limits|") + ln[m] + "|" + pn;
  NOTE(c, std::string("numeric_limits::") + ln[m] + " under " + pn);
  if (m == L_CONST) {
    PBT_CHECK(c, N::is_specialized && N::digits == B::digits && N::digits10 == B::digits10 && N::radix == B::radix && N::max_digits10 == B::max_digits10 && N::min_exponent == B::min_exponent && N::max_exponent == B::max_exponent && N::min_exponent10 == B::min_exponent10 && N::max_exponent10 == B::max_exponent10 && N::is_signed && !N::is_integer && !N::is_exact && N::has_infinity, key, "a constant differs from the base type's");
    PBT_CHECK(c, !N::is_iec559 && N::round_style == std::round_indeterminate && std::numeric_limits<const I>::digits == B::digits, key + "|own", "is_iec559, round_style or the const-qualified form"); return;
  }
  Fp b = Fp::now(); Got g; bool sn = m == L_SNAN;
  switch (m) {
    case L_MIN: g = outcome<C>([] { return (N::min)(); }); break; case L_MAX: g = outcome<C>([] { return (N::max)(); }); break; case L_EPS: g = outcome<C>([] { return N::epsilon(); }); break;
    case L_DEN: g = outcome<C>([] { return N::denorm_min(); }); break; case L_LOWEST: g = outcome<C>([] { return I(N::lowest()); }); break; case L_INF: g = outcome<C>([] { return N::infinity(); }); break;
    case L_QNAN: g = outcome<C>([] { return N::quiet_NaN(); }); break; default: g = outcome<C>([] { return N::signaling_NaN(); });
  }
  Fp a = Fp::now(); PBT_CHECK(c, a == b, key + "|state", "changed the rounding state");
  if (m == L_QNAN || sn) { Kind w = sn && P<C>::nans == NAN_ERR ? INVALID : P<C>::empties ? EMPTY : CREATE; PBT_CHECK(c, g.k == w, key, std::string("numeric_limits::") + ln[m] + " under " + pn + " gives " + g.s() + ", expected " + kn[w]); return; }
  T w = m == L_MIN ? (B::min)() : m == L_MAX ? (B::max)() : m == L_EPS ? B::epsilon() : m == L_DEN ? B::denorm_min() : B::lowest();
  if (m == L_INF) PBT_CHECK(c, g.k == IV && g.l == -orc::inf<T>() && g.u == orc::inf<T>(), key, "numeric_limits::infinity is " + g.s() + ", expected the whole line");
  else PBT_CHECK(c, g.k == IV && g.l == w && g.u == w, key, std::string("numeric_limits::") + ln[m] + " is " + g.s() + ", expected the single point " + str(w));
}
PBT_ENUM(limits_table, NL * 14) {
  int m = (int)s.below(NL), p = (int)s.below(14); c.h(m * 14 + p); c.nontrivial(); c.label(ln[m]);
  switch (p) { case 0: limits<base>(c, m); break; case 1: limits<one_zero>(c, m); break; case 2: limits<no_nan>(c, m); break; case 3: limits<catch_nan>(c, m); break; case 4: limits<no_empty>(c, m); break; case 5: limits<strict>(c, m); break; case 6: limits<no_nan_no_empty>(c, m); break;
    case 7: limits<catch_nan_no_empty>(c, m); break; case 8: limits<no_empty_catch_nan>(c, m); break; case 9: limits<catch_own_no_empty_own>(c, m); break; case 10: limits<no_empty_one_zero>(c, m); break; case 11: limits<flags>(c, m); break; case 12: limits<ordered>(c, m); break; default: limits<marked>(c, m); }
}
