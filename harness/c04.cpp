// C04: square, sqrt, abs, min, max are tight set images.
#include "common.hpp"
#include "ints.hpp"
enum Fn { SQUARE, SQRT, ABS, MIN, MAX, MIN_IT, MIN_TI, MAX_IT, MAX_TI, NFN };
static const char *fnn[] = {"square", "sqrt", "abs", "min", "max", "min(interval,number)", "min(number,interval)", "max(interval,number)", "max(number,interval)"};

template <class I> Res call(int f, const Iv<T> &x, const Iv<T> &y) {
  return run([&]() -> I {
    I a = mk<I>(x), b = mk<I>(y); T v = y.l;
    switch (f) {
      case SQUARE: return bn::square(a); case SQRT: return bn::sqrt(a); case ABS: return bn::abs(a);
      case MIN: return (bn::min)(a, b); case MAX: return (bn::max)(a, b);
      case MIN_IT: return (bn::min)(a, v); case MIN_TI: return (bn::min)(v, a);
      case MAX_IT: return (bn::max)(a, v); default: return (bn::max)(v, a);
    }
  });
}
template <class I> void check(pbt::Ctx &c, int f, const Iv<T> &x, const Iv<T> &y) {
  Iv<T> want;
  switch (f) { case SQUARE: want = orc::r_square(x); break; case SQRT: want = orc::r_sqrt(x); break; case ABS: want = orc::r_abs(x); break;
    case MIN: case MIN_IT: case MIN_TI: want = orc::r_min(x, y); break; default: want = orc::r_max(x, y); }
  Res r = call<I>(f, x, y);
  NOTE(c, std::string(fnn[f]) + " (" + pname<I>() + ") x=" + str(x) + (f >= MIN ? " y=" + str(y) : "") + " result=" + r.s());
  std::string key = std::string(fnn[f]) + "|" + pname<I>();
  c.label(std::string("fn:") + fnn[f]);
  if (want.empty) { PBT_CHECK(c, allows_empty<I>::value ? (!r.threw && r.empty) : r.threw, key + "|empty", "expected empty, got " + r.s()); c.label("empty result"); }
  else PBT_CHECK(c, r.iv() == want, key, "got " + r.s() + ", the tight image is " + str(want));
  c.nontrivial(x.l != x.u || want.l != want.u || want.empty);
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); int f = s.weighted({6, 6, 4, 2, 2, 1, 1, 1, 1});
  Iv<T> x = g.interval(), y(0, 0);
  if (f <= ABS && s.chance(1, 4)) { // nearly symmetric: |l| and |u| equal or neighbours
    T v = g.positive(), w = v; switch (s.below(3)) { case 1: w = Gen<T>::ulp_up(v); break; case 2: w = Gen<T>::ulp_dn(v); break; }
    if (std::isinf(w)) w = v; x = Iv<T>(-v, w);
  }
  if (f == SQRT && s.chance(1, 2)) { T a = std::fabs(x.l), b = std::fabs(x.u); if (std::isinf(a)) a = 0; x = Iv<T>(orc::mn(a, b), orc::mx(a, b)); }
  if (f == SQRT && s.chance(1, 6)) { // perfect squares and their neighbours
    T v = g.positive(); v = std::ldexp((T)std::floor(std::ldexp(v, -std::ilogb(v) + orc::FT<T>::prec / 2 - 1)), s.range(-20, 20)); T q = v * v; if (s.coin()) q = s.coin() ? Gen<T>::ulp_up(q) : Gen<T>::ulp_dn(q); if (q < orc::inf<T>()) x = Iv<T>(q, s.coin() ? q : orc::mx(q, g.positive())); }
  if (f == MIN || f == MAX) y = g.interval(); else if (f >= MIN_IT) { T v = g.finite(); y = Iv<T>(v, v); }
  g.hash(x); g.hash(y); c.h(f); g.classify(x, "x");
  check<I>(c, f, x, y);
}
PBT_PROP(images_def, 2) { prop<IDef>(s, c); }
PBT_PROP(images_std, 2) { prop<IStd>(s, c); }
PBT_PROP(images_opp, 1) { prop<IOpp>(s, c); }
PBT_PROP(over_int, 1) { ints::image<ints_int>(s, c, ints::IMAGES); }
PBT_PROP(over_unsigned, 1) { ints::image<ints_unsigned>(s, c, ints::IMAGES); }
PBT_PROP(over_schar, 1) { ints::image<ints_schar>(s, c, ints::IMAGES); }
PBT_PROP(over_llong, 1) { ints::image<ints_llong>(s, c, ints::IMAGES); }
