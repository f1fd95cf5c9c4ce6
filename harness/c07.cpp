// C07: monotone transcendental functions: tight image of the argument restricted to the domain.
#include "transc_common.hpp"
enum Fn { EXP, LOG, ASIN, ACOS, ATAN, SINH, COSH, TANH, ASINH, ACOSH, ATANH, NFN };
static const char *fnn[] = {"exp", "log", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"};
typedef int (*MF)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
static MF mf(int f) { static const MF t[] = {mpfr_exp, mpfr_log, mpfr_asin, mpfr_acos, mpfr_atan, mpfr_sinh, mpfr_cosh, mpfr_tanh, mpfr_asinh, mpfr_acosh, mpfr_atanh}; return t[f]; }
template <class I> Res call(int f, const Iv<T> &x) {
  return run([&]() -> I { I a = mk<I>(x); switch (f) {
    case EXP: return bn::exp(a); case LOG: return bn::log(a); case ASIN: return bn::asin(a); case ACOS: return bn::acos(a); case ATAN: return bn::atan(a);
    case SINH: return bn::sinh(a); case COSH: return bn::cosh(a); case TANH: return bn::tanh(a); case ASINH: return bn::asinh(a); case ACOSH: return bn::acosh(a); default: return bn::atanh(a); } });
}
static T ev(int f, T v, mpfr_rnd_t rd) { return orc::op1<T>(mf(f), v, rd); }
// tight image; empty when the argument misses the (closed) domain. *undef: argument touches only an open domain end.
static Iv<T> image(int f, Iv<T> x, bool &undef) {
  undef = false;
  T inf = orc::inf<T>();
  switch (f) {
    case LOG: if (x.u <= 0) return Iv<T>(); if (x.l < 0) x.l = 0; break;
    case ASIN: case ACOS: case ATANH:
      if (x.u < -1 || x.l > 1) return Iv<T>();
      x.l = orc::mx(x.l, T(-1)); x.u = orc::mn(x.u, T(1));
      if (f == ATANH && (x.u == -1 || x.l == 1)) { undef = true; return Iv<T>(); }
      break;
    case ACOSH: if (x.u < 1) return Iv<T>(); x.l = orc::mx(x.l, T(1)); break;
    case COSH: { Iv<T> a = orc::r_abs(x); return Iv<T>(ev(f, a.l, orc::DN), ev(f, a.u, orc::UP)); }
    default: break;
  }
  if (f == LOG && x.l == 0) return Iv<T>(-inf, ev(f, x.u, orc::UP));
  if (f == ACOS) return Iv<T>(ev(f, x.u, orc::DN), ev(f, x.l, orc::UP));
  return Iv<T>(ev(f, x.l, orc::DN), ev(f, x.u, orc::UP));
}
// the library stores pi for long double with double precision only: domain-end bounds may be that far off
static bool within_pi(T got, T want) { return std::fabs((long double)got - (long double)want) <= std::fabs((long double)want) * (sizeof(T) == 4 ? 2.5e-7L : 4.5e-16L); }
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); int f = (int)s.below(NFN); Iv<T> x = g.interval();
  typedef std::numeric_limits<T> L;
  if (s.chance(1, 2)) { // around the function's domain ends and range of interest
    auto one = [&]() -> T {
      T ends[] = {T(0), T(1), T(-1), T(2), L::denorm_min(), std::log(L::max()), std::log(L::min()), T(0.5)};
      switch (s.weighted({4, 3, 2})) {
        case 0: { T v = s.pick(ends); int k = s.range(-3, 3); while (k > 0) { v = Gen<T>::ulp_up(v); k--; } while (k < 0) { v = Gen<T>::ulp_dn(v); k++; } return s.coin() ? -v : v; }
        case 1: return std::ldexp(g.mantissa(), -1) * (s.coin() ? -1 : 1);
        default: return std::ldexp(g.mantissa(), s.range(-40, 14)) * (s.coin() ? -1 : 1);
      }
    };
    T a = one(), b = s.chance(1, 4) ? a : one(); if (s.chance(1, 12)) a = -orc::inf<T>(); if (s.chance(1, 12)) b = orc::inf<T>(); if (b < a) std::swap(a, b);
    if (!(a == b && std::isinf(a))) x = Iv<T>(a, b);
  }
  g.hash(x); c.h(f); g.classify(x, "x"); c.label(std::string("fn:") + fnn[f]);
  NOTE(c, std::string(fnn[f]) + " (" + pname<I>() + ") x=" + str(x));
  bool undef; Iv<T> want = image(f, x, undef);
  Res r = call<I>(f, x);
  NOTE(c, "result=" + r.s());
  std::string key = std::string(fnn[f]) + "|" + pname<I>();
  if (undef) { c.label("only the open domain end"); PBT_CHECK(c, r.threw || (r.l == r.l && r.u == r.u) || r.empty, key + "|nan", "NaN bounds: " + r.s()); return; }
  c.nontrivial();
  if (want.empty) { PBT_CHECK(c, allows_empty<I>::value ? (!r.threw && r.empty) : r.threw, key + "|empty", "argument lies outside the domain, expected empty, got " + r.s()); c.label("empty result"); return; }
  PBT_CHECK(c, !r.threw && !r.empty && r.l <= r.u, key + "|malformed", "result is " + r.s() + ", should be " + str(want));
  PBT_CHECK(c, r.l <= want.l && want.u <= r.u, key + "|inclusion", "result " + r.s() + " does not contain the image " + str(want));
  bool lend = (f == ASIN && x.l <= -1), uend = (f == ASIN && x.u >= 1) || (f == ACOS && x.l <= -1);
  PBT_CHECK(c, lend ? within_pi(r.l, want.l) : r.l == want.l, key + "|tight-lower", "lower bound of " + r.s() + " is not the tight " + str(want));
  PBT_CHECK(c, uend ? within_pi(r.u, want.u) : r.u == want.u, key + "|tight-upper", "upper bound of " + r.s() + " is not the tight " + str(want));
  if (lend || uend) c.label("domain end (pi)");
  // an inner point, at higher precision
  mpq_class p = g.point(x);
  if (abs(p) < 1000000 && (p == 0 || abs(p) > mpq_class(1, 1000000000)) ) {
    orc::NearestScope ns; orc::wide(); orc::Num v(400), lo(64), hi(64);
    mpfr_set_q(v.v, p.get_mpq_t(), MPFR_RNDN);
    mf(f)(v.v, v.v, MPFR_RNDN);
    if (!mpfr_nan_p(v.v) && !mpfr_inf_p(v.v)) {
      orc::mset(lo.v, r.l); orc::mset(hi.v, r.u);
      // 400-bit value: allow for its own rounding only when it sits exactly on a bound
      bool in = mpfr_lessequal_p(lo.v, v.v) && mpfr_lessequal_p(v.v, hi.v);
      PBT_CHECK(c, in, key + "|point", "value at point " + p.get_str().substr(0, 150) + " is outside " + r.s());
      c.label("inner point checked");
    }
  }
}
PBT_PROP(fn_def, 2) { prop<TOppS>(s, c); }
PBT_PROP(fn_opp, 1) { prop<TOpp>(s, c); }
PBT_PROP(fn_std, 2) { prop<TStd>(s, c); }
