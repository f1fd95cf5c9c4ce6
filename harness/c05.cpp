// C05: integer powers: inclusion of the exact power, sign/zero structure, error bound, exactness.
#include "common.hpp"

// x^n rounded; x may be infinite. Ternary through *t.
static T rpow(T x, long n, mpfr_rnd_t rd, int *tern = nullptr) {
  static orc::Num *v = new orc::Num(64);
  orc::NearestScope ns; orc::wide(); orc::mset(v->v, x);
  int tt = 0;
  T r = orc::crop<T>([&](mpfr_t o, mpfr_rnd_t d) { tt = mpfr_pow_si(o, v->v, n, d); return tt; }, rd);
  if (tern) *tern = tt;
  return r;
}
// tightest image of t -> t^n over x (n != 0; for n<0 over x without zero)
static Iv<T> image(const Iv<T> &x, long n) {
  if (n == 0) return Iv<T>(1, 1);
  if (n < 0 && x.l == 0 && x.u == 0) return Iv<T>();
  bool even = n % 2 == 0;
  if (n > 0) {
    if (!even) return Iv<T>(rpow(x.l, n, orc::DN), rpow(x.u, n, orc::UP));
    Iv<T> a = orc::r_abs(x);
    return Iv<T>(a.l == 0 ? T(0) : rpow(a.l, n, orc::DN), rpow(a.u, n, orc::UP));
  }
  if (even) { Iv<T> a = orc::r_abs(x); return Iv<T>(rpow(a.u, n, orc::DN), a.l == 0 ? orc::inf<T>() : rpow(a.l, n, orc::UP)); }
  // odd negative: decreasing on each side of zero
  Iv<T> r;
  if (x.u > 0) { T l = orc::mx(x.l, T(0)); r = orc::r_hull(r, Iv<T>(rpow(x.u, n, orc::DN), l == 0 ? orc::inf<T>() : rpow(l, n, orc::UP))); }
  if (x.l < 0) { T u = orc::mn(x.u, T(0)); r = orc::r_hull(r, Iv<T>(u == 0 ? -orc::inf<T>() : rpow(u, n, orc::DN), rpow(x.l, n, orc::UP))); }
  return r;
}
static bool normal(T v) { return std::isfinite(v) && std::fabs(v) >= std::numeric_limits<T>::min() * 4 && std::fabs(v) < std::numeric_limits<T>::max() / 4; }
// can every multiplication on the way to |v|^n be exact? (true if |v|^|n| itself is exactly representable)
static bool exact_power(T v, long n) { if (v == 0) return true; if (!std::isfinite(v)) return false; int t; T r = rpow(v, n < 0 ? -n : n, orc::DN, &t); return t == 0 && normal(r); }
// relative error bound of the bound b against the exact endpoint power e (given by its two roundings)
static bool close(T v, long n, T b, bool lowerb) {
  long k = n < 0 ? -n : n;
  // |b - exact| <= |exact| * ((1+2^(1-p))^(k+1) - 1), all evaluated in MPFR with 200 bits
  orc::NearestScope ns; orc::wide();
  orc::Num e(200), f(200), d(200), x(64);
  orc::mset(x.v, v); mpfr_pow_si(e.v, x.v, n, MPFR_RNDN); mpfr_abs(e.v, e.v, MPFR_RNDN);
  mpfr_set_ui_2exp(f.v, 1, 1 - orc::FT<T>::prec, MPFR_RNDN); mpfr_add_ui(f.v, f.v, 1, MPFR_RNDN); mpfr_pow_si(f.v, f.v, k + 2, MPFR_RNDN); mpfr_sub_ui(f.v, f.v, 1, MPFR_RNDN); mpfr_mul(f.v, f.v, e.v, MPFR_RNDN);
  orc::mset(x.v, std::fabs(b)); mpfr_sub(d.v, x.v, e.v, MPFR_RNDN); mpfr_abs(d.v, d.v, MPFR_RNDN);
  return mpfr_lessequal_p(d.v, f.v);
}
// which endpoint power makes a bound
template <class I> void check(pbt::Src &s, pbt::Ctx &c, Gen<T> &g, const Iv<T> &x, int n) {
  Iv<T> want = image(x, n);
  std::string key = std::string("pow|") + pname<I>();
  if (x.l == 0 && x.u == 0 && n == 0) { c.label("0^0 (excluded)"); return; }
  Res r = run([&] { return bn::pow(mk<I>(x), n); });
  NOTE(c, "result=" + r.s());
  if (want.empty) { PBT_CHECK(c, allows_empty<I>::value ? (!r.threw && r.empty) : r.threw, key + "|empty", "negative power of zero must be empty, got " + r.s()); c.label("empty result"); c.nontrivial(); return; }
  PBT_CHECK(c, !r.threw && !r.empty && r.l <= r.u, key + "|malformed", "result is " + r.s() + ", expected to contain " + str(want));
  if (n == 0) { PBT_CHECK(c, r.l == 1 && r.u == 1, key + "|zero-exponent", "x^0 must be [1,1], got " + r.s()); c.label("exponent 0"); c.nontrivial(); return; }
  PBT_CHECK(c, r.l <= want.l && want.u <= r.u, key + "|inclusion", "result " + r.s() + " does not contain the image " + str(want));
  if (n % 2 == 0) {
    PBT_CHECK(c, r.l >= 0, key + "|even-negative", "even power has a negative lower bound: " + r.s());
    if (n > 0 && x.l <= 0 && x.u >= 0) PBT_CHECK(c, r.l == 0, key + "|even-zero", "even power over zero must start at 0: " + r.s());
  }
  // small exponents: sampled points in exact rationals
  if (n <= 12 && n >= -12) {
    mpq_class p = g.point(x), v = 1;
    if (n > 0 || p != 0) {
      for (int i = 0; i < std::abs(n); i++) v *= p;
      if (n < 0) v = 1 / v;
      PBT_CHECK(c, orc::q_in(v, r.l, r.u), key + "|point", "exact power of point " + p.get_str().substr(0, 200) + " is not in " + r.s());
    }
  }
  // per-bound precision: find the endpoint that determines each bound
  long k = n < 0 ? -(long)n : n;
  for (int side = 0; side < 2; side++) {
    T b = side ? r.u : r.l, w = side ? want.u : want.l;
    if (!std::isfinite(w) || w == 0) { // exact structural bounds
      if (w == 0 && (x.l == 0 || x.u == 0 || (x.l <= 0 && x.u >= 0) ) && n > 0) PBT_CHECK(c, b == 0 , key + "|zero-bound", "bound should be exactly zero: " + r.s());
      continue;
    }
    T cand[2] = {x.l, x.u};
    for (T v : cand) {
      if (!std::isfinite(v) || v == 0) continue;
      T e = rpow(v, n, side ? orc::UP : orc::DN);
      if (e != w) continue;
      // forward power must stay in the normal range, and so must the reciprocal
      T fw = rpow(v, k, orc::NR), bw = rpow(v, -k, orc::NR);
      if (!normal(fw) || (n < 0 && !normal(bw))) { c.label("bound outside normal range"); break; }
      if (std::ldexp((double)k, 4 - orc::FT<T>::prec) > 1) { c.label("exponent too large for an error claim"); break; } // the accumulated error could itself leave the range
      if (exact_power(v, n)) { PBT_CHECK(c, b == w, key + "|exact", std::string(side ? "upper" : "lower") + " bound " + str(b) + " should be exactly rounded " + str(w)); c.label("bound with representable power"); c.nontrivial(); }
      else { PBT_CHECK(c, close(v, n, b, !side), key + "|error", std::string(side ? "upper" : "lower") + " bound " + str(b) + " is farther from the exact power of " + str(v) + " (rounded " + str(w) + ") than the multiplication errors allow"); c.label("bound with rounding error"); c.nontrivial(); }
      break;
    }
  }
}
static int gen_exp(pbt::Src &s, pbt::Ctx &c) {
  static const int sp[] = {INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, 1 << 30, -(1 << 30), (1 << 30) - 1, 1 << 16, 65535, -65535};
  int k;
  switch (s.weighted({8, 5, 3, 2, 2})) {
    case 0: k = (int)s.below(10); break;
    case 1: k = (int)s.below(70); break;
    case 2: k = (int)s.below(5000); break;
    case 3: k = s.pick(sp); break;
    default: k = (int)(s.bits() >> (33 + s.below(25))); break;
  }
  if (s.chance(2, 5) && k != INT_MIN) k = -k;
  c.label(k == 0 ? "exp:0" : std::string("exp:") + (k < 0 ? "-" : "+") + (k % 2 ? "odd" : "even") + (k > 5000 || k < -5000 ? " huge" : ""));
  return k;
}
static Iv<T> gen_base(pbt::Src &s, Gen<T> &g, int k) {
  if (s.chance(1, 4)) return g.interval();
  // bounds whose k-th power is likely to stay finite
  int kk = k == INT_MIN ? INT_MAX : std::max(1, std::abs(k));
  auto one = [&]() -> T {
    T v;
    switch (s.weighted({4, 3, 2})) {
      case 0: { int room = orc::FT<T>::emax / kk; v = std::ldexp(g.mantissa(), room > 1 ? s.range(-std::min(room - 1, 2000), std::min(room - 1, 2000)) : 0); if (room <= 1) { // near one
          double span = (double)orc::FT<T>::emax * 0.69 / kk; v = T(1) + (T)(span * ((int)s.below(2001) - 1000) / 1000.0); } } break;
      case 1: v = (T)(int)s.range(1, 12); if (s.coin()) v = v / 4; break;
      default: v = std::ldexp(T(1), s.range(-6, 6)); break;
    }
    return v;
  };
  T a = one(), b = s.chance(1, 5) ? a : one();
  switch (s.weighted({4, 3, 3, 1, 1})) {
    case 0: break;
    case 1: a = -a; b = -b; break;
    case 2: a = -a; break;
    case 3: a = s.coin() ? T(0) : -T(0); if (s.coin()) b = -b; break;
    default: b = s.coin() ? orc::inf<T>() : a; if (s.coin()) { a = -a; b = -b; } break;
  }
  if (b < a) std::swap(a, b);
  return Iv<T>(a, b);
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); int k = gen_exp(s, c); Iv<T> x = gen_base(s, g, k);
  g.hash(x); c.h((uint64_t)(int64_t)k); g.classify(x, "x");
  NOTE(c, std::string("pow (") + pname<I>() + ") x=" + str(x) + " exponent=" + std::to_string(k));
  check<I>(s, c, g, x, k);
}
PBT_PROP(pow_def, 2) { prop<IDef>(s, c); }
PBT_PROP(pow_std, 2) { prop<IStd>(s, c); }
PBT_PROP(pow_opp, 1) { prop<IOpp>(s, c); }
