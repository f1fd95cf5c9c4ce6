// C06: integer roots: inclusion, emptiness, root-of-power, closeness, termination (hang = failure).
#include "common.hpp"

static T rroot(T v, unsigned long k, mpfr_rnd_t rd) { // real root, odd roots of negatives allowed
  static orc::Num *x = new orc::Num(64);
  orc::NearestScope ns; orc::wide(); orc::mset(x->v, v);
  return orc::crop<T>([&](mpfr_t o, mpfr_rnd_t d) { return mpfr_rootn_ui(o, x->v, k, d); }, rd);
}
static Iv<T> image(const Iv<T> &x, int k) {
  if (k % 2 == 0) { if (x.u < 0) return Iv<T>(); return Iv<T>(x.l <= 0 ? T(0) : rroot(x.l, k, orc::DN), x.u == 0 ? T(0) : rroot(x.u, k, orc::UP)); }
  return Iv<T>(x.l == 0 ? T(0) : rroot(x.l, k, orc::DN), x.u == 0 ? T(0) : rroot(x.u, k, orc::UP));
}
static int gen_k(pbt::Src &s, pbt::Ctx &c) {
  static const int sp[] = {INT_MAX, INT_MAX - 1, 1 << 30, 1000000, 65536, 4095};
  int k;
  switch (s.weighted({8, 4, 2, 1, 1})) {
    case 0: k = 2 + (int)s.below(6); break;
    case 1: k = 1 + (int)s.below(40); break;
    case 2: k = 1 + (int)s.below(2000); break;
    case 3: k = s.pick(sp); break;
    default: k = 1 + (int)(s.bits() >> (34 + s.below(25))); break;
  }
  c.label(k == 1 ? "order 1" : k % 2 ? (k > 100 ? "order large odd" : "order odd") : (k > 100 ? "order large even" : "order even"));
  return k;
}
static bool moderate(T v) { T a = std::fabs(v); return v == 0 || (a >= std::ldexp(T(1), -12) && a <= std::ldexp(T(1), 12)); }
static void near(pbt::Ctx &c, const std::string &key, T got, T want, int k, const std::string &rs) {
  // distance in units in the last place of the wanted bound
  T ulp = want == 0 ? 0 : std::fabs(want) * std::numeric_limits<T>::epsilon();
  T d = std::fabs(got - want);
  PBT_CHECK(c, d <= ulp * 64, key + "|close", "bound " + str(got) + " is more than 64 units in the last place away from the exact root (rounded " + str(want) + "), result " + rs);
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); int k = gen_k(s, c); Iv<T> x;
  switch (s.weighted({4, 4, 1})) {
    case 0: x = g.interval(); break;
    case 1: { auto one = [&] { T v = std::ldexp(g.mantissa(), s.range(-12, 11)); if (s.chance(1, 4)) v = (T)s.range(0, 4096); return s.chance(1, 3) ? -v : v; }; T a = one(), b = s.chance(1, 4) ? a : one(); if (b < a) std::swap(a, b); x = Iv<T>(a, b); } break;
    default: { T v = std::pow((T)s.range(1, 40), (T)(2 + s.below(3))); T w = s.coin() ? v : v * 8; x = Iv<T>(v, w); } break; // perfect powers
  }
  g.hash(x); c.h(k); g.classify(x, "x");
  NOTE(c, std::string("nth_root (") + pname<I>() + ") x=" + str(x) + " k=" + std::to_string(k));
  Iv<T> want = image(x, k);
  Res r = run([&] { return bn::nth_root(mk<I>(x), k); });
  NOTE(c, "result=" + r.s());
  std::string key = std::string("nth_root|") + pname<I>();
  c.nontrivial();
  if (want.empty) { PBT_CHECK(c, allows_empty<I>::value ? (!r.threw && r.empty) : r.threw, key + "|empty", "expected empty, got " + r.s()); c.label("empty result"); return; }
  PBT_CHECK(c, !r.threw && !r.empty && r.l <= r.u, key + "|malformed", "result is " + r.s() + ", should contain " + str(want));
  PBT_CHECK(c, r.l <= want.l && want.u <= r.u, key + "|inclusion", "result " + r.s() + " does not contain the image " + str(want));
  if (k == 1) { PBT_CHECK(c, r.iv() == x, key + "|order1", "first root must be the argument, got " + r.s()); return; }
  if (k % 2 == 0) PBT_CHECK(c, r.l >= 0, key + "|even-negative", "even root has negative lower bound " + r.s());
  if (k <= 12) {
    if (moderate(x.l) || (k % 2 == 0 && x.l <= 0)) near(c, key + "|lower", r.l, want.l, k, r.s());
    if (moderate(x.u)) { near(c, key + "|upper", r.u, want.u, k, r.s()); c.label("closeness checked"); }
  }
}
PBT_PROP(root_def, 2) { prop<IDef>(s, c); }
PBT_PROP(root_std, 2) { prop<IStd>(s, c); }
PBT_PROP(root_opp, 1) { prop<IOpp>(s, c); }

template <class I> void root_pow(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); int k = gen_k(s, c);
  Iv<T> x = g.interval();
  if (s.chance(1, 2)) { auto one = [&] { return std::ldexp(g.mantissa(), s.range(-(int)(orc::FT<T>::emax / k / 2), (int)(orc::FT<T>::emax / k / 2))) * (s.chance(1, 3) ? -1 : 1); }; T a = one(), b = one(); if (b < a) std::swap(a, b); x = Iv<T>(a, b); }
  g.hash(x); c.h(k);
  NOTE(c, std::string("nth_root(pow(x,k),k) (") + pname<I>() + ") x=" + str(x) + " k=" + std::to_string(k));
  Res r = run([&] { return bn::nth_root(bn::pow(mk<I>(x), k), k); });
  NOTE(c, "result=" + r.s());
  Iv<T> want = k % 2 ? x : orc::r_abs(x);
  PBT_CHECK(c, !r.threw && !r.empty && r.l <= want.l && want.u <= r.u, std::string("root_pow|") + pname<I>(), "root of power " + r.s() + " does not contain " + str(want));
  c.nontrivial(r.l != r.u);
}
PBT_PROP(root_of_power_def, 1) { root_pow<IDef>(s, c); }
PBT_PROP(root_of_power_std, 1) { root_pow<IStd>(s, c); }
