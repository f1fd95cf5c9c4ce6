// C08: sin, cos, tan at any magnitude; enclosures of pi.
#include "transc_common.hpp"
enum Fn { SIN, COS, TAN };
static const char *fnn[] = {"sin", "cos", "tan"};
template <class I> Res call(int f, const Iv<T> &x) { return run([&]() -> I { I a = mk<I>(x); return f == SIN ? bn::sin(a) : f == COS ? bn::cos(a) : bn::tan(a); }); }
static T ev(int f, T v, mpfr_rnd_t rd) { return orc::op1<T>(f == SIN ? mpfr_sin : f == COS ? mpfr_cos : mpfr_tan, v, rd); }

// is there an integer n with off*pi/2 + n*per*pi/2 in [l,u]  (l, u finite)
static bool hits(T l, T u, int off, int per) {
  orc::NearestScope ns; orc::wide();
  int e = 0; T m = orc::mx(std::fabs(l), std::fabs(u)); if (m > 0) e = std::max(0, std::ilogb(m)); 
  mpfr_prec_t pr = 400 + e; // reduction error far below any distance of a floating-point number from a multiple of pi/2
  orc::Num hp(pr), a(pr), t(pr), uu(64);
  mpfr_const_pi(hp.v, MPFR_RNDN); mpfr_div_2ui(hp.v, hp.v, 1, MPFR_RNDN);
  orc::Num x(64); orc::mset(x.v, l);
  mpfr_mul_si(t.v, hp.v, off, MPFR_RNDN); mpfr_sub(a.v, x.v, t.v, MPFR_RNDN);           // l - off
  mpfr_mul_ui(t.v, hp.v, per, MPFR_RNDN); mpfr_div(a.v, a.v, t.v, MPFR_RNDN); mpfr_ceil(a.v, a.v);
  mpfr_mul(a.v, a.v, t.v, MPFR_RNDN); mpfr_mul_si(t.v, hp.v, off, MPFR_RNDN); mpfr_add(a.v, a.v, t.v, MPFR_RNDN);
  orc::mset(uu.v, u);
  return mpfr_lessequal_p(a.v, uu.v);
}
static Iv<T> image(int f, const Iv<T> &x) {
  if (std::isinf(x.l) || std::isinf(x.u)) return f == TAN ? orc::whole<T>() : Iv<T>(-1, 1);
  if (f == TAN) { if (hits(x.l, x.u, 1, 2)) return orc::whole<T>(); return Iv<T>(ev(f, x.l, orc::DN), ev(f, x.u, orc::UP)); }
  bool top = hits(x.l, x.u, f == SIN ? 1 : 0, 4), bot = hits(x.l, x.u, f == SIN ? 3 : 2, 4);
  return Iv<T>(bot ? T(-1) : orc::mn(ev(f, x.l, orc::DN), ev(f, x.u, orc::DN)), top ? T(1) : orc::mx(ev(f, x.l, orc::UP), ev(f, x.u, orc::UP)));
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); int f = (int)s.below(3); Iv<T> x;
  switch (s.weighted({5, 4, 4, 1})) {
    case 0: { // near multiples of pi/2, narrow or a few quadrants wide
      long n = s.range(-40, 40); if (s.chance(1, 4)) n = (long)s.range(-2000000, 2000000);
      T b = (T)((long double)n * 1.57079632679489661923132169163975144L);
      auto jit = [&](T v) -> T { switch (s.weighted({3, 2, 2})) { case 0: { int k = s.range(-4, 4); while (k > 0) { v = Gen<T>::ulp_up(v); k--; } while (k < 0) { v = Gen<T>::ulp_dn(v); k++; } return v; } case 1: return v + std::ldexp(g.mantissa(), s.range(-60, 1)) * (s.coin() ? 1 : -1); default: return v + (T)((long double)s.range(-5, 5) * 1.57079632679489661923132169163975144L); } };
      T a = jit(b), d = s.chance(1, 5) ? a : jit(b); if (d < a) std::swap(a, d); x = Iv<T>(a, d); } break;
    case 1: x = g.interval(false); break;
    case 2: { T a = std::ldexp(g.mantissa(), s.range(-8, 8)) * (s.coin() ? -1 : 1); T w = s.chance(1, 5) ? T(0) : std::ldexp(g.mantissa(), s.range(-30, 2)); x = Iv<T>(a, a + w); } break;
    default: x = g.interval(); break;
  }
  if (!(x.l <= x.u) || std::isinf(x.l) && std::isinf(x.u) && x.l == x.u) throw pbt::Discard();
  g.hash(x); c.h(f); g.classify(x, "x"); c.label(std::string("fn:") + fnn[f]);
  NOTE(c, std::string(fnn[f]) + " (" + pname<I>() + ") x=" + str(x));
  Iv<T> want = image(f, x);
  Res r = call<I>(f, x);
  NOTE(c, "result=" + r.s() + " image=" + str(want));
  std::string key = std::string(fnn[f]) + "|" + pname<I>();
  PBT_CHECK(c, !r.threw && !r.empty && r.l <= r.u, key + "|malformed", "result is " + r.s() + ", should contain " + str(want));
  PBT_CHECK(c, r.l <= want.l && want.u <= r.u, key + "|inclusion", "result " + r.s() + " does not contain the image " + str(want));
  if (f != TAN) PBT_CHECK(c, r.l >= -1 && r.u <= 1, key + "|range", "result leaves [-1,1]: " + r.s());
  // closeness for small magnitudes
  T mag = orc::mx(std::fabs(x.l), std::fabs(x.u));
  if (mag <= 100 && x.u - x.l <= 1) {
    long double eps = sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L; // the stored pi has double precision at most
    long double tol = 32 * eps * (1 + (long double)mag);
    if (f == TAN) { long double m = orc::mx(std::fabs(want.l), std::fabs(want.u)); if (!(m <= 10)) { c.label("tan near a pole"); goto out; } tol *= 1 + m * m; tol *= 2; }
    PBT_CHECK(c, (long double)want.l - r.l <= tol && (long double)r.u - want.u <= tol, key + "|close", "result " + r.s() + " is much wider than the image " + str(want));
    c.label("closeness checked");
  }
 out:
  c.nontrivial(!(want.l == -1 && want.u == 1) && !(std::isinf(want.l)));
  c.label_if(mag > 1e6, "large magnitude");
}
PBT_PROP(trig_def, 3) { prop<TOppS>(s, c); }
PBT_PROP(trig_opp, 1) { prop<TOpp>(s, c); }
PBT_PROP(trig_std, 3) { prop<TStd>(s, c); }

// pi constants for the base type and for other types
struct Gen3 { int v; Gen3(int i = 0) : v(i) {} };
template <class U> static void pi_check(pbt::Ctx &c, int k, const char *tn) {
  typedef bn::interval<U, il::policies<il::rounded_math<U>, il::checking_base<U>>> J;
  J p = k == 0 ? il::pi<J>() : k == 1 ? il::pi_half<J>() : il::pi_twice<J>();
  U lo = k == 0 ? il::constants::pi_lower<U>() : k == 1 ? il::constants::pi_half_lower<U>() : il::constants::pi_twice_lower<U>();
  U hi = k == 0 ? il::constants::pi_upper<U>() : k == 1 ? il::constants::pi_half_upper<U>() : il::constants::pi_twice_upper<U>();
  static const char *nm[] = {"pi", "pi_half", "pi_twice"};
  std::string key = std::string(nm[k]) + "|" + tn;
  NOTE(c, key + " = " + orc::str2<long double>(p.lower(), p.upper()));
  orc::Num v(300), a(64), b(64); mpfr_const_pi(v.v, MPFR_RNDN);
  if (k == 1) mpfr_div_2ui(v.v, v.v, 1, MPFR_RNDN); if (k == 2) mpfr_mul_2ui(v.v, v.v, 1, MPFR_RNDN);
  orc::mset(a.v, (long double)p.lower()); orc::mset(b.v, (long double)p.upper());
  PBT_CHECK(c, mpfr_cmp(a.v, v.v) <= 0 && mpfr_cmp(v.v, b.v) <= 0, key + "|enclosure", "the constant is not enclosed");
  PBT_CHECK(c, lo == p.lower() && hi == p.upper(), key + "|same", "scalar constants and interval differ");
  if (std::numeric_limits<U>::is_iec559) { // narrow for the floating types
    long double rel = ((long double)p.upper() - (long double)p.lower()) / (long double)p.upper();
    PBT_CHECK(c, rel <= (sizeof(U) == 4 ? 1.2e-7L : 2.3e-16L), key + "|wide", "enclosure wider than one unit in the last place");
  } else PBT_CHECK(c, p.upper() - p.lower() <= 1, key + "|wide", "generic enclosure wider than the neighbouring integers");
  c.h(k); for (const char *q = tn; *q; q++) c.h(*q); c.nontrivial();
}
PBT_ENUM(pi_constants, 15) {
  int i = (int)s.below(15), k = i % 3;
  switch (i / 3) { case 0: pi_check<float>(c, k, "float"); break; case 1: pi_check<double>(c, k, "double"); break; case 2: pi_check<long double>(c, k, "long double"); break; case 3: pi_check<int>(c, k, "int"); break; default: pi_check<long>(c, k, "long"); }
}
