// Independent reference: IEEE directed rounding through MPFR (with the exponent range of the target type),
// exact rationals through GMP, and a set-based reference model of interval operations.
#pragma once
#include <cstdint>
#include <gmpxx.h>
#define MPFR_USE_INTMAX_T
#include <mpfr.h>
#include <cfenv>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <string>

namespace orc {

template <class T> struct FT;
template <> struct FT<float>       { enum { prec = 24, emin = -148,   emax = 128   }; static const char *name() { return "float"; } };
template <> struct FT<double>      { enum { prec = 53, emin = -1073,  emax = 1024  }; static const char *name() { return "double"; } };
template <> struct FT<long double> { enum { prec = 64, emin = -16444, emax = 16384 }; static const char *name() { return "long double"; } };

// The oracle computes in to-nearest x87/SSE mode whatever the code under test left behind.
struct NearestScope {
  int m; NearestScope() : m(fegetround()) { if (m != FE_TONEAREST) fesetround(FE_TONEAREST); }
  ~NearestScope() { if (m != FE_TONEAREST) fesetround(m); }
};

struct Num { // RAII mpfr
  mpfr_t v;
  explicit Num(mpfr_prec_t p = 80) { mpfr_init2(v, p); }
  ~Num() { mpfr_clear(v); }
  Num(const Num &) = delete; Num &operator=(const Num &) = delete;
};

inline void wide() {
  static bool done = false;
  if (!done) { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); done = true; }
}

inline void mset(mpfr_t r, float x) { mpfr_set_flt(r, x, MPFR_RNDN); }
inline void mset(mpfr_t r, double x) { mpfr_set_d(r, x, MPFR_RNDN); }
inline void mset(mpfr_t r, long double x) { mpfr_set_ld(r, x, MPFR_RNDN); }
inline void mget(mpfr_t r, float &x) { x = mpfr_get_flt(r, MPFR_RNDN); }
inline void mget(mpfr_t r, double &x) { x = mpfr_get_d(r, MPFR_RNDN); }
inline void mget(mpfr_t r, long double &x) { x = mpfr_get_ld(r, MPFR_RNDN); }

// f(mpfr_t r, mpfr_rnd_t) -> ternary; r has the precision of T. Result: IEEE rounding into T.
template <class T, class F> T crop(F f, mpfr_rnd_t rd) {
  NearestScope ns; wide();
  static Num *r = new Num(FT<T>::prec);
  int t = f(r->v, rd);
  mpfr_exp_t e0 = mpfr_get_emin(), e1 = mpfr_get_emax();
  mpfr_set_emin(FT<T>::emin); mpfr_set_emax(FT<T>::emax);
  t = mpfr_check_range(r->v, t, rd);
  t = mpfr_subnormalize(r->v, t, rd);
  mpfr_set_emin(e0); mpfr_set_emax(e1);
  T x; mget(r->v, x);
  return x;
}
const mpfr_rnd_t DN = MPFR_RNDD, UP = MPFR_RNDU, NR = MPFR_RNDN;

template <class T> T op2(int (*fn)(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t), T a, T b, mpfr_rnd_t rd) {
  NearestScope ns; wide();
  static Num *x = new Num(64), *y = new Num(64);
  mset(x->v, a); mset(y->v, b);
  return crop<T>([&](mpfr_t r, mpfr_rnd_t d) { return fn(r, x->v, y->v, d); }, rd);
}
template <class T> T op1(int (*fn)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t), T a, mpfr_rnd_t rd) {
  NearestScope ns; wide();
  static Num *x = new Num(64);
  mset(x->v, a);
  return crop<T>([&](mpfr_t r, mpfr_rnd_t d) { return fn(r, x->v, d); }, rd);
}
template <class T> T add(T a, T b, mpfr_rnd_t d) { return op2<T>(mpfr_add, a, b, d); }
template <class T> T sub(T a, T b, mpfr_rnd_t d) { return op2<T>(mpfr_sub, a, b, d); }
// 0 * inf = 0: products of interval endpoints, infinity standing for an unbounded side
template <class T> T mul(T a, T b, mpfr_rnd_t d) { if (a == 0 || b == 0) return 0; return op2<T>(mpfr_mul, a, b, d); }
template <class T> T div(T a, T b, mpfr_rnd_t d) { return op2<T>(mpfr_div, a, b, d); }
template <class T> T sqrt(T a, mpfr_rnd_t d) { return op1<T>(mpfr_sqrt, a, d); }
inline int sqr_fn(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t d) { return mpfr_sqr(r, x, d); }
template <class T, class U> T conv(U a, mpfr_rnd_t rd) {   // floating source
  NearestScope ns; wide();
  static Num *x = new Num(64);
  mset(x->v, a);
  return crop<T>([&](mpfr_t r, mpfr_rnd_t d) { return mpfr_set(r, x->v, d); }, rd);
}
template <class T> T conv_ll(long long a, mpfr_rnd_t rd) { return crop<T>([&](mpfr_t r, mpfr_rnd_t d) { return mpfr_set_sj(r, a, d); }, rd); }
template <class T> T conv_ull(unsigned long long a, mpfr_rnd_t rd) { return crop<T>([&](mpfr_t r, mpfr_rnd_t d) { return mpfr_set_uj(r, a, d); }, rd); }

// exact rational of a finite value
inline mpq_class q(long double x) {
  NearestScope ns;
  int e; long double m = std::frexp(x, &e); // |m| in [0.5,1)
  m = std::ldexp(m, 64); e -= 64;
  bool neg = m < 0; if (neg) m = -m;
  uint64_t u = (uint64_t)m;
  mpz_class z; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &u);
  if (neg) z = -z;
  mpq_class r(z);
  if (e >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e); else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -e);
  return r;
}
template <class T> T from_q(const mpq_class &a, mpfr_rnd_t rd) { return crop<T>([&](mpfr_t r, mpfr_rnd_t d) { return mpfr_set_q(r, a.get_mpq_t(), d); }, rd); }
// v in [l,u], bounds may be infinite
template <class T> bool q_in(const mpq_class &v, T l, T u) {
  if (!(l <= u)) return false;
  if (std::isinf(l)) { if (l > 0) return false; } else if (q(l) > v) return false;
  if (std::isinf(u)) { if (u < 0) return false; } else if (q(u) < v) return false;
  return true;
}

template <class T> struct Iv { // reference interval of reals; empty or [l,u] with l<=u, l<+inf, u>-inf
  T l, u; bool empty;
  Iv() : l(0), u(0), empty(true) {}
  Iv(T a, T b) : l(a), u(b), empty(false) {}
  bool has(T x) const { return !empty && l <= x && x <= u; }
  bool operator==(const Iv &o) const { return empty ? o.empty : !o.empty && l == o.l && u == o.u; }
  bool sub(const Iv &o) const { return empty || (!o.empty && o.l <= l && u <= o.u); }
};
template <class T> T inf() { return std::numeric_limits<T>::infinity(); }
template <class T> Iv<T> whole() { return Iv<T>(-inf<T>(), inf<T>()); }
template <class T> T mn(T a, T b) { return b < a ? b : a; }
template <class T> T mx(T a, T b) { return a < b ? b : a; }

template <class T> Iv<T> r_add(Iv<T> x, Iv<T> y) { if (x.empty || y.empty) return Iv<T>(); return Iv<T>(add(x.l, y.l, DN), add(x.u, y.u, UP)); }
template <class T> Iv<T> r_sub(Iv<T> x, Iv<T> y) { if (x.empty || y.empty) return Iv<T>(); return Iv<T>(sub(x.l, y.u, DN), sub(x.u, y.l, UP)); }
template <class T> Iv<T> r_neg(Iv<T> x) { if (x.empty) return x; return Iv<T>(-x.u, -x.l); }
template <class T> Iv<T> r_mul(Iv<T> x, Iv<T> y) {
  if (x.empty || y.empty) return Iv<T>();
  return Iv<T>(mn(mn(mul(x.l, y.l, DN), mul(x.l, y.u, DN)), mn(mul(x.u, y.l, DN), mul(x.u, y.u, DN))),
               mx(mx(mul(x.l, y.l, UP), mul(x.l, y.u, UP)), mx(mul(x.u, y.l, UP), mul(x.u, y.u, UP))));
}
template <class T> Iv<T> r_hull(Iv<T> x, Iv<T> y) { if (x.empty) return y; if (y.empty) return x; return Iv<T>(mn(x.l, y.l), mx(x.u, y.u)); }
template <class T> Iv<T> r_int(Iv<T> x, Iv<T> y) {
  if (x.empty || y.empty) return Iv<T>();
  T l = mx(x.l, y.l), u = mn(x.u, y.u); return l <= u ? Iv<T>(l, u) : Iv<T>();
}
// closed hull of { a/b : a in x, b in y } where y is (0 < or <= lower): y.l may be 0, then 0 itself excluded.
// 1/y = [1/yu, 1/yl] with 1/0 = +inf, 1/inf = 0; endpoint quotient = x * (1/y), computed as one rounded division.
template <class T> T r_quot(T a, T b, mpfr_rnd_t d) { // a/b for b>=0 extended: b=0 -> sign(a)*inf (0/0=0), b=inf -> 0
  if (a == 0) return 0;
  if (b == 0) return a > 0 ? inf<T>() : -inf<T>();
  if (std::isinf(b)) return std::isinf(a) ? 0 : 0; // limit of unbounded operands: 0 is in the closure
  return div(a, b, d);
}
template <class T> Iv<T> r_div_pos(Iv<T> x, Iv<T> y) { // y.l >= 0, y.u > 0
  T l, u;
  // lower bound: if x.l >= 0 smallest at y.u, else at y.l
  if (x.l >= 0) l = r_quot(x.l, y.u, DN); else l = r_quot(x.l, y.l, DN);
  if (x.u <= 0) u = r_quot(x.u, y.u, UP); else u = r_quot(x.u, y.l, UP);
  // unbounded dividend bound with positive divisor is unbounded
  if (std::isinf(x.l)) l = -inf<T>();
  if (std::isinf(x.u)) u = inf<T>();
  return Iv<T>(l, u);
}
// pieces of x / y
template <class T> void r_div2(Iv<T> x, Iv<T> y, Iv<T> &neg, Iv<T> &pos) { // quotients by the negative / positive part of y
  neg = pos = Iv<T>();
  if (x.empty || y.empty) return;
  if (y.u > 0) pos = r_div_pos(x, Iv<T>(mx(y.l, T(0)), y.u));
  if (y.l < 0) neg = r_div_pos(r_neg(x), Iv<T>(mx(-y.u, T(0)), -y.l));
}
template <class T> Iv<T> r_div(Iv<T> x, Iv<T> y) { Iv<T> a, b; r_div2(x, y, a, b); return r_hull(a, b); }
template <class T> Iv<T> r_square(Iv<T> x) {
  if (x.empty) return x;
  T a = std::fabs(x.l), b = std::fabs(x.u), hi = mx(a, b), lo = (x.l <= 0 && x.u >= 0) ? T(0) : mn(a, b);
  return Iv<T>(mul(lo, lo, DN), mul(hi, hi, UP));
}
template <class T> Iv<T> r_sqrt(Iv<T> x) {
  if (x.empty || x.u < 0) return Iv<T>();
  return Iv<T>(x.l <= 0 ? T(0) : sqrt(x.l, DN), x.u == 0 ? T(0) : sqrt(x.u, UP));
}
template <class T> Iv<T> r_abs(Iv<T> x) {
  if (x.empty) return x;
  T a = std::fabs(x.l), b = std::fabs(x.u);
  return Iv<T>((x.l <= 0 && x.u >= 0) ? T(0) : mn(a, b), mx(a, b));
}
template <class T> Iv<T> r_min(Iv<T> x, Iv<T> y) { if (x.empty || y.empty) return Iv<T>(); return Iv<T>(mn(x.l, y.l), mn(x.u, y.u)); }
template <class T> Iv<T> r_max(Iv<T> x, Iv<T> y) { if (x.empty || y.empty) return Iv<T>(); return Iv<T>(mx(x.l, y.l), mx(x.u, y.u)); }
template <class T> Iv<T> r_inv(Iv<T> x) { return r_div(Iv<T>(1, 1), x); }

// text
inline std::string str(long double x) { char b[80]; snprintf(b, 80, "%La", x); return b; }
inline std::string str(double x) { char b[80]; snprintf(b, 80, "%a", x); return b; }
inline std::string str(float x) { return str((double)x); }
template <class T> std::string dec(T x) { char b[80]; snprintf(b, 80, "%.8Lg", (long double)x); return b; }
template <class T> std::string str(const Iv<T> &x) { return x.empty ? "empty" : "[" + str(x.l) + "," + str(x.u) + "]~[" + dec(x.l) + "," + dec(x.u) + "]"; }
template <class T> std::string str2(T l, T u) { return "[" + str(l) + "," + str(u) + "]~[" + dec(l) + "," + dec(u) + "]"; }

inline uint64_t hbits(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
inline uint64_t hbits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
inline uint64_t hbits(long double x) { uint64_t u; uint16_t e; memcpy(&u, &x, 8); memcpy(&e, (char *)&x + 8, 2); return u ^ ((uint64_t)e * 0x9E3779B97F4A7C15ull); }

} // namespace orc
