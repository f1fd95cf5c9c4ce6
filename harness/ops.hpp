// Table of the library's interval-valued operations, applied to objects of any interval type over T.
#pragma once
#include "transc_common.hpp"
enum { X = 1, Y = 2, N = 4, N2 = 8, K = 16, TRANS = 32 };
enum Op { O_neg, O_add, O_sub, O_mul, O_div, O_add_n, O_sub_n, O_mul_n, O_div_n, O_nadd, O_nsub, O_nmul, O_ndiv,
  O_padd, O_psub, O_pmul, O_pdiv, O_padd_n, O_psub_n, O_pmul_n, O_pdiv_n, O_add2, O_sub2, O_mul2, O_div2,
  O_min, O_max, O_min_n, O_max_n, O_nmin, O_nmax, O_hull, O_hull_n, O_nhull, O_hull2, O_hullfree, O_intersect,
  O_abs, O_square, O_sqrt, O_pow, O_root, O_inv, O_part1, O_part2, O_part2f, O_fmod, O_fmod_n, O_nfmod, O_widen, O_bis1, O_bis2,
  O_ctor, O_ctor2, O_asg, O_asg2, O_fromempty, O_copy, O_cross, O_empty, O_set_empty, O_ctor_int, O_ctor_pair_int,
  O_ctor_w, O_asg_w, O_ctor2_w, O_ctor_i64, O_ctor_iv, O_asg_iv,
  O_exp, O_log, O_sin, O_cos, O_tan, O_asin, O_acos, O_atan, O_sinh, O_cosh, O_tanh, O_asinh, O_acosh, O_atanh, OPS };
static const struct { const char *n; int use; } OT[OPS] = {
  {"-x", X}, {"x+y", X | Y}, {"x-y", X | Y}, {"x*y", X | Y}, {"x/y", X | Y}, {"x+t", X | N}, {"x-t", X | N}, {"x*t", X | N}, {"x/t", X | N}, {"t+x", X | N}, {"t-x", X | N}, {"t*x", X | N}, {"t/x", X | N},
  {"x+=y", X | Y}, {"x-=y", X | Y}, {"x*=y", X | Y}, {"x/=y", X | Y}, {"x+=t", X | N}, {"x-=t", X | N}, {"x*=t", X | N}, {"x/=t", X | N}, {"add(t,v)", N | N2}, {"sub(t,v)", N | N2}, {"mul(t,v)", N | N2}, {"div(t,v)", N | N2},
  {"min(x,y)", X | Y}, {"max(x,y)", X | Y}, {"min(x,t)", X | N}, {"max(x,t)", X | N}, {"min(t,x)", X | N}, {"max(t,x)", X | N}, {"hull(x,y)", X | Y}, {"hull(x,t)", X | N}, {"hull(t,x)", X | N}, {"I::hull(t,v)", N | N2}, {"hull(hull(t,t),v)", N | N2}, {"intersect", X | Y},
  {"abs", X}, {"square", X}, {"sqrt", X}, {"pow", X | K}, {"nth_root", X | K}, {"multiplicative_inverse", X}, {"division_part1", X | Y}, {"division_part2", X | Y}, {"division_part2(false)", X | Y}, {"fmod(x,y)", X | Y}, {"fmod(x,t)", X | N}, {"fmod(t,x)", X | N}, {"widen", X | N}, {"bisect.first", X}, {"bisect.second", X},
  {"I(t)", N}, {"I(t,v)", N | N2}, {"=t", N}, {"assign(t,v)", N | N2}, {"I(interval with other policy)", X}, {"copy", X}, {"assign other policy", X}, {"I::empty()", 0}, {"assign(1,0)", 0}, {"I(int)", K}, {"I(int,int)", K},
  {"I(wider t)", N}, {"=wider t", N}, {"I(int,wider t)", K | N}, {"I(long long)", K}, {"I(interval of a wider type)", X}, {"=interval of a wider type", X},
  {"exp", X | TRANS}, {"log", X | TRANS}, {"sin", X | TRANS}, {"cos", X | TRANS}, {"tan", X | TRANS}, {"asin", X | TRANS}, {"acos", X | TRANS}, {"atan", X | TRANS}, {"sinh", X | TRANS}, {"cosh", X | TRANS}, {"tanh", X | TRANS}, {"asinh", X | TRANS}, {"acosh", X | TRANS}, {"atanh", X | TRANS}};
typedef bn::interval<T, il::policies<il::save_state<std_arith<T>>, il::checking_base<T>>> Other;  // source of cross-policy conversions

// a long double just above t (mode-independent; never infinite for a finite t); an interval of long double with such bounds
static long double wide(T t) { return std::isinf(t) || t != t || (long double)t == std::numeric_limits<long double>::max() ? (long double)t : std::nextafter((long double)t, std::numeric_limits<long double>::infinity()); }
typedef bn::interval<long double, il::policies<il::save_state<std_arith<long double>>, il::checking_base<long double>>> Wide;
static Wide widen_iv(const Other &o) { return bn::empty(o) ? Wide::empty() : Wide(wide(o.lower()), wide(o.upper())); }
static bool crossing(int op) { return op == O_fromempty || op == O_cross || op == O_ctor_iv || op == O_asg_iv; }   // take an interval of another type

template <class I> I ap_trans(int op, const I &x) {
  switch (op) {
    case O_exp: return bn::exp(x); case O_log: return bn::log(x); case O_sin: return bn::sin(x); case O_cos: return bn::cos(x); case O_tan: return bn::tan(x); case O_asin: return bn::asin(x); case O_acos: return bn::acos(x); case O_atan: return bn::atan(x);
    case O_sinh: return bn::sinh(x); case O_cosh: return bn::cosh(x); case O_tanh: return bn::tanh(x); case O_asinh: return bn::asinh(x); case O_acosh: return bn::acosh(x); default: return bn::atanh(x);
  }
}
// transcendental functions only with TR (the rounding policy has to provide them)
template <class I, bool TR = true> I ap_obj(int op, const I &x, const I &y, const T &t, const T &v, int k, const Other &o) {
  I r(T(2), T(3)); bool b;
  if constexpr (TR) if (op >= O_exp) return ap_trans<I>(op, x);
  switch (op) {
    case O_neg: return -x; case O_add: return x + y; case O_sub: return x - y; case O_mul: return x * y; case O_div: return x / y;
    case O_add_n: return x + t; case O_sub_n: return x - t; case O_mul_n: return x * t; case O_div_n: return x / t; case O_nadd: return t + x; case O_nsub: return t - x; case O_nmul: return t * x; case O_ndiv: return t / x;
    case O_padd: r = x; r += y; return r; case O_psub: r = x; r -= y; return r; case O_pmul: r = x; r *= y; return r; case O_pdiv: r = x; r /= y; return r;
    case O_padd_n: r = x; r += t; return r; case O_psub_n: r = x; r -= t; return r; case O_pmul_n: r = x; r *= t; return r; case O_pdiv_n: r = x; r /= t; return r;
    case O_add2: return il::add<I>(t, v); case O_sub2: return il::sub<I>(t, v); case O_mul2: return il::mul<I>(t, v); case O_div2: return il::div<I>(t, v);
    case O_min: return (bn::min)(x, y); case O_max: return (bn::max)(x, y); case O_min_n: return (bn::min)(x, t); case O_max_n: return (bn::max)(x, t); case O_nmin: return (bn::min)(t, x); case O_nmax: return (bn::max)(t, x);
    case O_hull: return bn::hull(x, y); case O_hull_n: return bn::hull(x, t); case O_nhull: return bn::hull(t, x); case O_hull2: return I::hull(t, v); case O_hullfree: return bn::hull(I::hull(t, t), v); case O_intersect: return bn::intersect(x, y);
    case O_abs: return bn::abs(x); case O_square: return bn::square(x); case O_sqrt: return bn::sqrt(x); case O_pow: return bn::pow(x, k); case O_root: return bn::nth_root(x, k < 1 ? 1 - k : k);
    case O_inv: return il::multiplicative_inverse(x); case O_part1: return il::division_part1(x, y, b);
    case O_part2: { I p = il::division_part1(x, y, b); (void)p; return il::division_part2(x, y, b); }
    case O_part2f: return il::division_part2(x, y, false);
    case O_fmod: return bn::fmod(x, y); case O_fmod_n: return bn::fmod(x, t); case O_nfmod: return bn::fmod(t, x); case O_widen: return bn::widen(x, t); case O_bis1: return bn::bisect(x).first; case O_bis2: return bn::bisect(x).second;
    case O_ctor: return I(t); case O_ctor2: return I(t, v); case O_asg: r = t; return r; case O_asg2: r.assign(t, v); return r;
    case O_fromempty: return I(o);
    case O_copy: { I c(x); r = c; return r; }
    case O_cross: r = o; return r;
    case O_empty: return I::empty(); case O_set_empty: r.assign(T(1), T(0)); return r; case O_ctor_int: return I(k); case O_ctor_pair_int: return I(k, 5);
    case O_ctor_w: return I(wide(t)); case O_asg_w: r = wide(t); return r; case O_ctor2_w: return I(k, wide(t)); case O_ctor_i64: return I(k * 0xffffffffLL); case O_ctor_iv: return I(widen_iv(o)); case O_asg_iv: r = widen_iv(o); return r;
    default: throw pbt::Discard();
  }
}
template <class I> I ap(int op, const Iv<T> &xi, const Iv<T> &yi, const T &t, const T &v, int k) {
  bool fo = crossing(op);
  return ap_obj<I>(op, OT[op].use & X && !fo ? mk<I>(xi) : I(), OT[op].use & Y ? mk<I>(yi) : I(), t, v, k, fo ? mk<Other>(xi) : Other());
}
// is the documented result empty, all operands being non-empty and no NaN?
static bool empties(int op, const Iv<T> &x, const Iv<T> &y, T t, T v, int k) {
  auto zero = [](const Iv<T> &i) { return i.l == 0 && i.u == 0; };
  switch (op) {
    case O_div: case O_pdiv: case O_part1: return zero(y);
    case O_div_n: case O_pdiv_n: return t == 0;
    case O_ndiv: case O_inv: return zero(x);
    case O_div2: return v == 0;
    case O_intersect: return orc::mx(x.l, y.l) > orc::mn(x.u, y.u);
    case O_sqrt: return x.u < 0;
    case O_pow: return zero(x) && k <= 0;
    case O_root: { if (k < 1) k = 1 - k; return !(k & 1) && x.u < 0; }
    case O_part2: { // one piece only unless zero is strictly inside y and not in x
      return !(y.l < 0 && y.u > 0 && (x.u < 0 || x.l > 0)); }
    case O_part2f: case O_empty: case O_set_empty: return true;
    case O_ctor2: case O_asg2: return t > v;
    case O_ctor_pair_int: return k > 5; case O_ctor2_w: return (long double)k > wide(t);
    case O_log: return x.u <= 0;
    case O_asin: case O_acos: return x.u < -1 || x.l > 1;
    case O_atanh: return x.u <= -1 || x.l >= 1;
    case O_acosh: return x.u < 1;
    default: return false;
  }
}
static const int RARE_ROOT = sizeof(T) > 8 && std::numeric_limits<T>::digits > 53;
