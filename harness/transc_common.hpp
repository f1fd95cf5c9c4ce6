#pragma once
#include "common.hpp"
// Rounding policy with correctly rounded scalar transcendental bounds (MPFR), over one of the library's
// arithmetic policies. BASE has to be opp or std arithmetic for T.
template <class BASE> struct TransRnd : BASE {
# define F1(f, g) T f##_down(const T &x) { return orc::op1<T>(g, x, orc::DN); } T f##_up(const T &x) { return orc::op1<T>(g, x, orc::UP); }
  F1(exp, mpfr_exp) F1(log, mpfr_log) F1(sin, mpfr_sin) F1(cos, mpfr_cos) F1(tan, mpfr_tan)
  F1(asin, mpfr_asin) F1(acos, mpfr_acos) F1(atan, mpfr_atan) F1(sinh, mpfr_sinh) F1(cosh, mpfr_cosh) F1(tanh, mpfr_tanh)
  F1(asinh, mpfr_asinh) F1(acosh, mpfr_acosh) F1(atanh, mpfr_atanh)
# undef F1
};
template <class BASE> struct TransPol : il::save_state<TransRnd<BASE>> {};
typedef bn::interval<T, il::policies<TransPol<il::rounded_arith_opp<T>>, il::checking_strict<T>>> TOppS;
typedef bn::interval<T, il::policies<TransPol<il::rounded_arith_opp<T>>, il::checking_base<T>>> TOpp;
typedef bn::interval<T, il::policies<TransPol<il::rounded_arith_std<T>>, il::checking_base<T>>> TStd;
template <> struct allows_empty<TOpp> { enum { value = 1 }; };
template <> struct allows_empty<TStd> { enum { value = 1 }; };
template <> inline const char *pname<TOppS>() { return "mpfr-opp/strict"; }
template <> inline const char *pname<TOpp>() { return "mpfr-opp/base"; }
template <> inline const char *pname<TStd>() { return "mpfr-std/base"; }
