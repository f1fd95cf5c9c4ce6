#pragma once
typedef long double long_double;
#ifdef BACKEND
#include "backend.hpp"
#elif defined(X87)
#include "x87.hpp"
#endif
#include <boost/numeric/interval.hpp>
#include "gen.hpp"
#ifndef HT
#define HT double
#endif
typedef HT T;
namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;
using orc::Iv; using orc::str;

// -DOPT (optimised builds): compilers merge equal expressions evaluated in different rounding modes, even with
// -frounding-math, so the mode-switching policy cannot be judged there; a second spelling of the single-mode policy stands in
#ifdef OPT
template <class U> struct rc2 : il::rounding_control<U> {};
template <class U> struct std_arith : il::rounded_arith_opp<U, rc2<U>> {};
#else
template <class U> using std_arith = il::rounded_arith_std<U>;
#endif
// policies under test
typedef bn::interval<T> IDef;                                                                  // default: opp rounding, strict checking
typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T>>> IOpp;         // empties allowed
typedef bn::interval<T, il::policies<il::save_state<std_arith<T>>, il::checking_base<T>>> IStd;
typedef bn::interval<T, il::policies<il::save_state<std_arith<T>>, il::checking_strict<T>>> IStdStrict;

// empty intervals written as [max, -max], recognised by exactly these bounds: no other policy's empties pass for empty
template <class U> struct marked_of : il::checking_base<U> {
  static U empty_lower() { return (std::numeric_limits<U>::max)(); } static U empty_upper() { return -(std::numeric_limits<U>::max)(); }
  static bool is_empty(const U &l, const U &u) { return l == empty_lower() && u == empty_upper(); }
};
typedef marked_of<T> checking_marked;
typedef bn::interval<T, il::policies<il::rounded_math<T>, checking_marked>> IMark;
// empty intervals written as two particular numbers in order: the documentation asks nothing of the empty bounds, the
// policy's own test decides, so code that forgets the test takes an empty interval for an ordinary one
template <class U> struct ordered_of : il::checking_base<U> {
  static U empty_lower() { return U(-0x1.7a3f2cp+3f); } static U empty_upper() { return U(0x1.33b1d6p+4f); }
  static bool is_empty(const U &l, const U &u) { return l == empty_lower() && u == empty_upper(); }
};
typedef ordered_of<T> checking_ordered;
typedef bn::interval<T, il::policies<il::rounded_math<T>, checking_ordered>> IOrd;

template <class I> struct allows_empty { enum { value = 0 }; };
template <> struct allows_empty<IOpp> { enum { value = 1 }; };
template <> struct allows_empty<IStd> { enum { value = 1 }; };
template <> struct allows_empty<IMark> { enum { value = 1 }; };
template <> struct allows_empty<IOrd> { enum { value = 1 }; };
template <class I> const char *pname();
template <> inline const char *pname<IDef>() { return "opp/strict"; }
template <> inline const char *pname<IOpp>() { return "opp/base"; }
template <> inline const char *pname<IStd>() { return "std/base"; }
template <> inline const char *pname<IStdStrict>() { return "std/strict"; }

template <> inline const char *pname<IMark>() { return "opp/marked"; }
template <> inline const char *pname<IOrd>() { return "opp/ordered"; }

template <class I> I mk(const Iv<T> &x) { return x.empty ? I::empty() : I(x.l, x.u); }
template <class I> struct Out { T l, u; bool empty; bool threw; };
// raw outcome of a library call
struct Res {
  T l = 0, u = 0; bool empty = false, threw = false;
  bool wf() const { return threw || empty || l <= u; }
  Iv<T> iv() const { return (empty || threw) ? Iv<T>() : Iv<T>(l, u); }
  std::string s() const { return threw ? "threw" : empty ? "empty" : orc::str2(l, u); }
};
template <class I> Res res(const I &x) { Res r; r.l = x.lower(); r.u = x.upper(); r.empty = bn::empty(x); return r; }
// run f, turning the strict policy's "empty interval created" error into an empty outcome
template <class F> Res run(F f) {
  try { return res(f()); }
  catch (const std::runtime_error &) { Res r; r.threw = true; return r; }
}
inline std::string both(const Iv<T> &a, const Iv<T> &b) { return str(a) + " , " + str(b); }
inline bool isnan_(T x) { return x != x; }
// rounding direction and exception masks of both floating-point units (sticky flags left out)
struct Fp {
  unsigned mx = 0; unsigned short cw = 0;
  static Fp now() { Fp f; asm volatile("stmxcsr %0" : "=m"(f.mx)); asm volatile("fnstcw %0" : "=m"(f.cw)); f.mx &= ~0x3fu; return f; }
  bool operator==(const Fp &o) const { return mx == o.mx && cw == o.cw; }
  std::string s() const { char b[60]; static const char *m[] = {"nearest", "downward", "upward", "toward zero"}; snprintf(b, 60, "sse %s x87 %s (%x,%x)", m[mx >> 13 & 3], m[cw >> 10 & 3], mx, cw); return b; }
};
static const int MODES[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
static const char *moden[] = {"nearest", "upward", "downward", "toward zero"};
