// Checking policies under test and the classification of call outcomes.
#pragma once
#include "ops.hpp"
#define COMMA ,
struct my_create {}; struct my_nan {};                    // user-chosen errors
struct ThrowCreate { void operator()() { throw my_create(); } };
struct ThrowNan { void operator()() { throw my_nan(); } };
static int flag_create, flag_nan;                         // errors that only raise a flag
struct FlagCreate { void operator()() { ++flag_create; } };
struct FlagNan { void operator()() { ++flag_nan; } };
template <class U> struct empty10 : il::checking_base<U> { static U empty_lower() { return U(1); } static U empty_upper() { return U(0); } };  // empty intervals that are not NaN
// policy kinds: how NaN numbers and empty results are treated
enum Nan { NAN_EMPTY, NAN_ERR, NAN_SKIP };
template <class C> struct P;
#define POL(n, C, emp, nan, ex) struct n : C {}; template <> struct P<n> { static const char *name() { return #n; } enum { empties = emp, nans = nan, own = ex }; };
POL(base, il::checking_base<T>, 1, NAN_EMPTY, 0)
POL(one_zero, empty10<T>, 1, NAN_EMPTY, 0)
POL(marked, checking_marked, 1, NAN_EMPTY, 0)
POL(ordered, checking_ordered, 1, NAN_EMPTY, 0)
POL(no_nan, il::checking_no_nan<T>, 1, NAN_SKIP, 0)
POL(catch_nan, il::checking_catch_nan<T>, 1, NAN_ERR, 0)
POL(no_empty, il::checking_no_empty<T>, 0, NAN_EMPTY, 0)
POL(strict, il::checking_strict<T>, 0, NAN_SKIP, 0)
POL(no_nan_no_empty, il::checking_no_nan<T COMMA il::checking_no_empty<T> >, 0, NAN_SKIP, 0)
POL(catch_nan_no_empty, il::checking_catch_nan<T COMMA il::checking_no_empty<T> >, 0, NAN_ERR, 0)
POL(no_empty_catch_nan, il::checking_no_empty<T COMMA il::checking_catch_nan<T> >, 0, NAN_ERR, 0)
POL(catch_own_no_empty_own, il::checking_catch_nan<T COMMA il::checking_no_empty<T COMMA il::checking_base<T> COMMA ThrowCreate> COMMA ThrowNan>, 0, NAN_ERR, 1)
POL(no_empty_one_zero, il::checking_no_empty<T COMMA empty10<T> COMMA ThrowCreate>, 0, NAN_EMPTY, 1)
POL(flags, il::checking_catch_nan<T COMMA il::checking_no_empty<T COMMA il::checking_base<T> COMMA FlagCreate> COMMA FlagNan>, 0, NAN_ERR, 2)

enum Kind { IV, EMPTY, CREATE, INVALID, ODD };
static const char *kn[] = {"interval", "empty", "creation error", "invalid-number error", "another error"};
struct Got { Kind k = IV; T l = 0, u = 0; std::string what; std::string s() const { return k == IV ? orc::str2(l, u) : kn[k] + (k == ODD ? " " + what : ""); } };
template <class C, class F> Got outcome(F f) {
  Got g; flag_create = flag_nan = 0;
  try { auto x = f(); g.l = x.lower(); g.u = x.upper(); if (bn::empty(x)) g.k = EMPTY;
    if (P<C>::own == 2) { if (flag_nan) g.k = INVALID; else if (flag_create) g.k = CREATE; } }
  catch (const my_create &) { g.k = P<C>::own ? CREATE : ODD; } catch (const my_nan &) { g.k = P<C>::own ? INVALID : ODD; }
  catch (const std::invalid_argument &e) { g.what = e.what(); g.k = P<C>::own || g.what != "boost::interval: invalid number" ? ODD : INVALID; }
  catch (const std::runtime_error &e) { g.what = e.what(); g.k = P<C>::own || g.what != "boost::interval: empty interval created" ? ODD : CREATE; }
  catch (std::exception &e) { g.k = ODD; g.what = e.what(); } catch (...) { g.k = ODD; g.what = "?"; }
  return g;
}
typedef TransPol<il::rounded_arith_opp<T>> Rnd;
template <class C> using IV_ = bn::interval<T, il::policies<Rnd, C>>;
