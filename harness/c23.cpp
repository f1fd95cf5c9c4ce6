// C23: scalar rounding building blocks bracket the exact value (policies x control back ends).
#include "common.hpp"
#include <boost/numeric/interval/rounded_transc.hpp>
#ifdef X87
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
enum { x87 = 1 };
#else
enum { x87 = 0 };
#endif
enum { ISL = orc::FT<T>::prec == 64 };
// glibc's sqrt and sqrtf use the SSE unit, which the x87 control leaves alone: not a combination of a real x87 target
#ifdef BACKEND
enum { HAS_SQRT = 1 };   // emulated back ends switch both units
#else
enum { HAS_SQRT = !x87 || ISL };
#endif
enum { ADD, SUB, MUL, DIV, SQRT, MED, INT_, C_INT, C_UINT, C_LL, C_ULL, C_F, C_D, C_L, NOPS };
static const char *on[] = {"add", "sub", "mul", "div", "sqrt", "median", "int", "conv(int)", "conv(unsigned)", "conv(long long)", "conv(unsigned long long)", "conv(float)", "conv(double)", "conv(long double)"};
// the x87 control leaves the SSE unit alone (and the reference functions of this file may not)
static bool same(const Fp &a, const Fp &b) { return a.cw == b.cw && (x87 || a.mx == b.mx); }
struct Op { int k; T x = 0, y = 0; long long i = 0; float f = 0; double d = 0; long double ld = 0; T dn = 0, up = 0; Fp after1, after2; };
static std::string show(const Op &o) {
  std::string r = on[o.k]; r += "("; if (o.k <= MED) r += str(o.x) + (o.k == SQRT ? "" : "," + str(o.y)); else if (o.k == INT_) r += str(o.x);
  else if (o.k < C_F) r += o.k == C_ULL || o.k == C_UINT ? std::to_string(o.k == C_UINT ? (unsigned)o.i : (unsigned long long)o.i) : std::to_string(o.k == C_INT ? (int)o.i : o.i); else r += o.k == C_F ? str(o.f) : o.k == C_D ? str(o.d) : str(o.ld);
  return r + ")";
}
template <class F> static F fp_val(Gen<T> &g, pbt::Src &s, pbt::Ctx &c) {   // value of another floating type: around a T value, or any
  if (s.coin()) { F v = (F)g.finite(); int n = (int)s.below(4); for (int i = 0; i < n; i++) v = s.coin() ? std::nextafter(v, std::numeric_limits<F>::infinity()) : std::nextafter(v, -std::numeric_limits<F>::infinity()); return v; }
  Gen<F> o(s, c); return o.finite();
}
static Op gen(Gen<T> &g, pbt::Src &s, pbt::Ctx &c) {
  Op o; do o.k = (int)s.below(NOPS); while (o.k == SQRT && !HAS_SQRT);
  auto num = [&]() -> T { if (s.chance(1, 24)) return s.coin() ? orc::inf<T>() : -orc::inf<T>(); return g.finite(); };
  switch (o.k) {
    case ADD: case SUB: case MUL: case DIV: case MED: o.x = num(); o.y = num(); if (o.k != DIV && s.chance(1, 12)) { o.y = o.k == SUB ? o.x : -o.x; int n = (int)s.below(3); for (int i = 0; i < n; i++) o.y = Gen<T>::ulp_up(o.y); }
      if (o.k == MED && s.chance(1, 3)) { o.x = std::numeric_limits<T>::max() / T(1 + (int)s.below(4)) * (s.coin() ? 1 : -1); o.y = s.chance(2, 3) ? T(o.x / g.mantissa()) : g.finite(); }
      if (o.k == MED && s.chance(1, 6)) { o.x = std::numeric_limits<T>::denorm_min() * T(s.range(-40, 40)); o.y = std::numeric_limits<T>::denorm_min() * T(s.range(-40, 40)); } break;
    case SQRT: o.x = std::fabs(num()); if (s.chance(1, 4)) { T r = std::ldexp(T((int)s.below(4000)), s.range(-40, 40)); o.x = r * r; if (s.coin()) o.x = Gen<T>::ulp_up(o.x); } break;
    case INT_: o.x = num(); if (s.chance(1, 2)) o.x = std::ldexp(g.mantissa(), s.range(-3, orc::FT<T>::prec + 2)) * (s.coin() ? 1 : -1); if (s.chance(1, 3)) { o.x = T(s.range(-1000, 1000)) / 2; if (s.chance(1, 3)) o.x = Gen<T>::ulp_up(o.x); } break;
    case C_F: o.f = fp_val<float>(g, s, c); break; case C_D: o.d = fp_val<double>(g, s, c); break; case C_L: o.ld = fp_val<long double>(g, s, c); break;
    default: switch (s.below(4)) { case 0: o.i = s.range(-20, 20); break; case 1: o.i = (long long)s.bits(); break; case 2: o.i = (long long)(s.bits() >> s.below(63)); break; default: { const long long sp[] = {INT_MIN, INT_MAX, (long long)UINT_MAX, LLONG_MIN, LLONG_MAX, -1, 16777217, 9007199254740993LL, INT_MIN + 1, LLONG_MIN + 1}; o.i = s.pick(sp); } } if (s.coin()) o.i = (long long)(0 - (unsigned long long)o.i);
  }
  return o;
}
// the operations on a live policy object; results and states are recorded, judged later in the default mode
template <class R> void exec(R &r, Op &o) {
#define BOTH(f, ...) do { o.dn = r.f##_down(__VA_ARGS__); o.after1 = Fp::now(); o.up = r.f##_up(__VA_ARGS__); o.after2 = Fp::now(); } while (0)
  switch (o.k) {
    case ADD: BOTH(add, o.x, o.y); break; case SUB: BOTH(sub, o.x, o.y); break; case MUL: BOTH(mul, o.x, o.y); break; case DIV: BOTH(div, o.x, o.y); break;
    case SQRT: BOTH(sqrt, o.x); break; case MED: o.dn = o.up = r.median(o.x, o.y); o.after1 = o.after2 = Fp::now(); break; case INT_: BOTH(int, o.x); break;
    case C_INT: { int v = (int)o.i; BOTH(conv, v); break; } case C_UINT: { unsigned v = (unsigned)o.i; BOTH(conv, v); break; }
    case C_LL: { long long v = o.i; BOTH(conv, v); break; } case C_ULL: { unsigned long long v = (unsigned long long)o.i; BOTH(conv, v); break; }
    case C_F: BOTH(conv, o.f); break; case C_D: BOTH(conv, o.d); break; default: BOTH(conv, o.ld);
  }
}
static bool defined(const Op &o) {
  bool ix = std::isinf(o.x), iy = std::isinf(o.y);
  switch (o.k) { case ADD: return !(ix && iy && o.x != o.y); case SUB: return !(ix && iy && o.x == o.y); case MUL: return !(ix && o.y == 0) && !(iy && o.x == 0); case DIV: return o.y != 0 && !(ix && iy); case MED: return true; default: return true; }
}
static T want(const Op &o, mpfr_rnd_t d) {
  switch (o.k) {
    case ADD: return orc::add(o.x, o.y, d); case SUB: return orc::sub(o.x, o.y, d); case MUL: return orc::op2<T>(mpfr_mul, o.x, o.y, d); case DIV: return orc::div(o.x, o.y, d); case SQRT: return orc::sqrt(o.x, d);
    case MED: { if (o.x == -o.y) return 0; if (std::isinf(o.x)) return o.x; if (std::isinf(o.y)) return o.y; mpq_class m = (orc::q(o.x) + orc::q(o.y)) / 2; return orc::from_q<T>(m, d); }
    case INT_: return std::isinf(o.x) ? o.x : d == orc::DN ? std::floor(o.x) : std::ceil(o.x);
    case C_INT: return orc::conv_ll<T>((int)o.i, d); case C_UINT: return orc::conv_ll<T>((unsigned)o.i, d); case C_LL: return orc::conv_ll<T>(o.i, d); case C_ULL: return orc::conv_ull<T>((unsigned long long)o.i, d);
    case C_F: return orc::conv<T>(o.f, d); case C_D: return orc::conv<T>(o.d, d); default: return orc::conv<T>(o.ld, d);
  }
}
static void judge(pbt::Ctx &c, const Op &o, const std::string &cell, bool opp) {
  std::string key = cell + "|" + on[o.k];
  if (o.k == MED) {
    T n = want(o, orc::NR); bool ok = o.dn == n;
    if (x87 && !ISL && !ok) { T a = want(o, orc::DN), b = want(o, orc::UP); ok = o.dn == a || o.dn == b; }   // computed in extended precision, then stored
    PBT_CHECK(c, ok, key, cell + " " + show(o) + " = " + str(o.dn) + ", the midpoint is " + str(n));
    c.label_if(want(o, orc::DN) != want(o, orc::UP), "inexact");
  } else {
    T a = want(o, orc::DN), b = want(o, orc::UP); c.label_if(a != b, "inexact"); c.nontrivial(a != b);
    PBT_CHECK(c, o.dn == a, key + "_down", cell + " " + show(o) + " rounded down = " + str(o.dn) + ", the largest representable value not above it is " + str(a));
    PBT_CHECK(c, o.up == b, key + "_up", cell + " " + show(o) + " rounded up = " + str(o.up) + ", the smallest representable value not below it is " + str(b));
  }
  auto up = [](const Fp &f) { return (f.cw >> 10 & 3) == 2 && (x87 || (f.mx >> 13 & 3) == 2); };
  if (opp) PBT_CHECK(c, up(o.after1) && up(o.after2), key + "|mode", cell + " " + show(o) + " left the processor in " + (up(o.after1) ? o.after2 : o.after1).s() + ", the single-mode policy requires upward");
}
template <class R, bool UNPROT> void cell(pbt::Src &s, pbt::Ctx &c, const char *name, bool opp) {
  Gen<T> g(s, c); int m = (int)s.below(4), n = 1 + (int)s.below(5); std::vector<Op> v;
  for (int i = 0; i < n; i++) { Op o = gen(g, s, c); if (defined(o)) v.push_back(o); }
  if (v.empty()) throw pbt::Discard();
  std::string cn = std::string(name) + (UNPROT ? "/unprotected" : "");
  for (auto &o : v) { NOTE(c, cn + " " + show(o) + " (guard opened in mode " + moden[m] + ")"); g.hash(o.x); g.hash(o.y); c.h(o.k + 31 * (unsigned long long)o.i); c.h(orc::hbits(o.f) ^ orc::hbits(o.d) ^ orc::hbits(o.ld)); c.label(on[o.k]); }
  fesetround(MODES[m]); Fp before = Fp::now();
  { R guard; if (UNPROT) { typename R::unprotected_rounding u; for (auto &o : v) exec(u, o); } else for (auto &o : v) exec(guard, o); }
  Fp after = Fp::now(); fesetround(FE_TONEAREST);
  PBT_CHECK(c, same(before, after), cn + "|restore", cn + " guard left " + after.s() + ", it found " + before.s());
  for (auto &o : v) judge(c, o, cn, opp);
}
typedef il::save_state<il::rounded_arith_std<T>> Std; typedef il::save_state<il::rounded_arith_opp<T>> Opp; typedef il::rounded_math<T> Def;
typedef il::save_state<il::rounded_transc_opp<T, il::rounded_arith_opp<T>>> TOppR; typedef il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T>>> TStdR;
PBT_PROP(arith_std, 3) { if (s.coin()) cell<Std, true>(s, c, "std", false); else cell<Std, false>(s, c, "std", false); }
PBT_PROP(arith_opp, 3) { if (s.coin()) cell<Opp, true>(s, c, "opp", true); else cell<Opp, false>(s, c, "opp", true); }
PBT_PROP(arith_default, 2) { if (s.coin()) cell<Def, true>(s, c, "rounded_math", true); else cell<Def, false>(s, c, "rounded_math", true); }
PBT_PROP(arith_layered, 2) { if (s.coin()) cell<TStdR, true>(s, c, "transc_std", false); else cell<TOppR, true>(s, c, "transc_opp", true); }
#ifdef X87
typedef il::save_state<il::rounded_arith_opp<T, il::x86_fast_rounding_control<T>>> FOpp; typedef il::save_state<il::rounded_arith_std<T, il::x86_fast_rounding_control<T>>> FStd;
PBT_PROP(arith_fast, 3) { if (s.coin()) cell<FStd, true>(s, c, "x86 fast std", false); else cell<FOpp, true>(s, c, "x86 fast opp", true); }
#endif

// the exact policy on values whose results are representable
PBT_PROP(arith_exact, 1) {
  Gen<T> g(s, c); Op o; do o.k = (int)s.below(NOPS); while (o.k == SQRT && !HAS_SQRT);
  auto dy = [&] { return std::ldexp(T(s.range(-60, 60)), -(int)s.below(4)); };
  o.x = dy(); o.y = dy(); o.i = s.range(-2000, 2000); o.f = (float)dy(); o.d = (double)dy(); o.ld = dy();
  if (o.k == SQRT) o.x = o.x * o.x; if (o.k == DIV) { if (o.y == 0) o.y = 1; if (s.chance(3, 4)) o.x = o.x * o.y; }
  if (o.k == C_UINT || o.k == C_ULL) o.i = std::llabs(o.i);
  if (o.k == MED || o.k == INT_ ? false : want(o, orc::DN) != want(o, orc::UP)) throw pbt::Discard();
  il::save_state_nothing<il::rounded_arith_exact<T>> r; Fp b = Fp::now(); exec(r, o); Fp a = Fp::now();
  NOTE(c, "exact " + show(o)); g.hash(o.x); g.hash(o.y); c.h(o.k + 31 * (unsigned long long)o.i); c.label(std::string("exact ") + on[o.k]); c.nontrivial();
  PBT_CHECK(c, same(a, b), "exact|state", "the exact policy changed the rounding state");
  if (o.k == MED) PBT_CHECK(c, o.dn == want(o, orc::NR), "exact|median", "exact " + show(o) + " = " + str(o.dn));
  else { PBT_CHECK(c, o.dn == want(o, orc::DN), std::string("exact|") + on[o.k] + "_down", "exact " + show(o) + " down = " + str(o.dn)); PBT_CHECK(c, o.up == want(o, orc::UP), std::string("exact|") + on[o.k] + "_up", "exact " + show(o) + " up = " + str(o.up)); }
}

// transcendental layers over a scalar type whose functions round in the processor's current direction
struct W { T v; };
static W operator-(const W &a) { return W{-a.v}; }
static mpfr_rnd_t cur() { switch (fegetround()) { case FE_UPWARD: return MPFR_RNDU; case FE_DOWNWARD: return MPFR_RNDD; case FE_TOWARDZERO: return MPFR_RNDZ; default: return MPFR_RNDN; } }
#define FNS(X) X(exp) X(log) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh)
#define X1(f) static W f(const W &a) { return W{orc::op1<T>(mpfr_##f, a.v, cur())}; }
FNS(X1)
#undef X1
struct WCtl : il::rounding_control<T> { static W force_rounding(const W &w) { return W{il::rounding_control<T>::force_rounding(w.v)}; } };
static const char *fnn[] = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"};
static int (*const fnm[])(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t) = {mpfr_exp, mpfr_log, mpfr_sin, mpfr_cos, mpfr_tan, mpfr_asin, mpfr_acos, mpfr_atan, mpfr_sinh, mpfr_cosh, mpfr_tanh, mpfr_asinh, mpfr_acosh, mpfr_atanh};
template <class R> W fdn(R &r, int f, W x) { switch (f) {
#define X1(f) case __COUNTER__ - BASE1: return r.f##_down(x);
  enum { BASE1 = __COUNTER__ + 1 }; FNS(X1)
#undef X1
} return W{0}; }
template <class R> W fup(R &r, int f, W x) { switch (f) {
#define X1(f) case __COUNTER__ - BASE2: return r.f##_up(x);
  enum { BASE2 = __COUNTER__ + 1 }; FNS(X1)
#undef X1
} return W{0}; }
struct Call { int f; T x; T dn, up; Fp a1, a2; };
static T farg(Gen<T> &g, pbt::Src &s, int f) {
  T x; switch (s.weighted({4, 2, 3, 1})) { case 0: x = std::ldexp(g.mantissa(), s.range(-8, 4)); break; case 1: x = T((int)s.below(40)) / 4; break; case 2: x = std::fabs(g.finite()); break; default: x = orc::inf<T>(); }
  if (s.coin()) x = -x;
  switch (f) { case 1: x = std::fabs(x); if (x == 0) x = 1; break; case 2: case 3: case 4: if (!(std::fabs(x) < 1e5)) x = T(s.range(-600, 600)) / 100; break;
    case 5: case 6: case 13: if (!(std::fabs(x) <= 1)) x = 1 / x; break; case 12: x = std::fabs(x); if (x < 1) x = x == 0 ? T(1) : 1 / x; break; default: break; }
  return x;
}
template <class R> void transc(pbt::Src &s, pbt::Ctx &c, const char *name, bool opp, bool exact) {
  Gen<T> g(s, c); int m = (int)s.below(4), n = 1 + (int)s.below(5); std::vector<Call> v;
  for (int i = 0; i < n; i++) { Call k; k.f = (int)s.below(14); k.x = farg(g, s, k.f); v.push_back(k); g.hash(k.x); c.h(k.f); c.label(fnn[k.f]); NOTE(c, std::string(name) + " " + fnn[k.f] + "(" + str(k.x) + ") guard opened in mode " + moden[m]); }
  fesetround(MODES[m]); Fp before = Fp::now();
  { R guard; typename R::unprotected_rounding u;
    for (auto &k : v) { k.dn = fdn(u, k.f, W{k.x}).v; k.a1 = Fp::now(); k.up = fup(u, k.f, W{k.x}).v; k.a2 = Fp::now(); } }
  Fp after = Fp::now(); fesetround(FE_TONEAREST);
  PBT_CHECK(c, same(before, after), std::string(name) + "|restore", std::string(name) + " guard left " + after.s() + ", it found " + before.s());
  for (auto &k : v) {
    T a = orc::op1<T>(fnm[k.f], k.x, orc::DN), b = orc::op1<T>(fnm[k.f], k.x, orc::UP); std::string key = std::string(name) + "|" + fnn[k.f];
    c.nontrivial(a != b);
    if (exact) { if (a == b) { PBT_CHECK(c, k.dn == a && k.up == a, key, key + "(" + str(k.x) + ") = [" + str(k.dn) + "," + str(k.up) + "], exactly " + str(a)); } else PBT_CHECK(c, a <= k.dn && k.dn <= b && a <= k.up && k.up <= b, key, key + "(" + str(k.x) + ") = [" + str(k.dn) + "," + str(k.up) + "], not next to the exact value in [" + str(a) + "," + str(b) + "]"); continue; }
    PBT_CHECK(c, k.dn <= a, key + "_down", key + "_down(" + str(k.x) + ") = " + str(k.dn) + " is above the exact value, which is in [" + str(a) + "," + str(b) + "]");
    PBT_CHECK(c, k.up >= b, key + "_up", key + "_up(" + str(k.x) + ") = " + str(k.up) + " is below the exact value, which is in [" + str(a) + "," + str(b) + "]");
    PBT_CHECK(c, k.dn == a && k.up == b, key + "|tight", key + "(" + str(k.x) + ") = [" + str(k.dn) + "," + str(k.up) + "], correctly rounded scalar functions give [" + str(a) + "," + str(b) + "]");
    auto up = [](const Fp &f) { return (f.cw >> 10 & 3) == 2 && (x87 || (f.mx >> 13 & 3) == 2); };
    if (opp) PBT_CHECK(c, up(k.a1) && up(k.a2), key + "|mode", key + " left the processor in " + (up(k.a1) ? k.a2 : k.a1).s() + ", the single-mode policy requires upward");
  }
}
PBT_PROP(transc_std, 2) { transc<il::save_state<il::rounded_transc_std<W, il::rounded_arith_std<W, WCtl>>>>(s, c, "transc_std", false, false); }
PBT_PROP(transc_opp, 2) { transc<il::save_state<il::rounded_transc_opp<W, il::rounded_arith_opp<W, WCtl>>>>(s, c, "transc_opp", true, false); }
PBT_PROP(transc_exact, 1) { transc<il::save_state_nothing<il::rounded_transc_exact<W, il::rounded_arith_exact<W, WCtl>>>>(s, c, "transc_exact", false, true); }

// the control back end: each direction is established, saved and restored
PBT_ENUM(control, 16) {
  typedef il::rounding_control<T> R; int a = (int)s.below(4), b = (int)s.below(4); c.h(a * 4 + b); c.nontrivial();
  auto set = [](int k) { switch (k) { case 0: R::to_nearest(); break; case 1: R::upward(); break; case 2: R::downward(); break; default: R::toward_zero(); } };
  Fp f0 = Fp::now(); typename R::rounding_mode m0, m; R::get_rounding_mode(m0);
  set(a); int ea = fegetround(); Fp fa = Fp::now(); R::get_rounding_mode(m); set(b); int eb = fegetround(); R::set_rounding_mode(m); Fp fc = Fp::now(); R::set_rounding_mode(m0); Fp f1 = Fp::now(); fesetround(FE_TONEAREST);
  NOTE(c, std::string("set ") + moden[a] + ", then " + moden[b]);
  PBT_CHECK(c, ea == MODES[a] && eb == MODES[b], std::string("control|") + moden[ea == MODES[a] ? b : a], "the control back end did not establish the direction it was asked for");
  PBT_CHECK(c, same(fc, fa), "control|reset", "setting the saved mode gives " + fc.s() + ", it was " + fa.s());
  PBT_CHECK(c, same(f1, f0), "control|restore", "restoring the initial mode gives " + f1.s() + ", it was " + f0.s());
}
