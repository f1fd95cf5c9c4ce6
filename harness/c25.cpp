// C25: rounding control back ends of other processors and compilers, over emulated control registers (backend.hpp).
// The scalar checks of C23 and the policy checks of C20 run on the back end; below, whole operations are compared with a
// control written here, and the control register is watched.
#include "ops.hpp"
#include <boost/numeric/interval/rounded_transc.hpp>
#ifdef X87
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
#endif
namespace scalar {
#include "c23.cpp"
}
#ifndef X87
namespace policy {
#include "c20.cpp"
}
#endif
// reference control: C99 functions
struct RefBase {
  typedef int rounding_mode; static void set_rounding_mode(int m) { std::fesetround(m); } static void get_rounding_mode(int &m) { m = std::fegetround(); }
  static void downward() { std::fesetround(FE_DOWNWARD); } static void upward() { std::fesetround(FE_UPWARD); } static void to_nearest() { std::fesetround(FE_TONEAREST); } static void toward_zero() { std::fesetround(FE_TOWARDZERO); }
};
struct RefCtl : RefBase { static T force_rounding(const T &x) { volatile T y = x; return y; } static T to_int(const T &x) { return std::rint(x); } };
template <class R> using IV = bn::interval<T, il::policies<R, il::checking_base<T>>>;
typedef IV<il::save_state<il::rounded_arith_opp<T, RefCtl>>> Ref;
typedef IV<il::rounded_math<T>> Def; typedef IV<il::save_state<il::rounded_arith_std<T>>> Swi;
typedef bn::interval<T> Strict;
static bool eqv(T a, T b) { return a == b || (a != a && b != b); }
struct Saved { emu::u64 st; int dir; Saved() : st(emu::state()), dir(std::fegetround()) {} };
static std::string hex(emu::u64 v) { char b[24]; snprintf(b, 24, "%llx", v); return b; }
static void watch(pbt::Ctx &c, const Saved &b, const std::string &what) {
  Saved a; fesetround(FE_TONEAREST);
  PBT_CHECK(c, a.dir == b.dir, "state|direction", what + " changed the rounding direction");
  PBT_CHECK(c, a.st == b.st, "state|register", what + " left " + emu::D.name + " = " + hex(a.st) + ", it was " + hex(b.st));
  PBT_CHECK(c, emu::breach().empty(), "state|traps", what + ": " + emu::breach());
}
// one operation of the table on the default policies of the back end, from any state of the control register
PBT_PROP(operation, 6) {
  Gen<T> g(s, c); Iv<T> x = g.interval(), y = g.interval(); T t = g.finite(), v = g.finite(); int k = s.range(-6, 8), op; emu::u64 r = s.bits();
  do op = (int)s.below(O_exp); while ((op == O_sqrt && !scalar::HAS_SQRT) || (op == O_root && RARE_ROOT && !s.chance(1, 60)) || (scalar::x87 && op == O_bis1) || (scalar::x87 && op == O_bis2)); if (op == O_root) k = s.range(1, 7); if (op == O_widen) t = std::fabs(t);
  if (op == O_fmod || op == O_fmod_n || op == O_nfmod) {
    Iv<T> p = op == O_nfmod ? Iv<T>(t, t) : x, d = op == O_fmod_n ? Iv<T>(t = std::fabs(t), t) : op == O_nfmod ? x : y;
    if (p.empty || d.empty || !(d.l > 0) || std::isinf(p.l) || std::isinf(p.u) || std::isinf(d.u) || !(std::fabs(p.l) / (p.l < 0 ? d.l : d.u) < std::ldexp(T(1), orc::FT<T>::prec - 1))) op = O_add;
  }
  int m = (int)s.below(4); g.hash(x); g.hash(y); g.hash(t); g.hash(v); c.h(op * 1000003 + k * 31 + m); c.label(std::string("op:") + OT[op].n);
  NOTE(c, std::string(OT[op].n) + " x=" + str(x) + " y=" + str(y) + " t=" + str(t) + " v=" + str(v) + " k=" + std::to_string(k) + ", " + emu::D.name + " preset " + hex(r) + ", direction " + moden[m]);
  fesetround(FE_TONEAREST); Other o(T(-1) / 4, T(3)); Ref want = ap_obj<Ref, false>(op, mk<Ref>(x), mk<Ref>(y), t, v, k, o);
  c.nontrivial(want.lower() != want.upper());
  unsigned short cw0 = emu::host_cw();
  auto one = [&](auto tag, const char *name) {
    typedef decltype(tag) I; I a = mk<I>(x), b = mk<I>(y), z; emu::preset(r); fesetround(MODES[m]); Saved before;
    z = ap_obj<I, false>(op, a, b, t, v, k, o); watch(c, before, std::string(name) + " " + OT[op].n); emu::host_cw(cw0);
    PBT_CHECK(c, eqv(z.lower(), want.lower()) && eqv(z.upper(), want.upper()), std::string("operation|") + name + "|" + OT[op].n, std::string(name) + " " + OT[op].n + " = " + orc::str2(z.lower(), z.upper()) + ", with a control of the standard library " + orc::str2(want.lower(), want.upper()));
  };
  one(Def(), "default"); one(Swi(), "mode-switching");
}
// unprotected operations under a guard, and guards left by an exception
PBT_PROP(guards, 2) {
  Gen<T> g(s, c); Iv<T> x = g.interval(), y = g.interval(); int m = (int)s.below(4), n = (int)s.below(4); emu::u64 r = s.bits(); bool thr = s.coin(); g.hash(x); g.hash(y); c.h(m * 31 + n * 7 + thr); c.nontrivial();
  NOTE(c, "guards around x=" + str(x) + " y=" + str(y) + ", " + emu::D.name + " preset " + hex(r) + ", direction " + moden[m]);
  unsigned short cw0 = emu::host_cw(); Ref a = mk<Ref>(x), b = mk<Ref>(y), sum = a + b, prod = a * b, quo = a / b; T l[3], u[3];
  emu::preset(r); fesetround(MODES[m]); Saved before; 
  try {
    typename Def::traits_type::rounding guard; (void)&guard; typedef il::unprotect<Def>::type U; U p = mk<U>(x), q = mk<U>(y), z;
    z = p + q; l[0] = z.lower(); u[0] = z.upper();
    for (int i = 0; i < n; i++) { Saved in; { typename Swi::traits_type::rounding g2; (void)&g2; g2.downward(); Swi w = mk<Swi>(x) - mk<Swi>(y); (void)&w; } Saved out; if (in.st != out.st || in.dir != out.dir) emu::breach() = "an inner guard did not restore the control register"; }
    z = p * q; l[1] = z.lower(); u[1] = z.upper(); z = p / q; l[2] = z.lower(); u[2] = z.upper();
    if (thr) { Strict e(T(1), T(2)); Strict f(T(0), T(0)); e /= f; }
  } catch (const std::exception &) { c.label("guard left by an exception"); }
  watch(c, before, "a guard"); emu::host_cw(cw0);
  const Ref *w[] = {&sum, &prod, &quo}; static const char *nm[] = {"sum", "product", "quotient"};
  for (int i = 0; i < 3; i++) PBT_CHECK(c, eqv(l[i], w[i]->lower()) && eqv(u[i], w[i]->upper()), std::string("guards|") + nm[i], std::string("unprotected ") + nm[i] + " under a guard = " + orc::str2(l[i], u[i]) + ", with a control of the standard library " + orc::str2(w[i]->lower(), w[i]->upper()));
}
// the four directions from any state of the register: established, read back, restored
PBT_PROP(directions, 2) {
  typedef il::rounding_control<T> R; int n = 1 + (int)s.below(6); emu::u64 r = s.bits(); unsigned short cw0 = emu::host_cw(); int m = (int)s.below(4); c.h(r); c.h(m); c.nontrivial(); NOTE(c, std::string(emu::D.name) + " preset " + hex(r) + ", direction " + moden[m]);
  emu::preset(r); fesetround(MODES[m]); Saved before; typename R::rounding_mode m0, mk_[6]; emu::u64 st[6]; int want[6], got[6], dir[6]; R::get_rounding_mode(m0); Saved afterget;
  for (int i = 0; i < n; i++) { want[i] = (int)s.below(4); switch (want[i]) { case 0: R::to_nearest(); break; case 1: R::upward(); break; case 2: R::downward(); break; default: R::toward_zero(); } got[i] = fegetround(); R::get_rounding_mode(mk_[i]); st[i] = emu::state(); }
  bool back = true; for (int i = n - 1; i >= 0; i--) { R::set_rounding_mode(mk_[i]); dir[i] = fegetround(); if (dir[i] != got[i] || emu::state() != st[i]) back = false; }
  R::set_rounding_mode(m0); fesetround(fegetround());
  watch(c, before, "setting directions and the initial mode"); emu::host_cw(cw0);
  PBT_CHECK(c, afterget.st == before.st && afterget.dir == before.dir, "directions|get", "reading the mode changed it");
  PBT_CHECK(c, back, "directions|saved", "a saved mode was not re-established");
  for (int i = 0; i < n; i++) { c.h(want[i]); PBT_CHECK(c, got[i] == MODES[want[i]], std::string("directions|") + moden[want[i]], std::string("asked for ") + moden[want[i]] + ", the processor rounds in another direction"); }
}

// before the search: an assembly statement the emulator does not know ends the run (no verdict)
static const bool known_assembly = [] {
  try {
    typedef il::rounding_control<T> R; typename R::rounding_mode m; R::get_rounding_mode(m); R::downward(); R::upward(); R::toward_zero(); R::to_nearest(); R::force_rounding(T(1)); R::to_int(T(1)); R::set_rounding_mode(m); emu::bits() = emu::D.off; fesetround(FE_TONEAREST);
  } catch (const emu::Unknown &e) { fprintf(stderr, "%s\n", e.what()); std::_Exit(3); }
  return true;
}();
