// C19: rounding state is transparent with protected rounding; guards restore it in any nesting.
#include "ops.hpp"
#include <boost/numeric/interval/limits.hpp>
template <class R, class C> using IR = bn::interval<T, il::policies<R, C>>;
typedef TransPol<il::rounded_arith_opp<T>> RO; typedef TransPol<il::rounded_arith_std<T>> RS;
// transcendental functions of the standard library below the library's own layers
typedef il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T>>> LS;
typedef il::save_state<il::rounded_transc_opp<T, il::rounded_arith_opp<T>>> LO;
template <class R> struct rn;
template <> struct rn<RO> { static const char *n() { return "opp"; } }; template <> struct rn<RS> { static const char *n() { return "std"; } };
template <> struct rn<LS> { static const char *n() { return "std+libm"; } }; template <> struct rn<LO> { static const char *n() { return "opp+libm"; } };
struct V { T l = 0, u = 0; int k = 0; /*0 interval 1 empty 2 threw*/ std::string s() const { return k == 0 ? orc::str2(l, u) : k == 1 ? "empty" : "threw"; }
  bool operator==(const V &o) const { return k == o.k && (k || ((l == o.l || (l != l && o.l != o.l)) && (u == o.u || (u != u && o.u != o.u)))); } };
struct Pair { T l, u; T lower() const { return l; } T upper() const { return u; } };
static bool is_empty(const Pair &) { return false; }
template <class I> bool is_empty(const I &x) { return bn::empty(x); }
template <class F> V val(F f) { V v; try { auto r = f(); v.l = r.lower(); v.u = r.upper(); v.k = is_empty(r); } catch (std::runtime_error &) { v.k = 2; } catch (std::logic_error &) { v.k = 2; } return v; }
struct Args { int op; Iv<T> x, y; T t = 0, v = 0; int k = 0; long double ld = 0; };
// functions that do not return an interval of the same type
enum { E_WIDTH, E_MEDIAN, E_NORM, E_CMP, E_SETREL, E_PI, E_FROM_INT, E_FROM_UINT, E_FROM_LL, E_FROM_LD, E_FROM_IL, E_TO_F, E_LIMITS, E_PAIRMIX, E_WHOLE, EXTRA };
static const char *exn[] = {"width", "median", "norm", "comparisons", "set relations", "pi constants", "from int", "from unsigned", "from long long", "from long double", "from interval<long double>", "to interval<float>", "numeric_limits", "mixed pair", "set_whole"};
template <class I> V extra(int e, const Args &a) {
  const I x = mk<I>(a.x), y = mk<I>(a.y); typedef bn::interval<long double> IL; typedef bn::interval<float> IF;
  auto P = [](T l, T u) { return Pair{l, u}; };
  switch (e) {
    case E_WIDTH: return val([&] { return P(bn::width(x), bn::width(y)); }); case E_MEDIAN: return val([&] { return P(bn::median(x), bn::median(y)); }); case E_NORM: return val([&] { return P(bn::norm(x), bn::norm(y)); });
    case E_CMP: return val([&] { int m = 0; auto q = [&](auto f) { m *= 3; try { m += f(); } catch (il::comparison_error &) { m += 2; } }; q([&] { return x < y; }); q([&] { return x <= y; }); q([&] { return x > y; }); q([&] { return x >= y; }); q([&] { return x == y; }); q([&] { return x < a.t; }); return P(T(m), 0); });
    case E_SETREL: return val([&] { return P(T(bn::zero_in(x) + 2 * bn::in(a.t, x) + 4 * bn::subset(x, y) + 8 * bn::proper_subset(x, y) + 16 * bn::overlap(x, y) + 32 * bn::singleton(x) + 64 * bn::equal(x, y)), 0); });
    case E_PI: return val([&] { I p = a.k % 3 == 0 ? il::pi<I>() : a.k % 3 == 1 ? il::pi_half<I>() : il::pi_twice<I>(); return p; });
    case E_FROM_INT: return val([&] { return I(a.k); }); case E_FROM_UINT: return val([&] { return I((unsigned)a.k); }); case E_FROM_LL: return val([&] { return I((long long)a.k * 1234567891LL); });
    case E_FROM_LD: return val([&] { return I(a.ld); });
    case E_FROM_IL: return val([&] { IL l((long double)a.x.l, (long double)a.x.u); l = l / 3.0L; return I(l); });
    case E_TO_F: return val([&] { IF f(x); return P(T(f.lower()), T(f.upper())); });
    case E_LIMITS: return val([&] { return P(std::numeric_limits<I>::epsilon().upper(), std::numeric_limits<I>::max().upper()); });
    case E_PAIRMIX: return val([&] { return I(a.k, 1e30); });
    default: return val([&] { I p = x; p.set_whole(); return p; });
  }
}
template <class I, class R, bool EX> void modes(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Args a; a.x = g.interval(); a.y = g.interval(); a.t = g.finite(); a.v = g.finite(); a.k = s.range(-9, 9); if (s.chance(1, 6)) a.k = (int)s.bits();
  if (s.chance(1, 3)) { a.x = Iv<T>(T(s.range(-30, 30)) / 8, 4); if (s.coin()) a.x.u = a.x.l; }     // ranges of interest of the functions
  a.ld = (long double)a.t / 3.0L; bool ex = EX && s.chance(1, 4); a.op = ex ? (int)s.below(EXTRA) : s.chance(1, 4) ? O_exp + (int)s.below(OPS - O_exp) : (int)s.below(OPS);
  if (!ex && a.op == O_root && RARE_ROOT && !s.chance(1, 40)) a.op = O_div;
  if (!ex && a.op == O_root) a.k = s.range(1, 9);
  int m = 1 + (int)s.below(3);
  std::string on = ex ? exn[a.op] : OT[a.op].n, key = on + "|" + rn<R>::n();
  g.hash(a.x); g.hash(a.y); g.hash(a.t); g.hash(a.v); c.h(a.k + 1000003ull * (a.op + 100 * ex)); c.label("op:" + on); c.label(std::string("mode:") + moden[m]); c.nontrivial();
  NOTE(c, on + " (" + rn<R>::n() + ") x=" + str(a.x) + " y=" + str(a.y) + " t=" + str(a.t) + " v=" + str(a.v) + " k=" + std::to_string(a.k) + " ambient mode " + moden[m]);
  auto doit = [&]() -> V { if constexpr (EX) if (ex) return extra<I>(a.op, a); return val([&] { return ap<I>(a.op, a.x, a.y, a.t, a.v, a.k); }); };
  fesetround(FE_TONEAREST); V ref = doit(); bool near_ok = fegetround() == FE_TONEAREST; fesetround(FE_TONEAREST);
  PBT_CHECK(c, near_ok, key + "|state|nearest", "called in nearest mode, left another mode");
  fesetround(MODES[m]); Fp before = Fp::now(); V got = doit(); Fp after = Fp::now(); fesetround(FE_TONEAREST);
  NOTE(c, "result in nearest " + ref.s() + ", in " + moden[m] + " " + got.s()); c.label_if(got.k == 2, "threw");
  PBT_CHECK(c, after == before, key + "|state", on + (got.k == 2 ? " (which threw)" : "") + " changed the rounding state from " + before.s() + " to " + after.s());
  PBT_CHECK(c, got == ref, key + "|value", on + " gives " + got.s() + " when called in mode " + moden[m] + ", " + ref.s() + " in nearest");
}
typedef IR<RO, il::checking_base<T>> IO; typedef IR<RS, il::checking_base<T>> IS; typedef IR<RO, il::checking_strict<T>> IOX; typedef IR<RS, il::checking_catch_nan<T, il::checking_no_empty<T>>> ISX;
typedef IR<LO, il::checking_base<T>> ILO; typedef IR<LS, il::checking_base<T>> ILS;
PBT_PROP(modes_opp, 3) { modes<IO, RO, true>(s, c); }
PBT_PROP(modes_std, 3) { modes<IS, RS, true>(s, c); }
PBT_PROP(modes_opp_strict, 2) { modes<IOX, RO, true>(s, c); }
PBT_PROP(modes_std_strict, 2) { modes<ISX, RS, true>(s, c); }
PBT_PROP(modes_opp_libm, 2) { modes<ILO, LO, false>(s, c); }
PBT_PROP(modes_std_libm, 2) { modes<ILS, LS, false>(s, c); }

// --- nested guards -------------------------------------------------------------------------------------------
struct Unwind { int levels; };
struct Prog {
  pbt::Src &s; pbt::Ctx &c; Gen<T> g; int steps = 0, maxdepth = 0, unwound = 0, ops = 0;
  Prog(pbt::Src &s_, pbt::Ctx &c_) : s(s_), c(c_), g(s_, c_) {}
  static const char *gn(int k) { static const char *n[] = {"none", "opp", "std", "opp strict", "float opp", "long double std", "default"}; return n[k]; }
  Args args(int nops) { Args a; do a.op = (int)s.below(nops); while (a.op == O_root); a.x = g.interval(); a.y = g.interval(); a.t = g.finite(); a.v = g.finite(); a.k = s.range(-5, 5); g.hash(a.x); g.hash(a.y); g.hash(a.t); c.h(a.op); return a; }
  template <class I> V isolated(const Args &a) { int m = fegetround(); fesetround(FE_TONEAREST); V v = val([&] { return ap_obj_<I>(a); }); fesetround(m); return v; }
  template <class I> static I ap_obj_(const Args &a) { bool fo = crossing(a.op); return ap_obj<I, false>(a.op, OT[a.op].use & X && !fo ? mk<I>(a.x) : I(), OT[a.op].use & Y ? mk<I>(a.y) : I(), a.t, a.v, a.k, fo ? mk<Other>(a.x) : Other()); }
  // an operation of type U whose results must be those of the protected type I in the default mode
  template <class I, class U> void op(const char *how, int guard) {
    Args a = args(O_exp); Fp before = Fp::now(); ops++;
    V want = isolated<I>(a); V got = val([&] { return ap_obj_<U>(a); }); Fp after = Fp::now();
    int m = fegetround(); fesetround(FE_TONEAREST);
    NOTE(c, std::string(how) + " " + OT[a.op].n + " x=" + str(a.x) + " y=" + str(a.y) + " t=" + str(a.t) + " v=" + str(a.v) + " k=" + std::to_string(a.k));
    std::string key = std::string("guards|") + how + "|" + OT[a.op].n;
    PBT_CHECK(c, got == want, key + "|value", std::string(how) + " " + OT[a.op].n + " under innermost guard '" + gn(guard) + "' gives " + got.s() + ", isolated " + want.s());
    bool isstd = guard == 2 && how[0] == 'u';  // the mode-switching policy leaves any mode inside its guard
    PBT_CHECK(c, isstd || before == after, key + "|state", std::string(how) + " " + OT[a.op].n + " under innermost guard '" + gn(guard) + "' changed the rounding state from " + before.s() + " to " + after.s());
    fesetround(m);
  }
  template <class G> void guarded(int kind, int depth) {
    Fp before = Fp::now(); int unw = 0;
    try { G guard; (void)&guard; scope(kind, depth + 1); } catch (Unwind &u) { unw = 1 + u.levels; }
    Fp after = Fp::now();
    if (!(before == after)) { fesetround(FE_TONEAREST); c.fail(std::string("guards|exit|") + gn(kind) + (unw ? "|unwinding" : ""), std::string("leaving the scope of guard '") + gn(kind) + "' " + (unw ? "by an exception " : "") + "at depth " + std::to_string(depth + 1) + " left " + after.s() + ", it was " + before.s()); }
    if (unw) { unwound++; if (unw > 1 && depth > 0) throw Unwind{unw - 2}; }
  }
  typedef IR<il::save_state<il::rounded_arith_opp<T>>, il::checking_base<T>> A; typedef il::unprotect<A>::type UA;
  typedef IR<il::save_state<il::rounded_arith_std<T>>, il::checking_base<T>> B; typedef il::unprotect<B>::type UB;
  typedef IR<il::save_state<il::rounded_arith_opp<T>>, il::checking_strict<T>> D; typedef il::unprotect<D>::type UD;
  typedef bn::interval<T> Def; typedef il::unprotect<Def>::type UDef;
  void scope(int kind, int depth) {
    maxdepth = std::max(maxdepth, depth);
    int n = 1 + (int)s.below(4);
    for (int i = 0; i < n && steps < 24; i++, steps++) {
      switch (s.weighted({4, 5, depth < 5 ? 4 : 0, depth ? 1 : 0, depth ? 1 : 0})) {
        case 0: switch (s.below(4)) { case 0: op<A, A>("protected opp", kind); break; case 1: op<B, B>("protected std", kind); break; case 2: op<D, D>("protected strict", kind); break; default: op<Def, Def>("protected default", kind); } break;
        case 1: // unprotected operations need their own policy's guard innermost
          switch (kind) { case 1: case 3: case 6: switch (s.below(3)) { case 0: op<A, UA>("unprotected opp", kind); break; case 1: op<D, UD>("unprotected strict", kind); break; default: op<Def, UDef>("unprotected default", kind); } break; case 2: op<B, UB>("unprotected std", kind); break; default: op<A, A>("protected opp", kind); } break;
        case 2: { int k = 1 + (int)s.below(6); c.label(std::string("guard:") + gn(k)); c.h(k + 77); NOTE(c, std::string("{ guard ") + gn(k));
          switch (k) { case 1: guarded<A::traits_type::rounding>(k, depth); break; case 2: guarded<B::traits_type::rounding>(k, depth); break; case 3: guarded<D::traits_type::rounding>(k, depth); break;
            case 4: guarded<il::save_state<il::rounded_arith_opp<float>>>(k, depth); break; case 5: guarded<il::save_state<il::rounded_arith_std<long double>>>(k, depth); break; default: guarded<Def::traits_type::rounding>(k, depth); }
          NOTE(c, "}"); break; }
        case 4: { // the program sets a direction itself: protected operations and inner guards still work, the guard still restores
          int m = (int)s.below(4), how = (int)s.below(2); NOTE(c, std::string("program sets ") + moden[m] + (how ? " by the rounding control" : "")); c.label("direction set by the program"); c.h(m * 2 + how);
          if (how) { typedef il::rounding_control<T> RC; switch (MODES[m]) { case FE_UPWARD: RC::upward(); break; case FE_DOWNWARD: RC::downward(); break; case FE_TOWARDZERO: RC::toward_zero(); break; default: RC::to_nearest(); } PBT_CHECK(c, fegetround() == MODES[m], "guards|direction", std::string("asked for ") + moden[m] + ", got another direction"); }
          else fesetround(MODES[m]);
          kind = 0; break; }
        default: { int l = (int)s.below(3); NOTE(c, "throw through " + std::to_string(l + 1) + " guards"); c.label("unwinding");
          try { UD z = UD(T(1), T(2)) / UD(T(0), T(0)); (void)z; } catch (std::runtime_error &) { throw Unwind{l}; }
          c.fail("guards|no throw", "division by zero under the strict policy did not throw"); }
      }
    }
  }
};
PBT_PROP(guards, 4) {
  Prog p(s, c); int m = (int)s.below(4); NOTE(c, std::string("ambient mode ") + moden[m]); c.label(std::string("guards mode:") + moden[m]);
  fesetround(MODES[m]); Fp before = Fp::now();
  try { p.scope(0, 0); } catch (Unwind &) {}
  Fp after = Fp::now(); fesetround(FE_TONEAREST);
  PBT_CHECK(c, before == after, "guards|end", "program left " + after.s() + ", it started in " + before.s());
  c.nontrivial(p.maxdepth > 0 && p.ops > 0); c.label("depth " + std::to_string(p.maxdepth));
}
// the mode each guard establishes
PBT_ENUM(guard_modes, 4) {
  int m = (int)s.below(4); c.h(m); c.nontrivial(); fesetround(MODES[m]); Fp b = Fp::now(); int in;
  { il::save_state<il::rounded_arith_opp<T>> g; in = fegetround(); }
  Fp a = Fp::now(); fesetround(FE_TONEAREST); NOTE(c, std::string("ambient ") + moden[m]);
  PBT_CHECK(c, in == FE_UPWARD, "guard mode", "the single-mode policy's guard does not establish upward rounding");
  PBT_CHECK(c, a == b, "guard restore", "guard does not restore " + b.s() + ", left " + a.s());
}
