// C18: a throwing operation leaves every operand and the rounding state untouched.
#include "policies.hpp"
template <class R, class C> using IR = bn::interval<T, il::policies<R, C>>;
typedef TransPol<il::rounded_arith_std<T>> RndS;
typedef IR<Rnd, base> Ref;

enum { NOBJ = 3 };
template <class I> struct Snap { T l, u; Snap(const I &a) : l(a.lower()), u(a.upper()) {} bool same(const I &a) const { return Same<I>::eq(a.lower(), l) && Same<I>::eq(a.upper(), u); } template <class> struct Same { static bool eq(T a, T b) { return (a == b && std::signbit(a) == std::signbit(b)) || (a != a && b != b); } }; };
static const char *cmpn[] = {"<", "<=", ">", ">=", "==", "!="};
template <class A, class B> bool cmpop(int op, const A &a, const B &b) { switch (op) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
static int cmpref(int op, const Iv<T> &x, const Iv<T> &y) { // 1 true, 0 false, 2 throws
  switch (op) {
    case 0: return x.u < y.l ? 1 : x.l >= y.u ? 0 : 2; case 1: return x.u <= y.l ? 1 : x.l > y.u ? 0 : 2; case 2: return x.l > y.u ? 1 : x.u <= y.l ? 0 : 2; case 3: return x.l >= y.u ? 1 : x.u < y.l ? 0 : 2;
    case 4: return x.l == x.u && y.l == y.u && x.l == y.l ? 1 : x.u < y.l || y.u < x.l ? 0 : 2; default: { int e = cmpref(4, x, y); return e == 2 ? 2 : !e; }
  }
}
enum Step { S_TABLE, S_COMPOUND, S_COMPOUND_NUM, S_COMPOUND_OWN, S_ASSIGN_NUM, S_ASSIGN_PAIR, S_ASSIGN_OWN, S_ASSIGN_OTHER, S_CMP, S_CMP_NUM, S_SET, STEPS };
static const char *stepn[] = {"table", "compound", "compound number", "compound own bound", "assign number", "assign pair", "assign own bounds", "assign other policy", "compare", "compare number", "set"};

// I: protected interval type; U: type used for the calls (I itself, or unprotect<I> under a live guard)
template <class I, class U, class C, bool TR> void history(pbt::Src &s, pbt::Ctx &c, bool guarded) {
  Gen<T> g(s, c); const char *pn = P<C>::name();
  U o[NOBJ]; Iv<T> m[NOBJ]; // objects and model
  bool special = false;
  auto small = [&]() -> T { switch (s.below(4)) { case 0: return T(s.range(-3, 3)); case 1: return T(s.range(-8, 8)) / 2; case 2: return T(s.range(-1, 1)); default: return g.finite(); } };
  auto iv = [&] { T a = small(), b = small(); return Iv<T>(orc::mn(a, b), orc::mx(a, b)); };
  for (int i = 0; i < NOBJ; i++) { m[i] = iv(); o[i] = U(m[i].l, m[i].u); g.hash(m[i]); }
  NOTE(c, std::string("history policy=") + pn + (guarded ? " (unprotected calls under a guard)" : "") + " objects " + str(m[0]) + " " + str(m[1]) + " " + str(m[2]));
  int mode = (int)s.below(4); fesetround(MODES[mode]); Fp outer = Fp::now();
  NOTE(c, std::string("ambient mode ") + moden[mode]);
  int n = 1 + (int)s.below(12);
  struct Guard { typename U::traits_type::rounding *p = nullptr; };
  auto body = [&] {
    Fp inner = Fp::now(); // with a guard: the mode the guard established
    for (int st = 0; st < n; st++) {
      if (!guarded && s.chance(1, 4)) { mode = (int)s.below(4); fesetround(MODES[mode]); inner = outer = Fp::now(); NOTE(c, std::string("ambient mode ") + moden[mode]); }
      int kind = s.weighted({6, 3, 3, 2, 2, 3, 1, 2, 2, 2, 2}); int i = (int)s.below(NOBJ), j = (int)s.below(NOBJ), k = (int)s.below(NOBJ);
      bool nan_ok = P<C>::nans != NAN_SKIP; bool nan = false, nan2 = false;
      auto num = [&](bool &isn) -> T { if (nan_ok && s.chance(1, 5)) { isn = true; return std::numeric_limits<T>::quiet_NaN(); } return small(); };
      T t = 0, v = 0; int op = 0, e = 0, cm = 0; std::string what;
      // reference outcome on the model: the allowing policy, fresh objects, default mode
      Res want; Kind wk = IV; bool any_error = false;
      auto refval = [&](auto f) { int keep = fegetround(); fesetround(FE_TONEAREST); want = run(f); fesetround(keep); wk = want.empty ? (P<C>::empties ? EMPTY : CREATE) : IV; };
      auto R = [&](int a) { return mk<Ref>(m[a]); };
      int mode_before = fegetround(); fesetround(FE_TONEAREST);
      switch (kind) {
        case S_TABLE: {
          op = (int)s.below(guarded ? O_exp : OPS); if (op == O_root && (RARE_ROOT && !s.chance(1, 40))) op = O_inv;
          int u = OT[op].use; if (op == O_fmod || op == O_fmod_n || op == O_nfmod) op = O_intersect, u = OT[op].use;
          if (u & N) t = num(nan); if (u & N2) v = num(nan2); if (u & K) e = s.range(-4, 7); if (op == O_root) e = s.range(1, 4);
          if ((op == O_bis1 || op == O_bis2) && !m[j].empty && (std::isinf(m[j].l) || std::isinf(m[j].u))) op = O_abs;   // the half beyond an infinite median holds no number
          if (op == O_widen) t = std::fabs(t);
          if (op == O_atanh && !m[j].empty && (m[j].l == 1 || m[j].u == -1)) op = O_tanh;
          what = "o" + std::to_string(i) + " = " + OT[op].n + " with x=o" + std::to_string(j) + " y=o" + std::to_string(k); if (u & N) what += " t=" + str(t); if (u & N2) what += " v=" + str(v); if (u & K) what += " k=" + std::to_string(e);
          refval([&] { return ap_obj<Ref>(op, R(j), R(k), t, v, e, mk<Other>(m[j])); });
          break; }
        case S_COMPOUND: op = (int)s.below(4); what = "o" + std::to_string(i) + " " + "+-*/"[op] + "= o" + std::to_string(j); refval([&] { return ap_obj<Ref>(O_add + op, R(i), R(j), t, v, e, Other()); }); break;
        case S_COMPOUND_NUM: op = (int)s.below(4); t = num(nan); what = "o" + std::to_string(i) + " " + "+-*/"[op] + "= " + str(t); refval([&] { return ap_obj<Ref>(O_add_n + op, R(i), R(j), t, v, e, Other()); }); break;
        case S_COMPOUND_OWN: op = (int)s.below(4); cm = (int)s.below(2); t = cm ? m[i].u : m[i].l; if (m[i].empty || std::isinf(t)) { fesetround(mode_before); continue; } what = "o" + std::to_string(i) + " " + "+-*/"[op] + "= its own " + (cm ? "upper" : "lower"); refval([&] { return ap_obj<Ref>(O_add_n + op, R(i), R(j), t, v, e, Other()); }); break;
        case S_ASSIGN_NUM: t = num(nan); what = "o" + std::to_string(i) + " = " + str(t); refval([&] { return Ref(t); }); break;
        case S_ASSIGN_PAIR: t = num(nan); v = num(nan2); what = "o" + std::to_string(i) + ".assign(" + str(t) + "," + str(v) + ")"; refval([&] { return Ref(t, v); }); break;
        case S_ASSIGN_OWN: if (m[i].empty) { fesetround(mode_before); continue; } t = m[i].u; v = m[i].l; if (std::isinf(t) || std::isinf(v)) { fesetround(mode_before); continue; } what = "o" + std::to_string(i) + ".assign(its upper, its lower)"; refval([&] { return Ref(t, v); }); break;
        case S_ASSIGN_OTHER: cm = (int)s.below(3); what = "o" + std::to_string(i) + (cm ? " = intersection of o" + std::to_string(j) + ",o" + std::to_string(k) + " in another policy" : " = empty of another policy"); refval([&] { return cm ? bn::intersect(R(j), R(k)) : Ref::empty(); }); break;
        case S_CMP: op = (int)s.below(6); what = "o" + std::to_string(i) + " " + cmpn[op] + " o" + std::to_string(j); break;
        case S_CMP_NUM: op = (int)s.below(6); t = num(nan); what = "o" + std::to_string(i) + " " + cmpn[op] + " " + str(t); break;
        default: m[i] = iv(); what = "o" + std::to_string(i) + " := " + str(m[i]); o[i].assign(m[i].l, m[i].u); fesetround(mode_before); NOTE(c, what); continue;
      }
      fesetround(mode_before);
      bool anynan = nan || nan2; bool emptyop = m[i].empty || m[j].empty || m[k].empty;
      if (anynan && P<C>::nans == NAN_ERR) wk = INVALID;
      NOTE(c, what); 
      std::string key = std::string(kind == S_TABLE ? OT[op].n : stepn[kind]) + "|" + pn + (guarded ? "|guarded" : "");
      Snap<U> s0(o[0]), s1(o[1]), s2(o[2]); const U *base_ = o; (void)base_;
      T tt = t; U x = o[j], y = o[k]; Other oth = kind == S_ASSIGN_OTHER ? (want.empty ? Other::empty() : Other(want.l, want.u)) : kind == S_TABLE && crossing(op) ? mk<Other>(m[j]) : Other();
      Fp before = Fp::now();
      int cmpgot = -1;
      Got got = outcome<C>([&]() -> U {
        switch (kind) {
          case S_TABLE: { U &d = o[i]; // constructs a temporary, then assigns it
            if (op == O_asg) { d = t; return d; } if (op == O_asg2) { d.assign(t, v); return d; } if (op == O_cross) { d = oth; return d; } if (op == O_asg_w) { d = wide(t); return d; } if (op == O_asg_iv) { d = widen_iv(oth); return d; }
            d = ap_obj<U, TR>(op, o[j], o[k], t, v, e, oth); return d; }
          case S_COMPOUND: switch (op) { case 0: o[i] += o[j]; break; case 1: o[i] -= o[j]; break; case 2: o[i] *= o[j]; break; default: o[i] /= o[j]; } return o[i];
          case S_COMPOUND_NUM: switch (op) { case 0: o[i] += t; break; case 1: o[i] -= t; break; case 2: o[i] *= t; break; default: o[i] /= t; } return o[i];
          case S_COMPOUND_OWN: { const T &b = cm ? o[i].upper() : o[i].lower(); switch (op) { case 0: o[i] += b; break; case 1: o[i] -= b; break; case 2: o[i] *= b; break; default: o[i] /= b; } return o[i]; }
          case S_ASSIGN_NUM: o[i] = t; return o[i];
          case S_ASSIGN_PAIR: o[i].assign(t, v); return o[i];
          case S_ASSIGN_OWN: o[i].assign(o[i].upper(), o[i].lower()); return o[i];
          case S_ASSIGN_OTHER: o[i] = oth; return o[i];
          case S_CMP: try { cmpgot = cmpop(op, o[i], o[j]); } catch (const il::comparison_error &) { cmpgot = 2; } return o[i];
          default: try { cmpgot = cmpop(op, o[i], t); } catch (const il::comparison_error &) { cmpgot = 2; } return o[i];
        }
      });
      Fp after = Fp::now();
      PBT_CHECK(c, after == before, key + "|rounding state", what + (got.k >= CREATE ? " threw and" : "") + " changed the rounding state from " + before.s() + " to " + after.s());
      PBT_CHECK(c, !(guarded) || after == inner, key + "|guard state", "state under the guard is " + after.s() + ", the guard set " + inner.s());
      fesetround(FE_TONEAREST); // the checks below use plain comparisons only
      bool threw = got.k == CREATE || got.k == INVALID || got.k == ODD;
      PBT_CHECK(c, tt == t || (tt != tt && t != t), key + "|number", "number operand changed");
      auto unchanged = [&](int a, const Snap<U> &sn) { PBT_CHECK(c, sn.same(o[a]), key + (a == i ? "|target" : "|operand"), what + (threw ? " threw but" : "") + " changed object o" + std::to_string(a) + " from " + orc::str2(sn.l, sn.u) + " to " + orc::str2(o[a].lower(), o[a].upper())); };
      bool writes = kind < S_CMP && !threw;
      if (!writes || i != 0) unchanged(0, s0);
      if (!writes || i != 1) unchanged(1, s1);
      if (!writes || i != 2) unchanged(2, s2);
      if (kind >= S_CMP) {
        bool bad = m[i].empty || (kind == S_CMP && m[j].empty);
        if (kind == S_CMP_NUM && nan && P<C>::nans == NAN_ERR) { PBT_CHECK(c, got.k == INVALID || (cmpgot == 2), key + "|nan", what + " with NaN did not fail"); special = true; }
        else if (bad || anynan) { PBT_CHECK(c, cmpgot == 2, key + "|compare", what + " did not throw the comparison error"); special = true; }
        else { int w = kind == S_CMP ? cmpref(op, m[i], m[j]) : cmpref(op, m[i], Iv<T>(t, t)); if (w == 2) special = true;
          PBT_CHECK(c, cmpgot == w, key + "|compare", what + " gives " + std::to_string(cmpgot) + " expected " + std::to_string(w)); }
      } else {
        (void)any_error;
        bool loose = anynan && emptyop && P<C>::nans == NAN_ERR;       // an empty operand and a NaN: either outcome
        bool nanhull = anynan && kind == S_TABLE && op == O_hullfree && !P<C>::empties; // hull(NaN,NaN) fails first
        if (!loose && !nanhull) PBT_CHECK(c, got.k == wk, key + "|outcome", what + " gives " + got.s() + ", expected " + (wk == IV ? want.s() : kn[wk]));
        if (got.k == IV) { PBT_CHECK(c, wk == IV && got.l == want.l && got.u == want.u, key + "|value", what + " gives " + got.s() + ", expected " + want.s()); m[i] = Iv<T>(got.l, got.u); }
        else if (got.k == EMPTY) m[i] = Iv<T>();
        else { special = true; c.label(std::string("threw: ") + kn[got.k]); }
      }
      fesetround(mode_before);
      c.label(std::string("step:") + stepn[kind]); c.h(kind * 7919 + i * 64 + j * 8 + k + op * 1000003ull); g.hash(t);
    }
  };
  if (guarded) {
    typename U::traits_type::rounding *no = nullptr; (void)no;
    { typename I::traits_type::rounding guard; (void)&guard; body(); }
    PBT_CHECK(c, Fp::now() == outer, std::string("guard exit|") + pn, "after the guard's scope the state is " + Fp::now().s() + ", before it was " + outer.s());
  } else body();
  c.nontrivial(special);
}
template <class R, class C> void prot(pbt::Src &s, pbt::Ctx &c) { typedef IR<R, C> I; history<I, I, C, true>(s, c, false); }
template <class R, class C> void unprot(pbt::Src &s, pbt::Ctx &c) { typedef IR<R, C> I; typedef typename il::unprotect<I>::type U; history<I, U, C, false>(s, c, true); }
PBT_PROP(opp_strict, 3) { prot<Rnd, strict>(s, c); }
PBT_PROP(std_strict, 2) { prot<RndS, strict>(s, c); }
PBT_PROP(opp_catch, 2) { prot<Rnd, catch_nan_no_empty>(s, c); }
PBT_PROP(std_own, 2) { prot<RndS, catch_own_no_empty_own>(s, c); }
PBT_PROP(opp_catch_allow, 1) { prot<Rnd, catch_nan>(s, c); }
PBT_PROP(std_onezero, 1) { prot<RndS, no_empty_one_zero>(s, c); }
template <class B> struct Plain : il::save_state<B> {};
PBT_PROP(unprotected_opp_strict, 2) { unprot<il::save_state<il::rounded_arith_opp<T>>, strict>(s, c); }
PBT_PROP(unprotected_opp_catch, 1) { unprot<il::save_state<il::rounded_arith_opp<T>>, catch_nan_no_empty>(s, c); }
