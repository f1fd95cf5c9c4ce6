// C17: checking policies decide what happens to empty results and invalid numbers.
#include "policies.hpp"
struct Case { int op; Iv<T> x, y; T t = 0, v = 0; int k = 0; bool nan_t = false, nan_v = false; };
static std::string show(const Case &q) { int u = OT[q.op].use; std::string r = OT[q.op].n; if (u & X) r += " x=" + str(q.x); if (u & Y) r += " y=" + str(q.y); if (u & N) r += " t=" + str(q.t); if (u & N2) r += " v=" + str(q.v); if (u & K) r += " k=" + std::to_string(q.k); return r; }
// expected outcome class under C; -1: not specified (skip), -2: EMPTY or INVALID
template <class C> int expect(const Case &q, bool &xe, bool &ye) {
  int u = OT[q.op].use; xe = (u & X) && q.x.empty; ye = (u & Y) && q.y.empty;
  bool tn = (u & N) && q.nan_t, vn = (u & N2) && q.nan_v, pairctor = q.op == O_ctor2 || q.op == O_asg2 || q.op == O_ctor2_w;
  int E = P<C>::empties ? EMPTY : CREATE;
  if ((xe || ye) && !P<C>::empties && !crossing(q.op)) return -1;    // such an operand cannot exist
  if (tn || vn) {
    if (P<C>::nans == NAN_SKIP && !(pairctor)) return -1;
    if (P<C>::nans == NAN_ERR && !(xe || ye)) return INVALID;
    if (P<C>::nans == NAN_ERR) return -2;
    if (pairctor) return E;
    if (q.op == O_hull_n || q.op == O_nhull) return xe ? E : IV;
    if (q.op == O_hull2 || q.op == O_hullfree) { if (q.op == O_hullfree && tn && !P<C>::empties) return CREATE; return tn && vn ? E : IV; }
    return E;
  }
  if (q.op == O_hull) return xe && ye ? E : IV;
  if (q.op == O_hull_n || q.op == O_nhull) return IV;
  if (xe || ye) return E;
  return empties(q.op, q.x, q.y, q.t, q.v, q.k) ? E : IV;
}
template <class C> void test(pbt::Ctx &c, const Case &q, Got &ref, const char *&refname) {
  bool xe, ye; int e = expect<C>(q, xe, ye);
  if (e == -1) return;

  Got g = outcome<C>([&] { return ap<IV_<C>>(q.op, q.x, q.y, q.t, q.v, q.k); });
  std::string key = std::string(OT[q.op].n) + "|" + P<C>::name();
  if (e == -2) { PBT_CHECK(c, g.k == EMPTY || g.k == INVALID, key + "|outcome", "gives " + g.s() + " instead of an empty interval or the invalid-number error"); return; }
  PBT_CHECK(c, g.k == e, key + "|outcome", std::string("policy ") + P<C>::name() + " gives " + g.s() + ", expected " + kn[e]);
  if (e == IV) {
    PBT_CHECK(c, g.l <= g.u, key + "|malformed", std::string("policy ") + P<C>::name() + " gives the malformed interval " + g.s());
    if (!refname) { ref = g; refname = P<C>::name(); }
    PBT_CHECK(c, g.l == ref.l && g.u == ref.u, key + "|value", std::string("policy ") + P<C>::name() + " gives " + g.s() + " but " + refname + " gives " + ref.s());
  }
  c.label(std::string(P<C>::name()) + " -> " + kn[e]);
}
// the same policy put in place by the policy-changing helpers, protected and unprotected
template <class C> void rebound(pbt::Ctx &c, const Case &q) {
  bool xe, ye; if (expect<C>(q, xe, ye) == -1) return;
  typedef typename il::change_checking<bn::interval<T, il::policies<Rnd, il::checking_strict<T>>>, C>::type J; typedef typename il::change_rounding<bn::interval<T, il::policies<il::rounded_math<T>, C>>, Rnd>::type K; typedef typename il::unprotect<IV_<C>>::type L;
  Got w = outcome<C>([&] { return ap<IV_<C>>(q.op, q.x, q.y, q.t, q.v, q.k); });
  auto cmp = [&](const char *n, const Got &g) { PBT_CHECK(c, g.k == w.k && (w.k != IV || (g.l == w.l && g.u == w.u)), std::string(OT[q.op].n) + "|" + n, std::string(n) + " to " + P<C>::name() + " gives " + g.s() + ", the type that names the policy " + w.s()); };
  if (q.op % 2) cmp("change_checking", outcome<C>([&] { return ap<J>(q.op, q.x, q.y, q.t, q.v, q.k); })); else cmp("change_rounding", outcome<C>([&] { return ap<K>(q.op, q.x, q.y, q.t, q.v, q.k); }));
  { Rnd guard; (void)&guard; cmp("unprotect applied", outcome<C>([&] { return ap<L>(q.op, q.x, q.y, q.t, q.v, q.k); })); }
}
static void all(pbt::Ctx &c, const Case &q) {
  c.label(std::string("op:") + OT[q.op].n); NOTE(c, show(q));
  Got ref; const char *rn = nullptr;
  test<base>(c, q, ref, rn); test<one_zero>(c, q, ref, rn); test<marked>(c, q, ref, rn); test<ordered>(c, q, ref, rn); test<no_nan>(c, q, ref, rn); test<catch_nan>(c, q, ref, rn); test<no_empty>(c, q, ref, rn); test<strict>(c, q, ref, rn);
  test<no_nan_no_empty>(c, q, ref, rn); test<catch_nan_no_empty>(c, q, ref, rn); test<no_empty_catch_nan>(c, q, ref, rn); test<catch_own_no_empty_own>(c, q, ref, rn); test<no_empty_one_zero>(c, q, ref, rn); test<flags>(c, q, ref, rn);
  rebound<one_zero>(c, q); rebound<catch_nan_no_empty>(c, q);
  if (rn) NOTE(c, std::string("result=") + ref.s());
}

static void gen_and_check(pbt::Src &s, pbt::Ctx &c, bool force_special) {
  Gen<T> g(s, c); Case q; q.op = (int)s.below(OPS);
  int u = OT[q.op].use; if (q.op == O_root && RARE_ROOT && !s.chance(1, 30)) q.op = O_square, u = OT[q.op].use;
  auto gi = [&]() -> Iv<T> {
    if (s.chance(1, force_special ? 3 : 12)) return Iv<T>();
    switch (s.weighted({4, 3, 2})) {
      case 0: { T a = T(s.range(-8, 8)) / 2, b = T(s.range(-8, 8)) / 2; return Iv<T>(orc::mn(a, b), orc::mx(a, b)); }   // domain ends and zeros
      case 1: return g.interval();
      default: { const T sp[] = {T(0), T(1), T(-1), orc::inf<T>(), -orc::inf<T>(), Gen<T>::ulp_up(1), Gen<T>::ulp_dn(1), Gen<T>::ulp_up(-1), Gen<T>::ulp_dn(-1), Gen<T>::ulp_up(0), Gen<T>::ulp_dn(0)}; T a = s.pick(sp), b = s.pick(sp); if (b < a) std::swap(a, b); if (a == b && std::isinf(a)) return orc::whole<T>(); return Iv<T>(a, b); }
    }
  };
  auto gn = [&](bool &nan) -> T { if (s.chance(1, force_special ? 3 : 10)) { nan = true; return s.coin() ? -std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::quiet_NaN(); } return s.chance(1, 3) ? T(s.range(-2, 2)) : g.finite(); };
  if (u & X) q.x = gi(); if (u & Y) q.y = gi(); if (u & N) q.t = gn(q.nan_t); if (u & N2) q.v = gn(q.nan_v); if (u & K) q.k = s.chance(1, 8) ? (int)s.bits() : s.range(-6, 9);
  if (q.op == O_root) { q.k = s.range(1, 8); }

  bool fm = q.op == O_fmod || q.op == O_fmod_n || q.op == O_nfmod;
  if (fm) { // the modulo is documented for positive divisors and quotients that fit; empties and NaN may be anywhere
    Iv<T> &d = q.op == O_nfmod ? q.x : q.y; if (!d.empty && (u & (q.op == O_nfmod ? X : Y))) { d = Iv<T>(orc::mn(std::fabs(d.l), std::fabs(d.u)), orc::mx(std::fabs(d.l), std::fabs(d.u))); if (std::isinf(d.u)) d.u = orc::mx(d.l, T(2)); if (d.l == 0) d.l = d.u == 0 ? (d.u = 1) : d.u; if (std::isinf(d.l)) d = Iv<T>(1, 2); }
    if (q.op == O_fmod_n && !q.nan_t) { q.t = std::fabs(q.t); if (q.t == 0) q.t = 1; }
    if (q.op != O_nfmod && !q.x.empty) { T dv = q.op == O_fmod ? (q.y.empty ? T(1) : q.y.l) : q.nan_t ? T(1) : q.t; if (std::isinf(q.x.l) || std::isinf(q.x.u) || !(std::fabs(q.x.l) / dv < 1e6) || !(std::fabs(q.x.u) / dv < 1e6)) q.x = Iv<T>(dv, dv); }
    if (q.op == O_nfmod && !q.nan_t && !q.x.empty && !(std::fabs(q.t) / q.x.l < 1e6)) q.t = q.x.u;
  }
  if (q.op == O_widen) q.t = std::fabs(q.t);   // amounts to widen by are not negative
  if (q.op == O_atanh && !q.x.empty && (q.x.l == 1 || q.x.u == -1)) throw pbt::Discard();   // the pole itself: unspecified
  if (u & X) g.hash(q.x); if (u & Y) g.hash(q.y); if (u & N) g.hash(q.t); if (u & N2) g.hash(q.v); c.h(q.op * 1000003ull + (unsigned)q.k);
  bool special = ((u & X) && q.x.empty) || ((u & Y) && q.y.empty) || q.nan_t || q.nan_v || empties(q.op, q.x, q.y, q.t, q.v, q.k);
  c.nontrivial(special || s.chance(1, 4)); c.label_if(q.nan_t || q.nan_v, "NaN operand"); c.label_if(((u & X) && q.x.empty) || ((u & Y) && q.y.empty), "empty operand"); c.label_if(special, "special outcome");
  all(c, q);
}
// measures and predicates of possibly empty intervals; policies with their own notion of "not a number"
struct own_nan : marked { static T nan() { return T(-77.25f); } };
template <> struct P<own_nan> { static const char *name() { return "own_nan"; } enum { empties = 1, nans = NAN_EMPTY, own = 0 }; };
template <class C> void measured(pbt::Ctx &c, const Iv<T> &x, T t, T (&ref)[4], bool &have) {
  typedef IV_<C> I; const I a = mk<I>(x); std::string key = std::string("|") + P<C>::name(); const T nan = P<C>::empties ? C::nan() : T(0);
  auto eq = [&](const char *f, T got, T want) { PBT_CHECK(c, got == want || (got != got && want != want), f + key, std::string(f) + "(" + str(x) + ") under " + P<C>::name() + " = " + str(got) + ", expected " + str(want)); };
  auto is = [&](const char *f, bool got, bool want) { PBT_CHECK(c, got == want, f + key, std::string(f) + "(" + str(x) + ") under " + P<C>::name() + (got ? " is true" : " is false")); };
  T w = bn::width(a), m = bn::median(a), n = bn::norm(a), cl = bn::checked_lower(a), cu = bn::checked_upper(a);
  is("empty", bn::empty(a), x.empty);
  if (x.empty) {
    eq("width", w, 0); eq("median", m, nan); eq("norm", n, nan); eq("checked_lower", cl, nan); eq("checked_upper", cu, nan);
    is("singleton", bn::singleton(a), false); is("zero_in", bn::zero_in(a), false); is("in", bn::in(t, a), false); is("subset", bn::subset(a, a), true); is("proper_subset", bn::proper_subset(a, a), false); is("equal", bn::equal(a, a), true); is("overlap", bn::overlap(a, a), false);
    if (P<C>::nans != NAN_ERR || a.lower() == a.lower()) is("in (its own bound)", bn::in(a.lower(), a), false);
    return;
  }
  eq("checked_lower", cl, x.l); eq("checked_upper", cu, x.u); eq("norm", n, orc::mx(std::fabs(x.l), std::fabs(x.u)));
  is("singleton", bn::singleton(a), x.l == x.u); is("zero_in", bn::zero_in(a), x.l <= 0 && x.u >= 0); is("in", bn::in(t, a), x.l <= t && t <= x.u); is("subset", bn::subset(a, a), true); is("proper_subset", bn::proper_subset(a, a), false); is("equal", bn::equal(a, a), true); is("overlap", bn::overlap(a, a), true);
  if (!have) { ref[0] = w; ref[1] = m; have = true; } eq("width", w, ref[0]); eq("median", m, ref[1]);
}
PBT_PROP(measures, 2) {
  Gen<T> g(s, c); Iv<T> x = s.chance(1, 3) ? Iv<T>() : g.interval(); T t = g.finite(); if (s.chance(1, 4) && !x.empty) t = s.coin() ? x.l : x.u;
  g.hash(x); g.hash(t); c.nontrivial(x.empty || s.chance(1, 4)); c.label(x.empty ? "measures of an empty interval" : "measures"); NOTE(c, "measures of " + str(x) + " t=" + str(t));
  T ref[4]; bool have = false;
  measured<base>(c, x, t, ref, have); measured<one_zero>(c, x, t, ref, have); measured<marked>(c, x, t, ref, have); measured<ordered>(c, x, t, ref, have); measured<own_nan>(c, x, t, ref, have); measured<no_nan>(c, x, t, ref, have);
  measured<catch_nan>(c, x, t, ref, have);
  if (!x.empty) { measured<strict>(c, x, t, ref, have); measured<catch_nan_no_empty>(c, x, t, ref, have); measured<no_empty_one_zero>(c, x, t, ref, have); measured<flags>(c, x, t, ref, have); }
}
PBT_PROP(policies, 5) { gen_and_check(s, c, false); }
PBT_PROP(policies_special, 3) { gen_and_check(s, c, true); }
// every operation once per operand class: empty x / empty y / both / NaN t / NaN v / out-of-domain grid
PBT_ENUM(op_by_class, OPS * 12) {
  int i = (int)s.below(OPS * 12); Case q; q.op = i / 12; int cl = i % 12; c.h(i); c.nontrivial(); int u = OT[q.op].use;
  const T nan = std::numeric_limits<T>::quiet_NaN();
  q.x = Iv<T>(T(1) / 4, T(1) / 2); q.y = Iv<T>(1, 2); q.t = 1; q.v = 2; q.k = 3;
  switch (cl) {
    case 0: break; case 1: q.x = Iv<T>(); break; case 2: q.y = Iv<T>(); break; case 3: q.x = q.y = Iv<T>(); break;
    case 4: q.t = nan; q.nan_t = true; break; case 5: q.v = nan; q.nan_v = true; break; case 6: q.t = q.v = nan; q.nan_t = q.nan_v = true; break;
    case 7: q.x = Iv<T>(); q.t = nan; q.nan_t = true; break;
    case 8: q.x = Iv<T>(-3, -2); q.y = Iv<T>(5, 6); q.t = 3; q.v = 1; q.k = 2; break;
    case 9: q.x = Iv<T>(0, 0); if (!(q.op == O_fmod || q.op == O_fmod_n || q.op == O_nfmod)) q.y = Iv<T>(0, 0), q.t = q.v = 0; else if (q.op == O_nfmod) q.x = Iv<T>(1, 1); q.k = q.op == O_root ? 2 : 0; break;
    case 10: q.x = Iv<T>(3, 4); q.y = Iv<T>(1, 3); q.k = 7; break;
    default: q.x = Iv<T>(1, 1); q.y = Iv<T>(-1, 1); q.k = q.op == O_root ? 2 : -2; if (q.op == O_fmod) q.y = Iv<T>(1, 1); break;
  }
  if (q.op == O_nfmod && cl == 8) q.x = Iv<T>(2, 3);
  if (q.op == O_root && q.k < 1) q.k = 2;
  if (q.op == O_atanh && cl == 11) q.x = Iv<T>(-1, 1);
  c.label_if(u & X && q.x.empty, "empty operand");
  all(c, q);
}
