// C29: infinite and empty bounds come from the checking policy.
#include "policies.hpp"
#include <boost/numeric/interval/limits.hpp>
// infinities that are numbers of the policy's choosing (deliberately not opposite), and infinities that cannot be made
template <class U> struct own_inf_of : il::checking_base<U> { static U pos_inf() { return U(0x1.2p+90f); } static U neg_inf() { return U(-0x1.7p+95f); } };
struct no_inf { int sign; };
struct own_inf_marked : checking_marked { static T pos_inf() { return own_inf_of<T>::pos_inf(); } static T neg_inf() { return own_inf_of<T>::neg_inf(); } };
struct thr_inf_ : il::checking_base<T> { static T pos_inf() { throw no_inf{1}; } static T neg_inf() { throw no_inf{-1}; } };
POL(own_inf, own_inf_of<T>, 1, NAN_EMPTY, 0)
POL(own_inf_mark, own_inf_marked, 1, NAN_EMPTY, 0)
POL(own_inf_strict, il::checking_no_nan<T COMMA il::checking_no_empty<T COMMA own_inf_of<T> > >, 0, NAN_SKIP, 0)
POL(thr_inf, thr_inf_, 1, NAN_EMPTY, 0)
struct Case { int op; Iv<T> x, y; T t = 0, v = 0; int k = 0; };
static std::string show(const Case &q) { int u = OT[q.op].use; std::string r = OT[q.op].n; if (u & X) r += " x=" + str(q.x); if (u & Y) r += " y=" + str(q.y); if (u & N) r += " t=" + str(q.t); if (u & N2) r += " v=" + str(q.v); if (u & K) r += " k=" + std::to_string(q.k); return r; }
template <class C> void own(pbt::Ctx &c, const Case &q, const Got &r) {
  if (!P<C>::empties && (r.k == EMPTY || ((OT[q.op].use & X) && q.x.empty) || ((OT[q.op].use & Y) && q.y.empty))) return;
  Got g = outcome<C>([&] { return ap<IV_<C>>(q.op, q.x, q.y, q.t, q.v, q.k); });
  std::string key = std::string(OT[q.op].n) + "|" + P<C>::name();
  PBT_CHECK(c, g.k == r.k, key + "|kind", std::string("policy ") + P<C>::name() + " gives " + g.s() + ", the base policy " + r.s());
  if (r.k == EMPTY) { // "each time an empty interval should be produced (by empty_lower and empty_upper)"
    T l = C::empty_lower(), u = C::empty_upper();
    PBT_CHECK(c, (g.l == l || (l != l && g.l != g.l)) && (g.u == u || (u != u && g.u != g.u)), key + "|empty bounds", std::string("policy ") + P<C>::name() + ": the empty result is stored as " + orc::str2(g.l, g.u));
    return;
  }
  T l = std::isinf(r.l) ? C::neg_inf() : r.l, u = std::isinf(r.u) ? C::pos_inf() : r.u;
  PBT_CHECK(c, g.l == l && g.u == u, key + "|bounds", std::string("policy ") + P<C>::name() + " gives " + orc::str2(g.l, g.u) + ", expected " + orc::str2(l, u));
}
static void thrower(pbt::Ctx &c, const Case &q, const Got &r) {
  int sign = 0; Got g; std::string key = std::string(OT[q.op].n) + "|thr_inf";
  try { IV_<thr_inf> z = ap<IV_<thr_inf>>(q.op, q.x, q.y, q.t, q.v, q.k); g.l = z.lower(); g.u = z.upper(); if (bn::empty(z)) g.k = EMPTY; } catch (const no_inf &e) { sign = e.sign; }
  bool lo = r.k == IV && std::isinf(r.l), up = r.k == IV && std::isinf(r.u);
  // asking for an infinity that is then not used (say, both before a case split) is no fault: only a bound created without the policy is
  if (lo || up) PBT_CHECK(c, sign != 0, key, "result " + r.s() + " needs an infinite bound, but none was asked of the policy: " + g.s());
  else if (!sign) PBT_CHECK(c, g.k == r.k && (r.k != IV || (g.l == r.l && g.u == r.u)), key + "|value", "gives " + g.s() + ", the base policy " + r.s());
  c.label_if(sign, "policy cannot make infinities");
}
static void check(pbt::Ctx &c, const Case &q) {
  c.label(std::string("op:") + OT[q.op].n); NOTE(c, show(q));
  Got r = outcome<base>([&] { return ap<IV_<base>>(q.op, q.x, q.y, q.t, q.v, q.k); });
  NOTE(c, "base policy: " + r.s());
  if (r.k != IV && r.k != EMPTY) throw pbt::Discard();
  if (r.k == IV) { c.label_if(std::isinf(r.l), "lower bound infinite"); c.label_if(std::isinf(r.u), "upper bound infinite"); if (std::isinf(r.l) || std::isinf(r.u)) c.nontrivial(); }
  own<own_inf>(c, q, r); own<own_inf_mark>(c, q, r); own<own_inf_strict>(c, q, r); thrower(c, q, r);
}
// operands stay small, so that no bound overflows: every infinite bound is one the library creates
static bool prepare(Case &q) {
  int u = OT[q.op].use; bool fm = q.op == O_fmod || q.op == O_fmod_n || q.op == O_nfmod;
  if (fm) { Iv<T> &d = q.op == O_nfmod ? q.x : q.y; if ((u & (q.op == O_nfmod ? X : Y)) && !d.empty) { T a = std::fabs(d.l), b = std::fabs(d.u); d = Iv<T>(orc::mn(a, b), orc::mx(a, b)); if (d.l == 0) d = Iv<T>(1, d.u + 1); } if (q.op == O_fmod_n) { q.t = std::fabs(q.t); if (q.t == 0) q.t = 1; } }
  if (q.op == O_widen) q.t = std::fabs(q.t);
  if (q.op == O_root) { q.k = std::abs(q.k); if (q.k < 1) q.k = 2; }
  if (q.op == O_atanh && !q.x.empty && (q.x.l == 1 || q.x.u == -1)) return false;
  return true;
}
PBT_PROP(created, 6) {
  Gen<T> g(s, c); Case q; q.op = s.chance(1, 2) ? (int)s.below(OPS) : s.pick({(int)O_div, (int)O_ndiv, (int)O_pdiv, (int)O_inv, (int)O_part1, (int)O_part2, (int)O_log, (int)O_tan, (int)O_atanh, (int)O_pow});
  int u = OT[q.op].use; if (q.op == O_root && RARE_ROOT && !s.chance(1, 30)) q.op = O_square, u = OT[q.op].use;
  auto num = [&]() -> T { switch (s.below(5)) { case 0: return s.coin() ? T(0) : -T(0); case 1: return T(s.range(-8, 8)) / 2; case 2: return T(s.range(-4, 4)); case 3: { T m = std::ldexp(g.mantissa(), s.range(-4, 3)); return s.coin() ? m : -m; } default: { T m = s.coin() ? Gen<T>::ulp_up(1) : Gen<T>::ulp_dn(1); return s.coin() ? m : -m; } } };
  auto gi = [&]() -> Iv<T> { if (s.chance(1, 16)) return Iv<T>(); T a = num(), b = s.chance(1, 5) ? a : num(); return a <= b ? Iv<T>(a, b) : Iv<T>(b, a); };
  if (u & X) q.x = gi(); if (u & Y) q.y = gi(); if (u & N) q.t = num(); if (u & N2) q.v = num(); if (u & K) q.k = s.range(-7, 9);
  if (q.op == O_ctor_i64 || crossing(q.op)) q.k = s.range(-3, 3);
  if (!prepare(q)) throw pbt::Discard();
  if (u & X) g.hash(q.x); if (u & Y) g.hash(q.y); if (u & N) g.hash(q.t); if (u & N2) g.hash(q.v); c.h(q.op * 1000003ull + (unsigned)q.k);
  check(c, q);
}
// every operation on every pair of intervals between small integers (zero at an end, inside, outside)
static const T ends[] = {-2, -1, 0, 1, 2};
static Iv<T> small_iv(int k) { int n = 0; for (int i = 0; i < 5; i++) for (int j = i; j < 5; j++) if (n++ == k) return Iv<T>(ends[i], ends[j]); return Iv<T>(); }
PBT_ENUM(op_by_pair, OPS * 16 * 16) {
  int i = (int)s.below(OPS * 16 * 16); Case q; q.op = i / 256; q.x = small_iv(i / 16 % 16); q.y = small_iv(i % 16); c.h(i);
  int u = OT[q.op].use; if (!(u & Y) && i % 16 >= 5) throw pbt::Discard();
  q.t = ends[i % 5]; q.v = ends[i / 16 % 5]; q.k = i % 5 - 2; if (q.op == O_root && RARE_ROOT && i % 16) throw pbt::Discard();
  if (!prepare(q)) throw pbt::Discard();
  check(c, q);
}
// whole(), numeric_limits::infinity(), and the bounds of created empties
template <class C> void made(pbt::Ctx &c) {
  typedef IV_<C> I; std::string key = std::string("made|") + P<C>::name();
  I w = I::whole(), l = std::numeric_limits<I>::infinity();
  PBT_CHECK(c, w.lower() == C::neg_inf() && w.upper() == C::pos_inf(), key + "|whole", "whole() is " + orc::str2(w.lower(), w.upper()));
  PBT_CHECK(c, l.lower() == C::neg_inf() && l.upper() == C::pos_inf(), key + "|limits", "numeric_limits::infinity() is " + orc::str2(l.lower(), l.upper()));
  I v(T(-1), T(2)); v.set_whole();
  PBT_CHECK(c, v.lower() == C::neg_inf() && v.upper() == C::pos_inf(), key + "|set_whole", "set_whole() gives " + orc::str2(v.lower(), v.upper()));
  if (!P<C>::empties) return;
  I e = I::empty(), f(T(-1), T(2)); f.set_empty(); T a = C::empty_lower(), b = C::empty_upper();
  auto same = [](T p, T q) { return p == q || (p != p && q != q); };
  PBT_CHECK(c, same(e.lower(), a) && same(e.upper(), b), key + "|empty", "empty() is stored as " + orc::str2(e.lower(), e.upper()));
  PBT_CHECK(c, same(f.lower(), a) && same(f.upper(), b), key + "|set_empty", "set_empty() stores " + orc::str2(f.lower(), f.upper()));
}
PBT_ENUM(whole, 1) { s.below(1); c.h(1); c.nontrivial(); made<base>(c); made<own_inf>(c); made<own_inf_mark>(c); made<own_inf_strict>(c); made<marked>(c); }
// integer base types: no infinity of their own, so only the policy can provide one
template <class Z, long A> struct zinf : il::checking_base<Z> { static Z pos_inf() { return Z(A); } static Z neg_inf() { return Z(-A - 2); } };
template <class Z> void over_int(pbt::Src &s, pbt::Ctx &c) {
  typedef bn::interval<Z, il::policies<il::rounded_math<Z>, zinf<Z, 97>>> A; typedef bn::interval<Z, il::policies<il::rounded_math<Z>, zinf<Z, 111>>> B; typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T>>> F;
  int xa = s.range(-9, 9), xb = s.range(-9, 9), ya = s.range(-4, 4), yb = s.range(-4, 4), t = s.range(-5, 5), op = (int)s.below(6), k = s.range(1, 3);
  if (s.chance(1, 3)) ya = 0; if (s.chance(1, 3)) yb = 0; if (xb < xa) std::swap(xa, xb); if (yb < ya) std::swap(ya, yb); if (s.chance(1, 4)) xb = xa;
  c.h(((xa * 31ll + xb) * 31 + ya) * 31 + yb); c.h(op * 100 + t * 10 + k);
  static const char *on[] = {"x/y", "t/y", "x/t", "inverse(y)", "division_part1", "pow(y,-k)"};
  NOTE(c, std::string(on[op]) + " over integers x=[" + std::to_string(xa) + "," + std::to_string(xb) + "] y=[" + std::to_string(ya) + "," + std::to_string(yb) + "] t=" + std::to_string(t) + " k=" + std::to_string(k));
  auto go = [&](auto tag) { typedef decltype(tag) I; typedef typename I::base_type Q; I x((Q)xa, (Q)xb), y((Q)ya, (Q)yb); Q n = (Q)t; bool b;
    switch (op) { case 0: return x / y; case 1: return n / y; case 2: return x / n; case 3: return il::multiplicative_inverse(y); case 4: return il::division_part1(x, y, b); default: return bn::pow(y, -k); } };
  A a = go(A()); B b = go(B()); F f = go(F());
  PBT_CHECK(c, bn::empty(a) == bn::empty(f) && bn::empty(b) == bn::empty(f), std::string(on[op]) + "|int|empty", "emptiness differs from the floating-point type's");
  if (bn::empty(f)) { c.label("empty"); return; }
  bool lo = std::isinf(f.lower()), up = std::isinf(f.upper()); c.nontrivial(lo || up);
  std::string got = "[" + std::to_string((long)a.lower()) + "," + std::to_string((long)a.upper()) + "] and [" + std::to_string((long)b.lower()) + "," + std::to_string((long)b.upper()) + "]";
  PBT_CHECK(c, lo ? (a.lower() == Z(-99) && b.lower() == Z(-113)) : (a.lower() == b.lower() && a.lower() > -40), std::string(on[op]) + "|int|lower", "under infinities of (-99,97) and (-113,111): " + got);
  PBT_CHECK(c, up ? (a.upper() == Z(97) && b.upper() == Z(111)) : (a.upper() == b.upper() && a.upper() < 40), std::string(on[op]) + "|int|upper", "under infinities of (-99,97) and (-113,111): " + got);
}
PBT_PROP(over_int, 1) { over_int<int>(s, c); }
PBT_PROP(over_schar, 1) { over_int<signed char>(s, c); }
PBT_PROP(over_llong, 1) { over_int<long long>(s, c); }
