// C14: set operations agree with sets of points.
#include "cmp_common.hpp"
#include "ints.hpp"
static bool same(const Res &r, const Iv<T> &w) { return !r.threw && (w.empty ? r.empty : !r.empty && r.l == w.l && r.u == w.u); }
// an empty result under a policy that forbids empties is the creation error (C17)
template <class I> bool ok(const Res &r, const Iv<T> &w) { return w.empty && !allows_empty<I>::value ? r.threw : same(r, w); }

template <class I> void check(pbt::Ctx &c, const Iv<T> &x, const Iv<T> &y, const Iv<T> &z) {
  Line L; L.add(x); L.add(y); L.add(z); L.done(); uint32_t X = L.mask(x), Y = L.mask(y), Z = L.mask(z);
  const I a = mk<I>(x), b0 = mk<I>(y), d = mk<I>(z); Same<I> sa(a), sb(b0);
  for (int al = 0; al < (can_alias<I, I>(x, y) ? 2 : 1); al++) { const I &b = aliased(a, b0, al);
  std::string pp = std::string(al ? "|same object|" : "|") + pname<I>(), w = both(x, y);
  NOTE(c, pp + " " + w); c.label(relpos(x, y)); c.label_if(al, "same object"); c.nontrivial();
  // intersection
  Iv<T> wi = L.back(X & Y); Res ri = run([&] { return bn::intersect(a, b); });
  PBT_CHECK(c, ok<I>(ri, wi), "intersect" + pp, "intersect gives " + ri.s() + ", common part is " + str(wi));
  // hull: smallest interval covering both: fill between the extreme points
  uint32_t U = X | Y, H = 0; if (U) for (int i = __builtin_ctz(U); i <= 31 - __builtin_clz(U); i++) H |= 1u << i;
  Iv<T> wh = L.back(H); Res rh = run([&] { return bn::hull(a, b); });
  PBT_CHECK(c, ok<I>(rh, wh), "hull" + pp, "hull gives " + rh.s() + ", expected " + str(wh));
  // predicates
  PBT_CHECK(c, bn::empty(a) == !X, "empty" + pp, str(x));
  PBT_CHECK(c, bn::subset(a, b) == !(X & ~Y), "subset" + pp, w);
  PBT_CHECK(c, bn::proper_subset(a, b) == (!(X & ~Y) && X != Y), "proper_subset" + pp, w);
  PBT_CHECK(c, bn::overlap(a, b) == !!(X & Y), "overlap" + pp, w);
  PBT_CHECK(c, bn::equal(a, b) == (X == Y), "equal" + pp, w);
  PBT_CHECK(c, bn::singleton(a) == (X && !(X & (X - 1))), "singleton" + pp, str(x));
  bool hz = !x.empty && (x.l < 0 ? (x.u > 0 || x.u == 0) : x.l == 0);
  PBT_CHECK(c, bn::zero_in(a) == hz, "zero_in" + pp, str(x));
  PBT_CHECK(c, bn::in_zero(a) == hz, "in_zero" + pp, str(x));
  // bound access of what was built (no rounding, no swap)
  if (!x.empty) PBT_CHECK(c, bn::lower(a) == x.l && bn::upper(a) == x.u && a.lower() == x.l && a.upper() == x.u, "bounds" + pp, str(x));
  // laws through the library itself
  if (!(X & Y & Z)) c.label("triple disjoint");
  else {
    Res p = run([&] { return bn::intersect(bn::intersect(a, b), d); }), q = run([&] { return bn::intersect(a, bn::intersect(b, d)); });
    PBT_CHECK(c, same(p, L.back(X & Y & Z)) && same(q, L.back(X & Y & Z)), "intersect associativity" + pp, p.s() + " vs " + q.s());
  }
  Res p = run([&] { return bn::hull(bn::hull(a, b), d); }), q = run([&] { return bn::hull(a, bn::hull(b, d)); });
  PBT_CHECK(c, p.threw == q.threw && p.empty == q.empty && (p.threw || p.empty || (p.l == q.l && p.u == q.u)), "hull associativity" + pp, p.s() + " vs " + q.s());
  PBT_CHECK(c, sa.ok() && sb.ok(), "operand changed", "operand changed");
  }
}
template <class I> void check_num(pbt::Ctx &c, const Iv<T> &x, T t, T u) {
  bool nan = t != t, nau = u != u; Line L; L.add(x); if (!nan) L.add(t); if (!nau) L.add(u); L.done();
  uint32_t X = L.mask(x), Y = nan ? 0 : L.mask(Iv<T>(t, t)), Z = nau ? 0 : L.mask(Iv<T>(u, u));
  const I a = mk<I>(x); Same<I> sa(a); std::string pp = std::string("|") + pname<I>(), w = str(x) + " , number " + str(t);
  NOTE(c, pp + " " + w + " , second number " + str(u)); c.nontrivial();
  c.label(nan ? "NaN number" : x.empty ? "empty vs number" : t < x.l || t > x.u ? "number outside" : t == x.l || t == x.u ? "number at bound" : "number inside");
  auto fill = [](uint32_t U) { uint32_t H = 0; if (U) for (int i = __builtin_ctz(U); i <= 31 - __builtin_clz(U); i++) H |= 1u << i; return H; };
  Iv<T> wh = L.back(fill(X | Y));
  Res r1 = run([&] { return bn::hull(a, t); }), r2 = run([&] { return bn::hull(t, a); });
  PBT_CHECK(c, ok<I>(r1, wh), "hull(interval,number)" + pp, r1.s() + ", expected " + str(wh));
  PBT_CHECK(c, ok<I>(r2, wh), "hull(number,interval)" + pp, r2.s() + ", expected " + str(wh));
  Iv<T> w2 = L.back(fill(Y | Z)); Res r3 = run([&] { return I::hull(t, u); });
  PBT_CHECK(c, ok<I>(r3, w2), "hull(number,number)" + pp, r3.s() + ", expected " + str(w2));
  if (!nan && !nau) { Res r4 = run([&] { return bn::hull(t, u); }); PBT_CHECK(c, same(r4, w2), "hull<T>(number,number)", r4.s() + ", expected " + str(w2)); }
  PBT_CHECK(c, bn::in(t, a) == !!(X & Y), "in" + pp, w);
  PBT_CHECK(c, sa.ok(), "operand changed", "operand changed");
}
// operands of different policies
template <class I1, class I2> void check_mixed(pbt::Ctx &c, const Iv<T> &x, const Iv<T> &y) {
  Line L; L.add(x); L.add(y); L.done(); uint32_t X = L.mask(x), Y = L.mask(y);
  const I1 a = mk<I1>(x); const I2 b = mk<I2>(y); std::string pp = std::string("|") + pname<I1>() + "," + pname<I2>(), w = both(x, y);
  NOTE(c, pp + " " + w); c.label(relpos(x, y)); c.nontrivial();
  PBT_CHECK(c, bn::subset(a, b) == !(X & ~Y), "subset" + pp, w);
  PBT_CHECK(c, bn::proper_subset(a, b) == (!(X & ~Y) && X != Y), "proper_subset" + pp, w);
  PBT_CHECK(c, bn::overlap(a, b) == !!(X & Y), "overlap" + pp, w);
  PBT_CHECK(c, bn::equal(a, b) == (X == Y), "equal" + pp, w);
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) { Gen<T> g(s, c); Anchors A(g); bool e = allows_empty<I>::value; Iv<T> x = A.iv(e), y = A.iv(e), z = A.iv(e); g.hash(x); g.hash(y); check<I>(c, x, y, z); }
template <class I> void prop_num(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); bool e = allows_empty<I>::value; Iv<T> x = A.iv(e); T n = std::numeric_limits<T>::quiet_NaN();
  T t = e && s.chance(1, 10) ? n : A.num(), u = e && s.chance(1, 10) ? n : A.num();
  g.hash(x); g.hash(t); g.hash(u); check_num<I>(c, x, t, u);
}
template <class I1, class I2> void prop_mixed(pbt::Src &s, pbt::Ctx &c) { Gen<T> g(s, c); Anchors A(g); Iv<T> x = A.iv(allows_empty<I1>::value), y = A.iv(allows_empty<I2>::value); g.hash(x); g.hash(y); check_mixed<I1, I2>(c, x, y); }
PBT_PROP(intervals_def, 3) { prop<IDef>(s, c); }
PBT_PROP(intervals_opp, 4) { prop<IOpp>(s, c); }
PBT_PROP(intervals_std, 2) { prop<IStd>(s, c); }
PBT_PROP(numbers_def, 2) { prop_num<IDef>(s, c); }
PBT_PROP(numbers_opp, 3) { prop_num<IOpp>(s, c); }
PBT_PROP(intervals_mark, 2) { prop<IMark>(s, c); }
PBT_PROP(intervals_ord, 2) { prop<IOrd>(s, c); }
PBT_PROP(numbers_mark, 1) { prop_num<IMark>(s, c); }
PBT_PROP(numbers_ord, 1) { prop_num<IOrd>(s, c); }
PBT_PROP(mixed_4, 1) { prop_mixed<IStdStrict, IMark>(s, c); }
PBT_PROP(mixed_4o, 1) { prop_mixed<IStdStrict, IOrd>(s, c); }
PBT_PROP(mixed_5, 1) { prop_mixed<IMark, IDef>(s, c); }
PBT_PROP(mixed_5o, 1) { prop_mixed<IOrd, IDef>(s, c); }
PBT_PROP(mixed_6, 1) { prop_mixed<IMark, IOpp>(s, c); }
PBT_PROP(mixed_6o, 1) { prop_mixed<IOrd, IOpp>(s, c); }
PBT_PROP(mixed_7, 1) { prop_mixed<IOpp, IMark>(s, c); }
PBT_PROP(mixed_7o, 1) { prop_mixed<IOpp, IOrd>(s, c); }
PBT_PROP(mixed_1, 1) { prop_mixed<IOpp, IDef>(s, c); }
PBT_PROP(mixed_2, 1) { prop_mixed<IDef, IOpp>(s, c); }
PBT_PROP(mixed_3, 1) { prop_mixed<IStd, IOpp>(s, c); }
PBT_ENUM(grid_opp, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1)), grid_iv(k * 7 % (GN + 1))); }
PBT_ENUM(grid_def, GN * GN) { int k = (int)s.below(GN * GN); c.h(k); check<IDef>(c, grid_iv(k / GN), grid_iv(k % GN), grid_iv(k * 7 % GN)); }
PBT_ENUM(grid_mixed, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check_mixed<IDef, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed2, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check_mixed<IOpp, IDef>(c, grid_iv(k % (GN + 1)), grid_iv(k / (GN + 1))); }
PBT_ENUM(grid_mixed_mark, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check_mixed<IDef, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check_mixed<IMark, IDef>(c, grid_iv(k % (GN + 1)), grid_iv(k / (GN + 1))); }
PBT_ENUM(grid_mixed_ord, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check_mixed<IDef, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check_mixed<IOrd, IDef>(c, grid_iv(k % (GN + 1)), grid_iv(k / (GN + 1))); }
PBT_ENUM(grid_mark_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check_mixed<IMark, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check_mixed<IOpp, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_ord_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check_mixed<IOrd, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check_mixed<IOpp, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_num, (GN + 1) * 25) { int k = (int)s.below((GN + 1) * 25); c.h(k); auto v = [](int i) { return i == 4 ? std::numeric_limits<T>::quiet_NaN() : GRID[1 + i]; }; check_num<IOpp>(c, grid_iv(k / 25), v(k % 5), v(k / 5 % 5)); }
PBT_ENUM(grid_num_def, GN * 16) { int k = (int)s.below(GN * 16); c.h(k); check_num<IDef>(c, grid_iv(k / 16), GRID[1 + k % 4], GRID[1 + k / 4 % 4]); }
PBT_PROP(over_int, 1) { ints::sets<ints_int>(s, c); }
PBT_PROP(over_unsigned, 1) { ints::sets<ints_unsigned>(s, c); }
PBT_PROP(over_schar, 1) { ints::sets<ints_schar>(s, c); }
PBT_PROP(over_llong, 1) { ints::sets<ints_llong>(s, c); }
