// C11: default comparison operators: true for all pairs, false for none, comparison error otherwise.
#include "cmp_common.hpp"
#include "ints.hpp"
template <class A, class B> bool op(int r, const A &a, const B &b) { switch (r) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; } }
static int model(int r, uint32_t X, uint32_t Y, bool bad) { if (bad || !X || !Y) return THROWN; return forall(r, X, Y) ? YES : exists(r, X, Y) ? THROWN : NO; }

template <class I1, class I2> void check(pbt::Ctx &c, const Iv<T> &x, const Iv<T> &y) {
  Line L; L.add(x); L.add(y); L.done();
  uint32_t X = L.mask(x), Y = L.mask(y);
  const I1 a = mk<I1>(x); const I2 b0 = mk<I2>(y); Same<I1> sa(a); Same<I2> sb(b0);
  NOTE(c, std::string(pname<I1>()) + "," + pname<I2>() + " " + both(x, y));
  c.label(relpos(x, y)); c.nontrivial();
  for (int al = 0; al < (can_alias<I1, I2>(x, y) ? 2 : 1); al++) for (int r = 0; r < 6; r++) {
    const I2 &b = aliased(a, b0, al); if (al) c.label("same object");
    int want = model(r, X, Y, false), got = ans([&] { return op(r, a, b); });
    c.label(std::string(reln[r]) + ":" + ansn[want]);
    PBT_CHECK(c, want == got, std::string(al ? "same object" : "interval") + reln[r] + "interval|" + pname<I1>() + "," + pname<I2>(), str(x) + reln[r] + str(y) + " gives " + ansn[got] + ", expected " + ansn[want]);
  }
  PBT_CHECK(c, sa.ok() && sb.ok(), "operand changed", "comparison changed an operand");
}
template <class I> void check_num(pbt::Ctx &c, const Iv<T> &x, T t) {
  bool nan = t != t; Line L; L.add(x); if (!nan) L.add(t); L.done();
  uint32_t X = L.mask(x), Y = nan ? 0 : L.mask(Iv<T>(t, t));
  const I a = mk<I>(x); Same<I> sa(a); const T tc = t;
  NOTE(c, std::string(pname<I>()) + " " + str(x) + " vs number " + str(t));
  c.label(nan ? "NaN number" : x.empty ? "empty vs number" : t < x.l || t > x.u ? "number outside" : t == x.l || t == x.u ? "number at bound" : "number inside"); c.nontrivial();
  for (int r = 0; r < 6; r++) {
    int want = model(r, X, Y, nan), got = ans([&] { return op(r, a, tc); });
    PBT_CHECK(c, want == got, std::string("interval") + reln[r] + "number|" + pname<I>(), str(x) + reln[r] + str(t) + " gives " + ansn[got] + ", expected " + ansn[want]);
  }
  PBT_CHECK(c, sa.ok() && Same<I>::eq(tc, t), "operand changed", "comparison changed an operand");
}
template <class I1, class I2> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); Iv<T> x = A.iv(allows_empty<I1>::value), y = A.iv(allows_empty<I2>::value);
  g.hash(x); g.hash(y); check<I1, I2>(c, x, y);
}
template <class I> void prop_num(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); Iv<T> x = A.iv(allows_empty<I>::value); T t = s.chance(1, 16) ? std::numeric_limits<T>::quiet_NaN() : A.num();
  g.hash(x); g.hash(t); check_num<I>(c, x, t);
}
PBT_PROP(same_def, 2) { prop<IDef, IDef>(s, c); }
PBT_PROP(same_opp, 2) { prop<IOpp, IOpp>(s, c); }
PBT_PROP(mixed_1, 2) { prop<IOpp, IDef>(s, c); }
PBT_PROP(mixed_2, 2) { prop<IStdStrict, IOpp>(s, c); }
PBT_PROP(mixed_3, 1) { prop<IStd, IOpp>(s, c); }
PBT_PROP(same_mark, 1) { prop<IMark, IMark>(s, c); }
PBT_PROP(same_ord, 1) { prop<IOrd, IOrd>(s, c); }
PBT_PROP(mixed_4, 1) { prop<IStdStrict, IMark>(s, c); }
PBT_PROP(mixed_4o, 1) { prop<IStdStrict, IOrd>(s, c); }
PBT_PROP(mixed_5, 1) { prop<IMark, IOpp>(s, c); }
PBT_PROP(mixed_5o, 1) { prop<IOrd, IOpp>(s, c); }
PBT_PROP(mixed_6, 1) { prop<IOpp, IMark>(s, c); }
PBT_PROP(mixed_6o, 1) { prop<IOpp, IOrd>(s, c); }
PBT_PROP(number_mark, 1) { prop_num<IMark>(s, c); }
PBT_PROP(number_ord, 1) { prop_num<IOrd>(s, c); }
PBT_PROP(number_def, 2) { prop_num<IDef>(s, c); }
PBT_PROP(number_opp, 2) { prop_num<IOpp>(s, c); }
PBT_ENUM(grid_def, GN * GN) { int k = (int)s.below(GN * GN); c.h(k); check<IDef, IDef>(c, grid_iv(k / GN), grid_iv(k % GN)); }
PBT_ENUM(grid_opp, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IOpp, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed_mark, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed_ord, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mark_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IMark, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check<IOpp, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_ord_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IOrd, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check<IOpp, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_num, (GN + 1) * 5) { int k = (int)s.below((GN + 1) * 5); c.h(k); check_num<IOpp>(c, grid_iv(k / 5), k % 5 == 4 ? std::numeric_limits<T>::quiet_NaN() : GRID[1 + k % 5]); }
PBT_ENUM(grid_num_def, GN * 5) { int k = (int)s.below(GN * 5); c.h(k); check_num<IDef>(c, grid_iv(k / 5), k % 5 == 4 ? std::numeric_limits<T>::quiet_NaN() : GRID[1 + k % 5]); }
INT_COMPARE(int, "x ")
INT_COMPARE(unsigned, "x ")
INT_COMPARE(schar, "x ")
INT_COMPARE(llong, "x ")
