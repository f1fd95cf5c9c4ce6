// C12: certain / possible / three-valued operators and the named cer*/pos* functions.
#include "cmp_common.hpp"
#include "ints.hpp"
#include <boost/numeric/interval/compare.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
template <class A, class B> bool certain(int r, const A &a, const B &b) { using namespace il::compare::certain; switch (r) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; } }
template <class A, class B> bool possible(int r, const A &a, const B &b) { using namespace il::compare::possible; switch (r) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; } }
template <class A, class B> boost::logic::tribool tri(int r, const A &a, const B &b) { using namespace il::compare::tribool; switch (r) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; } }
template <class A, class B> bool cer(int r, const A &a, const B &b) { switch (r) { case LT: return il::cerlt(a, b); case LE: return il::cerle(a, b); case GT: return il::cergt(a, b); case GE: return il::cerge(a, b); case EQ: return il::cereq(a, b); default: return il::cerne(a, b); } }
template <class A, class B> bool pos(int r, const A &a, const B &b) { switch (r) { case LT: return il::poslt(a, b); case LE: return il::posle(a, b); case GT: return il::posgt(a, b); case GE: return il::posge(a, b); case EQ: return il::poseq(a, b); default: return il::posne(a, b); } }
template <class F> int ans3(F f) { try { boost::logic::tribool b = f(); return boost::logic::indeterminate(b) ? IND : b ? YES : NO; } catch (const il::comparison_error &) { return THROWN; } catch (...) { return OTHER; } }

// A, B: interval or number; X, Y their point sets
template <class A, class B> void all(pbt::Ctx &c, const A &a, const B &b, uint32_t X, uint32_t Y, bool named_only, bool number_first, const std::string &what, const std::string &kind) {
  bool bad = !X || !Y;
  for (int r = 0; r < 6; r++) {
    bool fa = !bad && forall(r, X, Y), ex = !bad && exists(r, X, Y);
    auto chk = [&](const char *fam, int want, int got) {
      PBT_CHECK(c, want == got, std::string(fam) + reln[r] + "|" + kind, std::string(fam) + " " + what + " with " + reln[r] + " gives " + ansn[got] + ", expected " + ansn[want]);
    };
    if (!bad) {
      c.label(std::string(reln[r]) + (fa ? ":all pairs" : ex ? ":some pairs" : ":no pair"));
      chk("cer", fa, ans([&] { return cer(r, a, b); }));
      chk("pos", ex, ans([&] { return pos(r, a, b); }));
    }
    if constexpr (!std::is_same<A, T>::value) {
      chk("certain", bad ? THROWN : fa, ans([&] { return certain(r, a, b); }));
      chk("possible", bad ? THROWN : ex, ans([&] { return possible(r, a, b); }));
      chk("tribool", bad ? THROWN : fa ? YES : ex ? IND : NO, ans3([&] { return tri(r, a, b); }));
    }
  }
}
template <class I1, class I2> void check(pbt::Ctx &c, const Iv<T> &x, const Iv<T> &y) {
  Line L; L.add(x); L.add(y); L.done();
  const I1 a = mk<I1>(x); const I2 b = mk<I2>(y); Same<I1> sa(a); Same<I2> sb(b);
  NOTE(c, std::string(pname<I1>()) + "," + pname<I2>() + " " + both(x, y)); c.label(relpos(x, y)); c.nontrivial();
  all(c, a, b, L.mask(x), L.mask(y), false, false, both(x, y), std::string("I,I|") + pname<I1>() + "," + pname<I2>());
  if (can_alias<I1, I2>(x, y)) { c.label("same object"); all(c, a, aliased(a, b, true), L.mask(x), L.mask(y), false, false, str(x) + " with itself", std::string("same object|") + pname<I1>()); }
  PBT_CHECK(c, sa.ok() && sb.ok(), "operand changed", "comparison changed an operand");
}
template <class I> void check_num(pbt::Ctx &c, const Iv<T> &x, T t) {
  bool nan = t != t; Line L; L.add(x); if (!nan) L.add(t); L.done();
  uint32_t X = L.mask(x), Y = nan ? 0 : L.mask(Iv<T>(t, t)); const I a = mk<I>(x); Same<I> sa(a);
  NOTE(c, std::string(pname<I>()) + " " + str(x) + " vs number " + str(t)); c.nontrivial();
  c.label(nan ? "NaN number" : x.empty ? "empty vs number" : t < x.l || t > x.u ? "number outside" : t == x.l || t == x.u ? "number at bound" : "number inside");
  all(c, a, t, X, Y, false, false, str(x) + " , number " + str(t), std::string("I,T|") + pname<I>());
  all(c, t, a, Y, X, true, true, "number " + str(t) + " , " + str(x), std::string("T,I|") + pname<I>());
  PBT_CHECK(c, sa.ok(), "operand changed", "comparison changed an operand");
}
template <class I1, class I2> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); Iv<T> x = A.iv(allows_empty<I1>::value), y = A.iv(allows_empty<I2>::value);
  g.hash(x); g.hash(y); check<I1, I2>(c, x, y);
}
template <class I> void prop_num(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); Iv<T> x = A.iv(allows_empty<I>::value); T t = allows_empty<I>::value && s.chance(1, 16) ? std::numeric_limits<T>::quiet_NaN() : A.num();
  g.hash(x); g.hash(t); check_num<I>(c, x, t);
}
PBT_PROP(same_def, 2) { prop<IDef, IDef>(s, c); }
PBT_PROP(same_opp, 2) { prop<IOpp, IOpp>(s, c); }
PBT_PROP(mixed_1, 1) { prop<IOpp, IDef>(s, c); }
PBT_PROP(mixed_2, 1) { prop<IStdStrict, IOpp>(s, c); }
PBT_PROP(mixed_3, 1) { prop<IStd, IOpp>(s, c); }
PBT_PROP(same_mark, 1) { prop<IMark, IMark>(s, c); }
PBT_PROP(same_ord, 1) { prop<IOrd, IOrd>(s, c); }
PBT_PROP(mixed_4, 1) { prop<IStdStrict, IMark>(s, c); }
PBT_PROP(mixed_4o, 1) { prop<IStdStrict, IOrd>(s, c); }
PBT_PROP(mixed_5, 1) { prop<IMark, IOpp>(s, c); }
PBT_PROP(mixed_5o, 1) { prop<IOrd, IOpp>(s, c); }
PBT_PROP(mixed_6, 1) { prop<IOpp, IMark>(s, c); }
PBT_PROP(mixed_6o, 1) { prop<IOpp, IOrd>(s, c); }
PBT_PROP(number_mark, 1) { prop_num<IMark>(s, c); }
PBT_PROP(number_ord, 1) { prop_num<IOrd>(s, c); }
PBT_PROP(number_def, 2) { prop_num<IDef>(s, c); }
PBT_PROP(number_opp, 2) { prop_num<IOpp>(s, c); }
PBT_ENUM(grid_def, GN * GN) { int k = (int)s.below(GN * GN); c.h(k); check<IDef, IDef>(c, grid_iv(k / GN), grid_iv(k % GN)); }
PBT_ENUM(grid_opp, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IOpp, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed_mark, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed_ord, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mark_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IMark, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check<IOpp, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_ord_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IOrd, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check<IOpp, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_num, (GN + 1) * 5) { int k = (int)s.below((GN + 1) * 5); c.h(k); check_num<IOpp>(c, grid_iv(k / 5), k % 5 == 4 ? std::numeric_limits<T>::quiet_NaN() : GRID[1 + k % 5]); }
PBT_ENUM(grid_num_def, GN * 4) { int k = (int)s.below(GN * 4); c.h(k); check_num<IDef>(c, grid_iv(k / 4), GRID[1 + k % 4]); }
INT_COMPARE(int, "certain", "possib", "three")
INT_COMPARE(unsigned, "certain", "possib", "three")
INT_COMPARE(schar, "certain", "possib", "three")
INT_COMPARE(llong, "certain", "possib", "three")
