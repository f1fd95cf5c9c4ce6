// C13: lexicographic and set comparison operators.
#include "cmp_common.hpp"
#include "ints.hpp"
#include <boost/numeric/interval/compare.hpp>
template <class A, class B> bool lex(int r, const A &a, const B &b) { using namespace il::compare::lexicographic; switch (r) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; } }
template <class A, class B> bool setc(int r, const A &a, const B &b) { using namespace il::compare::set; switch (r) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; } }
static int sgn(T a, T b) { return a < b ? -1 : b < a ? 1 : 0; }
static bool lexm(int r, const Iv<T> &x, const Iv<T> &y) { int d = sgn(x.l, y.l); if (!d) d = sgn(x.u, y.u); return rel(r, d, 0); }
static bool setm(int r, uint32_t X, uint32_t Y) { // point sets
  bool sub = !(X & ~Y), sup = !(Y & ~X);
  switch (r) { case LT: return sub && !sup; case LE: return sub; case GT: return sup && !sub; case GE: return sup; case EQ: return sub && sup; default: return !(sub && sup); }
}
template <class I1, class I2> void check(pbt::Ctx &c, const Iv<T> &x, const Iv<T> &y) {
  Line L; L.add(x); L.add(y); L.done(); uint32_t X = L.mask(x), Y = L.mask(y);
  const I1 a = mk<I1>(x); const I2 b0 = mk<I2>(y); Same<I1> sa(a); Same<I2> sb(b0);
  std::string pp = std::string("|") + pname<I1>() + "," + pname<I2>();
  NOTE(c, pp + " " + both(x, y)); c.label(relpos(x, y)); c.nontrivial();
  for (int al = 0; al < (can_alias<I1, I2>(x, y) ? 2 : 1); al++) for (int r = 0; r < 6; r++) {
    const I2 &b = aliased(a, b0, al); if (al) { c.label("same object"); if (r == 0) pp = "|same object" + pp; }
    int wl = x.empty || y.empty ? THROWN : lexm(r, x, y), gl = ans([&] { return lex(r, a, b); });
    PBT_CHECK(c, wl == gl, std::string("lexicographic") + reln[r] + pp, str(x) + reln[r] + str(y) + " gives " + ansn[gl] + ", expected " + ansn[wl]);
    int ws = setm(r, X, Y), gs = ans([&] { return setc(r, a, b); });
    c.label(std::string("set") + reln[r] + ":" + ansn[ws]);
    PBT_CHECK(c, ws == gs, std::string("set") + reln[r] + pp, str(x) + reln[r] + str(y) + " gives " + ansn[gs] + ", expected " + ansn[ws]);
  }
  PBT_CHECK(c, sa.ok() && sb.ok(), "operand changed", "comparison changed an operand");
}
template <class I> void check_num(pbt::Ctx &c, const Iv<T> &x, T t) {
  bool nan = t != t; const I a = mk<I>(x); Same<I> sa(a);
  NOTE(c, std::string(pname<I>()) + " " + str(x) + " vs number " + str(t)); c.nontrivial();
  c.label(nan ? "NaN number" : x.empty ? "empty vs number" : t < x.l || t > x.u ? "number outside" : t == x.l || t == x.u ? "number at bound" : "number inside");
  for (int r = 0; r < 6; r++) {
    int wl = x.empty || nan ? THROWN : lexm(r, x, Iv<T>(t, t)), gl = ans([&] { return lex(r, a, t); });
    PBT_CHECK(c, wl == gl, std::string("lexicographic") + reln[r] + "number|" + pname<I>(), str(x) + reln[r] + str(t) + " gives " + ansn[gl] + ", expected " + ansn[wl]);
    int gs = ans([&] { return setc(r, a, t); });
    PBT_CHECK(c, gs == THROWN, std::string("set") + reln[r] + "number|" + pname<I>(), str(x) + reln[r] + str(t) + " gives " + ansn[gs] + ", expected the comparison error");
  }
  PBT_CHECK(c, sa.ok(), "operand changed", "comparison changed an operand");
}
// order laws over triples, computed with the library's own operators
template <class I> void laws(pbt::Ctx &c, const Iv<T> &x, const Iv<T> &y, const Iv<T> &z) {
  const I v[3] = {mk<I>(x), mk<I>(y), mk<I>(z)};
  NOTE(c, std::string("laws ") + pname<I>() + " " + both(x, y) + " , " + str(z)); c.nontrivial(); c.label(relpos(x, y)); c.label(relpos(y, z));
  bool anyempty = x.empty || y.empty || z.empty;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    std::string w = std::to_string(i) + std::to_string(j);
    if (!anyempty) {
      bool lt = lex(LT, v[i], v[j]), gt = lex(GT, v[i], v[j]), le = lex(LE, v[i], v[j]), ge = lex(GE, v[i], v[j]), eq = lex(EQ, v[i], v[j]), ne = lex(NE, v[i], v[j]);
      PBT_CHECK(c, lt + gt + eq == 1, "lexicographic totality", "exactly one of <, >, == must hold: " + w);
      PBT_CHECK(c, le == (lt || eq) && ge == (gt || eq) && ne == !eq, "lexicographic consistency", "<= >= != disagree with < > ==: " + w);
      PBT_CHECK(c, lt == lex(GT, v[j], v[i]) && le == lex(GE, v[j], v[i]), "lexicographic symmetry", "x<y and y>x disagree: " + w);
      for (int k = 0; k < 3; k++) PBT_CHECK(c, !(lt && lex(LT, v[j], v[k])) || lex(LT, v[i], v[k]), "lexicographic transitivity", "x<y<z but not x<z");
    }
    bool lt = setc(LT, v[i], v[j]), gt = setc(GT, v[i], v[j]), le = setc(LE, v[i], v[j]), ge = setc(GE, v[i], v[j]), eq = setc(EQ, v[i], v[j]), ne = setc(NE, v[i], v[j]);
    PBT_CHECK(c, le == (lt || eq) && ge == (gt || eq) && ne == !eq && lt + gt + eq <= 1, "set consistency", "set operators inconsistent: " + w);
    PBT_CHECK(c, lt == setc(GT, v[j], v[i]) && le == setc(GE, v[j], v[i]), "set symmetry", "subset and superset disagree: " + w);
    PBT_CHECK(c, !(le && setc(LE, v[j], v[i])) || eq, "set antisymmetry", "x<=y<=x but not x==y: " + w);
    for (int k = 0; k < 3; k++) PBT_CHECK(c, !(le && setc(LE, v[j], v[k])) || setc(LE, v[i], v[k]), "set transitivity", "x<=y<=z but not x<=z");
  }
}
template <class I1, class I2> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); Iv<T> x = A.iv(allows_empty<I1>::value), y = A.iv(allows_empty<I2>::value);
  g.hash(x); g.hash(y); check<I1, I2>(c, x, y);
}
template <class I> void prop_num(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); Iv<T> x = A.iv(allows_empty<I>::value); T t = allows_empty<I>::value && s.chance(1, 16) ? std::numeric_limits<T>::quiet_NaN() : A.num();
  g.hash(x); g.hash(t); check_num<I>(c, x, t);
}
template <class I> void prop_laws(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Anchors A(g); bool e = allows_empty<I>::value; Iv<T> x = A.iv(e), y = A.iv(e), z = A.iv(e);
  g.hash(x); g.hash(y); g.hash(z); laws<I>(c, x, y, z);
}
PBT_PROP(same_def, 2) { prop<IDef, IDef>(s, c); }
PBT_PROP(same_opp, 2) { prop<IOpp, IOpp>(s, c); }
PBT_PROP(mixed_1, 2) { prop<IOpp, IDef>(s, c); }
PBT_PROP(mixed_2, 1) { prop<IStdStrict, IOpp>(s, c); }
PBT_PROP(mixed_3, 1) { prop<IStd, IOpp>(s, c); }
PBT_PROP(same_mark, 1) { prop<IMark, IMark>(s, c); }
PBT_PROP(same_ord, 1) { prop<IOrd, IOrd>(s, c); }
PBT_PROP(mixed_4, 1) { prop<IStdStrict, IMark>(s, c); }
PBT_PROP(mixed_4o, 1) { prop<IStdStrict, IOrd>(s, c); }
PBT_PROP(mixed_5, 1) { prop<IMark, IOpp>(s, c); }
PBT_PROP(mixed_5o, 1) { prop<IOrd, IOpp>(s, c); }
PBT_PROP(mixed_6, 1) { prop<IOpp, IMark>(s, c); }
PBT_PROP(mixed_6o, 1) { prop<IOpp, IOrd>(s, c); }
PBT_PROP(number_mark, 1) { prop_num<IMark>(s, c); }
PBT_PROP(number_ord, 1) { prop_num<IOrd>(s, c); }
PBT_PROP(number_def, 1) { prop_num<IDef>(s, c); }
PBT_PROP(number_opp, 1) { prop_num<IOpp>(s, c); }
PBT_PROP(laws_def, 1) { prop_laws<IDef>(s, c); }
PBT_PROP(laws_opp, 2) { prop_laws<IOpp>(s, c); }
PBT_ENUM(grid_def, GN * GN) { int k = (int)s.below(GN * GN); c.h(k); check<IDef, IDef>(c, grid_iv(k / GN), grid_iv(k % GN)); }
PBT_ENUM(grid_opp, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IOpp, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed_mark, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mixed_ord, GN * (GN + 1)) { int k = (int)s.below(GN * (GN + 1)); c.h(k); check<IDef, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_mark_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IMark, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check<IOpp, IMark>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_ord_base, (GN + 1) * (GN + 1)) { int k = (int)s.below((GN + 1) * (GN + 1)); c.h(k); check<IOrd, IOpp>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); check<IOpp, IOrd>(c, grid_iv(k / (GN + 1)), grid_iv(k % (GN + 1))); }
PBT_ENUM(grid_num, (GN + 1) * 5) { int k = (int)s.below((GN + 1) * 5); c.h(k); check_num<IOpp>(c, grid_iv(k / 5), k % 5 == 4 ? std::numeric_limits<T>::quiet_NaN() : GRID[1 + k % 5]); }
PBT_ENUM(grid_num_def, GN * 4) { int k = (int)s.below(GN * 4); c.h(k); check_num<IDef>(c, grid_iv(k / 4), GRID[1 + k % 4]); }
PBT_ENUM(grid_laws, (GN + 1) * (GN + 1) * (GN + 1)) { enum { G1 = GN + 1 }; int k = (int)s.below(G1 * G1 * G1); c.h(k); laws<IOpp>(c, grid_iv(k / G1 / G1), grid_iv(k / G1 % G1), grid_iv(k % G1)); }
INT_COMPARE(int, "lex", "set")
INT_COMPARE(unsigned, "lex", "set")
INT_COMPARE(schar, "lex", "set")
INT_COMPARE(llong, "lex", "set")
