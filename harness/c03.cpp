// C03: two-part division and reciprocal against the exact set of quotients.
#include "common.hpp"
#include <boost/numeric/interval/arith2.hpp>

template <class I> void check_div(pbt::Src &s, pbt::Ctx &c, Gen<T> &g, const Iv<T> &x, const Iv<T> &y) {
  const char *pn = pname<I>();
  if (x.empty || y.empty) {
    bool b = true; Res r1 = run([&] { return il::division_part1(mk<I>(x), mk<I>(y), b); });
    PBT_CHECK(c, !r1.threw && r1.empty && !b, std::string("division_part|") + pn + "|empty operand", "an empty operand gives " + r1.s() + " with the flag " + (b ? "true" : "false"));
    Res r2 = run([&] { return il::division_part2(mk<I>(x), mk<I>(y), b); });
    PBT_CHECK(c, !r2.threw && r2.empty, std::string("division_part2|") + pn + "|empty operand", "an empty operand gives " + r2.s());
    c.label("empty operand"); c.nontrivial(); return;
  }
  Iv<T> neg, pos; orc::r_div2(x, y, neg, pos);
  // neg: quotients by the negative part of y, pos: by the positive part. Pieces of the union:
  Iv<T> un = orc::r_hull(neg, pos);
  bool yzero = y.l == 0 && y.u == 0;
  bool strad = y.l < 0 && y.u > 0;
  // two pieces are needed iff zero lies strictly inside y and outside x
  bool two = strad && (x.l > 0 || x.u < 0);
  bool b = !two; // wrong value on purpose: the function has to set it
  Res r1 = run([&] { return il::division_part1(mk<I>(x), mk<I>(y), b); });
  NOTE(c, std::string("part1=") + r1.s() + " flag=" + (b ? "true" : "false"));
  std::string key = std::string("division_part|") + pn;
  if (yzero) {
    PBT_CHECK(c, allows_empty<I>::value ? (!r1.threw && r1.empty) : r1.threw, key + "|zero", "quotient by exactly zero must be empty, got " + r1.s());
    PBT_CHECK(c, !b, key + "|zero-flag", "flag must be false when the quotient set is empty");
    c.label("zero divisor"); c.nontrivial(); return;
  }
  PBT_CHECK(c, !r1.threw && !r1.empty && r1.l <= r1.u, key + "|malformed", "part1 is " + r1.s());
  PBT_CHECK(c, b == two, key + "|flag", std::string("flag is ") + (b ? "true" : "false") + " but the quotient set " + (two ? "has two pieces" : "is one interval"));
  if (x == y) { // one object as both operands: zero is inside or outside both, so one piece
    bool b1 = !b; Res o = run([&] { I a = mk<I>(x); return il::division_part1(a, a, b1); }); c.label("same object");
    PBT_CHECK(c, o.iv() == r1.iv() && b1 == b, key + "|same object", "an object divided by itself gives " + o.s() + ", by an equal copy " + r1.s());
  }
  Res r2;
  if (two) {
    Iv<T> p1 = neg.l < pos.l ? neg : pos, p2 = neg.l < pos.l ? pos : neg;
    // x>0: neg = [-inf, xl/yl], pos=[xl/yu, inf]; x<0: signs swapped
    r2 = run([&] { return s.coin() ? il::division_part2(mk<I>(x), mk<I>(y)) : il::division_part2(mk<I>(x), mk<I>(y), b); });
    NOTE(c, "part2=" + r2.s());
    PBT_CHECK(c, r1.iv() == p1, key + "|part1", "negative piece " + r1.s() + " should be " + str(p1));
    PBT_CHECK(c, r2.iv() == p2, key + "|part2", "positive piece " + r2.s() + " should be " + str(p2));
    c.label("two pieces");
  } else {
    PBT_CHECK(c, r1.iv() == un, key + "|single", "single piece " + r1.s() + " should be " + str(un));
    Res r3 = run([&] { return il::division_part2(mk<I>(x), mk<I>(y), false); });
    PBT_CHECK(c, allows_empty<I>::value ? (!r3.threw && r3.empty) : r3.threw, key + "|part2-false", "second piece with a false flag must be empty, got " + r3.s());
    c.label("one piece");
  }
  for (int k = 0; k < 3; k++) {
    mpq_class p = g.point(x), d = g.point(y); if (d == 0) continue;
    mpq_class v = p / d;
    bool in = orc::q_in(v, r1.l, r1.u) || (two && orc::q_in(v, r2.l, r2.u));
    PBT_CHECK(c, in, key + "|lost", "quotient of points " + p.get_str().substr(0, 100) + " / " + d.get_str().substr(0, 100) + " is in no piece");
  }
  c.nontrivial();
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Iv<T> x = g.interval(), y;
  if (s.chance(2, 3)) { T p = g.positive(), q = g.positive(), z = s.coin() ? -T(0) : T(0);
    switch (s.below(5)) { case 0: case 1: y = Iv<T>(-p, q); break; case 2: y = Iv<T>(z, p); break; case 3: y = Iv<T>(-p, z); break; default: y = s.coin() ? Iv<T>(-orc::inf<T>(), q) : Iv<T>(-p, orc::inf<T>()); }
  } else y = g.interval();
  if (s.chance(1, 3)) { T p = g.positive(), z = s.coin() ? -T(0) : T(0); x = s.coin() ? Iv<T>(z, p) : Iv<T>(-p, z); }
  if (s.chance(1, 16)) { if (s.coin()) x = y; else x = Iv<T>(-y.u, -y.l); }
  if (allows_empty<I>::value && s.chance(1, 24)) { int k = (int)s.below(3); if (k != 1) x = Iv<T>(); if (k) y = Iv<T>(); }
  g.hash(x); g.hash(y); g.classify(x, "x"); g.classify(y, "y");
  NOTE(c, std::string("division_part (") + pname<I>() + ") x=" + str(x) + " y=" + str(y));
  check_div<I>(s, c, g, x, y);
}
PBT_PROP(div_parts_def, 3) { prop<IDef>(s, c); }
PBT_PROP(div_parts_opp, 2) { prop<IOpp>(s, c); }
PBT_PROP(div_parts_std, 3) { prop<IStd>(s, c); }
PBT_PROP(div_parts_marked, 1) { prop<IMark>(s, c); }
PBT_PROP(div_parts_ordered, 1) { prop<IOrd>(s, c); }

template <class I> void inv(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Iv<T> x = g.interval(); 
  if (s.chance(1, 3)) { T p = g.positive(), z = s.coin() ? -T(0) : T(0); switch (s.below(4)) { case 0: x = Iv<T>(z, p); break; case 1: x = Iv<T>(-p, z); break; case 2: x = Iv<T>(z, z); break; default: x = Iv<T>(-p, g.positive()); } }
  g.hash(x); g.classify(x, "inv");
  Res r = run([&] { return il::multiplicative_inverse(mk<I>(x)); });
  Iv<T> want = orc::r_inv(x);
  NOTE(c, std::string("inverse (") + pname<I>() + ") x=" + str(x) + " result=" + r.s());
  if (want.empty) PBT_CHECK(c, allows_empty<I>::value ? (!r.threw && r.empty) : r.threw, std::string("inverse|empty|") + pname<I>(), "1/0 must be empty, got " + r.s());
  else PBT_CHECK(c, r.iv() == want, std::string("inverse|") + pname<I>(), "got " + r.s() + ", expected " + str(want));
  c.nontrivial();
}
PBT_PROP(inverse_def, 1) { inv<IDef>(s, c); }
PBT_PROP(inverse_opp, 1) { inv<IOpp>(s, c); }
PBT_PROP(inverse_std, 1) { inv<IStd>(s, c); }
