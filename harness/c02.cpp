// C02: bit-exact tightness of + - * / and unary minus against an MPFR set-based reference.
#include "arith_common.hpp"

static void check_case(pbt::Ctx &c, const ArithCase &a) {
  Iv<T> want = ref_arith(a.op, a.x, a.y);
  Res r = apply_pol(a.pol, a.op, a.f, a.x, a.y);
  NOTE(c, "result=" + r.s() + " reference=" + str(want));
  std::string key = std::string(opn[a.op]) + "|" + fon[a.f] + "|" + poln[a.pol];
  bool strict = a.pol == 0 || a.pol == 3;
  if (want.empty) {
    PBT_CHECK(c, strict ? r.threw : (!r.threw && r.empty), key + "|empty", "expected the empty interval, got " + r.s());
    c.label("empty result"); c.nontrivial(); return;
  }
  PBT_CHECK(c, r.iv() == want, key, "got " + r.s() + " but the smallest enclosing interval is " + str(want));
  // non-trivial: some rounding happened (lower and upper rounding of the same reference differ) or a special case
  Iv<T> in = Iv<T>(want.l, want.u);
  c.nontrivial(a.x.l != a.x.u || a.y.l != a.y.u || in.l != in.u);
}
PBT_PROP(arith_tight, 10) { Gen<T> g(s, c); ArithCase a = gen_arith(s, c, g); check_case(c, a); }
// division with zero as an endpoint of the divisor, zero endpoints of the dividend: small dedicated generator
PBT_PROP(div_zero_ends, 3) {
  Gen<T> g(s, c); ArithCase a; a.op = DIV; a.pol = s.weighted({3, 3, 2, 2});
  a.f = (Form)s.weighted({4, 0, 3, 1});
  T p = g.positive(), q = g.positive(), v = g.positive(), w = g.positive();
  T pz = s.coin() ? -T(0) : T(0), qz = s.coin() ? -T(0) : T(0);
  switch (s.below(6)) { case 0: a.y = Iv<T>(pz, p); break; case 1: a.y = Iv<T>(-p, pz); break; case 2: a.y = Iv<T>(-p, q); break; case 3: a.y = Iv<T>(pz, orc::inf<T>()); break; case 4: a.y = Iv<T>(-orc::inf<T>(), pz); break; default: a.y = Iv<T>(qz, pz); }
  switch (s.below(9)) { case 0: a.x = Iv<T>(qz, v); break; case 1: a.x = Iv<T>(-v, qz); break; case 2: a.x = Iv<T>(-v, w); break; case 3: a.x = Iv<T>(orc::mn(v, w), orc::mx(v, w)); break; case 4: a.x = Iv<T>(-orc::mx(v, w), -orc::mn(v, w)); break; case 5: a.x = Iv<T>(qz, qz); break;
    case 6: a.x = Iv<T>(-orc::inf<T>(), qz); break; case 7: a.x = Iv<T>(qz, orc::inf<T>()); break; default: a.x = Iv<T>(v, v); }
  if (a.f == TI) { if (std::isinf(a.x.l)) a.x.l = a.x.u; a.x.u = a.x.l; }
  g.hash(a.x); g.hash(a.y); c.h(a.f * 10 + a.pol); g.classify(a.x, "zx"); g.classify(a.y, "zy");
  NOTE(c, std::string("div (") + fon[a.f] + ", " + poln[a.pol] + ") x=" + str(a.x) + " y=" + str(a.y));
  check_case(c, a);
}
PBT_PROP(negation, 1) {
  Gen<T> g(s, c); Iv<T> x = g.interval(); g.hash(x); c.nontrivial(x.l != x.u); NOTE(c, "neg x=" + str(x));
  PBT_CHECK(c, run([&] { return -mk<IDef>(x); }).iv() == orc::r_neg(x), "neg", "wrong negation");
  PBT_CHECK(c, run([&] { return -mk<IStd>(x); }).iv() == orc::r_neg(x), "neg|std", "wrong negation");
  PBT_CHECK(c, run([&] { return +mk<IStd>(x); }).iv() == x, "plus", "unary plus changed the interval");
}
