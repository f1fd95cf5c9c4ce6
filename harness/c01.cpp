// C01: inclusion property of interval arithmetic; sampled points in exact rationals.
#include "arith_common.hpp"

static void check_case(pbt::Src &s, pbt::Ctx &c, Gen<T> &g, const ArithCase &a) {
  Res r = apply_pol(a.pol, a.op, a.f, a.x, a.y);
  NOTE(c, "result=" + r.s());
  std::string key = std::string(opn[a.op]) + "|" + fon[a.f] + "|" + poln[a.pol];
  bool yzero = a.y.l == 0 && a.y.u == 0;
  if (a.op == DIV && yzero) {           // no quotient exists: nothing to contain, but nothing malformed either
    PBT_CHECK(c, r.threw || r.empty, key + "|zero-divisor", "division by exactly zero must be empty, got " + r.s());
    c.label("zero divisor"); return;
  }
  PBT_CHECK(c, !r.threw && !r.empty && !isnan_(r.l) && !isnan_(r.u), key + "|lost", "result of non-empty operands is empty/NaN/an exception: " + r.s());
  PBT_CHECK(c, r.l <= r.u, key + "|order", "lower bound above upper bound: " + r.s());
  bool inexact = std::isinf(r.l) || std::isinf(r.u) || r.l != r.u;
  for (int k = 0; k < 4; k++) {
    mpq_class p = k == 0 ? orc::q(std::isinf(a.x.l) ? (std::isinf(a.x.u) ? T(0) : a.x.u) : a.x.l) : g.point(a.x), t = g.point(a.y), v;
    switch (a.op) { case ADD: v = p + t; break; case SUB: v = p - t; break; case MUL: v = p * t; break;
      default: if (t == 0) { c.label("zero divisor point"); continue; } v = p / t; }
    PBT_CHECK(c, orc::q_in(v, r.l, r.u), key + "|inclusion", "exact result of points x=" + p.get_str().substr(0, 200) + " y=" + t.get_str().substr(0, 200) + " (~" + orc::dec(orc::from_q<T>(v, orc::NR)) + ") not in " + r.s());
  }
  c.nontrivial(inexact);
}
PBT_PROP(arith_inclusion, 10) { Gen<T> g(s, c); ArithCase a = gen_arith(s, c, g); check_case(s, c, g, a); }

// all combinations of endpoint kinds: exhaustive over a list of special bounds
static std::vector<T> specials() {
  typedef std::numeric_limits<T> L;
  return {-orc::inf<T>(), -L::max(), T(-3), T(-1) / 3, -L::min(), -L::denorm_min(), -T(0), T(0), L::denorm_min(), L::min(), T(1) / 3, T(3), L::max(), orc::inf<T>()};
}
static std::vector<Iv<T>> special_ivs() {
  std::vector<Iv<T>> v; auto sp = specials();
  for (size_t i = 0; i < sp.size(); i++) for (size_t j = i; j < sp.size(); j++) {
    if (i == j && std::isinf(sp[i])) continue;
    v.push_back(Iv<T>(sp[i], sp[j]));
  }
  return v;
}
static const std::vector<Iv<T>> &SIV() { static std::vector<Iv<T>> v = special_ivs(); return v; }
enum { NSIV = 103 };
PBT_ENUM(special_grid, (uint64_t)NSIV * NSIV * 4 * 2) {
  uint64_t i = s.below((uint64_t)NSIV * NSIV * 4 * 2);
  if (SIV().size() != NSIV) c.fail("harness", "special interval count " + std::to_string(SIV().size()));
  Gen<T> g(s, c);
  ArithCase a; a.pol = i % 2; i /= 2; a.op = (Op)(i % 4); i /= 4; a.x = SIV()[i % NSIV]; a.y = SIV()[i / NSIV]; a.f = II;
  g.hash(a.x); g.hash(a.y); c.h(a.op * 10 + a.pol);
  NOTE(c, std::string(opn[a.op]) + " (" + poln[a.pol] + ") x=" + str(a.x) + " y=" + str(a.y));
  check_case(s, c, g, a);
}
PBT_PROP(negation, 1) {
  Gen<T> g(s, c); Iv<T> x = g.interval(); g.hash(x); c.nontrivial(x.l != x.u); NOTE(c, "neg x=" + str(x));
  Res r = run([&] { return -mk<IDef>(x); }), r2 = run([&] { return -mk<IStd>(x); }), r3 = run([&] { return +mk<IDef>(x); });
  mpq_class p = g.point(x);
  PBT_CHECK(c, !r.threw && orc::q_in(mpq_class(-p), r.l, r.u), "neg", "negated point not in " + r.s());
  PBT_CHECK(c, !r2.threw && orc::q_in(mpq_class(-p), r2.l, r2.u), "neg|std", "negated point not in " + r2.s());
  PBT_CHECK(c, !r3.threw && orc::q_in(p, r3.l, r3.u), "unary plus", "point not in " + r3.s());
}
