#pragma once
#include "common.hpp"
enum Op { ADD, SUB, MUL, DIV };
enum Form { II, IT, TI, CII, CIT, TT, SELF, CSELF, NFORM };
static const char *opn[] = {"add", "sub", "mul", "div"};
static const char *fon[] = {"interval,interval", "interval,number", "number,interval", "compound interval", "compound number", "two numbers", "interval with itself", "compound with itself"};

template <class I> Res apply(Op op, Form f, const Iv<T> &x, const Iv<T> &y) {
  return run([&]() -> I {
    switch (f) {
      case II: { I a = mk<I>(x), b = mk<I>(y); switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
      case IT: { I a = mk<I>(x); T b = y.l; switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
      case TI: { T a = x.l; I b = mk<I>(y); switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
      case CII: { I a = mk<I>(x), b = mk<I>(y); switch (op) { case ADD: a += b; break; case SUB: a -= b; break; case MUL: a *= b; break; default: a /= b; } return a; }
      case CIT: { I a = mk<I>(x); T b = y.l; switch (op) { case ADD: a += b; break; case SUB: a -= b; break; case MUL: a *= b; break; default: a /= b; } return a; }
      case SELF: { I a = mk<I>(x); switch (op) { case ADD: return a + a; case SUB: return a - a; case MUL: return a * a; default: return a / a; } }
      case CSELF: { I a = mk<I>(x); switch (op) { case ADD: a += a; break; case SUB: a -= a; break; case MUL: a *= a; break; default: a /= a; } return a; }
      default: { T a = x.l, b = y.l; switch (op) { case ADD: return il::add<I>(a, b); case SUB: return il::sub<I>(a, b); case MUL: return il::mul<I>(a, b); default: return il::div<I>(a, b); } }
    }
  });
}
template <class I> Res apply_p(int pol, Op op, Form f, const Iv<T> &x, const Iv<T> &y);
inline Res apply_pol(int pol, Op op, Form f, const Iv<T> &x, const Iv<T> &y) {
  switch (pol) {
    case 0: return apply<IDef>(op, f, x, y);
    case 1: return apply<IStd>(op, f, x, y);
    case 2: return apply<IOpp>(op, f, x, y);
    default: return apply<IStdStrict>(op, f, x, y);
  }
}
static const char *poln[] = {"opp/strict", "std/base", "opp/base", "std/strict"};

struct ArithCase { Iv<T> x, y; Op op; Form f; int pol; };
inline ArithCase gen_arith(pbt::Src &s, pbt::Ctx &c, Gen<T> &g) {
  ArithCase a;
  a.op = (Op)s.weighted({2, 2, 4, 5});
  a.f = (Form)s.weighted({20, 6, 6, 6, 4, 4, 1, 1});
  a.pol = s.weighted({4, 3, 2, 1});
  bool xn = a.f == TI || a.f == TT, yn = a.f == IT || a.f == CIT || a.f == TT;
  if (xn) { T v = g.finite(); a.x = Iv<T>(v, v); } else a.x = g.interval();
  if (yn) { T v = g.finite(); a.y = Iv<T>(v, v); } else a.y = g.interval();
  if (a.f == SELF || a.f == CSELF) a.y = a.x;
  c.label(std::string("op:") + opn[a.op]); c.label(std::string("form:") + fon[a.f]); c.label(std::string("policy:") + poln[a.pol]);
  g.classify(a.x, "x"); g.classify(a.y, "y");
  g.hash(a.x); g.hash(a.y); c.h(a.op * 100 + a.f * 10 + a.pol);
  NOTE(c, std::string(opn[a.op]) + " (" + fon[a.f] + ", " + poln[a.pol] + ") x=" + str(a.x) + " y=" + str(a.y));
  return a;
}
inline Iv<T> ref_arith(Op op, const Iv<T> &x, const Iv<T> &y) {
  switch (op) { case ADD: return orc::r_add(x, y); case SUB: return orc::r_sub(x, y); case MUL: return orc::r_mul(x, y); default: return orc::r_div(x, y); }
}
