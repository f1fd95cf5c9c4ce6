// C09: interval modulo.
#include "common.hpp"
static mpz_class qfloor(const mpq_class &v) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); return r; }

template <class I> Res call(int form, const Iv<T> &x, const Iv<T> &y) {
  return run([&]() -> I { I a = mk<I>(x), b = mk<I>(y); T s = x.l, t = y.l;
    switch (form) { case 0: return bn::fmod(a, b); case 1: return bn::fmod(a, t); default: return bn::fmod(s, b); } });
}
static const char *fon[] = {"interval,interval", "interval,number", "number,interval"};
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  enum { P = orc::FT<T>::prec };
  Gen<T> g(s, c); int form = s.weighted({3, 2, 2});
  Iv<T> y, x;
  // divisor: strictly positive
  { T a = g.positive(); if (s.chance(1, 2)) a = s.coin() ? std::ldexp(g.mantissa(), s.range(-10, 10)) : (T)s.range(1, 20);
    T b = a; if (form != 1) switch (s.weighted({3, 2, 2, 1})) { case 0: break; case 1: for (int k = (int)s.below(6); k >= 0; k--) b = Gen<T>::ulp_up(b); break; case 2: b = a * (1 + (T)s.below(100) / 64); break; default: b = g.positive(); }
    if (std::isinf(b)) b = a; if (b < a) std::swap(a, b); y = Iv<T>(a, b); }
  // dividend: quotient below 2^P
  auto dividend = [&](T d) -> T {
    T q;
    switch (s.weighted({4, 3, 3, 2})) {
      case 0: q = std::ldexp(g.mantissa(), s.range(-6, 12)); break;
      case 1: q = (T)s.range(0, 2000); break;                                // near multiples
      case 2: q = std::ldexp(g.mantissa(), s.range(0, P - 1)); break;
      default: q = std::floor(std::ldexp(g.mantissa(), s.range(0, P - 1))); break;
    }
    T v = q * d; int k = s.range(-2, 2); while (k > 0) { v = Gen<T>::ulp_up(v); k--; } while (k < 0) { v = Gen<T>::ulp_dn(v); k++; }
    if (s.chance(2, 5)) v = -v;
    return v;
  };
  T l = s.chance(1, 8) ? g.finite() : dividend(s.coin() ? y.l : y.u), u = l;
  if (form != 2) switch (s.weighted({3, 2, 2, 1})) { case 0: break; case 1: for (int k = (int)s.below(6); k >= 0; k--) u = Gen<T>::ulp_up(u); break; case 2: u = l + y.u * (T)s.below(300) / 64; break; default: u = dividend(y.u); }
  if (!std::isfinite(l) || !std::isfinite(u)) throw pbt::Discard();
  if (u < l) std::swap(l, u);
  if (s.chance(1, 8)) { // dividend bounds taken from the divisor's
    T k = (T)(s.coin() ? 1 : s.range(1, 6)); const T v[] = {y.l * k, y.u * k, -y.l * k, -y.u * k, T(0), -T(0)}; l = v[s.below(6)]; u = form == 2 ? l : v[s.below(6)]; if (u < l) std::swap(l, u);
    if (!std::isfinite(l) || !std::isfinite(u)) throw pbt::Discard(); c.label("dividend bounds from the divisor");
  }
  x = Iv<T>(l, u);
  mpq_class ql = orc::q(x.l), yb = orc::q(x.l < 0 ? y.l : y.u), quo = ql / yb;
  mpz_class lim = 1; lim <<= P;
  if (abs(quo) >= lim) { c.label("quotient does not fit the mantissa (excluded)"); throw pbt::Discard(); }
  if (form == 2) x.u = x.l;
  if (form == 1) y.u = y.l;
  g.hash(x); g.hash(y); c.h(form); c.label(std::string("form:") + fon[form]); g.classify(x, "x"); g.classify(y, "y");
  NOTE(c, std::string("fmod (") + fon[form] + ", " + pname<I>() + ") x=" + str(x) + " y=" + str(y));
  Res r = call<I>(form, x, y);
  NOTE(c, "result=" + r.s());
  std::string key = std::string("fmod|") + fon[form] + "|" + pname<I>();
  PBT_CHECK(c, !r.threw && !r.empty && r.l <= r.u, key + "|malformed", "result is " + r.s());
  PBT_CHECK(c, r.l >= 0, key + "|negative", "lower bound is negative: " + r.s());
  PBT_CHECK(c, r.l < y.u, key + "|range", "lower bound " + str(r.l) + " is not below the divisor " + str(y.u));
  mpz_class n0 = qfloor(quo); bool ok = false;
  mpq_class xl = ql, xu = orc::q(x.u), yl = orc::q(y.l), yu = orc::q(y.u);
  for (int d : {0, -1, 1, 2, -2}) {
    mpz_class n = n0 + d; mpq_class nq(n), a = nq * yl, b = nq * yu; if (a > b) std::swap(a, b);
    mpq_class lo = xl - b, hi = xu - a;
    if (orc::q_in(lo, r.l, r.u) && orc::q_in(hi, r.l, r.u)) { ok = true; break; }
  }
  PBT_CHECK(c, ok, key + "|multiple", "no integer n near " + n0.get_str() + " makes the result contain t - n*d for all points; result " + r.s());
  // ordinary remainder for one-point positive operands
  if (x.l == x.u && y.l == y.u && x.l >= 0) {
    mpq_class nd = mpq_class(n0) * yl; T e = orc::from_q<T>(nd, orc::DN);
    if (std::isfinite(e) && orc::q(e) == nd) { T f = std::fmod(x.l, y.l); PBT_CHECK(c, r.l == f, key + "|remainder", "lower bound " + str(r.l) + " differs from the ordinary remainder " + str(f)); c.label("compared with std::fmod"); }
  }
  if (form == 0 && x == y) { Res o = run([&]() -> I { I a = mk<I>(x); return bn::fmod(a, a); }); c.label("same object");
    PBT_CHECK(c, !o.threw && o.l == r.l && o.u == r.u, key + "|same object", "fmod of an object with itself gives " + o.s() + ", with an equal copy " + r.s()); }
  // all forms agree
  if (form != 0) { Res r0 = call<I>(0, x, y); PBT_CHECK(c, r0.l == r.l && r0.u == r.u, key + "|forms", "interval form gives " + r0.s() + " but this form gives " + r.s()); }
  c.nontrivial(n0 != 0); c.label(n0 == 0 ? "n=0" : n0 < 0 ? "n<0" : "n>0"); c.label_if(abs(n0) > (lim >> 4), "n near 2^p");
}
PBT_PROP(mod_def, 2) { prop<IDef>(s, c); }
PBT_PROP(mod_std, 2) { prop<IStd>(s, c); }
PBT_PROP(mod_opp, 1) { prop<IOpp>(s, c); }
