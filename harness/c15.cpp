// C15: width, median, norm, bisection, widening, bound access.
#include "cmp_common.hpp"
#include "ints.hpp"
static T mid_ref(T a, T b) { // correctly rounded midpoint of finite numbers
  mpq_class m = (orc::q(a) + orc::q(b)) / 2; return orc::from_q<T>(m, orc::NR);
}
static bool same0(T a, T b) { return a == b || (isnan_(a) && isnan_(b)); }
template <class I> void check(pbt::Ctx &c, const Iv<T> &x, T v) {
  const I a = mk<I>(x); Same<I> sa(a); std::string pp = std::string("|") + pname<I>();
  NOTE(c, pp + " " + str(x) + " v=" + str(v));
  auto eq = [&](const char *f, T got, T want) { PBT_CHECK(c, same0(got, want), std::string(f) + pp, std::string(f) + "(" + str(x) + ") = " + str(got) + ", expected " + str(want)); };
  if (x.empty) {
    T nan = std::numeric_limits<T>::quiet_NaN();
    eq("width", bn::width(a), 0); eq("median", bn::median(a), nan); eq("norm", bn::norm(a), nan);
    eq("checked_lower", bn::checked_lower(a), nan); eq("checked_upper", bn::checked_upper(a), nan);
    std::pair<I, I> p = bn::bisect(a);
    PBT_CHECK(c, bn::empty(p.first) && bn::empty(p.second), "bisect empty" + pp, "bisection of empty is " + res(p.first).s() + " " + res(p.second).s());
    Res w = run([&] { return bn::widen(a, v); }); PBT_CHECK(c, w.empty, "widen empty" + pp, w.s());
    c.nontrivial(); return;
  }
  bool bounded = !std::isinf(x.l) && !std::isinf(x.u);
  eq("lower", bn::lower(a), x.l); eq("upper", bn::upper(a), x.u); eq("checked_lower", bn::checked_lower(a), x.l); eq("checked_upper", bn::checked_upper(a), x.u);
  T wantw = bounded ? orc::sub(x.u, x.l, orc::UP) : orc::inf<T>();
  eq("width", bn::width(a), wantw);
  eq("norm", bn::norm(a), orc::mx(std::fabs(x.l), std::fabs(x.u)));
  T m = bn::median(a);
  if (bounded) {
    T want = mid_ref(x.l, x.u);
    bool over = std::isinf(orc::add(x.l, x.u, orc::NR));
    if (over) c.label("sum of bounds overflows");
    PBT_CHECK(c, x.l <= m && m <= x.u, "median outside" + pp, "median(" + str(x) + ") = " + str(m) + " is outside the interval");
    if (!over) { eq("median", m, want); if (std::fabs(want) < std::numeric_limits<T>::min() && want != 0) c.label("subnormal midpoint"); }
    c.nontrivial(x.l != x.u);
  } else { c.label("unbounded"); c.nontrivial(); }
  std::pair<I, I> p = bn::bisect(a);
  Res r1 = res(p.first), r2 = res(p.second);
  NOTE(c, "bisect -> " + r1.s() + " " + r2.s());
  PBT_CHECK(c, r1.l == x.l && r2.u == x.u && r1.u == r2.l && r1.l <= r1.u && r2.l <= r2.u && !isnan_(m) && r1.u == m, "bisect" + pp, "bisect(" + str(x) + ") = " + r1.s() + " " + r2.s() + ", median " + str(m));
  Res w = run([&] { return bn::widen(a, v); });
  T wl = std::isinf(x.l) ? x.l : orc::sub(x.l, v, orc::DN), wu = std::isinf(x.u) ? x.u : orc::add(x.u, v, orc::UP);
  PBT_CHECK(c, !w.threw && !w.empty && w.l == wl && w.u == wu, "widen" + pp, "widen(" + str(x) + "," + str(v) + ") = " + w.s() + ", expected " + orc::str2(wl, wu));
  PBT_CHECK(c, sa.ok(), "operand changed" + pp, "operand changed");
}
template <class I> void prop(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); Iv<T> x; T v;
  switch (s.weighted({6, 2, 2, 2, 2})) {
    case 0: x = g.interval(); break;
    case 1: { T a = std::ldexp(g.mantissa(), orc::FT<T>::emax - 1 - (int)s.below(3)), b = std::ldexp(g.mantissa(), orc::FT<T>::emax - 1 - (int)s.below(3)); if (b < a) std::swap(a, b); x = s.coin() ? Iv<T>(-b, -a) : Iv<T>(a, b); c.label("huge bounds"); } break;
    case 2: { T a = std::numeric_limits<T>::denorm_min() * (T)(int)s.below(4000), b = std::numeric_limits<T>::denorm_min() * (T)(int)s.below(4000); if (s.coin()) a = -a; if (s.coin()) b = -b; x = Iv<T>(orc::mn(a, b), orc::mx(a, b)); c.label("subnormal bounds"); } break;
    case 3: { T a = g.nonzero(); x = Iv<T>(-std::fabs(a), std::fabs(a)); if (s.coin()) x.u = Gen<T>::ulp_up(x.u); if (std::isinf(x.u)) x.u = std::fabs(a); c.label("nearly symmetric"); } break;
    default: { Anchors A(g); x = A.iv(allows_empty<I>::value); } break;
  }
  v = s.chance(1, 8) ? T(0) : std::fabs(g.finite());
  g.hash(x); g.hash(v); g.classify(x, "x"); check<I>(c, x, v);
}
PBT_PROP(opp_strict, 2) { prop<IDef>(s, c); }
PBT_PROP(opp_base, 2) { prop<IOpp>(s, c); }
PBT_PROP(std_base, 2) { prop<IStd>(s, c); }
PBT_PROP(opp_marked, 1) { prop<IMark>(s, c); }
PBT_PROP(opp_ordered, 1) { prop<IOrd>(s, c); }
PBT_PROP(std_strict, 1) { prop<IStdStrict>(s, c); }
PBT_ENUM(grid, (GN + 1) * 3) { int k = (int)s.below((GN + 1) * 3); c.h(k); const T v[] = {0, 1, std::numeric_limits<T>::max()}; check<IOpp>(c, grid_iv(k / 3), v[k % 3]); check<IStd>(c, grid_iv(k / 3), v[k % 3]); }
PBT_PROP(over_int, 1) { ints::image<ints_int>(s, c, ints::MEASURES); }
PBT_PROP(over_unsigned, 1) { ints::image<ints_unsigned>(s, c, ints::MEASURES); }
PBT_PROP(over_schar, 1) { ints::image<ints_schar>(s, c, ints::MEASURES); }
PBT_PROP(over_llong, 1) { ints::image<ints_llong>(s, c, ints::MEASURES); }
