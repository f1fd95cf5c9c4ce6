// C27: built-in signed integer base types. Reference: 128-bit integers; an operation is judged when every number that the
// textbook formula computes fits the type.
#include <boost/numeric/interval.hpp>
#include <sstream>
#include "gen.hpp"
#include "families.hpp"
namespace bn = boost::numeric; namespace il = boost::numeric::interval_lib;
typedef __int128 Z;
static std::string zs(Z v) { if (v < 0) return "-" + zs(-v); std::string r; do { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return r; }
struct ZI { Z l, u; bool e; ZI() : l(0), u(0), e(true) {} ZI(Z a, Z b) : l(a), u(b), e(false) {} bool operator==(const ZI &o) const { return e ? o.e : !o.e && l == o.l && u == o.u; } std::string s() const { return e ? "empty" : "[" + zs(l) + "," + zs(u) + "]"; } };
static Z zmin(Z a, Z b) { return b < a ? b : a; } static Z zmax(Z a, Z b) { return a < b ? b : a; }
template <class T> const char *tn(); template <> const char *tn<signed char>() { return "signed char"; } template <> const char *tn<short>() { return "short"; } template <> const char *tn<int>() { return "int"; } template <> const char *tn<long>() { return "long"; } template <> const char *tn<long long>() { return "long long"; }

template <class T, class I, bool EMPTIES> struct Case {
  pbt::Ctx &c; std::string pol; ZI x, y; Z t; int judged = 0;
  static bool fits(Z v) { return v >= (Z)std::numeric_limits<T>::min() && v <= (Z)std::numeric_limits<T>::max(); }
  static bool fits(const ZI &v) { return v.e || (fits(v.l) && fits(v.u)); }
  std::string args() const { return " x=" + x.s() + " y=" + y.s() + " t=" + zs(t); }
  static I mk(const ZI &v) { return v.e ? I::empty() : I((T)v.l, (T)v.u); }
  struct R { ZI v; bool threw = false; std::string s() const { return threw ? "the empty-interval error" : v.s(); } };
  template <class F> R run(F f) { R r; try { I g = f(); if (!bn::empty(g)) r.v = ZI(g.lower(), g.upper()); } catch (const std::runtime_error &) { r.threw = true; } return r; }
  template <class F> void same(const char *op, const ZI &want, F f, bool judge = true) {
    if (!judge || !fits(want)) { c.label(std::string(op) + ":does not fit (not judged)"); return; }
    R r = run(f); judged++; bool ok = want.e && !EMPTIES ? r.threw : !r.threw && r.v == want;
    PBT_CHECK(c, ok, std::string(tn<T>()) + "|" + op, op + args() + " = " + r.s() + ", exactly " + want.s());
  }
  template <class F, class W> void value(const char *op, const W &want, F f) {
    W g{}; bool threw = false; try { g = f(); } catch (const std::exception &) { threw = true; } judged++;
    PBT_CHECK(c, !threw && g == want, std::string(tn<T>()) + "|" + op, op + args() + (threw ? " threw" : " is wrong"));
  }
  static ZI mul(const ZI &a, const ZI &b) { if (a.e || b.e) return ZI(); Z p[] = {a.l * b.l, a.l * b.u, a.u * b.l, a.u * b.u}; return ZI(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); }
  static ZI inter(const ZI &a, const ZI &b) { if (a.e || b.e) return ZI(); Z l = zmax(a.l, b.l), u = zmin(a.u, b.u); return l <= u ? ZI(l, u) : ZI(); }
  static ZI hull(const ZI &a, const ZI &b) { return a.e ? b : b.e ? a : ZI(zmin(a.l, b.l), zmax(a.u, b.u)); }
  static bool sub(const ZI &a, const ZI &b) { return a.e || (!b.e && b.l <= a.l && a.u <= b.u); }
  void all() {
    I X = mk(x), Y = mk(y); T n = (T)t; ZI p(t, t); bool ne = !x.e && !y.e, nx = !x.e; ZI E;
    auto add = [](const ZI &a, const ZI &b) { return a.e || b.e ? ZI() : ZI(a.l + b.l, a.u + b.u); }; auto neg = [](const ZI &a) { return a.e ? a : ZI(-a.u, -a.l); };
    auto subt = [&](const ZI &a, const ZI &b) { return add(a, neg(b)); };
    same("x+y", add(x, y), [&] { return X + Y; }); same("x-y", subt(x, y), [&] { return X - Y; }); same("x*y", mul(x, y), [&] { return X * Y; });
    same("x+=y", add(x, y), [&] { I z(X); z += Y; return z; }); same("x-=y", subt(x, y), [&] { I z(X); z -= Y; return z; }); same("x*=y", mul(x, y), [&] { I z(X); z *= Y; return z; });
    same("x+x", add(x, x), [&] { return X + X; }); same("x-x", subt(x, x), [&] { return X - X; }); same("x*x", mul(x, x), [&] { return X * X; });
    same("x+t", add(x, p), [&] { return X + n; }); same("t+x", add(x, p), [&] { return n + X; }); same("x-t", subt(x, p), [&] { return X - n; }); same("t-x", subt(p, x), [&] { return n - X; }); same("x*t", mul(x, p), [&] { return X * n; }); same("t*x", mul(x, p), [&] { return n * X; });
    same("x+=t", add(x, p), [&] { I z(X); z += n; return z; }); same("x-=t", subt(x, p), [&] { I z(X); z -= n; return z; }); same("x*=t", mul(x, p), [&] { I z(X); z *= n; return z; });
    if (nx) { Z a = x.l; same("add of numbers", ZI(a + t, a + t), [&] { return il::add<I>((T)a, n); }); same("sub of numbers", ZI(a - t, a - t), [&] { return il::sub<I>((T)a, n); }); same("mul of numbers", ZI(a * t, a * t), [&] { return il::mul<I>((T)a, n); }); }
    // quotients that are whole numbers
    if (t != 0 && nx) { ZI m = mul(x, p); if (fits(m)) { same("m/t", x, [&] { return mk(m) / n; }); same("m/=t", x, [&] { I z = mk(m); z /= n; return z; }); if (x.l != std::numeric_limits<T>::min()) same("div of numbers", ZI(x.l, x.l), [&] { return il::div<I>((T)(x.l * t), n); }); } }
    if (ne && !(y.l <= 0 && y.u >= 0)) {   // bounds of x*|y.l*y.u| are multiples of the bounds of y
      Z k = y.l * y.u; bool f = fits(k); ZI m = f ? mul(x, ZI(k, k)) : ZI(); ZI q; if (f && fits(m)) { Z v[] = {m.l / y.l, m.l / y.u, m.u / y.l, m.u / y.u}; q = ZI(*std::min_element(v, v + 4), *std::max_element(v, v + 4)); bool ok = true; for (Z w : v) ok = ok && fits(w);
        same("m/y", q, [&] { return mk(m) / Y; }, ok); same("m/=y", q, [&] { I z = mk(m); z /= Y; return z; }, ok);
        Z r[] = {k / y.l, k / y.u}; same("k/y", ZI(zmin(r[0], r[1]), zmax(r[0], r[1])), [&] { return (T)k / Y; }, fits(r[0]) && fits(r[1])); } }
    same("x/0", E, [&] { return X / (T)0; }); if (nx) same("x/[0,0]", E, [&] { return X / I((T)0); });
    same("-x", neg(x), [&] { return -X; });
    if (nx) { Z a = zmax(x.l, -x.l), b = zmax(x.u, -x.u); bool z = x.l <= 0 && x.u >= 0, f = fits(-x.l) && fits(-x.u);
      same("abs", ZI(z ? 0 : zmin(a, b), zmax(a, b)), [&] { return bn::abs(X); }, f); if (f) value("norm", (T)zmax(a, b), [&] { return bn::norm(X); });
      same("square", ZI(z ? 0 : zmin(a, b) * zmin(a, b), zmax(a, b) * zmax(a, b)), [&] { return bn::square(X); }, f);
      for (int k = 0; k <= 9; k++) { Z pl = 1, pu = 1; bool ok = f; for (int i = 0; i < k && ok; i++) { pl *= x.l; pu *= x.u; ok = fits(pl) && fits(pu) && fits(-pl) && fits(-pu); } if (!ok) break; bool zero = x.l == 0 && x.u == 0;
        same("pow", k == 0 ? zero ? E : ZI(1, 1) : k & 1 ? ZI(pl, pu) : ZI(z ? 0 : zmin(pl, pu), zmax(pl, pu)), [&] { return bn::pow(X, k); }); }
      if (fits(x.u - x.l)) value("width", (T)(x.u - x.l), [&] { return bn::width(X); });
      if (fits(x.u + x.l)) { T m = 0; bool ok = true; try { m = bn::median(X); ok = (Z)m >= x.l && (Z)m <= x.u && (2 * (Z)m - x.l - x.u) <= 1 && (2 * (Z)m - x.l - x.u) >= -1; auto b = bn::bisect(X); ok = ok && b.first.lower() == x.l && b.first.upper() == m && b.second.lower() == m && b.second.upper() == x.u; } catch (const std::exception &) { ok = false; } judged++;
        PBT_CHECK(c, ok, std::string(tn<T>()) + "|median", "median/bisect" + args() + " gives " + zs(m)); }
      if (x.l >= 0 && t > 0 && x.u < (Z(1) << 52)) { Z q = x.l / t; ZI w(x.l - q * t, x.u - q * t); same("fmod", w, [&] { return bn::fmod(X, n); }); same("fmod interval", w, [&] { return bn::fmod(X, I(n)); }); }
    }
    same("min", ne ? ZI(zmin(x.l, y.l), zmin(x.u, y.u)) : E, [&] { return bn::min(X, Y); }); same("max", ne ? ZI(zmax(x.l, y.l), zmax(x.u, y.u)) : E, [&] { return bn::max(X, Y); });
    if (nx) { same("min x,t", ZI(zmin(x.l, t), zmin(x.u, t)), [&] { return bn::min(X, n); }); same("max x,t", ZI(zmax(x.l, t), zmax(x.u, t)), [&] { return bn::max(X, n); }); same("min t,x", ZI(zmin(x.l, t), zmin(x.u, t)), [&] { return bn::min(n, X); }); same("max t,x", ZI(zmax(x.l, t), zmax(x.u, t)), [&] { return bn::max(n, X); });
      if (t >= 0) same("widen", ZI(x.l - t, x.u + t), [&] { return bn::widen(X, n); }); }
    same("hull", hull(x, y), [&] { return bn::hull(X, Y); }); same("hull x,t", hull(x, p), [&] { return bn::hull(X, n); }); same("hull t,x", hull(x, p), [&] { return bn::hull(n, X); }); if (nx) same("hull of numbers", hull(ZI(x.l, x.l), p), [&] { return I::hull((T)x.l, n); });
    same("intersect", inter(x, y), [&] { return bn::intersect(X, Y); });
    value("subset", sub(x, y), [&] { return bn::subset(X, Y); }); value("proper_subset", sub(x, y) && !(x == y), [&] { return bn::proper_subset(X, Y); }); value("overlap", !inter(x, y).e, [&] { return bn::overlap(X, Y); }); value("equal", x == y, [&] { return bn::equal(X, Y); });
    value("in", nx && x.l <= t && t <= x.u, [&] { return bn::in(n, X); }); value("zero_in", nx && x.l <= 0 && x.u >= 0, [&] { return bn::zero_in(X); }); value("singleton", nx && x.l == x.u, [&] { return bn::singleton(X); });
    fam::all(X, Y, n, x.e, x.l, x.u, y.e, y.l, y.u, t, [&](const std::string &name, int want, int got) { judged++;
      PBT_CHECK(c, want == got, std::string(tn<T>()) + "|" + name, name + args() + " gives " + fam::ansn[got] + ", expected " + fam::ansn[want]); });
    // construction, assignment, and conversion to another base type
    same("default", ZI(0, 0), [&] { return I(); }); same("number", p, [&] { return I(n); }); same("assign number", p, [&] { I z(X); z = n; return z; }); same("copy", x, [&] { I z(X); return z; });
    if (ne) { ZI w = x.l <= y.u ? ZI(x.l, y.u) : ZI(); same("pair", w, [&] { return I((T)x.l, (T)y.u); }); same("assign pair", w, [&] { I z(Y); z.assign((T)x.l, (T)y.u); return z; }); same("assign own bounds", y, [&] { I z(Y); z.assign(z.lower(), z.upper()); return z; }); }
    if (nx) { bn::interval<double> D(X); bn::interval<long double> L; L = X; bn::interval<float> F(X); bn::interval<long long> W(X); c.label("converted"); judged += 4;
      auto tight = [&](auto &v, auto z) { typedef decltype(z) V; long double l = v.lower(), u = v.upper(); bool ok = l <= (long double)x.l && (long double)x.u <= u && !((long double)std::nextafter(v.lower(), std::numeric_limits<V>::infinity()) <= (long double)x.l) && !((long double)x.u <= (long double)std::nextafter(v.upper(), -std::numeric_limits<V>::infinity()));
        PBT_CHECK(c, ok, std::string(tn<T>()) + "|conversion", "interval of " + std::string(typeid(V).name()) + " from" + args() + " is " + orc::dec(v.lower()) + ".." + orc::dec(v.upper())); };
      tight(D, double()); tight(L, (long double)0); tight(F, float()); PBT_CHECK(c, W.lower() == x.l && W.upper() == x.u, std::string(tn<T>()) + "|conversion", "interval<long long> from" + args()); }
    c.nontrivial(judged > 140);
  }
};
template <class T> void prop(pbt::Src &s, pbt::Ctx &c) {
  bool emp = s.coin(); std::vector<Z> pool; const Z mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
  auto num = [&]() -> Z { Z r; switch (s.weighted({4, 3, 2, 2, 1, 2})) { case 0: r = s.range(-9, 9); break; case 1: r = s.range(-120, 120); break; case 2: { Z m = (Z)1 << (std::numeric_limits<T>::digits / 2); r = (Z)s.below((uint64_t)m + 2); if (s.coin()) r = -r; } break;
      case 3: r = pool.empty() ? 0 : pool[s.below(pool.size())] + s.range(-1, 1); if (s.chance(1, 3)) r = -r; break; case 4: r = s.coin() ? mn + (int)s.below(4) : mx - (int)s.below(4); break; default: r = (Z)(int64_t)s.bits() >> s.below(62); }
    if (r < mn) r = mn; if (r > mx) r = mx; pool.push_back(r); return r; };
  auto iv = [&]() -> ZI { if (emp && s.chance(1, 16)) return ZI(); Z a = num(), b = s.chance(1, 5) ? a : num(); if (b < a) std::swap(a, b); return ZI(a, b); };
  ZI x = iv(), y = s.chance(1, 10) ? x : iv(); Z t = num();
  NOTE(c, std::string(tn<T>()) + (emp ? " (empties allowed)" : " (default policies)") + " x=" + x.s() + " y=" + y.s() + " t=" + zs(t));
  for (Z v : {x.l, x.u, y.l, y.u, t}) c.h((uint64_t)v); c.h(emp); c.label(tn<T>()); c.label_if(x.e || y.e, "empty operand");
  if (emp) { typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T>>> I; Case<T, I, true> k{c, "base", x, y, t}; k.all(); }
  else { typedef bn::interval<T> I; Case<T, I, false> k{c, "default", x, y, t}; k.all(); }
}
PBT_PROP(int_, 3) { prop<int>(s, c); }
PBT_PROP(short_, 2) { prop<short>(s, c); }
PBT_PROP(schar, 1) { prop<signed char>(s, c); }
PBT_PROP(long_, 2) { prop<long>(s, c); }
PBT_PROP(llong, 2) { prop<long long>(s, c); }
