// C28: the library's mode-switching and single-mode rounding policies over a user number type that computes in its own
// current rounding direction (and may carry excess precision until force_rounding), with a user-supplied rounding control.
#include "grid.hpp"
#include <memory>
enum { NEAR, UP, DOWN, ZERO }; static int g_mode; static const char *const mname[] = {"nearest", "upward", "downward", "toward zero"};
template <int B> double grnd(double x) {   // into the grid in the current direction
  if (x != x) return x; const Grid<B> &g = Grid<B>::get(); double l = g.dn(x), u = g.upw(x); int m = g_mode == ZERO ? x < 0 ? UP : DOWN : g_mode;
  if (m == DOWN) return l; if (m == UP) return u; if (l == u) return l;
  double M = g.max(), step = M - g.v[g.v.size() - 3]; if (std::isinf(u)) return x < M + step / 2 ? M : INF; if (std::isinf(l)) return -x < M + step / 2 ? -M : -INF;
  return x - l <= u - x ? l : u;
}
template <int B, bool X> struct D {   // X: results stay exact (or far more precise than the grid) until they are forced
  double v; D() : v(0) {} D(int i) : v(i) {} static D raw(double d) { D m; m.v = d == 0 ? 0 : d; return m; } static D res(double d) { return raw(X ? d : grnd<B>(d)); }
  D operator-() const { return raw(-v); }
  friend D operator+(const D &a, const D &b) { return res(a.v + b.v); } friend D operator-(const D &a, const D &b) { return res(a.v - b.v); } friend D operator*(const D &a, const D &b) { return res(a.v * b.v); } friend D operator/(const D &a, const D &b) { if (b.v == 0) n_zerodiv++; return res(a.v / b.v); }
  friend bool operator<(const D &a, const D &b) { return a.v < b.v; } friend bool operator<=(const D &a, const D &b) { return a.v <= b.v; } friend bool operator>(const D &a, const D &b) { return a.v > b.v; } friend bool operator>=(const D &a, const D &b) { return a.v >= b.v; } friend bool operator==(const D &a, const D &b) { return a.v == b.v; } friend bool operator!=(const D &a, const D &b) { return a.v != b.v; }
  friend D sqrt(const D &a) { if (a.v < 0 && bad_arg.empty()) bad_arg = "sqrt(" + orc::dec(a.v) + ")"; return res(std::sqrt(a.v)); }
  // functions that respect the current direction: the value moved by a margin above the error of the double computation
  static double dir(double f) { if (std::isinf(f) || f != f) return f; double e = std::fabs(f) * 1e-13 + 1e-300; int m = g_mode == ZERO ? f < 0 ? UP : DOWN : g_mode; return m == UP ? f + e : m == DOWN ? f - e : f; }
#define TF(f, DOM) friend D f(const D &a) { if (!(DOM) && bad_arg.empty()) bad_arg = std::string(#f "(") + orc::dec(a.v) + ")"; return res(dir(std::f(a.v))); }
  TF(exp, true) TF(log, a.v > 0) TF(cos, true) TF(sin, true) TF(tan, true) TF(asin, std::fabs(a.v) <= 1) TF(acos, std::fabs(a.v) <= 1) TF(atan, true) TF(sinh, true) TF(cosh, true) TF(tanh, true) TF(asinh, true) TF(acosh, a.v >= 1) TF(atanh, std::fabs(a.v) <= 1)
#undef TF
};
namespace std { template <int B, bool X> class numeric_limits<D<B, X>> : public numeric_limits<double> { public: static const bool is_iec559 = false; static const int digits = B; static D<B, X> infinity() { return D<B, X>::raw(INF); } static D<B, X> quiet_NaN() { return D<B, X>::raw(NAN); } static D<B, X> max() { return D<B, X>::raw(Grid<B>::get().max()); } static D<B, X> lowest() { return -max(); } static D<B, X> min() { return D<B, X>::raw(std::ldexp(1.0, -B)); } static D<B, X> denorm_min() { return D<B, X>::raw(std::ldexp(1.0, -B - (B - 1))); } }; }
// the rounding control: its mode type is a class, so that nothing but the control's own functions can handle it
template <int B, bool X> struct Ctl {
  struct rounding_mode { int m; }; static void get_rounding_mode(rounding_mode &r) { r.m = g_mode; } static void set_rounding_mode(rounding_mode r) { g_mode = r.m; }
  static void upward() { g_mode = UP; } static void downward() { g_mode = DOWN; } static void to_nearest() { g_mode = NEAR; } static void toward_zero() { g_mode = ZERO; }
  static D<B, X> to_int(const D<B, X> &x) { double l = std::floor(x.v), u = std::ceil(x.v); int m = g_mode == ZERO ? x.v < 0 ? UP : DOWN : g_mode; double r = m == DOWN ? l : m == UP ? u : std::nearbyint(x.v); return D<B, X>::raw(grnd<B>(r)); }
  static D<B, X> force_rounding(const D<B, X> &x) { return D<B, X>::raw(grnd<B>(x.v)); }
};
template <int B, bool X> struct AD : AG<B> { typedef D<B, X> N; static double val(const N &n) { return n.v; } static N num(double v) { return N::raw(v); } };
template <int B, bool X> using RStd = il::rounded_transc_std<D<B, X>, il::rounded_arith_std<D<B, X>, Ctl<B, X>>>;
template <int B, bool X> using ROpp = il::rounded_transc_opp<D<B, X>, il::rounded_arith_opp<D<B, X>, Ctl<B, X>>>;
static int ambient, warm; static std::string state_msg;
static const char *state() { return g_mode == ambient ? nullptr : (state_msg = "the number type's rounding direction was " + std::string(mname[ambient]) + " before and is " + mname[g_mode] + " afterwards").c_str(); }
// the calls of T_ run in the ambient direction, or under a guard after an operation that may move the direction
template <class N, class R, bool UNPROT> struct Env {
  typedef bn::interval<N, il::policies<il::save_state<R>, Chk<N, false, true>>> P; typedef std::conditional_t<UNPROT, typename il::unprotect<P>::type, P> I;
  static std::unique_ptr<il::save_state<R>> &guard() { static std::unique_ptr<il::save_state<R>> g; return g; }
  static void begin() {
    g_mode = ambient;
    if (UNPROT) { guard().reset(new il::save_state<R>); I a(N(1), N(2)); switch (warm) { case 1: sqrt(a); break; case 2: median(a); break; case 3: a / N(3); break; case 4: exp(a); break; case 5: a = I(3); break; case 6: a -= a; break; case 7: acosh(a); break; } }
  }
  static void end() { guard().reset(); }
  static void install() { hook_begin = begin; hook_end = end; hook_state = state; }
};
template <int B, bool X, template <int, bool> class R, bool UNPROT> struct TD : T_<AD<B, X>, typename Env<D<B, X>, R<B, X>, UNPROT>::I, false> {
  typedef T_<AD<B, X>, typename Env<D<B, X>, R<B, X>, UNPROT>::I, false> Base; typedef typename Base::RI RI;
  TD(pbt::Ctx &c, const char *n, int a, int w) : Base(c, n) { ambient = a; warm = w; Env<D<B, X>, R<B, X>, UNPROT>::install(); }
};
template <class T> void enum2(pbt::Src &s, pbt::Ctx &c, const char *n) {
  auto nth2 = [](int i) { auto r = nth<2>(i); typename T::RI q; q.l = r.l; q.u = r.u; q.e = r.e; return q; };
  const auto &v = Grid<2>::get().v; int cnt = (int)(v.size() * (v.size() + 1) / 2); int i = (int)s.below(435); if (i >= cnt) return;
  T t(c, n, i & 3, i % 8); t.x = nth2(i); if (t.x.e && i % 2) return; c.h(i); c.nontrivial(); NOTE(c, std::string(n) + " x=" + t.x.s() + " against every y and t, ambient direction " + mname[ambient]); t.t = 1; t.y = t.x; t.all(2 | 8 | 16);
  for (int j = 0; j < cnt; j++) { t.y = nth2(j); t.t = v[j % v.size()]; ambient = j & 3; warm = j / 4 % 8; t.all(1); if (j < (int)v.size()) t.all(4); }
}
template <int B, class T> void rnd(pbt::Src &s, pbt::Ctx &c, const char *n) {
  const auto &v = Grid<B>::get().v; int k = (int)v.size(), z = k / 2; T t(c, n, (int)s.below(4), (int)s.below(8));
  std::vector<int> pool; auto idx = [&] { int i = s.coin() && !pool.empty() ? pool[s.below(pool.size())] + (int)s.below(3) - 1 : z + (s.chance(1, 2) ? s.range(-(1 << B), 1 << B) : s.range(-z, z)); if (s.chance(1, 8)) i = k - 1 - i; i = std::min(std::max(i, 0), k - 1); pool.push_back(i); return i; };
  auto iv = [&]() -> typename T::RI { if (s.chance(1, 20)) return typename T::RI(); int a = idx(), b = s.chance(1, 4) ? a : s.chance(1, 6) ? z : idx(); if (b < a) std::swap(a, b); if (a == k - 1) a = k - 2; if (b == 0) b = 1; return typename T::RI(v[a], v[b]); };
  t.x = iv(); t.y = iv(); t.t = v[std::min(std::max(idx(), 1), k - 2)];
  c.h(orc::hbits(t.x.l) * 3 + orc::hbits(t.x.u) * 5 + t.x.e); c.h(orc::hbits(t.y.l) * 3 + orc::hbits(t.y.u) * 5 + t.y.e); c.h(orc::hbits(t.t)); c.h(ambient * 8 + warm); c.nontrivial(!t.x.e || !t.y.e); NOTE(c, std::string(n) + t.args() + ", ambient direction " + mname[ambient]); c.label(n); c.label_if(t.x.e || t.y.e, "empty operand"); c.label(std::string("ambient ") + mname[ambient]);
  t.all(31);
}
#define CELLS(F) F(std_, RStd, false, false, "mode-switching") F(std_x, RStd, true, false, "mode-switching, excess precision") F(std_u, RStd, false, true, "mode-switching, unprotected") F(std_ux, RStd, true, true, "mode-switching, excess precision, unprotected") \
  F(opp_, ROpp, false, false, "single-mode") F(opp_x, ROpp, true, false, "single-mode, excess precision") F(opp_u, ROpp, false, true, "single-mode, unprotected") F(opp_ux, ROpp, true, true, "single-mode, excess precision, unprotected")
#define E2(id, R, X, U, n) PBT_ENUM(grid2_##id, 435) { enum2<TD<2, X, R, U>>(s, c, n ", 2-bit grid"); }
#define R3(id, R, X, U, n) PBT_PROP(grid3_##id, 2) { rnd<3, TD<3, X, R, U>>(s, c, n ", 3-bit grid"); }
#define R5(id, R, X, U, n) PBT_PROP(grid5_##id, 1) { rnd<5, TD<5, X, R, U>>(s, c, n ", 5-bit grid"); }
CELLS(R3) CELLS(R5) CELLS(E2)
