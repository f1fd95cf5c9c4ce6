// User-defined number types: small floating grids, exact rationals, set references and the checks over them (C22, C28).
#pragma once
#include <boost/numeric/interval.hpp>
#include <algorithm>
#include "gen.hpp"
#include "families.hpp"
namespace bn = boost::numeric; namespace il = boost::numeric::interval_lib;
static const double INF = std::numeric_limits<double>::infinity();
// what the code under test asked of the user's types
static int depth, n_unprot, n_zerodiv, n_lit, n_sign; static std::string proto, bad_arg, bad_op;
static void reset() { bad_arg.clear(); bad_op.clear(); depth = n_unprot = n_zerodiv = n_lit = n_sign = 0; proto.clear(); }
static void (*hook_begin)() = nullptr, (*hook_end)() = nullptr; static const char *(*hook_state)() = nullptr;   // around every library call
struct Around { Around() { if (hook_begin) hook_begin(); } ~Around() { if (hook_end) hook_end(); } };
static void need(const char *op) { if (depth <= 0 && proto.empty()) proto = op; if (depth <= 0) n_unprot++; }

// --- grid numbers: B-bit significands, exponents from 2^-B to about 2^(B+1), gradual underflow, infinities, NaN ---------
template <int B> struct M {
  double v; bool lit;      // lit: a zero just made from the int 0, not yet stored anywhere
  M() : v(std::numeric_limits<double>::quiet_NaN()), lit(false) {} M(int i) : v(i), lit(i == 0) {} M(const M &o) : v(o.v), lit(false) {} M &operator=(const M &o) { v = o.v; lit = false; return *this; }
  static M raw(double d) { M m; m.v = d; return m; }
  M operator-() const { return raw(v == 0 ? 0 : -v); }
  static bool ck(const M &a, const M &b) { if (a.lit || b.lit) n_lit++; return true; }
  // the base type needs no arithmetic but the unary minus: whatever else is used is noted as a fault (it compiles, to be seen)
  static M bad(const char *n, double d) { if (bad_op.empty()) bad_op = n; return raw(d); }
  friend M operator+(const M &a, const M &b) { return bad("+", a.v + b.v); } friend M operator-(const M &a, const M &b) { return bad("-", a.v - b.v); } friend M operator*(const M &a, const M &b) { return bad("*", a.v * b.v); } friend M operator/(const M &a, const M &b) { return bad("/", a.v / b.v); }
  M &operator+=(const M &b) { return *this = *this + b; } M &operator-=(const M &b) { return *this = *this - b; } M &operator*=(const M &b) { return *this = *this * b; } M &operator/=(const M &b) { return *this = *this / b; }
  friend M abs(const M &a) { return bad("abs", std::fabs(a.v)); } friend M fabs(const M &a) { return bad("fabs", std::fabs(a.v)); } friend M sqrt(const M &a) { return bad("sqrt", std::sqrt(a.v)); } friend M floor(const M &a) { return bad("floor", std::floor(a.v)); } friend M ceil(const M &a) { return bad("ceil", std::ceil(a.v)); }
  friend bool operator<(const M &a, const M &b) { return ck(a, b) && a.v < b.v; } friend bool operator<=(const M &a, const M &b) { return ck(a, b) && a.v <= b.v; }
  friend bool operator>(const M &a, const M &b) { return ck(a, b) && a.v > b.v; } friend bool operator>=(const M &a, const M &b) { return ck(a, b) && a.v >= b.v; }
  friend bool operator==(const M &a, const M &b) { return ck(a, b) && a.v == b.v; } friend bool operator!=(const M &a, const M &b) { return ck(a, b) && a.v != b.v; }
};
template <int B> struct Grid {
  std::vector<double> v;   // sorted
  Grid() {
    double sub = std::ldexp(1.0, -B - (B - 1)); std::vector<double> p; for (int m = 1; m < 1 << (B - 1); m++) p.push_back(m * sub);
    for (int e = -B; e <= B + 1; e++) for (int m = 1 << (B - 1); m < 1 << B; m++) p.push_back(std::ldexp((double)m, e - (B - 1)));
    v.push_back(-INF); for (size_t i = p.size(); i-- > 0;) v.push_back(-p[i]); v.push_back(0); for (double x : p) v.push_back(x); v.push_back(INF);
  }
  static const Grid &get() { static Grid g; return g; }
  // largest grid value with le(g) (le is true downwards), smallest with ge(g)
  template <class F> double down(F le) const { size_t lo = 0, hi = v.size(); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (le(v[m])) lo = m; else hi = m; } return v[lo]; }
  template <class F> double up(F ge) const { size_t lo = 0, hi = v.size() - 1; while (lo < hi) { size_t m = (lo + hi) / 2; if (ge(v[m])) hi = m; else lo = m + 1; } return v[lo]; }
  double dn(double x) const { return down([=](double g) { return g <= x; }); } double upw(double x) const { return up([=](double g) { return g >= x; }); }
  double max() const { return v[v.size() - 2]; }
};
// a / b for b != 0, both finite, rounded into the grid without computing the quotient
template <int B> double gdiv(double a, double b, bool upw) {
  if (b < 0) { a = -a; b = -b; } const Grid<B> &g = Grid<B>::get();
  return upw ? g.up([=](double k) { return std::isinf(k) ? k > 0 : k * b >= a; }) : g.down([=](double k) { return std::isinf(k) ? k < 0 : k * b <= a; });
}
// rounding policy: computations are only allowed while a protecting object is alive
template <int B> struct RndOps {
  typedef M<B> N; static const Grid<B> &g() { return Grid<B>::get(); } static N r(double x) { return N::raw(x == 0 ? 0 : x); }
  N add_down(const N &a, const N &b) { need("add_down"); double s = a.v + b.v; return r(s != s ? -INF : g().dn(s)); } N add_up(const N &a, const N &b) { need("add_up"); double s = a.v + b.v; return r(s != s ? INF : g().upw(s)); }
  N sub_down(const N &a, const N &b) { need("sub_down"); double s = a.v - b.v; return r(s != s ? -INF : g().dn(s)); } N sub_up(const N &a, const N &b) { need("sub_up"); double s = a.v - b.v; return r(s != s ? INF : g().upw(s)); }
  N mul_down(const N &a, const N &b) { need("mul_down"); double s = a.v * b.v; return r(s != s ? 0 : g().dn(s)); } N mul_up(const N &a, const N &b) { need("mul_up"); double s = a.v * b.v; return r(s != s ? 0 : g().upw(s)); }
  static double dv(double a, double b, bool up) {
    if (b == 0) { n_zerodiv++; return up ? INF : -INF; }
    if (std::isinf(b)) { if (std::isinf(a)) return up ? ((a > 0) == (b > 0) ? INF : 0) : ((a > 0) == (b > 0) ? 0 : -INF); return 0; }
    if (std::isinf(a)) return (a > 0) == (b > 0) ? INF : -INF; return gdiv<B>(a, b, up);
  }
  N div_down(const N &a, const N &b) { need("div_down"); return r(dv(a.v, b.v, false)); } N div_up(const N &a, const N &b) { need("div_up"); return r(dv(a.v, b.v, true)); }
  N sqrt_down(const N &a) { need("sqrt_down"); return r(g().down([&](double k) { return k <= 0 || k * k <= a.v; })); } N sqrt_up(const N &a) { need("sqrt_up"); return r(g().up([&](double k) { return k >= 0 && k * k >= a.v; })); }
  N int_down(const N &a) { need("int_down"); return r(g().dn(std::floor(a.v))); } N int_up(const N &a) { need("int_up"); return r(g().upw(std::ceil(a.v))); }
  N median(const N &a, const N &b) { need("median"); if (a.v == -b.v) return r(0); double m = a.v / 2 + b.v / 2; double l = g().dn(m), u = g().upw(m); if (l == u) return r(l); if (std::isinf(l)) return r(u); if (std::isinf(u)) return r(l); return r(m - l <= u - m ? l : u); }
  // transcendental functions with their documented domains; rounded outward from values good to 1e-13
  static double lo(double f) { return std::isinf(f) ? f : g().dn(f - std::fabs(f) * 1e-13 - 1e-300); } static double hi(double f) { return std::isinf(f) ? f : g().upw(f + std::fabs(f) * 1e-13 + 1e-300); }
#define TF(f, DOM) N f##_down(const N &a) { need(#f "_down"); dom(DOM, #f "_down", a.v); return r(lo(std::f(a.v))); } N f##_up(const N &a) { need(#f "_up"); dom(DOM, #f "_up", a.v); return r(hi(std::f(a.v))); }
  static void dom(bool ok, const char *f, double x) { if (!ok && bad_arg.empty()) bad_arg = std::string(f) + "(" + orc::dec(x) + ")"; }
  TF(exp, true) TF(log, a.v > 0) TF(cos, a.v >= 0 && a.v <= 6.3) TF(tan, std::fabs(a.v) < 1.5707963) TF(asin, std::fabs(a.v) <= 1) TF(acos, std::fabs(a.v) <= 1) TF(atan, true) TF(sinh, true) TF(cosh, true) TF(tanh, true) TF(asinh, true) TF(acosh, a.v >= 1) TF(atanh, std::fabs(a.v) <= 1)
  template <class U> N conv_down(const U &u) { need("conv_down"); return r(g().dn((double)u)); } template <class U> N conv_up(const U &u) { need("conv_up"); return r(g().upw((double)u)); }
};
template <int B> struct RndUnprot : RndOps<B> { typedef RndUnprot unprotected_rounding; };
template <int B> struct Rnd : RndOps<B> { Rnd() { depth++; } ~Rnd() { depth--; } Rnd(const Rnd &) = delete; typedef RndUnprot<B> unprotected_rounding; };
struct empty_error {};
template <class N, bool THROW, bool NANEMPTY> struct Chk {
  static N pos_inf() { return N::raw(INF); } static N neg_inf() { return N::raw(-INF); } static N nan() { return N::raw(NAN); }
  static bool is_nan(const N &x) { return x.v != x.v; }
  static N empty_lower() { if (THROW) throw empty_error(); return NANEMPTY ? nan() : N(2); } static N empty_upper() { if (THROW) throw empty_error(); return NANEMPTY ? nan() : N(-1); }
  static bool is_empty(const N &l, const N &u) { return THROW ? false : !(l <= u); }
};
namespace boost { namespace numeric { namespace interval_lib { namespace user {
#define SPEC(B) template <> inline bool is_zero(M<B> const &x) { n_sign++; return x.v == 0; } template <> inline bool is_neg(M<B> const &x) { n_sign++; return x.v < 0; } template <> inline bool is_pos(M<B> const &x) { n_sign++; return x.v > 0; }
SPEC(2) SPEC(3) SPEC(5)
}}}}

// --- exact numbers: rationals and the two infinities --------------------------------------------------------------------
struct Q {
  int inf = 0; bool nan = false; mpq_class v;
  Q() : nan(true) {} Q(int i) : v(i) {} Q(const mpq_class &x) : v(x) {} static Q infv(int s) { Q q(0); q.inf = s; return q; } static Q NaN() { Q q; q.nan = true; return q; }
  int sg() const { return inf ? inf : sgn(v); }
  int cmp(const Q &o) const { if (inf || o.inf) return inf < o.inf ? -1 : inf > o.inf; return ::cmp(v, o.v); }
#define RL(op) friend bool operator op(const Q &a, const Q &b) { return !a.nan && !b.nan && a.cmp(b) op 0; }
  RL(<) RL(<=) RL(>) RL(>=) RL(==)
  friend bool operator!=(const Q &a, const Q &b) { return !(a == b); }
  Q operator-() const { Q r = *this; r.inf = -inf; r.v = -v; return r; }
  friend Q operator+(const Q &a, const Q &b) { if (a.nan || b.nan) return NaN(); if (a.inf && b.inf) return a.inf == b.inf ? a : NaN(); if (a.inf) return a; if (b.inf) return b; return Q(mpq_class(a.v + b.v)); }
  friend Q operator-(const Q &a, const Q &b) { return a + (-b); }
  friend Q operator*(const Q &a, const Q &b) { if (a.nan || b.nan) return NaN(); if (a.inf || b.inf) { int s = a.sg() * b.sg(); return s ? infv(s) : NaN(); } return Q(mpq_class(a.v * b.v)); }
  friend Q operator/(const Q &a, const Q &b) { if (a.nan || b.nan) return NaN(); if (b.inf) return a.inf ? NaN() : Q(0); if (b.sg() == 0) { n_zerodiv++; return NaN(); } if (a.inf) return infv(a.inf * b.sg()); return Q(mpq_class(a.v / b.v)); }
  std::string s() const { return nan ? "nan" : inf ? inf > 0 ? "inf" : "-inf" : v.get_str(); }
};
static Q floor(const Q &a) { if (a.inf || a.nan) return a; mpz_class z; mpz_fdiv_q(z.get_mpz_t(), a.v.get_num_mpz_t(), a.v.get_den_mpz_t()); return Q(mpq_class(z)); }
static Q ceil(const Q &a) { return -floor(-a); }
static Q sqrt(const Q &a) { if (a.inf || a.nan) return a; mpz_class n = ::sqrt(a.v.get_num()), d = ::sqrt(a.v.get_den()); if (n * n == a.v.get_num() && d * d == a.v.get_den()) return Q(mpq_class(n, d)); return Q::NaN(); }
template <bool THROW> struct ChkQ {
  static Q pos_inf() { return Q::infv(1); } static Q neg_inf() { return Q::infv(-1); } static Q nan() { return Q::NaN(); } static bool is_nan(const Q &x) { return x.nan; }
  static Q empty_lower() { if (THROW) throw empty_error(); return Q(1); } static Q empty_upper() { if (THROW) throw empty_error(); return Q(0); } static bool is_empty(const Q &l, const Q &u) { return !(l <= u); }
};

// --- reference ------------------------------------------------------------------------------------------------------------
// A: V, finite arithmetic rounded in a direction, infinities
template <int B> struct AG { typedef double V; typedef M<B> N; static V val(const N &n) { return n.v; } static N num(V v) { return N::raw(v); } static bool inf(V v) { return std::isinf(v); } static int sg(V v) { return v > 0 ? 1 : v < 0 ? -1 : 0; } static V infv(int s) { return s > 0 ? INF : -INF; }
  static V rd(double x, bool up) { return up ? Grid<B>::get().upw(x) : Grid<B>::get().dn(x); }
  static V add(V a, V b, bool up) { return rd(a + b, up); } static V mul(V a, V b, bool up) { return rd(a * b, up); } static V div(V a, V b, bool up) { return gdiv<B>(a, b, up); }
  static V neg(V a) { return a == 0 ? 0 : -a; } static std::string s(V v) { return orc::dec(v); } enum { exact = 0 };
  static V med(V a, V b) { return RndMed(a, b); } static V RndMed(V a, V b) { depth++; V r = RndOps<B>().median(N::raw(a), N::raw(b)).v; depth--; return r; }
  static V sqrt(V a, bool up) { depth++; RndOps<B> o; V r = up ? o.sqrt_up(N::raw(a)).v : o.sqrt_down(N::raw(a)).v; depth--; return r; }
  static Q q(V v) { return std::isinf(v) ? Q::infv(v > 0 ? 1 : -1) : Q(mpq_class(v)); } };
struct AQ { typedef Q V; typedef Q N; static V val(const N &n) { return n; } static N num(const V &v) { return v; } static bool inf(const V &v) { return v.inf; } static int sg(const V &v) { return v.sg(); } static V infv(int s) { return Q::infv(s); }
  static V add(const V &a, const V &b, bool) { return a + b; } static V mul(const V &a, const V &b, bool) { return Q(mpq_class(a.v * b.v)); } static V div(const V &a, const V &b, bool) { return Q(mpq_class(a.v / b.v)); } static V neg(const V &a) { return -a; } static std::string s(const V &v) { return v.s(); } enum { exact = 1 };
  static V med(const V &a, const V &b) { return (a + b) / Q(2); } static V sqrt(const V &a, bool) { return ::sqrt(a); } static Q q(const V &v) { return v; } };
template <class A> struct Ref {
  typedef typename A::V V; struct I { V l, u; bool e; I() : l(0), u(0), e(true) {} I(V a, V b) : l(a), u(b), e(false) {} bool operator==(const I &o) const { return e ? o.e : !o.e && l == o.l && u == o.u; } std::string s() const { return e ? "empty" : "[" + A::s(l) + "," + A::s(u) + "]"; } };
  static V mn(const V &a, const V &b) { return b < a ? b : a; } static V mx(const V &a, const V &b) { return a < b ? b : a; }
  static V addx(const V &a, const V &b, bool up) { if (A::inf(a)) return a; if (A::inf(b)) return b; return A::add(a, b, up); }
  static V mulx(const V &a, const V &b, bool up) { int s = A::sg(a) * A::sg(b); if (s == 0) return V(0); if (A::inf(a) || A::inf(b)) return A::infv(s); return A::mul(a, b, up); }
  static I neg(const I &x) { return x.e ? x : I(A::neg(x.u), A::neg(x.l)); }
  static I add(const I &x, const I &y) { return x.e || y.e ? I() : I(addx(x.l, y.l, false), addx(x.u, y.u, true)); }
  static I sub(const I &x, const I &y) { return add(x, neg(y)); }
  static I mul(const I &x, const I &y) { if (x.e || y.e) return I(); auto c = [&](bool up, auto f) { return f(f(mulx(x.l, y.l, up), mulx(x.l, y.u, up)), f(mulx(x.u, y.l, up), mulx(x.u, y.u, up))); }; return I(c(false, mn), c(true, mx)); }
  static V quot(const V &a, const V &b, bool up) { if (A::sg(a) == 0) return V(0); if (A::sg(b) == 0) return A::infv(A::sg(a)); if (A::inf(b)) return V(0); return A::div(a, b, up); }
  static I divpos(const I &x, const I &y) { V l = A::inf(x.l) ? x.l : quot(x.l, A::sg(x.l) >= 0 ? y.u : y.l, false), u = A::inf(x.u) ? x.u : quot(x.u, A::sg(x.u) <= 0 ? y.u : y.l, true); return I(l, u); }
  static void div2(const I &x, const I &y, I &n, I &p) { n = p = I(); if (x.e || y.e) return; if (A::sg(y.u) > 0) p = divpos(x, I(mx(y.l, V(0)), y.u)); if (A::sg(y.l) < 0) n = divpos(neg(x), I(mx(A::neg(y.u), V(0)), A::neg(y.l))); }
  static I hull(const I &x, const I &y) { if (x.e) return y; if (y.e) return x; return I(mn(x.l, y.l), mx(x.u, y.u)); }
  static I inter(const I &x, const I &y) { if (x.e || y.e) return I(); V l = mx(x.l, y.l), u = mn(x.u, y.u); return l <= u ? I(l, u) : I(); }
  static I div(const I &x, const I &y) { I n, p; div2(x, y, n, p); return hull(n, p); }
  static I abs(const I &x) { if (x.e) return x; V a = mx(x.l, A::neg(x.l)), b = mx(x.u, A::neg(x.u)); return I(A::sg(x.l) <= 0 && A::sg(x.u) >= 0 ? V(0) : mn(a, b), mx(a, b)); }
  static I square(const I &x) { if (x.e) return x; I a = abs(x); return I(mulx(a.l, a.l, false), mulx(a.u, a.u, true)); }
  static I sqrt(const I &x) { if (x.e || A::sg(x.u) < 0) return I(); return I(A::sg(x.l) <= 0 ? V(0) : A::sqrt(x.l, false), A::sqrt(x.u, true)); }
  static I min(const I &x, const I &y) { return x.e || y.e ? I() : I(mn(x.l, y.l), mn(x.u, y.u)); } static I max(const I &x, const I &y) { return x.e || y.e ? I() : I(mx(x.l, y.l), mx(x.u, y.u)); }
};
// exact power image
typedef Ref<AQ> RQ;
static Q qpow(const Q &x, int k) { Q r(1); for (int i = 0; i < k; i++) r = RQ::mulx(r, x, false); return r; }
static RQ::I rpow(const RQ::I &x, int k) {
  if (x.e) return x; if (k < 0) return RQ::div(RQ::I(Q(1), Q(1)), rpow(x, -k)); if (k == 0) return RQ::I(Q(1), Q(1));
  Q a = qpow(x.l, k), b = qpow(x.u, k); if (k & 1) return RQ::I(a, b); if (x.l.sg() <= 0 && x.u.sg() >= 0) return RQ::I(Q(0), RQ::mx(a, b)); return RQ::I(RQ::mn(a, b), RQ::mx(a, b));
}

// --- the check --------------------------------------------------------------------------------------------------------------
template <class A, class I, bool THROW> struct T_ {
  typedef typename A::N N; typedef typename A::V V; typedef Ref<A> R; typedef typename R::I RI;
  pbt::Ctx &c; std::string tn; RI x, y; V t; long count = 0; int lits = 0;
  T_(pbt::Ctx &c_, const char *n) : c(c_), tn(n) {}
  static I mk(const RI &v) { return v.e ? I::empty() : I(A::num(v.l), A::num(v.u)); }
  std::string args() const { return " x=" + x.s() + " y=" + y.s() + " t=" + A::s(t); }
  struct G { RI v; bool threw = false; std::string s() const { return threw ? "the empty-interval error" : v.s(); } };
  template <class F> G run(F f) { G g; Around ar; try { I r = f(); lits = n_lit; if (!bn::empty(r)) g.v = RI(A::val(r.lower()), A::val(r.upper())); } catch (empty_error &) { lits = n_lit; g.threw = true; } return g; }
  void proto_ok(const std::string &op) {
    count++;
    if (hook_state) { const char *p = hook_state(); PBT_CHECK(c, !p, tn + "|rounding state|" + op, op + args() + ": " + p); }
    PBT_CHECK(c, n_unprot == 0, tn + "|protocol|" + op, op + args() + ": rounding function " + proto + " was used while no protecting rounding object was alive");
    PBT_CHECK(c, depth == 0, tn + "|guards|" + op, op + args() + ": " + std::to_string(depth) + " protecting rounding objects still alive after the call");
    PBT_CHECK(c, bad_arg.empty(), tn + "|domain|" + op, op + args() + ": the policy's " + bad_arg + " was called outside its domain");
    PBT_CHECK(c, bad_op.empty(), tn + "|base arithmetic|" + op, op + args() + ": computed with the base type's " + bad_op + " instead of the rounding policy");
    PBT_CHECK(c, n_zerodiv == 0, tn + "|division by zero|" + op, op + args() + ": the policy was asked to divide by zero");
    PBT_CHECK(c, lits == 0, tn + "|sign test|" + op, op + args() + ": compared with a literal zero instead of using the type's sign tests");
  }
  template <class F> void same(const std::string &op, const RI &want, F f) {
    reset(); G g = run(f); proto_ok(op);
    bool ok = THROW && want.e ? g.threw : !g.threw && g.v == want;
    PBT_CHECK(c, ok, tn + "|" + op, op + args() + " = " + g.s() + ", the set image is " + want.s());
  }
  template <class F> void holds(const std::string &op, const RQ::I &want, F f) {   // encloses
    reset(); G g = run(f); proto_ok(op);
    bool ok = want.e ? THROW ? g.threw : g.v.e && !g.threw : !g.threw && !g.v.e && A::q(g.v.l) <= want.l && want.u <= A::q(g.v.u);
    PBT_CHECK(c, ok, tn + "|" + op, op + args() + " = " + g.s() + ", exact image " + want.s());
  }
  template <class F, class W> void value(const std::string &op, const W &want, F f) {
    reset(); bool threw = false; W got{}; { Around ar; try { got = f(); } catch (empty_error &) { threw = true; } lits = n_lit; }
    proto_ok(op); PBT_CHECK(c, !threw && got == want, tn + "|" + op, op + args() + (threw ? " threw" : " is wrong"));
  }
  static RQ::I q(const RI &v) { return v.e ? RQ::I() : RQ::I(A::q(v.l), A::q(v.u)); }
  static bool nochk(const RI &v) { return v.e; }
  void all(int part) {
    if (THROW && (x.e || y.e)) return;
    I X = mk(x), Y = mk(y); N n = A::num(t); RI p(t, t); const bool zt = A::sg(t) == 0;
    if (part & 1) {
      same("+", R::add(x, y), [&] { return X + Y; }); same("-", R::sub(x, y), [&] { return X - Y; }); same("*", R::mul(x, y), [&] { return X * Y; }); same("/", R::div(x, y), [&] { return X / Y; });
      same("+=", R::add(x, y), [&] { I z(X); z += Y; return z; }); same("-=", R::sub(x, y), [&] { I z(X); z -= Y; return z; }); same("*=", R::mul(x, y), [&] { I z(X); z *= Y; return z; }); same("/=", R::div(x, y), [&] { I z(X); z /= Y; return z; });
      RI a, b; R::div2(x, y, a, b); bool two = !x.e && !y.e && !a.e && !b.e && !(A::sg(x.l) <= 0 && A::sg(x.u) >= 0); if (two && A::sg(x.u) < 0) std::swap(a, b);   // first piece: the negative quotients
      if (!x.e && !y.e) {
        bool fl = !two; same("division_part1", two ? a : R::hull(a, b), [&] { return il::division_part1(X, Y, fl); });
        if (THROW && !two && R::hull(a, b).e) ; else PBT_CHECK(c, fl == two, tn + "|division flag", "division_part1" + args() + " flag " + std::to_string(fl));
        if (two) same("division_part2", b, [&] { return il::division_part2(X, Y, fl); }); else same("division_part2", RI(), [&] { return il::division_part2(X, Y, false); });
      }
      same("min", R::min(x, y), [&] { return min(X, Y); }); same("max", R::max(x, y), [&] { return max(X, Y); });
      same("intersect", R::inter(x, y), [&] { return intersect(X, Y); }); same("hull", R::hull(x, y), [&] { return hull(X, Y); });
      value("subset", x.e || (!y.e && y.l <= x.l && x.u <= y.u), [&] { return subset(X, Y); }); value("proper_subset", (x.e || (!y.e && y.l <= x.l && x.u <= y.u)) && !(x == y), [&] { return proper_subset(X, Y); });
      value("overlap", !R::inter(x, y).e, [&] { return overlap(X, Y); }); value("equal", x == y, [&] { return equal(X, Y); });
      reset(); { Around ar;
      fam::all(X, Y, n, x.e, x.l, x.u, y.e, y.l, y.u, t, [&](const std::string &name, int want, int got) { count++;
        PBT_CHECK(c, want == got, tn + "|" + name, name + args() + " gives " + fam::ansn[got] + ", expected " + fam::ansn[want]); });
      lits = n_lit; } proto_ok("comparisons");
    }
    if (part & 2) {
      same("unary -", R::neg(x), [&] { return -X; }); same("abs", R::abs(x), [&] { return abs(X); }); same("square", R::square(x), [&] { return square(X); });
      same("multiplicative_inverse", R::div(RI(V(1), V(1)), x), [&] { return il::multiplicative_inverse(X); });
      RI rs = R::sqrt(x); bool sqok = true; if constexpr (A::exact) sqok = rs.e || (!rs.l.nan && !rs.u.nan); if (sqok) same("sqrt", rs, [&] { return sqrt(X); });
      value("zero_in", !x.e && A::sg(x.l) <= 0 && A::sg(x.u) >= 0, [&] { return zero_in(X); }); value("singleton", !x.e && x.l == x.u, [&] { return singleton(X); });
      if (!x.e) { value("width", R::addx(x.u, A::neg(x.l), true), [&] { return A::val(width(X)); }); value("norm", R::abs(x).u, [&] { return A::val(norm(X)); });
        bool bounded = !A::inf(x.l) && !A::inf(x.u);
        if (bounded) { V m = A::med(x.l, x.u); value("median", m, [&] { return A::val(median(X)); }); same("bisect first", RI(x.l, m), [&] { return bisect(X).first; }); same("bisect second", RI(m, x.u), [&] { return bisect(X).second; }); } }
      same("copy", x, [&] { I z(X); return z; }); same("whole", RI(A::infv(-1), A::infv(1)), [&] { return I::whole(); }); same("empty", RI(), [&] { return I::empty(); }); same("default", RI(V(0), V(0)), [&] { return I(); });
      same("int", RI(V(-1), V(2)), [&] { return I(-1, 2); }); same("from int", RI(V(2), V(2)), [&] { return I(2); });
      for (int k = -3; k <= 4; k++) {
        std::string pn = "pow " + std::to_string(k); bool z = !x.e && A::sg(x.l) == 0 && A::sg(x.u) == 0; RQ::I w = k == 0 && z ? RQ::I() : rpow(q(x), k);
        if constexpr (A::exact) same(pn, w.e ? RI() : RI(w.l, w.u), [&] { return pow(X, k); }); else holds(pn, w, [&] { return pow(X, k); });
      }
    }
    if ((part & 4) && !A::inf(t)) {
      same("x + t", R::add(x, p), [&] { return X + n; }); same("t + x", R::add(x, p), [&] { return n + X; }); same("x - t", R::sub(x, p), [&] { return X - n; }); same("t - x", R::sub(p, x), [&] { return n - X; });
      same("x * t", R::mul(x, p), [&] { return X * n; }); same("t * x", R::mul(p, x), [&] { return n * X; }); same("x / t", R::div(x, p), [&] { return X / n; }); same("t / x", R::div(p, x), [&] { return n / X; });
      same("x += t", R::add(x, p), [&] { I z(X); z += n; return z; }); same("x -= t", R::sub(x, p), [&] { I z(X); z -= n; return z; }); same("x *= t", R::mul(x, p), [&] { I z(X); z *= n; return z; }); same("x /= t", R::div(x, p), [&] { I z(X); z /= n; return z; });
      same("min t", R::min(x, p), [&] { return min(X, n); }); same("t max", R::max(x, p), [&] { return max(n, X); }); same("t min", R::min(x, p), [&] { return min(n, X); }); same("max t", R::max(x, p), [&] { return max(X, n); });
      same("hull t", R::hull(x, p), [&] { return hull(X, n); }); same("t hull", R::hull(x, p), [&] { return hull(n, X); }); if (!x.e) same("hull of numbers", R::hull(RI(x.l, x.l), p), [&] { return I::hull(A::num(x.l), n); });
      value("in", !x.e && x.l <= t && t <= x.u, [&] { return in(n, X); });
      if (A::sg(t) >= 0) same("widen", x.e ? x : RI(R::addx(x.l, A::neg(t), false), R::addx(x.u, t, true)), [&] { return widen(X, n); });
      same("assign t", p, [&] { I z(X); z = n; return z; }); if (!x.e && !y.e) same("assign pair", x.l <= y.u ? RI(x.l, y.u) : RI(), [&] { I z(X); z.assign(A::num(x.l), A::num(y.u)); return z; });
      if (!x.e && !y.e) same("pair", x.l <= y.u ? RI(x.l, y.u) : RI(), [&] { return I(A::num(x.l), A::num(y.u)); });
    }
    if ((part & 8) && !A::exact && !x.e)
      for (int k = 1; k <= 3; k++) {   // the lower bound's power does not exceed the argument's lower bound, and so on
        if constexpr (!A::exact) {
          std::string on = "nth_root " + std::to_string(k); reset(); G g = run([&] { return nth_root(X, k); }); proto_ok(on);
          if (A::sg(x.u) < 0 && !(k & 1)) { PBT_CHECK(c, THROW ? g.threw : g.v.e, tn + "|" + on, on + args() + " = " + g.s() + ", expected empty"); continue; }
          RQ::I a = q(x); if (!(k & 1) && a.l.sg() < 0) a.l = Q(0);
          bool ok = !g.threw && !g.v.e && qpow(A::q(g.v.l), k) <= a.l && a.u <= qpow(A::q(g.v.u), k) && ((k & 1) || A::sg(g.v.l) >= 0 || true);
          if (ok && !(k & 1)) ok = A::sg(g.v.l) < 0 ? true : qpow(A::q(g.v.l), k) <= a.l; if (!(k & 1) && !g.v.e && A::sg(g.v.u) < 0) ok = false;
          PBT_CHECK(c, ok, tn + "|" + on, on + args() + " = " + g.s() + " does not enclose the roots");
        }
      }
    if constexpr (!A::exact) if ((part & 16) && !(THROW && x.e)) {
      // f(point) for points of x in the domain [a,b]; pole ends of the domain are left out
#define TR(f, a, b) tr(#f, [&] { return f(X); }, [](double z) { return std::f(z); }, a, b)
      auto tr = [&](const std::string &on, auto lib, auto f, double a, double b) {
        reset(); G g = run(lib); proto_ok(on); std::vector<double> pts; bool touch = false;
        if (!x.e) { double l = std::max(x.l, a), u = std::min(x.u, b); if (l <= u) touch = true;
          double L = std::max(l, -30.0), U = std::min(u, 30.0); if (L <= U) { for (int i = 0; i <= 24; i++) pts.push_back(L + (U - L) * i / 24); for (int k = -18; k <= 18; k++) { double z = k * M_PI / 2; if (L <= z && z <= U) pts.push_back(z); } }
          if (l <= u) { if (!std::isinf(l)) pts.push_back(l); if (!std::isinf(u)) pts.push_back(u); } }
        if (!touch) { PBT_CHECK(c, THROW ? g.threw : g.v.e && !g.threw, tn + "|" + on, on + args() + " = " + g.s() + ", the argument has no point of the domain"); return; }
        bool open_ok = false; for (double z : pts) { double w = f(z); if (w != w || std::isinf(w)) continue; open_ok = true; double tol = 1e-10 * (1 + std::fabs(w)); if (on == "tan" && std::fabs(w) > 1e6) continue; if (on == "sin" || on == "cos" || on == "tan") tol *= 1 + std::fabs(z);
          PBT_CHECK(c, !g.threw && !g.v.e && g.v.l <= w + tol && w - tol <= g.v.u, tn + "|" + on, on + args() + " = " + g.s() + " does not contain " + on + "(" + orc::dec(z) + ") = " + orc::dec(w)); }
        if (open_ok) PBT_CHECK(c, !g.threw && !g.v.e && g.v.l <= g.v.u, tn + "|" + on, on + args() + " = " + g.s());
      };
      TR(exp, -INF, INF); TR(log, 1e-300, INF); TR(sin, -INF, INF); TR(cos, -INF, INF); TR(tan, -INF, INF); TR(asin, -1, 1); TR(acos, -1, 1); TR(atan, -INF, INF); TR(sinh, -INF, INF); TR(cosh, -INF, INF); TR(tanh, -INF, INF); TR(asinh, -INF, INF); TR(acosh, 1, INF); TR(atanh, -1, 1);
#undef TR
      auto enc = [&](const char *n, auto f, double p) { reset(); G g = run(f); proto_ok(n); PBT_CHECK(c, !g.threw && !g.v.e && g.v.l <= p && p <= g.v.u, tn + "|" + n, std::string(n) + " = " + g.s()); };
      enc("pi", [] { return il::pi<I>(); }, M_PI); enc("pi_half", [] { return il::pi_half<I>(); }, M_PI / 2); enc("pi_twice", [] { return il::pi_twice<I>(); }, 2 * M_PI);
    }
    if constexpr (A::exact) if ((part & 4) && !x.e && !y.e && !x.l.inf && !x.u.inf && !y.u.inf && y.l.sg() > 0) {
      auto ref = [&](const RI &a, const RI &b) { Q yb = a.l.sg() < 0 ? b.l : b.u; Q m = floor(a.l / yb); return R::sub(a, R::mul(RI(m, m), b)); };
      same("fmod", ref(x, y), [&] { return fmod(X, Y); }); Q d = y.l; same("fmod x d", ref(x, RI(d, d)), [&] { return fmod(X, d); }); same("fmod t y", ref(p, y), [&] { return fmod(n, Y); });
      RI z = ref(x, y); PBT_CHECK(c, z.l.sg() >= 0 && z.l < y.u, "reference fmod", "reference");
    }
  }
};
// i-th interval of the grid
template <int B> typename Ref<AG<B>>::I nth(int i) { const auto &v = Grid<B>::get().v; int n = (int)v.size(); for (int a = 0; a < n; a++) { int k = n - a; if (i < k) { double l = v[a], u = v[a + i]; if ((l == u && std::isinf(l))) return typename Ref<AG<B>>::I(); return typename Ref<AG<B>>::I(l, u); } i -= k; } return typename Ref<AG<B>>::I(); }
