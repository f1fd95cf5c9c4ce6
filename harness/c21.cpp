// C21: inclusion survives arbitrary programs of interval operations.
#include "common.hpp"
enum { NR = 4 };
enum Ops { ADD, SUB, MUL, DIV, ADDN, SUBN, MULN, DIVN, NADD, NSUB, NMUL, NDIV, CADD, CSUB, CMUL, CDIV, CADDN, CSUBN, CMULN, CDIVN, NEG, SQUARE, ABS, SQRT, POW, MIN, MAX, MINN, MAXN, HULL, HULLN, INTER, INV, WIDEN, MONO_END,
  ROOT = MONO_END, PARTS, BISECT, VIA_F, VIA_D, VIA_L, COPY, NOPS };
static const char *on[] = {"x+y", "x-y", "x*y", "x/y", "x+t", "x-t", "x*t", "x/t", "t+x", "t-x", "t*x", "t/x", "x+=y", "x-=y", "x*=y", "x/=y", "x+=t", "x-=t", "x*=t", "x/=t", "-x", "square", "abs", "sqrt", "pow", "min", "max", "min(x,t)", "max(x,t)", "hull", "hull(x,t)", "intersect with a containing set", "inverse", "widen", "nth_root", "two-part division", "bisect", "via interval<float>", "via interval<double>", "via interval<long double>", "copy"};
struct Ins { int op, i, j, k, e; T t, t2; };
struct Z { mpq_class v; };
static size_t bits(const mpq_class &q) { return mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2); }
static bool zero(const mpq_class &q) { return sgn(q) == 0; }
// a rational with a short representation close to v (towards zero), clamped into [l,u]
static mpq_class shorten(const mpq_class &v, T l, T u) {
  orc::wide(); orc::Num m(160); mpfr_set_q(m.v, v.get_mpq_t(), MPFR_RNDZ); mpq_class r; 
  if (mpfr_zero_p(m.v)) r = 0; else { mpz_class z; mpfr_exp_t e = mpfr_get_z_2exp(z.get_mpz_t(), m.v); r = z; if (e >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e); else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -e); }
  if (!std::isinf(l) && r < orc::q(l)) r = orc::q(l);
  if (!std::isinf(u) && r > orc::q(u)) r = orc::q(u);
  return r;
}
static mpq_class powq(const mpq_class &v, int e) { mpq_class r; mpz_pow_ui(r.get_num_mpz_t(), v.get_num_mpz_t(), e < 0 ? -e : e); mpz_pow_ui(r.get_den_mpz_t(), v.get_den_mpz_t(), e < 0 ? -e : e); if (e < 0) { mpq_class o = 1; r = o / r; } return r; }
static mpq_class inv(const mpq_class &v) { return mpq_class(1) / v; }

template <class I> I apply(const Ins &q, I *r, const I &ext) {
  const I &x = r[q.i], &y = r[q.j]; const T t = q.t; I d = x;
  switch (q.op) {
    case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; case DIV: return x / y; case ADDN: return x + t; case SUBN: return x - t; case MULN: return x * t; case DIVN: return x / t; case NADD: return t + x; case NSUB: return t - x; case NMUL: return t * x; case NDIV: return t / x;
    case CADD: if (q.i == q.j) d += d; else d += y; return d; case CSUB: if (q.i == q.j) d -= d; else d -= y; return d; case CMUL: if (q.i == q.j) d *= d; else d *= y; return d; case CDIV: if (q.i == q.j) d /= d; else d /= y; return d;
    case CADDN: d += t; return d; case CSUBN: d -= t; return d; case CMULN: d *= t; return d; case CDIVN: d /= t; return d;
    case NEG: return -x; case SQUARE: return bn::square(x); case ABS: return bn::abs(x); case SQRT: return bn::sqrt(x); case POW: return bn::pow(x, q.e); case MIN: return (bn::min)(x, y); case MAX: return (bn::max)(x, y); case MINN: return (bn::min)(x, t); case MAXN: return (bn::max)(t, x);
    case HULL: return bn::hull(x, y); case HULLN: return q.e & 1 ? bn::hull(x, t) : bn::hull(t, x); case INTER: return bn::intersect(x, ext); case INV: return il::multiplicative_inverse(x); case WIDEN: return bn::widen(x, t); case ROOT: return bn::nth_root(x, q.e);
    case VIA_F: { bn::interval<float> f(x); return I(f); } case VIA_D: { bn::interval<double> f(x); return I(f); } case VIA_L: { bn::interval<long double> f(x); return I(f); }
    case COPY: { I z; z = x; return z; }
    default: return x;
  }
}
static std::string show(const Ins &q) { char b[300]; snprintf(b, 300, "r%d = %s with x=r%d y=r%d t=%s k=%d", q.k, on[q.op], q.i, q.j, str(q.t).c_str(), q.e); return b; }
static bool gen_exact = true;
static Ins gen(pbt::Src &s, Gen<T> &g, bool mono) {
  Ins q; q.op = s.chance(1, 3) ? (int)s.below(DIVN + 1) : (int)s.below(mono ? (int)MONO_END : (int)NOPS);
  if (q.op == ROOT && sizeof(T) > 8 && !s.chance(1, 50)) q.op = SQRT;
  q.i = (int)s.below(NR); q.j = (int)s.below(NR); q.k = (int)s.below(NR); q.e = q.op == ROOT ? s.range(1, 6) : s.range(-5, 9);
  q.t = s.chance(1, 2) ? T(s.range(-5, 5)) : g.finite(); if (s.chance(1, 3)) q.t = std::ldexp(g.mantissa(), s.range(-4, 4)); q.t2 = std::fabs(g.finite()); if (q.op == WIDEN) q.t = std::fabs(q.t); return q;
}
// shadow of the instruction: false when the real program is undefined there (the instruction is skipped)
static bool shadow(const Ins &q, const mpq_class *v, mpq_class &out, bool &alg) {
  const mpq_class &x = v[q.i], &y = v[q.j]; mpq_class t = orc::q(q.t); alg = false;
  switch (q.op) {
    case ADD: case CADD: out = x + y; return true; case SUB: case CSUB: out = x - y; return true; case MUL: case CMUL: out = x * y; return true; case DIV: case CDIV: if (zero(y)) return false; out = x / y; return true;
    case ADDN: case CADDN: case NADD: out = x + t; return true; case SUBN: case CSUBN: out = x - t; return true; case NSUB: out = t - x; return true; case MULN: case CMULN: case NMUL: out = x * t; return true;
    case DIVN: case CDIVN: if (zero(t)) return false; out = x / t; return true; case NDIV: if (zero(x)) return false; out = t / x; return true;
    case NEG: out = -x; return true; case SQUARE: out = x * x; return true; case ABS: out = abs(x); return true; case SQRT: if (sgn(x) < 0) return false; alg = true; out = x; return true;
    case POW: if (q.e < 0 && zero(x)) return false; if (q.e == 0 && zero(x)) return false; if (bits(x) * (size_t)std::abs(q.e) > 200000) return false; out = powq(x, q.e); return true;
    case MIN: out = x < y ? x : y; return true; case MAX: out = x > y ? x : y; return true; case MINN: out = x < t ? x : t; return true; case MAXN: out = x > t ? x : t; return true;
    case HULL: out = (q.e & 1) ? x : y; return true; case HULLN: out = (q.e & 2) ? x : t; return true; case INV: if (zero(x)) return false; out = inv(x); return true;
    case ROOT: if (!(q.e & 1) && sgn(x) < 0) return false; alg = true; out = x; return true;
    case PARTS: if (zero(y)) return false; out = x / y; return true;
    default: out = x; return true; // copies, conversions, widen, intersect, bisect
  }
}
template <class I> void program(pbt::Src &s, pbt::Ctx &c, bool ambient) {
  Gen<T> g(s, c); I r[NR]; mpq_class v[NR]; std::string pn = pname<I>();
  int m = ambient ? (int)s.below(4) : -1;
  NOTE(c, "program (" + pn + ")" + (m >= 0 ? std::string(" ambient ") + moden[m] : " under a guard"));
  for (int i = 0; i < NR; i++) { Iv<T> x; if (s.chance(1, 2)) { T a = std::ldexp(g.mantissa(), s.range(-3, 3)) * (s.coin() ? 1 : -1), w = std::ldexp(g.mantissa(), s.range(-12, 4)); x = s.chance(1, 3) ? Iv<T>(a, a) : Iv<T>(a, a + w); } else x = g.interval(); r[i] = I(x.l, x.u); v[i] = g.point(x); g.hash(x); c.h(std::hash<std::string>()(v[i].get_str(16).substr(0, 40))); NOTE(c, "r" + std::to_string(i) + "=" + str(x) + " point " + (bits(v[i]) < 200 ? v[i].get_str() : "(long)")); }
  if (m >= 0) fesetround(MODES[m]); Fp f0 = Fp::now();
  int n = 2 + (int)s.below(24), done = 0; bool wide_ = false;
  auto contains = [&](const I &x, const mpq_class &q) { return orc::q_in<T>(q, x.lower(), x.upper()); };
  for (int st = 0; st < n; st++) {
    Ins q = gen(s, g, false); mpq_class w; bool alg;
    if (q.op == BISECT && (std::isinf(r[q.i].lower()) || std::isinf(r[q.i].upper()))) q.op = ABS;
    { orc::NearestScope ns; if (!shadow(q, v, w, alg)) { c.label("skipped: undefined"); continue; } }
    NOTE(c, show(q)); c.label(std::string("op:") + on[q.op]); c.h(q.op * 64 + q.i * 16 + q.j * 4 + q.k + 4096 * (q.e & 255)); g.hash(q.t);
    std::string key = std::string("program|") + on[q.op];
    I ext; T lo, hi; { orc::NearestScope ns; lo = orc::from_q<T>(v[q.i], orc::DN); hi = orc::from_q<T>(v[q.i], orc::UP); if (q.e & 1) lo = s.coin() ? -orc::inf<T>() : lo - q.t2; if (q.e & 2) hi = s.coin() ? orc::inf<T>() : hi + q.t2; if (lo == orc::inf<T>()) lo = std::numeric_limits<T>::max(); if (hi == -orc::inf<T>()) hi = -std::numeric_limits<T>::max(); }
    Iv<T> xb(r[q.i].lower(), r[q.i].upper()), yb(r[q.j].lower(), r[q.j].upper());
    I z; bool threw = false; std::string ex;
    try {
      if (q.op == PARTS) { bool b; I p1 = il::division_part1(r[q.i], r[q.j], b); z = p1; if (b) { I p2 = il::division_part2(r[q.i], r[q.j], b); orc::NearestScope ns; if (!contains(p1, w)) z = p2; } }
      else if (q.op == BISECT) { auto h = bn::bisect(r[q.i]); z = h.first; orc::NearestScope ns; if (!contains(z, w)) z = h.second; }
      else { if (q.op == INTER) ext = I(lo, hi); z = apply<I>(q, r, ext); }
    } catch (std::exception &e) { threw = true; ex = e.what(); }
    Fp f1 = Fp::now(); fesetround(FE_TONEAREST);
    if (threw) c.fail(key + "|threw", show(q) + ": threw '" + ex + "' although the exact value exists; x=" + str(xb) + " y=" + str(yb));
    PBT_CHECK(c, f0 == f1, key + "|state", show(q) + " left the rounding state " + f1.s() + ", before " + f0.s());
    std::string got = orc::str2(z.lower(), z.upper());
    PBT_CHECK(c, z.lower() <= z.upper(), key + "|malformed", show(q) + " gives the malformed " + got + " from x=" + str(xb) + " y=" + str(yb));
    if (alg) { // check through the inverse function, then continue with a short rational inside the interval
      int e = q.op == SQRT ? 2 : q.e; bool okl = std::isinf(z.lower()) || powq(orc::q(z.lower()), e) <= w || (!(e & 1) && z.lower() <= 0), oku = std::isinf(z.upper()) || (powq(orc::q(z.upper()), e) >= w && ((e & 1) || z.upper() >= 0));
      PBT_CHECK(c, okl && oku, key + "|lost", show(q) + " gives " + got + " which does not contain the root of the exact value in x=" + str(xb));
      orc::wide(); orc::Num a(160); mpfr_set_q(a.v, w.get_mpq_t(), MPFR_RNDN); if (e == 2) mpfr_sqrt(a.v, a.v, MPFR_RNDN); else mpfr_rootn_ui(a.v, a.v, e, MPFR_RNDN);
      mpq_class rr; if (mpfr_zero_p(a.v)) rr = 0; else { mpz_class zz; mpfr_exp_t ee = mpfr_get_z_2exp(zz.get_mpz_t(), a.v); rr = zz; if (ee >= 0) mpq_mul_2exp(rr.get_mpq_t(), rr.get_mpq_t(), ee); else mpq_div_2exp(rr.get_mpq_t(), rr.get_mpq_t(), -ee); }
      w = shorten(rr, z.lower(), z.upper());
    } else PBT_CHECK(c, contains(z, w), key + "|lost", show(q) + " gives " + got + " which does not contain the exact value " + (bits(w) < 400 ? w.get_str() : "(~" + orc::dec(orc::from_q<T>(w, orc::NR)) + ")") + "; x=" + str(xb) + " y=" + str(yb));
    if (bits(w) > 3000) w = shorten(w, z.lower(), z.upper());
    r[q.k] = z; v[q.k] = w; done++; if (z.lower() < z.upper() && !std::isinf(z.lower()) && !std::isinf(z.upper())) wide_ = true;
    fesetround(m >= 0 ? MODES[m] : FE_TONEAREST); if (m < 0) { fesetround(f0.mx >> 13 & 3 ? FE_UPWARD : FE_TONEAREST); }
    PBT_CHECK(c, Fp::now() == f0, "harness state", "state could not be re-established");
  }
  fesetround(FE_TONEAREST);
  c.nontrivial(done > 1 && wide_); c.label("steps " + std::to_string(done / 4 * 4) + "+");
}
typedef bn::interval<T, il::policies<il::save_state<il::rounded_arith_opp<T>>, il::checking_strict<T>>> IG; typedef il::unprotect<IG>::type UG;
template <> inline const char *pname<UG>() { return "unprotected opp/strict"; }
PBT_PROP(program_def, 3) { program<IDef>(s, c, true); }
PBT_PROP(program_std, 3) { program<IStdStrict>(s, c, true); }
PBT_PROP(program_base, 1) { program<IOpp>(s, c, true); }
PBT_PROP(program_guarded, 2) { IG::traits_type::rounding guard; (void)&guard; program<UG>(s, c, false); }

// Larger inputs give results that contain the original ones.
template <class I> void monotone(pbt::Src &s, pbt::Ctx &c) {
  Gen<T> g(s, c); I r[NR], w[NR]; bool grown = false;
  NOTE(c, std::string("inclusion monotonicity (") + pname<I>() + ")");
  for (int i = 0; i < NR; i++) {
    Iv<T> x; if (s.chance(1, 2)) { T a = std::ldexp(g.mantissa(), s.range(-3, 3)) * (s.coin() ? 1 : -1), q = std::ldexp(g.mantissa(), s.range(-12, 4)); x = s.chance(1, 2) ? Iv<T>(a, a) : Iv<T>(a, a + q); } else x = g.interval();
    Iv<T> y = x; switch (s.weighted({2, 2, 2, 1, 1})) { case 0: break; case 1: y.l = Gen<T>::ulp_dn(y.l); break; case 2: y.u = Gen<T>::ulp_up(y.u); break; case 3: { T t = std::fabs(g.finite()); y.l -= t; t = std::fabs(g.finite()); y.u += t; break; } default: y = orc::r_hull(y, g.interval()); break; }
    r[i] = I(x.l, x.u); w[i] = I(y.l, y.u); if (!(x == y)) grown = true; g.hash(x); g.hash(y); NOTE(c, "r" + std::to_string(i) + "=" + str(x) + " inside " + str(y));
  }
  int n = 1 + (int)s.below(12), done = 0;
  for (int st = 0; st < n; st++) {
    Ins q = gen(s, g, true); if (q.op == INTER) q.op = HULL; NOTE(c, show(q)); c.label(std::string("monotone op:") + on[q.op]);
    I a, b; Iv<T> xb(r[q.i].lower(), r[q.i].upper()), yb(r[q.j].lower(), r[q.j].upper());
    bool ea = bn::empty(r[q.i]) || bn::empty(r[q.j]);
    a = apply<I>(q, r, I()); b = apply<I>(q, w, I()); (void)ea;
    std::string key = std::string("monotone|") + on[q.op];
    bool aem = bn::empty(a), bem = bn::empty(b);
    if (!aem) PBT_CHECK(c, !bem && b.lower() <= a.lower() && a.upper() <= b.upper(), key, show(q) + " on larger operands gives " + (bem ? std::string("empty") : orc::str2(b.lower(), b.upper())) + " which does not contain " + orc::str2(a.lower(), a.upper()) + " obtained on x=" + str(xb) + " y=" + str(yb));
    r[q.k] = a; w[q.k] = b; done++; c.h(q.op * 64 + q.i * 16 + q.j * 4 + q.k); g.hash(q.t);
  }
  c.nontrivial(grown && done);
}
PBT_PROP(monotone_opp, 2) { monotone<IOpp>(s, c); }
PBT_PROP(monotone_std, 2) { monotone<IStd>(s, c); }
