// Generators for floating-point values and intervals. Choice 0 is the simplest everywhere (shrinks well).
#pragma once
#include "oracle.hpp"
#include "pbt.hpp"

template <class T> struct Gen {
  typedef std::numeric_limits<T> L;
  pbt::Src &s; pbt::Ctx &c;
  std::vector<T> pool;
  bool inexact_seen = false;
  Gen(pbt::Src &s_, pbt::Ctx &c_) : s(s_), c(c_) {}

  static T ulp_up(T x) { return std::nextafter(x, L::infinity()); }
  static T ulp_dn(T x) { return std::nextafter(x, -L::infinity()); }

  T mantissa() { // in [1,2)
    enum { P = orc::FT<T>::prec };
    uint64_t m; 
    switch (s.weighted({3, 2, 1, 1, 1})) {
      case 0: m = s.bits() >> (64 - P); break;
      case 1: { int k = s.range(0, P - 1); m = (s.bits() >> (64 - P)) >> k << k; } break;          // few significant bits
      case 2: m = ~0ull >> (64 - P); m ^= s.coin() ? 1ull << s.below(P - 1) : 0; break;              // 1.111..1
      case 3: m = 1ull << s.below(P - 1); break;                                                      // 1.0..010..0
      default: m = s.below(8); break;                                                                 // 1.0..0xxx
    }
    m |= 1ull << (P - 1);
    return std::ldexp((T)m, -(P - 1));
  }
  // finite value
  T finite() {
    T r = 0;
    switch (s.weighted({4, 3, 3, 5, 4, 3, 4, 2})) {
      case 0: r = (T)(int)s.below(9); break;
      case 1: r = std::ldexp((T)(int)s.below(1000), -(int)s.below(12)); break;
      case 2: { // specials
        const T sp[] = {T(1), T(0), L::min(), L::max(), L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, ulp_dn(L::min()), ulp_dn(L::max()), L::min() * 2, T(1) / 3, T(1) / 10, T(0.5), std::ldexp(T(1), orc::FT<T>::prec), std::ldexp(T(1), orc::FT<T>::prec - 1), T(3.5), T(16777216), std::sqrt(L::max()), std::sqrt(L::min()), L::denorm_min() * 3};
        r = s.pick(sp); } break;
      case 3: r = std::ldexp(mantissa(), s.range(-12, 12)); break;
      case 4: { int e = s.range(orc::FT<T>::emin - 1, orc::FT<T>::emax - 1); T m = mantissa(); r = e < L::min_exponent ? std::ldexp(m, e) : std::ldexp(m, e); } break;
      case 5: switch (s.below(3)) {
          case 0: r = std::ldexp(mantissa(), orc::FT<T>::emax - 1 - (int)s.below(4)); break;
          case 1: r = std::ldexp(mantissa(), L::min_exponent - 1 + (int)s.below(3)); break;
          default: r = L::denorm_min() * (T)(s.below(1000)); break; } break;
      case 6: // related to an earlier value
        if (pool.empty()) { r = std::ldexp(mantissa(), s.range(-2, 2)); break; }
        r = pool[s.below(pool.size())];
        switch (s.below(8)) {
          case 0: break;
          case 1: r = ulp_up(r); break;
          case 2: r = ulp_dn(r); break;
          case 3: r = -r; break;
          case 4: r = r * 2; break;
          case 5: r = r / 2; break;
          case 6: { T k = r; for (int i = (int)s.below(20); i >= 0; i--) k = ulp_up(k); r = k; } break;
          default: if (r != 0) { T k = 1 / r; r = k; } break;
        }
        break;
      default: { // moderate magnitude: keeps products/quotients of several values finite
        r = std::ldexp(mantissa(), s.range(-(orc::FT<T>::emax / 8), orc::FT<T>::emax / 8)); } break;
    }
    if (s.coin()) r = -r;
    if (!(std::fabs(r) <= L::max())) r = L::max();
    pool.push_back(r);
    return r;
  }
  T nonzero() { T r = finite(); return r == 0 ? T(1) : r; }
  T positive() { T r = std::fabs(nonzero()); return r; }

  // interval with l<=u, l<+inf, u>-inf
  orc::Iv<T> interval(bool allow_inf = true) {
    T a, b;
    switch (s.weighted({3, 6, 3, 3, 3, allow_inf ? 2 : 0, allow_inf ? 1 : 0})) {
      case 0: a = b = finite(); break;
      case 1: a = finite(); b = finite(); break;
      case 2: a = finite(); b = a; for (int k = (int)s.below(8); k >= 0; k--) b = ulp_up(b); if (std::isinf(b)) b = a; break; // a few ulps
      case 3: a = -positive(); b = positive(); break;
      case 4: a = s.coin() ? -T(0) : T(0); b = finite(); break;
      case 5: a = finite(); b = s.coin() ? orc::inf<T>() : -orc::inf<T>(); break;
      default: a = -orc::inf<T>(); b = orc::inf<T>(); break;
    }
    if (b < a) std::swap(a, b);
    return orc::Iv<T>(a, b);
  }
  // rational point of an interval (may be strictly inside and not representable)
  mpq_class point(const orc::Iv<T> &x) {
    T l = x.l, u = x.u;
    if (std::isinf(l)) l = std::isinf(u) ? -std::fabs(finite()) : (u < -1 ? u * 2 : u - std::fabs(finite()));
    if (std::isinf(u)) u = l > 1 ? l * 2 : l + std::fabs(finite());
    if (std::isinf(l)) l = -L::max();
    if (std::isinf(u)) u = L::max();
    if (l > u) l = u;
    if (!(l >= x.l)) l = x.l;
    if (!(u <= x.u)) u = x.u;
    switch (s.weighted({3, 3, 2, 1})) {
      case 0: return orc::q(l);
      case 1: return orc::q(u);
      case 2: { mpq_class a = orc::q(l), b = orc::q(u); mpq_class t((unsigned long)s.below(1025), 1024); t.canonicalize(); return a + (b - a) * t; }
      default: if (l <= 0 && u >= 0) return mpq_class(0); return orc::q(s.coin() ? l : u);
    }
  }
  void hash(const orc::Iv<T> &x) { c.h(orc::hbits(x.l)); c.h(orc::hbits(x.u)); }
  void hash(T x) { c.h(orc::hbits(x)); }
  void classify(const orc::Iv<T> &x, const char *n) {
    const char *k = x.empty ? "empty" : std::isinf(x.l) && std::isinf(x.u) ? "whole" : std::isinf(x.l) || std::isinf(x.u) ? "half-infinite" :
      x.l == x.u ? (x.l == 0 ? "zero" : "point") : x.l < 0 && x.u > 0 ? "straddles-0" : x.l == 0 ? "[0,b]" : x.u == 0 ? "[a,0]" : x.l > 0 ? "positive" : "negative";
    c.label(std::string(n) + ":" + k);
  }
};
