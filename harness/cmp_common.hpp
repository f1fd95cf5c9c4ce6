// Shared by the comparison and set-operation checks: operand generation with coinciding bounds, and a point-set model.
#pragma once
#include "common.hpp"
#include <algorithm>
// Sets of points on a line cut at the finite values v: every value, one point in every gap, two points beyond each end.
struct Line {
  std::vector<T> v;
  void add(const Iv<T> &x) { if (!x.empty) { add(x.l); add(x.u); } }
  void add(T x) { if (std::isinf(x)) return; for (T y : v) if (y == x) return; v.push_back(x); }
  void done() { std::sort(v.begin(), v.end()); }
  int n() const { return v.empty() ? 4 : 2 * (int)v.size() + 3; }
  int pos(T x) const { for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return 2 + 2 * (int)i; return -1; }
  uint32_t mask(const Iv<T> &x) const {
    if (x.empty) return 0;
    int a = std::isinf(x.l) ? 0 : pos(x.l), b = std::isinf(x.u) ? n() - 1 : pos(x.u);
    uint32_t m = 0; for (int i = a; i <= b; i++) m |= 1u << i; return m;
  }
  Iv<T> back(uint32_t m) const { // convex sets of the model only
    if (!m) return Iv<T>();
    int a = __builtin_ctz(m), b = 31 - __builtin_clz(m);
    return Iv<T>(a == 0 ? -orc::inf<T>() : v[(a - 2) / 2], b == n() - 1 ? orc::inf<T>() : v[(b - 2) / 2]);
  }
};
enum Rel { LT, LE, GT, GE, EQ, NE };
static const char *reln[] = {"<", "<=", ">", ">=", "==", "!="};
static bool rel(int r, int a, int b) { switch (r) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; } }
static bool forall(int r, uint32_t X, uint32_t Y) { for (int i = 0; i < 32; i++) if (X >> i & 1) for (int j = 0; j < 32; j++) if (Y >> j & 1) if (!rel(r, i, j)) return false; return true; }
static bool exists(int r, uint32_t X, uint32_t Y) { for (int i = 0; i < 32; i++) if (X >> i & 1) for (int j = 0; j < 32; j++) if (Y >> j & 1) if (rel(r, i, j)) return true; return false; }
enum Ans { NO = 0, YES = 1, IND = 2, THROWN = 3, OTHER = 4 };
static const char *ansn[] = {"false", "true", "indeterminate", "comparison_error", "another exception"};
template <class F> int ans(F f) { try { return f() ? YES : NO; } catch (const il::comparison_error &) { return THROWN; } catch (...) { return OTHER; } }
static int trans(int r) { const int m[] = {GT, GE, LT, LE, EQ, NE}; return m[r]; }

// Operands drawn from a few anchor values so that bounds coincide or differ by an ulp.
struct Anchors {
  Gen<T> &g; std::vector<T> a;
  Anchors(Gen<T> &g_) : g(g_) {
    int n = 1 + (int)g.s.below(4);
    for (int i = 0; i < n; i++) switch (g.s.below(a.empty() ? 3 : 6)) {
      case 0: a.push_back((T)g.s.range(-3, 3)); break;
      case 1: a.push_back(g.finite()); break;
      case 2: a.push_back(g.s.coin() ? T(0) : -T(0)); break;
      case 3: a.push_back(clip(Gen<T>::ulp_up(a.back()))); break;
      case 4: a.push_back(clip(Gen<T>::ulp_dn(a.back()))); break;
      default: a.push_back(-a.back()); break;
    }
  }
  static T clip(T x) { return std::isinf(x) ? T(1) : x; }
  T num() { return a[g.s.below(a.size())]; }
  Iv<T> iv(bool empties) {
    int k = (int)g.s.weighted({10, 1, 1, 1, empties ? 1 : 0});
    T x = num(), y = num(); if (y < x) std::swap(x, y);
    switch (k) { case 0: return Iv<T>(x, y); case 1: return Iv<T>(-orc::inf<T>(), x); case 2: return Iv<T>(y, orc::inf<T>()); case 3: return orc::whole<T>(); default: return Iv<T>(); }
  }
};
// the grid of all intervals with bounds in {-inf,-1,0,1,2,inf} (+ empty last)
static const T GRID[] = {-std::numeric_limits<T>::infinity(), -1, 0, 1, 2, std::numeric_limits<T>::infinity()};
enum { GN = 19 }; // 6*7/2 = 21 minus [-inf,-inf],[inf,inf]
static Iv<T> grid_iv(int k) { for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) { if (i == j && (i == 0 || i == 5)) continue; if (k-- == 0) return Iv<T>(GRID[i], GRID[j]); } return Iv<T>(); }
template <class I> struct Same { // the operand must not change
  const I &x; T l, u; Same(const I &a) : x(a), l(a.lower()), u(a.upper()) {}
  static bool eq(T a, T b) { return (a == b && std::signbit(a) == std::signbit(b)) || (a != a && b != b); }
  bool ok() const { return eq(x.lower(), l) && eq(x.upper(), u); }
};
// an interval compared with itself (one object) as well as with an equal copy
template <class I1, class I2> bool can_alias(const Iv<T> &x, const Iv<T> &y) { return std::is_same<I1, I2>::value && x.empty == y.empty && (x.empty || (Same<I1>::eq(x.l, y.l) && Same<I1>::eq(x.u, y.u))); }
template <class I1, class I2> const I2 &aliased(const I1 &a, const I2 &b, bool same) { if constexpr (std::is_same<I1, I2>::value) return same ? a : b; else return b; }
static const char *relpos(const Iv<T> &x, const Iv<T> &y) {
  if (x.empty || y.empty) return "empty operand";
  if (x.l == y.l && x.u == y.u) return "equal";
  if (x.u < y.l || y.u < x.l) return "disjoint";
  if (x.u == y.l || y.u == x.l) return "touching";
  if (x.l == y.l || x.u == y.u) return "one common bound";
  if ((x.l < y.l && y.u < x.u) || (y.l < x.l && x.u < y.u)) return "nested";
  return "overlapping";
}
