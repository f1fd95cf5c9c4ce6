// C22: the library over user-defined number types: small floating grids with their own stateful rounding policy,
// sign tests and checking policy (no numeric_limits), and exact rationals under the library's exact policy.
#include "grid.hpp"
template <int B, bool TH, bool NE> using GI = bn::interval<M<B>, il::policies<Rnd<B>, Chk<M<B>, TH, NE>>>;
template <int B, bool TH, bool NE> struct TG : T_<AG<B>, GI<B, TH, NE>, TH> { using T_<AG<B>, GI<B, TH, NE>, TH>::T_; };
typedef bn::interval<Q, il::policies<il::save_state_nothing<il::rounded_arith_exact<Q>>, ChkQ<false>>> QI; typedef bn::interval<Q, il::policies<il::save_state_nothing<il::rounded_arith_exact<Q>>, ChkQ<true>>> QIT;

// every pair of intervals of the two-bit grid (and empty); a case is one x against every y
template <bool TH, bool NE> void enum2(pbt::Src &s, pbt::Ctx &c, const char *n) {
  const auto &v = Grid<2>::get().v; int cnt = (int)(v.size() * (v.size() + 1) / 2); int i = (int)s.below(435); if (i >= cnt) return;
  TG<2, TH, NE> t(c, n); t.x = nth<2>(i); c.h(i); c.nontrivial(); NOTE(c, std::string(n) + " x=" + t.x.s() + " against every y and t"); t.t = 1; t.y = t.x; t.all(2 | 8 | 16);
  for (int j = 0; j < cnt; j++) { t.y = nth<2>(j); t.t = v[j % v.size()]; t.all(1); if (j < (int)v.size()) { t.all(4); } }
}
PBT_ENUM(grid2_all, 435) { enum2<false, false>(s, c, "2-bit grid"); }
PBT_ENUM(grid2_all_nan, 435) { enum2<false, true>(s, c, "2-bit grid, NaN empties"); }
PBT_ENUM(grid2_all_strict, 435) { enum2<true, false>(s, c, "2-bit grid, strict"); }
template <int B, bool TH, bool NE> void rnd_grid(pbt::Src &s, pbt::Ctx &c, const char *n) {
  const auto &v = Grid<B>::get().v; int k = (int)v.size(), z = k / 2; TG<B, TH, NE> t(c, n);
  int anchors[3]; auto idx = [&](int j) { int i = s.coin() && j > 0 ? anchors[s.below(j)] + (int)s.below(3) - 1 : z + (s.chance(1, 2) ? s.range(-(1 << B), 1 << B) : s.range(-z, z)); if (s.chance(1, 8)) i = k - 1 - i; return std::min(std::max(i, 0), k - 1); };
  auto iv = [&]() -> typename Ref<AG<B>>::I { if (!TH && s.chance(1, 20)) return typename Ref<AG<B>>::I(); int a = idx(0); anchors[0] = a; int b = s.chance(1, 4) ? a : s.chance(1, 6) ? z : idx(1); anchors[1] = b; if (b < a) std::swap(a, b); if (a == k - 1) a = k - 2; if (b == 0) b = 1; return typename Ref<AG<B>>::I(v[a], v[b]); };
  anchors[0] = anchors[1] = anchors[2] = z; t.x = iv(); int a0 = anchors[0], a1 = anchors[1]; t.y = iv(); if (s.chance(1, 3) && !t.y.e) { t.y.l = v[a0]; if (!(t.y.l <= t.y.u) || std::isinf(t.y.l)) t.y.l = t.y.u; if (std::isinf(t.y.l)) t.y = typename Ref<AG<B>>::I(v[z], v[z + 1]); } (void)a1;
  t.t = v[std::min(std::max(idx(2), 1), k - 2)];
  c.h(orc::hbits(t.x.l) * 3 + orc::hbits(t.x.u) * 5 + t.x.e); c.h(orc::hbits(t.y.l) * 3 + orc::hbits(t.y.u) * 5 + t.y.e); c.h(orc::hbits(t.t)); c.nontrivial(!t.x.e || !t.y.e); NOTE(c, std::string(n) + t.args()); c.label(n); c.label_if(t.x.e || t.y.e, "empty operand");
  t.all(31);
}
PBT_PROP(grid3, 3) { switch (s.below(3)) { case 0: rnd_grid<3, false, false>(s, c, "3-bit grid"); break; case 1: rnd_grid<3, false, true>(s, c, "3-bit grid, NaN empties"); break; default: rnd_grid<3, true, false>(s, c, "3-bit grid, strict"); } }
PBT_PROP(grid5, 2) { switch (s.below(2)) { case 0: rnd_grid<5, false, false>(s, c, "5-bit grid"); break; default: rnd_grid<5, true, false>(s, c, "5-bit grid, strict"); } }
template <class I, bool TH> void rnd_q(pbt::Src &s, pbt::Ctx &c, const char *n) {
  T_<AQ, I, TH> t(c, n); std::vector<Q> pool;
  auto num = [&]() -> Q { Q r; switch (s.weighted({3, 3, 2, 2, 1})) { case 0: r = Q(s.range(-4, 4)); break; case 1: r = Q(mpq_class(s.range(-60, 60), 1 + (int)s.below(12))); break; case 2: r = pool.empty() ? Q(0) : pool[s.below(pool.size())]; if (s.coin()) r = -r; break; case 3: { mpq_class k(s.range(-9, 9), 1 + (int)s.below(9)); k.canonicalize(); r = Q(mpq_class(k * k)); break; } default: { mpz_class a = (unsigned long)s.bits(), b = (unsigned long)s.bits() | 1; r = Q(mpq_class(a, b)); if (s.coin()) r = -r; } } r.v.canonicalize(); pool.push_back(r); return r; };
  auto iv = [&]() -> RQ::I { if (!TH && s.chance(1, 20)) return RQ::I(); Q a = num(), b = s.chance(1, 5) ? a : num(); if (b < a) std::swap(a, b); if (s.chance(1, 12)) a = Q::infv(-1); if (s.chance(1, 12)) b = Q::infv(1); return RQ::I(a, b); };
  t.x = iv(); t.y = iv(); t.t = num(); if (s.chance(1, 4) && !t.y.e && !t.y.u.inf && !t.y.l.inf) { t.y = RQ::abs(t.y); if (t.y.l.sg() == 0) t.y.l = t.y.u; if (t.y.u.sg() == 0) t.y = RQ::I(Q(1), Q(2)); }
  auto hs = [&](const Q &v) { c.h(std::hash<std::string>()(v.s())); }; if (!t.x.e) { hs(t.x.l); hs(t.x.u); } if (!t.y.e) { hs(t.y.l); hs(t.y.u); } hs(t.t); c.nontrivial(!t.x.e || !t.y.e); NOTE(c, std::string(n) + t.args()); c.label(n); c.label_if(t.x.e || t.y.e, "empty operand");
  t.all(31);
}
PBT_PROP(rational, 2) { rnd_q<QI, false>(s, c, "exact rational"); }
PBT_PROP(rational_strict, 1) { rnd_q<QIT, true>(s, c, "exact rational, strict"); }
