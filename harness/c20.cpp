// C20: the hardware rounding policies are interchangeable.
#include "ops.hpp"
template <class R> using IR = bn::interval<T, il::policies<R, il::checking_base<T>>>;
typedef il::rounded_arith_opp<T> AO; typedef il::rounded_arith_std<T> AS;
typedef IR<TransPol<AO>> PO; typedef IR<TransPol<AS>> PS;                              // protected
typedef il::unprotect<IR<il::save_state<AO>>>::type UO; typedef il::unprotect<IR<il::save_state<AS>>>::type US; // under a guard
typedef IR<il::rounded_math<T>> DM;                                                    // the default for the type
typedef IR<il::save_state<il::rounded_transc_opp<T, AO>>> TO; typedef IR<il::save_state<il::rounded_transc_std<T, AS>>> TS;  // with the transcendental layers on top
enum { NOBJ = 3, MAXST = 16 };
struct St { int kind, i, j, k, op, e; T t, v; };   // one step of a chain
struct Bounds { T l[NOBJ], u[NOBJ]; };
static T zz(T x) { return x == 0 ? T(0) : x; }
template <class I, bool TR> void step(I *o, const St &q) {
  if (q.kind == 0) { o[q.i] = ap_obj<I, TR>(q.op, o[q.j], o[q.k], q.t, q.v, q.e, Other(T(-1) / 4, T(3))); return; }
  if (q.kind == 1) { I &d = o[q.i]; const I &r = o[q.j]; switch (q.op) { case 0: d += r; break; case 1: d -= r; break; case 2: d *= r; break; default: d /= r; } return; }
  I &d = o[q.i]; switch (q.op) { case 0: d += q.t; break; case 1: d -= q.t; break; case 2: d *= q.t; break; default: d /= q.t; }
}
template <class I, bool TR> void exec(const Iv<T> *in, const std::vector<St> &p, std::vector<Bounds> &tr, std::vector<T> &scalars) {
  I o[NOBJ]; for (int i = 0; i < NOBJ; i++) o[i] = mk<I>(in[i]);
  for (const St &q : p) { step<I, TR>(o, q); Bounds b; for (int i = 0; i < NOBJ; i++) { b.l[i] = o[i].lower(); b.u[i] = o[i].upper(); } tr.push_back(b);
    const I &d = o[q.i]; if (!bn::empty(d)) { scalars.push_back(bn::width(d)); scalars.push_back(bn::norm(d)); scalars.push_back(bn::median(d)); } else { scalars.push_back(0); scalars.push_back(0); scalars.push_back(0); } }
}
static bool eqv(T a, T b) { return a == b || (a != a && b != b); }
static std::string stepname(const St &q) {
  std::string r = "o" + std::to_string(q.i); const char *sym[] = {" += ", " -= ", " *= ", " /= "};
  if (q.kind == 1) return r + sym[q.op] + "o" + std::to_string(q.j); if (q.kind == 2) return r + sym[q.op] + str(q.t);
  r += std::string(" = ") + OT[q.op].n; int u = OT[q.op].use; if (u & X) r += " x=o" + std::to_string(q.j); if (u & Y) r += " y=o" + std::to_string(q.k); if (u & N) r += " t=" + str(q.t); if (u & N2) r += " v=" + str(q.v); if (u & K) r += " k=" + std::to_string(q.e); return r;
}
static void chain(pbt::Src &s, pbt::Ctx &c, int maxlen, bool trans) {
  Gen<T> g(s, c); Iv<T> in[NOBJ]; for (int i = 0; i < NOBJ; i++) { in[i] = g.interval(); g.hash(in[i]); }
  typedef IR<TransPol<AO>> L; L live[NOBJ]; for (int i = 0; i < NOBJ; i++) live[i] = mk<L>(in[i]);   // decides which steps are inside their documented domain
  int n = 1 + (int)s.below(maxlen); std::vector<St> p; bool mixed = false;
  for (int i = 0; i < n; i++) {
    St q; q.kind = s.weighted({4, 2, 1}); q.i = (int)s.below(NOBJ); q.j = (int)s.below(NOBJ); q.k = (int)s.below(NOBJ); q.t = q.v = 0; q.e = 0;
    if (q.kind == 0) { do q.op = (int)s.below(trans ? OPS : O_exp); while (q.op == O_bis1 || q.op == O_bis2); if (q.op == O_root && RARE_ROOT && !s.chance(1, 60)) q.op = O_mul; if (OT[q.op].use & N) q.t = g.finite(); if (OT[q.op].use & N2) q.v = g.finite(); if (OT[q.op].use & K) q.e = s.range(-6, 8); if (q.op == O_root) q.e = s.range(1, 7); if (q.op == O_widen) q.t = std::fabs(q.t);
      bool fm = q.op == O_fmod || q.op == O_fmod_n || q.op == O_nfmod; 
      if (fm) { Iv<T> x(live[q.j].lower(), live[q.j].upper()), y(live[q.k].lower(), live[q.k].upper()); if (q.op == O_fmod_n) { q.t = std::fabs(q.t); y = Iv<T>(q.t, q.t); } if (q.op == O_nfmod) { y = x; x = Iv<T>(q.t, q.t); }
        if (!(x.l <= x.u && y.l > 0 && y.l <= y.u) || std::isinf(x.l) || std::isinf(x.u) || std::isinf(y.u) || !(std::fabs(x.l) / (x.l < 0 ? y.l : y.u) < std::ldexp(T(1), orc::FT<T>::prec - 1))) q.op = O_add; } }
    else { q.op = (int)s.below(4); if (q.kind == 2) q.t = g.finite(); }
    step<L, true>(live, q); p.push_back(q); c.h(q.kind * 31 + q.i * 1009 + q.j * 7 + q.k * 3 + q.op * 100003 + q.e * 1000033); g.hash(q.t); c.label(std::string("op:") + (q.kind == 0 ? OT[q.op].n : q.kind == 1 ? "compound" : "compound number"));
  }
  NOTE(c, [&] { std::string r = "chain from"; for (auto &x : in) r += " " + str(x); for (auto &q : p) r += "; " + stepname(q); return r; }());
  std::vector<Bounds> ref; std::vector<T> sref;
  if (trans) exec<PO, true>(in, p, ref, sref); else exec<IR<il::save_state<AO>>, false>(in, p, ref, sref);
  auto cmp = [&](const char *name, const std::vector<Bounds> &b, const std::vector<T> &sc) {
    fesetround(FE_TONEAREST);
    for (size_t k = 0; k < ref.size(); k++) {
      for (int i = 0; i < NOBJ; i++) PBT_CHECK(c, eqv(b[k].l[i], ref[k].l[i]) && eqv(b[k].u[i], ref[k].u[i]), std::string("policy|") + name + "|" + (p[k].kind == 0 ? OT[p[k].op].n : "compound"),
        std::string("step ") + std::to_string(k + 1) + " (" + stepname(p[k]) + "): " + name + " gives " + orc::str2(b[k].l[i], b[k].u[i]) + ", protected single-mode policy " + orc::str2(ref[k].l[i], ref[k].u[i]));
      static const char *sn[] = {"width", "norm", "median"};
      for (int z = 0; z < 3; z++) PBT_CHECK(c, eqv(sc[3 * k + z], sref[3 * k + z]), std::string("policy|") + name + "|" + sn[z], std::string(sn[z]) + " of " + orc::str2(ref[k].l[p[k].i], ref[k].u[p[k].i]) + ": " + name + " gives " + str(sc[3 * k + z]) + ", protected single-mode policy " + str(sref[3 * k + z]));
    }
  };
  int m = (int)s.below(4); NOTE(c, std::string("ambient ") + moden[m]);
  std::vector<Bounds> b; std::vector<T> sc; auto clr = [&] { b.clear(); sc.clear(); };
  fesetround(MODES[m]);
  if (trans) { exec<PS, true>(in, p, b, sc); cmp("protected std", b, sc); }
  else {
    exec<IR<il::save_state<AS>>, false>(in, p, b, sc); cmp("protected std", b, sc); clr(); fesetround(MODES[m]);
    exec<DM, false>(in, p, b, sc); cmp("default for the type", b, sc); clr(); fesetround(MODES[m]);
    exec<TO, false>(in, p, b, sc); cmp("opp under transcendental layer", b, sc); clr(); fesetround(MODES[m]);
    exec<TS, false>(in, p, b, sc); cmp("std under transcendental layer", b, sc); clr(); fesetround(MODES[m]);
    { il::save_state<AO> guard; (void)&guard; exec<UO, false>(in, p, b, sc); } cmp("unprotected opp under a guard", b, sc); clr(); fesetround(MODES[m]);
    { il::save_state<AS> guard; (void)&guard; exec<US, false>(in, p, b, sc); } cmp("unprotected std under a guard", b, sc); clr(); fesetround(MODES[m]);
    { typename IR<il::rounded_math<T>>::traits_type::rounding guard; (void)&guard; exec<il::unprotect<DM>::type, false>(in, p, b, sc); } cmp("unprotected default under a guard", b, sc);
  }
  for (auto &r : ref) for (int i = 0; i < NOBJ; i++) if (r.l[i] < r.u[i]) mixed = true;
  c.nontrivial(mixed); c.label("steps " + std::to_string(n > 8 ? 9 : n));
}
PBT_PROP(single, 3) { chain(s, c, 1, false); }
PBT_PROP(chains, 3) { chain(s, c, MAXST, false); }
PBT_PROP(chains_trans, 1) { chain(s, c, 4, true); }
