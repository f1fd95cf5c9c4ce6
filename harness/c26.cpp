// C26: several threads using the library at the same time do not influence each other.
#include "ops.hpp"
#include <boost/numeric/interval/io.hpp>
#include <atomic>
#include <thread>
#include <sstream>
#include <memory>
#if defined(__SANITIZE_THREAD__)
#define TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
static std::atomic<int> races{0};
#ifdef TSAN // a data race the sanitizer reports fails the case
extern "C" const char *__tsan_default_options() { return "suppress_equal_stacks=0:suppress_equal_addresses=0:log_path=/dev/null:exitcode=0:die_after_fork=0:handle_segv=0:report_signal_unsafe=0:symbolize=0"; }
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void *) { races++; }
#endif
enum { NT = 3, NOBJ = 3, MAXST = 12, NPOL = 7 };
static const char *poln[] = {"protected opp", "protected std", "protected opp, catching", "default", "unprotected opp under a guard", "unprotected std under a guard", "unprotected default under a guard"};
// kinds: 0 operation table, 1 compound with object, 2 compound with number, 3 comparisons, 4 text, 5 scalar functions, 6 nested guard around an addition, 7 limits
struct St { int kind, i, j, k, op, e; T t, v; bool sj, sk; };
struct Job { Iv<T> in[NOBJ]; std::vector<St> p; int pol = 0, mode = 0; };
struct Trace { std::vector<T> b; std::vector<long> n; std::string text; Fp before, after; bool operator==(const Trace &o) const { return n == o.n && text == o.text && before == o.before && after == o.after && b.size() == o.b.size() && std::equal(b.begin(), b.end(), o.b.begin(), [](T x, T y) { return x == y || (x != x && y != y); }); } };
template <class R, class C> using IR = bn::interval<T, il::policies<R, C>>;
typedef il::rounded_arith_opp<T> AO; typedef il::rounded_arith_std<T> AS; typedef il::checking_base<T> CB;
typedef il::save_state<il::rounded_transc_opp<T, AO>> RO; typedef il::save_state<il::rounded_transc_std<T, AS>> RS;   // scalar functions of the standard library (the MPFR ones of the other checks share state)
typedef IR<RO, CB> PO; typedef IR<RS, CB> PS; typedef IR<RO, il::checking_catch_nan<T, il::checking_no_empty<T>>> PX;
typedef il::unprotect<PO>::type UO; typedef il::unprotect<PS>::type US; typedef il::unprotect<IDef>::type UD;
static Iv<T> shared_iv[NOBJ];
template <class I> struct Shared { static I *o; };   // const operands all threads read
template <class I> I *Shared<I>::o = nullptr;
template <class I> void share() { delete[] Shared<I>::o; Shared<I>::o = new I[NOBJ]; for (int i = 0; i < NOBJ; i++) Shared<I>::o[i] = I(shared_iv[i].l, shared_iv[i].u); }
template <class F> long tri(F f) { try { return f() ? 1 : 0; } catch (il::comparison_error &) { return 2; } }
template <class I, bool TR> void step(I *own, const St &q, Trace &t) {
  const I *sh = Shared<I>::o; const I &x = q.sj ? sh[q.j] : own[q.j], &y = q.sk ? sh[q.k] : own[q.k]; I &d = own[q.i];
  switch (q.kind) {
    case 0: d = ap_obj<I, TR>(q.op, x, y, q.t, q.v, q.e, Other(T(-1) / 4, T(3))); break;
    case 1: switch (q.op) { case 0: d += x; break; case 1: d -= x; break; case 2: d *= x; break; default: d /= x; } break;
    case 2: switch (q.op) { case 0: d += q.t; break; case 1: d -= q.t; break; case 2: d *= q.t; break; default: d /= q.t; } break;
    case 3: t.n.push_back(tri([&] { return x < y; }) + 3 * tri([&] { return x == y; }) + 9 * tri([&] { return x >= q.t; })); t.n.push_back(bn::overlap(x, y) + 2 * bn::subset(x, y) + 4 * bn::zero_in(x) + 8 * bn::in(q.t, y) + 16 * bn::equal(x, y)); break;
    case 4: { std::ostringstream o; o.precision(9); o << x; t.text += o.str(); } break;
    case 5: t.b.push_back(bn::width(x)); t.b.push_back(bn::norm(x)); t.b.push_back(bn::median(x)); break;
    case 6: { typename I::traits_type::rounding g; d = x + y; } break;
    default: { I w = I::whole(), m = (std::numeric_limits<I>::max)(), h = il::pi_half<I>(); t.b.push_back(w.lower()); t.b.push_back(m.upper()); t.b.push_back(h.lower()); t.b.push_back(h.upper()); }
  }
}
template <class I, bool TR> void body(const Job &j, Trace &t) {
  I own[NOBJ]; for (int i = 0; i < NOBJ; i++) own[i] = I(j.in[i].l, j.in[i].u);
  for (const St &q : j.p) {
    try { step<I, TR>(own, q, t); t.n.push_back(0); } catch (std::exception &e) { t.n.push_back(e.what()[0]); }
    t.b.push_back(own[q.i].lower()); t.b.push_back(own[q.i].upper());
  }
}
static void run_job(const Job &j, Trace &t) {
  fesetround(MODES[j.mode]); t.before = Fp::now();
  switch (j.pol) {
    case 0: body<PO, true>(j, t); break; case 1: body<PS, true>(j, t); break; case 2: body<PX, true>(j, t); break; case 3: body<IDef, false>(j, t); break;
    case 4: { PO::traits_type::rounding g; body<UO, true>(j, t); } break; case 5: { PS::traits_type::rounding g; body<US, true>(j, t); } break; default: { IDef::traits_type::rounding g; body<UD, false>(j, t); }
  }
  t.after = Fp::now(); fesetround(FE_TONEAREST);
}
#ifdef TSAN
static const int REPS = 2;
#else
static const int REPS = 12;
#endif
// threads that wait for work; made again after a fork
struct Pool {
  std::atomic<int> epoch{0}, ready{0}, done{0}; Job job[NT]; Trace out[NT]; std::string diff[NT]; std::thread th[NT]; bool used[NT];
  Pool() { for (int i = 0; i < NT; i++) th[i] = std::thread([this, i] { loop(i); }); for (auto &t : th) t.detach(); }
  void loop(int i) {
    for (int seen = 0;;) {
      for (int spin = 0; epoch.load() == seen; spin++) if (spin > 200) { if (spin > 5000) std::this_thread::sleep_for(std::chrono::microseconds(50)); else std::this_thread::yield(); }
      seen = epoch.load(); ready++; for (int spin = 0; ready.load() < NT; spin++) if (spin > 2000) std::this_thread::yield();   // start together
      out[i] = Trace(); diff[i].clear();
      if (used[i]) for (int r = 0; r < REPS; r++) { Trace t; run_job(job[i], t); if (r == 0) out[i] = t; else if (!(t == out[i])) { diff[i] = "different results in repetitions of the same program"; } }
      done++;
    }
  }
  void go() { ready = 0; done = 0; epoch++; for (int spin = 0; done.load() < NT; spin++) if (spin > 200) std::this_thread::yield(); }
};
static Pool *pool() { static Pool *p = nullptr; static pid_t owner = 0; if (owner != getpid()) { p = new Pool; owner = getpid(); } return p; }
static std::string stepname(const St &q) {
  std::string r = "o" + std::to_string(q.i); const char *sym[] = {" += ", " -= ", " *= ", " /= "}; std::string x = (q.sj ? "s" : "o") + std::to_string(q.j), y = (q.sk ? "s" : "o") + std::to_string(q.k);
  switch (q.kind) { case 1: return r + sym[q.op] + x; case 2: return r + sym[q.op] + str(q.t); case 3: return "compare " + x + " " + y; case 4: return "print " + x; case 5: return "width,norm,median of " + x; case 6: return "guard { " + r + " = " + x + "+" + y + " }"; case 7: return "limits"; }
  r += std::string(" = ") + OT[q.op].n; int u = OT[q.op].use; if (u & X) r += " x=" + x; if (u & Y) r += " y=" + y; if (u & N) r += " t=" + str(q.t); if (u & N2) r += " v=" + str(q.v); if (u & K) r += " k=" + std::to_string(q.e); return r;
}
static void prop(pbt::Src &s, pbt::Ctx &c, int onepol) {
  Gen<T> g(s, c); Pool *P = pool();
  for (int i = 0; i < NOBJ; i++) { shared_iv[i] = g.interval(); g.hash(shared_iv[i]); }
  int nt = 2 + (int)s.below(NT - 1), total = 0; std::string desc = "shared:"; for (auto &x : shared_iv) desc += " " + str(x);
  for (int th = 0; th < NT; th++) {
    Job &j = P->job[th]; j.p.clear(); P->used[th] = th < nt; if (th >= nt) continue;
    j.pol = onepol >= 0 ? onepol : (int)s.below(NPOL); j.mode = (int)s.below(4); for (auto &x : j.in) { x = g.interval(); g.hash(x); }
    int n = 1 + (int)s.below(MAXST); bool tr = j.pol != 3 && j.pol != 6;
    for (int i = 0; i < n; i++) {
      St q; q.kind = s.weighted({8, 2, 1, 1, 1, 1, 1, 1}); q.i = (int)s.below(NOBJ); q.j = (int)s.below(NOBJ); q.k = (int)s.below(NOBJ); q.sj = s.coin(); q.sk = s.coin(); q.t = g.finite(); q.v = g.finite(); q.e = s.range(-6, 8); q.op = (int)s.below(4);
      if (q.kind == 0) { q.op = (int)s.below(tr ? OPS : O_exp); if (q.op == O_root) q.op = O_square; if (q.op == O_widen) q.t = std::fabs(q.t); }
      c.h(q.kind * 31 + q.op * 1009 + q.i + q.j * 3 + q.k * 7 + q.e * 65537); c.label(q.kind ? "kind " + std::to_string(q.kind) : std::string("op:") + OT[q.op].n); j.p.push_back(q); total++;
    }
    c.label(std::string("policy:") + poln[j.pol]); c.label(std::string("mode:") + moden[j.mode]);
    desc += " || thread " + std::to_string(th + 1) + " (" + poln[j.pol] + ", " + moden[j.mode] + ") from"; for (auto &x : j.in) desc += " " + str(x); for (auto &q : j.p) desc += "; " + stepname(q);
  }
  NOTE(c, desc);
  fesetround(FE_TONEAREST); share<PO>(); share<PS>(); share<PX>(); share<IDef>(); share<UO>(); share<US>(); share<UD>();
  std::unique_ptr<Iv<T>[]> before; int r0 = races.load();
  P->go();                                             // together first: also first uses of anything initialised lazily
  PBT_CHECK(c, races.load() == r0, "threads|race", "the threads race on memory of the library");
  for (int i = 0; i < NOBJ; i++) { auto ok = [&](auto *o) { return o[i].lower() == shared_iv[i].l && o[i].upper() == shared_iv[i].u; };
    PBT_CHECK(c, ok(Shared<PO>::o) && ok(Shared<PS>::o) && ok(Shared<PX>::o) && ok(Shared<IDef>::o) && ok(Shared<UO>::o) && ok(Shared<US>::o) && ok(Shared<UD>::o), "threads|shared operand", "a constant operand changed"); }
  for (int th = 0; th < nt; th++) {
    const Job &j = P->job[th]; const Trace &t = P->out[th]; Trace alone; run_job(j, alone); std::string key = std::string("threads|") + poln[j.pol];
    PBT_CHECK(c, P->diff[th].empty(), key + "|repeat", "thread " + std::to_string(th + 1) + ": " + P->diff[th]);
    PBT_CHECK(c, alone.before == alone.after || j.pol == 5, key + "|state", "alone, the program leaves the rounding state " + alone.after.s() + " instead of " + alone.before.s());
    PBT_CHECK(c, t.before == alone.before && t.after == alone.after, key + "|thread state", "thread " + std::to_string(th + 1) + " ends in rounding state " + t.after.s() + ", alone in " + alone.after.s());
    PBT_CHECK(c, t == alone, key + "|value", "thread " + std::to_string(th + 1) + " computes other results than the same program alone");
  }
  c.nontrivial(total > 2);
}
PBT_PROP(mixed, 4) { prop(s, c, -1); }
PBT_PROP(same_opp, 2) { prop(s, c, 0); }
PBT_PROP(same_std, 2) { prop(s, c, 1); }
PBT_PROP(same_default, 2) { prop(s, c, 3); }
PBT_PROP(same_catching, 1) { prop(s, c, 2); }
PBT_PROP(guarded_opp, 1) { prop(s, c, 4); }
PBT_PROP(guarded_std, 1) { prop(s, c, 5); }
