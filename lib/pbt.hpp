// Small property-based testing engine: choice tape, forked workers, shrinking, replay.
// Every random choice is drawn from a tape that is a pure function of (seed, case index);
// a failing tape is minimised and becomes the replay file.
#pragma once
#include <algorithm>
#include <cfenv>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}

enum { TAPE_MAX = 6000, MSG_MAX = 6000 };

struct Shared {                    // one per worker, in shared memory
  volatile uint64_t case_idx;
  volatile uint32_t sub;
  volatile uint32_t len;
  volatile uint32_t status;        // 0 running, 1 ok, 2 fail, 3 discard
  uint64_t tape[TAPE_MAX];
  char key[400];
  char msg[MSG_MAX];
  char desc[MSG_MAX];
};

struct Discard {};
struct TapeFull {};
struct Failure { std::string key, msg; };

class Src {
  const uint64_t *in = nullptr; size_t n_in = 0; bool replay = false;
  const uint8_t *bytes = nullptr; size_t n_bytes = 0, bpos = 0; bool frombytes = false;
  uint64_t state = 0;
  Shared *sh;
 public:
  explicit Src(Shared *s, uint64_t seed) : state(seed), sh(s) { sh->len = 0; }
  Src(Shared *s, const uint64_t *t, size_t n) : in(t), n_in(n), replay(true), sh(s) { sh->len = 0; }
  Src(Shared *s, const uint8_t *b, size_t n) : bytes(b), n_bytes(n), frombytes(true), sh(s) { sh->len = 0; }
  bool has_forced = false; uint64_t forced = 0;
  // uniform in [0,n); n==0 means all 64 bits. 0 is always the simplest choice.
  uint64_t below(uint64_t n) {
    uint64_t v;
    uint32_t p = sh->len;
    if (p >= TAPE_MAX) throw TapeFull();
    if (replay) v = p < n_in ? in[p] : 0;
    else if (frombytes) {
      int k = n == 0 ? 8 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
      v = 0;
      for (int i = 0; i < k; i++) v = (v << 8) | (bpos < n_bytes ? bytes[bpos++] : 0);
    }
    else if (has_forced) { v = forced; has_forced = false; }
    else v = splitmix(state);
    if (n) v %= n;
    sh->tape[p] = v; sh->len = p + 1;
    return v;
  }
  uint64_t bits() { return below(0); }
  bool coin() { return below(2); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // 0 => false
  int range(int lo, int hi) { return lo + (int)below((uint64_t)((int64_t)hi - lo) + 1); }
  template <class V> const V &pick(const std::vector<V> &v) { return v[below(v.size())]; }
  template <class V, size_t N> const V &pick(const V (&v)[N]) { return v[below(N)]; }
  // weighted index
  int weighted(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x;
    int r = (int)below(t), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
  }
};

struct Ctx {
  bool verbose = false; char *live = nullptr; // live: shared memory, survives a crash of the case
  std::string desc;
  std::map<std::string, uint64_t> *labels = nullptr;
  bool nontriv = false; uint64_t hash = 0;
  void label(const std::string &s) { if (labels) ++(*labels)[s]; }
  void label_if(bool b, const char *s) { if (b) label(s); }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void h(uint64_t v) { hash = mix(hash, v); }
  template <class F> void note(F f) { if (verbose) { if (!desc.empty()) desc += "; "; desc += f(); if (live) { size_t k = std::min<size_t>(desc.size(), MSG_MAX - 1); memcpy(live, desc.data(), k); live[k] = 0; } } }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Failure{key, msg}; }
};
#define NOTE(c, expr) (c).note([&]() -> std::string { return (expr); })
// CHECK evaluates msg lazily
#define PBT_CHECK(c, cond, key, msg) do { if (!(cond)) (c).fail((key), (msg)); } while (0)

typedef void (*PropFn)(Src &, Ctx &);
struct Sub { std::string name; unsigned weight; uint64_t enum_count; PropFn fn; };
inline std::vector<Sub> &subs() { static std::vector<Sub> s; return s; }
struct Reg { Reg(const char *n, unsigned w, uint64_t e, PropFn f) { subs().push_back(Sub{n, w, e, f}); } };
// weight: share of the random cases. enum_count: if non-zero the sub-property enumerates its first choice.
#define PBT_PROP(name, weight) static void name(pbt::Src &, pbt::Ctx &); \
  static pbt::Reg reg_##name(#name, weight, 0, name); static void name(pbt::Src &s, pbt::Ctx &c)
#define PBT_ENUM(name, count) static void name(pbt::Src &, pbt::Ctx &); \
  static pbt::Reg reg_##name(#name, 0, count, name); static void name(pbt::Src &s, pbt::Ctx &c)
#define PBT_REG(name, weight, fn) static pbt::Reg PBT_CAT(regx_, __LINE__)(name, weight, 0, fn)
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

inline void (*&reset_hook())() { static void (*h)() = nullptr; return h; }

enum Status { OK = 1, FAIL = 2, DISCARD = 3 };

inline void copy_str(char *d, size_t n, const std::string &s) {
  size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0;
}

// runs one case in this process
inline Status run_one(Shared *sh, Src &s, Ctx &c, unsigned sub) {
  sh->sub = sub; sh->status = 0; sh->key[0] = 0; sh->msg[0] = 0;
  fesetround(FE_TONEAREST);
  if (reset_hook()) reset_hook()();
  Status st = OK;
  std::string k, m;
  try { subs()[sub].fn(s, c); }
  catch (Failure &f) { st = FAIL; k = f.key; m = f.msg; }
  catch (Discard &) { st = DISCARD; }
  catch (TapeFull &) { st = DISCARD; }
  catch (std::exception &e) { st = FAIL; k = std::string("exception|") + subs()[sub].name; m = std::string("unexpected exception escaped: ") + typeid(e).name() + ": " + e.what(); }
  catch (...) { st = FAIL; k = std::string("exception|") + subs()[sub].name; m = "unexpected exception escaped (not std::exception)"; }
  fesetround(FE_TONEAREST);
  if (reset_hook()) reset_hook()();
  copy_str(sh->key, sizeof sh->key, k); copy_str(sh->msg, sizeof sh->msg, m);
  sh->status = st;
  return st;
}

struct Rec { std::string key, msg, desc; unsigned sub; std::vector<uint64_t> tape; uint64_t idx; bool crash = false; int replays = 0; std::vector<std::pair<unsigned, std::vector<uint64_t>>> before; };

inline std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

struct Config {
  uint64_t cases = 1000, seed = 1; int jobs = 1; std::string out, variant, workdir = "."; std::set<std::string> known;
  unsigned cpu_limit = 20; std::string only; int samples = 6;
};

inline void set_cpu_timer(unsigned sec) {
  alarm(sec ? 40 + sec : 0);   // a case that sleeps for ever ends too; that is no verdict (see run_tape)
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

inline Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared *)p;
}

// cases that run, in this order, before the tape in the same process (a failure may need the state that earlier cases left)
struct Before { unsigned sub; std::vector<uint64_t> tape; };
inline std::vector<Before> &before() { static std::vector<Before> b; return b; }

// run a tape in a child; returns status, key in sh
struct ChildResult { Status st; std::string key, msg, desc; std::vector<uint64_t> tape; };
inline ChildResult run_tape(Shared *sh, unsigned sub, const std::vector<uint64_t> &tape, bool verbose, unsigned cpu, bool quiet = true) {
  sh->desc[0] = 0;
  sh->status = 0; sh->len = 0; sh->key[0] = 0; sh->msg[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    if (quiet) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (!before().empty()) set_cpu_timer(cpu * 3);
    for (auto &b : before()) { Src s(sh, b.tape.data(), b.tape.size()); Ctx c; run_one(sh, s, c, b.sub); }
    set_cpu_timer(cpu);
    Src s(sh, tape.data(), tape.size()); Ctx c; c.verbose = verbose; c.live = sh->desc;
    run_one(sh, s, c, sub);
    _exit(0);
  }
  int wst = 0; waitpid(p, &wst, 0);
  ChildResult r; r.desc = sh->desc; r.tape.assign(sh->tape, sh->tape + sh->len);
  if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGALRM) { r.st = DISCARD; return r; }
  if (WIFSIGNALED(wst) || (WIFEXITED(wst) && WEXITSTATUS(wst) != 0)) {
    r.st = FAIL;
    if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGVTALRM) { r.key = "hang|" + subs()[sub].name; r.msg = "call did not terminate within the CPU limit"; }
    else { r.key = "crash|" + subs()[sub].name; char b[160]; snprintf(b, 160, "process terminated abnormally (%s %d): crash, failed assertion or sanitizer report", WIFSIGNALED(wst) ? "signal" : "exit", WIFSIGNALED(wst) ? WTERMSIG(wst) : WEXITSTATUS(wst)); r.msg = b; }
  } else { r.st = (Status)(uint32_t)sh->status; r.key = sh->key; r.msg = sh->msg; }
  return r;
}

inline void shrink(Shared *sh, Rec &rec, unsigned cpu, Before *which = nullptr, int seconds = 40) {   // which: the earlier case to minimise
  int budget = rec.key.compare(0, 5, "hang|") == 0 ? 12 : 1200;
  std::vector<uint64_t> best = which ? which->tape : rec.tape;
  const time_t t0 = time(nullptr);
  auto attempt = [&](const std::vector<uint64_t> &t) {
    if (budget <= 0) return false;
    --budget; if (time(nullptr) - t0 > seconds) budget = 0;   // a minimal tape is a convenience: bounded time
    if (which) {
      std::vector<uint64_t> old = which->tape; which->tape = t;
      ChildResult r = run_tape(sh, rec.sub, rec.tape, false, cpu);
      if (r.st == FAIL && r.key == rec.key) { best = t; return true; }
      which->tape = old; return false;
    }
    ChildResult r = run_tape(sh, rec.sub, t, false, cpu);
    if (r.st == FAIL && r.key == rec.key) {
      std::vector<uint64_t> nt = r.tape;   // normalised (unused suffix dropped)
      if (nt.size() < t.size() || nt <= t) best = nt; else best = t;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    // delete chunks
    for (size_t len : {32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i-- > 0 && budget > 0;) {
        if (i + len > best.size()) continue;
        std::vector<uint64_t> t = best; t.erase(t.begin() + i, t.begin() + i + len);
        if (attempt(t)) { progress = true; if (i > best.size()) i = best.size(); }
      }
    }
    // zero chunks
    for (size_t len : {8, 4, 2, 1})
      for (size_t i = 0; i + len <= best.size() && budget > 0; i += len) {
        bool nz = false; for (size_t j = i; j < i + len; j++) nz |= best[j] != 0;
        if (!nz) continue;
        std::vector<uint64_t> t = best; std::fill(t.begin() + i, t.begin() + i + len, 0);
        if (attempt(t)) progress = true;
      }
    // minimise single values
    for (size_t i = 0; i < best.size() && budget > 0; i++) {
      uint64_t v = best[i]; if (v == 0) continue;
      if (v > 1024) { // prefer few set bits at the top
        for (int b = 1; b < 64 && budget > 0; b += 7) {
          uint64_t m = v & ~((1ull << b) - 1);
          if (m == best[i]) continue;
          std::vector<uint64_t> t = best; t[i] = m;
          if (attempt(t)) progress = true; else break;
          if (i >= best.size()) break;
        }
        if (i >= best.size()) break;
        v = best[i];
      }
      uint64_t lo = 0, hi = v; int steps = 0;
      while (lo < hi && budget > 0 && steps++ < 16 && i < best.size()) {
        uint64_t m = lo + (hi - lo) / 2;
        std::vector<uint64_t> t = best; t[i] = m;
        if (attempt(t)) { hi = m; progress = true; } else lo = m + 1;
      }
    }
  }
  if (!which) rec.tape = best;
}
// drop earlier cases that the failure does not need
inline void shrink_before(Shared *sh, const Rec &rec, unsigned cpu, int seconds) {
  const time_t t0 = time(nullptr); auto &b = before();
  for (size_t len = std::max<size_t>(1, b.size() / 2);; len /= 2) {
    for (size_t i = 0; i < b.size() && time(nullptr) - t0 < seconds;) {
      std::vector<Before> old = b; b.erase(b.begin() + i, b.begin() + std::min(b.size(), i + len));
      ChildResult r = run_tape(sh, rec.sub, rec.tape, false, cpu);
      if (!(r.st == FAIL && r.key == rec.key)) { b = old; i += len; }
    }
    if (len <= 1) break;
  }
}

inline bool load_tape(const std::string &path, unsigned &sub, std::vector<uint64_t> &tape) {
  std::ifstream f(path); if (!f) return false;
  std::string line, name;
  while (std::getline(f, line)) {
    if (line.compare(0, 4, "sub=") == 0) name = line.substr(4);
    if (line.compare(0, 7, "before=") == 0) { std::istringstream is(line.substr(7)); std::string n; is >> n; Before b; uint64_t v; while (is >> v) b.tape.push_back(v); for (b.sub = 0; b.sub < subs().size() && subs()[b.sub].name != n;) b.sub++; if (b.sub == subs().size()) return false; before().push_back(b); }
    if (line.compare(0, 5, "tape=") == 0) { std::istringstream is(line.substr(5)); uint64_t v; while (is >> v) tape.push_back(v); }
  }
  for (unsigned i = 0; i < subs().size(); i++) if (subs()[i].name == name) { sub = i; return true; }
  return false;
}

inline int main_impl(int argc, char **argv) {
  Config cfg; std::string replay, frombytes;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--cases") cfg.cases = strtoull(nx().c_str(), 0, 10);
    else if (a == "--seed") cfg.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--jobs") cfg.jobs = atoi(nx().c_str());
    else if (a == "--out") cfg.out = nx();
    else if (a == "--variant") cfg.variant = nx();
    else if (a == "--workdir") cfg.workdir = nx();
    else if (a == "--known") cfg.known.insert(nx());
    else if (a == "--cpu") cfg.cpu_limit = atoi(nx().c_str());
    else if (a == "--only") cfg.only = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--from-bytes") frombytes = nx();   // a fuzzer artifact: turn it into a tape, confirm, shrink, report
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  std::sort(subs().begin(), subs().end(), [](const Sub &x, const Sub &y) { return x.name < y.name; });
  Shared *sh0 = new_shared();
  if (!replay.empty()) {
    unsigned sub = 0; std::vector<uint64_t> tape;
    if (!load_tape(replay, sub, tape)) { fprintf(stderr, "cannot load %s\n", replay.c_str()); return 3; }
    ChildResult r = run_tape(sh0, sub, tape, true, cfg.cpu_limit, false);
    printf("sub=%s\nstatus=%s\ncase: %s\nkey: %s\n%s\n", subs()[sub].name.c_str(), r.st == FAIL ? "FAIL" : r.st == OK ? "OK" : "DISCARD", r.desc.c_str(), r.key.c_str(), r.msg.c_str());
    return r.st == FAIL ? 1 : 0;
  }
  // schedule: enumerated subs first, then random ones by weight
  struct Slot { unsigned sub; uint64_t begin, count; };
  std::vector<Slot> sched; uint64_t total = 0, wsum = 0;
  for (auto &s : subs()) if (cfg.only.empty() || s.name.find(cfg.only) != std::string::npos) wsum += s.enum_count ? 0 : s.weight;
  for (unsigned i = 0; i < subs().size(); i++) {
    auto &s = subs()[i];
    if (!cfg.only.empty() && s.name.find(cfg.only) == std::string::npos) continue;
    uint64_t n = s.enum_count ? s.enum_count : wsum ? std::max<uint64_t>(1, cfg.cases * s.weight / wsum) : 0;
    sched.push_back(Slot{i, total, n}); total += n;
  }
  auto locate = [&](uint64_t idx, uint64_t &off) -> unsigned {
    size_t lo = 0, hi = sched.size() - 1;
    while (lo < hi) { size_t m = (lo + hi + 1) / 2; if (sched[m].begin <= idx) lo = m; else hi = m - 1; }
    off = idx - sched[lo].begin; return sched[lo].sub;
  };
  auto mkseed = [&](unsigned sub, uint64_t off) {
    uint64_t x = cfg.seed * 0x2545F4914F6CDD1Dull + 0x1234567; for (char ch : subs()[sub].name) x = mix(x, (unsigned char)ch);
    for (char ch : cfg.variant) x = mix(x, (unsigned char)ch);
    return mix(x, off);
  };
  std::vector<Rec> fails;
  if (!frombytes.empty()) {
    std::ifstream f(frombytes, std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (d.size() < 2) { fprintf(stderr, "empty artifact\n"); return 3; }
    sched.clear(); cfg.jobs = 0; total = 0;
    Rec r; r.sub = (unsigned char)d[0] % subs().size(); r.idx = 0;
    sh0->status = 0; sh0->len = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); set_cpu_timer(cfg.cpu_limit);
      Src s(sh0, (const uint8_t *)d.data() + 1, d.size() - 1); Ctx c; run_one(sh0, s, c, r.sub); _exit(0);
    }
    int wst = 0; waitpid(p, &wst, 0);
    r.tape.assign(sh0->tape, sh0->tape + sh0->len);
    ChildResult cr = run_tape(sh0, r.sub, r.tape, false, cfg.cpu_limit);
    if (cr.st == FAIL && !cfg.known.count(cr.key)) { r.key = cr.key; r.msg = cr.msg; fails.push_back(r); }
  }
  int J = cfg.jobs; std::vector<Shared *> shs(J);
  std::vector<pid_t> pids(J, 0); std::vector<uint64_t> next(J);
  std::vector<int> restarts(J, 0), seq(J, 0);
  std::vector<std::string> statfiles;
  std::string base = cfg.workdir + "/" + cfg.variant + "." + std::to_string(getpid());
  // worker body: writes stats to a file: labels, counts, hashes, failures
  auto worker = [&](int w, uint64_t start, const std::string &file) {
    Shared *sh = shs[w];
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    std::map<std::string, uint64_t> labels; uint64_t evals = 0, disc = 0, knownhits = 0, nfail = 0; std::vector<uint64_t> hashes; std::map<std::string, Rec> recs; std::map<std::string, uint64_t> khits;
    std::vector<uint64_t> sampleidx;
    unsigned unknown_keys = 0; uint64_t unknown = 0;
    bool first = true;
    auto flush = [&](uint64_t nxt) {
      FILE *f = fopen(file.c_str(), "wb"); if (!f) _exit(4);
      fprintf(f, "evals %" PRIu64 "\ndisc %" PRIu64 "\nnext %" PRIu64 "\n", evals, disc, nxt);
      for (auto &l : labels) fprintf(f, "label %" PRIu64 " %s\n", l.second, l.first.c_str());
      for (auto &l : khits) fprintf(f, "known %" PRIu64 " %s\n", l.second, l.first.c_str());
      for (auto i : sampleidx) fprintf(f, "sample %" PRIu64 "\n", i);
      std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
      for (auto &r : recs) { fprintf(f, "fail %u %" PRIu64 " %zu", r.second.sub, r.second.idx, r.second.tape.size()); for (auto v : r.second.tape) fprintf(f, " %" PRIu64, v); fprintf(f, "\nkey %s\n", r.first.c_str()); std::string m = r.second.msg; std::replace(m.begin(), m.end(), '\n', ' '); fprintf(f, "msg %s\n", m.c_str()); }
      fprintf(f, "hashes %zu\n", hashes.size());
      if (!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), f);
      fclose(f);
    };
    (void)knownhits; (void)nfail;
    for (uint64_t idx = start; idx < total; idx += J) {
      uint64_t off; unsigned sub = locate(idx, off);
      sh->case_idx = idx;
      if (first || (idx / J) % 64 == 0) { set_cpu_timer(cfg.cpu_limit * 2); first = false; }
      Src s(sh, mkseed(sub, off)); Ctx c; c.labels = &labels;
      if (subs()[sub].enum_count) { s.has_forced = true; s.forced = off; }
      // persist progress now and then so that a crash loses little
      Status st = run_one(sh, s, c, sub);
      evals++;
      if (st == DISCARD) { disc++; }
      else if (st == FAIL) {
        std::string k = sh->key;
        if (cfg.known.count(k)) { khits[k]++; }
        else {
          unknown++;
          if (!recs.count(k)) { Rec r; r.key = k; r.msg = sh->msg; r.sub = sub; r.idx = idx; r.tape.assign(sh->tape, sh->tape + sh->len); recs[k] = r; unknown_keys++; }
          if (unknown_keys >= 6 || unknown >= 200) { flush(total); _exit(0); }
        }
      }
      if (c.nontriv && st == OK) {
        if (hashes.size() < 6000000) hashes.push_back(mix(c.hash, sub));
        if (sampleidx.size() < 3 && (evals % 7) == 3) sampleidx.push_back(idx);
        if (hashes.size() == 6000000) { std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end()); }
      }
      sh->status = 1;
      if ((idx / J) % 65536 == 65535) flush(idx + J);
    }
    set_cpu_timer(0);
    flush(total);
    _exit(0);
  };
  auto spawn = [&](int w, uint64_t start) {
    std::string file = base + ".w" + std::to_string(w) + "." + std::to_string(seq[w]++);
    statfiles.push_back(file);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) worker(w, start, file);
    pids[w] = p;
  };
  for (int w = 0; w < J; w++) { shs[w] = new_shared(); spawn(w, w); }
  int alive = J; int crashes = 0; uint64_t lost_evals = 0;
  std::map<std::string, uint64_t> known_hits;
  while (alive > 0) {
    int wst; pid_t p = wait(&wst); if (p < 0) break;
    int w = -1; for (int i = 0; i < J; i++) if (pids[i] == p) w = i;
    if (w < 0) continue;
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0) { alive--; continue; }
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 4) { fprintf(stderr, "cannot write stats\n"); return 3; }
    // crash or hang in a case
    Shared *sh = shs[w]; crashes++;
    uint64_t idx = sh->case_idx; Rec r; r.sub = sh->sub; r.idx = idx; r.tape.assign(sh->tape, sh->tape + sh->len); r.crash = true;
    ChildResult cr = run_tape(sh0, r.sub, r.tape, false, cfg.cpu_limit);
    if (cr.st == FAIL) {
      r.key = cr.key; r.msg = cr.msg;
      if (cfg.known.count(r.key)) known_hits[r.key]++;
      else { bool dup = false; for (auto &f : fails) dup |= f.key == r.key; if (!dup) fails.push_back(r); }
    } else if (cr.st != DISCARD) { r.key = "crash?"; r.msg = "abnormal end of the campaign"; bool dup = false; for (auto &f : fails) dup |= f.key == r.key; if (!dup) fails.push_back(r); }
    else fprintf(stderr, "note: abnormal worker end at case %" PRIu64 " did not reproduce from its tape (wait status %d)\n", idx, wst);
    if (++restarts[w] > 3) { alive--; continue; }
    spawn(w, idx + J);
  }
  // merge
  uint64_t evals = 0, disc = 0; std::map<std::string, uint64_t> labels; std::vector<uint64_t> hashes, sampleidx;
  for (auto &file : statfiles) {
    FILE *f = fopen(file.c_str(), "rb"); if (!f) { continue; }
    static char line[200000]; Rec cur; bool have = false;
    while (fgets(line, sizeof line, f)) {
      size_t L = strlen(line); if (L && line[L - 1] == '\n') line[--L] = 0;
      uint64_t v; char rest[100000];
      if (sscanf(line, "evals %" SCNu64, &v) == 1) evals += v;
      else if (sscanf(line, "disc %" SCNu64, &v) == 1) disc += v;
      else if (sscanf(line, "label %" SCNu64 " %99999[^\n]", &v, rest) == 2) labels[rest] += v;
      else if (sscanf(line, "known %" SCNu64 " %99999[^\n]", &v, rest) == 2) known_hits[rest] += v;
      else if (sscanf(line, "sample %" SCNu64, &v) == 1) sampleidx.push_back(v);
      else if (strncmp(line, "fail ", 5) == 0) { cur = Rec(); have = true; std::istringstream is(line + 5); size_t n; is >> cur.sub >> cur.idx >> n; cur.tape.resize(n); for (auto &x : cur.tape) is >> x; }
      else if (strncmp(line, "key ", 4) == 0 && have) cur.key = line + 4;
      else if (strncmp(line, "msg ", 4) == 0 && have) { cur.msg = line + 4; bool dup = false; for (auto &g : fails) if (g.key == cur.key) { dup = true; if (cur.idx < g.idx) g = cur; } if (!dup) fails.push_back(cur); have = false; }
      else if (sscanf(line, "hashes %" SCNu64, &v) == 1) { size_t o = hashes.size(); hashes.resize(o + v); if (v && fread(&hashes[o], 8, v, f) != v) hashes.resize(o); break; }
    }
    fclose(f); unlink(file.c_str());
  }
  (void)lost_evals;
  std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  std::sort(fails.begin(), fails.end(), [](const Rec &a, const Rec &b) { return a.idx < b.idx; });
  // shrink and confirm
  // a failure that its own tape does not reproduce may depend on the cases its worker ran before it: replay more and more of them
  auto with_history = [&](Rec &r) -> bool {
    if (!J) return false;
    const time_t t0 = time(nullptr); std::string file = base + ".hist";
    for (uint64_t h = 1; h <= 16384 && time(nullptr) - t0 < 60; h *= 4) {
      uint64_t avail = r.idx / J, n = std::min(h, avail);
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); set_cpu_timer(cfg.cpu_limit * 3);
        FILE *f = fopen(file.c_str(), "wb"); if (!f) _exit(0);
        for (uint64_t k = n + 1; k-- > 0;) {
          uint64_t off; unsigned sub = locate(r.idx - k * J, off); Src s(sh0, mkseed(sub, off)); Ctx c; if (subs()[sub].enum_count) { s.has_forced = true; s.forced = off; }
          if (!k) { fclose(f); f = nullptr; }
          run_one(sh0, s, c, sub);
          if (k) { fprintf(f, "%u %u", sub, (unsigned)sh0->len); for (unsigned i = 0; i < (unsigned)sh0->len; i++) fprintf(f, " %" PRIu64, (uint64_t)sh0->tape[i]); fprintf(f, "\n"); }
        }
        _exit(0);
      }
      int wst; waitpid(p, &wst, 0);
      before().clear(); { std::ifstream f(file); unsigned sub; size_t len; while (f >> sub >> len) { Before b; b.sub = sub; b.tape.resize(len); for (auto &v : b.tape) f >> v; before().push_back(b); } }
      unlink(file.c_str());
      ChildResult cr = run_tape(sh0, r.sub, r.tape, false, cfg.cpu_limit);
      if (cr.st == FAIL && (cr.key == r.key || r.crash) && !cfg.known.count(cr.key)) { r.key = cr.key; r.msg = cr.msg; return true; }
      if (h >= avail) break;
    }
    return false;
  };
  std::vector<Rec> confirmed; int unrepro = 0;
  for (auto &r : fails) {
    if (confirmed.size() >= 3) break;
    ChildResult c0 = run_tape(sh0, r.sub, r.tape, false, cfg.cpu_limit);
    before().clear();
    if (c0.st != FAIL || c0.key != r.key) {
      bool found = frombytes.empty() && with_history(r);
      if (!found) { before().clear(); unrepro++; fprintf(stderr, "note: failure %s not reproducible from tape\n", r.key.c_str()); continue; }
      shrink_before(sh0, r, cfg.cpu_limit, 40);
    }
    shrink(sh0, r, cfg.cpu_limit);
    if (before().size() <= 6) for (auto &b : before()) shrink(sh0, r, cfg.cpu_limit, &b, 10);
    for (auto &b : before()) r.before.push_back({b.sub, b.tape});
    int ok = 0; ChildResult cr;
    for (int i = 0; i < 3; i++) { cr = run_tape(sh0, r.sub, r.tape, true, cfg.cpu_limit); if (cr.st == FAIL && cr.key == r.key) ok++; }
    r.replays = ok; r.msg = cr.msg.empty() ? r.msg : cr.msg; r.desc = cr.desc;
    if (ok == 3) confirmed.push_back(r); else { unrepro++; }
  }
  // samples
  std::sort(sampleidx.begin(), sampleidx.end());
  std::vector<std::string> samples; std::map<unsigned, int> persub;
  { uint64_t x = cfg.seed; for (size_t i = sampleidx.size(); i > 1; i--) std::swap(sampleidx[i - 1], sampleidx[splitmix(x) % i]); }
  // make sure that several sub-properties are represented: also try first cases of each
  std::vector<uint64_t> tries; for (auto &sl : sched) for (uint64_t k = 11; k < 16 && k < sl.count; k++) tries.push_back(sl.begin + k);
  { uint64_t x = cfg.seed + 5; for (size_t i = tries.size(); i > 1; i--) std::swap(tries[i - 1], tries[splitmix(x) % i]); }
  sampleidx.insert(sampleidx.begin() + std::min<size_t>(3, sampleidx.size()), tries.begin(), tries.end());
  for (uint64_t idx : sampleidx) {
    if ((int)samples.size() >= cfg.samples) break;
    uint64_t off; unsigned sub = locate(idx, off);
    if (persub[sub] >= 2) continue;
    // regenerate the tape
    int fd[2]; if (pipe(fd)) break;
    fflush(stdout); pid_t p = fork();
    if (p == 0) {
      close(fd[0]); set_cpu_timer(cfg.cpu_limit);
      Src s(sh0, mkseed(sub, off)); if (subs()[sub].enum_count) { s.has_forced = true; s.forced = off; }
      Ctx c; c.verbose = true; Status st = run_one(sh0, s, c, sub);
      std::string d = (st == OK && c.nontriv ? "" : "!") + c.desc; ssize_t r = write(fd[1], d.data(), d.size()); (void)r; _exit(0);
    }
    close(fd[1]); std::string d; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) d.append(buf, k);
    close(fd[0]); int ws; waitpid(p, &ws, 0);
    if (d.empty() || d[0] == '!') continue;
    if (d.size() > 600) d = d.substr(0, 600) + "...";
    samples.push_back(cfg.variant + "/" + subs()[sub].name + ": " + d); persub[sub]++;
  }
  // output
  std::ostringstream o;
  o << "{\"variant\":" << json_str(cfg.variant) << ",\"total\":" << total << ",\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << hashes.size() << ",\"crashes\":" << crashes << ",\"unreproducible\":" << unrepro;
  o << ",\"labels\":{"; bool f1 = true; for (auto &l : labels) { o << (f1 ? "" : ",") << json_str(l.first) << ":" << l.second; f1 = false; }
  o << "},\"known_hits\":{"; f1 = true; for (auto &l : known_hits) { o << (f1 ? "" : ",") << json_str(l.first) << ":" << l.second; f1 = false; }
  o << "},\"subs\":{"; f1 = true; for (auto &sl : sched) { o << (f1 ? "" : ",") << json_str(subs()[sl.sub].name) << ":" << sl.count; f1 = false; }
  o << "},\"samples\":["; f1 = true; for (auto &s : samples) { o << (f1 ? "" : ",") << json_str(s); f1 = false; }
  o << "],\"failures\":["; f1 = true;
  for (auto &r : confirmed) {
    o << (f1 ? "" : ",") << "{\"key\":" << json_str(r.key) << ",\"sub\":" << json_str(subs()[r.sub].name) << ",\"msg\":" << json_str(r.msg) << ",\"desc\":" << json_str(r.desc) << ",\"tape\":[";
    for (size_t i = 0; i < r.tape.size(); i++) o << (i ? "," : "") << r.tape[i]; // consumers must read as 64-bit ints
    o << "],\"before\":["; for (size_t k = 0; k < r.before.size(); k++) { o << (k ? "," : "") << "{\"sub\":" << json_str(subs()[r.before[k].first].name) << ",\"tape\":["; for (size_t i = 0; i < r.before[k].second.size(); i++) o << (i ? "," : "") << r.before[k].second[i]; o << "]}"; }
    o << "]}"; f1 = false;
  }
  o << "]}\n";
  if (cfg.out.empty()) fputs(o.str().c_str(), stdout);
  else { FILE *f = fopen(cfg.out.c_str(), "wb"); if (!f) return 3; fputs(o.str().c_str(), f); fclose(f); }
  return confirmed.empty() ? 0 : 1;
}

} // namespace pbt

#ifndef PBT_LIBFUZZER
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
#else
// libFuzzer entry: the first byte selects the sub-property, the rest feed the choice tape.
// A failure writes its tape to $PBT_FUZZ_OUT and aborts; check.py shrinks and confirms it with the plain binary.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static pbt::Shared *sh = pbt::new_shared();
  static bool sorted = false;
  if (!sorted) { std::sort(pbt::subs().begin(), pbt::subs().end(), [](const pbt::Sub &x, const pbt::Sub &y) { return x.name < y.name; }); sorted = true; }
  static std::set<std::string> known;
  static bool k0 = false;
  if (!k0) { k0 = true; if (const char *e = getenv("PBT_KNOWN")) { std::istringstream is(e); std::string l; while (std::getline(is, l)) known.insert(l); } }
  if (size < 2) return 0;
  unsigned sub = data[0] % pbt::subs().size();
  pbt::Src s(sh, data + 1, size - 1); pbt::Ctx c;
  pbt::Status st = pbt::run_one(sh, s, c, sub);
  if (st == pbt::FAIL && !known.count(sh->key)) {
    const char *out = getenv("PBT_FUZZ_OUT");
    if (out) { FILE *f = fopen(out, "w"); if (f) { fprintf(f, "sub=%s\ntape=", pbt::subs()[sub].name.c_str()); for (unsigned i = 0; i < sh->len; i++) fprintf(f, "%" PRIu64 " ", sh->tape[i]); fprintf(f, "\nkey=%s\n", sh->key); fclose(f); } }
    fprintf(stderr, "PBT FAILURE %s: %s\n", sh->key, sh->msg);
    abort();
  }
  return 0;
}
#endif
