"""C30: generated programs of several translation units over generated header sets (see DESIGN.md).

A program is a list of translation units; each has macros, user names, a list of headers in some order and a list of
snippets (uses of the library with their operands), each run at a moment (static initialisation, main, exit, a function
called from another unit).  The same snippets are compiled once in a reference program: one unit, all headers, run in main.
Property: the generated program compiles, links, and every snippet prints what it prints in the reference program."""
import concurrent.futures, json, os, random, re, shutil, subprocess, time
N = "boost/numeric/"
BASE = ["interval/interval.hpp", "interval/policies.hpp", "interval/hw_rounding.hpp", "interval/checking.hpp"]
EXTRA = ["interval.hpp", "interval/arith.hpp", "interval/arith2.hpp", "interval/arith3.hpp", "interval/checking.hpp", "interval/compare.hpp", "interval/compare/certain.hpp",
         "interval/compare/explicit.hpp", "interval/compare/lexicographic.hpp", "interval/compare/possible.hpp", "interval/compare/set.hpp", "interval/compare/tribool.hpp",
         "interval/constants.hpp", "interval/ext/integer.hpp", "interval/hw_rounding.hpp", "interval/interval.hpp", "interval/io.hpp", "interval/limits.hpp", "interval/policies.hpp",
         "interval/rounded_arith.hpp", "interval/rounded_transc.hpp", "interval/rounding.hpp", "interval/transc.hpp", "interval/utility.hpp", "interval/utility_fwd.hpp"]
STD = ["<vector>", "<algorithm>", "<cmath>", "<math.h>", "<limits>", "<iostream>", "<string>", "<utility>", "<cstdlib>", "<stdexcept>", "<complex>", "<functional>", "<map>", "<fenv.h>"]
# global names a user may have: a variable, a function or a type of the name
NAMES = ["lower", "upper", "width", "median", "norm", "hull", "intersect", "overlap", "subset", "proper_subset", "zero_in", "in_zero", "in", "empty", "singleton", "equal", "bisect", "widen",
         "square", "nth_root", "interval", "policies", "checking", "rounding", "unprotect", "detail", "constants", "add", "sub", "mul", "whole", "checked_lower", "boost_interval", "rnd", "T", "l", "u", "x", "y"]
A, A2, A3, U, TR = "interval/arith.hpp", "interval/arith2.hpp", "interval/arith3.hpp", "interval/utility.hpp", "interval/transc.hpp"
# snippet: headers its documentation names, statements over interval type I, base type T, operands x, y (0 < y), numbers s, t (0 < t); P(i), Q(bool), R(number) print
# e: exact whatever the compiler does to the order of operations; p: needs empties; m: prints decimal text
S = {
 "add": ([A], "P(x + y); P(x + t); P(t + x); I z(x); z += y; P(z); z += t; P(z);", ""),
 "sub": ([A], "P(x - y); P(x - t); P(t - x); I z(x); z -= y; P(z); z -= t; P(z);", ""),
 "mul": ([A], "P(x * y); P(x * s); P(s * x); I z(x); z *= y; P(z); z *= s; P(z);", ""),
 "div": ([A], "P(x / y); P(x / t); P(s / y); I z(x); z /= y; P(z); z /= t; P(z);", ""),
 "div_zero": ([A], "P(x / I(T(0), t)); P(s / I(-t, T(0))); P(x / I(-t, t));", ""),
 "neg": ([A], "P(-x); P(+x);", "e"),
 "square": ([A2], "P(square(x));", ""),
 "sqrt": ([A2], "P(sqrt(y));", ""),
 "pow": ([A2], "P(pow(x, 3)); P(pow(x, 2)); P(pow(y, -3));", ""),
 "root": ([A2], "P(nth_root(y, 2)); P(nth_root(x, 1));", ""),
 "fmod": ([A2], "P(fmod(x, y)); P(fmod(x, t)); P(fmod(t, y));", ""),
 "inverse": ([A2], "P(il::multiplicative_inverse(y)); P(il::multiplicative_inverse(I(T(0), t)));", ""),
 "parts": ([A2], "bool b; P(il::division_part1(x, I(-t, t), b)); Q(b); P(il::division_part1(y, I(-t, t), b)); Q(b); P(il::division_part2(y, I(-t, t), b));", ""),
 "numbers": ([A3], "P(il::add<I>(s, t)); P(il::sub<I>(s, t)); P(il::mul<I>(s, t)); P(il::div<I>(s, t));", ""),
 "access": ([U], "R(lower(x)); R(upper(x)); R(checked_lower(x)); R(checked_upper(x)); R(x.lower()); R(x.upper());", "e"),
 "measure": ([U], "R(width(x)); R(median(x)); R(norm(x));", ""),
 "widen": ([U], "P(widen(x, t));", ""),
 "bisect": ([U], "std::pair<I, I> r = bisect(x); P(r.first); P(r.second);", ""),
 "abs": ([U], "P(abs(x));", "e"),
 "minmax": ([U], "P((bn::max)(x, y)); P((bn::min)(x, y)); P((bn::max)(x, s)); P((bn::min)(s, y));", "e"),
 "sets": ([U], "Q(in(s, x)); Q(in(t, y)); Q(zero_in(x)); Q(subset(x, y)); Q(proper_subset(x, x)); Q(overlap(x, y)); Q(empty(x)); Q(singleton(x)); Q(equal(x, x));", "e"),
 "hull": ([U], "P(hull(x, y)); P(hull(x, s)); P(hull(s, x)); P(I::hull(s, t));", "e"),
 "intersect": ([U], "P(intersect(hull(x, y), x));", "e"),
 "intersect_empty": ([U], "I z = intersect(I(T(1), T(2)), I(T(3), T(4))); Q(empty(z)); Q(empty(I::empty())); R(width(z));", "ep"),
 "build": ([], "I z; P(z); z = x; P(z); z = s; P(z); z.assign(s, s); P(z); P(I(s)); P(I::whole()); z.set_whole(); P(z); I w(y); P(w);", "e"),
 "build_int": ([], "P(I(7)); P(I(-3, 5)); I z; z = 12; P(z);", "e"),
 "convert": ([], "bn::interval<float> f(0.5f, 0.75f); bn::interval<double> d(f); bn::interval<float> g(bn::interval<double>(0.1, 0.2)); PP(d); PP(g);", ""),
 "op_default": ([], "Q(I(T(1), T(2)) < I(T(3), T(4))); Q(I(T(1), T(2)) >= T(3)); Q(I(s) == s); Q(I(s) != s); try { Q(I(T(1), T(3)) < T(2)); } catch (il::comparison_error &) { Q(true); }", "eC"),
 "certain": (["interval/compare/certain.hpp"], "using namespace il::compare::certain; Q(x < y); Q(x <= y); Q(x > s); Q(x >= t); Q(x == y); Q(y != x);", "e"),
 "possible": (["interval/compare/possible.hpp"], "using namespace il::compare::possible; Q(x < y); Q(x <= y); Q(x > s); Q(x >= t); Q(x == y); Q(y != x);", "e"),
 "lexicographic": (["interval/compare/lexicographic.hpp"], "using namespace il::compare::lexicographic; Q(x < y); Q(x <= y); Q(x > s); Q(x >= t); Q(x == y); Q(y != x);", "e"),
 "set": (["interval/compare/set.hpp"], "using namespace il::compare::set; Q(x < y); Q(x <= y); Q(x > y); Q(x >= y); Q(x == y); Q(y != x);", "e"),
 "tribool": (["interval/compare/tribool.hpp"], "using namespace il::compare::tribool; boost::logic::tribool b = x < y; Q(bool(b)); Q(indeterminate(b)); b = x == s; Q(indeterminate(b));", "e"),
 "explicit": (["interval/compare/explicit.hpp"], "Q(il::cerlt(x, y)); Q(il::cergt(x, s)); Q(il::cereq(x, x)); Q(il::poslt(x, y)); Q(il::posge(s, x)); Q(il::posne(x, y)); Q(il::cerle(x, t)); Q(il::posgt(t, y));", "e"),
 "io": (["interval/io.hpp"], "std::ostringstream o; o << x << ' ' << y; std::printf(\" %s\", o.str().c_str());", "em"),
 "limits": (["interval/limits.hpp"], "typedef std::numeric_limits<I> L; P((L::max)()); P((L::min)()); P(L::infinity()); P(L::epsilon()); Q(L::is_specialized); std::printf(\" %d %d\", L::digits, L::radix);", "e"),
 "integer": (["interval/ext/integer.hpp", A], "P(x + 2); P(3 - x); P(x * 4); P(1 / y); P(y / 2); Q(true);", ""),
 "pi": (["interval/constants.hpp"], "P(il::pi<I>()); P(il::pi_half<I>()); P(il::pi_twice<I>());", "e"),
 "guard": ([A], "typename I::traits_type::rounding r; typedef typename il::unprotect<I>::type V; V v(x), w(y); P(I(v * w)); P(I(v + w)); R(r.add_down(s, t)); R(r.mul_up(s, t));", ""),
 "change": ([A], "typedef typename il::change_checking<I, il::checking_base<T> >::type V; V v(x), w(y); V z = v / w; PP(z); typedef typename il::change_rounding<I, il::rounded_math<T> >::type W; W c(x); PP(c);", ""),
 "scalar": (["interval/rounded_arith.hpp"], "il::save_state<il::rounded_arith_std<T> > a; R(a.add_down(s, t)); R(a.div_up(s, t)); R(a.int_down(t)); R(a.sqrt_up(t));", "S"),
 "exp": ([TR], "P(exp(x)); P(log(y));", "t"), "trig": ([TR], "P(sin(x)); P(cos(x)); P(tan(I(T(.25), T(.5))));", "t"),
 "atrig": ([TR], "P(asin(x)); P(acos(x)); P(atan(x));", "t"), "hyp": ([TR], "P(sinh(x)); P(cosh(x)); P(tanh(x));", "t"), "ahyp": ([TR], "P(asinh(x)); P(acosh(y)); P(atanh(I(T(.25), T(.5))));", "t"),
 "int_arith": ([A, "interval/rounded_arith.hpp"], "bn::interval<int> a(-3, 5), b(2, 4); PP(a + b); PP(a * b); PP(-a); PP(a - b);", "e"),
 "explicit_instantiation": ([], "P(x);", "eX"),
}
KINDS = list(S)
S["build_x"] = ([], S["explicit_instantiation"][1], "e")   # the reference of an explicit instantiation has none
TRANSC = [k for k, v in S.items() if "t" in v[2]]
MOMENTS = ["main", "main", "static", "cross", "cross", "exit", "other"]
TYPES = ["float", "double", "long double"]
VALS = ["0.5", "0.25", "0.75", "1.", "1.5", "2.", "3.", "0.1", "0.3", "1e-3", "7.3", "-0.5", "-1.", "-0.1", "-2.7", "0."]

def itype(k, T):
    f = S[k][2]
    if "t" in f: return f"bn::interval<{T}, il::policies<il::save_state<il::rounded_transc_std<{T}> >, il::checking_base<{T}> > >"
    if "p" in f: return f"bn::interval<{T}, il::policies<il::rounded_math<{T}>, il::checking_base<{T}> > >"
    return f"bn::interval<{T}>"
def needs(k):
    h, _, f = S[k]; r = set(BASE) | set(h)
    if "t" in f: r.add("interval/rounded_transc.hpp")
    return r
def snippet(n, sn):
    k, T, (a, b, c, d, s, t) = sn["k"], sn["T"], sn["v"]
    cv = {"float": "f", "double": "", "long double": "L"}[T]
    body = S[k][1].replace("typename ", "")
    return (f"static void s{n}() {{ typedef {T} T; typedef {itype(k, T)} I; volatile T q[6] = {{{', '.join(z + cv for z in (a, b, c, d, s, t))}}}; const I x(+q[0], +q[1]), y(+q[2], +q[3]); const T s = q[4], t = q[5]; (void)s; (void)t;\n"
            f"  std::printf(\"#{sn['id']}\"); {body}\n  std::printf(\"\\n\"); }}\n")
FUNCS = "square sqrt pow nth_root fmod lower upper checked_lower checked_upper width median norm widen bisect abs in zero_in subset proper_subset overlap empty singleton equal hull intersect exp log sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh".split()
QUAL = re.compile(r"(?<![\w.:])(" + "|".join(FUNCS) + r")\(")
HELP = '''#include <cstdio>
namespace bn = boost::numeric; namespace il = bn::interval_lib;
namespace HERE {
template<class I> void PP(const I &i) { std::printf(" [%La,%La]", (long double)i.lower(), (long double)i.upper()); }
template<class I> void P(const I &i) { PP(i); }
inline void Q(bool b) { std::printf(" %d", (int)b); }
inline void R(long double v) { std::printf(" %La", v); }
'''
def unit(prog, j):
    tu = prog["units"][j]; o = []
    if tu["macros"]: o += ["#include " + h for h in STD] + ["#include " + h for h in ("<climits>", "<cassert>", "<ostream>", "<cfloat>", "<boost/logic/tribool.hpp>")]   # libstdc++ drops these macros in its first header
    for m in tu["macros"]: o.append(m)
    for kind, n in tu["names"]: o.append({"var": f"static int {n} = 1;", "fun": f"static double {n}(double a) {{ return a; }}", "type": f"struct {n} {{ int m; }};"}[kind])
    for h in tu["headers"]: o.append("#include " + (h if h[0] == "<" else f"<{N}{h}>"))
    o += ["#undef min", "#undef max", "#include <sstream>", "#include <utility>"] + tu.get("after", []) + [HELP.rstrip("\n").replace("HERE", f"here{j}")]
    if any("X" in S[s["k"]][2] for s in tu["snippets"]): o.append("} template class boost::numeric::interval<%s>; namespace here%d {" % ( next(s["T"] for s in tu["snippets"] if "X" in S[s["k"]][2]), j))
    # a variable or type of the user's hides library functions from unqualified calls: the user qualifies them
    for n, s in enumerate(tu["snippets"]): o.append(QUAL.sub(r"bn::\1(", snippet(n, s)) if tu["names"] else snippet(n, s))
    at = {m: [n for n, s in enumerate(tu["snippets"]) if s["at"] == m] for m in set(MOMENTS)}
    call = lambda m: " ".join(f"s{n}();" for n in at[m])
    if at["static"]: o.append(f"struct init {{ init() {{ {call('static')} }} }}; static init init_;")
    if at["exit"]: o.append(f"struct fini {{ ~fini() {{ {call('exit')} }} }}; static fini fini_;")
    o.append("}")
    o.append(f"void unit{j}_main() {{ using namespace here{j}; {call('main')} }}\nvoid unit{j}_cross() {{ using namespace here{j}; {call('cross')} }}\nvoid unit{j}_other() {{ using namespace here{j}; {call('other')} }}")
    return "\n".join(o) + "\n"
def main_unit(prog):
    n = len(prog["units"]); o = ["#include <fenv.h>", "#include <cstdio>"]
    if prog["mode"]: o.append("struct first { first() { fesetround(%s); } }; static first first_ __attribute__((init_priority(150)));" % prog["mode"])
    o += [f"void unit{j}_main(); void unit{j}_other(); void unit{j}_cross();" for j in range(n)]
    # uses of a unit before its own static objects are initialised (called by a static object of another unit)
    if any(s["at"] == "cross" for t in prog["units"] for s in t["snippets"]): o.append("struct cross { cross() { " + " ".join(f"unit{j}_cross();" for j in range(n)) + " } }; static cross cross_ __attribute__((init_priority(160)));")
    o.append("int main() { " + " ".join(f"unit{j}_main();" for j in range(n)) + " " + " ".join(f"unit{j}_other();" for j in reversed(range(n))) + " std::printf(\"mode %d\\n\", fegetround()); return 0; }")
    return "\n".join(o) + "\n"

def gen(rng, base):
    cc = rng.choice(["g++", "g++", "clang++"]); std = rng.choice(["c++11", "c++14", "c++17", "c++17", "c++20"]); opt = rng.choice(["-O0", "-O0", "-O0", "-O2"])
    prog = dict(cc=cc, std=std, opt=opt, flags=[f for f in ("-fno-rtti", "-fvisibility=hidden", "-fPIE", "-pthread", "-DNDEBUG", "-fno-threadsafe-statics", "-ffunction-sections") if rng.random() < .12],
                mode=rng.choice([None, None, "FE_UPWARD", "FE_DOWNWARD", "FE_TOWARDZERO"]), order=rng.random() < .5, units=[])
    kinds = [k for k, (h, c, f) in ((k, S[k]) for k in KINDS) if (opt == "-O0" or "e" in f) and not (prog["mode"] and ("m" in f or "t" in f))]
    if opt != "-O0": kinds = [k for k in kinds if "t" not in S[k][2]]
    ident = base
    for j in range(rng.choice([1, 2, 2, 3])):
        tu = dict(macros=[], names=[], headers=[], snippets=[])
        if rng.random() < .3: tu["macros"] += ["#define min(a, b) ((a) < (b) ? (a) : (b))", "#define max(a, b) ((a) > (b) ? (a) : (b))"]
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(kinds)
            if "X" in S[k][2] and any("X" in S[s["k"]][2] for t in prog["units"] + [tu] for s in t["snippets"]): k = "build"
            T = rng.choice(TYPES)
            if "S" in S[k][2] and T == "long double": T = "double"
            a, b = sorted(rng.sample(VALS, 2), key=float); c, d = sorted(rng.sample([v for v in VALS if float(v) > 0], 2), key=float)
            if rng.random() < .2: b = a
            tu["snippets"].append(dict(id=ident, k=k, T=T, v=[a, b, c, d, rng.choice(VALS), rng.choice([v for v in VALS if float(v) > 0])], at=rng.choice(MOMENTS))); ident += 1
        hs = set().union(*(needs(s["k"]) for s in tu["snippets"]))
        r = rng.random()
        if r < .15: hs = {"interval.hpp"} | (hs & {"interval/io.hpp", "interval/limits.hpp", "interval/compare/tribool.hpp", "interval/ext/integer.hpp"})
        elif r < .55: hs |= set(rng.sample(EXTRA, rng.choice([1, 1, 2, 4, 9])))
        hs = sorted(hs); rng.shuffle(hs)
        if True:
            for _ in range(rng.choice([0, 0, 1, 3])): hs.insert(rng.randrange(len(hs) + 1), rng.choice(STD))
        tu["headers"] = hs
        if rng.random() < .35:
            used = set()
            for _ in range(rng.choice([1, 2, 4])):
                n = rng.choice(NAMES)
                if n in used: continue
                used.add(n); tu["names"].append((rng.choice(["var", "fun", "type"]), n))
        if not tu["names"] and rng.random() < .3: tu["after"] = [rng.choice(AFTER)]
        if LEAKED and rng.random() < .5: tu["after"] = tu.get("after", []) + [f"namespace user_names {{ static inline int {rng.choice(LEAKED)}(int a) {{ return a; }} }}"]
        prog["units"].append(tu)
    return prog, ident

def leaked(build, inc):
    """macros the library leaves defined whose names a program may use itself"""
    src = os.path.join(build, "all_headers.cpp"); mine = os.path.realpath(next(f[2:] for f in inc if f.startswith("-I"))) + "/"
    open(src, "w").write("".join(f"#include <{N}{h}>\n" for h in ["interval.hpp", "interval/io.hpp", "interval/limits.hpp", "interval/compare/tribool.hpp", "interval/ext/integer.hpp", "interval/ext/x86_fast_rounding_control.hpp"]))
    r = subprocess.run(["g++", "-std=c++17", "-E", "-dD"] + inc + [src], capture_output=True, text=True); here = False; live = set()
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m: here = os.path.realpath(m.group(1)).startswith(mine); continue
        m = re.match(r"#\s*(define|undef)\s+(\w+)", l)
        if m and m.group(1) == "undef": live.discard(m.group(2))
        elif m and here: live.add(m.group(2))
    os.unlink(src)
    return sorted(n for n in live if not re.match(r"BOOST_|_[_A-Z]", n))
AFTER = ["using namespace std;", "using namespace boost::numeric;", "using namespace std; using namespace boost::numeric;", "using namespace boost::numeric; using namespace boost::numeric::interval_lib;"]
LEAKED = []

def flags(prog): return [prog["cc"], "-std=" + prog["std"], prog["opt"], "-w", "-frounding-math"] + prog["flags"]
class Run:
    def __init__(self, build, inc): self.build, self.inc, self.n = build, inc, 0
    def do(self, prog):
        """returns (status, message, {id: line}); status: ok, compile, link, run"""
        self.n += 1; d = os.path.join(self.build, "p%d-%d" % (os.getpid(), id(prog) % 10**9 + self.n * 10**9)); os.makedirs(d)
        try:
            objs = []
            for j in range(len(prog["units"])):
                src = os.path.join(d, f"u{j}.cpp"); open(src, "w").write(unit(prog, j)); obj = src[:-3] + "o"
                r = subprocess.run(flags(prog) + self.inc + ["-c", src, "-o", obj], capture_output=True, text=True)
                if r.returncode: return "compile", f"unit {j}: " + next((l.replace(d, "").strip() for l in r.stderr.splitlines() if "error:" in l), r.stderr[-300:]), {}
                objs.append(obj)
            src = os.path.join(d, "m.cpp"); open(src, "w").write(main_unit(prog)); exe = os.path.join(d, "m")
            r = subprocess.run(flags(prog) + [src] + (objs if prog["order"] else objs[::-1]) + ["-o", exe], capture_output=True, text=True)
            if r.returncode: return "link", next((l.replace(d, "").strip() for l in r.stderr.splitlines() if "undefined" in l or "multiple" in l), r.stderr[-300:]), {}
            try: r = subprocess.run([exe], capture_output=True, text=True, timeout=60)
            except subprocess.TimeoutExpired: return "run", "does not end", {}
            if r.returncode: return "run", "ends with status %d %s" % (r.returncode, r.stderr[-200:]), {}
            out = {}
            for l in r.stdout.splitlines():
                if l.startswith("#"): i, _, rest = l[1:].partition(" "); out[int(i)] = rest.replace("-nan", "nan")
                elif l.startswith("mode"): out["mode"] = l
            return "ok", "", out
        finally: shutil.rmtree(d, ignore_errors=True)

def reference(run, progs):
    """every snippet of the programs in one unit with all headers, run in main"""
    sn = [dict(s, at="main") for p in progs for t in p["units"] for s in t["snippets"] if "X" not in S[s["k"]][2]] + \
         [dict(s, at="main", k="build_x") for p in progs for t in p["units"] for s in t["snippets"] if "X" in S[s["k"]][2]]
    ref = dict(cc="g++", std="c++17", opt="-O0", flags=[], mode=None, order=True, units=[dict(macros=[], names=[], headers=["interval.hpp", "interval/io.hpp", "interval/limits.hpp", "interval/compare/tribool.hpp", "interval/ext/integer.hpp"], snippets=sn)])
    return run.do(ref) + (ref,)

def judge(run, prog, ref):
    st, msg, out = run.do(prog)
    if st != "ok": return f"{st}|" + re.sub(r"\d+", "", msg.split("error:")[-1])[:80].strip(), f"{st}: {msg}"
    math_h = None
    for t in prog["units"]:
        for s in t["snippets"]:
            if out.get(s["id"]) != ref.get(s["id"]) and s["k"] == "ahyp" and s["T"] != "double" and any(u["macros"] or "<math.h>" in u["headers"] for u in prog["units"]):
                math_h = ("value|ahyp|math.h", f"{s['k']} over {s['T']}: {out.get(s['id'])}; without <math.h>: {ref.get(s['id'])}"); continue
            if out.get(s["id"]) != ref.get(s["id"]): return "value|" + s["k"], f"{s['k']} over {s['T']} with {s['v']} at {s['at']}: {out.get(s['id'])}; in the reference program: {ref.get(s['id'])}"
    if prog["mode"] is None and out.get("mode") != ref.get("mode"): return "mode", "rounding mode at the end: " + str(out.get("mode"))
    return math_h

def brief(p):
    return f"{p['cc']} -std={p['std']} {p['opt']} {' '.join(p['flags'])} mode={p['mode'] or 'nearest'} " + "; ".join(f"unit {j}: " + " ".join(["min/max macros"] * bool(t["macros"]) + [f"{k} {n}" for k, n in t["names"]] + t.get("after", [])) + " {" + " ".join(t["headers"]) + "} " + ", ".join(f"{s['k']}<{s['T']}>@{s['at']}" for s in t["snippets"]) for j, t in enumerate(p["units"]))

def shrink(run, prog, ref, key, limit, fails=None):
    fails = fails or (lambda q: judge(run, q, ref))
    end = time.time() + limit; cur = json.loads(json.dumps(prog)); kind = key.split("|")[0]
    def attempts(p):
        c = lambda: json.loads(json.dumps(p))
        if len(p["units"]) > 1:
            for j in range(len(p["units"])): q = c(); del q["units"][j]; yield q
        for f in ("flags",):
            if p[f]: q = c(); q[f] = []; yield q
        for f, v in (("mode", None), ("cc", "g++"), ("std", "c++17"), ("opt", "-O0")):
            if p[f] != v: q = c(); q[f] = v; yield q
        for j, t in enumerate(p["units"]):
            for f in ("names", "macros", "after"):
                if t.get(f): q = c(); q["units"][j][f] = []; yield q
            if len(t["names"]) > 1:
                for n in range(len(t["names"])): q = c(); del q["units"][j]["names"][n]; yield q
            if len(t["snippets"]) > 1:
                for n in range(len(t["snippets"])): q = c(); del q["units"][j]["snippets"][n]; yield q
            for n, s in enumerate(t["snippets"]):
                if s["at"] != "main": q = c(); q["units"][j]["snippets"][n]["at"] = "main"; yield q
            need = set().union(*(needs(s["k"]) for s in t["snippets"]))
            for n, h in enumerate(t["headers"]):
                if h not in need and h != "interval.hpp": q = c(); del q["units"][j]["headers"][n]; yield q
    for t in cur["units"]:      # large units: halves first
        while len(t["snippets"]) > 3 and time.time() < end:
            h = len(t["snippets"]) // 2; whole = t["snippets"]
            for part in (whole[:h], whole[h:]):
                t["snippets"] = part; r = fails(cur)
                if r and r[0].split("|")[0] == kind: break
            else: t["snippets"] = whole; break
    better = True
    while better and time.time() < end:
        better = False
        for q in attempts(cur):
            if time.time() > end: break
            r = fails(q)
            if r and r[0].split("|")[0] == kind: cur = q; better = True; break
    return cur

def not_together(run, ref):
    """the reference program failed: a fault of the composition if every use in it works alone with the headers it needs"""
    def broken(q): st, msg, _ = run.do(q); return (st + "|" + re.sub(r"\d+", "", msg.split("error:")[-1])[:80].strip(), st + ": " + msg) if st != "ok" else None
    t = ref["units"][0]; one = {}
    for s in t["snippets"]: one.setdefault(s["k"], s)
    alone = lambda s: broken(dict(ref, units=[dict(t, headers=["interval.hpp"] + [h for h in sorted(needs(s["k"])) if h in ref["units"][0]["headers"]], snippets=[s])]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        if any(ex.map(alone, one.values())): return None
    r = broken(ref)
    if not r: return None
    q = shrink(run, ref, {}, r[0], 60, broken); return q, broken(q) or r

def save(pid, root, n, q, r):
    path = os.path.join("replays", f"{pid}-compose-{n}.replay")
    with open(os.path.join(root, path), "w") as fh:
        fh.write(f"property={pid}\nkey={r[0]}\ncase={brief(q)}\nmessage={r[1]}\nprogram={json.dumps(q)}\n# reproduce: python3 tools/check.py {pid} --replay {path}\n")
        for j in range(len(q["units"])): fh.write("".join(f"# unit {j}: {l}\n" for l in unit(q, j).splitlines()))
    return path, dict(key=r[0], msg=r[1], desc=brief(q))

def check(pid, spec, tier, seed, replay, cases, build, inc, root, known):
    """returns (violations [(path, failure)], coverage dict, error or None)"""
    run = Run(build, inc); viol = []
    if replay:
        prog = json.loads(next(l for l in open(replay) if l.startswith("program="))[8:])
        st, msg, ref, rp = reference(run, [prog])
        if st != "ok":
            nt = not_together(run, rp)
            return ([(replay, dict(key=nt[1][0], msg=nt[1][1], desc=brief(nt[0])))], {}, None) if nt else ([], {}, f"reference program: {st} {msg}")
        r = judge(run, prog, ref)
        return ([(replay, dict(key=r[0], msg=r[1], desc=brief(prog)))] if r else []), {}, None
    LEAKED[:] = leaked(build, inc)
    total = cases or spec["cases"][0 if tier == "quick" else 1]
    rng = random.Random(seed * 1000003 + 77); progs = []; ident = 0
    for _ in range(total): p, ident = gen(rng, ident); progs.append(p)
    # the listed finding, in every run: overloads of the C library's names that only <math.h> brings
    progs.append(dict(cc="g++", std="c++17", opt="-O0", flags=[], mode=None, order=True, units=[dict(macros=[], names=[], headers=["<math.h>", "interval.hpp"], snippets=[dict(id=ident, k="ahyp", T="long double", v=["0.5", "1.5", "1.", "2.", "1.", "2."], at="main")])])); ident += 1; total += 1
    t0 = time.time(); budget = 600 if tier == "quick" else 4800; ref = {}
    batches = [progs[i:i+40] for i in range(0, len(progs), 40)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for st, msg, out, rp in ex.map(lambda b: reference(run, b), batches):
            if st != "ok":
                nt = not_together(run, rp)
                if not nt: return [], {}, f"reference program: {st} {msg}"
                return [save(pid, root, 0, nt[0], nt[1])], dict(evaluations=total, distinct_nontrivial=0, rule=spec["rule"], samples=[]), None
            ref.update(out)
        done = 0; fails = {}; hits = {}
        def one(p): return (p, judge(run, p, ref)) if time.time() - t0 < budget else (p, "late")
        ran = []
        for p, r in ex.map(one, progs):
            if r == "late": continue
            done += 1; ran.append(p)
            if r and r[0] in known: hits[r[0]] = hits.get(r[0], 0) + 1; r = None
            if r and r[0] not in fails and len(fails) < 6: fails[r[0]] = (p, r)
    labels = {}; hs = set()
    def lab(x): labels[x] = labels.get(x, 0) + 1
    for p in ran:
        lab("compiler:" + p["cc"]); lab("standard:" + p["std"]); lab("optimisation:" + p["opt"]); lab("units:%d" % len(p["units"]))
        if p["mode"]: lab("started in " + p["mode"])
        for t in p["units"]:
            if t["macros"]: lab("min and max are macros")
            if t["names"]: lab("global user names")
            if t.get("after"): lab("using directives or own names after the headers")
            if t["headers"][0:1] and not {"interval.hpp"} & set(t["headers"]): lab("unit without the main header")
            hs.add(tuple(t["headers"]))
            for s in t["snippets"]: lab("use:" + s["k"]); lab("moment:" + s["at"])
    for n, (key, (p, r)) in enumerate(list(fails.items())[:2]):
        q = shrink(run, p, ref, key, 40); r2 = judge(run, q, ref) or r
        viol.append(save(pid, root, n, q, r2))
    nontriv = sum(1 for p in ran if len(p["units"]) > 1 or any("interval.hpp" not in t["headers"] for t in p["units"]))
    cov = dict(evaluations=done, distinct_nontrivial=nontriv, rule=spec["rule"], samples=[brief(p) for p in ran[:: max(1, len(ran) // 12)]][:12], distinct_header_lists=len(hs),
               snippets_compared=sum(len(t["snippets"]) for p in ran for t in p["units"]), class_counts=dict(sorted(labels.items())), not_run_for_lack_of_time=total - done, known_finding_hits=hits)
    return viol, cov, None
