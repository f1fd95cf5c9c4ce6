"""Harness table: per property its source file, compile variants, case counts (quick, thorough)."""
import os
W = ["-std=c++17", "-frounding-math", "-w"]
COMPILERS = {
    # the flags of the repository's debug build
    "gcc":   ["g++", "-O0"] + W,
    "clang": ["clang++", "-O0"] + W,
    # undefined-behaviour (and address) checking. -O0: optimisers merge equal x87 expressions across
    # rounding-mode switches even under -frounding-math (seen with clang -O1 and long double)
    "san":   ["clang++", "-O0", "-g1", "-fsanitize=undefined,address", "-fno-sanitize-recover=undefined"] + W,
    "ubsan": ["clang++", "-O0", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"] + W,
    "tsan":  ["clang++", "-O0", "-g1", "-fsanitize=thread"] + W,
    # optimised builds of the library under the single-mode policies (see common.hpp on -DOPT)
    "opt":   ["g++", "-O2", "-DOPT"] + W,
    "optc":  ["clang++", "-O3", "-DOPT"] + W,
    # other language standards (C++20 rewrites comparison operators)
    "std14": ["g++", "-O0", "-std=gnu++14"] + W[1:],
    "std20": ["clang++", "-O0", "-std=c++20"] + W[1:],
    # x87 arithmetic for the x86 control back ends
    "x87":   ["g++", "-O0", "-mfpmath=387"] + W,
}
TYPES = [("f", "float"), ("d", "double"), ("l", "longdouble")]
def std_variants(extra=(), gcc=True, san="ubsan"):
    out = []
    for s, t in TYPES:
        if gcc: out.append(dict(name="gcc-" + s, cc="gcc", flags=["-DHT=" + t.replace("longdouble", "long_double")] + list(extra), weight=1))
        out.append(dict(name=san + "-" + s, cc=san, flags=["-DHT=" + t.replace("longdouble", "long_double")] + list(extra), weight=2, fuzz=True))
    return out
def x87_variants(weight=0.3):
    return [dict(name="x87-" + s, cc="x87", flags=["-DHT=" + t.replace("longdouble", "long_double"), "-DX87"], weight=weight) for s, t in TYPES]
# memory errors and undefined behaviour together; optimised builds (thorough tier only)
def asan_variant(weight=0.3): return [dict(name="asan-d", cc="san", flags=["-DHT=double"], weight=weight)]
def opt_variants(weight=0.5):
    return [dict(name=n + "-" + s, cc=cc, flags=["-DHT=" + t.replace("longdouble", "long_double")], weight=weight, thorough_only=True)
            for n, cc in (("opt", "opt"), ("optc", "optc")) for s, t in TYPES]
def standard_variants(): return [dict(name=n + "-d", cc=n, flags=["-DHT=double"], weight=0.4, thorough_only=True) for n in ("std14", "std20")]
ASSUME = ["MPFR and GMP are correct", "the CPU and compiler honour the rounding mode under -frounding-math (g++ -O0, clang -O0)"]
def scaled(vs, **w):   # scale the share of cases of a type: scaled(std_variants(), l=0.1)
    for v in vs: v["weight"] = v["weight"] * w.get(v["name"][-1], 1)
    return vs
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
TABLE = {}
STANDARDS = "C10 C11 C12 C13 C14 C16 C18 C24".split()
OPTIMISED = "C01 C02 C03 C04 C05 C09 C10 C11 C12 C13 C14 C15 C21 C24".split()
def add(pid, rule, cases, variants=None, **kw):
    variants = (variants or std_variants()) + (asan_variant() if pid not in ("C22", "C25", "C26", "C27", "C28") else []) + (opt_variants() if pid in OPTIMISED else []) + (standard_variants() if pid in STANDARDS else [])
    TABLE[pid] = dict(src=pid.lower() + ".cpp", rule=rule, cases=cases, variants=variants, assumptions=kw.pop("assumptions", ASSUME), **kw)

add("C01", "Operands are drawn over all binades, specials, ulp-neighbours of each other and interval kinds, plus the full grid of intervals between 14 special bounds; a case is non-trivial when the returned interval is not a single point (rounding or width) or a bound is infinite.", (5000000, 60000000))
add("C02", "Operands as in C01 with a dedicated generator for zero endpoints; a case is non-trivial when an operand is not a point, or the exact result of two points is not representable, or the result is empty.", (8000000, 60000000), variants=std_variants() + x87_variants())
add("C03", "Dividends and divisors in every sign configuration (zero strictly inside, at either end, outside; half-infinite), empty operands under three encodings; every case with a well-formed comparison is non-trivial.", (3000000, 40000000), variants=std_variants() + x87_variants())
add("C04", "Intervals biased to |lower|~|upper|, perfect squares and their neighbours, plus the general generator, and integer base types up to the ends of their ranges; non-trivial when the argument or image is not a point or the result is empty.", (8000000, 50000000))
add("C05", "Exponents over the whole int range (small, medium, extreme), bases scaled so that the power usually stays finite, plus the general generator; non-trivial when a bound was compared with the exact power (error bound or exactness) or the result is empty or [1,1].", (4500000, 20000000), variants=std_variants() + x87_variants())
add("C06", "Root orders over 1..INT_MAX (mostly small), intervals over all magnitudes, moderate ones and perfect powers; every case is non-trivial in the root sub-properties (result compared with the exact image), in root-of-power when the result is not a point.", (400000, 6000000), variants=scaled(std_variants(), l=0.02))
add("C07", "Arguments at and around domain ends, in the functions' range of interest and over all magnitudes; every case with a defined image (or an empty one) is non-trivial.", (7500000, 30000000))
add("C08", "Arguments near multiples of pi/2, small and moderate ones, and all magnitudes up to overflow, points and wide intervals; non-trivial when the exact image is not the trivial one ([-1,1] or the whole line).", (4500000, 20000000))
add("C09", "Positive divisors over all magnitudes, dividends built as near multiples of the divisor with quotients up to 2^p; non-trivial when the subtracted multiple is not zero.", (3000000, 20000000), variants=std_variants() + x87_variants())
add("C10", "All operations with interval, number and int operand forms and sixteen aliasing patterns; every form case is non-trivial, aliasing cases when the interval is not a point.", (4500000, 20000000))
add("C11", "Operand bounds come from one to four anchor values (shared, one ulp apart, negated, signed zeros, infinities) and, exhaustively, from the grid {-inf,-1,0,1,2,inf} plus empty; all six operators on each; every case is non-trivial (the oracle decides true, false or comparison error from point sets).", (3000000, 30000000))
add("C12", "Operands as in C11, all six relations through the certain, possible, three-valued and named families, number operands on both sides for the named ones; every case is non-trivial.", (1500000, 15000000))
add("C13", "Pairs and triples of intervals as in C11 (exhaustively over the grid plus empty: 8000 triples), equal and different policies, numbers; every case is non-trivial (definitions decided from bounds and point sets; order laws evaluated with the library's own operators).", (3000000, 15000000))
add("C14", "Operands as in C11 including empties and NaN numbers, exhaustively over the grid; each case evaluates all set functions; every case is non-trivial.", (6000000, 20000000))
add("C15", "Intervals over all magnitudes with dedicated huge (sum of bounds overflows), subnormal and nearly symmetric ones, empties and unbounded ones, and integer base types up to the ends of their ranges; non-trivial when the interval is not a point.", (6000000, 20000000))
add("C16", "Eighteen built-in source types (extreme integers, powers of two and neighbours, values around representable targets, NaN), pairs of equal and different types, intervals of three floating and eight integer base types and several checking policies; non-trivial when the conversion is inexact, the source is a pair or an interval, or the source denotes nothing (one in four exact single numbers is counted).", (4500000, 20000000))
add("C17", "Every operation under fourteen checking policies (allowing or forbidding empty intervals, ignoring, catching or not looking for NaN, user-defined errors that throw or raise a flag, empty intervals stored as NaN or as [1,0]), with empty, NaN, out-of-domain and ordinary operands; measures and predicates of empty and ordinary intervals, also under a policy with its own not-a-number value; non-trivial when an operand is empty or NaN or the documented result is empty (one in four ordinary cases is counted).", (1350000, 10000000))
add("C18", "Histories of up to twelve operations on three interval objects (all table operations, compound assignments with intervals, numbers and own bounds, assignments, comparisons) under throwing checking policies and each ambient rounding mode, also unprotected under a live guard; non-trivial when at least one step threw.", (2000000, 5000000))
add("C19", "Every operation (also comparisons, constants, conversions) called in each of the four ambient rounding modes, returning or throwing, over MPFR and standard-library scalar functions; and programs of nested guards of six kinds with protected and unprotected operations with exceptions unwinding through guards and programs setting a direction themselves. Mode cases are all non-trivial, guard programs when a guard was opened and an operation run.", (1800000, 10000000))
add("C20", "Single operations and chains of up to sixteen operations on three intervals, executed under eight policy configurations (single-mode and mode-switching, protected, unprotected under a guard, below the transcendental layers, the type's default) from each ambient mode, every intermediate bound, width, norm and median compared; non-trivial when an intermediate interval is not a point.", (1000000, 6000000))
add("C21", "Programs of up to 25 instructions over four registers (41 instruction kinds: all arithmetic forms, algebraic and set operations, two-part division, bisection, conversions through the other base types) with an exact rational shadow of one point per register, in each ambient mode or unprotected under a guard; and the same programs without roots run on enlarged inputs. Non-trivial when at least two instructions ran and a bounded non-point interval appeared; monotone ones when an input was enlarged.", (600000, 4000000))
add("C23", "Sequences of one to five scalar operations on a live rounding policy object, protected or unprotected, opened in any ambient mode: arithmetic, square root, midpoint, integer rounding and conversion from seven types, over the single-mode, mode-switching, default, layered and exact policies, on the C99 and (g++ -mfpmath=387 variants) the x87 and fast x87 control back ends; the transcendental layers over a scalar type that rounds in the current direction (MPFR). Non-trivial when a result is not representable.", (4500000, 30000000), variants=std_variants() + x87_variants())
add("C24", "Intervals over all magnitudes (and int intervals, empties) written to narrow and wide streams in generated formatting states: four floating formats, precision 0..24, pending width and fill, adjustment, sign/point/case/base flags, three custom locales, failed streams, repeated output; text at full precision parsed back; and a table of numeric_limits members under fourteen checking policies. Every case is non-trivial (the expected text is assembled from separately printed bounds).", (3600000, 12000000))
add("C22", "Intervals over a user-defined grid type (2^B cells; B=2 exhaustively over all pairs, B=3 and 5 at random) whose stateful rounding policy records protocol breaches, with specialised sign tests and two empty encodings or a throwing checking policy; and over extended exact rationals with the exact rounding policy. Every case is non-trivial (results compared with brute-force set semantics on the grid or the exact rational image).", (120000, 3000000), variants=[dict(name="gcc", cc="gcc", weight=1), dict(name="ubsan", cc="ubsan", fuzz=True, weight=1)], assumptions=["GMP and MPFR are correct"])

add("C27", "Intervals of five signed integer types (small numbers, numbers around the square root of the range and near its ends, repeated, negated and adjacent numbers, empties), every operation on each pair under the default policies and under policies that allow empties; an operation is judged when every number of its textbook formula fits the type. Non-trivial when more than 140 operations (about 100 of them comparisons) were judged.", (2000000, 15000000), variants=[dict(name="gcc", cc="gcc", weight=1), dict(name="ubsan", cc="ubsan", flags=["-fno-sanitize=signed-integer-overflow"], fuzz=True, weight=1)], assumptions=["the compiler's 128-bit integers are correct"])

add("C26", "Two or three threads start together, each with its own ambient rounding mode and one of seven policy configurations (protected, throwing, unprotected under its own guard), and run programs of up to twelve steps (operation table, compound assignments, comparisons, text output, scalar functions, nested guards, limits) on own objects and on constant objects shared by all; every thread's trace is compared with the same program run alone, and the thread sanitizer watches for data races. Non-trivial when more than two steps run in all.", (16000, 300000),
    variants=[dict(name="tsan-" + s, cc="tsan", flags=["-DHT=" + t.replace("longdouble", "long_double")], libs=["-pthread"], weight=2) for s, t in TYPES] + [dict(name="gcc-" + s, cc="gcc", flags=["-DHT=" + t.replace("longdouble", "long_double")], libs=["-pthread"], weight=1) for s, t in TYPES],
    assumptions=["the thread sanitizer instruments all library code (header-only)", "the CPU and compiler honour the rounding mode under -frounding-math (g++ -O0, clang -O0)"])

add("C28", "Intervals over a number type that rounds to a small grid in its own current direction (optionally keeping excess precision until it is forced), under the library's mode-switching and single-mode rounding policies with a user rounding control, protected and unprotected under a guard, from each of the four ambient directions; 2-bit grid exhaustively over all pairs, 3- and 5-bit grids at random. A case evaluates every operation on the operands; non-trivial when an operand is not empty.", (40000, 1000000), variants=[dict(name="gcc", cc="gcc", weight=1), dict(name="ubsan", cc="ubsan", fuzz=True, weight=1)], assumptions=["the double-precision functions of the C library err by less than 1e-13 relatively"])

add("C29", "Every operation on small operands (zero at an end, inside, outside; domain ends), so that an infinite bound of the result is one the library creates, under checking policies with their own (not opposite) infinities, policies whose infinities throw, encoded empties; exhaustively over all pairs of intervals between -2 and 2; integer base types. Non-trivial when the result has an infinite bound.", (3000000, 15000000))

BACKENDS = [("ppc", "PPC", "fdl", 0), ("ppc-noc99", "PPC -DNO_C99", "dl", 0), ("sparc", "SPARC", "fdl", 0), ("sparc-sun", "SPARC_SUN", "fd", 0), ("alpha", "ALPHA", "fdl", 0), ("alpha-dec", "ALPHA_DEC", "fd", 0), ("ia64", "IA64", "fdl", 0), ("msvc", "MSVC", "fd", 1), ("msvc64", "MSVC64", "fd", 0), ("bcc", "BCC", "fd", 1), ("x86-sun", "X86SUN", "fdl", 0), ("other", "OTHER", "fdl", 0)]
def backend_variants():
    out = []
    for n, d, ts, x87 in BACKENDS:
        for s, t in TYPES:
            if s in ts: out.append(dict(name=n + "-" + s, cc="x87" if x87 else "gcc", flags=["-DHT=" + t.replace("longdouble", "long_double"), "-DBACKEND"] + ("-DBE_" + d).split() + (["-DX87"] if x87 else []), weight=1))
    return out
add("C25", "Scalar operation sequences (as in C23), chains of interval operations (as in C20), single operations, guards and mode switches over the back ends for PowerPC, Sparc (GNU, Sun), Alpha (GNU, DEC), IA-64, MSVC (x86, x64), Borland, Sun on x86 and processors known by <fenv.h> only, whose control registers are emulated, from random states of the register. Non-trivial when a result is not representable or the image is not a point; mode switches and guards all are.", (2000000, 20000000), variants=backend_variants(), overlay=True, fuzz=False,
    probes=[(n + "-" + std, ["clang++", "-std=" + std, "-fsyntax-only", "-DBACKEND"] + ("-DBE_" + d).split() + [HARNESS + "/backend_probe.cpp"]) for n, d, _, _ in BACKENDS for std in ("c++11", "c++20")],
    assumptions=["the emulated registers behave as the processors' and compilers' manuals say", "arithmetic rounds in the direction of the register's rounding field", "MPFR and GMP are correct"])
TABLE["C30"] = dict(compose=True, variants=[], cases=(320, 4000), assumptions=["the compiler is correct"],
    rule="Generated programs: one to three translation units, each with its own random set and order of library headers (always those that the documentation names for what it uses, or the main header), macros min and max, global user names equal to library names, standard headers in between, one to three uses of the library (out of some forty-five) over a base type at a random moment (static initialisation, main, exit, a call from another unit), g++ or clang++, C++11 to C++20, options, initial rounding mode. Non-trivial when there are several units or a unit without the main header.")
