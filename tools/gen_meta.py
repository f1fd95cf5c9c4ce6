#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "include/boost/numeric/interval/"
def M(name, where): return {"name": name, "where": B + where}

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[B+f if not f.startswith("/") else f[1:] for f in files],
                  mech=mech, observe=observe, technique=technique, note=note, state=state))

PBT = "property-based testing (generated inputs, shrinking)"

prop("C01", "Interval arithmetic never loses a result (inclusion property)",
 "For float, double and long double intervals, and for every pair of real points taken from the two operands, the exact sum, difference, product and (when the divisor point is not zero) quotient of the points lies inside the interval that the corresponding operator returns, and the negated point lies inside the negated interval. This holds for interval-interval, interval-number, number-interval and compound-assignment forms and for the two-number functions add/sub/mul/div, with bounds that are finite, infinite, zero, subnormal or close to overflow. The returned lower bound is never above the upper bound and no bound is NaN unless the documented result is empty.",
 ["inputs", "configurations"], "all operand pairs (bounds in all binades, +-0, subnormals, +-inf; numbers finite) x 3 base types x operand forms x protected/std rounding policies",
 "The unit tests use a handful of small integers; the guarantee is about rounding direction at every bound, which only shows for operands whose exact result is not representable, overflows or underflows.",
 ["arith.hpp", "arith3.hpp", "detail/division.hpp", "rounded_arith.hpp", "interval.hpp"],
 [M("sign-case analysis of multiplication", "arith.hpp"), M("sign-case analysis of division", "detail/division.hpp"), M("directed rounding by negation tricks", "rounded_arith.hpp")],
 "bounds of the returned interval, compared with exact rational arithmetic on points of the operands",
 PBT + ": sampled points evaluated in exact GMP rationals must be members of the result",
 "Random and boundary-biased search over all bit patterns; membership is decided exactly with GMP rationals. Not exhaustive.")

prop("C02", "Arithmetic with hardware rounding returns the tightest enclosure",
 "With the library's hardware rounding policies for float, double and long double, the interval returned by addition, subtraction, multiplication, division and negation is the smallest interval with representable (or infinite) bounds that contains every exact result. For a divisor that contains zero together with other points, it is the smallest interval that contains every quotient by a non-zero divisor point (for example [-1,0]/(0,2] stays on the negative side and a zero dividend gives zero); a divisor that is exactly zero gives the empty interval.",
 ["inputs", "configurations"], "all operand pairs x 3 base types x rounding policies (default and mode-switching) x operand forms",
 "A bound that is one ulp too wide is still an enclosure, so example tests and inclusion tests accept it; only comparison with the correctly rounded exact result for arbitrary operands can tell.",
 ["arith.hpp", "arith3.hpp", "detail/division.hpp", "rounded_arith.hpp"],
 [M("division by intervals having zero as an endpoint", "detail/division.hpp"), M("operators", "arith.hpp")],
 "bounds of the returned interval vs. correctly rounded endpoints computed by MPFR from a set-based model",
 PBT + ": equality with an MPFR-rounded set-based reference model",
 "Bit-exact comparison (zero signs ignored) with an independent reference; random and boundary-biased search.")

prop("C03", "Two-part division and reciprocal describe the exact quotient set",
 "Two-part division reports through its flag whether the quotient set of two non-empty intervals needs two separate pieces; when it does, the first piece is the tightest interval around the negative part and the second the tightest around the positive part, and otherwise the first piece alone is the tightest interval around all quotients. A point q is a quotient of points of the operands only if it lies in one of the returned pieces; with an empty operand, or when dividing by exactly zero, the result is empty and the flag false, and asking for the second piece with a false flag gives the empty interval. The reciprocal is the tightest interval around 1/x for the non-zero points x of its argument, and empty for the argument exactly zero.",
 ["inputs", "configurations"], "all dividend/divisor pairs in every sign configuration x 3 base types x two rounding policies",
 "There are eleven sign configurations, each with its own rounding directions and infinities; tests touch a few with exact results.",
 ["arith2.hpp", "detail/division.hpp"],
 [M("division_part1/division_part2", "arith2.hpp"), M("div_zero_part1/part2", "detail/division.hpp"), M("multiplicative_inverse", "arith2.hpp")],
 "pieces, flag and reciprocal bounds",
 PBT + ": MPFR set-based reference model and exact-rational quotient membership",
 "Bit-exact comparison with an independent reference model, plus sampled quotients in exact rationals.")

prop("C04", "Square, square root, absolute value, minimum and maximum are tight set images",
 "For non-empty operands over a floating-point type, and for representable results over built-in integer types, the interval square, square root, absolute value, minimum and maximum return the smallest representable interval containing the image of the function over the operand sets. The square of an interval straddling zero starts at zero, the square root clips the part of the argument below zero and is empty when the whole argument is negative, and minimum/maximum accept a plain number on either side with the same meaning as a one-point interval.",
 ["inputs", "configurations"], "all intervals (straddling, zero endpoints, half-infinite, subnormal, huge) x 3 base types x rounding policies x operand forms",
 "The interesting cases are the comparisons of bound magnitudes and the rounding of inexact squares and roots, which depend on arbitrary mantissas.",
 ["arith2.hpp", "utility.hpp", "rounded_arith.hpp"],
 [M("square/sqrt", "arith2.hpp"), M("abs/min/max", "utility.hpp"), M("sqrt_down/sqrt_up", "rounded_arith.hpp")],
 "bounds of the returned interval",
 PBT + ": equality with an MPFR set-image reference model",
 "Bit-exact comparison with independently rounded images; random and boundary-biased search.")

prop("C05", "Integer powers enclose the exact power and stay close to it",
 "For every non-empty interval and every integer exponent (negative, zero or positive, including the extreme values of the exponent type) the interval power contains t raised to the exponent for every point t of the argument for which it is defined. Even powers never have a negative lower bound, a straddled zero gives a lower bound of exactly zero for even positive powers, exponent zero gives exactly [1,1] for every interval other than the one-point zero, and a negative power of exactly zero is empty. When no intermediate value leaves the normal range, each bound is off from the exact endpoint power by at most the rounding errors of the multiplications (relative error about |exponent| rounding units), and it is exact when the powers are representable.",
 ["inputs", "configurations"], "all intervals x exponents in the full int range x 3 base types",
 "Rounding direction inside repeated squaring matters per bit of the exponent and per sign case; tests use exact small integers where every rounding is exact.",
 ["arith2.hpp"],
 [M("pow, pow_dn, pow_up", "arith2.hpp"), M("multiplicative_inverse for negative exponents", "arith2.hpp")],
 "bounds of the returned interval",
 PBT + ": enclosure and error bound against MPFR powers",
 "Enclosure decided exactly with MPFR at directed rounding; closeness decided with a proven error bound for multiplication chains.")

prop("C06", "Integer roots enclose the exact root and always terminate",
 "For every non-empty interval and every positive integer root order, the interval root terminates and contains the exact real root of every point of the argument (every non-negative point for even orders, every point for odd orders); arguments lying strictly below zero give the empty interval for even orders. Taking the root of an interval power with the same order gives an interval that contains the original interval (its absolute value for even orders), and a finite argument of moderate size gives a finite, close enclosure.",
 ["inputs", "configurations"], "all intervals incl. infinite, huge, tiny and subnormal bounds x root orders 1..max x 3 base types",
 "The root is computed by an interval Newton iteration whose termination, enclosure and tightness depend on the argument magnitude and the order; two or three example roots say nothing about others.",
 ["arith2.hpp"],
 [M("interval Newton iteration", "arith2.hpp"), M("sign and parity dispatch", "arith2.hpp")],
 "bounds of the returned interval, CPU time of the call",
 PBT + ": enclosure against MPFR roots, per-case CPU limit for termination",
 "Enclosure decided with MPFR; non-termination detected by a generous CPU limit per case and confirmed by replay.")

prop("C07", "Monotone transcendental functions enclose their image and respect domains",
 "Given a rounding policy with correctly rounded scalar bounds, the interval exp, log, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh contain the function value of every argument point inside the function's domain, and the result is the smallest such interval up to the library's stored pi enclosure at domain ends. Parts of the argument outside the domain are ignored, an argument lying strictly outside the domain gives the empty interval, and infinite or domain-end arguments give the corresponding infinite or limiting bounds.",
 ["inputs", "configurations"], "all intervals (inside, across and outside the domain, infinite) x 11 functions x 3 base types",
 "The existing tests exercise a few values of few functions; bound swaps, domain clipping and rounding direction can be wrong for one function in one sign case only.",
 ["transc.hpp", "constants.hpp"],
 [M("monotone functions and domain clipping", "transc.hpp"), M("pi constants", "constants.hpp")],
 "bounds of the returned interval",
 PBT + ": MPFR correctly rounded reference images through a user-defined MPFR rounding policy",
 "The scalar rounding policy is the harness's own MPFR one, so the check decides the interval layer; random and boundary-biased search.")

prop("C08", "Sine, cosine and tangent enclose their image at any magnitude; pi is enclosed",
 "Given a rounding policy with correctly rounded scalar bounds, the interval sin, cos and tan of an argument of any magnitude, width or sign contain the function value at every point of the argument (for tan: wherever it is defined), and sin and cos results always stay within [-1,1]. The library's enclosures of pi, pi/2 and 2*pi contain the true constants for float, double, long double and generic types, and narrow arguments of small magnitude give close, not trivially wide, results.",
 ["inputs", "configurations"], "all intervals, centred on multiples of pi/2 up to the overflow threshold x {sin,cos,tan} x 3 base types",
 "Argument reduction with an interval pi and the case split into monotone pieces break only near specific multiples of pi/2 or for large arguments.",
 ["transc.hpp", "constants.hpp", "arith2.hpp"],
 [M("periodic reduction and monotone subintervals", "transc.hpp"), M("pi enclosures", "constants.hpp"), M("fmod", "arith2.hpp")],
 "bounds of the returned interval",
 PBT + ": sampled points evaluated by MPFR must be members; width bound for narrow small arguments",
 "Inclusion decided with high-precision MPFR at sampled points, including the extremal points of the argument.")

prop("C09", "Interval modulo reduces into the divisor's range by one integer multiple",
 "For finite operands with a strictly positive divisor interval (or number) and a quotient that fits the mantissa of the base type, the interval modulo returns z with 0 <= lower(z) < upper(divisor), and there is one integer n such that z contains t - n*d for every t in the dividend and d in the divisor. For one-point positive operands whose remainder is representable the lower bound agrees with the ordinary floating-point remainder whenever n*d is exact, and all operand forms (interval or number on either side) agree.",
 ["inputs", "configurations"], "all finite dividends (either sign) and positive divisors with moderate quotient x 3 base types x operand forms",
 "The choice of divisor bound depends on the dividend's sign and the quotient's rounding direction decides membership near exact multiples; sampled tests avoid these boundaries.",
 ["arith2.hpp", "rounded_arith.hpp", "detail/c99sub_rounding_control.hpp"],
 [M("fmod", "arith2.hpp"), M("int_down", "rounded_arith.hpp")],
 "bounds of the returned interval",
 PBT + ": exact-rational reference for n and for the enclosure",
 "Exact rational oracle; quotients are bounded by the mantissa as the integer rounding requires.")

prop("C10", "All forms of one operation agree",
 "For every operation, the compound assignment, the mixed interval/number forms on either side, the mixed forms with a plain int operand (exactly representable in the base type), the two-number functions and the interval-interval form with one-point intervals all give the same interval. The result does not depend on operands being the same object (x+=x, x-=x, x*=x, x/=x, assignment from a number or bound of the target itself) and operands that are not assigned to are left unchanged.",
 ["inputs", "histories"], "all operand values x all operator forms x aliasing patterns x 3 base types",
 "Each form is separate code; aliasing defects appear only when the same object is passed twice or a bound of the target is passed by reference.",
 ["arith.hpp", "arith3.hpp", "ext/integer.hpp", "interval.hpp", "utility.hpp"],
 [M("compound operators", "arith.hpp"), M("int overloads", "ext/integer.hpp"), M("assign/set", "interval.hpp")],
 "bounds of results and operands",
 PBT + ": metamorphic agreement between operator forms, and aliasing vs. copies",
 "Differential check between forms; correctness of the common value is decided by C01/C02.")

prop("C11", "Default comparisons are true, false or throw exactly as the operand sets dictate",
 "The default ordering and equality operators between intervals (also with different policies), or an interval and a number, return true exactly when the relation holds for all pairs of points, false exactly when it holds for no pair, and otherwise throw the library's comparison error. Comparing an empty interval or a NaN throws the comparison error too, and the operands are never modified.",
 ["inputs", "configurations"], "all interval/interval and interval/number pairs in every relative position incl. touching bounds and infinities x 6 operators x base types x policies",
 "The tests cover one arrangement per operator; whether < or <= is used on touching bounds shows only on coinciding endpoints.",
 ["interval.hpp"],
 [M("comparison operators and holders", "interval.hpp")],
 "return value or exception type of each comparison",
 PBT + ": exact agreement with the all-pairs/no-pair set definition",
 "Exact decision procedure on endpoints; generators are biased to shared endpoints; small integer grids are enumerated.")

prop("C12", "Certain, possible, named and tribool comparisons match their quantifiers",
 "Under the 'certain' comparisons an operator is true exactly when the relation holds for all pairs of points, under the 'possible' comparisons exactly when it holds for some pair, and under the three-valued comparisons the result is true, false or indeterminate when it holds for all, none or only some pairs. The explicitly named certain/possible functions compute the same relations for interval-interval, interval-number and number-interval arguments; the certain, possible and three-valued operators throw the comparison error for an empty interval or NaN.",
 ["inputs", "configurations"], "all operand pairs in every relative position x 6 relations x 4 comparison families x operand kinds x policies",
 "Over 60 separate one-line functions; an error in one of them is invisible unless that function is called with the distinguishing endpoint arrangement.",
 ["compare/certain.hpp", "compare/possible.hpp", "compare/tribool.hpp", "compare/explicit.hpp"],
 [M("certain/possible operators", "compare/certain.hpp"), M("named functions", "compare/explicit.hpp"), M("three-valued operators", "compare/tribool.hpp")],
 "return value or exception type",
 PBT + ": exact agreement with quantifier definitions",
 "Exact decision on endpoints; generator biased to coinciding endpoints; small integer grids are enumerated.")

prop("C13", "Lexicographic and set comparisons are the documented orders",
 "Under the lexicographic comparisons non-empty intervals are totally ordered by lower bound and then upper bound, a number behaves like a one-point interval, and an empty or NaN operand throws the comparison error. Under the set comparisons the operators are the subset, proper subset, superset, equality and inequality relations, with the empty interval a subset of everything, equal only to empty, for intervals of equal or different policies; comparing with a plain number throws the comparison error.",
 ["inputs", "configurations"], "all pairs and triples of intervals (incl. empty) in every relative position x 6 operators x same/mixed policies",
 "Order axioms are statements about all triples; boundary arrangements and empties are where single comparisons go wrong.",
 ["compare/lexicographic.hpp", "compare/set.hpp", "utility.hpp"],
 [M("lexicographic operators", "compare/lexicographic.hpp"), M("set operators", "compare/set.hpp"), M("subset/proper_subset/equal", "utility.hpp")],
 "return value or exception type",
 PBT + ": exact definitions plus order laws over triples",
 "Exact decision on endpoints and law checking; small grids are enumerated.")

prop("C14", "Set operations agree with the model of closed sets of numbers",
 "Intersection, hull (of intervals, numbers, or both), membership, zero membership, subset, proper subset, overlap, emptiness, singleton and equality tests give exactly the answer computed on the sets of points the operands denote, with empty intervals handled as the empty set and NaN numbers ignored by hull. Intersection returns the exact common part (empty when disjoint) and hull the smallest interval covering both operands, without any rounding.",
 ["inputs", "configurations"], "all interval/number operands in every relative position, incl. empties where the policy allows x base types x policies",
 "Each predicate has its own chain of bound comparisons; agreement must hold in all of the 13 relative positions and their degenerate forms.",
 ["utility.hpp", "utility_fwd.hpp", "interval.hpp"],
 [M("set-like operations", "utility.hpp"), M("static hull", "interval.hpp")],
 "returned intervals and booleans",
 PBT + ": agreement with an endpoint set model; algebraic laws",
 "Exact model; generator biased to shared endpoints and empties; small grids are enumerated.")

prop("C15", "Width, median, norm, bisection, widening and bound access meet their definitions",
 "For a non-empty interval over a floating-point or built-in signed integer type (as long as the numbers involved are representable) the width is the exact difference of the bounds rounded up, the norm is the largest absolute value of its points, the median is the midpoint correctly rounded to nearest when the sum of the bounds neither overflows nor underflows and in any case lies inside a bounded interval, and bisection returns two intervals that meet at the median and together cover exactly the original. Widening by a number moves each bound outward by at least that amount with tight directed rounding. For an empty interval (under a policy allowing it) the width is zero, the median, norm and checked bounds are the checking policy's not-a-number value (however the policy stores empty intervals), and bisection and widening return empty intervals.",
 ["inputs", "configurations"], "all intervals incl. huge, subnormal, half-infinite and empty x base types x rounding policies",
 "Overflow of the sum of bounds, rounding direction of the width and behaviour on empties appear only for extreme operands.",
 ["utility.hpp", "rounded_arith.hpp"],
 [M("width/median/widen/bisect/norm", "utility.hpp"), M("median", "rounded_arith.hpp")],
 "returned numbers and intervals",
 PBT + ": MPFR reference values",
 "Bit-exact comparison with MPFR; median of half-infinite or unbounded intervals is only required not to lose points on bisection.")

prop("C16", "Construction, conversion and assignment enclose their source and are tight",
 "Building or assigning a floating-point interval from a number or a pair of numbers of any built-in arithmetic type, or from an interval with another base type (built-in integers included) or other policies, gives the smallest representable interval that contains the source; same-type sources are taken over unchanged. A pair with a NaN or with the first number above the second, a NaN, or an empty source interval gives the empty interval or the error configured by the target's checking policy. Copying preserves bounds, default construction gives exactly zero, and the entire-line and empty factories give what they name.",
 ["inputs", "configurations"], "all values of the built-in arithmetic types (incl. extreme integers) as sources x 3 target base types x checking policies x construction and assignment forms",
 "Conversions between formats round only for values outside the common range, and extreme integers stress the negation trick; tests use small constants.",
 ["interval.hpp", "rounded_arith.hpp"],
 [M("constructors and assignments", "interval.hpp"), M("conv_down/conv_up", "rounded_arith.hpp")],
 "bounds of the constructed interval or exception type",
 PBT + ": MPFR-rounded reference conversion",
 "Bit-exact comparison with MPFR directed conversion for every source type.")

prop("C17", "Checking policies decide what happens to empty results and invalid numbers",
 "Whenever an operation's documented result is empty (empty or NaN operands, out-of-domain arguments, zero divisor, disjoint intersection, reversed bounds) the policy decides the outcome: a policy that allows empty intervals returns one that is recognised as empty, a policy that forbids them throws its creation error and never returns a malformed interval, and a policy that catches invalid numbers throws its invalid-number error when a NaN number is passed where an interval is built or combined. Every arithmetic, algebraic or transcendental function of an empty interval is empty, and when no operand is empty or NaN and the result is non-empty, all checking policies give the same interval and no error. Measures of an empty interval are zero (width) or the policy's own not-a-number value, and membership tests on it are false, whatever bounds the policy stores.",
 ["inputs", "configurations", "fault_sequences"], "all operations x all combinations of checking policies (base, no-NaN, no-empty, catch-NaN, strict, user exceptions) x valid, empty and NaN operands",
 "The behaviour is a product of policy and operation; tests sample few cells of that table and only with one policy.",
 ["checking.hpp", "interval.hpp", "arith.hpp", "arith2.hpp", "utility.hpp", "transc.hpp", "detail/test_input.hpp"],
 [M("checking policies", "checking.hpp"), M("operand tests", "detail/test_input.hpp")],
 "returned interval, emptiness test, exception type",
 PBT + ": policy x operation table driven by generated operands against a reference outcome model",
 "The reference outcome is computed from the operation's documented domain; every cell of the policy/operation table is sampled each run (counted).")

prop("C18", "A throwing operation leaves operands and rounding state untouched",
 "When an assignment, compound assignment or any function throws because of the checking policy (forbidden empty interval, invalid number), every operand including the assignment target keeps the bounds it had before the call. Afterwards the processor rounding mode is what it was before the call, and later operations give correct results.",
 ["inputs", "histories", "fault_sequences"], "all throwing calls (target state, operand values, policy, ambient rounding mode) and sequences of successful and throwing calls",
 "An assertion-style test checks that the exception is thrown, not that the target kept both bounds or that the rounding mode was restored.",
 ["interval.hpp", "arith.hpp", "rounding.hpp", "checking.hpp"],
 [M("assignment and set_empty", "interval.hpp"), M("state saving guard", "rounding.hpp")],
 "bounds of all operands and rounding mode after catching",
 "stateful " + PBT + ": histories with injected policy errors",
 "Histories of random calls with faults injected through operands; comparison of full state before/after.")

prop("C19", "Rounding state is transparent with protected rounding",
 "With the default protected rounding policy every operation, whether it returns or throws, restores the processor rounding mode that was active before it, and its result does not depend on that mode (nearest, upward, downward or toward zero). Explicit protection guards restore the mode on scope exit in any nesting order, also when the program itself set another direction inside their scope, and any interleaving of guards, protected and guarded unprotected operations gives the same results as isolated calls in the default mode.",
 ["histories", "inputs", "configurations"], "all sequences of operations, guards and ambient mode changes x 4 rounding modes x 3 base types",
 "Tests run in round-to-nearest and check a state only after one operation; leaks matter only to the code that runs next, in histories.",
 ["rounding.hpp", "rounded_arith.hpp", "detail/c99sub_rounding_control.hpp", "hw_rounding.hpp", "policies.hpp"],
 [M("state saving guard", "rounding.hpp"), M("unprotect", "policies.hpp"), M("hardware control", "detail/c99sub_rounding_control.hpp")],
 "processor rounding mode before/after, results across modes",
 "stateful " + PBT + ": generated histories of guards, modes and operations vs. isolated evaluation",
 "Every public operation is run in all four ambient modes; histories with nested guards are checked after each step.")

prop("C20", "Rounding policies are interchangeable: same results from every hardware policy",
 "For float, double and long double, the mode-switching policy, the single-mode (negation) policy, their protected forms, and their unprotected forms used under a live protection guard produce identical intervals for every arithmetic and algebraic operation, including chains of operations.",
 ["inputs", "configurations", "programs"], "all operations and short operation chains x operand values x {std,opp} x {protected, unprotected under guard} x 3 base types",
 "The two policy families implement every operation by different formulas; equality must hold for every operand, and tests never compare them.",
 ["rounded_arith.hpp", "rounding.hpp", "policies.hpp", "hw_rounding.hpp"],
 [M("rounded_arith_std/opp", "rounded_arith.hpp"), M("save_state/unprotect", "rounding.hpp")],
 "bounds returned under each policy",
 "differential " + PBT + " across rounding policies",
 "Differential comparison of four policy forms over generated operands and chains.")

prop("C21", "Inclusion survives arbitrary programs of interval operations",
 "For every program built from the library's arithmetic, algebraic and set operations (compound assignment, division, square, root, absolute value, powers, hull, intersection with known-containing sets, conversions between base types) and every choice of points in its inputs, each intermediate interval contains the exactly computed value of the corresponding real-number program, and the rounding mode is unchanged at the end. Replacing the inputs by larger enclosing intervals gives results that contain the original results for arithmetic, square, square root, absolute value and integer powers.",
 ["programs", "histories", "inputs"], "all straight-line programs over a register file of intervals with exact rational shadow values x base types",
 "Inclusion has to compose over any history of operations on mutated variables; unit tests evaluate two fixed polynomials.",
 ["arith.hpp", "arith2.hpp", "utility.hpp", "interval.hpp"],
 [M("operators", "arith.hpp"), M("algebraic functions", "arith2.hpp"), M("set operations", "utility.hpp")],
 "membership of exact shadow values in each register; subset relation between nested runs",
 "stateful/model-based " + PBT + ": random programs with exact rational shadow evaluation",
 "Model-based generation; shadow values are exact rationals (program restarts when they grow too large).")

prop("C22", "The library works unchanged over user-defined number types",
 "With a user-supplied base type, rounding policy and checking policy that satisfy the documented requirements, arithmetic, algebraic, set, comparison and modulo operations compute the exact set semantics: over exact rationals with exact rounding results are the exact images, and over a small finite number grid with directed rounding they are the tightest enclosures in that grid. Transcendental functions enclose their exact images with the generic default enclosures of pi. The sign tests that a user may specialise for a type are honoured wherever a sign decision is made, and the rounding policy is only used as its interface documents: its functions are called on a live rounding object, every object is destroyed again, and with arguments in their domain (no division by zero, no root of a negative number).",
 ["inputs", "configurations"], "all operands over an exact rational type and exhaustively or randomly over a small finite grid type x operations",
 "User types are the extension point of the library; tests instantiate one or two with single values and never compare against the grid's exhaustive set semantics.",
 ["arith.hpp", "arith2.hpp", "detail/division.hpp", "detail/test_input.hpp", "rounding.hpp", "checking.hpp", "utility.hpp"],
 [M("operators written against the policy interface", "arith.hpp"), M("user sign tests", "detail/test_input.hpp")],
 "bounds of results over the user types",
 PBT + " over user-defined exact and grid number types, with enumeration of small grids",
 "Exact reference on rationals; brute-force set semantics on the grid type.")

prop("C23", "Scalar rounding building blocks bracket the exact value",
 "For every provided rounding policy (exact, mode-switching, single-mode; C99 and x87 control), the 'down' and 'up' variant of each scalar operation, conversion and square root return the largest representable value not above and the smallest not below the exact result, the integer roundings return the neighbouring integers, and the midpoint is correctly rounded (on x87 with excess precision: one of the two neighbours). For transcendental building blocks layered over scalar functions that respect the current rounding direction, the 'down' value never exceeds and the 'up' value is never below the exact value (and both are the nearest such values when the scalar functions are correctly rounded), and in the unprotected single-mode policy the processor is left in the mode the policy requires.",
 ["inputs", "configurations"], "all scalar operands x {add,sub,mul,div,sqrt,conversion,integer rounding,midpoint, 14 transcendental functions} x policies x control back ends x 3 base types",
 "Each policy/back-end/function cell is separate code selected by configuration; the default build exercises one row of the table.",
 ["rounded_arith.hpp", "rounded_transc.hpp", "detail/c99_rounding_control.hpp", "detail/c99sub_rounding_control.hpp", "detail/x86_rounding_control.hpp", "detail/x86gcc_rounding_control.hpp", "ext/x86_fast_rounding_control.hpp", "rounding.hpp"],
 [M("rounded arithmetic", "rounded_arith.hpp"), M("rounded transcendental", "rounded_transc.hpp"), M("control back ends", "detail/x86gcc_rounding_control.hpp")],
 "scalar results and processor control state",
 PBT + ": MPFR directed results per policy/back-end cell; x87 back ends run through -mfpmath=387 builds",
 "Bit-exact comparison for arithmetic; bracketing for transcendental blocks. Non-x86 back ends cannot run here.")

prop("C24", "Text output and numeric limits describe the interval faithfully",
 "Writing an interval to a stream produces exactly an opening bracket, the two bounds as the stream would print them, separated by a comma, and a closing bracket, or an empty pair of brackets for an empty interval, for every stream formatting state and character type (a pending field width applies to the opening bracket, or to the empty pair), so that parsing printed bounds at full precision recovers them. The numeric-limits specialisation returns one-point intervals at the base type's limits, the entire line for infinity, an empty interval for NaNs where the policy allows empties and the policy's error where it does not, and reports the base type's digits and radix.",
 ["inputs", "configurations"], "all intervals x stream format states x narrow/wide streams x base types x policies",
 "Formatting state interacts with the printed bounds in ways a single expected string does not cover; the limits members are never instantiated by the tests.",
 ["io.hpp", "limits.hpp"],
 [M("stream output", "io.hpp"), M("numeric_limits specialisation", "limits.hpp")],
 "produced text; values of the limits members",
 PBT + ": differential against printing bounds separately, parse round-trip",
 "Differential and round-trip oracle over generated stream states.")

prop("C27", "Intervals of built-in integers are exact while the numbers fit",
 "For the built-in signed integer types as base types, with the default policies or the provided policies that allow empty intervals: as long as the numbers involved are representable, addition, subtraction, multiplication, negation, division with whole-number quotients, absolute value, square, non-negative integer power, minimum, maximum, widening, hull, intersection, and modulo of a non-negative interval by a positive number give exactly the image interval; width and norm are exact, the midpoint lies between the bounds and is the half sum up to one rounding; set tests, membership and all comparisons follow their definitions; division by zero, disjoint intersections and reversed bounds give an empty interval or the policy's error; and conversion to a wider integer type is exact while conversion to a floating type is the tightest enclosure.",
 ["inputs"], "all operands of five signed integer types x operations x two policies, where the exact numbers fit the type",
 "The default policy for integer base types takes separate code (exact rounding, integer checking) that tests touch with a handful of small values; extremes of the range and sign configurations are unsampled.",
 ["interval.hpp", "arith.hpp", "arith2.hpp", "utility.hpp", "detail/division.hpp", "rounding.hpp", "checking.hpp", "compare/explicit.hpp"],
 [M("default rounding for exact types", "rounding.hpp"), M("case splits", "arith.hpp"), M("division kernels", "detail/division.hpp")],
 "bounds of results over integer base types",
 PBT + " against 128-bit integer arithmetic, under the undefined-behaviour sanitizer",
 "Operations whose textbook formula leaves the type are not judged (the library makes no promise about overflow).")

prop("C28", "Provided rounding policies work over user types with a rounding direction",
 "Given a number type that computes in its own current rounding direction and a rounding control that switches that direction, the library's mode-switching and single-mode rounding policies (with the matching transcendental layer, and with state saving) give correct intervals over it: arithmetic, square root, comparison and set results agree with the exact image rounded outward on the type's grid, the midpoint lies between the bounds, elementary functions enclose every value, also when the type keeps excess precision until the control forces rounding; this holds from whatever direction is current when the operation is called, the direction is the same afterwards, and under a rounding guard the unprotected type gives the same guarantees after any sequence of operations.",
 ["inputs", "configurations", "histories"], "all operands of small grid types x operations x two policies x protected or not x excess precision x ambient direction",
 "The tests only use float and double on hardware whose result registers hide most mistakes; a user type with its own direction exposes each missing or wrong switch, each negation and each place where rounding must be forced.",
 ["rounded_arith.hpp", "rounded_transc.hpp", "rounding.hpp", "arith.hpp", "arith2.hpp", "transc.hpp", "utility.hpp", "interval.hpp", "detail/division.hpp"],
 [M("mode-switching and single-mode arithmetic", "rounded_arith.hpp"), M("transcendental layers", "rounded_transc.hpp"), M("saving and restoring state", "rounding.hpp")],
 "bounds of results over a user number type and its rounding direction after every call",
 PBT + " against brute-force set semantics on a grid type with its own rounding direction",
 "The type's grid is small; its bounds, infinities and directions are those of a floating type with few bits.")

prop("C29", "Infinite and empty bounds are made by the checking policy",
 "Whenever the library itself creates an infinite bound, that bound is the one the checking policy provides: the lower bound is the policy's negative infinity and the upper its positive infinity, also when these are not opposite numbers, when the base type has no infinity of its own, and when the policy reports an error instead. The entire line is made of the two, in that order, in the named constructor, in numeric_limits and in every operation that returns it. A bound is infinite in exactly the same cases, and every other bound has the same value, whatever the infinities are; and an empty result is stored with the bounds the policy gives to the empty interval.",
 ["inputs", "configurations"], "all small operands x all operations x checking policies with their own infinities (opposite or not, finite, throwing) x floating and integer base types",
 "Under the provided policies the policy's infinities are those of numeric_limits and opposite to each other, so a bound made in another way is indistinguishable in any test over the provided policies.",
 ["checking.hpp", "interval.hpp", "arith.hpp", "arith2.hpp", "detail/division.hpp", "transc.hpp", "limits.hpp"],
 [M("infinities and empties of a policy", "checking.hpp"), M("divisions by an interval with zero", "detail/division.hpp"), M("whole and empty results", "interval.hpp")],
 "bounds of results whose exact image is unbounded, under policies with distinctive infinities",
 PBT + ": differential between the base policy and policies with their own infinities, with enumeration of small operands",
 "Where the base policy's bound is infinite the other policy's own infinity is expected; operands are small so that no bound overflows.")

prop("C30", "Headers, translation units and initialisation compose freely",
 "A program that includes the main header, or only the headers that the documentation names for what it uses, compiles with any conforming compiler and language version whatever the order of the headers and whatever else is included before, between or after them, also when min and max are macros and when the program has global names equal to names of the library; after the headers the program's own names are usable (no helper macro stays defined) and using directives for std and boost::numeric leave the library's functions callable. Any number of translation units with different sets of headers link together. Every use of the library gives the same results in such a program as in a single unit that includes everything: when it runs during static initialisation, in main or after it, from whichever unit it is called, and whatever rounding direction was current when the program or the first use started.",
 ["configurations", "schedules", "inputs"], "all sets and orders of public headers per translation unit x one to three units x uses of the library x moments of execution x compilers, language versions and options",
 "The tests are single files that include the main header and run in main; the headers are documented as independent, and a missing include, a definition without inline, a constant initialised too late, or a name that a program also uses, only shows in another composition.",
 ["arith.hpp", "arith2.hpp", "arith3.hpp", "utility.hpp", "transc.hpp", "constants.hpp", "limits.hpp", "io.hpp", "compare.hpp", "policies.hpp", "rounding.hpp"],
 [M("header independence", "arith2.hpp"), M("constants", "constants.hpp"), M("hardware rounding", "hw_rounding.hpp")],
 "compiler and linker verdict and the printed results of generated programs",
 PBT + ": generated multi-unit programs, differential against one reference unit with all headers, failures shrunk to a minimal program",
 "The reference program fixes what every use should print; a fault common to both is left to the other properties. Optimised programs contain only uses whose results are exact.")

prop("C26", "Threads using the library at the same time do not influence each other",
 "Intervals can be used from several threads at once, each with its own rounding mode and its own rounding guards: every operation, comparison, text output and scalar function returns on a thread exactly what the same program returns when it runs alone, each thread's rounding mode is afterwards what it was before, and concurrent use of distinct intervals, or concurrent reading of one constant interval, involves no data race.",
 ["schedules", "histories", "inputs", "configurations"], "all programs on two or more threads over own objects and shared constant objects x ambient rounding mode per thread x rounding policies x base types",
 "The tests are single-threaded. A shared scratch variable, a saved mode in static storage or a lazily initialised constant gives right answers in every single-threaded test.",
 ["rounding.hpp", "hw_rounding.hpp", "detail/c99_rounding_control.hpp", "detail/c99sub_rounding_control.hpp", "constants.hpp", "arith.hpp", "interval.hpp"],
 [M("saving and restoring the rounding mode", "rounding.hpp"), M("rounding control of the processor", "detail/c99_rounding_control.hpp"), M("constants of pi", "constants.hpp")],
 "results, exceptions and rounding state of each thread compared with the same program run alone; data races seen by the thread sanitizer",
 PBT + ": generated programs on concurrent threads against the same programs run alone, under ThreadSanitizer (races) and natively (results)",
 "The schedules are those the operating system produces for threads started together (repeated natively); ThreadSanitizer finds unsynchronised accesses independently of the timing that makes them visible.")

prop("C25", "Rounding control back ends of other processors and compilers",
 "On PowerPC, Sparc, Alpha and IA-64, with the Microsoft, Borland and Sun compilers, and on unknown processors with <fenv.h>, the rounding-control back end that the library selects establishes the direction it is asked for, saves and restores the control state (leaving no floating-point trap enabled that was not), rounds to integers in the current direction for every base type, and its headers are accepted by a conforming compiler; so the default policies give the same tight bounds there as anywhere else, protected or under a guard.",
 ["configurations", "histories", "inputs"], "all supported back ends x base types x initial states of the control register x sequences of mode switches, scalar operations and interval operations",
 "The tests run only on the machine they are compiled for, so a wrong mode constant, a mask that loses part of the control register or a conversion through a narrower type in another back end is never executed.",
 ["detail/ppc_rounding_control.hpp", "detail/sparc_rounding_control.hpp", "detail/alpha_rounding_control.hpp", "detail/ia64_rounding_control.hpp", "detail/msvc_rounding_control.hpp", "detail/bcc_rounding_control.hpp", "detail/x86_rounding_control.hpp", "detail/c99sub_rounding_control.hpp", "hw_rounding.hpp"],
 [M("mode constants and register access", "detail/ppc_rounding_control.hpp"), M("translation of control words", "detail/msvc_rounding_control.hpp"), M("choice of the back end", "hw_rounding.hpp")],
 "scalar and interval results against MPFR and a control written in the harness, and every bit of the (emulated) control register after each guard",
 PBT + " with emulated control registers: inline assembly and intrinsics of the back ends are redirected to a model of the register",
 "The processors themselves are not here: the register transfer is emulated from its documentation (assembly text is interpreted by the harness) and arithmetic is the host's. Borland's long double, Sparc under KCC and the inline assembly for old Microsoft compilers are not run.")

NA = []

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=[p["observe"]]))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")

CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=list(NA),
  notes="Every check compiles its harness against /repo/include at run time (build/ is ignored by git) and runs generated-input search; see DESIGN.md. No hooks are needed in /repo. Known findings and fixed defects: known_findings.txt.")
for p in P:
    if p["technique"] is None: continue
    if p["id"] not in CLAIMED:
        man["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
        continue
    man["checks"].append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']}", thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]))
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
