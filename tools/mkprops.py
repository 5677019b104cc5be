#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run to regenerate it.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe,hook_needed=None)))
T="The only test is a demo program that runs to completion with no assertions; "

p("C01","A bit-field behaves as a vector of independent bits",
 "For every sequence of operations on a bit-field, each bit holds exactly what the last operation that covers it wrote, reads of bits, 0..32-bit unsigned fields and floats return exactly the addressed bits (least significant first; bits beyond the end read as zero and excess written bits are dropped), and no operation changes any other bit or any byte outside the supplied area. Operations on an unconfigured bit-field, field widths above 32 and dumps longer than the area are refused without side effects.",
 ["inputs","histories","configurations"],"all area sizes, all contents, all indices, all field widths and values, all operation sequences",
 T+"it touches a handful of aligned indices of one bit-field.",
 ["src/bitfield.cpp","src/include/bitfield.hpp"],
 [("slot/offset arithmetic, mask merge","bitfield::read_uint32 / write_uint32 / readUINTn / writeUINTn")],["bitfield::*"])
p("C02","A tapped delay line returns the sample inserted exactly i steps ago",
 "After any history of set-up, flush and insertions on a tapped delay line of n>=1 elements, the element at delay i (0<=i<n) is the i-th most recently inserted sample, or the last flush/set-up value if fewer samples were inserted since; the most recent and oldest accessors agree with delays 0 and n-1, operator index -1 also addresses the oldest sample, and any other out-of-range operator index yields NaN. Only the n supplied elements are ever accessed.",
 ["histories","inputs","configurations"],"all line lengths n>=1, all insert/flush histories, all indices",
 T+"it prints one short run of one line.",
 ["src/tdl.cpp","src/include/tdl.hpp"],[("circular read/write cursors","tdl::insertSample/getAtIndex/operator[]/flush")],["tdl::getAtIndex","tdl::operator[]","tdl::getOldest","tdl::getRecent"])
p("C03","Transport delays reproduce the input a fixed number of samples later",
 "A transport delay of N samples outputs, at every step of every input history, exactly the input given N steps earlier, and its initial value during the first N steps; converting a delay time to samples gives time/step rounded to the nearest integer. An LTI system given an input-delay line of d elements behaves exactly like the same system without delay fed by the input d-1 steps earlier (initial value before that).",
 ["histories","configurations"],"all N, all initial values, all input histories",
 T+"it never compares a delayed output with its input history.",
 ["src/include/ltisys.hpp","src/ltisys.cpp","src/tdl.cpp"],[("transportDelay ring","transportDelay::delay"),("input delay line","ltisys::setDelay / excite")],["transportDelay::delay","ltisys::excite"])
p("C04","CRC equals polynomial division for every message and parameter set",
 "For every message and every choice of width (8/16/32), polynomial, initial value, input/output reflection and final xor, the generic CRC equals the remainder of the standard bit-serial polynomial division under those parameters; a null or empty message yields 0. Every named CRC variant equals the catalogue parameter set that its documentation names.",
 ["inputs","configurations"],"all messages, lengths, polynomials, initial values, reflection flags and final xors",
 T+"it computes a few named CRCs of one message.",
 ["src/crc.cpp","src/include/crc.hpp"],[("shift register","crc::generic, crc::reflect"),("presets","crc::crc8...crc32_XFER")],["crc::generic","crc::crc*"])
p("C05","Sorting yields an ordered permutation of exactly the selected range",
 "For every array, every element range and every strict weak order (the default less-than or a supplied comparison), sorting leaves the selected range (both end positions inclusive) in non-decreasing order and a permutation of what it held, and leaves every element outside the range unchanged. Binary search on a sorted range returns an element equal to the key inside the range exactly when one exists, and null otherwise.",
 ["inputs"],"all array contents, lengths, ranges and comparison functions",
 T+"it sorts one array.",
 ["src/include/algorithm.hpp"],[("non-recursive quick sort","algorithm::sort"),("bisection","algorithm::binary_search")],["algorithm::sort","algorithm::binary_search"])
p("C06","Array algorithms act on exactly the selected elements",
 "For every array and range (end positions inclusive), reverse, fill, replace, replace_if, for_each, find, find_if, any_of, all_of and count_if give the result of the standard algorithm of that name on exactly that range (finds return the first match, replaces change all matches) and touch nothing outside it. Rotation by any signed k shifts every element k places to the right cyclically (to the left for negative k), and swap exchanges two values.",
 ["inputs"],"all array contents, ranges, predicates and rotation counts",
 T+"it exercises one reverse/rotate on one array.",
 ["src/include/algorithm.hpp"],[("index loops","algorithm::*")],["algorithm::*"])
p("C07","Fixed-point arithmetic is correctly rounded or reports overflow",
 "For every pair of non-overflow Q16.16 operands, addition, subtraction and negation are exact and multiplication and division return the exact result rounded to nearest (within 1 LSB), and whenever the rounded result leaves the representable raw range [-2147483647,2147483647] the overflow value is produced instead of a wrapped number. Comparison operators order operands as the real numbers they represent, compound assignment and mixed operand forms agree with the plain operators, and division by zero yields the most negative value.",
 ["inputs"],"all pairs of 32-bit raw values",
 T+"it prints a few products of small numbers.",
 ["src/fp16.cpp","src/include/fp16.hpp"],[("overflow flags, rounding carry","fp16::add/sub/mul/div/saturate")],["fp16 operators"])
p("C08","Fixed-point conversions and integer rounding are exact",
 "For every Q16.16 value, conversion to double is exact, conversions to float and integer give the nearest representable number, decimal text with 0 to 5 decimals is the correctly rounded decimal expansion, and construction from any int, float or double yields the nearest Q16.16 value or the overflow value when it is out of range or NaN. Floor, ceiling, nearest-integer rounding and absolute value are exact or report overflow.",
 ["inputs"],"all 2^32 raw values, all decimal strings up to a length",
 T+"it converts a few constants.",
 ["src/fp16.cpp","src/include/fp16.hpp"],[("conversion routines","fp16::toASCII/fromASCII/toFloat/toInt/floor/ceil")],["fp16 conversions"])
p("C09","Fixed-point elementary functions stay within error bounds on their domain",
 "For every Q16.16 argument in the domain, sqrt, exp, log, log2, sin, cos, tan, asin, acos, atan, atan2, sinh, cosh, tanh, pow and the angle wrapping and conversion functions return the real function value within a small fixed error bound for that function (a few LSB for most; about 0.01 rad for the inverse trigonometric functions). Outside the domain or the representable range they give the overflow value or the saturated maximum, never a wrapped number, and exact anchors (sqrt(0)=0, exp(0)=1, sin(0)=0) hold. The named Q16.16 constants are within one LSB of their values.",
 ["inputs"],"all 2^32 raw arguments (all unary functions)",
 T+"it prints a few function values.",
 ["src/fp16.cpp"],[("series / iterations with overflow guards","fp16::sqrt...pow")],["fp16::*"])
p("C10","Floating-point classification and rounding are exact for every float",
 "For every 32-bit float, the classification predicates (NaN, infinite, finite, normal, sign), copy-sign, absolute value, sign, floor, ceil, round, trunc, fractional part and next-representable functions give the IEEE-754 result, including zeros, subnormals, infinities and NaN. Approximate equality, min, max and clamping agree with their definitions for every pair of special and boundary values.",
 ["inputs"],"all 2^32 float bit patterns (unary), all pairs of a boundary alphabet (binary)",
 T+"it evaluates a few functions at a few points.",
 ["src/ffmath.cpp","src/include/ffmath.hpp"],[("bit-level manipulation","ffmath::classify/floor/ceil/round/trunc/nextAfter")],["ffmath::*"])
p("C11","Floating-point elementary functions approximate the real function everywhere",
 "For every finite float in the domain, sqrt, rSqrt, cbrt, rCbrt, recip, exp, exp2, exp10, expm1, log, log2, log10, log1p, the trigonometric (|x| up to 1e5), hyperbolic and their inverse functions return the real function value within a fixed small error bound for that function. Special arguments (zero, infinities, NaN, negative arguments of roots and logarithms) give the conventional IEEE result; subnormal arguments of roots and logarithms are outside this property. The named single-precision constants are the floats nearest to their values.",
 ["inputs"],"all 2^32 float bit patterns per function",
 T+"it evaluates a few functions at a few points.",
 ["src/ffmath.cpp"],[("range reduction + polynomial","ffmath::*")],["ffmath::*"])
p("C12","Two-argument and geometric float helpers meet their definitions",
 "Modulo, remainder, power (non-negative base, or negative base giving NaN), hypot, atan2 (not both zero), load/extract exponent, linear interpolation, midpoint, range mapping, angle wrapping (a congruent angle inside the closed interval), range normalisation and range coercion return the mathematically defined value within rounding for every combination of arguments, including signs, zeros and boundary values. Point-in-polygon and point-in-circle answer according to plane geometry for every point not on the boundary, for every polygon orientation.",
 ["inputs"],"all combinations over boundary-value alphabets and dense grids; all small integer polygons and points",
 T+"it does not exercise them.",
 ["src/ffmath.cpp","src/include/ffmath.hpp"],[("argument reduction, interval arithmetic","ffmath::mod/rem/pow/hypot/atan2/lerp/inPolygon")],["ffmath::*"])
p("C13","Special functions and orthogonal polynomials match their definitions",
 "erf, erfc, tgamma, lgamma, factorial, beta, comp./incomplete elliptic integrals, expint, the Riemann zeta function, spherical and cylindrical Bessel, Neumann and modified Bessel functions, spherical Legendre functions and the (associated) Laguerre, (associated) Legendre and Hermite polynomials return the mathematical value within a fixed error bound over their documented argument range. Out-of-domain arguments yield NaN (or the conventional infinity at a pole) rather than a number.",
 ["inputs"],"all orders up to a bound crossed with dense argument grids over the domain",
 T+"it evaluates a few of them at one point.",
 ["src/ffmath.cpp"],[("series, recurrences and quadratures","ffmath special functions")],["ffmath::*"])
p("C14","Window filters compute their window statistic for every input history",
 "For every window length and input history, both moving-window means output the mean of the last n inputs (the window being pre-filled by the first sample), the two moving outlier filters reject a sample that is farther than alpha*|window mean| from the window mean by outputting that mean and pass every other sample unchanged, and the Gaussian filter outputs the normalised-weight sum of the window. The array-based and delay-line-based variants give the same outputs for the same history up to rounding.",
 ["histories","configurations"],"all window lengths 1..k, all input sequences over a value alphabet up to a depth, including reset at any point",
 T+"it never compares a filter output to anything.",
 ["src/smoother.cpp","src/include/smoother.hpp","src/ffmath.cpp"],[("window shift / ring","smootherMWM1/2, MOR1/2, GMWF")],["smoother::smooth"])
p("C15","Recursive smoothers follow their difference equation and stay bounded",
 "For every parameter set accepted and every input history, the low-pass (first and second order), exponential, double-exponential, Kalman and adaptive (LMS) smoothers follow their documented update equation from the first sample on, and all but the double-exponential one reproduce a constant input (up to rounding). The first-order low-pass, exponential and Kalman smoothers never leave the range of the inputs seen since the last reset.",
 ["histories","configurations"],"all admissible parameter alphabets x all input sequences up to a depth, reset at any point",
 T+"it never compares a filter output to anything.",
 ["src/smoother.cpp","src/include/smoother.hpp"],[("update laws and first-sample initialisation","smootherLPF1/LPF2/EXPW/KLMN/DESF/ALNF")],["smoother::smooth"])
p("C16","Smoother configuration is validated and reset is complete",
 "Every smoother's set-up refuses factors outside the open interval (0,1), non-positive covariances or Gaussian widths, null buffers and zero window sizes, accepts every admissible set, and a refused set-up or parameter setter leaves the filter's behaviour unchanged. After reset at any point of any history a smoother behaves exactly as a freshly configured one, and buffers outside those supplied are never accessed.",
 ["histories","configurations"],"all boundary parameter values, all histories up to a depth, reset at every point",
 T+"it configures each filter once with valid parameters.",
 ["src/smoother.cpp"],[("setup guards, init flag","smoother*::setup / reset")],["smoother*::setup","smoother::reset"])
p("C17","Numerical integrators and differentiators follow their quadrature rule",
 "For every input history and every selectable method, the state element's integral equals the cumulative rectangular, trapezoidal, Simpson (dt/6*(s+4s1+s2)) or quadratic (dt/12*(5s+8s1-s2)) rule and its derivative the two-point, three-point backward or three-point forward rule applied to the input sequence with the given step. Switching methods, evaluating without updating the state, and initialising with arbitrary values at any point affect only subsequent outputs as documented.",
 ["histories","configurations"],"all methods, all input sequences over an alphabet up to a depth, all method switches",
 T+"it never compares integrator outputs to anything.",
 ["src/numa.cpp","src/include/numa.hpp"],[("three-sample memory","nState::integrate/derive")],["nState::integrate","nState::derive"])
p("C18","A discrete LTI system computes its difference equation",
 "For every numerator and denominator (any lengths, any leading coefficient), saturation limits and input history, the discrete system's output equals the direct evaluation of the difference equation normalised by the leading denominator coefficient, clamped to the configured limits. Initial states are applied in the given order, invalid configurations are refused, and no coefficient or state outside the supplied arrays is accessed.",
 ["histories","configurations"],"all orders up to a bound, coefficient alphabets, all input sequences up to a depth",
 T+"it runs one system and prints.",
 ["src/ltisys.cpp","src/include/ltisys.hpp"],[("direct-form state update","discreteSystem::update / setup")],["ltisys::excite"])
p("C19","A continuous LTI system integrates its transfer function",
 "For every proper transfer function (any leading coefficient), integration method, saturation limits and input history, the continuous system's output equals that of the controllable state-space realisation of the normalised transfer function, including direct feed-through, integrated with the selected rule at the given step, clamped to the limits. Its steady state under constant input of a stable system is the DC gain times the input.",
 ["histories","configurations"],"orders up to a bound, coefficient alphabets, methods, all input sequences up to a depth",
 T+"it runs one system and prints.",
 ["src/ltisys.cpp","src/numa.cpp"],[("controllable canonical form","continuousSystem::update")],["ltisys::excite"])
p("C20","A PID controller never outputs outside its saturation limits",
 "For every history of control steps, set-point/measurement values (including NaN and infinities), gain, mode, direction, anti-windup, tracking, auto-tuning and reset operations, a configured PID controller's output is a number inside the configured saturation limits. An unconfigured controller, an invalid time step or invalid limits are refused with no effect.",
 ["histories","inputs","configurations"],"all operation sequences up to a depth over a value alphabet including extreme values",
 T+"it closes one loop with benign values and prints.",
 ["src/pid.cpp","src/include/pid.hpp"],[("output saturation","pidController::control / saturate")],["pidController::control"])
p("C21","A PID controller implements the parallel PID law in every mode",
 "For every history, in automatic mode the output is the saturation of v = Kc*(b*w-y) + Ki*integral(e + kw*(u-v)) + Kd*filtered derivative of (c*w-y), with errors inside the dead-band taken as zero, reverse direction negating the gains and the model-reference term added when enabled; manual mode outputs the integrated manual input with the same anti-windup. Gain set-ups in any parametrisation (parallel, ideal time constants, series, extra gains) give the same control, and reset clears the state but not the configuration.",
 ["histories","configurations"],"all operation sequences up to a depth over small alphabets, against a reference law",
 T+"it closes one loop and prints.",
 ["src/pid.cpp","src/numa.cpp"],[("control law","pidController::control/error/setParams")],["pidController::control"])
p("C22","PID auto-tuning only installs finite, sane gains and ends on time",
 "For every input/output history while auto-tuning is enabled for n steps, the gains in use stay unchanged until tuning completes, completion never happens before the n-th control step nor for an undefined count and does happen at the n-th step when the estimates are valid, and the gains always stay finite and non-negative in magnitude. On exactly first-order plants the identified gain and time constant converge to the plant's and the estimates reported are the gains installed, and out-of-range tuning parameters are refused with no effect.",
 ["histories","configurations"],"all set-point/disturbance histories up to a depth over small alphabets; all first-order plants on a grid",
 T+"it runs one tuning session and prints.",
 ["src/pid.cpp"],[("recursive least squares with guards","pidAutoTuning::step / control hook")],["pidController::control","getParams"])
p("C23","Membership functions have their documented shape and stay in [0,1]",
 "For every input value and every ordered parameter set, each membership function returns the textbook formula of its shape (scaled by the given height), which always lies in [0,1]; left/right (Z/S) shapes are monotone, peaks reach the height and tails 0, and a negated premise gives one minus the membership. Each Tsukamoto output function is the inverse of its membership function.",
 ["inputs","configurations"],"all shapes x parameter alphabets x dense input grids including every breakpoint",
 T+"it evaluates a few rules at a few inputs.",
 ["src/fisCore.cpp"],[("shape formulas","fis::core::*MF")],["fis::instance::fuzzify"])
p("C24","Fuzzy inference equals the textbook Mamdani/Sugeno/Tsukamoto result",
 "For every rule base (connectives evaluated left to right), input vector, negation, rule weight and choice of and/or/implication/aggregation/defuzzification method, rule strengths, the aggregated output set and the crisp outputs equal the textbook Mamdani, Sugeno or Tsukamoto inference over 100 evaluation points computed independently, and outputs always lie within their declared range. Inference with inputs outside their range equals inference at the nearest range end, and the fis::system front end and stream operators give the same results.",
 ["inputs","configurations"],"all method combinations x small rule bases x input grids",
 T+"it runs the tipper demo and prints.",
 ["src/fis.cpp","src/fisCore.cpp","src/include/fis.hpp"],[("rule interpreter, aggregation, defuzzification","fis::instance::inference/deFuzzify")],["fis::instance"])
p("C25","Malformed fuzzy rules and configurations are rejected safely",
 "For every rule token sequence terminated by the end marker, inference succeeds exactly when the table holds the declared number of rules, each a well-formed IF-antecedent-THEN-consequent over existing inputs, outputs and sets; otherwise it reports failure, and no memory outside the supplied tables is accessed. Configuration calls with null tables, out-of-range tags, shapes or inapplicable methods are refused without changing the system.",
 ["inputs","programs"],"all token sequences up to a length over a small alphabet",
 T+"it uses well-formed rules only.",
 ["src/fis.cpp"],[("rule state machine","fis::instance::inference*")],["fis::instance::inference"])
p("C26","Interpolation reproduces its table and its method's curve",
 "For every strictly increasing table and every method, the interpolated value at a node is the node's value, between nodes it is the method's curve (previous, next, nearest neighbour; chord; sine/cubic/Hermite/spline/constrained-spline curve through the nodes), and the table is never read outside its bounds for any argument. Straight-line data are reproduced by the linear and smooth methods, the constrained spline never overshoots, and tables too short for the method yield NaN.",
 ["inputs","configurations"],"all small integer tables, all methods, dense argument grids inside and outside the table",
 T+"it evaluates one table and prints.",
 ["src/interp1.cpp","src/include/interp1.hpp"],[("segment search and evaluation","interp1::*")],["interp1::get"])
p("C27","The RMS estimator tracks true RMS and validates parameters",
 "For every input history and every admissible window, forgetting factor and smoothing factor the real-time RMS estimate is a finite non-negative number that is the square root of the smoothed exponentially weighted mean square, is invariant to the sign of the inputs, and settles at |x| for constant input x. Parameters outside their ranges are refused with no effect.",
 ["histories","configurations"],"all input sequences up to a depth, all boundary parameters",
 T+"it does not check the estimate.",
 ["src/rms.cpp","src/include/rms.hpp","src/smoother.cpp"],[("exponential window + moving mean + LPF","rms::update")],["rms::update"])
p("C28","Matrix operators obey matrix algebra for every shape",
 "For every matrix shape and content, element access, sums, differences, products, scalar operations, increments/decrements, transpose, norms and (for invertible square matrices) the inverse give the result of ordinary matrix algebra and never access elements outside the matrix.",
 ["inputs","configurations"],"all shapes up to a bound, all contents over a small alphabet",
 T+"the matrix class is not exercised at all.",
 ["src/include/mat.hpp"],[("index loops","mat<R,C>::*")],["mat"])
p("C29","Objects share no hidden state and every function is re-entrant",
 "For every interleaving of operations on two distinct objects of the library (filters, delay lines, LTI systems, controllers, tuners, fuzzy systems, interpolators, matrices, bit-fields, fixed-point numbers) each object gives exactly the results it gives when used alone, and the result of every free or static function depends on its arguments only. This also holds when one call is interrupted at any instruction by a complete call on another object or with other arguments (interrupt handler, preemptive scheduler).",
 ["schedules","histories"],"all operation interleavings of two objects up to a length, and a complete interrupting call at every machine-instruction boundary",
 T+"it is single-threaded and never compares an object used alone with the same object next to others.",
 ["src/smoother.cpp","src/ltisys.cpp","src/pid.cpp","src/fis.cpp","src/fp16.cpp","src/ffmath.cpp","src/numa.cpp","src/interp1.cpp","src/tdl.cpp","src/rms.cpp","src/bitfield.cpp","src/crc.cpp","src/include/mat.hpp","src/include/algorithm.hpp"],[("state kept in members only","all classes")],["all public functions"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
