# property id -> harness and how it is built / reported
TABLE={
 'C01':dict(src='c01_bitfield.cpp',san=True,level='model_checking',
   rule='every (content pattern, operation, index, width, value) step for areas of 4..36 (132) bytes, plus BFS over all operation sequences (40 ops) on a 12-byte field, compared with a one-byte-per-bit model; large sparse field with indices around every power of two; the array form of set-up',
   bounds='depth 4 (thorough 6) histories; 5 content patterns x 9 values x widths 0..34'),
}
TABLE.update({
 'C02':dict(src='c02_tdl.cpp',san=True,level='model_checking',
   rule='complete reachable state space of a delay line of 1..6(7) elements under insert/flush/set-up with 3 sample values, every accessor compared with a list model in every state; long runs on lines up to 70001 elements with every delay checked'),
 'C03':dict(src='c03_delay.cpp',san=True,level='model_checking',
   rule='complete reachable state space of transport delays N=1..9 over 3 input values; all operation sequences of LTI systems with delay windows 1..6 against the undelayed system; long delays up to 70000 samples'),
 'C04':dict(src='c04_crc.cpp',san=True,opt=['-O2'],level='exploration',
   rule='all 8-bit polynomials x one-byte messages, all 16-bit polynomials, all two-byte messages, parameter cross products, every single-bit message position up to 70 bytes, lengths up to 131073; every named variant on all two-byte messages; reference is bit-serial long division'),
 'C05':dict(src='c05_sort.cpp',san=True,opt=['-O2'],level='exploration',
   rule='every array over a small value alphabet for n<=10, every range, 5 orders incl. default; permutation and order checked; larger arrays with adversarial patterns; binary_search on every sorted array, range and key'),
 'C06':dict(src='c06_alg.cpp',san=True,opt=['-O2'],level='exploration',
   rule='every array over {0,1,2} for n<=6 (8), every range, every algorithm, key and predicate compared with the std algorithm; every rotation count in [-100,100] and integer extremes'),
})
TABLE.update({
 'C17':dict(src='c17_numa.cpp',san=True,level='model_checking',
   rule='BFS over all sequences of integrate/derive (with and without state update), method switches and initialisations, against a double-precision quadrature model; long runs of every method pair x signal x step'),
 'C18':dict(src='c18_dlti.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='every numerator/denominator over small coefficient alphabets for lengths 1..4 (5), every input sequence of length 5, with and without saturation, against the direct-form-I difference equation in double; BFS over all histories incl. initial-state and limit changes'),
 'C19':dict(src='c19_clti.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='every transfer function over small coefficient alphabets for order 1..3 (4), all integration methods, steps, input sequences against the controllable realisation in double; BFS over histories incl. method/limit/initial-state changes; DC gain of stable systems; orders up to 70000'),
})
TABLE.update({
 'C14':dict(src='c14_window.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='BFS over all sequences of smooth/reset/re-setup/refused set-up with 4 input values for windows of 1..6, two alphas, against double-precision window models; array vs delay-line variants on all 7-sample sequences over 5 values; long runs and windows up to 300'),
 'C15':dict(src='c15_recursive.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='BFS over all sequences of smooth/reset/re-setup/refused set-up with 4 input values, 5 parameter sets per filter, against double-precision recursions plus range and constant-input invariants; long runs over a parameter grid; adaptive filters of up to 70000 coefficients'),
 'C16':dict(src='c16_config.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='every combination of 22 boundary parameter values, null/non-null buffers and sizes per set-up; BFS over all histories with refused and accepted set-ups and resets; reset-versus-fresh differential on all histories of up to 5+5 samples over 4 values'),
})
TABLE.update({
 'C10':dict(src='c10_classify.cpp',san=False,opt=['-O2'],level='exploration',
   rule='every one of the 2^32 floats through every classification, sign, rounding and nextAfter function against the bit-level definition; all pairs of ~1000 boundary floats; all (value, limits) triples'),
})
TABLE.update({
 'C11':dict(src='c11_elem.cpp',san=False,opt=['-O2'],level='exploration',
   rule='25 functions: every float with at most 19 significant fraction bits and every float within 2 ulps of one with at most 9 (quick), every one of the 2^32 floats (thorough), against double-precision libm within a per-function error envelope; special values and exact anchors'),
})
TABLE.update({
 'C13':dict(src='c13_special.cpp',san=False,opt=['-O2'],level='exploration',
   rule='complete dense grids over degree/order/argument of all 24 special functions against the double-precision mathematical special functions of libstdc++, per-function error envelope; every out-of-domain and pole class; orders 1..400 and up to 70000 of the Legendre and Laguerre families'),
})
TABLE.update({
 'C12':dict(src='c12_two.cpp',san=True,opt=['-O2'],level='exploration',
   rule='all pairs of ~400 boundary floats (and triples of 58 moderate ones) through every two-argument helper against double arithmetic; every polygon with 3-5 vertices on small integer grids with every half-integer point, against exact integer even-odd; every circle/point on a half-integer grid; every exponent'),
})
TABLE.update({
 'C07':dict(src='c07_fparith.cpp',san=False,opt=['-O2'],level='exploration',
   rule='all pairs of ~2300 boundary values, all pairs of ~2500 two-bit values, complete small raw and eighth-step windows, all products/quotients next to the range ends, a stride-1021 (thorough: stride-37) sweep of the 2^32 raw values against 44 constants on either side; reference is exact 128-bit integer arithmetic'),
 'C08':dict(src='c08_fpconv.cpp',san=False,opt=['-O2'],level='exploration',
   rule='every third (thorough: every) raw value through every numeric conversion and rounding; all fractions x 39 integer parts x signs x decimals to text, parsed back exactly; every integer in +-70000; stride-17 (thorough: every) float bit pattern; reference is exact integer arithmetic'),
})
TABLE.update({
 'C09':dict(src='c09_fpfun.cpp',san=False,opt=['-O2'],level='exploration',
   rule='every raw argument in the core interval of each function plus a strided sweep of the complete 2^32 raw range (sqrt: every 5th, thorough every), all pairs of ~560 boundary values for atan2 and pow, complete grids of bases and exponents; per-function error envelope in LSB against double libm'),
})
TABLE.update({
 'C27':dict(src='c27_rms.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='BFS over all sequences of 5 updates, 3 parameter changes, set-up and refused calls for windows 1..5 to depth 6 (8), against the double-precision estimator chain, with a twin object fed the negated inputs; all boundary parameter pairs; long runs over window/forgetting/alpha/signal/scale grids followed by a constant that must settle; the array form of set-up'),
})
TABLE.update({
 'C26':dict(src='c26_interp1.cpp',san=True,opt=['-O2'],level='exploration',
   rule='every table with 2..6 (7) nodes over 2-4 spacings, 3-4 values and 3 origins, every method, at every node, its two neighbouring floats, 4-16 interior points per segment, outside and non-finite arguments, on exactly sized heap tables under ASan, against double-precision formulas; straight-line reproduction; tables up to 63 nodes; the array-form constructor'),
})
TABLE.update({
 'C28':dict(src='c28_mat.cpp',san=True,opt=['-O1'],level='exploration',
   rule='every content over 2-5 integer values of every shape up to 5 rows/columns (16 shapes) through every unary and scalar operator, every pair of contents for 7 shapes and every product of 13 shape triples against exact integer algebra; inverse of every invertible matrix over small alphabets up to 4x4 (5x5), structured matrices and products up to 8x8, every constructor over used storage, guards around the object and ASan'),
})
TABLE.update({
 'C20':dict(src='c20_pidsat.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='BFS over all control histories with set-points/measurements from a 5 or 9-value alphabet incl. NaN, infinities and the largest floats, for every combination of 7 gain sets, 6 limit pairs, 64 option sets and 3 steps, plus mixed histories of 20 configuration operations; the output must lie inside the limits in every state; unconfigured controllers refuse every call'),
 'C21':dict(src='c21_pid.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='every ordered pair of 36 configuration operations on 3 (7) base controllers followed by BFS over all control sequences (8 set-point/measurement pairs) interleaved with the same operations, mixed histories of all 44 operations, closed-loop runs with mode switches and reset for every pair; against the control law in double precision'),
})
TABLE.update({
 'C22':dict(src='c22_tune.cpp',san=True,opt=['-O2'],level='model_checking',
   rule='BFS over all sequences of control steps (5 set-point/measurement pairs) and tuning commands on bound and unbound controllers against a double-precision recursive-least-squares model: completion step, installed gains, gains unchanged otherwise; 7200 first-order plants/excitations whose exact gains must be found; all tuning parameter/signal combinations stay finite; tuning counts 1..200000 incl. every power of two neighbourhood; 2e6 (thorough 2^32) steps with an undefined time; extra copies of the model in single precision and with perturbed inputs mark the histories whose result is ill-conditioned'),
})
TABLE.update({
 'C23':dict(src='c23_mf.cpp',san=True,opt=['-O2'],level='exploration',
   rule='every ordered parameter set over 4-7 values for all 18 shapes (about 4700 sets x 3 heights) at 200 (800) grid points, every breakpoint, its two neighbouring floats and midpoints, as input set, negated, and as output set; all 7 Tsukamoto functions over the same sets at 512 (4096) strengths, with and without rule weight, against the analytic inverse and by round trip'),
})
TABLE.update({
 'C24':dict(src='c24_fis.cpp',san=True,opt=['-O2'],level='exploration',
   rule='every antecedent of 1..3 premises (2 inputs x 2 sets x negation, AND/OR connectives) in 3 positions of a rule base, every pair of 1-2 premise antecedents, every pair of consequents (1 and 2 outputs, negated) x implication x aggregation x defuzzification x weights, Mamdani/Sugeno/Tsukamoto, input grids incl. out-of-range, NaN, infinite; strengths, the 100 aggregated points and the crisp output against a double-precision reference; 1620 large systems (up to 12 inputs, 120 sets, 6 outputs, 300 rules); tables written with the rule-language statements; fis::system and stream operators against the instance; caller-supplied membership functions that leave [0,1]; rule bases of up to 70001 rules; the array form of set-up'),
})
TABLE.update({
 'C25':dict(src='c25_rules.cpp',san=True,opt=['-O2'],level='exploration',
   rule='every token string of length <=4 and every string BEGIN + <=6 (7) tokens over the 11-token alphabet for 1-2 inputs/outputs, every single and (thorough: every) double mutation, deletion, insertion and truncation of 100+ well-formed rule bases, on exactly sized heap tables under ASan, against an independent grammar; every 8-bit tag through every setter, every shape, parameter, defuzzification code and every combination of null/zero set-up arguments, with a behavioural probe before and after each refused call'),
})
TABLE.update({
 'C29':dict(src='c29_independent.cpp',san=False,opt=['-O0','-mno-red-zone'],level='model_checking',
   rule='all interleavings of operations on two objects for every ordered pair of 29 object kinds (same kind: every schedule of length 6, thorough 7; different kinds: 3, thorough 4), all ordered pairs of ~120 functions, and, by single-stepping the real code, a complete call at every single machine-instruction boundary of every operation (one interruption per run, and a call at every boundary of one run); first use in a fresh process overtaken by another thread at an instruction boundary (every one of the first 60, then geometrically spaced to the end of the call); results compared bit for bit with the same history run alone',
   bounds='two objects or calls; 3 (9) operations per object; first 500 (thorough 3000) instructions for single interruptions, 3000 (40000) for continual ones; the library is compiled with -O0 for this check so that every variable access is a separate step'),
})
