#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place for ids, texts, anchors, techniques)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'include/ccmath/internal/math/generic/func/'
B = 'include/ccmath/internal/math/generic/builtins/'
S = 'include/ccmath/internal/support/'
M = 'include/ccmath/math/'
P = []
AI = 'abstract interpretation of the LLVM IR of each dispatch path (bit-interval/float domain, case splitting, must-violation alarms)'
AIN = 'Proves each argument box or leaves it undecided (listed in evidence); alarms only where every value of a box, on a feasible path, breaks the rule. Platform libm calls are replaced by their ISO C Annex F contract.'


def p(id, title, statement, over, text, why, files, mech, tech=AI, level='other', note=AIN, thorough=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, level=level, note=note, thorough=thorough, na=na))


ALLIN = 'every value of float, double and long double in the stated region, on the run-time, constant-evaluation and deterministic paths of both compilers'
p('P01', 'A NaN argument gives a NaN result', 'Every mathematical function given a NaN argument returns a NaN, except where the C standard fixes the result regardless of the NaN (pow with exponent 0 or base 1, hypot with an infinity, fmin and fmax with one number). ilogb reports its NaN value. The same holds at run time, in constant evaluation and in the deterministic configuration.',
  ['inputs', 'configurations'], 'every NaN encoding (sign and payload) in every argument position against every value of the other arguments, for each type and path', 'Tests use one quiet NaN on one path per function and mostly one argument order; 2^53 encodings times the other operand are not sampled.',
  ['include/ccmath/math', G, B], [('special-case guards at kernel entry', G), ('dispatch between builtin, generic and run-time paths', M)])
p('P02', 'Arguments outside a function’s domain give NaN', 'Where a function has no real value (square root or logarithm of a negative number, inverse sine or cosine beyond 1, trigonometric functions of an infinity, remainder operations by zero or of an infinity, a negative base to a non-integer power, gamma at negative integers, 0*inf and inf-inf in fma) the result is NaN. This holds on every evaluation path.',
  ['inputs', 'configurations'], 'every value of the out-of-domain regions, ' + ALLIN, 'Tests check a few sample points such as sqrt(-1); the boundary neighbourhoods and the full ranges are not sampled.',
  [M, G], [('domain checks of log, sqrt, pow, asin, acos, gamma', G + 'expo')])
p('P03', 'Limits, poles and special operands', 'At infinities, zeros, poles and other operands the C standard pins down, every function returns exactly that value: exp(-inf)=+0, log(0)=-inf, log1p(-1)=-inf, pow(x,0)=1, pow(1,y)=1, pow of zeros and infinities with the parity-dependent sign, atan2 quadrant values, hypot with an infinity, fmod(x,inf)=x, gamma at zero, and so on. This holds on every evaluation path.',
  ['inputs', 'configurations'], 'the special operand combined with every value of the other operand (e.g. pow(x,0) for all x incl. NaN; pow(-0,y) for all odd y of every binade), ' + ALLIN, 'Tests try a special operand with one or two partners on one path.',
  [M, G, B], [('special-case ladders of pow, atan2, log, gamma, hypot, fmod', G)])
p('P04', 'Odd functions keep the sign and the zero of their argument', 'sin, tan, asin, atan, expm1, log1p, cbrt and the integral rounding functions map +0 to +0 and -0 to -0, return a result of the argument\u2019s sign, and for tiny arguments (subnormals included) return a value next to the argument itself instead of flushing it, on every evaluation path.',
  ['inputs', 'configurations'], 'all zeros, subnormals and tiny normals, and the sign of the result over the whole magnitude range', 'Tests check +-0 on one path and a few small values; losing subnormals or the sign in one branch is invisible to them.',
  [M, G], [('small-argument branches of the kernels', G)])
p('P05', 'Overflow and underflow happen only where the true result leaves the format', 'exp, exp2, expm1, pow, hypot and gamma saturate to infinity or to zero/the smallest subnormal exactly when the mathematical result is beyond the format\u2019s range, and stay within a coarse factor of the mathematical value inside it: no early overflow, no flush, no wrong saturation sign.',
  ['inputs', 'configurations'], 'the complete argument ranges beyond the overflow and underflow thresholds, plus slices through the representable range, ' + ALLIN, 'Tests sample a few values near the thresholds; intermediate overflow (hypot) or a wrong cut-off constant affects whole ranges in between.',
  [G + 'expo', G + 'power', M + 'power/hypot.hpp'], [('range cut-offs and scaling in exp*, pow, hypot', G)])
p('P07', 'Classification agrees with the bit pattern', 'fpclassify, isnan, isinf, isfinite, isnormal and signbit partition all values exactly as IEEE 754 encodes them: each value has exactly one class, and the predicates agree with it. Zero, subnormal, normal, infinite and NaN values of either sign are told apart for every encoding.',
  ['inputs'], 'every one of the 2^32 / 2^64 / 80-bit encodings, ' + 'on every path', 'Tests classify a few dozen named constants; class boundaries for every encoding and path are not enumerated.',
  [M + 'compare'], [('classification predicates', M + 'compare')])
p('P08', 'Ordered comparisons are quiet and exact', 'isgreater, isgreaterequal, isless, islessequal and islessgreater answer exactly as the ordering of real numbers and infinities does (with +0 equal to -0) and are false when either argument is NaN; isunordered is true exactly then.',
  ['inputs'], 'every ordered pair of values of each type including both zeros, infinities and NaNs', 'Pairs are quadratic in the encodings; tests sample a few.', [M + 'compare'], [('comparison macros', M + 'compare')])
p('P09', 'Sign and neighbour functions move exactly one step', 'fabs and copysign change only the sign bit, and nextafter, nexttoward, nextup and nextdown return the adjacent representable value in the requested direction, across zero, subnormals, binade boundaries and infinity. Infinite values are left or reached exactly as the standard orders them.',
  ['inputs', 'configurations'], 'every value (and every direction argument) of each type on each path', 'Tests step around a handful of values; the carry across each binade and the x87 format’s explicit integer bit are easily missed.',
  [M + 'fmanip', G + 'fmanip'], [('bit increments and direction logic', 'include/ccmath/internal/math/generic/func/fmanip')])

p('P10', 'Scaling and exponent extraction are exact', 'frexp, ldexp, scalbn and scalbln multiply by a power of two exactly: the significand bits are untouched, the exponent moves by exactly the requested amount, results beyond the range become infinity, results below the normal range are rounded once to nearest, and logb and ilogb return exactly the exponent, subnormal numbers included. Every exponent argument of the parameter type is accepted.',
  ['inputs', 'configurations'], 'every significand of the analysed binades (all subnormal binades, the range ends and a grid of the rest) times the analysed exponents, for each type and path', 'Tests scale a few numbers; double rounding, lost subnormals and exponent truncation affect combinations nobody samples.',
  [M + 'fmanip', G + 'fmanip', G + 'expo', B], [('ldexp/scalbn/scalbln kernels and builtin dispatch', M + 'expo'), ('exponent extraction', M + 'fmanip')])

p('P11', 'Rounding to an integer picks the integer its name says', 'trunc, floor, ceil, round, rint, nearbyint (and the integer part of modf) return the integer-valued number toward zero, below, above, nearest with halves away from zero, or nearest with halves to even; a value that is already integral, infinite or a zero comes back bit for bit, and the sign of the argument is kept when the result is zero. modf splits a value exactly: integer part plus fraction equals the argument, both with its sign.',
  ['inputs', 'configurations'], 'all values below one, all integral values of every binade, all values beyond 2^(p-1), and every value of the analysed unit intervals, for each type, sign and path', 'Tests round a few dozen values; wrong handling of one binade, of exact halves, or of -0 on one dispatch path is not sampled.',
  [M + 'nearest', G + 'nearest', M + 'fmanip/modf.hpp'], [('mantissa masking and rounding', 'include/ccmath/internal/support/fp')])
p('P12', 'Minimum, maximum and positive difference select the right operand', 'fmin, fmax (and min, max) return the smaller or larger argument unchanged for every ordered pair, return the number when exactly one argument is NaN (fmin, fmax), treat infinities as ordinary ordered values, and fdim returns +0 when x <= y and the rounded, never negative difference x-y otherwise; the integer overloads of min and max order by value.',
  ['inputs', 'configurations'], 'every ordered pair of values of each type, every pair with a NaN and every pair of infinities, on each path', 'Pairs are quadratic in the encodings; tests sample a few.',
  [M + 'compare', M + 'basic'], [('selection', M + 'basic/fmin.hpp'), ('positive difference', M + 'basic/fdim.hpp')])
p('P13', 'fmod, remainder and remquo are exact remainders', 'fmod and remainder return x - n*y exactly: the result is x itself when x is smaller in magnitude than y (y/2 for remainder), never exceeds |y| (|y|/2) in magnitude, is a zero of x’s sign for an exact multiple, keeps the sign of x for fmod, and remainder ties go to the even quotient; infinities, zeros and NaNs give the values the C standard names. remquo returns the same remainder and the low bits of the quotient with the right sign.',
  ['inputs', 'configurations'], 'every pair with |x|<|y|, |x|=|y| and the analysed quotient classes for each binade pair, type and path', 'Tests divide a few pairs; large exponent differences, subnormal operands and long double are not covered.',
  [M + 'basic', G + 'basic', M + 'basic/remquo.hpp'], [('long division kernels', M + 'basic')])

EFF = 'effect and call-graph analysis over the LLVM IR of every dispatch path (internalised, constant branches folded)'
EFFN = 'Over-approximates: every reachable function, call site and memory access is an obligation, and one that breaks the rule is named with its call path. Only the instantiations of the driver (all public functions times float, double, long double and integers) are analysed.'
p('P14', 'Errors go to errno and the flags, and nothing else is disturbed', 'errno is untouched by a call that succeeds: quiet NaN operands, infinities the function accepts, exact cases and ordinary arguments. A domain error stores EDOM and raises only invalid; a pole or range error stores ERANGE (pow of zero may store either) and raises only the matching flags. No function changes the rounding mode, traps or clears flags for its caller, on any path, and with CCM_CONFIG_DISABLE_ERRNO errno is never written.',
  ['inputs', 'configurations'], 'every value of each argument class (NaN, domain error, pole, infinity, exact, ordinary) per function, type and run-time path, and every reachable write of errno, flags or environment', 'Only the pow tests look at errno and flags, for a handful of arguments; a missing restore on one early return or a wrong code in one branch is invisible.',
  ['include/ccmath/internal/support/fenv', M, G], [('errno and exception helpers', 'include/ccmath/internal/support/fenv/fenv_support.hpp'), ('error branches of the kernels', M + 'misc/impl')], tech='abstract interpretation of errno and explicit flags per argument class; whole-call-graph constant-sink and environment typestate analysis over LLVM IR', note=AIN + ' Flags raised by the arithmetic itself are outside the model.')
p('P15', 'Concurrent calls share no state', 'Every function can be called from any number of threads at once: it depends only on its arguments and the floating-point environment, and writes nothing but its result, the objects its pointer arguments name, errno and the floating-point flags. There is no mutable global, thread-local or lazily initialised table, no allocation, lock or I/O, and no call to a platform function with hidden state.',
  ['schedules', 'configurations'], 'every function reachable from the public API (all overloads, ext included) on seven dispatch paths; every memory access and external call in them', 'Single-threaded unit tests cannot see a shared cache, a lazily built table or a platform function with a hidden global.',
  [M, G, 'include/ccmath/ext', B], [('lookup tables and kernels', G), ('run-time dispatch', 'include/ccmath/internal/math/runtime')], tech=EFF, note=EFFN)

p('P16', 'Everything is usable in constant expressions', 'Every function can be evaluated by the compiler: with ordinary finite arguments and an ordinary result (for long double gamma and lgamma, within double range) the call is a constant expression in both gcc and clang. In clang, which folds the infinities and NaNs of its builtins, poles, overflow, underflow and infinite arguments are constant expressions too (long double sin, cos, tan, gamma and lgamma: within double range). No path that constant evaluation takes calls a platform function, touches errno, the floating-point environment or mutable storage, or performs an operation the language leaves undefined.',
  ['inputs', 'configurations'], 'every function reachable on the constant-evaluation path, and constant-expression witnesses over the whole exponent range of each argument and type, in both compilers', 'constexpr tests evaluate a few expressions per function; a branch that constant evaluation rejects (a missing guard, a bit trick, an out-of-range shift) is found only by an argument that takes it.',
  [M, G, B, 'include/ccmath/internal/support'], [('constant-evaluation dispatch', 'include/ccmath/internal/support/is_constant_evaluated.hpp'), ('generic kernels', G)], tech='compile-time witnesses (constant expressions that must compile) and call-graph analysis of the constant-evaluation path', note='Reachability covers every path; the witnesses are a fixed family of about 30000 expressions evaluated by the compilers\u2019 constant evaluators, which reject undefined behaviour and non-constant constructs on the paths they take.')
p('P17', 'The deterministic configuration is target independent', 'With CCM_CONFIG_DETERMINISTIC a call gives the same bits on every machine: all functions evaluate the library’s own kernels or operations whose result a standard fixes exactly, never a platform transcendental, without contraction, fast-math or 80-bit intermediates (long double pow included), and no code depends on which instruction-set extensions are enabled.',
  ['configurations', 'inputs'], 'every function reachable from the public API in the deterministic configuration, on the clang and gcc branches, for the baseline, SSE4.1, AVX2+FMA and AVX-512 targets', 'Tests run on one machine with one instruction set; a divergence shows only when results of two machines are compared.',
  [B, 'include/ccmath/internal/support/multiply_add.hpp', M], [('builtin dispatch switch for deterministic mode', B + 'builtin_helpers.hpp'), ('fma selection', B + 'basic/fma.hpp')], tech='call-graph closure and code comparison across targets over LLVM IR (effect analysis, relational)', note=EFFN)

p('P18', 'The rounding mode is honoured where it matters and ignored elsewhere', 'rint, nearbyint, ldexp, scalbn, scalbln, sqrt, fma and fdim return the exact value rounded once in the rounding mode in effect (overflow and gradual underflow included); in constant evaluation rint, nearbyint, ldexp, sqrt and fma follow CCM_CONSTEXPR_ROUNDING_MODE. Classification, comparison, neighbour, fmin/fmax, trunc, floor, ceil, round, modf, frexp, logb, ilogb, fmod, remainder and remquo give the same results in all four modes.',
  ['inputs', 'rounding modes', 'configurations'], 'all three formats, the four rounding modes at run time and as CCM_CONSTEXPR_ROUNDING_MODE', 'Tests run in the default mode; a directed-mode slip shows only for operands whose result is inexact in one direction.',
  ['include/ccmath/internal/support/fenv/rounding_mode.hpp', 'include/ccmath/internal/support/fp/fma.hpp', 'include/ccmath/internal/types/normalized_float.hpp', 'include/ccmath/internal/types/dyadic_float.hpp', 'include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp'], [('rounding mode query', 'include/ccmath/internal/support/fenv/rounding_mode.hpp'), ('rounding of ldexp', 'include/ccmath/internal/types/normalized_float.hpp'), ('single rounding of fma', 'include/ccmath/internal/support/fp/fma.hpp')], tech=AI, note=AIN)

p('P19', 'Every overload is the same function', 'A function gives the same result under every name and argument type that reaches it: the f and l forms, abs and tgamma are the float, long double or aliased function itself and not a narrower one; an integer argument means its value in double; mixed arguments mean their C++ promoted type (the common type for min, max and lerp); and the result type is that type. Reference and pointer forms, int and long exponents agree as well.',
  ['inputs', 'types'], 'about 700 pairs of overloads (suffixed, integer of every width and signedness, mixed in two- and three-argument functions), all arguments, on the run-time, constant-evaluation and deterministic paths', 'Tests call the template with one type at a time; a forwarding overload that narrows, truncates or picks the wrong common type shows only for values the narrower type cannot hold.',
  [M, 'include/ccmath/internal/math/common/basic/fma.hpp'], [('public overloads', M)], tech='relational analysis: both overloads compiled to optimised LLVM IR must be the same code, else abstract interpretation of their comparison; result types as compile-time witnesses', note='Pairs with identical optimised code are equal for every argument (about 95 percent); the rest are evaluated abstractly at the points where narrowing shows, and alarm only on a proved difference.')

p('P26', 'The extension helpers do what their documentation says over the whole range', 'ccm::ext: abs_diff, ceil_div, align_up and align_down are the exact mathematical value whenever it is representable, without wrapping on the way (ceil_div for non-negative arguments); is_power_of_two holds for exactly the positive powers of two; sign, step, chgsign and approximately follow their definitions for every operand; clamp, saturate, normalize and smoothstep stay within their bounds; repeat lands in [0, length), ping_pong in [0, range], angle differences in [-180, 180]; move_towards never overshoots; lerp-like helpers reproduce their end points; the safe forms never divide by zero; degrees and radians stay within a few units in the last place.',
  ['inputs', 'types'], 'integer types of every width and signedness over blocks covering the range up to both ends, and all three floating formats', 'Tests use a handful of small numbers per helper; wrap-around, rounding onto the excluded end of a range and mixed-type truncation need extreme or unrepresentable arguments.',
  ['include/ccmath/ext', 'include/ccmath/internal/support/bits.hpp'], [('extension headers', 'include/ccmath/ext')], tech=AI, note=AIN)

p('P21', 'No call has undefined behaviour', 'No function of the library executes an undefined operation (signed overflow, shift by the width of the type or more, conversion of an unrepresentable floating-point value, division by zero, index outside a table, reaching unreachable code) for any value of its arguments, NaNs, infinities, subnormals and the limits of the integer types included; such an operation would also make the call fail to be a constant expression.',
  ['inputs', 'configurations'], 'blocks partitioning every encoding of every argument, plus small boxes at every exponent, table edge and integer limit', 'A sanitizer run sees the operands of the tests only; shift widths, table rows and integer conversions depend on the exponent, each of the thousands of which is a separate case.',
  ['include/ccmath'], [('scaling', 'include/ccmath/internal/types/normalized_float.hpp'), ('argument reduction', 'include/ccmath/math/trig/impl'), ('fused multiply-add', 'include/ccmath/internal/support/fp/fma.hpp'), ('pow kernels', 'include/ccmath/internal/math/generic/func/power')], tech=AI + ' over IR in which every undefined operation is a trap', note=AIN + ' Undecided blocks (about 0.3 %, mostly fmod-like loops and fma) are listed in the evidence.')
p('P27', 'Every elementary function is the function it is named after', 'The library’s own kernels of exp, exp2, expm1, log, log2, log10, log1p, sqrt, cbrt, sin, cos, tan, asin, acos, atan, pow, hypot and atan2 return a value within relative error 2^-20 (float) or 2^-46 (double, and long double, whose kernels may evaluate in double) of the true value, in every cell of their tables, every piece of their polynomials and every exponent of their range reduction, huge trigonometric arguments included; long double pow within 2^-52 outside the deterministic configuration; gamma and lgamma within 2^-19 (of 1 near the zeros of lgamma). This holds in constant evaluation and in the deterministic configuration alike.',
  ['inputs', 'configurations'], 'small boxes in every table cell, polynomial piece and exponent; adjoining boxes covering [-1,1]-like intervals at tolerance 2^-6; pairs for pow, hypot, atan2', 'Tests compare the run-time build, which mostly calls the platform library, at a few hand-picked arguments; a table has hundreds of entries and the range reduction hundreds of exponents, each used by its own arguments only.',
  ['include/ccmath/math', 'include/ccmath/internal/math/generic/func/power'], [('kernels and tables', 'include/ccmath/math/*/impl'), ('pow kernels', 'include/ccmath/internal/math/generic/func/power/pow_impl'), ('argument reduction', 'include/ccmath/math/trig/impl')], tech=AI, note=AIN + ' Most boxes are a few neighbouring values wide: the stated error is decided at those, the coarser 2^-6 over whole intervals.')

p('P20', 'Every public header works alone, in any order, in every configuration', 'Each public header compiles when it is the only one included, before or after the standard headers, before or after any other header of the library, in C++17 and later, with each supported compiler setting and configuration macro (deterministic, no runtime builtins, SIMD); and no include order changes what any function does, so that two translation units of one program that include different parts of the library, in different orders, never disagree about a function (one-definition rule).',
  ['inputs', 'configurations'], 'every public header x every configuration; every public function x include orders', 'The tests include one fixed umbrella header in one order; a missing include or a macro that leaks from one header to the next is seen only by the program that includes another subset.',
  ['include/ccmath'], [('public headers', 'include/ccmath'), ('configuration and predefinitions', 'include/ccmath/internal/predef'), ('feature detection', 'include/ccmath/internal/support')],
  tech='Compile-time witnesses: each header as a translation unit of its own in each configuration (a program that fails to build is the violation), and comparison of the compiler IR of every public function and everything it reaches across include orders (forward, reverse, shuffled, standard headers first, own header only).',
  note='Headers under internal/ are not required to stand alone. Orders other than those compiled are not explored. clang stands in for gcc in the gcc configuration of the IR comparison.')
p('P24', 'Every constant and every table row holds the number it stands for', 'Each ccm::numbers constant is the nearest representable value of its type to the real number it is named after; each row of each table (logarithms, reciprocals, exponentials, sines, the bits of 8/pi and the split parts of pi/8 and ln 2) agrees with the function it tabulates down to the last part it stores; each polynomial approximates its function over its stated interval to its stated error.',
  ['inputs'], 'every named constant in every type, every row of every table, every polynomial over its interval', 'A table has up to 200 rows, each used by its own arguments only, and the low parts matter only in the last bits or for huge arguments: a wrong digit passes every test that does not happen to hit that row at that precision.',
  ['include/ccmath'], [('named constants', 'include/ccmath/math/numbers.hpp'), ('kernel tables', 'include/ccmath/math/expo/impl'), ('trigonometric tables', 'include/ccmath/math/trig/impl'), ('pow tables', 'include/ccmath/internal/math/generic/func/power/pow_impl'), ('shared tables', 'include/ccmath/internal/support/common_math_constants.hpp')],
  tech='Constant extraction from the type-checked program: the compiler emits each constant, table and coefficient list of the current source as an IR initialiser, which is compared entry by entry with the mathematical value computed to 120 digits (mpmath); polynomials are compared with their function at 129 points of the interval.',
  note='Tables are found by name; one that is renamed or built at run time is listed as not analysed. Coefficient lists local to a function (powf, exp10, cbrt) are not read.')

p('P22', 'lerp hits both end points, stays between them and stays finite', 'For finite a and b, ccm::lerp(a, b, 0) is a and ccm::lerp(a, b, 1) is b exactly (up to the sign of a zero), lerp(a, a, t) is a, for 0 <= t <= 1 the result is finite and between a and b (no overflow of b - a when the signs differ, no overshoot past b, no loss of a subnormal), and for any t it is the point a + t(b - a) of the line within a few units in the last place of the largest number involved.',
  ['inputs', 'configurations'], 'all pairs of end points drawn from zero, subnormal, ordinary, huge and largest-finite values of both signs with factors inside and outside [0,1], and boxes of ends and factors', 'Interpolating between moderate numbers works with any formula; the guarantees are about the ends, cancellation, overflow of the difference and rounding past b, which need particular triples.',
  ['include/ccmath/math/misc/lerp.hpp'], [('lerp', 'include/ccmath/math/misc/lerp.hpp')], tech=AI, note=AIN)

p('P28', 'nan(tag) is a quiet NaN for every tag and carries a numeric tag', 'ccm::nanf, nan and nanl return a quiet NaN with a clear sign bit for every tag string (never an infinity, a signaling NaN or a number, however long the tag); a decimal or 0x-prefixed hexadecimal numeral that fits the payload becomes the payload bits, and a tag that is not a numeral, or is empty, gives the plain quiet NaN.',
  ['inputs', 'configurations'], 'numeral tags at every bit width of the payload, over-long tags, and tags of up to six unknown characters', 'Tests pass a few short tags; the arithmetic on long numerals can reach the exponent, quiet or sign bits only for particular values.',
  ['include/ccmath/math/basic/nan.hpp', 'include/ccmath/math/basic/impl'], [('nan', 'include/ccmath/math/basic/nan.hpp'), ('payload parsers', 'include/ccmath/math/basic/impl')], tech=AI, note=AIN)

p('P23', 'Every call returns after a bounded number of steps', 'Every function of the library returns for every value of its arguments: no loop or recursion fails to end, or takes a number of steps that grows with the magnitude of an argument rather than with the width of its format (at most 400,000 instructions for float and double and 1,500,000 for long double), so that a call neither hangs at run time nor exceeds the step limit of constant evaluation.',
  ['inputs', 'configurations'], 'argument values at every exponent (thinned for the wide formats), every kind of special value, integers up to past the factorial range, the limits of the integer types, and pairs of these', 'A loop over the difference of exponents, the bits of a subnormal or an integer argument ends quickly for the moderate arguments tests use; infinity, NaN, subnormals and the largest numbers are where a changed loop condition never becomes false.',
  ['include/ccmath'], [('remainder loops', 'include/ccmath/math/basic/fmod.hpp'), ('subnormal normalisation', 'include/ccmath/internal/types/normalized_float.hpp'), ('factorial loops', 'include/ccmath/math/misc/impl'), ('integer powers', 'include/ccmath/internal/math/generic/func/power'), ('argument reduction', 'include/ccmath/math/trig/impl/sincos_payne_hanek.hpp')], tech=AI + '; a run past the step bound with no undecided branch is a certain violation', note=AIN)

p('P25', 'The wide integers, bit helpers and error-free sums under the kernels are exact', 'For every operand, ccm::types::BigInt (any width, word size and signedness) computes +, -, *, /, %, shifts, comparisons, bitwise operations, value-preserving and truncating conversions, the full, high and in-place word products, powers and division by a half word exactly (modulo 2^width where the type wraps, remainder with the sign of the dividend, division by zero aside), and its carries and borrows are the true ones; the bit helpers of ccm::support (counts of leading, trailing and set bits, bit_width, bit_ceil, bit_floor, rotations, masks, first-one/first-zero positions, add and subtract with carry) return the defined value for every word of every unsigned type and for wide integers, zero and all ones included; exact_add (of a larger and a smaller number) and exact_mult return two parts that add up to the true sum or product, and exact_fma rounds once.',
  ['inputs', 'configurations'], 'operands built from every pattern of words (zero, one, all ones, top bit, single bits, random words), every shift and rotation amount including the width and negative ones, unknown words, every relative length of divisor and dividend', 'Random operands almost never make a carry ripple through a word of all ones, hit a shift by exactly a word, or a quotient digit at its limit; the tests have a few fixed patterns.',
  ['include/ccmath/internal/types/big_int.hpp', 'include/ccmath/internal/types/double_double.hpp', 'include/ccmath/internal/support/bits.hpp', 'include/ccmath/internal/support/math_support.hpp'], [('wide integers', 'include/ccmath/internal/types/big_int.hpp'), ('bit helpers', 'include/ccmath/internal/support/bits.hpp'), ('double-double', 'include/ccmath/internal/types/double_double.hpp'), ('carries', 'include/ccmath/internal/support/math_support.hpp')], tech=AI, note=AIN)

NA = [
    ('P90', 'Transcendental results are within their documented ULP error', 'Each elementary function returns a value within a small fixed number of units in the last place of the true real result on every path and for every input.',
     'the whole input space of every elementary function', 'Only sampled points are compared with a reference.', ['inputs'], [G],
     'A last-place bound needs a machine-checked error analysis of each kernel (Gappa/Flocq-style proof) or exhaustive execution; interval analysis over the source is too coarse to bound the last place between the analysed boxes. A coarser error bound is decided under P27.'),
]


def main():
    done = [x for x in P if os.path.exists(os.path.join(V, 'checks', x['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in done:
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']]}}, ensure_ascii=False) + '\n')
        for id, t, s, q, w, o, fl, r in NA:
            f.write(json.dumps({'id': id, 'title': t, 'statement': s, 'quantifier': {'over': o, 'text': q}, 'why_tests_cant': w, 'anchors': {'files': fl, 'mechanism': []}}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': [], 'not_applicable': [{'property': n[0], 'reason': n[7]} for n in NA]}
    for x in done:
        c = {'property': x['id'], 'quick_cmd': 'python3 checks/%s.py' % x['id'].lower()}
        if x['thorough']: c['thorough_cmd'] = 'VERIF_TIER=thorough python3 checks/%s.py' % x['id'].lower()
        c.update(technique=x['tech'], level=x['level'], level_note=x['note'])
        m['checks'].append(c)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


main()
