prop("P01", "floor, ceil and trunc return the exact directed integral value",
 "For every argument, floor, ceil and trunc return the nearest integral value not above, not below, or not further from zero than the argument, exactly; the sign of zero results follows the argument, infinities and zeros come back unchanged and NaN gives NaN. Integral arguments give their value as a double. The result is the same at run time and in constant evaluation, does not depend on the rounding mode in force, and errno is left alone.",
 TYP, "the tests compare a few hundred literals per function; 2^32..2^80 encodings, the fraction/integer boundary at every exponent and the non-default modes are only sampled",
 [I+"math/nearest/floor.hpp", I+"math/nearest/ceil.hpp", I+"math/nearest/trunc.hpp", I+"internal/support/fp/directional_rounding_utils.hpp", I+"internal/math/runtime/func/nearest"],
 [("fraction bits cleared or carried on the encoding", I+"internal/support/fp/directional_rounding_utils.hpp"), ("builtin dispatch", I+"internal/math/generic/builtins/nearest")])
prop("P02", "round returns the nearest integral value, halves away from zero",
 "For every argument, round returns the nearest integral value with halfway cases away from zero, keeps the sign of zero results, returns infinities unchanged and NaN for NaN. It does not depend on the rounding mode in force and gives the same answer at run time and in constant evaluation.",
 TYP, "halfway cases exist at every exponent up to the mantissa width; tests sample a handful and never the largest value below one half together with all modes",
 [I+"math/nearest/round.hpp", I+"internal/support/fp/directional_rounding_utils.hpp"], [("round half away on the encoding", I+"internal/support/fp/directional_rounding_utils.hpp")])
prop("P03", "rint and nearbyint round to integral in the rounding mode in force",
 "For every argument, rint and nearbyint return the integral value chosen by the current rounding mode (to nearest even, upward, downward, toward zero) with the argument's sign on zero results; at run time the mode is the floating environment's, in constant evaluation it is the configured constant-evaluation mode. Infinities come back unchanged and NaN gives NaN.",
 TYP + "; all four rounding modes, and all four constant-evaluation mode settings", "tests cover a few literals per mode; the mode dispatch, ties and carries into the exponent hold or fail per encoding",
 [I+"math/nearest/rint.hpp", I+"math/nearest/nearbyint.hpp", I+"internal/math/runtime/func/nearest", I+"internal/support/fp/directional_rounding_utils.hpp", I+"internal/support/fenv"],
 [("rounding-mode query and dispatch", I+"internal/support/fenv"), ("directional rounding on the encoding", I+"internal/support/fp/directional_rounding_utils.hpp")], over=("inputs", "configurations"))
prop("P04", "frexp, modf, ldexp and scalbn decompose and rescale exactly",
 "frexp of a finite nonzero value gives a fraction in [1/2,1) and an exponent that rebuild the value exactly; modf splits a value into integral and fractional parts that both keep its sign and add up to it exactly; ldexp, scalbn and scalbln return the value times the power of two rounded exactly once, for every int or long exponent. Zeros, infinities and NaNs keep the results the C standard prescribes.",
 TYP + ", crossed with every int or long exponent", "subnormal inputs, exponents beyond the exponent range and the double-rounding window are single points in a 2^96..2^144 input space",
 [I+"math/fmanip/frexp.hpp", I+"math/fmanip/modf.hpp", I+"math/fmanip/ldexp.hpp", I+"math/fmanip/scalbn.hpp", I+"math/fmanip/impl", I+"internal/math/generic/func/fmanip", I+"internal/support/helpers/internal_ldexp.hpp"],
 [("subnormal normalisation loop", I+"internal/math/generic/func/fmanip/impl/frexp_impl.hpp"), ("stepwise exact scaling", I+"math/fmanip/impl")])
prop("P05", "logb and ilogb return the exact binary exponent",
 "For every finite nonzero argument, subnormals included, logb and ilogb return the exponent of the leading bit, logb as a floating value and ilogb as an int. Zeros give -infinity and FP_ILOGB0, infinities +infinity and INT_MAX, NaN gives NaN and FP_ILOGBNAN, at run time and in constant evaluation alike.",
 TYP, "the exponent of a subnormal depends on which of its fraction bits is set first; tests take one or two subnormals per type",
 [I+"math/fmanip/logb.hpp", I+"math/fmanip/ilogb.hpp", I+"internal/math/generic/func/fmanip"], [("subnormal normalisation loop", I+"internal/math/generic/func/fmanip")])
prop("P06", "nextafter, nexttoward, nextup and nextdown step to the adjacent value",
 "nextafter and nexttoward return the representable value adjacent to the first argument in the direction of the second: the second argument (in the first one's type) when they compare equal, NaN when either is NaN, the smallest subnormal of the right sign from zero, infinity past the largest finite value. nextup and nextdown return the least value above and the greatest below, and a mixed call steps in the promoted common type.",
 TYP, "the carry from a full fraction into the exponent, the x87 explicit integer bit and both sides of zero are isolated encodings among 2^160 argument pairs",
 [I+"math/fmanip/nextafter.hpp", I+"math/fmanip/nexttoward.hpp", I+"math/fmanip/nextup.hpp", I+"math/fmanip/nextdown.hpp", I+"internal/math/generic/func/fmanip/nextafter_gen.hpp"], [("encoding increment and decrement", I+"internal/math/generic/func/fmanip/nextafter_gen.hpp")])
prop("P07", "abs, fabs, copysign and signbit act on the sign bit and nothing else",
 "fabs and abs return the argument with a clear sign bit, copysign returns the first argument's magnitude with the second one's sign bit, and signbit reports the sign bit, for zeros, infinities and (for the sign) NaNs too. Integral arguments follow the same rules as doubles, and abs, labs and llabs of a signed integer other than the type's minimum give its absolute value.",
 TYP + "; every value of every standard integer type", "negative zero and negative NaN per function, per type, per path are rarely sampled, and constant-evaluated branches differ from the run-time ones",
 [I+"math/basic/fabs.hpp", I+"internal/math/generic/func/basic/abs_gen.hpp", I+"math/fmanip/copysign.hpp", I+"math/compare/signbit.hpp"], [("sign-bit masks", I+"internal/support/fp/fp_bits.hpp")])
prop("P08", "Classification matches the IEEE class of the encoding",
 "isnan, isinf, isfinite, isnormal and fpclassify report exactly the IEEE class of the argument's encoding: exactly one of zero, subnormal, normal, infinite and NaN holds and every predicate agrees with it. An integral argument is never NaN or infinite, is always finite, and is normal unless it is zero.",
 TYP + "; every value of every standard integer type", "a wrong mask or boundary misclassifies only a slice of the encodings (signalling NaNs, the largest subnormal, the x87 explicit bit)",
 [I+"math/compare/isnan.hpp", I+"math/compare/isinf.hpp", I+"math/compare/isfinite.hpp", I+"math/compare/isnormal.hpp", I+"math/compare/fpclassify.hpp"], [("class tests on the encoding", I+"math/compare")])
prop("P09", "Quiet comparisons are the IEEE ordered predicates, in the common type",
 "isgreater, isgreaterequal, isless, islessequal and islessgreater return the ordered comparison of their arguments and are false when either is NaN; isunordered is true exactly when either is NaN. Mixed and integral operands are compared after conversion to their common floating type (double for integers) and every call terminates.",
 TYP + ", and fifteen mixed operand type pairs", "zeros of different sign, NaN on one side and conversions of 64-bit integers near the precision limit are a tiny part of the pair space",
 [I+"math/compare/isgreater.hpp", I+"math/compare/isgreaterequal.hpp", I+"math/compare/isless.hpp", I+"math/compare/islessequal.hpp", I+"math/compare/islessgreater.hpp", I+"math/compare/isunordered.hpp"], [("promotion then builtin comparison", I+"math/compare")])
prop("P10", "fmin, fmax, min, max and fdim select or subtract exactly",
 "fmin and min return the lesser, fmax and max the greater argument unchanged, the other argument when exactly one is NaN, and NaN only when both are; mixed operands are compared and returned in their common type. fdim returns x - y rounded once in the mode in force when x > y, +0 otherwise, and NaN when either argument is NaN.",
 TYP + "; every pair of integers of each standard type and six mixed type pairs", "NaN on either side, equal values, and differences that overflow or round are pair-space corners in each of three paths per function",
 [I+"math/basic/min.hpp", I+"math/basic/max.hpp", I+"math/basic/fdim.hpp", I+"internal/math/generic/func/basic"], [("NaN tests then comparison", I+"internal/math/generic/func/basic")])
UTX = "every value of unsigned char, short, int, long and long long, and every admissible count, at run time and in constant evaluation on both code paths"
prop("P11", "The bit utilities count, rotate and reinterpret exactly",
 "For every unsigned value countl_zero, countr_zero, countl_one, countr_one, popcount, bit_width and bit_ceil give the C++20 results (the width for zero counts of 0), ctz the trailing zeros of a nonzero value, has_single_bit is true exactly for powers of two, and rotl and rotr rotate by any count, negative or beyond the width. The float/integer reinterpretations keep every bit and the top-bits helpers return the leading bits of the encoding.",
 UTX, "each table lookup, shift amount and width branch is exercised by only a few literals, and the constant-evaluation fallbacks differ from the builtins used at run time",
 [I+"internal/support/bits.hpp", I+"internal/support/ctz.hpp"], [("builtin or fallback per width", I+"internal/support/bits.hpp"), ("constant-time trailing zero count", I+"internal/support/ctz.hpp")])
prop("P12", "The integer helpers of ext give the exact result for every representable case",
 "For every integer type abs_diff is the exact distance when representable, align_down and align_up the nearest multiple of a power-of-two alignment below or above, ceil_div the quotient rounded toward +infinity (safe::ceil_div 0 for a zero divisor), sign -1, 0 or 1, step and clamp the documented selections, and is_power_of_two (also safe and ispow2) true exactly for positive powers of two. No intermediate overflows when the result is representable.",
 "every admissible argument of every standard signed and unsigned 8- to 64-bit type", "overflowing intermediates and sign corrections show only near the ends of the range",
 [I+"ext/abs_diff.hpp", I+"ext/align.hpp", I+"ext/ceil_div.hpp", I+"ext/is_power_of_two.hpp", I+"ext/sign.hpp", I+"ext/step.hpp", I+"ext/clamp.hpp"], [("truncating arithmetic with corrections", I+"ext/ceil_div.hpp")])
prop("P13", "The floating-point helpers of ext keep their documented ranges and edge cases",
 "clamp, saturate, step and sign select exactly (clamp gives the lower bound for NaN), fract is x - floor(x) within [0,1], chgsign gives |x| with the other sign, rcp is 1/x rounded once, and normalize, safe::normalize and smoothstep stay within [0,1]. The safe forms of normalize, unlerp, inverse_lerp, repeat and remap return their documented value for an empty range instead of dividing by zero. move_towards lands on the target when in reach and otherwise steps by the maximum; approximately is |x-y| <= epsilon; mix returns its end points at weights 0 and 1, smoothstep 0 and 1 beyond its edges.",
 "every argument of each floating type (all bit patterns where no precondition is documented), round to nearest and upward", "division by an underflowed range, NaN and infinities reach the clamps through different branches than the literals tested",
 [I+"ext/clamp.hpp", I+"ext/saturate.hpp", I+"ext/fract.hpp", I+"ext/normalize.hpp", I+"ext/unlerp.hpp", I+"ext/inverse_lerp.hpp", I+"ext/repeat.hpp", I+"ext/remap.hpp", I+"ext/move_towards.hpp", I+"ext/smoothstep.hpp", I+"ext/mix.hpp", I+"ext/approximately.hpp"], [("clamped normalised ratios", I+"ext/normalize.hpp")])
prop("P14", "The exponentials and logarithms honour their special values and thresholds",
 "exp, exp2 and expm1 return NaN for NaN, +infinity for +infinity, 0 (expm1: -1) for -infinity and exactly 1 (expm1: the argument itself) at zero. In round-to-nearest exp and exp2 are +infinity once the exact result exceeds the format by a margin of one in the exponent, and 0 once it is below half the least subnormal by that margin. log, log2, log10 and log1p return NaN for NaN and for arguments below the domain, -infinity at the pole, +infinity for +infinity and exactly 0 at log(1) (log1p returns a zero unchanged). At run time log, log2 and log10 raise invalid below the domain and divide-by-zero at the pole.",
 TYP + "; every argument in the special ranges, at run time in all four rounding modes, on the builtin, the libm and the kernel paths", "each path has its own special-case prologue with bit-pattern thresholds; tests compare a few values on one path",
 [I+"math/expo/exp.hpp", I+"math/expo/exp2.hpp", I+"math/expo/expm1.hpp", I+"math/expo/log.hpp", I+"math/expo/log2.hpp", I+"math/expo/log10.hpp", I+"math/expo/log1p.hpp", I+"math/expo/impl/exp_float_impl.hpp"], [("special-case prologues", I+"math/expo/impl"), ("builtin or libm dispatch", I+"internal/math/runtime/func/expo")])
prop("P15", "The trigonometric functions honour their special values and domains",
 "sin, cos and tan are NaN for infinities and NaN, sin and tan return a zero unchanged and cos(0) is exactly 1. asin and acos are NaN outside [-1,1], asin returns a zero unchanged and acos(1) is +0. atan returns a zero unchanged and half pi with the argument's sign at the infinities. atan2 follows every special case of C Annex F: zeros, infinities, the sign of its first argument and of a zero second argument select 0, pi/4, pi/2, 3pi/4 or pi with the right sign, and NaN in gives NaN.",
 TYP + "; every special argument (pair), at run time in all four rounding modes, on the builtin, the libm and the kernel paths", "the quadrant logic has a case per class and sign of two arguments on each path; tests sample a handful on the path they are compiled for",
 [I+"math/trig/sin.hpp", I+"math/trig/cos.hpp", I+"math/trig/tan.hpp", I+"math/trig/asin.hpp", I+"math/trig/acos.hpp", I+"math/trig/atan.hpp", I+"math/trig/atan2.hpp", I+"math/trig/impl/inv_trig_impl.hpp"], [("special cases and quadrants", I+"math/trig/impl/inv_trig_impl.hpp"), ("argument screening before range reduction", I+"math/trig/impl/sincos_float_impl.hpp")])
prop("P16", "sqrt is the correctly rounded square root",
 "ccm::sqrt, sqrtf and sqrtl return, for every argument, the exact square root rounded once in the rounding mode in force: the representable value r such that no other representable value is the right rounding of the real square root. +0, -0 and +infinity are returned unchanged, NaN gives NaN and every negative argument gives NaN. Subnormal arguments are handled to the last bit, and integral arguments behave as the same value in double. The in-repo digit-recurrence kernel used in constant evaluation and without a builtin obeys the same contract as the builtin and the run-time SIMD path.",
 TYP + "; the recurrence is proved for every iteration by a loop invariant", "the root is built bit by bit and rounded from a remainder: a wrong bit in the normalisation, the last step or the tie rule shows only on rare significands, long double carries and subnormals",
 [I+"math/power/sqrt.hpp", I+"internal/math/generic/func/power/sqrt_gen.hpp"], [("digit recurrence, rounding and overflow of the last bit", I+"internal/math/generic/func/power/sqrt_gen.hpp")])
prop("P17", "fma rounds the exact x*y+z once",
 "ccm::fma and fmaf return, for all x, y, z of the format, the exact value of x*y+z rounded once in the rounding mode in force (round to nearest even, or CCM_CONSTEXPR_ROUNDING_MODE in constant evaluation), including results that are subnormal, overflow, or cancel completely: the sign of an exact zero sum is that of the common sign or, for opposite signs, + except when rounding downward. NaN in gives NaN, 0*infinity gives NaN, infinity minus infinity gives NaN, and infinities and zeros otherwise follow IEEE 754 fusedMultiplyAdd. The BigInt and normalised-float helpers that the kernel is built from (multiplication, addition, subtraction, shifts, bit width, comparison, one rounding step) return the exact integer or correctly rounded results they promise.",
 "every x, y, z of float and double on the in-repo kernel (run time and constant evaluation, all rounding modes); every width of the BigInt helpers used; long double through the compiler builtin only", "a double rounding or a lost sticky bit needs a triple whose exact sum falls within one unit of a tie 2^53 wide; no test suite enumerates those",
 [I+"math/basic/fma.hpp", I+"internal/support/fp/fma.hpp", I+"internal/types/big_int.hpp"], [("alignment, sticky bit, exact sum, single rounding", I+"internal/support/fp/fma.hpp"), ("multi-word integer arithmetic", I+"internal/types/big_int.hpp")])
prop("P18", "Every spelling of a function is the same function",
 "For each function family the suffixed forms (expf, expl, floorf, fmodl, ...), the integral overloads and the mixed overloads compute exactly what the primary template computes on the promoted arguments: xxxf(x) is xxx<float>(x), xxxl(x) is xxx<long double>(x), an integral argument is converted to double, and pow and fdim of mixed arithmetic types promote both to the widest of them (integers to double). The result has the promoted type. This holds for exp, log, trigonometric, power, gamma, nearest-integer, remainder, nextafter/nexttoward, fdim, copysign, frexp, modf, ldexp, scalbn, scalbln, ilogb, logb, fma and remquo (the long double form of remquo computes in double), at run time and in constant evaluation.",
 "every value of float, long double, bool, char, short, int, long, long long and their unsigned forms; each pair of types listed", "an overload that forwards to the wrong precision, converts too early or recurses is right on the small exact arguments tests use",
 [I+"math/expo", I+"math/trig", I+"math/power", I+"math/basic", I+"math/nearest", I+"math/misc", I+"math/fmanip"], [("suffix and promotion wrappers", I+"math/basic/fmod.hpp"), ("suffix and promotion wrappers", I+"math/power/pow.hpp")])
prop("P19", "fmod and remainder are exact",
 "In constant evaluation fmod(x, y) is exactly x - n*y with n the quotient truncated toward zero, with the sign of x (a zero result included), and remainder(x, y) is exactly x - n*y with n the integer nearest the real quotient x/y, ties to even, a zero result having the sign of x, for every pair of finite operands with y nonzero: no rounding happens however far apart the exponents are, subnormals included. x is returned when it is finite and y is infinite; the result is NaN if either argument is NaN, if x is infinite or if y is zero. At run time both are the platform's functions on the same arguments.",
 TYP + "; the reduction is proved for every exponent distance by a loop invariant", "the exponent distance ranges over thousands of steps and the quotient's parity decides ties; a rounded quotient is right on the small operands tests use",
 [I+"math/basic/fmod.hpp", I+"math/basic/remainder.hpp", I+"internal/math/generic/func/basic/mod_gen.hpp"], [("special cases before the reduction", I+"math/basic/fmod.hpp"), ("exact reduction of the significand", I+"internal/math/generic/func/basic/mod_gen.hpp")])
prop("P20", "Multi-word integers compute exactly modulo 2^N",
 "For types::BigInt (signed and unsigned) +, -, *, ++, --, unary -, &, |, ^, ~, << and >> (counts below the width; >> keeps the sign of signed values) and their assigning forms give the exact integer result modulo 2^N, add_overflow and sub_overflow report the carry, mul(word) returns the carry out of the top word, ful_mul is the exact double-width product of unsigned values, and ==, <, <=, >, >= order by value. div, / and % truncate toward zero: quotient*divisor + remainder is the dividend, |remainder| < |divisor|, the remainder has the dividend's sign, and div by zero gives no value and changes nothing. Conversions from and to the built-in integers and between BigInts keep the value modulo the target width, sign-extending between signed types. countl_zero, countr_zero, countl_one, countr_one, popcount, bit_width, has_single_bit, rotl and rotr (any count) and get_bit/set_bit of unsigned values agree with the binary representation.",
 "every operand value of 64- to 256-bit types with 32- and 64-bit words (division at 96 to 192 bits), on the run-time and the constant-evaluation carry paths; division by a loop invariant for every number of steps", "carries and borrows crossing words, sign extension between word sizes and counts at word boundaries depend on single words being all ones or zero, which sampled operands miss",
 [I+"internal/types/big_int.hpp", I+"internal/support/math_support.hpp"], [("word loops with carries", I+"internal/types/big_int.hpp"), ("shift-and-subtract division", I+"internal/types/big_int.hpp")])
prop("P21", "Special arguments of pow, hypot, cbrt, tgamma and lgamma give prescribed values",
 "pow(x, +-0) and pow(1, y) are 1 even for NaN; otherwise NaN in either argument gives NaN; pow of a zero or an infinity is the zero or infinity C Annex F prescribes, negative exactly when the base is negative and the exponent an odd integer; pow(x, +-inf) is 0, 1 or +inf by |x| (pow(-1, +-inf) is 1); a finite negative base with a finite non-integral exponent gives NaN; the sign of a long double power of a negative base follows the exponent's parity even when it overflows or underflows. hypot is +inf if either argument is infinite (NaN in the other one included), else NaN if one is NaN, and (float, double) |x| when the other argument is zero. cbrt keeps zeros and infinities. tgamma(+-0) is +-inf, tgamma(+inf) is +inf, tgamma(-inf) and tgamma of negative integers are NaN, and on the in-repo kernel path (float, double) a non-integral argument below -184 gives a zero with the sign of the gamma function there. lgamma is +inf at zero, at the negative integers and at both infinities, zero at 1 and 2, and defined for every positive integral argument. NaN gives NaN in the last three. NaNs are quiet; long double pow in deterministic mode is evaluated on doubles and is not part of this.",
 TYP + "; every special argument or pair", "which exponents are odd integers, and which class of each of two arguments wins, is a table of dozens of cases per type and path; tests sample single literals on the path they are compiled for",
 [I+"math/power/pow.hpp", I+"math/power/hypot.hpp", I+"math/power/cbrt.hpp", I+"math/misc/gamma.hpp", I+"math/misc/lgamma.hpp", I+"internal/math/generic/func/power"], [("exceptional cases before the kernel", I+"internal/math/generic/func/power/pow_impl/powf_impl.hpp"), ("exceptional cases before the kernel", I+"internal/math/generic/func/power/pow_impl/pow_impl.hpp"), ("parity of the exponent, sign of the result", I+"internal/math/generic/func/power/powl_gen.hpp")])
prop("P22", "Transcendental results stay within the documented error bounds",
 "For every finite argument in the domain, exp, log, sin, pow and the other approximating functions return a value within the number of ULPs documented in docs/ULP_STATUS.md of the real result.",
 TYP, "the worst case is one argument among 2^64",
 ["docs/ULP_STATUS.md", I+"math/expo", I+"math/trig"], [("polynomial kernels and tables", I+"math/expo/impl")],
 na="a bound on |result - f(x)| needs the real functions exp, log, sin, ... in the specification logic and rounding-error analysis of table-driven polynomial kernels; none of the installed deductive back ends (z3, cvc5, bit-blasting) has a theory of them, and comparing with a reference implementation on samples is a different technique. Special values, domains and thresholds are decided by P14, P15 and P21.")
