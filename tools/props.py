#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
E = "libs/e_float/src/e_float/"
F = "libs/e_float/src/functions/"
CORE = [E + "efx/e_float_efx.cpp", E + "gmp/e_float_gmp.cpp", E + "mpfr/e_float_mpfr.cpp"]
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Addition and subtraction are correct to the advertised digits",
  "For all finite x and y, x+y and x-y (operators, compound operators and increment/decrement by one) differ from the exact sum or difference by at most one unit in the last advertised decimal digit of the larger operand, and are exact whenever the exact result and both operands fit together in the advertised digits. The sign of the result is the sign of the exact result, an exact zero is the one zero value, addition is commutative, and x-y is the negation of y-x.",
  ["inputs", "configurations"], "every pair of finite values (any signs, any exponent distance, any digit pattern) in every numeric back end",
  "The tests add a few thousand pseudo-random operands of similar size; carries and borrows running through all limbs, exact cancellation, operands at the edge of the alignment window and exact zero results are never enumerated.",
  CORE, [("operator+= / operator-=", E + "efx/e_float_efx.cpp"), ("operator++ / operator--", E + "efx/e_float_efx.cpp")],
  observe=["operator+", "operator-", "operator+=", "operator-=", "++", "--"])

p("C02", "Multiplication is correct to the advertised digits",
  "For all finite x and y whose product is in range, x*y has the sign of the exact product and a relative error below one unit in the last advertised decimal digit; it is exact whenever the exact product fits in the advertised digits. Multiplication is commutative, and squaring through one and the same object gives the same value as multiplying two equal objects.",
  ["inputs", "configurations"], "every pair of finite values with any limb pattern (including maximal limbs that maximise carries) in every numeric back end",
  "A carry that only occurs for extreme limb patterns is met by random operands with vanishing probability, and the tests use random operands.",
  CORE + [E + "detail/e_float_detail_karatsuba.h"], [("operator*=, mul_loop_uv", E + "efx/e_float_efx.cpp")], observe=["operator*", "operator*="])

p("C03", "Division and reciprocal are correct to the advertised digits",
  "For all finite x and non-zero y with the quotient in range, x/y and the reciprocal of y carry the sign of the exact quotient and a relative error of at most one unit in the last advertised decimal digit. Dividing a value by an equal value gives one and dividing by one gives the value itself (exactly so in the back ends that do not divide through a rounded binary reciprocal), and dividing a product of integers that fits in the advertised digits by one of its factors gives the other factor to the advertised digits.",
  ["inputs", "configurations"], "every finite numerator and non-zero denominator in every numeric back end",
  "The reciprocal is a Newton iteration from a double seed: convergence for seeds near a decade boundary or with extreme exponents is only guaranteed by reasoning over all inputs.",
  CORE, [("calculate_inv, operator/=", E + "efx/e_float_efx.cpp")], observe=["operator/", "operator/=", "calculate_inv", "ef::inv"])

p("C04", "Infinities, NaN and zero follow one arithmetic table",
  "In every arithmetic operation between two values of the type NaN is absorbing, infinity minus infinity, zero times infinity, zero over zero and infinity over infinity are NaN, any other operation with an infinite operand gives the infinity (or, for a finite value divided by infinity, the zero) with the sign that extended real arithmetic prescribes, and a non-zero finite value divided by zero is an infinity with the sign of the numerator (times the sign of the zero, in a back end that keeps one). Classification (finite, infinite, NaN, zero, one, negative) agrees with the value on every result, including for the reciprocal, square root, negation and absolute value of special values.",
  ["inputs", "programs", "configurations"], "every operation applied to every combination of operand classes and signs, and every short program mixing them, in every numeric back end",
  "The tests never feed infinities or NaN to the binary operators; the table has hundreds of entries per back end.",
  CORE + [E + "e_float.cpp"], [("class checks at the head of each operator", E + "efx/e_float_efx.cpp"), ("class checks", E + "gmp/e_float_gmp.cpp"), ("class checks", E + "mpfr/e_float_mpfr.cpp")],
  state=[("my_fpclass", "finite / infinite / NaN", E + "efx/e_float_efx.h")], observe=["operators", "isnan", "isinf", "isfinite", "iszero", "isone", "isneg"])

p("C05", "Overflow saturates to infinity, underflow to zero",
  "An addition, subtraction, multiplication or division whose exact result is above the largest representable magnitude by more than the rounding of the last advertised digit gives the infinity of the right sign, one whose exact non-zero result is below the smallest representable magnitude gives zero, and one whose exact result lies between them gives a finite non-zero value with the right exponent. Decimal literals with exponents beyond the range behave the same way.",
  ["inputs"], "every pair of finite values whose exact result lies near or beyond either end of the exponent range (about 10^2147483616 and its reciprocal for the native back end)",
  "The tests do not go near the ends of the exponent range; the exponent bookkeeping there is a matter of single comparisons.",
  CORE, [("range checks after mul, add and parse", E + "efx/e_float_efx.cpp")],
  state=[("my_exp", "decimal exponent", E + "efx/e_float_efx.h")], observe=["operators", "construction from text"])

p("C06", "Comparison is the numerical total order",
  "On all values other than NaN the six comparison operators, the three-way comparison and minimum/maximum selection agree with the numerical order (minus infinity first, plus infinity last), so they are a total order consistent with the sign of the difference, regardless of how the value was produced. NaN equals nothing, itself included, and comparing with any built-in integer or floating-point number gives the same answer as comparing with that number converted exactly.",
  ["inputs", "configurations"], "every pair of values, every built-in type, in every numeric back end",
  "Tests only compare results with control values for equality; neighbours in the last limb, operands of different exponents and mixed comparisons at type limits are not sampled.",
  CORE + [E + "e_float.h", E + "e_float.cpp"], [("cmp / cmp_data", E + "efx/e_float_efx.cpp"), ("mixed comparison templates", E + "e_float.h")], observe=["<", "<=", "==", "!=", ">=", ">", "compare"])

p("C07", "Arithmetic with built-in numbers equals arithmetic with the converted number",
  "For every value x and every built-in integer or floating-point number n, each of x+n, n+x, x-n, n-x, x*n, n*x, x/n, n/x and the compound forms gives the same result, to the advertised digits and with the same class, sign and saturation, as first converting n exactly and then operating on two values of the type. This includes the extreme values of each built-in type, zero, and special values of x.",
  ["inputs", "configurations"], "every value, every built-in arithmetic type and every number of that type, every operator and side",
  "The dedicated single-word multiply and divide paths are only tested with small positive integers; negative limits, numbers above one limb, zero and special values are not.",
  CORE + [E + "e_float_base.cpp", E + "e_float.h"], [("add/sub/mul/div_unsigned_long_long", E + "efx/e_float_efx.cpp"), ("add/sub/mul/div_signed_long_long", E + "e_float_base.cpp"), ("mul_loop_n, div_loop_n", E + "efx/e_float_efx.cpp")], observe=["mixed operators"])

p("C08", "Conversions from and to built-in numbers are faithful",
  "Constructing a value from any built-in integer is exact and from any normal float, double or long double is correct to the advertised digits (with infinities and NaN preserved); converting back gives the same number. Converting any value to an integer type truncates toward zero and saturates at the limits of that type (a negative value converted to an unsigned type goes through the signed type of the same width, and the conversion of NaN is unspecified), and converting any value to double or long double gives a number within a relative error of a few units in the last binary place (infinite above the type's range).",
  ["inputs", "configurations"], "every built-in number of every arithmetic type, and every value converted to each of them",
  "Tests convert a handful of numbers; saturation limits, values within one unit of a limit and values with a long fraction are not covered.",
  CORE + [E + "e_float_base.h", E + "e_float_base.cpp", F + "elementary/elementary_math.cpp"], [("from_unsigned_long_long, from_long_double", E + "efx/e_float_efx.cpp"), ("extract_double, extract_signed_long_long, extract_unsigned_long_long", E + "efx/e_float_efx.cpp"), ("to_int32, to_int64", F + "elementary/elementary_math.cpp")], observe=["constructors", "extract_*", "ef::to_*"])

p("C09", "Reading a decimal literal yields the number it denotes",
  "Every decimal literal (optional sign, digits with at most one decimal point at any position, any number of leading and trailing zeros, optional exponent with sign) constructs, assigns or streams into a value that equals the denoted number to the advertised digits, exactly when the literal has no more significant digits than advertised. The result depends only on the literal: not on the previous contents of the object read into, and not on which of several spellings of the same number is used.",
  ["inputs", "histories", "configurations"], "every well-formed literal, every previous state of the destination",
  "The tests parse literals in the one canonical spelling of their control tables; limb alignment of the decimal point, leading zeros and reuse of an object are not exercised.",
  CORE + [E + "e_float_base.cpp"], [("rd_string", E + "efx/e_float_efx.cpp"), ("rd_string", E + "gmp/e_float_gmp.cpp"), ("rd_string", E + "mpfr/e_float_mpfr.cpp"), ("operator>>", E + "e_float_base.cpp")], observe=["constructor from text", "operator>>"])

p("C10", "Writing a value follows the stream's format with correctly rounded digits",
  "For every value and every combination of the stream's format flags (fixed, scientific or neither, showpoint, showpos, uppercase, left/right/internal adjustment, width, fill) and precision, the characters written denote the value rounded to the requested number of digits (never wrong by more than one unit in the last printed digit, digits beyond those held being written as zeros) in the layout the C++ stream rules prescribe for that format, with infinities and NaN spelled as such. The library's own conventions are: a precision of zero or less counts as six, the exponent is written with a number of digits that is a multiple of three, the neither-fixed-nor-scientific format is fixed for magnitudes from 10^-4 up to the precision in digits, and internal adjustment pads like right adjustment. Width and fill never change the digits.",
  ["inputs", "configurations"], "every value x every format-flag combination x every precision and width",
  "Tests print with one fixed format only; rounding that carries into a new leading digit, fixed notation of small and large values and padding combinations are unsampled.",
  [E + "e_float_base.cpp"] + CORE, [("wr_string, operator<<", E + "e_float_base.cpp"), ("get_output_string", E + "efx/e_float_efx.cpp"), ("get_output_string", E + "gmp/e_float_gmp.cpp"), ("get_output_string", E + "mpfr/e_float_mpfr.cpp")], observe=["operator<<"])

p("C11", "Printing and reading back preserves the value",
  "For every finite value, text written with the maximum number of meaningful digits (scientific, fixed or general format) and read back gives a value equal to the original to the advertised digits, and equal exactly when the original has no more digits than were printed. Writing the value that was read back reproduces the same text.",
  ["inputs", "histories", "configurations"], "every finite value, also after chains of write/read",
  "No test reads back what the library wrote.",
  [E + "e_float_base.cpp"] + CORE, [("wr_string / rd_string", E + "e_float_base.cpp")], observe=["operator<< then operator>>"])

p("C12", "Integer and fractional parts decompose every value",
  "For every finite x: the integer part is x truncated toward zero, integer part plus fractional part equals x and both have the sign of x (or are zero), floor and ceiling are the neighbouring integers that enclose x, x is reported an integer exactly when its fractional part is zero, the decimal order is the exponent of x in scientific notation (in the binary back ends possibly that of the neighbouring decade when x agrees with a power of ten to five digits), and scaling by powers of two followed by splitting off the power (into a fraction from one half up to one) is lossless to the advertised digits, while the power of two fits an int. The floating remainder of x and y is x minus a whole multiple of y, smaller than y in magnitude and with the sign of x, as far as the quotient has no more digits than advertised.",
  ["inputs", "configurations"], "every finite value, including values within one unit of an integer and integers larger than the advertised digits",
  "Tests use these functions only as building blocks with benign arguments; negative fractions, values just below integers and limb-boundary integers decide.",
  CORE + [F + "elementary/elementary_math.cpp"], [("extract_integer_part, extract_decimal_part, isint", E + "efx/e_float_efx.cpp"), ("floor, ceil, fmod, ldexp, frexp", F + "elementary/elementary_math.cpp")], observe=["ef::floor", "ef::ceil", "ef::integer_part", "ef::decimal_part", "ef::fmod", "ef::ldexp", "ef::frexp", "isint", "order"])

p("C13", "Values are independent of each other and of aliasing",
  "After any sequence of constructions, copies, moves, swaps, assignments, arithmetic, increments and comparisons over a set of variables, each variable holds what the same sequence computes on mathematical values to the advertised digits: an operation changes no variable but its target. Using one object as both operands or as operand and target (x+=x, x-=x, x*=x, x/=x, x=x) gives the same result as using equal copies, and equal operands give identical results wherever and whenever the operation is executed.",
  ["histories", "programs", "configurations"], "every program over a few variables, including self-application and objects left behind by moves and failures",
  "Unit tests call each operation once on fresh objects; residue of earlier contents, aliasing and move leftovers need histories.",
  CORE + [E + "e_float.h", E + "detail/e_float_detail_dynamic_array.h"], [("operator=, move, swap", E + "efx/e_float_efx.cpp"), ("aliasing branches", E + "efx/e_float_efx.cpp")],
  state=[("my_data", "limbs", E + "efx/e_float_efx.h")], observe=["all operators on named variables"])

p("C14", "Reduced precision bounds the error and ends when it is lifted",
  "After a value's precision is set to n digits, products, quotients and square roots computed into it are correct to n digits (the setting is clamped to the supported range and does not change the current value), additions stay correct, and setting the precision back to the maximum makes later operations on freshly assigned values correct to all advertised digits again. Other values are never affected, and no earlier low-precision residue appears in later full-precision results beyond the error already present in the operands.",
  ["histories", "inputs"], "every interleaving of precision changes, copies, assignments and arithmetic, every n",
  "Only the built-in functions use reduced precision, in one fixed pattern each.",
  [E + "efx/e_float_efx.cpp"], [("precision", E + "efx/e_float_efx.cpp"), ("limb count in mul and div loops", E + "efx/e_float_efx.cpp")],
  state=[("my_prec_elem", "number of limbs used", E + "efx/e_float_efx.h")], observe=["precision()", "operators"])

p("C15", "Products at thousands of digits are as exact as short ones",
  "At every configured and requested precision the product of two values is the exact product to that precision: the internal choice between schoolbook and transform-based multiplication, the transform length and the size of the limbs are not observable in the result, also for limb patterns that maximise the convolution sums. Squares, reciprocals and square roots built on it satisfy their defining equations to that precision.",
  ["inputs", "configurations"], "every operand pair at precisions from the transform threshold up to the largest configuration, with extremal digit patterns",
  "The pi tests multiply generic numbers; the worst-case convolution magnitude, where floating-point transforms round wrongly, needs extremal operands.",
  [E + "efx/e_float_efx.cpp", E + "detail/e_float_detail_fft.h"], [("mul_loop_fft", E + "efx/e_float_efx.cpp"), ("rfft_lanczos / fft kernels", E + "detail/e_float_detail_fft.h")], observe=["operator*", "calculate_inv", "calculate_sqrt"])

p("C16", "Roots and integer powers are correct on the whole real line",
  "Square root, cube root, n-th root, inverse n-th root, integer powers and powers of two of every finite argument are correct to a few units in the last advertised digit relative to the true value (for an integer power, and for a root of an order beyond ten million, up to the effect of changing the argument in its last held digit), at any magnitude of argument and exponent with the result in range; perfect powers give roots correct to that accuracy and x to the power zero is one. Arguments outside the real domain give NaN, odd roots of negative numbers are the negated roots, and every such call terminates.",
  ["inputs", "configurations"], "every value and every integer exponent or root degree, including negative, zero and extreme ones",
  "Tests sample a short list of arguments with degrees two and three.",
  [F + "elementary/elementary_math.cpp", F + "elementary/elementary_trans.cpp", E + "detail/e_float_detail_pown_template.h"] + CORE, [("calculate_sqrt", E + "efx/e_float_efx.cpp"), ("pown_template", E + "detail/e_float_detail_pown_template.h"), ("rootn, rootn_inverse, cbrt, pow2", F + "elementary/elementary_trans.cpp")], observe=["ef::sqrt", "ef::cbrt", "ef::rootn", "ef::rootn_inverse", "ef::pow", "ef::pow2"])

p("C17", "Exponential, logarithm and real power are correct on their domain",
  "For every finite argument in the domain with the result in range, exp, log, log10, log to a given base, log1p and real power are correct to a few units in the last advertised digit, up to the unavoidable effect of changing each argument in its last advertised digit. Outside the domain the result is NaN or the limiting infinity or zero, and log(exp x) = x, exp(log x) = x, exp(x+y) = exp(x)exp(y) follow to that accuracy.",
  ["inputs", "configurations"], "every argument: all magnitudes from the underflow to the overflow end, arguments next to one, zero and integers",
  "Tests use about a hundred fixed arguments per function; series-selection thresholds and argument reduction at extreme magnitudes are not met.",
  [F + "elementary/elementary_trans.cpp", F + "elementary/elementary_hyper_g.cpp"], [("exp, log, log1p, pow", F + "elementary/elementary_trans.cpp"), ("hypergeometric series", F + "elementary/elementary_hyper_g.cpp")], observe=["ef::exp", "ef::log", "ef::log10", "ef::loga", "ef::log1p", "ef::pow"])

p("C18", "Circular functions and their inverses are correct on their domain",
  "Sine, cosine, tangent, secant, cosecant, cotangent, arcsine, arccosine, arctangent and the two-argument arctangent of every finite argument (for the six circular functions, of magnitude up to 10^60) are correct to a few units in the last advertised digit, up to the unavoidable effect of changing the argument in its last advertised digit, with the right quadrant and sign for all argument signs. Odd and even symmetry holds, arcsine and arccosine outside [-1,1] are NaN, and the two-argument arctangent covers the full circle including the axes.",
  ["inputs", "configurations"], "every argument and sign: next to multiples of pi/2, tiny, next to one, large",
  "Tests use fixed arguments in convenient ranges; every series-selection threshold and each sign/quadrant combination matters.",
  [F + "elementary/elementary_trig.cpp"], [("sincos argument reduction", F + "elementary/elementary_trig.cpp"), ("asin/acos/atan series selection", F + "elementary/elementary_trig.cpp")], observe=["ef::sin", "ef::cos", "ef::tan", "ef::sec", "ef::csc", "ef::cot", "ef::asin", "ef::acos", "ef::atan", "ef::atan2"])

p("C19", "Hyperbolic functions and their inverses are correct on their domain",
  "Hyperbolic sine, cosine, tangent and their inverses of every finite argument in the domain with the result in range are correct to a few units in the last advertised digit, up to the unavoidable effect of changing the argument in its last advertised digit. They keep their relative accuracy for tiny arguments, tend to their limits for huge arguments, have the right symmetry, and give NaN (or the limiting infinity) outside the real domain.",
  ["inputs", "configurations"], "every argument: tiny, moderate, huge, next to one",
  "Tests use fixed arguments of moderate size.",
  [F + "elementary/elementary_trans.cpp"], [("sinhcosh, tanh, asinh, acosh, atanh", F + "elementary/elementary_trans.cpp")], observe=["ef::sinh", "ef::cosh", "ef::tanh", "ef::asinh", "ef::acosh", "ef::atanh"])

p("C20", "Complex arithmetic obeys the field rules",
  "For complex numbers with finite parts, sum, difference, product, quotient, negation, conjugate, norm, absolute value, comparison and integer powers (between two complex numbers, with a real, and with built-in numbers, also when one object is both operand and target) equal the exact complex results with an error in each part of at most a few units in the last advertised digit of the natural magnitude of the operation. Text written for a complex number is (real,imaginary) in the stream's format and reads back as the same number.",
  ["inputs", "programs", "configurations"], "every pair of complex numbers, every mixture of operand kinds, every aliasing",
  "Tests exercise a product and quotient per function case only; mixed operands and aliasing are not covered.",
  [E + "e_float_complex.h"], [("complex<e_float> operators", E + "e_float_complex.h")], observe=["ef::complex operators", "ef::norm", "ef::abs", "ef::conj", "stream operators"])

p("C21", "Complex elementary functions are correct on their principal branches",
  "Exponential, logarithm, powers, square root, circular and hyperbolic functions and their inverses of a complex argument of moderate magnitude equal the principal values composed from the exact real functions, with an error in each part of at most a few units in the last advertised digit of the magnitude of the result (for the logarithm and the inverse functions, of one plus that magnitude), up to the unavoidable effect of changing the argument in its last advertised digit. The branch cuts and signs are those of the C++ standard; exactly on a cut the value of either side may be returned. Zero, one, minus one and the imaginary unit are arguments like any other except at true poles, polar form and argument (phase) are correct in all quadrants and on the axes, and on the real axis inside their real domain the functions agree with the real ones to that accuracy.",
  ["inputs", "configurations"], "every complex argument in all four quadrants with moderate magnitude",
  "Tests fix a few hundred arguments, mostly in the first quadrant.",
  [E + "e_float_complex.h"], [("complex<e_float> functions", E + "e_float_complex.h")], observe=["ef::exp", "ef::log", "ef::sqrt", "ef::sin", "ef::cos", "ef::tan", "ef::asin", "ef::acos", "ef::atan", "ef::sinh", "ef::cosh", "ef::tanh", "ef::asinh", "ef::acosh", "ef::atanh", "ef::pow"])

p("C22", "Factorials, binomials and Pochhammer symbols have their exact values",
  "For all arguments, factorials, double factorials (of negative odd integers too) and binomial coefficients with integer arguments equal the exact integer to the advertised digits, whether the value comes from a table or is computed, and tabulated values that fit are exact (factorials up to 200, binomials with n up to 160). Pochhammer symbols and binomials with real first argument and integer count equal the defining finite product, zero included, and those with two real arguments the quotient of gamma functions away from its poles, to the advertised digits up to the condition number of the expression.",
  ["inputs", "configurations"], "every n and k over and beyond the tabulated range, every real argument of moderate size",
  "Tests check a few dozen entries; the tables hold thousands of literal numbers.",
  [F + "gamma/factorial.cpp", F + "gamma/factorial2.cpp", F + "gamma/pochhammer.cpp", F + "tables/A000142.cpp", F + "tables/A006882.cpp", F + "tables/A007318.cpp"], [("tables and fall-back computation", F + "gamma/factorial.cpp"), ("pochhammer", F + "gamma/pochhammer.cpp")], observe=["ef::factorial", "ef::factorial2", "ef::binomial", "ef::pochhammer"])

p("C23", "Prime lists are complete and factorizations multiply back",
  "For every n the list of the first n primes is exactly the increasing sequence of the first n primes. For every 32-bit integer greater than one the reported factorization consists of distinct primes with positive multiplicities whose product is the number.",
  ["inputs", "histories"], "every n, every 32-bit integer to be factorized, in any order of calls",
  "Tests look at single primes; sieve bounds and composite leftovers depend on the individual n.",
  [F + "integer/prime.cpp", F + "integer/prime_factor.cpp", F + "integer/prime_factors.h"], [("sieve bound and prime table", F + "integer/prime.cpp"), ("trial division", F + "integer/prime_factor.cpp")], observe=["ef::prime", "ef::prime_factors"])

p("C24", "Bernoulli numbers and integer zeta values are exact to the digits",
  "For every n the n-th Bernoulli number (from the table, from the generator of whole tables, and from the asymptotic computation beyond the table) equals the rational number defined by the Bernoulli recurrence to a few units in the last advertised digit, and zeta at every integer argument equals its closed form or defining series to that accuracy. Tables of any requested length agree with single values.",
  ["inputs", "configurations"], "every index over and beyond the tabulated range, every requested table length, every integer zeta argument",
  "Tests check selected indices.",
  [F + "integer/bernoulli_b.cpp", F + "tables/A000367.cpp", F + "tables/A002445.cpp", F + "zeta/zeta.cpp"], [("bernoulli, bernoulli_table", F + "integer/bernoulli_b.cpp"), ("riemann_zeta(int)", F + "zeta/zeta.cpp")], observe=["ef::bernoulli", "ef::bernoulli_table", "ef::riemann_zeta"])

p("C25", "Gamma and zeta agree with the mathematical functions",
  "Gamma of every real argument of moderate magnitude agrees with the mathematical function (so that it satisfies the recurrence and reflection formulas and equals the factorial at positive integers) to the advertised digits up to its condition number, is not finite at its poles, and is accurate next to an integer when the offset is given separately; zeta of every real argument other than one agrees with the mathematical function to that accuracy, one for large arguments; the same holds for complex arguments of moderate size.",
  ["inputs", "configurations"], "every real argument of moderate magnitude, including next to poles, integers and half-integers and on both sides of every algorithm switch",
  "Tests use a few hundred fixed arguments; algorithm switches depend on the argument's size and closeness to integers.",
  [F + "gamma/gamma.cpp", F + "gamma/gamma_util.cpp", F + "zeta/zeta.cpp"], [("gamma, gamma_near_n", F + "gamma/gamma.cpp"), ("riemann_zeta", F + "zeta/zeta.cpp")], observe=["ef::gamma", "ef::riemann_zeta"])

p("C26", "Hypergeometric series sum to their mathematical value",
  "For every set of real parameters (no non-positive integer among the lower ones) and every argument inside the region of fast convergence, each hypergeometric function equals its defining series to the advertised digits relative to the largest term, terminating series are summed completely, and the special-parameter functions agree with the general one.",
  ["inputs", "configurations"], "every parameter tuple of moderate size and every argument with fast convergence, including terminating cases",
  "Tests reach these functions only through a few fixed callers.",
  [F + "elementary/elementary_hyper_g.cpp"], [("term recurrence and stopping rule", F + "elementary/elementary_hyper_g.cpp")], observe=["ef::hypergeometric_*"])

p("C27", "Mathematical constants are correct at every configured precision",
  "Every named constant (integers, fractions, numeric limits of built-in types, pi and its relatives, e, logarithms of two and ten, square root of two and of pi, golden ratio, Euler-Mascheroni, Catalan, Khinchin, Glaisher) equals its mathematical value to the advertised digits at every configured precision up to a thousand digits (pi, its relatives and the plain numbers at every precision), and the type's numeric limits describe the type: the largest value, smallest normal value, epsilon and digit counts are the ones the arithmetic exhibits.",
  ["configurations"], "every constant at every configuration of digits and back end",
  "Tests run at one digit setting and compare only the constants some formula happens to use.",
  [F + "constants/constants.cpp", "libs/e_float/src/generic_functions/constants/generic_functions_constants.h", E + "e_float.h"], [("constant tables and computations", F + "constants/constants.cpp"), ("std::numeric_limits", E + "e_float.h")], observe=["ef::pi", "ef::ln2", "std::numeric_limits<e_float>"])

p("C28", "The dynamic array behaves as a sequence",
  "Every program of constructions, copies, moves, swaps, assignments, fills, element accesses and comparisons on dynamic arrays and fixed-size number storage leaves each array with the contents and length that a mathematical sequence would have, with no access outside its bounds, no leak and no double release.",
  ["programs", "histories"], "every operation sequence over a few arrays of all small lengths, including empty, self-assignment and moved-from arrays",
  "No test targets the container; self-operations and length changes need sequences.",
  ["libs/e_float/src/utility/util_dynamic_array.h", E + "detail/e_float_detail_dynamic_array.h"], [("copy/move/swap/assign", "libs/e_float/src/utility/util_dynamic_array.h")], observe=["Util::dynamic_array", "fixed_dynamic_array"])

p("C29", "Numerical helper algorithms meet their mathematical contracts",
  "The helper algorithms keep their contracts for every input: interpolation returns the tabulated ordinates at the nodes and the straight line between them and extends constantly outside, root finders ask for the function inside the bracket only, return a point of it within tolerance of a root when they report success, and succeed where a sign change or monotone convergence guarantees it; the difference rule is exact for polynomials up to degree six and the trapezoid rule refines until the requested relative change; powers of integers by prime factors agree with the power function whatever the shared table holds; alternating sums and coefficient expansions equal the defining finite sums; digit scale and text casts return what they are defined to.",
  ["inputs", "programs"], "every table, every function from a family with known roots, every count and length",
  "No test checks these helpers in isolation.",
  ["libs/e_float/src/utility/util_interpolate.h", "libs/e_float/src/utility/util_find_root_bisect.h", "libs/e_float/src/utility/util_find_root_newton_raphson.h", "libs/e_float/src/utility/util_power_j_pow_x.cpp", "libs/e_float/src/utility/util_alternating_sum.h", "libs/e_float/src/utility/util_coefficient_expansion.h", "libs/e_float/src/utility/util_trapezoid.h", "libs/e_float/src/utility/util_function_derivative.h", "libs/e_float/src/utility/util_digit_scale.cpp", "libs/e_float/src/utility/util_numeric_cast.h"], [("helpers", "libs/e_float/src/utility/")], observe=["Util::*"])

p("C30", "Results do not depend on earlier calls",
  "Every function returns the identical value for identical arguments no matter which other functions were called before, with which arguments, in which order or how often, including the very first call of the process; arguments passed by reference are not modified.",
  ["histories"], "every interleaving of calls over the functions that keep internal tables or constants computed on first use",
  "Each test runs functions in one fixed order; first-use initialisation and caches only show in other orders.",
  [F + "constants/constants.cpp", F + "elementary/elementary_trans.cpp", F + "elementary/elementary_trig.cpp", F + "zeta/zeta.cpp", F + "gamma/gamma.cpp", F + "integer/bernoulli_b.cpp", F + "integer/prime_factor.cpp"], [("function-local statics", F)],
  state=[("function-local statics", "tables and constants computed on first use", F)], observe=["all ef:: functions"])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
