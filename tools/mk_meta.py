#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the one list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/gcem_incl/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[f if f.startswith('include') else I + f for f in files], mechanism=[dict(name=n, where=(w if w.startswith('include') else I + w)) for n, w in mech])),
              technique, note))


POINTS = 'The tests compare a few dozen hand-picked points per function (mostly long double results rounded to a loose tolerance, and exact textual edge values); '
ACC = 'monitor: binary128 reference oracle over generated workloads, 4 builds'
ACCN = ('Every observed result of four builds (GCC and Clang, C++11 and C++17/20) is judged against a binary128 reference (libquadmath, Boost.Math) with a conditioning-aware limit of a few units in the last place (harness/tol_table.inc). '
        'Exploration of the inputs, not proof; trusts libquadmath/Boost and the limits, which are about 4 times the largest error seen in calibration. ')
F32 = 'A lattice over all 2^32 floats is swept as well (every 7th float in the thorough tier). '

prop('C01', 'Every function can be evaluated inside a constant expression',
     'A call of any public function with arguments whose result the type can represent (infinities and, where the compiler admits NaN constants, NaN and domain-error arguments included) is accepted as a constant expression by GCC and Clang under C++11, 14, 17 and 20 with default compiler limits. '
     'No evaluation meets undefined behaviour, a non-constant operation, or the default depth or step limits of constant evaluation (lmgamma: dimensions up to 60).',
     ['inputs', 'configurations'], 'all 49 functions, float, double, long double over their whole range of magnitudes, and the integer overloads; all arguments with representable results; 2 compilers x 4 standards',
     'The tests are compiled with one compiler and one standard, and call most functions at run time or bind a handful of constants; whether a call is constant depends on the argument (overflowing intermediates, iteration counts, recursion depth).',
     ['include/gcem.hpp', 'exp.hpp', 'log.hpp', 'atan.hpp', 'incomplete_gamma.hpp', 'incomplete_beta.hpp', 'signbit.hpp', 'gcem_options.hpp'],
     [('recursive evaluation with iteration limits', 'gcem_options.hpp'), ('range splits that avoid overflow', 'atan.hpp')],
     'monitor: compilers\' constant evaluators as undefined-behaviour interpreters over generated constexpr programs',
     'About 117,000 (quick) generated constant expressions per run; the two compilers\' constant evaluators interpret the library and reject every undefined or non-constant step. NaN-producing calls are put to GCC only, since Clang rejects the production of a NaN as such.')
prop('C02', 'Compile-time and run-time results are identical',
     'For every public function and every argument at which it is a constant expression, the value computed during constant evaluation equals, bit for bit, the value the same compiler produces when the call is evaluated at run time.',
     ['inputs', 'configurations'], 'all functions, three floating-point types and the integer overloads, all constant-evaluable arguments, GCC and Clang, C++11 to C++20, -O0 to -O2',
     'Tests either evaluate at compile time or at run time, never both on the same arguments, and compare within a tolerance.',
     ['include/gcem.hpp', 'gcem_options.hpp', 'floor.hpp', 'ceil.hpp', 'signbit.hpp', 'quadrature/gauss_legendre_50.hpp'], [('single implementation for both contexts', 'gcem_options.hpp')],
     'monitor: bitwise comparison of constexpr values with volatile run-time evaluation', 'About 58,000 (quick) argument tuples in four compiler/standard/optimisation configurations; trusts the compilers\' constant folding of IEEE arithmetic.')
prop('C03', 'Results do not depend on the compiler, standard or optimisation level',
     'The library compiles with GCC and Clang under C++11, 14, 17, 20 and 23, their GNU dialects included, and for identical arguments every function returns identical bits from all C++11 builds and from all C++14-and-later builds, whatever the compiler, the optimisation level, the instruction set and NDEBUG (no fast-math, no contraction). '
     'Between the two groups, which may use different algorithms, results agree on being NaN and agree up to rounding (a few units in the last place of the error scale of C09 to C20; the inverse functions within their accuracy); the exact functions and the integer algorithms agree exactly.',
     ['inputs', 'configurations'], 'all functions and types, any arguments including NaN, infinities and arbitrary bit patterns; 15 builds',
     'The tests run one build of one compiler.', ['include/gcem.hpp', 'gcem_options.hpp', 'exp.hpp', 'tan.hpp', 'lgamma.hpp'],
     [('C++11 recursion and C++14 loops selected by standard', 'exp.hpp'), ('feature detection', 'gcem_options.hpp')],
     'monitor: N-version bit comparison of 15 builds on one workload', 'Same generated arguments given to fifteen shared objects built from the working tree; any differing bit (NaN payload apart) within a group, and any difference beyond rounding between the groups, is a violation.')
prop('C04', 'No call has undefined behaviour, crashes or reads uninitialised memory',
     'For all arguments of the floating-point types, NaN, infinities, subnormals and arbitrary bit patterns included (gcd, lcm and binomial_coef too, the latter as long as its result is within the range of an integer), and for integral arguments whose exact result is representable, no public function performs an undefined operation (integer overflow, out-of-range conversion, out-of-bounds or invalid access, bad shift), reads uninitialised memory, traps, or fails to return.',
     ['inputs', 'configurations'], 'all functions, three floating-point types, arbitrary arguments',
     'Tests run without instrumentation on benign arguments; conversions of huge values to integers and unbounded recursion only occur outside them.',
     ['find_whole.hpp', 'find_fraction.hpp', 'find_exponent.hpp', 'exp.hpp', 'pow_integral.hpp', 'tgamma.hpp', 'incomplete_gamma.hpp', 'incomplete_beta.hpp', 'quadrature/gauss_legendre_50.hpp'],
     [('splitting a value into whole part and fraction', 'find_whole.hpp'), ('table lookups of quadrature nodes', 'quadrature/gauss_legendre_50.hpp')],
     'UBSan (own runtime), ASan and MSan over generated hostile workloads', 'UndefinedBehaviorSanitizer (GCC bounds-strict, float-cast-overflow; Clang) with a reporting runtime of our own on three builds, MemorySanitizer and AddressSanitizer on four more, signal and time guards on every call. Floating-point division by zero is defined IEEE arithmetic here and not reported.')
prop('C05', 'Work and nesting of every call are bounded for all arguments',
     'Whatever the arguments, a call finishes within a fixed, modest amount of work and with a nesting depth of at most 512 calls, that is within the compilers\' default depth of constant evaluation and far within default stacks. Integer algorithms included, for arguments with representable results. lmgamma, which recurs once per dimension: dimensions up to 60.',
     ['inputs'], 'all functions, three floating-point types with arbitrary arguments, integral types with representable results',
     'The tests never measure depth or work; recursion depth grows with the magnitude of the argument in several functions.',
     ['gcem_options.hpp', 'log.hpp', 'find_exponent.hpp', 'mantissa.hpp', 'sqrt.hpp', 'tgamma.hpp', 'pow_integral.hpp', 'binomial_coef.hpp', 'incomplete_gamma.hpp', 'lmgamma.hpp'],
     [('iteration limits', 'gcem_options.hpp'), ('scaling by powers of ten', 'find_exponent.hpp')],
     'monitor: -finstrument-functions and trace-pc counters with per-function limits', 'Nesting, calls and basic blocks are counted in every monitored call of a C++11 and a C++17 build at -O0; the limit on basic blocks is at least four times what the shipped code needs (largest nesting observed: 444).')
prop('C06', 'Special values: NaN, infinities, domain errors, poles, overflow and underflow',
     'A NaN argument gives NaN (except in the comparison and sign functions, for a zero exponent and for pow(1,y)); arguments outside the domain of a logarithm, root, inverse trigonometric or inverse hyperbolic function, of erf_inv, of incomplete_gamma_inv (p > 1), or at a pole of tgamma give NaN. '
     'Limits are exact: functions at 0, 1, and plus or minus infinity return their mathematical limits (log(0) = -inf, exp(-inf) = 0, atan(inf) = pi/2, and so on), and saturating functions reach their limit while exp, expm1, sinh and cosh overflow to infinity and underflow to 0.',
     ['inputs'], 'all functions and types; NaN in each argument position with arbitrary other arguments; the whole outside of each domain; the table of special points in harness/modes.hpp',
     'Tests hold one or two special points per function, at one type.', ['include/gcem.hpp', 'is_nan.hpp', 'is_inf.hpp', 'is_finite.hpp', 'log.hpp', 'sqrt.hpp', 'tgamma.hpp', 'erf.hpp', 'pow.hpp', 'atan2.hpp', 'hypot.hpp', 'neg_zero.hpp'],
     [('guard clauses before the numerics', 'log.hpp'), ('classification', 'is_nan.hpp')],
     'monitor: table and sweep oracle for special values', 'About 330 tabulated results per type and sweeps (NaN positions, outside of domains, poles, saturated tails) on four builds. Where gcem follows its own convention (sign of zero results, lgamma at non-positive numbers, pow of a negative base to a real power) nothing is claimed beyond the table.')
prop('C07', 'floor, ceil, trunc and round are exact; fmod is exact on integers',
     'For every finite argument of every floating-point type, floor, ceil, trunc and round (half away from zero) return exactly the integer defined by IEEE/C, infinities return themselves, and zeros return themselves with their sign. '
     'fmod of integral values of magnitude below 2^24 (float), 2^53 (double) or 2^63 (long double) is exact with the sign of the first argument; of real values it agrees with the exact remainder to within rounding error of the arguments (modulo the divisor), while the quotient is below 2^22 (float) or 2^50.',
     ['inputs'], 'all 2^32 floats; doubles and long doubles of every magnitude; fmod over integer and real pairs', POINTS + 'rounding breaks at half-integers, next to powers of two and beyond 2^31, which they do not reach.',
     ['floor.hpp', 'ceil.hpp', 'trunc.hpp', 'round.hpp', 'fmod.hpp', 'find_whole.hpp', 'find_fraction.hpp'], [('check for values that have no fraction', 'floor.hpp'), ('whole part', 'find_whole.hpp')],
     'monitor: exact oracle (IEEE integer rounding, exact remainder)', 'Judged exactly; the thorough tier enumerates all 2^32 float arguments.')
prop('C08', 'abs, sgn, signbit, copysign, max and min are exact',
     'For every argument the absolute value, sign, sign bit (that of negative zero included), copied sign, maximum and minimum are exactly the mathematical ones, with abs of negative zero being positive zero.',
     ['inputs'], 'all values of the three floating-point types, and pairs', POINTS + 'signed zeros, subnormals and infinities in pairs are not covered.',
     ['abs.hpp', 'sgn.hpp', 'signbit.hpp', 'copysign.hpp', 'max.hpp', 'min.hpp', 'neg_zero.hpp'], [('sign bit access', 'signbit.hpp')],
     'monitor: exact oracle', 'Judged exactly on special pairs, neighbouring values and arbitrary bit patterns; the thorough tier enumerates all floats. NaN arguments of the comparison functions are not claimed.')
for id, title, st, q, files, mech, extra in [
    ('C09', 'exp and expm1 are accurate over their whole range', 'exp(x) is within a few units in the last place, growing only with |x|, of the true value for every x up to the overflow and down to the underflow threshold of the type; expm1(x) is accurate relative to its own size for |x| <= 1e-4 and to within rounding error of exp(x) elsewhere. The results at 0, NaN and infinities are exact.',
     'all finite x with representable result, three types', ['exp.hpp', 'expm1.hpp', 'find_whole.hpp'], [('whole/fraction split and continued fraction', 'exp.hpp'), ('small-argument series', 'expm1.hpp')], F32),
    ('C10', 'log, log1p, log2 and log10 are accurate over their whole range', 'For every positive normal x the logarithms are within a few units in the last place of the true value, relative to the result on [0.5, 1.5] and to 1+|result| elsewhere; log1p is accurate relative to the result for |x| <= 1e-4. Zero, negative, infinite and NaN arguments give -infinity, NaN, infinity and NaN.',
     'all positive normal x (log1p: all x > -1), three types', ['log.hpp', 'log1p.hpp', 'log2.hpp', 'log10.hpp', 'mantissa.hpp', 'find_exponent.hpp'], [('mantissa/exponent split', 'mantissa.hpp'), ('continued fraction and break points', 'log.hpp')], F32),
    ('C11', 'pow, sqrt, inv_sqrt and hypot are accurate and do not overflow spuriously', 'sqrt, inv_sqrt and hypot are within a few units in the last place of the true value for all normal arguments whose result is representable, without intermediate overflow or underflow. pow(x,y) for x > 0 is accurate up to the conditioning |y log x|, and powers with integral exponent are accurate up to |n| roundings for any base, negative ones included, over the whole range of the exponent type.',
     'all normal arguments, three types; int exponents', ['pow.hpp', 'pow_integral.hpp', 'sqrt.hpp', 'inv_sqrt.hpp', 'hypot.hpp'], [('scaling into a small range and Newton iteration', 'sqrt.hpp'), ('repeated squaring', 'pow_integral.hpp'), ('scaling by the larger side', 'hypot.hpp')], F32),
    ('C12', 'sin, cos and tan are accurate in all quadrants', 'For |x| <= 2 pi, and with reduced argument up to 1e6 (float: 1e4), sin, cos and tan are within a few units in the last place of the true value up to the conditioning x f\'(x), in every quadrant and on both sides of every multiple of pi/4, with the correct sign. Infinite and NaN arguments give NaN. Excluded: tan at exactly the value nearest pi/2 and beyond |x| = 20 next to its poles.',
     'all x in the stated ranges, three types', ['sin.hpp', 'cos.hpp', 'tan.hpp'], [('reduction by multiples of pi', 'tan.hpp'), ('half-angle formulas', 'sin.hpp')], F32),
    ('C13', 'asin, acos, atan and atan2 are accurate in all quadrants', 'asin and acos (up to the conditioning at the ends), atan and atan2 are within a few units in the last place of the true value for all arguments in the domain, and atan2 selects the correct quadrant for every combination of signs, zeros and infinities, y = -0 with negative x included; at the origin (both arguments zero) it returns plus or minus 0 or pi with the sign of y. NaN and out-of-domain arguments give NaN.',
     'all arguments in the domain, three types', ['asin.hpp', 'acos.hpp', 'atan.hpp', 'atan2.hpp'], [('series for large and continued fraction for small arguments', 'atan.hpp'), ('quadrant selection', 'atan2.hpp')], F32),
    ('C14', 'sinh, cosh and tanh are accurate up to overflow', 'sinh (absolute accuracy near 0), cosh and tanh (relative) are within a few units in the last place, up to the conditioning |x|, for every x below the overflow threshold less 1.5, and saturate to infinity, respectively to plus or minus 1, beyond.',
     'all finite x, three types', ['sinh.hpp', 'cosh.hpp', 'tanh.hpp', 'exp.hpp'], [('continued fraction', 'tanh.hpp')], F32),
    ('C15', 'asinh, acosh and atanh are accurate over their whole range', 'asinh, acosh and atanh are within a few units in the last place of the true value relative to 1+|result| (acosh: up to its conditioning at 1) for every argument in the domain, up to the largest finite value of the type, without intermediate overflow.',
     'all arguments in the domain, three types', ['asinh.hpp', 'acosh.hpp', 'atanh.hpp', 'log.hpp'], [('large-argument branch', 'asinh.hpp')], F32),
    ('C16', 'lgamma, tgamma, factorial and lmgamma are accurate', 'lgamma of every positive x is accurate relative to 1+|result|; tgamma is accurate up to the conditioning |lgamma(x)| for positive and negative non-integral arguments with representable result (negative ones with the right sign); factorial (as tgamma(x+1), negative non-integers included) and the multivariate lmgamma likewise. tgamma and lgamma overflow to infinity only where the true value does.',
     'positive and negative arguments over the whole representable range (long double: about -1750 to 1750), three types; dimensions 1..20 for lmgamma', ['lgamma.hpp', 'tgamma.hpp', 'factorial.hpp', 'lmgamma.hpp'], [('Lanczos coefficients', 'lgamma.hpp'), ('reflection by recurrence', 'tgamma.hpp')], ''),
    ('C17', 'beta, lbeta and log_binomial_coef are accurate', 'For arguments in [1e-3, 1e6] (float: up to 1e4) lbeta, beta and log_binomial_coef (0 <= k <= n) are within rounding error of their log-gamma terms of the true value; a NaN argument gives NaN.',
     'all argument pairs in the stated ranges, three types', ['beta.hpp', 'lbeta.hpp', 'log_binomial_coef.hpp', 'lgamma.hpp'], [('combination of log-gamma values', 'lbeta.hpp')], ''),
    ('C18', 'erf is accurate on the whole line and erf_inv inverts it', 'erf is accurate relative to its value for every argument (with an amplification of up to exp(2(x^2-1)) between 1 and 1.7), and erf_inv(p) for |p| < 1 returns y with erf(y) = p to within the resolution of the type, also in the tails; erf_inv at plus or minus 1 is plus or minus infinity, and beyond it NaN.',
     'all arguments, three types', ['erf.hpp', 'erf_inv.hpp'], [('continued fractions for small, mid and large arguments', 'erf.hpp'), ('initial value and Halley iteration', 'erf_inv.hpp')], F32),
    ('C19', 'incomplete_gamma is accurate and incomplete_gamma_inv inverts it', 'For a in [0.05, 2000] and x in [1e-3, 1e4] the regularised lower incomplete gamma function is accurate to eps times (1 + |a log x| + x + |lgamma a|); its inverse, for a in [0.1, 1000] and p in [1e-6, 1-1e-6] (float: [0.01, 0.99]), returns y with P(a,y) = p to the same accuracy. P is 0 at x = 0 and 1 at infinity, its inverse 0 at p = 0 and infinity at p = 1.',
     'all argument pairs in the stated ranges, three types', ['incomplete_gamma.hpp', 'incomplete_gamma_inv.hpp', 'quadrature/gauss_legendre_50.hpp'], [('continued fractions and Gauss-Legendre quadrature by region', 'incomplete_gamma.hpp'), ('initial value and Halley iteration', 'incomplete_gamma_inv.hpp')], ''),
    ('C20', 'incomplete_beta is accurate and incomplete_beta_inv inverts it', 'For a, b in [0.1, 1000] and z in [0, 1] the regularised incomplete beta function is accurate to eps times (1 + sum of |lgamma| terms); its inverse, for a, b in [0.1, 100] and p in [1e-6, 1-1e-6], returns y in [0,1] with I(y) = p to the same accuracy or within 4 units in the last place of y. Both are exactly 0 at 0 and 1 at 1.',
     'all argument triples in the stated ranges, three types', ['incomplete_beta.hpp', 'incomplete_beta_inv.hpp'], [('continued fraction and its reflection', 'incomplete_beta.hpp'), ('initial value and Halley iteration', 'incomplete_beta_inv.hpp')], '')]:
    prop(id, title, st, ['inputs'], q, POINTS + 'the error of each approximation varies over its range and jumps where one branch hands over to the next.', files, mech, ACC, ACCN + extra)
prop('C21', 'The integer algorithms are exact for all integral types',
     'gcd, lcm (of absolute values), binomial_coef, factorial, integral pow, abs, sgn, max and min return the exact mathematical result, without overflow in between, whenever it and the arguments are representable in the common type, for every pair of integral argument types; binomial_coef(n,k) is 0 for k > n and for negative k. '
     'gcd, lcm and binomial_coef of floating-point arguments holding integers (below 2^63) are exact as well.',
     ['inputs', 'configurations'], 'eleven integral types and all ordered pairs of them; arguments with representable results', 'Tests use a few int arguments.',
     ['gcd.hpp', 'lcm.hpp', 'binomial_coef.hpp', 'factorial.hpp', 'pow_integral.hpp', 'pow.hpp', 'abs.hpp', 'sgn.hpp', 'max.hpp', 'min.hpp'], [('Euclid\'s algorithm', 'gcd.hpp'), ('table of factorials', 'factorial.hpp'), ('recurrence for coefficients', 'binomial_coef.hpp')],
     'monitor: exact __int128 oracle under UBSan', 'All small arguments exhaustively, larger ones of every magnitude randomly, for 121 ordered type pairs in four instrumented builds.')
prop('C22', 'Result types, promotion of integral and mixed arguments, and noexcept',
     'Every function accepts every arithmetic argument type and mixture of types: integral arguments of the real-valued functions are treated as double, mixed arguments as their common (promoted) type, and the result has that type and value, exactly as calling with the promoted arguments (signbit and copysign: floating-point arguments only). '
     'abs, max, min, pow, gcd, lcm, binomial_coef and factorial keep the (common) argument type; every function is noexcept.',
     ['inputs', 'programs'], 'all functions, eighteen unary argument types (bool and the character types included), a grid of type pairs and triples, integers of the whole range of their type and fractions', 'Tests use double, float or int in a few functions; most combinations of types are never instantiated.',
     ['gcem_options.hpp', 'include/gcem.hpp', 'atan2.hpp', 'hypot.hpp', 'pow.hpp', 'incomplete_beta.hpp', 'incomplete_beta_inv.hpp', 'lmgamma.hpp'], [('return_t and common_return_t', 'gcem_options.hpp')],
     'monitor: type and value observation over a grid of instantiations', 'Types by std::is_same and the noexcept operator, values by comparison with the promoted call, in four builds. A combination that stops compiling is a violation.')
prop('C23', 'Symmetry, range, monotonicity and functional identities',
     'Odd and even functions are so to within rounding; results stay within the range of the function (|sin|, |cos|, |tanh|, |erf| at most 1, probabilities in [0,1], angles within their interval) and monotone functions do not decrease by more than rounding error. '
     'Identities hold to within rounding: sin^2+cos^2 = 1, tan = sin/cos, exp(x)exp(-x) = 1, log(exp(x)) = x, sqrt(x)^2 = x, sqrt(x)*inv_sqrt(x) = 1, tgamma(x+1) = x tgamma(x), lgamma = log tgamma, beta and hypot symmetric, I(a,b,z)+I(b,a,1-z) = 1, I increasing in z, P(a,x) increasing in x, asin+acos = pi/2, tanh = sinh/cosh, cosh^2-sinh^2 = 1, erf_inv(erf(x)) = x, log_binomial_coef(n,k) = log_binomial_coef(n,n-k).',
     ['inputs', 'histories'], 'all arguments of the domain and ordered pairs of them, three types', 'Relations between results of different calls are not tested at all.',
     ['sin.hpp', 'cos.hpp', 'tan.hpp', 'exp.hpp', 'log.hpp', 'sqrt.hpp', 'inv_sqrt.hpp', 'tgamma.hpp', 'lgamma.hpp', 'beta.hpp', 'hypot.hpp', 'erf.hpp', 'incomplete_beta.hpp', 'incomplete_gamma.hpp'], [('branches by sign and magnitude', 'tan.hpp')],
     'monitor: metamorphic relations over call histories', 'Checks relations between results of several calls, independent of any reference implementation, on four builds.')
prop('C24', 'Independence of configuration and inclusion environment',
     'The headers can be included first, last, repeatedly, in several translation units of one program, next to the C and C++ mathematics headers with using directives, and with function-like or object-like macros abs, min, max, round and signbit defined, always compiling, linking and giving identical results. '
     'Raising any of the documented iteration limits (GCEM_*_MAX_ITER*), in any combination, and allowing fused multiply-add keep every result within the accuracy of C09 to C20.',
     ['configurations', 'inputs'], 'eight inclusion environments x 4 compiler/standard pairs; raised limits, fixed and random combinations; FMA contraction', 'The tests include one header in one environment with default options.',
     ['include/gcem.hpp', 'gcem_options.hpp'], [('undefinition of macros', 'gcem_options.hpp'), ('include guards and inline functions', 'include/gcem.hpp'), ('overridable limits', 'gcem_options.hpp')],
     'monitor: cross-environment comparison and accuracy oracle on reconfigured builds', 'Eight environments compiled separately, linked into one program and compared bit by bit; then the accuracy monitor on builds with other options.')
prop('C25', 'Functions are pure and thread-safe',
     'Every call returns the same bits for the same arguments whatever was evaluated before and whatever other threads evaluate at the same time, shares no mutable state, and leaves errno, the rounding mode and the other floating-point control settings untouched.',
     ['schedules', 'histories', 'inputs'], 'all functions, floating-point and integral types; sequential histories in several orders, with families of neighbouring arguments; 8 threads', 'The tests are single-threaded and evaluate each point once.',
     ['include/gcem.hpp', 'quadrature/gauss_legendre_30.hpp', 'quadrature/gauss_legendre_50.hpp', 'gcem_options.hpp'], [('constant tables', 'quadrature/gauss_legendre_50.hpp')],
     'ThreadSanitizer and a history monitor over 8 concurrent threads', 'Case list evaluated forwards, backwards, repeated and by 8 threads in random and lock-step order; results compared bit by bit; errno, rounding mode, MXCSR and x87 control word compared around every call; races reported by TSan.')
prop('C26', 'The library is self-contained',
     'No call of a public function, at any argument, calls into the C mathematics library or any other external function, allocates memory, performs input or output, throws, or touches errno.',
     ['inputs'], 'all functions, three floating-point types with arbitrary arguments, and integral arguments', 'Tests link against the C library and cannot tell who computed the result.',
     ['include/gcem.hpp', 'gcem_options.hpp'], [('own implementations only', 'include/gcem.hpp')],
     'monitor: recording stand-ins for the C library under a hostile workload', 'Every C library, allocation and error interface is replaced inside the system under test by a stand-in that reports being called, in three builds with built-ins disabled.')
prop('C27', 'The constants and the quadrature rules have full long double precision',
     'The mathematical constants of the library (GCEM_PI, GCEM_HALF_PI, GCEM_E, GCEM_LOG_2, GCEM_LOG_10, GCEM_LOG_PI, GCEM_LOG_2PI, GCEM_LOG_SQRT_2PI, GCEM_SQRT_2, GCEM_SQRT_PI, GCEM_SQRT_HALF_PI) are the true values correctly rounded to long double. '
     'The nodes and weights of the 30-point and 50-point Gauss-Legendre rules are the true ones correctly rounded to long double, so that the rules integrate every polynomial of degree below 60 and 100, over any interval, exactly up to rounding.',
     ['inputs', 'configurations'], 'all eleven constants, all 160 nodes and weights, polynomials of all degrees the rules are exact for; four builds', 'No test looks at the constants or the tables; an error in a late digit is below the tolerance of every test.',
     ['gcem_options.hpp', 'quadrature/gauss_legendre_30.hpp', 'quadrature/gauss_legendre_50.hpp'], [('constants', 'gcem_options.hpp'), ('tables', 'quadrature/gauss_legendre_50.hpp')],
     'monitor: binary128 oracle for constants, nodes and weights, and an exactness oracle for integrals of random polynomials', 'Nodes and weights are computed anew by Newton iteration on Legendre polynomials in binary128. A table the library no longer offers under its name is reported in the evidence as not observed.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
M = dict(version=1, setup_cmd='python3 run.py setup',
         checks=[dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'], technique=t, level='exploration', level_note=n) for p, t, n in P],
         not_applicable=[],
         notes='All checks rebuild the system under test from /repo\'s working tree. No hooks in /repo are needed: instrumentation comes from compiler flags and link-time stand-ins. Repairs in /repo are the commits whose message starts with fix:, listed in KNOWN_FINDINGS.txt. "run.py replay <file>" repeats recorded violations.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
