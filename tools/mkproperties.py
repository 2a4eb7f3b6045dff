#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkproperties.py)."""
import json, os
P = []
INST = 'for every supported element type, vector ABI (scalar, fixed-size, aligned, packed, incl. sizes that leave the last native vector partial), x86 instruction-set level'


def p(id, title, st, text, why, files, mech, over=('inputs', 'configurations'), observe=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


TX, TG = 'dpm/detail/x86/type.hpp', 'dpm/detail/generic/type.hpp'
p('A01', 'Vector arithmetic and bitwise operators act per element like the scalar ones',
  'For every element, +, -, *, /, %, unary +/-, ~, &, |, ^, ++ and --, in vector-vector, vector-scalar and compound-assignment form, yield exactly the value the scalar C++ operator gives on that element (integers wrap modulo 2^n; floating point is the correctly rounded IEEE result, any NaN standing for any NaN). '
  'Compound assignment and prefix increment update their left operand and return it. Only mathematically undefined scalar cases (integer division by zero or overflow) are exempt.',
  INST + ', and every operand value', 'The test suite exercises no operator directly; results must hold for all 2^(2n) operand pairs of each element and for every type x ABI x ISA implementation, which take different code paths (emulated 8- and 64-bit multiply, division by converting, masks of partial vectors).',
  [TX, TG, 'dpm/detail/x86/addsub.hpp', 'dpm/detail/x86/muldiv.hpp', 'dpm/detail/x86/bitwise.hpp'],
  [('native add/sub/mul/div dispatch', 'dpm/detail/x86/addsub.hpp, muldiv.hpp'), ('operators of packed simd', TX), ('operators of generic simd', TG)])
p('A02', 'Comparison operators give the exact scalar truth value per element',
  'For every element, ==, !=, <, <=, >, >= produce a mask element that is true exactly when the scalar comparison of the two elements is true, with IEEE rules for NaN and signed zero and with the signedness of the element type.',
  INST + ', and every pair of element values', 'No test compares vectors; unsigned and 64-bit comparisons are emulated per ISA level and can be wrong only for values with the top bit set or with particular halves.',
  [TX, TG, 'dpm/detail/x86/cmp.hpp'], [('cmp_eq/cmp_ne/cmp_lt/cmp_le/cmp_gt/cmp_ge', 'dpm/detail/x86/cmp.hpp')])
p('A03', 'Shift operators and constant shifts act per element like scalar shifts',
  'For every element and every count below the element width, << and >> (by vector, by scalar, compound) and the constant-count shifts lsl, lsr, asl, asr give exactly the scalar result: left shifts discard high bits, right shift of signed elements replicates the sign (lsr: shifts in zeroes), of unsigned elements shifts in zeroes, and no bit crosses from one element to another.',
  INST + ', every element value and every in-range count (compile-time counts: every count)', 'No test shifts anything; per-element shifts are emulated differently for 8-, 16-, 32- and 64-bit elements on each ISA level.',
  [TX, TG, 'dpm/detail/x86/bitwise.hpp'], [('shift_l/shift_r and constant shifts', 'dpm/detail/x86/bitwise.hpp'), ('lsl/lsr/asl/asr', TX + ', ' + TG)])
p('A04', 'Mask logic acts per element like bool logic',
  'For every element, !, ~, &, |, ^, &&, ||, ==, != of masks, their compound forms, and construction from one bool give exactly the bool result on that element.',
  INST + ', and every combination of mask element values', 'Masks of packed vectors are bit patterns, of generic vectors arrays of bool; both must agree for all 2^N masks; no test covers it.',
  [TX, TG], [('operators of simd_mask', TX + ', ' + TG)])
p('A05', 'Mask reductions depend on exactly the elements of the mask',
  'all_of, any_of, none_of, some_of, reduce_count (popcount), reduce_min_index and reduce_max_index return exactly the answer computed over the N elements of the mask: no padding element of a partial native vector is counted and none of the N is skipped.',
  INST + ', and every mask value (index reductions: every mask with at least one true element)', 'The answer depends on 2^N masks and on the padding contents of the last native vector, which no test inspects.',
  [TX, TG, 'dpm/detail/x86/mbase.hpp'], [('movemask based reductions', TX), ('mask_reduce loops', TG)])
p('A06', 'copy_from, copy_to, constructors and element access move every element unchanged',
  'Loading from and storing to memory, constructing from a broadcast value, a generator or a memory pointer, and reading or writing an element by subscript place the i-th memory, generated or assigned value (converted as static_cast does when the types differ) in element i and nowhere else, for const and mutable pointers and for each alignment flag.',
  INST + ', every memory contents, every element index, every alignment flag, every source or destination arithmetic type whose conversion is defined', 'Conversions take type-pair specific intrinsic sequences chosen at compile time by flag and size; the tests only ever copy float and double to their own type.',
  [TX, TG, 'dpm/detail/x86/cvt.hpp', 'dpm/flags.hpp'], [('copy_from/copy_to', TX + ', ' + TG), ('native_vec_cast/cvt', 'dpm/detail/x86/cvt.hpp')])
p('A07', 'No operation touches memory outside what its arguments designate',
  'No operation reads or writes memory outside the caller\'s objects or the size() elements a pointer argument designates, none performs an aligned access the promised alignment does not justify, and none reads storage that was never written or returns a reference to a dead object.',
  INST + ', every index, mask and data value, and every alignment flag', 'Out-of-bounds accesses depend on sizes that leave partial vectors and on the position of the buffer; an overread by a few bytes is invisible to an equality test.',
  [TX, TG, 'dpm/detail/x86/transform.hpp', 'dpm/detail/x86/utility.hpp'], [('maskload/maskstore, tail handling in copy_from/copy_to', TX)])
p('A08', 'Masked loads and stores touch exactly the selected elements',
  'A masked copy_from changes exactly the elements whose mask is true and leaves the others as they were; a masked copy_to writes exactly the memory elements whose mask is true and leaves the other bytes of the destination unmodified.',
  INST + ', every mask, every memory contents, both for vectors and masks', 'Depends on all 2^N masks and on the bytes that must not change; no test uses masked copies.',
  [TX, TG, 'dpm/detail/x86/transform.hpp'], [('masked copy_from/copy_to of where-expressions', TX + ', ' + TG), ('maskload/maskstore emulation', 'dpm/detail/x86/transform.hpp')])
p('A09', 'blend, min, max, minmax and clamp select per element like the scalar algorithms',
  'For every element, blend picks the operand selected by the mask element; min, max and clamp return, per element, exactly the value std::min, std::max and std::clamp return (clamp for lo not above hi), NaN and signed-zero operands included; minmax returns the smaller in first and the larger in second (for equal or unordered elements which operand goes where is not promised).',
  INST + ', and every operand and mask value, including NaN and signed zero operands', 'One of the two tests that touch this (blend) does not even compile in this sandbox, and it samples a handful of values; NaN and signed-zero operands make the hardware minimum differ from std::min by argument order.',
  [TX, TG, 'dpm/detail/x86/minmax.hpp', 'dpm/detail/x86/mbase.hpp'], [('blendv', 'dpm/detail/x86/mbase.hpp'), ('min/max', 'dpm/detail/x86/minmax.hpp')])
p('A10', 'shuffle rearranges the elements of vectors and masks exactly',
  'shuffle<I0, I1, ...>(x) returns a vector or mask with as many elements as there are indices, whose element j is exactly element Ij of x, bit for bit, whatever the pattern (identity, reversal, broadcast, repetition, fewer or more indices than x has elements).',
  INST + ', every element value, and every index sequence instantiated', 'The shuffle test samples few index patterns on few types; which instruction sequence runs depends on the index pattern, element size and ISA.',
  [TX, TG, 'dpm/detail/x86/transform.hpp', 'dpm/detail/alias.hpp'], [('shuffle_elements', 'dpm/detail/x86/transform.hpp')])
p('A11', 'Conversions between vector types convert every element like static_cast',
  'Converting constructors, simd_cast, static_simd_cast, to_fixed, to_compatible, to_native-style casts, and the same for masks, give in every element exactly the static_cast of the source element whenever that scalar conversion is defined.',
  INST + ', every pair of element types and ABIs of equal size instantiated, and every element value whose scalar conversion is defined', 'Integer/floating-point conversion uses tricks (magic constants, rounding-mode dependent instructions) that are right for small sampled values and wrong at range edges or for fractions.',
  [TX, TG, 'dpm/detail/x86/cvt.hpp'], [('cvt', 'dpm/detail/x86/cvt.hpp'), ('simd_cast/static_simd_cast', TG)])
p('A12', 'Horizontal reductions combine every element exactly once',
  'reduce (with the standard operations or any associative and commutative callable), reduce_min, reduce_max, hadd, hmul, hand, hor and hxor combine all N elements exactly once and nothing else: padding elements of a partial native vector never contribute. Integer results equal the sequential fold; for floating point the result is some re-association of it (minima and maxima: of elements that are not NaN).',
  INST + ', and every element value', 'Padding contents are arbitrary and change with history, so a reduction that lets them in is right in a test by luck.',
  [TX, TG], [('reduce/reduce_min/reduce_max/hadd/hmul/hand/hor/hxor', TX + ', ' + TG)])
p('A13', 'Floating-point classification and quiet comparisons are exact per element',
  'isnan, isinf, isfinite, isnormal, isunordered, signbit, fpclassify and isgreater, isgreaterequal, isless, islessequal, islessgreater return per element exactly what the C++ <cmath> function returns, for every bit pattern including NaN, infinities, subnormals and signed zeroes.',
  INST + ' (float and double), and every bit pattern', 'Each is a bit-level classification over 2^32 / 2^64 patterns; the suite tests none of them.',
  ['dpm/detail/x86/class.hpp', 'dpm/detail/generic/math.hpp'], [('classification functions', 'dpm/detail/x86/class.hpp')])
p('A14', 'abs, copysign, fmin, fmax, fdim, fma and lerp are exact per element',
  'abs/fabs, copysign, fmin, fmax, fdim and fma return per element exactly the <cmath> result for every bit pattern (any NaN standing for any NaN), with a NaN operand of fmin/fmax ignored when the other is a number; fma may be fused or not but never mixes up its operands, and lerp(a, b, t) is a + t * (b - a).',
  INST + ', and every bit pattern', 'NaN, infinity and signed-zero handling depends on operand order of hardware minimum and subtraction; the suite tests none of these functions.',
  ['dpm/detail/x86/mbase.hpp', 'dpm/detail/x86/minmax.hpp', 'dpm/detail/generic/math.hpp'], [('abs/fmin/fmax/fdim/fma', 'dpm/detail/x86/mbase.hpp')])
p('A15', 'Rounding functions return the correctly rounded integer for every input',
  'ceil, floor, trunc, round, rint, nearbyint and the integer-returning lround, llround, lrint, llrint, iround, irint, itrunc, ltrunc, lltrunc return per element what the <cmath> function returns for every bit pattern (integer results: every value whose result is representable).',
  INST + ' (float and double), default rounding mode, and every bit pattern', 'Without SSE4.1 rounding is emulated through integer conversion, which fails only for magnitudes, ties or special values outside a sampled set; the suite tests none.',
  ['dpm/detail/x86/round.hpp', 'dpm/detail/generic/math.hpp'], [('rounding functions', 'dpm/detail/x86/round.hpp')])
p('A16', 'frexp, ldexp, scalbn, modf, ilogb, logb and nextafter are exact per element',
  'The floating-point manipulation functions return per element exactly what the <cmath> functions return for every bit pattern and every int exponent, including subnormal, zero, infinite and NaN inputs, in the value and in the second result.',
  INST + ' (float and double), every bit pattern and every exponent', 'The tests sample a list of values; these are bit-manipulating functions over 2^32 / 2^64 inputs with several special regions.',
  ['dpm/detail/x86/fmanip.hpp', 'dpm/detail/x86/frexp.cpp', 'dpm/detail/x86/modf.cpp', 'dpm/detail/x86/scalbn.cpp', 'dpm/detail/x86/logb.cpp', 'dpm/detail/x86/nextafter.cpp'], [('fmanip kernels', 'dpm/detail/x86/*.cpp')])
p('A17', 'Functions without a vector kernel call the scalar function on each element',
  'Every math function implemented by falling back to the scalar library returns in element i the result of exactly that scalar function applied to the i-th elements of its arguments in their order, and no other; the overloads that accept mixed or integer arguments convert each element to the promoted type and then apply the function of that type.',
  INST + ', every function and every element value', 'Dozens of near-identical wrappers, each a chance of calling the wrong function or passing the wrong argument; none but a few is tested.',
  ['dpm/detail/generic/math.hpp', 'dpm/detail/x86/mbase.hpp'], [('generic per-element loops', 'dpm/detail/generic/math.hpp')])
p('A18', 'Math kernels honour special and boundary arguments',
  'With error handling on, each transcendental function returns NaN for a NaN argument and for every argument outside its domain, the infinity, zero or constant the C standard prescribes at poles, infinities and zeroes (with the sign of zero where the standard fixes it), and a finite, correctly scaled result at the boundaries of its range: the smallest subnormal and normal, tiny arguments where f(x) = x, the largest finite number, powers of two and ten, each quadrant, and trigonometric arguments too large for the integer range reduction.',
  INST + ' (float and double), for every NaN, infinity, zero and out-of-domain argument in any element with any contents of the other elements, and for listed boundary constants', 'Each special case must hold with every combination of ordinary values in the neighbouring elements; the tests sample a fixed list of ordinary values and compare signs of infinities loosely.',
  ['dpm/detail/x86/trig.hpp', 'dpm/detail/x86/exp.hpp', 'dpm/detail/x86/log.cpp', 'dpm/detail/x86/log2.cpp', 'dpm/detail/x86/log10.cpp', 'dpm/detail/x86/log1p.cpp', 'dpm/detail/x86/sincos.cpp', 'dpm/detail/x86/tan.cpp', 'dpm/detail/x86/asincos.cpp', 'dpm/detail/x86/atan.cpp', 'dpm/detail/x86/except.hpp', 'dpm/detail/x86/hypot.cpp', 'dpm/detail/x86/pow.hpp'], [('except_invalid/except_divzero and NaN blends', 'dpm/detail/x86/except.hpp'), ('log_excepts, log_normalize', 'dpm/detail/x86/exp.hpp'), ('slow path for large arguments', 'dpm/detail/x86/sincos.cpp')])
p('A19', 'No element of a result depends on any other element',
  'For every element-wise operation and math function, element i of the result is the same function of the i-th elements of the arguments, whatever the other elements hold, whichever position i is and whatever the padding contains.',
  INST + ', every function and every contents of the other elements', 'Kernels test whole-vector masks and take slow paths for all elements when one is special; a test that varies one element at a time cannot cover the cross product.',
  ['dpm/detail/x86/trig.hpp', 'dpm/detail/x86/exp.hpp', 'dpm/detail/x86/pow.hpp', 'dpm/detail/x86/mbase.hpp'], [('mask_invoke and blended slow paths', 'dpm/detail/x86/*.cpp')])
p('A20', 'Operations are pure: no hidden state, safe to call concurrently',
  'No vector operation or math function reads or writes mutable global state, allocates, or changes the floating-point environment; concurrent calls on distinct objects never interfere and equal arguments always give equal results.',
  'every function, every schedule of concurrent calls, every history of earlier calls', 'Schedules and histories cannot be sampled to a conclusion; no test is concurrent.',
  ['dpm/detail/x86', 'dpm/detail/generic', 'dpm/detail/fconst.cpp'], [('absence of mutable globals in kernels and headers', 'dpm/detail')], over=('schedules', 'histories'))
p('A21', 'Processor feature queries report the architecturally defined bits',
  'Each CPU feature query is true exactly when the architecturally defined CPUID leaf, register and bit is set, the leaf is supported, and, for features whose registers the system must save (XSAVE itself, SSE, AVX, FMA, F16C, AVX2, AVX-512), the operating system has enabled them; vendor queries match exactly the vendor strings.',
  'every value the processor can report', 'A test can only run on the processor at hand.',
  ['dpm/detail/x86/cpuid.cpp', 'dpm/detail/x86/cpuid.hpp'], [('cpuid constructor', 'dpm/detail/x86/cpuid.cpp')], over=('configurations',))
p('A22', 'Compile-time traits describe the types truthfully',
  'size, alignment, ABI, rebind, resize, deduce, is_simd, native-data and alignment traits agree with one another and with the layout of the types they describe, and operations reject at compile time the element types and sizes their contract excludes.',
  'every supported element type, size and ABI', 'Traits are quantified over all types and sizes; nothing in the test suite checks them.',
  ['dpm/traits.hpp', 'dpm/detail/generic/abi.hpp', 'dpm/detail/x86/abi.hpp', 'dpm/flags.hpp'], [('abi and size traits', 'dpm/traits.hpp')], over=('programs', 'configurations'))
p('A23', 'Table lookups of the math kernels stay inside their tables for every input',
  'For every argument bit pattern, the index with which a math kernel reads a constant table lies inside that table, also for NaN, infinite, negative and subnormal arguments.',
  INST + ', every argument bit pattern', 'An index derived from the bits of the argument must be bounded over 2^32 / 2^64 patterns; tests sample few.',
  ['dpm/detail/x86/lut.hpp', 'dpm/detail/fconst.cpp', 'dpm/detail/x86/log.cpp', 'dpm/detail/x86/log2.cpp'], [('table index masking', 'dpm/detail/x86/lut.hpp')])
p('A24', 'Constant evaluation and run time give the same results',
  'The branch an operation takes during constant evaluation gives the same element values as the branch it takes at run time (for the multiply-add family and lerp, which may be fused at run time: the value of the element-wise definition), and never accesses memory outside the objects involved.',
  INST + ', every operand value', 'The constant-evaluated branch is separate code in every operator; no test constant-evaluates anything.',
  [TX, TG], [('std::is_constant_evaluated branches', TX)], over=('inputs', 'programs', 'configurations'))
p('A25', 'Vector math kernels stay within a stated distance of the mathematical function',
  'With u = 2^-24 (float) or 2^-53 (double): |sin x error| <= 24u*min(1,|x|)*max(1,|x|) and cos, 24u*max(1,|x|), for 2^-60 <= |x| < 64; tan, 64u*(min(1,|x|)+tan^2 x)*max(1,|x|) there; asin, acos and atan, 24u relative (|x| >= 2^-60); log, log2 and log10 of normal and subnormal arguments, 24u*max(1,|f|) (log2 of double 32u); '
  'log1p, 32u*max(1,|f|) for x in [-1/2, 2^100) (double: below 2); sqrt, 4u relative; hypot(x, 1) and hypot(3, x) in float, 16u relative; no such result is infinite or NaN. sincos meets the bounds of sin and cos.',
  INST + ' (float and double vector kernels), every argument of the binades analysed', 'The tests compare a few dozen arguments; a wrong coefficient, table entry, reduction constant or selection threshold can spare all of them.',
  ['dpm/detail/x86/polevl.hpp', 'dpm/detail/x86/trig.hpp', 'dpm/detail/x86/exp.hpp', 'dpm/detail/fconst.hpp', 'dpm/detail/fconst.cpp'], [('polynomial kernels and constants', 'dpm/detail/x86/polevl.hpp, dpm/detail/fconst.hpp')])
p('A26', 'Math kernels respect the symmetries of their functions exactly',
  'For every argument, sin, tan, asin, atan and rcp of -x are exactly the negation of their value at x, cos(-x) is exactly cos(x), hypot is exactly symmetric in its arguments and independent of their signs, and sincos returns exactly the values sin and cos return.',
  INST + ' (float and double), every argument (NaN excepted for hypot)', 'Equality over all 2^32 / 2^64 arguments cannot be sampled; the sign is handled by separate code in every kernel.',
  ['dpm/detail/x86/trig.hpp', 'dpm/detail/x86/sincos.cpp', 'dpm/detail/x86/tan.cpp', 'dpm/detail/x86/asincos.cpp', 'dpm/detail/x86/atan.cpp', 'dpm/detail/x86/hypot.cpp'], [('sign extraction and restoration', 'dpm/detail/x86/sincos.cpp, tan.cpp, asincos.cpp, atan.cpp'), ('prepare_hypot', 'dpm/detail/x86/hypot.cpp')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
