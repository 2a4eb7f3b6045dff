"""Which probe units and rules decide each property, and how many instances must be found."""
CONFIGS = ['sse2', 'sse4', 'avx', 'avx2']
MORE = ['ssse3', 'sse41', 'avx512']                    # also analysed by the quick tier, where that is cheap
DEEP = ['sse3', 'avxfma', 'clang', 'clang2']  # thorough tier only


def configs(pid, tier):
    return CONFIGS + (MORE if tier == 'thorough' or pid not in HEAVY else []) + (DEEP if tier == 'thorough' else [])


HEAVY = ('A07', 'A20', 'A24')
TRUSTED = ['clang 18 front end (lowering C++ to IR)', 'engine/insts.hpp: semantics given to IR instructions and x86 intrinsics', 'engine/graph.hpp: value-graph rewriting and BDD normal form', 'probes/*: the lane-wise reference expressions']
ASSUMPTIONS = ['instantiations analysed: the element types, vector ABIs and instruction sets listed in the evidence', 'default rounding mode; exact IEEE operations (no -ffast-math, no contraction)',
               'GCC and clang give the same meaning to the sources (the library is lowered with clang, shipped with g++)']
VG = 'every output lane of the library call has the same value number / canonical Boolean function as the scalar reference, for all inputs; no reachable memory, alignment or undefined-value event'
TECHNIQUE = 'value-graph dataflow analysis (gated value numbering with a canonical bit-level abstract domain) over LLVM IR, against per-lane reference expressions'
NOTE = 'All element types, the listed vector ABIs and the sse2/ssse3/sse4.1/sse4.2/avx/avx2+fma/avx-512 instruction sets (thorough: also sse3, avx+fma and the branches taken under clang); every lane, every input. Trusts the clang front end, the semantics table for IR and intrinsics in engine/, and the reference expressions in probes/.'
NA = {}
PROPS = {
    'A01': dict(probes=[('a01_arith.cpp', 7)], min=12032, level='proof', rule=VG),
    'A02': dict(probes=[('a02_compare.cpp', 3)], min=1920, level='proof', rule=VG),
    'A03': dict(probes=[('a03_shift.cpp', 6)], min=5120, level='proof', rule=VG),
    'A04': dict(probes=[('a04_mask.cpp', 2)], min=3840, level='proof', rule=VG),
    'A05': dict(probes=[('a05_mred.cpp', 4)], min=5284, level='proof', rule=VG),
    'A06': dict(probes=[('a06_mem.cpp', 14)], min=18720, level='proof', rule=VG),
    'A08': dict(probes=[('a08_masked.cpp', 7)], min=11200, level='proof', rule=VG),
    'A09': dict(probes=[('a09_select.cpp', 3)], min=3240, level='proof', rule=VG),
    'A10': dict(probes=[('a10_shuffle.cpp', 9)], min=7760, level='proof', rule=VG),
    'A11': dict(probes=[('a11_casts.cpp', 13)], min=26080, level='proof', rule=VG),
    'A12': dict(probes=[('a12_reduce.cpp', 4)], min=6576, level='proof', rule=VG + '; sums, products, minima, maxima and an opaque associative-commutative operation are compared as operand multisets'),
    'A13': dict(probes=[('a13_class.cpp', 3)], min=1440, level='proof', rule=VG),
    'A14': dict(probes=[('a14_basic.cpp', 3)], min=1216, level='proof', rule=VG),
    'A15': dict(probes=[('a15_round.cpp', 4)], min=1344, level='proof', rule=VG),
    'A16': dict(probes=[('a16_fmanip.cpp', 4)], min=1024, level='proof', kernels=True, rule=VG),
    'A17': dict(probes=[('a17_scalar.cpp', 6)], min=9392, level='proof', rule='with every scalar <cmath> function and every separately compiled vector kernel as an uninterpreted function, each output lane is the call of the right function on that lane of each argument, in order; '
                'the promoting overloads are the double function applied to the element-wise converted arguments'),
    'A18': dict(probes=[('a18_special.cpp', 12)], min=2488, level='proof', kernels=True, rule='with the kernels linked in and every other element arbitrary: for each class of special arguments (NaN, infinite, zero, outside the domain) each lane has the prescribed value, where floating-point results on NaN, infinite, '
                'zero and constant operands are exact and all others are opaque values of unknown class; at listed constants (poles, exact values, smallest, tiny, largest and quadrant arguments) the folded lane equals, or lies within the stated bounds of, the prescribed value'),
    'A26': dict(probes=[('a26_parity.cpp', 3)], min=176, level='proof', kernels=True, rule='with the kernels linked in: f(-x) has the value number / Boolean function of -f(x) or f(x), hypot of swapped or negated arguments that of hypot, and each result of sincos that of sin or cos, for every argument'),
    'A19': dict(probes=[('a19_lanes.cpp', 6)], min=768, level='proof', kernels=True, rule='with the kernels themselves linked in: each lane of the result has the same value number as the corresponding lane of the same call on a vector that holds that lane in every element '
                '(same Boolean function over the cut points of shared floating-point results, else over the whole value graph), so it depends on no other lane and on no position'),
}
MEM = ['out-of-bounds', 'misaligned', 'wild-pointer', 'reaches-end-without-value', 'undefined-value', 'table-index-out-of-range']
_all = [u for p in PROPS.values() for u in p['probes']]
PROPS['A07'] = dict(probes=_all, min=sum(p['min'] for p in PROPS.values()), level='proof', kernels=[u[0] for p in PROPS.values() if p.get('kernels') for u in p['probes']], all_memory=True, events_only=True, kinds=MEM,
    rule='over every probe unit of the other properties: each load, store, masked or aligned access reached on a feasible path lies inside the object it addresses with the alignment its operands promise, no expired object is accessed, and no output lane depends on a value that was never written')
PROPS['A23'] = dict(probes=[u for i in ('A16', 'A19') for u in PROPS[i]['probes']], min=sum(PROPS[i]['min'] for i in ('A16', 'A19')), level='proof', kernels=True, all_memory=True, events_only=True, kinds=['table-index-out-of-range', 'out-of-bounds', 'wild-pointer'],
    rule='with the kernels linked in and every argument bit pattern free: each load from a constant table, and each gather, has an index inside that table on every feasible path')
PROPS['A20'] = dict(probes=_all, min=sum(u[1] if isinstance(u[1], int) else len(u[1]) for u in _all) * len(CONFIGS), level='proof', kernels=['a19_lanes.cpp'], effects=True, all_memory=True, kinds=['floating-point-environment-changed', 'reads-hidden-register'],
    technique='interprocedural effect analysis over LLVM IR (call graph closure from every library function and probe; classification of every global, memory access, call and inline assembly)',
    rule='no function of the library reachable from any operation, and no kernel, uses a non-constant object of static or thread storage, performs an atomic or volatile access, calls a function outside the pure C math and memory set, changes or reads processor state, '
    'or, when declared pure or const, writes (reads) memory through its arguments')
PROPS['A21'] = dict(probes=[('a21_cpuid.cpp', 1)], min=96, level='proof', flags=['-fno-access-control'], ignore=['writes-global', 'reads-mutable-global'],
    technique='gated value numbering of the query object\'s constructor with CPUID and XGETBV as uninterpreted functions of leaf and subleaf, compared bit for bit with the architectural definition',
    rule='for every value CPUID and XGETBV may return: the query equals leaf supported and bit set and, for AVX, FMA, F16C, AVX2 and AVX-512, OSXSAVE set and the state components enabled in XCR0 (XSAVE means OSXSAVE; the SSE queries are decided when OSXSAVE is set); '
    'vendor queries equal the comparison of EBX, EDX, ECX of leaf 0 with the vendor string; leaf 7 is read with subleaf 0; XGETBV runs only where OSXSAVE is set',
    assumptions=['the SSE answers taken from /proc/cpuinfo when OSXSAVE is clear are not analysed'])
PROPS['A22'] = dict(rules=['traits'], level='proof', technique='type-level witnesses decided by the compiler\'s type checker: static assertions instantiated over element types, ABIs and sizes, and compile-fail programs with accepted neighbours',
    rule='every static assertion of probes/a22_traits.cpp holds for every listed element type and ABI (sizes, member types, classification, layout, alignment, rebind, resize, deduce, common, native storage, availability of operators); every program of probes/a22_reject.cpp '
    'outside the contract fails to compile and its accepted neighbour compiles', note='All integer types, float and double; scalar, fixed-size, aligned and packed ABIs of 1 to 65 elements. Trusts the type checkers of clang and g++.')
_ce = [f'A{i:02d}' for i in range(1, 18) if i != 7]
PROPS['A25'] = dict(probes=[('a25_accuracy.cpp', 6)], min=220, level='proof', kernels=True,
    technique='abstract interpretation of the value graph over a bisected partition of the argument range: Taylor models (degree 9 plus remainder) for floating-point values with every rounding error in the remainder, known-bits for words',
    rule='on every piece of the argument range analysed, |kernel(x) - f(x)| is bounded by the allowance of the function (accSpecs in engine/vg.cpp): a piece whose bound exceeds it is divided, down to single arguments, where the computation is exact; '
    'a piece on which the least possible error exceeds the allowance is a violation',
    note='One argument in all elements (A19 covers the others). Binades: all within the stated window around 1, then one in 8 (float) or 64 to 256 (double), the largest one, and some subnormal ones. Trusts the C library for the mathematical functions at piece centres in 80-bit precision.')
PROPS['A24'] = dict(probes=[u for i in _ce for u in PROPS[i]['probes']], min=116188, level='proof', flags=['-DVP_CONSTEVAL'], all_memory=True, kernels=[u[0] for i in _ce if PROPS[i].get('kernels') for u in PROPS[i]['probes']],
    rule='with every test for constant evaluation answering yes: every output element of the branch has the same value number / canonical Boolean function as the scalar reference of the operation, the one its run-time branch is compared with (the multiply-add family and lerp: the element definition, '
    'which the run-time branch may round once less often), for all inputs; no reachable memory, alignment or undefined-value event')
