"""A22: type-level witnesses.  probes/a22_traits.cpp states every trait as a static assertion over all element types and ABIs;
probes/a22_reject.cpp is a set of programs outside the contract, each of which must fail to compile beside an accepted neighbour."""
import re
import itertools
import os

TYPES = ['float', 'double', 'std::int8_t', 'std::uint16_t', 'std::int32_t', 'std::uint64_t']
ABIS = ['av<4,16>', 'av<32>', 'av<5,SIZE_MAX>', 'av<3>']
WHAT = ['shuffle with an index past size()', 'shuffle with one index of many past size()', 'shuffle with every index past size()', 'mask shuffle with an index past size()', 'mask shuffle with one index of many past size()',
        'simd_cast to a different number of elements', 'static_simd_cast to a different number of elements', 'construction from elements that do not convert', 'copy_from without an alignment flag', 'copy_to without an alignment flag',
        'copy_to to elements that do not convert', 'mask copy_from without an alignment flag', 'conversion to a vector of a different number of elements', 'arithmetic with a value that does not convert',
        'lsl by more than the width', 'lsr by more than the width']


def run(ctx, pid, spec):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    finds, errs = [], []
    cov = {'obligations': 0, 'static_assertions': 0, 'accepted_programs': 0, 'rejected_programs': 0}
    src = here + '/probes/a22_traits.cpp'
    text = open(src).read().splitlines()

    def unit(a):
        cfg, part = a
        out = f'{ctx.work}/tr.{part}.{cfg}.ll'
        ok, log = ctx.ir(src, cfg, out, [f'-DVP_PART={part}', '-S', '-ferror-limit=0', '-fno-caret-diagnostics'])
        n = 0
        if ok:
            m = re.search(r'@vp_obligations = .*constant i32 (\d+)', open(out).read())
            n = int(m.group(1)) if m else 0
        return cfg, part, ok, log, n
    for cfg, part, ok, log, n in ctx.pool.map(unit, [(c, p) for p in range(4) for c in ctx.cfgs]):
        if ok:
            if n < 13000:
                errs.append(f'only {n} static assertions counted in part {part} {cfg}')
            cov['static_assertions'] += n
            continue
        if ctx.gcc_ok(src, cfg, [f'-DVP_PART={part}'])[0]:
            errs.append(f'traits part {part} {cfg}: clang and g++ disagree: {log[:300]}')
            continue
        seen = set()
        other = None
        for m in re.finditer(r'(.*?):(\d+):(\d+): (error: .*|note: in instantiation of (?:template class|static data member) .*)', log):
            f, l, c, msg = m.groups()
            if msg.startswith('error: '):
                last = (f'{f}:{l}', msg[7:])
                if 'witness' not in msg:
                    other = other or last
            elif "w::C<" in msg and f.endswith('a22_traits.cpp'):
                w = re.search(r"w::C<\d+, false, (.*)>'", msg)
                if not w:
                    continue
                s = text[int(l) - 1][int(c) - 1:]
                d = 0
                for k, ch in enumerate(s):
                    d += (ch == '(') - (ch == ')')
                    if ch == ')' and d == 0:
                        break
                chk = s[:k + 1]
                finds.append({'site': 'trait', 'cfg': cfg, 'type': w.group(1).replace('w::', ''), 'abi': '', 'kind': 'trait', 'detail': f'{chk} is false for {w.group(1)}', 'where': f'probes/a22_traits.cpp:{l}'})
                seen.add((l, c))
        if other:
            finds.append({'site': 'trait', 'cfg': cfg, 'kind': 'trait-ill-formed', 'detail': other[1], 'where': other[0]})
        elif not seen:
            errs.append(f'traits part {part} {cfg}: {log[-300:]}')
    jobs = [(c, t, a, k, ok) for c in ctx.cfgs if c in ('sse2', 'avx2') or ctx.tier == 'thorough' for t, a, k in itertools.product(TYPES, ABIS, range(16)) for ok in (True, False) if k < 14 or t not in ('float', 'double')]
    if ctx.tier == 'quick':
        jobs = [j for j in jobs if j[1] in ('float', 'std::int8_t', 'std::uint64_t') and (j[0] == 'avx2' or j[2] in ('av<4,16>', 'av<32>'))]

    def prog(j):
        cfg, t, a, k, good = j
        ok, log = ctx.ir(here + '/probes/a22_reject.cpp', cfg, '/dev/null', [f'-DVP_T={t}', f'-DVP_ABI={a}', f'-DVP_REJECT={k}', '-fsyntax-only', '-fno-caret-diagnostics'] + (['-DVP_OK'] if good else []))
        return j, ok, log
    for (cfg, t, a, k, good), ok, log in ctx.pool.map(prog, jobs):
        cov['accepted_programs' if good else 'rejected_programs'] += 1
        if ok != good:
            if ctx.gcc_ok(here + '/probes/a22_reject.cpp', cfg, [f'-DVP_T={t}', f'-DVP_ABI={a}', f'-DVP_REJECT={k}'] + (['-DVP_OK'] if good else []))[0] == good:
                continue
            first = next((x for x in log.splitlines() if 'error:' in x), '')
            finds.append({'site': WHAT[k].replace(' ', '-'), 'cfg': cfg, 'type': t, 'abi': a, 'kind': 'accepted' if ok else 'rejected', 'where': f'probes/a22_reject.cpp VP_REJECT={k}',
                          'detail': f'{WHAT[k]} is accepted for simd<{t}, {a}>' if ok else f'the accepted neighbour of "{WHAT[k]}" does not compile for simd<{t}, {a}>: {first[:200]}'})
    cov['obligations'] = cov['static_assertions'] + cov['accepted_programs'] + cov['rejected_programs']
    return {'findings': finds, 'errors': errs, 'coverage': cov}
