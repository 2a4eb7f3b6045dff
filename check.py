#!/usr/bin/env python3
"""Decides one property of /repo by static analysis.

  check.py A01 [--tier quick|thorough] [--repo DIR] [--keep] [--only SUBSTR] [--cfg sse2,avx]

exit 0: every obligation discharged (known findings are reported and do not fail)
exit 1: at least one violation, with a line "VIOLATION property=<id> replay=<path>"
exit 2: the analysis could not decide (missing instances, unmodelled construct, tool failure)
"""
import argparse, collections, fnmatch, glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

ISA = {'sse2': ['-msse2'], 'sse3': ['-msse3'], 'ssse3': ['-mssse3'], 'sse41': ['-msse4.1'], 'sse4': ['-msse4.2'], 'avx': ['-mavx'], 'avxfma': ['-mavx', '-mfma'], 'avx2': ['-mavx2', '-mfma'],
       'avx512': ['-mavx2', '-mfma', '-mavx512f', '-mavx512cd', '-mavx512bw', '-mavx512dq', '-mavx512vl'], 'clang': ['-mavx2', '-mfma', '-DVP_AS_CLANG'], 'clang2': ['-msse2', '-DVP_AS_CLANG']}
JOBS = os.cpu_count() or 8


class Broken(Exception):
    pass


class Ctx:
    def __init__(self, args, work):
        self.repo, self.work, self.args, self.tier = args.repo, work, args, args.tier
        self.pool = ThreadPoolExecutor(JOBS)
        self.cfgs = args.cfg.split(',') if args.cfg else props.configs(args.prop, args.tier)
        self.engine_future = None

    def flags(self, cfg, extra=()):
        f = ['-std=c++20', '-I' + self.repo, '-I' + HERE + '/probes', '-I' + HERE + '/stub', '-DDPM_INLINE_EXTENSIONS', '-DDPM_HANDLE_ERRORS',
             '-DDPM_PROPAGATE_NAN', '-DNDEBUG', '-Wno-everything', '-include', HERE + '/probes/pre.hpp', *ISA[cfg]]
        if self.tier == 'thorough':
            f.append('-DVP_THOROUGH')
        return f + list(extra)

    def ir(self, src, cfg, out, extra=()):
        """Lower a source file to unoptimised IR.  Returns (ok, log)."""
        cmd = ['clang++-18', *self.flags(cfg, extra), '-O1', '-Xclang', '-disable-llvm-passes', '-fwrapv', '-ffp-contract=off', '-gline-tables-only',
               '-ferror-limit=40', '-c', '-emit-llvm', src, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return r.returncode == 0, r.stderr

    def gcc_ok(self, src, cfg, extra=()):
        r = subprocess.run(['g++', *[x for x in self.flags(cfg, extra) if x != '-Wno-everything'], '-w', '-fsyntax-only', '-fmax-errors=20', src], capture_output=True, text=True)
        return r.returncode == 0, r.stderr

    def engine(self):
        if self.engine_future is None:
            self.engine_future = self.pool.submit(self._build)
        return self.engine_future

    def _build(self):
        r = subprocess.run(['bash', HERE + '/engine/build.sh'], capture_output=True, text=True)
        if r.returncode:
            raise Broken('engine build failed: ' + r.stderr[-2000:])
        return HERE + '/.build/vg'


def fail_line(err):
    """file:line and message of the first compile error, preferring a location inside the library"""
    ls = [l for l in err.splitlines() if re.search(r': (fatal )?error: ', l)]
    lib = [l for l in ls if '/dpm/' in l]
    return (lib or ls or [err[:300]])[0]


def run_probes(ctx, pid, spec):
    """Compile and analyse every probe unit of a property.  Returns records, compile violations, errors."""
    recs, viol, errs = [], [], []
    eng = ctx.engine()
    kernels = spec.get('kernels') or []

    def kernel_task(cfg, src):
        out = f'{ctx.work}/k.{os.path.basename(src)}.{cfg}.bc'
        ok, log = ctx.ir(src, cfg, out)
        if not ok:
            g, glog = ctx.gcc_ok(src, cfg)
            return cfg, None, (('error' if g else 'viol'), fail_line(log))
        return cfg, out, None
    kern = collections.defaultdict(list)
    if kernels:
        srcs = sorted(glob.glob(ctx.repo + '/dpm/detail/*.cpp') + glob.glob(ctx.repo + '/dpm/detail/x86/*.cpp'))
        if len(srcs) < 10:
            raise Broken(f'only {len(srcs)} library sources found')
        for cfg, out, bad in ctx.pool.map(lambda a: kernel_task(*a), [(c, s) for c in ctx.cfgs for s in srcs]):
            if bad:
                (errs if bad[0] == 'error' else viol).append(f'library source does not compile ({cfg}): {bad[1]}')
            else:
                kern[cfg].append(out)

    def unit(cfg, f, part):
        src = f'{HERE}/probes/{f}'
        base = f'{ctx.work}/{f}.{part}.{cfg}'
        extra = [f'-DVP_PART={part}', *spec.get('flags', [])]
        ok, log = ctx.ir(src, cfg, base + '.bc', extra)
        if not ok:
            g, glog = ctx.gcc_ok(src, cfg, extra)
            return cfg, f, part, None, ('error' if g else 'viol', fail_line(glog if not g else log))
        vg = eng.result()
        cmd = [vg, base + '.bc', *(kern[cfg] if kernels is True or f in kernels else []), '-o', base + '.out', '-j', '1']
        if spec.get('events_only'):
            cmd.append('--events')
        if spec.get('effects'):
            cmd.append('--purity')
        if ctx.args.only:
            cmd += ['--only', ctx.args.only]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not ctx.args.keep:
            os.unlink(base + '.bc')
        if r.returncode:
            if ctx.args.only and 'no probes' in r.stderr:
                return cfg, f, part, [], None
            return cfg, f, part, None, ('error', f'analyser failed on {f} part {part} {cfg}: rc={r.returncode} {r.stderr[-400:]}')
        return cfg, f, part, [json.loads(l) for l in open(base + '.out')], None

    jobs = [(c, f, p) for f, n in spec['probes'] for p in (range(n) if isinstance(n, int) else n) for c in ctx.cfgs]
    for cfg, f, part, rs, bad in ctx.pool.map(lambda a: unit(*a), jobs):
        if bad:
            (errs if bad[0] == 'error' else viol).append(bad[1] if bad[0] == 'error' else f'documented operation does not compile ({f} part {part}, {cfg}): {bad[1]}')
            continue
        for r in rs:
            r['cfg'], r['unit'] = cfg, f'{f}:{part}'
            recs.append(r)
    return recs, viol, errs


def load_known():
    p = HERE + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(k, pid, r, f):
    if k.get('status') == 'fixed' or k['property'] != pid:
        return False
    m = k['match']
    val = {'op': r['op'], 'type': r['type'], 'abi': r['abi'], 'cfg': r['cfg'], 'kind': f['kind']}
    return all(any(fnmatch.fnmatchcase(val[x], pat) for pat in (m[x] if isinstance(m[x], list) else [m[x]])) for x in val if x in m) and all(x in val for x in m)


def short(w):
    return w.replace('/repo/', '')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default=os.environ.get('VP_REPO', '/repo'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--cfg')
    args = ap.parse_args()
    pid = args.prop
    if pid not in props.PROPS:
        print('unknown property', pid)
        return 2
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    spec = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(HERE + '/.build', exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'run.{pid}.', dir=HERE + '/.build')
    try:
        return decide(pid, spec, Ctx(args, work), t0)
    except Broken as e:
        print(f'{pid}: analysis broken: {e}')
        return 2
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(pid, spec, ctx, t0):
    args = ctx.args
    recs, viol, errs = [], [], []
    known = load_known()
    kmsgs, kcount = collections.OrderedDict(), collections.Counter()
    findings = []  # (key, text)
    if spec.get('probes'):
        recs, v, e = run_probes(ctx, pid, spec)
        viol += v
        errs += e
    own = [r for r in recs if r['prop'] == pid or spec.get('all_memory')]
    full = not (args.only or args.cfg)
    kinds = spec.get('kinds')
    for r in own:
        name = f"{r['op']}<{r['type']},{r['abi']}> [{r['cfg']}]"
        if r['status'] == 'error':
            errs.append(f"{name}: {r['error']}")
        for f in r['findings']:
            if f['kind'] in spec.get('ignore', []) or kinds and f['kind'] not in kinds and r['prop'] != pid:
                continue
            hit = next((k for k in known if known_match(k, pid, r, f)), None)
            if hit:
                kmsgs[hit['id']] = hit['what']
                kcount[hit['id']] += 1
                continue
            findings.append((name, f))
    rule_cov = {}
    for rname in spec.get('rules', []):
        mod = importlib.import_module('rules.' + rname)
        res = mod.run(ctx, pid, spec)
        rule_cov[rname] = res.get('coverage', {})
        errs += [f'{rname}: {x}' for x in res.get('errors', [])]
        for x in res.get('findings', []):  # {'site','kind','detail','where'}
            rr = {'op': x['site'], 'type': x.get('type', ''), 'abi': x.get('abi', ''), 'cfg': x.get('cfg', '')}
            hit = next((k for k in known if known_match(k, pid, rr, x)), None)
            if hit:
                kmsgs[hit['id']] = hit['what']
                kcount[hit['id']] += 1
            else:
                findings.append((f"{x['site']}" + (f" [{x['cfg']}]" if x.get('cfg') else ''), x))
    if full and spec.get('probes'):
        need = spec['min'] * len(ctx.cfgs) // len(props.CONFIGS)  # the instances are the same for every instruction set
        if len(own) < need and not viol:
            errs.append(f'only {len(own)} of the {need} confirmed probe instances were analysed')
    for kid, what in kmsgs.items():
        print(f'KNOWN-FINDING: property={pid} {what} [{kid}; {kcount[kid]} instance(s)]')
    # report
    nobl = sum(r['obl'] for r in own)
    bad = sum(len(r['findings']) for r in own)
    out = []
    groups = collections.OrderedDict()
    for n, f in findings:
        groups.setdefault((n.split('<')[0], f['kind'], re.sub(r'<.*', '', short(f['where']))), []).append((n, f))
    for (op, kind, w), l in groups.items():
        n, f = l[0]
        out.append(f"{kind}: {n}: {f['detail']}\n    at {short(f['where'])}\n    ({len(l)} instance(s): {', '.join(sorted({x[0] for x in l})[:12])}{' ..' if len(l) > 12 else ''})")
    out += ['compile: ' + v for v in viol]
    for o in out[:25]:
        print(o)
    if len(out) > 25:
        print(f'... {len(out) - 25} more groups')
    for e in errs[:15]:
        print('UNDECIDED', e)
    cov = {'obligations': nobl + sum(c.get('obligations', 0) for c in rule_cov.values()),
           'discharged': nobl + sum(c.get('obligations', 0) for c in rule_cov.values()) - sum(f.get('n', 1) for _, f in findings) - sum(kcount.values()),
           'probe_instances': len(own), 'instances_by_configuration': dict(collections.Counter(r['cfg'] for r in own)),
           'operations': len({r['op'] for r in own}), 'identical_by_value_number': sum(r['id'] for r in own),
           'ir_instructions_interpreted_abstractly': sum(r['inst'] for r in own), 'library_functions_entered': sum(r['fun'] for r in own),
           'library_files_reached': sorted({x for r in own for x in r['files'].split(',') if x}),
           'external_calls': sorted({x for r in own for x in r['ext']}),
           'checker_cmd': f'python3 check.py {pid} --tier {ctx.tier}', 'trusted_base': props.TRUSTED, 'rule': spec['rule'],
           'samples': [{k: r[k] for k in ('op', 'type', 'abi', 'cfg', 'obl', 'id', 'inst', 'entry')} for r in own[:: max(1, len(own) // 6)][:6]], 'rules': rule_cov,
           'explanation': spec['rule']}
    for k in [k for k, v in cov.items() if v in ([], {}, None)]:
        del cov[k]
    ev = {'property': pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec['level'], 'coverage': cov,
          'assumptions': props.ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(findings) + len(viol)}
    if full:
        json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    print(f"{pid} {ctx.tier}: {len(own)} probe instances, {cov['obligations']} obligations, {len(findings) + len(viol)} violation(s), {len(errs)} undecided, {time.time() - t0:.1f} s")
    if out:
        rp = f'{HERE}/evidence/{pid}.violation.txt'
        open(rp, 'w').write('\n'.join(out) + f'\n\nreproduce: python3 /verif/check.py {pid} --tier {ctx.tier}\n')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 2 if errs else 0


if __name__ == '__main__':
    sys.exit(main())
