#!/usr/bin/env python3
"""Driver of the verification checks.

  check.py C02 [--tier quick|thorough]     run one check
  check.py --replay FILE                   re-run one recorded violation
  check.py --setup                         build every library and harness once

Builds the code under test from /repo's working tree (never from a copy), links
it with the deterministic runtime in rt/, enumerates the cases of the check's
harnesses on all cores and writes evidence/<id>.json.
"""
import sys, os, json, hashlib, subprocess, time, glob, re, threading, shutil, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(HERE, '_work'))
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)
from registry import CHECKS, CONFIGS, FLAVOURS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()

class BuildError(Exception): pass

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + '/src/**/*.h', recursive=True)) + sorted(glob.glob(HERE + '/cfg/*')) + sorted(glob.glob(HERE + '/rt/*.h'))
        h = hashlib.sha256()
        for p in fs:
            h.update(p.encode()); h.update(open(p, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

def compile_one(src, obj, flags):
    key = hashlib.sha256((fhash(src) + header_hash() + ' '.join(flags)).encode()).hexdigest()
    kf = obj + '.key'
    if os.path.exists(obj) and os.path.exists(kf) and open(kf).read() == key: return
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = sh(['gcc'] + flags + ['-c', src, '-o', obj])
    if r.returncode != 0: raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
    open(kf, 'w').write(key)

def cfg_flags(cfg):
    c = CONFIGS[cfg]
    return ['-std=gnu99', '-DHAVE_CONFIG_H', '-msse2', '-fopenmp', '-I' + REPO + '/src/Headers', '-I' + HERE + '/cfg', '-I' + HERE + '/rt'] + c['defs']

def lib_sources():
    # the files the build of the library lists
    mk = open(REPO + '/src/Makefile.am').read()
    src = sorted(set(REPO + '/src/' + re.sub(r'^\./', '', m) for m in re.findall(r'[\w./-]+\.c\b', mk)))
    return [s for s in src if os.path.basename(s) != 'Mainfile.c' and os.path.exists(s)]

WRAPS = ['sysconf', 'malloc', 'free', 'calloc', 'realloc', 'posix_memalign', 'fopen', 'fclose', 'rename', 'remove', 'time', 'par_rng_dbl', 'par_polar_box']
TSANWRAPS = ['memcpy', 'memmove', 'memset']

def plan_targets(jobs):
    """jobs: list of (harness src, cfg, flavour). Returns compile list and link list."""
    comp, links = {}, []
    for (src, cfg, fl, main) in jobs:
        d = os.path.join(WORK, 'build', '%s-%s' % (cfg, fl))
        f = FLAVOURS[fl]
        base = cfg_flags(cfg)
        objs = []
        for s in lib_sources():
            o = os.path.join(d, 'lib', os.path.relpath(s, REPO + '/src').replace('/', '__')[:-2] + '.o')
            comp[o] = (s, base + f['lib'] + ['-w']); objs.append(o)
        if main:
            s = REPO + '/src/Run/Mainfile.c'
            o = os.path.join(d, 'Mainfile.o'); comp[o] = (s, base + f['lib'] + ['-w']); objs.append(o)
        rts = ['mcomp.c', 'wrap.c']
        if f.get('tsan'): rts.append('wraptsan.c')
        if main: rts.append('climain.c')
        else: rts += ['mc.c', 'fx.c', 'fmt.c', 'ops.c']
        for r in rts:
            o = os.path.join(d, 'rt', r[:-2] + '.o')
            rf = f['rt'] if r in ('mcomp.c', 'wrap.c', 'wraptsan.c', 'mc.c', 'climain.c') else f['har']
            comp[o] = (HERE + '/rt/' + r, base + rf); objs.append(o)
        if not main:
            o = os.path.join(d, 'har', src[:-2] + '.o')
            comp[o] = (HERE + '/checks/' + src, base + f['har']); objs.append(o)
        exe = os.path.join(d, 'GLU' if main else src[:-2])
        w = list(WRAPS)
        if 'HAVE_FFTW3_H' in ' '.join(CONFIGS[cfg]['defs']): w.append('fftw_malloc')
        if f.get('tsan'):
            w += TSANWRAPS
            if 'HAVE_FFTW3_H' in ' '.join(CONFIGS[cfg]['defs']): w += ['fftw_plan_dft', 'fftw_execute']
        links.append((exe, objs, ['-Wl,--wrap=' + x for x in w] + f['link'] + CONFIGS[cfg]['libs'] + ['-lm', '-ldl']))
    return comp, links

def build(jobs):
    comp, links = plan_targets(jobs)
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(compile_one, s, o, fl) for o, (s, fl) in comp.items()]
        for f in futs: f.result()
    def link(l):
        exe, objs, flags = l
        key = hashlib.sha256((''.join(open(o + '.key').read() for o in objs) + ' '.join(flags)).encode()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + '.key') and open(exe + '.key').read() == key: return
        r = sh(['gcc', '-o', exe] + objs + flags)
        if r.returncode != 0: raise BuildError('linking %s failed:\n%s' % (exe, r.stdout[-4000:]))
        open(exe + '.key', 'w').write(key)
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(link, l) for l in links]: f.result()

def exe_of(src, cfg, fl, main=False):
    return os.path.join(WORK, 'build', '%s-%s' % (cfg, fl), 'GLU' if main else src[:-2])

def scratch_base():
    d = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    d = os.path.join(d, 'verif.%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d

def env_of(sb, extra=None):
    e = dict(os.environ)
    e['MC_SCRATCH'] = sb
    e['ASAN_OPTIONS'] = 'exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=77'
    e.update(extra or {})
    return e

def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]

def harness_jobs(chk, tier):
    out = []
    for h in chk['harness']:
        if h.get('tiers') and tier not in h['tiers']: continue
        for cfg in h.get('cfgs_thorough' if tier == 'thorough' and 'cfgs_thorough' in h else 'cfgs'):
            out.append((h, cfg, h.get('flavour', 'fast')))
    return out

def run_check(prop, tier):
    t0 = time.time()
    chk = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    hj = harness_jobs(chk, tier)
    jobs = [(h['src'], cfg, fl, False) for h, cfg, fl in hj]
    for h, cfg, fl in hj:
        if h.get('cli'): jobs.append((h['src'], cfg, h['cli'], True))
    build(jobs)
    tb = time.time() - t0
    sb = scratch_base()
    outd = os.path.join(WORK, 'out', prop); shutil.rmtree(outd, ignore_errors=True); os.makedirs(outd)
    runs = []
    for h, cfg, fl in hj:
        n = h.get('shards', NCPU)
        for k in range(n):
            o = os.path.join(outd, '%s.%s.%s.%d.json' % (h['src'][:-2], cfg, fl, k))
            ex = {'MC_QUEUE': os.path.join(sb, '%s.%s.%s.queue' % (h['src'][:-2], cfg, fl)), 'MC_DEADLINE': '%f' % (t0 + (float(os.environ.get('VERIF_DEADLINE', 700 if tier == 'quick' else 5.8*3600))))}
            if h.get('cli'): ex['MC_CLI'] = exe_of('', cfg, h['cli'], True)
            runs.append((h, cfg, fl, k, n, o, ex))
    deadline = t0 + (870 if tier == 'quick' else 6*3600)
    errs = []
    def go(r):
        h, cfg, fl, k, n, o, ex = r
        cmd = [exe_of(h['src'], cfg, fl), '--shard', '%d/%d' % (k, n), '--tier', tier, '--cfg', cfg, '--out', o]
        left = deadline - time.time()
        if left < 1: errs.append('%s %s shard %d: out of time' % (h['src'], cfg, k)); return
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env_of(sb, ex), timeout=left, cwd=sb)
            if p.returncode not in (0, 1): errs.append('%s %s shard %d: exit %d %s' % (h['src'], cfg, k, p.returncode, p.stderr[-800:].decode(errors='replace')))
        except subprocess.TimeoutExpired:
            errs.append('%s %s shard %d: out of time' % (h['src'], cfg, k))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(go, runs))
    shutil.rmtree(sb, ignore_errors=True)
    tot = dict(states=0, transitions=0, traces=0, evals=0, schedules=0, distinct=0, cases=0, run=0, flaky=0)
    samples, caps, fails, per = [], [], [], {}
    for h, cfg, fl, k, n, o, ex in runs:
        try: d = json.load(open(o))
        except Exception as e:
            if not errs: errs.append('%s: unreadable result %s' % (o, e))
            # partial file: recover the failures that were flushed
            try:
                for m in re.finditer(r'\{"case":.*?\}\n', open(o).read()): fails.append((h, cfg, fl, json.loads(m.group(0))))
            except Exception: pass
            continue
        for q in ('states', 'transitions', 'traces', 'evals', 'schedules', 'distinct', 'run', 'flaky'): tot[q] += d[q]
        pk = '%s/%s/%s' % (h['src'][:-2], cfg, fl)
        per.setdefault(pk, 0); per[pk] += d['run']
        samples += d['samples'][:2]
        for c in d['caps']:
            if c not in caps: caps.append(c)
        for f in d['failures']: fails.append((h, cfg, fl, f))
    # violations
    kn = known(prop)
    vio, seen_known = [], {}
    rdir = os.path.join(WORK, 'replay'); os.makedirs(rdir, exist_ok=True)
    for h, cfg, fl, f in fails:
        hit = None
        for q in kn:
            if re.fullmatch(q.get('config', '.*'), cfg) and re.fullmatch(q['case'], f['case']) and re.fullmatch(q['key'], f['key']): hit = q; break
        if hit: seen_known.setdefault(hit['id'], [hit, 0])[1] += 1
        else: vio.append((h, cfg, fl, f))
    for kid, (q, n) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s [%s, %d cases]' % (prop, q['what'], kid, n))
    seen = set(); first = []; rest = []
    for v in vio: (rest if (v[0]['src'], v[3]['key']) in seen else first).append(v); seen.add((v[0]['src'], v[3]['key']))
    vio = first + rest  # one of each kind first
    for i, (h, cfg, fl, f) in enumerate(vio[:10]):
        rp = os.path.join(rdir, '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, harness=h['src'], cli=h.get('cli'), config=cfg, flavour=fl, tier=tier, case=f['case'], key=f['key'], message=f['msg']), open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s [%s/%s] case "%s": %s: %s' % (h['src'], cfg, fl, f['case'], f['key'], f['msg']))
    if len(vio) > 10: print('  ... and %d more failing cases' % (len(vio) - 10))
    level = chk['level']
    cov = dict(rule=chk['rule'], samples=samples[:24], cases_run=tot['run'], cases_per_harness=per, exhaustive=not caps and not errs)
    if caps: cov['caps_hit'] = caps
    cov.update(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'],
               evaluations=tot['evals'] or tot['run'], distinct_nontrivial=tot['distinct'])
    if tot['schedules']: cov['schedules'] = tot['schedules']
    if tot['flaky']: cov['unreproduced_failures'] = tot['flaky']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(vio),
              assumptions=chk.get('assumptions', []))
    ev['coverage']['build_s'] = round(tb, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for e in errs: print('ERROR', e, file=sys.stderr)
    print('%s %s: %d cases, states=%d transitions=%d traces=%d evals=%d schedules=%d distinct=%d, %d violations, %d known findings, %.1f s (build %.1f s)' % (
        prop, tier, tot['run'], tot['states'], tot['transitions'], tot['traces'], tot['evals'], tot['schedules'], tot['distinct'], len(vio), len(seen_known), time.time() - t0, tb))
    if vio: return 1
    if errs: return 2
    if tot['run'] == 0: print('ERROR nothing ran', file=sys.stderr); return 2
    return 0

def replay(path):
    r = json.load(open(path))
    jobs = [(r['harness'], r['config'], r['flavour'], False)]
    ex = {}
    if r.get('cli'):
        jobs.append((r['harness'], r['config'], r['cli'], True)); ex['MC_CLI'] = exe_of('', r['config'], r['cli'], True)
    build(jobs)
    sb = scratch_base(); ex['MC_STDERR'] = '1'
    p = subprocess.run([exe_of(r['harness'], r['config'], r['flavour']), '--tier', r['tier'], '--cfg', r['config'], '--case', r['case']], env=env_of(sb, ex), cwd=sb)
    shutil.rmtree(sb, ignore_errors=True)
    if p.returncode == 1: print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return p.returncode

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    try:
        if a and a[0] == '--replay': return replay(a[1])
        if a and a[0] == '--setup':
            jobs = []
            for p, c in CHECKS.items():
                for h, cfg, fl in harness_jobs(c, 'quick'):
                    jobs.append((h['src'], cfg, fl, False))
                    if h.get('cli'): jobs.append((h['src'], cfg, h['cli'], True))
            build(jobs); return 0
        return run_check(a[0], tier)
    except BuildError as e:
        print('ERROR', e, file=sys.stderr); return 2
if __name__ == '__main__': sys.exit(main())
