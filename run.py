#!/usr/bin/env python3
"""Check runner: builds the library of /repo for the simulator, runs the
workloads of a property over many seeds, judges and writes evidence.

  run.py PROP quick|thorough         run one property's check
  run.py --replay FILE               re-run a recorded violation (verbose)
  run.py --build DIR FILE...         just build (development)
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, signal, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
sys.path.insert(0, HERE)
DEFS = ['-DHAVE_CONFIG_H', '-DMINGW_HAS_SECURE_API', '-DPTW32_STATIC_LIB', '-DPTW32_BUILD_INLINED', '-DPTW32_ARCHAMD64']
WDEFS = ['-DPTW32_STATIC_LIB']

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[:3000]))
    return p.stdout.decode(errors='replace')

def incs(bd):
    return ['-iquote', REPO, '-iquote', SIM, '-iquote', os.path.join(HERE, 'work'), '-I' + os.path.join(SIM, 'include'), '-iquote', bd, '-include', 'prelude.h']

def undef(cc, bd):
    txt = sh([cc, '-dM', '-E', '-x', 'c++' if cc == 'g++' else 'c', os.path.join(SIM, 'hosthdrs.h')])
    os.makedirs(bd, exist_ok=True)
    names = sorted(set(re.findall(r'^#define ((?:PTHREAD_|pthread_|SCHED_|sched_|SEM_|sem_|CPU_|__CPU_|_POSIX_|HAVE_)[A-Za-z0-9_]*)', txt, re.M)))
    with open(os.path.join(bd, 'gen_undef.h'), 'w') as f:
        f.write(''.join('#undef %s\n' % n for n in names))

# mode -> (compiler, library TU, language flag, sanitizer flags, heap mode, sim flags)
MODES = {
    'c':    ('gcc', 'pthread-JMP.c', ['-fsanitize=thread', '-ftrivial-auto-var-init=pattern'], 'simheap', []),
    'cxx':  ('g++', 'pthread-EH.cpp', ['-fsanitize=thread'], 'simheap', ['-DSIM_CXX_EH']),
    'dll':  ('gcc', 'pthread-JMP.c', ['-fsanitize=thread', '-ftrivial-auto-var-init=pattern'], 'simheap', ['-DSIM_DLL']),
    'asan': ('gcc', 'pthread-JMP.c', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'], 'plain', ['-DSIM_ASAN']),
}

def compile_one(mode, bd, src, defs, out):
    cc, _, san, heap, _ = MODES[mode]
    ext = 'ii' if cc == 'g++' else 'i'
    pre, rew = out + '.pre.' + ext, out + '.' + ext
    sh([cc, '-E', '-x', 'c++' if cc == 'g++' else 'c'] + defs + incs(bd) + [src, '-o', pre])
    sh([sys.executable, os.path.join(SIM, 'rewrite.py'), pre, rew, heap, REPO, HERE])
    sh([cc, '-c', '-O1', '-g', '-w', '-fmax-errors=8'] + san + ['-fpreprocessed', rew, '-o', out])
    os.remove(pre); os.remove(rew)

def build(bd, mode, files):
    """returns the binary's path"""
    cc, lib, san, heap, simf = MODES[mode]
    d = os.path.join(bd, mode)
    undef(cc, d)
    objs, jobs = [], []
    o = os.path.join(d, 'lib.o'); objs.append(o)
    jobs.append(lambda o=o: compile_one(mode, d, os.path.join(REPO, lib), [x for x in DEFS if x != '-DPTW32_STATIC_LIB'] if mode == 'dll' else DEFS, o))
    for f in files:
        o = os.path.join(d, f.replace('.c', '.o')); objs.append(o)
        jobs.append(lambda o=o, f=f: compile_one(mode, d, os.path.join(HERE, 'work', f), [] if mode == 'dll' else WDEFS, o))
    o = os.path.join(d, 'sim.o'); objs.append(o)
    jobs.append(lambda: sh(['gcc', '-O2', '-g', '-fexceptions', '-w', '-c'] + simf + (['-fno-omit-frame-pointer'] if mode == 'asan' else []) + [os.path.join(SIM, 'sim.c'), '-o', os.path.join(d, 'sim.o')]))
    with ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(j) for j in jobs]:
            r.result()
    binp = os.path.join(d, 'run')
    sh([cc, '-no-pie', '-rdynamic' if mode == 'asan' else '-g'] + ([s for s in san] if mode == 'asan' else []) + objs + ['-o', binp, '-lm'])
    return binp

def symbolise(binp, pcs):
    pcs = [p for p in pcs if p.startswith('0x')]
    if not pcs:
        return []
    adj = [hex(int(p, 16) - 1) for p in pcs]
    try:
        out = subprocess.run(['addr2line', '-f', '-C', '-s', '-e', binp] + adj, stdout=subprocess.PIPE, timeout=60).stdout.decode().splitlines()
        return ['%s %s' % (out[i], out[i + 1]) for i in range(0, len(out) - 1, 2)]
    except Exception:
        return []

PCRE = re.compile(r'pc (0x[0-9a-f]+)')

def run_job(binp, work, seed, eps, extra, timeout):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=1:allow_user_segv_handler=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    cmd = [binp, '--workload', work, '--seed', str(seed), '--episodes', str(eps)] + extra
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        return {'rc': 'timeout', 'cmd': cmd}
    r = {'rc': p.returncode, 'cmd': cmd, 'find': []}
    err = p.stderr.decode(errors='replace')
    for l in p.stdout.decode(errors='replace').splitlines():
        try:
            if l.startswith('RESULT '): r['res'] = json.loads(l[7:])
            elif l.startswith('VIOL '): r['viol'] = json.loads(l[5:])
            elif l.startswith('FINDING '): r['find'].append(json.loads(l[8:]))
        except ValueError:
            r['badline'] = l
    if 'viol' not in r and ('AddressSanitizer' in err or 'runtime error:' in err):
        m = re.search(r'(ERROR: AddressSanitizer:[^\n]*|[^\n]*runtime error:[^\n]*)', err)
        r['viol'] = {'kind': 'sanitizer', 'oracle': 'asan/ubsan', 'workload': work, 'variant': 0, 'seed': seed, 'episodes': eps, 'msg': m.group(1) if m else err[:300], 'bt': [], 'report': err[:6000]}
    r['err'] = err[:8000]
    return r

def load_known(prop):
    k = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            m = re.match(r'known: property=(\S+) workload=(\S+) oracle=(\S+) match=/(.*)/ :: (.*)$', l)
            if m and m.group(1) == prop:
                k.append(m.groups()[1:])
    except FileNotFoundError:
        pass
    return k

def main():
    import checks
    if sys.argv[1] == '--build':
        for m in ('c', 'cxx') if not os.environ.get('VERIF_MODES') else os.environ['VERIF_MODES'].split(','):
            print(build(sys.argv[2], m, sys.argv[3:]))
        return 0
    if sys.argv[1] == '--setup':
        bd = tempfile.mkdtemp(prefix='setup.', dir=ensure(os.path.join(HERE, 'build')))
        try:
            b = build(bd, 'c', ['w_mutex.c']); r = run_job(b, 'mutex_excl', 1, 20, [], 120)
            print('setup: simulator build', 'ok' if 'res' in r else r); return 0 if 'res' in r else 2
        finally: shutil.rmtree(bd, ignore_errors=True)
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        bd = tempfile.mkdtemp(prefix='replay.', dir=ensure(os.path.join(HERE, 'build')))
        try:
            b = build(bd, rp['mode'], rp['files'])
            r = run_job(b, rp['workload'], rp['seed'], rp['episodes'], rp.get('extra', []) + ['-v'], 600)
            print(json.dumps(r.get('viol') or r.get('res'), indent=1)); print(r.get('err', ''))
            if 'viol' in r: print('\n'.join(symbolise(b, r['viol'].get('bt', []))))
            return 1 if 'viol' in r else 0
        finally:
            shutil.rmtree(bd, ignore_errors=True)
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    return check(prop, tier, checks.CHECKS[prop])

def ensure(d):
    os.makedirs(d, exist_ok=True); return d

def check(prop, tier, spec):
    t0 = time.time()
    seed0 = int(os.environ.get('VERIF_SEED', '1') or 1)
    bd = tempfile.mkdtemp(prefix=prop + '.', dir=ensure(os.path.join(HERE, 'build')))
    try:
        return check2(prop, tier, spec, seed0, bd, t0)
    except BuildError as e:
        sys.stderr.write('BUILD FAILED for %s: %s\n' % (prop, e)); return 2
    finally:
        shutil.rmtree(bd, ignore_errors=True)

def check2(prop, tier, spec, seed0, bd, t0):
    modes = spec.get('modes', ['c', 'cxx'])
    need = {}
    for w in spec['works']:
        for m in w.get('modes', modes):
            need.setdefault(m, set()).add(w['file'])
    bins = {}
    with ThreadPoolExecutor(4) as ex:
        fs = {m: ex.submit(build, bd, m, sorted(f)) for m, f in need.items()}
        for m, f in fs.items():
            bins[m] = f.result()
    known = load_known(prop)
    budget = spec.get('quick_s', 25) if tier == 'quick' else spec.get('thorough_s', 500)
    hard = t0 + (400 if tier == 'quick' else 850)
    deadline = time.time() + budget
    # job list: round robin over workloads and modes, seeds increasing
    jobs = []
    rounds = 4000 if tier == 'quick' else 100000
    def gen():
        for r in range(rounds):
            for w in spec['works']:
                for m in w.get('modes', modes):
                    for k in range(w.get('weight', 1)):
                        yield (w, m, seed0 * 1000003 + r * 131 + k * 17 + 1)
    it = gen(); lock = threading.Lock(); stop = threading.Event()
    results, viols, kn, errs = [], [], {}, []
    first_round = sum(w.get('weight', 1) * len(w.get('modes', modes)) for w in spec['works'])
    cnt = [0]
    def worker():
        while not stop.is_set():
            with lock:
                # the first round always runs completely, then until the budget is used
                if cnt[0] >= first_round and time.time() > deadline: return
                if time.time() > hard: return
                try: w, m, s = next(it)
                except StopIteration: return
                cnt[0] += 1
            eps = w.get('teps', w.get('eps', 1000)) if tier == 'thorough' else w.get('eps', 1000)
            r = run_job(bins[m], w['name'], s, eps, w.get('args', []), 300)
            r['mode'] = m
            with lock:
                for f in r.get('find', []):
                    if f['oracle'] in w.get('others', ()): continue   # judged by another property's check
                    for kw, ko, kr, kd in known:
                        if kw in (f['workload'], '*') and ko == f['oracle'] and re.search(kr, f['msg']):
                            kn[kd] = kn.get(kd, 0) + 1; break
                    else:
                        f['kind'] = 'finding'; f['variant'] = 0; f['seed'] = s; f['episodes'] = eps; f['bt'] = []
                        r.setdefault('viol', f)
                if 'viol' in r:
                    v = r['viol']; hit = None
                    for kw, ko, kr, kd in known:
                        if kw in (v['workload'], '*') and ko == v['oracle'] and re.search(kr, v['msg']): hit = kd
                    if hit: kn[hit] = kn.get(hit, 0) + 1
                    else:
                        viols.append((r, w, m, s, eps)); stop.set()
                elif r['rc'] == 'timeout':
                    errs.append(r); stop.set()
                elif 'res' not in r or r['rc'] != 0:
                    errs.append(r); stop.set()
                else:
                    results.append(r)
    th = [threading.Thread(target=worker) for _ in range(int(os.environ.get('VERIF_JOBS', '8')))]
    [t.start() for t in th]; [t.join() for t in th]
    agg = {}; counters = {}; perwork = {}
    for r in results:
        x = r['res']
        for k, v in x.items():
            if isinstance(v, int) and k not in ('variant', 'seed'): agg[k] = agg.get(k, 0) + v
        for k, v in x['counters'].items(): counters[k] = counters.get(k, 0) + v
        pw = perwork.setdefault('%s/%s' % (x['workload'], r['mode']), {'episodes': 0, 'schedules': 0, 'checks': 0, 'states': 0, 'steps': 0})
        for k in ('episodes', 'schedules', 'checks', 'steps'): pw[k] += x[k]
        pw['states'] = max(pw['states'], x['states'])
    vl = []
    for r, w, m, s, eps in viols:
        v = r['viol']; v['frames'] = symbolise(bins[m], v.get('bt', [])); v['where'] = symbolise(bins[m], PCRE.findall(v['msg']))
        rd = ensure(os.path.join(HERE, 'evidence', 'replay'))
        path = os.path.join(rd, '%s-%s-%s-%d.json' % (prop, w['name'], m, s))
        json.dump({'property': prop, 'mode': m, 'files': sorted(need[m]), 'workload': w['name'], 'seed': s, 'episodes': eps, 'extra': w.get('args', []), 'violation': v, 'stderr': r.get('err', '')}, open(path, 'w'), indent=1)
        vl.append((v, path))
    rule = 'one evaluation = one oracle check executed by a monitor (workload assertion, per-access heap/stack shadow check, handle-table check or end-of-episode audit); distinct_nontrivial = distinct schedules (hash of the sequence of preemption points and threads chosen) of complete episodes in which the property\'s operations ran'
    ev = {'property': prop, 'tier': tier, 'seed': seed0, 'level': spec.get('level', 'exploration'),
          'coverage': {'evaluations': agg.get('checks', 0) + agg.get('heap_checks', 0) + agg.get('handle_checks', 0) + agg.get('stack_checks', 0),
                       'distinct_nontrivial': agg.get('schedules', 0), 'rule': rule,
                       'samples': [{'workload': r['res']['workload'], 'mode': r['mode'], 'seed': r['res']['seed'], 'episodes': r['res']['episodes'], 'steps': r['res']['steps'], 'switches': r['res']['switches'], 'schedules': r['res']['schedules'], 'states': r['res']['states'], 'checks': r['res']['checks']} for r in results[:12]],
                       'totals': agg, 'counters': counters, 'per_workload': perwork, 'jobs': len(results)},
          'wall_s': round(time.time() - t0, 2), 'violations': [{'replay': p, 'oracle': v['oracle'], 'msg': v['msg']} for v, p in vl],
          'assumptions': ['the Win32 simulator (sim/) models the documented semantics of the Win32 calls the library makes', 'sequentially consistent memory', 'the library is compiled by the host gcc/g++ from a token-level LLP64 rewrite of the unmodified sources'],
          'known_findings_seen': kn}
    ensure(os.path.join(HERE, 'evidence'))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for d, n in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s (seen %d times)' % (prop, d, n))
    if vl:
        seen = set()
        for v, p in vl:
            if p in seen: continue
            seen.add(p)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  %s/%s: %s' % (v['kind'], v['oracle'], v['msg'][:600]))
            for l in (v.get('where') or [])[:6]: print('   at', l)
            for l in (v.get('frames') or [])[:10]: print('   bt', l)
        return 1
    if errs:
        e = errs[0]
        sys.stderr.write('check error: rc=%s cmd=%s\n%s\n' % (e['rc'], ' '.join(e['cmd']), e.get('err', '')[:2000])); return 2
    low = [k for k, n in spec.get('require', {}).items() if counters.get(k, 0) < n]
    if low:
        sys.stderr.write('check %s: the workload did not exercise: %s\n' % (prop, low)); return 2
    print('OK property=%s tier=%s jobs=%d episodes=%d steps=%d schedules=%d checks=%d wall=%.1fs' % (prop, tier, len(results), agg.get('episodes', 0), agg.get('steps', 0), agg.get('schedules', 0), agg.get('checks', 0), time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
