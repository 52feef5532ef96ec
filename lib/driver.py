#!/usr/bin/env python3
"""Driver of the solver-based checks: compiles /repo's current sources and a harness to LLVM IR,
runs the symbolic executor (engine/symx) on every case, replays counterexamples against the natively
compiled code, writes the evidence file and decides the exit code."""
import sys, os, json, subprocess, time, glob, shutil, fcntl, threading, hashlib, re, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
ENG = os.path.join(VERIF, 'engine')
SYMX = os.path.join(VERIF, 'build', 'engine', 'symx')
NCPU = os.cpu_count() or 8
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'

def incs(repo):
    return ['-I' + os.path.join(ENG, 'include'), '-I' + os.path.join(VERIF, 'harness'), '-I' + repo, '-I' + repo + '/libkcommon', '-I' + repo + '/libman', '-I' + repo + '/libauto', '-I' + repo + '/libdist', '-I' + repo + '/binding']
IRFLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-fopenmp', '-DUSE_NUMA', '-DSTATISTICS', '-include', ENG + '/include/vf_pre.h', '-fno-access-control', '-ffp-contract=off', '-w', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++11', '-g', '-O1', '-fopenmp', '-DUSE_NUMA', '-DSTATISTICS', '-fno-access-control', '-ffp-contract=off', '-w', '-fPIC']

def build_engine():
    os.makedirs(os.path.join(VERIF, 'build', 'engine'), exist_ok=True)
    with open(os.path.join(VERIF, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-C', ENG, '-j4'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(SYMX):
            print(r.stdout[-3000:]); raise SystemExit(2)

def libsrcs(lib):
    d = {'common': 'libkcommon', 'man': 'libman', 'auto': 'libauto', 'dist': 'libdist'}.get(lib)
    if d is None: return [os.path.join(REPO, lib)]
    out = sorted(glob.glob(os.path.join(REPO, d, '*.cpp')))
    return out

class Case:
    """One bounded exploration: a harness with fixed structural parameters."""
    def __init__(self, harness, name=None, params=None, libs=('common', 'man'), defs=(), random=False, logic='QF_BV', timeout=120, qtimeout=60000, jobs=1,
                 tier='quick', covers=(), max_enum=4096, exclude=(), replay=True, validate=True, max_steps=None, sched=False, incl=()):
        self.harness = harness; self.params = dict(params or {}); self.libs = tuple(libs); self.defs = tuple(defs); self.random = random
        self.logic = logic; self.timeout = timeout; self.qtimeout = qtimeout; self.jobs = jobs; self.tier = tier; self.covers = tuple(covers); self.max_enum = max_enum
        self.exclude = tuple(exclude); self.replay = replay; self.validate = validate; self.max_steps = max_steps; self.sched = sched; self.incl = tuple(incl)
        self.name = name or (harness.replace('.cpp', '') + ''.join('_%s%s' % (k, v) for k, v in self.params.items()))
    def unitflags(self):
        f = ['-D' + d for d in self.defs]
        if self.random: f += ['-include', 'vf_random.h']
        for i in self.incl: f += ['-include', i]
        return tuple(f)
    def sources(self):
        s = []
        for l in self.libs: s += libsrcs(l)
        return [x for x in s if os.path.basename(x) not in self.exclude]

WRAP = ['-Wl,' + ','.join('--wrap=pthread_' + x for x in ('create', 'join', 'mutex_init', 'mutex_lock', 'mutex_trylock', 'mutex_unlock', 'mutex_destroy', 'cond_wait', 'cond_signal', 'cond_broadcast', 'cond_destroy'))]
class Builder:
    def __init__(self, work): self.work = work; self.lock = threading.Lock(); self.done = {}; self.pool = ThreadPoolExecutor(NCPU)
    def _compile(self, src, flags, native, asan):
        tag = hashlib.sha1(('%s|%s|%s|%s' % (src, ' '.join(flags), native, asan)).encode()).hexdigest()[:16]
        out = os.path.join(self.work, os.path.basename(src).replace('.cpp', '') + '-' + tag + ('.o' if native else '.bc'))
        if native:
            cmd = ['g++'] + NATFLAGS + (['-fsanitize=thread'] if asan == 'tsan' else ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else [])
            cmd += list(flags) + incs(REPO) + ['-c', src, '-o', out]
        else: cmd = [CLANG] + IRFLAGS + list(flags) + incs(REPO) + [src, '-o', out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise RuntimeError('compilation failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
        return out
    def get(self, src, flags, native=False, asan=False):
        k = (src, flags, native, asan)
        with self.lock:
            if k not in self.done: self.done[k] = self.pool.submit(self._compile, src, flags, native, asan)
            return self.done[k]
    def ir(self, case):
        fl = case.unitflags()
        fs = [self.get(os.path.join(VERIF, 'harness', case.harness), fl)]
        fs += [self.get(s, fl) for s in case.sources()]
        fs += [self.get(os.path.join(ENG, 'rt', 'sym.cpp'), ()), self.get(os.path.join(ENG, 'rt', 'numa.cpp'), ())]
        return fs
    def native(self, case, asan=True):
        fl = case.unitflags()
        fs = [self.get(os.path.join(VERIF, 'harness', case.harness), fl, True, asan)]
        fs += [self.get(s, fl, True, asan) for s in case.sources()]
        fs += [self.get(os.path.join(ENG, 'rt', x), (), True, asan) for x in ('native.cpp', 'numa.cpp') + (('sched.cpp',) if case.sched and asan != 'tsan' else ('tid.cpp',))]
        objs = [f.result() for f in fs]
        exe = os.path.join(self.work, 'nat-' + hashlib.sha1(' '.join(objs).encode()).hexdigest()[:12])
        with self.lock:
            if os.path.exists(exe): return exe
            r = subprocess.run(['g++', '-fopenmp', '-pthread'] + (['-fsanitize=thread'] if asan == 'tsan' else ['-fsanitize=address'] if asan else []) + (WRAP if case.sched and asan != 'tsan' else ['-Wl,--wrap=pthread_create']) + ['-o', exe + '.tmp'] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise RuntimeError('native link failed\n' + r.stdout[-3000:])
            os.rename(exe + '.tmp', exe)
        return exe

SUMK = ['paths', 'killed', 'queries', 'sat', 'unsat', 'unknown', 'instructions', 'forks', 'enumerations', 'asserts', 'solver_s', 'inexact_ops', 'pending']
def merge(parts):
    o = parts[0]
    for p in parts[1:]:
        for k in SUMK: o[k] = o.get(k, 0) + p.get(k, 0)
        o['max_query_s'] = max(o['max_query_s'], p['max_query_s'])
        o['timed_out'] = o['timed_out'] or p['timed_out']
        for k in ('covers', 'unsupported'):
            for a, b in p[k].items(): o[k][a] = o[k].get(a, 0) + b
        for a, b in p['assert_labels'].items():
            x = o['assert_labels'].get(a, [0, 0]); o['assert_labels'][a] = [x[0] + b[0], x[1] + b[1]]
        o['functions'] = sorted(set(o['functions']) | set(p['functions']))
        for a, b in p['lines'].items(): o['lines'][a] = sorted(set(o['lines'].get(a, [])) | set(b))
        o['samples'] = (o['samples'] + p['samples'])[:4]; o['sample_inputs'] = (o.get('sample_inputs', []) + p.get('sample_inputs', []))[:4]; o['violations'] += p['violations']
    return o

def run_symx(case, bld, work, scale=1.0, verbose=False):
    bcs = [f.result() for f in bld.ir(case)]
    out = os.path.join(work, 'out-' + hashlib.sha1((case.name + case.harness).encode()).hexdigest()[:12] + '.json')
    cmd = [SYMX] + bcs + ['--out', out, '--root', REPO, '--timeout', str(case.timeout * scale), '--qtimeout', str(case.qtimeout), '--jobs', str(case.jobs), '--max-enum', str(case.max_enum)]
    if case.logic: cmd += ['--logic', case.logic]
    if case.max_steps: cmd += ['--max-steps', str(case.max_steps)]
    if verbose: cmd += ['-v']
    for k, v in case.params.items(): cmd += ['--param', '%s=%d' % (k, v)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=case.timeout * scale + 240)
    if verbose: print(r.stdout[-6000:])
    parts = []
    for f in [out] + sorted(glob.glob(out + '.part*')):
        if os.path.exists(f):
            parts.append(json.load(open(f))); os.unlink(f)
    if not parts: raise RuntimeError('symx produced no result for %s (rc %d): %s' % (case.name, r.returncode, r.stdout[-1500:]))
    return merge(parts)

def replay(case, bld, work, v_inputs, keep=None, timeout=40, asan=True):
    """Run the natively compiled code on the solver's values. Returns (outcome, text)."""
    exe = bld.native(case, asan)
    d = tempfile.mkdtemp(dir=work); fn = os.path.join(d, 'input.txt')
    with open(fn, 'w') as f:
        for k, v in case.params.items(): f.write('param %s %d\n' % (k, v))
        for i in v_inputs:
            n, k, val = i.split(' ', 2); f.write('in %s %s %s\n' % (n, k, val))
    if keep: shutil.copy(fn, keep)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:detect_odr_violation=0:max_malloc_fill_size=1000000:malloc_fill_byte=190', OMP_NUM_THREADS='2')
    if asan == 'tsan': env['OMP_THREAD_LIMIT'] = '1'   # libgomp is not instrumented
    try: r = subprocess.run([exe, fn], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: shutil.rmtree(d, True); return 'hang', 'no answer in %d s' % timeout
    t = r.stdout.decode('latin1'); shutil.rmtree(d, True)
    if 'REPLAY-ASSUME-FALSE' in t or 'REPLAY-KILLED' in t: return 'assume-false', t[-300:]
    if asan == 'tsan': return ('violation', re.search(r'WARNING: ThreadSanitizer: .*', t).group(0)) if 'WARNING: ThreadSanitizer' in t else ('ok', '')
    m = re.search(r'REPLAY-VIOLATION (.*)', t)
    if m: return 'violation', m.group(1)
    if 'REPLAY-OK' in t and r.returncode == 0: return 'ok', ''
    if 'REPLAY-EXIT' in t: return 'exit', t[-600:]
    m = re.search(r'ERROR: AddressSanitizer: .*', t)
    return 'crash', (m.group(0) if m else 'rc %d: %s' % (r.returncode, t[-400:]))

def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def check(prop, tier, seed, only=None, verbose=False, keep=False):
    from props import PROPS
    P = PROPS[prop]; t0 = time.time()
    build_engine()
    work = os.path.join(VERIF, 'build', 'work', '%s-%d' % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    repdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(repdir, exist_ok=True)
    cases = [c for c in P['cases'] if (tier == 'thorough' or c.tier == 'quick') and (tier == 'quick' or c.tier != 'quickonly')]
    if only: cases = [c for c in cases if only in c.name]
    bld = Builder(work); results = {}; errors = []
    sem = threading.Condition(); free = [NCPU]
    def one(c):
        j = min(c.jobs, NCPU)
        [f.result() for f in bld.ir(c)]
        with sem:
            while free[0] < j: sem.wait()
            free[0] -= j
        try: return run_symx(c, bld, work, 1.0 if tier == 'quick' else P.get('thorough_scale', 4.0), verbose)
        finally:
            with sem: free[0] += j; sem.notify_all()
    with ThreadPoolExecutor(max(1, len(cases))) as ex:
        for c in cases: bld.ir(c)
        futs = [(c, ex.submit(one, c)) for c in cases]
        for c, f in futs:
            try: results[c.name] = f.result()
            except Exception as e: errors.append('%s: %s' % (c.name, str(e)[:1500] if not errors else str(e)[:160]))
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    viol, unconf, knownhits = [], [], []
    ignore = [re.compile(x) for x in P.get('ignore', [])]
    for c in cases:
        r = results.get(c.name)
        if not r: continue
        seen = {}
        for v in r['violations']:
            key = (v['kind'], v['label'])
            if seen.get(key) == 'done': continue
            if any(i.search(v['kind'] + '|' + v['label']) for i in ignore): continue
            k = match_known(kf, c, v)
            if k is not None:
                if k not in knownhits: knownhits.append(k)
                seen[key] = 'done'; continue
            path = os.path.join(repdir, '%s-%s-%d.txt' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', c.name + '_' + v['label'])[:80], len(viol) + len(unconf)))
            if c.replay:
                try:
                    if v['kind'] == 'race':   # happens-before races: ThreadSanitizer on the real threads
                        for _ in range(6):
                            oc, tx = replay(c, bld, work, v['inputs'], keep=path, asan='tsan', timeout=20)
                            if oc == 'violation': break
                    elif callable(c.replay): oc, tx = c.replay(c, bld, work, v, path)
                    else: oc, tx = replay(c, bld, work, v['inputs'], keep=path)
                except Exception as e: oc, tx = 'error', str(e)
            else: oc, tx = 'not-replayed', ''
            v['replay'] = oc; v['replay_text'] = tx; v['case'] = c.name
            with open(path, 'a') as f: f.write('# harness %s case %s\n# %s: %s %s\n# at %s\n# native replay: %s %s\n# schedule %s\n' % (c.harness, c.name, v['kind'], v['label'], v['detail'], v['loc'], oc, tx.replace('\n', ' '), v['sched']))
            v['path'] = path
            if oc in ('violation', 'crash', 'exit', 'hang', 'not-replayed'): viol.append(v); seen[key] = 'done'
            else: unconf.append(v)
    # agreement of the encoding with the real code: replay explored paths natively
    validated, disagree = 0, []
    if P.get('validate', True) and not viol:
        todo = {}
        for c in cases:
            if c.validate and results.get(c.name) and results[c.name].get('sample_inputs') and c.harness not in todo: todo[c.harness] = c
        for c in list(todo.values())[: (P.get('validate_max', 3) if tier == 'quick' else 99)]:
            for si in results[c.name]['sample_inputs'][:2]:
                try: oc, tx = replay(c, bld, work, si, asan=True)
                except Exception as e: oc, tx = 'error', str(e)
                if oc == 'ok': validated += 1
                else: disagree.append('%s: native %s %s' % (c.name, oc, tx[:300]))
    # vacuity
    vac = []
    for c in cases:
        r = results.get(c.name)
        if not r: continue
        for cv in c.covers:
            if not r['covers'].get(cv) and not r['timed_out'] and not r['violations']: vac.append('%s: cover point "%s" not reached' % (c.name, cv))
        if not r['asserts'] and not r['violations']: vac.append('%s: no assertion reached' % c.name)
    tot = {k: sum(r.get(k, 0) for r in results.values()) for k in SUMK}
    fns = sorted(set(f for r in results.values() for f in r['functions'])); lines = {}
    for r in results.values():
        for a, b in r['lines'].items(): lines.setdefault(a.replace(REPO + '/', ''), set()).update(b)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'assumptions': P.get('assumptions', []) + COMMON_ASSUME,
          'coverage': {
            'states': int(tot['paths'] + tot['killed']), 'transitions': int(tot['instructions']), 'traces_validated_against_impl': validated,
            'samples': [s for r in results.values() for s in r['samples']][:8] or ['(no completed path)'],
            'technique': 'symbolic execution of the LLVM IR of /repo\'s current sources; every branch and assertion decided by z3 over all values in the stated bounds',
            'rule': 'states = execution paths (path conditions) explored to the end; transitions = IR instructions executed symbolically; a trace is validated when the natively compiled code run on the solver model of a path also satisfies every assertion',
            'bounds': P.get('bounds', ''),
            'cases': {c.name: {'params': c.params, 'bounds_timeout_s': c.timeout, **{k: results[c.name].get(k) for k in ('paths', 'killed', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'max_query_s', 'wall_s', 'timed_out', 'pending', 'asserts', 'inexact_ops', 'assert_labels', 'covers', 'unsupported')}} for c in cases if c.name in results},
            'solver_queries': int(tot['queries']), 'solver_s': round(tot['solver_s'], 2), 'asserts_checked': int(tot['asserts']),
            'complete_within_bounds': all(not r['timed_out'] and not r['unsupported'] for r in results.values()),
            'functions_encoded': fns, 'lines_executed': {a: len(b) for a, b in sorted(lines.items())},
            'unconfirmed_counterexamples': [{'case': v['case'], 'label': v['label'], 'kind': v['kind'], 'replay': v['replay'], 'text': v['replay_text'][:300], 'inputs': v['inputs'][:60]} for v in unconf],
            'known_findings_hit': [k['id'] for k in knownhits], 'vacuity_failures': vac, 'native_disagreements': disagree, 'errors': errors}}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', prop + '.json'); tmp = evp + '.tmp%d' % os.getpid()
    json.dump(ev, open(tmp, 'w'), indent=1, sort_keys=False); os.rename(tmp, evp)
    print('%s %s: %d cases, %d paths, %d solver queries (%.1f s), %d asserts, wall %.1f s' % (prop, tier, len(results), tot['paths'], tot['queries'], tot['solver_s'], tot['asserts'], time.time() - t0))
    for c in cases:
        r = results.get(c.name)
        if r and (r['timed_out'] or r['unsupported']): print('  note %s: timed_out=%s pending=%d unsupported=%s' % (c.name, r['timed_out'], r['pending'], json.dumps(r['unsupported'])[:600]))
    for v in unconf: print('  unconfirmed counterexample (not reported): %s %s %s -> native %s %s' % (v['case'], v['kind'], v['label'], v['replay'], v['replay_text'][:200].replace('\n', ' ')))
    for x in vac: print('  VACUITY ' + x)
    for x in disagree: print('  DISAGREE ' + x)
    for k in knownhits: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    for v in viol:
        print('  %s in %s: %s %s\n    at %s\n    inputs: %s\n    native replay: %s %s' % (v['kind'], v['case'], v['label'], v['detail'][:400], v['loc'][:400], '; '.join(v['inputs'])[:800], v['replay'], v['replay_text'][:200]))
        print('VIOLATION property=%s replay=%s' % (prop, v['path'])); rc = 1
    if not keep: shutil.rmtree(work, True)
    if errors:
        for e in errors: print('ERROR ' + e)
        if rc == 0: rc = 2
    if rc == 0 and (vac or disagree) and os.environ.get('VF_STRICT'): rc = 2
    return rc

def match_known(kf, c, v):
    for k in kf:
        m = k['match']
        if 'harness' in m and m['harness'] != c.harness: continue
        if 'label' in m and not re.search(m['label'], v['label']): continue
        if 'kind' in m and m['kind'] != v['kind']: continue
        if 'loc' in m and not re.search(m['loc'], v['loc']): continue
        return k
    return None

COMMON_ASSUME = [
    'clang 18 -O1 IR of the sources stands for the compiled program; libstdc++ headers are executed as they are, printing (iostream, printf) is a no-op',
    'doubles are exact rationals on the stated grid (no rounding occurs on it) unless a case says REAL or FP; division and transcendental functions are evaluated on every feasible value',
    'memory allocation never fails; libnuma is a stand-in that allocates from the heap; data outside the stated sizes and value grids is not covered',
]

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import argparse
    a = argparse.ArgumentParser(); a.add_argument('prop'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); a.add_argument('--only'); a.add_argument('-v', action='store_true'); a.add_argument('--keep', action='store_true')
    x = a.parse_args()
    if x.prop == 'build': build_engine(); sys.exit(0)
    sys.exit(check(x.prop, x.tier, int(os.environ.get('VERIF_SEED', '1')), x.only, x.v, x.keep))
