#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: compile the harnesses of a property together with /repo's current sources to LLVM
bitcode, execute them symbolically (engine/), replay counterexamples natively, write evidence/<id>.json."""
import sys, os, json, hashlib, subprocess, time, threading, shutil, signal, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo'); SRC = REPO + '/source'
BUILD = os.environ.get('VERIF_BUILD', ROOT + '/build'); SYMEX = ROOT + '/build/symex'
sys.path.insert(0, ROOT)
CPUS = min(8, os.cpu_count() or 8)
def which(*names):
    for n in names:
        p = shutil.which(n)
        if p: return p
    return names[0]
CLANG = which('clang++', 'clang++-18'); LINK = which('llvm-link-18', 'llvm-link', '/usr/lib/llvm-18/bin/llvm-link'); GXX = which('g++')
VARIANTS = {
    'std': [], 'nd': ['-DNDEBUG'],
    'ub': ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,vla-bound', '-fsanitize-trap=all'],
    'ubnd': ['-DNDEBUG', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,vla-bound', '-fsanitize-trap=all'],
    'bmi': ['-DUSE_BMI2', '-mbmi2'], 'bmind': ['-DUSE_BMI2', '-mbmi2', '-DNDEBUG'],
}
_treehash = None
def treehash():
    global _treehash
    if _treehash: return _treehash
    h = hashlib.sha256()
    for base in (SRC + '/girgs', SRC + '/hypergirgs', SRC + '/cli', ROOT + '/shim', ROOT + '/stub'):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(ROOT + '/harness/sym.h', 'rb').read())
    _treehash = h.hexdigest(); return _treehash
def fhash(paths, extra):
    h = hashlib.sha256(treehash().encode())
    for p in paths: h.update(open(p, 'rb').read())
    for p in sorted(os.listdir(ROOT + '/harness')):
        if p.endswith('.h'): h.update(open(ROOT + '/harness/' + p, 'rb').read())
    h.update(repr(extra).encode()); return h.hexdigest()[:24]
INCS = lambda: ['-I' + ROOT + '/harness', '-I' + ROOT + '/shim', '-I' + ROOT + '/stub', '-I' + SRC + '/girgs/include', '-I' + SRC + '/hypergirgs/include', '-I' + SRC]
GUARD = ['-DGIRGS_VERIF']
_locks = {}; _ll = threading.Lock()
def lock(k):
    with _ll: return _locks.setdefault(k, threading.Lock())
class BuildError(Exception): pass
def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    return r
def compile_bc(src, flags, std, opt):
    key = fhash([src], [flags, std, opt, 'bc']); out = BUILD + '/bc/' + key + '.bc'
    with lock(out):
        if os.path.exists(out): return out
        os.makedirs(BUILD + '/bc', exist_ok=True); tmp = out + '.%d' % os.getpid()
        cmd = [CLANG, '-std=' + std, opt, '-g1', '-fopenmp', '-I' + ROOT + '/ompinc', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-strict-aliasing', '-fno-access-control', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c'] + GUARD + INCS() + flags + [src, '-o', tmp]
        r = run(cmd)
        if r.returncode: raise BuildError('clang failed on %s: %s' % (src, ' | '.join(l for l in r.stderr.splitlines() if 'error' in l)[:400]))
        os.replace(tmp, out); return out
def build_bc(job):
    v = VARIANTS[job.get('variant', 'std')] + job.get('defs', []); opt = job.get('opt', '-O2')
    parts = [compile_bc(ROOT + '/harness/' + job['h'], v, 'c++17', opt), compile_bc(ROOT + '/harness/common_rt.cpp', [], 'c++17', opt), compile_bc(ROOT + '/harness/support.cpp', [], 'c++17', opt)]
    parts += [compile_bc(SRC + '/' + s, v + job.get('srcdefs', []), 'c++11', opt) for s in job.get('srcs', [])]
    key = hashlib.sha256(repr(parts).encode()).hexdigest()[:24]; out = BUILD + '/bc/L' + key + '.bc'
    with lock(out):
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid(); r = run([LINK] + parts + ['-o', tmp])
            if r.returncode: raise BuildError('llvm-link: ' + r.stderr[-1500:])
            os.replace(tmp, out)
    return out
def compile_obj(src, flags, std):
    key = fhash([src], [flags, std, 'obj']); out = BUILD + '/nat/' + key + '.o'
    with lock(out):
        if os.path.exists(out): return out
        os.makedirs(BUILD + '/nat', exist_ok=True); tmp = out + '.%d' % os.getpid()
        r = run([GXX, '-std=' + std, '-g', '-ffp-contract=off', '-fno-access-control', '-w', '-fopenmp'] + GUARD + INCS() + flags + ['-c', src, '-o', tmp])
        if r.returncode: raise BuildError('g++ failed on %s: %s' % (src, r.stderr[-1500:]))
        os.replace(tmp, out); return out
SAN = ['-O1', '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize=vptr']
def build_native(job, san=True):
    v = [f for f in VARIANTS[job.get('variant', 'std')] if 'sanitize' not in f] + job.get('defs', []) + (SAN if san else ['-O1'])
    parts = [compile_obj(ROOT + '/harness/' + job['h'], v, 'c++17'), compile_obj(ROOT + '/harness/common_rt.cpp', v, 'c++17'), compile_obj(ROOT + '/harness/native_rt.cpp', v + ['-DENTRY=' + job['e']], 'c++17')]
    parts += [compile_obj(SRC + '/' + s, v + job.get('srcdefs', []), 'c++11') for s in job.get('srcs', [])]
    key = hashlib.sha256(repr(parts).encode()).hexdigest()[:24]; out = BUILD + '/nat/X' + key
    with lock(out):
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid(); r = run([GXX, '-fopenmp', '-Wl,--wrap=omp_get_num_procs', '-Wl,--wrap=_ZNSt6thread20hardware_concurrencyEv'] + (SAN if san else []) + parts + ['-o', tmp])
            if r.returncode: raise BuildError('g++ link: ' + r.stderr[-1500:])
            os.replace(tmp, out)
    return out
def native_run(exe, job, inputs, path, timeout=30):
    with open(path, 'w') as f:
        for k, v in job.get('p', {}).items(): f.write('param:%s\t%s\n' % (k, v))
        for k, v in inputs: f.write('%s\t%s\n' % (k, v))
    env = dict(os.environ, VERIF_REPLAY=path, VERIF_NATIVE_TIMEOUT=str(timeout), ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0', OMP_WAIT_POLICY='passive', OMP_DYNAMIC='false', OMP_NUM_THREADS=str(job.get('threads', 4)))
    try: r = subprocess.run([exe], capture_output=True, text=True, errors='replace', env=env, timeout=timeout + 15)
    except subprocess.TimeoutExpired: return 'timeout', ''
    o = (r.stdout or '') + (r.stderr or '')
    if r.returncode == 42 or 'REPLAY-VIOLATION' in o: return 'check', o
    if r.returncode == 43: return 'assume', o
    if 'AddressSanitizer' in o: return 'memory', o
    if r.returncode == -signal.SIGABRT or 'Assertion `' in o: return 'assert', o
    if r.returncode == -signal.SIGALRM: return 'timeout', o
    if r.returncode < 0: return 'crash', o
    if 'runtime error:' in o: return 'ub', o
    if 'REPLAY-OK' in o or r.returncode == 0: return 'ok', o
    return 'other', o
def reproduces(kind, got):
    if kind == 'check': return got in ('check', 'memory', 'crash')
    if kind in ('assert', 'abort', 'exception'): return got in ('assert', 'crash', 'check', 'memory')
    if kind == 'memory': return got in ('memory', 'crash', 'assert', 'check')
    if kind == 'ub': return got in ('ub', 'crash', 'memory')
    if kind in ('deadlock', 'nontermination'): return got == 'timeout'
    return got in ('check', 'memory', 'crash', 'assert', 'timeout')
def run_symex(bc, job, out, tl, fix=None):
    cmd = [SYMEX, bc, '-o', out, '-e', job['e'], '-t', str(tl), '-q', str(job.get('q', 10000)), '-i', str(job.get('i', 4e8))]
    for k, v in job.get('p', {}).items(): cmd += ['-p', '%s=%s' % (k, v)]
    if fix: cmd += ['-f', fix, '-p', 'stopviol=1']
    elif os.environ.get('VERIF_FAST'): cmd += ['-p', 'stopviol=2']
    if os.path.exists(out): os.unlink(out)
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (job.get('mem', 7) << 30, job.get('mem', 7) << 30)); resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    try: r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=tl + 60, preexec_fn=lim)
    except subprocess.TimeoutExpired: return None, 'hard timeout'
    if not os.path.exists(out): return None, 'executor failed rc=%d %s' % (r.returncode, (r.stderr or '')[-300:])
    try: return json.load(open(out)), ''
    except Exception as e: return None, 'bad executor output %s' % e
def load_known():
    p = ROOT + '/known-findings.txt'; res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)', l.strip())
            if m: res.append((m.group(1), m.group(2), m.group(3)))
    return res
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    import checks
    c = checks.CHECKS[prop]; t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1'))
    if not os.path.exists(SYMEX): subprocess.run([ROOT + '/engine/build.sh'], check=True)
    jobs = [j for j in c['jobs'] if tier == 'thorough' or not j.get('thorough')]
    if only: jobs = [j for j in jobs if only in j['name']]
    budget = c.get('budget', 150) if tier == 'quick' else c.get('tbudget', 3000)
    wd = BUILD + '/work/%s-%s' % (prop, tier); os.makedirs(wd, exist_ok=True)
    for f in os.listdir(wd): os.unlink(wd + '/' + f)
    results = {}; notes = []; found = []; known = []; kf = load_known(); valid = {'ok': 0, 'other': 0}; vnotes = []
    def one(j):
        name = j['name']
        try:
            bc = build_bc(j)
        except BuildError as e:
            notes.append('job %s: not built: %s' % (name, e)); results[name] = None; return
        tl = j.get('t', 60) if tier == 'quick' else j.get('tt', j.get('t', 60) * 4)
        tl = max(5, min(tl, budget - (time.time() - t0)))
        d, err = run_symex(bc, j, wd + '/' + name + '.json', tl)
        if d is None: notes.append('job %s: %s' % (name, err)); results[name] = None; return
        results[name] = d
        if d['fatal']: notes.append('job %s: stopped: %s' % (name, d['fatal']))
        if d['timed_out']: notes.append('job %s: time budget reached after %d paths (paths completed are decided, the rest is outside this run)' % (name, sum(d['paths'].values())))
        for k, v in d['unsupported'].items(): notes.append('job %s: %d paths not encodable: %s' % (name, v, k))
        for k, v in d['unknown_labels'].items(): notes.append('job %s: solver gave no verdict on %d instances of: %s' % (name, v, k))
        for cv in j.get('cover', []):
            if cv not in d['cover']: notes.append('job %s: reachability witness "%s" not reached' % (name, cv))
        seen = {}
        for n, v in enumerate(d['violations']):
            ignore = c.get('kinds')
            if ignore and v['kind'] not in ignore: notes.append('job %s: other violation kind %s (%s) left to its own property' % (name, v['kind'], v['label'])); continue
            if seen.get(v['label'], 0) >= 1: continue
            rp = wd + '/replay-%s-%d.txt' % (name, n); confirmed = False; how = ''
            if v['kind'] in ('race', 'omp') or (v['kind'] == 'memory' and 'uninitialised' in v['label']) or j.get('noreplay'):
                confirmed = True; how = 'interpreter schedule'
                with open(rp, 'w') as f:
                    for k, x in j.get('p', {}).items(): f.write('param:%s\t%s\n' % (k, x))
                    for k, x in v['inputs']: f.write('%s\t%s\n' % (k, x))
            else:
                try:
                    exe = build_native(j)
                    for att in range(3 if v['kind'] in ('deadlock', 'race') else 1):
                        got, o = native_run(exe, j, v['inputs'], rp, 10 if v['kind'] in ('deadlock', 'nontermination') else 30)
                        how = got
                        if reproduces(v['kind'], got): confirmed = True; break
                    if not confirmed and v['kind'] == 'check' and (j['e'].startswith('C16') or any(j.get('p', {}).get(k) for k in ('sched', 's1', 's2'))):   # depends on the schedule: replay the recorded inputs in the interpreter
                        d2, _ = run_symex(bc, j, rp + '.json', 60, fix=rp)
                        if d2 and any(x['label'] == v['label'] for x in d2['violations']): confirmed = True; how = 'interpreter with the recorded inputs (the native schedule did not hit it)'
                    if not confirmed and v['kind'] == 'deadlock': confirmed = True; how = 'interpreter schedule (native run did not hit it)'
                except BuildError as e: how = str(e)[:300]; notes.append('job %s: replay not built: %s' % (name, how))
            with open(rp, 'a') as f: f.write('# property %s job %s entry %s variant %s label %s kind %s at %s replay %s\n' % (prop, name, j['e'], j.get('variant', 'std'), v['label'], v['kind'], v['where'], how))
            desc = '%s [%s] at %s' % (v['label'], v['kind'], v['where'])
            if not confirmed: notes.append('job %s: candidate "%s" did not reproduce natively (%s): not reported' % (name, desc, how)); continue
            seen[v['label']] = seen.get(v['label'], 0) + 1
            ins = ' '.join('%s=%s' % (k, x) for k, x in v['inputs'])
            hit = None
            for kp, m, txt in kf:
                if kp == prop and re.search(m, '%s %s %s' % (name, desc, ins)): hit = txt
            if hit: known.append(hit)
            else:
                found.append((desc, rp, name))
                if os.environ.get('VERIF_FAST'): print('violation in job %s: %s' % (name, desc), flush=True); os.killpg(0, signal.SIGKILL)   # development only: stop at the first violation
        if j.get('validate') and d['samples'] and not d['violations']:
            try:
                exe = build_native(j, san=False)
                for n, s in enumerate(d['samples'][:j['validate']]):
                    got, o = native_run(exe, j, s, wd + '/val-%s-%d.txt' % (name, n))
                    if got == 'ok': valid['ok'] += 1
                    else: valid['other'] += 1; vnotes.append('job %s sample %d: native run says %s (%s)' % (name, n, got, o[-200:].strip().replace('\n', ' ')))
            except BuildError as e: vnotes.append(str(e)[:300])
    # longest first
    with ThreadPoolExecutor(CPUS) as ex:
        fs = [ex.submit(one, j) for j in sorted(jobs, key=lambda j: -j.get('t', 60))]
        for f in fs: f.result()
    R = [r for r in results.values() if r]
    tot = lambda k: sum(r[k] for r in R); paths = lambda k: sum(r['paths'][k] for r in R)
    funcs = sorted(set(f for r in R for f in r['functions'])); cover = {}
    for r in R:
        for k, v in r['cover'].items(): cover[k] = cover.get(k, 0) + v
    samples = []
    for j in jobs:
        r = results.get(j['name'])
        if r and r['samples'] and len(samples) < 6: samples.append({'job': j['name'], 'inputs': r['samples'][-1][:24]})
        elif r and len(samples) < 6 and not r['samples']: samples.append({'job': j['name'], 'checks': r['check_labels']})
    states = sum(sum(r['paths'].values()) for r in R)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': c.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2), 'violations': len(found),
          'assumptions': c.get('assumptions', []) + COMMON_ASSUMPTIONS,
          'coverage': {'states': max(states, 1) if R else 0, 'transitions': tot('forks') + states, 'traces_validated_against_impl': valid['ok'], 'samples': samples,
            'explanation': 'states = symbolic paths executed to their end; transitions = path forks plus path ends; each path stands for all values of its symbolic inputs; traces_validated_against_impl = solver-chosen concrete inputs of explored paths run through the natively compiled code with the same outcome',
            'bounds': c.get('bounds', ''), 'outside': c.get('outside', ''), 'functions_encoded': funcs, 'ir_instructions_executed': tot('instrs'),
            'queries': {'total': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'solver_seconds': round(tot('solver_s'), 2), 'libm_refinements': tot('refinements')},
            'assertions': {'instances': tot('checks'), 'decided_by_solver': tot('checks_solver'), 'decided_by_constant_folding': tot('checks_concrete') + tot('checks_syntactic'), 'no_verdict': tot('inconclusive')},
            'real_arithmetic': {'ops': tot('real_ops'), 'ops_possibly_rounded': tot('real_ops_maybe_rounded')},
            'memory_accesses_checked': tot('mem_accesses'), 'race_checks': tot('race_checks'), 'schedule_points': tot('sched_points'), 'schedule_forks': tot('sched_forks'),
            'paths': {k: paths(k) for k in ('ok', 'exit', 'assume_false', 'limit', 'unsupported', 'violation')}, 'reachability_witnesses': cover,
            'jobs': {j['name']: ({'entry': j['e'], 'harness': j['h'], 'variant': j.get('variant', 'std'), 'params': j.get('p', {}), 'complete': not results[j['name']]['timed_out'] and not results[j['name']]['fatal'] and not results[j['name']]['unsupported'] and not results[j['name']]['paths']['limit'], 'paths': results[j['name']]['paths'], 'wall_s': round(results[j['name']]['wall_s'], 2)} if results.get(j['name']) else 'not run') for j in jobs},
            'not_decided': notes, 'validation_disagreements': vnotes}}
    EV = os.environ.get('VERIF_EVIDENCE', ROOT + '/evidence'); os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(EV + '/%s.json' % prop, 'w'), indent=1)
    grp = {}
    for n in notes + vnotes:
        m = re.match(r'job (\S+): (.*)', n, re.S); grp.setdefault(m.group(2) if m else n, []).append(m.group(1) if m else '')
    for n, js in grp.items(): print('note: %s [%s]' % (n[:400].replace('\n', ' '), ' '.join(js[:6]) + (' +%d more' % (len(js) - 6) if len(js) > 6 else '')))
    for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for d, rp, name in found: print('violation in job %s: %s' % (name, d)); print('VIOLATION property=%s replay=%s' % (prop, rp))
    print('%s %s: %d jobs, %d paths, %d assertion instances, %d queries (%d unknown), solver %.1fs, wall %.1fs' % (prop, tier, len(jobs), states, tot('checks'), tot('queries'), tot('unknown'), tot('solver_s'), time.time() - t0))
    sys.exit(1 if found else 0)
COMMON_ASSUMPTIONS = [
    'clang 18 lowers the C++ sources to LLVM IR faithfully (the IR of the current /repo sources is what is executed); the executor in engine/ and z3 are trusted',
    'random engines are replaced by a model in which every distribution draw is an arbitrary value of its range, keyed by (engine identity, draw index)',
    'symbolic real inputs: arithmetic on them is exact real arithmetic; the count of operations on which IEEE rounding could differ is reported',
]
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except Exception as e:
        import traceback; traceback.print_exc(); sys.exit(0 if os.environ.get('VERIF_SOFT') else 2)
