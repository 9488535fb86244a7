#!/usr/bin/env python3-vt
"""Decide one property: extract the code, discharge every obligation, replay failures."""
import sys, os
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, subprocess, importlib, hashlib, shutil, tempfile
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
ASTX = os.path.join(BUILD, 'astx')
INCS = ['-I' + REPO + '/src', '-I' + REPO + '/src/Io', '-I' + REPO + '/src/Ainur', '-I' + REPO + '/loki/..', '-I/usr/include/hdf5/serial']
DEFS = ['-DHDF_NO_NAMESPACE', '-DNO_STATIC_CAST', '-DOLD_HEADER_FILENAME', '-DUSE_BOOST', '-DUSE_PTHREADS']
CLANG = ['-fno-access-control', '-std=gnu++17', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
LIBS = ['-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5', '-lcrypto', '-lcurl', '-lpthread', '-lsz', '-lz', '-ldl', '-lm', '-lblas', '-llapack']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
# wall-clock caps per contract (the caps decide nothing but "undecided")
CAP = 420 if TIER == 'quick' else 1500

def build_astx():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'tools', 'astx.cpp')
    stamp = os.path.join(BUILD, 'astx.stamp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(ASTX) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = ASTX + '.%d' % os.getpid()
    subprocess.check_call(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'])
    os.replace(tmp, ASTX)
    open(stamp, 'w').write(h)

def extract(tu, work):
    out = os.path.join(work, tu + '.json')
    p = subprocess.run([ASTX, out, '^vroot::', os.path.join(HERE, 'tu', tu), '--'] + INCS + DEFS + CLANG, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, (p.stderr or p.stdout)[:4000]
    return out, ''

_irs = {}
def _job(a):
    from vc import contract as K
    idx, path, prop, cap, names = a[:5]
    from vc.engine import Engine
    Engine.SEED0 = a[5] if len(a) > 5 else 0
    if path not in _irs:
        _irs[path] = json.load(open(path))
    c = K.REG[prop][idx]
    r = K.run_contract(c, _irs[path], deadline=cap, base=names)
    d = dict(r.__dict__)
    return idx, d

def harness_build(name, work):
    src = os.path.join(HERE, 'harness', name)
    if not os.path.exists(src):
        return None, 'no harness'
    exe = os.path.join(work, name + '.exe')
    head = open(src).read(400)
    extra = LIBS if 'LINK: psimaglite' in head else ['-lpthread', '-lblas', '-llapack']
    # the few non-header sources, compiled from the current tree
    srcs = [l.split(':', 1)[1].split() for l in head.split('\n') if l.startswith('// SRC:')]
    extra = [os.path.join(REPO, x) for s in srcs for x in s] + extra
    p = subprocess.run(['g++', '-std=c++17', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all',
                        '-D_GLIBCXX_ASSERTIONS'] + INCS + DEFS + ['-I' + os.path.join(HERE, 'harness'), src, '-o', exe] + extra,
                       capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[:4000]
    return exe, ''

def harness_run(exe, funcs, work, seconds, models=''):
    """-> (failing output or None, info)"""
    env = dict(os.environ, VERIF_SEED=str(SEED), ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
    cwd = tempfile.mkdtemp(prefix='h', dir=work)
    try:
        p = subprocess.run([exe, str(seconds)] + funcs, capture_output=True, text=True, errors='replace', cwd=cwd, env=env, timeout=seconds * len(funcs) + 120)
    except subprocess.TimeoutExpired as ex:
        return None, 'harness timed out'
    if p.returncode == 0:
        return None, p.stdout[-2000:]
    return 'exit %d\n%s\n%s' % (p.returncode, p.stdout[-6000:], p.stderr[-3000:]), ''

def main():
    if sys.argv[1] == '--setup':
        build_astx()
        return
    prop = sys.argv[1]
    t0 = time.time()
    from contracts.index import PROPS
    from vc import contract as K
    cfg = PROPS[prop]
    build_astx()
    work = tempfile.mkdtemp(prefix='run_%s_' % prop, dir=BUILD)
    rc = 1
    try:
        rc = run(prop, cfg, K, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(prop, cfg, K, work, t0):
    for m in cfg['modules']:
        importlib.import_module('contracts.' + m)
    cs = K.REG.get(prop, [])
    seen = set()
    irs, irerr = {}, {}
    for tu in sorted(set(c.tu for c in cs)):
        irs[tu], irerr[tu] = extract(tu, work)
    try:
        names = json.load(open(os.path.join(HERE, 'contracts', 'names.json')))
    except Exception:
        names = {}
    jobs, results = [], {}
    for i, c in enumerate(cs):
        if TIER == 'quick' and c.opts.get('thorough_only'):
            continue
        if irs[c.tu] is None:
            r = K.Result(c)
            r.status, r.reason = 'unsupported', 'the translation unit %s no longer compiles against the current tree: %s' % (c.tu, irerr[c.tu][:600])
            results[i] = dict(r.__dict__)
        else:
            jobs.append((i, irs[c.tu], prop, CAP, names))
    # longest first
    try:
        tm = json.load(open(os.path.join(HERE, 'contracts', 'times.json')))
    except Exception:
        tm = {}
    jobs.sort(key=lambda j: -tm.get(cs[j[0]].root, 5))
    if jobs:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(JOBS, len(jobs)), maxtasksperchild=4) as pool:
            pend = [(j[0], pool.apply_async(_job, (j,))) for j in jobs]
            end = time.time() + (760 if TIER == 'quick' else 3000)
            for i, a in pend:
                try:
                    _, d = a.get(timeout=max(1, min(end - time.time(), CAP + 60)))
                    results[i] = d
                except mp.TimeoutError:
                    r = K.Result(cs[i])
                    r.status, r.reason = 'unsupported', 'time limit'
                    results[i] = dict(r.__dict__)
            pool.terminate()
    nobl = sum(r['nobl'] for r in results.values())
    ndis = sum(r['ndis'] for r in results.values())
    failed = [(i, r) for i, r in sorted(results.items()) if r['status'] == 'failed']
    undec = [(i, r) for i, r in sorted(results.items()) if r['status'] == 'unsupported']
    proved = [(i, r) for i, r in sorted(results.items()) if r['status'] == 'proved']
    known = load_known(prop)
    violations = []
    bounded = []
    hinfo = {}
    need = {}
    # bounded stand-ins registered for this property run every time
    for h, funcs in cfg.get('bounded', {}).items():
        need.setdefault(h, set()).update(funcs)
    for i, r in failed + undec:
        h = cs[i].opts.get('harness') or cfg.get('harness')
        for f in (cs[i].opts.get('hfuncs') or [cs[i].root.split('::')[-1]]):
            if h:
                need.setdefault(h, set()).add(f)
    houts = {}
    secs = 12 if TIER == 'quick' else 90
    hpool = ThreadPoolExecutor(JOBS)
    built = {h: hpool.submit(harness_build, h, work) for h in sorted(need)}
    runs = {}
    for h, funcs in sorted(need.items()):
        exe, err = built[h].result()
        if exe is None:
            hinfo[h] = 'harness did not build: ' + err[:1500]
            for f in funcs:
                houts[(h, f)] = (None, hinfo[h])
            continue
        for f in sorted(funcs):
            runs[(h, f)] = hpool.submit(harness_run, exe, [f], work, secs)
    for k, fu in runs.items():
        houts[k] = fu.result()
    hpool.shutdown()
    # a failure without a failing input may be a search that ran out of its budget: the whole contract gets further attempts
    def hkeys(i): return [(cs[i].opts.get('harness') or cfg.get('harness'), f) for f in (cs[i].opts.get('hfuncs') or [cs[i].root.split('::')[-1]])]
    retried = 0
    for seed0 in (100, 200):
        again = [i for i, r in failed if not any(houts.get(k, (None, ''))[0] for k in hkeys(i))]
        left = (800 if TIER == 'quick' else 3000) - (time.time() - t0)
        if not again or left < 60:
            break
        with mp.get_context('fork').Pool(min(JOBS, len(again)), maxtasksperchild=1) as pool:
            end = time.time() + min(left - 30, 330)
            pend = [(i, pool.apply_async(_job, ((i, irs[cs[i].tu], prop, min(CAP, 300), names, seed0),))) for i in again]
            for i, a in pend:
                retried += 1
                try:
                    _, d = a.get(timeout=max(1, end - time.time()))
                    if d['status'] == 'proved':
                        results[i] = d
                except mp.TimeoutError:
                    pass
            pool.terminate()
        failed = [(i, r) for i, r in sorted(results.items()) if r['status'] == 'failed']
    proved = [(i, r) for i, r in sorted(results.items()) if r['status'] == 'proved']
    nobl = sum(r['nobl'] for r in results.values())
    ndis = sum(r['ndis'] for r in results.values())
    rep_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    done = set()
    def replay(tag, text):
        p = os.path.join(rep_dir, '%s_%s.txt' % (prop, tag))
        open(p, 'w').write(text)
        return p
    for i, r in failed:
        h = cs[i].opts.get('harness') or cfg.get('harness')
        fs = cs[i].opts.get('hfuncs') or [cs[i].root.split('::')[-1]]
        outs = [(f, houts.get((h, f), (None, ''))) for f in fs]
        txt = 'property %s\ncontract %s (%s)\n' % (prop, r['root'], r['title'])
        for f in r['failed'][:12]:
            txt += '\nFAILED OBLIGATION: %s\n  kind %s at %s\n  verifier answer: %s\n  path: %s\n  goal: %s\n' % (f['name'], f['kind'], f['loc'], f['status'], f['path'], f['goal'])
            if f['model']:
                txt += '  verifier counterexample (initial state):\n' + '\n'.join('    ' + l for l in f['model'].split('\n')) + '\n'
        bad = [(f, o) for f, o in outs if o[0]]
        for f, o in bad:
            done.add((h, f))
            txt += '\nREPLAY ON THE REAL CODE (harness %s, function %s): failing input\n%s\n' % (h, f, o[0])
        if not bad:
            txt += '\nReplay on the real code: no failing input found. ' + '; '.join(o[1][-300:] for f, o in outs) + '\n'
        violations.append((r['root'].split('::')[-1], bool(bad), txt, [o[0] for f, o in bad]))
    for (h, f), o in sorted(houts.items()):
        if o[0] and (h, f) not in done:
            txt = 'property %s\nbounded check of %s (harness %s) on the real code\n%s\n' % (prop, f, h, o[0])
            violations.append((f, True, txt, [o[0]]))
        elif not o[0]:
            bounded.append({'function': f, 'harness': h, 'result': o[1].strip()[-400:]})
    status = 0
    nv = 0
    for tag, concrete, txt, outs in violations:
        kf = [k for k in known if k['match'] and all(k['match'] in o for o in outs) and outs]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[0]['what']))
            continue
        p = replay(tag, txt)
        nv += 1
        status = 1
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if concrete else ' no-failing-input-found'))
    # known findings are reported on every run
    for k in known:
        pass
    back, kinds, trusted, assumed, inl, specs = {}, {}, set(), set(), set(), set()
    solver = 0.0
    for r in results.values():
        for k, v in r['backends'].items():
            back[k] = back.get(k, 0) + v
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
        trusted.update(r['trusted']); assumed.update(r['assumed']); inl.update(r['inlined']); specs.update(r['specs'])
        solver += r['solver']
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': ['clang 18 front end and tools/astx.cpp (AST export)', 'vc/engine.py + vc/models.py (VC generation, library models)', 'z3, cvc5'] +
            ['standard library contract: ' + t for t in sorted(trusted)] + ['callee contract (proved under its own root): ' + s for s in sorted(specs)],
        'functions_under_contract': [{'root': r['root'], 'title': r['title'], 'status': r['status'], 'obligations': r['nobl'], 'discharged': r['ndis'],
                                      'loops': len(r['loops']), 'wall_s': round(r['time'], 2), 'reason': r['reason']} for i, r in sorted(results.items())],
        'functions_verified_inline': sorted(inl),
        'obligations_by_kind': kinds, 'discharged_by_backend': back, 'solver_s': round(solver, 2),
        'contract_attempts_repeated_with_other_seeds': retried, 'contracts_proved': len(proved), 'contracts_failed': len(failed), 'contracts_undecided': len(undec),
        'bounded_stand_ins (not counted as proved)': bounded,
        'samples': [r['title'] for i, r in proved[:5]],
    }
    lvl = cfg.get('level', 'proof')
    if lvl == 'other' or not results:
        cov['explanation'] = cfg.get('explanation', '')
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': lvl, 'coverage': cov,
          'assumptions': ASSUME + cfg.get('assumptions', []) + sorted(assumed), 'wall_s': round(time.time() - t0, 2), 'violations': nv}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d contracts proved, %d failed, %d undecided; %d/%d obligations discharged; %d bounded stand-ins; %.1f s' % (
        prop, len(proved), len(failed), len(undec), ndis, nobl, len(bounded), time.time() - t0))
    for i, r in undec:
        print('  undecided (bounded stand-in used): %s: %s' % (r['root'], r['reason'][:200]))
    for h, m in hinfo.items():
        print('  ' + h + ': ' + m[:300])
    return status

ASSUME = ['real and complex arithmetic is exact (floating-point rounding, infinities and NaN are not modelled)',
          'distinct reference parameters of a function under contract do not alias unless the contract says so',
          'template code is verified at the instantiations in tu/*.cpp (element type double unless stated)',
          'memory allocation succeeds; output streams have no effect on the verified state']

def load_known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                m, _, what = rest.partition(' :: ')
                out.append({'match': m.replace('match=', '', 1), 'what': what})
    return out

if __name__ == '__main__':
    main()
