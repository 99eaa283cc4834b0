#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

    check.py PROPERTY [--tier quick|thorough] [--only REGEX]

Exit 0: every check held on every path within the bounds.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: no verdict.
"""
import argparse, collections, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, time
from props import PROPS, ASSUME

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
WORK = os.path.join(HERE, 'work')
TARGET = 'x86_64-unknown-linux-gnu'
T0 = time.time()
TOOLCHAIN = 'nightly'

def log(*a): print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)
def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTDOCFLAGS'): e.pop(k, None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    e.update(kw)
    return e
def sh(cmd, cwd, e, logf):
    with open(logf, 'w') as f:
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT).returncode

class Fail(Exception): pass
class NoCompile(Exception): pass

def fresh(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

def build_engine():
    d = os.path.join(WORK, 'engine')
    os.makedirs(d, exist_ok=True)
    if sh(['cargo', 'build', '--release', '--offline', '--target-dir', d], os.path.join(HERE, 'engine'), env(), os.path.join(WORK, 'engine.log')):
        raise Fail('the engine does not build: see ' + os.path.join(WORK, 'engine.log'))
    return os.path.join(d, 'release/msym')

def build_ir(src, features, tag):
    """Compile the harness with /repo's crates, their dependencies and std to LLVM IR."""
    d = fresh('ir' + tag)
    e = env(RUSTFLAGS='--emit=llvm-ir -Ccodegen-units=1 -Cdebuginfo=0 -Copt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Zthreads=8', CARGO_INCREMENTAL='0')
    lg = os.path.join(WORK, 'ir%s.log' % tag)
    if sh(['cargo', '+' + TOOLCHAIN, 'build', '--offline', '-Zbuild-std=std,panic_unwind', '--target', TARGET, '--target-dir', d, '--features', features], src, e, lg):
        raise NoCompile(lg)
    l = [f for f in glob.glob(d + '/**/*.ll', recursive=True) if '/' + TARGET + '/' in f and 'panic_abort' not in f]
    if not any('mharness' in f for f in l) or not any('/std-' in f for f in l): raise Fail('no LLVM IR was produced')
    return sorted(l)

def build_native(src, features, tag, release=False):
    d = os.path.join(WORK, 'native' + tag)
    lg = os.path.join(WORK, 'native%s.log' % tag)
    cmd = ['cargo', '+' + TOOLCHAIN, 'rustc', '--offline', '--target-dir', d, '--features', features + ' replay', '--lib', '--crate-type', 'cdylib']
    if release: cmd.append('--release')
    if sh(cmd + ['--', '-Cdebuginfo=0'], src, env(CARGO_INCREMENTAL='0'), lg): raise NoCompile(lg)
    return os.path.join(d, 'release' if release else 'debug', 'libmharness.so')

def explore(msym, lls, hs, tag, time_each, total, opts):
    out = fresh('out' + tag)
    cmd = [msym] + lls + ['--pool', str(os.cpu_count() or 8), '--split', '4', '--slice', '15', '--time', str(time_each), '--total', str(max(1, int(total))), '--out', out] + opts
    for h in hs: cmd += ['--harness', h]
    with open(os.path.join(WORK, 'pool%s.log' % tag), 'w') as f:
        r = subprocess.run(cmd, stdout=f, stderr=f)
    if r.returncode: raise Fail('the engine failed (%d): see %s' % (r.returncode, os.path.join(WORK, 'pool%s.log' % tag)))
    res = []
    for h in hs:
        m = dict(h=h, covers=collections.Counter(), violations=[], errors=[], witnesses=[], functions=set(), n=collections.Counter(), mx=collections.Counter())
        fs = glob.glob('%s/%s.*.json' % (out, h))
        if not fs: m['errors'].append('no result')
        for f in fs:
            for l in open(f):
                d = json.loads(l)
                for k, v in d.get('covers', {}).items(): m['covers'][k] += v
                m['violations'] += d.get('violations', [])
                m['errors'] += d['errors']
                m['witnesses'] += d.get('witnesses', [])
                m['functions'] |= {tuple(x) for x in d.get('functions', [])}
                for k, v in d.items():
                    if isinstance(v, (int, float)):
                        if k.startswith('max_'): m['mx'][k] = max(m['mx'][k], v)
                        else: m['n'][k] += v
        m['vacuous'] = [] if m['errors'] or m['violations'] else [k for k, v in m['covers'].items() if v == 0]
        if not m['covers'] and not m['errors'] and not m['violations']: m['vacuous'] = ['(no situation declared)']
        res.append(m)
    return res

def text(v): return '\n'.join('%s %s' % (n, x) for n, _, x in v['inputs'] if not n.startswith('sched_'))

def native(lib, h, v, times, timeout):
    """Does the native build violate something on these inputs?"""
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'replay_native.py'), lib, 'run', h, str(times), os.environ.get('VERIF_SEED', '1')],
                           input=text(v), capture_output=True, text=True, timeout=timeout, cwd=WORK)
    except subprocess.TimeoutExpired:
        return 'hang', 'still running after %d s' % timeout
    m = re.search(r'^REPLAY-VIOLATION (.*)$', r.stdout, re.M)
    if m: return 'violation', m.group(1)
    if r.returncode < 0: return 'died', 'killed by signal %d' % -r.returncode
    return None, 'exit %d' % r.returncode

def concrete(msym, lls, h, v):
    """Concrete re-execution of the compiled code, schedule included."""
    r = subprocess.run([msym] + lls + ['--harness', h, '--time', '120', '--inputs', ','.join(x for _, _, x in v['inputs'])], capture_output=True, text=True)
    for l in r.stdout.splitlines():
        if l.startswith('{'):
            d = json.loads(l)
            for w in d.get('violations', []):
                if w['msg'] == v['msg']: return True
    return False

def reproduce(msym, lls, lib, librel, h, v):
    sched = any(n.startswith('sched_') for n, _, _ in v['inputs'])
    k, what = native(lib, h, v, 1, 30)
    if k in ('violation', 'died') or (k == 'hang' and ('deadlock' in v['msg'] or 'step limit' in v['msg'])):
        rel = None
        try:
            if librel: rel = native(librel(), h, v, 1, 30)[1]
        except NoCompile: rel = 'release build failed'
        return 'native build: %s; release build: %s' % (what, rel)
    # The encoded code has no debug assertions, as in a release build
    try:
        k, what = native(librel(), h, v, 1, 30)
        if k in ('violation', 'died') or (k == 'hang' and ('deadlock' in v['msg'] or 'step limit' in v['msg'])): return 'release build (not in a debug build): %s' % what
    except NoCompile: pass
    if sched:
        k, what = native(lib, h, v, 20000, 45)
        if k in ('violation', 'died') or (k == 'hang' and 'deadlock' in v['msg']): return 'native build under stress: %s' % what
    # A schedule, or an invalid memory access, which a native run does not show reliably
    if sched or re.search(r'out of bounds|use after free|double free|uninit|invalid|null|misalign|free of|dangling|alloc', v['msg']):
        if concrete(msym, lls, h, v): return 'concrete re-execution of the compiled code%s' % (' under the recorded schedule' if sched else '')
    return None

def known():
    l = []
    for line in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) harness=(\S+) msg="([^"]*)" what=(.*)$', line.strip())
        if m: l.append(m.groups())
    return l

def batch(lib, wit):
    """Replay sample paths of the engine natively and compare what they reach."""
    parts = [wit[i::8] for i in range(8)]
    def one(p):
        if not p: return []
        r = subprocess.run([sys.executable, os.path.join(HERE, 'replay_native.py'), lib, 'batch'], input='\n'.join(json.dumps(x) for x in p), capture_output=True, text=True, cwd=WORK)
        l = [json.loads(x) for x in r.stdout.splitlines() if x.startswith('{')]
        if len(l) != len(p): raise Fail('native replay of sample paths died: ' + r.stderr[-300:])
        return l
    with cf.ThreadPoolExecutor(8) as ex: return [x for l in ex.map(one, parts) for x in l]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    a = ap.parse_args()
    pid = a.property
    P = PROPS[pid]
    quick = a.tier != 'thorough'
    budget = 780 if quick else P.get('budget', 7200)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    src = os.path.join(WORK, 'src')
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, 'harness'), src, ignore=shutil.ignore_patterns('target'))
    for cmd in P.get('prepare', []): subprocess.run(cmd, cwd=src, check=True)
    feats = P['features']
    runs = [('', feats, r'h_%s_' % pid.lower() if quick else r'h_%sd?_' % pid.lower())]
    if P.get('nightly') == 'all': runs.append(('n', feats + ' nightly', runs[0][2]))
    elif P.get('nightly'): runs.append(('n', feats + ' nightly', r'h_%sn_' % pid.lower() if quick else r'h_%s[dn]?_' % pid.lower()))
    elif not quick and not P.get('own_source'): runs.append(('n', feats + ' nightly', r'h_%s_' % pid.lower()))
    ex = cf.ThreadPoolExecutor(8)
    eng = ex.submit(build_engine)
    irs = {t: ex.submit(build_ir, src, f, t) for t, f, _ in runs}
    nat = {t: ex.submit(build_native, src, f, t) for t, f, _ in runs}
    violations, errors, results, seen_known = [], [], [], []
    msym = eng.result()
    log('engine built')
    try:
        for i, (t, f, rx) in enumerate(runs):
            lls = irs[t].result()
            hs = subprocess.run([msym] + lls + ['--list'], capture_output=True, text=True, check=True).stdout.split()
            hs = [h for h in hs if re.match(rx, h) and (not a.only or re.search(a.only, h))]
            if not hs: raise Fail('no harness')
            hs.sort(key=lambda h: 'very_far' not in h)
            log('%d harnesses%s' % (len(hs), ' (nightly feature)' if t else ''))
            left = budget - (time.time() - T0)
            for m in explore(msym, lls, hs, t, P.get('time_each', 600 if quick else 3600), left / (len(runs) - i), P.get('opts', [])):
                m['run'] = t
                results.append(m)
            log('explored')
    except NoCompile as e:
        lg = e.args[0]
        if not repo_compiles_alone(): raise Fail('/repo does not compile')
        if P.get('own_source'): raise Fail('the source cannot be built as a module: see ' + lg)
        for t in irs:
            try: nat[t].result()
            except NoCompile as e2:
                p = os.path.join(HERE, 'evidence', 'replay-%s-compile.log' % pid)
                shutil.copy(e2.args[0], p)
                print('A program using the documented API no longer compiles (see the log)')
                print('VIOLATION property=%s replay=%s' % (pid, p))
                evidence(pid, P, a, quick, [], 0, 0, 1, [])
                return 1
        raise Fail('the harness does not compile to LLVM IR: see ' + lg)
    libs = {}
    def lib(t):
        if t not in libs: libs[t] = nat[t].result()
        return libs[t]
    rel = {}
    def librel(t):
        if t not in rel: rel[t] = build_native(src, dict((r[0], r[1]) for r in runs)[t], t, release=True)
        return rel[t]
    kn = known()
    # Violations: one of each message, replayed before it is reported
    groups = collections.OrderedDict()
    for m in results:
        for v in m['violations']:
            k = [x for x in kn if x[0] == pid and re.fullmatch(x[1], m['h']) and x[2] == v['msg']]
            if k: seen_known.append((k[0], m['h'])); continue
            groups.setdefault(v['msg'], []).append((m, v))
        for e in m['errors']: errors.append('%s: %s' % (m['h'], e))
        for c in m['vacuous']: errors.append('%s: never reached: %s' % (m['h'], c))
    reported = 0
    for msg, l in list(groups.items())[:6]:
        ok = None
        for m, v in l[:3]:
            t = m['run']
            lls = irs[t].result()
            ok = reproduce(msym, lls, lib(t), lambda: librel(t), m['h'], v)
            if ok: break
        log('violation "%s" in %d harness(es), e.g. %s: %s' % (msg, len(l), m['h'], ok or 'NOT REPRODUCED'))
        if ok:
            reported += 1
            p = os.path.join(HERE, 'evidence', 'replay-%s-%d.json' % (pid, reported))
            json.dump(dict(property=pid, harness=m['h'], message=msg, inputs=v['inputs'], trace=v['trace'], reproduced=ok,
                           features=dict((r[0], r[1]) for r in runs)[t], harnesses=[x[0]['h'] for x in l],
                           how='python3 /verif/replay.py ' + p), open(p, 'w'), indent=1)
            print('%s: %s (inputs: %s) [%s]' % (m['h'], msg, ', '.join('%s=%s' % (n, x) for n, _, x in v['inputs']), ok))
            print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
        else: errors.append('%s: counterexample not reproduced: %s' % (m['h'], msg))
    for x in kn:
        if x[0] == pid:
            hs = sorted(h for k, h in seen_known if k == x)
            if hs: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, x[3], ', '.join(hs)))
    # The encoding against the real code: sample paths run natively
    wits = 0
    if not reported:
        for t, _, _ in runs:
            w = [dict(h=m['h'], inputs=x['inputs'], trace=x['trace']) for m in results if m['run'] == t for x in m['witnesses']]
            for r in batch(lib(t), w):
                if r['bad']: errors.append('%s: the native run differs from the encoding: %s' % (r['h'], r['bad']))
                else: wits += 1
        log('%d sample paths agree with the native build' % wits)
    evidence(pid, P, a, quick, results, wits, len(groups), reported, seen_known)
    if reported: return 1
    if errors:
        for e in errors[:20]: print('NO VERDICT: ' + e[:800])
        print('%d error(s)' % len(errors))
        return 2
    return 0

def repo_compiles_alone():
    d = os.path.join(WORK, 'alone')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/src')
    open(d + '/src/lib.rs', 'w').write('')
    toml = open(os.path.join(HERE, 'harness/Cargo.toml')).read()
    open(d + '/Cargo.toml', 'w').write(re.sub(r'\[lib\]\ncrate-type.*\n', '', toml))
    shutil.copy(os.path.join(HERE, 'harness/Cargo.lock'), d)
    return sh(['cargo', '+' + TOOLCHAIN, 'check', '--offline', '--target-dir', d + '/target'], d, env(), os.path.join(WORK, 'alone.log')) == 0

def evidence(pid, P, a, quick, results, wits, nv, reported, seen_known):
    n, mx = collections.Counter(), collections.Counter()
    fns = set()
    for m in results:
        n.update(m['n'])
        for k, v in m['mx'].items(): mx[k] = max(mx[k], v)
        fns |= m['functions']
    crates = collections.Counter(re.sub(r'-[0-9a-f]{16}.*', '', os.path.basename(mod)) for _, mod in fns)
    lib = sorted({f for f, mod in fns if re.match(r'mockall', os.path.basename(mod))})
    gen = sorted({f for f, mod in fns if 'mharness' in os.path.basename(mod) and re.search(r'Mock|__mock', f)})
    samples = [dict(harness=m['h'], inputs={x[0]: x[2] for x in w['inputs']}, reached=w['trace']) for m in results for w in m['witnesses'][-1:]][:5]
    for m in results:
        if len(samples) >= 5: break
        if not m['witnesses']: samples.append(dict(harness=m['h'], situations=dict(m['covers'])))
    cov = dict(
        states=n['paths'] + n['infeasible'],
        transitions=n['branches'] + n['schedules'],
        traces_validated_against_impl=wits,
        samples=samples,
        paths_explored=n['paths'], paths_infeasible=n['infeasible'], harnesses=len(results),
        instructions_executed=n['steps'], checks_evaluated=n['checks'], checks_decided_by_solver=n['checks_solver'],
        scheduler_choices=n['schedules'], solver_queries=n['queries'], solver_sat=n['sat'], solver_unsat=n['unsat'],
        solver_cache_hits=n['cache_hits'], solver_seconds=round(n['solver_s'], 2), longest_path_instructions=mx['max_steps'],
        most_symbolic_inputs_on_a_path=mx['max_inputs'], symbolic_integers_formatted_abstractly=n['abstracted_fmt'],
        situations={k: v for k, v in sum((m['covers'] for m in results), collections.Counter()).items()},
        functions_encoded=len(fns), functions_encoded_by_crate=dict(crates),
        functions_of_mockall=lib[:400], functions_generated_by_the_macros=len(gen), functions_generated_examples=gen[:60],
        bounds=P['bounds'] if quick else P['bounds'] + ' Thorough tier: ' + P.get('deep', 'the same harnesses, also with the nightly feature.'),
        known_findings_seen=sorted({h for _, h in seen_known}),
    )
    e = dict(property=pid, tier='quick' if quick else 'thorough', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov,
             assumptions=ASSUME + P.get('assume', []), wall_s=round(time.time() - T0, 1), violations=reported)
    json.dump(e, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    try: rc = main()
    except Fail as e:
        print('NO VERDICT:', e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
