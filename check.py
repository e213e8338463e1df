#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--unit NAME]

Decides one property of properties.jsonl on /repo's current working tree:
  1. compiles the property's harnesses together with /repo's headers to LLVM IR (fresh on every run),
  2. executes every unit symbolically with build/fnsym (z3 decides every branch and every assertion),
  3. replays models natively: a few complete paths per unit must behave as the encoding says (conformance), and a
     counterexample is only reported when the real code, compiled by a real compiler, shows the violation,
  4. writes evidence/PROPERTY.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself could not decide."""
import os, sys, re, json, hashlib, time, shutil, subprocess, fcntl, threading, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VF_REPO', '/repo'); B = V + '/build'
LL = '/usr/lib/llvm-18/bin/'
sys.path.insert(0, V)
import units as U

def sh(cmd, timeout=900, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode('utf8', 'replace')

def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(['make', '-s', '-C', V + '/engine', '-j6'], 600)
        if rc: raise RuntimeError('engine build failed\n' + out[-3000:])
        if not os.path.exists(B + '/native_rt.o') or os.path.getmtime(B + '/native_rt.o') < max(os.path.getmtime(V + '/harness/native_rt.cpp'), os.path.getmtime(V + '/harness/vf.h')):
            rc, out = sh(['g++', '-std=c++17', '-O1', '-g', '-c', V + '/harness/native_rt.cpp', '-o', B + '/native_rt.o'])
            if rc: raise RuntimeError('native_rt build failed\n' + out[-3000:])

def wraps(harness, engine_mode):
    names = set()
    for f in ('env.h', harness):
        t = open(V + '/harness/' + f).read()
        if not engine_mode: t = re.sub(r'#ifdef VF_ENGINE\n(.*?)#endif', lambda m: (m.group(1).split('#else', 1)[1] if '#else' in m.group(1) else ''), t, flags=re.S)
        names |= set(re.findall(r'__wrap_(\w+)\s*\(', t))
    return ['-Wl,--wrap=' + n for n in sorted(names)]

class Ctx:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier; s.dir = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=B); s.locks = {}; s.mu = threading.Lock(); s.t0 = time.time()
    def once(s, key, fn):
        with s.mu: l = s.locks.setdefault(key, [threading.Lock(), None])
        with l[0]:
            if l[1] is None:
                try: l[1] = ('ok', fn())
                except Exception as x: l[1] = ('err', x)
        if l[1][0] == 'err': raise l[1][1]
        return l[1][1]
    def name(s, u): return re.sub(r'\W+', '_', u.harness) + '_' + hashlib.md5(' '.join(u.defines).encode()).hexdigest()[:8]
    def ir(s, u):
        def f():
            o = s.dir + '/' + s.name(u)
            rc, out = sh([LL + 'clang++', '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=shift-exponent', '-fsanitize-trap=shift-exponent', '-DVF_ENGINE', '-I' + REPO + '/src/include', '-I' + V + '/harness', '-S', '-emit-llvm', V + '/harness/' + u.harness, '-o', o + '.0.ll', '-w'] + ['-D' + d for d in u.defines])
            if rc: raise RuntimeError('cannot compile %s against the current tree:\n%s' % (u.harness, out[-3000:]))
            rc, out = sh([LL + 'opt', '-S', '-passes=lowerinvoke,function(simplifycfg,sroa,early-cse,simplifycfg)', o + '.0.ll', '-o', o + '.ll'])
            if rc: raise RuntimeError('opt failed: ' + out[-2000:])
            os.remove(o + '.0.ll'); return o + '.ll'
        return s.once(('ir', s.name(u)), f)
    SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,signed-integer-overflow,alignment,null', '-fno-omit-frame-pointer']
    def native(s, u, fill):
        """native binary of the harness; fill: '' | 'pattern' | 'zero' for automatic variables"""
        def f():
            o = s.dir + '/' + s.name(u) + '.' + (fill or 'n') + ('t' if u.threads else '')
            if u.threads:
                rc, out = sh([B + '/fnsym', s.ir(u), '--instrument', o + '.ll'] + U.COMMON_OPTS)
                if rc: raise RuntimeError('instrument failed: ' + out[-2000:])
                rc, out = sh([LL + 'clang++', '-O0', '-g', '-c', '-x', 'ir', o + '.ll', '-o', o + '.o', '-w'])
                if rc: raise RuntimeError('native compile of instrumented IR failed: ' + out[-2000:])
                rc, out = sh(['g++', '-rdynamic', '-no-pie', o + '.o', B + '/native_rt.o', '-o', o, '-lpthread', '-ldl'] + wraps(u.harness, True))
            else:
                fl = {'': [], 'pattern': ['-ftrivial-auto-var-init=pattern'], 'zero': ['-ftrivial-auto-var-init=zero']}[fill]
                rc, out = sh([LL + 'clang++', '-std=c++11', '-O0', '-g1', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO + '/src/include', '-I' + V + '/harness', '-c', V + '/harness/' + u.harness, '-o', o + '.o', '-w'] + Ctx.SAN + fl + ['-D' + d for d in u.defines])
                if rc: raise RuntimeError('native compile failed: ' + out[-3000:])
                rc, out = sh([LL + 'clang++', '-rdynamic', o + '.o', B + '/native_rt.o', '-o', o, '-lpthread', '-ldl'] + Ctx.SAN + wraps(u.harness, False))
            if rc: raise RuntimeError('native link failed: ' + out[-3000:])
            return o
        return s.once(('nat', s.name(u), fill, u.threads), f)
    def run_native(s, u, inputs, path, fill='', san_fill=None, timeout=60):
        exe = s.native(u, fill)
        with open(path, 'w') as f:
            for k, v in inputs.items(): f.write('%s %s\n' % (k.replace('\n', ' '), v))
        env = {'VF_INPUTS': path, 'TZ': 'UTC', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:abort_on_error=0' + (':max_malloc_fill_size=1000000:malloc_fill_byte=%d' % san_fill if san_fill is not None else ''), 'UBSAN_OPTIONS': 'print_stacktrace=0', 'MALLOC_PERTURB_': str(san_fill or 0)}
        return sh([exe, u.entry], timeout, env)

def strip_uninit(inp): return {k: v for k, v in inp.items() if not k.startswith('uninit:')}

def replay(ctx, u, v, n):
    """does the real code show the violation? returns (reproduced, replay dir, text)"""
    d = B + '/replay/%s-%s-%d' % (ctx.prop, u.name, n); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    inp = strip_uninit(v['inputs']); log = []
    json.dump({'property': ctx.prop, 'unit': u.name, 'harness': u.harness, 'entry': u.entry, 'defines': u.defines, 'violation': v}, open(d + '/violation.json', 'w'), indent=1)
    for fill, sf in (('', None), ('pattern', 190), ('zero', 0), ('pattern', 255), ('', 1)):
        if u.threads and fill: continue
        try: rc, out = ctx.run_native(u, inp, d + '/inputs.txt', fill, sf)
        except RuntimeError as x: log.append(str(x)); continue
        log.append('fill=%s/%s rc=%d\n%s' % (fill, sf, rc, out[-1500:]))
        hit = 'REPLAY-VIOLATION' in out or 'ERROR: AddressSanitizer' in out or rc == 99 or rc < 0 or rc in (139, 134, 136, 124) or (v['id'] == 'ub' and 'runtime error' in out)
        if hit:
            open(d + '/replay.log', 'w').write('\n'.join(log)); 
            try: shutil.copy(ctx.native(u, fill), d + '/replay.bin')
            except OSError: pass
            return True, d, out
    open(d + '/replay.log', 'w').write('\n'.join(log)); return False, d, '\n'.join(log)

def run_unit(ctx, u, budget):
    r = {'unit': u.name, 'problems': [], 'violations': [], 'unrepro': [], 'validated': 0, 'incomplete': []}
    try:
        ll = ctx.ir(u); out = ctx.dir + '/' + u.name + '.json'
        t = min(u.time(ctx.tier), max(10, budget - (time.time() - ctx.t0)))
        cmd = [B + '/fnsym', ll, '--entry', u.entry, '--out', out, '--time', str(t), '--witnesses', str(u.wit(ctx.tier)), '--max-viol', '6'] + u.opts(ctx.tier) + U.COMMON_OPTS
        rc, txt = sh(cmd, t + 120)
        if not os.path.exists(out):
            (r['incomplete'] if rc == 124 else r['problems']).append('engine died (rc %d): %s' % (rc, txt[-800:])); r['j'] = None; return r
        j = r['j'] = json.load(open(out))
    except Exception as x:
        r['problems'].append(str(x)); r['j'] = None; return r
    if j['error'] == 'time budget exhausted': r['incomplete'].append('time budget of %d s exhausted' % t)
    elif j['error']: r['problems'].append('engine: ' + j['error'])
    if j['inconclusive']: r['incomplete'] += j['inconclusive']
    if j['bound_cut'] and not u.allow_cut: r['incomplete'].append('%d paths cut by a bound' % j['bound_cut'])
    if not j['violations'] and not j['error'] and not r['incomplete'] and j['paths'] == 0: r['problems'].append('no path reached the end (vacuous)')
    for n, v in enumerate(j['violations']):
        if v['id'].startswith('env_'): r['problems'].append('environment model exceeded: ' + v['id'] + ' ' + v['stack'][:200]); continue
        ok, d, txt = replay(ctx, u, v, n)
        (r['violations'] if ok else r['unrepro']).append((v, d))
    if not j['violations'] and not j['error']:
        for c in u.req:
            if not j['check_hits'].get(c): r['problems'].append('assertion %s was never reached (vacuous)' % c)
        for c in u.covers:
            if c not in j['covers']: r['problems'].append('scenario %s was never reached (vacuous)' % c)
    if not j['violations'] and u.validate:
        for n, w in enumerate(j['witnesses']):
            try: rc, txt = ctx.run_native(u, strip_uninit(w['inputs']), ctx.dir + '/%s.w%d' % (u.name, n))
            except RuntimeError as x: r['problems'].append(str(x)); break
            obs = {}
            for l in txt.splitlines():
                m = re.match(r'OBS (\S+) (\d+)$', l)
                if m: obs[m.group(1)] = m.group(2)
            bad = [k for k, x in w['obs'].items() if obs.get(k) != x]
            if rc == 0 and not bad: r['validated'] += 1
            else: r['problems'].append('encoding and native run disagree on witness %d of %s: rc=%d %s %s' % (n, u.name, rc, [(k, w['obs'][k], obs.get(k)) for k in bad][:4], txt[-600:]))
    return r

def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']: build_engine(); print('engine built'); return
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--unit' in a: only = a[a.index('--unit') + 1]
    if '--keep' in a: keep = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); P = U.PROPS[prop]; t0 = time.time()
    us = [u for u in P['units'] if (tier == 'thorough' or not u.thorough_only) and (not only or u.name == only)]
    build_engine(); ctx = Ctx(prop, tier); budget = 700 if tier == 'quick' else 6 * 3600
    try:
        us.sort(key=lambda u: -u.weight)
        with ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as ex: res = list(ex.map(lambda u: run_unit(ctx, u, budget), us))
    finally:
        if not keep: shutil.rmtree(ctx.dir, ignore_errors=True)
    known = [k for k in json.load(open(V + '/known_findings.json')) if k['property'] == prop and k['status'] == 'known']
    viol = 0; problems = []; incomplete = []; kn = []
    for u, r in zip(us, res):
        problems += ['%s: %s' % (u.name, p) for p in r['problems']]; incomplete += ['%s: %s' % (u.name, p) for p in r['incomplete']]
        for v, d in r['violations']:
            k = [k for k in known if k['unit'] == u.name and k['check'] == v['id']]
            if k: kn.append(k[0]); continue
            viol += 1; print('VIOLATION property=%s replay=%s' % (prop, d)); print('  unit %s, check %s: %s\n  at %s' % (u.name, v['id'], v['msg'], v['stack'][:400]))
            print('  inputs: ' + ' '.join('%s=%s' % x for x in list(strip_uninit(v['inputs']).items())[:24]))
        for v, d in r['unrepro']: problems.append('%s: the solver reports %s (%s) but the real code does not reproduce it, see %s' % (u.name, v['id'], v['msg'], d))
    for k in {json.dumps(k, sort_keys=True): k for k in kn}.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    js = [r['j'] for r in res if r.get('j')]; S = lambda k: sum(j[k] for j in js)
    fns = sorted({f for j in js for f in j['functions']}); checks = {}
    for j in js:
        for k, v in j['check_hits'].items(): c = checks.setdefault(k, [0, 0]); c[0] += v[0]; c[1] += v[1]
    samples = []
    for u, r in zip(us, res):
        for w in (r.get('j') or {}).get('witnesses', [])[:1]: samples.append({'unit': u.name, 'inputs': dict(list(strip_uninit(w['inputs']).items())[:16]), 'observed': w['obs']})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': viol,
      'assumptions': P['assumptions'] + U.COMMON_ASSUMPTIONS,
      'coverage': {'states': int(S('states') + S('sched_states')), 'transitions': int(S('forks') + S('transitions')), 'traces_validated_against_impl': sum(r['validated'] for r in res), 'samples': samples[:40],
        'paths': int(S('paths')), 'merges': int(S('merges')), 'instructions_executed': int(S('instructions')), 'assertion_sites': {k: {'reached': v[0], 'sent_to_solver': v[1]} for k, v in sorted(checks.items())},
        'queries': int(S('queries')), 'queries_sat': int(S('q_sat')), 'queries_unsat': int(S('q_unsat')), 'queries_unknown': int(S('q_unknown')), 'solver_s': round(S('solver_s'), 3), 'solver': js[0]['solver'] if js else '',
        'functions_encoded': fns, 'bounds': P['bounds'], 'outside_bounds': P['outside'],
        'units': [{'unit': u.name, 'entry': u.entry, 'bounds': u.bounds, 'paths': (r.get('j') or {}).get('paths'), 'queries': (r.get('j') or {}).get('queries'), 'wall_s': (r.get('j') or {}).get('wall_s'), 'incomplete': r['incomplete']} for u, r in zip(us, res)],
        'exhaustive': not incomplete and not problems, 'incomplete': incomplete, 'problems': problems, 'known_findings': [k['text'] for k in kn]}}
    if not only:
        EV = os.environ.get('VF_EVIDENCE', V + '/evidence'); os.makedirs(EV, exist_ok=True); json.dump(ev, open(EV + '/%s.json' % prop, 'w'), indent=1)
    if '-v' in a:
        for u, r in zip(us, res): print('  %-28s %s' % (u.name, {k: (r.get('j') or {}).get(k) for k in ('paths', 'queries', 'wall_s')}))
    for p in incomplete: print('INCOMPLETE ' + p)
    for p in problems: print('PROBLEM ' + p)
    print('%s %s: %d units, %d paths, %d queries (%.1f s solver), %d assertions reached, %d native validations, %.1f s' % (prop, tier, len(us), S('paths') if js else 0, S('queries') if js else 0, S('solver_s') if js else 0, S('checks') if js else 0, sum(r['validated'] for r in res), time.time() - t0))
    sys.exit(1 if viol else 2 if problems else 0)
main()
