#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py PROPERTY [--tier quick|thorough]

Every run compiles /repo's current sources to LLVM bitcode, executes the harnesses of the property
symbolically (engine/symx), replays every counterexample against the natively compiled real code and
reports only what reproduces. Exit 0: held; 1: VIOLATION; 2: the check could not run.
Other uses: check.py --setup (build the engine), check.py --replay FILE (re-run one counterexample)."""
import sys, os, subprocess, json, time, hashlib, threading, fcntl, glob, re, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TG_REPO', '/repo')
sys.path.insert(0, ROOT)
from checks import PROPS
BUILD = os.path.join(ROOT, 'build')
T0 = time.time()
CF = '-O1 -Xclang -disable-llvm-passes -gline-tables-only -ffp-contract=off -fno-builtin -w -fsanitize=float-cast-overflow -fsanitize-trap=float-cast-overflow'.split() + ['-I' + REPO, '-I' + ROOT + '/lib', '-I' + ROOT + '/harness']
NF = '-O0 -g -ffp-contract=off -fno-builtin -w -fno-omit-frame-pointer'.split() + ['-I' + REPO, '-I' + ROOT + '/lib', '-I' + ROOT + '/harness', '-DSX_NATIVE=1',
      '-Dmalloc=sx_malloc', '-Dcalloc=sx_calloc', '-Drealloc=sx_realloc', '-Dfree=sx_free']
SAN = {'asan': ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'],
       'msan': ['-fsanitize=memory']}
ENV = dict(os.environ, ASAN_OPTIONS='exitcode=66:detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=65536', UBSAN_OPTIONS='halt_on_error=1:exitcode=66:print_stacktrace=1', MSAN_OPTIONS='exit_code=66:allocator_may_return_null=1')

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

def engine():
    h = hashlib.sha256()
    for f in ('symx.cc', 'interp.h', 'expr.h', 'solver.h'):
        h.update(open(os.path.join(ROOT, 'engine', f), 'rb').read())
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'symx-' + h.hexdigest()[:16])
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for o in glob.glob(os.path.join(BUILD, 'symx-*')): os.unlink(o)
            cxx = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().replace('-fno-exceptions', '').replace('-DNDEBUG', '').split()
            rc, out = sh(['g++', '-O2', '-std=c++17', '-w', '-fno-rtti', ROOT + '/engine/symx.cc', '-o', exe + '.tmp'] + cxx +
                         ['-fexceptions', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '/usr/lib/libminisat.a', '-lz3', '-lz'])
            if rc != 0:
                print(out); print('cannot build the engine'); sys.exit(2)
            os.rename(exe + '.tmp', exe)
    return exe

class Bad(Exception): pass
def cc(cmd):
    rc, out = sh(cmd)
    if rc != 0: raise Bad(' '.join(cmd) + '\n' + out[-3000:])

CONF = {'amalga': ([], ['tg.c']), 'noamalga': (['-DTG_NOAMALGA'], ['tg.c', 'deps/json.c', 'deps/fp.c']), 'noatomics': (['-DTG_NOATOMICS'], ['tg.c'])}
lock = threading.Lock(); libs = {}
def lib(conf, kind, work):
    """bitcode or native objects of /repo for one configuration, built once per run"""
    key = (conf, kind)
    with lock:
        ent = libs.setdefault(key, [threading.Lock(), None])
    with ent[0]:
        if ent[1] is None:
            defs, srcs = CONF[conf]; objs = []
            for s in srcs:
                o = os.path.join(work, '%s.%s.%s.%s' % (conf, kind, s.replace('/', '_'), 'bc' if kind == 'bc' else 'o'))
                if kind == 'bc': cc(['clang-18'] + CF + defs + ['-c', '-emit-llvm', os.path.join(REPO, s), '-o', o])
                else: cc(['clang-18'] + NF + SAN[kind] + defs + ['-c', os.path.join(REPO, s), '-o', o])
                objs.append(o)
            s = 'sxlibc.c' if kind == 'bc' else 'sxnative.c'
            o = os.path.join(work, '%s.%s.rt.%s' % (conf, kind, 'bc' if kind == 'bc' else 'o'))
            if kind == 'bc': cc(['clang-18'] + CF + ['-c', '-emit-llvm', os.path.join(ROOT, 'lib', s), '-o', o])
            else: cc(['clang-18', '-O1', '-g', '-w', '-I' + ROOT + '/lib'] + SAN[kind] + ['-c', os.path.join(ROOT, 'lib', s), '-o', o])
            objs.append(o); ent[1] = objs
        return ent[1]

def native(t, kind, d, work):
    exe = os.path.join(d, 'native.' + kind)
    if not os.path.exists(exe):
        ho = os.path.join(d, 'h.%s.o' % kind)
        cc(['clang-18'] + NF + SAN[kind] + t['defs'] + ['-c', os.path.join(ROOT, 'harness', t['h'])] + ['-o', ho])
        cc(['clang-18'] + SAN[kind] + ['-Wl,--defsym=harness=' + t['entry']] * (t['entry'] != 'harness') + [ho] + lib(t['conf'], kind, work) + ['-lm', '-o', exe])
    return exe

def run_native(exe, f, timeout=20, trace=False):
    e = dict(ENV)
    if trace: e['SX_TRACE'] = '1'
    return sh([exe, f], timeout=timeout, env=e)

def run_task(exe, t, d, work, tier):
    os.makedirs(d, exist_ok=True)
    t0 = time.time(); r = {'harness': t['name']}
    try:
        hb, ab, ob = [os.path.join(d, x) for x in ('h.bc', 'all.bc', 'o.bc')]
        objs = lib(t['conf'], 'bc', work)
        cc(['clang-18'] + CF + t['defs'] + ['-c', '-emit-llvm', os.path.join(ROOT, 'harness', t['h']), '-o', hb])
        cc(['llvm-link-18'] + objs[:-1] + [hb, objs[-1], '-o', ab])
        cc(['opt-18', '-passes=internalize,globaldce,function(sroa,simplifycfg,early-cse,instsimplify)', '-internalize-public-api-list=' + t['entry'], ab, '-o', ob])
        left = max(5, DEADLINE - time.time())
        to = min(t['timeout'], left)
        xc = ['--xcheck', '29'] if tier == 'quick' else ['--xcheck', '11']
        cmd = [exe, ob, '-e', t['entry'], '-o', d, '-t', str(to), '-j', str(t['j'])] + xc + t['args']
        rc, out = sh(cmd, timeout=to + 120)
        try: r.update(json.load(open(os.path.join(d, 'result.json'))))
        except Exception: r['error'] = 'engine ended with %s: %s' % (rc, out[-800:])
        r['viols'] = []
        for f in sorted(glob.glob(os.path.join(d, 'viol.*.txt')), key=lambda s: int(s.split('.')[-2])): r['viols'].append(triage(t, f, d, work))
        r['wit_ok'] = 0; r['wit_bad'] = []; r['samples'] = []
        for f in sorted(glob.glob(os.path.join(d, 'wit.*.txt'))):
            txt = open(f).read()
            if '\nhavoc' in txt or txt.startswith('havoc'): continue
            if r['wit_ok'] >= 24: break
            rc, out = run_native(native(t, 'asan', d, work), f, trace=True)
            want = [l for l in txt.split('\n') if l.startswith('obs ')]; got = [l for l in out.split('\n') if l.startswith('obs ')]
            if rc == 0 and want == got:
                r['wit_ok'] += 1
                if len(r['samples']) < 1: r['samples'].append({'harness': t['name'], 'inputs': ' '.join('%s=%s' % (l.split()[1], l.split()[3]) for l in txt.split('\n') if l.startswith('in '))[:400], 'observed': len(got)})
            else:
                r['wit_bad'].append({'file': f, 'rc': str(rc), 'out': out[-600:]})
    except Bad as e:
        r['error'] = str(e)
    r['wall_s'] = round(time.time() - t0, 2)
    for x in ('h.bc', 'all.bc'):
        try: os.unlink(os.path.join(d, x))
        except OSError: pass
    return r

def triage(t, f, d, work):
    head = {}; txt = open(f).read()
    for l in txt.split('\n'):
        k = l.split(' ', 1)
        if k[0] in ('kind', 'msg', 'loc') and len(k) > 1: head[k[0]] = k[1]
    v = {'file': f, 'kind': head.get('kind', '?'), 'msg': head.get('msg', ''), 'loc': head.get('loc', ''), 'reproduced': False}
    kinds = ['msan', 'asan'] if v['kind'] == 'uninit' else ['asan']
    for k in kinds:
        if k == 'msan' and v['kind'] != 'uninit': continue
        try: exe = native(t, k, d, work)
        except Bad as e: v['native'] = str(e)[-500:]; continue
        rc, out = run_native(exe, f, timeout=20)
        v['native_rc'] = str(rc); v['native'] = out[-1200:]
        if rc == 'timeout': v['reproduced'] = v['kind'] in ('hang', 'deep', 'recursion')
        elif rc in (11, 12): v['reproduced'] = False
        elif rc == 0 or rc == 3: v['reproduced'] = False
        elif rc == 10: v['reproduced'] = v['kind'] == 'assert' and v['msg'] in out
        else: v['reproduced'] = 'tg.c' in out or '/deps/' in out or rc != 66
        if v['reproduced']: break
    if 'havoc' in txt.split('\n') and v.get('native_rc') == '0': v['note'] = 'path used a havoc value'
    return v

def known(prop):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            l = l.strip()
            m = re.match(r'known: property=(\S+) harness=(\S+) match="([^"]*)" (.*)', l)
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    except OSError: pass
    return out

def main():
    global DEADLINE
    a = sys.argv[1:]
    if a and a[0] == '--setup': engine(); return 0
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if '--only' in a: i = a.index('--only'); only = a[i + 1]; del a[i:i + 2]
    if '-v' in a: keep = True; a.remove('-v')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a[0] == '--replay': return replay(a[1])
    pid = a[0]; P = PROPS[pid]
    DEADLINE = T0 + (780 if tier == 'quick' else 6 * 3600)
    exe = engine()
    work = os.path.join(BUILD, 'run', pid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    tasks = []
    for t in P['tasks']:
        t = dict(t); t.setdefault('entry', 'harness'); t.setdefault('conf', 'amalga'); t.setdefault('j', 2); t.setdefault('args', [])
        t.setdefault('timeout', 240); t.setdefault('defs', [])
        q = t.get(tier, {}) or {}
        if t.get('only') and t['only'] != tier: continue
        t['defs'] = t['defs'] + q.get('defs', []); t['args'] = t['args'] + q.get('args', []); t['j'] = q.get('j', t['j']); t['timeout'] = q.get('timeout', t['timeout'] if tier == 'quick' else 4 * 3600)
        t.setdefault('name', t['h'].replace('.c', '') + ('' if t['entry'] == 'harness' else '.' + t['entry']) + ('' if t['conf'] == 'amalga' else '@' + t['conf']))
        if only and only not in t['name']: continue
        tasks.append(t)
    names = {}
    for t in tasks:
        names[t['name']] = names.get(t['name'], 0) + 1
        if names[t['name']] > 1: t['name'] += '#%d' % names[t['name']]
    res = [None] * len(tasks); cv = threading.Condition(); free = [8]
    def worker(i):
        t = tasks[i]; w = min(8, t['j'])
        with cv:
            while free[0] < w: cv.wait()
            free[0] -= w
        try: res[i] = run_task(exe, t, os.path.join(work, re.sub(r'[^A-Za-z0-9_.@#-]', '_', t['name'])), work, tier)
        except Exception as e: res[i] = {'harness': t['name'], 'error': repr(e)}
        with cv: free[0] += w; cv.notify_all()
        r = res[i]
        print('%-34s paths=%s queries=%s solver=%.1fs wall=%.1fs incomplete=%s unsupported=%s wit=%s%s%s' % (t['name'], r.get('paths'), r.get('queries'), r.get('solver_ms', 0) / 1000, r.get('wall_s', 0), r.get('incomplete'), r.get('unsupported'), r.get('wit_ok'),
              ' BADWIT=%d' % len(r['wit_bad']) if r.get('wit_bad') else '', ' ERROR ' + r['error'][-300:] if r.get('error') else ''), flush=True)
        if keep or r.get('unsupported') or r.get('incomplete'):
            for n in (r.get('unsupported_notes') or [])[:4] + (r.get('incomplete_notes') or [])[:4]: print('   note:', n)
        if keep:
            for b in r.get('wit_bad', []): print('   badwit', b['file'], b['rc'], b['out'][-300:])
    th = [threading.Thread(target=worker, args=(i,)) for i in sorted(range(len(tasks)), key=lambda i: -tasks[i].get('cost', 0))]
    for x in th: x.start()
    for x in th: x.join()
    kn = known(pid); viol = []; seen_known = []; unrep = []
    for t, r in zip(tasks, res):
        for v in r.get('viols', []):
            if not v['reproduced']: unrep.append(v); continue
            hit = [k for k in kn if k[0] == t['name'] and k[1] in v['msg']]
            if hit:
                if hit[0] not in seen_known: seen_known.append(hit[0])
            else: v['harness'] = t['name']; viol.append(v)
    for k in seen_known: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    for v in unrep: print('not reproduced natively (not reported): %s %s %s rc=%s' % (v['file'], v['kind'], v['msg'][:200], v.get('native_rc')))
    S = lambda k: sum(int(r.get(k) or 0) for r in res)
    funcs = sorted(set(f for r in res for f in r.get('functions', [])))
    missing = [[t['name'], l] for t, r in zip(tasks, res) for l in t.get('reach', []) if l not in r.get('reach', []) and not r.get('error')]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
        'assumptions': P.get('assumptions', []) + ['symx encodes the clang-18 -O0-equivalent LLVM IR of the current /repo sources; libc is the small model in lib/sxlibc.c',
            'malloc succeeds unless a harness injects failures; heap accesses are bounds-, lifetime- and initialisation-checked'],
        'coverage': {'states': S('paths') + S('merged_paths'), 'transitions': S('branches'), 'traces_validated_against_impl': S('wit_ok'),
            'samples': [s for r in res for s in r.get('samples', [])][:12] or ['none'],
            'paths': S('paths'), 'merged_paths': S('merged_paths'), 'queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'),
            'solver_s': round(S('solver_ms') / 1000, 2), 'assert_queries': S('assert_queries'), 'unsat_cross_checked_by_z3': S('xcheck'), 'cross_check_disagreements': S('xbad'),
            'instructions': S('instructions'), 'incomplete_paths': S('incomplete'), 'unsupported_paths': S('unsupported'), 'havoc_values': S('havoc'), 'tabulated_terms': S('tabulated'),
            'functions_encoded': funcs, 'bounds': [t.get('bound', '') + (' [' + ' '.join(t['defs']) + ']' if t['defs'] else '') for t in tasks],
            'witness_mismatches': sum(len(r.get('wit_bad', [])) for r in res), 'unreached_labels': missing, 'unreproduced_counterexamples': [{k: v.get(k) for k in ('kind', 'msg', 'loc', 'native_rc')} for v in unrep][:20],
            'harnesses': [{'name': r['harness'], 'paths': r.get('paths'), 'queries': r.get('queries'), 'solver_ms': r.get('solver_ms'), 'wall_s': r.get('wall_s'), 'reach': r.get('reach'), 'incomplete': r.get('incomplete'), 'incomplete_notes': (r.get('incomplete_notes') or [])[:5], 'unsupported_notes': (r.get('unsupported_notes') or [])[:5], 'error': r.get('error')} for r in res],
            'exhaustive': all(not r.get('error') and not r.get('incomplete') and not r.get('unsupported') for r in res),
            'known_findings_seen': [k[2] for k in seen_known]}}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for m in missing: print('note: %s did not reach %s' % tuple(m))
    rc = 0
    if viol:
        rdir = os.path.join(ROOT, 'replay'); os.makedirs(rdir, exist_ok=True)
        for v in viol[:10]:
            dst = os.path.join(rdir, '%s-%s-%s' % (pid, re.sub(r'\W', '_', v['harness']), os.path.basename(v['file'])))
            t = [t for t in tasks if t['name'] == v['harness']][0]
            with open(dst, 'w') as f:
                f.write('task ' + json.dumps({k: t[k] for k in ('h', 'entry', 'conf', 'defs', 'name')}) + '\n' + open(v['file']).read())
            print('%s %s at %s [%s]' % (v['kind'], v['msg'][:300], v['loc'][:200], v['harness']))
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        rc = 1
    elif res and all(r.get('error') for r in res):
        print('the check could not run'); rc = 2
    if not keep: 
        for x in glob.glob(work + '/*/native.*') + glob.glob(work + '/*/*.o') + glob.glob(work + '/*.o') + glob.glob(work + '/*.bc') + glob.glob(work + '/*/*.bc'):
            try: os.unlink(x)
            except OSError: pass
    print('%s %s: %s, %.1fs' % (pid, tier, 'VIOLATED' if rc == 1 else 'held on everything explored' if rc == 0 else 'no answer', time.time() - T0))
    return rc

def replay(f):
    l = open(f).readline(); t = json.loads(l[5:]); work = os.path.join(BUILD, 'replay'); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    k = 'msan' if '\nkind uninit' in open(f).read() else 'asan'
    rc, out = run_native(native(t, k, work, work), f, trace=True); print(out); print('exit', rc); return 0 if rc == 0 else 1

if __name__ == '__main__': sys.exit(main())
