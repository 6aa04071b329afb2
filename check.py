#!/usr/bin/env python3
"""Decide one property: python3 check.py <property> [--tier quick|thorough]

1. compiles the contract harnesses (contracts/*.cpp, which include the real headers of /repo/include) to LLVM IR,
2. verifies every harness of the property for all inputs (vf/worker.py, one process per harness),
3. compiles the same harnesses natively with ASan/UBSan: replays counterexamples on the real code and runs a
   bounded search (labelled bounded in the evidence),
4. writes evidence/<property>.json and reports.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build or machinery error)."""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
PY = shutil.which('python3-vt') or sys.executable
PASSES = 'function(sroa,simplifycfg,loop-simplify)'

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def discover(prop):
    files = {}
    for f in sorted(glob.glob(HERE + '/contracts/*.cpp')):
        t = open(f).read()
        hs = re.findall(r'^\s*(?:HARNESS|[A-Z_]+_HARNESS)\((%s_\w+)' % prop, t, re.M)
        if hs: files[f] = hs
    return files

def directive(path, key, default=''):
    m = re.search(r'^// %s:(.*)$' % key, open(path).read(), re.M)
    return m.group(1).strip() if m else default

def bounded_harnesses(files):
    """harness -> stated bound, from the BOUNDED directives of the contract files"""
    r = {}
    for f, hs in files.items():
        for rx, text in re.findall(r'^// BOUNDED: (\S+) (.*)$', open(f).read(), re.M):
            for h in hs:
                if re.fullmatch(rx, h): r[h] = text
    return r

def run(cmd, timeout=600, **k):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **k)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        def d(x): return x.decode('utf8', 'replace') if isinstance(x, bytes) else (x or '')
        return -999, d(e.stdout), d(e.stderr)

class Build:
    def __init__(s, src, tmp):
        s.src = src; s.base = os.path.join(tmp, os.path.basename(src)[:-4]); s.err = None; s.nerr = None
        s.std = directive(src, 'STD', 'c++17'); s.flags = directive(src, 'FLAGS').split()
    def symbolic(s):
        inc = ['-I' + REPO + '/include', '-I' + HERE + '/contracts']
        c = [CLANG, '-std=' + s.std, '-DVF_SYMBOLIC', *s.flags, *inc, '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w', s.src, '-o', s.base + '.raw.ll']
        rc, o, e = run(c)
        if rc: s.err = e[-3000:]; return
        rc, o, e = run([OPT, '-S', '-passes=' + directive(s.src, 'PASSES', PASSES), s.base + '.raw.ll', '-o', s.base + '.ll'])
        if rc: s.err = e[-3000:]
    def native(s):
        if directive(s.src, 'NATIVE') == 'no': s.nerr = 'disabled'; return
        inc = ['-I' + REPO + '/include', '-I' + HERE + '/contracts']
        c = [CLANG, '-std=' + s.std, '-DVF_MAIN', *s.flags, *inc, '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=function,vptr,pointer-overflow,nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-pthread', s.src, '-o', s.base + '.exe']
        rc, o, e = run(c)
        if rc: s.nerr = e[-3000:]

ENV = dict(os.environ, ASAN_OPTIONS='max_malloc_fill_size=100000000:detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=0:max_allocation_size_mb=1024:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=44')

def read_shared(path):
    import struct
    try: b = open(path, 'rb').read()
    except OSError: return [], ''
    if len(b) < 16: return [], ''
    n, cases = struct.unpack_from('<QQ', b)
    ch = []
    for i in range(min(n, 256)):
        nm = b[16+32*i:16+32*i+24].split(b'\0')[0].decode(); v = struct.unpack_from('<Q', b, 16+32*i+24)[0]
        ch.append((nm, v))
    fail = b[16+32*256:16+32*256+512].split(b'\0')[0].decode('utf8', 'replace')
    return ch, fail

def group(ch):
    out = []; ix = {}
    for n, v in ch:
        if n in ix: out[ix[n]][1].append(v)
        else: ix[n] = len(out); out.append([n, [v]])
    return out

def native_verdict(rc, out, err, shared):
    """None if the run was clean, else a description"""
    if rc == 0: return None
    if rc == 2: return None
    ch, fail = read_shared(shared)
    if fail: return fail
    m = re.search(r'(ERROR: AddressSanitizer: .*|runtime error: .*|Assertion .*failed.*|terminate called.*)', err)
    if m: return m.group(1)[:300]
    if rc == -999: return 'does not terminate'
    return 'abnormal exit %d: %s' % (rc, err[-200:])

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier')+1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = args[args.index('--only')+1] if '--only' in args else None
    t0 = time.time()
    files = discover(prop)
    if only: files = {f: [h for h in hs if re.search(only, h)] for f, hs in files.items()}
    if not files:
        log('no harness for', prop); return 2
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try: return decide(prop, tier, seed, files, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, tier, seed, files, tmp, t0):
    thorough = tier == 'thorough'
    budget = 540 if thorough else 200
    nsecs = 45 if thorough else 4
    deadline = t0 + (850 if not thorough else 3000)
    builds = {f: Build(f, tmp) for f in files}
    nh = sum(len(v) for v in files.values())
    res = {}; nat = {}
    errors = []
    with ThreadPoolExecutor(8) as tp:
        fs = {}
        for b in builds.values():
            fs[tp.submit(b.symbolic)] = ('s', b); fs[tp.submit(b.native)] = ('n', b)
        pend = dict(fs)
        def worker(b, h):
            left = max(20, min(budget, deadline - time.time() - 30))
            o = ['second=1'] if thorough else []
            rc, out, err = run([PY, HERE + '/vf/worker.py', b.base + '.ll', h, str(left), *directive(b.src, 'OPTS').split(), *o], timeout=left + 60)
            try: return json.loads(out.strip().split('\n')[-1])
            except Exception: return {'harness': h, 'incomplete': 'verifier process failed (%d): %s' % (rc, err[-300:]), 'obl': {}, 'fails': [], 'funcs': [], 'loops': {}, 'assumed': [], 'abstract': [], 'reach': {}, 'paths': 0, 'queries': 0, 'solver_s': 0, 'wall': 0, 'contracts': []}
        def search(b, h):
            sh = b.base + '.' + h + '.sh'
            rc, out, err = run([b.base + '.exe', 'search', h, sh, str(nsecs), str(seed)], timeout=nsecs + 20, env=ENV)
            v = native_verdict(rc, out, err, sh)
            try: st = json.loads(out.strip().split('\n')[-1])
            except Exception: st = {'cases': 0, 'full': 0, 'exhaustive': False}
            return {'verdict': v, 'stats': st, 'choices': group(read_shared(sh)[0]) if v else None, 'err': err[-4000:] if v else '', 'rc': rc}
        done = 0
        while pend:
            f = next(as_completed(list(pend)))
            kind, x = pend.pop(f)
            if kind == 's':
                f.result()
                if x.err: errors.append('contract %s does not compile against the current headers:\n%s' % (os.path.basename(x.src), x.err))
                else:
                    for h in files[x.src]: pend[tp.submit(worker, x, h)] = ('w', (x, h))
            elif kind == 'n':
                f.result()
                if x.nerr and x.nerr != 'disabled': errors.append('native build of %s failed:\n%s' % (os.path.basename(x.src), x.nerr))
                elif not x.nerr:
                    for h in files[x.src]: pend[tp.submit(search, x, h)] = ('b', (x, h))
            elif kind == 'w': res[x[1]] = f.result()
            else: nat[x[1]] = f.result()
    if errors and not res:
        for e in errors: log(e)
        print('ERROR property=%s: %s' % (prop, errors[0].split('\n')[0]))
        return 2
    outdir = os.path.join(HERE, 'out', prop)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir, exist_ok=True)
    hfile = {h: builds[f] for f, hs in files.items() for h in hs}
    violations = []; soft = []; notes = []
    known = load_known(prop)
    for h in sorted(hfile):
        b = hfile[h]; r = res.get(h); n = nat.get(h)
        confirmed = None
        cand = []
        for fl in (r['fails'] if r else []):
            # replay the verifier's counterexample on the real code
            if fl['choices'] is None or b.nerr: continue
            if confirmed: break
            if len(cand) > 8: break
            rp = os.path.join(tmp, h + '.replay')
            write_choices(rp, fl['choices'])
            sh = rp + '.sh'
            rc, out, err = run([b.base + '.exe', 'replay', h, sh, rp], timeout=30, env=ENV)
            v = native_verdict(rc, out, err, sh)
            cand.append(fl['key'])
            if v: confirmed = ('counterexample of the verifier replayed on the real code', fl, v, fl['choices'], err)
        if not confirmed and n and n['verdict']:
            fl = r['fails'][0] if r and r['fails'] else {'key': n['verdict'], 'msg': '', 'where': '', 'status': 'bounded'}
            confirmed = ('bounded search on the real code', fl, n['verdict'], n['choices'], n['err'])
        if confirmed:
            path = write_replay(outdir, prop, h, b, confirmed, r)
            violations.append((h, path, confirmed[1]['key'], ''))
        elif r and r['fails']:
            ref = [f for f in r['fails'] if f['status'] == 'refuted' and not f['soft']]
            if ref:
                path = write_replay(outdir, prop, h, b, ('verifier only: no failing input found', ref[0], '', ref[0]['choices'] or [], ''), r)
                violations.append((h, path, ref[0]['key'], ' no-failing-input-found'))
            else:
                notes.append('%s: %d obligations not discharged (%s); bounded check clean' % (h, len(r['fails']), r['fails'][0]['key']))
        if r and r['incomplete'] and not confirmed:
            notes.append('%s: %s %s; bounded check only' % (h, r['incomplete'], r.get('where', '')))
        if r and not r['fails'] and not r['incomplete'] and not r['reach'].get('end'):
            errors.append('harness %s is vacuous: its end was not reached' % h)
        if n and not n['verdict'] and not n['stats'].get('full'):
            if not directive(b.src, 'NATIVE'): notes.append('%s: bounded search reached no complete case' % h)
    kf = []
    for v in list(violations):
        for k in known:
            if k['harness'] == v[0] and k['obligation'] in v[2]:
                kf.append(k); violations.remove(v); break
    evidence(prop, tier, seed, files, res, nat, violations, notes, errors, kf, t0, builds)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    for nt in notes: log('note:', nt)
    for e in errors: log('error:', e)
    bnd = bounded_harnesses(files)
    for h in sorted(bnd):
        if h in res: notes.append('%s: bounded, not counted as proved: %s' % (h, bnd[h]))
    tot = sum(a for h, r in res.items() if h not in bnd for a, b in r['obl'].values()); dis = sum(b for h, r in res.items() if h not in bnd for a, b in r['obl'].values())
    print('property %s: %d harnesses, %d/%d obligations discharged, %d harnesses bounded only, %.1f s' % (prop, len(hfile), dis, tot, len({x.split(':')[0] for x in notes}), time.time() - t0))
    for h, path, key, tail in violations[:1] if violations else []:
        for h2, p2, k2, t2 in violations: print('failed obligation [%s] %s%s' % (h2, k2, t2))
        best = next((v for v in violations if not v[3]), violations[0])
        print('VIOLATION property=%s replay=%s%s' % (prop, best[1], best[3]))
        return 1
    if errors:
        print('ERROR property=%s: %s' % (prop, errors[0].split('\n')[0]))
        return 2
    return 0

def write_choices(path, ch):
    with open(path, 'w') as f:
        for nm, v in ch:
            f.write('%s %s\n' % (nm, ' '.join(str(x) for x in (v if isinstance(v, list) else [v]))))

def write_replay(outdir, prop, h, b, c, r):
    how, fl, verdict, choices, err = c
    p = os.path.join(outdir, h + '.replay')
    with open(p, 'w') as f:
        f.write('# property %s, contract harness %s in %s\n' % (prop, h, os.path.basename(b.src)))
        f.write('# failed obligation: %s\n#   %s  (%s) at %s\n' % (fl['key'], fl['msg'], fl['status'], fl['where']))
        f.write('# found by: %s\n' % how)
        if verdict: f.write('# observed on the real code: %s\n' % verdict)
        f.write('# reproduce: python3 %s/replay.py %s\n' % (HERE, p))
        if r:
            for x in r['fails'][:20]: f.write('# verifier: %s obligation "%s" %s at %s\n' % (x['status'], x['key'], x['msg'], x['where']))
        for L in (err or '').split('\n')[:60]: f.write('# | %s\n' % L)
    with open(p, 'a') as f:
        for nm, v in choices or []:
            f.write('%s %s\n' % (nm, ' '.join(str(x) for x in (v if isinstance(v, list) else [v]))))
    return p

def load_known(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for L in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) obligation="([^"]*)" (.*)', L)
            if m and m.group(1) == prop: out.append({'harness': m.group(2), 'obligation': m.group(3), 'text': m.group(4).strip()})
    return out

TRUSTED = ['clang 18 front end and the opt passes sroa, simplifycfg, loop-simplify (source to LLVM IR)',
           'vf/: IR semantics, verification-condition generator and invariant checker written for this work',
           'z3 (SMT back end)', 'contracts/vf.hpp and vf/intrin.py, vf/lib.py: specification primitives and the stated contracts of runtime and standard library functions']

def evidence(prop, tier, seed, files, res, nat, violations, notes, errors, kf, t0, builds):
    bnd = bounded_harnesses(files)
    obl = sum(a for h, r in res.items() if h not in bnd for a, b in r['obl'].values()); dis = sum(b for h, r in res.items() if h not in bnd for a, b in r['obl'].values())
    inc = [h for h, r in res.items() if r['incomplete']]
    obl += len(inc)
    kinds = {}
    for r in res.values():
        for k, (a, b) in r['obl'].items():
            kk = re.sub(r' in .*| h_.*', '', k); x = kinds.setdefault(kk, [0, 0]); x[0] += a; x[1] += b
    funcs = sorted({f for r in res.values() for f in r['funcs']})
    loops = {}
    for r in res.values():
        for k, v in r['loops'].items(): loops.setdefault(k, set()).update(v)
    level = 'proof'
    lm = os.path.join(HERE, 'MANIFEST.json')
    try:
        for c in json.load(open(lm))['checks']:
            if c['property'] == prop: level = c['level']
    except Exception: pass
    asm = sorted({a for r in res.values() for a in r['assumed']})
    for f in files:
        for a in re.findall(r'^// ASSUME: (.*)$', open(f).read(), re.M): asm.append(a)
    second = {'checked': sum(r.get('second_n', 0) for r in res.values()), 'agreed': sum(r.get('second_ok', 0) for r in res.values())}
    cov = {'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, tier), 'trusted_base': TRUSTED,
           'obligations_by_kind': {k: '%d/%d' % (b, a) for k, (a, b) in sorted(kinds.items())},
           'functions_under_contract': funcs, 'functions_under_contract_count': len(funcs), 'contract_harnesses': sorted(res),
           'back_end': 'z3 %d queries' % sum(r['queries'] for r in res.values()), 'solver_s': round(sum(r['solver_s'] for r in res.values()), 2),
           'second_back_end_cvc5': second, 'loops_with_checked_invariants': {k: sorted(v) for k, v in loops.items()},
           'paths': sum(r['paths'] for r in res.values()), 'vacuity': '%d of %d harnesses reach their end with a satisfiable path' % (sum(1 for r in res.values() if r['reach'].get('end')), len(res)),
           'external_contracts_used': sorted({c for r in res.values() for c in r['contracts']}),
           'bounded_only': notes, 'evaluations': sum(n['stats'].get('cases', 0) for n in nat.values()),
           'distinct_nontrivial': sum(n['stats'].get('full', 0) for n in nat.values()),
           'rule': 'bounded companion, never counted as proved: the same harnesses run natively with ASan/UBSan over enumerated then sampled small values of their choices; non-trivial = the harness preconditions hold and it runs to its end',
           'samples': [{'harness': h, 'cases': n['stats'].get('cases', 0), 'complete': n['stats'].get('full', 0), 'exhaustive_within_bound': n['stats'].get('exhaustive')} for h, n in sorted(nat.items())][:60]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': sorted(set(asm)), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)

if __name__ == '__main__': sys.exit(main())
