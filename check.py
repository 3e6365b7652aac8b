#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--harness NAME] [--tier quick|thorough] [-v]

Decides one property: compiles the property's harness together with /repo's current sources to LLVM IR, explores it
symbolically, asks an SMT solver about every assertion, replays every counterexample on the natively compiled code,
and cross-validates the encoding against native runs.  See DESIGN.md."""
import argparse, concurrent.futures as cf, hashlib, json, multiprocessing as mp, os, re, shutil, struct, subprocess, sys
import tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = os.environ.get('VF_REPO', '/repo')
EVID = os.environ.get('VF_EVID', os.path.join(HERE, 'evidence'))
COMMON = ['-std=c++17', '-DNDEBUG', '-include', 'cstdint', '-I' + HERE + '/harness', '-I' + REPO + '/include', '-I' + REPO]
CLANG = ['clang++', '-O1', '-S', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
         '-ffp-contract=off', '-fno-math-errno', '-fno-pic', '-fno-pie', '-w', '-DVF_SYMBOLIC', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-I' + HERE + '/overlay']
GCC = ['g++', '-O2', '-w', '-rdynamic', '-D__NO_CTYPE']


def sh(cmd, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def parse_harness(path):
    """harness functions of a file with their options (//@ k=v ... before H(name)) and file options (//@file k=v)"""
    fopts, hs, pend = {}, [], {}
    for ln in open(path):
        m = re.match(r'\s*//@file\s+(.*)', ln)
        if m:
            fopts.update(re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(1)))
            continue
        m = re.match(r'\s*//@\s+(.*)', ln)
        if m:
            pend.update(re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(1)))
            continue
        m = re.match(r'\s*H\((\w+)\)', ln)
        if m:
            hs.append((m.group(1), {k: v.strip('"') for k, v in pend.items()}))
            pend = {}
    return {k: v.strip('"') for k, v in fopts.items()}, hs


def explore(job):
    """symbolic exploration of one harness function (worker process)"""
    ll, name, opt, tier, seed, deadline = job
    import ir, symex, z3
    z3.set_param('smt.random_seed', seed % 1000)
    t0 = time.time()
    res = {'harness': name, 'error': None}
    try:
        mod = ir.Module(open(ll).read())
        mode = opt.get('mode', 'real')
        b = float(opt.get('budget', 60 if tier == 'quick' else 300))
        if tier == 'thorough':
            b = max(b, 300.0)
        b = max(5.0, min(b, deadline - time.time()))
        ex = symex.Exec(mod, name, mode, budget=b, qtimeout=float(opt.get('qt', 10 if tier == 'quick' else 60)),
                        max_steps=int(opt.get('steps', 3000000)), max_paths=int(opt.get('paths', 50000)), seed=seed)
        ex.run()
        res.update(mode=mode, paths=ex.paths, steps=ex.steps, forks=ex.forks, completed=ex.reached.get('<end>', 0),
                   reached={k: v for k, v in ex.reached.items()}, violations=ex.violations,
                   undecided=ex.undecided, trivial=ex.asserts_trivial, solved=ex.asserts_solved,
                   stats=ex.ctx.stats.dict(), functions=sorted(ex.funcs), witness=ex.witness, bounds=ex.bounds)
        # concrete re-execution of a few path inputs, to be compared with the native code
        pis = ex.pathinputs
        k = int(opt.get('validate', 6 if tier == 'quick' else 12))
        step = max(1, len(pis) // k) if pis else 1
        sel = pis[::step][:k]
        cv = []
        for vals in sel:
            c = symex.Exec(mod, name, mode, budget=15, concrete=vals, max_steps=int(opt.get('steps', 3000000)))
            obs = None
            done = []
            c.on_complete = lambda st, done=done: done.append(st.observed)
            try:
                c.run()
            except Exception as e:
                res.setdefault('cvnote', []).append(repr(e)[:200])
            cv.append((vals, done[0] if done else None, [v['key'] for v in c.violations], c.undecided))
        res['cv'] = cv
    except Exception as e:
        import traceback
        res['error'] = traceback.format_exc()
    res['wall'] = time.time() - t0
    return res


def write_inputs(path, vals):
    with open(path, 'w') as f:
        for k, (kind, v) in vals.items():
            k = k.replace(' ', '_')
            if kind in 'df':
                f.write('%s %s %016x\n' % (k, kind, struct.unpack('<Q', struct.pack('<d', float(v)))[0]))
            else:
                f.write('%s %s %d\n' % (k, kind, v))


def run_native(exe, name, vals, tmp, n=[0]):
    n[0] += 1
    p = os.path.join(tmp, 'in%d.txt' % n[0])
    write_inputs(p, vals)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=44')
    try:
        r = subprocess.run([exe, name, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, env=env, cwd=tmp)
        return r.returncode, r.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def confirmed(key, rc, out):
    """does the native run exhibit the violation?"""
    if key.startswith('termination:'):
        return rc == 'timeout' or (isinstance(rc, int) and (rc < 0 or rc in (42, 134, 139)))
    if key.startswith('memory:') or key.startswith('control flow:') or key.startswith('exception:') or \
            key.startswith('arithmetic:') or key.startswith('ctype:'):
        return rc in (43, 44) or (isinstance(rc, int) and (rc < 0 or rc in (134, 136, 139))) or rc == 42 or rc == 'timeout'
    return rc == 42 or rc in (43, 44) or (isinstance(rc, int) and rc < 0) or rc == 'timeout'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--harness')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    deadline = t0 + float(os.environ.get('VF_BUDGET', 420 if tier == 'quick' else 850))
    prop = a.prop
    src = os.path.join(HERE, 'harness', prop + '.cpp')
    fopts, hs = parse_harness(src)
    a.listed = {n for n, _ in hs}
    hs = [(n, o) for n, o in hs if (tier == 'thorough' or o.get('tier') != 'thorough') and (not a.harness or n == a.harness)]
    tmp = a.keep or tempfile.mkdtemp(prefix='vf-%s-' % prop)
    os.makedirs(tmp, exist_ok=True)
    try:
        return decide(prop, src, fopts, hs, tmp, tier, seed, t0, deadline, a)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) key="([^"]*)" (.*)', ln)
            if m and m.group(1) == prop:
                out[(m.group(2), m.group(3))] = m.group(4).strip()
    return out


def decide(prop, src, fopts, hs, tmp, tier, seed, t0, deadline, a):
    defs = ['-DVF_THOROUGH=1'] if tier == 'thorough' else []
    ll = os.path.join(tmp, prop + '.ll')
    exe = os.path.join(tmp, prop + '.native')
    exa = os.path.join(tmp, prop + '.asan')
    native_src = [src, os.path.join(HERE, 'harness', 'vf_native.cpp')]
    libs = fopts.get('native_libs', '').split()
    extra = fopts.get('flags', '').replace('$REPO', REPO).replace('$HERE', HERE).split()
    seen = {n for n, _ in hs}
    gbase = GCC + COMMON + defs + extra + native_src
    pool = cf.ThreadPoolExecutor(4)
    ncomp = pool.submit(sh, gbase + ['-o', exe] + libs + ['-ldl'])
    acomp = pool.submit(sh, gbase + ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                                     '-fno-sanitize=float-divide-by-zero', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-DVF_NO_NEW', '-o', exa] + libs + ['-ldl'])
    r = sh(CLANG + COMMON + defs + extra + [src, '-o', ll])
    if r.returncode:
        print(r.stdout.decode('latin1')[-4000:])
        print('ERROR: the harness of %s does not compile against the current tree' % prop)
        acomp.result(); ncomp.result()
        return 2
    t_ir = time.time() - t0
    for n in re.findall(r'^define [^@]*@(%s_\w+)\(\)' % prop.lower(), open(ll).read(), re.M):
        if n not in seen and n not in a.listed and not a.harness:
            hs.append((n, {}))
    jobs = [(ll, n, o, tier, seed, deadline) for n, o in hs]
    results = []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as p:
        for res in p.imap_unordered(explore, jobs):
            results.append(res)
            if a.v:
                print('  %-34s %6.1fs paths=%-5s steps=%-8s solved=%-5s triv=%-6s viol=%s undecided=%s %s' % (
                    res['harness'], res['wall'], res.get('paths'), res.get('steps'), res.get('solved'), res.get('trivial'),
                    [v['key'] for v in res.get('violations', [])], res.get('undecided', [])[:3], (res['error'] or '')[-600:]), flush=True)
    results.sort(key=lambda r: r['harness'])
    nr = ncomp.result()
    if nr.returncode:
        print(nr.stdout.decode('latin1')[-3000:])
        print('ERROR: native build of the harness failed')
        acomp.result()
        return 2
    kf = known_findings(prop)
    rdir = os.path.join(EVID, 'replays')
    viol, spurious, known, notes, validated, mismatch = [], [], [], [], 0, []
    for res in results:
        name = res['harness']
        if res['error']:
            notes.append('%s: internal error: %s' % (name, res['error'].strip().split('\n')[-1]))
            continue
        for v in res['violations']:
            tries = [v['inputs']] + v['alts']
            ok = None
            for vals in tries:
                rc, out = run_native(exe, name, vals, tmp)
                if confirmed(v['key'], rc, out):
                    ok = (vals, rc, out)
                    break
                if v['key'].startswith('termination:'):
                    # an optimizing compiler may assume that every loop ends: replay without optimization
                    ex0 = exe + '0'
                    if not os.path.exists(ex0):
                        sh([x for x in gbase if x != '-O2'] + ['-O0', '-o', ex0] + libs + ['-ldl'])
                    if os.path.exists(ex0):
                        rc, out = run_native(ex0, name, vals, tmp)
                        if confirmed(v['key'], rc, out):
                            ok = (vals, rc, out)
                            break
                    continue
                ar = acomp.result()
                if ar.returncode == 0:
                    rc, out = run_native(exa, name, vals, tmp)
                    if confirmed(v['key'], rc, out):
                        ok = (vals, rc, out)
                        break
            if not ok:
                spurious.append((name, v['key']))
                continue
            k = kf.get((name, v['key']))
            if k is not None:
                known.append((name, v['key'], k))
                continue
            os.makedirs(rdir, exist_ok=True)
            hsh = hashlib.sha1((name + v['key']).encode()).hexdigest()[:8]
            rp = os.path.join(rdir, '%s-%s-%s.txt' % (prop, name, hsh))
            with open(rp, 'w') as f:
                f.write('# property %s, harness %s, violated: %s (%s)\n' % (prop, name, v['key'], v['detail']))
                f.write('# replay: python3-vt check.py needs not be re-run; native program: %s\n' % ' '.join(gbase))
                f.write('# native exit: %s\n' % ok[1])
                for l in ok[2].strip().split('\n')[-25:]:
                    f.write('#   %s\n' % l)
                for kx, (kind, val) in ok[0].items():
                    f.write('%s %s %r\n' % (kx, kind, val))
            viol.append((name, v['key'], rp))
        # translation validation: concrete interpretation of the encoding against the native code
        for vals, obs, cviol, cund in res.get('cv', []):
            rc, out = run_native(exe, name, vals, tmp)
            if rc == 77:
                continue
            if rc != 0:
                if not any(x[0] == name for x in viol + known):
                    mismatch.append('%s: native run ends with %s: %s' % (name, rc, ' / '.join(out.strip().split('\n')[-2:])[:160]))
                continue
            if obs is None:
                mismatch.append('%s: encoding does not complete on a concrete input (%s %s)' % (name, cviol, cund))
                continue
            nobs = re.findall(r'^VF_OBSI? (.*) (\S+)$', out, re.M)
            bad = None
            if len(nobs) != len(obs):
                bad = 'number of observations'
            else:
                for (l, v), (nl, nv) in zip(obs, nobs):
                    if isinstance(v, float):
                        d = struct.unpack('<d', struct.pack('<Q', int(nv, 16)))[0]
                        if not (v == d or (v != v and d != d) or abs(v - d) <= 1e-9 * (1 + abs(d))):
                            bad = '%s: encoding %r native %r' % (l, v, d)
                    else:
                        from symex import sext
                        if sext(v, 64) != int(nv):
                            bad = '%s: encoding %r native %r' % (l, v, nv)
            if bad:
                mismatch.append('%s: %s' % (name, bad))
            else:
                validated += 1
    acomp.result()
    und = [(r['harness'], u) for r in results for u in r.get('undecided', [])]
    vac = [r['harness'] for r in results if not r['error'] and not r.get('completed') and not r['violations'] and not r.get('undecided')]
    for v in vac:
        und.append((v, 'vacuous: no path reaches the end of the harness'))
    for n_, k, w in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s [%s: %s]' % (prop, w, n_, k))
    for n_, k, rp in viol:
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, HERE)))
        print('  %s: %s' % (n_, k))
    for n_, k in spurious:
        und.append((n_, 'counterexample for "%s" does not replay natively' % k))
    for n_, u in und[:20]:
        print('UNDECIDED %s: %s' % (n_, u))
    for m in mismatch[:20]:
        print('ENCODING-MISMATCH %s' % m)
    for m in notes:
        print('NOTE %s' % m)
    evidence(prop, tier, seed, t0, t_ir, results, viol, known, und, mismatch, notes, validated, hs, fopts)
    if a.v:
        print('%s: %d harnesses, %.1fs' % (prop, len(results), time.time() - t0))
    if viol:
        return 1
    if notes and len(notes) == len(results):
        return 2
    return 0


def evidence(prop, tier, seed, t0, t_ir, results, viol, known, und, mismatch, notes, validated, hs, fopts):
    good = [r for r in results if not r['error']]
    S = lambda k: sum(r.get(k, 0) for r in good)
    Q = lambda k: sum(r['stats'][k] for r in good)
    funcs = sorted(set(f for r in good for f in r['functions']))
    try:
        dm = subprocess.run(['c++filt'], input='\n'.join(f[1:] for f in funcs), stdout=subprocess.PIPE, text=True, timeout=20).stdout.split('\n')
    except Exception:
        dm = funcs
    samples = []
    for r in good:
        for vals, obs, _, _ in r.get('cv', [])[:1]:
            samples.append({'harness': r['harness'], 'inputs': {k: repr(v[1]) for k, v in list(vals.items())[:12]},
                            'observed': [[l, repr(v)] for l, v in (obs or [])[:6]]})
    cov = {
        'states': S('paths'), 'transitions': S('steps'), 'traces_validated_against_impl': validated,
        'samples': samples[:12],
        'explanation': 'states = symbolic paths explored to their end; transitions = LLVM IR instructions executed symbolically; '
                       'each assertion on each path was decided by the SMT solver for all values of the symbolic inputs within the bounds; '
                       'traces_validated = inputs of explored paths run through both the encoding (concretely) and the natively compiled code with agreeing observations',
        'harnesses': [{'name': r['harness'], 'mode': 'exact reals' if r.get('mode') == 'real' else 'bit-exact IEEE-754 / bit-vectors',
                       'paths': r['paths'], 'completed': r['completed'], 'forks': r['forks'], 'instructions': r['steps'],
                       'assertions_solved': r['solved'], 'assertions_constant': r['trivial'], 'vacuity_witness': r['witness'],
                       'solver': r['stats'], 'bounds': compact(r['bounds']), 'wall_s': round(r['wall'], 2)} for r in good],
        'queries_discharged': Q('queries'), 'unsat': Q('unsat'), 'sat': Q('sat'), 'unknown': Q('unknown'),
        'solver_time_s': round(Q('solver_time_s'), 3), 'assertions_solved': S('solved'), 'assertions_constant': S('trivial'),
        'functions_encoded': len(funcs), 'functions': [d for d in dm if d][:150],
        'bounds': fopts.get('bounds', ''), 'undecided': ['%s: %s' % u for u in und][:50],
        'encoding_mismatches': mismatch[:20], 'errors': notes,
        'known_findings': ['%s: %s' % (k[0], k[1]) for k in sorted(set(known))],
        'ir_build_s': round(t_ir, 2), 'exhaustive': False,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUME + ([fopts['assume']] if 'assume' in fopts else []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def compact(b):
    """input families name#k -> one line per distinct range"""
    out = {}
    for k, v in b.items():
        n = k.split('#')[0]
        out.setdefault((n, v), 0)
        out[(n, v)] += 1
    return ['%s (x%d): %s' % (n, c, v) for (n, v), c in list(out.items())[:40]]


ASSUME = ['clang 18 -O1 IR of the current sources (g++ replays), x86-64, NDEBUG as in the shipped build',
          'exact-reals harnesses: + - * / are exact on symbolic operands (IEEE rounding of symbolic values is outside the claim), decimal constants stand for their shortest decimal and multiples of pi for exact multiples; concrete sub-computations use IEEE arithmetic',
          'log messages have empty bodies; allocation never fails',
          'loops are unrolled completely within the stated input ranges (no truncation: an exhausted limit is reported as undecided)']

if __name__ == '__main__':
    sys.exit(main())
