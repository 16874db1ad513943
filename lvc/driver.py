"""check.py PROPERTY quick|thorough: verifies the contracts of one property against /repo's current tree."""
import sys, os, json, time, threading, subprocess, shutil, re, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import toolchain as tc

PY = sys.executable
VERIF = tc.VERIF
NPROC = int(os.environ.get('VC_JOBS', '8'))
TRUSTED = [
    'clang 18 front end and the opt-18 clean-up passes preserve the meaning of the C++ source (same flags as the tests, -O1 pass list in lvc/toolchain.py)',
    'the verifier itself: lvc/ir.py (IR parser), lvc/sx.py (symbolic execution, memory model), lvc/loops.py (invariant inference, each invariant re-checked by the solver), lvc/rat.py (rational normal form), lvc/smt.py (encoding)',
    'z3 and cvc5',
    'double is modelled as the mathematical reals: rounding, overflow to infinity and NaN are outside the proof (single-precision conversions are uninterpreted)',
    'signed integer overflow does not occur where the language makes it undefined',
    'contracts of the C++ library (std::vector over trivially copyable elements, std::copy, allocation never fails, iostream writes have no effect on geometry) as written in lvc/lib.py',
    'termination is not proved (partial correctness)',
]


def load_props():
    sys.path.insert(0, VERIF)
    import props
    return props.PROPS


class Native:
    def __init__(self, tu, exe):
        self.tu, self.exe = tu, exe

    def replay(self, entry, path, tol=None, timeout=40):
        env = dict(os.environ)
        if tol:
            env['VC_TOL'] = str(tol)
        try:
            r = subprocess.run([self.exe, entry, 'replay', path], capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
        except subprocess.TimeoutExpired:
            return 2, 'does not terminate within %d s' % timeout
        return r.returncode, r.stderr[-600:]

    def search(self, entry, seed, count, secs, out, restrict, tol=None):
        env = dict(os.environ)
        if tol:
            env['VC_TOL'] = str(tol)
        cmd = [self.exe, entry, 'search', str(seed), str(count), str(secs), out] + ['%s=%d:%d' % (k, v[0], v[1]) for k, v in (restrict or {}).items()]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 60, env=env, errors='replace')
        except subprocess.TimeoutExpired:
            return 3, 'native search timed out'
        return r.returncode, r.stderr[-3000:]


def run_job(spec, path, timeout, stop, failed=None):
    if failed is not None and failed.is_set():      # the contract is not discharged anyway: short limits
        spec = dict(spec, opts=dict(spec['opts'], hurry=True))
        timeout = min(timeout, 120)
    sp, op = path + '.spec.json', path + '.out.json'
    json.dump(spec, open(sp, 'w'))
    base = {'harness': spec['entry'], 'enum': spec.get('enum')}
    if stop.is_set():
        return dict(base, status='skipped', why='a failing input is already known')
    err = open(path + '.err', 'w+')
    t0 = time.time()
    p = subprocess.Popen([PY, '-m', 'lvc.job', sp, op], cwd=VERIF, env=dict(os.environ, PYTHONHASHSEED='0'), stdout=subprocess.DEVNULL, stderr=err, text=True)
    while p.poll() is None:
        if stop.is_set() or time.time() - t0 > timeout:
            p.kill()
            p.wait()
            if stop.is_set():
                return dict(base, status='skipped', why='a failing input is already known')
            return dict(base, status='timeout', why='time limit %d s' % timeout)
        time.sleep(0.05)
    if os.path.exists(op):
        return json.load(open(op))
    return dict(base, status='unsupported', why='verifier died: ' + open(path + '.err', errors='replace').read()[-1500:])


def main(argv):
    t0 = time.time()
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    only = [a[7:] for a in argv if a.startswith('--only=')]
    P = load_props()[pid]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = os.path.join(tc.BUILD, '%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check(pid, P, tier, seed, work, t0, verbose, only)
    finally:
        if not os.environ.get('VC_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def check(pid, P, tier, seed, work, t0, verbose, only):
    hs = [h for h in P['harnesses'] if tier == 'thorough' or not h.get('thorough_only')]
    if only:
        hs = [h for h in hs if h['entry'] in only]
    tus = sorted({h['tu'] for h in hs})
    errors, viol, kf = [], [], []

    def compile_tu(tu):
        src = os.path.join(VERIF, 'tu', tu)
        ll = os.path.join(work, tu + '.ll')
        dm = os.path.join(work, tu + '.dem.json')
        text, dem = tc.compile_ir(src)
        open(ll, 'w').write(text)
        json.dump(dem, open(dm, 'w'))
        return ll, dm

    def build_native(tu):
        exe = os.path.join(work, tu + '.exe')
        tc.native(os.path.join(VERIF, 'tu', tu), exe)
        return Native(tu, exe)

    results = []
    samples = {}
    stop = threading.Event()
    with ThreadPoolExecutor(NPROC) as pool:
        cf = {tu: pool.submit(compile_tu, tu) for tu in tus}
        nf = {tu: pool.submit(build_native, tu) for tu in tus}
        jobs = []
        ir_err = {}
        for tu in tus:
            try:
                cf[tu].result()
            except tc.BuildError as e:
                ir_err[tu] = str(e)
        if ir_err:
            rp = os.path.join(VERIF, 'build', 'replay', '%s-contracts.replay' % pid)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, 'w').write('# the contracts of %s do not compile against the current tree\n' % pid + '\n'.join(ir_err.values()) + '\n')
            print('ERROR: the contracts do not compile against the current tree:\n' + '\n'.join(ir_err.values())[-3000:])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
            return 1
        # native reachability witness + sampling of every contract
        def sample(h):
            n = nf[h['tu']].result()
            s = h.get('sample', {})
            secs = s.get('secs', 6) * (5 if tier == 'thorough' else 1)
            out = os.path.join(work, h['entry'] + '.sample')
            r = n.search(h['entry'], seed, s.get('count', 400) * (20 if tier == 'thorough' else 1), secs, out,
                         s.get('restrict'), s.get('tol'))
            if r[0] == 2:
                # the verifier gets some more time to name the failed obligations itself
                threading.Timer(20, stop.set).start()
            return r, out
        sf = {h['entry']: pool.submit(sample, h) for h in hs}
        njob = 0
        todo = []
        for h in hs:
            ll, dm = cf[h['tu']].result()
            enum = dict(h.get('enum') or {})
            if tier == 'thorough':
                enum.update(h.get('enum_thorough') or {})
            combos = [{}]
            for var in h.get('split', ()):
                lo, hi = enum[var]
                combos = [dict(c, **{var: [v, v]}) for c in combos for v in range(hi, lo - 1, -1)]
            if h.get('filter'):
                combos = [c for c in combos if eval(h['filter'], {}, {k: v[0] for k, v in c.items()})]
            for c in combos:
                e = {k: list(v) for k, v in enum.items()}
                e.update(c)
                opts = dict(h.get('opts') or {})
                if tier == 'thorough':
                    opts.update(h.get('opts_thorough') or {})
                spec = {'ll': ll, 'dem': dm, 'entry': h['entry'], 'enum': e, 'opts': opts, 'stubs': h.get('stubs', []),
                        'mem_gb': h.get('mem_gb', 6)}
                to = h.get('timeout', 400) * (4 if tier == 'thorough' else 1)
                opts.setdefault('time_limit', to)
                njob += 1
                todo.append((h, spec, os.path.join(work, 'job%d' % njob), to + 20))
        todo.sort(key=lambda x: -x[0].get('weight', 1))
        failed = {h['entry']: threading.Event() for h in hs}

        def confirm(h, spec, r, path):
            """a first failed obligation: look for an input at once, so that the rest need not be verified"""
            nat, tol = nf[h['tu']].result(), h.get('sample', {}).get('tol')
            for i, (label, where, status, inputs, goal) in enumerate(r['fails']):
                if inputs is not None:
                    open('%s.cex%d' % (path, i), 'w').write('# harness %s\n# obligation: %s\n' % (h['entry'], label) + '\n'.join(inputs) + '\n')
                    if nat.replay(h['entry'], '%s.cex%d' % (path, i), tol)[0] == 2:
                        early.setdefault(h['entry'], '%s.cex%d' % (path, i))
                        return threading.Timer(5, stop.set).start()
            out = path + '.found'
            for en in (spec['enum'], h.get('sample', {}).get('restrict')):
                if stop.is_set():
                    return
                if nat.search(h['entry'], seed * 1000 + 77, 10 ** 7, h.get('search', 25), out, en, tol)[0] == 2:
                    early.setdefault(h['entry'], out)
                    return threading.Timer(5, stop.set).start()

        def one(h, spec, path, to):
            r = run_job(spec, path, to, stop, failed[h['entry']])
            if r.get('fails') and not failed[h['entry']].is_set():
                failed[h['entry']].set()
                try:
                    confirm(h, spec, r, path)
                except Exception as e:
                    print('NOTE: search for an input: %s' % e)
            return r
        early = {}
        rf = [(h, spec, pool.submit(one, h, spec, path, to)) for h, spec, path, to in todo]
        for h, spec, f in rf:
            r = f.result()
            results.append((h, spec, r))
        for h in hs:
            try:
                samples[h['entry']] = sf[h['entry']].result()
            except tc.BuildError as e:
                errors.append('native build of %s failed: %s' % (h['tu'], e))
        natives = {}
        for tu in tus:
            try:
                natives[tu] = nf[tu].result()
            except tc.BuildError as e:
                errors.append('native build of %s failed' % tu)

    # ------------------------------------------------------------------ evaluation
    replays = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(replays, exist_ok=True)
    harn = {h['entry']: h for h in hs}
    notes = []
    bad = {}          # entry -> list of (label, status, inputs, detail, enum)
    for h, spec, r in results:
        if r['status'] not in ('ok', 'skipped'):
            why = r['why'].strip().split('\n')[-1]
            bad.setdefault(h['entry'], []).append(('the verifier accepts the contract', h['entry'], r['status'], None, why, spec['enum']))
            notes.append('%s %s: %s (%s)' % (h['entry'], spec['enum'] or '', r['status'], r['why'].strip().split('\n')[-1] if not verbose else r['why']))
        for label, where, status, inputs, goal in r.get('fails') or []:
            bad.setdefault(h['entry'], []).append((label, where, status, inputs, goal, spec['enum']))
    for h in hs:
        e = h['entry']
        tol = h.get('sample', {}).get('tol')
        nat = natives.get(h['tu'])
        confirmed = None
        sr = samples.get(e)
        if sr and sr[0][0] == 2:
            confirmed = sr[1]
        named = bad.get(e, [])
        if not confirmed:
            confirmed = early.get(e)
        if not confirmed and nat:
            for label, where, status, inputs, goal, en in named[:12]:
                if inputs is None:
                    continue
                path = os.path.join(work, '%s.cex' % e)
                open(path, 'w').write('# harness %s\n# obligation: %s\n' % (e, label) + '\n'.join(inputs) + '\n')
                rc, msg = nat.replay(e, path, tol)
                if rc == 2:
                    confirmed = path
                    break
        if not confirmed and nat and named:
            # the failed obligation gives no replayable input: search around the enum values that failed
            with ThreadPoolExecutor(NPROC) as pool:
                fs = []
                for i in range(NPROC):
                    en = named[i % len(named)][5] or {}
                    out = os.path.join(work, '%s.s%d' % (e, i))
                    fs.append((pool.submit(nat.search, e, seed * 1000 + i, 10 ** 7, h.get('search', 25), out,
                                           en if i < 6 else h.get('sample', {}).get('restrict'), tol), out))
                for f, out in fs:
                    if f.result()[0] == 2 and not confirmed:
                        confirmed = out
        failed = [x for x in named if x[2] == 'failed']
        unknown = [x for x in named if x[2] != 'failed']
        if not confirmed and not named:
            if sr and sr[0][0] not in (0,):
                errors.append('native sampling of %s: %s' % (e, sr[0][1].strip()[-300:]))
            continue
        if not confirmed and not failed:
            notes.append('%s: %d obligation(s) not discharged: %s' % (e, len(unknown), '; '.join(sorted({x[0] for x in unknown}))))
        rp = os.path.join(replays, '%s-%s.replay' % (pid, e))
        txt = '# property %s\n# contract %s in tu/%s\n' % (pid, e, h['tu'])
        for label, where, status, inputs, goal, en in named[:10]:
            txt += '# obligation %s: %s [%s] at %s\n#   goal: %s\n' % (status, label, en, where, goal)
            if inputs and not confirmed:
                txt += '#   solver model (does not replay): %s\n' % (' | '.join(inputs))[:1500]
        label = None
        if confirmed:
            body = open(confirmed).read()
            txt += body
            m = re.search(r'# failed: (.*)', body)
            label = m.group(1) if m else named[0][0]
        else:
            label = (failed or named)[0][0]
        open(rp, 'w').write(txt)
        viol.append((e, label, rp, bool(confirmed)))
    # ------------------------------------------------------------------ evidence
    obl = sum(o['n'] for _, _, r in results for o in (r.get('obls') or {}).values())
    dis = sum(o['proved'] for _, _, r in results for o in (r.get('obls') or {}).values())
    by = {}
    labels = {}
    funcs = {}
    summ = set()
    smt_t = rat_t = 0.0
    loops = set()
    for h, spec, r in results:
        for lb, o in (r.get('obls') or {}).items():
            for b, c in o['by'].items():
                by[b] = by.get(b, 0) + c
            x = labels.setdefault(h['entry'], {}).setdefault(lb, [0, 0])
            x[0] += o['n']
            x[1] += o['proved']
        for f, c in (r.get('funcs') or {}).items():
            if f.startswith('cmmcore::') or ' cmmcore::' in f:
                funcs[f] = funcs.get(f, 0) + c
        summ |= set(r.get('summaries') or [])
        smt_t += r.get('smt', {}).get('time', 0) + r.get('smt', {}).get('cvc5_time', 0)
        rat_t += r.get('rat', {}).get('time', 0)
        loops |= set(r.get('loops_cut') or [])
    # vacuity: every contract produced obligations, and the native witness reached every explicit check
    for h in hs:
        e = h['entry']
        if not stop.is_set() and not labels.get(e) and not any(x.startswith(e) for x in errors):
            errors.append('%s generated no obligation' % e)
        sr = samples.get(e)
        if sr and sr[0][0] == 0:
            m = re.search(r'reached=(.*)', sr[0][1])
            reached = set(x for x in m.group(1).split('|') if x) if m else set()
            lab = {l for l in labels.get(e, {}) if not l.startswith('no-') and l != 'memory-safety' and not l.startswith('callee: ')}
            miss = lab - reached - set(h.get('symbolic_only', ()))
            if miss:
                errors.append('%s: no accepted input reaches: %s' % (e, '; '.join(sorted(miss))))
    bounded = [h for h in hs if h.get('bounded')]
    level = P['level']
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
        'trusted_base': TRUSTED + P.get('trusted', []),
        'discharged_by': by, 'solver_time_s': round(smt_t, 2), 'normal_form_time_s': round(rat_t, 2),
        'contracts': {h['entry']: {'tu': h['tu'], 'what': h.get('what', ''),
                                   'scope': 'BOUNDED: ' + h['bounded'] if h.get('bounded') else 'all inputs of the contract (no bound)',
                                   'enumerated': {k: list(v) for k, v in (h.get('enum') or {}).items()},
                                   'obligations': {l: {'generated': c[0], 'discharged': c[1]} for l, c in labels.get(h['entry'], {}).items()}}
                      for h in hs},
        'functions_under_contract': sorted(funcs),
        'loops_cut_by_inferred_invariants': sorted(loops),
        'library_contracts_assumed': sorted(summ),
        'bounded_contracts': [h['entry'] for h in bounded],
        'native_witness': {e: s[0][1].strip()[:200] for e, s in samples.items()},
    }
    if level != 'proof':
        cov['explanation'] = P.get('explanation', 'deductive verification of the real functions; the contracts marked BOUNDED hold for every real-valued content but only for the stated container sizes')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    # ------------------------------------------------------------------ report
    for h, spec, r in results:
        if verbose:
            print('%-28s %-22s %-11s %6.1fs paths=%s %s' % (h['entry'], json.dumps(spec['enum']), r['status'], r.get('wall', 0), r.get('paths'),
                  '' if r['status'] == 'ok' else r['why'][:300]))
    if verbose:
        for e, s in samples.items():
            print('   sample', e, s[0][0], s[0][1].strip()[:160])
    print('%s: %d contracts, %d obligations, %d discharged (%s), %.1f s' % (pid, len(hs), obl, dis, ', '.join('%s %d' % x for x in sorted(by.items())), time.time() - t0))
    for k in known_findings(pid):
        ok = run_known(k, natives, tc, work)
        print('KNOWN-FINDING: property=%s %s%s' % (pid, k['what'], '' if ok else ' (no longer reproduces)'))
    for e, label, rp, conf in viol:
        print('failed obligation in contract %s: %s' % (e, label))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if conf else ' no-failing-input-found'))
    for e in notes:
        print('NOTE: ' + e)
    for e in errors:
        print('UNDECIDED: ' + e)
    if viol:
        return 1
    return 2 if errors else 0


def run_known(k, natives, tc, work):
    """re-runs the recorded failing input against the real code"""
    if not k.get('harness'):
        return True
    try:
        tu = k['tu']
        n = natives.get(tu)
        if n is None:
            exe = os.path.join(work, tu + '.exe')
            tc.native(os.path.join(VERIF, 'tu', tu), exe)
            n = Native(tu, exe)
        path = os.path.join(VERIF, k['replay'])
        return n.replay(k['harness'], path)[0] == 2
    except Exception:
        return False
