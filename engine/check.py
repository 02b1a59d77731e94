"""check.py <property> : extract the current tree, discharge the property's obligations, replay/bounded harness, evidence."""
import sys, os, time, json, re, subprocess, tempfile, shutil, signal, importlib, threading, pickle, select
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
OSSL = '/usr/local/openssl'
CXX = ['g++', '-std=c++17', '-fpic', '-Wno-deprecated-declarations', '-Wno-unused-result', '-w', '-O1', '-fopenmp', '-maes', '-msse2', '-msse4', '-mpclmul']

class Harness:
    """compile a /verif/harness/*.cpp against the current tree and run it (in a process of its own)"""
    def start(self):
        r, w = os.pipe(); self.pid = os.fork()
        if self.pid == 0:
            os.close(r); self.run()
            b = pickle.dumps((self.fails, self.cases, self.error, self.time, self.checks))
            while b: b = b[os.write(w, b):]
            os._exit(0)
        os.close(w); self.fd = r
    def join(self):
        b = b''
        while True:
            c = os.read(self.fd, 1 << 20)
            if not c: break
            b += c
        os.waitpid(self.pid, 0)
        try: self.fails, self.cases, self.error, self.time, self.checks = pickle.loads(b)
        except Exception: self.error = 'harness process died'
    def __init__(self, src, tier, seed, limit):
        self.src = src; self.tier = tier; self.seed = seed; self.limit = limit
        self.fails = []; self.cases = []; self.error = None; self.time = 0; self.checks = 0
    def run(self):
        t0 = time.time()
        d = tempfile.mkdtemp(prefix='verif_h_')
        try:
            self._run(d)
        except Exception as e:
            self.error = 'harness error: %s' % e
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.time = time.time() - t0
    def _run(self, d):
        import astload
        src = os.path.join(d, 'repo')
        shutil.copytree(REPO, src, ignore=shutil.ignore_patterns('_build', '.git', 'docs', 'build', '*.png', '*.pdf', '*.point'))
        astload.write_config(os.path.join(src, 'config', 'config.h'))
        m = re.match(r'// UNDEF: (.*)', open(os.path.join(VERIF, 'harness', self.src)).readline())
        if m:
            for f in astload.DEFINE_FILES:
                g = os.path.join(src, f)
                if os.path.exists(g): t = astload.strip_defines(open(g).read(), m.group(1).split()); open(g, 'w').write(t)
        exe = os.path.join(d, 'h')
        m = re.match(r'// DEFINE: (.*)', open(os.path.join(VERIF, 'harness', self.src)).readline())
        cmd = CXX + (['-D' + x for x in m.group(1).split()] if m else []) + ['-I', src, '-I', OSSL + '/include', '-I', os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness', self.src), '-o', exe,
                     '-L', OSSL + '/lib64', OSSL + '/lib64/libssl.a', OSSL + '/lib64/libcrypto.a', '-ldl', '-lpthread']
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            self.error = 'harness does not compile against the current tree:\n' + p.stderr[:1500]; return
        scr = os.path.join(d, 's'); os.mkdir(scr)
        env = dict(os.environ, OMP_NUM_THREADS='8', OMP_WAIT_POLICY='passive')
        env.pop('VERBOSE', None)
        pr = subprocess.Popen([exe, self.tier, 'seed=%d' % self.seed, 'scratch=' + scr], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                              text=True, env=env, start_new_session=True)
        timer = threading.Timer(self.limit, lambda: os.killpg(pr.pid, signal.SIGKILL)); timer.start()
        end = None
        for l in pr.stdout:
            l = l.rstrip('\n')
            if l.startswith('FAIL '):
                m = re.match(r'FAIL key=(.*?) : (.*)', l)
                self.fails.append((m.group(1), m.group(2)) if m else (l, l))
            elif l.startswith('CASE '):
                m = re.match(r'CASE (\S+) checks=(\d+)', l); self.cases.append(m.group(1)); self.checks += int(m.group(2))
            elif l.startswith('COUNT '): self.checks += int(l.split()[1])
            elif l.startswith('END'): end = l
        pr.wait(); timer.cancel()
        try: os.killpg(pr.pid, signal.SIGKILL)
        except OSError: pass
        if end is None: self.error = 'harness did not finish within %d s' % self.limit

def run_tasks(tasks, ctx, par, limit):
    """each task in its own forked process, killed at its limit"""
    res = [None] * len(tasks); running = {}; nxt = 0; t_end = time.time() + limit
    def start(i):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            def work():
                import solver
                t = tasks[i]; t.run(ctx)
                out = dict(name=t.name, obls=t.obls, functions=t.functions, inlined=t.inlined, contracts=t.contracts, externs=t.externs,
                           assumed=t.assumed, summaries=t.summaries, error=t.error, time=t.time, bounded=t.bounded, solver=dict(solver.STATS))
                b = pickle.dumps(out)
                while b: b = b[os.write(w, b):]
            th = threading.Thread(target=work); th.start(); th.join()
            os._exit(0)
        os.close(w)
        running[pid] = [i, r, b'', time.time()]
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < par and time.time() < t_end:
            start(nxt); nxt += 1
        if nxt < len(tasks) and time.time() >= t_end and not running: break
        if not running: continue
        rl, _, _ = select.select([v[1] for v in running.values()], [], [], 1)
        for pid, v in list(running.items()):
            done = False
            if v[1] in rl:
                b = os.read(v[1], 1 << 20)
                if b: v[2] += b
                else: done = True
            over = time.time() - v[3] > tasks[v[0]].wall or time.time() > t_end + 30
            if over and not done:
                os.kill(pid, signal.SIGKILL); done = True; v[2] = b''
            if done:
                os.close(v[1]); os.waitpid(pid, 0); del running[pid]
                try: res[v[0]] = pickle.loads(v[2])
                except Exception: res[v[0]] = None
    out = []
    for i, r in enumerate(res):
        if r is None:
            r = dict(name=tasks[i].name, obls=[], functions=set(), inlined=set(), contracts=set(), externs=set(), assumed=set(), summaries=0,
                     error='time limit of the verifier reached', time=tasks[i].wall, bounded=tasks[i].bounded, solver={})
        out.append(r)
    return out

def known():
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) at=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'): tier = a
        if a.startswith('task='): only = a[5:]
    verbose = '-v' in sys.argv; noh = '-n' in sys.argv
    t0 = time.time()
    mod = importlib.import_module('props.' + pid.lower())
    budget = 560 if tier == 'quick' else 3000
    hs = [] if noh else [Harness(h, tier, seed, budget) for h in getattr(mod, 'HARNESS', [])]
    for h in hs: h.start()
    ctx = {'tier': tier}
    err = None; results = []
    try:
        tasks = mod.tasks(tier)
        if only: tasks = [t for t in tasks if re.search(only, t.name)]
        for pre in getattr(mod, 'PRELOAD', []): pre()
        results = run_tasks(tasks, ctx, 6, budget)
    except Exception as e:
        import traceback
        err = '%s: %s' % (type(e).__name__, str(e)[:800]); 
        if verbose: traceback.print_exc()
    for h in hs: h.join()
    kn = [(a, d) for p, a, d in known() if p == pid]
    used_known = {}
    viol = []     # (key, text, confirmed)
    for h in hs:
        for k, msg in h.fails:
            for a, d in kn:
                if k == a: used_known[a] = d; break
            else: viol.append((k, 'real code, %s: %s' % (h.src, msg), True))
    for r in results:
        for n, s, det in r['obls']:
            if s is False:
                key = '%s/%s' % (r['name'], n)
                for a, d in kn:
                    if key.replace(' ', '_') == a: used_known[a] = d; break
                else: viol.append((key, 'obligation failed: %s' % (det or ''), False))
    confirmed = any(c for _, _, c in viol)
    obl = [(r, o) for r in results for o in r['obls']]
    proved = sum(1 for _, o in obl if o[1] is True)
    undecided = [(r['name'], o[0], o[2]) for r, o in obl if o[1] is None] + [(r['name'], '(task)', r['error']) for r in results if r['error']]
    if err: undecided.append(('extraction', '(all)', err))
    if verbose:
        for r in results:
            print('%-60s %6.1fs %s' % (r['name'], r['time'], 'ERR ' + r['error'] if r['error'] else ''))
            for n, s, d in r['obls']: print('     [%s] %s%s' % ({True: 'ok', False: 'REFUTED', None: '??'}[s], n, '' if s is True else '  ' + str(d)[:700]))
        for h in hs: print('harness %s: cases=%d checks=%d fails=%d %.1fs %s' % (h.src, len(h.cases), h.checks, len(h.fails), h.time, h.error or '')); [print('   ', f) for f in h.fails]
    allproved = bool(results) and not undecided and all(o[1] is True for _, o in obl)
    nb = [r for r in results if r['bounded']]
    herr = [h for h in hs if h.error]
    hok = hs and not herr
    std = sorted({c for r in results for c in r['contracts']}); inl = sorted({c for r in results for c in r['inlined'] if c})
    fns = sorted({c for r in results for c in r['functions'] if c}); exts = sorted({c for r in results for c in r['externs']})
    solver_stats = {}
    for r in results:
        for k, v in r['solver'].items():
            if isinstance(v, (int, float)): solver_stats[k] = round(solver_stats.get(k, 0) + v, 3)
    if not allproved: level = 'other'
    elif nb: level = 'other'
    else: level = 'proof'
    import base_assumptions as BA
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': len(obl), 'discharged': proved,
            'undecided': [{'task': a, 'obligation': b, 'reason': str(c)[:400]} for a, b, c in undecided],
            'checker_cmd': 'python3-vt engine/check.py %s' % pid,
            'trusted_base': ['clang 18 front end (AST of the current tree)', '/verif/engine (VC generator, term normaliser)', 'z3 (python bindings)'] + BA.TRUSTED,
            'back_end': 'engine term normal forms (polynomial/Boolean-ring/byte-string identities) and z3', 'solver': solver_stats,
            'functions_under_contract': fns, 'functions_inlined_from_source': inl, 'callee_contracts_used': std, 'external_contracts_assumed': exts,
            'loops_summarised_by_invariant': sum(r['summaries'] for r in results),
            'bounded_tasks': [{'task': r['name'], 'bound': r['bounded'], 'obligations': len(r['obls'])} for r in nb],
            'tasks': [{'task': r['name'], 'obligations': len(r['obls']), 'proved': sum(1 for o in r['obls'] if o[1] is True),
                       'kind': 'bounded: ' + r['bounded'] if r['bounded'] else 'proof', 'error': r['error'], 'time_s': round(r['time'], 2)} for r in results],
            'replay_harness': [{'file': 'harness/' + h.src, 'cases': h.cases, 'checks': h.checks, 'fails': len(h.fails), 'error': h.error, 'kind': 'bounded (sampled and edge inputs on the compiled code; never counted as proved)'} for h in hs],
        },
        'assumptions': BA.ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({a for r in results for a in r['assumed']}),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for a, d in used_known.items(): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    print('%s: obligations=%d discharged=%d undecided=%d bounded_tasks=%d harness_checks=%d wall=%.0fs' % (
        pid, len(obl), proved, len(undecided), len(nb), sum(h.checks for h in hs), time.time() - t0))
    for a, b, c in undecided[:20]: print('  undecided: %s / %s: %s' % (a, b, str(c)[:300].replace('\n', ' ')))
    for h in herr: print('  harness: %s' % h.error[:400])
    if viol:
        rp = os.path.join(VERIF, 'evidence', pid + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %d violated obligation(s)\n' % (pid, len(viol)))
            for k, t, c in viol: f.write('\n[%s]\n%s\n' % (k, t))
            if confirmed: f.write('\nreplay: %s\n' % '; '.join('compile /verif/harness/%s with -I/repo and run it with seed=%d' % (h.src, seed) for h in hs if h.fails))
        for k, t, c in viol[:8]: print('  %s: %s' % (k, t[:300].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if confirmed else ' no-failing-input-found'))
        sys.stdout.flush(); os._exit(1)
    if not allproved and not hok and hs or (err and not hs):
        print('no answer: neither the obligations nor the bounded stand-in could be decided')
        sys.stdout.flush(); os._exit(2)
    sys.stdout.flush(); os._exit(0)
if __name__ == '__main__': 
    main()
