"""Seeded search over scenarios: workers, isolation (one forked process per run), minimisation, replay, evidence."""
import hashlib, json, os, pickle, random, resource, select, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class HarnessError(Exception):
    pass


def scratch_base():
    for d in ('/dev/shm', '/var/tmp', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 2e9:
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


BASE = None      # scratch directory of this check


def make_base():
    global BASE
    BASE = tempfile.mkdtemp(prefix='wsim-', dir=scratch_base())
    return BASE


def drop_base():
    if BASE and os.path.basename(BASE).startswith('wsim-'):
        shutil.rmtree(BASE, ignore_errors=True)


def jdump(x):
    return json.dumps(x, sort_keys=True, default=str)


def sid(x):
    return hashlib.sha1(jdump(x).encode()).hexdigest()[:12]


CPU = 120
WALL = 400


def run_isolated(prop, scenario, want_trace=False):
    """Run one scenario in a forked process. -> dict with keys viol (None or {class, detail, key}), stats, digest."""
    r, w = os.pipe()
    root = tempfile.mkdtemp(prefix='r', dir=BASE)
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            from . import world
            import gc
            gc.freeze()                       # the collector looks only at what the run creates
            W = world.World(root)
            W.want_trace = want_trace
            sys.unraisablehook = lambda a: None
            random.seed(0)
            import numpy as np
            np.random.seed(0)
            try:
                out = prop.run(W, scenario)
            except world.disk.SimHang as e:
                out = {'viol': {'class': 'no-progress', 'detail': 'the operation did not end within its disk-event budget: %s' % e,
                                'key': 'no-progress'}}
            out = out or {}
            out.setdefault('viol', None)
            out.setdefault('stats', {})
            out['digest'] = hashlib.sha1(repr((W.trace, out.get('digest'), out['viol'] and out['viol'].get('class'))).encode()).hexdigest()[:16]
            data = pickle.dumps(out)
        except BaseException as e:
            data = None
            tb = traceback.extract_tb(e.__traceback__)
            from . import world
            if tb and isinstance(e, Exception) and not isinstance(e, (OSError, MemoryError)) and any(t.filename.startswith(os.path.join(world.REPO, 'weio')) for t in tb):
                # the library raised where the scenario asks for something that succeeds when nothing disturbs it
                t = [t for t in tb if t.filename.startswith(world.REPO)][-1]
                data = pickle.dumps({'viol': {'class': 'unexpected-error', 'detail': '%s: %s (%s:%s), in an operation that nothing disturbs' % (type(e).__name__, str(e)[:200], os.path.basename(t.filename), t.name),
                                              'key': 'unexpected-error:%s:%s' % (os.path.basename(t.filename), t.name)}, 'stats': {}, 'digest': 'unexpected-error'})
            data = data or pickle.dumps({'harness': traceback.format_exc()[-3000:]})
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('<q', len(data)))
                f.write(data)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    t0 = time.time()
    timed = False
    while True:
        rl, _, _ = select.select([r], [], [], 5)
        if rl:
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
        elif time.time() - t0 > WALL:
            timed = True
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if len(buf) >= 8 and len(buf) == 8 + struct.unpack('<q', buf[:8])[0]:
        return pickle.loads(buf[8:])
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
    if sig == signal.SIGXCPU or (sig == signal.SIGKILL and not timed and time.time() - t0 > CPU):
        return {'viol': {'class': 'no-progress', 'detail': 'still computing after %d s of CPU time' % CPU, 'key': 'no-progress'}, 'stats': {}, 'digest': 'xcpu'}
    if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT):
        return {'viol': {'class': 'process-died', 'detail': 'the process died with signal %d' % sig, 'key': 'process-died'}, 'stats': {}, 'digest': 'sig'}
    return {'harness': 'run ended without a result (status %r, timed out %r)' % (st, timed)}


def _merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            _merge(a.setdefault(k, {}), v)
        elif isinstance(v, set):
            a.setdefault(k, set()).update(v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v[:20])
        elif k.startswith('max_'):
            a[k] = max(a.get(k, 0), v)
        else:
            a[k] = a.get(k, 0) + v
    return a


def run_many(prop, scenarios, workers, budget_s, known, stop_after=12, digests=False):
    """-> (stats, violations [(index, scenario, viol)], knowns, n, harness errors)"""
    t0 = time.time()
    from multiprocessing import Value, Lock
    nxt = Value('l', 0)
    nviol = Value('l', 0)
    chunk = max(1, min(16, len(scenarios) // (workers * 8) or 1))
    pipes = []
    for wi in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            stats, viols, knowns, n, herr, slow, dig = {}, [], {}, 0, [], 0.0, {}
            try:
                while True:
                    with nxt.get_lock():
                        i0 = nxt.value
                        nxt.value = i0 + chunk
                    if i0 >= len(scenarios):
                        break
                    for i in range(i0, min(i0 + chunk, len(scenarios))):
                        if time.time() - t0 > budget_s or nviol.value >= stop_after:
                            break
                        t1 = time.time()
                        out = run_isolated(prop, scenarios[i])
                        if 'harness' in out:             # the sandbox may have run short of something: once more
                            out = run_isolated(prop, scenarios[i])
                        slow = max(slow, time.time() - t1)
                        n += 1
                        if 'harness' in out:
                            herr.append((i, out['harness']))
                            continue
                        if digests:
                            dig[i] = out['digest']
                        _merge(stats, out['stats'])
                        for kf in out.get('known', []):
                            knowns[kf] = knowns.get(kf, 0) + 1
                        if out['viol'] is not None:
                            kf = known.match(prop.ID, out['viol'])
                            if kf:
                                knowns[kf] = knowns.get(kf, 0) + 1
                            else:
                                viols.append((i, out['viol']))
                                with nviol.get_lock():
                                    nviol.value += 1
                    else:
                        continue
                    break
            except BaseException:
                herr.append((-1, traceback.format_exc()[-3000:]))
            data = pickle.dumps((stats, viols, knowns, n, herr, slow, dig))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    stats, viols, knowns, n, herr, slow, dig = {}, [], {}, 0, [], 0.0, {}
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            herr.append((-1, 'worker died'))
            continue
        s, v, k, m, h, sl, dg = pickle.loads(data)
        _merge(stats, s)
        viols += v
        for x, c in k.items():
            knowns[x] = knowns.get(x, 0) + c
        n += m
        herr += h
        slow = max(slow, sl)
        dig.update(dg)
    viols.sort(key=lambda t: t[0])
    return dict(stats=stats, viols=[(i, scenarios[i], v) for i, v in viols], knowns=knowns, n=n, herr=herr, wall=time.time() - t0,
                slow=slow, digests=dig)


# ------------------------------------------------------------------ minimisation
def default_shrinks(sc):
    """smaller scenarios: fewer ops, fewer faults, no fragmentation, smaller sizes"""
    for key in ('ops', 'faults', 'files', 'preempt', 'cuts', 'history'):
        v = sc.get(key)
        if isinstance(v, list) and len(v) > 0:
            n = len(v)
            step = n // 2
            while step >= 1:
                for a in range(0, n, step):
                    s = dict(sc)
                    s[key] = v[:a] + v[a + step:]
                    yield s
                step //= 2
    for key in ('ops', 'files', 'history'):
        v = sc.get(key)
        if isinstance(v, list):
            for i, o in enumerate(v):
                if isinstance(o, dict):
                    for k in ('fault', 'frag', 'size', 'quota'):
                        if o.get(k):
                            s = dict(sc)
                            o2 = dict(o)
                            o2[k] = o[k] - 1 if isinstance(o[k], int) and k == 'size' else None
                            s[key] = v[:i] + [o2] + v[i + 1:]
                            yield s
    for k in ('frag', 'quota'):
        if sc.get(k):
            s = dict(sc)
            s[k] = None
            yield s
    if isinstance(sc.get('size'), int) and sc['size'] > 0:
        for z in (0, sc['size'] // 2, sc['size'] - 1):
            if z < sc['size']:
                s = dict(sc)
                s['size'] = z
                yield s


def minimise(prop, sc, viol, budget_s=60, tries=250):
    t0 = time.time()
    best, bv = sc, viol
    shr = getattr(prop, 'shrinks', default_shrinks)
    n = 0
    improved = True
    seen = {jdump(sc)}
    if viol.get('pin'):                # the same execution with its choices spelled out
        out = run_isolated(prop, viol['pin'])
        if 'harness' not in out and out['viol'] and out['viol']['class'] == viol['class']:
            best, bv = viol['pin'], out['viol']
    while improved and n < tries and time.time() - t0 < budget_s:
        improved = False
        for c in shr(best):
            j = jdump(c)
            if j in seen:
                continue
            seen.add(j)
            n += 1
            if n > tries or time.time() - t0 > budget_s:
                break
            out = run_isolated(prop, c)
            if 'harness' in out or not out['viol']:
                continue
            if out['viol']['class'] == viol['class']:
                best, bv = c, out['viol']
                improved = True
                break
    return best, bv, n


# ------------------------------------------------------------------ known findings
class Known:
    """KNOWN_FINDINGS.txt:  'known: property=<id> key=<key> <what fails>'  /  'fixed: property=<id> <commit> <what failed>'
    A known line suppresses exactly the violations with that property and key."""
    def __init__(self, path=None):
        self.path = path or os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        self.items = {}
        if os.path.exists(self.path):
            for l in open(self.path):
                l = l.strip()
                if l.startswith('known:'):
                    p = l.split(None, 3)
                    self.items[(p[1].split('=', 1)[1], p[2].split('=', 1)[1])] = p[3] if len(p) > 3 else ''

    def match(self, pid, viol):
        k = (pid, viol.get('key'))
        return '%s %s' % (viol.get('key'), self.items[k]) if k in self.items else None

    def has(self, pid, key):
        return (pid, key) in self.items

    def keys(self, pid):
        return {k for p, k in self.items if p == pid}


# ------------------------------------------------------------------ a whole check
def write_replay(pid, sc, viol, orig, seed, tries):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, sid([sc, viol['class']])))
    with open(path, 'w') as f:
        viol = {k: v for k, v in viol.items() if k != 'pin'}
        json.dump({'property': pid, 'seed': seed, 'scenario': sc, 'violation': viol, 'original_scenario': orig,
                   'minimisation_runs': tries}, f, indent=1, default=str)
    return path


def fresh_replay(pid, path):
    """re-execute the replay file in a new interpreter -> True when it fails the same way"""
    env = dict(os.environ)
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), pid, '--replay', path], cwd=VERIF, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode == 1 and b'VIOLATION property=' in p.stdout


def run_check(prop, tier, seed, workers=None, limit=None):
    t0 = time.time()
    workers = workers or min(8, os.cpu_count() or 1)
    make_base()
    try:
        from . import world
        world.warm()
        known = Known()
        prop.KNOWN = known
        scenarios = prop.plan(tier, seed)
        if limit:
            scenarios = scenarios[:limit]
        budget = {'quick': 420, 'thorough': 3000}[tier]
        res = run_many(prop, scenarios, workers, budget, known)
        evid = evidence(prop, tier, seed, res, scenarios, workers)
        evid['wall_s'] = round(time.time() - t0, 2)
        bad = None
        vlines = []
        if res['viols']:
            # one report per violation class, minimised
            byclass = {}
            for i, sc, v in res['viols']:
                byclass.setdefault(v.get('key') or v['class'], (i, sc, v))
            todo = list(byclass.values())[:3]
            for i, sc, v in todo:
                small, sv, tries = minimise(prop, sc, v, budget_s=45)
                path = write_replay(prop.ID, small, sv, sc, seed, tries)
                ok = any(fresh_replay(prop.ID, path) for _ in range(2))
                if not ok:
                    path = write_replay(prop.ID, sc, v, sc, seed, tries)
                    sv = v
                    ok = any(fresh_replay(prop.ID, path) for _ in range(2))
                vlines.append('VIOLATION property=%s replay=%s' % (prop.ID, path))
                print('%s: %s%s' % (sv['class'], sv['detail'], '' if ok else ' [did not replay in a fresh process]'))
                print('scenario: ' + jdump(small)[:1500])
                bad = True
        evid['violations'] = len(res['viols'])
        evid['violation_list'] = [dict({k: x for k, x in v.items() if k != 'pin'}, scenario=sc) for i, sc, v in res['viols'][:10]]
        for k, c in sorted(res['knowns'].items()):
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, k))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
            json.dump(evid, f, indent=1, default=lambda o: sorted(o) if isinstance(o, set) else str(o))
        st = evid['coverage']
        print('%s %s seed=%s: %d runs in %.1f s (slowest %.1f s), %d distinct states; faults fired: %s' % (
            prop.ID, tier, seed, res['n'], res['wall'], res['slow'], st['distinct_nontrivial'], jdump(st.get('faults_fired', {}))))
        if bad:
            for l in vlines:
                print(l)
            return 1
        if res['herr']:
            print('HARNESS-ERROR: %d runs %s; first: %s' % (len(res['herr']), [x[0] for x in res['herr'][:9]], res['herr'][0]))
            return 2
        if res['n'] < len(scenarios):
            print('note: the time budget ended the batch after %d of %d planned runs' % (res['n'], len(scenarios)))
            if res['n'] < max(1, len(scenarios) // 20):
                return 2
        miss = prop.unreached(res['stats'], tier) if hasattr(prop, 'unreached') else []
        if miss and not limit:
            print('note: not reached: %s' % miss)
        return 0
    finally:
        drop_base()


def evidence(prop, tier, seed, res, scenarios, workers):
    st = res['stats']
    states = st.get('states', set())
    cov = {
        'evaluations': int(st.get('checks', res['n'])),
        'distinct_nontrivial': len(states),
        'rule': prop.RULE,
        'samples': [jdump(s)[:300] for s in scenarios[:3]] + [jdump(s)[:300] for s in scenarios[-3:]],
        'simulated_runs': res['n'],
        'planned_runs': len(scenarios),
        'runs_per_hour': int(res['n'] / max(res['wall'], 1e-6) * 3600),
        'simulated_disk_events': int(st.get('events', 0)),
        'simulated_time': 'no timers in the code under test; progress is counted in disk events and scheduling points',
        'scheduling_points': int(st.get('steps', 0)),
        'faults_fired': st.get('fired', {}),
        'probes': st.get('probes', {}),
        'by_format': st.get('fmt', {}),
        'workers': workers,
        'real_code': 'all of weio (every reader/writer), numpy, pandas, Python io buffering and text layers',
        'stubbed': 'raw file layer below Python io (SimRaw), os.open/read/write, numpy.fromfile, clock, thread scheduling, locks',
        'harness_errors': len(res['herr']),
    }
    return {'property': prop.ID, 'tier': tier, 'seed': seed, 'level': prop.LEVEL, 'coverage': cov, 'wall_s': 0,
            'assumptions': getattr(prop, 'ASSUMPTIONS', [])}
