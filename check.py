#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--workers N] [--limit N] | --determinism"""
import os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
        'PYTHONUTF8': '1', 'TZ': 'UTC', 'MPLBACKEND': 'Agg', 'ARROW_DEFAULT_MEMORY_POOL': 'system', 'MALLOC_ARENA_MAX': '2', 'WSIM_ENV': '1'}
if os.environ.get('WSIM_ENV') != '1':
    env = dict(os.environ)
    for k, v in WANT.items():
        if k == 'PYTHONHASHSEED' and os.environ.get('WSIM_HASHSEED'):
            v = os.environ['WSIM_HASHSEED']
        env[k] = v
    env.pop('PYTHONPATH', None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def main():
    import argparse, importlib, json
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='import everything, check that a simulated run works')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    ap.add_argument('--limit', type=int)
    ap.add_argument('--digests', help='write the digest of every run to this file')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    sys.stdout.reconfigure(errors='backslashreplace')
    sys.stderr.reconfigure(errors='backslashreplace')
    from wsim import runner
    if a.selftest:
        import glob
        from wsim import world, corpus, refs, formats
        world.warm()
        ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(VERIF, 'wsim', 'props', 'c[0-9]*.py')))
        n = {i: len(importlib.import_module('wsim.props.' + i.lower()).plan('quick', 1)) for i in ids}
        print('planned quick runs per property:', n)
        return 0
    if not a.id:
        ap.error('a property id is needed')
    mod = importlib.import_module('wsim.props.' + a.id.lower())
    prop = mod
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        from wsim import world
        runner.make_base()
        try:
            world.warm()
            prop.KNOWN = runner.Known()
            out = runner.run_isolated(prop, rep['scenario'], want_trace=True)
        finally:
            runner.drop_base()
        if 'harness' in out:
            print('HARNESS-ERROR', out['harness'])
            return 2
        if out['viol']:
            same = out['viol']['class'] == rep['violation']['class']
            print('%s: %s' % (out['viol']['class'], out['viol']['detail']))
            for l in out.get('log', []):
                print('  ', l)
            print('run digest %s%s' % (out['digest'], '' if same else ' (another violation class than recorded)'))
            print('VIOLATION property=%s replay=%s' % (prop.ID, a.replay))
            return 1
        print('no violation on replay; run digest %s' % out['digest'])
        return 0
    try:
        seed = int(a.seed)
    except ValueError:
        import hashlib
        seed = int(hashlib.sha1(a.seed.encode()).hexdigest()[:8], 16)
    if a.digests:
        from wsim import world
        runner.make_base()
        try:
            world.warm()
            prop.KNOWN = runner.Known()
            sc = prop.plan(a.tier, seed)
            if a.limit:
                step = max(1, len(sc) // a.limit)
                sc = sc[::step][:a.limit]
            res = runner.run_many(prop, sc, a.workers or 8, 3000, prop.KNOWN, digests=True)
        finally:
            runner.drop_base()
        with open(a.digests, 'w') as f:
            json.dump(res['digests'], f, sort_keys=True)
        print(len(res['digests']), 'digests', len(res['herr']), 'harness errors', res['herr'][:1])
        return 0
    return runner.run_check(prop, a.tier, seed, a.workers, a.limit)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
