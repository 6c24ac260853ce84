"""The example files of the repository: expected class, companion files, and checksums of what they hold.

corpus.json was generated once (python -m wsim.corpus) from the tree after the fixes listed in KNOWN_FINDINGS.txt, and reviewed; it is a
fixed reference: no check rewrites it."""
import json, os, re
import numpy as np
import pandas as pd

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'corpus.json')
_C = None


def load():
    global _C
    if _C is None:
        with open(PATH) as f:
            _C = json.load(f)
    return _C


# ------------------------------------------------------------------ checksums
def csum(a):
    """float checksums of a numeric array: position-weighted, one per last-axis column (at most 40 columns)"""
    a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return [float(a)]
    if a.size == 0:
        return [0.0]
    a = a.reshape(-1, a.shape[-1]) if a.ndim > 1 else a.reshape(-1, 1)
    n = a.shape[0]
    w = 1 + (np.arange(n) % 13) / 13.0 + np.arange(n) / max(n, 1)
    nan = np.isnan(a)
    inf = np.isinf(a)
    b = np.where(nan | inf, 0, a)
    s = (b * w[:, None]).sum(axis=0)
    if len(s) > 40:
        v = 1 + (np.arange(len(s)) % 11) / 11.0
        s = np.array([(s[i::40] * v[i::40]).sum() for i in range(40)])
    scale = np.abs(b).sum()
    return [float(x) for x in s] + [int(nan.sum()), int(inf.sum()), float(scale)]


def summ(x, depth=0):
    if depth > 6:
        return ['deep']
    if x is None or isinstance(x, (bool, np.bool_)):
        return ['b', None if x is None else bool(x)]
    if isinstance(x, str):
        return ['s', x]
    if isinstance(x, (int, float, np.number)) and not isinstance(x, complex) and not np.iscomplexobj(x):
        return ['n', repr(float(x)) if not np.isfinite(x) else float(x)]
    if isinstance(x, pd.DataFrame):
        return ['df', [str(c) for c in x.columns], list(x.shape), [summ(x.iloc[:, i].values, depth + 1) for i in range(min(x.shape[1], 200))]]
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'iuf' or x.dtype.kind == 'b':
            return ['a', list(x.shape), csum(x)]
        if x.dtype.kind in 'OUS':
            try:
                y = x.astype(float)
                return ['a', list(x.shape), csum(y)]
            except (ValueError, TypeError):
                import hashlib
                return ['h', list(x.shape), hashlib.sha1('|'.join(str(v) for v in x.ravel()[:5000]).encode()).hexdigest()[:12]]
        return ['h', list(x.shape), x.dtype.kind]
    if isinstance(x, (list, tuple)):
        try:
            if len(x) > 3:
                a = np.asarray(x, dtype=float)
                return ['a', list(a.shape), csum(a)]
        except (ValueError, TypeError):
            pass
        return ['l', [summ(v, depth + 1) for v in x[:300]]]
    if isinstance(x, dict):
        return ['d', [[str(k), summ(v, depth + 1)] for k, v in sorted(x.items(), key=lambda t: str(t[0]))]]
    return ['?']


def close(a, b):
    if isinstance(a, (int, float)) and not isinstance(a, bool) and isinstance(b, (int, float)) and not isinstance(b, bool):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b


def sdiff(a, b, path=''):
    """a: recorded, b: observed -> None or the first difference"""
    if isinstance(a, list) and a[:1] == ['?'] or isinstance(b, list) and b[:1] == ['?']:
        return None if a[:1] == b[:1] else '%s: %s, got %s' % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, list) and isinstance(b, list):
        if a[:1] == ['a'] and b[:1] == ['a']:
            if a[1] != b[1]:
                return '%s: shape %s, got %s' % (path, a[1], b[1])
            sc = abs(a[2][-1]) if a[2] else 0
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                if not (x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y), sc)):
                    return '%s: checksum %d %r, got %r' % (path, i, x, y)
            return None
        if len(a) != len(b):
            return '%s: %s, got %s' % (path, str(a)[:120], str(b)[:120])
        for i, (x, y) in enumerate(zip(a, b)):
            d = sdiff(x, y, path + '/' + (a[0] if i and isinstance(a[0], str) and len(a) == 2 and i == 1 else str(i)))
            if d:
                return d
        return None
    return None if close(a, b) else '%s: %s, got %s' % (path, str(a)[:100], str(b)[:100])


def observe(o):
    """summary of what a user sees on an object just read"""
    keys = []
    try:
        ks = list(o.keys())
    except Exception:
        ks = []
    for k in ks:
        if str(k).startswith('_'):
            continue
        try:
            v = o[k]
        except Exception as e:
            v = None
        keys.append([str(k), summ(v)])
    keys.sort(key=lambda t: t[0])
    from . import canon
    for a in canon.ATTRS.get(type(o).__name__, []):
        if hasattr(o, a) and a not in ('data', 'dataSets', 'info'):
            keys.append(['.' + a, summ(getattr(o, a))])
    try:
        d = o.toDataFrame()
    except Exception as e:
        d = None
    return dict(keys=keys, df=summ(d) if d is not None else None)


def generate():
    from . import world
    world.warm()
    import tempfile, shutil, time
    W = world.World(tempfile.mkdtemp(dir='/dev/shm'))
    ex = world.EXAMPLES
    names = sorted(f for f in os.listdir(ex) if os.path.isfile(os.path.join(ex, f)))
    out = []
    for n in names:
        b, e = os.path.splitext(n)
        comp = []
        if n.startswith('Bladed'):
            if e == '.$PJ':
                comp = [m for m in names if m != n and m.startswith(b + '.')]
            else:
                comp = [b + ('.%' if e[1] == '$' else '.$') + e[2:]]
        elif e == '.sel':
            comp = [b + '.dat']
        elif e == '.dat' and b + '.sel' in names:
            comp = [b + '.sel']
        ent = dict(file=n, companions=[c for c in comp if c in names], size=os.path.getsize(os.path.join(ex, n)))
        for c in [n] + ent['companions']:
            W.put('in/' + c, world.disk._real_open(os.path.join(ex, c), 'rb').read())
        p = os.path.join(W.root, 'in', n)
        try:
            t0 = time.time()
            W.d.reset()
            o = W.call(lambda: world.weio.read(p))
            ev = W.d.n.get('any', 0)
            if o[0] != 'ok':
                raise o[1]
            o = o[1]
            ent['ms'] = int((time.time() - t0) * 1000)
            ent['events'] = ev
            ent['klass'] = type(o).__module__.split('.')[-1] + '.' + type(o).__name__
            ent['golden'] = observe(o)
        except Exception as x:
            ent['error'] = type(x).__name__
            print('ERR', n, repr(x)[:120])
        shutil.rmtree(os.path.join(W.root, 'in'))
        out.append(ent)
        print(n, ent.get('klass'), ent.get('ms'), ent.get('events'))
    with world.disk._real_open(PATH, 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(e, sort_keys=True) for e in out) + '\n]\n')
    os.chdir('/')
    shutil.rmtree(W.root)


if __name__ == '__main__':
    generate()
