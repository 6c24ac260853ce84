"""Comparison of two canonical forms (canon.py) up to the precision of a file format."""
import math
import numpy as np


def _arr(c):
    if c[1][1:2] == 'O' or c[1][0] not in '<>|=':
        return None
    try:
        return np.frombuffer(c[3], dtype=c[1]).reshape(c[2])
    except ValueError:
        return None


def num(c):
    """numeric leaf -> float, else None"""
    if isinstance(c, tuple) and len(c) == 2 and c[0] in ('i', 'f'):
        return float(c[1])
    return None


def asarray(c):
    """numeric content of a canonical array/list -> float array or None"""
    if not isinstance(c, tuple) or not c:
        return None
    if c[0] == 'a' and len(c) == 4 and isinstance(c[1], str) and c[1][1:2] in 'fiub':
        a = _arr(c)
        return None if a is None else a.astype(float)
    if c[0] == 'ao' and len(c) == 3:
        v = [num(x) for x in c[2]]
        if all(x is not None for x in v):
            return np.array(v).reshape(c[1])
    if c[0] == 'l' and len(c) == 2 and c[1]:
        v = [num(x) for x in c[1]]
        if all(x is not None for x in v):
            return np.array(v)
    return None


def norm(s):
    return ' '.join(s.split())


def words(a, b, rtol):
    """texts whose words are the same, or numbers that are near"""
    u, v = a.split(), b.split()
    if len(u) != len(v) or callable(rtol):
        return False
    for x, y in zip(u, v):
        if x != y:
            try:
                if not near(float(x), float(y), rtol, 0, abs(float(x))):
                    return False
            except ValueError:
                return False
    return True


def both(a, b):
    i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(i - 20, 0)
    return '%r, got %r' % (a[i:i + 80], b[i:i + 80])


def fdiff(a, b, rtol, atol, path='', text=True):
    if a == b:
        return None
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return None if near(x, y, rtol, atol, max(abs(x), 0)) else '%s: %r, got %r' % (path, x, y)
    x, y = asarray(a), asarray(b)
    if x is not None and y is not None:
        if x.shape != y.shape:
            return '%s: shape %s, got %s' % (path, x.shape, y.shape)
        at = atol(x) if callable(atol) else atol
        with np.errstate(all='ignore'):
            bad = ~((np.abs(x - y) <= at + rtol * np.abs(x)) | (np.isnan(x) & np.isnan(y)) | (x == y))
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad))
            return '%s%s: %r, got %r (%d of %d)' % (path, list(i), float(x[i]), float(y[i]), int(bad.sum()), x.size)
        return None
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        if isinstance(a, str) and isinstance(b, str):
            return None if norm(a) == norm(b) else path + ': ' + both(a, b)
        return '%s: %s, got %s' % (path, str(a)[:80], str(b)[:80])
    if a[:1] == ('s',) and b[:1] == ('s',) and len(a) == len(b) == 2:
        if norm(a[1]) == norm(b[1]) or words(a[1], b[1], rtol):
            return None
        try:
            u, v = float(a[1]), float(b[1])
            return None if near(u, v, rtol, 0 if callable(atol) else atol, abs(u)) else '%s: %r, got %r' % (path, a[1], b[1])
        except ValueError:
            return path + ': ' + both(a[1], b[1])
    if len(a) != len(b):
        return '%s: %d entries, got %d (%s | %s)' % (path, len(a), len(b), str(a)[:100], str(b)[:100])
    for i, (u, v) in enumerate(zip(a, b)):
        if u != v:
            p = path + '/' + (str(a[0][1]) if i == 1 and isinstance(a[0], tuple) and a[0][:1] == ('s',) and len(a) == 2 else a[0] if i == 1 and isinstance(a[0], str) else str(i))
            d = fdiff(u, v, rtol, atol, p)
            if d:
                return d
    return None


def near(x, y, rtol, atol, sc):
    if callable(atol):
        atol = 0
    return x == y or (math.isnan(x) and math.isnan(y)) or abs(x - y) <= atol + rtol * sc
