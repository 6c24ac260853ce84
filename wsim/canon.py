"""Canonical, comparable form of everything a user can observe on a weio object."""
import hashlib, math, datetime
import numpy as np
import pandas as pd

MAXDEPTH = 12


def canon(x, depth=0, seen=None):
    """Nested tuples/str/bytes only: comparable with ==, NaN-safe, order-preserving."""
    if depth > MAXDEPTH:
        return ('deep', type(x).__name__)
    if x is None or isinstance(x, (bool, np.bool_)):
        return ('b', None if x is None else bool(x))
    if isinstance(x, str):
        return ('s', str(x))
    if isinstance(x, bytes):
        return ('y', x)
    if isinstance(x, (int, np.integer)):
        return ('i', int(x))
    if isinstance(x, (float, np.floating)):
        return ('f', repr(float(x)))
    if isinstance(x, (complex, np.complexfloating)):
        return ('c', repr(complex(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('ao', x.shape, tuple(canon(v, depth + 1, seen) for v in x.ravel().tolist()))
        if x.dtype.names:
            return ('as', x.shape, tuple((n, canon(x[n], depth + 1, seen)) for n in x.dtype.names))
        if not x.dtype.isnative:
            x = x.astype(x.dtype.newbyteorder('='))      # the byte order is not content
        if x.dtype.kind in 'fc':
            y = np.array(x, copy=True)
            return ('a', x.dtype.str, x.shape, _fbytes(y))
        return ('a', x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, pd.DataFrame):
        return ('df', tuple(str(c) for c in x.columns),
                tuple(canon(x.iloc[:, i].values, depth + 1, seen) for i in range(x.shape[1])),
                canon(np.asarray(x.index), depth + 1, seen))
    if isinstance(x, pd.Series):
        return ('se', str(x.name), canon(x.values, depth + 1, seen))
    if isinstance(x, (pd.Timestamp, datetime.date, datetime.timedelta, pd.Timedelta, np.datetime64, np.timedelta64)):
        return ('t', str(x))
    if isinstance(x, pd.Index):
        return ('ix', canon(np.asarray(x), depth + 1, seen))
    seen = seen or ()
    if id(x) in seen:
        return ('cycle', type(x).__name__)
    seen = seen + (id(x),)
    if isinstance(x, dict):
        return ('d', tuple((canon(k, depth + 1, seen), canon(v, depth + 1, seen)) for k, v in x.items()))
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return ('nt', tuple(canon(v, depth + 1, seen) for v in x))
    if isinstance(x, (list, tuple)):
        return ('l', tuple(canon(v, depth + 1, seen) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(repr(canon(v, depth + 1, seen)) for v in x)))
    mod = type(x).__module__ or ''
    if mod.startswith('xarray'):
        d = x.to_dict() if hasattr(x, 'to_dict') else repr(x)
        return ('xr', canon(d, depth + 1, seen))
    if callable(x):
        return ('fn',)
    if mod.startswith('weio') and hasattr(x, '__dict__'):
        pub = tuple((k, canon(v, depth + 1, seen)) for k, v in sorted(vars(x).items())
                    if not k.startswith('_') and k != 'filename' and not callable(v))
        return ('o', type(x).__name__, pub)
    return ('?', type(x).__name__)


def _fbytes(y):
    with np.errstate(all='ignore'):
        if y.dtype.kind == 'f':
            y = y + 0.0                      # -0.0 becomes 0.0
            y[np.isnan(y)] = np.nan          # one NaN payload
    return np.ascontiguousarray(y).tobytes()


def digest(c):
    return hashlib.sha1(repr(c).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


# ------------------------------------------------------------------ weio objects
# what the user sees, besides dictionary entries and dataframes
ATTRS = {
    'CSVFile': ['header', 'sep', 'commentChar', 'colNames', 'data'],
    'FASTOutputFile': ['data', 'info'],
    'HAWC2DatFile': ['data', 'info'],
    'HAWC2AEFile': ['data'], 'HAWC2PCFile': ['data'], 'HAWC2StFile': ['data'], 'HAWC2HTCFile': [],
    'ParquetFile': ['data'], 'ExcelFile': ['data'], 'NetCDFFile': [],
    'MannBoxFile': [], 'TurbSimFile': [],
    'HAWCStab2PwrFile': ['data'], 'HAWCStab2IndFile': ['data'], 'HAWCStab2CmbFile': ['data'],
    'FLEXOutFile': ['data', 'time', 'sensors', 'tmin', 'dt', 'Version', 'title'],
    'FASTWndFile': ['data', 'header'],
    'BladedFile': ['dataSets'],
    'VTKFile': ['points', 'cells', 'point_data', 'cell_data', 'xp_grid', 'yp_grid', 'zp_grid', 'point_data_grid'],
    'FLEXProfileFile': ['ProfileSets'],
    'FLEXBladeFile': ['data', 'BetaC', 'FlapDamping', 'EdgeDamping', 'ProfileFile'],
    'FLEXWaveKinFile': ['data'], 'FLEXDocFile': [],
    'BModesOutFile': [], 'TurbSimTSFile': [], 'TecplotFile': [],
    'FASTInputFile': ['hasNodal', 'comment', 'header'],
    'FASTInputDeck': ['fst_vt', 'version', 'ADversion', 'readlist', 'AD', 'ED', 'IW', 'BD', 'BDbld', 'fst'],
}


def obj_state(o):
    """The dictionary view and documented attributes (no dataframe)."""
    name = type(o).__name__
    items = []
    try:
        keys = list(o.keys())
    except Exception as e:
        keys = []
        items.append(('KEYS-EXC', type(e).__name__))
    for k in keys:
        try:
            v = o[k]
        except Exception as e:
            items.append((canon(k), ('EXC', type(e).__name__)))
            continue
        items.append((canon(k), canon(v)))
    attrs = []
    for a in ATTRS.get(name, []):
        if hasattr(o, a):
            try:
                attrs.append((a, canon(getattr(o, a))))
            except Exception as e:
                attrs.append((a, ('EXC', type(e).__name__)))
    if name == 'HAWC2HTCFile':
        attrs.append(('htc', _htc(o)))
    if name == 'FASTInputFile' or hasattr(o, 'getTree') or hasattr(o, 'toString'):
        try:
            attrs.append(('str', canon(o.toString())))
        except Exception as e:
            attrs.append(('str', ('EXC', type(e).__name__)))
    return ('obj', name, tuple(items), tuple(attrs))


def _htc(o):
    try:
        return canon(str(o.data))
    except Exception as e:
        return ('EXC', type(e).__name__)


def obj_df(o):
    try:
        d = o.toDataFrame()
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return ('EXC', type(e).__name__)
    return canon(d)


def snap(o, df=True):
    s = obj_state(o)
    return ('snap', s, obj_df(o) if df else None)


def diff(a, b, path=''):
    """first difference between two canonical forms, as text"""
    if a == b:
        return None
    if type(a) != type(b) or not isinstance(a, tuple):
        return '%s: %s != %s' % (path or '/', _short(a), _short(b))
    if len(a) != len(b):
        return '%s: length %d != %d (%s | %s)' % (path, len(a), len(b), _short(a), _short(b))
    if a and a[0] == 'a' and b[0] == 'a' and a[1:3] == b[1:3]:
        x = np.frombuffer(a[3], dtype=a[1]); y = np.frombuffer(b[3], dtype=b[1])
        ne = np.nonzero(~((x == y) | ((x != x) & (y != y))))[0]
        if len(ne):
            return '%s: array[%d] %r != %r (%d of %d differ)' % (path, ne[0], x[ne[0]], y[ne[0]], len(ne), len(x))
    for i, (u, v) in enumerate(zip(a, b)):
        if u != v:
            return diff(u, v, path + '/' + str(i) + (':' + str(a[0]) if a and isinstance(a[0], str) else ''))
    return path


def _short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + '...'
