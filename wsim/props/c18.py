"""C18: an edit is stored, and nothing else changes: after any edits of an object through its own interface, exactly what was edited is different in memory,
and a later read of what was written shows the edited content, whatever happened between the edits and the writing."""
import re
import numpy as np
from .common import *
from . import c17
from .. import fuzzy
ID, LEVEL = 'C18', 'exploration'
RULE = 'distinct (source file, edits, where it was written, how it was read, fault before it) tuples whose stored content was compared with that of the edited object'
ASSUMPTIONS = ['an edit keeps the shape of the content valid: the number of lines of a table is changed together with the entry that gives it',
               'contents are compared to the precision of the format, as for C17']
CLS = ('FASTInputFile', 'FASTInputFile', 'FASTInputFile', 'HAWC2HTCFile', 'HAWC2HTCFile', 'HAWC2HTCFile', 'FASTInputDeck', 'CSVFile', 'FASTOutputFile', 'HAWC2DatFile', 'HAWC2AEFile', 'HAWC2PCFile', 'HAWC2StFile', 'MannBoxFile',
       'NetCDFFile', 'ParquetFile', 'ExcelFile', 'TecplotFile', 'VTKFile', 'TurbSimTSFile', 'FASTWndFile', 'TurbSimFile', 'ROSCOPerformanceFile', 'FLEXProfileFile')


def _sources():
    d = {}
    for e in EX:
        d.setdefault(e['klass'].split('.')[-1], []).append({'ex': e['file']})
    for n in refs.NAMES:
        if n in ('raaw', 'flexdoc'):
            continue
        d.setdefault(refs.make(n, 0, 0)['klass'].split('.')[-1], []).append({'ref': n})
    for n in formats.NAMES:
        d.setdefault(formats.F[n].klass.split('.')[-1], []).append({'fmt': n})
    return {k: v for k, v in d.items() if k in CLS}


# ------------------------------------------------------------------ edits: each gives (place, text) or None
def num(r):
    return float('%.6g' % r.choice([0.0, 1.0, r.uniform(-1, 1), r.uniform(-1000, 1000), r.uniform(0, 1) * 1e-3, -r.uniform(1, 9) * 1e4, 12.25, -0.5]))


def frac(r):
    x = num(r)
    return x if x != int(x) else x + 0.25        # (a number is shown as it is written)


def word(r):
    return ''.join(r.choice('abcdefghkmnpqrsuvwxyz') for _ in range(r.choice([3, 5, 8])))


def cell(r, a, cols=None):
    """one number, a line or a column of an array of numbers"""
    if a.size == 0:
        return None
    x = r.random()
    c = r.choice(cols) if cols else r.randrange(a.shape[-1])
    i = tuple(r.randrange(n) for n in a.shape[:-1]) + (c,)
    if x < 0.6 or a.ndim < 2:
        a[i] = num(r)
        return 'number at %s' % (i,)
    if x < 0.8:
        a[..., c] = [num(r) for _ in range(a.shape[-2])] if a.ndim == 2 else num(r)
        return 'column %d' % c
    a[i[:-1]][cols or slice(None)] = [num(r) for _ in (cols or range(a.shape[-1]))]
    return 'line %s' % (i[:-1],)


def frame(r, df):
    """a number, a column, a name or a line of a table -> (table, text)"""
    df = df.copy()
    f = [i for i, t in enumerate(df.dtypes) if t.kind == 'f']
    x = r.random()
    if x < 0.5 and f and len(df):
        i, j = r.randrange(len(df)), r.choice(f)
        df.iloc[i, j] = num(r)
        return df, 'number at (%d, %d)' % (i, j)
    if x < 0.7:
        n = 'new' + word(r)
        df[n] = [float('%.6g' % (num(r) + 0.0625)) for _ in range(len(df))]
        return df, 'new column'
    if x < 0.8 and len(df) > 2:
        return df.drop(df.index[r.randrange(1, len(df))]).reset_index(drop=True), 'line removed'
    if x < 0.9 and len(f) > 1:
        j = r.choice(f)
        return df.rename(columns={df.columns[j]: 'ren' + word(r)}) if list(df.columns).count(df.columns[j]) == 1 else df, 'column renamed'
    if f and len(df):
        j = r.choice(f)
        df.isetitem(j, [num(r) for _ in range(len(df))])
        return df, 'column %d' % j
    return None


def numeric(v):
    return isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.ndim == 2 and v.size


TABN = re.compile(r'(Coeff|Data|Prop|Tab|Table|Nodes|Joints|Members|Matrix|Fld)', re.I)


def e_fast(r, o, s):
    """an entry of an input file, set by its name"""
    if r.random() < 0.08 and o.comment:
        c = '\n'.join(' '.join([word(r), word(r)]) for _ in o.comment.split('\n'))
        o.comment = c
        if o.comment != c:
            raise Exception('the comment is not the one that was set')
        return None, 'comment'
    ks = list(o.keys())
    low = [k.lower() for k in ks]
    ks = [k for k in ks if low.count(k.lower()) == 1]
    data = {d['label'].lower(): d for d in getattr(o, 'fixedfile', o).data}
    tabs = [k for k in ks if numeric(o[k])]
    for _ in range(12):
        k = r.choice(tabs if tabs and r.random() < 0.3 else ks)
        v = o[k]
        key = r.choice([k, k, k.lower(), k.upper()])
        if isinstance(v, (bool, np.bool_)):
            o[key] = not v
        elif isinstance(v, float):
            if k in ('dt', 'T'):            # (they give the number of lines of loads)
                continue
            o[key] = num(r)
        elif isinstance(v, str) and len(v) > 2 and v[0] == '"' and v[-1] == '"' and '@' not in v:
            o[key] = '"%s"' % ' '.join(word(r) for _ in range(r.choice([1, 1, 2])))
        elif isinstance(v, list) and k.lower().startswith('outlist') and len(v) and all(isinstance(x, str) for x in v):
            x = r.random()
            if x < 0.4:
                o[key] = v + ['"%s"' % word(r)]
            elif x < 0.6 and len(v) > 2:
                del v[r.randrange(1, len(v))]
            elif len(v) > 1:                # (the first is the heading)
                v[r.randrange(1, len(v))] = '"%s"' % word(r)
        elif isinstance(v, list) and len(v) >= 2 and all(type(x) is float for x in v):
            o[key] = [num(r) for _ in v]
        elif isinstance(v, dict) and sorted(v) == ['K', 'M', 'span'] and len(v['span']):    # sections of a BeamDyn blade
            i = r.randrange(len(v['span']))
            m = r.choice(['K', 'M'])
            v[m][i][r.randrange(6), r.randrange(6)] = num(r)
            return {k}, '%s, %s of section %d' % (k, m, i)
        elif isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 2 and v.size:
            C = [(a, b) for a in range(v.shape[0]) for b in range(v.shape[1]) if isinstance(v[a, b], float) or isinstance(v[a, b], str) and re.fullmatch(r'-?\d+\.\d+([eE][-+]\d+)?', v[a, b])]
            if not C:
                continue
            a, b = r.choice(C)
            x = frac(r)
            v[a, b] = x if isinstance(v[a, b], float) else str(x)
            return {k}, '%s, number at (%d, %d)' % (k, a, b)
        elif numeric(v):
            dim = (data.get(k.lower(), {}).get('tabDimVar') or '')
            x = r.random()
            if x < 0.3 and isinstance(dim, str) and dim.lower() in low and sum(str(d.get('tabDimVar', '')).lower() == dim.lower() for d in data.values()) == 1 and type(o[dim]) is int and o[dim] == len(v) and len(v) > 2:
                w = np.delete(v, r.randrange(1, len(v)), axis=0) if r.random() < 0.5 else np.vstack((v, v[-1:] * 1.0))
                o[key] = w
                o[dim] = len(w)
                return {k, dim}, '%s with %d lines' % (k, len(w))
            w = v.copy() if x < 0.65 else v
            # (a column of numbers of something stays one)
            cols = [j for j in range(v.shape[1]) if not np.all(v[:, j] == np.round(v[:, j]))]
            if not cols:
                continue
            t = cell(r, w, cols)
            if w is not v:
                o[key] = w
            return {k}, '%s, %s' % (k, t)
        else:
            continue
        return {k}, k
    return None


def e_deck(r, o, s):
    mods = [k for k in c17.DECK if o.fst_vt.get(k) is not None]
    m = r.choice(mods)
    f = o.fst_vt[m]
    if r.random() < 0.5:
        ks = [k for k in f.keys() if type(f[k]) is float]
        if not ks:
            return None
        k = r.choice(ks)
        f[k] = num(r)
        return {m}, m + ' ' + k
    y = e_fast(r, f, s)
    return y and ({m}, m + ' ' + y[1])


def htc_lines(sec, out, path=''):
    for k in list(sec.keys()):
        x = sec[k]
        if type(x).__name__ == 'HTCLine':
            out.append((path, k, x, sec))
        elif type(x).__name__ == 'HTCSection':
            htc_lines(x, out, path + '/' + k)
    return out


def entries_htc(o):
    d = {}

    def walk(sec, path):
        for k in list(sec.keys()):
            x = sec[k]
            if type(x).__name__ == 'HTCLine':
                d[path + '/' + k] = str(x)
            elif hasattr(type(x), 'keys'):
                walk(x, path + '/' + k)
        if 'sensors' in vars(sec):
            for i, x in enumerate(sec.sensors):
                d['%s sensor %d' % (path, i)] = str(x)
    walk(o.data, '')
    return d


def e_htc(r, o, s):
    L = [x for x in htc_lines(o.data, []) if 'c2_def' not in x[0] and 'timoschenko' not in x[0] and x[1] not in ('continue_in_file', 'name', 'nsec', 'filename') and x[0].strip('/')]
    x = r.random()
    if x < 0.6:
        L = [y for y in L if any(type(v) is float for v in y[2].values)]
        if not L:
            return None
        p, k, line, sec = r.choice(L)
        if r.random() < 0.5 and len(line.values) > 0:
            i = r.choice([i for i, v in enumerate(line.values) if type(v) is float])
            line.values[i] = frac(r)
        else:
            setattr(sec, k, [frac(r) if type(v) is float else v for v in line.values])
        return {p + '/' + k}, 'value of %s/%s' % (p, k)
    if x < 0.75:                    # the axis of a body, perhaps with fewer points
        B = [b for b in o.bodyDict.values() if 'c2_def' in b.keys()]
        if not B:
            return None
        b = r.choice(B)
        n = [k for k in o.data.new_htc_structure.keys() if o.data.new_htc_structure[k] is b][0]
        mine = {q for q in entries_htc(o) if q.startswith('/new_htc_structure/%s/c2_def/' % n)}
        v = o.bodyC2(b)
        v[:, 1:] = [[frac(r) for _ in range(4)] for _ in v]
        if r.random() < 0.3 and len(v) > 2:
            v = v[:r.randrange(2, len(v))]
        o.setBodyC2(b, v)
        w = o.bodyC2(b)
        if w.shape != v.shape or not np.array_equal(w, v):
            raise Exception('the axis of the body is not the one that was set')
        return mine, 'axis of %s' % b.name[0]
    P = [y for y in L if y[0].count('/') == 1]
    if x < 0.8:                     # two lines set from one list, one of them changed afterwards; the same line again, one of them deleted
        P = [y for y in P if y[0] in ('/dll', '/wind', '/hydro', '/simulation') and [type(v) for v in y[2].values] == [float]]
        if not P:
            return None
        (p, k, line, sec), b = r.choice(P), r.choice(P)
        if b[2] is not line and r.random() < 0.5:
            v = [frac(r)]
            line.values = v
            setattr(b[3], b[1], v)
            if r.random() < 0.5:
                sec[k].values[0] = frac(r)
            else:
                v[0] = -77.25
            if b[3][b[1]].values == [-77.25] or sec[k].values == [-77.25] or sec[k].values is b[3][b[1]].values:
                raise Exception('a line changes with another one')
            return {p + '/' + k, b[0] + '/' + b[1]}, 'values of %s/%s and %s/%s' % (p, k, b[0], b[1])
        before = list(sec.keys())
        sec.add_line(k, list(line.values), line.comments)
        new = [q for q in sec.keys() if q not in before]
        if len(new) != 1 or [q for q in before if q not in sec.keys()]:
            raise Exception('the line was not added')
        if r.random() < 0.5:
            sec[new[0]].delete()
            return set(), 'line added to %s and deleted' % p
        if r.random() < 0.5:
            line.delete()
            return {p + '/' + k, p + '/' + new[0]}, 'line added to %s, the other deleted' % p
        return {p + '/' + new[0]}, 'line added twice to ' + p
    if x < 0.85 and 'output' in o.data.keys():
        o.data.output.add_sensor(r.choice(['general', 'wind', 'dll']), word(r), [frac(r), word(r)], word(r) if r.random() < 0.5 else '')
        return {'/output sensor %d' % (len(o.data.output.sensors) - 1)}, 'sensor'
    if x < 0.92:
        P = [y for y in P if y[0] in ('/dll', '/wind', '/hydro')]
        if not P:
            return None
        y = r.choice(P)
        y[2].delete()
        return {y[0] + '/' + y[1]}, 'line %s/%s removed' % y[:2]
    if not P:
        return None
    p, k, line, sec = r.choice(P)
    if p.startswith('/output'):
        return None
    n = 'new' + word(r)
    sec.add_line(n, [frac(r), word(r)], word(r) if r.random() < 0.5 else '')
    return {p + '/' + n}, 'line added to ' + p


def e_outb(r, o, s):
    x = r.random()
    if x < 0.15 and not o['binary']:
        j = r.randrange(1, len(o.info['attribute_names']))
        o.info['attribute_names'][j] = 'N' + word(r)
        return {'names'}, 'channel name'
    if x < 0.3:
        u = o.info['attribute_units'] = list(o.info['attribute_units'])
        u[r.randrange(1, len(u))] = word(r)
        return {'units'}, 'unit'
    a = o.data if isinstance(o.data, np.ndarray) else None
    cols = list(range(1, o.data.shape[1]))
    if not cols or not len(o.data):
        return None
    if a is None:
        i, j = r.randrange(len(o.data)), r.choice(cols)
        o.data.iloc[i, j] = num(r)
        return {'data'}, 'number at (%d, %d)' % (i, j)
    if x < 0.4:
        if o['binary']:
            return None
        o.data = a[:r.randrange(1, len(a) + 1)].copy()
        return {'data', 'time', 'description'}, 'lines removed'
    return {'data'}, cell(r, o.data, cols)


def _df(attr='data'):
    def f(r, o, s):
        y = frame(r, getattr(o, attr))
        if y is None:
            return None
        setattr(o, attr, y[0])
        return None, y[1]
    return f


def e_xlsx(r, o, s):
    k = r.choice(list(o.data.keys()))
    y = frame(r, o.data[k])
    if y is None or (y[1] == 'line removed' and len(o.data[k]) < 3):
        return None
    o.data[k] = y[0]
    return {k}, k + ' ' + y[1]


def e_dat(r, o, s):
    x = r.random()
    if x < 0.3:
        k = r.choice(['attribute_names', 'attribute_units', 'attribute_descr'])
        j = r.randrange(1, len(o.info[k]))
        o.info[k] = list(o.info[k])
        o.info[k][j] = '[%s]' % word(r) if o.info[k][j].startswith('[') else word(r)
        return None, k
    if o.data.shape[1] < 2:
        return None
    return None, cell(r, o.data, list(range(1, o.data.shape[1])))


def e_ae(r, o, s):
    k = r.choice(sorted(o.data.ae_sets))
    a = o.data.ae_sets[k]
    if r.random() < 0.3:
        n = r.randrange(1, 5)
        rad = np.cumsum([abs(num(r)) + 1 for _ in range(n)])
        o.data.add_set(rad, [num(r) for _ in range(n)], [num(r) for _ in range(n)], [r.randrange(1, 4) for _ in range(n)], set_id=max(o.data.ae_sets) + 1) if sorted(o.data.ae_sets) == list(range(1, len(o.data.ae_sets) + 1)) else None
        return {'set %d' % max(o.data.ae_sets)}, 'new set'
    return {'set %d' % k}, cell(r, a, [1, 2])


def e_pc(r, o, s):
    k = r.choice(sorted(o.data.pc_sets))
    i = r.randrange(len(o.data.pc_sets[k][1]))
    return {'set %s profile %d' % (k, i)}, cell(r, o.data.pc_sets[k][1][i], [1, 2, 3])


def e_st(r, o, s):
    D = o.data.main_data_sets
    m = r.choice(sorted(D))
    if not D[m]:
        return None
    k = r.choice(sorted(D[m]))
    a = D[m][k]
    if a.ndim < 2:
        return None
    return {'set %d %d' % (m, k)}, cell(r, a)


def e_pro(r, o, s):
    n = r.randrange(len(o.ProfileSets))
    p = o.ProfileSets[n]
    i = r.randrange(len(p.polars))
    a = p.polars[i]
    return {'set %d polar %d' % (n, i)}, cell(r, a, list(range(1, a.shape[1])))


def e_nc(r, o, s):
    ks = [k for k in o.data.data_vars if o.data[k].dtype.kind == 'f' and o.data[k].ndim]
    if not ks:
        return None
    k = r.choice(sorted(ks))
    v = o.data[k].values.copy()
    cell(r, v)
    o.data[k] = (o.data[k].dims, v, o.data[k].attrs)
    return {k}, 'variable ' + k


def e_tec(r, o, s):
    return None, cell(r, o['data'])


def e_vtk(r, o, s):
    if o.point_data and r.random() < 0.8:
        k = r.choice(sorted(o.point_data))
        v = o.point_data[k]
        if v.dtype.kind != 'f':
            return None
        v = v.copy()
        t = cell(r, v)
        o.point_data[k] = v
        return {'point data ' + k}, t
    if o.cell_data:
        k = r.choice(sorted(o.cell_data))
        v = o.cell_data[k][0]
        if v.dtype.kind == 'f' and v.size:
            o.cell_data[k][0] = v = v.copy()
            return {'cell data'}, cell(r, v)
    return None


def e_ts(r, o, s):
    if r.random() < 0.3:
        return {'Points'}, cell(r, o['Points'])
    return {'data'}, cell(r, o['data'], list(range(1, o['data'].shape[1])))


def e_bts(r, o, s):
    x = r.random()
    k = r.randrange(3)
    if x < 0.3:
        o['u'] = o['u'] * np.float64(num(r) or 1)
        return {'u0', 'u1', 'u2', 'uTwr0', 'uTwr1', 'uTwr2'}, 'all velocities'
    if x < 0.5:
        o['u'][k] += num(r)
        return {'u%d' % k, 'uTwr%d' % k}, 'component %d' % k
    if x < 0.6 and o['uTwr'].size:
        o['uTwr'][k] *= 0.5
        return {'u%d' % k, 'uTwr%d' % k}, 'tower'
    if x < 0.7:
        n = r.randrange(1, o['u'].shape[1] + 1)
        o['u'] = o['u'][:, :n]
        o['uTwr'] = o['uTwr'][:, :n]
        o['t'] = o['t'][:n]
        return None, '%d steps' % n
    a = o['u'] = np.array(o['u'])
    a[tuple(r.randrange(n) for n in a.shape)] = num(r)
    return {'u%d' % j for j in range(3)} | {'uTwr%d' % j for j in range(3)}, 'one velocity'


def e_mann(r, o, s):
    a = o['field']
    if a.dtype.kind != 'f':
        return None
    x = r.random()
    if x < 0.2:
        o['field'] = (a * np.float32(num(r))).astype(a.dtype)
        return None, 'all values'
    if x < 0.5:
        o['field'] = a.copy()
    return None, cell(r, o['field'])


def e_rosco(r, o, s):
    k = r.choice(['CP', 'CT', 'CQ'])
    a = o[k]
    a = a.copy() if r.random() < 0.5 else a
    i = tuple(r.randrange(n) for n in a.shape)
    a[i] = round(r.uniform(-1, 1), 6)
    o[k] = a
    return {k}, k


EDIT = {'FASTInputFile': e_fast, 'FASTInputDeck': e_deck, 'HAWC2HTCFile': e_htc, 'CSVFile': _df(), 'ParquetFile': _df(), 'FASTWndFile': None, 'FASTOutputFile': e_outb, 'HAWC2DatFile': e_dat,
        'HAWC2AEFile': e_ae, 'HAWC2PCFile': e_pc, 'HAWC2StFile': e_st, 'MannBoxFile': e_mann, 'NetCDFFile': e_nc, 'ExcelFile': e_xlsx, 'TecplotFile': e_tec, 'VTKFile': e_vtk,
        'TurbSimTSFile': e_ts, 'TurbSimFile': e_bts, 'ROSCOPerformanceFile': e_rosco, 'FLEXProfileFile': e_pro}


def e_wnd(r, o, s):
    i, j = r.randrange(len(o.data)), r.randrange(1, o.data.shape[1])
    o.data.iloc[i, j] = num(r)
    return None, 'number'


EDIT['FASTWndFile'] = e_wnd


# ------------------------------------------------------------------ runs
def plan(tier, seed):
    n = 10000 if tier == 'quick' else 100000
    out = []
    S = _sources()
    for i in range(n):
        r = rng(ID, seed, i)
        src = dict(r.choice(S[r.choice(CLS)]))
        if 'ex' not in src:
            src.update(g=r.randrange(10**6), z=r.choice([0, 1, 1, 2]))
        steps = []
        for _ in range(r.choice([1, 2, 3, 5])):
            st = {'edits': [r.randrange(10**6) for _ in range(r.choice([0, 1, 1, 2, 4]))], 'to': r.choice(['same', 'same', 'new', 'old']), 'read': r.choice(['new', 'new', 'keep', 'keep', 'auto', 'reuse']),
                  'look': r.random() < 0.3, 'look2': r.random() < 0.3}
            if r.random() < 0.3:
                st['fault'] = {'frac': r.random(), 'kind': r.choice(KINDS_WRITE), 'persist': r.random() < 0.5, 'torn': r.choice([0, r.random()])}
                st['late'] = r.random() < 0.5
            if r.random() < 0.2:
                st['frag'] = pick_frag(r)
            steps.append(st)
        steps[0]['edits'] = steps[0]['edits'] or [r.randrange(10**6)]
        out.append({'src': src, 'via': r.choice(VIAS), 'steps': steps})
    return out


class Loose:
    def __init__(self, s):
        self.__dict__.update(cls=s.cls, varied=True, spec=s.spec)


def content(W, s, o):
    if s.cls == 'CSVFile':          # (the names are also those that were found)
        return [('data', c17.unorder(W.quiet(lambda: canon.canon(o.data))), 1e-13, 0)]
    return c17.content(W, Loose(s) if s.cls == 'ROSCOPerformanceFile' else s, o)


def entries(W, s, o):
    """{entry: canonical value}: what is looked at to see what an edit changed"""
    C = lambda x: c17.unorder(W.quiet(lambda: canon.canon(x)))
    if s.cls == 'FASTInputFile':
        return {k: C(o[k]) for k in o.keys()}
    if s.cls == 'FASTInputDeck':
        return {k: C({e: o.fst_vt[k][e] for e in o.fst_vt[k].keys()}) for k in c17.DECK if o.fst_vt.get(k) is not None}
    if s.cls in ('FASTOutputFile', 'TurbSimFile', 'VTKFile', 'ROSCOPerformanceFile'):
        return {x[0]: x[1] for x in content(W, s, o)}
    if s.cls == 'HAWC2HTCFile':
        return entries_htc(o)
    if s.cls == 'HAWC2AEFile':
        return {'set %d' % k: C(v) for k, v in o.data.ae_sets.items()}
    if s.cls == 'HAWC2PCFile':
        return {'set %s profile %d' % (k, i): C(p) for k, v in o.data.pc_sets.items() for i, p in enumerate(v[1])}
    if s.cls == 'HAWC2StFile':
        return {'set %d %d' % (m, k): C(a) for m, d in o.data.main_data_sets.items() for k, a in d.items()}
    if s.cls == 'FLEXProfileFile':
        return {'set %d polar %d' % (n, i): C(a) for n, p in enumerate(o.ProfileSets) for i, a in enumerate(p.polars)}
    if s.cls == 'NetCDFFile':
        return {k: C(o.data[k].values) for k in o.data.variables}
    if s.cls == 'ExcelFile':
        return {k: C(v) for k, v in o.data.items()}
    if s.cls == 'TurbSimTSFile':
        return {k: C(o[k]) for k in o.keys()}
    return {}


def run(W, sc):
    st = Stats()
    name = src_name(sc['src'])
    s = Src(W, sc['src'])
    base = W.call(s.reader(sc['via']))
    if base[0] != 'ok':
        return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (name, ename(base[1])), 'clean-read-fails:' + s.cls))
    o = base[1]
    if not hasattr(o, 'write') or c17.unwritable(s, o):
        return result(st, None, 'no write')
    path = os.path.join(W.root, s.sub, s.target)
    dig = []
    k = 0
    for i, step in enumerate(sc['steps']):
        if step['look']:
            W.call(lambda: (repr(o), o.toDataFrame()))
        done = []
        for g in step['edits']:
            pre = entries(W, s, o)
            r = rng('edit', g)
            try:
                y = W.quiet(lambda: EDIT[s.cls](r, o, s))
            except Exception as e:
                return result(st, viol('edit-fails', '%s: setting valid content raises %s' % (name, ename(e)), 'edit-fails:' + s.cls))
            if y is None:
                continue
            done.append(y[1])
            if y[0] is not None:
                now = entries(W, s, o)
                bad = [q for q in pre if q not in y[0] and (q not in now or now[q] != pre[q])] + [q for q in now if q not in pre and q not in y[0]]
                st.check()
                if bad:
                    return result(st, viol('edit-elsewhere', '%s: setting %s changes %s' % (name, y[1], bad[:3]), 'edit-elsewhere:' + s.cls))
        txt = 'step %d of %s (edited: %s)' % (i + 1, name, '; '.join(map(str, done)) or 'nothing')
        if c17.unwritable(s, o) or (s.cls == 'FASTOutputFile' and o['binary'] and not c17.representable(o)):
            return result(st, None, dig)
        if done:
            k = 0
            ref = None
        if step['look2']:
            W.call(lambda: (repr(o), o.toDataFrame()))
        if k == 0:
            try:
                ref = content(W, s, o)
            except Exception as e:
                return result(st, viol('edit-unreadable', '%s: the content cannot be looked at: %s' % (txt, ename(e)), 'edit-unreadable:' + s.cls))
        if step['to'] == 'new':
            os.makedirs(os.path.join(W.root, 'o%d' % i))
            path = os.path.join(W.root, 'o%d' % i, s.target)
            if s.cls == 'HAWC2HTCFile':          # a model is looked for around the file
                for q, b in s.files.items():
                    if q != s.target:
                        W.put('o%d/%s' % (i, q), b)
        elif step['to'] == 'old':
            os.makedirs(os.path.join(W.root, 'o%d' % i))
            path = os.path.join(W.root, 'o%d' % i, s.target)
            for q, b in s.files.items():
                W.put('o%d/%s' % (i, q), b[:len(b) // 2] if q == s.target else b)
        if step.get('fault'):
            os.makedirs(os.path.join(W.root, 'f%d' % i))
            p = path if step.get('late') and s.cls != 'FASTInputDeck' else os.path.join(W.root, 'f%d' % i, s.target)
            out = W.call(lambda: o.write(p), faults=[resolve(step['fault'], 12)])
            st.seen(W, s.cls)
            if out[0] != 'ok':
                st.probe('write failed before')
        out = W.call(lambda: o.write(path), **frag_args(step.get('frag')))
        st.check()
        if out[0] != 'ok':
            return result(st, viol('not-writable', '%s: the content cannot be written: %s' % (txt, ename(out[1])), 'not-writable:' + s.cls))
        # what is stored, seen by a new reader
        got = W.call(s.reader('auto' if step['read'] == 'auto' and s.auto and s.cls != 'CSVFile' else 'class', path), **frag_args(step.get('frag')))
        st.check()
        if got[0] != 'ok':
            return result(st, viol('not-readable', '%s: what was written cannot be read: %s' % (txt, ename(got[1])), 'not-readable:' + s.cls))
        k += 1
        if type(got[1]).__name__ != s.cls:
            return result(st, viol('wrong-class', '%s: what was written is read as %s' % (txt, type(got[1]).__name__), 'wrong-class:' + s.cls))
        bad = c17.compare(ref, content(W, s, got[1]), k)
        st.check()
        st.state(name, done, step['to'], step['read'], (step.get('fault') or {}).get('kind'))
        dig.append(bad)
        if bad:
            return result(st, viol('edit-lost', '%s: %s' % (txt, bad), 'edit-lost:' + s.cls))
        for d in done:
            st.probe('edits')
        if step['read'] == 'reuse' and s.f is None and (not s.kw or s.ref['kwread']):
            again = W.call(lambda: o.read(path, **(copy.deepcopy(s.kw) if s.kw else {})))
            if again[0] != 'ok':
                return result(st, viol('not-readable', '%s: what was written cannot be read by the object that wrote it: %s' % (txt, ename(again[1])), 'not-readable:' + s.cls))
            bad = c17.compare(ref, content(W, s, o), k)
            if bad:
                return result(st, viol('edit-lost', '%s, read again by the same object: %s' % (txt, bad), 'edit-lost:' + s.cls))
        elif step['read'] != 'keep':
            o = got[1]
        # (the object that was kept still holds what it held, exactly)
        if step['read'] == 'keep':
            k = 0
    return result(st, None, dig)


def shrinks(sc):
    for x in c17.shrinks(sc):
        yield x
    for i, x in enumerate(sc['steps']):
        for j in range(len(x['edits'])):
            yield dict(sc, steps=sc['steps'][:i] + [dict(x, edits=x['edits'][:j] + x['edits'][j + 1:])] + sc['steps'][i + 1:])
        if x.get('look2'):
            yield dict(sc, steps=sc['steps'][:i] + [dict(x, look2=False)] + sc['steps'][i + 1:])
