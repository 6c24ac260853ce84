"""C17: a file that is read and written again keeps its content: reading what was written shows what the first file shows, to the precision of the format,
through any number of such cycles, onto the same or other paths, and with failed writes in between."""
import numpy as np
from .common import *
from .. import fuzzy
ID, LEVEL = 'C17', 'exploration'
RULE = 'distinct (source file, number of cycles, targets, ways of reading, fault in between) tuples whose content was compared with that of the first file'
ASSUMPTIONS = ['what a format cannot hold is not compared: the description of an ASCII FAST output, the program line of a TurbSim field, the grid of a VTK file written as cells; '
               '16-bit formats are compared to their resolution']

NOWRITE = ('HAWCStab2IndFile', 'FASTLinearizationFile', 'BModesOutFile', 'BladedFile', 'FASTSummaryFile', 'FLEXDocFile', 'FLEXWaveKinFile', 'HAWCStab2CmbFile',
           'FLEXBladeFile', 'FLEXOutFile', 'HAWCStab2PwrFile', 'CactusFile', 'CactusElementFile', 'RAAWMatFile', 'TDMSFile')
RTOL = {'HAWC2DatFile': 6e-9, 'HAWC2StFile': 6e-7, 'TurbSimTSFile': 6e-9, 'TecplotFile': 6e-9, 'FLEXProfileFile': 6e-8, 'HAWC2AEFile': 1e-14}
EXACT = 2e-15


def unwritable(s, o):
    """whether weio says that it cannot write such a content"""
    if s.cls in NOWRITE:
        return True
    if s.cls == 'FASTOutputFile':
        return s.target.lower().endswith('.elm') or bool(uneven(o)) or (s.varied and o['binary'] and (o.info['attribute_names'][0] != 'Time' or any(len(x) > 10 for x in o.info['attribute_names']) or any(len(x) > 8 for x in o.info['attribute_units'])))
    if s.cls == 'HAWC2AEFile' and s.varied:
        return any(np.asarray(x).shape[1] != 4 for x in o.data.ae_sets.values())
    if s.cls == 'FASTInputDeck':         # modules that are switched on but were not found or not asked for
        vt = o.fst_vt
        return s.varied or any(vt['Fst'][c] in v and vt[m] is None for m, c, v in (
            ('ElastoDyn', 'CompElast', (1, 2)), ('ElastoDynTower', 'CompElast', (1, 2)), ('ElastoDynBlade', 'CompElast', (1,)), ('BeamDyn', 'CompElast', (2,)), ('BeamDynBlade', 'CompElast', (2,)),
            ('InflowWind', 'CompInflow', (1,)), ('AeroDyn15', 'CompAero', (2,)), ('ServoDyn', 'CompServo', (1,)), ('HydroDyn', 'CompHydro', (1,)), ('SubDyn', 'CompSub', (1,)),
            ('MAP', 'CompMooring', (1,)), ('MoorDyn', 'CompMooring', (2,))))
    if s.cls == 'FASTInputFile':
        return s.spec.get('ex', '').startswith('FASTIn_AD14_arf') or s.spec.get('ref') == 'polar14'
    return False


def beyond(s, o):
    """whether a variant shows something that its format is not made for (a reader may show anything it finds)"""
    if s.cls == 'FASTOutputFile' and o['binary']:
        return not representable(o)
    if s.cls == 'HAWC2DatFile':
        return np.abs(np.asarray(o.data, float)).max() > 1e9 or 'Unit' in o.info['attribute_units']      # (a heading line taken for a channel)
    if s.cls == 'HAWC2PCFile':
        return any(round(t, 8) != t for x in o.data.pc_sets.values() for t in x[0])
    if s.cls == 'FASTInputFile' and 'NumTabs' in o.keys():        # labels are made unique with the number of their table
        L = [x.split()[1] for x in s.files[s.target].decode('latin-1').splitlines() if len(x.split()) > 1 and x[0] != '!']
        return any(L.count(x) > max(o['NumTabs'], 1) for x in set(L) if x[0].isalpha()) or any(x.lower().startswith('numalf') and x[:6] != 'NumAlf' for x in o.keys())
    if s.cls == 'CSVFile':                   # a second line of units
        return any('"' in str(c) for c in o.data.columns) or any(isinstance(x, str) and x.startswith('(') for x in o.data.iloc[:1].values.ravel())
    if s.cls == 'NetCDFFile':
        return any(v.dtype.kind not in 'fiu' for v in o.data.variables.values())
    if s.cls == 'ExcelFile':
        return not len(o.data)
    return False


def representable(o):
    a = np.asarray(o.data, float)[:, 1:]
    return bool(np.all(np.isfinite(a)) and (not a.size or np.abs(a).max() < 1e30 and np.all((np.ptp(a, axis=0) == 0) | (np.ptp(a, axis=0) > 1e-30))))


def uneven(o):
    t = np.asarray(o.data)[:, 0].astype(float)
    return o['binary'] and len(t) > 1 and np.any(np.abs(t[0] + (t[-1] - t[0]) / (len(t) - 1) * np.arange(len(t)) - t) > 0.4 * abs(t[-1] - t[0]) / (len(t) - 1))


def unorder(c):
    """canonical form in which the order of dictionary entries does not count"""
    if isinstance(c, tuple):
        if len(c) == 2 and c[0] == 'd' and isinstance(c[1], tuple):
            return ('d', tuple(sorted(((k, unorder(v)) for k, v in c[1]), key=repr)))
        if len(c) == 4 and c[0] == 'obj':
            return c[:2] + (tuple(sorted(((k, unorder(v)) for k, v in c[2]), key=repr)), unorder(c[3]))
        return tuple(unorder(v) for v in c)
    return c


DECK = ['Fst', 'ElastoDyn', 'ElastoDynTower', 'ElastoDynBlade', 'BeamDyn', 'BeamDynBlade', 'InflowWind', 'AeroDyn15', 'ServoDyn', 'HydroDyn', 'SubDyn', 'MAP', 'MoorDyn']


def content(W, s, o):
    """[(name, canonical value, rtol, atol)]"""
    C = lambda x: unorder(W.quiet(lambda: canon.canon(x)))
    if s.cls == 'FASTOutputFile':
        a = np.asarray(o.data).astype(float)
        n, u = [str(x) for x in o.info['attribute_names']], [str(x).strip('()[]') for x in o.info['attribute_units']]
        out = [('names', C(n), 0, 0), ('units', C(u), 0, 0)]
        if o['binary']:
            t = a[:, :1]
            out += [('data', C(a[:, 1:]), 0, formats.outb_tol(a[:, 1:])), ('description', C(str(o.info['description']).strip()), 0, 0)]
            dt = abs(t[-1, 0] - t[0, 0]) / max(len(t) - 1, 1)
            out.append(('time', C(t), 0, 1e-9 * (1 + np.abs(t).max()) + (0.5 * dt if not even(t[:, 0]) else 0)))
        else:
            # the writer prints times with 4 decimals, values with 4 digits
            out += [('time', C(a[:, :1]), 0, 6e-5), ('data', C(a[:, 1:]), 6e-4, 1e-300)]
        return out
    if s.cls == 'TurbSimFile':
        out = [(k, C(o[k]), 1e-6, 1e-6) for k in ('y', 'z', 't', 'zTwr', 'ID', 'dt', 'zRef', 'uRef')]
        u, tw = np.asarray(o['u']), np.asarray(o['uTwr'])
        for k in range(3):
            x = np.concatenate([u[k].ravel(), tw[k].ravel()])
            tol = float(np.ptp(x) / 65535 * 0.53 + 1e-6 * (np.abs(x).max() + np.ptp(x)) + 1e-12)
            out += [('u%d' % k, C(u[k]), 0, tol), ('uTwr%d' % k, C(tw[k]), 0, tol)]
        return out
    if s.cls == 'VTKFile':
        return [('points', C(np.asarray(o.points, float)), EXACT, 0)] + [('point data ' + k, C(np.asarray(v)), EXACT, 0) for k, v in sorted(o.point_data.items())] + [
            ('cells', C([(c.type, np.asarray(c.data).astype(int)) for c in o.cells]), 0, 0),
            ('cell data', C({k: [np.asarray(x) for x in v] for k, v in o.cell_data.items()}), EXACT, 0)]
    if s.cls == 'ROSCOPerformanceFile' and s.varied:     # the writer prints 4 digits, and 6 decimals
        return [(k, C(o[k]), 6e-4, 1e-300) for k in ('pitch', 'TSR', 'WS') if o[k] is not None] + [(k, C(o[k]), 0, 6e-7) for k in ('CP', 'CT', 'CQ')]
    if s.cls == 'FASTInputDeck':         # (writing gives the files new names; the airfoils are not written)
        mods = [k for k in DECK if o.fst_vt[k] is not None and (k, o.fst_vt['Fst']['CompElast']) != ('ElastoDynBlade', 2)]
        return [(k, C({e: o.fst_vt[k][e] for e in o.fst_vt[k].keys() if 'File' not in e}), 6e-9, 0) for k in mods]
    if s.cls == 'FASTInputFile':         # the tables hold columns computed from others
        c = unorder(W.snap(o))
        return [('content', c[:2], 6e-9, 0), ('tables', c[2:], 1e-7, lambda x: 1e-6 * np.nanmax(np.abs(x), initial=0) if s.varied else 6e-9 * np.nanmax(np.abs(x), initial=0))]
    return [('content', unorder(W.snap(o)), RTOL.get(s.cls, EXACT), 6e-9 if s.cls in ('TecplotFile', 'HAWC2PCFile') else 0)]


def even(t):
    return len(t) < 3 or np.abs(np.diff(t, 2)).max() <= 1e-9 * (1 + np.abs(t).max())


def plan(tier, seed):
    n = 6000 if tier == 'quick' else 50000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        src = pick_source(r, 0.3, 0.6)
        if i < len(EX):
            src = {'ex': EX[i]['file']}
        elif r.random() < 0.4:
            src['var'] = r.randrange(10**6)
        steps = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            st = {'to': r.choice(['same', 'same', 'new', 'old']), 'read': r.choice(['new', 'new', 'reuse', 'auto', 'none']), 'look': r.random() < 0.4}
            if r.random() < 0.3:
                st['fault'] = {'frac': r.random(), 'kind': r.choice(KINDS_WRITE), 'persist': r.random() < 0.5, 'torn': r.choice([0, r.random()])}
            if r.random() < 0.25:
                st['frag'] = pick_frag(r)
            steps.append(st)
        steps[-1]['read'] = steps[-1]['read'] if steps[-1]['read'] != 'none' else 'new'
        out.append({'src': src, 'via': r.choice(VIAS), 'steps': steps})
    return out


def run(W, sc):
    st = Stats()
    name = src_name(sc['src'])
    try:
        s = Src(W, sc['src'])
    except Exception as e:
        if 'fmt' not in sc['src']:
            raise
        return result(st, viol('not-written', '%s cannot be written: %s' % (name, ename(e)), 'not-written:' + sc['src']['fmt']))
    base = W.call(s.reader(sc['via']))
    if s.varied and (base[0] != 'ok' or type(base[1]).__name__ != s.cls):
        return result(st, None, 'not a valid variant')
    if base[0] != 'ok':
        return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (name, ename(base[1])), 'clean-read-fails:' + s.cls))
    o = base[1]
    base = None
    if not hasattr(o, 'write'):
        return result(st, None, 'no write')
    try:
        if s.varied and beyond(s, o):
            return result(st, None, 'not a valid variant')
        ref = content(W, s, o)
    except Exception:
        if s.varied:
            return result(st, None, 'not a valid variant')
        raise
    path = os.path.join(W.root, s.sub, s.target)
    dig = []
    can = not unwritable(s, o)
    for i, step in enumerate(sc['steps']):
        txt = 'cycle %d of %s' % (i + 1, name)
        if step['to'] == 'new':
            os.makedirs(os.path.join(W.root, 'o%d' % i))
            path = os.path.join(W.root, 'o%d' % i, s.target)
            if s.cls == 'HAWC2HTCFile':          # a model is looked for around the file
                for q, b in s.files.items():
                    if q != s.target:
                        W.put('o%d/%s' % (i, q), b)
        elif step['to'] == 'old':
            os.makedirs(os.path.join(W.root, 'o%d' % i))
            path = os.path.join(W.root, 'o%d' % i, s.target)
            for q, b in s.files.items():
                W.put('o%d/%s' % (i, q), b[:len(b) // 2] if q == s.target else b)
        if step['look']:
            W.call(lambda: (repr(o), o.toDataFrame()))
        if step.get('fault'):
            # where the write fails is of no importance, as long as it happens to another file
            os.makedirs(os.path.join(W.root, 'f%d' % i))
            W.call(lambda: o.write(os.path.join(W.root, 'f%d' % i, s.target)), faults=[resolve(step['fault'], 12)])
            st.seen(W, s.cls)
        out = W.call(lambda: o.write(path), **frag_args(step.get('frag')))
        st.check()
        if out[0] != 'ok':
            dig.append('unwritten')
            if can and not (s.varied and s.cls == 'FASTInputFile' and isinstance(out[1], KeyError)):       # (an entry that such a file must have)
                return result(st, viol('not-writable', '%s: a content that was read cannot be written again: %s' % (txt, ename(out[1])), 'not-writable:' + s.cls))
            st.probe('format that is only read')
            return result(st, None, dig)
        if step['read'] == 'none':
            continue
        if step['read'] == 'reuse' and s.f is None:
            got = W.call(lambda: (o.read(path, **(copy.deepcopy(s.kw) if s.kw and s.ref['kwread'] else {})), o)[1], **frag_args(step.get('frag')))
        else:
            got = W.call(s.reader('auto' if step['read'] == 'auto' and s.auto and s.cls != 'CSVFile' and (sc['via'] == 'auto' or not s.varied) else 'class', path), **frag_args(step.get('frag')))
        st.check()
        if got[0] != 'ok':
            return result(st, viol('not-readable', '%s: what was written cannot be read: %s' % (txt, ename(got[1])), 'not-readable:' + s.cls))
        o = got[1]
        if type(o).__name__ != s.cls:
            return result(st, viol('wrong-class', '%s: what was written is read as %s' % (txt, type(o).__name__), 'wrong-class:' + s.cls))
        now = content(W, s, o)
        bad = compare(ref, now, i + 1)
        st.state(name, i, step['to'], step['read'], step['look'], (step.get('fault') or {}).get('kind'))
        dig.append(bad)
        if bad:
            return result(st, viol('content-lost', '%s: %s' % (txt, bad), 'content-lost:' + s.cls))
    return result(st, None, dig)


def compare(ref, now, k):
    if [x[0] for x in ref] != [x[0] for x in now]:
        return 'entries: %s, got %s' % ([x[0] for x in ref], [x[0] for x in now])
    for (n, a, rt, at), (_, b, _, _) in zip(ref, now):
        if a != b:
            f = (lambda x, at=at: at(x) * k) if callable(at) else at * k
            d = fuzzy.fdiff(a, b, rt * k, f, n)
            if d:
                return d
    return None


def shrinks(sc):
    from ..runner import default_shrinks
    for i in range(len(sc['steps'])):
        if len(sc['steps']) > 1:
            yield dict(sc, steps=sc['steps'][:i] + sc['steps'][i + 1:])
    for i, x in enumerate(sc['steps']):
        for k, v in (('fault', None), ('frag', None), ('look', False), ('to', 'new'), ('read', 'new')):
            if x.get(k) and x.get(k) != v:
                yield dict(sc, steps=sc['steps'][:i] + [dict(x, **{k: v})] + sc['steps'][i + 1:])
    for x in shrink_src(sc['src']):
        yield dict(sc, src=x)
