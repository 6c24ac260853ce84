"""C11: looking at an object (entries, text, dataframes, derived quantities), completely or interrupted, never changes it: looks can be repeated
in any order with the same result, and a later write stores what it would have stored anyway."""
import sys
import numpy as np
from .common import *
ID, LEVEL = 'C11', 'exploration'
RULE = 'distinct (class, source, sequence of the last three looks, interruption point share) tuples after which the object, the result of the look and the later write were compared'


def _mid(a): return float((a[0] + a[-1]) / 2)


COMMON = {'toDataFrame': lambda o: o.toDataFrame(), 'text': lambda o: (str(o), repr(o))[0], 'items': lambda o: [(k, o[k]) for k in list(o.keys())],
          'size': lambda o: o.size, 'encoding': lambda o: o.encoding, 'copy-constructor': lambda o: dict(o), 'attributes': lambda o: {k: getattr(o, k) for k in canon.ATTRS.get(type(o).__name__, []) if hasattr(o, k)}}
LOOKS = {
    'TurbSimFile': {
        'z': lambda o: o.z, 'y': lambda o: o.y, 't': lambda o: o.t, 'iMid': lambda o: o.iMid, 'midValues': lambda o: o.midValues(), 'hubValues': lambda o: o.hubValues(),
        'hubValues(z)': lambda o: o.hubValues(_mid(o.z)), 'valuesAt': lambda o: o.valuesAt(_mid(o.y), _mid(o.z)), 'closestPoint': lambda o: o.closestPoint(_mid(o.y), _mid(o.z)),
        'horizontalPlane': lambda o: o.horizontalPlane(), 'horizontalPlane(mean)': lambda o: o.horizontalPlane(removeMean=True), 'verticalPlane': lambda o: o.verticalPlane(),
        'verticalPlane(mean)': lambda o: o.verticalPlane(y=_mid(o.y), removeMean=True), 'vertProfile': lambda o: o.vertProfile(), 'vertProfile(mid)': lambda o: o.vertProfile('mid'),
        'crosscorr_y': lambda o: o.crosscorr_y(), 'crosscorr_z': lambda o: o.crosscorr_z(), 'csd_longi': lambda o: o.csd_longi(), 'csd_lat': lambda o: o.csd_lat(), 'csd_vert': lambda o: o.csd_vert(),
        'coherence_longi': lambda o: o.coherence_longi(), 'checkPeriodic': lambda o: o.checkPeriodic(), 'longi line': lambda o: o._longiline(removeMean=True) if hasattr(o, '_longiline') else None,
        'fitPowerLaw': lambda o: o.fitPowerLaw()[:2], 'writeProbes': lambda o: o.writeProbes('look_probes.csv', o.y[:2], o.z[:2]), 'writeInfo': lambda o: o.writeInfo('look_info.txt'),
        'toMannBox': lambda o: o.toMannBox(base='look_mann', removeUConstant=1.0, removeAllUMean=False), 'toMannBox(mean)': lambda o: o.toMannBox(base='look_mann', removeAllUMean=True)},
    'MannBoxFile': {'z': lambda o: o.z, 'y': lambda o: o.y, 't': lambda o: o.t(2.0, 10.0), 'valuesAt': lambda o: o.valuesAt(_mid(o.y), _mid(o.z)), 'closestPoint': lambda o: o.closestPoint(0, 0),
                    'vertProfile': lambda o: o.vertProfile},
    'FASTInputFile': {'toString': lambda o: o.toString(), 'comment': lambda o: o.comment, 'module': lambda o: o.module, 'fixedfile': lambda o: o.fixedfile, 'fixedFormat': lambda o: type(o.fixedFormat).__name__, 'toGraph': lambda o: _graph(o)},
    'FASTSummaryFile': {'toGraph': lambda o: _graph(o), 'toJSON': lambda o: o.toJSON(), 'toJSON(file)': lambda o: o.toJSON('look.json') and None, 'getModes': lambda o: o.getModes(), 'getModes(sort)': lambda o: o.getModes(sortDim=0, maxDisp=3.0),
                        'NodesDisp': lambda o: o.NodesDisp(o['DOF___B'].ravel().astype(int), np.eye(o['DOF___B'].size))},
    'FASTLinearizationFile': {'toString': lambda o: o.toString(), 'x': lambda o: o.xdescr(), 'xdot': lambda o: o.xdotdescr(), 'y': lambda o: o.ydescr(), 'u': lambda o: o.udescr()},
    'FLEXProfileFile': {'toString': lambda o: o.toString()}, 'TurbSimTSFile': {'toString': lambda o: o.toString(), 'columns': lambda o: o.columns, 'units': lambda o: o.units},
    'HAWC2AEFile': {'sets': lambda o: o.sets}, 'HAWC2PCFile': {'sets': lambda o: o.sets}, 'ParquetFile': {'toString': lambda o: o.toString()},
    'HAWC2HTCFile': {'bodyNames': lambda o: o.bodyNames, 'bodies': lambda o: [str(o.bodyByName(b)) for b in o.bodyNames], 'c2': lambda o: [o.bodyC2(o.bodyByName(b)) for b in o.bodyNames], 'data': lambda o: str(o.data),
                     'input_files': lambda o: sorted(o.data.input_files()), 'output_files': lambda o: sorted(o.data.output_files()), 'turbulence_files': lambda o: o.data.turbulence_files(), 'keys': lambda o: o.data.keys(),
                     'compare': lambda o: o.data.compare(o.data), 'get': lambda o: [o.data.get(k) is None for k in ('simulation/logfile', 'nothing', 'wind.mann')], 'locations': lambda o: [x.location() for x in o.bodyDict.values()]},
    'FASTOutputFile': {'writeDataFrame': lambda o: o.writeDataFrame(o.toDataFrame(), 'look_df.outb')},
}


def _graph(o):
    g = o.toGraph()
    a = g.toJSON()
    g.sortNodesBy('z') if not g.Modes else None
    return a, str(g)


def plan(tier, seed):
    n = 2400 if tier == 'quick' else 50000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        src = pick_source(r, 0.5, 0.25, opts=0.08, var=0.15)
        if i < 3 * len(EX):
            src = {'ex': EX[i % len(EX)]['file']}
        ops = []
        for _ in range(r.choice([3, 6, 10])):
            op = {'look': r.random()}
            if r.random() < 0.35:
                op['cut'] = r.choice([r.random(), r.random() ** 3, 1 - r.random() ** 3])
                op['kind'] = r.choice(['INT', 'MEM'])
            ops.append(op)
        out.append({'src': src, 'via': r.choice(VIAS), 'rounds': r.random() < 0.3, 'ops': ops})
    return out


def looks(o):
    d = dict(COMMON)
    for c in type(o).__mro__:
        d.update(LOOKS.get(c.__name__, {}))
    return d


class Cut:
    """raise at the k-th line of weio code that is executed"""
    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.hit = k, exc, 0, None
        self.prefix = os.path.join(world.REPO, 'weio')

    def _t(self, frame, ev, arg):
        return self._l if frame.f_code.co_filename.startswith(self.prefix) else None

    def _l(self, frame, ev, arg):
        if ev == 'line':
            self.n += 1
            if self.k is not None and self.n == self.k:
                self.hit = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise self.exc('simulated')
        return self._l

    def run(self, fn):
        sys.settrace(self._t)
        try:
            return fn()
        finally:
            sys.settrace(None)


def outcome(W, fn, cut=None):
    def go():
        v = cut.run(fn) if cut else fn()
        return canon.canon(v)
    out = W.call(go)
    return ('ok', out[1]) if out[0] == 'ok' else ('exc', type(out[1]).__name__)


def wrote(W, s, o, sub):
    os.makedirs(os.path.join(W.root, sub), exist_ok=True)
    w = W.call(lambda: o.write(os.path.join(W.root, sub, s.target)))
    return w[0], type(w[1]).__name__ if w[0] != 'ok' else {k.split('/', 1)[1]: v for k, v in W.tree(sub).items()}


def run(W, sc):
    st = Stats()
    s = Src(W, sc['src'])
    name = src_name(sc['src'])
    fresh = lambda: W.quiet(s.reader(sc['via']))
    base = W.call(s.reader(sc['via']))
    if s.varied and (base[0] != 'ok'):
        return result(st, None, 'not a valid variant')
    if base[0] != 'ok':
        return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (name, ename(base[1])), 'clean-read-fails:' + s.cls))
    o = base[1]
    names = sorted(looks(o))
    want = {}
    last = []
    dig = []
    writes = 0
    twin = wrote(W, s, fresh(), 'twin')
    cut_base = None
    for op in sc['ops']:
        nm = names[int(op['look'] * len(names))] if op['look'] >= 0.3 else 'toDataFrame'
        fn = looks(o)[nm]
        if nm not in want:
            f2 = fresh()
            want[nm] = outcome(W, lambda: fn(f2))
            del f2
        if op.get('cut') is not None:
            f2 = fresh()
            c = Cut(None, None)
            W.quiet(lambda: outcome_quiet(c, lambda: fn(f2)))
            del f2
            if c.n == 0:
                continue
            k = 1 + min(int(op['cut'] * c.n), c.n - 1)
            c = Cut(k, KeyboardInterrupt if op['kind'] == 'INT' else MemoryError)
            outcome(W, lambda: fn(o), c)
            st.probe('interrupted' if c.hit else 'not interrupted')
            if c.hit:
                st.d['fired'][op['kind'] + '@line'] = st.d['fired'].get(op['kind'] + '@line', 0) + 1
            last.append('%s interrupted in %s' % (nm, c.hit))
            st.state(s.cls, name, last[-3:], k)
        else:
            got = outcome(W, lambda: fn(o))
            st.seen(W, s.cls)
            last.append(nm)
            st.check()
            st.state(s.cls, name, last[-3:])
            dig.append(got[0])
            if got != want[nm]:
                d = canon.diff(want[nm][1], got[1]) if got[0] == want[nm][0] == 'ok' else '%s / %s' % (want[nm], got)
                return result(st, viol('look-differs', '%s: %s after %s differs from the same on an object nobody looked at: %s' % (name, nm, last[:-1], d[:300]), 'look-differs:%s:%s' % (s.cls, nm)))
        if writes == 0:
            w = wrote(W, s, o, 'w')
            writes = 1
            st.check()
            if w != twin:
                from .c02 import tdiff
                d = tdiff(twin[1], w[1]) if w[0] == twin[0] == 'ok' else '%s / %s' % (twin, w)
                return result(st, viol('write-differs', '%s: what is written after %s differs from what an object nobody looked at writes: %s' % (name, last, d[:300]), 'write-differs:' + s.cls))
            o = None
            o = fresh()                    # writing may renew entries and sets the file name: go on with a fresh object
            last = []
            writes = 1 if not sc['rounds'] else 0
    st.check()
    a, b = W.snap(o), W.snap(fresh())
    if a != b:
        return result(st, viol('object-changed', '%s: after %s the object has changed: %s' % (name, last, canon.diff(b, a)), 'object-changed:' + s.cls))
    w = wrote(W, s, o, 'w2')
    st.check()
    if w != twin:
        from .c02 import tdiff
        d = tdiff(twin[1], w[1]) if w[0] == twin[0] == 'ok' else '%s / %s' % (twin, w)
        return result(st, viol('write-differs', '%s: what is written after %s differs from what an object nobody looked at writes: %s' % (name, last, d[:300]), 'write-differs:' + s.cls))
    return result(st, None, dig)


def outcome_quiet(c, fn):
    try:
        c.run(fn)
    except Exception:
        pass


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    for i, o in enumerate(sc['ops']):
        if o.get('cut') is not None:
            yield dict(sc, ops=sc['ops'][:i] + [{'look': o['look']}] + sc['ops'][i + 1:])
    for x in shrink_src(sc['src']):
        yield dict(sc, src=x)
    if sc['via'] != 'class':
        yield dict(sc, via='class')
