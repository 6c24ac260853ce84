"""C14: an environment failure during a read is reported as what it is, never as a property of the file."""
from .common import *
from . import c01
ID, LEVEL = 'C14', 'exploration'
RULE = 'distinct (source file, way of reading, fault kind, event hit, exception type) tuples in which a fault fired and the read raised'
FORMAT_ERRORS = ('WrongFormatError', 'FormatNotDetectedError', 'BrokenFormatError', 'EmptyFileError')


def plan(tier, seed):
    n = 5000 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        src = pick_source(r, opts=0.08, var=0.15)
        if i < 3 * len(EX):
            src = {'ex': EX[i % len(EX)]['file']}
        fs = [{'faults': [{'frac': r.random(), 'kind': r.choice(KINDS_IO + ['EIO', 'EIO', 'MEM', 'MEM', 'INT']), 'persist': r.random() < 0.4}],
               'frag': pick_frag(r) if r.random() < 0.3 else None} for _ in range(8)]
        out.append({'src': src, 'via': r.choice(['auto', 'auto', 'auto', 'class', 'obj', 'detect']), 'ops': fs})
    return out


def run(W, sc):
    st = Stats()
    s = Src(W, sc['src'])
    name = src_name(sc['src'])
    via = sc['via']

    def reader():
        if via == 'detect' and s.auto:
            return lambda: world.weio.detectFormat(s.path, **copy.deepcopy(s.kw))[0]
        return s.reader(via)
    base = W.call(reader())
    n = W.d.n.get('any', 0)
    if base[0] != 'ok' and s.varied:
        return result(st, None, 'not a valid variant')
    if base[0] != 'ok':
        return result(st, viol('clean-read-fails', '%s (%s) cannot be read: %s' % (name, via, ename(base[1])), 'clean-read-fails:' + s.cls))
    base = None
    dig = []
    for op in sc['ops']:
        m = nevents(W, s, via, op.get('frag'), n)
        fl = [resolve(f, m) for f in op['faults']]
        for f in fl:
            if f['kind'] == 'INT':
                f['persist'] = False
        out = W.call(reader(), faults=fl, **frag_args(op.get('frag')))
        fired = list(W.d.fired)
        st.seen(W, s.cls)
        st.check()
        dig.append((out[0], type(out[1]).__name__, fired[:2]))
        if not fired or out[0] == 'ok':
            continue
        e = out[1]
        kind = fired[0][0]
        st.probe('%s->%s' % (kind if kind in ('MEM', 'INT') else 'OSError', type(e).__name__))
        st.state(name, via, fired[0], type(e).__name__)
        bad = None
        mro = [c.__name__ for c in type(e).__mro__]
        if any(x in mro for x in FORMAT_ERRORS):
            bad = 'misreported'
        elif kind == 'INT' and not isinstance(e, KeyboardInterrupt):
            bad = 'interrupt-swallowed'
        if bad:
            return result(st, viol(bad, '%s (%s): %s was reported as %s' % (name, via, '%s at %s of %s' % fired[0][:3], ename(e)), bad + ':' + s.cls))
    return result(st, None, dig)


shrinks = c01.shrinks
