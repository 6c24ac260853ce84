"""C01: a read that meets a fault raises, or returns exactly the content of the file; a later read without faults is exact."""
import copy
from .common import *
ID, LEVEL = 'C01', 'exploration'
RULE = 'distinct (source file, way of reading, fault kind, event hit, outcome) tuples in which a fault actually fired'


def pick_fault(r, src):
    k = r.choice(KINDS_IO + ['EIO', 'EIO', 'MEM', 'INT', 'VANISH'])
    f = {'frac': r.random(), 'kind': k, 'persist': r.random() < 0.3 and k not in ('VANISH', 'INT')}
    return f


def plan(tier, seed):
    n = 5000 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        src = pick_source(r, opts=0.08, var=0.15)
        if i < 3 * len(EX):                       # every example file, several times
            src = {'ex': EX[i % len(EX)]['file']}
        via = r.choice(VIAS)
        fs = []
        for _ in range(6 if tier == 'quick' else 10):
            fs.append({'faults': [pick_fault(r, src) for _ in range(r.choice([1, 1, 1, 2]))], 'frag': pick_frag(r) if r.random() < 0.35 else None})
        out.append({'src': src, 'via': via, 'ops': fs})
    return out


def run(W, sc):
    st = Stats()
    s = Src(W, sc['src'])
    name = src_name(sc['src'])
    base = W.call(s.reader(sc['via']))
    n = W.d.n.get('any', 0)
    if base[0] != 'ok' and s.varied:
        return result(st, None, 'not a valid variant')
    if base[0] != 'ok':
        return result(st, viol('clean-read-fails', '%s (%s) cannot be read: %s' % (name, sc['via'], ename(base[1])), 'clean-read-fails:' + s.cls))
    ref = W.snap(base[1])
    base = None
    dig = []
    for op in sc['ops']:
        keep = []
        fl = [resolve(f, nevents(W, s, sc['via'], op.get('frag'), n)) for f in op['faults']]
        for f in fl:
            if f['kind'] == 'VANISH':
                if '$' in s.target or '%' in s.target or 'sel' in s.target:
                    f['kind'] = 'EIO'
                else:
                    import re
                    f['path'] = re.escape(s.target) + '$'
        out = W.call(s.reader(sc['via'], keep=keep), faults=fl, **frag_args(op.get('frag')))
        fired = list(W.d.fired)
        st.seen(W, s.cls)
        st.check()
        if fired:
            st.probe('ok' if out[0] == 'ok' else 'raised')
            st.state(name, sc['via'], [(k, o, rel) for k, o, rel, j in fired][:2], fired[0][3], out[0])
        dig.append((out[0], type(out[1]).__name__, fired[:2]))
        if out[0] == 'ok':
            got = W.snap(out[1])
            if got != ref:
                return result(st, viol('wrong-content', '%s (%s): the read returned although %s, with content that differs: %s' % (
                    name, sc['via'], ['%s at %s of %s' % x[:3] for x in fired] or 'nothing failed', canon.diff(ref, got)), 'wrong-content:' + s.cls))
        s.place()
        # the same object, once the fault is gone
        if keep and out[0] != 'ok':
            again = W.call(lambda: (keep[0].read(s.path, **(copy.deepcopy(s.kw) if not s.kw or s.ref['kwread'] else {})), keep[0])[1])
            st.check()
            st.probe('retry-same-object')
            if again[0] != 'ok':
                return result(st, viol('retry-fails', '%s: after a failed read (%s), reading again with the same object raises %s' % (
                    name, fired, ename(again[1])), 'retry-fails:' + s.cls))
            got = W.snap(again[1])
            if got != ref:
                return result(st, viol('retry-differs', '%s: after a failed read (%s), reading again with the same object gives other content: %s' % (
                    name, fired, canon.diff(ref, got)), 'retry-differs:' + s.cls))
        out = keep = None
    again = W.call(s.reader(sc['via']))
    st.check()
    if again[0] != 'ok' or W.snap(again[1]) != ref:
        return result(st, viol('later-read-differs', '%s: after reads that failed, a read without faults %s' % (
            name, 'raises ' + ename(again[1]) if again[0] != 'ok' else 'gives other content: %s' % canon.diff(ref, W.snap(again[1]))), 'later-read-differs:' + s.cls))
    return result(st, None, dig)


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    for i, o in enumerate(sc['ops']):
        if len(o['faults']) > 1:
            for j in range(len(o['faults'])):
                yield dict(sc, ops=sc['ops'][:i] + [dict(o, faults=o['faults'][:j] + o['faults'][j + 1:])] + sc['ops'][i + 1:])
    for x in shrink_src(sc['src']):
        yield dict(sc, src=x)
