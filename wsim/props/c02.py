"""C02: how the operating system slices reads and writes never changes the result."""
from .common import *
ID, LEVEL = 'C02', 'exploration'
RULE = 'distinct (source or written content, slicing policy, number of disk events) tuples in which at least one transfer was partial'


def plan(tier, seed):
    n = 4000 if tier == 'quick' else 50000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        if r.random() < 0.65:
            src = {'ex': EX[i % len(EX)]['file']} if i < len(EX) * 2 else pick_source(r, opts=0.08, var=0.15)
            out.append({'src': src, 'via': r.choice(VIAS), 'ops': [pick_frag(r) for _ in range(4)]})
        else:
            out.append({'wr': {'fmt': r.choice(formats.WEIGHTED), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 2, 2, 3])}, 'ops': [pick_frag(r) for _ in range(4)]})
    return out


def run(W, sc):
    st = Stats()
    dig = []
    if 'src' in sc:
        s = Src(W, sc['src'])
        name = src_name(sc['src'])
        base = W.call(s.reader(sc['via']))
        if base[0] != 'ok' and s.varied:          # not a valid file, however it is sliced
            for fr in sc['ops']:
                out = W.call(s.reader(sc['via']), **frag_args(fr))
                st.check()
                if type(out[1]) is not type(base[1]):
                    return result(st, viol('refusal-differs', '%s: %s, but under short reads %s: %s' % (name, ename(base[1]), fr, ename(out[1]) if out[0] != 'ok' else 'read'), 'refusal-differs:' + s.cls))
            return result(st, None, 'not a valid variant')
        if base[0] != 'ok':
            return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (name, ename(base[1])), 'clean-read-fails:' + s.cls))
        ref = W.snap(base[1])
        for fr in sc['ops']:
            out = W.call(s.reader(sc['via']), **frag_args(fr))
            st.seen(W, s.cls)
            st.check()
            if W.d.nfrag:
                st.state(name, fr['p'], fr['buf'], fr['chunk'], W.d.n.get('any'))
            dig.append((out[0], W.d.n.get('any')))
            if out[0] != 'ok':
                return result(st, viol('read-fails', '%s: reading raises %s under short reads %s' % (name, ename(out[1]), fr), 'read-fails:' + s.cls))
            got = W.snap(out[1])
            if got != ref:
                return result(st, viol('read-differs', '%s: other content under short reads %s: %s' % (name, fr, canon.diff(ref, got)), 'read-differs:' + s.cls))
        return result(st, None, dig)
    w = sc['wr']
    f, m = formats.make(w['fmt'], w['g'], w['z'])

    def write(sub):
        os.makedirs(os.path.join(W.root, sub), exist_ok=True)
        p = os.path.join(W.root, sub, f.filename(None, m, 'w'))
        o = W.quiet(lambda: formats.build(W, f, m))
        return lambda: f.write(o, p, m)
    base = W.call(write('a'))
    if base[0] != 'ok':
        return result(st, viol('clean-write-fails', '%s cannot be written: %s' % (w, ename(base[1])), 'clean-write-fails:' + f.name))
    ref = {k[2:]: v for k, v in W.tree('a').items()}
    for i, fr in enumerate(sc['ops']):
        out = W.call(write('b%d' % i), **frag_args(fr))
        st.seen(W, 'write ' + f.name)
        st.check()
        if W.d.nfrag:
            st.state(w, fr['p'], fr['buf'], W.d.n.get('any'))
        dig.append((out[0], W.d.n.get('any')))
        if out[0] != 'ok':
            return result(st, viol('write-fails', '%s: writing raises %s under partial writes %s' % (w, ename(out[1]), fr), 'write-fails:' + f.name))
        got = {k[3:]: v for k, v in W.tree('b%d' % i).items()}
        if f.stable_bytes and got != ref:
            return result(st, viol('write-differs', '%s: other bytes on disk under partial writes %s: %s' % (w, fr, tdiff(ref, got)), 'write-differs:' + f.name))
    return result(st, None, dig)


def tdiff(a, b):
    if sorted(a) != sorted(b):
        return 'files %s / %s' % (sorted(a), sorted(b))
    for k in a:
        if a[k] != b[k]:
            i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
            return '%s: %d / %d bytes, first difference at byte %d' % (k, len(a[k]), len(b[k]), i)
    return 'equal'


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    if 'src' in sc:
        for x in shrink_src(sc['src']):
            yield dict(sc, src=x)
    elif sc['wr']['z'] > 0:
        yield dict(sc, wr=dict(sc['wr'], z=sc['wr']['z'] - 1))
