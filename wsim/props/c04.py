"""C04: a write that reports success stored everything; a write that is not supported leaves the target alone."""
from .common import *
from .c02 import tdiff
ID, LEVEL = 'C04', 'exploration'
RULE = 'distinct (format, content size, earlier content of the target, fault kind, event hit, outcome) tuples in which a fault fired, plus (file, class) pairs of unsupported writes'


def plan(tier, seed):
    n = 5000 if tier == 'quick' else 50000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        if i < len(EX) or r.random() < 0.15:
            src = {'ex': EX[i % len(EX)]['file']} if i < len(EX) else pick_source(r, 0.3, 0.7)
            out.append({'src': src, 'pre': r.choice(['text', 'text', 'absent', 'copy'])})
            continue
        if r.random() < 0.05:
            out.append({'refuse': r.choice(sorted(REFUSE)), 'fmt': r.choice(['outb', 'outb', 'outb-df']), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 2]),
                        'pick': r.random(), 'pre': r.choice(['text', 'same'])})
            continue
        w = {'fmt': r.choice(formats.WEIGHTED), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 1, 2, 3])}
        if i < len(EX) + 4 * len(formats.NAMES):
            w['fmt'] = formats.NAMES[i % len(formats.NAMES)]
        ops = []
        for _ in range(7):
            x = r.random()
            if x < 0.2:
                ops.append({'quota': r.random()})
            else:
                ops.append({'fault': {'frac': r.random() if x < 0.8 else r.choice([0.97, 0.999]), 'kind': r.choice(KINDS_WRITE + ['INT', 'MEM', 'EIO', 'ENOSPC']), 'torn': r.choice([0, 0, r.random(), 0.999]),
                                      'persist': r.random() < 0.3}})
            if r.random() < 0.25:
                ops[-1]['frag'] = pick_frag(r)
        out.append({'wr': w, 'pre': r.choice(['absent', 'absent', 'longer', 'shorter']), 'ops': ops})
    return out


def run(W, sc):
    return run_unsupported(W, sc) if 'src' in sc else run_refused(W, sc) if 'refuse' in sc else run_faults(W, sc)


# contents that a FAST binary output cannot hold: (names, units, description) -> the same, spoiled at column i
def _at(l, i, v):
    return l[:i] + [v] + l[i + 1:]


REFUSE = {
    'long name': lambda n, u, d, i: (_at(n, i, (n[i] + 'abcdefghij')[:11]), u, d),
    'long unit': lambda n, u, d, i: (n, _at(u, i, '(kN-m/s^2/rad)'), d),
    'name of other letters': lambda n, u, d, i: (_at(n, i, '\u03b8_p'), u, d),
    'unit of other letters': lambda n, u, d, i: (n, _at(u, i, '(\u20ac)'), d),
    'description of other letters': lambda n, u, d, i: (n, u, d + ' \u2013 2'),
    'uneven time': lambda n, u, d, i: (n, u, d),
    'no time': lambda n, u, d, i: (_at(n, 0, 'Tme'), u, d),
    'time not first': lambda n, u, d, i: ((['x'] + n[1:i] + ['Time'] + n[i + 1:]) if i else _at(n, 0, 'time'), u, d),
}


def run_refused(W, sc):
    st = Stats()
    f, m = formats.make(sc['fmt'], sc['g'], sc['z'])
    n, u, d = REFUSE[sc['refuse']](list(m['names']), list(m['units']), m['desc'], int(sc['pick'] * len(m['names'])))
    fn = f.filename(None, m, 'w')
    os.makedirs(os.path.join(W.root, 'out'))
    p = os.path.join(W.root, 'out', fn)
    if sc['pre'] == 'same':
        W.quiet(lambda: f.write(formats.build(W, f, m), p, m))
    else:
        W.put('out/' + fn, b'precious content of somebody else\n' * 50)
    before = W.tree('out')
    o = W.quiet(lambda: formats.build(W, f, m))
    m2 = dict(m, names=n, units=u, desc=d)
    if sc['refuse'] == 'uneven time':
        a = m['a'].copy()
        k = int(sc['pick'] * len(a))
        a[k:, 0] += (k + 1.7) * 100
        if len(a) < 3 or k == 0:
            return result(st, None, 'n/a')
        m2['a'] = a
    W.quiet(lambda: f.apply(o, m2))
    out = W.call(lambda: f.write(o, p, m2))
    st.seen(W, f.name)
    st.check()
    st.state('refused', sc['refuse'], f.name, sc['pre'], out[0])
    if out[0] != 'ok':
        st.probe('content refused')
        if W.tree('out') != before:
            return result(st, viol('refused-write-damages', '%s: the write of a content with %s raises %s, but the target was changed: %s' % (
                f.name, sc['refuse'], ename(out[1]), tdiff(before, W.tree('out'))), 'refused-write-damages:' + f.name))
        return result(st, None, ename(out[1]))
    st.probe('odd content accepted')
    bad = W.quiet(lambda: f.check(f.read(p, m2), m2))
    if bad:
        return result(st, viol('false-success', '%s: the write of a content with %s reports success but a read gives other content: %s' % (
            f.name, sc['refuse'], bad), 'false-success:' + f.name))
    return result(st, None, 'ok')


def run_faults(W, sc):
    st = Stats()
    w = sc['wr']
    f, m = formats.make(w['fmt'], w['g'], w['z'])
    fn = f.filename(None, m, 'w')
    dig = []

    def put_old(sub):
        os.makedirs(os.path.join(W.root, sub), exist_ok=True)
        if sc['pre'] == 'longer':
            W.put('%s/%s' % (sub, fn), b'0123456789 previous content\n' * 20000)
        elif sc['pre'] == 'shorter':
            W.put('%s/%s' % (sub, fn), b'xy')

    def writer(sub):
        o = W.quiet(lambda: formats.build(W, f, m))
        return lambda: f.write(o, os.path.join(W.root, sub, fn), m)
    put_old('a')
    base = W.call(writer('a'))
    if base[0] != 'ok':
        return result(st, viol('clean-write-fails', '%s cannot be written: %s' % (w, ename(base[1])), 'clean-write-fails:' + f.name))
    n, nb = W.d.n.get('any', 0), W.d.bytes_written
    ref = {k[2:]: v for k, v in W.tree('a').items()}
    for i, op in enumerate(sc['ops']):
        sub = 'b%d' % i
        put_old(sub)
        fr = op.get('frag')
        k = n
        if fr:
            put_old('c%d' % i)
            W.call(writer('c%d' % i), **frag_args(fr))
            k = W.d.n.get('any', n)
        if op.get('quota') is not None:
            W.d.quota = None
            out = W.call(writer(sub), quota=int(op['quota'] * max(nb, 1)), **frag_args(fr))
        else:
            out = W.call(writer(sub), faults=[resolve(op['fault'], k)], **frag_args(fr))
        fired = list(W.d.fired)
        st.seen(W, f.name)
        st.check()
        dig.append((out[0], fired[:1]))
        if fired:
            st.probe('reported success' if out[0] == 'ok' else 'reported failure')
            st.state(f.name, w['z'], sc['pre'], fired[0][:2], fired[0][3], out[0])
        if out[0] == 'ok':
            got = {k[len(sub) + 1:]: v for k, v in W.tree(sub).items()}
            if got != ref:
                return result(st, viol('incomplete-success', '%s: the write reported success although %s, and the disk holds something else: %s' % (
                    w, ['%s at %s of %s' % x[:3] for x in fired] or 'nothing failed', tdiff(ref, got)), 'incomplete-success:' + f.name))
        elif not fired:
            return result(st, viol('clean-write-fails', '%s: a write without a fault raises %s' % (w, ename(out[1])), 'clean-write-fails:' + f.name))
        out = None
    return result(st, None, dig)


def run_unsupported(W, sc):
    """an object of any class, asked to write: either it does (and its file can be read back by that class), or it raises and the target is as before"""
    st = Stats()
    s = Src(W, sc['src'])
    name = src_name(sc['src'])
    o = W.call(s.reader('class'))
    if o[0] != 'ok':
        return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (name, ename(o[1])), 'clean-read-fails:' + s.cls))
    o = o[1]
    os.makedirs(os.path.join(W.root, 'out'))
    fn = s.target
    if sc['pre'] == 'copy':
        for k, v in s.files.items():
            W.put('out/' + k, v)
    elif sc['pre'] == 'text':
        W.put('out/' + fn, b'precious content of somebody else\n' * 50)
    if s.cls == 'HAWC2HTCFile':          # a model is looked for around the file
        for k, v in s.files.items():
            if k != fn:
                W.put('out/' + k, v)
    before = W.tree('out')
    p = os.path.join(W.root, 'out', fn)
    if not hasattr(o, 'write'):
        st.probe('no write method')
        return result(st, None, 'none')
    out = W.call(lambda: o.write(p))
    st.seen(W, s.cls)
    st.check()
    after = W.tree('out')
    st.state(name, s.cls, out[0], sc['pre'])
    st.probe('write ok' if out[0] == 'ok' else 'write not supported')
    if out[0] != 'ok':
        if after != before:
            return result(st, viol('unsupported-write-damages', '%s: write() of a %s raises %s, but the target was changed: %s' % (
                name, s.cls, ename(out[1]), tdiff(before, after)), 'unsupported-write-damages:' + s.cls))
        return result(st, None, ename(out[1]))
    back = W.call(lambda: world.getclass(s.klass)(p))
    if back[0] != 'ok':
        return result(st, viol('unreadable-success', '%s: write() of a %s reported success but its file cannot be read back: %s' % (
            name, s.cls, ename(back[1])), 'unreadable-success:' + s.cls))
    return result(st, None, 'ok')


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    if 'wr' in sc and sc['wr']['z'] > 0:
        yield dict(sc, wr=dict(sc['wr'], z=0))
        yield dict(sc, wr=dict(sc['wr'], z=sc['wr']['z'] - 1))
    if 'src' in sc:
        for x in shrink_src(sc['src']):
            yield dict(sc, src=x)
    if sc['pre'] != 'absent':
        yield dict(sc, pre='absent')
