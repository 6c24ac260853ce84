"""C05: a failed write leaves the object as it was; writing it again once the fault is gone stores the same as if nothing had failed."""
from .common import *
from .c02 import tdiff
ID, LEVEL = 'C05', 'exploration'
RULE = 'distinct (format, size, how the object came to be, fault kind, event hit) tuples in which the write failed'


def plan(tier, seed):
    n = 4000 if tier == 'quick' else 45000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        w = {'fmt': r.choice(formats.WEIGHTED), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 1, 2, 3])}
        if i < 5 * len(formats.NAMES):
            w['fmt'] = formats.NAMES[i % len(formats.NAMES)]
        ops = []
        for _ in range(5):
            if r.random() < 0.2:
                ops.append({'quota': r.random()})
            else:
                ops.append({'fault': {'frac': r.choice([r.random(), r.random(), 0.0, 0.999]), 'kind': r.choice(KINDS_WRITE + ['INT', 'MEM']), 'torn': r.choice([0, r.random()]), 'persist': r.random() < 0.3}})
            ops[-1]['same'] = r.random() < 0.7
        out.append({'wr': w, 'origin': r.choice(['built', 'built', 'read']), 'ops': ops, 'frag': pick_frag(r) if r.random() < 0.6 else None})
    return out


def contains(before, after, clean):
    """every entry is as it was, or as a successful write leaves it (entries may be added) -> None or the difference"""
    b, a, c = before[1], after[1], clean[1]
    ai = dict((repr(k), v) for k, v in a[2])
    ci = dict((repr(k), v) for k, v in c[2])
    for k, v in b[2]:
        if repr(k) not in ai:
            return 'entry %s is gone' % (k[1:],)
        if ai[repr(k)] != v and ai[repr(k)] != ci.get(repr(k)):
            return 'entry %s: %s' % (k[1:], canon.diff(v, ai[repr(k)]))
    ca = dict(c[3])
    for (k, v), (k2, v2) in zip(b[3], a[3]):
        if v != v2 and v2 != ca.get(k):
            return 'attribute %s: %s' % (k, canon.diff(v, v2))
    if before[2] != after[2] and after[2] != clean[2]:
        return 'dataframe: %s' % canon.diff(before[2], after[2])
    return None


def run(W, sc):
    st = Stats()
    w = sc['wr']
    f, m = formats.make(w['fmt'], w['g'], w['z'])
    fn = f.filename(None, m, 'w')
    dig = []
    fa = frag_args(sc.get('frag'))

    def build():
        o = formats.build(W, f, m)
        if sc['origin'] == 'read' and f.rereads:
            os.makedirs(os.path.join(W.root, 'o'), exist_ok=True)
            p = os.path.join(W.root, 'o', fn)
            f.write(o, p, m)
            o = f.read(p, m)
        return o
    try:
        twin = W.quiet(build)
        o = W.quiet(build)
    except Exception as e:
        return result(st, viol('clean-write-fails', '%s cannot be built, written and read: %s' % (w, ename(e)), 'clean-write-fails:' + f.name))
    os.makedirs(os.path.join(W.root, 'a'))
    base = W.call(lambda: f.write(twin, os.path.join(W.root, 'a', fn), m), **fa)
    if base[0] != 'ok':
        return result(st, viol('clean-write-fails', '%s cannot be written: %s' % (w, ename(base[1])), 'clean-write-fails:' + f.name))
    n, nb = W.d.n.get('any', 0), W.d.bytes_written
    ref = {k[2:]: v for k, v in W.tree('a').items()}
    before, clean = W.snap(o), W.snap(twin)
    os.makedirs(os.path.join(W.root, 'x'))
    for i, op in enumerate(sc['ops']):
        sub = 'x' if op['same'] else 'y%d' % i
        os.makedirs(os.path.join(W.root, sub), exist_ok=True)
        p = os.path.join(W.root, sub, fn)
        if op.get('quota') is not None:
            out = W.call(lambda: f.write(o, p, m), quota=int(op['quota'] * max(nb, 1)), **fa)
        else:
            out = W.call(lambda: f.write(o, p, m), faults=[resolve(op['fault'], n)], **fa)
        fired = list(W.d.fired)
        st.seen(W, f.name)
        dig.append((out[0], fired[:1]))
        if out[0] == 'ok':
            continue
        if not fired:
            return result(st, viol('write-fails', '%s: a write without a fault raises %s' % (w, ename(out[1])), 'write-fails:' + f.name))
        st.check(2)
        st.state(f.name, w['z'], sc['origin'], fired[0][:2], fired[0][3])
        d = contains(before, W.snap(o), clean)
        if d:
            return result(st, viol('object-changed', '%s: after a write that failed (%s), the object has changed: %s' % (w, fired[0][:3], d), 'object-changed:' + f.name))
        again = W.call(lambda: f.write(o, p, m))
        if again[0] != 'ok':
            return result(st, viol('retry-fails', '%s: after a write that failed (%s), writing again raises %s' % (w, fired[0][:3], ename(again[1])), 'retry-fails:' + f.name))
        got = {k[len(sub) + 1:]: v for k, v in W.tree(sub).items()}
        if got != ref:
            return result(st, viol('retry-differs', '%s: after a write that failed (%s), writing again stores something else: %s' % (
                w, fired[0][:3], tdiff(ref, got)), 'retry-differs:' + f.name))
        out = again = None
    return result(st, None, dig)


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    if sc['wr']['z'] > 0:
        yield dict(sc, wr=dict(sc['wr'], z=0))
        yield dict(sc, wr=dict(sc['wr'], z=sc['wr']['z'] - 1))
    if sc['origin'] != 'built':
        yield dict(sc, origin='built')
