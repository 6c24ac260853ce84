"""C06: a file that was cut short, or torn by a crash of its writer, is rejected rather than read as if it were whole."""
from .common import *
ID, LEVEL = 'C06', 'exploration'
RULE = 'distinct (format, size class, cut position as a share of the file in 1/40, way of reading, outcome) tuples'
CUT = [n for n in refs.NAMES if n in ('adbld', 'edbld', 'bdbld', 'extptfm', 'polar15', 'coords', 'raaw', 'ae', 'bladed', 'bts', 'edtwr', 'flex-blade', 'h2asc', 'h2bin', 'lin', 'mann', 'netcdf', 'outb', 'parquet', 'pc', 'rosco', 'st', 'vtk', 'xlsx')]
# formats whose own writer may die half-way: the torn file must not be read as complete content
TORN = ['bts', 'excel', 'mann', 'outb', 'parquet']


def plan(tier, seed):
    n = 2600 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        if i % 40 == 7:                  # readers take such files in pieces
            out.append({'ref': r.choice(['outb', 'outb', 'outb', 'bts', 'h2bin', 'mann']), 'g': r.randrange(10**6), 'z': 3, 'via': r.choice(['auto', 'class', 'obj']),
                        'cuts': [r.choice([r.random(), 1 - r.random() ** 3]) for _ in range(4)]})
            continue
        if r.random() < 0.75:
            nm = CUT[i % len(CUT)] if i < 6 * len(CUT) else r.choice(CUT + ['outb', 'bts', 'h2bin', 'mann', 'bladed'])
            out.append({'ref': nm, 'g': r.randrange(10**6), 'z': r.choice([0, 1, 1, 2]), 'via': r.choice(['auto', 'class', 'obj']),
                        'cuts': [r.choice([r.random(), r.random(), 1 - r.random() ** 4 * 0.2, r.random() ** 3]) for _ in range(12)]})
        else:
            out.append({'wr': {'fmt': r.choice(TORN), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 2])}, 'pre': r.random() < 0.4,
                        'ops': [{'frac': r.random(), 'kind': 'CRASH', 'torn': r.choice([0, r.random(), r.random()])} for _ in range(5)],
                        'frag': pick_frag(r) if r.random() < 0.6 else None})
    return out


def run(W, sc):
    return run_cut(W, sc) if 'ref' in sc else run_torn(W, sc)


def where(ref, x):
    """-> (rel, number of bytes kept, description) of a relative position, or None"""
    c = ref['cuts']
    if c is None:
        return None
    rel = ref['target'] if c == 'bytes' else c[1]
    b = ref['files'][rel]
    if c == 'bytes' or c[0] == 'file':
        k = min(int(x * len(b)), len(b) - 1)
        return rel, k, 'byte %d of %d' % (k, len(b))
    ends = [i + 1 for i, ch in enumerate(b) if ch == 10]
    ls = list(range(c[2], c[3] + 1)) if c[0] == 'lines' else list(c[2])
    if not ls:
        return None
    ln = ls[min(int(x * len(ls)), len(ls) - 1)]
    return rel, ends[ln - 1] if ln else 0, 'after line %d of %d' % (ln, len(ends))


def run_cut(W, sc):
    st = Stats()
    spec = {'ref': sc['ref'], 'g': sc['g'], 'z': sc['z']}
    s = Src(W, spec)
    dig = []
    base = W.call(s.reader(sc['via']))
    bad = base[1] if base[0] != 'ok' else None
    if bad is not None:
        return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (src_name(spec), ename(bad)), 'clean-read-fails:' + s.cls))
    for x in sc['cuts']:
        w = where(s.ref, x)
        if w is None:
            continue
        rel, k, txt = w
        W.put(os.path.join(s.sub, rel), s.files[rel][:k])
        out = W.call(s.reader(sc['via']))
        st.seen(W, s.cls)
        st.check()
        st.state(sc['ref'], sc['z'], int(40 * k / max(len(s.files[rel]), 1)), sc['via'], out[0])
        st.d['fired']['truncation'] = st.d['fired'].get('truncation', 0) + 1
        dig.append((out[0], type(out[1]).__name__))
        if out[0] == 'ok':
            try:
                d = W.quiet(lambda: refs.check(s.ref, out[1]))
            except Exception as e:
                d = ename(e)
            if d is None:
                st.probe('nothing lost')          # what was cut off carried no content
                continue
            return result(st, viol('truncated-accepted', '%s: %s was cut at %s and is read (%s) without an error: %s' % (
                src_name(spec), rel, txt, sc['via'], d), 'truncated-accepted:' + s.cls))
        st.probe(type(out[1]).__name__)
        out = None
        s.place()
    return result(st, None, dig)


def run_torn(W, sc):
    st = Stats()
    w = sc['wr']
    f, m = formats.make(w['fmt'], w['g'], w['z'])
    fn = f.filename(None, m, 'w')
    dig = []

    def writer(sub):
        os.makedirs(os.path.join(W.root, sub), exist_ok=True)
        o = W.quiet(lambda: formats.build(W, f, m))
        return lambda: f.write(o, os.path.join(W.root, sub, fn), m)
    base = W.call(writer('a'), **frag_args(sc['frag']))
    n = W.d.n.get('any', 1)
    if base[0] != 'ok':
        return result(st, viol('clean-write-fails', '%s cannot be written: %s' % (w, ename(base[1])), 'clean-write-fails:' + f.name))
    for i, ft in enumerate(sc['ops']):
        sub = 'b%d' % i
        P = Pristine(1)
        try:
            out = W.call(writer(sub), faults=[resolve(ft, n)], **frag_args(sc['frag']))
            fired = list(W.d.fired)
            st.seen(W, 'torn ' + f.name)
            W.d.reset()
            if out[0] != 'crash':
                continue
            p = os.path.join(W.root, sub, fn)
            st.check()
            d = P.ask('torn', w['fmt'], m, p)
            dig.append(d)
        finally:
            P.close()
        st.state(f.name, w['z'], fired[0][1], fired[0][3], d and d[0])
        st.probe('torn: ' + str(d[0]))
        if d[0] == 'differs':
            return result(st, viol('torn-accepted', '%s: the writer died at %s of %s, and the file it left is read without an error: %s' % (
                w, fired[0][1], fired[0][2], d[1]), 'torn-accepted:' + f.name))
    return result(st, None, dig)


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    if 'ref' in sc:
        if sc['z'] > 0:
            yield dict(sc, z=0)
        if sc['via'] != 'class':
            yield dict(sc, via='class')
    elif sc['wr']['z'] > 0:
        yield dict(sc, wr=dict(sc['wr'], z=0))
