"""C15: readers decode: the content of a file written independently of weio (or recorded for the shipped example) is what the reader shows,
every value, name and unit, however the disk slices the transfer and whatever was read before."""
from .common import *
ID, LEVEL = 'C15', 'exploration'
RULE = 'distinct (reference encoder, content seed, size) or (example file) x way of reading x slicing, whose decoded content was compared with the independent description'
ASSUMPTIONS = ['the reference encoders were written from the format descriptions and the shipped examples; the checksums of the examples were recorded once and are compared to 1e-9']


def plan(tier, seed):
    n = 4000 if tier == 'quick' else 60000
    out = []
    big = [x for x in refs.NAMES + refs.OPTS + ['outb'] * 10 for _ in range(2)]
    for i in range(n):
        r = rng(ID, seed, i)
        items = []
        if i % 7 == 3 and i // 7 < len(big):      # every format at a large size
            out.append({'ops': [{'src': {'ref': big[i // 7], 'g': r.randrange(10**7), 'z': 3}, 'via': r.choice(VIAS), 'frag': None, 'twice': r.random() < 0.2}]})
            continue
        for j in range(6):
            if r.random() < 0.85:
                nm = refs.NAMES[(6 * i + j) % len(refs.NAMES)] if r.random() < 0.9 else r.choice(refs.OPTS)
                items.append({'ref': nm, 'g': r.randrange(10**7), 'z': 3 if r.random() < 0.02 else r.choice([0, 1, 1, 2, 2])})
            else:
                items.append({'ex': EX[(i + j * 37) % len(EX)]['file'] if r.random() < 0.5 else pick_ex(r)})
        out.append({'ops': [{'src': s, 'via': r.choice(VIAS), 'frag': pick_frag(r) if r.random() < 0.4 else None, 'twice': r.random() < 0.15} for s in items]})
    return out


def run(W, sc):
    st = Stats()
    dig = []
    for i, op in enumerate(sc['ops']):
        s = Src(W, op['src'], 'in%d' % i)
        name = src_name(op['src'])
        fn = s.reader(op['via'])
        if op['twice']:
            W.quiet(lambda: outq(fn))
        out = W.call(fn, **frag_args(op['frag']))
        st.seen(W, s.cls)
        st.check()
        st.state(op['src'], op['via'], op['frag'] and (op['frag']['buf'], op['frag']['chunk'], op['frag']['p']))
        dig.append(out[0])
        if out[0] != 'ok':
            return result(st, viol('not-read', '%s (%s): %s' % (name, op['via'], ename(out[1])), 'not-read:' + s.cls))
        o = out[1]
        if type(o).__name__ != s.cls:
            return result(st, viol('wrong-class', '%s is read as %s, not as %s' % (name, type(o).__name__, s.cls), 'wrong-class:' + s.cls))
        try:
            if s.ref is not None:
                d = W.quiet(lambda: refs.check(s.ref, o))
            else:
                d = W.quiet(lambda: corpus.sdiff(EXBY[op['src']['ex']]['golden'], corpus.observe(o)))
        except Exception as e:
            d = 'its content cannot be accessed: ' + ename(e)
        if d:
            return result(st, viol('wrong-content', '%s (%s): %s' % (name, op['via'], d), 'wrong-content:' + s.cls))
        out = o = None
    return result(st, None, dig)


def outq(fn):
    try:
        return fn()
    except Exception:
        return None


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    for i, o in enumerate(sc['ops']):
        for x in shrink_src(o['src']):
            yield dict(sc, ops=sc['ops'][:i] + [dict(o, src=x)] + sc['ops'][i + 1:])
        if o['via'] != 'class':
            yield dict(sc, ops=sc['ops'][:i] + [dict(o, via='class')] + sc['ops'][i + 1:])
