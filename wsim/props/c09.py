"""C09: an object can be used to read again - the same file, its new content, or another file of its kind - and then shows exactly what a new object would."""
import copy
from .common import *
from .c08 import sibling
ID, LEVEL = 'C09', 'exploration'
RULE = 'distinct (class, previous file, file, operations in between, outcome) tuples whose content was compared with that of a new object'
REFCLS = None


def refcls():
    global REFCLS
    if REFCLS is None:
        REFCLS = {}
        for n in refs.NAMES:
            for g in range(3):
                REFCLS.setdefault(refs.make(n, g, 0)['klass'], [])
                if n not in REFCLS[refs.make(n, g, 0)['klass']]:
                    REFCLS[refs.make(n, g, 0)['klass']].append(n)
    return REFCLS


def plan(tier, seed):
    n = 3000 if tier == 'quick' else 60000
    rc = refcls()
    classes = sorted(set(EXCLS) | set(rc))
    fcls = {}
    for nm in formats.NAMES:
        if formats.F[nm].rereads and nm not in ('fastedit',):
            fcls.setdefault(formats.F[nm].klass, []).append(nm)
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        k = classes[i % len(classes)] if i < 8 * len(classes) else r.choice(classes)
        pool = [{'ex': f} for f in EXCLS.get(k, [])]
        for nm in rc.get(k, []):
            pool += [{'ref': nm, 'g': r.randrange(10**6), 'z': r.choice([0, 1, 2])} for _ in range(max(2, len(EXCLS.get(k, [])) // 3))]
            pool += [{'ref': o, 'g': r.randrange(10**6), 'z': r.choice([0, 1, 2])} for o in refs.OPTS if refs.make(o, 0, 0)['kwread'] and refs.make(o, 0, 0)['klass'] == k]
        srcs = [r.choice(pool) for _ in range(r.choice([1, 2, 2, 3]))]
        srcs = [dict(x, var=r.randrange(10**6)) if r.random() < 0.15 else x for x in srcs]
        ops = []
        for _ in range(r.choice([3, 5, 8])):
            op = {'op': r.choice(['read'] * 6 + ['df', 'edit', 'fail', 'write']), 's': r.randrange(len(srcs))}
            if op['op'] == 'fail':
                op['fault'] = {'frac': r.random(), 'kind': r.choice(KINDS_IO + ['MEM', 'INT'])}
            ops.append(op)
        out.append({'klass': k, 'start': r.choice(['new', 'new', 'read']), 'srcs': srcs, 'ops': [{'op': 'read', 's': 0}] + ops + [{'op': 'read', 's': r.randrange(len(srcs))}]})
    return out


def edit(x, depth=0):
    """the user changes values in place"""
    import numpy as np
    try:
        if depth > 3:
            return
        if isinstance(x, np.ndarray):
            if x.dtype.kind in 'fiu' and x.flags.writeable and x.size:
                x[...] = 3
        elif isinstance(x, dict):
            for k in list(x.keys()):
                v = x[k]
                if isinstance(v, float):
                    x[k] = v + 1
                else:
                    edit(v, depth + 1)
        elif isinstance(x, list):
            for v in x:
                edit(v, depth + 1)
    except Exception:
        pass


def run(W, sc):
    st = Stats()
    C = world.getclass(sc['klass'])
    cls = sc['klass'].split('.')[-1]
    ss = [Src(W, sp, 'in%d' % i) for i, sp in enumerate(sc['srcs'])]
    want = []
    nev = []
    for s in ss:
        b = W.call(s.reader('class'))
        nev.append(max(W.d.n.get('any', 0), 1))
        if b[0] != 'ok' and s.varied:          # a file that is not what it seems
            want.append(None)
            continue
        if b[0] != 'ok':
            return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (src_name(s.spec), ename(b[1])), 'clean-read-fails:' + cls))
        want.append(W.snap(b[1]))
    dig = []
    new = sc['start'] == 'new' or want[-1] is None
    o = C() if new else W.quiet(ss[-1].reader('class'))
    last = ['constructed' if new else 'constructed with ' + src_name(ss[-1].spec)]
    for op in sc['ops']:
        s = ss[op['s']]
        k = op['op']
        nm = src_name(s.spec)
        if k == 'df':
            W.quiet(lambda: canon.obj_df(o))
        elif k == 'edit':
            W.quiet(lambda: edit(o))
        elif k == 'write':
            os.makedirs(os.path.join(W.root, 'out'), exist_ok=True)
            W.call(lambda: o.write(os.path.join(W.root, 'out', s.target)))
        elif k == 'fail':
            W.call(lambda: o.read(s.path, **copy.deepcopy(s.kw)), faults=[resolve(op['fault'], nev[op['s']])])
            st.seen(W)
            k = 'fail'
        else:
            out = W.call(lambda: o.read(s.path, **copy.deepcopy(s.kw)))
            st.seen(W, cls)
            st.check()
            st.state(cls, last[-3:], nm, out[0])
            dig.append(out[0])
            if want[op['s']] is None:
                if out[0] == 'ok':
                    return result(st, viol('reread-accepts', '%s: %s cannot be read by a new object, but one that was used before (%s) reads it' % (cls, nm, ', '.join(last)), 'reread-accepts:' + cls))
                last.append('read in vain ' + nm)
                st.probe('invalid file')
                continue
            if out[0] != 'ok':
                return result(st, viol('reread-fails', '%s: reading %s with an object that was used before (%s) raises %s' % (cls, nm, ', '.join(last), ename(out[1])), 'reread-fails:' + cls))
            got = W.snap(o)
            if got != want[op['s']]:
                return result(st, viol('reread-differs', '%s: reading %s with an object that was used before (%s) gives other content than a new object: %s' % (
                    cls, nm, ', '.join(last), canon.diff(want[op['s']], got)), 'reread-differs:' + cls))
        last.append(k + ' ' + nm)
    # what it writes now is what a new object would write
    s = ss[sc['ops'][-1]['s']] if sc['ops'] and sc['ops'][-1]['op'] == 'read' else None
    if s is not None and want[sc['ops'][-1]['s']] is not None:
        trees = []
        for i, x in enumerate((W.quiet(s.reader('class')), o)):
            sub = 'cmp%d' % i
            os.makedirs(os.path.join(W.root, sub))
            w = W.call(lambda: x.write(os.path.join(W.root, sub, s.target)))
            trees.append((w[0], type(w[1]).__name__ if w[0] != 'ok' else {k.split('/', 1)[1]: v for k, v in W.tree(sub).items()}))
        st.check()
        if trees[0] != trees[1]:
            from .c02 import tdiff
            return result(st, viol('rewrite-differs', '%s: an object that was used before (%s) writes something else than a new object that read the same file: %s' % (
                cls, ', '.join(last), tdiff(trees[0][1], trees[1][1]) if trees[0][0] == trees[1][0] == 'ok' else trees), 'rewrite-differs:' + cls))
    return result(st, None, dig)


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    if sc['start'] == 'new' and False:
        yield sc
    for i, sp in enumerate(sc['srcs']):
        for x in shrink_src(sp):
            yield dict(sc, srcs=[x if j == i else y for j, y in enumerate(sc['srcs'])])
