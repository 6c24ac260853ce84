"""C13: what a path is decides what reading it gives: a missing file, an empty one, an unknown kind have their own errors, and a file of a known
kind is detected as that kind and read with the same content wherever it lies, however it is named, and however it is asked for."""
import re
from .common import *
ID, LEVEL = 'C13', 'exploration'
RULE = 'distinct (source or kind of path, place and name, way of asking, fault, outcome) tuples whose outcome was compared with what the path is'
ASSUMPTIONS = ['renaming is tried for formats that consist of one file whose name carries no information; the others are moved with their companions']
NAMED = ('MannBoxFile', 'BladedFile', 'HAWC2DatFile', 'FLEXProfileFile', 'FLEXDocFile', 'HAWCStab2IndFile')     # companions, or dimensions, in the name
STEMS = ['x', 'My file', 'a.b.c', 'élan', 'run#1 (2)', '-dash', 'UPPER', '.hidden', 'x.csv', 'out.outb', '1', "it's", 'a' * 100, '%d{}', '[ab]*']
DIRS = ['in', 'deep/er/est', 'with space', 'dots.dat/v1.0', 'ünï', 'a.csv', '[x]', 'sub$1', '100%', 'a%20b$']


def plan(tier, seed):
    n = 5000 if tier == 'quick' else 50000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        src = pick_source(r, 0.5, 0.4, var=0.12)
        if i < 4 * len(EX):
            src = {'ex': EX[i % len(EX)]['file']}
        ops = []
        for _ in range(6):
            k = r.choice(['valid'] * 6 + ['missing', 'missing', 'empty', 'empty', 'unknown', 'vanish'])
            op = {'op': k, 'dir': r.choice(DIRS), 'stem': r.choice(STEMS), 'ask': r.choice(['auto', 'auto', 'auto', 'class', 'obj', 'format', 'legacy']), 'link': r.choice([None, None, None, 'file', 'dir']),
                  'rel': r.random() < 0.3, 'case': r.choice([None, None, None, 'upper', 'title']), 'what': r.choice(['none', 'none', 'dir', 'dangling', 'nodir']), 'e': r.random()}
            if k == 'vanish':
                op['frac'] = r.random()
            ops.append(op)
        out.append({'src': src, 'ops': ops})
    return out


def asker(W, s, ask, p):
    weio = world.weio
    C = world.getclass(s.klass)
    if ask == 'auto' and s.auto:
        return lambda: weio.read(p)
    if ask == 'format' and s.auto:
        F = next((f for f in W.quiet(lambda: weio.fileFormats()) if f.constructor is C), None)
        if F is not None:
            return lambda: weio.read(p, fileformat=F)
    if ask == 'legacy' and s.cls in ('FASTInputFile', 'FASTOutputFile', 'CSVFile'):
        return lambda: getattr(weio, s.cls)(p)
    if ask == 'obj' and s.f is None:
        def go():
            o = C()
            o.read(p)
            return o
        return go
    if s.f is not None:
        return lambda: s.f.read(p, s.m)
    return lambda: C(p)


def unname(c, fn):
    """the name of the file itself may be part of what an object shows"""
    if c[1][1] == 'CactusFile':                 # shows where its geometry file is
        def base(x):
            return tuple(base(v) for v in x) if isinstance(x, tuple) else os.path.basename(x) if isinstance(x, str) and x.endswith('.geom') else x
        return base(c)
    if c[1][1] != 'FASTOutputFile':
        return c
    names = {fn, os.path.splitext(fn)[0]}

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 's' and x[1] in names:
                return ('s', '<name>')
            return tuple(go(v) for v in x)
        return x
    return go(c)


def family(s, stem):
    """new names for files whose name carries information (which is kept), or that belong together (renamed together); None: not tried"""
    base, ext = os.path.splitext(s.target)
    if s.cls == 'MannBoxFile' and len(s.files) == 1:
        m = re.search(r'\d+x\d+x\d+[^x\d]*$', base)
        return {s.target: stem + '_' + m.group(0) + ext} if m else None
    if s.cls == 'HAWCStab2IndFile' and len(s.files) == 1:
        m = re.search(r'_u\d+$', base)
        return {s.target: stem + m.group(0) + ext} if m else None
    if s.cls in ('HAWC2DatFile', 'BladedFile') and s.f is None:
        return {q: stem + q[len(base):] if q.startswith(base + '.') else q for q in s.files}
    return None


def unstem(c, new, old):
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(v) for v in x)
        return x.replace(new, old) if isinstance(x, str) and new else x
    return go(c)


def run(W, sc):
    st = Stats()
    s = Src(W, sc['src'])
    name = src_name(sc['src'])
    base = W.call(s.reader('auto'))
    n = max(W.d.n.get('any', 0), 1)
    if s.varied and (base[0] != 'ok' or s.auto and type(base[1]).__name__ != s.cls):
        return result(st, None, 'not a valid variant')
    if base[0] != 'ok':
        return result(st, viol('clean-read-fails', '%s cannot be read: %s' % (name, ename(base[1])), 'clean-read-fails:' + s.cls))
    if s.auto and type(base[1]).__name__ != s.cls:
        return result(st, viol('wrong-class', '%s is detected as %s, not as %s' % (name, type(base[1]).__name__, s.cls), 'wrong-class:' + s.cls))
    want = unname(W.snap(base[1]), s.target)
    base = None
    exts = sorted({x for f in W.quiet(lambda: world.weio.fileFormats()) for x in f.extensions if '*' not in x and x.startswith('.')})
    dig = []
    for i, op in enumerate(sc['ops']):
        k = op['op']
        d = 'o%d/' % i + op['dir']
        os.makedirs(os.path.join(W.root, d), exist_ok=True)
        ext = os.path.splitext(s.target)[1]
        if op['case'] and s.auto and '$' not in ext and '%' not in ext:
            ext = ext.upper() if op['case'] == 'upper' else ext[:1] + ext[1:].title()
        single = len(s.files) == 1 and s.cls not in NAMED and not (s.f is not None and s.f.name == 'htc') and s.cls not in ('HAWC2HTCFile', 'CactusFile', 'FLEXBladeFile')
        fn = op['stem'] + ext if single else s.target
        ren = family(s, op['stem']) if not single else None
        if ren:
            fn = ren[s.target]
            st.probe('renamed with its companions, or what its name says')
        txt = ''
        exp = None
        faults = []
        if k in ('valid', 'vanish'):
            for q, b in s.files.items():
                W.put(os.path.join(d, ren[q] if ren else fn if q == s.target else q), b)
            p = os.path.join(W.root, d, fn)
            if op['link'] == 'file' and single:
                l = os.path.join(W.root, 'o%d' % i, 'link_' + fn)
                os.symlink(p, l)
                p = l
            elif op['link'] == 'dir':
                l = os.path.join(W.root, 'o%d' % i, 'linked')
                os.symlink(os.path.join(W.root, d), l)
                p = os.path.join(l, fn)
            if k == 'vanish':
                if not single or op['link'] or s.cls in ('VTKFile', 'NetCDFFile'):
                    continue
                faults = [{'op': 'any', 'at': min(int(op['frac'] * n), n - 1), 'kind': 'VANISH', 'path': re.escape(fn) + '$'}]
        else:
            if k == 'unknown':
                fn = op['stem'] + ['.nope', '', '.x1', '.d'][int(op['e'] * 4)]
                if os.path.splitext(fn)[1].lower() in exts:
                    continue
                if op['stem'] == '.hidden' or '.' in op['stem']:
                    fn = 'stem' + fn[len(op['stem']):]
                W.put(os.path.join(d, fn), next(iter(s.files.values())))
                exp = 'FormatNotDetectedError'
            elif k == 'empty':
                fn = 'stem' + (exts[int(op['e'] * len(exts))] if op['ask'] == 'auto' else ext)
                W.put(os.path.join(d, fn), b'')
                exp = 'EmptyFileError'
            else:
                fn = 'stem' + (exts[int(op['e'] * len(exts))] if op['ask'] == 'auto' else ext)
                exp = 'FileNotFoundError'
                if op['what'] == 'dir':
                    os.makedirs(os.path.join(W.root, d, fn))
                elif op['what'] == 'dangling':
                    os.symlink(os.path.join(W.root, d, 'gone'), os.path.join(W.root, d, fn))
                elif op['what'] == 'nodir':
                    fn = 'no/' + fn
            p = os.path.join(W.root, d, fn)
        if op['rel']:
            p = os.path.relpath(p, W.root)
        if k in ('missing', 'vanish') and s.cls == 'FASTInputDeck':
            continue                    # (a collection of files: those that are missing are reported, and left out)
        ask = op['ask'] if k in ('valid', 'vanish') or s.auto else 'class'
        if k == 'unknown':
            fnr = lambda: world.weio.read(p)
        elif k in ('missing', 'empty'):
            fnr = (lambda: world.weio.read(p)) if ask == 'auto' else (lambda: world.getclass(s.klass)(p))
        else:
            fnr = asker(W, s, ask, p)
        out = W.call(fnr, faults=faults)
        fired = list(W.d.fired)
        st.seen(W, s.cls)
        st.check()
        got = 'ok' if out[0] == 'ok' else type(out[1]).__name__
        st.state(k, name if exp is None else s.cls, op['dir'], fn, op['link'], op['rel'], ask, op['what'] if k == 'missing' else None, fired[:1], got)
        dig.append((k, got))
        desc = '%s of %s (%s, asked by %s)' % (k, name, os.path.relpath(os.path.join(W.root, p), os.path.join(W.root, 'o%d' % i)) if True else '', ask)
        if exp is not None:
            ok = out[0] != 'ok' and (got == exp or exp == 'FileNotFoundError' and isinstance(out[1], FileNotFoundError))
            if not ok:
                return result(st, viol('wrong-error', '%s: expected %s, got %s' % (desc, exp, got if out[0] == 'ok' else ename(out[1])), 'wrong-error:%s:%s' % (exp, s.cls)))
            continue
        if k == 'vanish' and out[0] != 'ok':
            if fired and not isinstance(out[1], (OSError,)):
                return result(st, viol('wrong-error', '%s: the file vanished (at %s), and the error is %s' % (desc, fired[0][1], ename(out[1])), 'wrong-error:vanish:' + s.cls))
            if fired:
                continue
        if out[0] != 'ok':
            return result(st, viol('not-read', '%s: %s' % (desc, ename(out[1])), 'not-read:' + s.cls))
        if type(out[1]).__name__ != s.cls:
            return result(st, viol('wrong-class', '%s: it is read as %s' % (desc, type(out[1]).__name__), 'wrong-class:' + s.cls))
        got = unname(W.snap(out[1]), os.path.basename(p))
        if ren and got != want:
            # objects may show the names of their files
            got = W.quiet(lambda: unstem(got, os.path.splitext(fn)[0], os.path.splitext(s.target)[0]))
        if got != want:
            return result(st, viol('content-differs', '%s: the content differs from that of the same file elsewhere: %s' % (desc, canon.diff(want, got)), 'content-differs:' + s.cls))
        out = None
    return result(st, None, dig)


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    for i, o in enumerate(sc['ops']):
        for k, v in (('dir', 'in'), ('stem', 'x'), ('link', None), ('rel', False), ('case', None), ('ask', 'class')):
            if o.get(k) != v:
                yield dict(sc, ops=sc['ops'][:i] + [dict(o, **{k: v})] + sc['ops'][i + 1:])
    for x in shrink_src(sc['src']):
        yield dict(sc, src=x)
