"""C12: the registry of formats is a function of the library and the user's format files only; detection follows it. Not the order in which a
directory lists, not earlier calls or failed ones, not threads, decide which formats exist, in which order, and which one reads a file."""
import random as _random
from .common import *
from .. import sched
ID, LEVEL = 'C12', 'exploration'
RULE = 'distinct (user format files, listing order, operations so far) tuples whose registry or detection result was compared with the model'

# the documented order of the library's formats, and their priorities
LIBRARY = [('CSVFile', 0), ('ExcelFile', 0), ('TecplotFile', 10), ('BladedFile', 10), ('FASTInputFile', 20), ('FASTOutputFile', 20), ('FASTWndFile', 20),
           ('FASTLinearizationFile', 20), ('FASTSummaryFile', 20), ('TurbSimTSFile', 20), ('TurbSimFile', 20), ('HAWC2DatFile', 30), ('HAWC2HTCFile', 30), ('HAWC2StFile', 30),
           ('HAWC2PCFile', 30), ('HAWC2AEFile', 30), ('HAWCStab2PwrFile', 30), ('HAWCStab2IndFile', 30), ('HAWCStab2CmbFile', 30), ('MannBoxFile', 30), ('FLEXBladeFile', 40),
           ('FLEXProfileFile', 40), ('FLEXOutFile', 40), ('FLEXWaveKinFile', 40), ('FLEXDocFile', 40), ('BModesOutFile', 50), ('ROSCOPerformanceFile', 50), ('NetCDFFile', 60),
           ('VTKFile', 60), ('TDMSFile', 60), ('ParquetFile', 60), ('CactusFile', 70), ('RAAWMatFile', 70)]
EXTS = ['.u1', '.u2', '.uu', '.csv', '.dat', '.out', '.sum', '.vtk', '.bts']
BROKEN = ['syntax', 'import', 'noclass', 'onlyerror', 'noext', 'extraises', 'nameraises', 'exit']
LIBFILES = [e['file'] for e in EX if not e['companions'] and os.path.splitext(e['file'])[1].lower() in ('.csv', '.dat', '.out', '.sum', '.vtk', '.bts') and e['klass'].split('.')[1] not in SLOW]


def plan(tier, seed):
    n = 5000 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        mods = []
        names = r.sample(['a', 'b', 'c', 'zz', 'M1', 'm2', 'weio_x', 'u_10', 'u_9', 'Zed', 'fmt', '_p'], r.choice([0, 1, 2, 2, 3, 5]))
        for nm in names:
            if r.random() < 0.22:
                mods.append({'mod': nm, 'broken': r.choice(BROKEN)})
            else:
                mods.append({'mod': nm, 'prio': r.choice([None, 'raise', -5, 0, 0, 2, 5, 10, 15, 20, 20, 30, 45, 100, 2.5]), 'exts': r.sample(EXTS, r.choice([1, 1, 2])) + (['.u*'] if r.random() < 0.1 else []),
                             'acc': r.choice(['magic', 'magic', 'any', 'never', 'crash', 'broken', 'late'])})
        ops = []
        for _ in range(r.choice([2, 4, 6])):
            k = r.choice(['formats', 'formats', 'formats!', 'read', 'read', 'read', 'detect', 'repair', 'threads'])
            op = {'op': k}
            if k in ('read', 'detect', 'threads'):
                if r.random() < 0.4 and LIBFILES:
                    op['ex'] = r.choice(LIBFILES)
                else:
                    op['ext'] = r.choice(EXTS[:3])
                    op['magic'] = r.choice(names) if names and r.random() < 0.8 else 'nobody'
                    op['up'] = r.random() < 0.2
            if k == 'threads':
                op['seed'] = r.randrange(10**9)
            ops.append(op)
        out.append({'mods': mods, 'order': r.randrange(10**9), 'where': r.choice(['home', 'home', 'arg']), 'ops': ops})
    return out


def source(m):
    b = m.get('broken')
    if b == 'syntax':
        return 'class (:\n'
    if b == 'import':
        return 'import a_module_that_does_not_exist_anywhere\n'
    if b == 'noclass':
        return 'x = 1\nclass Reader:\n    pass\n'
    if b == 'onlyerror':
        return 'class MyFileError(Exception):\n    pass\n'
    if b == 'exit':
        return 'raise ValueError("at import")\n'
    cls = 'U%sFile' % m['mod'].replace('_', '')
    s = 'from weio.file import File, WrongFormatError, BrokenFormatError\n\nclass %s(File):\n' % cls
    if b != 'noext':
        s += '    @staticmethod\n    def defaultExtensions():\n        %s\n' % ('raise ValueError("no")' if b == 'extraises' else 'return %r' % (m.get('exts') or ['.u1']))
    s += '    @staticmethod\n    def formatName():\n        %s\n' % ('raise ValueError("no")' if b == 'nameraises' else 'return %r' % ('User ' + m['mod']))
    if m.get('prio') is not None:
        s += '    @staticmethod\n    def priority():\n        %s\n' % ('raise ValueError("no")' if m['prio'] == 'raise' else 'return %r' % m['prio'])
    s += '    def _read(self, **kwargs):\n        with open(self.filename, "rb") as f:\n            line = f.readline()\n'
    a = m.get('acc')
    if a == 'magic':
        s += '        if line.strip() != b"MAGIC %s":\n            raise WrongFormatError("not mine")\n' % m['mod']
    elif a == 'never':
        s += '        raise WrongFormatError("never")\n'
    elif a == 'crash':
        s += '        raise ZeroDivisionError("reader bug")\n'
    elif a == 'broken':
        s += '        if line.strip() != b"MAGIC %s":\n            raise WrongFormatError("not mine")\n        raise BrokenFormatError("mine but broken")\n' % m['mod']
    elif a == 'late':
        s += '        self["partial"] = 1\n        if line.strip() != b"MAGIC %s":\n            raise WrongFormatError("not mine")\n' % m['mod']
    s += '        self["user"] = %r\n\n    def _toDataFrame(self):\n        return None\n' % m['mod']
    return s


class Listing:
    """directories list their entries in a seeded order"""
    def __init__(self, W, seed):
        self.W, self.r = W, _random.Random(seed)
        self.ld, self.sd = os.listdir, os.scandir
        os.listdir, os.scandir = self.listdir, self.scandir
        self.n = 0

    def listdir(self, p='.'):
        x = self.ld(p)
        if not isinstance(p, int) and self.W.d.inside(p or '.'):
            self.r.shuffle(x)
            self.n += 1
        return x

    def scandir(self, p='.'):
        it = self.sd(p)
        if isinstance(p, int) or not self.W.d.inside(p or '.'):
            return it
        x = list(it)
        self.r.shuffle(x)
        self.n += 1

        class It:
            def __enter__(s): return s
            def __exit__(s, *a): it.close()
            def __iter__(s): return iter(x)
            def close(s): it.close()
        return It()


class Model:
    def __init__(self, mods):
        self.mods = sorted(mods, key=lambda m: m['mod'] + '.py')
        self.cached = None

    def build(self, ignore):
        """-> ('ok', [names], number of errors) | ('exc', name)"""
        if self.cached is None:
            bad = [m for m in self.mods if m.get('broken')]
            if bad and not ignore:
                return ('exc', 'UserFormatImportError')
            l = [(p, n, None) for n, p in LIBRARY]
            for m in self.mods:
                if not m.get('broken'):
                    p = m['prio']
                    l.append((2 if p in (None, 'raise') else p, 'U%sFile' % m['mod'].replace('_', ''), m))
            l.sort(key=lambda t: t[0])
            self.cached = ([(n, m) for p, n, m in l], len(bad))
        return ('ok', [n for n, m in self.cached[0]], self.cached[1])

    def detect(self, fname, magic, lib):
        b = self.build(False)
        if b[0] == 'exc':
            return b
        ext = os.path.splitext(fname.lower())[1]
        for n, m in self.cached[0]:
            if m is None:
                if n == lib:
                    return ('ok', n, None)
                continue
            if ext not in m['exts'] and not any(e.endswith('*') and ext.startswith(e[:-1]) for e in m['exts']):
                continue
            a = m['acc']
            if a == 'any' or (a in ('magic', 'late') and magic == m['mod']):
                return ('ok', n, m['mod'])
            if a == 'crash':
                return ('exc', 'ZeroDivisionError')
            if a == 'broken' and magic == m['mod']:
                return ('exc', 'BrokenFormatError')
        return ('exc', 'FormatNotDetectedError')


def run(W, sc):
    st = Stats()
    up = '.local/share/weio' if sc['where'] == 'home' else 'mine'
    r = _random.Random(sc['order'])
    mods = list(sc['mods'])
    r.shuffle(mods)
    base = 'home/' + up if sc['where'] == 'home' else up
    os.makedirs(os.path.join(W.root, base), exist_ok=True)
    for m in mods:
        W.put('%s/%s.py' % (base, m['mod']), source(m).encode())
    if r.random() < 0.3:
        W.put(base + '/__init__.py', b'')
    if r.random() < 0.3:
        W.put(base + '/notes.txt', b'class XFile: pass\n')
    L = Listing(W, sc['order'])
    M = Model(sc['mods'])
    kw = {'userpath': os.path.join(W.root, up)} if sc['where'] == 'arg' else {}
    weio = world.weio
    dig = []
    done = []

    def fmts(ignore):
        def go():
            x = weio.fileFormats(ignoreErrors=ignore, **kw)
            x, e = x if ignore else (x, [])
            return [f.constructor.__name__ for f in x], len(e)
        return go

    def target(op, no):
        if 'ex' in op:
            e = EXBY[op['ex']]
            with world.disk._real_open(os.path.join(world.EXAMPLES, e['file']), 'rb') as f:
                W.put('d%d/%s' % (no, e['file']), f.read())
            return os.path.join(W.root, 'd%d' % no, e['file']), None, e['klass'].split('.')[1]
        n = 'x' + (op['ext'].upper() if op.get('up') else op['ext'])
        W.put('d%d/%s' % (no, n), b'MAGIC %s\n1 2 3\n' % op['magic'].encode())
        return os.path.join(W.root, 'd%d' % no, n), op['magic'], None

    def reader(p):
        def go():
            o = weio.read(p)
            return type(o).__name__, o.get('user') if isinstance(o, dict) else None
        return go
    for no, op in enumerate(sc['ops']):
        k = op['op']
        if sc['where'] == 'arg' and M.cached is None and k not in ('formats', 'formats!', 'repair'):
            continue                       # the user path is given by the first call
        if k == 'repair':
            if M.cached is None:
                for m in sc['mods']:
                    if m.get('broken'):
                        os.unlink(os.path.join(W.root, base, m['mod'] + '.py'))
                M = Model([m for m in M.mods if not m.get('broken')])
                sc = dict(sc, mods=M.mods)
            done.append(k)
            continue
        if k in ('formats', 'formats!'):
            ign = k == 'formats'
            want = M.build(ign)
            out = W.call(fmts(ign))
            got = ('ok', out[1][0], out[1][1] if ign else want[2] if len(want) > 2 else 0) if out[0] == 'ok' else ('exc', type(out[1]).__name__)
        elif k == 'threads':
            p, magic, lib = target(op, no)
            want = M.detect(p, magic, lib)
            S = sched.Scheduler(_random.Random(op['seed']), os.path.join(world.REPO, 'weio'), 0.05, 0.5, 60)
            W.d.sched = S
            W.d.reset()
            import sys
            old = sys.stdout
            sys.stdout = world.Sink()
            try:
                res = S.run([reader(p)] * 2)
            finally:
                W.d.sched = None
                sys.stdout = old
            st.d['fired']['thread-switch'] = st.d['fired'].get('thread-switch', 0) + len(S.made)
            if any(x is None for x in res):
                raise RuntimeError('scheduler')
            gots = [('ok', x[1][0], x[1][1]) if x[0] == 'ok' else ('exc', type(x[1]).__name__) for x in res]
            got = next((g for g in gots if g != norm(want)), gots[0])
        else:
            p, magic, lib = target(op, no)
            want = M.detect(p, magic, lib)
            if k == 'read':
                out = W.call(reader(p))
                got = ('ok',) + out[1] if out[0] == 'ok' else ('exc', type(out[1]).__name__)
            else:
                out = W.call(lambda: weio.detectFormat(p))
                got = ('ok', out[1][0].constructor.__name__, want[2] if len(want) > 2 else None) if out[0] == 'ok' else ('exc', type(out[1]).__name__)
        st.seen(W, k)
        done.append(k)
        st.check()
        st.state([(m['mod'], m.get('broken'), m.get('prio'), m.get('acc')) for m in sc['mods']], sc['order'], done)
        dig.append(got[:1])
        want = norm(want) if k not in ('formats', 'formats!') else tuple(want)
        if tuple(got) != tuple(want):
            return result(st, viol('registry' if k.startswith('formats') else 'detection', '%s after %s with user formats %s: expected %s, got %s' % (
                op, done[:-1], [(m['mod'], m.get('broken') or m.get('prio')) for m in M.mods], short(want, got), short(got, want)), 'registry' if k.startswith('formats') else 'detection'))
    st.d['fired']['listing-shuffled'] = L.n
    return result(st, None, dig)


def norm(w):
    return tuple(w)


def short(a, b):
    if len(a) > 1 and isinstance(a[1], list) and len(b) > 1 and isinstance(b[1], list):
        d = next((i for i, (x, y) in enumerate(zip(a[1], b[1])) if x != y), min(len(a[1]), len(b[1])))
        return '%d formats, position %d: %s, errors: %s' % (len(a[1]), d, a[1][d:d + 3], a[2:])
    return str(a)[:200]


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    for i in range(len(sc['mods'])):
        yield dict(sc, mods=sc['mods'][:i] + sc['mods'][i + 1:])
    if sc['where'] == 'arg':
        yield dict(sc, where='home')
