"""Shared by the property modules: sources of files, ways to read them, fault plans, statistics."""
import copy, os, random
from .. import world, canon, corpus, refs, formats, variants

KINDS_IO = ['EIO', 'EACCES', 'EMFILE', 'ESTALE', 'ETIMEDOUT', 'EPERM', 'ENFILE']
KINDS_WRITE = ['EIO', 'ENOSPC', 'EDQUOT', 'EROFS', 'EACCES', 'ETIMEDOUT']
SLOW = ('FLEXDocFile',)


def rng(*key):
    return random.Random('/'.join(map(str, key)))


# ------------------------------------------------------------------ sources
EX = [e for e in corpus.load() if 'klass' in e]
EXBY = {e['file']: e for e in EX}


def _by_class():
    d = {}
    for e in EX:
        d.setdefault(e['klass'], []).append(e['file'])
    return d


EXCLS = _by_class()


def pick_ex(r):
    """an example file: uniform over classes half of the time, over files otherwise"""
    if r.random() < 0.5:
        return r.choice(EXCLS[r.choice(sorted(EXCLS))])
    return r.choice(EX)['file']


def pick_source(r, ex=0.5, ref=0.4, sizes=(0, 1, 1, 2), opts=0.0, var=0.0):
    if var and r.random() < var:        # a change of a file, whose content is what a read in peace shows
        return dict(pick_source(r, ex, ref, sizes), var=r.randrange(10**6))
    x = r.random()
    if opts and r.random() < opts:      # a reader that is given options
        return {'ref': r.choice(refs.OPTS), 'g': r.randrange(10**6), 'z': r.choice(sizes)}
    if x < ex:
        return {'ex': pick_ex(r)}
    if x < ex + ref:
        return {'ref': r.choice(refs.NAMES), 'g': r.randrange(10**6), 'z': r.choice(sizes)}
    n = r.choice(formats.NAMES)
    return {'fmt': n, 'g': r.randrange(10**6), 'z': min(r.choice(sizes), 2)}


class Src:
    """files placed in the world, and how to read them"""
    def __init__(self, W, spec, sub='in'):
        self.W, self.spec, self.sub = W, spec, sub
        self.ref = self.m = self.f = None
        self.kw = {}
        if 'ex' in spec:
            e = EXBY[spec['ex']]
            self.files = {}
            for n in [e['file']] + e['companions']:
                with world.disk._real_open(os.path.join(world.EXAMPLES, n), 'rb') as f:
                    self.files[n] = f.read()
            self.target, self.klass, self.auto = e['file'], e['klass'], True
        elif 'ref' in spec:
            self.ref = refs.make(spec['ref'], spec['g'], spec['z'])
            self.files, self.target, self.klass, self.auto = self.ref['files'], self.ref['target'], self.ref['klass'], self.ref['auto']
            self.kw = self.ref['kw']
        else:
            f, m = formats.make(spec['fmt'], spec['g'], spec['z'])
            self.f, self.m = f, m
            d = 'mk_' + sub
            os.makedirs(os.path.join(W.root, d), exist_ok=True)
            p = os.path.join(W.root, d, f.filename(None, m, 'w'))

            def mk():
                o = formats.build(W, f, m)
                f.write(o, p, m)
            W.quiet(mk)
            self.files = {os.path.relpath(k, d): v for k, v in W.tree(d).items() if not k.endswith('/')}
            self.target, self.klass, self.auto = os.path.basename(p), f.klass, f.auto
            import shutil
            shutil.rmtree(os.path.join(W.root, d))
        self.varied = 'var' in spec
        if self.varied:
            self.files = variants.variant(self.files, self.target, spec['var'])
        if 'twin' in spec:
            self.files = variants.twin(self.files, self.target, spec['twin'])
        self.path = os.path.join(W.root, sub, self.target)
        self.place()

    def place(self):
        for k, v in self.files.items():
            self.W.put(os.path.join(self.sub, k), v)

    @property
    def cls(self):
        return self.klass.split('.')[-1]

    def reader(self, via, path=None, keep=None):
        """function that reads the file in the given way; keep: list receiving the object ('obj')"""
        p = path or self.path
        if via == 'auto' and self.auto:
            return lambda: world.weio.read(p, **copy.deepcopy(self.kw))
        C = world.getclass(self.klass)
        if self.f is not None:
            return lambda: self.f.read(p, self.m)
        if via == 'obj':
            def go():
                late = not self.kw or self.ref['kwread']
                o = C(**({} if late else copy.deepcopy(self.kw)))
                if keep is not None:
                    keep.append(o)
                o.read(p, **(copy.deepcopy(self.kw) if late else {}))
                return o
            return go
        return lambda: C(p, **copy.deepcopy(self.kw))


VIAS = ['auto', 'auto', 'class', 'obj']


# ------------------------------------------------------------------ statistics
class Stats:
    def __init__(self):
        self.d = dict(checks=0, states=set(), events=0, fired={}, probes={}, fmt={})

    def check(self, n=1):
        self.d['checks'] += n

    def state(self, *x):
        import hashlib
        self.d['states'].add(hashlib.sha1(repr(x).encode('utf-8', 'surrogatepass')).hexdigest()[:12])

    def seen(self, W, fmt=None):
        """account for the last call"""
        self.d['events'] += W.d.n.get('any', 0)
        for k, op, rel, j in W.d.fired:
            s = '%s@%s' % (k, op)
            self.d['fired'][s] = self.d['fired'].get(s, 0) + 1
        if W.d.nfrag:
            self.d['fired']['partial-transfer'] = self.d['fired'].get('partial-transfer', 0) + W.d.nfrag
        if fmt:
            self.d['fmt'][fmt] = self.d['fmt'].get(fmt, 0) + 1

    def probe(self, k, n=1):
        self.d['probes'][k] = self.d['probes'].get(k, 0) + n


def viol(cls, detail, key=None):
    return {'class': cls, 'detail': detail, 'key': (key or cls).replace(' ', '_')}


def result(st, v=None, digest=None, known=()):
    return {'viol': v, 'stats': st.d, 'known': list(known), 'digest': digest}


def ename(e):
    return '%s: %s' % (type(e).__name__, str(e)[:160])


def src_name(spec):
    return (spec.get('ex') or '%s#%s/%s' % (spec.get('ref') or spec.get('fmt'), spec['g'], spec['z'])) + ('~%d' % spec['var'] if 'var' in spec else '')


def resolve(f, n):
    """fault with a relative position -> fault with an event number (n: events of a clean run)"""
    g = {k: v for k, v in f.items() if k != 'frac'}
    g['op'] = 'any'
    g['at'] = min(int(f['frac'] * n), max(n - 1, 0))
    return g


def frag_args(fr):
    """{'seed','p','buf','chunk'} -> keyword arguments of World.call"""
    if not fr:
        return {}
    return dict(frag=(random.Random(fr['seed']), fr['p']), bufsize=fr.get('buf'), textchunk=fr.get('chunk'))


def nevents(W, s, via, fr, n):
    """disk events of a read without faults, under this slicing"""
    if not fr:
        return n
    W.call(s.reader(via), **frag_args(fr))
    return max(W.d.n.get('any', 0), 1)


def pick_frag(r):
    return {'seed': r.randrange(10**9), 'p': r.choice([0.2, 0.6, 1.0]), 'buf': r.choice([None, 1, 2, 7, 61, 512, 4096, 65536]),
            'chunk': r.choice([None, None, 1, 3, 17, 200, 1023])}


def shrink_src(spec):
    out = []
    if spec.get('z', 0) > 0:
        out.append(dict(spec, z=0))
        out.append(dict(spec, z=spec['z'] - 1))
    return out


# ------------------------------------------------------------------ pristine processes
class Pristine:
    """A process forked before the run did anything: the oracle for 'as if nothing had happened before'."""
    def __init__(self, n=1):
        import pickle, struct
        self.kids = []
        for _ in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    for p_, a_, b_ in self.kids:
                        os.close(a_)
                        os.close(b_)
                    with os.fdopen(r1, 'rb') as f:
                        data = f.read()
                    if data:
                        job = pickle.loads(data)
                        try:
                            res = ('val', globals()['_job_' + job[0]](*job[1:]))
                        except BaseException as e:
                            import traceback
                            res = ('harness', traceback.format_exc()[-1500:])
                        with os.fdopen(w2, 'wb') as f:
                            f.write(pickle.dumps(res))
                finally:
                    os._exit(0)
            os.close(r1)
            os.close(w2)
            self.kids.append((pid, w1, r2))

    def ask(self, *job):
        import pickle
        pid, w, r = self.kids.pop()
        with os.fdopen(w, 'wb') as f:
            f.write(pickle.dumps(job))
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError('pristine process died')
        k, v = pickle.loads(data)
        if k == 'harness':
            raise RuntimeError('pristine process: ' + v)
        return v

    def close(self):
        for pid, w, r in self.kids:
            os.close(w)
            os.close(r)
            os.waitpid(pid, 0)
        self.kids = []


def _outcome(fn, df=True):
    import sys
    old = sys.stdout
    sys.stdout = world.Sink()
    try:
        o = fn()
        return ('ok', canon.snap(o, df))
    except (Exception, KeyboardInterrupt) as e:
        return ('exc', type(e).__name__)
    finally:
        sys.stdout = old


def _job_read(spec, target, klass, via, path, fmt=None, gseed=None, size=None):
    if via == 'auto':
        return _outcome(lambda: world.weio.read(path))
    if fmt:
        f, m = formats.make(fmt, gseed, size)
        return _outcome(lambda: f.read(path, m))
    return _outcome(lambda: world.getclass(klass)(path))


def verdict(f, m, path, auto):
    """does the file hold the model? -> None or text"""
    try:
        o = world.weio.read(path) if auto else f.read(path, m)
    except (Exception, KeyboardInterrupt) as e:
        return 'reading it raises %s' % ename(e)
    if type(o).__name__ != f.klass.split('.')[1]:
        return 'it is read as %s' % type(o).__name__
    try:
        return f.check(o, m)
    except Exception as e:
        return 'its content cannot be accessed: %s' % ename(e)


def _job_check(fmt, m, path, auto, tol=1.0):
    import sys
    formats.TOL = tol
    old = sys.stdout
    sys.stdout = world.Sink()
    try:
        return verdict(formats.F[fmt], m, path, auto)
    finally:
        sys.stdout = old


def _job_torn(fmt, m, path):
    """a file left by a dead writer -> ('absent'|'raises'|'whole'|'differs', text)"""
    import sys
    f = formats.F[fmt]
    if not os.path.exists(path):
        return ('absent', '')
    old = sys.stdout
    sys.stdout = world.Sink()
    try:
        try:
            o = f.read(path, m)
        except (Exception, KeyboardInterrupt) as e:
            return ('raises', type(e).__name__)
        try:
            d = f.check(o, m)
        except Exception as e:
            d = ename(e)
        return ('whole', '') if d is None else ('differs', d)
    finally:
        sys.stdout = old


def _job_write(fmt, g, z, path, root):
    """build and write a model -> 'ok' or the exception"""
    import sys
    f, m = formats.make(fmt, g, z)
    old = sys.stdout
    sys.stdout = world.Sink()

    w0 = world.World.__new__(world.World)
    w0.root = root
    try:
        o = formats.build(w0, f, m)
        f.write(o, path, m)
        return 'ok'
    except (Exception, KeyboardInterrupt) as e:
        return ename(e)
    finally:
        sys.stdout = old
