"""C07: reading changes nothing on disk, writing changes only its target (and the files that belong to it), nothing stays open, and the
state of the process (working directory, environment, numpy/pandas options, random state, ...) is left alone - also when a fault strikes."""
import gc, stat, sys
from .common import *
from . import common
ID, LEVEL = 'C07', 'exploration'
RULE = 'distinct (operation, source or format, way of reading, fault kind, event hit, outcome) tuples after which files, handles and process state were compared'


def plan(tier, seed):
    n = 4000 if tier == 'quick' else 50000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        srcs = [pick_source(r, opts=0.08, var=0.1) for _ in range(2)]
        if i < 2 * len(EX):
            srcs[0] = {'ex': EX[i % len(EX)]['file']}
        ops = []
        for _ in range(7):
            k = r.choice(['read', 'read', 'read', 'detect', 'df', 'write', 'write', 'writeback'])
            op = {'op': k, 's': r.randrange(2), 'via': r.choice(VIAS), 'same': r.random() < 0.5}
            if k == 'write':
                op.update({'fmt': r.choice(formats.WEIGHTED), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 1, 2])})
            if r.random() < 0.45:
                op['fault'] = {'frac': r.random(), 'kind': r.choice(KINDS_WRITE + ['MEM', 'INT', 'EMFILE']), 'torn': r.random()}
            if r.random() < 0.25:
                op['frag'] = pick_frag(r)
            ops.append(op)
        out.append({'srcs': srcs, 'rel': r.random() < 0.3, 'ops': ops})
    return out


# ------------------------------------------------------------------ what is compared
def fs_state(W):
    out = {}
    for dp, dn, fn in os.walk(W.root):
        for x in fn + dn:
            p = os.path.join(dp, x)
            s = os.lstat(p)
            if stat.S_ISREG(s.st_mode):
                with world.disk._real_open(p, 'rb') as h:
                    c = h.read()
                out[os.path.relpath(p, W.root)] = (s.st_mode, s.st_ino, s.st_mtime_ns, c)
            else:
                out[os.path.relpath(p, W.root)] = (s.st_mode, s.st_ino)
    return out


def proc_state():
    import locale, warnings, threading, decimal, csv, signal, logging
    import numpy as np, pandas as pd
    with np.errstate():
        err = np.geterr()
    return {
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'module search path': list(sys.path),
        'numpy print options': {k: repr(v) for k, v in np.get_printoptions().items()}, 'numpy error handling': err,
        'random state': hash(random.getstate()), 'numpy random state': repr([np.asarray(x).tobytes() if hasattr(x, '__len__') and not isinstance(x, str) else x for x in np.random.get_state()]),
        'warning filters': repr(warnings.filters), 'locale': locale.setlocale(locale.LC_ALL), 'threads': threading.active_count(),
        'decimal context': repr(decimal.getcontext()), 'csv field limit': csv.field_size_limit(), 'recursion limit': sys.getrecursionlimit(),
        'signal handlers': repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)]), 'standard streams': (id(sys.stdin), id(sys.stderr)),
        'pandas options': repr([(k, pd.get_option(k)) for k in ('display.max_columns', 'display.max_rows', 'display.precision', 'display.float_format', 'display.width', 'mode.chained_assignment', 'display.max_colwidth')]),
        'exception hook': id(sys.excepthook), 'logging': (logging.root.level, len(logging.root.handlers)), 'umask': _umask(), 'garbage collector': gc.isenabled(),
        'trace function': repr(sys.gettrace()),
    }


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return oct(u)


def fds():
    out = {}
    for x in os.listdir('/proc/self/fd'):
        try:
            out[int(x)] = os.readlink('/proc/self/fd/' + x)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith('/proc/')}


AUDIT = {'on': False, 'seen': [], 'installed': False}
_WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _audit(ev, args):
    if not AUDIT['on']:
        return
    try:
        if ev == 'open':
            p, mode, fl = args
            if isinstance(p, (str, bytes)) and isinstance(fl, int) and fl & _WRITES:
                AUDIT['seen'].append(('opened for writing', os.path.abspath(os.fsdecode(p))))
        elif ev in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.utime', 'shutil.rmtree'):
            for p in args[:2]:
                if isinstance(p, (str, bytes)):
                    AUDIT['seen'].append((ev, os.path.abspath(os.fsdecode(p))))
        elif ev in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'socket.connect', 'socket.bind'):
            AUDIT['seen'].append((ev, repr(args[0])[:80]))
    except Exception:
        pass


def outside(W):
    """changes made outside the scratch directory of the run"""
    for ev, p in AUDIT['seen']:
        if p.startswith(W.root + os.sep) or p == '/dev/null' or p.endswith('.pyc') or '__pycache__' in p:
            continue
        return '%s %s' % (ev, p)
    return None


# ------------------------------------------------------------------ the run
def run(W, sc):
    import tempfile
    st = Stats()
    os.makedirs(os.path.join(W.root, 'tmp'))
    tempfile.tempdir = os.path.join(W.root, 'tmp')
    os.environ['TMPDIR'] = tempfile.tempdir
    if not AUDIT['installed']:
        sys.addaudithook(_audit)
        AUDIT['installed'] = True
    ss = [Src(W, sp, 'in%d' % i) for i, sp in enumerate(sc['srcs'])]
    objs = {}
    dig = []
    os.makedirs(os.path.join(W.root, 'out'))

    def counted(fn):
        out = W.call(fn)
        return out, max(W.d.n.get('any', 0), 1)

    for op in sc['ops']:
        s = ss[op['s']]
        k = op['op']
        path = os.path.relpath(s.path, W.root) if sc['rel'] else s.path
        name = src_name(sc['srcs'][op['s']])
        mine = []                       # what the operation may change
        pre = None
        if k == 'read':
            fn = s.reader(op['via'], path=path)
        elif k == 'detect':
            fn = lambda: world.weio.detectFormat(path)
        elif k == 'df':
            o = objs.get(op['s'])
            if o is None:
                continue
            fn = lambda: o.toDataFrame()
        elif k == 'write':
            f, m = formats.make(op['fmt'], op['g'], op['z'])
            o = W.quiet(lambda: formats.build(W, f, m))
            p = os.path.join(W.root, 'out', f.filename(None, m, 'w%d' % op['s']))
            name = op['fmt']
            mine = [os.path.relpath(q, W.root) for q in [p] + list(f.companions(p))]
            p = os.path.relpath(p, W.root) if sc['rel'] else p
            fn = lambda: f.write(o, p, m)
        else:                           # an object that was read from one file is written to another one (or back)
            o = objs.get(op['s'])
            if o is None or s.f is None or not s.f.rereads:
                continue
            f, m = s.f, s.m
            p = s.path if op['same'] else os.path.join(W.root, 'out', 'b_' + os.path.basename(s.target))
            mine = [os.path.relpath(q, W.root) for q in [p] + list(f.companions(p))]
            fn = lambda: f.write(o, p, m)
        fl = []
        if op.get('fault'):
            # how long the operation is: reads are repeatable, writes are counted on a copy
            if k in ('read', 'detect', 'df'):
                c, n = counted(fn)
                c = None
                gc.collect()
            else:
                o2 = W.quiet(lambda: formats.build(W, f, m))
                os.makedirs(os.path.join(W.root, 'cnt'), exist_ok=True)
                c, n = counted(lambda: f.write(o2, os.path.join(W.root, 'cnt', os.path.basename(p)), m))
                import shutil
                shutil.rmtree(os.path.join(W.root, 'cnt'))
            fl = [resolve(op['fault'], n)]
        gc.collect()
        tree0, proc0, fd0 = fs_state(W), proc_state(), fds()
        AUDIT['seen'], AUDIT['on'] = [], True
        try:
            out = W.call(fn, faults=fl, **frag_args(op.get('frag')))
        finally:
            AUDIT['on'] = False
        fired = list(W.d.fired)
        st.seen(W, k + ' ' + (s.cls if k != 'write' else f.name))
        if out[0] == 'exc' and not fired and k in ('read', 'write') and not (k == 'read' and s.varied):
            return result(st, viol('clean-%s-fails' % k, '%s: %s fails without a fault: %s' % (name, k, ename(out[1])), 'clean-%s-fails:%s' % (k, name)))
        res = out[1] if out[0] == 'ok' else None
        good = out[0]
        out = None
        gc.collect()
        live = dict(W.d.live)
        tree1, proc1, fd1 = fs_state(W), proc_state(), fds()
        st.check(4)
        st.state(k, name, op['via'], good, fired[0][0] if fired else None, fired[0][3] if fired else None)
        dig.append((k, good, fired[:1]))
        what = '%s of %s%s' % ({'df': 'toDataFrame', 'detect': 'detectFormat'}.get(k, k), name, ' (%s)' % ', '.join('%s at %s of %s' % x[:3] for x in fired) if fired else '')
        key = (s.cls if k != 'write' else f.name)
        x = outside(W)
        if x:
            return result(st, viol('outside', '%s: %s' % (what, x), 'outside:' + key))
        for q in sorted(set(tree0) | set(tree1)):
            a, b = tree0.get(q), tree1.get(q)
            if a == b or q in mine:
                continue
            if q in ('out', 'in0', 'in1') and mine and a and b:
                continue                # the directory that contains the target
            if q.startswith('tmp') and fired:
                continue
            if len(a or ()) == 2 and len(b or ()) == 2 and a == b:
                continue
            t = 'is created' if a is None else 'is removed' if b is None else 'has its content changed' if a[3:] != b[3:] else 'is touched (mode, inode or time changed)'
            return result(st, viol('foreign-file', '%s: %s %s' % (what, q, t), 'foreign-file:' + key))
        if live:
            return result(st, viol('handle-open', '%s: %s is still open' % (what, sorted(live.values())[0]), 'handle-open:' + key))
        extra = {v for kk, v in fd1.items() if fd0.get(kk) != v and v.startswith(W.root)}
        if extra:
            return result(st, viol('handle-open', '%s: %s is still open' % (what, os.path.relpath(sorted(extra)[0], W.root)), 'handle-open:' + key))
        for q in proc0:
            if proc0[q] != proc1[q]:
                return result(st, viol('process-state', '%s changed the %s: %s -> %s' % (what, q, str(proc0[q])[:100], str(proc1[q])[:100]), 'process-state:' + key))
        if k == 'read' and res is not None:
            objs[op['s']] = res
        if k == 'writeback' and op['same']:
            s.place()
        res = None
    return result(st, None, dig)


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    for i, sp in enumerate(sc['srcs']):
        for x in shrink_src(sp):
            yield dict(sc, srcs=[x if j == i else y for j, y in enumerate(sc['srcs'])])
    if sc['rel']:
        yield dict(sc, rel=False)
