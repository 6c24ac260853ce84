"""C10: threads that work on their own objects (and read the same files) get what they would get one after the other, under any interleaving."""
import sys
from .common import *
from . import common
from .. import sched
from .c08 import sibling
ID, LEVEL = 'C10', 'exploration'
RULE = 'distinct interleavings (the sequence of thread switches) of distinct pairs or triples of operations; states = hash of (operations, switches made)'
ASSUMPTIONS = ['switches happen at disk events and at lines of weio code; a switch inside numpy, pandas or the C library is not simulated']


KREFS = {}
for _n in refs.NAMES:
    KREFS.setdefault(refs.make(_n, 0, 0)['klass'], []).append(_n)
KLASSES = sorted(set(KREFS) | set(EXCLS))


def pair(r, i):
    """two threads that do the same kind of thing to two files of one kind; a switch where one of them is at a chosen line"""
    op = r.choice(['read'] * 5 + ['write', 'writeread'])
    if op == 'read':
        k = KLASSES[i % len(KLASSES)]
        c = [{'ex': f} for f in EXCLS.get(k, [])] + [{'ref': n, 'g': r.randrange(10**6), 'z': r.choice([0, 0, 1])} for n in KREFS.get(k, [])]
        first = r.choice(c)
        if r.random() < 0.1:
            first['var'] = r.randrange(10**6)
        second = dict(first, twin=r.randrange(10**6)) if r.random() < 0.5 else sibling(r, first)
        via = r.choice(VIAS)
        threads = [[{'op': op, 's': s, 'via': via, 'df': r.random() < 0.7}] for s in (0, 1)]
    else:
        first = second = {'ex': EX[0]['file']}
        f, via, z = r.choice(formats.WEIGHTED), r.choice(VIAS), r.choice([0, 0, 1])
        threads = [[{'op': op, 's': 0, 'via': via, 'df': False, 'fmt': f, 'g': r.randrange(10**6), 'z': z}] for _ in range(2)]
    return {'srcs': [first, second], 'threads': threads, 'sched': r.randrange(10**9), 'p_line': 0.0, 'p_io': 0.0, 'budget': 9, 'loc': r.choice([1, 1, 2, 2, 3])}


def plan(tier, seed):
    n = 6000 if tier == 'quick' else 40000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        if i % 5 > 1:
            out.append(pair(r, i // 5 * 3 + i % 5 - 2))
            continue
        first = pick_source(r, 0.45, 0.55, (0, 0, 1))
        if i < 5 * len(EX):
            first = {'ex': EX[i // 5]['file']}
        while 'fmt' in first:
            first = pick_source(r, 0.45, 0.55, (0, 0, 1))
        srcs = [first, sibling(r, first) if r.random() < 0.7 else pick_source(r, 0.4, 0.6, (0, 0, 1))]
        if 'fmt' in srcs[1]:
            srcs[1] = dict(first)
        threads = []
        for t in range(r.choice([2, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                k = r.choice(['read', 'read', 'read', 'write', 'writeread', 'formats', 'missing'])
                op = {'op': k, 's': r.randrange(2), 'via': r.choice(VIAS), 'df': r.random() < 0.7}
                if k in ('write', 'writeread'):
                    op.update({'fmt': r.choice(formats.WEIGHTED), 'g': r.randrange(10**6), 'z': r.choice([0, 0, 1])})
                ops.append(op)
            threads.append(ops)
        if r.random() < 0.4:             # the same kind of operation everywhere
            for t in threads[1:]:
                t[0] = dict(threads[0][0], g=r.randrange(10**6)) if 'fmt' in threads[0][0] else dict(threads[0][0], s=r.randrange(2))
        out.append({'srcs': srcs, 'threads': threads, 'sched': r.randrange(10**9), 'p_line': r.choice([0.0, 0.0005, 0.003, 0.02, 0.2]), 'p_io': r.choice([0.1, 0.5, 1.0]),
                    'budget': r.choice([1, 2, 4, 20, 200])})
    return out


def thread_ops(root, own, srcs, ops):
    """what one thread does -> list of ('ok', object) | ('exc', text)"""
    w0 = world.World.__new__(world.World)
    w0.root = os.path.join(root, own)
    res = []
    for i, op in enumerate(ops):
        try:
            if op['op'] == 'read':
                klass, auto, path = srcs[op['s']]
                if op['via'] == 'auto' and auto:
                    o = world.weio.read(path)
                elif op['via'] == 'obj':
                    o = world.getclass(klass)()
                    o.read(path)
                else:
                    o = world.getclass(klass)(path)
            elif op['op'] == 'formats':
                o = [str(f) for f in world.weio.fileFormats()]
            elif op['op'] == 'missing':
                o = world.weio.read(os.path.join(root, 'no', 'such.file'))
            else:
                f, m = formats.make(op['fmt'], op['g'], op['z'])
                o = formats.build(w0, f, m)
                p = os.path.join(w0.root, f.filename(None, m, 'f%d' % i))
                f.write(o, p, m)
                if op['op'] == 'writeread':
                    o = f.read(p, m) if op['via'] != 'auto' or not f.auto else world.weio.read(p)
            d = None
            if op['df'] and hasattr(o, 'toDataFrame'):
                try:
                    d = o.toDataFrame()
                except Exception as e:
                    d = ('exc', type(e).__name__)
            res.append(('ok', o, d))
        except sched.Stuck:
            raise
        except Exception as e:
            res.append(('exc', type(e).__name__, None))
    return res


def shown(res):
    out = []
    for k, o, d in res:
        out.append((k, canon.snap(o) if hasattr(o, 'toDataFrame') else canon.canon(o), canon.canon(d)))
    return out


PREFIX = os.path.join(world.REPO, 'weio')


COMMON = ('__init__.py', 'file.py', 'file_formats.py')


def aims(r, seen, n):
    """where the threads are switched out: the first thread (it starts) at some line, then the other one at about the same line, or anywhere"""
    out, t, last = set(), 0, None
    for _ in range(n):
        ks = list(seen[t])                      # in the order in which they are reached
        own = [k for k in ks if k.split(':')[0] not in COMMON]
        if not ks:
            break
        if last in seen[t] and r.random() < 0.7:
            k, v = ks[min(len(ks) - 1, max(0, ks.index(last) + r.choice([0, 0, 1, 2, 3, -1])))], 1
        else:
            k = r.choice(own if own and r.random() < 0.75 else ks)
            v = r.choice([1, 1, seen[t][k], 1 + r.randrange(seen[t][k])])
        out.add((t, k, v))
        last, t = k, 1 - t
    return out


def tree_of(W, own):
    return {k.split('/', 1)[1]: v for k, v in W.tree(own).items()}


def _job_thread(root, own, srcs, ops):
    old = sys.stdout
    sys.stdout = world.Sink()
    try:
        res, seen = sched.places(PREFIX, lambda: thread_ops(root, own, srcs, ops))
        return shown(res), seen
    finally:
        sys.stdout = old


common._job_thread = _job_thread


def run(W, sc):
    st = Stats()
    nt = len(sc['threads'])
    ss = [Src(W, sp, 'in%d' % i) for i, sp in enumerate(sc['srcs'])]
    srcs = [(s.klass, s.auto, s.path) for s in ss]
    for t in range(nt):
        os.makedirs(os.path.join(W.root, 'p%d' % t))
        os.makedirs(os.path.join(W.root, 't%d' % t))
    P = Pristine(nt)
    try:
        wants, targets = [], None
        for t in range(nt):
            wants.append(P.ask('thread', W.root, 'p%d' % t, srcs, sc['threads'][t]))
        if sc.get('loc'):
            targets = aims(random.Random('targets/%d' % sc['sched']), [w[1] for w in wants], sc['loc'])
        S = sched.Scheduler(random.Random(sc['sched']), PREFIX, sc['p_line'], sc['p_io'], sc['budget'],
                            choices=sc.get('preempt'), trace=sc['p_line'] > 0 or bool(sc.get('loc')), targets=targets)
        W.d.reset()
        W.d.sched = S
        fns = [lambda t=t: thread_ops(W.root, 't%d' % t, srcs, sc['threads'][t]) for t in range(nt)]
        old = sys.stdout
        sys.stdout = world.Sink()
        cwd, moved = os.getcwd(), None
        try:
            res = S.run(fns)
        finally:
            sys.stdout = old
            W.d.sched = None
        if os.getcwd() != cwd:
            moved = os.getcwd()
            os.chdir(cwd)
        W.trace.append((S.step, repr(S.made)))
        st.seen(W)
        st.d['steps'] = S.step
        st.d['fired']['thread-switch'] = len(S.made)
        for k, v in S.kinds.items():
            st.d['fired']['switch@' + k] = st.d['fired'].get('switch@' + k, 0) + v
        names = [[o['op'] + ' ' + (o.get('fmt') or (src_name(sc['srcs'][o['s']]) if o['op'] == 'read' else '')) for o in t] for t in sc['threads']]
        st.state(names, S.made)
        pin = dict(sc, preempt=S.made)
        for t in range(nt):
            if res[t] is None or S.stuck:
                raise RuntimeError('the scheduler lost a thread')
            if res[t][0] != 'ok':
                if isinstance(res[t][1], sched.Stuck):
                    return result(st, dict(viol('no-progress', 'threads %s: %s' % (names, res[t][1]), 'no-progress'), pin=pin))
                raise RuntimeError('thread failed: %r' % (res[t][1],))
        if moved:
            return result(st, dict(viol('interleaving-dependent', 'threads %s with %d switches leave another working directory behind' % (names, len(S.made)), 'interleaving-dependent:cwd'), pin=pin))
        got = [W.quiet(lambda t=t: shown(res[t][1])) for t in range(nt)]
        for t in range(nt):
            want = wants[t][0]
            st.check(len(want) + 1)
            for i, (a, b) in enumerate(zip(want, got[t])):
                if a != b:
                    d = canon.diff(a, b) if a[0] == b[0] == 'ok' else '%s instead of %s' % (b[1] if b[0] != 'ok' else 'a result', a[1] if a[0] != 'ok' else 'a result')
                    return result(st, dict(viol('interleaving-dependent', 'threads %s with %d switches: operation %d of thread %d gives another result than on its own: %s' % (
                        names, len(S.made), i, t, d), 'interleaving-dependent:' + names[t][i].split()[0]), pin=pin))
            a, b = tree_of(W, 'p%d' % t), tree_of(W, 't%d' % t)
            if a != b:
                from .c02 import tdiff
                return result(st, dict(viol('interleaving-dependent-write', 'threads %s with %d switches: thread %d stored something else than on its own: %s' % (
                    names, len(S.made), t, tdiff(a, b)), 'interleaving-dependent-write'), pin=pin))
        return result(st, None, [x[0] for g in got for x in g])
    finally:
        P.close()


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    if len(sc['threads']) > 2:
        for i in range(len(sc['threads'])):
            yield dict(sc, threads=sc['threads'][:i] + sc['threads'][i + 1:])
    for i, t in enumerate(sc['threads']):
        if len(t) > 1:
            for j in range(len(t)):
                yield dict(sc, threads=sc['threads'][:i] + [t[:j] + t[j + 1:]] + sc['threads'][i + 1:])
