"""C08: what a read returns (and what a write stores) depends on the bytes of the file (the content of the object) only - not on what the
process did before, on other objects, on an earlier content of the same path, or on the interpreter's hash seed."""
import subprocess, sys
from .common import *
from . import common
ID, LEVEL = 'C08', 'exploration'
RULE = 'distinct (operation, source, preceding two operations) tuples whose result was compared with that of a process that did nothing before'


def plan(tier, seed):
    n = 1800 if tier == 'quick' else 60000
    out = []
    nh = 6 if tier == 'quick' else 60
    for i in range(nh):
        r = rng(ID, seed, 'hash', i)
        items = [{'ex': e['file']} for e in EX] if i == 0 else [pick_source(r, 0.3, 0.4) for _ in range(70)]
        out.append({'hash': r.randrange(1, 10**6), 'ops': [{'src': s, 'via': 'auto'} for s in items]})
    for i in range(n):
        r = rng(ID, seed, i)
        # two or three files; often of the same class, because that is where a leak shows
        first = pick_source(r)
        if i < 2 * len(EX):
            first = {'ex': EX[i % len(EX)]['file']}
        srcs = [first]
        for _ in range(r.choice([1, 2])):
            if r.random() < 0.6:
                srcs.append(sibling(r, first))
            else:
                srcs.append(pick_source(r))
        ops = []
        for _ in range(r.choice([3, 5, 7])):
            op = {'op': r.choice(['read'] * 4 + ['swap', 'swap', 'mutate', 'mutate', 'scribble', 'scribble', 'failread', 'write', 'df', 'formats']), 's': r.randrange(len(srcs)), 'via': r.choice(VIAS)}
            if op['op'] == 'write':
                op.update({'fmt': r.choice(formats.WEIGHTED), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 1, 2])})
            if op['op'] == 'failread':
                op['fault'] = {'frac': r.random(), 'kind': r.choice(KINDS_IO + ['MEM', 'INT'])}
            around = op['op'] in ('mutate', 'swap') and r.random() < 0.7
            if around:
                ops.append({'op': 'read', 's': op['s'], 'via': r.choice(VIAS)})
            ops.append(op)
            if around:
                ops.append({'op': 'read', 's': op['s'], 'via': r.choice(VIAS)})
        ops.append({'op': 'read', 's': 0, 'via': r.choice(VIAS)})
        out.append({'srcs': srcs, 'ops': ops})
    return out


def sibling(r, sp):
    if 'ex' in sp:
        k = EXBY[sp['ex']]['klass']
        o = [f for f in EXCLS[k] if f != sp['ex']]
        if o:
            return {'ex': r.choice(o)}
        rf = [n for n in refs.NAMES if refs.make(n, 0, 0)['klass'] == k]
        if rf:
            return {'ref': r.choice(rf), 'g': r.randrange(10**6), 'z': r.choice([0, 1, 2])}
        return dict(sp)
    return dict(sp, g=r.randrange(10**6), z=r.choice([0, 1, 2]))


def scribble(x, depth=0, seen=None):
    """overwrite, in place, everything a user can reach from an object"""
    import numpy as np, pandas as pd
    seen = set() if seen is None else seen
    if depth > 8 or id(x) in seen:
        return
    seen.add(id(x))
    try:
        if isinstance(x, np.ndarray):
            if x.dtype.kind in 'fiuc' and x.flags.writeable:
                x[...] = 7
            return
        if isinstance(x, pd.DataFrame):
            for i in range(x.shape[1]):
                x.isetitem(i, 7)
            x.columns = ['scribble_%d' % i for i in range(x.shape[1])]
            return
        if isinstance(x, dict):
            for k in list(x.keys()):
                v = x[k]
                scribble(v, depth + 1, seen)
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    x[k] = 7
                elif isinstance(v, str):
                    x[k] = 'scribble'
            x['scribble'] = 7
            return
        if isinstance(x, list):
            for v in x:
                scribble(v, depth + 1, seen)
            x.append('scribble')
            return
        if type(x).__module__.startswith('weio') and hasattr(x, '__dict__'):
            for v in list(vars(x).values()):
                scribble(v, depth + 1, seen)
    except Exception:
        pass


def run(W, sc):
    return run_hash(W, sc) if 'hash' in sc else run_hist(W, sc)


def run_hist(W, sc):
    st = Stats()
    P = Pristine(sum(o['op'] in ('read', 'write') for o in sc['ops']))
    try:
        return _run(W, sc, st, P)
    finally:
        P.close()


def _run(W, sc, st, P):
    ss = [Src(W, sp, 'in%d' % i) for i, sp in enumerate(sc['srcs'])]
    T = 1500000000
    for s in ss:
        s.cur = s                      # whose bytes the path holds
        stamp(s, T)
    held = []                          # (object, snapshot, text)
    last = []
    dig = []
    for no, op in enumerate(sc['ops']):
        s = ss[op['s']]
        k = op['op']
        name = src_name(sc['srcs'][op['s']])
        if k == 'read':
            via = op['via']
            fm = s.spec if s.f is not None else None
            job = ('read', None, None, s.klass, 'auto' if via == 'auto' and s.auto else 'class', s.path) + ((fm['fmt'], s.spec_m['g'], s.spec_m['z']) if fm and hasattr(s, 'spec_m') else (fm['fmt'], fm['g'], fm['z']) if fm else ())
            want = P.ask(*job)
            out = W.call(s.reader(via))
            st.seen(W, s.cls)
            got = ('ok', W.snap(out[1])) if out[0] == 'ok' else ('exc', type(out[1]).__name__)
            st.check()
            st.state(k, name, via, last[-2:], getattr(s, 'swapped', 0))
            dig.append(got[0])
            if got != want:
                d = canon.diff(want[1], got[1]) if got[0] == want[0] == 'ok' else '%s instead of %s' % (got[1] if got[0] != 'ok' else 'a result', want[1] if want[0] != 'ok' else 'a result')
                return result(st, viol('history-dependent', '%s (%s) after %s: the read differs from that of a process that did nothing before: %s' % (
                    name, via, last or 'nothing', d), 'history-dependent:' + s.cls))
            if out[0] == 'ok':
                held.append([out[1], got[1], name])
            out = None
        elif k == 'swap':              # another content at the same path, same time stamp
            sp = sibling(rng('swap', op['s'], no, name), sc['srcs'][op['s']])
            t = Src(W, sp, 'alt')
            if t.klass != s.klass or os.path.splitext(t.target)[1] != os.path.splitext(s.target)[1] or s.f is not None and not same_kind(s, t):
                continue
            if len(t.files) != 1 or len(s.files) != 1:
                continue
            s.files = {s.target: t.files[t.target]}
            s.place()
            stamp(s, T)
            s.swapped = getattr(s, 'swapped', 0) + 1
            if s.f is not None:
                s.spec_m, s.m = sp, t.m
        elif k == 'mutate':            # another content at the same path, same size, same time stamp
            q = mutated(rng('mutate', no, name), s.files)
            if q is None:
                continue
            s.files = q
            s.place()
            stamp(s, T)
            st.probe('mutated')
        elif k == 'scribble':
            if not held:
                continue
            o = held.pop(no % len(held))
            W.quiet(lambda: scribble(o[0]))

            def frames():
                try:
                    scribble(o[0].toDataFrame())
                except Exception:
                    pass
            W.quiet(frames)
        elif k == 'failread':
            W.call(s.reader(op['via']), faults=[resolve(op['fault'], 40)])
            st.seen(W)
        elif k == 'df':
            if held:
                W.quiet(lambda: canon.obj_df(held[-1][0]))
        elif k == 'formats':
            W.quiet(lambda: world.weio.fileFormats())
        else:
            f, m = formats.make(op['fmt'], op['g'], op['z'])
            os.makedirs(os.path.join(W.root, 'w%d' % no))
            os.makedirs(os.path.join(W.root, 'v%d' % no))
            fn = f.filename(None, m, 'w')
            want = P.ask('write', op['fmt'], op['g'], op['z'], os.path.join(W.root, 'v%d' % no, fn), W.root)

            def go():
                o = formats.build(W, f, m)
                f.write(o, os.path.join(W.root, 'w%d' % no, fn), m)
            out = W.call(go)
            st.seen(W, 'write ' + f.name)
            st.check()
            st.state(k, op['fmt'], op['z'], last[-2:])
            a = {q.split('/', 1)[1]: v for q, v in W.tree('v%d' % no).items()}
            b = {q.split('/', 1)[1]: v for q, v in W.tree('w%d' % no).items()}
            if (out[0] == 'ok') != (want == 'ok') or (f.stable_bytes and a != b):
                from .c02 import tdiff
                return result(st, viol('history-dependent-write', '%s after %s: the write differs from that of a process that did nothing before: %s' % (
                    {q: op[q] for q in ('fmt', 'g', 'z')}, last, ename(out[1]) if out[0] != 'ok' else tdiff(a, b)), 'history-dependent-write:' + f.name))
        last.append(k + ' ' + (name if k != 'write' else op['fmt']))
    for o, snap, name in held:
        st.check()
        now = W.snap(o)
        if s_lazy(o):                  # its dataframes hold what other files say at that time
            now, snap = now[:2], snap[:2]
        if now != snap:
            return result(st, viol('object-changed', 'the object read from %s changed although only other objects were used: %s (history: %s)' % (name, canon.diff(snap, now), last), 'object-changed'))
    return result(st, None, dig)


def s_lazy(o):
    return type(o).__name__ == 'HAWC2HTCFile'


def mutated(r, files):
    """one character (or bit) of one of the files changed"""
    k = r.choice(sorted(files))
    b = bytearray(files[k])
    n = len(b)
    if n == 0:
        return None
    text = b'\0' not in b[:2000]
    for _ in range(200):
        i = r.randrange(min(n, 3000)) if text and r.random() < 0.7 else r.randrange(n)
        c = chr(b[i])
        if not text:
            i = n // 2 + i // 2
            b[i] ^= 1
        elif c.isdigit():
            b[i] = ord(r.choice([x for x in '123456789' if x != c]))
        elif c.isascii() and c.isalpha():
            b[i] = ord(r.choice([x for x in ('ABCDGHKLM' if c.isupper() else 'abcdghklm') if x != c]))
        else:
            continue
        return dict(files, **{k: bytes(b)})
    return None


def same_kind(s, t):
    return t.f is not None and s.f.name == t.f.name


def stamp(s, t):
    for k in s.files:
        os.utime(os.path.join(s.W.root, s.sub, k), (t, t))


def run_hash(W, sc):
    """the same reads in an interpreter with another hash seed"""
    st = Stats()
    jobs = []
    for i, op in enumerate(sc['ops']):
        s = Src(W, op['src'], 'h%d' % i)
        fm = s.spec if s.f is not None else None
        jobs.append(['read', None, None, s.klass, 'auto' if s.auto else 'class', s.path] + ([fm['fmt'], fm['g'], fm['z']] if fm else []))
    import pickle
    env = dict(os.environ, PYTHONHASHSEED=str(sc['hash']), WSIM_ENV='1', HOME=world.HOME0)
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, '-B', '-m', 'wsim.props.c08', W.root], input=pickle.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=verif)
    if p.returncode != 0:
        raise RuntimeError('hash process: ' + p.stderr.decode()[-1500:])
    res = pickle.loads(p.stdout)
    st.d['fired']['other hash seed'] = 1
    for op, j, want in zip(sc['ops'], jobs, res):
        got = W.quiet(lambda: common._job_read(*j[1:]))
        st.check()
        st.state('hash', src_name(op['src']))
        if got != want:
            d = canon.diff(got[1], want[1]) if got[0] == want[0] == 'ok' else '%s / %s' % (str(got)[:80], str(want)[:80])
            return result(st, viol('hash-dependent', '%s is read differently by an interpreter with hash seed %s: %s' % (src_name(op['src']), sc['hash'], d), 'hash-dependent:' + j[3]))
    return result(st, None, None)


if __name__ == '__main__':
    import pickle
    sys.dont_write_bytecode = True
    jobs = pickle.loads(sys.stdin.buffer.read())
    out = os.dup(1)
    os.dup2(2, 1)
    world.warm()
    from wsim.props import common as C
    w = world.World(sys.argv[1])
    data = pickle.dumps([C._job_read(*j[1:]) for j in jobs])
    with os.fdopen(out, 'wb') as f:
        f.write(data)
    os._exit(0)
