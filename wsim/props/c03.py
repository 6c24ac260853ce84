"""C03: what an acknowledged write stored is what any later read returns, over histories of writes, edits, failures and crashes."""
from .common import *
ID, LEVEL = 'C03', 'exploration'
RULE = 'distinct (operation, format, size, previous state of the path, way of reading) tuples whose stored content was verified by a read'
NPATH = 3


def plan(tier, seed):
    n = 2500 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        pool = [r.choice(formats.WEIGHTED) for _ in range(r.choice([1, 1, 2]))]
        if i < 4 * len(formats.NAMES):
            pool[0] = formats.NAMES[i % len(formats.NAMES)]
        zs = r.choice([(0, 1), (0, 1, 2), (0, 0, 1, 2, 2), (1, 3)])
        ops = []
        for _ in range(r.choice([3, 5, 8])):
            fm = r.choice(pool)
            k = r.choice(['write', 'write', 'edit', 'edit', 'modify', 'read', 'read', 'fail', 'crash', 'rewrite'])
            op = {'op': k, 'fmt': fm, 'g': r.randrange(10**6), 'z': r.choice(zs), 'path': r.randrange(NPATH), 'how': r.choice(['auto', 'class', 'fresh'])}
            if k in ('fail', 'crash'):
                op['fault'] = {'frac': r.random(), 'kind': r.choice(KINDS_WRITE + ['INT', 'MEM']) if k == 'fail' else 'CRASH', 'torn': r.random()}
            if r.random() < 0.25:
                op['frag'] = pick_frag(r)
            if r.random() < 0.2:
                op['stale'] = r.randrange(10**6)
            ops.append(op)
        out.append({'ops': ops})
    return out


def run(W, sc):
    st = Stats()
    P = Pristine(sum(o['how'] == 'fresh' for o in sc['ops']) + 1)
    try:
        return _run(W, sc, st, P)
    finally:
        P.close()


def _run(W, sc, st, P):
    gen = {}         # path -> how often its content has been written since it was set
    os.makedirs(os.path.join(W.root, 'd'))
    disk = {}        # path -> None (unknown) | (fmt, model)
    slots = {}       # fmt -> [object, model, path or None]
    dig = []

    def forget(path, f):
        for q in [path] + list(f.companions(path)):
            if os.path.exists(q) or q in disk:
                disk[q] = None
        for q, v in disk.items():                   # files that need this one
            if v is not None and q != path and path in formats.F[v[0]].companions(q):
                disk[q] = None

    def verify(path, how):
        fmt, m = disk[path]
        f = formats.F[fmt]
        if not os.path.exists(path):
            return 'the file does not exist'
        formats.TOL = 1.0 + 1.05 * gen.get(path, 0)
        try:
            if how == 'fresh':
                return P.ask('check', fmt, m, path, f.auto, formats.TOL) if P.kids else None
            return W.quiet(lambda: verdict(f, m, path, how == 'auto' and f.auto))
        finally:
            formats.TOL = 1.0

    for op in sc['ops']:
        f = formats.F[op['fmt']]
        k = op['op']
        slot = slots.get(op['fmt'])
        r = formats.R('c03/%s/%s' % (op['g'], op['z']))
        z = min(op['z'], max(f.sizes))
        prev = 'new'
        if slot is None and k in ('edit', 'modify', 'rewrite', 'read'):
            k = 'write'
        try:
            if k in ('write', 'fail', 'crash') or slot is None:
                _, m = formats.make(op['fmt'], op['g'], op['z'])
                o = W.quiet(lambda: formats.build(W, f, m))
            elif k == 'edit':                       # same object, new content, maybe another path
                m = f.edit(r, slot[1], z)
                o = slot[0]
                W.quiet(lambda: f.apply(o, m))
            elif k in ('modify', 'rewrite'):        # read what is on disk, change it (or not), write it back
                src = slot[2]
                if not f.rereads or src is None or disk.get(src) is None or disk[src][0] != op['fmt']:
                    continue
                o = W.quiet(lambda: f.read(src, slot[1]))
                m = f.edit(r, disk[src][1], z) if k == 'modify' else disk[src][1]
                if k == 'modify':
                    W.quiet(lambda: f.apply(o, m))
            else:
                m = o = None
        except Exception as e:
            return result(st, viol('edit-fails', '%s: setting valid content raises %s (%s)' % (op['fmt'], ename(e), k), 'edit-fails:' + op['fmt']))
        if k == 'read' and slot is not None:
            path = slot[2]
            if path is None or disk.get(path) is None:
                continue
        else:
            path = os.path.join(W.root, 'd', f.filename(None, m, 'p%d' % op['path']))
            if k in ('modify', 'rewrite') and op['path'] == 0:
                path = slot[2]                      # back to the same file
                if f.filename(None, m, os.path.splitext(path)[0]) != path and k == 'modify':
                    path = os.path.join(W.root, 'd', f.filename(None, m, 'p0'))
            prev = 'absent' if path not in disk else 'unknown' if disk[path] is None else 'same' if disk[path][0] == op['fmt'] else 'other'
            n = None
            fl = []
            if k in ('fail', 'crash') or 'stale' in op:
                # how many events a clean write takes, on a scratch copy
                os.makedirs(os.path.join(W.root, 'cnt'), exist_ok=True)
                tw = W.quiet(lambda: formats.build(W, f, m))
                W.call(lambda: f.write(tw, os.path.join(W.root, 'cnt', os.path.basename(path)), m), **frag_args(op.get('frag')))
                if 'stale' in op:        # what is there has the size of what will be, and other content
                    forget(path, f)
                    prev = 'same size'
                    for q in [path] + list(f.companions(path)):
                        b = W.get(os.path.join('cnt', os.path.basename(q)))
                        if b is not None and not os.path.isdir(q):
                            W.put(os.path.join('d', os.path.basename(q)), variants.flipped(b, op['stale']))
                            disk[q] = None
                fl = [resolve(op['fault'], W.d.n.get('any', 1))] if k in ('fail', 'crash') else []
            out = W.call(lambda: f.write(o, path, m), faults=fl, **frag_args(op.get('frag')))
            st.seen(W, op['fmt'])
            dig.append((k, out[0], type(out[1]).__name__))
            if out[0] == 'ok':
                # companions belong to this write now
                forget(path, f)
                disk[path] = (op['fmt'], m)
                gen[path] = gen.get(src, 0) + 1 if k == 'rewrite' and slot is not None else 0
                slots[op['fmt']] = [o, m, path]
                st.probe('acknowledged-after-fault' if W.d.fired else 'acknowledged')
            else:
                if not W.d.fired:
                    return result(st, viol('write-fails', '%s: writing valid content to %s raises %s' % (op['fmt'], os.path.basename(path), ename(out[1])), 'write-fails:' + op['fmt']))
                forget(path, f)
                st.probe('failed' if out[0] == 'exc' else 'crashed')
                if out[0] == 'crash':
                    slots = {}
                    W.d.reset()
                else:
                    slots.pop(op['fmt'], None) if f.name in () else slots.__setitem__(op['fmt'], [o, m, None])
                continue
        bad = verify(path, op['how'])
        st.check()
        st.state(k, op['fmt'], op['z'], prev, op['how'], len(disk))
        dig.append(bad)
        if bad:
            return result(st, viol('lost-or-changed', '%s (%s of %s over %s content, read back %s): %s' % (
                os.path.basename(path), k, op['fmt'], prev, op['how'], bad), 'lost-or-changed:' + op['fmt']))
    # every path that holds acknowledged content still does
    for path in sorted(p for p in disk if disk[p] is not None):
        bad = verify(path, 'fresh' if P.kids else 'class')
        st.check()
        if bad:
            return result(st, viol('lost-or-changed', '%s (%s) at the end of the history: %s' % (os.path.basename(path), disk[path][0], bad), 'lost-or-changed:' + disk[path][0]))
    return result(st, None, dig)
