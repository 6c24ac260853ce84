"""C16: conversions are complete or raise: what toMannBox, fromMannBox, makePeriodic, scale, writeProbes, stepWind, a SubDyn summary's toJSON, the graph of a SubDyn or HydroDyn model and the
export of a dataframe store is what they are documented to store, whatever the object and the target files held before and however the disk slices
and fails the transfers; a conversion that raises leaves its source as it was, and repeated once the fault is gone, it stores what it would have stored."""
import json, struct
import numpy as np
from .common import *
from .c11 import Cut
from ..formats import R
ID, LEVEL = 'C16', 'exploration'
RULE = 'distinct (conversion, content seed, what the object or target held before, fault and the event or line it hit) tuples'
ASSUMPTIONS = ['single precision of Mann boxes and the 16 bit resolution of .bts and .outb files bound what a conversion can keep']
KINDS = ['bts2mann', 'mann2bts', 'mann2bts', 'periodic', 'scale', 'probes', 'step', 'json', 'df', 'df', 'chain', 'view', 'graph']


def plan(tier, seed):
    n = 4000 if tier == 'quick' else 45000
    out = []
    for i in range(n):
        r = rng(ID, seed, i)
        k = KINDS[i % len(KINDS)]
        ops = []
        for _ in range(1 + r.randrange(4)):
            x = r.random()
            op = {'frag': pick_frag(r) if r.random() < 0.4 else None}
            if x < 0.15:
                op['quota'] = r.random()
            elif x < 0.5:
                op['fault'] = {'frac': r.choice([r.random(), r.random(), 0.0, 0.999]), 'kind': r.choice(KINDS_WRITE + ['INT', 'MEM']), 'torn': r.choice([0, r.random()]), 'persist': r.random() < 0.3}
            elif x < 0.75:
                op['cut'], op['kind'] = r.choice([r.random(), r.random() ** 3, 1 - r.random() ** 3]), r.choice(['INT', 'MEM'])
            ops.append(op)
        ops.append({'frag': pick_frag(r) if r.random() < 0.4 else None})
        sc = {'conv': k, 'g': r.randrange(10**7), 'held': r.random() < 0.6, 'stale': r.random() < 0.5, 'ops': ops}
        if k == 'df':
            sc['src'] = pick_source(r, 0.4, 0.5)
        out.append(sc)
    return out


# ------------------------------------------------------------------ independent readers of what is stored
def mann_raw(b, nx, ny, nz):
    return np.frombuffer(b, '<f4').reshape(nx, ny, nz)[:, ::-1, :].astype(float)


def bts_raw(b):
    ID, nz, ny, ntw, nt = struct.unpack('<h4l', b[:18])
    dz, dy, dt, uh, zh, zb = struct.unpack('<6f', b[18:42])
    s = np.array(struct.unpack('<6f', b[42:66]), dtype=float)
    n, = struct.unpack('<l', b[66:70])
    raw = np.frombuffer(b[70 + n:], '<i2').astype(float).reshape(nt, 3 * (ny * nz + ntw))
    u = (raw[:, :3 * ny * nz].reshape(nt, nz, ny, 3) - s[1::2]) / s[0::2]
    tw = (raw[:, 3 * ny * nz:].reshape(nt, ntw, 3) - s[1::2]) / s[0::2]
    return dict(ID=ID, dz=dz, dy=dy, dt=dt, zb=zb, uHub=uh, zHub=zh, u=u.transpose(3, 0, 2, 1), tw=tw.transpose(2, 0, 1))


def close(name, exp, got, at=0.0, rt=0.0):
    exp, got = np.asarray(exp, dtype=float), np.asarray(got, dtype=float)
    if exp.shape != got.shape:
        return '%s: shape %s expected, got %s' % (name, exp.shape, got.shape)
    bad = ~((np.abs(exp - got) <= at + rt * np.abs(exp)) | (np.isnan(exp) & np.isnan(got)))
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
        return '%s%s: %r expected, got %r (%d of %d values differ)' % (name, list(i), float(exp[i]), float(got[i]), int(bad.sum()), bad.size)
    return None


def res(u, tw=None):
    """resolution of each component in a .bts file"""
    out = []
    for k in range(3):
        a = u[k].ravel() if tw is None or tw.size == 0 else np.concatenate((u[k].ravel(), tw[k].ravel()))
        rg, m = a.max() - a.min(), np.abs(a).max()
        out.append(rg / 65535 * 0.51 + 3e-7 * (m + rg) + 1e-30)
    return np.array(out)


def check_bts(b, u, dy, dz, dt, tw, z0=None, ID=None):
    d = bts_raw(b)
    tw = np.zeros((3, u.shape[1], 0)) if tw is None else tw
    at = res(u, tw)
    for k in range(3):
        e = close('component %d' % k, u[k], d['u'][k], at[k]) or close('tower component %d' % k, tw[k], d['tw'][k], at[k])
        if e:
            return e
    for nm, x in (('dt', dt if u.shape[1] > 1 else None), ('dy', dy if u.shape[2] > 1 else None), ('dz', dz if u.shape[3] > 1 else None), ('zb', z0)):
        e = close(nm, x, d[nm], 1e-9, 2e-6) if x is not None else None
        if e:
            return e
    return '%s: ID %s expected' % (d['ID'], ID) if ID is not None and d['ID'] != ID else None


def frame_err(a, b, at, rt):
    if [str(c) for c in a.columns] != [str(c) for c in b.columns]:
        return 'columns %s expected, got %s' % (list(a.columns)[:8], list(b.columns)[:8])
    if a.shape != b.shape:
        return 'shape %s expected, got %s' % (a.shape, b.shape)
    for i in range(a.shape[1]):
        x, y = a.iloc[:, i].values, b.iloc[:, i].values
        if x.dtype.kind in 'fiub':
            e = close('column %s' % a.columns[i], x, y, at[i] if at is not None else 0, max(rt, 3e-7) if rt and x.dtype == np.float32 else rt)
            if e:
                return e
    return None


# ------------------------------------------------------------------ conversions: build() -> state, go(state), verify(state) -> None or what is wrong
class Conv:
    atomic = False        # in memory: done or not done
    name = ''

    def __init__(self, W, sc):
        self.W, self.sc, self.r = W, sc, R('c16/%s' % sc['g'])
        self.dir = os.path.join(W.root, 'o')
        os.makedirs(self.dir, exist_ok=True)

    def p(self, n):
        return os.path.join(self.dir, n)

    def stored(self, n):
        k = os.path.join('o', n)
        return self.W.tree('o')[k]

    def bts(self, sub, g, z=1):
        rf = refs.make('bts', g, z)
        for k, v in rf['files'].items():
            self.W.put(sub + '/' + k, v)
        return world.getclass('turbsim_file.TurbSimFile')(os.path.join(self.W.root, sub, rf['target']))

    def held(self):
        """an object that may have held another field"""
        C = world.getclass('turbsim_file.TurbSimFile')
        return self.bts('held', self.sc['g'] + 1, self.r.choice([1, 1, 2])) if self.sc['held'] else C()

    def targets(self):
        return []

    def outputs(self):
        return self.targets()


class Bts2Mann(Conv):
    def build(self):
        r = self.r
        self.src = self.bts('src', self.sc['g'], r.choice([1, 1, 2]))
        self.const = r.choice([None, 0.0, 7.25, -3.5])
        self.mean = r.random() < 0.4
        self.u = np.array(self.src['u'], dtype=float)
        self.base = r.choice([None, 'out', 'case_1_x', '12x7_3'])
        if self.base is None:
            self.src.filename = self.p('wind.5.bts')
        return self.src

    def targets(self):
        return ['%s_%dx%dx%d.%s' % ((self.base or 'wind.5',) + self.u.shape[1:] + (c,)) for c in 'uvw']

    def go(self, o):
        o.toMannBox(**({'base': self.p(self.base)} if self.base else {}), removeUConstant=self.const, removeAllUMean=self.mean)

    def verify(self, o):
        for i, n in enumerate(self.targets()):
            e = self.u[i]
            if i == 0:
                e = e - np.mean(e, axis=0) if self.mean else e - self.const if self.const is not None else e
            b = self.stored(n)
            if len(b) != 4 * e.size:
                return '%s has %d bytes, not %d' % (n, len(b), 4 * e.size)
            d = close(n, e, mann_raw(b, *e.shape), 1e-7 * max(1e-3, float(np.abs(self.u[i]).max())) * 2, 1e-6)
            if d:
                return d
            m = world.getclass('mannbox_file.MannBoxFile')(self.p(n))
            d = close(n + ' as read', mann_raw(b, *e.shape), m['field'])
            if d:
                return d


class Mann2Bts(Conv):
    def build(self):
        r = self.r
        nx, ny, nz = 2 + r.randrange(8), 1 + r.randrange(6), 1 + r.randrange(6)
        self.n = (nx, ny, nz)
        self.U, self.dx, self.dy, self.dz, self.z0 = r.choice([8.0, 12.5]), r.choice([1.0, 2.5, 6.25]), r.choice([2.0, 3.5]), r.choice([1.0, 4.0]), r.choice([0.0, 20.0])
        self.addU = r.choice([None, 10.0, 'shear'])
        if self.addU == 'shear':
            self.addU = 10.0 + np.arange(nz)[None, None, :] * np.ones((1, ny, 1)) * 0.25
        self.box = [r.arr(nx, ny, nz, kind=r.choice(['unit', 'moderate'])).astype('<f4') for _ in 'uvw']
        self.refused = r.random() < 0.12 and nz > 1         # a box of another size
        if self.refused:
            self.box[1 + r.randrange(2)] = r.arr(nx, ny, nz + 1, kind='unit').astype('<f4')
        self.mb = []
        for c, a in zip('uvw', self.box):
            n = 'src/m_%dx%dx%d.%s' % (a.shape + (c,))
            self.W.put(n, a.tobytes())
            self.mb.append(os.path.join(self.W.root, n))
        return self.held()

    def targets(self):
        return ['f.bts']

    def go(self, o):
        C = world.getclass('mannbox_file.MannBoxFile')
        m = [C(f, dy=self.dy, dz=self.dz, z0=self.z0) for f in self.mb]
        o.fromMannBox(m[0]['field'], m[1]['field'], m[2]['field'], self.dx, self.U, m[0].y, m[0].z, addU=self.addU)
        o.write(self.p('f.bts'))

    def verify(self, o):
        u = np.array([a[:, ::-1, :].astype(float) for a in self.box])
        if self.addU is not None:
            u[0] += self.addU
        nx, ny, nz = self.n
        d = close('u', u, o['u'], 0, 1e-6) or close('t', np.arange(nx) * self.dx / self.U, o['t'], 1e-9, 1e-9) or close('y', (np.arange(ny) - (ny - 1) / 2) * self.dy, o['y'], 1e-9, 1e-9) \
            or close('z', self.z0 + np.arange(nz) * self.dz, o['z'], 1e-9, 1e-9) or close('dt', self.dx / self.U, o['dt'], 0, 1e-12)
        return d or check_bts(self.stored('f.bts'), u, self.dy, self.dz, self.dx / self.U, None, self.z0, 7)


class Chain(Conv):
    """a TurbSim field, through Mann boxes, and back"""
    def build(self):
        self.src = self.bts('src', self.sc['g'], 1)
        self.u = np.array(self.src['u'], dtype=float)
        self.back = self.held()
        return [self.src, self.back]

    def targets(self):
        return ['b_%dx%dx%d.%s' % (self.u.shape[1:] + (c,)) for c in 'uvw'] + ['f.bts']

    def go(self, o):
        s, k = o
        s.toMannBox(self.p('b'))
        C = world.getclass('mannbox_file.MannBoxFile')
        m = [C(self.p(n)) for n in self.targets()[:3]]
        k.fromMannBox(m[0]['field'], m[1]['field'], m[2]['field'], s['dt'] * 10.0, 10.0, s['y'], s['z'])
        k.write(self.p('f.bts'))

    def verify(self, o):
        s, k = o
        step = lambda a: a[1] - a[0] if len(a) > 1 else None
        for i in range(3):
            d = close('component %d' % i, self.u[i], k['u'][i], 4e-7 * max(1e-3, float(np.abs(self.u[i]).max())), 1e-6) or close('source component %d' % i, self.u[i], s['u'][i])
            if d:
                return d
        return check_bts(self.stored('f.bts'), np.array(k['u'], dtype=float), step(s['y']), step(s['z']), s['dt'], None, s['z'][0], 7)


class Periodic(Conv):
    def build(self):
        while True:
            o = self.bts('src', self.r.randrange(10**7), self.r.choice([1, 1, 2]))
            if self.r.random() < 0.9 and o['u'].shape[1] < 2:
                continue
            break
        self.u, self.tw, self.dt, self.z0 = np.array(o['u']), np.array(o['uTwr']), float(o['dt']), float(o['z'][0])
        self.step = [float(a[1] - a[0]) if len(a) > 1 else None for a in (o['y'], o['z'])]
        self.refused = self.u.shape[1] < 2
        self.done = False
        return o

    def targets(self):
        return ['f.bts']

    def go(self, o):
        if not self.done:
            n = o['u'].shape[1]
            try:
                o.makePeriodic()
            finally:
                self.done = o.get('ID') == 8 and o['u'].shape[1] != n or n == 2 and o.get('ID') == 8
        o.write(self.p('f.bts'))

    def verify(self, o):
        f = lambda a: np.concatenate((a, a[:, -2:0:-1]), axis=1)
        u, tw = f(self.u), f(self.tw)
        return close('u', u, o['u']) or close('tower', tw, o['uTwr']) or close('t', np.arange(u.shape[1]) * self.dt, o['t'], 1e-9, 1e-6) or \
            check_bts(self.stored('f.bts'), u, self.step[0], self.step[1], self.dt, tw, self.z0, 8)


class Scale(Conv):
    def build(self):
        r = self.r
        o = self.bts('src', self.sc['g'], r.choice([1, 2]))
        self.u = np.array(o['u'], dtype=float)
        self.a = dict(new_mean=r.choice([None, 9.0, -2.0]), new_std=r.choice([None, 1.5]), component=r.randrange(3))
        mid = lambda a: int(np.argmin(np.abs(a - (a[0] + a[-1]) / 2)))
        self.i = mid(o['y']), mid(o['z'])
        if r.random() < 0.5:
            self.i = r.randrange(len(o['y'])), r.randrange(len(o['z']))
            self.a.update(reference='point', y_ref=float(o['y'][self.i[0]]) + 1e-6, z_ref=float(o['z'][self.i[1]]) - 1e-6)
        if self.u[self.a['component'], :, self.i[0], self.i[1]].std() < 1e-6 * (1 + np.abs(self.u).max()):
            self.a['new_std'] = None
        self.done = False
        return o

    def targets(self):
        return ['f.bts']

    def go(self, o):
        if not self.done:
            o['u'] = self.u.copy()           # scaling is not undone when it is interrupted: start again from the field
            o.scale(**self.a)
            self.done = True
        o.write(self.p('f.bts'))

    def verify(self, o):
        c, (iy, iz) = self.a['component'], self.i
        u = self.u.copy()
        m, s = u[c].mean(axis=0), u[c, :, iy, iz].std()
        u[c] -= m
        if self.a['new_std'] is not None:
            u[c] *= self.a['new_std'] / s
        u[c] += m
        if self.a['new_mean'] is not None:
            u[c] += self.a['new_mean'] - self.u[c, :, iy, iz].mean()
        return close('scaled u', u, o['u'], 1e-9 * (1 + np.abs(self.u).max()), 1e-9) or check_bts(self.stored('f.bts'), np.array(o['u']), None, None, None, np.array(o['uTwr']))


class Probes(Conv):
    def build(self):
        r = self.r
        o = self.src = self.bts('src', self.sc['g'], r.choice([1, 2]))
        self.u, self.t = np.array(o['u']), np.array(o['t'])
        self.iy, self.iz = r.sample(range(len(o['y'])), 1 + r.randrange(min(3, len(o['y'])))), r.sample(range(len(o['z'])), 1 + r.randrange(min(3, len(o['z']))))
        self.yz = [float(o['y'][i]) + r.uniform(-.4, .4) for i in self.iy], [float(o['z'][i]) + r.uniform(-.4, .4) for i in self.iz]
        self.cols = ['Time_[s]'] + ['%s_y%.0f_z%.0f_[m/s]' % (c, o['y'][i], o['z'][j]) for i in self.iy for j in self.iz for c in 'uvw']
        return o

    def targets(self):
        return ['p.csv']

    def go(self, o):
        o.writeProbes(self.p('p.csv'), *self.yz)

    def verify(self, o):
        L = self.stored('p.csv').decode().split('\n')
        if L[0].lstrip('# ').split(',') != self.cols:
            return 'columns: %s expected, got %s' % (self.cols, L[0])
        v = np.array([[float(x) for x in l.split(',')] for l in L[1:] if l])
        e = np.column_stack([self.t] + [self.u[k][:, i, j] for i in self.iy for j in self.iz for k in range(3)])
        d = close('probes', e, v, 0, 1e-14)
        if d or L[-1]:
            return d or 'the last line is incomplete'
        if len(set(self.cols)) == len(self.cols):
            df = world.getclass('csv_file.CSVFile')(self.p('p.csv')).toDataFrame()
            return close('probes read as CSV', e, df.values, 0, 1e-9)


class Step(Conv):
    def build(self):
        r = self.r
        C = world.getclass('fast_wind_file.FASTWndFile')
        if self.sc['held']:
            rf = refs.make('wnd', self.sc['g'], 1)
            for k, v in rf['files'].items():
                self.W.put('held/' + k, v)
            o = C(os.path.join(self.W.root, 'held', rf['target']))
        else:
            o = C()
        n = 1 + r.randrange(8)
        self.a = dict(WSstep=r.choice([1, 2, 0.5]), WSmin=r.choice([3, 4]), tstep=r.choice([100, 50, [100, 20]]), dt=r.choice([0.5, 0.1, 1]), tmin=r.choice([0, 10]))
        self.a['WSmax'] = self.a['WSmin'] + n * self.a['WSstep']
        self.a['tmax'] = r.choice([999, 0])
        return o

    def targets(self):
        return ['s.wnd']

    def go(self, o):
        o.stepWind(**self.a)
        o.write(self.p('s.wnd'))

    def verify(self, o):
        a = self.a
        n = int(round((a['WSmax'] - a['WSmin']) / a['WSstep'])) + 1
        ws = [a['WSmin'] + a['WSstep'] * i for i in range(n)]
        ts = np.around(np.linspace(*a['tstep'], n), 0) if isinstance(a['tstep'], list) else [a['tstep']] * n
        t, rows = a['tmin'], []
        for i, w in enumerate(ws[:-1]):          # the speed is held, then goes to the next within dt
            rows += [(t, w), (t + ts[i] - a['dt'], w)]
            t += ts[i]
        rows += [(t, ws[-1]), (max(a['tmax'], t + ts[-1]), ws[-1])]
        e = np.zeros((len(rows), 8))
        e[:, :2] = rows
        L = [l for l in self.stored('s.wnd').decode().split('\n') if l and not l.startswith('!')]
        try:
            v = np.array([[float(x) for x in l.split()] for l in L])
        except ValueError as x:
            return str(x)
        d = close('steps stored', e, v, 1e-12, 1e-12) or close('steps', e, o.toDataFrame().values, 1e-12, 1e-12)
        return d or close('steps as read', e, world.getclass('fast_wind_file.FASTWndFile')(self.p('s.wnd')).toDataFrame().values, 1e-12, 1e-9)


class Json(Conv):
    def build(self):
        rf = refs.make('sdsum', self.sc['g'], 1)
        for k, v in rf['files'].items():
            self.W.put('src/' + k, v)
        o = self.src = world.getclass(rf['klass'])(os.path.join(self.W.root, 'src', rf['target']))
        N, E = np.array(o['Nodes'], dtype=float), np.array(o['Elements'], dtype=float)
        self.e = dict(Nodes=N[:, 1:4], Connectivity=E[:, 1:3] - 1, groundLevel=N[:, 3].min())
        self.om = np.array(o['CB_frequencies'], dtype=float).ravel() * 2 * np.pi
        gy, _, _, cb, _, _ = o.getModes()
        self.disp = [gy[:, :, i] for i in range(gy.shape[2])] + [cb[:, :, i] for i in range(cb.shape[2])]
        self.ng = gy.shape[2]
        return o

    def targets(self):
        return ['g.json']

    def go(self, o):
        o.toJSON(self.p('g.json'))

    def verify(self, o):
        d = json.loads(self.stored('g.json').decode('utf-8'))
        for k, v in self.e.items():
            e = close(k, v, d[k], 1e-9, 1e-12)
            if e:
                return e
        if len(d['ElemProps']) != len(self.e['Connectivity']) or len(d['Modes']) != len(self.disp):
            return '%d element properties and %d modes' % (len(d['ElemProps']), len(d['Modes']))
        for i, m in enumerate(d['Modes']):
            g = i < self.ng
            n = 'GY%d' % (i + 1) if g else 'CB%d' % (i - self.ng + 1)
            e = close('mode %s' % n, self.disp[i], [[np.nan if x is None else x for x in y] for y in m['Displ']], 1e-12, 1e-9) or close('omega', 1 if g else self.om[i - self.ng], m['omega'], 0, 1e-9)
            if e or m['name'] != n:
                return e or 'mode %s instead of %s' % (m['name'], n)


class Graph(Conv):
    """the graph of a SubDyn or HydroDyn input file, or of a SubDyn summary: nodes, elements, properties and modes; also divided, sorted and added to"""
    def build(self):
        kind = self.kind = self.r.choice(['sdgraph', 'sdgraph', 'hdgraph', 'hdgraph', 'sdsum'])
        rf = refs.make(kind, self.sc['g'], self.r.choice([0, 1, 1, 2]))
        for k, v in rf['files'].items():
            self.W.put('src/' + k, v)
        o = world.getclass(rf['klass'])(os.path.join(self.W.root, 'src', rf['target']))
        self.modes = []
        if kind == 'sdsum':
            N, E, D = np.array(o['Nodes'], float), np.array(o['Elements'], float), np.array(o['DOF2Nodes'])
            N[:, 1:4] = N[:, 1:4].astype(np.float32)       # (single precision is enough for a graph)
            self.nodes = [(int(n[0]), n[1:4], {'Type': int(n[4]), 'DOFs': D[D[:, 1] == int(n[0]), 0]}) for n in N]
            self.els = [dict(ID=int(e[0]), nodes=[int(e[1]), int(e[2])], propset=None, propIDs=None, type=int(e[5]), D=np.sqrt(e[7] / np.pi) * 4,
                             data={'Type': int(e[5]), 'Area': e[7], 'rho': e[8], 'E': e[9], 'G': e[10], 'D': np.sqrt(e[7] / np.pi) * 4}) for e in E]
            self.props, self.misc, self.same = {}, {}, False
            f = np.array(o['CB_frequencies'], float).ravel()
            gy, _, _, cb, _, _ = o.getModes(sortDim=None)
            self.modes = [('GY%d' % (i + 1), gy[:, :, i], 1.0) for i in range(gy.shape[2])] + [('CB%d' % (i + 1), cb[:, :, i], f[i] * 2 * np.pi) for i in range(cb.shape[2])]
        else:
            g = rf['graph']
            self.nodes, self.els, self.props, self.misc, self.same = g['nodes'], g['els'], g['props'], g['misc'], g['same']
        ndiv = self.r.choice([1, 2, 3, 4])
        self.div = (ndiv, self.r.choice(['append', 'insert'])) if self.same and self.r.random() < 0.4 else None
        self.look, self.sort, self.add = self.r.random() < 0.5, not self.modes and self.r.choice([None, None, 'x', 'z', 'ID']), self.r.random() < 0.3
        return o

    def targets(self):
        return ['g.json']

    def go(self, o):
        G = self.G = o.toGraph()
        self.fresh = self.picture(G)
        if self.look:
            G.connectivity, G.nodeIDs2Elements, G.nodeIDs2ElementIDs, G.elementIDs2NodeIDs, repr(G), G.nodalDataFrame()
        if self.add:
            from weio.tools import graph
            i, j = (max(n.ID for n in G.Nodes) + k for k in (1, 2))
            if not self.modes:
                G.addNode(graph.Node(i, 1., 2., 3.))
                G.addNode(graph.Node(j, 2., 2., 4.))
            else:
                i, j = G.Nodes[0].ID, G.Nodes[-1].ID
            el = G.Elements[0]
            G.addElement(graph.Element(max(e.ID for e in G.Elements) + 1, [i, j], propset=el.propset, propIDs=el.propIDs))
        if self.div:
            G.divideElements(self.div[0], method=self.div[1])
        if self.sort:
            G.sortNodesBy(self.sort)
        G.toJSON(self.p('g.json'))

    @staticmethod
    def picture(G):
        return ([(n.ID, [float(n.x), float(n.y), float(n.z)], dict(n.data)) for n in G.Nodes],
                [(e.ID, [int(i) for i in e.nodeIDs], [n.ID for n in e.nodes], e.propset, None if e.propIDs is None else [int(i) for i in e.propIDs], None if e.nodeProps is None else [dict(p.data) for p in e.nodeProps], dict(e.data)) for e in G.Elements],
                {k: {p.ID: dict(p.data) for p in v} for k, v in G.NodePropertySets.items()}, {k: [dict(p.data) for p in v] for k, v in G.MiscPropertySets.items()},
                [(m['name'], m['data'], m['freq'] * 2 * np.pi) for m in G.Modes])

    def verify(self, o):
        nodes, els, props, misc, modes = self.fresh
        e = close('node IDs', [n[0] for n in self.nodes], [n[0] for n in nodes]) or close('positions', [list(n[1]) for n in self.nodes], [n[1] for n in nodes], 0, 1e-6 if self.kind == 'sdsum' else 1e-12) or close('element IDs', [x['ID'] for x in self.els], [x[0] for x in els])
        if e:
            return e
        for a, b in zip(self.nodes, nodes):
            for k, v in a[2].items():
                if k not in b[2]:
                    return 'node %d has no %s' % (a[0], k)
                e = close('%s of node %d' % (k, a[0]), np.asarray(v, float), np.asarray(b[2][k][:6] if k == 'RBC' else b[2][k], float), 1e-9, 1e-12)
                if e:
                    return e
            x = [k for k in ('addedMassMatrix', 'IBC', 'RBC', 'Cd', 'JAxCd') if k in b[2] and k not in a[2]]
            if x:
                return 'node %d has %s' % (a[0], x)
        for a, b in zip(self.els, els):
            if a['nodes'] != b[1] or a['nodes'] != b[2] or a['propset'] != b[3] or a['propIDs'] != b[4]:
                return 'element %d: %s instead of %s' % (a['ID'], b[1:5], [a[k] for k in ('nodes', 'propset', 'propIDs')])
            if a['propIDs'] is not None and [self.props[a['propset']][i] for i in a['propIDs']] != [{k: v for k, v in p.items() if k != 'Chan'} for p in b[5]]:
                return 'element %d has properties %s' % (a['ID'], b[5])
            for k, v in a['data'].items():
                if k not in b[6] or b[6][k] != v:
                    return '%s of element %d is %r instead of %r' % (k, a['ID'], b[6].get(k), v)
        for k, v in self.props.items():
            if v and {i: {q: y for q, y in p.items() if q != 'Chan'} for i, p in props.get(k, {}).items()} != v:
                return 'properties %s are %s instead of %s' % (k, props.get(k), v)
        for k, v in self.misc.items():
            got = [{(q.lower() if k == 'MemberCoefs' and q != 'MemberID' else q): y for q, y in p.items()} for p in misc.get(k, [])]
            if got != v:
                return 'properties %s are %s instead of %s' % (k, got, v)
        if [m[0] for m in self.modes] != [m[0] for m in modes]:
            return 'modes %s' % [m[0] for m in modes]
        for a, b in zip(self.modes, modes):
            e = close('mode ' + a[0], np.nan_to_num(a[1]), np.nan_to_num(b[1]), 0, 1e-12) or close('frequency of ' + a[0], a[2], b[2], 0, 1e-9)
            if e:
                return e
        # what was stored, of the graph as changed
        P = {n[0]: np.array(n[1], float) for n in self.nodes}
        seg = [(x, P[x['nodes'][0]], P[x['nodes'][1]]) for x in self.els]
        n = len(P)
        if self.add:
            m = max(P)
            if self.modes:
                ab = P[self.nodes[0][0]], P[self.nodes[-1][0]]
            else:
                ab = np.array([1., 2., 3.]), np.array([2., 2., 4.])
                n += 2
            seg.append((dict(type=1, D=1),) + ab)
        k = self.div[0] if self.div else 1
        segs = []
        for x, a, b in seg:
            segs += [np.concatenate([a + (b - a) * i / k, a + (b - a) * (i + 1) / k, [x['D']]]) for i in range(k)]
        n += (k - 1) * len(seg)
        d = json.loads(self.stored('g.json').decode('utf-8'))
        p = np.array(d['Nodes'], float)
        if len(p) != n or len(d['Connectivity']) != len(segs) or len(d['ElemProps']) != len(segs):
            return '%d nodes, %d elements and %d element properties stored instead of %d and %d' % (len(p), len(d['Connectivity']), len(d['ElemProps']), n, len(segs))
        got = [np.concatenate([p[c[0]], p[c[1]], [q['Diam']]]) for c, q in zip(d['Connectivity'], d['ElemProps'])]
        key = lambda x: [np.round(x, 6) + 0.0][0].tolist()
        e = close('elements', np.array(sorted(map(key, segs))), np.array(sorted(map(key, got))), 3e-6, 1e-6)
        if e:
            return e
        if self.sort in ('x', 'z') and np.any(np.diff(p[:, 'xyz'.index(self.sort)]) < 0):
            return 'nodes are not sorted along ' + self.sort
        e = close('groundLevel', p[:, 2].min(), d['groundLevel'], 0, 1e-12) or close('omega', [m[2] for m in self.modes], [m['omega'] for m in d['Modes']], 0, 1e-9)
        for a, m in zip(self.modes, d['Modes']):
            e = e or close('mode %s' % a[0], np.nan_to_num(a[1]), [[0 if y is None or y != y else y for y in x] for x in m['Displ']], 0, 1e-9) or (None if m['name'] == a[0] else 'mode %s' % m['name'])
        if e:
            return e
        G = self.G
        i2e = {n.ID: [e.ID for e in G.Elements if n.ID in [x.ID for x in e.nodes]] for n in G.Nodes}
        if G.nodeIDs2ElementIDs != i2e or {k: [e.ID for e in v] for k, v in G.nodeIDs2Elements.items()} != i2e or G.elementIDs2NodeIDs != {e.ID: [int(i) for i in e.nodeIDs] for e in G.Elements}:
            return 'the elements of the nodes are %s instead of %s' % (G.nodeIDs2ElementIDs, i2e)
        df = G.nodalDataFrame(sortBy='ID')
        q = sorted(G.Nodes, key=lambda n: n.ID)
        return close('nodal dataframe', np.array([[n.ID, n.x, n.y, n.z] for n in q], float), df[['ID', 'x', 'y', 'z']].values, 0, 1e-12) or close('lines', np.array([[[m.x, m.y, m.z] for m in e.nodes] for e in G.Elements]), G.toLines(), 0, 1e-12)


class Frame(Conv):
    """the dataframe of any file, stored as CSV, Excel, Parquet or OpenFAST binary"""
    def build(self):
        r = self.r
        s = Src(self.W, self.sc['src'], 'src')
        self.df = None
        try:                                 # not every file has dataframes; whether it is read is another property's matter
            df = s.reader('class')().toDataFrame()
        except Exception:
            return None
        if isinstance(df, dict):
            c = [k for k in sorted(df, key=str) if df[k] is not None and hasattr(df[k], 'columns')]
            df = df[r.choice(c)] if c else None
        if df is None or df.shape[0] < 1 or df.shape[1] < 2 or df.shape[1] > 300 or not all(isinstance(c, str) for c in df.columns):
            return None
        num = [i for i in range(df.shape[1]) if df.iloc[:, i].dtype.kind in 'fi']
        df = df.iloc[:, num].copy()
        if df.shape[1] < 2:
            return None
        if r.random() < 0.4:                 # fewer rows than the file has
            a = r.randrange(df.shape[0])
            df = df.iloc[a:a + 1 + r.randrange(df.shape[0] - a)]
        self.sink = r.choice(['csv', 'csv', 'xlsx', 'parquet', 'outb', 'outb'])
        if self.sink == 'outb':
            if not np.isfinite(df.values.astype(float)).all() or np.abs(df.values.astype(float)).max() > 1e15:
                return None
            n = df.shape[0]
            df = df.iloc[:, :40].copy()
            df.columns = ['Time_[s]'] + ['c%d_[%s]' % (i, r.choice(['m', 'kN', 'deg/s', '-'])) if r.random() < 0.7 else 'c%d (%s)' % (i, r.choice(['m', 'kN-m'])) for i in range(1, df.shape[1])]
            df = df.astype(float)
            df.iloc[:, 0] = r.choice([0.0, 50.0]) + np.arange(n) * r.choice([0.01, 0.0125, 0.5])
        elif self.sink == 'csv' and any(set(c) & set(',;\t"\'#!\n|') or c.strip() != c or not c or c[0] in '0123456789+-.' for c in df.columns):
            df.columns = ['col%d_[m]' % i for i in range(df.shape[1])]
        elif len(set(df.columns)) < df.shape[1]:
            df.columns = ['col%d_[m]' % i for i in range(df.shape[1])]
        if self.sink != 'outb' and len(set(df.columns)) < df.shape[1]:
            df.columns = ['col%d_[m]' % i for i in range(df.shape[1])]
        if self.sink in ('csv', 'xlsx') and (df.isna().values.any() or np.isinf(df.values.astype(float)).any()):
            df = df.fillna(0.0).replace([np.inf, -np.inf], 1.0)
        if self.sink == 'parquet':
            df = df.reset_index(drop=True)
        self.df = df
        self.want = df.copy(deep=True)
        C = world.getclass({'csv': 'csv_file.CSVFile', 'xlsx': 'excel_file.ExcelFile', 'parquet': 'parquet_file.ParquetFile', 'outb': 'fast_output_file.FASTOutputFile'}[self.sink])
        self.C = C
        w = C()
        if self.sc['held'] and self.sink in ('csv', 'parquet', 'outb'):
            rf = refs.make({'csv': 'csv', 'parquet': 'parquet', 'outb': 'outb'}[self.sink], self.sc['g'], 1) if self.sink != 'csv' and (self.sink != 'parquet' or 'parquet' in refs.NAMES) else None
            if rf:
                for k, v in rf['files'].items():
                    self.W.put('held/' + k, v)
                w = C(os.path.join(self.W.root, 'held', rf['target']))
        return w

    def targets(self):
        return ['t.' + self.sink] if self.df is not None else []

    def go(self, w):
        if self.sink == 'outb':
            w.writeDataFrame(self.df, self.p('t.outb'))
        else:
            w.data = {'Sheet1': self.df} if self.sink == 'xlsx' else self.df
            w.write(self.p('t.' + self.sink))

    def source(self):
        return self.df

    def verify(self, w):
        d = frame_err(self.want, self.df, None, 0)
        if d:
            return 'the dataframe that was exported has changed: ' + d
        g = self.C(self.p('t.' + self.sink)).toDataFrame()
        g = list(g.values())[0] if isinstance(g, dict) else g
        e = self.want
        if self.sink == 'outb':
            at = []
            for i in range(e.shape[1]):
                x = e.iloc[:, i].values
                rg, m = x.max() - x.min(), np.abs(x).max()
                at.append(rg / 65535 * 0.52 + 3e-7 * (m + (rg or 1.0)) + 1e-30)      # a constant channel is given a range of 1
            at[0] = 1e-9 * (1 + np.abs(e.iloc[:, 0]).max())
            e = e.copy()
            e.columns = ['%s_[%s]' % (c.split('_[')[0], c.split('_[')[1][:-1]) if '_[' in c else '%s_[%s]' % (c.split(' (')[0], c.split(' (')[1][:-1]) for c in e.columns]
            g.columns = [c.replace(' _[', '_[') for c in g.columns]
            return frame_err(e, g, at, 1e-6)
        return frame_err(e, g, [1e-300] * e.shape[1], 0 if self.sink == 'parquet' else 1e-9)


class View(Conv):
    """what is extracted from a field: values at a point, profiles, planes"""
    def build(self):
        r = self.r
        o = self.src = self.bts('src', self.sc['g'], r.choice([1, 1, 2]))
        self.u, self.y, self.z = np.array(o['u'], dtype=float), np.array(o['y']), np.array(o['z'])
        self.q = r.uniform(self.y[0] - 3, self.y[-1] + 3), r.uniform(self.z[0] - 3, self.z[-1] + 3)
        n = (2 + r.randrange(5), 1 + r.randrange(5), 1 + r.randrange(5))
        self.box = r.arr(*n, kind='moderate').astype('<f4')
        self.f = os.path.join(self.W.root, 'src', 'b_%dx%dx%d.u' % n)
        self.W.put('src/' + os.path.basename(self.f), self.box.tobytes())
        self.d = r.choice([1.0, 2.5]), r.choice([1.0, 4.0]), r.choice([0.0, 15.0]), r.choice([None, 55.0])
        return o

    def go(self, o):
        self.got = dict(at=o.valuesAt(*self.q), close=o.closestPoint(*self.q), full=o.vertProfile(y_span='full'), mid=o.vertProfile(y_span='mid'), mv=o.midValues())
        m = world.getclass('mannbox_file.MannBoxFile')(self.f, dy=self.d[0], dz=self.d[1], z0=self.d[2], zMid=self.d[3])
        self.got.update(my=m.y, mz=m.z, mat=m.valuesAt(*self.q), mp=m.vertProfile, mt=m.t(2.0, 8.0))

    def verify(self, o):
        g, u, y, z = self.got, self.u, self.y, self.z
        iy, iz = int(np.argmin(np.abs(y - self.q[0]))), int(np.argmin(np.abs(z - self.q[1])))
        my, mz = int(np.argmin(np.abs(y - (y[0] + y[-1]) / 2))), int(np.argmin(np.abs(z - (z[0] + z[-1]) / 2)))
        s = 1e-6 * (1 + np.abs(u).max())
        nx, ny, nz = self.box.shape
        dy, dz, z0, zm = self.d
        by, bz = (np.arange(ny) - (ny - 1) / 2) * dy, z0 + np.arange(nz) * dz
        if zm is not None:
            bz = bz - bz.mean() + zm
        B = self.box[:, ::-1, :].astype(float)
        jy, jz = int(np.argmin(np.abs(by - self.q[0]))), int(np.argmin(np.abs(bz - self.q[1])))
        near = lambda a, x: min(abs(abs(p - x) - abs(w - x)) for i, p in enumerate(a) for w in a[:i]) < 1e-6 if len(a) > 1 else False
        tie = near(y, self.q[0]) or near(z, self.q[1]) or near(by, self.q[0]) or near(bz, self.q[1])
        return (None if tie else close('closest point', (iy, iz), g['close']) or close('values at the point', u[:, :, iy, iz], g['at'], s) or close('values at a point of the box', B[:, jy, jz], g['mat'], 1e-6, 1e-6)) \
            or close('mid profile', u[:, :, my, :].mean(axis=1), g['mid'][1], s) or close('mid profile std', u[:, :, my, :].std(axis=1), g['mid'][2], s) \
            or close('profile', u.mean(axis=(1, 2)), g['full'][1], s) or close('profile z', z, g['full'][0]) or close('mid values', (z[mz], u[0, :, my, mz].mean()), g['mv'], s) \
            or close('y of the box', by, g['my'], 1e-9) or close('z of the box', bz, g['mz'], 1e-9) or close('t of the box', np.arange(nx) * 0.25, g['mt'], 1e-9) \
            or close('box profile', B[:, int(ny / 2), :].mean(axis=0), g['mp'][1], 1e-5 * (1 + np.abs(B).max()))


CONVS = {'bts2mann': Bts2Mann, 'mann2bts': Mann2Bts, 'chain': Chain, 'periodic': Periodic, 'scale': Scale, 'probes': Probes, 'step': Step, 'json': Json, 'graph': Graph, 'df': Frame, 'view': View}
PURE = ('bts2mann', 'probes', 'json', 'graph', 'view')      # the object is the source


def run(W, sc):
    st = Stats()
    k = sc['conv']
    name = '%s g=%d%s' % (k, sc['g'], ' %s' % src_name(sc['src']) if 'src' in sc else '')
    c = CONVS[k](W, sc)
    o = W.quiet(c.build)
    if o is None:
        return result(st, None, 'nothing to convert')
    tc = CONVS[k](W, sc)
    if 'src' in sc or k in CONVS:
        import shutil
        shutil.rmtree(os.path.join(W.root, 'held'), ignore_errors=True)
    twin = W.quiet(tc.build)
    # a conversion in peace, to know its length and what it stores
    base = W.call(lambda: tc.go(twin))
    st.seen(W, k)
    n, nb = W.d.n.get('any', 0), W.d.bytes_written
    refused = getattr(c, 'refused', False)
    if base[0] != 'ok':
        if not refused:
            return result(st, viol('conversion-fails', '%s: %s' % (name, ename(base[1])), 'conversion-fails:' + k))
        before = W.snap(o)
        out = W.call(lambda: c.go(o))
        st.check()
        if W.snap(o) != before:
            return result(st, viol('source-changed', '%s: refused (%s), but the object has changed: %s' % (name, ename(out[1]), canon.diff(before, W.snap(o))), 'source-changed:' + k))
        return result(st, None, 'refused')
    d = wrong(W, tc, twin)
    st.check()
    st.state(k, sc['g'], sc['held'])
    if d:
        return result(st, viol('wrong-content', '%s: %s' % (name, d), 'wrong-content:' + k))
    ref = {t: W.tree('o')[os.path.join('o', t)] for t in c.targets()}
    if sorted(x[2:] for x in W.tree('o') if not x.endswith('/')) != sorted(ref):
        return result(st, viol('other-files', '%s: files %s expected, got %s' % (name, sorted(ref), sorted(W.tree('o'))), 'other-files:' + k))
    cut = Cut(None, None)
    cn = None
    for t in c.targets():
        if sc['stale']:
            b = ref[t]
            W.put('o/' + t, bytes(255 - x for x in b) if c.r.random() < 0.5 else b + b'\x00' * 100)
        else:
            os.remove(os.path.join(W.root, 'o', t))
    before = W.snap(o) if k in PURE else None
    dig = []
    for op in sc['ops']:
        fa = frag_args(op.get('frag'))
        hit = None
        if op.get('cut') is not None:
            if cn is None:
                c2 = CONVS[k](W, sc)
                o2 = W.quiet(c2.build)
                c2.dir = os.path.join(W.root, 'count')
                os.makedirs(c2.dir, exist_ok=True)
                if k == 'bts2mann' and c2.base is None:
                    o2.filename = c2.p('wind.5.bts')
                cc = Cut(None, None)
                W.quiet(lambda: cc.run(lambda: c2.go(o2)))
                cn = cc.n
                del o2
            cut = Cut(1 + min(int(op['cut'] * cn), max(cn - 1, 0)), KeyboardInterrupt if op['kind'] == 'INT' else MemoryError)
            out = W.call(lambda: cut.run(lambda: c.go(o)), **fa)
            hit = cut.hit
            if hit:
                st.d['fired'][op['kind'] + '@line'] = st.d['fired'].get(op['kind'] + '@line', 0) + 1
        elif op.get('quota') is not None:
            out = W.call(lambda: c.go(o), quota=int(op['quota'] * max(nb, 1)), **fa)
        elif op.get('fault'):
            out = W.call(lambda: c.go(o), faults=[resolve(op['fault'], n)], **fa)
        else:
            out = W.call(lambda: c.go(o), **fa)
        hit = hit or (W.d.fired and W.d.fired[0][:3])
        st.seen(W, k)
        st.check()
        st.state(k, sc['g'], sc['held'], sc['stale'], hit)
        dig.append((out[0], hit))
        if out[0] != 'ok':
            if not hit:
                return result(st, viol('conversion-fails', '%s after %s: %s' % (name, dig[:-1], ename(out[1])), 'conversion-fails:' + k))
        elif not hit or hit[0] != 'INT':
            d = wrong(W, c, o)
            if d:
                return result(st, viol('wrong-content', '%s after %s: %s' % (name, dig, d), 'wrong-content:' + k))
            if k != 'df' and op.get('cut') is None:
                got = {t: W.tree('o')[os.path.join('o', t)] for t in ref}
                if got != ref:
                    return result(st, viol('stores-something-else', '%s after %s: not what a conversion in peace stores (%s)' % (name, dig, [t for t in ref if got[t] != ref[t]]), 'stores-something-else:' + k))
        out = None
        if before is not None:
            a = W.snap(o)
            if a != before:
                return result(st, viol('source-changed', '%s after %s: the source has changed: %s' % (name, dig, canon.diff(before, a)), 'source-changed:' + k))
        elif k == 'periodic' and not c.done:
            d = close('u', c.u, o['u']) or close('tower', c.tw, o['uTwr'])
            if d:
                return result(st, viol('source-changed', '%s after %s: makePeriodic failed and the field has changed: %s' % (name, dig, d), 'source-changed:' + k))
        elif k == 'df':
            d = frame_err(c.want, c.df, None, 0)
            if d:
                return result(st, viol('source-changed', '%s after %s: the exported dataframe has changed: %s' % (name, dig, d), 'source-changed:' + k))
    return result(st, None, dig)


def wrong(W, c, o):
    try:
        return W.quiet(lambda: c.verify(o))
    except Exception as e:
        return 'what was stored cannot be read: ' + ename(e)


def shrinks(sc):
    from ..runner import default_shrinks
    yield from default_shrinks(sc)
    for i, o in enumerate(sc['ops']):
        if o.get('frag'):
            yield dict(sc, ops=sc['ops'][:i] + [dict(o, frag=None)] + sc['ops'][i + 1:])
    for k in ('held', 'stale'):
        if sc[k]:
            yield dict(sc, **{k: False})
    if 'src' in sc:
        for x in shrink_src(sc['src']):
            yield dict(sc, src=x)
