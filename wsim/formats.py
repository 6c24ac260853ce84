"""Writer formats: how to generate content, put it in a weio object through the public API, and say what a later read must return.

A model is plain data held by the harness (never by the code under test). For every format:
  model(R, size)   -> model                     (R: random source)
  obj(m)           -> new weio object holding m, built through the public API
  apply(o, m)      -> change an existing object so that it holds m
  content(o)       -> {name: value} observed on an object that was read from disk
  expect(m)        -> {name: (value, rtol, atol)} what the content must be, to the precision of the format
  frames(m)        -> {name: (columns, array, rtol, atol)} or None: what the dataframe(s) must be
"""
import os, random, re
import numpy as np
import pandas as pd

F = {}


class R(random.Random):
    """random source with array helpers; one seed, one content"""
    def __init__(self, seed):
        super().__init__(str(seed))
        self.np = np.random.RandomState(self.randrange(2**31))

    def rows(self, size, lo=1):
        if size <= 0:
            return lo + self.randrange(3)
        if size == 1:
            return lo + self.randrange(12)
        if size == 2:
            return lo + self.randrange(120)
        return lo + 800 + self.randrange(1200)

    def arr(self, *shape, kind=None):
        """numbers of all sorts: scales, signs, zeros, integers, constants"""
        k = kind or self.choice(['unit', 'scaled', 'mixed', 'ints', 'small', 'const', 'zeros'])
        r = self.np
        if k == 'unit':
            a = r.uniform(-1, 1, shape)
        elif k == 'scaled':
            a = r.normal(0, 1, shape) * 10.0 ** self.randrange(-6, 9)
        elif k == 'mixed':
            a = r.normal(0, 1, shape) * 10.0 ** r.randint(-9, 10, shape)
        elif k == 'ints':
            a = r.randint(-1000, 1000, shape).astype(float)
        elif k == 'small':
            a = r.uniform(-1, 1, shape) * 1e-7
        elif k == 'const':
            a = np.full(shape, round(r.uniform(-50, 50), 3))
        elif k == 'zeros':
            a = np.zeros(shape)
        elif k == 'moderate':
            a = r.uniform(-100, 100, shape)
        a = np.asarray(a, dtype=float)
        if a.size and self.random() < 0.3:
            a.flat[self.randrange(a.size)] = self.choice([0.0, -1.0, 1.0, -0.5])
        return a

    def name(self, n=None, alpha='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'):
        n = n or 2 + self.randrange(6)
        return self.choice(alpha) + ''.join(self.choice(alpha + '0123456789_') for _ in range(n - 1))

    def names(self, k, n=None):
        out = []
        while len(out) < k:
            s = self.name(n)
            # words that parse as numbers, or are keywords of some format, are not column names
            if s.lower() in [x.lower() for x in out] or s.lower() in ('nan', 'inf', 'infinity', 'na', 'null', 'none', 'time', 'end', 'begin', 'exit', 'true', 'false'):
                continue
            if '__' in s or s.endswith('_'):       # tecplot variable names are cleaned of these
                continue
            if re.match(r'(?i)(nan|inf|na|end|exit|begin|title|var|zone|data|text|geom|cust|this)', s):
                continue
            out.append(s)
        return out


def cls(name):
    from . import world
    return world.getclass(name)


TOL = 1.0       # precision is lost once per write: content that was read and written again has met it more often


def bytetext(r):
    """a comment that is not UTF-8, as such a comment is held after a read (byte E9 of a Latin-1 file)"""
    return ' \udce9t\udce9' if r.random() < 0.15 else ''


def err(name, exp, got, rtol, atol):
    """None, or how got differs from exp"""
    if isinstance(exp, (str, bool, type(None))) or isinstance(exp, (list, tuple)) and all(isinstance(x, str) for x in exp):
        if isinstance(exp, (list, tuple)):
            try:
                exp, got = list(exp), list(got)
            except Exception:
                pass
        return None if exp == got and (not isinstance(exp, bool) or isinstance(got, (bool, np.bool_))) else '%s: expected %s, got %s' % (name, short(exp), short(got))
    try:
        e = np.asarray(exp, dtype=float)
        g = np.asarray(got, dtype=float)
    except Exception as x:
        return '%s: expected numbers, got %s' % (name, short(got))
    if e.shape != g.shape:
        return '%s: expected shape %s, got %s' % (name, e.shape, g.shape)
    with np.errstate(all='ignore'):
        at = (atol(e) if callable(atol) else atol) * TOL
        rtol = rtol * TOL
        bad = ~((np.abs(e - g) <= at + rtol * np.abs(e)) | (np.isnan(e) & np.isnan(g)) | (e == g))
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad)) if bad.ndim else ()
        return '%s%s: expected %r, got %r (%d of %d values differ)' % (name, list(i), float(e[i]), float(g[i]), int(bad.sum()), bad.size)
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'


class Fmt:
    name = None
    klass = None          # module.Class
    auto = True           # weio.read(filename) must find this class
    weight = 3
    sizes = (0, 1, 1, 2, 3)
    pure_write = True     # write leaves the object's content as it is
    rereads = True        # an object that was read can be written again
    stable_bytes = True   # the same content gives the same bytes (the clock is frozen)
    ext = None

    def filename(self, rng, m, stem):
        return stem + self.ext

    def companions(self, path):
        return []

    def new(self, m):
        return cls(self.klass)()

    def obj(self, m):
        o = self.new(m)
        self.apply(o, m)
        return o

    def write(self, o, path, m):
        o.write(path)

    def read(self, path, m=None):
        return cls(self.klass)(path)

    def expect(self, m):
        return {}

    def content(self, o):
        return {}

    def frames(self, m):
        return None

    def edit(self, r, m, size):
        return self.model(r, size)

    def text(self, m):
        """bytes-level rendering that does not depend on weio (None if there is none)"""
        return None

    # -- oracle
    def check(self, o, m):
        """None, or how the object (just read) differs from the model"""
        got = self.content(o)
        for k, (v, rt, at) in self.expect(m).items():
            if k not in got:
                return '%s is missing' % k
            e = err(k, v, got[k], rt, at)
            if e:
                return e
        fr = self.frames(m)
        if fr is not None:
            df = o.toDataFrame()
            if not isinstance(df, dict):
                df = {'': df}
            if list(df.keys()) != list(fr.keys()) and not (len(fr) == 1 and len(df) == 1 and '' in fr):
                return 'dataframes: expected %s, got %s' % (short(list(fr.keys())), short(list(df.keys())))
            for (k, (cols, val, rt, at)), d in zip(fr.items(), [df[k] for k in fr] if '' not in fr else df.values()):
                if cols is not None and [str(c) for c in d.columns] != list(cols):
                    return 'dataframe %s columns: expected %s, got %s' % (k, short(list(cols)), short(list(d.columns)))
                e = err('dataframe %s' % k, val, d.values if len(d.columns) else d, rt, at)
                if e:
                    return e
        return None


def reg(c):
    f = c()
    F[f.name] = f
    return c


# ------------------------------------------------------------------------------------------------ tables
@reg
class CSV(Fmt):
    name, klass, ext = 'csv', 'csv_file.CSVFile', '.csv'
    weight = 6

    def model(self, r, size):
        nc = 1 + r.randrange(6)
        nr = r.rows(size)
        sep = r.choice([',', ',', ';', '\t', ' ', None])
        header = []
        if nr == 1 and nc == 1:
            nr = 2
        cc = None
        if r.random() < 0.35:
            cc = r.choice(['#', '!'])
            header = [cc + ' ' + ' '.join(r.names(1 + r.randrange(3)) + ['x%d' % i]) + ' about this file' for i in range(1 + r.randrange(3))]
        a = np.column_stack([r.arr(nr) for _ in range(nc)])
        nan = []
        if nc >= 2 and r.random() < 0.4:
            for _ in range(1 + r.randrange(3)):
                i, j = r.randrange(nr), r.randrange(nc)
                if np.isfinite(a[i]).sum() > 1:
                    a[i, j] = np.nan
        names = r.names(nc)
        if r.random() < 0.4:
            names = [n + '_[' + r.choice(['m', 's', 'm/s', '-', 'kNm']) + ']' for n in names]
        labels = None
        if sep in (',', ';', None) and nc >= 2 and r.random() < 0.25:
            labels = [r.names(1)[0] for _ in range(nr)]
            if r.random() < 0.3:
                labels[r.randrange(nr)] = r.choice(['two words', 'a, b', 'x; y', 'say "a" b', 'Å', "it's"])
        if nc > 1 and r.random() < 0.3:
            j = r.randrange(nc)
            names[j] += r.choice([' speed', ' é', ', mean', '; mean', ' "top"', '_[°]', 'ψ', ', "q", z'])
        return dict(a=a, names=names, sep=sep, header=header, cc=cc, labels=labels, ext=r.choice(['.csv', '.csv', '.txt']))

    def filename(self, rng, m, stem):
        return stem + m['ext']

    def df(self, m):
        d = pd.DataFrame(m['a'].copy(), columns=m['names'])
        if m['labels'] is not None:
            d['Label'] = m['labels']
        return d

    def new(self, m):
        return cls(self.klass)(sep=m['sep'], commentChar=m['cc'])

    def apply(self, o, m):
        o.data = self.df(m)
        o.header = list(m['header'])
        o.sep = m['sep']
        o.commentChar = m['cc']

    def read(self, path, m=None):
        return cls(self.klass)(path)

    def content(self, o):
        d = o.data
        lab = 'Label' in d.columns
        return dict(columns=[str(c) for c in d.columns], header=list(o.header), labels=list(d['Label']) if lab else None,
                    values=d.drop(columns=['Label']).values if lab else d.values)

    def expect(self, m):
        return dict(columns=(m['names'] + (['Label'] if m['labels'] is not None else []), 0, 0), header=(m['header'], 0, 0),
                    labels=(m['labels'], 0, 0), values=(m['a'], 2e-12, 1e-300))

    def frames(self, m):
        return {'': (m['names'], m['a'], 2e-12, 1e-300)} if m['labels'] is None else None


@reg
class Wnd(Fmt):
    name, klass, ext = 'wnd', 'fast_wind_file.FASTWndFile', '.wnd'
    COLS = ['Time_[s]', 'WindSpeed_[m/s]', 'WindDir_[deg]', 'VertSpeed_[m/s]', 'HorizShear_[-]', 'VertShear_[-]', 'LinVShear_[-]', 'GustSpeed_[m/s]']

    def model(self, r, size):
        n = r.rows(size, 2)
        a = np.column_stack([np.cumsum(r.np.uniform(0, 10, n))] + [r.arr(n, kind=r.choice(['unit', 'ints', 'const', 'moderate', 'zeros'])) for _ in range(7)])
        return dict(a=a)

    def apply(self, o, m):
        o.data = pd.DataFrame(m['a'].copy(), columns=self.COLS)

    def content(self, o):
        return dict(values=o.data.values)

    def expect(self, m):
        return dict(values=(m['a'], 2e-12, 1e-300))

    def frames(self, m):
        return {'': (self.COLS, m['a'], 2e-12, 1e-300)}


@reg
class Excel(Fmt):
    name, klass, ext = 'excel', 'excel_file.ExcelFile', '.xlsx'
    weight = 1
    sizes = (0, 1, 1)

    def model(self, r, size):
        sheets = {}
        for s in r.names(1 + r.randrange(3)):
            nr, nc = r.rows(min(size, 1)), 1 + r.randrange(4)
            sheets[s] = (r.names(nc), np.column_stack([r.arr(nr, kind=r.choice(['unit', 'scaled', 'ints', 'moderate'])) for _ in range(nc)]))
        return dict(sheets=sheets)

    def apply(self, o, m):
        o.data = {s: pd.DataFrame(a.copy(), columns=c) for s, (c, a) in m['sheets'].items()}

    def content(self, o):
        d = dict(sheets=list(o.data.keys()))
        for s, df in o.data.items():
            d['columns ' + s] = [str(c) for c in df.columns]
            d['values ' + s] = df.values
        return d

    def expect(self, m):
        d = dict(sheets=(list(m['sheets']), 0, 0))
        for s, (c, a) in m['sheets'].items():
            d['columns ' + s] = (c, 0, 0)
            d['values ' + s] = (a, 1e-14, 0)
        return d

    def frames(self, m):
        return {s: (c, a, 1e-14, 0) for s, (c, a) in m['sheets'].items()}


@reg
class Parquet(Fmt):
    name, klass, ext = 'parquet', 'parquet_file.ParquetFile', '.parquet'

    def model(self, r, size):
        nr, nc = r.rows(size), 1 + r.randrange(5)
        a = np.column_stack([r.arr(nr) for _ in range(nc)])
        if r.random() < 0.3:
            a[r.randrange(nr), r.randrange(nc)] = np.nan
        lab = [r.names(1)[0] for _ in range(nr)] if r.random() < 0.3 else None
        return dict(a=a, names=r.names(nc), labels=lab)

    def apply(self, o, m):
        d = pd.DataFrame(m['a'].copy(), columns=m['names'])
        if m['labels'] is not None:
            d['Label'] = m['labels']
        o.data = d

    content = CSV.__dict__['content']

    def content(self, o):
        d = o.data
        lab = 'Label' in d.columns
        return dict(columns=[str(c) for c in d.columns], labels=list(d['Label']) if lab else None,
                    values=d.drop(columns=['Label']).values if lab else d.values)

    def expect(self, m):
        return dict(columns=(m['names'] + (['Label'] if m['labels'] is not None else []), 0, 0), labels=(m['labels'], 0, 0), values=(m['a'], 0, 0))

    def frames(self, m):
        return {'': (m['names'], m['a'], 0, 0)} if m['labels'] is None else None


@reg
class NetCDF(Fmt):
    name, klass, ext = 'netcdf', 'netcdf_file.NetCDFFile', '.nc'
    weight = 2

    def model(self, r, size):
        nx, ny = r.rows(min(size, 2)), 1 + r.randrange(5)
        v = {}
        for i, n in enumerate(r.names(1 + r.randrange(3))):
            v[n] = r.arr(nx) if r.random() < 0.4 else r.arr(nx, ny)
        return dict(v=v)

    def apply(self, o, m):
        import xarray as xr
        ds = xr.Dataset()
        for n, a in m['v'].items():
            ds[n] = (('x', 'y')[:a.ndim], a.copy())
        o.data = ds

    def content(self, o):
        d = {'names': sorted(str(k) for k in o.data.keys())}
        for k in o.data.keys():
            d['v ' + str(k)] = o.data[k].values
        return d

    def expect(self, m):
        d = {'names': (sorted(m['v']), 0, 0)}
        d.update({'v ' + k: (a, 0, 0) for k, a in m['v'].items()})
        return d

    def check(self, o, m):
        e = super().check(o, m)
        if e:
            return e
        dfs = o.toDataFrame()
        for k, a in m['v'].items():
            e = err('dataframe ' + k, a.reshape(len(a), -1), dfs[k].values, 0, 0)
            if e:
                return e


@reg
class Tecplot(Fmt):
    name, klass, ext = 'tecplot', 'tecplot_file.TecplotFile', '.dat'

    def model(self, r, size):
        nr, nc = r.rows(size), 1 + r.randrange(8)
        kinds = ['unit', 'scaled', 'ints', 'moderate', 'const']
        a = np.column_stack([r.arr(nr, kind=r.choice(kinds)) for _ in range(nc)])
        # the format keeps 8 decimals: avoid rows whose span makes positional notation drop digits
        d = dict(a=a, vars=r.names(nc), title=None, aux={}, zone={})
        if r.random() < 0.6:
            d['title'] = ' '.join(r.names(2))
        if r.random() < 0.4:
            d['aux'] = {n: r.choice([round(r.uniform(-9, 9), 3), r.names(1)[0]]) for n in r.names(1 + r.randrange(3))}
        if r.random() < 0.4:
            d['zone'] = {'T': r.names(1)[0]}
        return d

    def apply(self, o, m):
        o.clear()
        if m['title'] is not None:
            o['title'] = m['title']
        o['variables'] = list(m['vars'])
        if m['aux']:
            o['datasetauxdata'] = dict(m['aux'])
        if m['zone']:
            o['zone'] = dict(m['zone'])
        o['data'] = m['a'].copy()

    def content(self, o):
        d = dict(title=o.get('title'), vars=list(o['variables']), data=o['data'])
        for k, v in o.get('datasetauxdata', {}).items():
            d['aux ' + k] = v
        for k, v in o.get('zone', {}).items():
            d['zone ' + k] = v
        return d

    def tol(self, m):
        a = np.abs(m['a'])
        out = np.zeros_like(a)
        for i, row in enumerate(a):
            nz = row[row > 0]
            sci = len(nz) and (nz.max() >= 1e8 or nz.min() < 1e-4 or nz.max() / nz.min() > 1000)
            out[i] = row * 6e-9 if sci else 6e-9
        return lambda e: np.maximum(out, 0)

    def expect(self, m):
        d = dict(title=(m['title'], 0, 0), vars=(m['vars'], 0, 0), data=(m['a'], 6e-9, self.tol(m)))
        for k, v in m['aux'].items():
            d['aux ' + k] = (v, 1e-12, 0)
        for k, v in m['zone'].items():
            d['zone ' + k] = (v, 0, 0)
        return d

    def frames(self, m):
        return {'': (m['vars'], m['a'], 6e-9, self.tol(m))}


# ------------------------------------------------------------------------------------------------ FAST outputs
def outb_tol(a):
    """what 16-bit storage with single precision scaling loses, per column (time excluded)"""
    rng = a.max(axis=0) - a.min(axis=0)
    rng = np.where(rng == 0, 1.0, rng)          # constant channels are stored over a range of 1
    return lambda e: np.broadcast_to(rng / 65535 * 0.53 + 4e-7 * (np.abs(a).max(axis=0) + rng) + 1e-300, e.shape)


def fast_table(r, size, nchan=None):
    nt = r.rows(size, 1)
    nc = nchan or 1 + r.randrange(8)
    if size >= 3 and r.random() < 0.5:
        nc, nt = 60 + r.randrange(80), 1500 + r.randrange(2500)
    dt = r.choice([0.005, 0.01, 0.025, 0.1, 0.5, 1.0, 2.0])
    t0 = r.choice([0.0, 0.0, 0.0, 10.0, 100.0, 0.5])
    t = t0 + dt * np.arange(nt)
    cols = []
    for _ in range(nc):
        k = r.choice(['unit', 'scaled', 'ints', 'moderate', 'const', 'zeros'])
        c = r.arr(nt, kind=k)
        if np.ptp(c) > 0 and r.random() < 0.4:
            c = c + r.uniform(-8, 8) * np.ptp(c)
        cols.append(c)
    names = ['Time'] + r.names(nc)
    units = ['s'] + [r.choice(['m', 'kN', 'kN-m', 'm/s', 'deg', 'rpm', '-', 'm/s^2']) for _ in range(nc)]
    return np.column_stack([t] + cols), names, units


class FastOut(Fmt):
    klass = 'fast_output_file.FASTOutputFile'

    def content(self, o):
        return dict(data=o.data, names=list(o.info['attribute_names']), units=list(o.info['attribute_units']))

    def cols(self, m):
        return [n + '_[' + u + ']' for n, u in zip(m['names'], m['units'])]


@reg
class Outb(FastOut):
    name, ext = 'outb', '.outb'
    weight = 4

    def model(self, r, size):
        a, n, u = fast_table(r, size)
        return dict(a=a, names=n, units=u, desc=r.choice(['', 'made by the simulator', ' '.join(r.names(12))]))

    def apply(self, o, m):
        o['binary'] = True
        o.data = m['a'].copy()
        o.info = dict(attribute_names=list(m['names']), attribute_units=list(m['units']), description=m['desc'])

    def content(self, o):
        d = FastOut.content(self, o)
        d['desc'] = o.info['description']
        return d

    def atol(self, m):
        a = m['a']
        rest = outb_tol(a[:, 1:])
        return lambda e: np.column_stack([np.full(len(a), 1e-9 * (1 + np.abs(a[:, 0]).max())), rest(a[:, 1:])])

    def expect(self, m):
        return dict(names=(m['names'], 0, 0), units=(m['units'], 0, 0), desc=(m['desc'].strip(), 0, 0), data=(m['a'], 0, self.atol(m)))

    def frames(self, m):
        return {'': (self.cols(m), m['a'], 0, self.atol(m))}


@reg
class OutbDF(Outb):
    """the same format through writeDataFrame"""
    name = 'outb-df'
    rereads = False
    weight = 2

    def obj(self, m):
        o = cls(self.klass)()
        o.wsim_df = None
        self.apply(o, m)
        return o

    def apply(self, o, m):
        o.wsim_df = pd.DataFrame(m['a'].copy(), columns=self.cols(m))
        o.filename = o.filename if getattr(o, 'filename', None) else None

    def write(self, o, path, m):
        o.writeDataFrame(o.wsim_df, path)

    def expect(self, m):
        d = Outb.expect(self, m)
        d['desc'] = ('', 0, 0)
        return d


@reg
class Out(FastOut):
    name, ext = 'out', '.out'

    def model(self, r, size):
        a, n, u = fast_table(r, min(size, 2))
        return dict(a=a, names=n, units=u)

    def apply(self, o, m):
        o['binary'] = False
        o.data = m['a'].copy()
        o.info = dict(attribute_names=list(m['names']), attribute_units=list(m['units']), description='')

    def atol(self, m):
        def f(e):
            at = np.abs(e) * 6e-4
            at[:, 0] = 6e-5
            return at
        return f

    def expect(self, m):
        return dict(names=(m['names'], 0, 0), units=(m['units'], 0, 0), data=(m['a'], 0, self.atol(m)))

    def frames(self, m):
        return {'': (self.cols(m), m['a'], 0, self.atol(m))}


# ------------------------------------------------------------------------------------------------ wind fields
@reg
class BTS(Fmt):
    name, klass, ext = 'bts', 'turbsim_file.TurbSimFile', '.bts'
    sizes = (0, 1, 1, 2)
    weight = 4

    def model(self, r, size):
        nt = 1 + r.randrange(5 if size < 2 else 60)
        ny, nz = 1 + r.randrange(5), 1 + r.randrange(5)
        if size >= 2 and r.random() < 0.4:
            ny, nz = 12 + r.randrange(20), 12 + r.randrange(20)
        ntw = r.choice([0, 0, 1, 3])
        u = np.zeros((3, nt, ny, nz))
        tw = np.zeros((3, nt, ntw))
        for k in range(3):
            mode = r.choice(['turb', 'turb', 'const', 'zero', 'wide'])
            mean = r.uniform(-20, 20)
            sd = 0 if mode in ('const', 'zero') else r.choice([0.1, 1.0, 5.0])
            if mode == 'zero':
                mean = 0
            u[k] = mean + sd * r.np.normal(0, 1, u[k].shape)
            tw[k] = mean + sd * r.np.normal(0, 1, tw[k].shape)
            if mode == 'wide':
                u[k].flat[r.randrange(u[k].size)] = 300.
                if ntw and r.random() < 0.5:
                    tw[k].flat[r.randrange(tw[k].size)] = -200.
        dy, dz, dt = r.choice([1.0, 2.5, 10.0]), r.choice([1.0, 5.0, 0.5]), r.choice([0.05, 0.1, 0.5])
        z0 = r.choice([0.0, 5.0, 27.5])
        m = dict(u=u, uTwr=tw if ntw or r.random() < 0.5 else None, dy=dy, dz=dz, dt=dt, z0=z0, ID=r.choice([7, 8]), ref=None)
        if r.random() < 0.6:
            m['ref'] = (round(r.uniform(5, 150), 2), round(r.uniform(3, 25), 2))
        return m

    def apply(self, o, m):
        _, nt, ny, nz = m['u'].shape
        o['u'] = m['u'].copy()
        o['y'] = np.arange(ny) * m['dy'] - (ny - 1) * m['dy'] / 2
        o['z'] = np.arange(nz) * m['dz'] + m['z0']
        o['t'] = np.arange(nt) * m['dt']
        o['ID'] = m['ID']
        for k in ('uTwr', 'zRef', 'uRef', 'zTwr', 'info', 'dt'):
            if k in o:
                del o[k]
        if nt == 1:
            o['dt'] = m['dt']
        if m['uTwr'] is not None:
            o['uTwr'] = m['uTwr'].copy()
            if nz == 1:
                o['zTwr'] = m['z0'] - np.arange(m['uTwr'].shape[2]) * m['dz']
        if m['ref']:
            o['zRef'], o['uRef'] = m['ref']

    def content(self, o):
        return {k: o[k] for k in ('u', 'uTwr', 'y', 'z', 't', 'ID', 'dt', 'zRef', 'uRef', 'zTwr')}

    def expect(self, m):
        u = m['u']
        _, nt, ny, nz = u.shape
        tw = m['uTwr'] if m['uTwr'] is not None else np.zeros((3, nt, 0))
        al = [np.concatenate([u[k].ravel(), tw[k].ravel()]) for k in range(3)]
        tol = np.array([np.ptp(x) / 65535 * 0.53 + 1e-6 * (np.abs(x).max() + np.ptp(x)) + 1e-12 for x in al])
        d = dict(u=(u, 0, lambda e: tol[:, None, None, None]), uTwr=(tw, 0, lambda e: tol[:, None, None]),
                 y=(np.arange(ny) * m['dy'] - (ny - 1) * m['dy'] / 2, 1e-6, 1e-5), z=(np.arange(nz) * m['dz'] + m['z0'], 1e-6, 1e-5),
                 t=(np.arange(nt) * m['dt'], 1e-6, 1e-6), ID=(m['ID'], 0, 0), dt=(m['dt'], 1e-6, 0),
                 zTwr=(m['z0'] - np.arange(tw.shape[2]) * m['dz'], 1e-6, 1e-5))
        if m['ref']:
            d['zRef'] = (m['ref'][0], 1e-6, 0)
            d['uRef'] = (m['ref'][1], 1e-6, 0)
        return d


@reg
class Mann(Fmt):
    name, klass, ext = 'mann', 'mannbox_file.MannBoxFile', '.u'
    sizes = (0, 1, 1, 2)
    weight = 3

    def model(self, r, size):
        nx, ny, nz = 1 + r.randrange(6), 1 + r.randrange(6), 1 + r.randrange(6)
        if size >= 2:
            nx, ny, nz = 8 + r.randrange(24), 4 + r.randrange(12), 4 + r.randrange(12)
        return dict(f=r.arr(nx, ny, nz, kind=r.choice(['unit', 'scaled', 'mixed', 'ints', 'moderate'])).astype(np.float32), ext=r.choice(['.u', '.v', '.w', '.bin']))

    def filename(self, rng, m, stem):
        return '%s_%dx%dx%d%s' % ((stem,) + m['f'].shape + (m['ext'],))

    def apply(self, o, m):
        o['field'] = m['f'].copy()
        o['dy'] = o['dz'] = 1
        o['y0'], o['z0'], o['zMid'] = None, 0, None

    def content(self, o):
        return dict(field=o['field'])

    def expect(self, m):
        return dict(field=(m['f'].astype(float), 0, 0))


@reg
class TurbSimTS(Fmt):
    name, klass, ext = 'ts', 'turbsim_ts_file.TurbSimTSFile', '.txt'
    auto = False           # .txt is tried as CSV first

    def model(self, r, size):
        npt, ncomp, nt = 1 + r.randrange(4), 1 + r.randrange(3), r.rows(size)
        k = r.choice(['unit', 'scaled', 'ints', 'moderate', 'mixed'])
        return dict(nComp=ncomp, ID=1 + r.randrange(npt), P=r.arr(npt, 2, kind='moderate'),
                    d=np.column_stack([np.arange(nt) * 0.05, r.arr(nt, npt * ncomp, kind=k)]),
                    header=['--------- header %s%s ------' % (r.names(1)[0], bytetext(r)) for _ in range(1 + r.randrange(4))])

    def apply(self, o, m):
        o['header'] = list(m['header'])
        o['nComp'], o['ID'], o['Points'], o['data'] = m['nComp'], m['ID'], m['P'].copy(), m['d'].copy()

    def content(self, o):
        return dict(header=list(o['header']), nComp=o['nComp'], ID=o['ID'], P=o['Points'], d=o['data'])

    def expect(self, m):
        return dict(header=(m['header'], 0, 0), nComp=(m['nComp'], 0, 0), ID=(m['ID'], 0, 0), P=(m['P'], 6e-9, 0), d=(m['d'], 6e-9, 0))

    def frames(self, m):
        npt = len(m['P'])
        cols = ['Time_[s]'] + ['Point%d%s_[m/s]' % (ip + 1, 'uvw'[ic]) for ic in range(m['nComp']) for ip in range(npt)]
        return {'Points': (['PointYi', 'PointZi'], m['P'], 6e-9, 0), 'TimeSeries': (cols, m['d'], 6e-9, 0)}


# ------------------------------------------------------------------------------------------------ HAWC2
@reg
class H2Dat(Fmt):
    name, klass, ext = 'h2dat', 'hawc2_dat_file.HAWC2DatFile', '.dat'

    def model(self, r, size):
        a, n, u = fast_table(r, min(size, 2))
        n = [x + ' ' + y for x, y in zip(n, ['t'] + r.names(len(n) - 1))] if r.random() < 0.3 else n
        bh = r.random() < 0.25
        return dict(a=a, names=n, units=u, descr=[' '.join(r.names(3)) + (' Channel' if r.random() < 0.1 else '') for _ in n], ext=r.choice(['.dat', '.dat', '.sel']), bhawc=bh)

    def filename(self, rng, m, stem):
        return stem + m['ext']

    def companions(self, path):
        b = os.path.splitext(path)[0]
        return [b + '.sel', b + '.dat']

    def apply(self, o, m):
        o.data = m['a'].copy()
        o.bHawc = m['bhawc']
        o.info = dict(attribute_names=list(m['names']), attribute_units=list(m['units']), attribute_descr=list(m['descr']))

    def content(self, o):
        return dict(bhawc=o.bHawc, data=o.data, names=[str(s) for s in o.info['attribute_names']], units=[str(s).strip('[]') for s in o.info['attribute_units']],
                    descr=[str(s) for s in o.info['attribute_descr']])

    def expect(self, m):
        return dict(bhawc=(m['bhawc'], 0, 0), data=(m['a'], 6e-9, 0), names=(m['names'], 0, 0), units=(m['units'], 0, 0), descr=(m['descr'], 0, 0))

    def frames(self, m):
        return {'': ([n.replace(' ', '') + '_[' + u + ']' for n, u in zip(m['names'], m['units'])], m['a'], 6e-9, 0)}


@reg
class AE(Fmt):
    name, klass, ext = 'ae', 'hawc2_ae_file.HAWC2AEFile', '.ae'
    sizes = (0, 1, 1, 2)

    def model(self, r, size):
        sets = []
        for _ in range(1 + r.randrange(3)):
            n = r.rows(size)
            sets.append(np.column_stack([np.sort(r.np.uniform(0, 100, n)), r.arr(n, kind='moderate'), r.np.uniform(1, 100, n), r.np.randint(1, 9, n)]).astype(float))
        return dict(sets=sets)

    def apply(self, o, m):
        o.data.ae_sets.clear()
        for s in m['sets']:
            o.add_set(radius=s[:, 0].copy(), chord=s[:, 1].copy(), thickness=s[:, 2].copy(), pc_set_id=s[:, 3].copy())

    def content(self, o):
        d = dict(n=len(o.data.ae_sets))
        for k, v in o.data.ae_sets.items():
            d['set %d' % k] = v
        return d

    def expect(self, m):
        d = dict(n=(len(m['sets']), 0, 0))
        d.update({'set %d' % (i + 1): (s, 1e-15, 0) for i, s in enumerate(m['sets'])})
        return d

    def frames(self, m):
        c = ['radius_[m]', 'chord_[m]', 'thickness_[%]', 'pc_set_[#]']
        if len(m['sets']) == 1:
            return {'': (c, m['sets'][0], 1e-15, 0)}
        return {'ae_set_%d' % (i + 1): (c, s, 1e-15, 0) for i, s in enumerate(m['sets'])}


@reg
class PC(Fmt):
    name, klass, ext = 'pc', 'hawc2_pc_file.HAWC2PCFile', '.pc'
    sizes = (0, 1, 1, 2)

    def model(self, r, size):
        sets = []
        for _ in range(1 + r.randrange(2)):
            nt = 1 + r.randrange(4)
            th = sorted(r.sample(range(10, 101), nt))
            sets.append(([float(t) for t in th], [np.column_stack([np.linspace(-180, 180, n), r.arr(n, 3, kind=r.choice(['unit', 'small', 'moderate']))])
                                                  for n in [r.rows(size) for _ in th]]))
        return dict(sets=sets)

    def apply(self, o, m):
        o.data.pc_sets.clear()
        for i, (t, p) in enumerate(m['sets']):
            o.add_set(i + 1, list(t), [x.copy() for x in p])

    def content(self, o):
        d = dict(n=len(o.data.pc_sets))
        for k, (t, p) in o.data.pc_sets.items():
            d['thickness %d' % k] = t
            for j, x in enumerate(p):
                d['polar %d %d' % (k, j)] = x
        return d

    def expect(self, m):
        d = dict(n=(len(m['sets']), 0, 0))
        for i, (t, p) in enumerate(m['sets']):
            d['thickness %d' % (i + 1)] = (t, 0, 1e-8)
            for j, x in enumerate(p):
                d['polar %d %d' % (i + 1, j)] = (x, 2e-15, 0)
        return d

    def frames(self, m):
        c = ['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]']
        return {'pc_set_%d_t_%s' % (i + 1, t): (c, x, 2e-15, 0) for i, (th, p) in enumerate(m['sets']) for t, x in zip(th, p)}


@reg
class ST(Fmt):
    name, klass, ext = 'st', 'hawc2_st_file.HAWC2StFile', '.st'
    sizes = (0, 1, 1, 2)

    def model(self, r, size):
        nc = r.choice([19, 19, 30])
        sets = {}
        for i in range(1 + r.randrange(2)):
            sets[i + 1] = {j + 1: np.column_stack([np.linspace(0, 50, n)] + [r.arr(n, kind=r.choice(['unit', 'scaled', 'mixed', 'ints', 'zeros'])) for _ in range(nc - 1)])
                           for j, n in enumerate([r.rows(size) for _ in range(1 + r.randrange(3))])}
        return dict(sets=sets)

    def obj(self, m):
        import importlib
        o = cls(self.klass)()
        o.data = importlib.import_module('weio.wetb.hawc2.st_file').StFile()
        self.apply(o, m)
        return o

    def apply(self, o, m):
        import importlib
        S = importlib.import_module('weio.wetb.hawc2.st_file').StFile()
        S.main_data_sets = {i: {j: a.copy() for j, a in s.items()} for i, s in m['sets'].items()}
        o.data = S

    def content(self, o):
        d = dict(sets=['%d_%d' % (i, j) for i, s in o.data.main_data_sets.items() for j in s])
        for i, s in o.data.main_data_sets.items():
            for j, a in s.items():
                d['%d_%d' % (i, j)] = a
        return d

    def expect(self, m):
        d = dict(sets=(['%d_%d' % (i, j) for i, s in m['sets'].items() for j in s], 0, 0))
        for i, s in m['sets'].items():
            for j, a in s.items():
                d['%d_%d' % (i, j)] = (a, 6e-8, 0)
        return d

    def frames(self, m):
        return {'%d_%d' % (i, j): (None, a, 6e-8, 0) for i, s in m['sets'].items() for j, a in s.items()}


@reg
class HTC(Fmt):
    name, klass, ext = 'htc', 'hawc2_htc_file.HAWC2HTCFile', '.htc'
    sizes = (0, 1)
    weight = 2

    def model(self, r, size):
        """section path -> list of (name, values); sensors of output"""
        def val():
            return r.choice([r.randrange(-100, 1000), round(r.uniform(-10, 10), 4), r.name(4).lower() + 'q', './res/x%d.dat' % r.randrange(9), r.uniform(-1, 1) * 1e-6])
        def lines(n):
            return [[x.lower(), [val() for _ in range(1 + r.randrange(3))]] for x in r.names(n)]
        m = dict(top={}, bodies=[], sensors=[], out=lines(0))
        for s in ['simulation', 'wind', 'hydro'][:1 + r.randrange(3)]:
            m['top'][s] = lines(1 + r.randrange(4))
        for b in [x.lower() + 'b' for x in r.names(1 + r.randrange(3))]:
            n = 2 + r.randrange(4)
            c2 = [[i + 1] + [round(r.uniform(-5, 80), 5) for _ in range(4)] for i in range(n)]
            m['bodies'].append([b, c2, lines(r.randrange(3))])
        for _ in range(r.randrange(4)):
            m['sensors'].append([r.choice(['general', 'mbdy', 'aero']), r.choice(['time', 'forcevec', 'alfa']), [val() for _ in range(r.randrange(3))], r.choice(['', 'a comment'])])
        m['at'] = None
        if r.random() < 0.3:
            m['at'] = [r.choice(['aero']), round(r.uniform(1, 50), 2), [['twist', [r.randrange(3)]], ['chord', [1]]]]
        return m

    def obj(self, m):
        import importlib
        o = cls(self.klass)()
        self.apply(o, m)
        return o

    def apply(self, o, m):
        import importlib
        H = importlib.import_module('weio.wetb.hawc2.htc_file').HTCFile()
        for k in list(H.keys()):
            H[k].delete()
        for s, ls in m['top'].items():
            sec = H.add_section(s)
            for n, v in ls:
                sec.add_line(n, v)
        nhs = H.add_section('new_htc_structure')
        for b, c2, ls in m['bodies']:
            mb = nhs.add_section('main_body', allow_duplicate=True)
            mb.add_line('name', [b])
            for n, v in ls:
                mb.add_line(n, v)
            c = mb.add_section('c2_def')
            c.add_line('nsec', [len(c2)])
            for row in c2:
                c.add_line('sec', row)
        out = H.add_section('output')
        out.add_line('filename', ['./res/out'])
        for t, s, v, com in m['sensors']:
            out.add_sensor(t, s, v, com)
        if m['at']:
            at = H.add_section('output_at_time %s %s' % (m['at'][0], m['at'][1]))
            for s, v in m['at'][2]:
                at.add_sensor(m['at'][0], s, v)
        o.data = H

    def content(self, o):
        d = {}
        H = o.data
        for s in H.keys():
            if s == 'new_htc_structure':
                bod = {}
                for b, sec in o.bodyDict.items():
                    bod[b] = 1
                    d['c2 ' + b] = o.bodyC2(sec)
                    for k in sec.keys():
                        if k not in ('name', 'c2_def'):
                            d['line main_body %s %s' % (b, k)] = list(sec[k].values)
                d['bodies'] = list(bod)
            elif s == 'output' or s.startswith('output_at_time'):
                d['sensors ' + s] = [[x.type, x.sensor, list(x.values), x.comments] for x in H[s].sensors]
                if s.startswith('output_at'):
                    d['at'] = [H[s].type, H[s].time]
            else:
                for k in H[s].keys():
                    d['line %s %s' % (s, k)] = list(H[s][k].values)
        return {k: self._n(v) for k, v in d.items()}

    @staticmethod
    def _n(v):
        # numbers and words, by value
        if isinstance(v, np.ndarray):
            return v
        return repr(HTC._nn(v))

    @staticmethod
    def _nn(v):
        if isinstance(v, (list, tuple)):
            return [HTC._nn(x) for x in v]
        if isinstance(v, (bool, str)) or v is None:
            return v
        f = float(v)
        return int(f) if f == int(f) else f

    def expect(self, m):
        d = {}
        for s, ls in m['top'].items():
            for n, v in ls:
                d['line %s %s' % (s, n)] = v
        d['bodies'] = [b for b, _, _ in m['bodies']]
        for b, c2, ls in m['bodies']:
            d['c2 ' + b] = np.array(c2, dtype=float)
            for n, v in ls:
                d['line main_body %s %s' % (b, n)] = v
        d['sensors output'] = [list(x) for x in m['sensors']]
        if m['at']:
            d['at'] = [m['at'][0], float(m['at'][1])]
            d['sensors output_at_time'] = [[m['at'][0], s, v, ''] for s, v in m['at'][2]]
        return {k: (self._n(v), 1e-14, 0) for k, v in d.items()}


# ------------------------------------------------------------------------------------------------ FLEX
@reg
class FlexProfile(Fmt):
    name, klass, ext = 'flexpro', 'flex_profile_file.FLEXProfileFile', '.pro'
    sizes = (0, 1, 1, 2)

    def model(self, r, size):
        sets = []
        for _ in range(1 + r.randrange(2)):
            th = sorted(r.sample(range(10, 101), 1 + r.randrange(3)))
            n = r.rows(size)
            sets.append(dict(header=' '.join(r.names(2)) + bytetext(r), th=[float(t) for t in th], ph=['polar ' + r.names(1)[0] for _ in th],
                             pol=[np.column_stack([np.linspace(-90, 90, n), r.arr(n, 3, kind=r.choice(['unit', 'moderate', 'small']))]) for _ in th]))
        return dict(sets=sets)

    def apply(self, o, m):
        import importlib
        P = importlib.import_module('weio.flex_profile_file').ProfileSet
        o.ProfileSets = [P(s['header'], np.array(s['th']), [p.copy() for p in s['pol']], list(s['ph'])) for s in m['sets']]

    def content(self, o):
        d = dict(n=len(o.ProfileSets))
        for i, s in enumerate(o.ProfileSets):
            d['header %d' % i] = s.header
            d['th %d' % i] = s.thickness
            d['ph %d' % i] = list(s.polar_headers)
            for j, p in enumerate(s.polars):
                d['pol %d %d' % (i, j)] = p
        return d

    def expect(self, m):
        d = dict(n=(len(m['sets']), 0, 0))
        for i, s in enumerate(m['sets']):
            d['header %d' % i] = (s['header'], 0, 0)
            d['th %d' % i] = (s['th'], 1e-14, 0)
            d['ph %d' % i] = (s['ph'], 0, 0)
            for j, p in enumerate(s['pol']):
                d['pol %d %d' % (i, j)] = (p, 6e-8, 0)
        return d

    def frames(self, m):
        c = ['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]']
        return {'pc_set_%d_t_%s' % (i + 1, t): (c, p, 6e-8, 0) for i, s in enumerate(m['sets']) for t, p in zip(s['th'], s['pol'])}


@reg
class Rosco(Fmt):
    name, klass, ext = 'rosco', 'rosco_performance_file.ROSCOPerformanceFile', '.txt'
    auto = False
    sizes = (0, 1, 1)

    def model(self, r, size):
        npi, nts = 1 + r.randrange(8), 1 + r.randrange(8)
        return dict(pitch=np.sort(np.round(r.np.uniform(-5, 90, npi), 1)), TSR=np.sort(np.round(r.np.uniform(1, 15, nts), 1)),
                    WS=np.round(r.np.uniform(3, 25, 1 + r.randrange(2)), 1) if r.random() < 0.7 else None,
                    CP=r.np.uniform(-1, 1, (nts, npi)), CT=r.np.uniform(-1, 2, (nts, npi)), CQ=r.np.uniform(-.1, .1, (nts, npi)))

    def apply(self, o, m):
        for k, v in m.items():
            o[k] = None if v is None else v.copy()

    def content(self, o):
        return {k: o[k] for k in ('pitch', 'TSR', 'WS', 'CP', 'CT', 'CQ')}

    def expect(self, m):
        d = {k: (m[k], 0, 6e-7) for k in ('CP', 'CT', 'CQ')}
        for k in ('pitch', 'TSR', 'WS'):
            d[k] = (m[k], 6e-4, 1e-9)
        return d

    def frames(self, m):
        c = ['TSR_[-]'] + ['Pitch_%.2f_[deg]' % p for p in m['pitch']]
        return {k: (c, np.column_stack([m['TSR'], m[k]]), 6e-4, 6e-7) for k in ('CP', 'CT', 'CQ')}


# ------------------------------------------------------------------------------------------------ VTK
@reg
class VTK(Fmt):
    name, klass, ext = 'vtk', 'vtk_file.VTKFile', '.vtk'
    sizes = (0, 1, 1, 2)

    def model(self, r, size):
        npt = 8 + r.randrange(20 if size < 2 else 400)
        dt = r.choice([np.float64, np.float32])
        cells = []
        # VTK groups consecutive cells of one type: adjacent blocks must differ
        last = None
        for _ in range(1 + r.randrange(3)):
            t, n = r.choice([x for x in [('triangle', 3), ('quad', 4), ('line', 2), ('tetra', 4), ('vertex', 1), ('hexahedron', 8), ('wedge', 6)] if x[0] != last])
            last = t
            cells.append((t, np.array([r.sample(range(npt), n) for _ in range(1 + r.randrange(6))], dtype=np.int32)))
        nc = [len(c) for _, c in cells]
        pd_ = {n: (r.arr(npt, kind='moderate') if r.random() < 0.5 else r.arr(npt, 3, kind='moderate')).astype(dt) for n in r.names(r.randrange(3))}
        cd = {n: [r.arr(k, kind='unit').astype(dt) for k in nc] for n in r.names(r.randrange(3))}
        return dict(points=r.arr(npt, 3, kind='moderate').astype(dt), cells=cells, pd=pd_, cd=cd, binary=r.random() < 0.5)

    def apply(self, o, m):
        import importlib
        CB = importlib.import_module('weio.vtk_file').CellBlock
        o.points = m['points'].copy()
        o.cells = [CB(t, c.copy()) for t, c in m['cells']]
        o.point_data = {k: v.copy() for k, v in m['pd'].items()}
        o.cell_data = {k: [x.copy() for x in v] for k, v in m['cd'].items()}

    def write(self, o, path, m):
        o.write(path, binary=m['binary'])

    def content(self, o):
        d = dict(points=o.points, types=[c.type for c in o.cells], pd=sorted(o.point_data), cd=sorted(o.cell_data))
        for i, c in enumerate(o.cells):
            d['cells %d' % i] = c.data
        for k, v in o.point_data.items():
            d['pd ' + k] = v
        for k, v in o.cell_data.items():
            for i, x in enumerate(v):
                d['cd %s %d' % (k, i)] = x
        return d

    def expect(self, m):
        rt = 0 if m['binary'] else (1e-15 if m['points'].dtype == np.float64 else 1e-6)
        d = dict(points=(m['points'], rt, 0), types=([t for t, _ in m['cells']], 0, 0), pd=(sorted(m['pd']), 0, 0), cd=(sorted(m['cd']), 0, 0))
        for i, (t, c) in enumerate(m['cells']):
            d['cells %d' % i] = (c, 0, 0)
        for k, v in m['pd'].items():
            d['pd ' + k] = (v, rt, 0)
        for k, v in m['cd'].items():
            for i, x in enumerate(v):
                d['cd %s %d' % (k, i)] = (x, rt, 0)
        return d


# ------------------------------------------------------------------------------------------------ FAST inputs
class FastIn(Fmt):
    ext = '.dat'
    klass = 'fast_input_file.FASTInputFile'
    proto = None

    def new(self, m):
        return cls('fast_input_file.' + self.proto)()

    def tab(self, a):
        """what the text tables keep: integral values positional, others 9 digits"""
        return 6e-9


@reg
class ADBlade(FastIn):
    name, proto = 'adblade', 'ADBladeFile'
    sizes = (0, 1, 1, 2)

    def model(self, r, size):
        n = r.rows(size, 2)
        a = np.column_stack([np.linspace(0, 60, n), r.arr(n, 5, kind=r.choice(['unit', 'moderate', 'ints'])), r.np.randint(1, 9, n)]).astype(float)
        return dict(a=a, com='blade ' + ' '.join(r.names(3, 7)))

    def apply(self, o, m):
        o.comment = m['com']
        o['BldAeroNodes'] = m['a'].copy()

    def content(self, o):
        return dict(n=o['NumBlNds'], a=o['BldAeroNodes'])

    def expect(self, m):
        return dict(n=(len(m['a']), 0, 0), a=(m['a'], 6e-9, 1e-300))


@reg
class EDBlade(FastIn):
    name, proto = 'edblade', 'EDBladeFile'
    sizes = (0, 1, 1, 2)
    KEYS = ['BldFlDmp(1)', 'BldFlDmp(2)', 'BldEdDmp(1)', 'AdjBlMs', 'AdjFlSt', 'AdjEdSt', 'FlStTunr(1)']
    SH = ['BldFl1Sh', 'BldFl2Sh', 'BldEdgSh']

    def model(self, r, size):
        n = r.rows(size, 2)
        a = np.column_stack([np.linspace(0, 1, n), r.arr(n, 5, kind=r.choice(['unit', 'scaled', 'ints', 'mixed']))])
        k = {x: r.choice([1.0, 2, round(r.uniform(0, 9), 4), r.uniform(0, 1) * 1e-5]) for x in self.KEYS}
        for s in self.SH:
            for i in range(2, 7):
                k['%s(%d)' % (s, i)] = r.choice([0.0, r.uniform(-3, 3), round(r.uniform(-3, 3), 4)])
        return dict(a=a, com='blade ' + ' '.join(r.names(3, 7)), k=k)

    def apply(self, o, m):
        o.comment = m['com']
        o['BldProp'] = m['a'].copy()
        for k, v in m['k'].items():
            o[k] = v

    def content(self, o):
        d = dict(n=o['NBlInpSt'], a=o['BldProp'])
        for k in self.KEYS + ['%s(%d)' % (s, i) for s in self.SH for i in range(2, 7)]:
            d[k] = o[k]
        return d

    def expect(self, m):
        d = dict(n=(len(m['a']), 0, 0), a=(m['a'], 6e-9, 1e-300))
        d.update({k: (v, 1e-15, 0) for k, v in m['k'].items()})
        return d


@reg
class ADPolar(FastIn):
    name, proto = 'adpolar', 'ADPolarFile'
    sizes = (0, 1, 1, 2)
    UA = ['alpha0', 'alpha1', 'alpha2', 'C_nalpha', 'T_f0', 'Cn1', 'Cn2', 'Cd0', 'Cm0', 'k0']

    def model(self, r, size):
        nt = r.choice([1, 1, 2, 3])
        tabs = []
        for _ in range(nt):
            n = r.rows(size, 2)
            tabs.append(dict(a=np.column_stack([np.linspace(-180, 180, n), r.arr(n, 3, kind=r.choice(['unit', 'moderate', 'small']))]),
                             re=r.choice([1.0, round(r.uniform(0.1, 12), 3)]), ua={k: r.choice([round(r.uniform(-5, 5), 4), r.uniform(-1, 1)]) for k in self.UA}))
        return dict(tabs=tabs, nt=nt)

    def new(self, m):
        return cls('fast_input_file.ADPolarFile')(hasUA=True, numTabs=m['nt'])

    def edit(self, r, m, size):
        while True:
            n = self.model(r, size)
            if n['nt'] == m['nt']:
                return n

    def off(self, nt, i):
        return '' if nt == 1 else '_%d' % (i + 1)

    def apply(self, o, m):
        for i, t in enumerate(m['tabs']):
            s = self.off(m['nt'], i)
            o['AFCoeff' + s] = t['a'].copy()
            o['Re' + s] = t['re']
            for k, v in t['ua'].items():
                o[k + s] = v

    def content(self, o):
        nt = o['NumTabs']
        d = dict(nt=nt)
        for i in range(nt):
            s = self.off(nt, i)
            d['AFCoeff' + s] = o['AFCoeff' + s]
            d['NumAlf' + s] = o['NumAlf' + s]
            d['Re' + s] = o['Re' + s]
            for k in self.UA:
                d[k + s] = o[k + s]
        return d

    def expect(self, m):
        d = dict(nt=(m['nt'], 0, 0))
        for i, t in enumerate(m['tabs']):
            s = self.off(m['nt'], i)
            d['AFCoeff' + s] = (t['a'], 6e-9, 0)
            d['NumAlf' + s] = (len(t['a']), 0, 0)
            d['Re' + s] = (t['re'], 1e-15, 0)
            for k, v in t['ua'].items():
                d[k + s] = (v, 1e-15, 0)
        return d


@reg
class ExtPtfm(FastIn):
    name, proto = 'extptfm', 'ExtPtfmFile'
    sizes = (0, 1, 1, 2)

    def model(self, r, size):
        n, nt = 1 + r.randrange(12), r.rows(size, 1)
        dt = r.choice([0.05, 0.1, 0.5, 1.0])
        return dict(n=n, dt=dt, T=round((nt - 1) * dt, 6), M=r.arr(n, n, kind='scaled'), K=r.arr(n, n, kind='mixed'), D=r.arr(n, n, kind='unit'),
                    L=np.column_stack([np.arange(nt) * dt, r.arr(nt, n, kind=r.choice(['scaled', 'unit', 'ints']))]))

    def apply(self, o, m):
        o['nDOF'], o['dt'], o['T'] = m['n'], m['dt'], m['T']
        o['MassMatrix'], o['StiffnessMatrix'], o['DampingMatrix'], o['Loading'] = m['M'].copy(), m['K'].copy(), m['D'].copy(), m['L'].copy()

    def content(self, o):
        return {k: o[k] for k in ('nDOF', 'dt', 'T', 'MassMatrix', 'StiffnessMatrix', 'DampingMatrix', 'Loading')}

    def expect(self, m):
        return dict(nDOF=(m['n'], 0, 0), dt=(m['dt'], 1e-14, 0), T=(m['T'], 1e-14, 0), MassMatrix=(m['M'], 6e-9, 0), StiffnessMatrix=(m['K'], 6e-9, 0),
                    DampingMatrix=(m['D'], 6e-9, 0), Loading=(m['L'], 6e-9, 0))


@reg
class BeamDyn(FastIn):
    """BeamDyn blade properties, starting from a file the harness writes"""
    name = 'beamdyn'
    sizes = (0, 1, 1)
    weight = 2

    def model(self, r, size):
        n = 2 + r.randrange(4 + 10 * (size > 0))
        sp = np.round(np.linspace(0, 1, n), 6)
        return dict(span=sp, K=r.arr(n, 6, 6, kind=r.choice(['scaled', 'mixed', 'unit'])), M=r.arr(n, 6, 6, kind=r.choice(['scaled', 'unit', 'ints'])),
                    mu=[round(r.uniform(0, 1), 6) for _ in range(6)])

    def template(self, m):
        n = len(m['span'])
        s = ['   ------- BEAMDYN V1.00.* INDIVIDUAL BLADE INPUT FILE --------------------------', ' Test Format 1',
             ' ---------------------- BLADE PARAMETERS --------------------------------------', '%d   station_total    - Number of blade input stations (-)' % n,
             ' 1   damp_type        - Damping type: 0: no damping; 1: damped', '  ---------------------- DAMPING COEFFICIENT------------------------------------',
             '   mu1        mu2        mu3        mu4        mu5        mu6', '   (-)        (-)        (-)        (-)        (-)        (-)',
             ' '.join('%.6f' % x for x in m['mu']), ' ---------------------- DISTRIBUTED PROPERTIES---------------------------------']
        for i in range(n):
            s.append('%.6f' % m['span'][i])
            s += [' '.join('%.17e' % x for x in row) for row in m['K'][i]] + [''] + [' '.join('%.17e' % x for x in row) for row in m['M'][i]] + ['']
        return ('\n'.join(s) + '\n').encode()

    def obj(self, m):
        raise NotImplementedError

    def apply(self, o, m):
        o['station_total'] = len(m['span'])
        o['DampingCoeffs'] = np.array([m['mu']])
        o['BeamProperties'] = {'span': m['span'].copy(), 'K': m['K'].copy(), 'M': m['M'].copy()}

    def content(self, o):
        b = o['BeamProperties']
        return dict(n=o['station_total'], span=b['span'], K=b['K'], M=b['M'], mu=o['DampingCoeffs'])

    def expect(self, m):
        return dict(n=(len(m['span']), 0, 0), span=(m['span'], 0, 6e-7), K=(m['K'], 1e-15, 0), M=(m['M'], 1e-15, 0), mu=([m['mu']], 6e-9, 0))


@reg
class FastEdit(FastIn):
    """any FAST input file of the repository's examples, read, some values changed, written: changed keys hold the new values, the others the old ones"""
    name = 'fastedit'
    sizes = (0, 1, 2)
    weight = 5
    FILES = ['FASTIn_AD14.dat', 'FASTIn_AD15.dat', 'FASTIn_AD15_arfl.dat', 'FASTIn_AD15_arf_multitabs.dat', 'FASTIn_AD15_bld.dat', 'FASTIn_AD_F7.dat', 'FASTIn_AD_twr.dat', 'FASTIn_BD.dat',
             'FASTIn_BD_bld.dat', 'FASTIn_Blade.dat', 'FASTIn_ED.dat', 'FASTIn_ED_bld.dat', 'FASTIn_ED_twr.dat', 'FASTIn_HD.dat', 'FASTIn_IF_NoHead.dat', 'FASTIn_MD.dat', 'FASTIn_SD.dat',
             'FASTIn_SbD.dat', 'FASTIn_TurbSim.dat', 'FASTIn_AD15_latin.dat', 'FASTIn_arf_coords.txt', 'FASTIn_SbD_comments.dat', 'FASTIn_AD15_arfl0.dat', 'FASTIn_ED_bld_F7.dat',
             'FASTIn_ED_twr_F7.dat', 'FASTIn_BD_bld_2.dat']
    _base = {}

    def base(self, ex):
        """[(key, value)] of the example file; keys that occur once"""
        if ex not in self._base:
            from . import world
            o = cls('fast_input_file.FASTInputFile')(os.path.join(world.EXAMPLES, ex))
            ks = list(o.keys())
            low = [k.lower() for k in ks]
            self._base[ex] = {k: o[k] for k in ks if low.count(k.lower()) == 1}
        return self._base[ex]

    def template(self, m):
        from . import world
        with world.disk._real_open(os.path.join(world.EXAMPLES, m['ex']), 'rb') as f:
            return f.read()

    def obj(self, m):
        raise NotImplementedError

    def _pick(self, r, ex, n):
        b = self.base(ex)
        out = {}
        ks = sorted(b)
        r.shuffle(ks)
        for k in ks:
            if len(out) >= n:
                break
            v = b[k]
            if isinstance(v, bool):
                out[k] = not v
            elif isinstance(v, float):
                out[k] = float(r.arr(1, kind=r.choice(['unit', 'scaled', 'moderate', 'ints', 'mixed']))[0])
            elif isinstance(v, str) and len(v) > 2 and v[0] == '"' and v[-1] == '"':
                out[k] = '"' + ' '.join(r.names(1 + r.randrange(2))) + '"'
            elif isinstance(v, list) and k.lower().startswith('outlist') and all(isinstance(x, str) for x in v):
                out[k] = v[:1] + ['"%s"' % x for x in r.names(1 + r.randrange(8))]
            elif isinstance(v, list) and len(v) >= 2 and all(type(x) is float for x in v):
                out[k] = [round(x, 6) for x in r.arr(len(v), kind='moderate').tolist()]
            elif isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.ndim == 2 and v.size and not np.isnan(v).any():
                a = v.copy()
                for _ in range(1 + r.randrange(4)):
                    a[r.randrange(a.shape[0]), r.randrange(a.shape[1])] = float(r.arr(1, kind=r.choice(['unit', 'scaled', 'moderate', 'ints']))[0])
                out[k] = a
        return out

    def model(self, r, size):
        ex = r.choice(self.FILES)
        return dict(ex=ex, edits=self._pick(r, ex, 1 + r.randrange(3 + 5 * size)))

    def edit(self, r, m, size):
        return dict(ex=m['ex'], edits={**m['edits'], **self._pick(r, m['ex'], 1 + r.randrange(3 + 5 * size))})

    def apply(self, o, m):
        for k, v in m['edits'].items():
            o[k] = v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v

    def content(self, o):
        return {k: o[k] for k in o.keys()}

    def expect(self, m):
        d = {}
        for k, v in {**self.base(m['ex']), **m['edits']}.items():
            if isinstance(v, (str, bool)):
                d[k] = (v, 0, 0)
            elif isinstance(v, (int, float)):
                d[k] = (v, 1e-15, 0)
            elif isinstance(v, np.ndarray) and v.dtype.kind in 'fi':
                d[k] = (v, 6e-9, 0)
            elif isinstance(v, list):
                d[k] = (v, 1e-15, 0)
        return d


NAMES = sorted(F)
WEIGHTED = [n for n in NAMES for _ in range(F[n].weight)]


def make(name, gseed, size):
    """(format, model) of a seed"""
    f = F[name]
    size = min(size, max(f.sizes))
    return f, f.model(R('%s/%s/%s' % (name, gseed, size)), size)


def build(W, f, m, stem='tmpl'):
    """a new object holding m (through the API, or by reading a harness-made file where there is no constructor)"""
    if hasattr(f, 'template'):
        W.put('tmpl/t.dat', f.template(m))
        o = f.read(os.path.join(W.root, 'tmpl/t.dat'))
        f.apply(o, m)
        return o
    return f.obj(m)
