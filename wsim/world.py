"""The simulated world of one run: a private scratch directory, the simulated disk, a frozen clock, and helpers that
drive weio through its public API. One scenario (a JSON value) is one exactly repeatable execution."""
import contextlib, gc, io, os, random, shutil, sys, time, types, warnings

REPO = os.environ.get('WSIM_REPO', '/repo')
EXAMPLES = os.path.join(REPO, 'weio', 'tests', 'example_files')

real_open = None
HOME0 = os.environ.get('HOME', '/root')
weio = None
disk = None
canon = None


class Sink(io.TextIOBase):
    """stdout of the code under test"""
    encoding = 'utf-8'
    def writable(self): return True
    def write(self, s): return len(s)
    def flush(self): pass


def warm():
    """Import everything (no file is read through weio here), with the seams in place. Called once, before forking."""
    global real_open, weio, disk, canon
    if weio is not None:
        return
    warnings.simplefilter('ignore')
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'ARROW_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    os.environ['MPLBACKEND'] = 'Agg'
    real_open = io.open
    import numpy, pandas, scipy.io, scipy.interpolate, xarray, openpyxl, chardet, glob, importlib.machinery, inspect  # noqa
    import openpyxl.cell._writer, openpyxl.worksheet._reader, openpyxl.worksheet._read_only, zipfile, tempfile  # noqa
    import pandas.io.excel._openpyxl, pandas.io.parquet, pyarrow, pyarrow.parquet, pyarrow.dataset  # noqa
    try:
        import nptdms  # noqa
    except Exception:
        pass
    import encodings.utf_8, encodings.latin_1, encodings.ascii, encodings.utf_8_sig, encodings.cp1252  # noqa
    from . import disk as _disk, canon as _canon, sched as _sched
    disk, canon = _disk, _canon
    _sched.patch_locks()
    disk.patch()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib
    weio_ = importlib.import_module('weio')
    assert os.path.realpath(weio_.__file__).startswith(os.path.realpath(REPO)), weio_.__file__
    for d, pk in (('', 'weio'), ('wetb/hawc2', 'weio.wetb.hawc2'), ('tools', 'weio.tools')):
        p = os.path.join(REPO, 'weio', d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith('.py') and f not in ('__init__.py', '_NEWFILE_TEMPLATE.py', 'user.py'):
                try:
                    importlib.import_module(pk + '.' + f[:-3])
                except ImportError:
                    pass
    weio = weio_
    _freeze_clock()


# ------------------------------------------------------------------ clock
CLOCK = {'t': 1600000000.0}


def _freeze_clock():
    """the simulated clock: time.* and datetime.now as weio modules see them"""
    class SimTime(types.ModuleType):
        def __getattr__(self, k): return getattr(time, k)
    st = SimTime('time')
    st.time = lambda: CLOCK['t']
    st.localtime = lambda s=None: time.gmtime(CLOCK['t'] if s is None else s)
    st.gmtime = lambda s=None: time.gmtime(CLOCK['t'] if s is None else s)
    st.strftime = lambda f, t=None: time.strftime(f, time.gmtime(CLOCK['t']) if t is None else t)
    st.sleep = lambda s: CLOCK.__setitem__('t', CLOCK['t'] + s)
    st.perf_counter = st.monotonic = st.process_time = lambda: CLOCK['t']
    import datetime as _dt

    class SimDatetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None): return _dt.datetime.fromtimestamp(CLOCK['t'], _dt.timezone.utc).replace(tzinfo=tz)
        today = utcnow = now
    sdt = types.ModuleType('datetime')
    sdt.__dict__.update(vars(_dt))
    sdt.datetime = SimDatetime
    class Meta(type):
        def __instancecheck__(cls, x): return isinstance(x, _dt.datetime)
    odt = types.ModuleType('datetime')
    odt.__dict__.update(vars(_dt))

    class OpxDatetime(_dt.datetime, metaclass=Meta):
        @classmethod
        def now(cls, tz=None): return _dt.datetime.fromtimestamp(CLOCK['t'], _dt.timezone.utc).replace(tzinfo=tz)
        today = utcnow = now
    odt.datetime = OpxDatetime
    import zipfile, openpyxl.packaging.core, openpyxl.writer.excel
    zipfile.time = st
    _ff = zipfile.ZipInfo.from_file.__func__

    def from_file(cls, *a, **k):
        zi = _ff(cls, *a, **k)
        zi.date_time = time.gmtime(CLOCK['t'])[:6]
        return zi
    zipfile.ZipInfo.from_file = classmethod(from_file)
    for m in (openpyxl.packaging.core, openpyxl.writer.excel):
        if getattr(m, 'datetime', None) is _dt:
            m.datetime = odt
        elif getattr(m, 'datetime', None) is _dt.datetime:
            m.datetime = OpxDatetime
    for n, m in list(sys.modules.items()):
        if n == 'weio' or n.startswith('weio.'):
            for k, v in list(vars(m).items()):
                if v is time:
                    setattr(m, k, st)
                elif v is _dt:
                    setattr(m, k, sdt)
                elif v is _dt.datetime:
                    setattr(m, k, SimDatetime)


# ------------------------------------------------------------------ one run
class World:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        os.makedirs(os.path.join(self.root, 'home'), exist_ok=True)
        os.environ['HOME'] = os.path.join(self.root, 'home')
        os.chdir(self.root)
        self.d = disk.Disk(self.root)
        self.d.maxevents = 400000
        disk.install(self.d)
        self.trace = []

    # -- harness-side file access (never an event of the run)
    def put(self, rel, data):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with disk._real_open(p, 'wb') as f:
            f.write(data)
        return rel

    def get(self, rel):
        try:
            with disk._real_open(os.path.join(self.root, rel), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def tree(self, sub='.'):
        """{relpath: bytes} of everything below the root"""
        out = {}
        for dp, dn, fn in os.walk(os.path.join(self.root, sub)):
            for f in fn:
                p = os.path.join(dp, f)
                with disk._real_open(p, 'rb') as h:
                    out[os.path.relpath(p, self.root)] = h.read()
            for x in dn:
                out[os.path.relpath(os.path.join(dp, x), self.root) + '/'] = b''
        return out

    # -- running code under test
    def call(self, fn, faults=None, frag=None, bufsize=None, textchunk=None, quota=None, keep=False):
        """-> ('ok', value) | ('exc', exception) | ('crash', None); disk counters are those of this call"""
        d = self.d
        d.reset(faults)
        d.frag, d.bufsize, d.textchunk, d.quota = frag, bufsize, textchunk, quota
        old = sys.stdout
        sys.stdout = Sink()
        try:
            try:
                return ('ok', fn())
            except disk.SimCrash:
                return ('crash', None)
            except (Exception, KeyboardInterrupt) as e:
                if d.dead:
                    return ('crash', None)
                e.__traceback__ = None if not keep else e.__traceback__
                e.__context__ = None
                e.__cause__ = None
                return ('exc', e)
        finally:
            sys.stdout = old
            self.trace.append((len(d.log), tuple(d.fired)))
            d.frag = d.bufsize = d.textchunk = d.quota = None
            d.faults, d.armed = [], []

    def quiet(self, fn):
        """call under no faults, outside accounting"""
        d = self.d
        saved = (d.faults, d.armed, d.n, d.log, d.fired, d.frag, d.bufsize, d.textchunk, d.quota, d.dead)
        d.faults, d.armed, d.n, d.log, d.fired = [], [], {}, [], []
        d.frag = d.bufsize = d.textchunk = d.quota = None
        d.dead = False
        old = sys.stdout
        sys.stdout = Sink()
        try:
            return fn()
        finally:
            sys.stdout = old
            (d.faults, d.armed, d.n, d.log, d.fired, d.frag, d.bufsize, d.textchunk, d.quota, d.dead) = saved

    def snap(self, o, df=True):
        return self.quiet(lambda: canon.snap(o, df))


def getclass(name):
    """class by 'module.Class' or name from the registry"""
    mod, _, cls = name.rpartition('.')
    import importlib
    return getattr(importlib.import_module('weio.' + mod), cls)
