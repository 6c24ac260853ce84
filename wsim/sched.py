"""Deterministic thread scheduler: real threads, one token. A thread runs only while it holds the token; at every
scheduling point (a disk event, or a line of weio code about to execute) the seeded scheduler decides who runs next.
One seed is one interleaving."""
import sys, threading

_RealLock = threading.Lock
_RealRLock = threading.RLock
_real_event = threading.Event
ACTIVE = None


class Stuck(BaseException):
    pass


class SimLock:
    """threading.Lock/RLock: under the scheduler a thread that would block gives the token away instead"""
    def __init__(self, real=None):
        self._l = (real or _RealLock)()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or not s.managed():
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        n = 0
        while not self._l.acquire(False):
            n += 1
            if (timeout is not None and timeout >= 0 and n > 200):
                return False
            if n > 20000:
                raise Stuck('deadlock')
            s.point('block', force=True)
        return True

    def release(self): self._l.release()
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def locked(self):
        return self._l.locked() if hasattr(self._l, 'locked') else False
    def _is_owned(self):
        if hasattr(self._l, '_is_owned'):
            return self._l._is_owned()
        if self._l.acquire(False):
            self._l.release()
            return False
        return True
    def __getattr__(self, k): return getattr(self._l, k)


def SimRLock():
    return SimLock(_RealRLock)


def patch_locks():
    """before weio is imported: locks weio creates are cooperative"""
    class _T:
        pass
    threading.Lock = SimLock
    threading.RLock = SimRLock


def place(frame):
    return '%s:%d' % (frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_lineno)


def places(prefix, fn):
    """run fn in this thread -> (result, how often each line of the traced code was reached)"""
    seen = {}

    def local(frame, event, arg):
        if event == 'line':
            k = place(frame)
            seen[k] = seen.get(k, 0) + 1
        return local
    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(prefix) else None)
    try:
        res = fn()
    finally:
        sys.settrace(None)
    return res, seen


class Scheduler:
    def __init__(self, rng, prefix, p_line=0.0, p_io=0.5, budget=400, choices=None, trace=None, targets=None):
        """choices: explicit list of [step, thread] preemptions (replay/minimised); otherwise seeded random ones;
        targets: set of (thread, place, n), switch when the thread comes to the place for the n-th time"""
        self.targets, self.visits = targets, {}
        self.rng = rng
        self.prefix = prefix            # path prefix of traced code
        self.p_line, self.p_io = p_line, p_io
        self.budget = budget            # preemptions left
        self.plan = None if choices is None else {int(a): int(b) for a, b in choices}
        self.trace = trace if trace is not None else (p_line > 0 or choices is not None)
        self.made = []                  # preemptions made: [step, thread]
        self.step = 0
        self.cv = threading.Condition(_RealLock())
        self.turn = None
        self.threads = {}               # ident -> index
        self.alive = set()
        self.stuck = False
        self.kinds = {}
        self.maxsteps = 3000000

    def managed(self):
        return threading.get_ident() in self.threads

    def point(self, kind, force=False, loc=None):
        me = self.threads.get(threading.get_ident())
        if me is None:
            return
        self.step += 1
        if self.step > self.maxsteps:
            raise Stuck('step budget')
        others = sorted(self.alive - {me})
        if not others:
            return
        if self.plan is not None:
            nxt = self.plan.get(self.step)
            if nxt is None and force:
                nxt = others[0]
            if nxt is None or nxt == me or nxt not in self.alive:
                return
        elif self.targets is not None and not force:
            k = (me, loc)
            self.visits[k] = v = self.visits.get(k, 0) + 1
            if (me, loc, v) not in self.targets:
                return
            nxt = others[self.rng.randrange(len(others))]
        else:
            p = self.p_io if kind == 'io' else self.p_line
            if not force and (self.budget <= 0 or self.rng.random() >= p):
                return
            nxt = others[self.rng.randrange(len(others))]
            self.budget -= 1
        self.made.append([self.step, nxt])
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self._switch(me, nxt)

    def _switch(self, me, nxt):
        with self.cv:
            self.turn = nxt
            self.cv.notify_all()
            while self.turn != me:
                if not self.cv.wait(30):
                    self.stuck = True
                    raise Stuck('token not returned')

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.point('line', loc=place(frame))
        return self._local

    def run(self, fns):
        """run the functions as threads; -> list of ('ok', v) | ('exc', e)"""
        global ACTIVE
        n = len(fns)
        res = [None] * n
        ACTIVE = self

        def body(i):
            with self.cv:
                self.threads[threading.get_ident()] = i
                self.cv.notify_all()
                while self.turn != i:
                    if not self.cv.wait(60):
                        self.stuck = True
                        return
            try:
                if self.trace:
                    sys.settrace(self._trace)
                res[i] = ('ok', fns[i]())
            except BaseException as e:
                res[i] = ('exc', e)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.threads.pop(threading.get_ident(), None)     # the number may be given to another thread
                    self.alive.discard(i)
                    if self.alive:
                        al = sorted(self.alive)
                        if self.plan is not None:
                            nx = self.plan.get(-i - 1, al[0])
                            nx = nx if nx in self.alive else al[0]
                        else:
                            nx = al[self.rng.randrange(len(al))]
                            self.made.append([-i - 1, nx])
                        self.turn = nx
                    else:
                        self.turn = -1
                    self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        self.alive = set(range(n))
        for t in ts:
            t.start()
        with self.cv:
            while len(self.threads) < n:
                self.cv.wait(5)
            self.turn = 0
            self.cv.notify_all()
        for t in ts:
            t.join(120)
            if t.is_alive():
                self.stuck = True
        ACTIVE = None
        return res
