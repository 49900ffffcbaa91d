"""Controlled scheduler: real code under every thread schedule up to a number of preemptions.

`install()` (before pm4py is imported) replaces the primitives of `threading`, `concurrent.futures` and `time` by
versions which, inside a controlled run, hand every decision about who runs next to the explorer; outside of a
run they are the ordinary ones.  A controlled run executes the body and every thread it starts in real threads of
which exactly one holds the baton; at each synchronisation operation (and, on request, at each line or bytecode
of chosen source files) the explorer may pass the baton to another thread that can go on.

`explore(body, bound, ...)` enumerates, depth-first, all schedules with at most `bound` preemptions (a switch away
from a thread that could go on) and at most `bound + free` switches to another than the first of the threads that can
go on.  Scheduling points lie before the acquiring operations (what follows a releasing one commutes with the other
threads until then, or is an access without protection, for which there are line and bytecode points).  Runs in which no thread can go on are
deadlocks.  Time is virtual: it advances only by sleeping and by expiring timeouts when nobody can go on.
"""
import sys, threading, _thread, time, collections, concurrent.futures as cf

ident = _thread.get_ident
_run = None                      # the active Run, if any
real = {"Lock": threading.Lock, "RLock": threading.RLock, "Condition": threading.Condition,
        "Semaphore": threading.Semaphore, "BoundedSemaphore": threading.BoundedSemaphore, "Event": threading.Event,
        "Thread": threading.Thread, "ThreadPoolExecutor": cf.ThreadPoolExecutor, "sleep": time.sleep,
        "time": time.time, "monotonic": time.monotonic}


class Abort(BaseException):
    """the run is over (deadlock or step limit); threads unwind"""


class T:
    __slots__ = ("id", "name", "go", "pred", "deadline", "done", "timed", "error")

    def __init__(self, i, name):
        self.id, self.name = i, name
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.pred = self.deadline = None
        self.done = self.timed = False
        self.error = None


def me():
    """the controlled thread that is running, or None"""
    r = _run
    return r.by_ident.get(ident()) if r is not None else None


class Run:
    def __init__(self, choices, files=(), opcodes=False, limit=20000, yields=True, maxpicks=10):
        self.choices, self.files, self.opcodes, self.limit, self.yields, self.maxpicks = choices, tuple(files), opcodes, limit, yields, maxpicks
        self.threads, self.by_ident = [], {}
        self.trace = []                  # decisions: (thread ids offered, index taken, first one is the running thread)
        self.steps = 0
        self.clock = 1000.0
        self.abort = None
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.picks = 0

    # -- scheduling ---------------------------------------------------------------------------------------------
    def point(self, pred=None, timeout=None):
        """scheduling point; returns False when the timeout expired before pred held"""
        t = self.by_ident[ident()]
        if self.abort:
            raise Abort()
        t.pred, t.timed = pred, False
        t.deadline = None if timeout is None else self.clock + timeout
        self.dispatch(t)
        t.pred = t.deadline = None
        return not t.timed

    def pick(self, n):
        """a random choice of the program: all alternatives are explored, whatever the bound on deviations"""
        if self.abort:
            raise Abort()
        if n <= 1:
            return 0
        self.picks += 1
        if self.picks > self.maxpicks:
            self.stop("cut", self.by_ident[ident()])
        k = len(self.trace)
        c = self.choices[k] if k < len(self.choices) else 0
        c = min(c, n - 1)
        self.trace.append((list(range(n)), c, None))
        return c

    def unit(self):
        return (self.pick(2) + 0.5) / 2

    cont = 1

    def enabled(self):
        for t in self.threads:
            if t.deadline is not None and t.deadline <= self.clock:
                t.timed = True
        return [t for t in self.threads if not t.done and (t.timed or t.pred is None or t.pred())]

    def dispatch(self, t):
        self.steps += 1
        if self.steps > self.limit:
            self.stop("no end after %d steps" % self.limit, t)
        en = self.enabled()
        while not en:
            alive = [x for x in self.threads if not x.done]
            if not alive:
                self.over.release()
                return
            timers = [x for x in alive if x.deadline is not None]
            if not timers:
                self.stop("deadlock: " + ", ".join(x.name for x in alive) + " cannot go on", t)
                return
            self.clock = max(self.clock, min(x.deadline for x in timers))
            for x in timers:
                if x.deadline <= self.clock:
                    x.timed = True
            en = self.enabled()
        own = t in en
        if own:
            en.remove(t)
            en.insert(0, t)
        nxt = en[0]
        if len(en) > 1:
            n = len(self.trace)
            c = self.choices[n] if n < len(self.choices) else 0
            if c >= len(en):                 # the program is not deterministic; any choice is a real schedule
                c = 0
            self.trace.append(([x.id for x in en], c, own))
            nxt = en[c]
        if nxt.timed and nxt.pred is not None and nxt.pred():
            nxt.timed = False
        if nxt is t:
            return
        nxt.go.release()
        if not t.done:
            t.go.acquire()
            if self.abort:
                raise Abort()

    def stop(self, why, t):
        first = self.abort is None
        self.abort = self.abort or why
        if first:
            for x in self.threads:
                if not x.done and x is not t:
                    x.go.release()
        if not t.done:
            raise Abort()

    # -- threads ------------------------------------------------------------------------------------------------
    def spawn(self, fn, name):
        t = T(len(self.threads), name)
        self.threads.append(t)

        def boot():
            t.go.acquire()
            self.by_ident[ident()] = t
            try:
                if not self.abort:
                    if self.files:
                        sys.settrace(self.tracer)
                    fn()
            except Abort:
                pass
            except BaseException as ex:
                t.error = ex
            finally:
                sys.settrace(None)
                t.done = True
                if self.abort:
                    if all(x.done for x in self.threads):
                        try:
                            self.over.release()
                        except RuntimeError:
                            pass
                else:
                    try:
                        self.dispatch(t)
                    except Abort:
                        pass
                    if self.abort and all(x.done for x in self.threads):
                        try:
                            self.over.release()
                        except RuntimeError:
                            pass
        _thread.start_new_thread(boot, ())
        return t

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.files):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "opcode" or (event == "line" and not self.opcodes):
            self.point()
        return self.local


# -- primitives ---------------------------------------------------------------------------------------------------
class CLock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        r = _run
        if not blocking:
            r.point()
            if self.owner is not None:
                return False
        elif not r.point(lambda: self.owner is None, timeout if timeout is not None and timeout >= 0 else None):
            return False
        self.owner = ident()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # protocol used by conditions
    def _is_owned(self):
        return self.owner == ident()

    def _drop(self):
        self.owner = None
        return 1

    def _retake(self, n):
        self.owner = ident()

    def _free(self):
        return self.owner is None


class CRLock(CLock):
    def __init__(self):
        CLock.__init__(self)
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner == ident():
            self.count += 1
            return True
        if CLock.acquire(self, blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self):
        if self.owner != ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            CLock.release(self)

    __enter__ = acquire

    def _drop(self):
        n, self.count, self.owner = self.count, 0, None
        return n

    def _retake(self, n):
        self.owner, self.count = ident(), n


class CCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else CRLock()
        self._waiters = collections.deque()
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        lk = self._lock
        if not lk._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        w = [False]
        self._waiters.append(w)
        n = lk._drop()
        _run.point(lambda: w[0] and lk._free(), timeout)
        if not w[0]:
            try:
                self._waiters.remove(w)
            except ValueError:
                pass
        if not lk._free():
            _run.point(lk._free)
        lk._retake(n)
        return w[0]

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        if not self._lock._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        while n and self._waiters:
            self._waiters.popleft()[0] = True
            n -= 1

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class CSemaphore:
    """waiters are woken in order of arrival; a thread that comes by in the meantime may go first"""
    bounded = False

    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._value = self._initial_value = value
        self._waiters = collections.deque()

    def acquire(self, blocking=True, timeout=None):
        r = _run
        r.point()
        if not blocking and self._value == 0:
            return False
        end = None if timeout is None else r.clock + timeout
        while self._value == 0:
            if end is not None and end <= r.clock:
                return False
            w = [False]
            self._waiters.append(w)
            if not r.point(lambda: w[0], None if end is None else end - r.clock):
                if w in self._waiters:
                    self._waiters = collections.deque(x for x in self._waiters if x is not w)
        self._value -= 1
        return True

    def release(self, n=1):
        if self.bounded and self._value + n > self._initial_value:
            raise ValueError("Semaphore released too many times")
        self._value += n
        while n and self._waiters:
            self._waiters.popleft()[0] = True
            n -= 1

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CBounded(CSemaphore):
    bounded = True


class CEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        _run.point(lambda: self._flag, timeout)
        return self._flag


class CThread(threading.Thread):
    _mc = None

    def start(self):
        if me() is None:
            return real["Thread"].start(self)
        if self._mc is not None:
            raise RuntimeError("threads can only be started once")
        self._mc = _run.spawn(self.run, self.name)
        self._mc_run = _run

    def join(self, timeout=None):
        if self._mc is None:
            return real["Thread"].join(self, timeout)
        t = self._mc
        self._mc_run.point(lambda: t.done, timeout)

    def is_alive(self):
        return not self._mc.done if self._mc is not None else real["Thread"].is_alive(self)


class CExecutor(cf.Executor):
    """first-in first-out task queue, workers started on demand, as concurrent.futures.ThreadPoolExecutor"""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._n, self._q, self._ws, self._idle, self._down = max_workers or 8, collections.deque(), [], 0, False

    def submit(self, fn, /, *a, **k):
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = cf.Future()
        self._q.append((f, fn, a, k))
        if self._idle < len(self._q) and len(self._ws) < self._n:
            self._ws.append(_run.spawn(self._work, "worker-%d" % len(self._ws)))
        return f

    def _work(self):
        while True:
            if not self._q:
                self._idle += 1
                _run.point(lambda: self._q or self._down)
                self._idle -= 1
                if not self._q:
                    if self._down:
                        return
                    continue
            f, fn, a, k = self._q.popleft()
            if not f.set_running_or_notify_cancel():
                continue
            try:
                r = fn(*a, **k)
            except Abort:
                raise
            except BaseException as ex:
                f.set_exception(ex)
            else:
                f.set_result(r)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._down = True
        if cancel_futures:
            while self._q:
                self._q.popleft()[0].cancel()
        if wait:
            ws = self._ws
            _run.point(lambda: all(w.done for w in ws))


def _pick(name, ctl):
    r = real[name]

    def make(*a, **k):
        return ctl(*a, **k) if me() is not None else r(*a, **k)
    make.__name__ = name
    return make


def _sleep(s):
    if me() is None:
        return real["sleep"](s)
    r = _run
    if r.yields:                       # time passes without forcing an order between the threads
        r.clock += max(0, s)
        r.point()
    else:
        end = r.clock + s
        r.point(lambda: False, max(0, s))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name, ctl in (("Lock", CLock), ("RLock", CRLock), ("Condition", CCondition), ("Semaphore", CSemaphore),
                      ("BoundedSemaphore", CBounded), ("Event", CEvent)):
        setattr(threading, name, _pick(name, ctl))
    threading.Thread = CThread
    ex = real["ThreadPoolExecutor"]

    class Pool(ex):
        def __new__(cls, *a, **k):
            if me() is not None:
                return CExecutor(*a, **k)
            return object.__new__(cls)
    Pool.__name__ = "ThreadPoolExecutor"
    cf.ThreadPoolExecutor = Pool
    import concurrent.futures.thread as cft
    cft.ThreadPoolExecutor = Pool
    time.sleep = _sleep
    time.time = lambda: _run.clock if me() is not None else real["time"]()
    time.monotonic = lambda: _run.clock if me() is not None else real["monotonic"]()


class Result:
    __slots__ = ("value", "stuck", "errors", "schedule", "steps")


def run(body, choices=(), **kw):
    """one controlled run; the body gets no arguments and runs as thread 0"""
    global _run
    from mc import choices as ch
    r = _run = Run(list(choices), **kw)
    ch._cur = r
    res = Result()
    res.value = None

    def main():
        res.value = body()
    t = r.spawn(main, "main")
    t.go.release()
    try:
        if not r.over.acquire(timeout=60):
            r.abort = r.abort or "a thread blocks outside the controlled primitives"
    finally:
        r.abort = r.abort or (None if all(x.done for x in r.threads) else "interrupted")
        _run = ch._cur = None
    res.stuck, res.steps = r.abort, r.steps
    res.errors = [(x.name, x.error) for x in r.threads if x.error is not None]
    res.schedule = r.trace
    return res


def explore(body, bound, free=2, limit=None, **kw):
    """yields a Result for every schedule with at most `bound` preemptions and `bound + free` deviations in all"""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        r = run(body, prefix, **kw)
        n += 1
        yield r
        if limit is not None and n >= limit:
            return
        tr = r.schedule
        cost = sum(1 for ids, c, own in tr[:len(prefix)] if own and c)
        devs = sum(1 for ids, c, own in tr[:len(prefix)] if c and own is not None)
        base = [x[1] for x in tr]
        for i in range(len(prefix), len(tr)):
            ids, c, own = tr[i]                  # decisions beyond the prefix all took the first option
            if own is None or devs < bound + free and (not own or cost < bound):
                for alt in range(1, len(ids)):
                    stack.append(base[:i] + [alt])
