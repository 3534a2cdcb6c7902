"""Controlled threads: every interleaving (up to a preemption bound) of real threads running real code.

Threads run one at a time and hand control back at every source line of the traced files and at every operation of
the model synchronization primitives; which thread goes next is a harness choice, so the explorer enumerates the
schedules like any other branch.  Time is a model clock that only moves when every thread is blocked.
"""
import sys
import threading as _t
import time as _time

try:
    from .engine import Control as _Base
except Exception:                      # plain replay without the solver stack
    _Base = BaseException


class Killed(_Base):
    pass


class Deadlock(Exception):
    pass


class _Thread:
    def __init__(self, world, name, fn):
        self.world = world
        self.name = name
        self.fn = fn
        self.sem = _t.Semaphore(0)
        self.wait = None            # None = runnable, else (predicate, deadline)
        self.done = False
        self.exc = None
        self.th = _t.Thread(target=self._run, daemon=True)

    def _run(self):
        self.sem.acquire()
        try:
            if not self.world.dead:
                sys.settrace(self.world._trace)
                try:
                    self.fn()
                finally:
                    sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:
            self.exc = e
        self.done = True
        self.world.main.release()


class World:
    def __init__(self, ctx, files=(), preemptions=2, clock=0):
        self.ctx = ctx
        self.files = tuple(files)
        self.preemptions = preemptions
        self.clock = clock
        self.threads = []
        self.cur = None
        self.main = _t.Semaphore(0)
        self.dead = False
        self.steps = 0

    # ---- code running inside the threads
    def _trace(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.endswith(self.files):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self._local

    def point(self):
        """a place where another thread may be scheduled"""
        t = self.cur
        if t is None or t.th is not _t.current_thread():
            return
        if self.dead:
            sys.settrace(None)
            raise Killed()
        self.main.release()
        t.sem.acquire()
        if self.dead:
            sys.settrace(None)
            raise Killed()

    def block(self, pred, deadline=None):
        t = self.cur
        if t is None or t.th is not _t.current_thread():
            raise RuntimeError('blocking operation outside the controlled threads')
        t.wait = (pred, deadline)
        self.point()
        t.wait = None

    # ---- the scheduler
    def spawn(self, name, fn):
        self.threads.append(_Thread(self, name, fn))

    def spawn_now(self, name, fn):
        """spawn from inside a controlled thread"""
        t = _Thread(self, name, fn)
        self.threads.append(t)
        t.th.start()

    def fresh(self):
        """switch this world to a new set of threads (the model objects stay bound to it)"""
        self.threads = []
        self.cur = None
        self.dead = False
        self.preemptions = 0
        self.steps = 0
        return self

    def _ready(self, t):
        if t.done:
            return False
        if t.wait is None:
            return True
        pred, deadline = t.wait
        if pred():
            return True
        return deadline is not None and bool(deadline <= self.clock)

    def run(self, limit=4000):
        ctx = self.ctx
        left = self.preemptions
        for t in self.threads:
            t.th.start()
        cur = None
        try:
            while True:
                self.steps += 1
                if self.steps > limit:
                    ctx.fail('no progress: a thread runs forever')
                    return
                live = [t for t in self.threads if not t.done]
                if not live:
                    return
                ready = [t for t in live if self._ready(t)]
                if not ready:
                    best = None
                    for t in live:
                        d = t.wait[1]
                        if d is not None and (best is None or bool(d < best)):
                            best = d
                    if best is None:
                        raise Deadlock()
                    self.clock = best
                    cur = None
                    continue
                if cur is not None and cur in ready:
                    if left > 0 and len(ready) > 1:
                        order = [cur] + [t for t in ready if t is not cur]
                        nxt = ctx.choice('sched', order)
                        if nxt is not cur:
                            left -= 1
                    else:
                        nxt = cur
                elif len(ready) > 1:
                    nxt = ctx.choice('sched', ready)
                else:
                    nxt = ready[0]
                cur = nxt
                self.cur = cur
                cur.sem.release()
                self.main.acquire()
                self.cur = None
                if cur.exc is not None:
                    raise cur.exc
        finally:
            self.dead = True
            for t in self.threads:
                if not t.done:
                    t.sem.release()
            for t in self.threads:
                t.th.join(5)

    # ---- model modules
    def threading_module(self):
        return ThreadingModel(self)

    def time_module(self):
        return TimeModel(self)


class ThreadingModel:
    TIMEOUT_MAX = _t.TIMEOUT_MAX

    def __init__(self, w):
        class Lock:
            owner = None

            def acquire(self, blocking=True, timeout=-1):
                w.point()
                if self.owner is not None:
                    if not blocking:
                        return False
                    dl = None if timeout is None or timeout == -1 else w.clock + timeout
                    w.block(lambda: self.owner is None, dl)
                    if self.owner is not None:
                        return False
                self.owner = w.cur
                return True

            def release(self):
                if self.owner is None:
                    raise RuntimeError('release unlocked lock')
                self.owner = None
                w.point()

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.release()

        class RLock(Lock):
            count = 0

            def acquire(self, blocking=True, timeout=-1):
                if self.owner is not None and self.owner is w.cur:
                    self.count += 1
                    return True
                if not Lock.acquire(self, blocking, timeout):
                    return False
                self.count = 1
                return True

            def release(self):
                if self.owner is not w.cur:
                    raise RuntimeError('cannot release un-acquired lock')
                self.count -= 1
                if not self.count:
                    Lock.release(self)

        class Event:
            def __init__(self):
                self.flag = False
                self.waiters = []

            def is_set(self):
                w.point()
                return self.flag
            isSet = is_set

            def set(self):
                w.point()
                self.flag = True
                for x in self.waiters:
                    x[0] = True
                self.waiters = []

            def clear(self):
                w.point()
                self.flag = False

            def wait(self, timeout=None):
                w.point()
                if self.flag:
                    return True
                x = [False]
                self.waiters.append(x)
                w.block(lambda: x[0], None if timeout is None else w.clock + timeout)
                if x in self.waiters:
                    self.waiters.remove(x)
                return x[0]

        class Condition:
            def __init__(self, lock=None):
                self.lock = lock if lock is not None else RLock()
                self.waiters = []
                self.acquire = self.lock.acquire
                self.release = self.lock.release

            def __enter__(self):
                return self.lock.__enter__()

            def __exit__(self, *a):
                return self.lock.__exit__(*a)

            def wait(self, timeout=None):
                if self.lock.owner is not w.cur:
                    raise RuntimeError('cannot wait on un-acquired lock')
                x = [False]
                self.waiters.append(x)
                self.lock.owner = None
                w.block(lambda: x[0], None if timeout is None else w.clock + timeout)
                got = x[0]
                if x in self.waiters:
                    self.waiters.remove(x)
                if self.lock.owner is not None:
                    w.block(lambda: self.lock.owner is None)
                self.lock.owner = w.cur
                return got

            def wait_for(self, predicate, timeout=None):
                end = None if timeout is None else w.clock + timeout
                r = predicate()
                while not r:
                    if end is not None and end <= w.clock:
                        break
                    self.wait(None if end is None else end - w.clock)
                    r = predicate()
                return r

            def notify(self, n=1):
                if self.lock.owner is not w.cur:
                    raise RuntimeError('cannot notify on un-acquired lock')
                for x in self.waiters[:n]:
                    x[0] = True
                del self.waiters[:n]

            def notify_all(self):
                self.notify(len(self.waiters))

        class Semaphore:
            def __init__(self, value=1):
                self.value = value

            def acquire(self, blocking=True, timeout=None):
                w.point()
                if self.value <= 0:
                    if not blocking:
                        return False
                    w.block(lambda: self.value > 0, None if timeout is None else w.clock + timeout)
                    if self.value <= 0:
                        return False
                self.value -= 1
                return True

            def release(self, n=1):
                self.value += n
                w.point()

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()

        self.Lock = Lock
        self.RLock = RLock
        self.Event = Event
        self.Condition = Condition
        self.Semaphore = self.BoundedSemaphore = Semaphore
        self.w = w

    def current_thread(self):
        return self.w.cur

    def get_ident(self):
        return id(self.w.cur)


class TimeModel:
    def __init__(self, w):
        self.w = w

    def monotonic(self):
        return self.w.clock
    time = perf_counter = monotonic

    def sleep(self, interval):
        w = self.w
        if interval <= 0:
            w.point()
            return
        w.block(lambda: False, w.clock + interval)


class patched_module:
    """Replace what a module imported from threading/time by the model, and undo it."""
    def __init__(self, world, *modules):
        self.world = world
        self.modules = modules

    def __enter__(self):
        th, tm = self.world.threading_module(), self.world.time_module()
        self.saved = []
        for m in self.modules:
            for k, v in list(vars(m).items()):
                new = None
                if v is _t:
                    new = th
                elif v is _time:
                    new = tm
                else:
                    for real, model, names in ((_t, th, ('Lock', 'RLock', 'Event', 'Condition', 'Semaphore', 'BoundedSemaphore', 'current_thread', 'get_ident')),
                                               (_time, tm, ('monotonic', 'time', 'perf_counter', 'sleep'))):
                        for n in names:
                            if v is getattr(real, n):
                                new = getattr(model, n)
                if new is not None:
                    self.saved.append((m, k, v))
                    setattr(m, k, new)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
