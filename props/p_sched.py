from sx.registry import harness


LIMIT = 2 ** 18
UNIT = 2 ** 31


def moment(ctx, name, lo=None, half=False):
    """an arbitrary integer, or an arbitrary multiple of 1/UNIT below LIMIT (exact as a float, and so are its sums)"""
    if half:
        n = ctx.int(name, -LIMIT * UNIT if lo is None else lo * UNIT, LIMIT * UNIT)
        if not ctx.symbolic:
            return n / UNIT
        from sx.symval import SymFloat
        return SymFloat(n, UNIT)
    return ctx.int(name, lo)


def make_regulator(ctx, half=False):
    from big.scheduler import Regulator

    class R(Regulator):
        """model time: now() never goes back; sleep may return early"""
        def __init__(self):
            self.t = moment(ctx, 't0', 0, half)
            self.sleeps = 0
            self.locked = 0
            self.early = 0
            outer = self

            class Lock:
                def __enter__(self):
                    ctx.check(outer.locked == 0, 'the regulator lock is never entered recursively')
                    outer.locked += 1

                def __exit__(self, *a):
                    outer.locked -= 1

            self.lock = Lock()
            self.on_sleep = None

        def now(self):
            ctx.check(self.locked == 1, 'now is called with the lock held')
            return self.t

        def wake(self):
            ctx.check(self.locked == 1, 'wake is called with the lock held')

        def sleep(self, interval):
            ctx.check(self.locked == 0, 'sleep is called without the lock')
            ctx.check(interval >= 0, 'sleep intervals are not negative')
            self.sleeps += 1
            if self.on_sleep is not None:
                f, self.on_sleep = self.on_sleep, None
                self.t = self.t + moment(ctx, 'd', 0, half)
                f()
                return
            if self.early < 1 and ctx.bool('early'):
                self.early += 1
                d = moment(ctx, 'd', 0, half)
                ctx.assume(d < interval)
                self.t = self.t + d
            else:
                self.t = self.t + interval
    return R()


class Ev:
    def __init__(self, tag, time, priority, seq, handle):
        self.tag = tag
        self.time = time
        self.priority = priority
        self.seq = seq
        self.handle = handle


def before(a, b):
    if a.time != b.time:
        return a.time < b.time
    if a.priority != b.priority:
        return a.priority < b.priority
    return a.seq < b.seq


def first_of(evs):
    best = None
    for e in evs:
        if best is None or before(e, best):
            best = e
    return best


class Driver:
    def __init__(self, ctx, sched, reg, prio, half=False):
        self.half = half
        self.ctx = ctx
        self.s = sched
        self.r = reg
        self.live = []
        self.gone = []
        self.n = 0
        self.prio = prio

    def schedule(self):
        ctx = self.ctx
        self.n += 1
        mode = ctx.choice('mode', ['rel', 'abs'] if self.n == 1 else ['rel'])
        t = moment(ctx, 'time', None if mode == 'abs' else 0, self.half)
        kw = {}
        p = 100
        if self.prio:
            p = ctx.int('prio')
            kw['priority'] = p
        tag = f'event{self.n}'
        h = self.s.schedule(tag, t, absolute=(mode == 'abs'), **kw)
        e = Ev(tag, t if mode == 'abs' else self.r.t + t, p, self.n, h)
        ctx.check_eq(h.event, tag, 'the handle knows its event')
        ctx.check_eq(h.time, e.time, 'and its absolute time')
        ctx.check_eq(h.priority, p, 'and its priority')
        self.live.append(e)

    def cancel(self):
        ctx = self.ctx
        pool = self.live + self.gone
        if not pool:
            return
        e = ctx.choice('which', pool)
        how = ctx.choice('how', ['scheduler', 'event']) if self.n == 1 else 'event'
        try:
            if how == 'event':
                e.handle.cancel()
            else:
                self.s.cancel(e.handle)
            ctx.check(e in self.live, 'cancelling an event that is not scheduled raises ValueError')
            self.live.remove(e)
            self.gone.append(e)
        except ValueError:
            ctx.check(e not in self.live, 'cancelling a scheduled event works')

    def queue(self):
        ctx = self.ctx
        q = self.s.queue
        ctx.check(len(q) == len(self.live), 'the queue holds every scheduled event')
        rest = list(self.live)
        for h in q:
            e = first_of(rest)
            ctx.check(h is e.handle, 'the queue is in delivery order')
            rest.remove(e)
        ctx.check(bool(self.s) == bool(self.live), 'truth value')

    def ready(self):
        ctx = self.ctx
        sl = self.r.sleeps
        got = []
        for tag in self.s.non_blocking():
            e = first_of(self.live)
            ctx.check(e is not None and tag == e.tag, 'events come in order of time, priority, then scheduling')
            ctx.check(e.time <= self.r.t, 'never early')
            self.live.remove(e)
            self.gone.append(e)
        ctx.check(self.r.sleeps == sl, 'the non-blocking iterator never sleeps')
        for e in self.live:
            ctx.check(e.time > self.r.t, 'every event that is due is yielded')

    def next(self):
        ctx = self.ctx
        t = self.r.t
        try:
            tag = next(self.s)
        except StopIteration:
            ctx.check(not self.live, 'iteration only stops when nothing is scheduled')
            return
        e = first_of(self.live)
        ctx.check(e is not None and tag == e.tag, 'events come in order of time, priority, then scheduling')
        ctx.check(e.time <= self.r.t, 'never early')
        ctx.check(ctx.any([self.r.t == t, self.r.t == e.time]), 'sleeps exactly until the event is due')
        self.live.remove(e)
        self.gone.append(e)

    def advance(self):
        self.r.t = self.r.t + moment(self.ctx, 'adv', 0, self.half)


OPS = ['schedule', 'cancel', 'ready', 'next', 'advance']


def _hist(tier):
    out = []
    for prio in (0, 1):
        for a in OPS:
            for b in OPS:
                out.append(dict(prio=prio, ops=['schedule', a, b], more=1 if tier == 'quick' else 2))
    for a in OPS:
        for b in OPS:
            out.append(dict(prio=0, ops=['schedule', a, b], more=0 if tier == 'quick' else 1, half=1))
    return out


@harness('S01', cases=_hist, bounds='one event scheduled, then every history of 3 (thorough 4) operations out of schedule, cancel, blocking next, non-blocking drain and passing of time; '
         'all times, durations and priorities arbitrary integers (and, in shorter histories, all multiples of 2**-31 up to 2**18 as times); a sleep may return early once')
def history(ctx, prio, ops, more, half=0):
    from big.scheduler import Scheduler
    reg = make_regulator(ctx, half)
    s = Scheduler(reg)
    ctx.check(not s, 'a new scheduler is empty')
    d = Driver(ctx, s, reg, prio, half)
    for op in ops:
        getattr(d, op)()
    for k in range(more):
        getattr(d, ctx.choice('op', OPS))()
    d.queue()
    n = len(d.live)
    for k in range(n):
        d.next()
    ctx.check(not s, 'empty at the end')
    try:
        next(s)
        ctx.fail('an empty scheduler stops')
    except StopIteration:
        pass
    ctx.observe('t', reg.t)


def _busy(tier):
    out = [dict(ops=['schedule'] * 3 + [x] + ['schedule'] * 1 + y) for x in ('cancel', 'next', 'ready') for y in ([], ['schedule'])]
    out += [dict(ops=['schedule'] * 3 + [x, y, 'schedule']) for x in ('cancel', 'next') for y in ('cancel', 'next')]
    out += [dict(ops=['schedule', 'schedule', x, 'schedule', y, 'schedule', 'schedule']) for x in ('cancel', 'next') for y in ('cancel', 'next')]
    if tier != 'quick':
        out += [dict(ops=['schedule'] * 4 + [x, y, 'schedule']) for x in ('cancel', 'next') for y in ('cancel', 'next')]
        out += [dict(ops=['schedule'] * 3 + [x] + ['schedule'] * 2 + [y, 'schedule']) for x in ('cancel', 'next') for y in ('cancel', 'next')]
    return out


@harness('S01', cases=_busy, bounds='longer histories: up to 5 (thorough 6) events of arbitrary integer times scheduled, with one or two cancelled or delivered in between, then all delivered')
def busy(ctx, ops):
    from big.scheduler import Scheduler
    reg = make_regulator(ctx)
    reg.early = 1
    s = Scheduler(reg)
    d = Driver(ctx, s, reg, 0)
    d.n = 1
    for op in ops:
        getattr(d, op)()
    for k in range(len(d.live)):
        d.next()
    ctx.check(not s, 'empty at the end')
    ctx.reach('busy')


@harness('S01', cases=lambda tier: [dict(op=op, prio=p, two=t) for op in ('schedule', 'cancel', 'nothing') for p in (0, 1) for t in (0, 1)],
         bounds='a blocking next with one or two scheduled events, whose sleep is interrupted at an arbitrary time by scheduling or cancelling; all times and priorities arbitrary')
def interrupted(ctx, op, prio, two):
    from big.scheduler import Scheduler
    reg = make_regulator(ctx)
    s = Scheduler(reg)
    d = Driver(ctx, s, reg, prio)
    d.n = 1
    for i in range(1 + two):
        d.schedule()
    hit = []

    def wake():
        hit.append(1)
        if op == 'schedule':
            d.schedule()
        elif op == 'cancel':
            d.cancel()
    reg.on_sleep = wake
    try:
        tag = next(s)
    except StopIteration:
        ctx.check(not d.live, 'iteration only stops when nothing is scheduled')
        ctx.reach('cancelled')
        return
    if hit:
        ctx.reach('interrupted')
    e = first_of([x for x in d.live if not (x.time > reg.t)])
    ctx.check(e is not None and tag == e.tag, 'the first due event is delivered, including one scheduled meanwhile')
    d.live.remove(e)
    d.queue()
    ctx.observe('t', reg.t)


class Odd:
    """an event that must never be compared, hashed, called or tested"""
    __hash__ = None

    def _no(self, *a):
        raise RuntimeError('events are only passed on')
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __len__ = __call__ = __iter__ = _no


OBJECTS = {
    'none': lambda: [None, None, 1], 'falsy': lambda: [0, '', ()], 'lists': lambda: [[], [], {}], 'odd': lambda: [Odd(), Odd(), Odd()], 'same': lambda: (lambda o: [o, o, o])(object()), 'equal': lambda: [1, 1.0, True],
    'stop': lambda: [StopIteration, StopIteration(), False], 'mixed': lambda: [Odd(), None, 'x'],
}


@harness('S01', cases=lambda tier: [dict(kind=k, how=h) for k in OBJECTS for h in ('blocking', 'drain', 'drain in pieces', 'schedule in the loop', 'two iterators', 'cancel one', 'cancel in the loop')],
         bounds='three events of any kind of object (false, incomparable, unhashable, equal or identical ones), arbitrary times, relative (zero and negative ones too) or absolute, some priorities; delivered by blocking iteration or '
         'by one, several or abandoned non-blocking iterators, with events scheduled or cancelled in the loop')
def objects(ctx, kind, how):
    from big.scheduler import Scheduler
    reg = make_regulator(ctx)
    reg.early = 1
    s = Scheduler(reg)
    evs = []

    def schedule(o, n):
        t = ctx.int(f't{n}')
        absolute = n == 1
        p = [100, 0, -3, 100][n]
        kw = {} if p == 100 else {'priority': p}
        if absolute:
            kw['absolute'] = 1
        h = s.schedule(o, t, **kw)
        ctx.check(h.event is o, 'the handle knows its event')
        evs.append(Ev(o, t if absolute else reg.t + t, p, n, h))
    for n, o in enumerate(OBJECTS[kind]()):
        schedule(o, n)

    def took(o):
        e = first_of(evs)
        ctx.check(e is not None and o is e.tag, 'events come in order of time, priority, then scheduling')
        ctx.check(e.time <= reg.t, 'never early')
        evs.remove(e)

    def drained():
        for e in evs:
            ctx.check(e.time > reg.t, 'every event that is due is yielded')
    if how == 'blocking':
        for o in s:
            took(o)
        ctx.check(not evs, 'iteration only stops when nothing is scheduled')
    elif how == 'drain':
        for o in s.non_blocking():
            took(o)
        drained()
    elif how == 'drain in pieces':
        for k in range(4):
            for o in s.non_blocking():
                took(o)
                break
        drained()
    elif how == 'schedule in the loop':
        it = s.non_blocking()
        n = 0
        for o in it:
            took(o)
            if n == 0:
                schedule('late', 3)
            n += 1
        drained()
        reg.t = reg.t + ctx.int('more', 0)
        for o in it:
            took(o)
        drained()
    elif how == 'two iterators':
        a, b = s.non_blocking(), s.non_blocking()
        for it in (a, b, iter(a), b):
            for o in it:
                took(o)
                break
        drained()
        for o in s:
            took(o)
            break
    elif how == 'cancel one':
        e = evs[1]
        (s.cancel if ctx.bool('how') else lambda h: h.cancel())(e.handle)
        evs.remove(e)
        try:
            e.handle.cancel()
            ctx.fail('cancelling an event that is not scheduled raises ValueError')
        except ValueError:
            pass
        for o in s:
            took(o)
    elif how == 'cancel in the loop':
        for o in s:
            took(o)
            if evs:
                e = evs[-1]
                e.handle.cancel()
                evs.remove(e)
    ctx.check(len(s.queue) == len(evs) and bool(s) == bool(evs), 'the queue holds every scheduled event')
    for o in s:
        took(o)
    ctx.check(not evs and not s, 'empty at the end')
    ctx.reach(how)


class Clocks:
    """the time and threading modules for one thread: monotonic() is model time, every other clock may show anything at any time"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.r = make_regulator(ctx)

    def nap(self, interval):
        self.r.sleep(interval)

    def time_module(self):
        w = self

        class Time:
            monotonic = perf_counter = staticmethod(lambda: w.r.t)
            sleep = staticmethod(w.nap)

            def __getattr__(self, name):
                return lambda: w.ctx.int('wall')
        return Time()

    def threading_module(self):
        w = self

        class Lock:
            held = False

            def __enter__(self):
                self.acquire()

            def __exit__(self, *a):
                self.release()

            def acquire(self, blocking=True, timeout=-1):
                w.ctx.check(not self.held, 'the lock is never taken twice')
                self.held = True
                return True

            def release(self):
                w.ctx.check(self.held, 'only a held lock is released')
                self.held = False

            def locked(self):
                return self.held

        class Event:
            flag = False

            def set(self):
                self.flag = True

            def clear(self):
                self.flag = False

            def is_set(self):
                return self.flag

            def wait(self, timeout=None):
                w.ctx.check(timeout is not None, 'nobody would end this wait')
                if not self.flag:
                    w.nap(timeout)
                return self.flag

        class Threading:
            pass
        Threading.Lock, Threading.Event = Lock, Event
        Threading.get_ident = staticmethod(lambda: 1)
        return Threading()


REGULATORS = ['default', 'shared', 'single', 'safe']


@harness('S01', cases=lambda tier: [dict(kind=k, ops=list(o)) for k in REGULATORS for o in
                                    (('schedule', 'schedule', 'next', 'schedule'), ('schedule', 'ready', 'schedule', 'cancel'), ('schedule', 'advance', 'schedule', 'ready'))],
         bounds='the regulators that come with the scheduler (the default one, also shared by two schedulers, the single-threaded and the thread-safe one) on a model of the time and threading modules '
         'in which monotonic time is arbitrary and every other clock shows anything; two or three events of arbitrary times, three histories; sleeping may end early once',
         assumes=['time and threading are replaced by a model of their documented behaviour'])
def regulators(ctx, kind, ops):
    import big.scheduler as S
    from sx.conc import patched_module
    w = Clocks(ctx)
    with patched_module(w, S):
        s = S.Scheduler() if kind in ('default', 'shared') else S.Scheduler(S.SingleThreadedRegulator() if kind == 'single' else S.ThreadSafeRegulator())
        other = S.Scheduler() if kind == 'shared' else None
        if other is not None:
            other.schedule('other', 1)
        d = Driver(ctx, s, w.r, 0)
        d.n = 1
        for op in ops:
            getattr(d, op)()
        for k in range(len(d.live)):
            d.next()
        ctx.check(not s, 'empty at the end')
        if other is not None:
            ctx.check(list(e.event for e in other.queue) == ['other'], 'another scheduler with the same regulator has its own events')
    ctx.reach(kind)


# ------------------------------------------------------------------------------------------------ threads
FILES = ('/big/scheduler.py',)

SCENARIOS = ['schedule earlier', 'cancel', 'two consumers', 'two producers', 'producer later', 'consumer and drain']


def _threads(tier):
    quick = {'schedule earlier': 2, 'cancel': 2, 'two producers': 2}
    return [dict(scenario=s, pre=p) for s in SCENARIOS for p in range(quick.get(s, 1) + (2 if tier == 'thorough' else 1))]


@harness('S02', cases=_threads,
         bounds='two or three threads sharing one scheduler with the thread-safe regulator, up to three events with arbitrary times; every interleaving with at most 2 (thorough 3) '
         'preemptions, at every source line and synchronization operation; the clock moves only when all threads are blocked',
         assumes=['threading and time are replaced by a model of their documented behaviour (sx/conc.py)'])
def threads(ctx, scenario, pre):
    import big.scheduler as S
    from sx.conc import World, patched_module, Deadlock
    w = World(ctx, FILES, pre)
    with patched_module(w, S):
        s = S.Scheduler(S.ThreadSafeRegulator())
        got = []
        made = {}
        stopped = {}

        def consume(name):
            def run():
                for tag in s:
                    got.append((tag, w.clock))
                stopped[name] = w.clock
            return run

        def sched(tag, lo=0):
            t = ctx.int('t_' + tag, lo)

            def run():
                at = w.clock
                h = s.schedule(tag, t)
                made[tag] = (h, at, w.clock)
            return run

        if scenario == 'schedule earlier':
            w.spawn('setup', lambda: (sched('a')(), w.spawn_now('consumer', consume('c')), w.spawn_now('producer', sched('b'))))
        elif scenario == 'cancel':
            def cancel():
                made['a'][0].cancel()
                made['a'] = made['a'] + (w.clock,)

            def safe_cancel():
                try:
                    cancel()
                except ValueError:
                    ctx.check('a' in [g[0] for g in got] or True, 'already delivered')
            w.spawn('setup', lambda: (sched('a')(), w.spawn_now('consumer', consume('c')), w.spawn_now('canceller', safe_cancel)))
        elif scenario == 'two consumers':
            w.spawn('setup', lambda: (sched('a')(), sched('b')(), w.spawn_now('c1', consume('c')), w.spawn_now('c2', consume('d'))))
        elif scenario == 'two producers':
            w.spawn('p1', sched('a'))
            w.spawn('p2', sched('b'))
        elif scenario == 'producer later':
            def later():
                S.time.sleep(ctx.int('pause', 1))
                sched('b')()
            w.spawn('setup', lambda: (sched('a')(), w.spawn_now('consumer', consume('c')), w.spawn_now('producer', later)))
        elif scenario == 'consumer and drain':
            def drain():
                for tag in s.non_blocking():
                    got.append((tag, w.clock))
            w.spawn('setup', lambda: (sched('a')(), sched('b')(), w.spawn_now('consumer', consume('c')), w.spawn_now('drain', drain)))
        try:
            w.run()
        except Deadlock:
            ctx.fail('deadlock: every thread is blocked for ever')
        left = []

        def rest():
            for h in s.queue:
                left.append(h.event)
        w2 = w.fresh()
        w2.spawn('rest', rest)
        w2.run()
    cancelled = len(made.get('a', ())) > 3
    tags = [g[0] for g in got]
    ctx.check(sorted(tags + left) == sorted(k for k in made if not (cancelled and k == 'a')), 'every event is delivered exactly once or still scheduled')
    for tag, at in got:
        h, start, end = made[tag][:3]
        due = h.time
        if due < start:
            due = start
        if due < end:
            due = end
        ctx.check(at == due, 'every event is delivered when it is due')
    for (t1, a1), (t2, a2) in zip(got, got[1:]):
        ctx.check(a1 <= a2, 'time order')
    if scenario == 'cancel' and cancelled:
        ctx.check(stopped['c'] == made['a'][3], 'cancelling the last event ends the blocked iteration at once')
        ctx.reach('cancelled')
    if stopped:
        ctx.reach('stopped')
    ctx.observe('got', [g[0] for g in got])
