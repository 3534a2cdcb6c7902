from sx.registry import harness


class Oops(Exception):
    pass


class Sim:
    """reference state machine written from the documentation; logs what is called when"""
    def __init__(self, observers, hooks):
        self.observers = list(observers)
        self.hooks = hooks
        self.state = None
        self.next = None
        self.log = []
        self.stack = []

    def go(self, new):
        """returns the name of the error, or None"""
        if new == 'wrong':
            return 'TypeError'
        if new is None:
            return 'ValueError' if self.hooks['cls'] is None else 'TypeError'
        if self.next is not None:
            return 'TransitionError'
        if new == self.state:
            return 'TransitionError'
        self.next = new
        if self.hooks['exit'] and self.state is not None:
            self.log.append(('exit', self.state, self.state, self.next))
            e = self.act(self.hooks['exit_act'])
            if e:
                self.log.append(('err', e))
        for o in list(self.observers):
            self.log.append(('observer', o, self.state, self.next))
            e = self.act(self.hooks['obs_act'].get(o, 'nothing'))
            if e:
                self.log.append(('err', e))
        self.state = new
        self.next = None
        if self.hooks['enter']:
            self.log.append(('enter', self.state, self.state, self.next))
            e = self.act(self.hooks['enter_act'])
            if e:
                self.log.append(('err', e))
        return None

    def act(self, a):
        kind = a
        if kind == 'nothing':
            return None
        if self.hooks['left'] <= 0:
            return None
        self.hooks['left'] -= 1
        if kind == 'add observer':
            self.observers.append('late')
        elif kind == 'drop observer':
            if self.observers:
                self.observers.pop(0)
        elif kind == 'drop last observer':
            if self.observers:
                self.observers.pop()
        elif kind == 'swap observers':
            self.observers.reverse()
        elif kind in ('s0', 's1', 's2'):
            return self.go(kind)
        return None


ACTS = ['nothing', 's1', 's2', 'add observer', 'drop observer']
OBS_ACTS = ACTS + ['drop last observer', 'swap observers']


def _trans(tier):
    out = []
    for enter in (0, 1):
        for exit in (0, 1):
            for nobs in (0, 1, 2):
                for cls in (0, 1):
                    for names in ('default', 'custom', 'off'):
                        if names == 'off' and (enter or exit):
                            continue
                        out.append(dict(enter=enter, exit=exit, nobs=nobs, cls=cls, names=names, steps=3 if tier == 'quick' else 4))
    return out


@harness('T01', cases=_trans, bounds='three states of which two compare equal, up to 2 observers, optional enter/exit hooks (default, custom or disabled names), optional state class; '
         'every sequence of 3 (thorough 4) assignments out of the states, None and a wrong type; hooks and observers may start a transition or change the observer list')
def transitions(ctx, enter, exit, nobs, cls, names, steps):
    from big.state import StateManager, TransitionError

    class Base:
        def __init__(self, name, n):
            self.name = name
            self.n = n

        def __eq__(self, other):
            return isinstance(other, Base) and self.n == other.n

        def __hash__(self):
            return 1

        def __bool__(self):
            return False
    left = 2
    alike = ctx.bool('observers compare equal') if nobs == 2 else False
    hooks = dict(enter=enter, exit=exit, cls=Base if cls else None, obs_act={},
                 enter_act=ctx.choice('enter_act', ACTS) if enter else 'nothing',
                 exit_act=ctx.choice('exit_act', ACTS) if exit else 'nothing')
    hooks['left'] = left
    obs = ['o0', 'o1'][:nobs]
    if nobs:
        hooks['obs_act']['o0'] = ctx.choice('obs_act', OBS_ACTS)
    sim = Sim(obs, hooks)

    real = {}
    log = []
    counter = [left]
    ename, xname = ('on_enter', 'on_exit') if names == 'default' else ('arrive', 'depart')

    def name_of(s):
        return None if s is None else s.name

    def act(kind):
        if kind == 'nothing' or counter[0] <= 0:
            return
        counter[0] -= 1
        if kind == 'add observer':
            sm.observers.append(Observer('late'))
        elif kind == 'drop observer':
            if sm.observers:
                sm.observers.pop(0)
        elif kind == 'drop last observer':
            if sm.observers:
                sm.observers.pop()
        elif kind == 'swap observers':
            sm.observers.reverse()
        else:
            try:
                sm.state = real[kind]
            except TransitionError:
                log.append(('err', 'TransitionError'))

    class Observer:
        def __init__(self, name):
            self.name = name

        def __eq__(self, other):
            return type(other) is Observer if alike else self is other

        def __call__(self, m):
            ctx.check(m is sm, 'observers get the state manager')
            log.append(('observer', self.name, name_of(m.state), name_of(m.next)))
            act(hooks['obs_act'].get(self.name, 'nothing'))
    holder = []

    class S(Base):
        pass

    def on_enter(self):
        log.append(('enter', self.name, name_of(sm.state), name_of(sm.next)))
        act(hooks['enter_act'])

    def on_exit(self):
        log.append(('exit', self.name, name_of(sm.state), name_of(sm.next)))
        act(hooks['exit_act'])
    if enter:
        setattr(S, ename, on_enter)
    if exit:
        setattr(S, xname, on_exit)
    if names == 'off':
        S.on_enter = S.on_exit = lambda self: ctx.fail('a disabled hook is never called')
    for i, k in enumerate((0, 1, 1)):
        real[f's{i}'] = S(f's{i}', k)
    real[None] = None
    real['wrong'] = 7

    class SM(StateManager):
        # the manager is reachable from on_enter while the constructor still runs
        def __init__(self, *a, **k):
            nonlocal sm
            sm = self
            super().__init__(*a, **k)
    sm = None
    kw = {}
    if names == 'custom':
        kw = dict(on_enter=ename, on_exit=xname)
    elif names == 'off':
        kw = dict(on_enter=ctx.choice('e', [None, '']), on_exit=None)
    if cls:
        kw['state_class'] = Base
    # the hooks act only after construction
    counter[0], hooks['left'] = 0, 0
    SM(real['s0'], **kw)
    sim.observers = []
    sim.go('s0')
    sim.observers = list(obs)
    sm.observers.extend(Observer(o) for o in obs)
    counter[0] = hooks['left'] = left
    for k in range(steps):
        new = ctx.choice('new', ['s0', 's1', 's2', None, 'wrong'])
        if new == 'wrong' and not cls:
            new = 's1'
        want = sim.go(new)
        err = None
        try:
            sm.state = real[new]
        except (TypeError, ValueError, TransitionError) as e:
            err = type(e).__name__
        ctx.check(err == want, 'a transition fails exactly when it is illegal')
        ctx.check(name_of(sm.state) == sim.state and sm.state is real[sim.state], 'the current state')
        ctx.check(sm.next is None, 'no transition is in progress afterwards')
        ctx.check(log == sim.log, 'hooks and observers are called in the documented order, seeing the documented state and next')
        if sim.log and sim.log[-1][0] == 'err':
            ctx.reach('nested transition refused')
    ctx.observe('log', log)


KINDS = ['plain', 'class method', 'own attribute', 'class', 'static', 'dynamic', 'property', 'namespace', 'falsy hook', 'one hook', 'inherited', 'text', 'number']


@harness('T01', cases=lambda tier: [dict(first=k, steps=2 if tier == 'quick' else 3) for k in KINDS],
         bounds='states of thirteen kinds (instances with hooks of their own, of their class, inherited, from properties or __getattr__; classes, name spaces, numbers and text), in every sequence '
         'of 3 (thorough 4) states; hooks named by default or otherwise')
def kinds(ctx, first, steps):
    from types import SimpleNamespace
    from big.state import StateManager, TransitionError
    log = []
    custom = ctx.bool('custom')
    en, ex = ('hello', 'good_bye') if custom else ('on_enter', 'on_exit')

    class Hook:
        def __init__(self, tag):
            self.tag = tag

        def __call__(self, *args):
            ctx.check(not args, 'hooks are called without arguments')
            log.append(self.tag)

        def __bool__(self):
            return False

    def make(kind, i):
        enter, leave = (lambda: log.append(('enter', i))), (lambda: log.append(('exit', i)))
        hooks = {en: lambda self: enter(), ex: lambda self: leave()}
        P = type('P', (), {})
        if kind == 'plain':
            return P(), ()
        if kind == 'class method':
            return type('P', (), hooks)(), (en, ex)
        if kind == 'inherited':
            return type('Q', (type('P', (), hooks),), {})(), (en, ex)
        if kind in ('own attribute', 'namespace'):
            o = P() if kind == 'own attribute' else SimpleNamespace()
            setattr(o, en, enter)
            setattr(o, ex, leave)
            return o, (en, ex)
        if kind == 'class':
            return type('P', (), {en: classmethod(hooks[en]), ex: classmethod(hooks[ex])}), (en, ex)
        if kind == 'static':
            return type('P', (), {en: staticmethod(enter), ex: staticmethod(leave)})(), (en, ex)
        if kind == 'dynamic':
            def get(self, name):
                if name in (en, ex):
                    return enter if name == en else leave
                raise AttributeError(name)
            return type('P', (), {'__getattr__': get})(), (en, ex)
        if kind == 'property':
            return type('P', (), {en: property(lambda self: enter), ex: property(lambda self: leave)})(), (en, ex)
        if kind == 'falsy hook':
            return type('P', (), {en: Hook(('enter', i)), ex: Hook(('exit', i))})(), (en, ex)
        if kind == 'one hook':
            which = ctx.choice('hook', [en, ex])
            return type('P', (), {which: hooks[which]})(), (which,)
        return {'text': f'state{i}', 'number': i}[kind], ()
    states = [make(first, 0)]
    want = [('enter', 0)] if en in states[0][1] else []
    sm = StateManager(states[0][0], on_enter=en, on_exit=ex) if custom else StateManager(states[0][0])
    ctx.check(log == want, 'the first state is entered')
    for i in range(1, steps + 1):
        states.append(make(ctx.choice('kind', KINDS), i))
        del log[:]
        sm.state = states[i][0]
        want = [('exit', i - 1)] * (ex in states[i - 1][1]) + [('enter', i)] * (en in states[i][1])
        ctx.check(log == want, 'exactly the hooks that the two states have are called', lambda: (log, want))
        ctx.check(sm.state is states[i][0] and sm.next is None, 'the current state')
        try:
            sm.state = states[i][0]
            ctx.fail('a transition to the current state is refused')
        except TransitionError:
            pass
        ctx.check(log == want, 'and calls nothing')
    ctx.reach(first)


@harness('T02', cases=lambda tier: [dict(npos=p, nkw=k, prefix=a, suffix=b, where=w, steps=4 if tier == 'quick' else 5) for p in range(4) for k in range(3)
                                   for a in ('', 'on_') for b in ('', '_event') for w in ('class', 'instances', 'mixed', 'classes')],
         bounds='events with up to 3 positional and 2 keyword arguments of arbitrary values; every prefix/suffix setting; event methods on one class, on different classes, or on the instances; '
         'every sequence of 4 (thorough 5) transitions and dispatches on two machines sharing the decorated class')
def dispatching(ctx, npos, nkw, prefix, suffix, where, steps):
    from big.state import StateManager, accessor, dispatch
    got = []
    ret = ctx.int('ret')
    full = f'{prefix}ring{suffix}'

    def method(tag):
        return lambda self, *a, **k: (got.append((tag, self.name, a, k)), ret)[1]

    class S:
        def __init__(self, name):
            self.name = name

    class S2(S):
        pass
    a, b = S('a'), (S2 if where == 'classes' else S)('b')
    tags = {'a': 'class', 'b': 'class'}
    if where != 'instances':
        setattr(S, full, method('class'))
    if where == 'classes':
        setattr(S2, full, method('class 2'))
        tags['b'] = 'class 2'
    if where in ('instances', 'mixed'):
        for x in (a, b)[where == 'mixed':]:
            setattr(x, full, (lambda x: lambda *a, **k: method('own ' + x.name)(x, *a, **k))(x))
            tags[x.name] = 'own ' + x.name
    d = dispatch('manager', prefix=prefix, suffix=suffix)

    @accessor('current', 'manager')
    class M:
        def __init__(self, s):
            self.manager = StateManager(s)

        @d
        def ring(self, *a, **k):
            "doc"
    ms = [M(a), M(b)]
    cur = [a, b]
    for k in range(steps):
        i = ctx.choice('machine', [0, 1])
        m = ms[i]
        op = ctx.choice('op', ['ring', 'accessor', 'manager', 'new manager'])
        if op != 'ring':
            cur[i] = b if cur[i] is a else a
            if op == 'accessor':
                m.current = cur[i]
            elif op == 'manager':
                m.manager.state = cur[i]
            else:
                m.manager = StateManager(cur[i])
        for j in (0, 1):
            ctx.check(ms[j].current is cur[j] and ms[j].manager.state is cur[j], 'the accessor is the state of the manager')
        args = [ctx.int(f'a{j}') for j in range(npos)]
        kwargs = {f'k{j}': ctx.int(f'k{j}') for j in range(nkw)}
        del got[:]
        r = m.ring(*args, **kwargs)
        ctx.check(len(got) == 1, 'the event is dispatched once')
        ctx.check(got[0][1] == cur[i].name and got[0][0] == tags[cur[i].name], 'to the method of the current state')
        ctx.check_eq(list(got[0][2]), args, 'with the same positional arguments')
        ctx.check(list(got[0][3]) == list(kwargs), 'and keywords')
        for n in kwargs:
            ctx.check(got[0][3][n] == kwargs[n], 'and keyword values')
        ctx.check(r == ret, 'and returns what the state returned')
    ctx.check(M.ring.__name__ == 'ring' and M.ring.__doc__ == 'doc', 'the event method keeps its name and documentation')
