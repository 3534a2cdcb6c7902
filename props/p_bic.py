from sx.registry import harness

NAMES = ['Inner', 'Child', 'Grandchild', 'Sibling', 'Both', 'Free', 'FreeChild', 'Deep', 'Mixed']
# class -> (bound, bases)
TREE = {
    'Inner': (True, []),
    'Child': (True, ['Inner']),
    'Grandchild': (True, ['Child']),
    'Sibling': (True, ['Inner']),
    'Both': (True, ['Child', 'Sibling']),
    'Free': (False, ['Inner']),
    'FreeChild': (False, ['Free']),
    'Deep': (True, ['Both']),
    'Mixed': (True, ['Plain', 'Child']),
}


def build(log):
    from big.boundinnerclass import BoundInnerClass, UnboundInnerClass

    class Outer:
        def __init__(self, tag):
            self.tag = tag

        @BoundInnerClass
        class Inner:
            def __init__(self, outer, *args, **kw):
                log.append(('Inner', outer, args, kw))

        @BoundInnerClass
        class Child(Inner.cls):
            "documented"
            def __init__(self, outer, *args, **kw):
                log.append(('Child', outer, args, kw))
                super().__init__(*args, **kw)

        @BoundInnerClass
        class Grandchild(Child.cls):
            def __init__(self, outer, *args, **kw):
                log.append(('Grandchild', outer, args, kw))
                super().__init__(*args, **kw)

        @BoundInnerClass
        class Sibling(Inner.cls):
            def __init__(self, outer, *args, **kw):
                log.append(('Sibling', outer, args, kw))
                super().__init__(*args, **kw)

        @BoundInnerClass
        class Both(Child.cls, Sibling.cls):
            def __init__(self, outer, *args, **kw):
                log.append(('Both', outer, args, kw))
                super().__init__(*args, **kw)

        @UnboundInnerClass
        class Free(Inner.cls):
            def __init__(self, *args, **kw):
                log.append(('Free', None, args, kw))
                super().__init__(*args, **kw)

        @UnboundInnerClass
        class FreeChild(Free.cls):
            def __init__(self, *args, **kw):
                log.append(('FreeChild', None, args, kw))
                super().__init__(*args, **kw)

        @BoundInnerClass
        class Deep(Both.cls):
            def __init__(self, outer, *args, **kw):
                log.append(('Deep', outer, args, kw))
                super().__init__(*args, **kw)

        class Plain:
            def __init__(self, *args, **kw):
                log.append(('Plain', None, args, kw))
                super().__init__(*args, **kw)

        @BoundInnerClass
        class Mixed(Plain, Child.cls):
            def __init__(self, outer, *args, **kw):
                log.append(('Mixed', outer, args, kw))
                super().__init__(*args, **kw)

    class Outer2(Outer):
        pass
    return Outer, Outer2


CHAIN = {
    'Inner': ['Inner'], 'Child': ['Child', 'Inner'], 'Grandchild': ['Grandchild', 'Child', 'Inner'], 'Sibling': ['Sibling', 'Inner'],
    'Both': ['Both', 'Child', 'Sibling', 'Inner'], 'Free': ['Free', 'Inner'], 'FreeChild': ['FreeChild', 'Free', 'Inner'],
    'Deep': ['Deep', 'Both', 'Child', 'Sibling', 'Inner'], 'Mixed': ['Mixed', 'Plain', 'Child', 'Inner'],
}


@harness('B01', cases=lambda tier: [dict(first=a, steps=3 if tier == 'quick' else 4, nargs=n) for a in NAMES for n in ((0, 2) if tier == 'quick' else (0, 1, 2))],
         bounds='a family of ten bound, unbound and plain inner classes (single, multi-level and diamond inheritance), two outer objects one of which is of an outer subclass; '
         'every sequence of 3 (thorough 4) accesses and constructions with up to 2 arbitrary arguments')
def binding(ctx, first, steps, nargs):
    log = []
    Outer, Outer2 = build(log)
    outers = [Outer('x'), Outer2('y')]
    kept = {}
    for k in range(steps):
        i = ctx.choice('outer', [0, 1])
        o = outers[i]
        name = first if k == 0 else ctx.choice('name', NAMES)
        cls = getattr(o, name)
        ctx.check(issubclass(cls, getattr(Outer, name)), 'a bound class is a subclass of the class it binds')
        if TREE[name][0]:
            ctx.check(cls is not getattr(Outer, name), 'and differs from it')
        ctx.check(cls.__name__ == name, 'and keeps its name')
        if (i, name) in kept:
            ctx.check(kept[i, name] is cls, 'repeated access gives the same class')
        kept[i, name] = cls
        for (j, n2), c2 in kept.items():
            if n2 == name and j != i:
                ctx.check(c2 is not cls, 'different outer objects have different bound classes')
        args = [ctx.int(f'arg{j}') for j in range(nargs)]
        kw = {'kw': ctx.int('kw')} if nargs else {}
        del log[:]
        x = cls(*args, **kw)
        ctx.check([e[0] for e in log] == CHAIN[name], 'every constructor of the family runs once, in inheritance order')
        for e in log:
            ctx.check(e[1] is (o if e[0] in TREE and TREE[e[0]][0] else None), 'bound constructors receive the outer object, unbound ones do not')
            ctx.check_eq(list(e[2]), args, 'and the caller\'s arguments')
            ctx.check(list(e[3]) == list(kw) and all(bool(e[3][n] == kw[n]) for n in kw), 'and keyword arguments')
        for base in CHAIN[name]:
            ctx.check(isinstance(x, getattr(Outer, base)), 'an instance of every unbound base')
            ctx.check(isinstance(x, getattr(o, base)), 'and of every base as bound to the same outer object')
        kept2 = getattr(outers[1 - i], name)
        if TREE[name][0]:
            ctx.check(not isinstance(x, kept2), 'but not of a class bound to another outer object')
    # through the class itself: the original, outer passed by hand
    del log[:]
    n = ctx.choice('unbound', NAMES)
    raw = getattr(Outer, n)
    ctx.check(raw is getattr(Outer2, n), 'the outer class gives the original class')
    ctx.check(Outer.Child.__doc__ == 'documented' and outers[0].Child.__doc__ == 'documented', 'documentation is kept')
    ctx.observe('n', len(kept))


def _foreign_cases(tier):
    return [dict(kind=k) for k in ('same-name', 'other-name', 'attribute', 'shadow', 'late')]


@harness('B01', cases=_foreign_cases, bounds='inner classes derived from inner classes of another outer class (of the same or another name, also when this outer class has one of that name), '
         'from plain classes whose name the outer object uses for something else (eight kinds of value), bases replaced before the first access')
def foreign(ctx, kind):
    from big.boundinnerclass import BoundInnerClass, UnboundInnerClass
    log = []
    deco = BoundInnerClass if ctx.bool('bound') else UnboundInnerClass
    bound = deco is BoundInnerClass

    class Other:
        @BoundInnerClass
        class Inner:
            def __init__(self, outer, *a):
                log.append(('Other.Inner', outer, a))

    class Plain:
        def __init__(self, *a):
            log.append(('Plain', None, a))

    class Named:
        def __init__(self, *a):
            log.append(('Named', None, a))

    def make(name, base):
        if bound:
            def init(self, outer, *a):
                log.append((name, outer, a))
                super(cls, self).__init__(*a)
        else:
            def init(self, *a):
                log.append((name, None, a))
                super(cls, self).__init__(*a)
        cls = type(name, (base,), {'__init__': init})
        return deco(cls), cls

    class Outer:
        pass
    a = ctx.int('a')
    other = Other()
    if kind == 'same-name':
        # its base is bound to nothing here: the base's own outer argument comes from the caller
        w, cls = make('Inner', Other.Inner)
        Outer.Inner = w
        o = Outer()
        x = o.Inner(other, a)
        want = [('Inner', o if bound else None, (other, a)), ('Other.Inner', other, (a,))]
        name = 'Inner'
    elif kind == 'other-name':
        # a base of another outer class, while this outer class has a bound class of that name
        w, cls = make('Child', Other.Inner)

        class Inner:
            def __init__(self, outer, *a):
                log.append(('Outer.Inner', outer, a))
        Outer.Inner = BoundInnerClass(Inner)
        Outer.Child = w
        o = Outer()
        if ctx.bool('inner first'):
            o.Inner
        x = o.Child(other, a)
        want = [('Child', o if bound else None, (other, a)), ('Other.Inner', other, (a,))]
        name = 'Child'
    elif kind == 'attribute':
        # the outer object has an attribute named like the base
        w, cls = make('Child', Plain)
        Outer.Child = w
        o = Outer()
        v = ctx.choice('value', [None, 0, 'text', 'list', 'class', 'same', 'subclass', 'named'])
        if v is not None:
            class Sub(Named):
                pass
            value = {0: 0, 'text': 'text', 'list': [], 'class': Named, 'same': Plain, 'subclass': type('Plain', (Plain,), {}), 'named': Sub}[v]
            if ctx.bool('on the class'):
                Outer.Plain = value
            else:
                o.Plain = value
        x = o.Child(a)
        # a subclass of the base under its name is how a bound base looks
        want = [('Child', o if bound else None, (a,)), ('Plain', None, (a,))]
        name = 'Child'
    elif kind == 'shadow':
        # a subclass of the outer class replaces the base
        w, cls = make('Child', Plain)
        Outer.Child = w
        Outer.Plain = BoundInnerClass(Plain)

        class Derived(Outer):
            class Plain:
                def __init__(self, *a):
                    log.append(('Derived.Plain', None, a))
        o = Derived()
        x = o.Child(a)
        want = [('Child', o if bound else None, (a,)), ('Plain', None, (a,))]
        name = 'Child'
    else:
        # bases bound only after their child was
        inner = type('Base', (), {'__init__': lambda self, outer, *a: log.append(('Base', outer, a))})
        w, cls = make('Child', inner)
        Outer.Base = BoundInnerClass(inner)
        Outer.Child = w
        o, o2 = Outer(), Outer()
        first = ctx.bool('base first')
        if first:
            o.Base
        x = o.Child(a)
        if ctx.bool('another'):
            o2.Child(a)
            del log[2:]
        want = [('Child', o if bound else None, (a,)), ('Base', o, (a,))]
        ctx.check(isinstance(x, o.Base), 'the base is the one bound to the same outer object')
        ctx.check(not isinstance(x, o2.Base), 'not one bound to another')
        name = 'Child'
    ctx.check(len(log) == len(want), 'every constructor runs once', lambda: (log, want))
    for e, f in zip(log, want):
        ctx.check(e[0] == f[0] and e[1] is f[1], 'each constructor receives its own outer object', lambda: (log, want))
        ctx.check(len(e[2]) == len(f[2]) and all(x is y or x == y for x, y in zip(e[2], f[2])), 'and the caller\'s arguments', lambda: (log, want))
    ctx.check(type(x).__name__ == name and isinstance(x, cls), 'an instance of the class')
    ctx.reach(kind)


@harness('B02', cases=lambda tier: [dict(bound=b, depth=d) for b in (True, False) for d in (0, 1, 2)],
         bounds='inner classes with and without documentation, annotations and their own or an inherited __repr__, alone and as child or grandchild of another inner class; any access order of parent and child')
def looks(ctx, bound, depth):
    from big.boundinnerclass import BoundInnerClass, UnboundInnerClass
    number = ctx.int('number')

    class Outer:
        def __repr__(self):
            return '<the outer>'

    def members(i):
        d = {'__init__': (lambda self, outer=None: None), 'constant': number, 'method': (lambda self: (i, number)), '__module__': f'mod{i}', '__qualname__': f'Outer.Q{i}'}
        if ctx.bool(f'doc{i}'):
            d['__doc__'] = f'documentation {i}'
        if ctx.bool(f'annotations{i}'):
            d['__annotations__'] = {f'field{i}': int}
        if ctx.bool(f'repr{i}'):
            d['__repr__'] = lambda self: f'custom {i}'
        return d
    base = object
    raw = []
    own_repr = None
    for i in range(depth + 1):
        d = members(i)
        if '__repr__' in d:
            own_repr = f'custom {i}'
        cls = type(f'K{i}', (base,), d)
        raw.append(cls)
        last = i == depth
        setattr(Outer, f'K{i}', (BoundInnerClass if bound or not last else UnboundInnerClass)(cls))
        base = cls
    cls = raw[-1]
    o = Outer()
    if depth and ctx.bool('parent first'):
        getattr(o, f'K{depth - 1}')
    name = f'K{depth}'
    got = getattr(o, name)
    for a in ('__name__', '__module__', '__qualname__', '__doc__'):
        ctx.check(getattr(got, a) == getattr(cls, a), 'a bound class is described like the class it wraps', lambda: (a, getattr(got, a), getattr(cls, a)))
    ctx.check(getattr(got, '__annotations__', {}) == cls.__dict__.get('__annotations__', getattr(cls, '__annotations__', {})), 'with its annotations')
    x = got()
    ctx.check(x.constant == number and x.method() == (depth, number), 'its attributes and methods are those of the class')
    if own_repr is not None:
        ctx.check(repr(x) == own_repr, 'a __repr__ of its own is kept', lambda: (repr(x), own_repr))
    elif bound:
        ctx.check(repr(x) == f'<mod{depth}.{name} object bound to <the outer> at {hex(id(x))}>', 'otherwise the representation names the outer object', lambda: repr(x))
    ctx.check(getattr(Outer, name) is cls, 'the class itself is unchanged')
    for a in ('__name__', '__module__', '__qualname__', '__doc__'):
        ctx.check(getattr(getattr(Outer, name), a) == {'__name__': name, '__module__': f'mod{depth}', '__qualname__': f'Outer.Q{depth}', '__doc__': cls.__dict__.get('__doc__')}[a], 'and keeps its description')
    ctx.reach('looks')


OUTER_KINDS = ['plain', 'false', 'empty', 'equal', 'unhashable', 'list', 'getattr', 'slots', 'frozen', 'exception']


def outer_class(kind, inners, number):
    """a class of outer objects that look unusual; every two of them of one kind compare equal where they can"""
    d = dict(inners)
    base = object
    if kind == 'false':
        d['__bool__'] = lambda self: False
    elif kind == 'empty':
        d['__len__'] = lambda self: 0
    elif kind == 'equal':
        d['__eq__'] = lambda self, other: True
        d['__hash__'] = lambda self: 1
    elif kind == 'unhashable':
        d['__eq__'] = lambda self, other: self is other
        d['__hash__'] = None
    elif kind == 'list':
        base = list
    elif kind == 'getattr':
        d['__getattr__'] = lambda self, name: number
    elif kind == 'slots':
        d['__slots__'] = ('__dict__', '__weakref__')
    elif kind == 'frozen':
        def refuse(self, name, value=None):
            raise AttributeError(name)
        d['__setattr__'] = refuse
        d['__delattr__'] = refuse
    elif kind == 'exception':
        base = Exception
    return type('Outer', (base,), d)


@harness('B01', cases=lambda tier: [dict(kind=k, steps=3 if tier == 'quick' else 4) for k in OUTER_KINDS],
         bounds='ten kinds of outer objects (false, empty, equal to each other, unhashable, lists, with __getattr__, slots, refusing assignments, exceptions); two or three such objects, one of them possibly '
         'made after another is gone; every sequence of 3 (thorough 4) accesses of a parent, a child, or an unbound child')
def outers(ctx, kind, steps):
    import gc
    from big.boundinnerclass import BoundInnerClass, UnboundInnerClass
    log = []

    class Inner:
        def __init__(self, outer, *args):
            self.outer = outer
            log.append(('Inner', outer, args))

    class Child(Inner):
        def __init__(self, outer, *args):
            log.append(('Child', outer, args))
            super().__init__(*args)

    class Free(Child):
        def __init__(self, *args):
            log.append(('Free', None, args))
            super().__init__(*args)
    number = ctx.int('number')
    Outer = outer_class(kind, {'Inner': BoundInnerClass(Inner), 'Child': BoundInnerClass(Child), 'Free': UnboundInnerClass(Free)}, number)
    raw = {'Inner': Inner, 'Child': Child, 'Free': Free}
    chain = {'Inner': ['Inner'], 'Child': ['Child', 'Inner'], 'Free': ['Free', 'Child', 'Inner']}
    objects = [Outer(), Outer()]
    if ctx.bool('another gone'):
        # a new object at the address of one that is gone
        gone = [Outer() for i in range(8)]
        for o in gone:
            o.Child(number)
            o.Free(number)
        addresses = [id(o) for o in gone]
        del log[:]
        del o, gone
        gc.collect()
        new = [Outer() for i in range(40)]
        objects.append(([o for o in new if id(o) in addresses] or new)[0])
        del new
    kept = {}
    for k in range(steps):
        i = ctx.choice('outer', list(range(len(objects))))
        name = ctx.choice('name', ['Inner', 'Child', 'Free'])
        o = objects[i]
        cls = getattr(o, name)
        ctx.check(issubclass(cls, raw[name]), 'a bound class is a subclass of the class it binds')
        ctx.check(kept.setdefault((i, name), cls) is cls, 'repeated access gives the same class')
        ctx.check(all(c is not cls for (j, n), c in kept.items() if (j, n) != (i, name)), 'different outer objects have different bound classes')
        del log[:]
        a = ctx.int('arg')
        x = cls(a)
        ctx.check([e[0] for e in log] == chain[name], 'every constructor of the family runs once, in inheritance order')
        for e in log:
            ctx.check(e[1] is (None if e[0] == 'Free' else o), 'bound constructors receive this very outer object')
            ctx.check(len(e[2]) == 1 and e[2][0] == a, 'and the caller\'s arguments')
        ctx.check(all(isinstance(x, getattr(o, base)) for base in chain[name]), 'an instance of every base as bound to the same outer object')
        ctx.check(not any(isinstance(x, getattr(p, 'Inner')) for j, p in enumerate(objects) if j != i), 'but not of a class bound to another outer object')
    ctx.check(all(getattr(Outer, n) is raw[n] for n in raw), 'the outer class gives the original classes')
    ctx.reach(kind)
