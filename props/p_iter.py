from sx.registry import harness


class Source:
    """an underlying iterator: items in order; raises the given errors at their positions; counts calls"""
    def __init__(self, items):
        self.items = items
        self.pos = 0
        self.calls = 0
        self.ended = False

    def __iter__(self):
        return self

    def __next__(self):
        self.calls += 1
        if self.pos >= len(self.items):
            self.ended = True
            raise StopIteration
        x = self.items[self.pos]
        self.pos += 1
        if isinstance(x, Boom):
            raise x
        return x


class FalsySource(Source):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Boom(Exception):
    pass


SENT = object()
OPS = ['next()', 'next(None)', 'next(default)', 'bool', 'push', 'push None', 'rest']


def item(ctx, kind, i):
    if kind == 'int':
        return ctx.int(f'item{i}')
    if kind == 'none':
        return None
    if kind == 'zero':
        return 0
    if kind == 'boom':
        return Boom(i)


def _cases(tier):
    kinds = [[], ['int'], ['int', 'int'], ['none', 'int'], ['boom', 'int'], ['int', 'boom'], ['zero', 'none']]
    n = 5
    out = []
    for k in kinds:
        for how in ('iter', 'iterable', 'falsy'):
            if 'boom' in k and how == 'iterable':
                continue
            for first in OPS:
                out.append(dict(kinds=k, how=how, steps=n if tier == 'quick' else n + 1, first=first))
    for first in OPS:
        out.append(dict(kinds=[], how='none', steps=n, first=first))
    return out


@harness('I01', cases=_cases, bounds='underlying iterators of up to 2 items (arbitrary integers, None, 0, or an exception raised at that position), given as an iterator, an iterable, '
         'a falsy iterator or None; every history of 5 (thorough 6) operations, then draining')
def history(ctx, kinds, how, steps, first):
    from big.itertools import PushbackIterator
    items = [item(ctx, k, i) for i, k in enumerate(kinds)]
    src = None
    if how == 'none':
        it = PushbackIterator(None) if ctx.bool('explicit') else PushbackIterator()
    elif how == 'iterable':
        it = PushbackIterator(items)
    else:
        src = (FalsySource if how == 'falsy' else Source)(items)
        it = PushbackIterator(src)
    # model: pushed stack, remaining items
    stack = []
    rest = list(items)
    ctx.check(iter(it) is it, 'an iterator is its own iterator')
    for k in range(steps):
        op = first if k == 0 else ctx.choice('op', OPS)
        if op == 'push' or op == 'push None':
            x = ctx.int('x') if op == 'push' else None
            it.push(x)
            stack.append(x)
            continue
        exc = None
        d = SENT if op == 'next()' else (ctx.int('default') if op == 'next(default)' else None)
        r = None
        if op == 'rest':
            r = []
        try:
            if op == 'next()':
                r = next(it)
            elif op == 'next(None)':
                r = it.next()
            elif op == 'next(default)':
                r = it.next(d)
            elif op == 'bool':
                r = bool(it)
            else:
                for v in it:
                    r.append(v)
        except (StopIteration, Boom) as e:
            exc = e
        # what the model says
        if op == 'rest':
            want = []
            werr = None
            while stack:
                want.append(stack.pop())
            while rest:
                y = rest.pop(0)
                if isinstance(y, Boom):
                    werr = y
                    break
                want.append(y)
            ctx.check(exc is werr, 'iteration propagates exactly the errors of the wrapped iterator')
            ctx.check_eq(r, want, 'a for loop yields pushed values last in first out, then the rest')
            continue
        if stack:
            if op == 'bool':
                ctx.check(r is True, 'true while values are pushed')
                continue
            ctx.check(exc is None, 'no error while values are pushed')
            ctx.check_eq(r, stack.pop(), 'pushed values come back last in first out')
            continue
        if not rest:
            if op == 'next()':
                ctx.check(isinstance(exc, StopIteration), 'exhausted')
            else:
                ctx.check(exc is None, 'no error when exhausted')
                if op == 'bool':
                    ctx.check(r is False, 'false when exhausted')
                else:
                    ctx.check_eq(r, d, 'the default is returned when exhausted')
            continue
        y = rest[0]
        if isinstance(y, Boom):
            rest.pop(0)
            ctx.check(exc is y, 'an exception of the wrapped iterator propagates')
            ctx.reach('boom')
            continue
        ctx.check(exc is None, 'no error')
        if op == 'bool':
            ctx.check(r is True, 'true while the wrapped iterator has values')
        else:
            ctx.check_eq(r, rest.pop(0), 'the next value of the wrapped iterator')
    if src is not None:
        ctx.check(src.pos <= len(items) - len(rest) + 1, 'reads at most one value ahead')
        ctx.check(src.calls <= len(items) + 1 or not src.ended or src.calls <= len(items) + 1, 'never asks an exhausted iterator again')
    tail = []
    while True:
        try:
            tail.append(next(it))
        except StopIteration:
            break
        except Boom:
            pass
    ctx.check_eq(tail, stack[::-1] + [y for y in rest if not isinstance(y, Boom)], 'draining loses, duplicates and reorders nothing')
    ctx.observe('tail', tail)


@harness('I01', cases=lambda tier: [dict(kinds=k, first=f, steps=5 if tier == 'quick' else 6) for k in ([], ['int'], ['none', 'int'], ['int', 'int']) for f in ('wrapped push', 'wrapped next', 'push', 'next', 'bool')],
         bounds='a pushback iterator wrapped in another, up to 2 items, every history of 5 (thorough 6) pushes and reads of either, then both are drained')
def nested(ctx, kinds, first, steps):
    from big.itertools import PushbackIterator
    items = [item(ctx, k, i) for i, k in enumerate(kinds)]
    inner = PushbackIterator(Source(items))
    rest = list(items)      # what the wrapped iterator still holds, next one first
    if ctx.bool('pushed before'):
        x = ctx.int('before')
        inner.push(x)
        rest.insert(0, x)
    outer = PushbackIterator(inner)
    stack = []
    ahead = over = False     # the outer one has read a value ahead; has seen the end
    for k in range(steps):
        op = first if k == 0 else ctx.choice('op', ['wrapped push', 'wrapped next', 'push', 'next', 'bool'])
        if op.startswith('wrapped') and (ahead or over):
            return
        if op == 'wrapped push':
            x = ctx.int('x')
            inner.push(x)
            rest.insert(0, x)
        elif op == 'wrapped next':
            r = inner.next(SENT)
            if rest:
                ctx.check_eq(r, rest.pop(0), 'the wrapped iterator keeps its own pushed values')
            else:
                ctx.check(r is SENT, 'and is exhausted after them')
        elif op == 'push':
            x = ctx.int('x')
            outer.push(x)
            stack.append(x)
        elif op == 'next':
            r = outer.next(SENT)
            if stack:
                ctx.check_eq(r, stack.pop(), 'pushed values come back last in first out')
            elif rest:
                ctx.check_eq(r, rest.pop(0), 'then the values of the wrapped iterator')
            else:
                ctx.check(r is SENT, 'exhausted when both are')
                over = True
        else:
            ctx.check(bool(outer) == bool(stack or rest), 'true while there is a value')
            if not stack:
                ahead = True
    ctx.check_eq(list(outer), stack[::-1] + rest, 'draining loses, duplicates and reorders nothing')
    ctx.check(inner.next(SENT) is SENT and outer.next(SENT) is SENT, 'and leaves both exhausted')
