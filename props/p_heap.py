from sx.registry import harness

OPS = ['append', 'popleft', 'remove', 'append_and_popleft', 'popleft_and_append', 'extend', 'clear']


def model_sorted(vals):
    out = []
    for v in vals:
        i = 0
        while i < len(out) and not (v < out[i]):
            i += 1
        out.insert(i, v)
    return out


def step_op(ctx, h, m, op, step):
    """one operation on the heap and on the sorted-list model; returns the new model"""
    x = ctx.int(f'x{step}')
    y = ctx.int(f'y{step}') if op == 'extend' else None
    try:
        if op == 'extend':
            r = h.extend([x, y])
        elif op in ('popleft', 'clear'):
            r = getattr(h, op)()
        else:
            r = getattr(h, op)(x)
        exc = None
    except (IndexError, ValueError) as e:
        exc = e
        r = None
    if op == 'append':
        m = model_sorted(m + [x])
    elif op == 'clear':
        m = []
    elif op == 'extend':
        m = model_sorted(m + [x, y])
    elif op == 'popleft':
        if m:
            ctx.check(exc is None, 'popleft works')
            ctx.check(r == m[0], 'popleft returns the smallest')
            m = m[1:]
        else:
            ctx.check(isinstance(exc, IndexError), 'popleft on an empty heap raises IndexError')
    elif op == 'remove':
        for i, v in enumerate(m):
            if v == x:
                m = m[:i] + m[i + 1:]
                ctx.check(exc is None, 'remove works')
                break
        else:
            ctx.check(isinstance(exc, ValueError), 'remove of an absent value raises ValueError')
    elif op == 'append_and_popleft':
        m = model_sorted(m + [x])
        ctx.check(r == m[0], 'append_and_popleft returns the smallest')
        m = m[1:]
    elif op == 'popleft_and_append':
        if m:
            ctx.check(r == m[0], 'popleft_and_append returns the old smallest')
            m = model_sorted(m[1:] + [x])
        else:
            ctx.check(isinstance(exc, IndexError), 'popleft_and_append on an empty heap raises IndexError')
    ctx.check(len(h) == len(m), 'len')
    ctx.check(bool(h) == bool(m), 'truth value')
    ctx.check_eq(h.queue, m, 'queue is the sorted contents')
    return m


def _cases(tier):
    out = [dict(n=k, first=op, second=1) for k in range(0, 4) for op in OPS if not (k == 3 and op == 'extend')]
    out += [dict(n=4, first=op, second=0) for op in OPS]
    out += [dict(n=5, first=op, second=0) for op in ('popleft', 'remove')]
    if tier == 'thorough':
        out += [dict(n=k, first=op, second=2) for k in range(0, 3) for op in OPS]
        out += [dict(n=5, first=op, second=0) for op in OPS if op not in ('popleft', 'remove')]
        out += [dict(n=4, first=op, second=1) for op in OPS]
    return out


@harness('H01', cases=_cases, bounds='initial heap of up to 3 arbitrary integers followed by 2 arbitrary operations, or up to 5 integers and 1 operation '
         '(thorough: 2 integers and 3 operations, 4 and 2), then draining')
def heap_step(ctx, n, first, second):
    from big.heap import Heap
    vals = [ctx.int(f'v{i}') for i in range(n)]
    h = Heap(vals)
    m = model_sorted(vals)
    ctx.check_eq(h.queue, m, 'queue is the sorted contents')
    m = step_op(ctx, h, m, first, 0)
    for k in range(second):
        m = step_op(ctx, h, m, ctx.choice('op', OPS), k + 1)
    z = ctx.int('z')
    if len(m) <= 3:
        ctx.check((z in h) == ctx.any([v == z for v in m]), 'membership')
    ctx.observe('q', h.queue)
    for v in m:
        ctx.check(h.popleft() == v, 'drains in sorted order')
    ctx.check(not h, 'empty at the end')


BIG = {
    'down': list(range(0, 130, 10)), 'up': list(range(120, -1, -10)), 'left-low': [0, 10, 60, 20, 30, 70, 80, 40, 50, 21, 22, 90, 95], 'right-low': [0, 60, 10, 70, 80, 20, 30, 90, 95, 85, 86, 40, 50],
    'ties': [5, 5, 1, 5, 3, 1, 3, 5, 5, 3, 1, 5, 3],
}
BIG_OPS = ['append', 'popleft', 'remove', 'append_and_popleft', 'popleft_and_append', 'extend']


@harness('H01', cases=lambda tier: [dict(kind=k, n=n, op=op) for k in BIG for n in ((7, 12) if tier == 'quick' else (6, 7, 8, 11, 12, 13)) for op in BIG_OPS],
         bounds='heaps of 7 and 12 (thorough 6-13) elements in five arrangements, the element at any of six places replaced by an arbitrary integer, one operation (remove: of any element), then draining')
def big_heap(ctx, kind, n, op):
    from big.heap import Heap
    vals = BIG[kind][:n]
    pos = ctx.choice('pos', [0, 1, 2, n // 2, n - 2, n - 1])
    v = ctx.int('v', -5, 140)
    vals = vals[:pos] + [v] + vals[pos + 1:]
    h = Heap(vals)
    m = model_sorted(vals)
    if op == 'remove':
        x = vals[ctx.choice('which', range(n))]
        h.remove(x)
        i = [k for k in range(n) if m[k] == x][0]
        m = m[:i] + m[i + 1:]
    elif op == 'popleft':
        ctx.check(h.popleft() == m[0], 'popleft returns the smallest')
        m = m[1:]
    else:
        x = ctx.choice('x', [-7, 11, 45, 150])
        if op in ('append', 'append_and_popleft'):
            m = model_sorted(m + [x])
            r = getattr(h, op)(x)
        elif op == 'extend':
            m = model_sorted(m + [x, 33])
            h.extend([x, 33])
        else:
            r = h.popleft_and_append(x)
        if op == 'append_and_popleft':
            ctx.check(r == m[0], 'append_and_popleft returns the smallest')
            m = m[1:]
        elif op == 'popleft_and_append':
            ctx.check(r == m[0], 'popleft_and_append returns the old smallest')
            m = model_sorted(m[1:] + [x])
    ctx.check(len(h) == len(m), 'len')
    for w in m:
        ctx.check(h.popleft() == w, 'drains in sorted order')
    ctx.check(not h, 'empty at the end')


FIXED = {
    12: [31, 4, 15, 92, 65, 35, 89, 79, 32, 38, 46],
    11: [3, 1, 4, 10, 5, 9, 2, 6, 8, 7],
    9: [50, 40, 60, 30, 70, 20, 80, 10],
    6: [5, 1, 4, 2, 3],
}


def _index_cases(tier):
    out = [dict(n=k) for k in (0, 1, 2, 3, 6, 9, 11, 12)]
    if tier == 'thorough':
        out.append(dict(n=4))
        out.append(dict(n=5))
    return out


def contents(ctx, n):
    if n in FIXED:
        return FIXED[n][:2] + [ctx.int('v')] + FIXED[n][2:]
    return [ctx.int(f'v{i}') for i in range(n)]


@harness('H02', cases=_index_cases, bounds='heaps of 0-3 (thorough 5) arbitrary integers, and of 6, 9, 11 and 12 elements one of which is arbitrary; every index from -n-3 to n+3')
def index(ctx, n):
    from big.heap import Heap
    vals = contents(ctx, n)
    h = Heap(vals)
    m = model_sorted(vals)
    i = ctx.int('i', -n - 3, n + 3)
    try:
        r = h[i]
    except IndexError:
        ctx.check(ctx.any([i < -n, i >= n]), 'IndexError only out of range')
        return
    ctx.check(ctx.all([i >= -n, i < n]), 'IndexError out of range')
    ctx.check_eq(r, m[i], 'h[i] is the i-th smallest')
    ctx.check_eq(h.queue, m, 'indexing does not change the heap')
    ctx.observe('r', r)


def _slice_cases(tier):
    out = []
    for n in (0, 1, 2, 3, 4, 6, 9, 12):
        for a in (0, 1):
            for b in (0, 1):
                for c in (None, 1, 2, -1, -2):
                    if tier == 'quick' and n in (4, 9, 12) and c not in (None, 1, -2 if n == 4 else 1):
                        continue
                    out.append(dict(n=n, a=a, b=b, c=c))
    return out


@harness('H02', cases=_slice_cases, bounds='heaps of 0-4 arbitrary integers, and of 6, 9 and 12 elements one of which is arbitrary; slices with start and stop each absent or any integer from -n-2 to n+2, step absent, 1, 2, -1 or -2 (quick: 4, 9 and 12 elements with step absent or 1, 4 also with -2)')
def slices(ctx, n, a, b, c):
    from big.heap import Heap
    vals = contents(ctx, n)
    h = Heap(vals)
    m = model_sorted(vals)
    start = ctx.int('start', -n - 2, n + 2) if a else None
    stop = ctx.int('stop', -n - 2, n + 2) if b else None
    r = h[start:stop:c]
    ctx.check_eq(r, m[start:stop:c], 'h[a:b:c] is the slice of the sorted contents')
    ctx.check_eq(h.queue, m, 'slicing does not change the heap')
    ctx.observe('r', r)


@harness('H03', cases=lambda tier: [dict(n=k, op=op) for k in range(0, 4) for op in [None] + OPS],
         bounds='heaps of up to 3 arbitrary integers; one arbitrary modification at every point of the iteration')
def iteration(ctx, n, op):
    from big.heap import Heap
    vals = [ctx.int(f'v{i}') for i in range(n)]
    h = Heap(vals)
    m = model_sorted(vals)
    it = iter(h)
    got = []
    stop = ctx.int('stop', 0, n) if op else n + 1
    changed = False
    while True:
        if len(got) == stop:
            before = h.queue
            if op != 'popleft' and op != 'clear' and op != 'extend':
                x = ctx.int('x')
            try:
                if op == 'extend':
                    h.extend([ctx.int('e')])
                elif op in ('popleft', 'clear'):
                    getattr(h, op)()
                else:
                    getattr(h, op)(x)
                changed = True
            except (IndexError, ValueError):
                ctx.check_eq(h.queue, before, 'a failed operation changes nothing')
            stop = None
        try:
            v = next(it)
        except StopIteration:
            ctx.check(not changed, 'a modified heap cannot be iterated further')
            ctx.check(len(got) == n, 'iteration yields every element')
            break
        except RuntimeError:
            ctx.check(changed, 'RuntimeError only after a modification')
            ctx.reach('modified')
            break
        ctx.check(not changed, 'a modified heap cannot be iterated further')
        ctx.check(v == m[len(got)], 'iteration is in sorted order')
        got.append(v)
    if not changed:
        ctx.check_eq(h.queue, m, 'iterating consumes nothing')
        ctx.check_eq(list(h), m, 'list() iterates too')
        ctx.check_eq([v for v in iter(iter(h))], m, 'iterators are iterable')
        ctx.reach('complete')


@harness('H03', cases=lambda tier: [dict(n=k, ops=[a, b] if c is None else [a, b, c]) for k in ((0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)) for a in OPS for b in OPS for c in [None] + OPS],
         bounds='heaps of up to 3 (thorough 4) arbitrary integers; two or three arbitrary modifications in a row at any point of one iteration or of two started at different times')
def iteration_again(ctx, n, ops):
    from big.heap import Heap
    h = Heap([ctx.int(f'v{i}') for i in range(n)])
    early = iter(h)
    ended = [False, False]
    for i in range(ctx.choice('early', [0, 1])):
        ended[0] = next(early, None) is None
    late = None
    early_ok = late_ok = None     # True: must go on, False: must raise, None: either
    for k, op in enumerate(ops):
        if k == len(ops) - 1 and ctx.bool('second iterator'):
            late = iter(h)
            ended[1] = next(late, None) is None
            late_ok = True
        if k == 0:
            early_ok = True
        size = len(h)
        try:
            if op == 'extend':
                h.extend([ctx.int(f'x{k}')])
            elif op in ('popleft', 'clear'):
                getattr(h, op)()
            else:
                getattr(h, op)(ctx.int(f'x{k}'))
        except (IndexError, ValueError):
            continue
        r = None if op == 'clear' and not size else False
        early_ok = False if early_ok is False else r
        if late is not None:
            late_ok = r
    want = [v for v in h.queue]
    for it, ok, end in ((early, early_ok, ended[0]), (late, late_ok, ended[1])):
        if it is None or ok is None or end:
            continue
        try:
            next(it, None)
        except RuntimeError:
            ctx.check(not ok, 'RuntimeError only after a modification')
        else:
            ctx.check(ok, 'a modified heap cannot be iterated further')
    ctx.check_eq(list(h), want, 'a new iterator starts from the new contents')
    ctx.reach('again')


@harness('H03', cases=lambda tier: [dict(n=k, op=op) for k in range(0, 4) for op in OPS],
         bounds='heaps of up to 3 arbitrary integers; one arbitrary operation on either the copy or the original')
def copies(ctx, n, op):
    from big.heap import Heap
    vals = [ctx.int(f'v{i}') for i in range(n)]
    h = Heap(vals)
    c = h.copy()
    m = model_sorted(vals)
    ctx.check(c == h, 'a copy is equal to the original')
    ctx.check(type(c) is Heap, 'copy type')
    ctx.check_eq(vals, list(vals), 'the argument is left alone')
    a, b = (h, c) if ctx.bool('which') else (c, h)
    m2 = step_op(ctx, a, m, op, 0)
    ctx.check_eq(b.queue, m, 'the other heap is unaffected')
    same = len(m) == len(m2) and all(x == y for x, y in zip(m, m2))
    ctx.check((a == b) == same, 'equality is equality of the sorted contents')
    ctx.check((a != b) == (not same), 'inequality')
    ctx.check(not (a == m2), 'a heap is not equal to a list')
    ctx.observe('q', a.queue)


@harness('H01', cases=lambda tier: [dict(n=n, m=m) for n in range(0, 5) for m in range(0, 5 if tier == 'thorough' else 4) if n >= m and (n - m < 2)],
         bounds='two heaps of up to 3 and 4 (thorough 4 and 4) arbitrary integers; one filled at once, one by one append after the other')
def equal(ctx, n, m):
    from big.heap import Heap
    x = [ctx.int(f'x{i}') for i in range(n)]
    y = [ctx.int(f'y{i}') for i in range(m)]
    a, b = Heap(x), Heap()
    for v in y:
        b.append(v)
    same = n == m and all(p == q for p, q in zip(model_sorted(x), model_sorted(y)))
    ctx.check((a == b) == same, 'equality is equality of the sorted contents', lambda: (x, y))
    ctx.check((b != a) == (not same), 'inequality', lambda: (x, y))
    ctx.reach('equal')


READS = {
    'index': lambda h, x: [h[i] for i in range(-len(h), len(h))], 'slice': lambda h, x: [h[1:], h[:2], h[::-1], h[-2:]], 'in': lambda h, x: x in h, 'queue': lambda h, x: h.queue.clear(), 'copy': lambda h, x: h.copy().append(x),
    'copy pop': lambda h, x: [h.copy().popleft() for i in range(bool(h))], 'copy clear': lambda h, x: h.copy().clear(), 'eq': lambda h, x: [h == h.copy(), h != [x]], 'iter': lambda h, x: list(h), 'partial': lambda h, x: next(iter(h), None),
    'len': lambda h, x: (len(h), bool(h)), 'list pop': lambda h, x: [h[0:].clear(), h[:len(h)].clear(), h[:].clear()],
}


@harness('H03', cases=lambda tier: [dict(n=k, op=op) for k in (1, 3, 9, 12) for op in READS],
         bounds='heaps of 1 and 3 arbitrary integers, and of 9 and 12 elements one of which is arbitrary; at every point of an iteration any of 12 kinds of reading, or of changing a copy or a list that was returned')
def reads(ctx, n, op):
    from big.heap import Heap
    vals = contents(ctx, n)
    h = Heap(vals)
    m = model_sorted(vals)
    it = iter(h)
    at = ctx.choice('at', range(n + 1) if n < 4 else (0, 1, n // 2, n))
    got = []
    for i in range(n + 1):
        if i == at:
            READS[op](h, 7)
        v = next(it, None)
        if v is not None:
            got.append(v)
    ctx.check_eq(got, m, 'an iteration that is only read beside yields everything, in sorted order')
    ctx.check_eq(h.queue, m, 'reading changes nothing')
    ctx.check(len(h) == n, 'len')
    for v in m:
        ctx.check(h.popleft() == v, 'drains in sorted order')
    ctx.reach('reads')


@harness('H03', cases=lambda tier: [dict(n=k, ops=ops) for k in (2, 9, 12) for ops in (['popleft'], ['remove'], ['append'], ['popleft', 'append'], ['append_and_popleft'], ['popleft_and_append'], ['extend', 'remove'], ['clear', 'append'])],
         bounds='heaps of 2, 9 and 12 elements (one arbitrary) after one or two modifications: iteration, a copy, the copy modified, and iterations of both')
def after(ctx, n, ops):
    from big.heap import Heap
    vals = contents(ctx, n)
    h = Heap(vals)
    m = model_sorted(vals)
    for k, op in enumerate(ops):
        if op == 'remove':
            i = ctx.choice('removed', [0, 1, n // 2, n - 1])
            h.remove(m[i])
            m = m[:i] + m[i + 1:]
        elif op == 'clear':
            h.clear()
            m = []
        elif op == 'popleft':
            h.popleft()
            m = m[1:]
        else:
            x = ctx.choice(f'x{k}', [-3, 33, 99])
            getattr(h, op)([x, 34] if op == 'extend' else x)
            m = model_sorted((m[1:] if op == 'popleft_and_append' else m) + ([x, 34] if op == 'extend' else [x]))
            if op == 'append_and_popleft':
                m = m[1:]
    ctx.check_eq(list(h), m, 'iteration is in sorted order')
    c = h.copy()
    ctx.check(c == h and h == c, 'a copy is equal to the original')
    a, b = iter(h), iter(c)
    first = next(a, None)
    if m:
        ctx.check(first == m[0], 'iteration is in sorted order')
    c.append(5)
    try:
        next(b)
        ctx.fail('a modified heap cannot be iterated further')
    except RuntimeError:
        pass
    ctx.check_eq(list(a), m[1:], 'modifying a copy does not disturb an iteration of the original')
    ctx.check_eq(list(c), model_sorted(m + [5]), 'iteration is in sorted order')
    ctx.check_eq(h.queue, m, 'the other heap is unaffected')
    ctx.reach('after')


VIEWS = [slice(None, None, 2), slice(None, None, -1), slice(1, 3), slice(0, 2), slice(1, None), 0, 1, -1, -2]


def _view(ctx, h, m, view):
    try:
        r = h[view]
    except IndexError:
        ctx.check(isinstance(view, int) and not (-len(m) <= view < len(m)), 'only an index outside the heap is refused')
        return
    if isinstance(view, int):
        ctx.check(-len(m) <= view < len(m), 'an index outside the heap is refused')
        ctx.check(r == m[view], 'an index is that of the sorted contents', lambda: (view, r, m))
    else:
        ctx.check_eq(r, m[view], 'a slice is that of the sorted contents')


@harness('H02', cases=lambda tier: [dict(n=n, ops=ops) for n in ((3, 11) if tier == 'quick' else (2, 3, 11, 12)) for ops in
                                    ([o] for o in OPS + ['copy', 'clear append'])] + [dict(n=n, ops=[a, 'copy', b]) for n in ((2,) if tier == 'quick' else (2, 3, 11)) for a in OPS for b in OPS],
         bounds='heaps of 2, 3 and 11 (thorough 2, 3, 11 and 12) elements, up to three of them arbitrary, read by any of nine indexes and slices before and after an operation, a copy, or an operation, a copy and another operation; the heap and its copy')
def read_again(ctx, n, ops):
    from big.heap import Heap
    vals = [ctx.int(f'v{i}') for i in range(n)] if n < 5 else [10 * ((7 * i) % n) for i in range(n)]
    if n >= 5:
        vals[3] = ctx.int('v')
    h, m = Heap(vals), model_sorted(vals)
    first = ctx.choice('first', VIEWS)
    _view(ctx, h, m, first)
    others = []
    for k, op in enumerate(ops):
        if op == 'copy':
            others.append((h, m))
            h = h.copy()
            if ctx.bool('go on with the original'):
                others[-1], (h, m) = (h, m), others[-1]
        elif op == 'clear append':
            h.clear()
            x = ctx.int('x')
            h.append(x)
            m = [x]
        else:
            m = step_op(ctx, h, m, op, k)
        if k < len(ops) - 1 and ops[k] != 'copy':
            _view(ctx, h, m, first)
    for g, mm in [(h, m)] + others:
        for view in VIEWS:
            _view(ctx, g, mm, view)
    ctx.reach('read')


class Broken(Exception):
    pass


def _source(how, vals, h):
    if how == 'list':
        return list(vals)
    if how == 'tuple':
        return tuple(vals)
    if how == 'generator':
        return (v for v in vals)
    if how == 'iterator':
        return iter(list(vals))
    if how == 'heap':
        return type(h)(vals)
    if how == 'dict':
        return {i: v for i, v in enumerate(vals)}.values()


@harness('H01', cases=lambda tier: [dict(how=k, n=n, m=m) for k in ('list', 'tuple', 'generator', 'iterator', 'heap', 'dict', 'itself', 'its queue', 'raises') for n in range(0, 4) for m in range(0, 3)
                                    if m or k not in ('itself', 'its queue')],
         bounds='a heap of up to 3 arbitrary integers extended by up to 2 (made from as many) taken from any of seven kinds of iterables, by itself, or by an iterator that raises before, between or after them; then one operation and draining')
def sources(ctx, how, n, m):
    from big.heap import Heap
    vals = [ctx.int(f'v{i}') for i in range(n)]
    more = [ctx.int(f'w{i}') for i in range(m)]
    h = Heap(vals)
    want = model_sorted(vals)
    if how == 'raises':
        at = ctx.choice('at', list(range(m + 1)))

        def source():
            for i, w in enumerate(more):
                if i == at:
                    raise Broken
                yield w
            raise Broken
        try:
            Heap(source())
            ctx.fail('an error of the iterable is passed on')
        except Broken:
            pass
        it = iter(h)
        try:
            h.extend(source())
            ctx.fail('an error of the iterable is passed on')
        except Broken:
            pass
        # what was read before the error may or may not have been added
        k = len(h) - n
        ctx.check(0 <= k <= at, 'nothing is lost or invented when the iterable raises')
        want = model_sorted(vals + more[:k])
        if k:
            try:
                next(it)
                ctx.fail('an iteration notices the values that were added')
            except RuntimeError:
                pass
    elif how in ('itself', 'its queue'):
        for i in range(m):
            h.extend(h if how == 'itself' else h.queue)
            want = model_sorted(want + want)
    else:
        ctx.check_eq(Heap(_source(how, more, h)).queue, model_sorted(more), 'a heap holds the values it was made from')
        src = _source(how, more, h)
        h.extend(src)
        want = model_sorted(want + more)
        if how in ('list', 'heap'):
            ctx.check_eq(list(src), more if how == 'list' else model_sorted(more), 'the source is unchanged')
    ctx.check(len(h) == len(want), 'len')
    ctx.check_eq(h.queue, want, 'queue is the sorted contents')
    if want:
        ctx.check(h[0] == want[0], 'the first value is the smallest')
        x = ctx.int('x')
        ctx.check(h.popleft_and_append(x) == want[0], 'popleft_and_append returns the old smallest')
        want = model_sorted(want[1:] + [x])
    for v in want:
        ctx.check(h.popleft() == v, 'drains in sorted order')
    ctx.check(not h, 'empty at the end')
    ctx.reach(how)
