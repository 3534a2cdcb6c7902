"""Event log (big/log.py)."""
from sx.registry import harness

NS = 10 ** 9


def history(ctx, steps, span, dts=None, names=()):
    """a log driven through a symbolic history; returns it and the expected list of (time, event, depth)"""
    import big.log as X
    now = {'t': ctx.int('t0', 0, span), 'n': 0}

    def clock():
        if now['n']:
            k = now['n'] - 1
            now['t'] = now['t'] + (ctx.int('dt', 0, span) if dts is None or k >= len(dts) or dts[k] is None else dts[k])
        now['n'] += 1
        return now['t']
    log = X.Log(clock=clock)
    start = now['t']
    want = [(0, 'log start', 0)]
    stack = []
    for k in range(steps):
        op = ctx.choice('op', ['log', 'enter', 'exit', 'reset'])
        if op == 'log':
            name = names[k] if k < len(names) and names[k] is not None else ('ev', 'a longer event', '')[k % 3]
            log(name)
            want.append((now['t'] - start, name, len(stack)))
        elif op == 'enter':
            name = names[k] if k < len(names) and names[k] is not None else ('sub', 'subsystem number two')[k % 2]
            log.enter(name)
            want.append((now['t'] - start, name + ' start', len(stack)))
            stack.append(name)
        elif op == 'exit':
            n = now['n']
            try:
                log.exit()
                ctx.check(len(stack) > 0, 'leaving a subsystem that was not entered is refused')
                name = stack.pop()
                want.append((now['t'] - start, name + ' end', len(stack)))
            except IndexError:
                ctx.check(not stack, 'only leaving a subsystem that was not entered is refused')
                ctx.check(now['n'] == n, 'a refused exit logs nothing')
        else:
            log.reset()
            start = now['t']
            want = [(0, 'log start', 0)]
            stack = []
    return log, want


@harness('P01', cases=lambda tier: [dict(steps=k) for k in range(0, 6 if tier == 'quick' else 7)],
         bounds='every history of up to 5 (thorough 6) events, entered and left subsystems and resets, every nondecreasing clock')
def events(ctx, steps):
    log, want = history(ctx, steps, 10 ** 15)
    for again in range(2):
        r = list(log)
        ctx.check(len(r) == len(want), 'every event since the last reset is there once', lambda: (r, want))
        for i, (t, event, depth) in enumerate(want):
            nxt = want[i + 1][0] if i + 1 < len(want) else t
            ctx.check(r[i][0] == t, 'an event starts at the time it was logged, relative to the start of the log', lambda: (i, r, want))
            ctx.check(r[i][1] == nxt - t, 'an event lasts until the next one', lambda: (i, r, want))
            ctx.check(tuple(r[i][2:]) == (event, depth), 'events come in order with their text and depth', lambda: (i, r, want))
    ctx.reach('events')


@harness('P01', cases=lambda tier: [dict(steps=k) for k in range(0, 3 if tier == 'quick' else 4)],
         bounds='iteration while events are logged: up to 2 (thorough 3) events before, between and after')
def during(ctx, steps):
    log, want = history(ctx, steps, 1000)
    it = iter(log)
    got = [next(it)]
    log('late')
    got.extend(it)
    ctx.check([tuple(x)[2:] for x in got] == [w[1:] for w in want], 'an iteration shows the events logged before it started', lambda: (got, want))
    ctx.reach('during')


def _print_cases(tier):
    a, b, c, d = 12_000_000, 999_999_999, 1_000_000_000, 61_500_000_001
    out = [dict(steps=k, fw=9, sw=2, dts=d) for k, d in ((0, ()), (1, (None,)), (2, (d, None)), (2, (None, b)), (3, (c, b, 1)), (3, (d, 0, d)), (4, (a, b, c, d)), (4, (0, d, b, b)))]
    if tier != 'quick':
        out += [dict(steps=k, fw=9, sw=2, dts=d) for k, d in ((2, (a, None)), (3, (c, None, a)), (3, (None, d, b)), (5, (a, c, b, d, 0)), (5, (d, d, 1, c, b)))]
    return out + [dict(steps=k, fw=f, sw=s, dts=d) for k, d in ((1, (None,)), (2, (b, d))) for f, s in ((3, 2), (6, 4), (1, 1), (8, 3))]


@harness('P01', cases=_print_cases, bounds='every history of up to 4 (thorough 5) steps; one step of any duration up to 200 seconds, the others of given durations; several widths, titles, headings and indents')
def printed(ctx, steps, fw, sw, dts):
    log, want = history(ctx, steps, 2 * 10 ** 11, dts)
    out = []
    kw = {} if (fw, sw) == (9, 2) else dict(fractional_width=fw, seconds_width=sw)
    title = ctx.choice('title', ['default', None, 'T']) if steps < 2 else 'default'
    headings = ctx.bool('headings') if steps < 2 else True
    indent = ctx.choice('indent', [2, 0, 3]) if steps < 3 else 2
    if title != 'default':
        kw['title'] = title
    if not headings:
        kw['headings'] = False
    if indent != 2:
        kw['indent'] = indent
    log.print(print=out.append, **kw)
    head = []
    if title:
        head.append('[event log]' if title == 'default' else 'T')
    pad = ' ' * indent
    if headings:
        w = sw + 1 + fw
        head.append(pad + 'start'.ljust(w) + '  ' + 'elapsed'.ljust(w) + '  event')
        # the longest event ever logged since the last reset
        head.append(pad + '-' * w + '  ' + '-' * w + '  ' + '-' * max(len(e) for t, e, d in want))
    ctx.check(out[:len(head)] == head, 'title and headings', lambda: (out, head))
    rows = out[len(head):]
    ctx.check(len(rows) == len(want), 'one line per event', lambda: (out, want))

    def time_text(t):
        s, n = str(t // NS), str(t % NS)
        return '0' * (sw - len(s)) + s + '.' + ('0' * (9 - len(n)) + n)[:fw]
    for i, (t, event, depth) in enumerate(want):
        nxt = want[i + 1][0] if i + 1 < len(want) else t
        ctx.check(rows[i] == pad + time_text(t) + '  ' + time_text(nxt - t) + '  ' + pad * depth + event, 'each line shows seconds and fractions of both times and the indented event', lambda: (i, rows, want))
    ctx.reach('printed')


@harness('P01', cases=lambda tier: [dict(steps=k, at=a, n=n) for k, a in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 0)) for n in ((1, 3, 9, 14) if tier == 'quick' else (0, 1, 2, 3, 5, 9, 14, 17, 21))],
         bounds='every history of up to 3 steps, the text of one event or subsystem any characters: 1, 3, 9 or 14 of them (thorough 0 to 21)')
def any_text(ctx, steps, at, n):
    names = [None] * at + [ctx.str('name', n)]
    log, want = history(ctx, steps, 0, (0,) * 9, names)
    r = list(log)
    ctx.check(len(r) == len(want), 'every event since the last reset is there once', lambda: (r, want))
    for i, (t, event, depth) in enumerate(want):
        ctx.check(tuple(r[i]) == (0, 0, event, depth), 'events come in order with their text and depth', lambda: (i, r, want))
    out = []
    log.print(print=out.append)
    w = 2 + 1 + 9
    ctx.check(len(out) == 3 + len(want), 'one line per event', lambda: (out, want))
    ctx.check(out[2] == '  ' + '-' * w + '  ' + '-' * w + '  ' + '-' * max(len(e) for t, e, d in want), 'dashes as wide as the longest event', lambda: (out, want))
    for i, (t, event, depth) in enumerate(want):
        ctx.check(out[3 + i] == '  00.000000000  00.000000000  ' + '  ' * depth + event, 'each line shows the event as it was logged', lambda: (i, out, want))
    ctx.reach('any_text')


@harness('P01', cases=lambda tier: [dict(steps=k) for k in range(1, 5 if tier == 'quick' else 6)],
         bounds='two logs with clocks of their own, up to 4 (thorough 5) events, entered and left subsystems and resets interleaved in any way; then both are read')
def two(ctx, steps):
    import big.log as X
    now = [0, 0]

    def clock_of(i):
        def clock():
            now[i] = now[i] + ctx.int(f'dt{i}', 0, 1000)
            return now[i]
        return clock
    logs = [X.Log(clock_of(0)), X.Log(clock=clock_of(1))]
    start = list(now)
    want = [[(0, 'log start', 0)], [(0, 'log start', 0)]]
    stack = [[], []]
    for k in range(steps):
        i = ctx.choice('which', [0, 1])
        op = ctx.choice('op', ['log', 'enter', 'exit', 'reset'])
        log = logs[i]
        if op == 'exit' and not stack[i]:
            try:
                log.exit()
                ctx.fail('leaving a subsystem that was not entered is refused')
            except IndexError:
                continue
        if op == 'log':
            log(f'ev{k}')
            name = f'ev{k}'
            depth = len(stack[i])
        elif op == 'enter':
            log.enter(f'sub{k}')
            name, depth = f'sub{k} start', len(stack[i])
            stack[i].append(f'sub{k}')
        elif op == 'exit':
            log.exit()
            name = stack[i].pop() + ' end'
            depth = len(stack[i])
        else:
            log.reset()
            start[i] = now[i]
            stack[i] = []
            want[i] = []
            name, depth = 'log start', 0
        want[i].append((now[i] - start[i], name, depth))
    # the two are read in step
    its = [iter(logs[0]), iter(logs[1])]
    got = [[], []]
    for k in range(max(len(want[0]), len(want[1]))):
        for i in (0, 1):
            if k < len(want[i]):
                got[i].append(next(its[i]))
    for i in (0, 1):
        ctx.check(next(its[i], None) is None, 'a log shows its own events and no others', lambda: (got, want))
        for k, (t, event, depth) in enumerate(want[i]):
            nxt = want[i][k + 1][0] if k + 1 < len(want[i]) else t
            ctx.check(tuple(got[i][k][2:]) == (event, depth), 'a log keeps the events and subsystems logged to it', lambda: (got, want))
            ctx.check(got[i][k][0] == t and got[i][k][1] == nxt - t, 'at the times of its own clock', lambda: (got, want))
    ctx.reach('two')
