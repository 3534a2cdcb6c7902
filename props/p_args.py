"""Which separators, quotes, delimiters and comment markers the text functions of big/text.py accept."""
from sx.registry import harness

KINDS = (TypeError, ValueError, SyntaxError, IndentationError)


def outcome(f):
    """None if the call works, else the class of its exception; any other exception escapes"""
    try:
        r = f()
        if hasattr(r, '__next__'):
            for _ in r:
                pass
    except KINDS as e:
        if '__hash__ method' in str(e):
            from sx.engine import Unsupported
            raise Unsupported('native use of a symbolic hash')
        return TypeError if isinstance(e, TypeError) else ValueError if isinstance(e, ValueError) else SyntaxError
    return None


def _calls(X, b):
    """name: the function of a text and a collection of markers"""
    c = b'#' if b else '#'
    D = X.Delimiter
    z = b']' if b else ']'
    return {
        'multisplit': lambda s, m: X.multisplit(s, m),
        'multisplit-reverse': lambda s, m: X.multisplit(s, m, reverse=True, keep=True),
        'multistrip': lambda s, m: X.multistrip(s, m),
        'multipartition': lambda s, m: X.multipartition(s, m),
        'multirpartition': lambda s, m: X.multirpartition(s, m),
        'normalize_whitespace': lambda s, m: X.normalize_whitespace(s, m),
        'apostrophes': lambda s, m: X.gently_title(s, apostrophes=m),
        'double_quotes': lambda s, m: X.gently_title(s, double_quotes=m),
        'quotes': lambda s, m: X.split_quoted_strings(s, m),
        'multiline_quotes': lambda s, m: X.split_quoted_strings(s, (z,), multiline_quotes=m),
        'openers': lambda s, m: X.split_delimiters(s, {k: D(z) for k in m}),
        'closers': lambda s, m: X.split_delimiters(s, {(bytes([40 + i]) if b else chr(40 + i)): D(k) for i, k in enumerate(m)}),
        'lines': lambda s, m: X.lines(s, m),
        'lines_filter_line_comment_lines': lambda s, m: X.lines_filter_line_comment_lines(X.lines(s), m),
        'lines_strip_line_comments': lambda s, m: X.lines_strip_line_comments(X.lines(s), m),
        'comment-quotes': lambda s, m: X.lines_strip_line_comments(X.lines(s), c, quotes=m),
        'comment-multiline': lambda s, m: X.lines_strip_line_comments(X.lines(s), c, multiline_quotes=m),
    }


NAMES = ['multisplit', 'multisplit-reverse', 'multistrip', 'multipartition', 'multirpartition', 'normalize_whitespace', 'apostrophes', 'double_quotes', 'quotes', 'multiline_quotes',
         'openers', 'closers', 'lines', 'lines_filter_line_comment_lines', 'lines_strip_line_comments', 'comment-quotes', 'comment-multiline']
# functions that document ValueError for an empty marker, or for no markers at all
NO_EMPTY = {'multistrip', 'normalize_whitespace', 'apostrophes', 'double_quotes', 'quotes', 'multiline_quotes', 'comment-quotes', 'comment-multiline'}
NO_NONE = {'quotes', 'multisplit', 'multisplit-reverse', 'multistrip', 'multipartition', 'multirpartition', 'normalize_whitespace', 'apostrophes', 'double_quotes', 'openers', 'closers',
           'lines_filter_line_comment_lines', 'lines_strip_line_comments'}
NO_REPEAT = {'quotes', 'multiline_quotes', 'comment-quotes', 'comment-multiline'}
COLL = {'list': list, 'tuple': tuple, 'dict': dict.fromkeys, 'set': set, 'iterator': iter}


def settle(x, alphabet):
    """one path per value of x: tables keyed by objects that hold x need its hash"""
    for c in x:
        for a in alphabet:
            if c == (ord(a) if isinstance(c, int) or not isinstance(x, str) else a):
                break


def _text(ctx, b, name, n, alphabet='abc'):
    return ctx.bytes(name, n, alphabet.encode()) if b else ctx.str(name, n, alphabet)


def _mixed_cases(tier):
    out = []
    for f in NAMES:
        for b in (False, True):
            for k in (1, 2, 3) if tier != 'quick' else (1, 2):
                out.append(dict(f=f, b=b, k=k))
    return out


@harness('E04', cases=_mixed_cases, bounds='seventeen functions and arguments, collections of up to 2 (thorough 3) one-character markers (lists, tuples, dictionaries, iterators), one of them, or the whole argument, of the other string type, a number or None; texts of up to 2 characters')
def mixed(ctx, f, b, k):
    import big.text as X
    fn = _calls(X, b)[f]
    s = _text(ctx, b, 's', ctx.choice('n', [0, 2]), 'abc#')
    bad = ctx.choice('bad', ['type', 'int', 'none', 'whole'] if k == 1 else ['type', 'int', 'none'])
    if bad == 'whole':
        m = _text(ctx, not b, 'm', 1)
        if f == 'closers':
            settle(m, 'abc')
        r = outcome(lambda: fn(s, m))
        ctx.check(r is TypeError, 'markers of the other string type are refused with TypeError', lambda: (f, m, r))
        return
    at = ctx.int('at', 0, k - 1).__index__()
    ms = []
    for i in range(k):
        ms.append(_text(ctx, b, f'm{i}', 1) if i != at else {'type': _text(ctx, not b, f'm{i}', 1), 'int': 97, 'none': None}[bad])
    if k > 1:
        for i in range(k):
            for j in range(i):
                if at not in (i, j):
                    ctx.assume(ms[i] != ms[j])
    if f == 'closers':
        for x in ms:
            if x not in (97, None):
                settle(x, 'abc')
    how = ctx.choice('collection', ['list', 'tuple', 'dict', 'iterator'])
    m = COLL[how](ms)
    r = outcome(lambda: fn(s, m))
    want = (TypeError, ValueError) if bad != 'type' and f == 'lines_strip_line_comments' else (TypeError,)
    ctx.check(r in want, 'a marker of another type is refused with TypeError, wherever it is', lambda: (f, m, r))


def _value_cases(tier):
    out = []
    for f in NAMES:
        for b in (False, True):
            for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
                out.append(dict(f=f, b=b, k=k))
    return out


@harness('E04', cases=_value_cases, bounds='seventeen functions and arguments, collections of up to 2 (thorough 3) arbitrary markers of up to 2 characters, empty and repeated ones included, in lists, tuples, dictionaries, sets or one-shot iterators')
def values(ctx, f, b, k):
    import big.text as X
    fn = _calls(X, b)[f]
    s = _text(ctx, b, 's', ctx.choice('n', [0, 1]), 'abc')
    ms = [_text(ctx, b, f'm{i}', ctx.choice(f'len{i}', [0, 1, 2]), 'ab') for i in range(k)]
    for i in range(k):
        for j in range(i):
            ms[i] == ms[j]
    if f == 'closers':
        for x in ms:
            settle(x, 'ab')
    empty = any(len(x) == 0 for x in ms)
    repeat = any(ms[i] == ms[j] for i in range(k) for j in range(i))
    how = ctx.choice('collection', ['list', 'tuple', 'dict', 'set', 'iterator'][:5 if k else 4])
    if how in ('dict', 'set'):
        repeat = False                        # the collection itself has none
    m = COLL[how](ms)
    want = ValueError if ((f in NO_NONE and not k) or (f in NO_EMPTY and empty) or (f in NO_REPEAT and repeat)) else None
    if want is None and empty and f not in NO_EMPTY:
        ctx.check(True, 'the meaning of an empty marker is not documented here')
        return
    r = outcome(lambda: fn(s, m))
    if want is None and r is SyntaxError:     # an opened quote that is not closed, or a wrong delimiter
        ctx.check(f in ('openers', 'closers', 'comment-quotes', 'comment-multiline', 'quotes', 'multiline_quotes'), 'only quotes and delimiters have a syntax', lambda: (f, s, m))
        return
    ctx.check(r is want, 'no markers, an empty or a repeated marker: ValueError where documented; anything else is accepted', lambda: (f, s, m, r, want))


@harness('E04', cases=lambda tier: [dict(b=b, q=q, m=m) for b in (False, True) for q in (0, 1, 2) for m in (0, 1, 2) if q + m < (4 if tier == 'quick' else 5)],
         bounds='up to two quotes and up to two multiline quotes of one or two arbitrary characters, any initial state, escape string of either type or None, the argument that validates quotes for comment stripping included')
def roles(ctx, b, q, m):
    import big.text as X
    e = b'' if b else ''
    n = 2 if q + m < 3 else 1
    qs = [_text(ctx, b, f'q{i}', ctx.choice(f'ql{i}', range(1, n + 1)), 'abc') for i in range(q)]
    ms = [_text(ctx, b, f'm{i}', ctx.choice(f'ml{i}', range(1, n + 1)), 'abc') for i in range(m)]
    al = qs + ms
    repeat = any(al[i] == al[j] for i in range(len(al)) for j in range(i))
    s = _text(ctx, b, 's', 1, 'xy')
    esc = ctx.choice('escape', ['default', 'none', 'text', 'empty', 'other'])
    escape = {'none': None, 'text': b'^' if b else '^', 'empty': e, 'other': '^' if b else b'^'}.get(esc)
    kw = {} if esc == 'default' else dict(escape=escape)
    st = ctx.choice('state', ['none', 'empty', 'text', 'other'])
    state = {'none': None, 'empty': e, 'other': 'a' if b else b'a'}.get(st)
    if st == 'text':
        state = _text(ctx, b, 'state', ctx.choice('sl', range(1, n + 1)), 'abc')
    want = set()
    if not al or repeat:
        want.add(ValueError)
    if st == 'text' and not any(state == x for x in al):
        want.add(ValueError)
    if st == 'other' or esc == 'other':
        want.add(TypeError)
    r = outcome(lambda: X.split_quoted_strings(s, qs, multiline_quotes=ms, state=state, **kw))
    if want:
        ctx.check(r in want, 'a quote in two roles, an unknown state or a wrong type is refused', lambda: (qs, ms, state, esc, r, want))
    else:
        ctx.check(r is None, 'distinct quotes, an escape string and a known state are accepted', lambda: (qs, ms, state, esc, r))
    if st == 'none' and al:
        r = outcome(lambda: X.lines_strip_line_comments(X.lines(s), b'#' if b else '#', quotes=qs, multiline_quotes=ms, **kw))
        want = {ValueError} if repeat else set()
        if esc == 'other':
            want.add(TypeError)
        if want:
            ctx.check(r in want, 'comment stripping refuses the same quotes', lambda: (qs, ms, esc, r, want))
        else:
            ctx.check(r is None, 'comment stripping accepts the same quotes', lambda: (qs, ms, esc, r))


@harness('E04', cases=lambda tier: [dict(b=b, k=k) for b in (False, True) for k in (1, 2) + ((3,) if tier != 'quick' else ())],
         bounds='up to 2 (thorough 3) delimiters: opening and closing strings of any of four characters (backslash included), escape absent or given, quoting and multiline in every combination; an initial state of up to two arbitrary openers')
def delimiters(ctx, b, k):
    import big.text as X
    A = 'ab\\' if k == 3 else 'abc\\'
    bs = b'\\' if b else '\\'
    e = b'' if b else ''
    ds, nested, spec = {}, [], []
    for i in range(k):
        o, c = _text(ctx, b, f'o{i}', 1, A), _text(ctx, b, f'c{i}', 1, A)
        if k < 3:
            esc = ctx.choice(f'escape{i}', [e, b'^', b'//'] if b else [e, '^', '//'])
            quoting, multi = ctx.bool(f'quoting{i}'), ctx.bool(f'multiline{i}') if k == 1 else True
        else:
            quoting, multi = ctx.bool(f'quoting{i}'), True
            esc = (b'^' if b else '^') if quoting else e
        try:
            d = X.Delimiter(c, escape=esc, quoting=quoting, multiline=multi)
        except ValueError:
            d = None
        good = not (c == bs or bool(esc) != quoting or not (quoting or multi))
        ctx.check((d is not None) == good, 'a Delimiter is refused exactly for a backslash, an escape that does not fit quoting, or a single line without quoting', lambda: (c, esc, quoting, multi))
        if d is None:
            return
        ctx.check(d.close == c and d.escape == esc and d.quoting is quoting and d.multiline is multi, 'a Delimiter has what it was given', lambda: (d, c, esc))
        twin = X.Delimiter(d)
        ctx.check(twin == d and d.copy() == d and hash(twin) == hash(d), 'a copy of a Delimiter equals it')
        for prev, (c2, e2, q2, m2) in spec:
            same = bool(c2 == c) and e2 == esc and q2 == quoting and m2 == multi
            ctx.check((prev == d) == same, 'delimiters are equal exactly when their parts are', lambda: (prev, d))
        spec.append((d, (c, esc, quoting, multi)))
        for o2 in ds:
            ctx.assume(o2 != o)
        ds[o] = d
        if not quoting:
            nested.append(c)
    openers = list(ds)
    bad = any(o == bs for o in openers) or any(o == c for o in openers for c in nested)
    st = ctx.int('state', 0, 2 if k < 3 else 1).__index__()
    state = [_text(ctx, b, f'st{i}', 1, A) for i in range(st)]
    wrong = False
    for i, x in enumerate(state):
        hit = [o for o in openers if o == x]
        if not hit:
            wrong = True
            break
        if i + 1 < st and ds[hit[0]].quoting:      # nothing opens inside a quoting delimiter
            wrong = True
            break
    s = b'' if b else ''
    r = outcome(lambda: X.split_delimiters(s, ds, state=state))
    ctx.check(r is (ValueError if bad or wrong else None), 'delimiters are refused exactly for a backslash, an opener that also closes, or an impossible state', lambda: (ds, state, r))


@harness('E04', cases=lambda tier: [dict(b=b) for b in (False, True)], bounds='counts from -3 to 3, split arrays and texts of up to 4 characters, line information of every field of either type, match names of up to 2 characters')
def others(ctx, b):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    what = ctx.choice('what', ['count', 'combine', 'info', 'lines', 'wrap', 'match'])
    s = _text(ctx, b, 's', 2, 'ab')
    if what == 'count':
        c = ctx.int('count', -3, 3)
        for f in (lambda: X.multipartition(s, (t('a'),), count=c), lambda: X.multirpartition(s, (t('a'),), count=c), lambda: X.re_partition(s, t('a'), count=c), lambda: X.re_rpartition(s, t('a'), count=c)):
            r = outcome(f)
            ctx.check(r is (ValueError if c < 0 else None), 'a negative count is refused', lambda: (c, r))
    elif what == 'combine':
        lens = [ctx.choice(f'n{i}', range(4)) for i in range(2)]
        r = outcome(lambda: X.combine_splits(s, [t('x') * lens[0], t('x') * lens[1]]))
        ctx.check(r is (ValueError if sum(lens) > 2 else None), 'a split array longer than the text is refused', lambda: (lens, r))
    elif what == 'info':
        field = ctx.choice('field', ['line', 'line_number', 'column_number', 'indent', 'leading', 'trailing', 'end', 'match'])
        given = ctx.choice('given', ['text', 'other', 'int', 'none'])
        import re
        v = {'text': s, 'other': _text(ctx, not b, 'o', 1, 'ab'), 'int': 3, 'none': None}[given]
        a = dict(line=s, line_number=1, column_number=1)
        a[field] = v
        want = {'line': ('text', 'other'), 'line_number': ('int',), 'column_number': ('int',), 'indent': ('int',), 'match': ('none',)}.get(field, ('text', 'none'))
        ls = X.lines(s)
        r = outcome(lambda: X.LineInfo(ls, **a) and None)
        ctx.check(r is (None if given in want else TypeError), 'line information of a wrong type is refused', lambda: (field, given, r))
        if r is None:
            i = X.LineInfo(ls, **a)
            got = getattr(i, field)
            ctx.check((got == v and type(got) is type(v)) if v is not None or field == 'match' else (got == t('') and type(got) is type(t(''))), 'line information keeps what it is given', lambda: (field, v, got))
    elif what == 'lines':
        field = ctx.choice('field', ['line_number', 'column_number', 'tab_width', 'separators'])
        if field == 'separators':
            r = outcome(lambda: X.lines([s], (t('a'),)))
            ctx.check(r is ValueError, 'separators for lines already split are refused', lambda: r)
            k = ctx.choice('len', range(4))
            r = outcome(lambda: X.lines([(s,) * k]))
            ctx.check(r is (None if k == 2 else ValueError), 'tuples other than pairs are refused', lambda: (k, r))
        else:
            v = ctx.choice('v', [3, '3', None, 1.5])
            r = outcome(lambda: X.lines(s, **{field: v}))
            ctx.check(r is (None if v == 3 else TypeError), 'numbers of a wrong type are refused', lambda: (field, v, r))
    elif what == 'wrap':
        r = outcome(lambda: X.wrap_words([], 10) and None)
        ctx.check(r is ValueError, 'no words to wrap', lambda: r)
    else:
        name = ctx.choice('name', ['m', '', 'a b', '1', 'class', '_x', 'a.b'])
        r = outcome(lambda: X.lines_grep(X.lines(s), t('a'), match=name))
        ctx.check(r is (None if name.isidentifier() else ValueError), 'a match name that is no identifier is refused', lambda: (name, r))
