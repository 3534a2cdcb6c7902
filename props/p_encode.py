"""Text as str and as bytes (big/text.py): encode_strings, the whitespace tables, and every function on both."""
from sx.registry import harness


def enc(o):
    """the bytes counterpart of an object made of strings"""
    import big.text as X
    if isinstance(o, str):
        return o.encode('ascii')
    if isinstance(o, X.LineInfo):
        return (0, enc(o.line), o.line_number, o.column_number, enc(o.leading), enc(o.trailing), enc(o.end), getattr(o, 'match', None) is None)
    if isinstance(o, X.Delimiter):
        return X.Delimiter(enc(o.close), escape=enc(o.escape), multiline=o.multiline, quoting=o.quoting)
    if isinstance(o, dict):
        return {enc(k): enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)([enc(x) for x in o])
    return o


def run(f, *a, **kw):
    try:
        r = f(*a, **kw)
        if not isinstance(r, (str, bytes, tuple, list)):
            r = list(r)
        return (True, r)
    except (ValueError, SyntaxError, TypeError, OverflowError) as e:
        return (False, type(e))


def _lines(*mods):
    """lines() through modifiers, each (name, args, kwargs)"""
    def f(X, s, t):
        li = X.lines(s)
        for name, a, kw in mods:
            li = getattr(X, name)(li, *t(a), **t(kw))
        return [(t.plain(i), l) for i, l in li]
    return f


class Conv:
    """str: unchanged; bytes: encoded"""
    def __init__(self, b):
        self.b = b

    def __call__(self, o):
        if isinstance(o, dict):       # keyword arguments: names stay
            return {k: v if k == 'match' else self.one(v) for k, v in o.items()}
        return self.one(o)

    def one(self, o):
        return enc(o) if self.b else o

    def plain(self, i):
        return (0, i.line, i.line_number, i.column_number, i.leading, i.trailing, i.end, getattr(i, 'match', None) is None)


W = ' \t\n\ra'
FUNCS = {
    # name: (alphabet, longest text, function of (module, text, conversion))
    'split': ('ab \n', 6, lambda X, s, t: [run(X.multisplit, s, t(sep), keep=k, maxsplit=m, reverse=r, separate=p, strip=st)
              for sep in (('a', 'ab'), ' \n', ('b',)) for k, m, r, p, st in ((False, -1, False, False, False), (True, 1, False, True, False), (X.ALTERNATING, -1, True, False, X.PROGRESSIVE), (X.AS_PAIRS, 2, True, True, True))]),
    'split-default': (W, 6, lambda X, s, t: [run(X.multisplit, s), run(X.multisplit, s, keep=True, separate=True), run(X.multisplit, s, maxsplit=1, reverse=True, strip=True)]),
    'strip': ('ab \n', 7, lambda X, s, t: [run(X.multistrip, s, t(sep), left=l, right=r) for sep in (('a', 'ab'), ' \n', ('ba', 'b')) for l, r in ((True, True), (False, True), (True, False))]),
    'partition': ('ab.', 6, lambda X, s, t: [run(f, s, t(sep), n, separate=p) for f in (X.multipartition, X.multirpartition) for sep in (('a', 'ab'), '.b') for n in (0, 1, 2) for p in (False, True)]),
    're': ('ab.', 6, lambda X, s, t: [x[:1] + ([y if y is None or isinstance(y, (str, bytes)) else (y.span(), y.group()) for y in x[1]],) for x in
           [run(f, s, t(p), n) for f in (X.re_partition, X.re_rpartition) for p in ('a', 'a.', '[ab]+') for n in (1, 2)]] + [[(m.span(), m.group()) for m in X.reversed_re_finditer(t(p), s)] for p in ('a|ba', '[ab]+')]),
    'title': ("aA '\"do(", 5, lambda X, s, t: [run(X.gently_title, s), run(X.gently_title, s, apostrophes=t(('`', "'")), double_quotes=t(('|', '"')))]),
    'camel': ('aB1 ', 6, lambda X, s, t: [run(X.split_title_case, s, split_allcaps=a) for a in (True, False)]),
    'normalize': (W, 6, lambda X, s, t: [run(X.normalize_whitespace, s), run(X.normalize_whitespace, s, t(('a', ' a')), t('--')), run(X.normalize_whitespace, s, replacement=t(''))]),
    'combine': ('ab', 4, lambda X, s, t: [run(X.combine_splits, s, [s[:1], s[1:]], [s[:2], s[2:]])]),
    'quotes': ('\'"\\\na', 6, lambda X, s, t: [run(X.split_quoted_strings, s), run(X.split_quoted_strings, s, t(("'", '"')), escape=t('"'), multiline_quotes=t(("'''",))), run(X.split_quoted_strings, s, escape=t(''), state=t('"'))]),
    'delimiters': ('()"\\\n', 5, lambda X, s, t: [run(X.split_delimiters, s), run(X.split_delimiters, s, state=t('(')),
                   run(X.split_delimiters, s, t.one({'(': X.Delimiter(')'), '"': X.Delimiter('"', quoting=True, multiline=True, escape='\\')}))]),
    'lines': (W, 6, lambda X, s, t: [_lines()(X, s, t), _lines(('lines_rstrip', (), {}))(X, s, t), _lines(('lines_strip', (), {}))(X, s, t), _lines(('lines_strip', (('a', ' '),), {}), ('lines_filter_empty_lines', (), {}))(X, s, t)]),
    'indent': (' \t\na', 6, lambda X, s, t: [run(_lines(('lines_strip_indent', (), {})), X, s, t), run(_lines(('lines_convert_tabs_to_spaces', (), {})), X, s, t)]),
    'comments': ('#\'"\n a', 5, lambda X, s, t: [run(_lines(('lines_filter_line_comment_lines', (('#', "a'"),), {})), X, s, t), run(_lines(('lines_strip_line_comments', (('#', 'a'),), {})), X, s, t),
                 run(_lines(('lines_strip_line_comments', (('#',),), {'quotes': ("'", '"'), 'multiline_quotes': ("''",), 'escape': '"'})), X, s, t)]),
    'blanks': (' \t\v\f#a', 5, lambda X, s, t: [run(_lines(m), X, [s], t) for m in (('lines_filter_line_comment_lines', (('#', "a "),), {}), ('lines_filter_line_comment_lines', (('#',),), {}),
               ('lines_strip', (), {}), ('lines_rstrip', (), {}), ('lines_strip_indent', (), {}))] + [run(X.gently_title, s), run(X.multisplit, s, maxsplit=2), run(X.normalize_whitespace, s), run(X.multistrip, s, t('\v'))]),
    'filters': ('ab\n', 6, lambda X, s, t: [run(_lines(('lines_containing', ('ab',), {'invert': i})), X, s, t) for i in (False, True)] + [run(_lines(('lines_grep', ('a+b',), {'invert': m})), X, s, t) for m in (False, True)]
                + [run(_lines(('lines_sort', (), {'reverse': r})), X, s, t) for r in (False, True)]),
    'wrap': ('ab.\n', 5, lambda X, s, t: [run(X.wrap_words, [s[:2], s[2:3], s[3:]] if len(s) > 3 else [s], m, two_spaces=w) for m in (3, 7) for w in (True, False)]),
    'code': (' a\n\t', 6, lambda X, s, t: [run(X.split_text_with_code, s, tab_width=w, code_indent=c, allow_code=a) for w, c, a in ((4, 4, True), (2, 1, True), (8, 4, False))]),
    'columns': ('ab \n', 5, lambda X, s, t: [run(X.merge_columns, (t('one\ntwo'), 2, 4), (s, 1, 3), column_separator=t('|'), overflow_strategy=o) for o in (X.OverflowStrategy.RAISE, X.OverflowStrategy.INTRUDE_ALL, X.OverflowStrategy.DELAY_ALL)]
                + [run(X.merge_columns, (s, 2, 4), (t('x\ny\nz'), 1, 2))]),
}


def _parity_cases(tier):
    out = []
    for f, (al, th, _) in FUNCS.items():
        for n in range(0, (th - (f in ('lines', 'quotes')) if tier == 'quick' else th + 1) + 1):
            out.append(dict(f=f, n=n))
    return out


@harness('E01', cases=_parity_cases, bounds='every text function on every text of up to 4 to 7 characters (thorough: one or two more) over the characters it reacts to, for a few arguments each')
def parity(ctx, f, n):
    import big.text as X
    al, _, fn = FUNCS[f]
    s = ctx.str('s', n, al)
    text = fn(X, s, Conv(False))
    data = fn(X, s.encode('ascii'), Conv(True))
    want = enc(text)
    ctx.check(len(want) == len(data), 'as many results')
    for i, (a, b) in enumerate(zip(want, data)):
        ctx.check(a == b, 'bytes are handled as the same text', lambda: (i, a, b))
        ctx.check(kinds(a) == kinds(b), 'bytes give bytes everywhere', lambda: (i, a, b))
    ctx.reach(f)


def kinds(o):
    if isinstance(o, bytes):
        return 'b'
    if isinstance(o, str):
        return 's'
    if isinstance(o, (list, tuple)):
        return [kinds(x) for x in o]
    return type(o).__name__


SHAPES = ['s', 'b', 'list', 'tuple', 'dict', 'set', 'nested', 'deep', 'empty', 'sub', 'bad']


class Plain:
    pass


ODD = [lambda: 3, lambda: None, lambda: True, lambda: 1.5, lambda: frozenset({'k'}), lambda: frozenset(), lambda: bytearray(b'k'), lambda: memoryview(b'k'),
       lambda: range(0), lambda: iter(('k',)), lambda: (c for c in 'k'), lambda: {'k': 'v'}.keys(), lambda: {}.items(), lambda: Plain(), lambda: Plain, lambda: str]
PLACES = [lambda s, x: x, lambda s, x: [s, x], lambda s, x: (x, s), lambda s, x: {'k': x}, lambda s, x: [({'k': [x]}, s)]]


@harness('E02', cases=lambda tier: [dict(shape=k, n=n, coding=c) for k in SHAPES for c in ('ascii', 'utf-8', 'latin-1', None) for n in range(0, 5 if tier == 'quick' else 6)],
         bounds='strings of up to 4 (thorough 5) arbitrary characters (UTF-8: six characters), alone and in lists, tuples, dicts, sets, subclasses and nestings of them, four encodings; sixteen objects of other types, alone and in five places')
def encode(ctx, shape, n, coding):
    import big.text as X
    s = ctx.str('s', n, 'a\x7f\x80é\uffff\U00010000') if coding == 'utf-8' else ctx.str('s', n)
    kw = {} if coding is None else {'encoding': coding}
    codec = coding or 'ascii'
    try:
        e = s.encode(codec)
    except UnicodeEncodeError:
        e = None

    class L(list):
        pass

    class D(dict):
        pass
    o, want = {
        's': lambda: (s, e),
        'b': lambda: (b'\xff' + b'raw', b'\xff' + b'raw'),
        'list': lambda: ([s, 'k', b'b'], [e, b'k', b'b']),
        'tuple': lambda: ((s, 'k', b'b', ()), (e, b'k', b'b', ())),
        'dict': lambda: ({'k': s, 'j': [s]}, {b'k': e, b'j': [e]}),
        'set': lambda: ({'k', b'j'}, {b'k', b'j'}),
        'nested': lambda: ([('x', s), {'y': (s,)}], [(b'x', e), {b'y': (e,)}]),
        'deep': lambda: ([[[[s]]], ([s],)], [[[[e]]], ([e],)]),
        'empty': lambda: (['', (), [], {}, set()], [b'', (), [], {}, set()]),
        'sub': lambda: ([L([s]), D({'k': s})], [L([e]), D({b'k': e})]),
        'bad': lambda: (ctx.choice('where', PLACES)(s, ctx.choice('odd', ODD)()), None),
    }[shape]()
    uses = shape not in ('b', 'set', 'empty')
    try:
        r = X.encode_strings(o, **kw)
    except TypeError:
        ctx.check(shape == 'bad', 'only unknown types are refused')
    except UnicodeEncodeError:
        ctx.check(uses and e is None, 'only text outside the encoding is refused')
    else:
        ctx.check(shape != 'bad' and not (uses and e is None), 'types other than strings and containers are refused, and text that cannot be encoded')
        ctx.check(r == want, 'every string is encoded and everything else stays in place', lambda: (r, want))
        ctx.check(full(r) == full(want), 'containers keep their types', lambda: (r, want))
    ctx.reach(shape)


def grow(ctx, depth, hashable, strings):
    """an object of unknown shape and what its encoding must be"""
    kind = ctx.choice('kind', ['str', 'bytes', 'tuple'] + ([] if hashable else ['list', 'dict', 'set'])) if depth else ctx.choice('kind', ['str', 'bytes'])
    if kind == 'str':
        s = strings.pop()
        return s, s.encode('ascii')
    if kind == 'bytes':
        s = strings.pop().encode('ascii')
        return s, s
    if kind == 'dict':
        k, ke = grow(ctx, depth - 1, True, strings)
        v, ve = grow(ctx, depth - 1, False, strings)
        return {k: v}, {ke: ve}
    kids = [grow(ctx, depth - 1, hashable or kind == 'set', strings) for i in range(ctx.choice('size', [0, 1] if kind == 'set' or depth < 2 else [1, 2]))]
    t = {'tuple': tuple, 'list': list, 'set': set}[kind]
    return t(a for a, b in kids), t(b for a, b in kids)


@harness('E02', cases=lambda tier: [dict(depth=d) for d in range(0, 4)],
         bounds='every shape of lists, tuples, sets and dictionaries up to 3 deep, with one or two elements')
def shapes(ctx, depth):
    import big.text as X
    strings = ['abcdefghijklmnop'[i:i + 2] for i in range(16)]
    o, want = grow(ctx, depth, False, strings)
    r = X.encode_strings(o)
    ctx.check(r == want, 'every string is encoded and everything else stays in place', lambda: (o, r))
    ctx.check(full(r) == full(want), 'containers keep their types', lambda: (o, r))
    ctx.reach('shapes')


def full(o):
    if isinstance(o, dict):
        return (type(o).__name__, [full(v) for v in o.values()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [full(v) for v in o])
    return 'bytes' if isinstance(o, bytes) else 'str' if isinstance(o, str) else type(o).__name__


@harness('E03', cases=lambda tier: [dict(n=n) for n in (1, 2)], bounds='every character and every pair of characters of Unicode, and every byte and pair of bytes')
def tables(ctx, n):
    import big.text as X
    s = ctx.str('s', n)
    b = ctx.bytes('b', n)
    crlf = s == '\r\n'
    bcrlf = b == b'\r\n'
    one = n == 1
    space = one and bool(s.isspace())
    fs = one and bool('\x1c' <= s) and bool(s <= '\x1f')
    low = one and bool(s < '\x80')
    brk = one and len(('a' + s + 'x').splitlines()) > 1
    bspace = one and bool(b.isspace())
    bbrk = one and len((b'a' + b + b'x').splitlines()) > 1
    for kind, is_, bis in (('whitespace', space, bspace), ('linebreaks', brk, bbrk)):
        for pre, want in (('', is_), ('str_', is_), ('unicode_', is_ and not fs), ('ascii_', is_ and not fs and low)):
            for post, extra in (('', bool(crlf)), ('_without_crlf', False)):
                name = pre + kind + post
                t = getattr(X, name)
                ctx.check(any(x == s for x in t) == (want or extra), 'the table of text is exactly what Python says', lambda: (name, s))
        for post, extra in (('', bool(bcrlf)), ('_without_crlf', False)):
            name = 'bytes_' + kind + post
            t = getattr(X, name)
            ctx.check(any(x == b for x in t) == (bis or extra), 'the table of bytes is exactly what Python says', lambda: (name, b))
    for kind in ('whitespace', 'linebreaks'):
        for pre in ('', 'str_', 'unicode_', 'ascii_', 'bytes_'):
            for post in ('', '_without_crlf'):
                t = getattr(X, pre + kind + post)
                ctx.check(type(t) is tuple and len(set(t)) == len(t), 'each entry once')
                ctx.check(max(map(len, t)) <= (1 if post else 2), 'nothing longer')
    ctx.reach('tables')


@harness('E03', cases=lambda tier: [dict(n=n) for n in (1, 2)], bounds='the deprecated tables (big.deprecated), for the same characters and bytes')
def old_tables(ctx, n):
    import big.deprecated as X
    s = ctx.str('s', n)
    b = ctx.bytes('b', n)
    one = n == 1
    crlf, bcrlf = bool(s == '\r\n'), bool(b == b'\r\n')
    space = one and bool(s.isspace())
    brk = one and len(('a' + s + 'x').splitlines()) > 1
    bspace = one and bool(b.isspace())
    bbrk = one and len((b'a' + b + b'x').splitlines()) > 1
    for name, is_, bis in (('whitespace', space, bspace), ('newlines', brk, bbrk)):
        for post, extra, bextra in (('', crlf, bcrlf), ('_without_dos', False, False)):
            if hasattr(X, name + post):
                t = getattr(X, name + post)
                ctx.check(any(x == s for x in t) == (is_ or extra), 'the table of text is exactly what Python says', lambda: (name + post, s))
            if hasattr(X, 'ascii_' + name + post):
                t = getattr(X, 'ascii_' + name + post)
                ctx.check(any(x == b for x in t) == (bis or bextra), 'the table of bytes is exactly what Python says', lambda: ('ascii_' + name + post, b))
            t = getattr(X, 'utf8_' + name + post)
            ctx.check(all(isinstance(x, bytes) for x in t) and len(set(t)) == len(t), 'bytes, each once', lambda: name)
            ctx.check(any(x.decode('utf-8') == s for x in t) == (is_ or extra), 'the UTF-8 table is exactly what Python says', lambda: ('utf8_' + name + post, s))
    ctx.reach('old tables')


# ------------------------------------------------------------------ subclasses of str and bytes

class Text(str):
    """a subclass with a field, as a user may have it"""
    mark = 'mine'


class Data(bytes):
    mark = 'mine'


def plain_types(r, seen):
    """the types of every string in a result"""
    import re
    if isinstance(r, (str, bytes)):
        seen.add(type(r))
    elif isinstance(r, (list, tuple)):
        for x in r:
            plain_types(x, seen)
    elif hasattr(r, 'line_number'):
        for k in ('line', 'leading', 'trailing', 'end'):
            plain_types(getattr(r, k), seen)
    elif not (r is None or isinstance(r, (int, re.Match))):
        raise TypeError(type(r))
    return seen


def _same(a, b):
    import re
    if isinstance(a, re.Match):
        return isinstance(b, re.Match) and a.span() == b.span() and a.group() == b.group() and a.groups() == b.groups()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'line_number'):
        return all(getattr(a, k) == getattr(b, k) for k in ('line', 'line_number', 'column_number', 'leading', 'trailing', 'end'))
    return a == b


# name: (alphabet, longest text, function of (module, text, conversion, count, one flag, another))
SUBS = {
    'split': ('ab ', 4, lambda X, s, t, n, f, g: list(X.multisplit(s, [t('a'), t('ab')], maxsplit=n, reverse=f, strip=g))),
    'split-keep': ('ab', 4, lambda X, s, t, n, f, g: list(X.multisplit(s, t('a'), keep=X.AS_PAIRS if f else X.ALTERNATING, maxsplit=n, strip=X.PROGRESSIVE if g else False))),
    'split-default': ('a \n', 4, lambda X, s, t, n, f, g: list(X.multisplit(s, maxsplit=n, keep=f, separate=g))),
    'strip': ('ab ', 4, lambda X, s, t, n, f, g: X.multistrip(s, (t('a'), t('ab')), left=f, right=g)),
    'partition': ('ab ', 4, lambda X, s, t, n, f, g: X.multipartition(s, (t('a'), t('ab')), n if n > 0 else 0, reverse=f, separate=g)),
    'rpartition': ('ab ', 4, lambda X, s, t, n, f, g: X.multirpartition(s, t('b'), n if n > 0 else 0, reverse=f, separate=g)),
    're': ('ab ', 4, lambda X, s, t, n, f, g: X.re_partition(s, t('ab?') if g else t('b+'), n if n > 0 else 0, reverse=f)),
    're-right': ('ab ', 4, lambda X, s, t, n, f, g: X.re_rpartition(s, t('a?b') if g else t('a+'), n if n > 0 else 0)),
    'title': ("ad' ", 4, lambda X, s, t, n, f, g: X.gently_title(s, **({'apostrophes': t('a')} if f else {}), **({'double_quotes': [t('d')]} if g else {}))),
    'normalize': ('a \n', 4, lambda X, s, t, n, f, g: X.normalize_whitespace(s, [t(' '), t('a')] if f else None, t('-') if g else None)),
    'lines': ('a \n', 4, lambda X, s, t, n, f, g: list((X.lines_strip if g else iter)((X.lines_rstrip if f else iter)(X.lines(s))))),
    'code': ('a \n', 4, lambda X, s, t, n, f, g: list(X.split_text_with_code(s, code_indent=2 if g else 4, convert_tabs_to_spaces=f))),
    'columns': ('a \n', 3, lambda X, s, t, n, f, g: X.merge_columns((s, 1, 5), *([(t('b'), 1, 2)] if f else []), **({'column_separator': t('|')} if g else {}))),
    'wrap': ('a.\n', 3, lambda X, s, t, n, f, g: X.wrap_words(([s] if s else []) + [t('b')] * (2 if f else 1), 4 if g else 9)),
}


@harness('E05', cases=lambda tier: [dict(f=f, b=b, more=1 if tier == 'quick' else 2) for f in SUBS for b in (False, True)],
         bounds='every text of up to 5 (thorough 6) characters (merge_columns and wrap_words 4, thorough 5) out of the two to four each function reacts to, as an instance of a subclass of str or bytes, the other arguments too; counts -1 to 2, two switches each')
def subclasses(ctx, f, b, more):
    import big.text as X
    al, longest, fn = SUBS[f]
    chars = [ctx.choice('char', list(al)) for i in range(ctx.choice('length', list(range(longest + more + 1))))]
    n = ctx.int('count', -1, 2)
    p, q = ctx.bool('first switch'), ctx.bool('second switch')
    text = ''.join(chars)
    base, sub = (bytes, Data) if b else (str, Text)

    def as_base(x):
        return x.encode('ascii') if b else x

    def as_sub(x):
        return sub(as_base(x))
    s = as_sub(text)
    got = fn(X, s, as_sub, n, p, q)
    want = fn(X, as_base(text), as_base, n, p, q)
    # (tests/test_text.py pins that multistrip returns a subclass that has nothing to strip)
    if not (f == 'strip' and len(want) == len(s) and ctx.known('E05-KF1', type(got) is sub)):
        ctx.check(plain_types(got, set()) <= {base}, 'only plain str or bytes come back, never the subclass', lambda: (text, got))
    ctx.check(_same(got, want), 'a subclass is treated as the text it holds', lambda: (text, got, want))
    ctx.check(type(s) is sub and s == as_base(text), 'the argument is not changed')
    ctx.reach('subclass')
