"""The text functions keep nothing from one call to the next (big/text.py)."""
import importlib.util

from sx.registry import harness


def fresh(name='big.text'):
    """a new copy of a module, as right after it is imported"""
    spec = importlib.util.find_spec(name)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def text(o):
    return o


def data(o):
    """the bytes counterpart of an argument"""
    if isinstance(o, str):
        return o.encode('ascii')
    if isinstance(o, dict):
        return {data(k): data(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return type(o)([data(x) for x in o])
    return o


def plain(o):
    """results that can be compared between two copies of the module"""
    if isinstance(o, (str, bytes, int)) or o is None:
        return o
    if isinstance(o, dict):
        return [(k, plain(v)) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if hasattr(o, 'line_number'):
        return [o.line, o.line_number, o.column_number, o.leading, o.trailing, o.end, o.indent, o.match is None]
    if hasattr(o, 'span'):
        return [o.span(), o.group()]
    return o if type(o).__module__ in ('sx.symval', 'sx.symstr') else repr(type(o).__name__)


def through(X, s, mods):
    li = X.lines(s)
    for name, a, kw in mods:
        li = getattr(X, name)(li, *a, **kw)
    return li


def delims(X, spec, c):
    return {c(k): X.Delimiter(c(close), **{n: c(v) for n, v in kw.items()}) for k, (close, kw) in spec.items()}


Q = {'quoting': True, 'escape': '\\'}
# function: (alphabet, call(module, text, conversion, arguments), the argument sets; each argument is converted)
CALLS = {
    'multisplit': ('ab ', lambda X, s, c, seps, kw: X.multisplit(s, seps, **kw),
                   [(('a', 'ab'), {}), (['a', 'ab'], dict(keep=True, reverse=True)), ({'a', ' '}, dict(keep='AS_PAIRS', separate=True)), ('ab', dict(strip=True)), (('ab',), dict(maxsplit=1, separate=True)), (('ab',), dict(keep='ALTERNATING', separate=False))]),
    'multistrip': ('ab ', lambda X, s, c, seps, kw: X.multistrip(s, seps, **kw), [(('a',), {}), (['a', 'ab'], dict(right=False)), ('ab', {}), ({'b', ' '}, dict(left=False))]),
    'multipartition': ('ab ', lambda X, s, c, seps, n, kw: X.multipartition(s, seps, n, **kw), [(('a',), 1, {}), (['a', 'ab'], 2, dict(separate=True)), ('ab', 1, dict(reverse=True)), (('ab',), 2, dict(separate=False))]),
    're_partition': ('ab ', lambda X, s, c, p, n, kw: X.re_partition(s, p, n, **kw), [('a', 1, {}), ('A', 2, dict(flags=2)), ('a|b', 2, dict(reverse=True)), ('A', 1, {})]),
    'gently_title': ("a'\"", lambda X, s, c, kw: X.gently_title(c("d\"b d'b d") + s + c('b'), **kw), [({},), (dict(apostrophes=['"']),), (dict(apostrophes="'"),), (dict(double_quotes="'a"),)]),
    'normalize': ('ab ', lambda X, s, c, kw: X.normalize_whitespace(s, **kw), [({},), (dict(replacement='b'),), (dict(separators=('a', ' ')),), (dict(separators=['a'], replacement=''),)]),
    'combine': ('ab', lambda X, s, c, a: X.combine_splits(s + c('xyz'), *[[(s + c('xyz'))[:i], (s + c('xyz'))[i:]] for i in a]), [((1, 2),), ((2, 3, 4),), ((),)]),
    'quotes': ('"\'\\a', lambda X, s, c, kw: X.split_quoted_strings(s, **kw), [({},), (dict(quotes=("'",), multiline_quotes=('"',)),), (dict(quotes=('"', '""'), escape='a'),), (dict(state='"'),), (dict(escape=''),)]),
    'delimiters': ('("\\)', lambda X, s, c, spec, kw: X.split_delimiters(s + c('"' + '\n') + s, delims(X, spec, c), **kw),
                   [({'(': (')', {})}, {}), ({'(': (')', {}), '"': ('"', Q)}, dict(state='(')), ({'"': ('"', {**Q, 'escape': ')'})}, {}), ({'"': ('"', {**Q, 'escape': ')', 'multiline': False})}, {}), ({'(': ('"', {**Q, 'escape': ')', 'multiline': False})}, {}), ({'(': (')', {'quoting': True, 'escape': '"'})}, {})]),
    'delimiters-default': ('("\\)', lambda X, s, c, kw: X.split_delimiters(s, **kw), [({},), (dict(state='('),), (dict(state=('(', '"')),)]),
    'lines': ('a \n#', lambda X, s, c, mods: through(X, c('b&') + s + c('#b'), mods),
              [((('lines_strip', (), {}),),), ((('lines_rstrip', (['a'],), {}),),), ((('lines_filter_line_comment_lines', (('#', 'a'),), {}), ('lines_sort', (), {})),), ((('lines_strip_line_comments', (('#',),), {}),),),
               ((('lines_strip_line_comments', (['&'],), {}),),), ((('lines_strip_line_comments', (['#'],), dict(quotes=('a',))),),), ((('lines_strip_indent', (), {}), ('lines_filter_empty_lines', (), {})),), ((('lines_grep', ('a',), {}), ('lines_containing', (' ',), {})),)]),
    'wrap': ('a.', lambda X, s, c, m, two: X.wrap_words([s, c('b'), s[:1]], m, two_spaces=two), [(3, True), (9, False), (9, True)]),
    'code': ('a \n', lambda X, s, c, tail, kw: X.split_text_with_code(c('x\n') + s + c('    y') + c(tail), **kw), [('', {}), ('\n\n\n', {}), ('\n', dict(code_indent=1, tab_width=3)), ('', dict(allow_code=False))]),
    'columns': ('a \n', lambda X, s, c, w, how, kw: X.merge_columns((s, 1, w), (c('b\nd'), 1, 1), overflow_strategy=getattr(X.OverflowStrategy, how), **kw), [(2, 'RAISE', {}), (0, 'INTRUDE_ALL', dict(overflow_after=1)), (1, 'DELAY_ALL', dict(column_separator='|'))]),
    'encode': ('ab', lambda X, s, c, coding: X.encode_strings([s, {s: [s]}], coding), [('ascii',), ('latin-1',), ('utf-8',)]),
}
KEEP = {'keep', 'overflow_strategy'}       # keyword arguments that are not text


def args(name, v, c):
    a = CALLS[name][2][v]

    def conv(x):
        if isinstance(x, dict):
            return {k: (y if k in KEEP else conv(y)) for k, y in x.items()} if not any(k in x for k in ('(', '"')) else x
        if isinstance(x, tuple):
            return tuple(conv(y) for y in x)
        if isinstance(x, (list, set)):
            return type(x)([conv(y) for y in x])
        return c(x) if isinstance(x, str) else x
    if name == 'lines':
        return (tuple((fn, conv(p), conv(kw)) for fn, p, kw in a[0]),)
    return tuple(x if name in ('columns', 'encode') and isinstance(x, str) else conv(x) for x in a)


def start(ctx, X, s, name, v, b):
    c = data if b else text
    a = args(name, v, c)
    before = args(name, v, c)
    try:
        r = CALLS[name][1](X, c(s), c, *a)
    except (SyntaxError, ValueError, OverflowError) as e:
        r = [type(e).__name__]
    ctx.check(a == before, 'arguments are left alone', lambda: (name, a, before))
    return iter(r) if hasattr(r, '__next__') else iter([r])


def step(it, out):
    """one result more; False at the end"""
    try:
        out.append(plain(next(it)))
        return True
    except StopIteration:
        return False
    except (SyntaxError, ValueError, OverflowError) as e:
        out.append(type(e).__name__)
        return False


def drain(it):
    out = []
    while step(it, out):
        pass
    return out


def _pure_cases(tier):
    out = []
    for f, (al, call, variants) in CALLS.items():
        for v in range(len(variants)):
            for b in (False, True):
                if not (b and f == 'encode'):
                    out.append(dict(f=f, v=v, b=b, n=1 if tier == 'quick' else 2))
    return out


@harness('U01', cases=_pure_cases, bounds='fifteen text functions, each with three to seven sets of arguments as text or bytes, after, or interleaved in three ways with, a call of the same function with each of the others; every text of 1 (thorough 2) characters of those it reacts to')
def repeated(ctx, f, v, b, n):
    al, call, variants = CALLS[f]
    s = ctx.str('s', n, al)
    w = ctx.choice('other arguments', range(len(variants)))
    t = ctx.choice('other text', [s, s + al[0]])
    X = fresh()
    alone = drain(start(ctx, X, s, f, v, b))
    order = ctx.choice('order', ['before', 'bytes before', 'in turn', 'in turn, behind', 'inside'])
    wb = (not b) if order == 'bytes before' and f != 'encode' else b
    X = fresh()
    if order in ('before', 'bytes before'):
        other = drain(start(ctx, X, t, f, w, wb))
        got = drain(start(ctx, X, s, f, v, b))
    else:
        one, two = start(ctx, X, t, f, w, wb), start(ctx, X, s, f, v, b)
        got, other = [], []
        if order == 'inside':
            step(one, other)
            got += drain(two)
        else:
            turns = [(two, got), (one, other)]
            if order == 'in turn, behind':
                turns.reverse()
            while step(*turns[0]) and step(*turns[1]):
                pass
            got += drain(two)
        other += drain(one)
    ctx.check(got == alone, 'the result does not depend on other calls', lambda: (variants[v], variants[w], got, alone))
    again = drain(start(ctx, X, t, f, w, wb))
    ctx.check(other == again, 'a call gives the same result each time', lambda: (variants[w], other, again))
    ctx.reach(f)
