"""Quote and delimiter parsing (big/text.py): split_quoted_strings, split_delimiters."""
from sx.registry import harness
from props.holes import subject, fewer

QSETS = {
    # name: (quotes, multiline, escape)
    'default': (None, (), None),
    'sq-triple': (("'",), ('"""',), '\\'),
    'noescape': (('"',), ("'",), ''),
    'longescape': (("'",), ('`',), '^^'),
    'longquotes': (('<<', '%'), ('ab', 'ac'), '\\'),
    'string': ('"|', (), '\\'),
    'multi-only': ((), ('"', "'"), '\\'),
    'prefix': (('"',), ('"""',), '\\'),
}
NL = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


# longer texts with four arbitrary characters of an alphabet
QLONG = {
    'default': ('x"□\'y\\□"z□\'w"□', '"\'\\x\n'),
    'sq-triple': ('x\'□\\\'y□\'"""□\n\'"""□', '"\'\\x\n'),
    'noescape': ('x"□\'y"□\'z\n□\'□', '"\'\\x\n'),
    'longescape': ("x'^^□y^^'□`\n□^^`z□", "'`^x\n"),
    'longquotes': ('<<x□<<%<<□ab<ac□ab\\ab□ab', '<%abc\\'),
    'string': ('x"|□\\"□"y|□|', '"|\\x\n'),
    'multi-only': ('"x\n□\'"y\\"□\'"□\n\'', '"\'\\x\n'),
    'prefix': ('""x"""\n□""\\"□"""y"□', '"\\x\n'),
}


def _quote_cases(tier):
    hi = 5 if tier == 'quick' else 7
    out = []
    for k in QSETS:
        for b in (False, True):
            for n in range(0, hi + 1 - (k in ('longquotes',) and tier != 'quick')):
                out.append(dict(q=k, b=b, n=n))
        out += [dict(q=k, b=b, n=list(QLONG[k])) for b in (False, True)]
    return out


def scan_quoted(s, quotes, multi, esc, state, brk, longer):
    """The documented meaning, one character at a time: (tuples or None for SyntaxError, determined?)."""
    e = s[:0]
    n = len(s)
    allq = sorted(list(quotes) + list(multi), key=len, reverse=True)
    out, buf, i, q, lead, sure = [], e, 0, state, e, True
    while i < n:
        if not q:
            hit = None
            if esc:
                for t in allq + [esc]:
                    if s[i:i + len(esc) + len(t)] == esc + t:
                        return None, False         # an escaped quote outside quotes: not documented
            for t in allq:
                if s[i:i + len(t)] == t:
                    hit = t
                    break
            if hit is None:
                buf = buf + s[i:i + 1]
                i += 1
                continue
            out.append((e, buf, e))
            buf, q, lead = e, hit, hit
            i += len(hit)
            continue
        if esc:
            hit = None
            for t in allq + [esc]:
                if s[i:i + len(esc) + len(t)] == esc + t:
                    hit = esc + t
                    break
            if hit is not None:
                buf = buf + hit
                i += len(hit)
                continue
        if s[i:i + len(q)] == q:
            longer.extend(t for t in allq if len(t) > len(q) and s[i:i + len(t)] == t)
            out.append((lead, buf, q))
            buf, q, lead = e, e, e
            i += len(out[-1][2])
            continue
        c = s[i:i + 1]
        if q not in multi and c in brk:
            return None, True
        buf = buf + c
        i += 1
    out.append((lead, buf, e))
    return [t for t in out if len(t[0]) or len(t[1]) or len(t[2])], True


def _check_quoted(ctx, X, s, b, quotes, multi, esc, kw, state):
    if state is not None:
        kw['state'] = state
    try:
        r = [tuple(x) for x in X.split_quoted_strings(s, **kw)]
    except SyntaxError:
        r = None
    e = s[:0]
    longer = []
    want, sure = scan_quoted(s, quotes, multi, esc, e if state is None else state, b'\n\r' if b else NL, longer)
    if r is not None:
        ctx.check(e.join([e.join(x) for x in r]) == s, 'joining the pieces recreates the text', lambda: r)
    if not sure:
        ctx.check(True, 'escaped quote outside quotes')
        return
    if want is None or r is None:
        ok = want is None and r is None
    else:
        r = [x for x in r if len(x[0]) or len(x[1]) or len(x[2])]
        if state is not None:
            want = [(e,) + want[0][1:]] + want[1:] if want else want
        ok = r == want
    if ctx.known('Q01-KF1', bool(longer)):
        return
    ctx.check(ok, 'quoted segments run from a quote to the next unescaped occurrence of the same quote', lambda: (r, want))


@harness('Q01', cases=_quote_cases, bounds='every text (any Unicode characters, or bytes) of up to 5 (thorough 7) characters, eight sets of one- to three-character quotes, multiline quotes and escapes, every initial state; a longer text for each set with up to four arbitrary characters')
def quoted(ctx, q, b, n):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    quotes, multi, esc = QSETS[q]
    if quotes is None:
        quotes, esc, kw = ('"', "'"), '\\', {}
    else:
        kw = dict(quotes=t(quotes) if isinstance(quotes, str) else tuple(t(x) for x in quotes), escape=t(esc))
        if multi:
            kw['multiline_quotes'] = [t(x) for x in multi]
    quotes = [t(x) for x in quotes]
    multi = [t(x) for x in multi]
    esc = t(esc)
    s, n = subject(ctx, b, n)
    state = ctx.choice('state', [None] + quotes + multi)
    _check_quoted(ctx, X, s, b, quotes, multi, esc, kw, state)
    ctx.reach('quoted')


COLLECTIONS = {'list': list, 'set': set, 'frozenset': frozenset, 'keys': lambda x: dict.fromkeys(x).keys(), 'iterator': iter, 'generator': lambda x: (y for y in x)}


@harness('Q01', cases=lambda tier: [dict(q=q, b=b, kind=k, n=list(QLONG[q]) if tier != 'quick' else [fewer(QLONG[q][0], 2), QLONG[q][1]])
                                    for q in QSETS if q != 'default' for b in (False, True) for k in COLLECTIONS],
         bounds='quotes and multiline quotes given as a list, a set, a frozen set, keys of a dictionary, an iterator or a generator: a longer text for each set of quotes with two (thorough four) arbitrary characters, any initial state')
def collections(ctx, q, b, kind, n):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    quotes, multi, esc = QSETS[q]
    quotes, multi, esc = [t(x) for x in quotes], [t(x) for x in multi], t(esc)
    kw = dict(quotes=COLLECTIONS[kind](quotes), multiline_quotes=COLLECTIONS[kind](multi) if multi else (), escape=esc)
    s, n = subject(ctx, b, n)
    _check_quoted(ctx, X, s, b, quotes, multi, esc, kw, ctx.choice('state', [None] + quotes + multi))
    ctx.reach('collection')


# characters that no collection above uses as a quote, an escape or a delimiter: most of ASCII without line breaks, and some others
ODD = [c for c in map(chr, range(128)) if c not in NL + 'xyz'] + list('\x80\xa0\xb2\xe9\u0130\u0301\u1680\u200b\u3000\ufeff\U0001f600')
OGROUPS = [ODD[i:i + 16] for i in range(0, len(ODD), 16)]
QFORMS = {
    'quote': lambda c: ((c,), (), '\\'),
    'multiline': lambda c: (('z',), (c,), '\\'),
    'escape': lambda c: (('z',), (), c),
    'tripled': lambda c: (('z',), (c * 3,), '\\'),
    'pair escape': lambda c: (('z',), (), c + 'y'),
}


@harness('Q01', cases=lambda tier: [dict(group=g, form=f, b=b, n=3 if tier == 'quick' else 4) for g in range(len(OGROUPS)) for f in QFORMS for b in (False, True) if not (b and (g > 6 or tier == 'quick' and f not in ('quote', 'pair escape')))],
         bounds='129 characters as quotes, multiline quotes, escapes or parts of them, in every text of 3 (thorough 4) characters out of that character, another quote, the backslash, x and a line break, '
         'outside or inside a quote')
def any_quote(ctx, group, form, b, n):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    c = ctx.choice('character', OGROUPS[group])
    if b and ord(c) > 127 or form in ('quote', 'multiline', 'tripled') and c == '\\':
        ctx.check(True, 'not a case')
        return
    quotes, multi, esc = QFORMS[form](c)
    quotes, multi, esc = [t(x) for x in quotes], [t(x) for x in multi], t(esc)
    al = ''.join(dict.fromkeys(c + 'xyz\\\n' if form == 'pair escape' else c + 'xz\\\n'))
    s = ctx.bytes('s', n, al.encode('ascii')) if b else ctx.str('s', n, al)
    if form == 'tripled':
        s = t(c * 2) + s + t(c)
    state = ctx.choice('state', [None, (multi or quotes)[0]])
    kw = dict(quotes=tuple(quotes), escape=esc)
    if multi:
        kw['multiline_quotes'] = tuple(multi)
    if state is not None:
        kw['state'] = state
    _check_quoted(ctx, X, s, b, quotes, multi, esc, kw, state)
    ctx.reach('any')


def _dsets(X):
    D = X.Delimiter
    return {
        # what the documentation says about the default
        'default': {'(': D(')'), '[': D(']'), '{': D('}'), "'": D("'", escape='\\', multiline=False, quoting=True), '"': D('"', escape='\\', multiline=False, quoting=True)},
        'over1': {'(': D(')'), '"': D('"', escape='\\', quoting=True), '<"<': D('>">')},
        'over2': {'<(': D(')>', escape='\\', quoting=True), '([': D('])'), '(': D(')')},
        'comment': {'(': D(')'), '/*': D('*/', escape='\\', quoting=True), '"': D('"', escape='\\', quoting=True, multiline=False)},
        'same': {'[': D('>'), '(': D('>')},
        'esc2': {'"': D('"', escape='^^', quoting=True, multiline=False), '(': D(')')},
        'nest': {'x': D('y'), 'xx': D('yy')},
    }


DLONG = {
    'default': [('([{□(□)}x□])□', '()[]{}"\'\\x\n'), ('"(\\□"[\'□\\\'□\']', '()[]"\'\\x\n'), ('((((((□))))))□', '()x')],
    'over1': [('(<"<□>">)"\\<□"□<"<□', '(<">)\\x')],
    'over2': [('<(x□)><(\\□>)>([<(□', '<()>[]\\x')],
    'comment': [('(/*"□\\*□/"*/□"\\□', '(/*")\\x\n')],
    'same': [('[(x□>>[□>(>□', '[(>x')],
    'esc2': [('("^^□(^^"□\n"□)', '"(^)x\n')],
    'nest': [('xxx□yxy□xxyy□y', 'xyz')],
}


def _delim_cases(tier):
    deep = tier != 'quick'
    hi = {'default': 5, 'over1': 5, 'over2': 5, 'comment': 4, 'same': 6, 'esc2': 6, 'nest': 7}
    return [dict(d=k, b=b, n=[t, al]) for k in DLONG for t, al in DLONG[k] for b in (False,) + (True,) * (k in ('default', 'over2', 'comment'))] + [dict(d=k, b=b, n=n) for k in hi for b in (False, True) if not (b and k not in ('default', 'over2', 'comment')) for n in range(0, hi[k] + deep + 1 - b)]


def scan_delims(s, delims, state, brk):
    """A stack parser, one character at a time: (list of tuples or None for SyntaxError, final stack)."""
    e = s[:0]
    n = len(s)
    stop = list(delims) + [d.close for d in delims.values()] + [d.escape for d in delims.values() if d.escape]
    stop = sorted(set(stop), key=lambda x: (-len(x), x))
    stack = list(state)
    out, buf, i = [], e, 0

    def at(t):
        return s[i:i + len(t)] == t
    while i < n:
        d = delims[stack[-1]] if stack else None
        if d and d.quoting:
            if at(d.close):
                out.append((buf, e, d.close))
                buf = e
                i += len(d.close)
                stack.pop()
            elif at(d.escape):
                buf = buf + s[i:i + len(d.escape)]
                i += len(d.escape)
                if i >= n:
                    return None, stack
                buf = buf + s[i:i + 1]
                i += 1
            elif not d.multiline and s[i:i + 1] in brk:
                return None, stack
            else:
                buf = buf + s[i:i + 1]
                i += 1
            continue
        # the longest delimiter here; an opening one that starts with our closing one wins over it, any other does not
        t = None
        for x in stop:
            if at(x):
                t = x
                break
        if d and t is not None and t != d.close and t not in delims and at(d.close):
            t = d.close
        if t is None:
            buf = buf + s[i:i + 1]
            i += 1
        elif d and t == d.close:
            out.append((buf, e, t))
            buf = e
            i += len(t)
            stack.pop()
        elif t in delims:
            out.append((buf, t, e))
            buf = e
            i += len(t)
            stack.append(t)
        else:
            return None, stack
    if len(buf):
        out.append((buf, e, e))
    return out, stack


def _check_delims(ctx, X, s, b, delims, state, kw):
    try:
        r = [tuple(x) for x in X.split_delimiters(s, **kw)]
    except SyntaxError:
        r = None
    want, stack = scan_delims(s, delims, state, b'\n\r' if b else NL)
    e = s[:0]
    if r is not None:
        ctx.check(e.join([e.join(x) for x in r]) == s, 'joining the pieces recreates the text', lambda: r)
        depth = list(state)
        for x in r:
            if len(x[1]):
                depth.append(x[1])
            if len(x[2]):
                ctx.check(len(depth) > 0 and delims[depth[-1]].close == x[2], 'every closing delimiter matches the innermost open one', lambda: (r, state))
                depth.pop()
    ctx.check(r == want if (r is not None and want is not None) else (r is None and want is None), 'delimiters are recognized where the innermost open delimiter allows them, and illegal ones refused', lambda: (r, want))


@harness('Q02', cases=_delim_cases, bounds='every text (any Unicode characters, or bytes) of up to 4 to 7 (thorough one more) characters by delimiter set: the default, nested, shared-closer, overlapping multi-character, quoting and two-character-escape sets; every initial nesting of up to two; one to three longer texts for each set with up to four arbitrary characters')
def delimiters(ctx, d, b, n):
    import big.text as X
    delims = _dsets(X)[d]
    if b:
        delims = {k.encode('ascii'): X.Delimiter(v.close.encode('ascii'), escape=v.escape.encode('ascii'), multiline=v.multiline, quoting=v.quoting) for k, v in delims.items()}
    s, n = subject(ctx, b, n)
    opens = list(delims)
    if d == 'default':
        opens = opens[:1] + opens[3:4]
    state = []
    o = ctx.choice('state', [None] + opens)
    if o is not None:
        if not delims[o].quoting and n <= 3:
            p = ctx.choice('outer', [None] + [x for x in opens if not delims[x].quoting])
            if p is not None:
                state.append(p)
        state.append(o)
    kw = {} if d == 'default' else {'delimiters': delims}
    if state:
        kw['state'] = state
    _check_delims(ctx, X, s, b, delims, state, kw)
    ctx.reach('delims')


DFORMS = {
    'open': lambda D, c: {c: D(')')},
    'close': lambda D, c: {'(': D(c), '<': D('>')},
    'escape': lambda D, c: {'"': D('"', escape=c, quoting=True), '(': D(')')},
    'quoting': lambda D, c: {c: D(c, escape='\\', quoting=True, multiline=False), '(': D(')')},
    'long': lambda D, c: {'<' + c: D(c + '>'), '(': D(')')},
}


@harness('Q02', cases=lambda tier: [dict(group=g, form=f, b=b, n=3 if tier == 'quick' else 4) for g in range(len(OGROUPS)) for f in DFORMS for b in (False, True) if not (b and (g > 6 or tier == 'quick' and f not in ('escape', 'long')))],
         bounds='129 characters as opening, closing or quoting delimiters, escapes or parts of them, in every text of 3 (thorough 4) characters out of that character, brackets, the quote, the backslash '
         'and x, outside or inside a delimiter')
def any_delimiter(ctx, group, form, b, n):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    c = ctx.choice('character', OGROUPS[group])
    if b and ord(c) > 127 or c in '()<>"\\':
        ctx.check(True, 'not a case')
        return
    delims = DFORMS[form](X.Delimiter, c)
    if b:
        delims = {t(k): X.Delimiter(t(v.close), escape=t(v.escape), multiline=v.multiline, quoting=v.quoting) for k, v in delims.items()}
    al = ''.join(dict.fromkeys(c + {'open': '()x', 'close': '(<>x', 'escape': '"()x', 'quoting': '\\(\n)', 'long': '<>(x'}[form]))
    s = ctx.bytes('s', n, al.encode('ascii')) if b else ctx.str('s', n, al)
    o = ctx.choice('state', [None, list(delims)[0]])
    state = [] if o is None else [o]
    kw = dict(delimiters=delims)
    if state:
        kw['state'] = state
    _check_delims(ctx, X, s, b, delims, state, kw)
    ctx.reach('any')


@harness('Q02', cases=lambda tier: [dict(how=h, b=b, n=n) for h in ('none', 'dict', 'parts', 'copy') for b in (False, True) if not (b and h == 'parts') for n in ((3 + (h == 'parts'),) if tier == 'quick' else (4, 5))],
         bounds='every text of 3 or 4 (thorough 5) brackets, quotes, backslashes, line breaks and x: the default delimiters given as None, as the exported mapping, as a copy of it, or put together from the exported delimiters, angle brackets among them')
def stock(ctx, how, b, n):
    import big.text as X
    D = X.Delimiter
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    delims = _dsets(X)['default']
    if how == 'parts':
        delims = {k: v for k, v in delims.items() if k in '(["'}
        delims['<'] = D('>')
        arg = {'(': X.delimiter_parentheses, '[': X.delimiter_square_brackets, '<': X.delimiter_angle_brackets, '"': X.delimiter_double_quotes}
        if ctx.bool('more'):
            del delims['['], arg['[']
            delims['{'], arg['{'] = D('}'), X.delimiter_curly_braces
            delims["'"], arg["'"] = D("'", escape='\\', multiline=False, quoting=True), X.delimiter_single_quote
    else:
        arg = X.split_delimiters_default_delimiters_bytes if b else X.split_delimiters_default_delimiters
        arg = None if how == 'none' else dict(arg) if how == 'copy' else arg
    if b:
        delims = {t(k): D(t(v.close), escape=t(v.escape), multiline=v.multiline, quoting=v.quoting) for k, v in delims.items()}
    al = ''.join(t if isinstance(t, str) else t.decode('ascii') for t in delims) + ')>\'\\x\n' if how == 'parts' else '()[}\'"\\x\n'
    s = ctx.bytes('s', n, al.encode('ascii')) if b else ctx.str('s', n, ''.join(dict.fromkeys(al)))
    o = ctx.choice('state', [None] + list(delims)[:1] + list(delims)[-1:])
    state = [] if o is None else [o]
    kw = dict(delimiters=arg)
    if state:
        kw['state'] = state
    _check_delims(ctx, X, s, b, delims, state, kw)
    ctx.reach('stock')
