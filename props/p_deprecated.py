"""The deprecated parsers (big/deprecated.py)."""
from sx.registry import harness


def units(s):
    return [s[i:i + 1] for i in range(len(s))]


def scan(s, quotes, triple, esc):
    """list of (quoted, segment)"""
    out = []
    i = 0
    n = len(s)
    text = s[:0]
    quote = None
    while i < n:
        c = s[i:i + 1]
        if quote is None:
            if c not in quotes:
                text = text + c
                i += 1
                continue
            k = 3 if triple and s[i:i + 3] == c * 3 else 1
            if len(text):
                out.append((False, text))
            text = s[i:i + k]
            quote = s[i:i + k]
            i += k
            continue
        if c == esc:
            text = text + s[i:i + 2]
            i += 2
            continue
        k = len(quote)
        if s[i:i + k] == quote:
            out.append((True, text + quote))
            text = s[:0]
            quote = None
            i += k
            continue
        text = text + c
        i += 1
    if len(text):
        out.append((quote is not None, text))
    return out


def _quote_cases(tier):
    hi = 8 if tier == 'quick' else 9
    out = []
    for b in (False, True):
        for triple in (True, False):
            for q in ('default', 'custom'):
                for n in range(0, hi + 1 - b):
                    out.append(dict(b=b, triple=triple, q=q, n=n))
    return out


@harness('Z01', cases=_quote_cases, bounds='every text of up to 8 (thorough 9) quotes, backslashes and letters (bytes one less), with and without triple quotes, default and custom quotes and escape')
def quoted(ctx, b, triple, q, n):
    import big.deprecated as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    al = [(34, 34), (39, 39), (92, 92), (94, 94), (97, 122)]
    s = ctx.bytes('s', n, al) if b else ctx.str('s', n, al)
    quotes, esc = (('"', "'"), '\\') if q == 'default' else (('^',), "'")
    kw = {} if q == 'default' else {'quotes': tuple(map(t, quotes)), 'backslash': t(esc)}
    if not triple:
        kw['triple_quotes'] = False
    r = [(bool(x), y) for x, y in X.split_quoted_strings(s, **kw)]
    want = scan(s, tuple(map(t, quotes)), triple, t(esc))
    ctx.check(s[:0].join(y for x, y in r) == s, 'joining the segments recreates the text', lambda: r)
    ctx.check(r == want, 'quoted segments end at the next unescaped occurrence of their quote', lambda: (r, want))
    ctx.reach('quoted')


def parse(s, pairs, esc):
    """pairs: open -> (close, backslash, nested); the tuples, or None if the delimiters do not match"""
    out = []
    text = s[:0]
    e = s[:0]
    stack = []
    closers = [c for o, (c, bs, nest) in pairs.items() if c != o]
    i = 0
    while i < len(s):
        c = s[i:i + 1]
        close, bs, nest = stack[-1] if stack else (None, False, True)
        if close is not None and c == close:
            out.append((text, e, c))
            text = e
            stack.pop()
        elif nest and c in closers:
            return None
        elif nest and c in list(pairs):
            for o in pairs:
                if c == o:
                    stack.append(pairs[o])
            out.append((text, c, e))
            text = e
        elif bs and c == esc:
            text = text + s[i:i + 2]
            i += 1
        else:
            text = text + c
        i += 1
    if stack:
        return None
    if len(text):
        out.append((text, e, e))
    return out


def _parse_cases(tier):
    hi = 7 if tier == 'quick' else 8
    return [dict(b=b, d=d, n=n) for b in (False, True) for d in ('default', 'pairs', 'odd') for n in range(0, hi + 1 - b - (d == 'default'))]


@harness('Z01', cases=_parse_cases, bounds='every text of up to 7 (thorough 8) delimiters, backslashes and letters (bytes and the default delimiters one less), three sets of delimiters')
def delimiters(ctx, b, d, n):
    import big.deprecated as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    D = X.Delimiter
    if d == 'default':
        spec, args = {'(': (')', False, True), '[': (']', False, True), '{': ('}', False, True), "'": ("'", True, False), '"': ('"', True, False)}, None
        al = [(34, 34), (39, 41), (91, 93), (123, 123), (125, 125), (97, 97)]
    elif d == 'pairs':
        spec, args = {'<': ('>', False, True), '(': (')', False, True)}, [t('<>'), t('()')]
        al = [(40, 41), (60, 60), (62, 62), (92, 92), (97, 98)]
    else:
        spec = {'<': ('>', True, True), '[': ('>', False, False), '|': ('|', False, True)}
        args = (D(t(o), t(c), backslash=bs, nested=ne) for o, (c, bs, ne) in spec.items())
        al = [(60, 60), (62, 62), (91, 92), (97, 97), (124, 124)]
    s = ctx.bytes('s', n, al) if b else ctx.str('s', n, al)
    pairs = {t(o): (t(c), bs, ne) for o, (c, bs, ne) in spec.items()}
    want = parse(s, pairs, t('\\'))
    try:
        r = list(X.parse_delimiters(s, list(args) if d == 'odd' else args)) if args is not None else list(X.parse_delimiters(s))
    except ValueError:
        r = None
    if want is None or r is None:
        ctx.check(want is None and r is None, 'ValueError exactly when the delimiters do not match', lambda: (want, r))
        return
    ctx.check([tuple(x) for x in r] == want, 'each delimiter ends a piece of text and matches the innermost open one', lambda: (r, want))
    ctx.check(s[:0].join(x for p in r for x in p) == s, 'joining everything recreates the text')
    ctx.reach('delimiters')


def _comment_cases(tier):
    hi = 7 if tier == 'quick' else 8
    return [dict(seps=k, q=q, b=b, n=n) for k in ('hash', 'two') for q in ('default', 'none', 'single', 'custom', 'bar') for b in (False, True)
            for n in range(0, hi + 1 - (b or q in ('single', 'custom', 'bar')))]


@harness('Z01', cases=_comment_cases, bounds='two lines, the first of up to 7 (thorough 8) comment markers, quotes, escapes, spaces and letters (bytes and special settings one less); two sets of markers as a tuple or list, no quotes, default or custom quotes and escape, with and without triple quotes, trailing space kept or not')
def comments(ctx, seps, q, b, n):
    import big.deprecated as X
    import big.text as T
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    al = {'custom': ' #\'/^|a', 'bar': ' #/\\|a'}.get(q, ' #\'/\\a')
    s = ctx.bytes('s', n, al.encode()) if b else ctx.str('s', n, al)
    markers = [t(x) for x in {'hash': ('#',), 'two': ('//', '#')}[seps]]
    quotes, triple, esc = {'default': ('"\'', True, '\\'), 'single': ('"\'', False, '\\'), 'custom': ("'|", True, '^'), 'bar': ('|', False, '\\'), 'none': ('', True, '\\')}[q]
    quotes, esc = tuple(t(x) for x in quotes), t(esc)
    kw = {}
    if q == 'none':
        kw['quotes'] = None
    elif q != 'default' or b:
        kw['quotes'] = quotes
    if esc != t('\\') or b:
        kw['backslash'] = esc
    if not triple:
        kw['triple_quotes'] = False
    for rstrip in (True, False):
        if not rstrip:
            kw['rstrip'] = False
        nl, second = t('\n'), t('a # b')
        r = list(X.lines_strip_comments(T.lines(s + nl + second), tuple(markers) if rstrip else markers, **kw))
        ctx.check(len(r) == 2, 'every line is yielded')
        ctx.check(r[1][1] == t('a' if rstrip else 'a ') and r[1][0].trailing == second[len(r[1][1]):], 'a quote does not reach the next line', lambda: (s, r[1]))
        info, line = r[0]
        keep = s
        done = 0
        for is_quoted, segment in (scan(s, quotes, triple, esc) if quotes else [(False, s)]):
            at = -1
            if not is_quoted:
                for i in range(len(segment)):
                    if any(segment[i:i + len(m)] == m for m in markers):
                        at = i
                        break
            if at >= 0:
                head = segment[:at]
                keep = s[:done] + (head.rstrip() if rstrip else head)
                break
            done += len(segment)
        ctx.check(line == keep, 'the line is cut at the leftmost marker outside quotes', lambda: (s, rstrip, line, keep))
        ctx.check(info.leading + line + info.trailing + info.end == s + nl, 'what was cut is in trailing', lambda: (info.leading, line, info.trailing))
    ctx.reach('comments')
