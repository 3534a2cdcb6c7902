"""Splitting, stripping and partitioning text (big/text.py)."""
from sx.registry import harness
from props.holes import subject, fewer

SETS = {
    'two': ('a', 'bc'),
    'nest': ('a', 'ab', 'abc'),
    'overlap': (' x ',),
    'suffix': ('ab', 'b', 'cab'),
    'chars': 'ab',
    'crlf': ('\r', '\n', '\r\n'),
    'meta': ('.', '(', '\\', '^-'),
    'byte': (b'a', b'bc', b'abc'),
    'bytechars': b'ab',
    'spaces': (' ', '  '),
}
# longer texts, two or three characters of them arbitrary (see holes.py)
LONG = {
    'two': ('xa□bcx□abcb□cax', 'abcx'),
    'nest': ('abx□abcab□cxa□bc', 'abcx'),
    'overlap': (' x x□x x □ x  x□', ' xy'),
    'suffix': ('xcab□bcabx□ab□', 'abcx'),
    'chars': ('xxabba□xb□aax□', 'abx'),
    'crlf': ('x\r\n□\n\r\r\n□x\r□\nx', '\r\nx'),
    'meta': ('x.(□^-^□\\-.□x', '.(\\^-x'),
    'byte': ('abx□abcab□cxa□bc', 'abcx'),
    'bytechars': ('xxabba□xb□aax□', 'abx'),
    'spaces': ('x   □  x □ □x', ' x'),
}
STRIPS = [False, True, 'LEFT', 'RIGHT', 'PROGRESSIVE']
KEEPS = [False, True, 'ALTERNATING', 'AS_PAIRS']


def seplist(seps):
    if isinstance(seps, str):
        return list(seps)
    if isinstance(seps, bytes):
        return [seps[i:i + 1] for i in range(len(seps))]
    return sorted(seps, key=lambda t: -len(t))


def single(c, seps):
    """is the one-character string c a separator (asked once for all one-character separators)"""
    ones = [t for t in seps if len(t) == 1]
    return bool(ones) and bool(c in ones[0][:0].join(ones))


def at(s, i, seps):
    """length of the longest separator starting at i, 0 if none"""
    best = 0
    for t in seps:
        if len(t) > max(best, 1) and i + len(t) <= len(s) and s[i:i + len(t)] == t:
            best = len(t)
    return best or int(i < len(s) and single(s[i:i + 1], seps))


def before(s, j, seps):
    """length of the longest separator ending at j, 0 if none"""
    best = 0
    for t in seps:
        if len(t) > max(best, 1) and j >= len(t) and s[j - len(t):j] == t:
            best = len(t)
    return best or int(j > 0 and single(s[j - 1:j], seps))


def spans(s, seps, reverse, separate):
    """spans of the separators found, in scan order"""
    out = []
    if not reverse:
        i = 0
        while i < len(s):
            n = at(s, i, seps)
            if n:
                if out and not separate and out[-1][1] == i:
                    out[-1] = (out[-1][0], i + n)
                else:
                    out.append((i, i + n))
            i += n or 1
    else:
        j = len(s)
        while j > 0:
            n = before(s, j, seps)
            if n:
                if out and not separate and out[-1][0] == j:
                    out[-1] = (j - n, out[-1][1])
                else:
                    out.append((j - n, j))
            j -= n or 1
    return out


def lstrip_(s, seps):
    i = 0
    while True:
        n = at(s, i, seps)
        if not n:
            return s[i:]
        i += n


def rstrip_(s, seps):
    j = len(s)
    while True:
        n = before(s, j, seps)
        if not n:
            return s[:j]
        j -= n


def pieces(s, seps, reverse, separate, maxsplit):
    """alternating non-separator and separator strings, at most maxsplit separators"""
    sp = spans(s, seps, reverse, separate)
    if maxsplit is not None and maxsplit >= 0:
        sp = sp[:maxsplit]
    sp.sort()
    out = []
    i = 0
    for a, b in sp:
        out += [s[i:a], s[a:b]]
        i = b
    return out + [s[i:]]


def split_oracle(s, seps, keep, maxsplit, reverse, separate, strip):
    empty = s[:0]
    limited = maxsplit is not None and maxsplit >= 0
    if strip == 'PROGRESSIVE' and limited:
        near = rstrip_(s, seps) if reverse else lstrip_(s, seps)
        n = len(spans(near, seps, reverse, separate))
        s = near
        if maxsplit >= n:
            s = lstrip_(s, seps) if reverse else rstrip_(s, seps)
    elif strip:
        if strip != 'RIGHT':
            s = lstrip_(s, seps)
        if strip != 'LEFT':
            s = rstrip_(s, seps)
    p = pieces(s, seps, reverse, separate, maxsplit)
    if keep == 'ALTERNATING':
        return p
    if not keep:
        return p[::2]
    p = p + [empty]
    prs = [(p[i], p[i + 1]) for i in range(0, len(p), 2)]
    return prs if keep == 'AS_PAIRS' else [a + b for a, b in prs]


def _split_cases(tier):
    out = []
    hi = 4 if tier == 'quick' else 5
    for kind in SETS:
        for n in range(0, hi + 1 + (kind in ('overlap',)) - (kind in ('meta', 'suffix') and tier == 'quick')):
            for rev in (False, True):
                if n < 3:
                    out.append(dict(kind=kind, n=n, rev=rev, strips=STRIPS))
                else:
                    out += [dict(kind=kind, n=n, rev=rev, strips=[st]) for st in STRIPS]
    for kind, (t, al) in LONG.items():
        out += [dict(kind=kind, n=[t if tier != 'quick' else fewer(t, 2), al], rev=rev, strips=[st]) for rev in (False, True) for st in STRIPS]
    return out


@harness('X01', cases=_split_cases, bounds='every text (any Unicode characters or bytes) of up to 4 (thorough 5) characters, one longer for overlapping separators; ten separator collections '
         '(overlapping, nested, multi-character, regular-expression characters, a plain string, bytes); every combination of keep, separate, strip, reverse and maxsplit in None, -2, -1, 0, 1, 2, 3; and a longer text for each collection with two (thorough three) arbitrary characters of its alphabet, maxsplit up to 6')
def split_any(ctx, kind, n, rev, strips):
    import big.text as X
    seps = SETS[kind]
    sl = seplist(seps)
    s, n = subject(ctx, kind.startswith('byte'), n)
    ambiguous = kind == 'suffix'
    if n < 3:
        for one in (iter(sl), set(sl), list(sl), {t: 1 for t in sl}):
            st = False if ambiguous else strips[-1]
            ctx.check(list(X.multisplit(s, one, reverse=rev, strip=st, keep=True)) == list(X.multisplit(s, sl, reverse=rev, strip=st, keep=True)),
                      'separators can come from any iterable')
    for strip in strips:
        if ambiguous and strip in (True, 'RIGHT', 'PROGRESSIVE') or n >= 10 and kind == 'overlap' and strip == 'PROGRESSIVE':
            ctx.check(True, 'what a strip of the far end takes is not determined')
            continue
        for separate in (False, True):
            for m in (-1, None, 0, 1, 2, 3, -2) if n < 10 else (-1, 1, 2, 4, 5, 6):
                if m == -2 and n > 2:
                    continue
                for keep in KEEPS:
                    r = list(X.multisplit(s, seps, keep=keep, maxsplit=m, reverse=rev, separate=separate, strip=strip))
                    w = split_oracle(s, sl, keep, m, rev, separate, strip)
                    ctx.check(len(r) == len(w), 'the string is split at exactly the separators', lambda: (keep, m, rev, separate, strip, r, w))
                    ctx.check(r == w, 'the parts are the text between the separators', lambda: (keep, m, rev, separate, strip, r, w))
                    if not strip and keep in (True, 'ALTERNATING'):
                        ctx.check(s[:0].join(r) == s, 'joining the kept parts gives the text back')
    ctx.reach('split')


TABLES = [a + b + c for a in ('', 'str_', 'unicode_', 'ascii_', 'bytes_') for b in ('whitespace', 'linebreaks') for c in ('', '_without_crlf')]


@harness('X01', cases=lambda tier: [dict(table=t, n=n) for t in TABLES if tier != 'quick' or t[:1] in 'uab' for n in range(0, 5 if tier == 'quick' else 6)],
         bounds='the tables of whitespace and line breaks: every text of up to 4 (thorough 5) of eight whitespace characters and a letter (bytes: seven), from either side')
def builtin_tables(ctx, table, n):
    import big.text as X
    seps = getattr(X, table)
    s = ctx.bytes('s', n, b'\n\r\x0b\x0c\x1c a') if table.startswith('bytes') else ctx.str('s', n, '\n\r\x0b\x1c\x1f\x85\u2028 a')
    for rev in (False, True):
        for separate in (False, True):
            for m in (-1, 1) if n < 4 else (-1,):
                r = list(X.multisplit(s, seps, keep='AS_PAIRS', reverse=rev, separate=separate, maxsplit=m))
                w = split_oracle(s, seplist(seps), 'AS_PAIRS', m, rev, separate, False)
                ctx.check(r == w, 'the string is split at exactly the separators', lambda: (rev, separate, m, r, w))
    if n < 4:
        ctx.check(X.multipartition(s, seps, 1) == tuple(pieces(s, seplist(seps), False, True, 1) + [s[:0]] * 2)[:3], 'the first separator is found from the left', lambda: s)
    ctx.reach('tables')


def _ws_cases(tier):
    hi = 3 if tier == 'quick' else 4
    return [dict(b=b, n=n) for b in (False, True) for n in range(0, hi + 1)]


@harness('X01', cases=_ws_cases, bounds='every text (any Unicode characters, or bytes) of up to 3 (thorough 4) characters, maxsplit none, 0, 1, 2')
def like_python(ctx, b, n):
    """Python's own split and splitlines"""
    import big.text as X
    s, n = subject(ctx, b, n)
    e = s[:0]
    for m in (-1, 0, 1, 2):
        for rev in (False, True):
            r = list(X.multisplit(s, maxsplit=m, reverse=rev, strip=X.PROGRESSIVE))
            w = (s.rsplit(None, m) if rev else s.split(None, m)) or [e]
            ctx.check(r == w, 'splitting by default whitespace is str.split()', lambda: (m, rev, r, w))
    lb = X.bytes_linebreaks if b else X.linebreaks
    for keep in (False, True):
        r = list(X.multisplit(s, lb, separate=True, keep=keep))
        if r[-1] == e:
            r.pop()
        w = s.splitlines(keep)
        ctx.check(r == w, 'splitting by linebreaks is str.splitlines()', lambda: (keep, r, w))
    ws = X.bytes_whitespace if b else X.whitespace
    ctx.check(X.multistrip(s, ws) == s.strip(), 'stripping whitespace is str.strip()')
    ctx.check(X.multistrip(s, ws, right=False) == s.lstrip(), 'stripping whitespace on the left is str.lstrip()')
    ctx.check(X.multistrip(s, ws, left=False) == s.rstrip(), 'stripping whitespace on the right is str.rstrip()')
    ctx.reach('like python')


# every ASCII character, and others that are special to Python or to a console somewhere
ANY = [chr(i) for i in range(128)] + list('\x80\x85\xa0\xb2\xdf\xe9\u0130\u0131\u0301\u1680\u200b\u2028\u2029\u3000\ufeff\ufffd\U0001f600')
GROUPS = [ANY[i:i + 16] for i in range(0, len(ANY), 16)]
FORMS = {'one': lambda c: (c,), 'inside': lambda c: ('a' + c + 'b',), 'double': lambda c: (c + c, 'x'), 'nested': lambda c: (c + 'a', c), 'end': lambda c: ('a' + c, 'a')}


@harness('X01', cases=lambda tier: [dict(group=g, form=f, b=b, n=3 if tier == 'quick' else 4) for g in range(len(GROUPS)) for f in FORMS for b in (False, True) if not (b and g > 7)],
         bounds='145 characters as separators or parts of separators, in five collections each, in every text of 3 (thorough 4) characters out of that character, a, b and x')
def any_separator(ctx, group, form, b, n):
    import big.text as X
    c = ctx.choice('character', GROUPS[group])
    seps = FORMS[form](c)
    al = ''.join(dict.fromkeys(c + 'abx'))
    if b:
        seps = tuple(t.encode('ascii') for t in seps)
        s = ctx.bytes('s', n, al.encode('ascii'))
    else:
        s = ctx.str('s', n, al)
    sl = seplist(seps)
    for rev in (False, True):
        for separate in (False, True):
            r = list(X.multisplit(s, seps, keep='ALTERNATING', reverse=rev, separate=separate))
            w = split_oracle(s, sl, 'ALTERNATING', -1, rev, separate, False)
            ctx.check(r == w, 'the string is split at exactly the separators', lambda: (seps, rev, separate, r, w))
    for left, right in ((True, False), (False, True)):
        r = X.multistrip(s, seps, left=left, right=right)
        w = lstrip_(s, sl) if left else rstrip_(s, sl)
        ctx.check(r == w, 'separators are stripped', lambda: (seps, r, w))
    ctx.check(X.multipartition(s, seps, 1) == tuple(pieces(s, sl, False, True, 1) + [s[:0]] * 2)[:3], 'the first separator is found from the left', lambda: (seps, s))
    ctx.reach('any')


HOW = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset, 'dict': dict.fromkeys, 'keys': lambda t: dict.fromkeys(t).keys(), 'generator': lambda t: (x for x in t), 'iterator': iter, 'doubled': lambda t: list(t) + list(t)}


@harness('X01', cases=lambda tier: [dict(how=h, b=b, n=n) for h in HOW for b in (False, True) for n in ((3,) if tier == 'quick' else (3, 4))],
         bounds='separators given as any of nine kinds of collection, one-shot iterators included, in every text of 3 (thorough also 4) characters, every combination of options')
def collections(ctx, how, b, n):
    import big.text as X
    sl = ('a', 'ab', 'x.')
    if b:
        sl = tuple(t.encode('ascii') for t in sl)
    s = ctx.bytes('s', n, b'abx.') if b else ctx.str('s', n, 'abx.')
    for keep in (False, True, X.ALTERNATING, X.AS_PAIRS):
        for strip in (False, True, X.LEFT, X.RIGHT, X.PROGRESSIVE):
            for rev in (False, True):
                for separate in (False, True):
                    for maxsplit in (-1, 1):
                        r = list(X.multisplit(s, HOW[how](sl), keep=keep, strip=strip, reverse=rev, separate=separate, maxsplit=maxsplit))
                        w = split_oracle(s, sl, keep, maxsplit, rev, separate, strip)
                        ctx.check(r == w, 'the string is split at exactly the separators', lambda: (keep, strip, rev, separate, maxsplit, r, w))
    ctx.reach('collections')
