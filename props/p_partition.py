"""Partitioning and stripping text (big/text.py)."""
import re

from sx.registry import harness
from props.holes import subject, fewer
from props.p_split import SETS, LONG, seplist, at, before, pieces, lstrip_, rstrip_, GROUPS, FORMS, HOW


def _mp_cases(tier):
    hi = 5 if tier == 'quick' else 6
    return [dict(kind=k, n=n) for k in SETS for n in range(0, hi + 1)] + [dict(kind=k, n=list(LONG[k])) for k in SETS]


@harness('X02', cases=_mp_cases, bounds='every text (any Unicode characters or bytes) of up to 5 (thorough 6) characters; ten separator collections; '
         'counts 0 to 3 and negative; both directions, separators grouped or not; a longer text for each collection with three arbitrary characters of its alphabet, counts up to 9')
def multipartition(ctx, kind, n):
    import big.text as X
    seps = SETS[kind]
    sl = seplist(seps)
    s, n = subject(ctx, kind.startswith('byte'), n)
    e = s[:0]
    for count in (0, 1, 2, 3) if n < 10 else (1, 3, 4, 5, 9):
        for rev in (False, True):
            for separate in (None, False, True):
                kw = {} if separate is None else {'separate': separate}
                r = X.multipartition(s, seps, count, reverse=rev, **kw)
                w = pieces(s, sl, rev, separate is not False, count)
                pad = [e] * (2 * count + 1 - len(w))
                w = pad + w if rev else w + pad
                ctx.check(isinstance(r, tuple) and len(r) == 2 * count + 1, 'the result has 2*count+1 parts', lambda: (count, rev, separate, r, w))
                ctx.check(list(r) == w, 'the text is partitioned at the separators found in scan order', lambda: (count, rev, separate, r, w))
                r2 = X.multirpartition(s, seps, count, reverse=not rev, **kw)
                ctx.check(r2 == r, 'multirpartition is the mirror of multipartition')
    if len(sl) == 1 or all(len(t) == 1 for t in sl):
        one = X.multipartition(s, sl[:1])
        ctx.check(one == s.partition(sl[0]), 'one separator: like str.partition')
        ctx.check(X.multirpartition(s, sl[:1]) == s.rpartition(sl[0]), 'one separator: like str.rpartition')
    try:
        X.multipartition(s, seps, -1)
        ctx.fail('a negative count is refused')
    except ValueError:
        pass
    ctx.reach('partition')


STRIP_LONG = {'two': '□bca□xbcbc□a', 'nest': 'aab□cx□abcab□', 'overlap': ' x □x  y□ x  x□', 'suffix': 'abcab□x□bcab□b', 'chars': 'ab□ax□bab□a', 'crlf': '\r\n□\rx□\n\r□\n',
              'meta': '.^-□(x□^-\\□', 'byte': 'aab□cx□abcab□', 'bytechars': 'ab□ax□bab□a', 'spaces': '  □ x□  □ '}


def _strip_cases(tier):
    hi = 6 if tier == 'quick' else 7
    return [dict(kind=k, n=n) for k in SETS for n in range(0, hi + 1)] + [dict(kind=k, n=[t, LONG[k][1]]) for k in SETS for t in (LONG[k][0], STRIP_LONG[k])]


@harness('X02', cases=_strip_cases, bounds='every text of up to 6 (thorough 7) characters, ten separator collections, both sides on and off; two longer texts for each with three arbitrary characters')
def multistrip(ctx, kind, n):
    import big.text as X
    seps = SETS[kind]
    sl = seplist(seps)
    s, n = subject(ctx, kind.startswith('byte'), n)
    e = s[:0]
    for left in (False, True):
        for right in (False, True):
            r = X.multistrip(s, seps, left=left, right=right)
            t = lstrip_(s, sl) if left else s
            ctx.check(t.startswith(r), 'the longest separators are stripped from the start, nothing else', lambda: (left, right, r))
            if not right:
                ctx.check(r == t, 'the end is untouched unless it is to be stripped')
                continue
            ctx.check(not before(r, len(r), sl), 'the result does not end with a separator', lambda: (left, right, r))
            if left:
                ctx.check(not at(r, 0, sl), 'the result does not start with a separator', lambda: (left, right, r))
            tail = t[len(r):]
            ok = {0}
            for j in range(1, len(tail) + 1):       # what was cut off is a run of separators
                if any(j >= len(x) and (j - len(x)) in ok and tail[j - len(x):j] == x for x in sl):
                    ok.add(j)
            ctx.check(len(tail) in ok, 'only separators are stripped from the end', lambda: (left, right, r))
    ctx.reach('strip')


@harness('X02', cases=lambda tier: [dict(group=g, form=f, b=b, n=3 if tier == 'quick' else 4) for g in range(len(GROUPS)) for f in FORMS for b in (False, True) if not (b and (g > 7 or tier == 'quick' and f not in ('inside', 'nested')))],
         bounds='145 characters as separators or parts of separators, in five collections each, in every text of 3 (thorough 4) characters out of that character, a, b and x')
def any_separator(ctx, group, form, b, n):
    import big.text as X
    c = ctx.choice('character', GROUPS[group])
    seps = FORMS[form](c)
    al = ''.join(dict.fromkeys(c + 'abx'))
    if b:
        seps = tuple(t.encode('ascii') for t in seps)
        s = ctx.bytes('s', n, al.encode('ascii'))
    else:
        s = ctx.str('s', n, al)
    judge(ctx, X, s, seps, lambda: seps)
    ctx.reach('any')


def judge(ctx, X, s, sl, seps):
    e = s[:0]
    for left, right in ((True, False), (False, True)):
        r = X.multistrip(s, seps(), left=left, right=right)
        w = lstrip_(s, sl) if left else rstrip_(s, sl)
        ctx.check(r == w, 'the longest separators are stripped, nothing else', lambda: (sl, r, w))
    for rev in (False, True):
        for count in (1, 2):
            w = pieces(s, sl, rev, True, count)
            pad = [e] * (2 * count + 1 - len(w))
            w = pad + w if rev else w + pad
            r = (X.multirpartition if rev else X.multipartition)(s, seps(), count)
            ctx.check(list(r) == w, 'the text is partitioned at the separators found in scan order', lambda: (sl, count, rev, r, w))
    w = pieces(s, sl, True, False, 1)
    r = X.multipartition(s, seps(), 1, reverse=True, separate=False)
    ctx.check(list(r) == [e] * (3 - len(w)) + w, 'the text is partitioned at the separators found in scan order', lambda: (sl, r, w))


@harness('X02', cases=lambda tier: [dict(how=h, b=b, n=n) for h in HOW for b in (False, True) for n in ((3,) if tier == 'quick' else (3, 4))],
         bounds='separators given as any of nine kinds of collection, one-shot iterators included, in every text of 3 (thorough also 4) characters')
def collections(ctx, how, b, n):
    import big.text as X
    sl = ('a', 'ab', 'x.')
    al = 'abx.'
    if b:
        sl = tuple(t.encode('ascii') for t in sl)
    s = ctx.bytes('s', n, al.encode('ascii')) if b else ctx.str('s', n, al)
    judge(ctx, X, s, sl, lambda: HOW[how](sl))
    ctx.reach('collections')


# pattern -> alphabet size needed is whatever the pattern distinguishes
FWD = {
    'chars': 'a|b', 'greedy': 'a+b?', 'alt': 'ab|bcd|c', 'overlap': 'aba|ba', 'group': '(a)(b)?', 'empty': 'a*', 'optional': '(?:ab)?', 'behind': '(?<=a)b|c', 'ahead': 'a(?=b)|c(?!b)',
    'word': r'\b', 'anchor': '^a|b$', 'class': r'[^\W\d]\d', 'backref': r'(a|b)\1', 'nothing': '', 'lazy': 'a.*?b',
    'behind-empty': '(?<=a)b*', 'late-empty': 'a|(?<=b)',
}
REV = {k: v for k, v in FWD.items() if k not in ('ahead', 'word', 'anchor')}


def reverse_spans(p, s):
    """right to left: the match with the rightmost end, longest first, then again in the text before it"""
    limit = len(s)
    out = []
    zero = None
    while True:
        best = None
        for pos in range(limit, -1, -1):
            for stop in (limit, pos):
                m = p.match(s, pos, stop)
                if m and (m.start(), m.end()) != (zero, zero):
                    k = (m.end(), -m.start())
                    if best is None or k > best:
                        best = k
        if best is None:
            return out
        a, b = -best[1], best[0]
        out.append((a, b))
        limit = a
        zero = a if a == b else None


def _re_cases(pats, limit):
    def cases(tier):
        hi = 6 if tier == 'quick' else 7
        return [dict(kind=k, b=b, n=n) for k in pats for b in (False, True) for n in range(0, hi + 1 - b)]
    return cases


def _pattern(src, b, how):
    src = src.encode() if b else src
    return re.compile(src) if how else src


@harness('X03', cases=_re_cases(REV, 4), bounds='every text (any Unicode characters, or bytes one shorter) of up to 6 (thorough 7) characters, fourteen patterns: overlapping alternatives, greedy and lazy '
         'repetition, empty matches, groups, back references, look-behind, classes (no alternative that can be empty before one that cannot)',
         assumes=['patterns whose meaning depends on what follows (look-ahead, $, word boundary) are not searched in reverse: the text is cut at the previous match'])
def reversed_finditer(ctx, kind, b, n):
    import big.text as X
    s, n = subject(ctx, b, n)
    p = re.compile(_pattern(FWD[kind], b, False))
    w = reverse_spans(p, s)
    r = list(X.reversed_re_finditer(_pattern(FWD[kind], b, ctx.bool('compiled')), s))
    ctx.check([m.span() for m in r] == w, 'matches are found from right to left, rightmost end first, not overlapping', lambda: ([m.span() for m in r], w))
    for m in r:
        ctx.check(m.group(0) == s[m.start():m.end()], 'a match gives the text it matched')
    for count in (0, 1, 2, 3):
        t = X.re_rpartition(s, p, count)
        _check_partition(ctx, X, t, s, w, count, True)
        t = X.re_partition(s, p, count, reverse=True)
        _check_partition(ctx, X, t, s, w, count, True)
    ctx.reach('reverse')


@harness('X03', cases=_re_cases(FWD, 4), bounds='every text of up to 6 (thorough 7) characters (bytes one shorter), seventeen patterns including look-around, anchors and empty matches; counts 0 to 3 and negative')
def re_partition(ctx, kind, b, n):
    import big.text as X
    s, n = subject(ctx, b, n)
    p = re.compile(_pattern(FWD[kind], b, False))
    w = [m.span() for m in p.finditer(s)]
    for count in (0, 1, 2, 3):
        _check_partition(ctx, X, X.re_partition(s, p, count), s, w, count, False)
    t = X.re_partition(s, _pattern(FWD[kind], b, False))
    _check_partition(ctx, X, t, s, w, 1, False)
    for f in (X.re_partition, X.re_rpartition):
        try:
            f(s, p, -1)
            ctx.fail('a negative count is refused')
        except ValueError:
            pass
    ctx.reach('partition')


# patterns whose matches, cut short at the one before, coincide in end or start with others
TIES = ['ba?b*a|a?.|a?.a?b*|cc+', 'abc|ab|bca?|a', 'a(?:bc?)?|[bc]+a|c', 'ab*c?|b+|(?:bc)+a', '(?:a|ab)(?:c|bcb)?(?:b*)', 'a*?b|b*c|c*a|']


@harness('X03', cases=lambda tier: [dict(i=i, b=b, n=n) for i in range(len(TIES)) for b in (False, True) for n in (list(range(0, 8)) if not b else [5]) + ([8] if tier != 'quick' and not b else [])]
         + [dict(i=i, b=False, n=[t, 'abc']) for i in range(len(TIES)) for t in ('bbb□□□c', 'a□c□bca', '□abcab□□')],
         bounds='six patterns of which many matches overlap: every text of a, b and c of up to 7 (thorough 8) characters (bytes 5), three longer texts with two or three arbitrary ones')
def ties(ctx, i, b, n):
    import big.text as X
    s = subject(ctx, b, n)[0] if isinstance(n, list) else ctx.bytes('s', n, b'abc') if b else ctx.str('s', n, 'abc')
    p = re.compile(_pattern(TIES[i], b, False))
    w = reverse_spans(p, s)
    r = [m.span() for m in X.reversed_re_finditer(p, s)]
    ctx.check(r == w, 'matches are found from right to left, rightmost end first, not overlapping', lambda: (r, w))
    for count in (1, 3, 9):
        _check_partition(ctx, X, X.re_rpartition(s, p, count), s, w, count, True)
    ctx.reach('ties')


FLAGGED = {'case': ('ab', re.I), 'verbose': ('a # b', re.X), 'dot': ('a.', re.S), 'lines': ('^b', re.M), 'case-verbose': ('[a] b', re.I | re.X), 'ascii': (r'\w\s', re.A), 'none': ('a.', 0)}


@harness('X03', cases=lambda tier: [dict(kind=k, b=b, n=3 if tier == 'quick' else 4) for k in FLAGGED for b in (False, True) if not (b and k == 'ascii')],
         bounds='every text of 3 (thorough 4) characters of a, b, A, B, blank, line feed and #, seven patterns given as text with flags; counts 0 to 3, from either side')
def with_flags(ctx, kind, b, n):
    import big.text as X
    src, flags = FLAGGED[kind]
    s = ctx.bytes('s', n, b'abAB \n#') if b else ctx.str('s', n, 'abAB \n#' + ('\xe9\xa0' if kind == 'ascii' else ''))
    q = _pattern(src, b, False)
    p = re.compile(q, flags)
    ahead, back = [m.span() for m in p.finditer(s)], reverse_spans(p, s)
    for count in (0, 1, 2, 3):
        _check_partition(ctx, X, X.re_partition(s, q, count, flags=flags), s, ahead, count, False)
        _check_partition(ctx, X, X.re_rpartition(s, q, count, flags=flags), s, back, count, True)
        _check_partition(ctx, X, X.re_partition(s, q, count, flags=flags, reverse=True), s, back, count, True)
    r = [m.span() for m in X.reversed_re_finditer(q, s, flags)]
    ctx.check(r == back, 'the flags are used', lambda: (r, back))
    ctx.reach('flags')


def _check_partition(ctx, X, t, s, w, count, rev):
    e = s[:0]
    ctx.check(isinstance(t, tuple) and len(t) == 2 * count + 1, 'the result has 2*count+1 parts', lambda: (count, rev, t))
    w = sorted(w[:count])
    pad = count - len(w)
    if rev:
        ctx.check(list(t[:2 * pad]) == [e, None] * pad, 'missing partitions are empty, on the left', lambda: (count, rev, t))
        t = t[2 * pad:]
    else:
        ctx.check(list(t[2 * len(w) + 1:]) == [None, e] * pad, 'missing partitions are empty, on the right', lambda: (count, rev, t))
        t = t[:2 * len(w) + 1]
    i = 0
    for k, (a, b) in enumerate(w):
        ctx.check(t[2 * k] == s[i:a], 'the text between the matches is kept', lambda: (count, rev, t))
        ctx.check(t[2 * k + 1].span() == (a, b), 'the matches are the ones found', lambda: (count, rev, t))
        i = b
    ctx.check(t[-1] == s[i:], 'the rest of the text is kept', lambda: (count, rev, t))
