"""lines and the lines modifier functions (big/text.py)."""
import re
from sx.registry import harness
from props.holes import subject, fewer
from props.p_split import at, lstrip_, rstrip_

BRK = {False: ['\r\n'] + list('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'), True: [b'\r\n', b'\n', b'\r']}
TXT = {False: '\n\t\r "#\'\\abc', True: None}


def cut_lines(s, seps):
    """(text, end) pairs"""
    out, i, start = [], 0, 0
    while i < len(s):
        k = at(s, i, seps)
        if k:
            out.append((s[start:i], s[i:i + k]))
            i = start = i + k
        else:
            i += 1
    out.append((s[start:], s[:0]))
    return out


def width(lead, tab):
    """columns taken by a clipped leading part"""
    col = total = 0
    for i in range(len(lead)):
        c = lead[i:i + 1]
        if c == (b'\t' if isinstance(lead, bytes) else '\t'):
            k = tab - col % tab
            total += k
            col += k
        else:
            total += 1
            col += 1
            if c in (b'\n\r' if isinstance(lead, bytes) else '\n\r'):
                col = 0
    return total


def conv(b):
    return (lambda x: x.encode('ascii')) if b else (lambda x: x)


# --- single modifiers: text -> (clipped left, rest, clipped right)
def m_rstrip(text, t, X):
    r = text.rstrip()
    return text[:0], r, text[len(r):]


def m_strip(text, t, X):
    l = text.lstrip()
    r = l.rstrip()
    return text[:len(text) - len(l)], r, l[len(r):]


def m_rseps(text, t, X):
    r = rstrip_(text, [t('ab'), t('b'), t(' ')])
    return text[:0], r, text[len(r):]


def m_sseps(text, t, X):
    sl = [t('ab'), t('b'), t(' ')]
    l = lstrip_(text, sl)
    r = rstrip_(l, sl)
    return text[:len(text) - len(l)], r, l[len(r):]


def m_indent(text, t, X):
    l = text.lstrip()
    return text[:len(text) - len(l)], l, text[:0]


def m_comment(text, t, X):
    for i in range(len(text)):
        if text[i:i + 1] == t('#') or text[i:i + 2] == t('//'):
            return text[:0], text[:i], text[i:]
    return text[:0], text, text[:0]


MODS = {
    'rstrip': (m_rstrip, lambda X, li, t: X.lines_rstrip(li)),
    'strip': (m_strip, lambda X, li, t: X.lines_strip(li)),
    'rstrip-seps': (m_rseps, lambda X, li, t: X.lines_rstrip(li, (t('ab'), t('b'), t(' ')))),
    'strip-seps': (m_sseps, lambda X, li, t: X.lines_strip(li, (t('ab'), t('b'), t(' ')))),
    'indent': (m_indent, lambda X, li, t: X.lines_strip_indent(li)),
    'comment': (m_comment, lambda X, li, t: X.lines_strip_line_comments(li, (t('#'), t('//')))),
}
CHAINS = [[m] for m in MODS] + [['strip-seps', 'indent'], ['indent', 'comment'], ['comment', 'rstrip'], ['strip', 'comment'], ['comment', 'strip-seps'], ['rstrip-seps', 'strip'], ['indent', 'comment', 'rstrip']]


def _chain_cases(tier):
    deep = tier != 'quick'
    out = []
    for c in CHAINS:
        for b in (False, True):
            for n in range(0, (5 if not b else 4) + deep + 1):
                out.append(dict(chain=c, b=b, n=n))
        if len(c) > 1 or tier != 'quick':
            out.append(dict(chain=c, b=False, n=['\t a□ #□ab \n', ' \tab#\n']))
            out.append(dict(chain=c, b=True, n=['  \t□a/□ b b□', ' \tab/\n']))
    return out


@harness('L01', cases=_chain_cases, bounds='every text (any Unicode characters, or bytes) of up to 5 (thorough 6) characters (bytes one fewer), thirteen chains of one to three clipping modifiers, every starting line number, column and tab width from 1 to 8 (1, 3, 4, 8); longer texts with two or three arbitrary characters for the chains of several')
def clipping(ctx, chain, b, n):
    import big.text as X
    t = conv(b)
    s, n = subject(ctx, b, n)
    first = ctx.int('line', -3, 10 ** 6)
    col = ctx.int('column', 0, 10 ** 6)
    tab = ctx.choice('tab', [1, 3, 4, 8] if n < 3 and len(chain) == 1 else [4])
    li = X.lines(s, line_number=first, column_number=col, tab_width=tab)
    for m in chain:
        li = MODS[m][1](X, li, t)
    e = s[:0]
    want = cut_lines(s, BRK[b])
    if 'indent' in chain:
        # only texts whose indentation is legal (L04 decides which are)
        got = []
        try:
            for x in li:
                got.append(x)
        except IndentationError:
            ctx.check(len(got) < len(want), 'an illegal dedent')
            return
    else:
        got = list(li)
    ctx.check(len(got) == len(want), 'every line is yielded once')
    for k, ((info, line), (text, end)) in enumerate(zip(got, want)):
        lead, rest, trail, c, clips = e, text, e, col, 0
        for m in chain:
            l, r, tr = MODS[m][0](rest, t, X)
            if not len(r):
                if len(rest) or m == 'indent':
                    lead, trail, c, clips = e, text, col, 0
            elif len(l) or len(tr):
                clips += bool(len(l))
                lead, trail, c = lead + l, tr + trail, c + width(l, tab)
            rest = r
            if not len(rest):
                pass
        ctx.check(info.line == text + end and info.end == end, 'info.line is the original line with its line break', lambda: (k, info.line, info.end, text, end))
        ctx.check(info.line_number == first + k, 'line numbers are consecutive')
        ctx.check(line == rest, 'the modifiers strip exactly what they document', lambda: (k, line, rest, text))
        ctx.check(info.leading + line + info.trailing + info.end == info.line, 'leading, line, trailing and end put together are the original line', lambda: (info.leading, line, info.trailing, info.end, info.line))
        ctx.check(info.leading == lead and info.trailing == trail, 'clipped text goes to leading and trailing; a line clipped completely goes to trailing', lambda: (info.leading, info.trailing, lead, trail))
        if len(line) or clips <= 1:
            ctx.check(info.column_number == c, 'column_number is where the remaining line starts', lambda: (info.column_number, c, text))
    ctx.check(e.join([info.line for info, line in got]) == s, 'the lines put together are the text')
    ctx.reach('clip')


def _clip_cases(tier):
    hi = 5 if tier == 'quick' else 6
    return [dict(b=b, n=n) for b in (False, True) for n in range(0, hi + 1)]


@harness('L01', cases=_clip_cases, bounds='every line of up to 5 (thorough 6) characters with or without a line break, every sequence of two clips (leading or trailing, by text or by count) of every length, tab width 4')
def clip_api(ctx, b, n):
    import big.text as X
    import re
    t = conv(b)
    s, n = subject(ctx, b, n)
    e = s[:0]
    end = t(ctx.choice('end', ['', '\n', '\r\n']))
    col = ctx.int('column', 0, 10 ** 6)
    owner = X.lines(e, tab_width=4, column_number=col)
    m = re.search('b', 'abc')
    info = X.LineInfo(owner, s + end, 7, col, end=end, match=m)
    ctx.check(info.match is m and info.lines is owner and info.line_number == 7 and info.indent == 0, 'attributes are the constructor arguments')
    line, lead, trail, c = s, e, e, col
    for k in range(2):
        side = ctx.choice('side', ['leading', 'trailing'])
        how = ctx.choice('how', ['text', 'count'])
        i = ctx.choice('length', list(range(len(line) + 1)))
        if side == 'leading':
            part = line[:i]
            rest = line[i:]
            got = info.clip_leading(line, part if how == 'text' else i)
            if len(rest):
                lead, c = lead + part, c + width(part, 4)
        else:
            part = line[len(line) - i:]
            rest = line[:len(line) - i]
            got = info.clip_trailing(line, part if how == 'text' else i)
            if len(rest):
                trail = part + trail
        if not len(rest) and len(line):
            two = k == 1 and len(lead) and side == 'leading'
            lead, trail, c = e, s, col
        line = rest
        ctx.check(got == rest, 'the rest of the line is returned', lambda: (side, how, i, got, rest))
        ctx.check(info.leading == lead and info.trailing == trail, 'the clipped part is appended to leading or put before trailing', lambda: (side, how, i, info.leading, info.trailing, lead, trail))
        ctx.check(info.column_number == c, 'column_number follows the clipped columns', lambda: (info.column_number, c))
    ctx.reach('clip api')


def _source_cases(tier):
    hi = 4 if tier == 'quick' else 5
    return [dict(b=b, n=n, how=h) for b in (False, True) for h in ('seps', 'strings', 'pairs', 'lists') for n in range(0, hi + 1)]


@harness('L01', cases=_source_cases, bounds='every text of up to 4 (thorough 5) characters split at custom separators, or given as an iterable of strings or of pairs (tuples or lists)')
def sources(ctx, b, n, how):
    import big.text as X
    t = conv(b)
    s, n = subject(ctx, b, n)
    e = s[:0]
    first = ctx.int('line', -3, 10 ** 6)
    if how == 'seps':
        seps = [t('ab'), t('a'), t(';')]
        want = cut_lines(s, seps)
        li = X.lines(s, seps, line_number=first)
    else:
        cuts = [i for i in range(1, n) if ctx.bool('cut')]
        parts = [s[x:y] for x, y in zip([0] + cuts, cuts + [n])]
        if how == 'strings':
            want = [(p, e) for p in parts]
            li = X.lines(iter(parts), line_number=first)
        else:
            want = []
            for p in parts:
                k = ctx.choice('end', list(range(len(p) + 1)))
                want.append((p[:k], p[k:]))
            li = X.lines(want if how == 'pairs' else [list(p) for p in want], line_number=first)
    got = list(li)
    ctx.check(len(got) == len(want), 'one line per piece', lambda: (got, want))
    for k, ((info, line), (text, end)) in enumerate(zip(got, want)):
        ctx.check(line == text and info.end == end and info.line == text + end, 'line, end and original line', lambda: (k, line, info.end, info.line))
        ctx.check(info.line_number == first + k and info.column_number == 1 and not len(info.leading) and not len(info.trailing) and info.lines is li, 'line information')
    ctx.reach('source')


# ------------------------------------------------------------------------------------- filters
def contains(text, sub):
    return any(text[i:i + len(sub)] == sub for i in range(len(text) - len(sub) + 1))


def f_containing(text, t):
    return contains(text, t('ab'))


def f_grep(text, t):
    # a(b|$)
    n = len(text)
    return contains(text, t('ab')) or (n > 0 and text[n - 1:] == t('a')) or (n > 1 and text[n - 2:] == t('a\n'))


def f_empty(text, t):
    return len(text) > 0


def f_comment1(text, t):
    return text.lstrip()[:1] != t('#')


def f_comment2(text, t):
    x = text.lstrip()
    return not (x[:1] == t('#') or x[:2] == t('//') or x[:2] == t('/*'))


FILTERS = {
    'containing': (f_containing, lambda X, li, t: X.lines_containing(li, t('ab'))),
    'not-containing': (lambda x, t: not f_containing(x, t), lambda X, li, t: X.lines_containing(li, t('ab'), invert=True)),
    'grep': (f_grep, lambda X, li, t: X.lines_grep(li, t('a(b|$)'))),
    'not-grep': (lambda x, t: not f_grep(x, t), lambda X, li, t: X.lines_grep(li, t('a(b|$)'), invert=True, match='mine')),
    'grep-flags': (lambda x, t: contains(x, t('b')) or contains(x, t('B')), lambda X, li, t: X.lines_grep(li, t('B'), flags=re.IGNORECASE, match='found')),
    'grep-verbose': (lambda x, t: contains(x, t('ab')), lambda X, li, t: X.lines_grep(li, t(' a b # both'), flags=re.VERBOSE, match='found')),
    'grep-compiled': (lambda x, t: contains(x, t('a')) or contains(x, t('A')), lambda X, li, t: X.lines_grep(li, re.compile(t('A'), re.IGNORECASE), match='found')),
    'not-grep-flags': (lambda x, t: not (contains(x, t('b')) or contains(x, t('B'))), lambda X, li, t: X.lines_grep(li, t('B'), flags=re.IGNORECASE, invert=True)),
    'empty': (f_empty, lambda X, li, t: X.lines_filter_empty_lines(li)),
    'comment': (f_comment1, lambda X, li, t: X.lines_filter_line_comment_lines(li, t('#'))),
    'comment-long': (lambda x, t: x.lstrip()[:2] != t('//'), lambda X, li, t: X.lines_filter_line_comment_lines(li, [t('//')])),
    'not-start': (lambda x, t: x[:1] != t('b'), lambda X, li, t: X.lines_grep(li, t('^b'), invert=True)),
    'comments': (f_comment2, lambda X, li, t: X.lines_filter_line_comment_lines(li, (t('#'), t('//'), t('/*')))),
    'comment-set': (f_comment2, lambda X, li, t: X.lines_filter_line_comment_lines(li, {t('#'), t('//'), t('/*')})),
}
FCH = [[f] for f in FILTERS] + [['not-containing', 'empty'], ['comments', 'grep'], ['grep', 'not-grep'], ['grep', 'not-start'], ['not-start', 'grep']]


def _filter_cases(tier):
    deep = tier != 'quick'
    return [dict(chain=c, b=b, n=n) for c in FCH for b in (False, True) for n in list(range(0, 5 - b + deep + 1)) + [['xab\r\n\n □#a\n//□\n/□ b\n\r□a', 'ab#/ \n']]]


@harness('L02', cases=_filter_cases, bounds='every text (any Unicode characters, or bytes one shorter) of up to 5 (thorough 6) characters, nineteen chains of filters, regular expressions with flags among them; a text of several lines with four arbitrary characters')
def filters(ctx, chain, b, n):
    import big.text as X
    t = conv(b)
    s, n = subject(ctx, b, n)
    li = X.lines(s, line_number=3)
    for f in chain:
        li = FILTERS[f][1](X, li, t)
    want = [(k, x, end) for k, (x, end) in enumerate(cut_lines(s, BRK[b])) if all(FILTERS[f][0](x, t) for f in chain)]
    got = list(li)
    ctx.check([i.line_number - 3 for i, l in got] == [k for k, x, end in want], 'exactly the matching lines are yielded, in order', lambda: (got, want))
    for (info, line), (k, x, end) in zip(got, want):
        ctx.check(line == x and info.line == x + end and info.end == end and not len(info.leading) and not len(info.trailing) and info.column_number == 1, 'lines are passed on unchanged', lambda: (line, x))
        if chain[-1] == 'not-start':
            ctx.check(info.match is None, 'inverted matching leaves no match object')
        elif 'grep' in chain:
            ctx.check(info.match is not None and info.match.group(0) == line[info.match.start():info.match.end()] and info.match.string == line, 'the match object is stored')
        elif chain[-1] in ('grep-flags', 'grep-verbose', 'grep-compiled'):
            ctx.check(info.found is not None and info.found.group(0) == line[info.found.start():info.found.end()] and info.found.string == line, 'the match object is stored under the name given')
        if 'not-grep' in chain:
            ctx.check(info.mine is None, 'no match object for inverted matching')
    ctx.reach('filter')


def _sort_cases(tier):
    deep = tier != 'quick'
    return [dict(sizes=z, b=b) for b in (False, True) for z in ([], [1], [0, 1], [1, 1], [2, 1], [1, 2, 1], [2, 2], [0, 1, 1], [1, 1, 1], [2, 2, 2], [1, 1, 1, 1]) + (([1, 1, 1, 1, 1], [2, 2, 2, 2]) if deep else ())]


@harness('L02', cases=_sort_cases, bounds='every sequence of up to 4 (thorough 5) lines of up to 2 arbitrary characters, default key (or a false one), reversed, and a key that ties')
def sorting(ctx, sizes, b):
    import big.text as X
    parts = [ctx.bytes('l', z) if b else ctx.str('l', z) for z in sizes]
    how = ctx.choice('how', ['plain', 'reverse', 'key', 'key-reverse', 'false', 'none-reverse'])
    key = (lambda t: t[1][:1]) if how.startswith('key') else None
    rev = how.endswith('reverse')
    kw = {}
    if key:
        kw['key'] = key
    elif how in ('false', 'none-reverse'):
        kw['key'] = False if how == 'false' else None
    if rev:
        kw['reverse'] = True
    got = list(X.lines_sort(X.lines(parts), **kw))
    where = [i.line_number - 1 for i, l in got]
    ctx.check(sorted(where) == list(range(len(parts))), 'every line is yielded once', lambda: where)
    fn = key or (lambda t: t[1])
    for (i, a), (j, c) in zip(got, got[1:]):
        ka, kc = fn((i, a)), fn((j, c))
        if rev:
            ka, kc = kc, ka
        ctx.check(ka < kc or (ka == kc and i.line_number < j.line_number), 'lines are in order and equal ones keep theirs', lambda: (a, c))
    for i, l in got:
        ctx.check(l == parts[i.line_number - 1], 'lines are unchanged')
    if not parts:
        ctx.check(got == [], 'nothing')
    ctx.reach('sort')


def _tab_cases(tier):
    return [dict(b=b, n=n) for b in (False, True) for n in range(0, 5 + (tier != 'quick'))]


@harness('L02', cases=_tab_cases, bounds='every line of up to 4 (thorough 5) characters, tab widths 1 to 8')
def tabs(ctx, b, n):
    import big.text as X
    s, n = subject(ctx, b, n)
    e = s[:0]
    tab, sp = (b'\t', b' ') if b else ('\t', ' ')
    w = ctx.choice('tab', [1, 2, 4, 8] if n < 4 else [3])
    (info, line), = list(X.lines_convert_tabs_to_spaces(X.lines([s], tab_width=w)))
    out, col = e, 0
    for i in range(n):
        c = s[i:i + 1]
        if c == tab:
            k = w - col % w
            out = out + sp * k
            col += k
        else:
            out = out + c
            col = 0 if c in (b'\n\r' if b else '\n\r') else col + 1
    ctx.check(line == out and info.line == s, 'tabs become spaces up to the next tab stop', lambda: (line, out))
    ctx.reach('tabs')


# ------------------------------------------------------------------------------------- comments
LC = {
    'plain': (('#',), (), (), '\\'),
    'two': (('#', '//'), (), (), '\\'),
    'quotes': (('#',), ('"', "'"), (), '\\'),
    'multi': (('#', '//'), ("'",), ('`',), '\\'),
    'only-multi': ('#>', (), ("'",), ''),
    'triple': (('--',), ("'",), ('"""',), '^'),
}


LCLONG = {
    'plain': [('ab□ #c□\n#□\nx□', '#"x\n')],
    'two': [('a/□/b#□\n/□/x\n□', '#/x\n')],
    'quotes': [('a"□#\\□"\'#"□\'#\n"□"', '"\'#\\x\n')],
    'multi': [("'/□/\\'`#□\n`//□\n'#'□", "'`#/\\x\n")],
    'only-multi': [("'#\n□'>'□\n#'\n'□", "'#>x\n")],
    'triple': [('"""-□--\n^"""□"""--\n\'□-\'-□', '"\'-^x\n')],
}


def _lc_cases(tier):
    deep = tier != 'quick'
    hi = {'plain': 4, 'two': 4, 'quotes': 5, 'multi': 5, 'only-multi': 5, 'triple': 5}
    return [dict(k=k, b=b, n=n) for k in LC for b in (False, True) for n in list(range(0, hi[k] - b + deep + 1)) + [list(x) for x in LCLONG[k]]]


def scan_comments(s, t, marks, quotes, multi, esc, b):
    """list of line texts, or None for SyntaxError; second value False if the text uses something undocumented"""
    out, q = [], None
    for text, end in cut_lines(s, BRK[b]):
        i, n = 0, len(text)
        while i < n:
            if q is not None:
                hit = None
                if len(esc):
                    for x in quotes + multi + [esc]:
                        if text[i:i + len(esc) + len(x)] == esc + x:
                            hit = len(esc) + len(x)
                            break
                if hit:
                    i += hit
                elif text[i:i + len(q)] == q:
                    i += len(q)
                    q = None
                else:
                    i += 1
                continue
            if any(text[i:i + len(m)] == m for m in marks):
                break
            if len(esc) and (quotes or multi) and any(text[i:i + len(esc) + len(x)] == esc + x for x in quotes + multi + [esc]):
                return None, False
            for x in quotes + multi:
                if text[i:i + len(x)] == x:
                    q = x
                    i += len(x)
                    break
            else:
                i += 1
        out.append(text[:i])
        if i >= n and q is not None and q in quotes:
            return None, True
    return (None if q is not None else out), True


def _check_comments(ctx, X, s, t, arg, marks, quotes, multi, esc, b, kw):
    try:
        r = [(i, l) for i, l in X.lines_strip_line_comments(X.lines(s), arg, **kw)]
    except SyntaxError:
        r = None
    want, sure = scan_comments(s, t, marks, quotes, multi, esc, b)
    if not sure:
        ctx.check(True, 'escaped quote outside quotes')
        return
    ctx.check((r is None) == (want is None), 'SyntaxError exactly for unterminated quotes', lambda: (r, want))
    if r is not None and want is not None:
        ctx.check([l for i, l in r] == want, 'every line is cut at its leftmost comment marker outside quotes', lambda: (r, want))
        for (i, l), (text, end) in zip(r, cut_lines(s, BRK[b])):
            ctx.check(i.line == text + end and i.trailing == text[len(l):], 'the comment goes to trailing', lambda: (i.trailing, l))


@harness('L03', cases=_lc_cases, bounds='every text (any Unicode characters, or bytes one shorter) of up to 4 or 5 (thorough one more) characters, six sets of comment markers, quotes, multiline quotes and escapes; a text of several lines for each with three or four arbitrary characters')
def comments(ctx, k, b, n):
    import big.text as X
    t = conv(b)
    marks, quotes, multi, esc = LC[k]
    arg = t(marks) if isinstance(marks, str) else [t(x) for x in marks]
    marks = [t(x) for x in marks]
    quotes, multi, esc = [t(x) for x in quotes], [t(x) for x in multi], t(esc)
    s, n = subject(ctx, b, n)
    kw = {}
    if quotes:
        kw['quotes'] = tuple(quotes)
    if multi:
        kw['multiline_quotes'] = tuple(multi)
    if k in ('only-multi', 'triple'):
        kw['escape'] = esc
    _check_comments(ctx, X, s, t, arg, marks, quotes, multi, esc, b, kw)
    ctx.reach('comment')


COLLECTIONS = {'list': list, 'set': set, 'frozenset': frozenset, 'keys': lambda x: dict.fromkeys(x).keys(), 'iterator': iter, 'generator': lambda x: (y for y in x)}


@harness('L03', cases=lambda tier: [dict(k=k, b=b, kind=c, n=[x[0] if tier != 'quick' else fewer(x[0], 2), x[1]]) for k in LC for b in (False, True) for c in COLLECTIONS for x in LCLONG[k][:1]],
         bounds='comment markers, quotes and multiline quotes given as a list, a set, a frozen set, keys of a dictionary, an iterator or a generator: a text of several lines for each with two (thorough all) arbitrary characters')
def collections(ctx, k, b, kind, n):
    import big.text as X
    t = conv(b)
    marks, quotes, multi, esc = LC[k]
    make = COLLECTIONS[kind]
    marks = [t(x) for x in marks]
    quotes, multi, esc = [t(x) for x in quotes], [t(x) for x in multi], t(esc)
    s, n = subject(ctx, b, n)
    kw = {}
    if quotes:
        kw['quotes'] = make(quotes)
    if multi:
        kw['multiline_quotes'] = make(multi)
    if k in ('only-multi', 'triple'):
        kw['escape'] = esc
    _check_comments(ctx, X, s, t, make(marks), marks, quotes, multi, esc, b, kw)
    ctx.reach('collection')


ODD = [c for c in map(chr, range(128)) if c not in '\n\r\x0b\x0c\x1c\x1d\x1e"xy'] + list('\x80\xa0\xb2\xe9\u0130\u0301\u1680\u200b\u3000\ufeff\U0001f600')
OGROUPS = [ODD[i:i + 16] for i in range(0, len(ODD), 16)]
MFORMS = {'one': lambda c: (c,), 'inside': lambda c: ('x' + c + 'y',), 'either': lambda c: (c + c, 'y'), 'quoted': lambda c: (c, 'xy')}


@harness('L03', cases=lambda tier: [dict(group=g, form=f, b=b, n=3 if tier == 'quick' else 4) for g in range(len(OGROUPS)) for f in MFORMS for b in (False, True) if not (b and g > 6)],
         bounds='129 characters as comment markers or parts of them, with and without quotes, in every text of 3 (thorough 4) characters out of that character, x, y, the quote and a line break')
def any_marker(ctx, group, form, b, n):
    import big.text as X
    t = conv(b)
    c = ctx.choice('character', OGROUPS[group])
    if b and ord(c) > 127 or form == 'quoted' and c == '\\':
        ctx.check(True, 'not a case')
        return
    marks = [t(x) for x in MFORMS[form](c)]
    quotes, esc = ([t('"')] if form == 'quoted' else []), t('\\')
    al = ''.join(dict.fromkeys(c + 'xy\n' + '"' * len(quotes)))
    s = ctx.bytes('s', n, al.encode('ascii')) if b else ctx.str('s', n, al)
    kw = dict(quotes=tuple(quotes)) if quotes else {}
    _check_comments(ctx, X, s, t, list(marks), marks, quotes, [], esc, b, kw)
    r = [l for i, l in X.lines_filter_line_comment_lines(X.lines(s), list(marks))]
    want = [text for text, end in cut_lines(s, BRK[b]) if not any(text.lstrip()[:len(m)] == m for m in marks)]
    if not c.isspace():
        ctx.check(r == want, 'lines that start with a marker are left out', lambda: (marks, r, want))
    ctx.reach('any')


# ------------------------------------------------------------------------------------- indentation
def _ind_cases(tier):
    deep = tier != 'quick'
    return [dict(lines=k, b=b, tab=w) for k in range(0, 6 + deep) for b in (False, True) for w in ((8, 4) if k < 4 else (8,)) if not (b and k > 3)]


IND = ['', ' ', '  ', '\t', '    ', ' \t', '\t ', ' ' * 10, ' ' * 19]


@harness('L04', cases=_ind_cases, bounds='every text of up to 5 (thorough 6) lines (bytes up to 3), each with one of nine (four for more than three lines) indentations (spaces, tabs, both) and either an arbitrary non-blank character or nothing; tab widths 4 and 8')
def indents(ctx, lines, b, tab):
    import big.text as X
    t = conv(b)
    rows = []
    s = t('')
    for k in range(lines):
        lead = t(ctx.choice('lead', IND if lines < 4 else IND[:1] + IND[2:5]))
        body = t('')
        if ctx.bool('body'):
            body = ctx.bytes('c', 1, [(33, 127)]) if b else ctx.str('c', 1, [(33, 127), (0x100, 0x167f)])
        rows.append((lead, body))
        s = s + lead + body
        if k + 1 < lines:
            s = s + t('\n')
    col = ctx.int('column', 0, 1000)
    if not lines:
        rows = [(s, s)]
    got, err = [], False
    try:
        for x in X.lines_strip_indent(X.lines(s, tab_width=tab, column_number=col)):
            got.append(x)
    except IndentationError:
        err = True
    # reference: a stack of columns
    stack, want, bad, pending = [0], [], False, []
    for k, (lead, body) in enumerate(rows):
        if not len(body):
            pending.append(k)
            continue
        c = width(lead, tab)
        while c < stack[-1]:
            stack.pop()
        if c > stack[-1]:
            if k > 0 and want and last > c:
                bad = True
                break
            stack.append(c)
        last = c
        for p in pending + [k]:
            want.append((p, len(stack) - 1, c))
        pending = []
    if not bad:
        want += [(p, 0, 0) for p in pending]
    ctx.check(err == bad, 'IndentationError exactly for a dedent to a column that is not an enclosing indent', lambda: (s, err, bad))
    ctx.check([(i.line_number - 1, i.indent) for i, l in got] == [(p, d) for p, d, c in want], 'each line has the number of enclosing indents; blank lines that of the next line', lambda: (s, got, want))
    for (i, l), (p, d, c) in zip(got, want):
        lead, body = rows[p]
        ctx.check(l == body, 'leading whitespace is removed', lambda: (l, body))
        if len(body):
            ctx.check(i.leading == lead and i.column_number == col + c, 'leading and column_number', lambda: (i.leading, i.column_number))
        else:
            ctx.check(i.trailing == lead and i.column_number == col, 'blank lines are clipped to trailing', lambda: (i.trailing, i.column_number))
    ctx.reach('indent')
