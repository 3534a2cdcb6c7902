"""Text layout (big/text.py): words and code of a text, columns, numbers in words."""
from sx.registry import harness


def units(s):
    return [s[i:i + 1] for i in range(len(s))]


# ------------------------------------------------------------------ split_text_with_code

def code_words(s, t, tab, allow, indent, convert):
    """what split_text_with_code promises, line by line; None where it has to refuse odd whitespace"""
    out = []
    prev = None
    blanks = 0
    nl = t('\n')
    for line in s.split(nl):
        body = line.strip()
        if not len(body):
            blanks += 1
            continue
        lead = line[:len(line) - len(line.lstrip())]
        col = 0
        if allow:
            for c in units(lead):
                if c == t('\t'):
                    col += tab - col % tab
                elif c == t(' '):
                    col += 1
                else:
                    return None
        code = allow and col >= indent
        if prev == 'code' and code:
            out.extend([nl] * (blanks + 1))
        elif prev == 'code' or (prev == 'text' and (code or blanks)):
            out.append(nl + nl)
        if code:
            acc = s[:0]
            col = 0
            for c in units(line.rstrip()):
                if c == t('\t'):
                    n = tab - col % tab
                    col += n
                    acc = acc + (t(' ') * n if convert else c)
                else:
                    if c != t(' ') and c.isspace():
                        return None
                    col += 1
                    acc = acc + c
            out.append(acc)
        else:
            out.extend(line.split())
        prev = 'code' if code else 'text'
        blanks = 0
    return out or [s[:0]]


ODD = [(9, 13), (28, 32), (33, 126), (0x85, 0x85), (0xa0, 0xa0), (0x100, 0x10ffff)]


def _code_cases(tier):
    deep = tier != 'quick'
    out = []
    for b in (False, True):
        for n in range(0, 9 + deep - b):
            out.append(dict(b=b, n=n, mode='small'))
        for n in range(1, 5):
            out.append(dict(b=b, n=n, mode='any'))
        for n in range(1, 7 + deep - b):
            out.append(dict(b=b, n=n, mode='hole'))
    return out


def run_code(ctx, s, t, configs):
    import big.text as X
    for tab, allow, indent, convert in configs:
        kw = dict(tab_width=tab, allow_code=allow, code_indent=indent, convert_tabs_to_spaces=convert)
        if (tab, allow, indent, convert) == (8, True, 4, True):
            kw = {}
        want = code_words(s, t, tab, allow, indent, convert)
        try:
            r = X.split_text_with_code(s, **kw)
        except RuntimeError:
            r = None
        if want is None or r is None:
            ctx.check(want is None and r is None, 'only whitespace that has no place in code is refused', lambda: (kw, want, r))
            continue
        ctx.check(list(r) == want, 'words of text, whole lines of code, and the breaks between them, in order', lambda: (kw, r, want))


@harness('X06', cases=_code_cases, bounds='every text of up to 8 (thorough 9) tabs, spaces, newlines and letters, up to 4 arbitrary characters, and every filling of up to 6 (7) such characters '
         'at the line starts of a longer text; tab width 1 to 8, code indent 0 to 4, all switches')
def text_code(ctx, b, n, mode):
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    if mode == 'any':
        s = ctx.bytes('s', n) if b else ctx.str('s', n, ODD)
        configs = [(8, True, 4, True), (2, True, 1, True), (2, False, 1, True), (3, True, 0, False)]
    elif mode == 'small':
        al = [(9, 10), (32, 32), (65, 90)]
        s = ctx.bytes('s', n, al) if b else ctx.str('s', n, al)
        configs = [(2, True, 1, True), (2, True, 2, True), (3, True, 2, False), (8, True, 4, True), (2, True, 0, True), (2, False, 1, True)]
    else:
        al = [(9, 10), (32, 32), (65, 90)]
        h = ctx.bytes('h', n, al) if b else ctx.str('h', n, al)
        form = ctx.choice('form', ['lead', 'inside', 'between', 'end'])
        pre, post = {'lead': ('ab c\n', '  \t d\te f\n\t g\n'), 'inside': ('\n    x\ty', 'z\nq\n\n    v\n'), 'between': ('    a b\n', '    c\td  \n\n\n    e\n\nf'), 'end': ('w\n\n    a \tb\n', '')}[form]
        s = t(pre) + h + t(post)
        configs = [(8, True, 4, True), (4, True, 4, False), (3, True, 5, True), (8, False, 4, True)]
    run_code(ctx, s, t, configs)
    ctx.reach('code')


def _chunk_cases(tier):
    return [dict(n=n, tab=k, b=b) for b in (False, True) for n in range(1, 7 if tier == 'quick' else 8) for k in ('sym',) if not (b and n > 4)]


@harness('X06', cases=_chunk_cases, bounds='code indent and tab width symbolic (tab 1 to 8, indent 0 to 9), one line of up to 6 (thorough 7) tabs, spaces and letters before a code word')
def indent(ctx, n, tab, b):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    al = [(9, 9), (32, 32), (65, 90)]
    h = ctx.bytes('h', n, al) if b else ctx.str('h', n, al)
    tab = ctx.choice('tab', [1, 2, 3, 4, 8])
    indent = ctx.int('indent', 0, 9)
    s = h + t('x y\n') + h + t('z\n')
    want = code_words(s, t, tab, True, indent, True)
    r = X.split_text_with_code(s, tab_width=tab, code_indent=indent)
    ctx.check(list(r) == want, 'a line is code exactly when its text starts at or after the code indent', lambda: (r, want))
    ctx.reach('indent')


# ------------------------------------------------------------------ merge_columns

def columns_text(cols, sep, strategy, before, after, space, nl):
    """the documented layout; None when a line does not fit and that is to be refused"""
    laid = []
    for text, width in cols:
        rows = [r.rstrip() for r in text.rstrip().split(nl)] if not isinstance(text, (list, tuple)) else [r.rstrip() for r in text]
        over = [i for i, r in enumerate(rows) if len(r) > width]
        if over and strategy == 'RAISE':
            return None
        paused = [any(i - before <= j <= i + after for i in over) for j in range(len(rows))]
        if strategy == 'DELAY_ALL' and over:
            paused = [j <= over[-1] + after for j in range(len(rows))]
        laid.append((rows, paused, width))
    at = [0] * len(laid)
    out = []
    while any(at[k] < len(laid[k][0]) for k in range(len(laid))):
        line = space[:0]
        for k, (rows, paused, width) in enumerate(laid):
            if k:
                line = line + sep
            if at[k] >= len(rows):
                line = line + space * width
                continue
            row, stop = rows[at[k]], paused[at[k]]
            at[k] += 1
            line = line + row
            if stop:
                break
            line = line + space * (width - len(row))
        out.append(line.rstrip())
    return nl.join(out).rstrip()


def _col_cases(tier):
    deep = tier != 'quick'
    out = []
    for b in (False, True):
        for st in ('RAISE', 'INTRUDE_ALL', 'DELAY_ALL'):
            for n in range(0, 5 + deep):
                if not b or n < 4:
                    out.append(dict(b=b, st=st, n=n, shape='first'))
                    out.append(dict(b=b, st=st, n=n, shape='middle'))
        out.append(dict(b=b, st='INTRUDE_ALL', n=2, shape='three'))
        out.append(dict(b=b, st='DELAY_ALL', n=2, shape='three'))
    return out


AL = [(10, 10), (32, 32), (65, 90)]


@harness('X07', cases=_col_cases, bounds='one column of every text of up to 4 (thorough 5) letters, spaces and newlines beside one or two fixed ones, three columns of every two such characters; '
         'column width 1 to 3, 0 to 2 lines before and after, all strategies, several separators')
def columns(ctx, b, st, n, shape):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    mk = ctx.bytes if b else ctx.str
    width = ctx.int('width', 1, 3 if n > 1 else 2)
    before = after = 0
    if st != 'RAISE':
        before = ctx.int('before', 0, 2)
        after = ctx.int('after', 0, 2)
    w = int(width)
    if shape == 'three':
        cols = [(mk(f's{i}', n, AL) + (t('') if i else t('\nAA')), (w, 1, 2)[i]) for i in range(3)]
    elif shape == 'first':
        cols = [(t('A\n') + mk('s', n, AL) + t('B\nC\nD'), w), (t('one\ntwo \n\nfour'), 5)]
    else:
        cols = [(t('aa\nbb'), 2), (mk('s', n, AL), w), (t('P\n  Q\nR'), 3)]
    strategy = getattr(X.OverflowStrategy, st)
    for sep in (None, t(''), t(' | ')):
        kw = {} if sep is None else {'column_separator': sep}
        if st != 'RAISE':
            kw.update(overflow_strategy=strategy, overflow_before=int(before), overflow_after=int(after))
        want = columns_text(cols, t(' ') if sep is None else sep, st, int(before), int(after), t(' '), t('\n'))
        try:
            r = X.merge_columns(*[(s, 1, v) for s, v in cols], **kw)
        except OverflowError:
            r = None
        if want is None or r is None:
            ctx.check(want is None and r is None, 'OverflowError exactly when some line does not fit its column', lambda: (want, r))
            continue
        ctx.check(r == want, 'every line of every column in its place; later columns pause beside lines that do not fit', lambda: (kw, r, want))
    ctx.reach('columns')


@harness('X07', cases=lambda tier: [dict(rows=k, st=st) for k in range(1, 8 if tier == 'quick' else 9) for st in ('INTRUDE_ALL', 'DELAY_ALL')],
         bounds='a first column of up to 7 (thorough 8) lines, any of them too wide or not, 0 to 3 lines before and after')
def overflow(ctx, rows, st):
    import big.text as X
    lines = ['AAA' if ctx.bool('wide') else 'A' for i in range(rows)]
    before = int(ctx.int('before', 0, 3))
    after = int(ctx.int('after', 0, 3))
    c = ctx.str('c', 1, [(65, 90)])
    cols = [('\n'.join(lines[:-1] + [lines[-1] + c]), 2), ('1\n2\n3', 2), ('x\ny', 2)]
    want = columns_text(cols, ' ', st, before, after, ' ', '\n')
    r = X.merge_columns(*[(s, 1, v) for s, v in cols], overflow_strategy=getattr(X.OverflowStrategy, st), overflow_before=before, overflow_after=after)
    ctx.check(r == want, 'later columns pause exactly beside the lines that do not fit and the extra lines around them', lambda: (r, want))
    ctx.reach('overflow')


def _grid_cases(tier):
    return [dict(r=[a, b], st=st, form=f) for a, b in ((2, 4), (4, 2), (3, 3), (1, 3)) + (((4, 4), (5, 3)) if tier != 'quick' else ()) for st in ('INTRUDE_ALL', 'DELAY_ALL') for f in ('text', 'list', 'bytes', 'tuple')]


@harness('X07', cases=_grid_cases, bounds='four columns, two of them of 1 to 4 (thorough 5) lines each of which is empty, fits or is too wide, given as str or bytes or as a list or tuple of str lines; 0 to 2 lines before '
         'and after, two separators')
def grid(ctx, r, st, form):
    import big.text as X
    b = 'bytes' in form
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    before, after = ctx.choice('around', [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2)])
    cols = []
    c = ctx.bytes('c', 1, [(65, 90)]) if b else ctx.str('c', 1, [(65, 90)])
    for k in range(2):
        rows = [t(ctx.choice(f'row{k}{i}', ['x', 'wide', ''] if i in (0, r[k] - 1) else ['x', 'wide'])) for i in range(r[k])]
        rows[-1] = rows[-1] + c
        cols.append((rows, 2 + k))
    cols = [([t('1'), t('2')], 1)] + cols + [([t('p '), t(''), t('q')], 3)]
    args = []
    for rows, width in cols:
        if form in ('text', 'bytes'):
            args.append((t('\n').join(rows), 1, width))
        else:
            args.append((rows if form == 'list' else tuple(rows), 1, width))
    sep = ctx.choice('sep', [None, '|'])
    kw = {} if sep is None else {'column_separator': t(sep)}
    # trailing lines of a text that are empty are not there
    want = columns_text(cols, t(sep or ' '), st, before, after, t(' '), t('\n'))
    r = X.merge_columns(*args, overflow_strategy=getattr(X.OverflowStrategy, st), overflow_before=before, overflow_after=after, **kw)
    ctx.check(r == want, 'every line of every column in its place; later columns pause beside lines that do not fit', lambda: (args, r, want))
    ctx.reach('grid')


@harness('X07', cases=lambda tier: [dict(n=n) for n in range(1, 5)], bounds='a first column of one word of up to 4 letters, minimum and maximum width 0 to 6')
def width(ctx, n):
    import big.text as X
    s = ctx.str('s', n, [(65, 90)])
    lo = ctx.int('lo', 0, 6)
    hi = ctx.int('hi', 0, 6)
    ctx.assume(lo <= hi)
    ctx.assume(n <= hi)
    lo, hi = int(lo), int(hi)
    r = X.merge_columns((s, lo, hi), ('x', 1, 1))
    w = max(lo, n)
    if ctx.known('X07-KF1', w < hi):
        w = hi
    ctx.check(r == s + ' ' * (w - n) + ' x', 'a column is as wide as its longest line, within its minimum and maximum width', lambda: r)
    ctx.reach('width')


# ------------------------------------------------------------------ int_to_words

ONES = 'zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen'.split()
TENS = 'twenty thirty forty fifty sixty seventy eighty ninety'.split()
NTH = {'one': 'first', 'two': 'second', 'three': 'third', 'five': 'fifth', 'eight': 'eighth', 'nine': 'ninth', 'twelve': 'twelfth'}
UNIT = {2: 'hundred', 3: 'thousand', 6: 'million', 9: 'billion', 12: 'trillion', 15: 'quadrillion', 18: 'quintillion', 21: 'sextillion', 24: 'septillion', 27: 'octillion', 30: 'nonillion',
        33: 'decillion', 36: 'undecillion', 39: 'duodecillion', 42: 'tredecillion', 45: 'quattuordecillion', 48: 'quindecillion', 51: 'sexdecillion', 54: 'septdecillion', 57: 'octodecillion',
        60: 'novemdecillion', 63: 'vigintillion'}


def ordinal_of(word):
    head, dash, last = word.rpartition('-')
    last = NTH.get(last) or (last[:-1] + 'ieth' if last.endswith('y') else last + 'th')
    return head + dash + last


def below100(n):
    return ONES[n] if n < 20 else TENS[n // 10 - 2] + ('-' + ONES[n % 10] if n % 10 else '')


def spelled(ctx, groups, rest, flowery, ordinal, negative):
    """groups: (power, words of the count), highest first; rest below one hundred (None: no words for it)"""
    parts = []
    for p, words in groups:
        unit = ' ' + UNIT[p]
        if ctx.known('N02-KF1', p in (21, 24, 27, 30, 33)):
            unit = ' ' * {21: 2, 24: 2, 27: 3, 30: 3, 33: 3}[p] + unit[1:]
        if ctx.known('N02-KF2', p == 48):
            unit = ' qindecillion'
        parts.append(words + unit)
    r = (', ' if flowery else ' ').join(parts)
    if rest or not groups:
        w = below100(rest)
        if ordinal:
            w = 'twelveth' if ctx.known('N02-KF3', rest == 12) else ordinal_of(w)
        r = r + ((' and ' if flowery else ' ') if groups else '') + w
    elif ordinal:
        r = r + 'th'
    return ('negative ' if negative else '') + r


def _num_cases(tier):
    tops = [0, 2] + list(range(3, 66, 3))
    out = [dict(p=0, q=0)]
    for p in tops[1:]:
        for q in tops:
            if q < p and (tier != 'quick' or q in (0, 2, 3, 9) or q in (p - 3, p - 6) or (p % 9 == 0 and q % 12 == 0)):
                out.append(dict(p=p, q=q))
    return out


def check_words(ctx, groups, c, negative):
    """groups: (power, symbolic count), highest first; real code with the words of the counts as tokens"""
    import big.text as X
    n = c
    for power, count in groups:
        n = n + count * 10 ** power
    real = X.int_to_words
    asked = []

    def part(i, flowery=True, ordinal=False):
        asked.append((i, flowery, ordinal))
        return f'<{len(asked)}>'
    wanted = [(p, a) for p, a in groups if a > 0]
    neg = bool(negative) and bool(n > 0)
    c = int(c)
    for flowery in (True, False):
        for ordinal in (False, True):
            del asked[:]
            X.int_to_words = part
            try:
                r = real(-n if negative else n, flowery, ordinal)
            finally:
                X.int_to_words = real
            ctx.check(len(asked) == len(wanted), 'one count per group of digits', lambda: (asked, wanted))
            texts = []
            for (power, count), (i, fl, od) in zip(wanted, asked):
                ctx.check(i == count, 'each group of digits is counted', lambda: (power, i, count))
                ctx.check(fl == flowery and not od, 'counts are cardinal and in the same style')
                texts.append((power, f'<{len(texts) + 1}>'))
            want = spelled(ctx, texts, c, flowery, ordinal, neg)
            ctx.check(r == want, 'the number in English words', lambda: (flowery, ordinal, r, want))


def group(ctx, p, lo):
    return ctx.int(f'g{p}', lo, 9 if p == 2 else 10 ** 12 - 1 if p == 63 else 999)


@harness('N02', cases=_num_cases, bounds='every whole number of absolute value below 10**75 whose decimal groups are zero except two of any size and position and the last two digits (beyond the thousands only below 23); '
         'the words of the counts are those of the function itself for numbers below 10**12, decided by the same step (quick: groups near each other or near the end)')
def words(ctx, p, q):
    groups = []
    if p:
        groups.append((p, group(ctx, p, 1)))
    if q:
        groups.append((q, group(ctx, q, 0)))
    c = ctx.int('c', 0, 22 if p > 3 else 99)
    check_words(ctx, groups, c, ctx.bool('negative'))
    ctx.reach('words')


TOPS = [2] + list(range(3, 66, 3))


def _many_cases(tier):
    out = [dict(top=k, bottom=0, sure=True) for k in range(2, 22)]
    out += [dict(top=k, bottom=max(0, k - 4), sure=False) for k in range(2, 22)]
    if tier != 'quick':
        out += [dict(top=k, bottom=max(0, k - 8), sure=False) for k in range(5, 22)]
    return out


@harness('N02', cases=_many_cases, bounds='numbers with every group of digits nonzero up to a scale, and every choice of which of five neighbouring groups are nonzero (thorough: nine), any counts, endings 0, 1, 19, 20, 21 and 99')
def many(ctx, top, bottom, sure):
    groups = [(TOPS[k], group(ctx, TOPS[k], 1 if sure or k == top else 0)) for k in range(top, bottom - 1, -1)]
    check_words(ctx, groups, ctx.choice('c', [0, 1, 19, 20, 21, 99]), False)
    ctx.reach('many')


@harness('N02', cases=lambda tier: [dict(n=n) for n in (100, 1000, 20000, 10 ** 6, 123456789012)], bounds='whole numbers next to five round ones, words of the counts included; numbers of at least 10**75')
def direct(ctx, n):
    import big.text as X
    v = n + ctx.choice('i', list(range(31)))

    def full(v, flowery):
        groups = []
        for p in sorted(UNIT, reverse=True):
            if v >= 10 ** p:
                groups.append((p, full(v // 10 ** p, flowery)))
                v %= 10 ** p
        return spelled(ctx, groups, v, flowery, False, False)
    for flowery in (True, False):
        r = X.int_to_words(v, flowery=flowery)
        ctx.check(r == full(v, flowery), 'the number in English words', lambda: r)
    big = 10 ** 75 + v
    ctx.check(X.int_to_words(big) == str(big) and X.int_to_words(-big) == str(-big), 'huge numbers stay digits')
    ctx.reach('direct')
