"""Word-level text functions (big/text.py): case, whitespace, combining splits, wrapping."""
from sx.registry import harness
from props.holes import subject, fewer
from props.p_split import SETS, seplist, pieces


def units(s):
    return [s[i:i + 1] for i in range(len(s))]


def _title_cases(tier):
    hi = 5 if tier == 'quick' else 6
    out = [dict(b=b, n=n, custom=False) for b in (False, True) for n in range(0, hi + 1)]
    out += [dict(b=b, n=[t, al], custom=c) for b in (False, True) for c in (False, True) for t, al in (("o'□ea (□don't □\"'d'\x1c□x", 'ab "\'`|(d'), ('the □uick\n□"\'o□br', 'ab "\'`(dD'))]
    return out + [dict(b=b, n=n, custom=True) for b in (False, True) for n in (2, 3, hi)]


@harness('X04', cases=_title_cases, bounds='every text (any Unicode characters, or bytes) of up to 5 (thorough 6) characters, default and custom apostrophes and quotes; two longer texts with three or four arbitrary characters')
def gently(ctx, b, n, custom):
    import big.text as X
    s, n = subject(ctx, b, n)
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    if custom:
        ap, dq = [t('`'), t("'")], t('"|')
        r = X.gently_title(s, apostrophes=ap, double_quotes=dq)
        dq = units(dq)
    else:
        ap = [b"'"] if b else list("'‘’‚‛")
        dq = [b'"'] if b else list('"“”„‟«»‹›')
        r = X.gently_title(s)
    cs = units(s)
    ap, dq = s[:0].join(ap), s[:0].join(ap + dq)
    lp, do = t('('), t('dDoO')
    space = [bool(c.isspace()) or c == lp for c in cs]
    apo = [bool(c in ap) for c in cs]
    quo = [bool(c in dq) for c in cs]

    def starts(i):
        return i == 0 or space[i - 1]
    want = s[:0]
    for i, c in enumerate(cs):
        cap = False
        if not space[i] and not quo[i]:
            j = i
            while j > 0 and quo[j - 1]:
                j -= 1
            cap = starts(j) or (i >= 2 and apo[i - 1] and cs[i - 2] in do and starts(i - 2))
        want = want + (c.upper() if cap else c)
    ctx.check(len(r) == len(want), 'only the first letter of each word changes', lambda: (r, want))
    ctx.check(r == want, 'exactly the first letter of each word (and after an opening quote, O\' or D\') is capitalized', lambda: (r, want))
    ctx.reach('title')


@harness('X04', cases=lambda tier: [dict(n=n) for n in range(0, 6 if tier == 'quick' else 7)], bounds='every UTF-8 text of up to 5 (thorough 6) ASCII letters, blanks, parentheses and ASCII, typographic and angle quotes and apostrophes, with utf8_apostrophes and utf8_double_quotes, against the same text as str')
def gently_utf8(ctx, n):
    import big.text as X
    units = [ctx.choice('unit', ['a', 'd', ' ', '(', "'", '"', '\u2019', '\u201c']) for i in range(n)]
    s = ''.join(units) + 'x y'
    r = X.gently_title(s.encode('utf-8'), apostrophes=X.utf8_apostrophes, double_quotes=X.utf8_double_quotes)
    want = X.gently_title(s)
    # D or O, then an apostrophe that is more than one byte, then a letter
    cs = list(s)
    late = [i for i in range(2, len(cs)) if cs[i].isalpha() and cs[i - 1] == '\u2019' and cs[i - 2] == 'd' and (i == 2 or cs[i - 3] in ' (')]
    if ctx.known('X04-KF1', bool(late)):
        want = ''.join(c.lower() if i in late else c for i, c in enumerate(want))
    ctx.check(r == want.encode('utf-8'), 'UTF-8 text is capitalized like the same text as str', lambda: (r, want))
    ctx.reach('utf8')


def _camel_cases(tier):
    hi = 6 if tier == 'quick' else 8
    return [dict(b=b, n=n) for b in (False, True) for n in list(range(0, hi + 1)) + [['getHTTP□esponse□URL□xML□T', 'aB1 ']]]


@harness('X04', cases=_camel_cases, bounds='every text (any Unicode characters, or bytes) of up to 6 (thorough 8) characters, both settings of split_allcaps; a longer name with four arbitrary characters')
def title_case(ctx, b, n):
    import big.text as X
    s, n = subject(ctx, b, n)
    cs = units(s)
    up = [bool(c.isupper()) for c in cs]
    lo = [bool(c.islower()) for c in cs]
    for allcaps in (True, False):
        r = list(X.split_title_case(s, split_allcaps=allcaps))
        cuts = [i for i in range(1, n) if up[i] and (lo[i - 1] or (allcaps and up[i - 1] and i + 1 < n and lo[i + 1]))]
        want = [s[x:y] for x, y in zip([0] + cuts, cuts + [n])]
        ctx.check(r == want, 'words start at upper-case letters after lower-case ones (and before the last capital of a run)', lambda: (allcaps, r, want))
    ctx.reach('camel')


WS = {False: [None, 'tuple', 'unicode', 'ascii', 'crlf', 'two', 'chars', 'nest', 'breaks'], True: [None, 'tuple', 'crlf', 'byte', 'bytechars', 'breaks']}


def _norm_cases(tier):
    hi = 4 if tier == 'quick' else 5
    return [dict(b=b, seps=k, n=n) for b in (False, True) for k in WS[b] for n in range(0, hi + 1 + (k in ('two', 'chars', 'nest')))]


@harness('X04', cases=_norm_cases, bounds='every text of up to 4 (thorough 5) characters (one more for small sets), default, built-in and custom separators, replacement absent, empty, or two arbitrary characters')
def normalize(ctx, b, seps, n):
    import big.text as X
    s, n = subject(ctx, b, n)
    e = s[:0]
    ws = X.bytes_whitespace if b else X.whitespace
    sp = {None: None, 'tuple': tuple(list(ws)), 'unicode': X.unicode_whitespace, 'ascii': X.ascii_whitespace, 'breaks': X.bytes_linebreaks if b else X.linebreaks,
          'crlf': (b'\r', b'\n', b'\r\n') if b else SETS['crlf']}.get(seps) if seps not in ('two', 'chars', 'nest', 'byte', 'bytechars') else SETS[seps]
    sl = seplist(ws if sp is None else sp)
    parts = pieces(s, sl, False, False, None)[::2]
    rep = ctx.choice('replacement', ['absent', 'none', 'empty', 'text'] if n < 3 else ['absent', 'text'])
    one = b' ' if b else ' '
    new = {'absent': one, 'none': one, 'empty': e}.get(rep)
    if new is None:
        new = ctx.bytes('new', 2) if b else ctx.str('new', 2)
    kw = {} if rep == 'absent' else {'replacement': None if rep == 'none' else new}
    r = X.normalize_whitespace(s, **kw) if sp is None and rep != 'none' else X.normalize_whitespace(s, sp, **kw)
    ctx.check(r == new.join(parts), 'every run of separators becomes one replacement, nothing else changes', lambda: (r, parts, new))
    if sp is None:
        ctx.check(X.normalize_whitespace(s, ws, **kw) == r, 'the built-in whitespace is the default')
    ctx.reach('normalize')


def _comb_cases(tier):
    out = []
    for n in range(0, 6 if tier == 'quick' else 7):
        for k in range(0, 4):
            if k == 3 and n > 4 + (tier != 'quick'):
                continue
            for b in (False, True):
                if not (b and n > 3):
                    out.append(dict(n=n, k=k, b=b))
    return out


@harness('X04', cases=_comb_cases, bounds='every text of up to 5 (thorough 6) characters cut by up to three split arrays at every set of positions, with empty pieces')
def combine(ctx, n, k, b):
    import big.text as X
    s, n = subject(ctx, b, n)
    e = s[:0]
    cuts = set()
    arrays = []
    for a in range(k):
        mine = [i for i in range(1, n) if ctx.bool(f'cut{a}')]
        cuts.update(mine)
        arr = [s[x:y] for x, y in zip([0] + mine, mine + [n])]
        how = a if n else 0
        arrays.append(arr + [e] if how == 0 else [e] + arr if how == 1 else tuple(arr))
    r = list(X.combine_splits(s, *arrays))
    c = sorted(cuts)
    want = [s[x:y] for x, y in zip([0] + c, c + [n])] if n else []
    ctx.check(r == want, 'the text is cut exactly where any of the arrays cuts it', lambda: (arrays, r, want))
    ctx.reach('combine')


def _wrap_cases(tier):
    return [dict(b=b, k=k, two=two) for b in (False, True) for k in range(0, 5 if tier == 'quick' else 6) for two in (True, False)]


@harness('X05', cases=_wrap_cases, bounds='every sequence of up to 4 (thorough 5) words: one, two or three arbitrary characters or a line or paragraph break; every margin from 1 to 12')
def wrap(ctx, b, k, two):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    words = []
    for i in range(k):
        kind = ctx.choice('kind', ['1', '3', 'line', 'para', 'two'])
        if kind in ('line', 'para'):
            words.append(t('\n' if kind == 'line' else '\n\n'))
        else:
            w = t({'1': '', '3': 'ab', 'two': 'x'}[kind])
            c = ctx.bytes('c', 1, [(33, 126)]) if b else ctx.str('c', 1, [(33, 126), (0x100, 0x10ffff)])
            if not b:
                ctx.assume(ctx.not_(c.isspace()))
            words.append(w + c)
    margin = ctx.int('margin', 1, 12)
    if not words:
        try:
            X.wrap_words(iter(words), margin)
            ctx.fail('wrapping no words is refused')
        except ValueError:
            ctx.check(True, 'wrapping no words is refused')
        return
    r = X.wrap_words(iter(words) if two else words, margin, two_spaces=two)
    out = words[0][:0]
    col = 0
    last = None
    for w in words:
        if w == t('\n') or w == t('\n\n'):
            out, col, last = out + w, 0, None
            continue
        gap = 0
        if col:
            gap = 2 if two and last[-1:] in (t('.'), t('?'), t('!')) else 1
            if col + gap + len(w) > margin:
                out, col = out + t('\n'), 0
                gap = 0
        out = out + t(' ') * gap + w
        col += gap + len(w)
        last = w
    ctx.check(r == out, 'words are joined by one space (two after a sentence) and wrapped exactly when the margin would be exceeded', lambda: (words, margin, r, out))
    lines = r.split(t('\n'))
    for line in lines:
        if t(' ') in line:
            ctx.check(len(line) <= margin, 'no line of several words exceeds the margin')
    ctx.reach('wrap')


def _long_cases(tier):
    deep = tier != 'quick'
    a, b, c = ('ab ', '(e f', 'g.h'), ('x' * 40, 'y' * 79, 'z' * 17), ('mm', 'n' * 33, 'o')
    return ([dict(k=k, words=w, b=False) for k in (2, 4) + ((5, 6) if deep else ()) for w in (a, b, c)] + [dict(k=3, words=w, b=True) for w in (a, b, c)]
            + [dict(k=k, words=('word', 'n', 'sentence'), b=False) for k in ((9,) if not deep else (9, 14, 20))])


@harness('X05', cases=_long_cases, bounds='sequences of 2 to 4 (thorough 6) words of up to 80 characters, with spaces inside or at the end, the last character of each (of three in longer sequences, of 9 or up to 20 words) any of . ? ! , and a letter; every margin from 0 to 300')
def wrap_long(ctx, k, words, b):
    import big.text as X
    t = (lambda x: x.encode('ascii')) if b else (lambda x: x)
    ws = []
    for i in range(k):
        if k < 7 or i % 5 == 2:
            w = t(words[i % 3] if k > 4 else ctx.choice('word', list(words))) + (ctx.bytes('c', 1, b'.?!,a') if b else ctx.str('c', 1, '.?!,a'))
        else:
            w = t(words[i % 3] + ('.' if i % 4 == 1 else ''))
        ws.append(w)
    margin = ctx.int('margin', 0, 300)
    two = ctx.bool('two')
    r = X.wrap_words(iter(ws), margin, **({} if two else dict(two_spaces=False)))
    out, col, last = ws[0], len(ws[0]), ws[0]
    for w in ws[1:]:
        gap = 2 if two and last[-1:] in (t('.'), t('?'), t('!')) else 1
        if col + gap + len(w) > margin:
            out, col = out + t('\n') + w, len(w)
        else:
            out, col = out + t(' ') * gap + w, col + gap + len(w)
        last = w
    ctx.check(r == out, 'words are joined by one space (two after a sentence) and wrapped exactly when the margin would be exceeded', lambda: (ws, margin, r, out))
    if b:
        ctx.check(X.wrap_words(ws) == X.wrap_words(words=ws, margin=79, two_spaces=True), 'the margin is 79 unless one is given', lambda: (ws, r))
    ctx.reach('wrap_long')
