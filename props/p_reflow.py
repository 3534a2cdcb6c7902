"""Reflowing texts (big/text.py): split_text_with_code, wrap_words and merge_columns used one after the other."""
from sx.registry import harness
from props.holes import subject

AL = '\t\n aZ.'
TAB = 8

TEMPLATES = ['□', '□□', '□□□', '□□□□', '□□□□□', 'a bb□□ccc.□d e□', 'ab.□c\n□□  □d\n\n e f', '    a\tb□□□□ c□d', '\t a.□\n□□x\n\n\n    y  z□\n', 'a□b\n\n□   □c\n\n    d', '   □□p\n\n\n    q\n□\n   □r ',
             'one. two?□three □□□ four!\n', '□\n□\n□\n    m', 'w□□\n\t\tk□ l \n\n o.□']
DEEP = ['□□□□□□', 'a□□b\n□□   □c\n\n    d□', '    a\n□□□□□b\n    c']


def blocks_of(s, indent, allow):
    """the paragraphs of a text: ['text', words...] or ['code', lines...], as the README describes them"""
    out = []
    blanks = 1
    for line in s.split('\n'):
        expanded = line.expandtabs(TAB)
        body = expanded.strip()
        if not len(body):
            blanks += 1
            continue
        code = allow and len(expanded) - len(expanded.lstrip()) >= indent
        kind = 'code' if code else 'text'
        if out and out[-1][0] == kind and (code or not blanks):
            if code:
                out[-1].extend([''] * blanks)
        else:
            out.append([kind])
        if code:
            out[-1].append(expanded.rstrip())
        else:
            out[-1].extend(body.split())
        blanks = 0
    return out


def _cases(tier):
    deep = tier != 'quick'
    return [dict(s=[t, AL], margin=m) for t in TEMPLATES + (DEEP if deep else []) for m in ((6, 20) if not deep else (1, 6, 9, 20, 79))]


def read_text(ctx, lines, words, margin, two):
    """check that lines are words wrapped within the margin, as full as can be"""
    todo = list(words)
    last = None
    for line in lines:
        ctx.check(len(line) and not line[0].isspace() and not line[-1].isspace(), 'lines of text are neither blank nor padded', lambda: (lines, words))
        rest = line
        first = True
        while len(rest):
            if not todo:
                ctx.fail('no word of text appears that was not there')
                return
            word = todo.pop(0)
            gap = 2 if two and last is not None and last[-1:] in ('.', '?', '!') else 1
            if not first:
                ctx.check(rest[:gap] == ' ' * gap, 'words on a line have one space between them, two after a sentence', lambda: (lines, words))
                rest = rest[gap:]
            elif last is not None:
                ctx.check(length + gap + len(word) > margin, 'a line is broken only where the next word does not fit', lambda: (lines, words))
            ctx.check(rest[:len(word)] == word, 'every word of the text is there, in order', lambda: (lines, words))
            rest = rest[len(word):]
            last = word
            single = first
            first = False
        length = len(line)
        ctx.check(length <= margin or single, 'no line but a single long word passes the margin', lambda: (lines, words))
    ctx.check(not todo, 'every word of the text is there', lambda: (lines, words))


@harness('X08', cases=_cases, bounds='texts of up to 5 (thorough 6) tabs, newlines, spaces, letters and dots, and nine longer texts with three to five (six) such characters in given places; margins 6 and 20 (1 to 79), '
         'with and without code, code indent 4 or 2, one or two spaces after a sentence')
def reflow(ctx, s, margin):
    import big.text as X
    s, _ = subject(ctx, False, s)
    for allow, indent, two in ((True, 4, True), (False, 4, True), (True, 2, False)):
        def flow(text):
            return X.wrap_words(X.split_text_with_code(text, allow_code=allow, code_indent=indent), margin, two_spaces=two)
        out = flow(s)
        want = blocks_of(s, indent, allow)
        lines = out.split('\n')
        at = 0
        for number, (kind, *items) in enumerate(want):
            if number:
                ctx.check(at < len(lines) and not len(lines[at]), 'a blank line separates paragraphs, and text from code', lambda: (out, want))
                at += 1
            if kind == 'code':
                got = lines[at:at + len(items)]
                ctx.check(got == items, 'lines of code are kept as they are', lambda: (out, want))
                at += len(items)
            else:
                end = at
                while end < len(lines) and len(lines[end]):
                    end += 1
                read_text(ctx, lines[at:end], items, margin, two)
                at = end
        ctx.check(at == len(lines) or (not want and not len(out)), 'nothing else appears', lambda: (out, want))
        ctx.check(flow(out) == out, 'reflowing a reflowed text changes nothing', lambda: (out, flow(out)))
    ctx.reach('reflow')


@harness('X08', cases=lambda tier: [dict(n=n, k=k) for n in range(1, 4 if tier == 'quick' else 5) for k in range(2)], bounds='two texts, one with up to 3 (thorough 4) arbitrary such characters, wrapped at 7 and 9 and merged into two columns, a symbolic one first or second')
def pages(ctx, n, k):
    import big.text as X
    h = ctx.str('h', n, AL)
    texts = ['ab cd' + h + 'e f.', 'gh i. jk\n\nlm nop q']
    if k:
        texts.reverse()
    margins = [7, 9]
    flowed = [X.wrap_words(X.split_text_with_code(s, allow_code=False), m) for s, m in zip(texts, margins)]
    out = X.merge_columns((flowed[0], 7, 7), (flowed[1], 9, 9), column_separator=' | ', overflow_strategy=X.OverflowStrategy.INTRUDE_ALL).split('\n')
    left, right = [f.split('\n') for f in flowed]
    ctx.check(len(out) == max(len(left), len(right)), 'a row for every line of the longer column', lambda: (out, flowed))
    for i, row in enumerate(out):
        a = left[i] if i < len(left) else ''
        b = right[i] if i < len(right) else ''
        want = a + ' ' * (7 - len(a)) + ' | ' + b
        ctx.check(row == want.rstrip(), 'each row holds the lines of both columns', lambda: (row, want))
    ctx.reach('pages')
