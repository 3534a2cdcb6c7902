"""Texts with arbitrary characters in given places."""

HOLE = '□'


def subject(ctx, b, n):
    """(text, length): n arbitrary characters, or, when n is [template, alphabet], the template with each hole filled by an arbitrary character of the alphabet"""
    if type(n) is int:
        return (ctx.bytes('s', n) if b else ctx.str('s', n)), n
    template, alphabet = n
    if b:
        alphabet = alphabet.encode('latin-1')
    s = b'' if b else ''
    for i, part in enumerate(template.split(HOLE)):
        if i:
            s = s + (ctx.bytes(f's{i}', 1, alphabet) if b else ctx.str(f's{i}', 1, alphabet))
        s = s + (part.encode('latin-1') if b else part)
    return s, len(s)


def fewer(template, k):
    """the template with only its first k holes, the others filled with x"""
    parts = template.split(HOLE)
    return HOLE.join(parts[:k + 1]) + ''.join('x' + p for p in parts[k + 1:])
