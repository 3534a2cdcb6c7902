"""Rewritings that keep the behaviour: word functions and quotes of text (run with tools/refactor.py)."""
import re
T = 'big/text.py'
SRC = open('/repo/big/text.py').read()


def body(start, end):
    i = SRC.index(start)
    return SRC[i:SRC.index(end, i)]


REFS = [
 dict(id='title-case-local', file=T, props='X04 E01 U01', edits=[
  (body("    if isinstance(s, bytes):\n        empty_join = b''.join\n        i = _iterate_over_bytes(s)", "def combine_splits"), '''    if isinstance(s, bytes):
        chars = [s[i:i+1] for i in range(len(s))]
    else:
        chars = list(s)

    start = 0
    for index in range(1, len(chars)):
        if not chars[index].isupper():
            continue
        previous = chars[index - 1]
        following = chars[index + 1] if index + 1 < len(chars) else None
        new_word = previous.islower() or (split_allcaps and previous.isupper() and following is not None and following.islower())
        if new_word:
            yield s[start:index] if type(s) in (str, bytes) else s[:0].join(chars[start:index])
            start = index
    yield s[:0].join(chars[start:])


'''),
 ]),
 dict(id='title-case-states', file=T, props='X04 E01', edits=[
  ("    for c in i:\n        break\n    assert c\n\n    word = []\n", "    c = next(i)\n\n    word = []\n"),
  ('''            append(c)
            for c in i:
                break
            else:
                break
''', '''            append(c)
            try:
                c = next(i)
            except StopIteration:
                break
'''),
 ]),
 dict(id='combine-min', file=T, props='X04 E01 U01', edits=[
  ('''            smallest = split_lengths[0]
            index = smallest[0]
''', '''            index = min(lengths[0] for lengths in split_lengths)
'''),
  (body("            for lengths in split_lengths:\n                length = lengths[0]\n", "            if len(split_lengths) < 2:\n                break"), '''            remaining = []
            for lengths in split_lengths:
                first, *rest = lengths
                if first > index:
                    remaining.append([first - index] + rest)
                elif rest:
                    remaining.append(rest)
            split_lengths = remaining

'''),
 ]),
 dict(id='combine-cuts', file=T, props='X04 E01 U01', edits=[
  ('''        start = end = 0
        length = len(s)
        for index in split_lengths[0]:
            end += index
            if end > length:
                raise ValueError("split array is longer than the original string")
            yield s[start:end]
            start += index
        s = s[end:]
''', '''        import itertools
        start = 0
        for end in itertools.accumulate(split_lengths[0]):
            if end > len(s):
                raise ValueError("split array is longer than the original string")
            yield s[start:end]
            start = end
        s = s[start:]
'''),
  ('''    split_lengths = [ [ len(_) for _ in split  if _ ] for split in split_arrays ]
''', '''    split_lengths = [list(filter(None, map(len, split))) for split in split_arrays]
'''),
 ]),
 dict(id='gently-dispatch', file=T, props='X04 E01 U01', edits=[
  (body("        if state == _in_word:\n", "        result.append(c)\n"), '''        is_quote = is_apostrophe or is_double_quote
        if is_space:
            if state == _after_whitespace_then_D_or_O_then_apostrophe:
                pass
            state = _after_whitespace
        elif state == _after_whitespace:
            c = c.upper()
            state = (
                _after_whitespace_then_apostrophe_or_double_quote if is_quote
                else _after_whitespace_then_D_or_O if _is_d_or_o(c)
                else _in_word)
        elif state != _in_word:
            if state == _after_whitespace_then_D_or_O and is_apostrophe:
                state = _after_whitespace_then_D_or_O_then_apostrophe
            elif not (state == _after_whitespace_then_apostrophe_or_double_quote and is_quote):
                if state != _after_whitespace_then_D_or_O:
                    c = c.upper()
                state = _in_word
'''),
  ("        _is_apostrophe = frozenset(cast_apostrophes).__contains__\n", "        _is_apostrophe = lambda c, apostrophes=tuple(cast_apostrophes): c in apostrophes\n"),
 ]),
 dict(id='normalize-sub', file=T, props='X04 E01 U01', edits=[
  ('''    words = list(multisplit(s, separators, keep=False, separate=False, strip=False, reverse=False, maxsplit=-1))
    cleaned = replacement.join(words)
    del words
    return cleaned
''', '''    if not separators:
        raise ValueError("separators must not be empty")
    pattern = _separators_to_re(separators, isinstance(s, bytes), separate=False, keep=False)
    return re.sub(pattern, lambda match: replacement, s)
'''),
  ('''        if not s.strip():
            return replacement
        words = s.split()
        if s[:1].isspace():
            words.insert(0, empty)
        if s[-1:].isspace():
            words.append(empty)
        cleaned = replacement.join(words)
        return cleaned
''', '''        stripped = s.strip()
        if not stripped:
            return replacement
        prefix = replacement if s[0].isspace() else empty
        suffix = replacement if not s.endswith(stripped[-1]) else empty
        return prefix + replacement.join(stripped.split()) + suffix
'''),
 ]),
 dict(id='quotes-generator', file=T, props='Q01 L03 E01 U01', edits=[
  (body("    buffer = []\n\n    quote = state\n", "_split_quoted_strings = split_quoted_strings"), '''    def check(text, quote):
        if (not text) or (quote in multiline_quotes):
            return
        if (len(text.splitlines()) > 1) or (len((text[-1:] + laden).splitlines()) > 1):
            raise SyntaxError("unterminated quoted string, {s!r}")

    text = empty
    quote = state
    opening = empty if state else quote
    for literal, separator in multisplit(s, separators, keep=AS_PAIRS, separate=True):
        text = text + literal
        if quote and separator == quote:
            check(text, quote)
            yield opening, text, quote
            text = quote = opening = empty
        elif (not quote) and (separator in all_quotes_set):
            if text:
                yield empty, text, empty
            text, quote, opening = empty, separator, separator
        else:
            text = text + separator

    if not (text or quote):
        return
    if quote:
        check(text, quote)
    yield opening, text, empty

'''),
 ]),
]
