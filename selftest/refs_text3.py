"""Rewritings that keep the behaviour: delimiters, lines, layout, int_to_words (run with tools/refactor.py)."""
T = 'big/text.py'
SRC = open('/repo/big/text.py').read()


def body(start, end):
    i = SRC.index(start)
    return SRC[i:SRC.index(end, i)]


REFS = [
 dict(id='delim-actions', file=T, props='Q02 E01 U01', edits=[
  ('''                    append(delimiter[0:1])
                    i = multisplit(text[consumed:], all_tokens, keep=AS_PAIRS, separate=True)
                    break
''', '''                    append(delimiter[0:1])
                    i = resplit_from(consumed)
                    break
'''),
  ('''                i = multisplit(text[consumed:], all_tokens, keep=AS_PAIRS, separate=True)
                resplit = False
                break
''', '''                i = resplit_from(consumed)
                resplit = False
                break
'''),
  ('''    i = multisplit(text, all_tokens, keep=AS_PAIRS, separate=True)
    resplit = False

    while True:
''', '''    def resplit_from(index):
        return iter(list(multisplit(text[index:], all_tokens, keep=AS_PAIRS, separate=True)))

    i = resplit_from(0)
    resplit = False

    while True:
'''),
  (body("            if action is _ACTION_POP:\n                # flush close", "            elif action is _ACTION_ILLEGAL:\n"), '''            if action is _ACTION_POP:
                # flush close delimiter
                yield join(buffer), empty, delimiter
                del buffer[:]
                # and pop
                current, open = stack[-1]
                del stack[-1]
                consumed += len(delimiter)
            elif action in (_ACTION_ESCAPE, _ACTION_FLUSH):
                if action == _ACTION_ESCAPE:
                    escaped = delimiter
                append(delimiter)
                consumed += len(delimiter)
            elif action is _ACTION_FLUSH_1_AND_RESPLIT:
                # flush first character of delimiter, and resplit.
                append(text[consumed:consumed + 1])
                consumed += 1
                resplit = True
'''),
  ('''    if buffer:
        if escaped:
            raise SyntaxError(f"text ends with escape string {escaped!r}")
        s = join(buffer)
        if s:
            yield s, empty, empty

''', '''    remaining = join(buffer)
    if remaining:
        if escaped:
            raise SyntaxError(f"text ends with escape string {escaped!r}")
        yield remaining, empty, empty

'''),
 ]),
 dict(id='delim-scan', file=T, props='Q02 E01 U01', edits=[
  (body("    push = stack.append\n    pop = stack.pop\n\n    open = None\n\n    buffer = []", "_split_delimiters = split_delimiters\n"), '''    # scan from left to right, trying the longest token first.
    tokens = sorted(all_tokens, key=len, reverse=True)
    open = None
    begin = position = 0
    while position < len(text):
        token = next((t for t in tokens if text[position:position + len(t)] == t), None)
        if token is None:
            position += 1
            continue
        action = current.get(token, _ACTION_FLUSH)
        if isinstance(action, dict):
            yield text[begin:position], token, empty
            stack.append((current, open))
            open, current = token, action
            begin = position = position + len(token)
            continue
        if isinstance(action, _ACTION_TRUNCATE_TO_S_AND_RESPLIT):
            token = str_or_bytes(action)
            action = current.get(token, _ACTION_FLUSH)
        if action is _ACTION_POP:
            yield text[begin:position], empty, token
            current, open = stack.pop()
            begin = position = position + len(token)
        elif action is _ACTION_ESCAPE:
            position += len(token)
            if position >= len(text):
                raise SyntaxError(f"text ends with escape string {token!r}")
            position += 1
        elif action is _ACTION_FLUSH:
            position += len(token)
        elif action is _ACTION_FLUSH_1_AND_RESPLIT:
            position += 1
        elif action is _ACTION_ILLEGAL:
            raise SyntaxError(f"index {position}: illegal string {token!r}")
        else:
            raise SyntaxError(f"index {position}: newline character {token!r} is illegal inside delimiter {open!r}")

    if begin < len(text):
        yield text[begin:], empty, empty


'''),
 ]),
 dict(id='lines-clip', file=T, props='L01 L02 L03 L04 E01', edits=[
  ('''        if not isinstance(s, int):
            i = len(s)
        else:
            i = s
            s = None
            l = line
        line = line[i:]
        if not line:
            assert self.line.endswith(self.end)
            empty = self._empty
            self.column_number -= len(self.detab(self.leading))
            if self.end:
                self.trailing = self.line[:-len(self.end)]
            else:
                self.trailing = self.line
            self.leading = empty
            return empty
        if s is None:
            s = l[:i]
        self.leading += s
        detabbed = self.detab(s)
        length = len(detabbed)
        self.column_number += length
        return line
''' if False else body("        line = line[i:]\n        if not line:\n", "    def clip_trailing"), '''        whole, line = line, line[i:]
        if not line:
            return self._clip_everything()
        clipped = whole[:i] if s is None else s
        self.leading = self.leading + clipped
        self.column_number += len(self.detab(clipped))
        return line

    def _clip_everything(self):
        assert self.line.endswith(self.end)
        self.column_number = self.column_number - len(self.detab(self.leading))
        self.trailing = self.line[:len(self.line) - len(self.end)]
        self.leading = self._empty
        return self._empty

'''),
  (body("        line = line[:-i]\n        if not line:\n", "    def __repr__(self):\n        names ="), '''        keep = len(line) - i
        if keep <= 0:
            return self._clip_everything()
        self.trailing = (line[keep:] if s is None else s) + self.trailing
        return line[:keep]

'''),
 ]),
 dict(id='lines-strip-shared', file=T, props='L01 L02 L03 E01', edits=[
  (body("    if separators is None:\n        for info, line in li:\n            rstripped = line.rstrip()", "@_export\ndef lines_strip(li"), '''    for info, line in li:
        rstripped = line.rstrip() if separators is None else multistrip(line, separators, left=False, right=True)
        extra = len(line) - len(rstripped)
        if extra:
            line = info.clip_trailing(line, extra)
        yield (info, line)


'''),
  (body("    for info, line in li:\n\n        leading = trailing = None", "def lines_filter_line_comment_lines(li, match)"), '''    for info, line in li:
        stripped = line.strip()
        if not stripped:
            if line:
                line = info.clip_trailing(line, line)
        else:
            left = line.index(stripped)
            if left:
                line = info.clip_leading(line, left)
            right = len(line) - len(stripped)
            if right > 0:
                line = info.clip_trailing(line, right)

        yield (info, line)


'''),
 ]),
 dict(id='lines-filters', file=T, props='L02 L03 L01 E01', edits=[
  ('''    for t in li:
        if s in t[1]:
            yield t

''', '''    yield from filter(lambda t: s in t[1], li)

'''),
  ('''    if invert:
        for t in li:
            info, line = t
            m = search(line)
            if not m:
                setattr(info, match, None)
                yield t
        return

    for t in li:
        info, line = t
        m = search(line)
        if m:
            setattr(info, match, m)
            yield t
''', '''    for info, line in li:
        m = search(line)
        if (m is None) == bool(invert):
            setattr(info, match, m)
            yield info, line
'''),
  ('''    lines = list(li)
    if key == None:
''', '''    if key is None:
'''),
  ('''        fn = lambda t: key(t)
    lines.sort(key=fn, reverse=reverse)
    yield from iter(lines)
''', '''        fn = key
    for t in sorted(li, key=fn, reverse=reverse):
        yield t
'''),
  ('''    for t in li:
        if not t[1]:
            continue
        yield t
''', '''    return (t for t in li if t[1])
'''),
  ('''    if len(comment_markers) == 1:
        comment_marker = comment_markers[0]
        def match(s):
            return s.lstrip().startswith(comment_marker)
''' if False else body("    if len(comment_markers) == 1:\n", "    return _lines_filter_line_comment_lines(li, match)"), '''    def match(s):
        return s.lstrip().startswith(comment_markers)

'''),
 ]),
 dict(id='lines-comments-find', file=T, props='L03 E01', edits=[
  (body("            fields = line_comment_splitter(segment, maxsplit=1)\n", "        if not line_comment_segments:\n"), '''            uncommented = line_comment_splitter(segment, maxsplit=1)[0]
            if len(uncommented) == len(segment):
                continue

            # found a comment marker in an unquoted segment!
            line_comment_segments = [segment[len(uncommented):], trailing_quote or segment[:0]]
            for triplet in i:
                line_comment_segments += triplet
            line = info.clip_trailing(line, len(empty_join(line_comment_segments)))
            break

'''),
  ('''            i = iter( (('', line, ''),) )
''', '''            i = iter([('', line, '')])
'''),
 ]),
 dict(id='indent-stack', file=T, props='L04 L01 E01', edits=[
  (body("        if column_number == info.lines.column_number:\n", "        if blank_lines:\n            # print"), '''        if column_number == info.lines.column_number:
            del leadings[:]
        else:
            while leadings and leadings[-1] > column_number:
                dedented = True
                leadings.pop()
            else:
                pass
            if not (leadings and leadings[-1] == column_number):
                if dedented:
                    raise IndentationError(f"Line {info.line_number} column {column_number}: unindent doesn't match any outer indentation level")
                leadings.append(column_number)
        dedented = False
        indent = len(leadings)

'''),
  ('''    indent = 0
    leadings = []
    empty = None
    first_time = True
''', '''    indent = 0
    leadings = []
    dedented = False
    empty = None
    first_time = True
'''),
 ]),
 dict(id='wrap-two-pass', file=T, props='X05 E01 U01', edits=[
  (body("        if two_spaces and lastword.endswith(sentence_ending_punctuation):\n", "    if first_word:\n        raise ValueError(\"no words to wrap\")"), '''        len_space = 1 + bool(two_spaces and lastword.endswith(sentence_ending_punctuation))

        if col == 0:
            text.append(word)
            col = l
        elif col + len_space + l <= margin:
            text.append(one_space * len_space + word)
            col += len_space + l
        else:
            text.extend([newline, word])
            col = l
        lastword = word

'''),
 ]),
 dict(id='code-table', file=T, props='X06 E01 U01', edits=[
  ('''            col = 0
            tab_width = self.tab_width
            for c in self.make_iterator(leading):
                if c == self.tab_string:
                    col = col + tab_width - (col % tab_width)
                elif c == self.space_string:
                    col += 1
                else:
                    raise RuntimeError("unhandled whitespace character " + repr(c))
            if col >= self.code_indent:
''' if False else body("            col = 0\n            tab_width = self.tab_width\n", "                if self.previous_paragraph == _text_paragraph:\n"), '''            for c in self.make_iterator(leading):
                if c not in (self.tab_string, self.space_string):
                    raise RuntimeError("unhandled whitespace character " + repr(c))
            if len(leading.expandtabs(self.tab_width)) >= self.code_indent:
'''),
  (body("        for c in self.make_iterator(leading):\n            if c == tab_string:\n                delta", "        self.code.append(word)\n        self.col = col + len(word)"), '''        for c in self.make_iterator(leading):
            if c == space_string:
                delta = 1
            elif c == tab_string:
                delta = tab_width - (col % tab_width)
            else:
                raise RuntimeError("unhandled whitespace character " + repr(c))
            col += delta
            self.code.append(space_string * delta if convert_tabs_to_spaces else c)
'''),
  (body("        if not c.isspace():\n            word.append(c)\n            return\n", "    def close(self):\n"), '''        if not c.isspace():
            word.append(c)
            return

        is_newline = c == newline_string
        if word or is_newline:
            l = empty.join(leading)
            w = empty.join(word) or c
            is_word = bool(word)
            leading.clear()
            word.clear()
            self.state(l, w)
            if is_word and is_newline:
                self.state(empty, newline_string)
        if not is_newline:
            leading.append(c)

'''),
 ]),
 dict(id='columns-zip', file=T, props='X07 E01', edits=[
  (body("    column_iterators = [iter(c) for c in columns]\n", "    text = newline.join(lines)\n    return text.rstrip()"), '''    lines = []

    positions = [0] * len(columns)
    while any(position < len(column) for position, column in zip(positions, columns)):
        line = empty
        for column_number, (column, empty_column) in enumerate(zip(columns, empty_columns)):
            if column_number:
                line += column_separator
            position = positions[column_number]
            cell, in_overflow = column[position] if position < len(column) else (empty_column, False)
            positions[column_number] = position + 1
            line += cell
            if in_overflow:
                break
        lines.append(line.rstrip())

'''),
 ]),
 dict(id='words-table', file=T, props='N02', edits=[
  ('''        for threshold, english in quantities:
            if i >= threshold:
                upper = i // threshold
                i = i % threshold
                append(spacer)
                append(int_to_words(upper, flowery=flowery))
                append(english)
                spacer = ', ' if flowery else ' '
''', '''        separator = ', ' if flowery else ' '
        for threshold, english in quantities:
            upper, i = divmod(i, threshold)
            if not upper:
                continue
            if strings:
                append(separator)
            strings += [int_to_words(upper, flowery), english]
'''),
  ('''        if strings[-1][-1] == 'y':
            s = strings.pop()
            strings.append(s[:-1] + "ie")
        strings.append("th")

    if is_negative:
        strings.insert(0, "negative ")

    return "".join(strings)
''', '''        last = strings[-1]
        strings[-1] = (last[:-1] + "ieth") if last.endswith('y') else (last + "th")

    return ("negative " if is_negative else "") + "".join(strings)
'''),
  ('''    is_negative = i < 0
    if is_negative:
        i = -i
''', '''    is_negative = i < 0
    i = abs(i)
'''),
 ]),
]
