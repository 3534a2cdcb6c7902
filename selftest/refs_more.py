"""Rewritings that keep the behaviour: deprecated, log, time, file, text (run with tools/refactor.py)."""
D, L, M, F, T, S, I = 'big/deprecated.py', 'big/log.py', 'big/time.py', 'big/file.py', 'big/text.py', 'big/scheduler.py', 'big/itertools.py'
REFS = [
 dict(id='old-parse-partial', file=D, props='Z01', edits=[
  ('''        if quoted:
            append(c)
            quoted = False
            continue
        if c == close:
            yield flush(empty, c)
            d = stack.pop()
            backslash = d.backslash
            nested = d.nested
            close = d.close
            continue
        if nested:
''', '''        was_quoted, quoted = quoted, False
        if was_quoted:
            append(c)
            continue
        if not (c != close):
            yield flush(empty, c)
            d = stack.pop()
            backslash, nested, close = d.backslash, d.nested, d.close
            continue
        if nested:
'''),
  ('''            next_d = open_to_delimiter.get(c)
            if next_d:
                yield flush(c, empty)
''', '''            if c in open_to_delimiter:
                next_d = open_to_delimiter[c]
                yield flush(c, empty)
'''),
 ]),
 dict(id='old-quotes-lookahead', file=D, props='Z01', edits=[
  ('''        c2 = i.next(None)
        c3 = i.next(None)
        if c == c2 == c3:
            # we found''', '''        c2, c3 = (i.next(None) for _ in range(2))
        if (c2, c3) == (c, c):
            # we found'''),
  ('''        text.append(c)
        if c2 is not None:
            if c3 is not None:
                i.push(c3)
            i.push(c2)
''', '''        text.append(c)
        for x in (c3, c2):
            if x is not None:
                i.push(x)
'''),
 ]),
 dict(id='old-comments-accumulate', file=D, props='Z01', edits=[
  ('''                fields = split(segment, maxsplit=1)
                leading = fields[0]
                if len(fields) == 1:
                    append(leading)
                    continue
''', '''                leading, *marker_and_rest = split(segment, maxsplit=1)
                if not marker_and_rest:
                    append(leading)
                    continue
                fields = [leading] + marker_and_rest
'''),
 ]),
 dict(id='log-percent', file=L, props='P01', edits=[
  ('''            seconds = t // 1_000_000_000
            nanoseconds = f"{t - seconds * 1_000_000_000:>09}"
            nanoseconds = nanoseconds[:fractional_width]
            return f"{seconds:0{seconds_width}}.{nanoseconds}"
''', '''            seconds, nanoseconds = divmod(t, 1_000_000_000)
            return '%0*d.%s' % (seconds_width, seconds, ('%09d' % nanoseconds)[:fractional_width])
'''),
 ]),
 dict(id='log-zfill', file=L, props='P01', edits=[
  ('''            seconds = t // 1_000_000_000
            nanoseconds = f"{t - seconds * 1_000_000_000:>09}"
            nanoseconds = nanoseconds[:fractional_width]
            return f"{seconds:0{seconds_width}}.{nanoseconds}"
''', '''            seconds, nanoseconds = divmod(t, 10 ** 9)
            return str(seconds).zfill(seconds_width) + "." + str(nanoseconds).rjust(9, "0")[:fractional_width]
'''),
  ('''        i = iter(tuple(self.events))
        waiting = next(i)
        for e in i:
            t, event, depth = waiting
            next_t = e[0]
            yield (t, next_t - t, event, depth)
            waiting = e
        t, event, depth = waiting
        yield (t, 0, event, depth)
''', '''        events = list(self.events)
        ends = [t for t, _, _ in events[1:]] + [events[-1][0]]
        for (start, event, depth), end in zip(events, ends):
            yield (start, end - start, event, depth)
'''),
  ('''            column_dashes = '-' * column_width
            print(f"{indent}{column_dashes}  {column_dashes}  {'-' * self.longest_event}")
''', '''            widths = (column_width, column_width, max([len(event) for _, event, _ in self.events]))
            print(indent + "  ".join("".ljust(w, "-") for w in widths))
'''),
 ]),
 dict(id='time-isoformat', file=M, props='D01', edits=[
  ('''    if want_microseconds:
        f = _timestamp_3339Z_microseconds_format
    else:
        f = _timestamp_3339Z_format

    return t.strftime(f)
''', '''    s = t.strftime(_timestamp_3339Z_format_base)
    if want_microseconds:
        s += "." + str(t.microsecond).zfill(6)
    return s + "Z"
'''),
  ('''    return datetime(
        year = d.year,
        month = d.month,
        day = d.day,
        hour = d.hour,
        minute = d.minute,
        second = d.second,
        microsecond = d.microsecond,
        tzinfo = timezone,
        fold = d.fold,
        )
''', '''    return datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, timezone, fold=d.fold)
'''),
  ('''    if d.tzinfo:
        return d
    return datetime_set_timezone(d, timezone)
''', '''    return d if d.tzinfo else datetime_set_timezone(d, timezone)
'''),
 ]),
 dict(id='file-translate-loop', file=F, props='F03', edits=[
  ('''    s = s.translate(_exfat_translation_table)
    s = s.replace(": ", " - ")
    s = s.replace(":", ".")
    return s
''', '''    s = "".join(_exfat_translation_dict.get(c, c) for c in s)
    return s.replace(": ", " - ").replace(":", ".")
'''),
  ('''    return s.translate(_unix_translation_table)
''', '''    return s.replace("\\x00", "@").replace("/", "-")
'''),
 ]),
 dict(id='file-translate-ord', file=F, props='F03', edits=[
  ('''    s = s.translate(_exfat_translation_table)
    s = s.replace(": ", " - ")
    s = s.replace(":", ".")
    return s
''', '''    translated = []
    for c in s:
        n = ord(c)
        if 0 < n < 32:
            translated.append(f"?{n:02x}")
        else:
            translated.append(_exfat_translation_dict.get(c, c))
    s = "".join(translated)
    return ".".join(" - ".join(s.split(": ")).split(":"))
'''),
 ]),
 dict(id='file-names', file=F, props='F01 F02', edits=[
  ('''        lower_contents = contents.lower()
        lower_split = lower_contents.split(separator)
        text = text.lower()
        if enumerate:
            return [(line_number, line) for line_number, (line, lower_line) in builtins.enumerate(zip(split, lower_split), 1) if text in lower_line]
        return [line for line, lower_line in zip(split, lower_split) if text in lower_line]
''', '''        text = text.lower()
        found = [n for n, line in builtins.enumerate(contents.lower().split(separator)) if line.find(text) >= 0]
        return [(n + 1, split[n]) for n in found] if enumerate else [split[n] for n in found]
'''),
  ('''    if os.path.exists(path):
        os.utime(path)
    else:
        with open(path, "wb") as f:
            pass
''', '''    if not os.path.exists(path):
        open(path, "ab").close()
    else:
        os.utime(path, None)
'''),
  ('''    st = os.stat(path)
    return st.st_size
''', '''    return os.path.getsize(path)
'''),
 ]),
 dict(id='title-enumerate', file=T, props='X04 E01', edits=[
  ('''    for c in iterator(s):
        original_c = c
        original_state = state
        is_space''', '''    for i, c in enumerate(iterator(s)):
        is_space'''),
  ('''                c = c.upper()
                if (is_apostrophe or is_double_quote):
                    state = _after_whitespace_then_apostrophe_or_double_quote
                elif _is_d_or_o(c):
                    state = _after_whitespace_then_D_or_O
                else:
                    state = _in_word
''', '''                c = c.upper()
                state = (_after_whitespace_then_apostrophe_or_double_quote if is_apostrophe or is_double_quote
                    else _after_whitespace_then_D_or_O if _is_d_or_o(c)
                    else _in_word)
'''),
 ]),
 dict(id='wrap-lines', file=T, props='X05 X08 E01 U01', edits=[
  ('''        if two_spaces and lastword.endswith(sentence_ending_punctuation):
            space = two_space
            len_space = 2
        else:
            space = one_space
            len_space = 1

        if (l + len_space + col) > margin:
            if col:
                text.append(newline)
                col = 0
        elif col:
            text.append(space)
            col += len_space

        text.append(word)
        col += len(word)
        lastword = word
''', '''        space = two_space if two_spaces and lastword[-1:] in sentence_ending_punctuation else one_space
        if col:
            if col + len(space) + l <= margin:
                word_and_gap = space + word
                col += len(space)
            else:
                word_and_gap = newline + word
                col = 0
        else:
            word_and_gap = word

        text += [word_and_gap]
        col += l
        lastword = word
'''),
 ]),
 dict(id='words-divmod', file=T, props='N02', edits=[
  ('''            if i >= threshold:
                upper = i // threshold
                i = i % threshold
                append(spacer)
                append(int_to_words(upper, flowery=flowery))
                append(english)
                spacer = ', ' if flowery else ' '
''', '''            upper, i = divmod(i, threshold)
            if upper:
                strings += [spacer, int_to_words(upper, flowery=flowery), english]
                spacer = ', ' if flowery else ' '
'''),
  ('''        t = i // 10
        append(spacer)
        append(tens[t])
        spacer = '-'
        i = i % 10
''', '''        t, i = divmod(i, 10)
        append(spacer + tens[t])
        spacer = '-'
'''),
 ]),
 dict(id='columns-format', file=T, props='X07 X08', edits=[]),
 dict(id='sched-tuple-key', file=S, props='S01 S02', edits=[]),
 dict(id='pushback-default-loop', file=I, props='I01', edits=[
  ('''        if self.stack:
            return self.stack.pop()
        if self.i is not None:
            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        return default

    def __bool__(self):
        if self.stack:
            return True
        if self.i is not None:
            try:
                o = next(self.i)
                self.push(o)
                return True
            except StopIteration:
                self.i = None
        return False
''', '''        try:
            return self.__next__()
        except StopIteration:
            return default

    def __bool__(self):
        if not self.stack and self.i is not None:
            for o in self.i:
                self.stack.append(o)
                break
            else:
                self.i = None
        return len(self.stack) > 0
'''),
 ]),
]
REFS = [r for r in REFS if r['edits']]
