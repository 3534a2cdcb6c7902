"""Rewritings that keep the behaviour: the first half of text (run with tools/refactor.py)."""
T = 'big/text.py'
X = 'X01 X02 E01 U01'
REFS = [
 dict(id='reversed-slice', file=T, props='X01 X02 E01', edits=[
  ('''        if len(o) <= 1:
            return o
        return "".join(reversed(o))
''', '''        return o[::-1]
'''),
  ('''        if len(o) <= 1:
            return o
        return b"".join(o[i:i+1] for i in range(len(o)-1, -1, -1))
''', '''        return bytes(reversed(o))
'''),
  ('''    return t(_multisplit_reversed(p) for p in o)
''', '''    return t(map(_multisplit_reversed, o))
'''),
 ]),
 dict(id='re-quote', file=T, props='X01 X02 L03 E01', edits=[
  ('''    if not s.isspace():
        return re.escape(s)
    if len(s) > 1:
        if isinstance(s, bytes):
            return b"(?:" + s + b")"
        return f"(?:{s})"
    return s
''', '''    return re.escape(s)
'''),
  ('''    separators = list(separators)
    separators.sort(key=lambda o: -len(o))
    pattern = pipe.join(_re_quote(o) for o in separators)
''', '''    pattern = pipe.join(map(_re_quote, sorted(set(separators), key=len, reverse=True)))
'''),
 ]),
 dict(id='multistrip-loop', file=T, props='X02 X01 E01', edits=[
  ('''    if left:
        left_match = re.match(head + pattern, s)
        if left_match:
            start = left_match.end(0)
            s = s[start:]
    if right:
        right_match = re.search(pattern + tail, s)
        if right_match:
            end = right_match.start(0)
            s = s[:end]
    return s
''', '''    if left:
        left_match = re.match(head + pattern, s)
        s = s[left_match.end():] if left_match else s
    if right:
        for right_match in re.finditer(pattern + tail, s):
            return s[:right_match.start()]
    return s
'''),
  ('''        s2 = []
        for o in separators:
            if not isinstance(o, s_type):
                raise TypeError("separators must be an iterable of non-empty objects the same type as s")
            if not o:
                raise ValueError("separators must be an iterable of non-empty objects the same type as s")
            s2.append(o)
        separators = tuple(s2)
''', '''        separators = tuple(separators)
        if not all(isinstance(o, s_type) for o in separators):
            raise TypeError("separators must be an iterable of non-empty objects the same type as s")
        if not all(separators):
            raise ValueError("separators must be an iterable of non-empty objects the same type as s")
'''),
 ]),
 dict(id='multisplit-progressive', file=T, props='X01 X02 E01 U01', edits=[
  ('''        for i in range(length - 1, 0, -2):
            nonsep = l[i]
            if nonsep:
                last_non_empty_nonsep = i
                break
        else:
            last_non_empty_nonsep = 0
''', '''        last_non_empty_nonsep = max((i for i in range(0, length, 2) if l[i]), default=0)
'''),
  ('''        if not keep:
            for i in range(len(l) - 2, 0, -2):
                del l[i]
''', '''        if not keep:
            l = l[::2]
'''),
  ('''    if not keep:
        if not reverse:
            l.reverse()
        while l:
            yield l.pop()
        return

''', '''    if not keep:
        yield from (reversed(l) if reverse else l)
        return

'''),
  ('''    if keep == ALTERNATING:
        if not reverse:
            l.reverse()
        while l:
            yield l.pop()
        return

    append_empty = (len(l) % 2) == 1
    if reverse:
        if append_empty:
            l.insert(0, empty)
    else:
        if append_empty:
            l.append(empty)
        l.reverse()

    previous = None
    while l:
        o = l.pop()
        if previous is None:
            previous = o
            continue
        if keep == AS_PAIRS:
            yield (previous, o)
        else:
            yield previous + o
        previous = None
''', '''    if reverse:
        l = l[::-1]

    if keep == ALTERNATING:
        for o in l:
            yield o
        return

    if len(l) % 2:
        l = l + [empty]
    for nonsep, sep in zip(l[0::2], l[1::2]):
        yield (nonsep, sep) if keep == AS_PAIRS else nonsep + sep
'''),
 ]),
 dict(id='multisplit-finditer', file=T, props='X01 X02 E01 U01 X04', edits=[
  ('''    l = re.split(pattern, s, re_split_maxsplit)
''', '''    l = []
    position = 0
    for number, match in enumerate(re.finditer(pattern, s), 1):
        l.append(s[position:match.start()])
        if separators_to_re_keep:
            l.append(match.group())
        position = match.end()
        if number == re_split_maxsplit:
            break
    l.append(s[position:])
'''),
  ('''    if maxsplit == None:
        maxsplit = -1
    elif maxsplit == 0:
        if keep == ALTERNATING:
            yield s
        elif keep == AS_PAIRS:
            yield (s, empty)
        else:
            yield s
        return
''', '''    if maxsplit is None:
        maxsplit = -1
    if not maxsplit:
        yield s if keep != AS_PAIRS else (s, empty)
        return
'''),
 ]),
 dict(id='multipartition-pad', file=T, props='X02 E01 U01', edits=[
  ('''    result = list(multisplit(s, separators,
        keep=ALTERNATING,
        reverse=reverse,
        separate=separate,
        strip=False,
        maxsplit=count))
    desired_length = (2 * count) + 1
    result_length = len(result)
    if result_length < desired_length:
        if isinstance(s, bytes):
            empty = (b'',)
        else:
            empty = ('',)
        extension = empty * (desired_length - result_length)
        if reverse:
            result = list(extension) + result
        else:
            result.extend(extension)
    return tuple(result)
''', '''    result = tuple(multisplit(s, separators, keep=ALTERNATING, reverse=reverse, separate=separate, strip=False, maxsplit=count))
    padding = (b'' if isinstance(s, bytes) else '',) * (1 + count + count - len(result))
    return (padding + result) if reverse else (result + padding)
'''),
 ]),
 dict(id='partition-manual', file=T, props='X03 E01', edits=[
  ('''        if not match:
            return (s, None, empty)
        return (s[:match.start()], match, s[match.end():])

    if count == 0:
''', '''        if match is None:
            return s, None, empty
        start, end = match.span()
        return s[:start], match, s[end:]

    if count == 0:
'''),
  ('''        extension = (None, b'')
    else:
        empty = ''
        extension = (None, '')
''', '''    else:
        empty = ''
    extension = (None, empty)
'''),
  ('''            extend((s[match.end():end], match))
            end = match.start()
        extension = ()
    except StopIteration:
        extension *= remaining

    result.append(s[:end])
    result.reverse()
    return extension + tuple(result)
''', '''            result = [match, s[match.end():end]] + result
            end = match.start()
        extension = ()
    except StopIteration:
        extension = extension * remaining

    return (*extension, s[:end], *result)
'''),
 ]),
 dict(id='reversed-finditer-lists', file=T, props='X03 E01', edits=[
  ('''    for match in pattern.finditer(string):
        start, end = match.span()
        append((end, -start, match))
        for pos in range(start + 1, end):
            match = pattern_match(string, pos)
            if match:
                append((match.end(), -pos, match))
''', '''    for first in pattern.finditer(string):
        candidates = [first]
        candidates.extend(pattern_match(string, pos) for pos in range(first.start() + 1, first.end()))
        matches.extend((match.end(), -match.start(), match) for match in candidates if match is not None)
'''),
  ('''                key = (match.end(), negated_start)
                index = bisect.bisect_left(matches, key)
                if (index == len(matches)) or (matches[index][:2] != key):
                    matches.insert(index, key + (match,))
            continue
''', '''                key = (match.end(), negated_start)
                if not any(t[:2] == key for t in matches):
                    matches.append(key + (match,))
                    matches.sort(key=lambda t: t[:2])
            continue
'''),
 ]),
 dict(id='encode-singledispatch', file=T, props='E02 E01', edits=[
  ('''    if isinstance(o, bytes):
        return o
    if isinstance(o, str):
        return o.encode(encoding)

    type_o = type(o)
    if isinstance(o, dict):
        return type_o({
            _recursive_encode_strings(k, encoding):
             _recursive_encode_strings(v, encoding)
             for k, v in o.items()
             })
    if isinstance(o, (list, tuple)):
        return type_o(_recursive_encode_strings(e, encoding) for e in o)
    if isinstance(o, set):
        return type_o({
             _recursive_encode_strings(v, encoding)
             for v in o
             })
    raise TypeError(f"unhandled type for o {o!r}")
''', '''    encode = functools.partial(_recursive_encode_strings, encoding=encoding)
    if isinstance(o, bytes):
        return o
    elif isinstance(o, str):
        return bytes(o, encoding)
    elif isinstance(o, dict):
        return type(o)([(encode(k), encode(v)) for k, v in o.items()])
    elif isinstance(o, (list, tuple, set)):
        return type(o)(map(encode, o))
    else:
        raise TypeError("unhandled type for o %r" % (o,))
'''),
 ]),
]
