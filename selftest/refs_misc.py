"""Rewritings that keep the behaviour: file, builtin, boundinnerclass (run with tools/refactor.py)."""
F, B, C = 'big/file.py', 'big/builtin.py', 'big/boundinnerclass.py'
REFS = [
 dict(id='file-open-helper', file=F, props='F01 F02 F03', edits=[
  ('''    if isinstance(path, pathlib.Path):
        f = path.open(mode, encoding=encoding)
    else:
        f = open(path, mode, encoding=encoding)
    with f:
        contents = f.read()
        split = contents.split(separator)
        if not case_insensitive:
            if enumerate:
                return [t for t in builtins.enumerate(split, 1) if text in t[1]]
            return [line for line in split if text in line]

        lower_contents = contents.lower()
        lower_split = lower_contents.split(separator)
        text = text.lower()
        if enumerate:
            return [(line_number, line) for line_number, (line, lower_line) in builtins.enumerate(zip(split, lower_split), 1) if text in lower_line]
        return [line for line, lower_line in zip(split, lower_split) if text in lower_line]
''', '''    with open(path, mode, encoding=encoding) as f:
        split = f.read().split(separator)
    if case_insensitive:
        text = text.lower()
        found = lambda line: text in line.lower()
    else:
        found = lambda line: text in line
    result = []
    for number, line in builtins.enumerate(split, 1):
        if not found(line):
            continue
        result.append((number, line) if enumerate else line)
    return result
'''),
  ('''        text = f.read()
        split = text.split(separator)
        if enumerate:
            return [t for t in builtins.enumerate(split, 1)
                    if pattern.search(t[1])]
        return [line for line in split if pattern.search(line)]
''', '''        split = f.read().split(separator)
    matching = filter(lambda pair: pattern.search(pair[1]) is not None, zip(range(1, len(split) + 1), split))
    return list(matching) if enumerate else [line for _, line in matching]
'''),
 ]),
 dict(id='file-pathlib', file=F, props='F02 F03', edits=[
  ('''    if os.path.isfile(path):
        os.unlink(path)
    os.makedirs(path, exist_ok=True)
''', '''    safe_unlink(path)
    if not os.path.isdir(path):
        os.makedirs(path, exist_ok=True)
'''),
  ('''    if os.path.exists(path):
        os.utime(path)
    else:
        with open(path, "wb") as f:
            pass
''', '''    try:
        os.utime(path)
    except FileNotFoundError:
        open(path, "wb").close()
'''),
  ('''        cwd = os.getcwd()
        os.chdir(self.path)
        self.cwds.append(cwd)
    def __exit__(self, exc_type, exc_value, traceback):
        os.chdir(self.cwds.pop())
''', '''        self.cwds.append(os.getcwd())
        try:
            os.chdir(self.path)
        except BaseException:
            self.cwds.pop()
            raise
    def __exit__(self, *_):
        cwd = self.cwds[-1]
        del self.cwds[-1]
        os.chdir(cwd)
'''),
  ('''    st = os.stat(path)
    return st.st_mtime
''', '''    return os.path.getmtime(path)
'''),
  ('''    st = os.stat(path)
    return st.st_size
''', '''    return os.path.getsize(path)
'''),
  ('''    return s.translate(_unix_translation_table)
''', '''    for old, new in _unix_translation_dict.items():
        s = s.replace(old, new)
    return s
'''),
  ('''    s = s.translate(_exfat_translation_table)
    s = s.replace(": ", " - ")
    s = s.replace(":", ".")
    return s
''', '''    result = []
    for index, c in builtins.enumerate(s):
        if c == ":":
            if s[index + 1:index + 2] == " ":
                result.append(" -")
            else:
                result.append(".")
        else:
            result.append(_exfat_translation_dict.get(c, c))
    return "".join(result)
'''),
 ]),
 dict(id='file-regex', file=F, props='F03', edits=[
  ('''    s = s.translate(_exfat_translation_table)
    s = s.replace(": ", " - ")
    s = s.replace(":", ".")
    return s
''', '''    s = re.sub(r":(?= )", " -", s).replace(":", ".")
    return re.sub("[\\\\x00-\\\\x1f/\\\\\\\\*?\\"<>|]", lambda match: _exfat_translation_dict[match.group()], s)
'''),
  ('''    return s.translate(_unix_translation_table)
''', '''    return "".join("@" if c == "\\0" else "-" if c == "/" else c for c in s)
'''),
 ]),
 dict(id='builtin-shared', file=B, props='N01', edits=[
  ('''    try:
        float(o)
        return True
    except (TypeError, ValueError, OverflowError):
        return False
''', '''    return _convert(float, o, _sentinel) is not _sentinel
'''),
  ('''    try:
        int(o)
        return True
    except (TypeError, ValueError, OverflowError):
        return False

_sentinel = object()
''', '''    return _convert(int, o, _sentinel) is not _sentinel

_sentinel = object()

def _convert(type, o, default):
    try:
        return type(o)
    except (TypeError, ValueError, OverflowError):
        return default
'''),
  ('''    try:
        return float(o)
    except (TypeError, ValueError, OverflowError):
        if default is not _sentinel:
            return default
        return o
''', '''    return _convert(float, o, o if default is _sentinel else default)
'''),
  ('''    try:
        return int(o)
    except (TypeError, ValueError, OverflowError):
        if default is not _sentinel:
            return default
        return o
''', '''    return _convert(int, o, o if default is _sentinel else default)
'''),
  ('''    if isinstance(o, int):
        return o
    if isinstance(o, float):
        if o.is_integer():
            return int(o)
        return o
    try:
        return int(o)
    except (TypeError, ValueError, OverflowError):
        try:
            # if you pass in the *string* "0.0",
            # this will return 0, not 0.0.
            return get_int_or_float(float(o))
        except (TypeError, ValueError, OverflowError):
            if default is not _sentinel:
                return default
            return o
''', '''    if isinstance(o, int):
        return o
    if not isinstance(o, float):
        i = _convert(int, o, _sentinel)
        if i is not _sentinel:
            return i
        f = _convert(float, o, _sentinel)
        if f is _sentinel:
            return o if default is _sentinel else default
        o = f
    return int(o) if o.is_integer() else o
'''),
 ]),
 dict(id='bic-getattr', file=C, props='B01 B02', edits=[
  ('''        multiply_inherit = False
''', '''        bases_changed = False
'''),
  ('''            inherit_from = base

''', '''            inherit_from = base
'''),
  ('''                        multiply_inherit = True
            wrapper_bases.append(inherit_from)
''', '''            bases_changed = bases_changed or (inherit_from is not base)
            wrapper_bases.append(inherit_from)
'''),
  ('''        if multiply_inherit:
            Wrapper.__bases__ = tuple(wrapper_bases)

''', '''        if bases_changed:
            Wrapper.__bases__ = (*wrapper_bases,)

'''),
  ('''        outer.__dict__[name] = Wrapper
        return Wrapper
''', '''        return vars(outer).setdefault(name, Wrapper)
'''),
 ]),
 dict(id='bic-present', file=C, props='B01 B02', edits=[
  ('''class BoundInnerClass(_Worker):
''', '''def _present_as(wrapper, cls):
    for attribute in ('__name__', '__module__', '__qualname__', '__doc__', '__annotations__'):
        if hasattr(cls, attribute):
            setattr(wrapper, attribute, getattr(cls, attribute))
    return wrapper


class BoundInnerClass(_Worker):
'''),
  ('''                        hex(id(self)),
                        ">"])
        Wrapper.__name__ = self.cls.__name__
        Wrapper.__module__ = self.cls.__module__
        Wrapper.__qualname__ = self.cls.__qualname__
        Wrapper.__doc__ = self.cls.__doc__
        if hasattr(self.cls, '__annotations__'):
            Wrapper.__annotations__ = self.cls.__annotations__
        return Wrapper
''', '''                        hex(id(self)),
                        ">"])
        return _present_as(Wrapper, self.cls)
'''),
  ('''        class Wrapper(base):
            pass
        Wrapper.__name__ = self.cls.__name__
        Wrapper.__module__ = self.cls.__module__
        Wrapper.__qualname__ = self.cls.__qualname__
        Wrapper.__doc__ = self.cls.__doc__
        if hasattr(self.cls, '__annotations__'):
            Wrapper.__annotations__ = self.cls.__annotations__
        return Wrapper
''', '''        return _present_as(type(base)('Wrapper', (base,), {}), self.cls)
'''),
 ]),
]
