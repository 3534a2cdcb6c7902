"""Regular-expression matching over symbolic subjects: a backtracking matcher over CPython's own
parse tree (re._parser), forking on character-class decisions."""
import re
import re._parser as P
import re._constants as C

from . import iset as I
from . import engine as G
from .engine import f_and, f_or, f_not, Unsupported
from .symval import (SymStr, SymBytes, SymSeq, SymInt, char_in, char_eq, br, mkstr, mkbytes, pred, norm, is_sym, mkbool)

_MAXR = int(C.MAXREPEAT)
_trees = {}
_csets = {}

_WORD = C.CATEGORY_WORD


def _cat_set(cat, flags, bytes_):
    ascii_ = bytes_ or bool(flags & re.ASCII)
    k = (cat, ascii_)
    r = _csets.get(k)
    if r is not None:
        return r
    name = str(cat)
    neg = 'NOT_' in name
    base = name.replace('NOT_', '').replace('CATEGORY_', '')
    if base == 'DIGIT':
        s = I.from_ranges([(48, 57)]) if ascii_ else pred('isdecimal', False)
    elif base == 'SPACE':
        s = I.from_values(map(ord, ' \t\n\r\f\v')) if ascii_ else pred('isspace', False)
    elif base == 'WORD':
        asc = I.from_ranges([(48, 57), (65, 90), (97, 122), (95, 95)])
        s = asc if ascii_ else I.union(pred('isalnum', False), I.single(95))
    elif base == 'LINEBREAK':
        s = I.single(10)
    else:
        raise Unsupported(f're category {cat}')
    if neg:
        s = I.complement(s)
    _csets[k] = s
    return s


def _fold_set(s, flags, bytes_):
    """closure of a char set under IGNORECASE, by asking the real re module"""
    k = ('fold', s.uid, bool(flags & re.ASCII), bytes_)
    r = _csets.get(k)
    if r is None:
        if s.size > 400:
            lim = I.complement(s)
            if lim.size > 400:
                raise Unsupported('IGNORECASE on a large class')
        # c matches iff some member matches c ignoring case
        members = list(s) if s.size <= 400 else None
        if members is None:
            raise Unsupported('IGNORECASE on a large class')
        if bytes_:
            cls = b'[' + b''.join(b'\\x%02x' % m for m in members) + b']'
            p = re.compile(cls, re.I)
            r = I.from_values(i for i in range(256) if p.match(bytes([i])))
        else:
            cls = '[' + ''.join('\\U%08x' % m for m in members) + ']'
            p = re.compile(cls, re.I | (flags & re.ASCII))
            r = I.from_values(i for i in range(I.MAXCP + 1) if p.match(chr(i)))
        _csets[k] = r
    return r


def _in_set(items, flags, bytes_):
    neg = False
    parts = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            parts.append(I.single(av))
        elif op is C.RANGE:
            parts.append(I.from_ranges([av]))
        elif op is C.CATEGORY:
            parts.append(_cat_set(av, flags, bytes_))
        else:
            raise Unsupported(f're class {op}')
    s = I.from_ranges([iv for p in parts for iv in p.iv])
    if flags & re.I:
        s = _fold_set(s, flags, bytes_)
    if neg:
        s = I.complement(s)
    return s


class Node:
    __slots__ = ('op', 'a', 'b', 'c', 'd')

    def __init__(self, op, a=None, b=None, c=None, d=None):
        self.op, self.a, self.b, self.c, self.d = op, a, b, c, d


SET, SEQ, ALT, REP, GRP, AT, LOOK, REF, ATOM, COND, POSS = range(11)


def _conv(sub, flags, bytes_, table=None):
    seq = []
    for op, av in sub:
        if op is C.LITERAL:
            sv = table.get(av) if table else None
            if sv is not None:
                seq.append(Node(SET, ('sym', sv, False)))
            else:
                s = I.single(av)
                if flags & re.I:
                    s = _fold_set(s, flags, bytes_)
                seq.append(Node(SET, s))
        elif op is C.NOT_LITERAL:
            s = I.single(av)
            if flags & re.I:
                s = _fold_set(s, flags, bytes_)
            seq.append(Node(SET, I.complement(s)))
        elif op is C.IN:
            if table and any(o is C.LITERAL and a in table for o, a in av):
                neg = any(o is C.NEGATE for o, a in av)
                syms = [table[a] for o, a in av if o is C.LITERAL and a in table]
                rest = [(o, a) for o, a in av if o is not C.NEGATE and not (o is C.LITERAL and a in table)]
                s = _in_set(rest, flags, bytes_) if rest else I.EMPTY
                seq.append(Node(SET, ('symset', (syms, s), neg)))
            else:
                seq.append(Node(SET, _in_set(av, flags, bytes_)))
        elif op is C.ANY:
            seq.append(Node(SET, I.ALL if flags & re.S else I.complement(I.single(10))))
        elif op is C.BRANCH:
            alts = [_conv(x, flags, bytes_, table) for x in av[1]]
            # merge consecutive single-char alternatives
            merged = []
            for x in alts:
                if x.op == SET and type(x.a) is I.ISet and merged and merged[-1].op == SET and type(merged[-1].a) is I.ISet:
                    merged[-1] = Node(SET, I.union(merged[-1].a, x.a))
                else:
                    merged.append(x)
            seq.append(merged[0] if len(merged) == 1 else Node(ALT, merged))
        elif op is C.SUBPATTERN:
            g, add, rem, p = av
            fl = (flags | add) & ~rem
            inner = _conv(p, fl, bytes_, table)
            seq.append(inner if g is None else Node(GRP, g, inner))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            inner = _conv(p, flags, bytes_, table)
            hi = None if int(hi) >= _MAXR else int(hi)
            seq.append(Node(REP if op is not C.POSSESSIVE_REPEAT else POSS, int(lo), hi, inner, op is not C.MIN_REPEAT))
        elif op is C.AT:
            seq.append(Node(AT, str(av), flags))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            inner = _conv(p, flags, bytes_, table)
            w = p.getwidth()
            seq.append(Node(LOOK, d, inner, op is C.ASSERT, int(w[0])))
        elif op is C.GROUPREF:
            seq.append(Node(REF, av, flags))
        elif op is C.ATOMIC_GROUP:
            seq.append(Node(ATOM, _conv(av, flags, bytes_, table)))
        elif op is C.GROUPREF_EXISTS:
            g, y, n = av
            seq.append(Node(COND, g, _conv(y, flags, bytes_, table), _conv(n, flags, bytes_, table) if n else Node(SEQ, [])))
        else:
            raise Unsupported(f're opcode {op}')
    if len(seq) == 1:
        return seq[0]
    return Node(SEQ, seq)


class Prog:
    def __init__(self, pattern, flags, table=None, bytes_=None):
        self.bytes_ = isinstance(pattern, bytes) if bytes_ is None else bytes_
        tree = P.parse(pattern, flags)
        self.flags = tree.state.flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self.root = _conv(tree, self.flags, self.bytes_, table)
        self.width = tree.getwidth()


def prog_for(pat):
    k = (pat.pattern, pat.flags)
    r = _trees.get(k)
    if r is None:
        fl = pat.flags
        if isinstance(pat.pattern, str) and not fl & re.ASCII:
            fl &= ~re.UNICODE
        fl &= ~re.DEBUG
        r = _trees[k] = Prog(pat.pattern, fl)
    return r


def _test(spec, c):
    """formula: char c satisfies the SET node spec"""
    if type(spec) is I.ISet:
        return char_in(c, spec)
    kind, x, neg = spec
    if kind == 'sym':
        f = char_eq(c, x)
    else:
        syms, s = x
        f = f_or([char_eq(c, y) for y in syms] + [char_in(c, s)])
    return f_not(f) if neg else f


class Matcher:
    def __init__(self, prog, cs, endpos):
        self.p = prog
        self.cs = cs
        self.n = endpos
        self.wordset = _cat_set(C.CATEGORY_WORD, prog.flags, prog.bytes_)

    # generators yield (pos, groups) in backtracking priority order
    def m(self, node, i, g):
        op = node.op
        G.Engine.current.tick()
        if op == SET:
            if i < self.n and br(_test(node.a, self.cs[i])):
                yield i + 1, g
        elif op == SEQ:
            yield from self.seq(node.a, 0, i, g)
        elif op == ALT:
            for x in node.a:
                yield from self.m(x, i, g)
        elif op == GRP:
            for j, g2 in self.m(node.b, i, g):
                g3 = dict(g2)
                g3[node.a] = (i, j)
                g3['last'] = node.a
                yield j, g3
        elif op == REP:
            lo, hi, inner, greedy = node.a, node.b, node.c, node.d
            if inner.op == SET:
                yield from self.rep_set(inner, lo, hi, greedy, i, g)
            else:
                yield from self.rep(inner, lo, hi, greedy, i, g, 0, -1)
        elif op == AT:
            if self.at(node.a, i, node.b):
                yield i, g
        elif op == LOOK:
            d, inner, pos, w = node.a, node.b, node.c, node.d
            st = i
            if d < 0:
                st = i - w
                if st < 0:
                    if not pos:
                        yield i, g
                    return
                old = self.n
                self.n = max(self.n, 0)
            r = None
            for j, g2 in self.m(inner, st, g):
                if d < 0 and j != i:
                    continue
                r = g2
                break
            if pos:
                if r is not None:
                    yield i, r
            elif r is None:
                yield i, g
        elif op == REF:
            span = g.get(node.a)
            if span is None:
                return
            a, b = span
            k = b - a
            if i + k > self.n:
                return
            if node.b & re.I:
                raise Unsupported('IGNORECASE backreference')
            for t in range(k):
                if not br(char_eq(self.cs[a + t], self.cs[i + t])):
                    return
            yield i + k, g
        elif op == ATOM:
            for r in self.m(node.a, i, g):
                yield r
                return
        elif op == POSS:
            for r in self.rep(node.c, node.a, node.b, True, i, g, 0, -1):
                yield r
                return
        elif op == COND:
            yield from self.m(node.b if node.a in g else node.c, i, g)
        else:
            raise AssertionError(op)

    def seq(self, nodes, k, i, g):
        if k == len(nodes):
            yield i, g
            return
        node = nodes[k]
        # iterate over consecutive single-char nodes without generator overhead
        while node.op == SET:
            if i < self.n and br(_test(node.a, self.cs[i])):
                i += 1
                k += 1
                if k == len(nodes):
                    yield i, g
                    return
                node = nodes[k]
            else:
                return
        for j, g2 in self.m(node, i, g):
            yield from self.seq(nodes, k + 1, j, g2)

    def rep_set(self, inner, lo, hi, greedy, i, g):
        cs, n, spec = self.cs, self.n, inner.a
        if greedy:
            j = i
            cap = n if hi is None else min(n, i + hi)
            while j < cap and br(_test(spec, cs[j])):
                j += 1
            while j - i >= lo:
                yield j, g
                j -= 1
        else:
            j = i
            while j - i < lo:
                if j < n and br(_test(spec, cs[j])):
                    j += 1
                else:
                    return
            yield j, g
            while (hi is None or j - i < hi) and j < n and br(_test(spec, cs[j])):
                j += 1
                yield j, g

    def rep(self, inner, lo, hi, greedy, i, g, count, last):
        if count < lo:
            for j, g2 in self.m(inner, i, g):
                yield from self.rep(inner, lo, hi, greedy, j, g2, count + 1, i)
            return
        if not greedy:
            yield i, g
        if (hi is None or count < hi) and i != last:
            for j, g2 in self.m(inner, i, g):
                if j == i and count >= lo:
                    # an empty iteration ends the loop
                    yield j, g2
                    continue
                yield from self.rep(inner, lo, hi, greedy, j, g2, count + 1, i)
        if greedy:
            yield i, g

    def _isword(self, i):
        if 0 <= i < self.n:
            return br(char_in(self.cs[i], self.wordset))
        return False

    def at(self, name, i, flags):
        ml = flags & re.M
        nl = lambda k: br(char_eq(self.cs[k], 10))
        if name in ('AT_BEGINNING', 'AT_BEGINNING_LINE'):
            return i == 0 or bool((ml or name.endswith('LINE')) and nl(i - 1))
        if name == 'AT_BEGINNING_STRING':
            return i == 0
        if name in ('AT_END', 'AT_END_LINE'):
            if i == self.n:
                return True
            if ml or name.endswith('LINE'):
                return nl(i)
            return i == self.n - 1 and nl(i)
        if name == 'AT_END_STRING':
            return i == self.n
        if name in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            if self.n == 0:
                return False
            r = self._isword(i - 1) != self._isword(i)
            return r if name == 'AT_BOUNDARY' else not r
        raise Unsupported(f're {name}')


class SymMatch:
    __class__ = property(lambda self: re.Match)

    def __init__(self, pat, prog, string, cs, pos, endpos, start, end, g):
        self.re = pat
        self._prog = prog
        self.string = string
        self._cs = cs
        self.pos = pos
        self.endpos = endpos
        self._s, self._e = start, end
        self._g = g

    def _gi(self, k):
        if isinstance(k, str):
            if k not in self._prog.groupindex:
                raise IndexError('no such group')
            return self._prog.groupindex[k]
        k = k.__index__()
        if not 0 <= k <= self._prog.groups:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        k = self._gi(k)
        if k == 0:
            return (self._s, self._e)
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _slice(self, a, b):
        return self.string[a:b]

    def _one(self, k, default=None):
        a, b = self.span(k)
        if a < 0:
            return default
        return self._slice(a, b)

    def group(self, *ks):
        if not ks:
            ks = (0,)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self._prog.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self._prog.groupindex.items()}

    @property
    def lastindex(self):
        return self._g.get('last')

    @property
    def lastgroup(self):
        li = self.lastindex
        for n, k in self._prog.groupindex.items():
            if k == li:
                return n
        return None

    @property
    def regs(self):
        return tuple(self.span(k) for k in range(self._prog.groups + 1))

    def expand(self, template):
        return expand(self, template)

    def __bool__(self):
        return True

    def __repr__(self):
        return '<SymMatch>'


def expand(m, template):
    if is_sym(template):
        raise Unsupported('symbolic re template')
    res = P.parse_template(template, m.re) if not isinstance(m.re, SymPattern) else P.parse_template(template, re.compile(''))
    out = template[:0]
    if isinstance(res, tuple):        # 3.11: (groups, literals)
        raise Unsupported('re template')
    for x in res:                      # 3.12: list of literals and group numbers
        if isinstance(x, int):
            v = m._one(x)
            out = out + (template[:0] if v is None else v)
        else:
            out = out + x
    return out


class SymPattern:
    """A pattern some of whose literal characters are symbolic."""
    __class__ = property(lambda self: re.Pattern)

    def __init__(self, pattern, prog, flags):
        self.pattern = pattern
        self.prog = prog
        self.flags = prog.flags
        self.groups = prog.groups
        self.groupindex = prog.groupindex

    def __getattr__(self, name):
        f = PAT_METHODS.get(name)
        if f is None:
            raise AttributeError(name)
        return lambda *a, **k: f(self, *a, **k)

    def __repr__(self):
        return '<SymPattern>'


_SPECIAL = I.from_values(map(ord, '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'))


def sym_escape(s):
    out = []
    for c in s.cs:
        if br(char_in(c, _SPECIAL)):
            out.append(92)
        out.append(c)
    return s.mk(tuple(out))


def sym_compile(pattern, flags=0):
    """Compile a symbolic pattern string: symbolic characters must be (escaped or ordinary) literals."""
    bytes_ = isinstance(pattern, SymBytes)
    out = []
    table = {}
    nxt = 0xF0000
    prev_bs = False
    for c in pattern.cs:
        c = norm(c)
        if type(c) is int:
            prev_bs = (c == 92) and not prev_bs
            out.append(chr(c))
            continue
        alnum = I.from_ranges([(48, 57), (65, 90), (97, 122), (95, 95)])
        if prev_bs:
            if br(char_in(c, alnum)):
                raise Unsupported('symbolic regex escape')
        elif br(char_in(c, _SPECIAL)):
            raise Unsupported('symbolic regex metacharacter')
        prev_bs = False
        key = None
        for k, v in table.items():
            if v is c:
                key = k
        if key is None:
            key = nxt
            nxt += 1
            table[key] = c
        out.append(chr(key))
    if flags & re.I:
        raise Unsupported('symbolic IGNORECASE pattern')
    # a bytes pattern is parsed as text (its symbolic bytes stand for themselves) with the bytes meaning of every class
    prog = Prog(''.join(out), int(flags) | (re.ASCII if bytes_ else 0), table, bytes_)
    return SymPattern(pattern, prog, flags)


def _subject(pat, string):
    prog = pat.prog if type(pat) is SymPattern else prog_for(pat)
    if prog.bytes_:
        cs = SymBytes.lit(string)
        if cs is None:
            raise TypeError('cannot use a bytes pattern on a string-like object')
    else:
        cs = SymStr.lit(string)
        if cs is None:
            if isinstance(string, bytes):
                raise TypeError('cannot use a string pattern on a bytes-like object')
            raise TypeError(f"expected string or bytes-like object, got '{type(string).__name__}'")
    return prog, cs


def _clamp(pos, endpos, n):
    pos = pos.__index__()
    pos = 0 if pos < 0 else min(pos, n)
    endpos = n if endpos is None else endpos.__index__()
    endpos = 0 if endpos < 0 else min(endpos, n)
    return pos, endpos


def match_at(pat, prog, string, cs, i, pos, endpos, full=False, nonempty=False):
    mt = Matcher(prog, cs, endpos)
    for j, g in mt.m(prog.root, i, {}):
        if full and j != endpos:
            continue
        if nonempty and j == i:
            continue
        return SymMatch(pat, prog, string, cs, pos, endpos, i, j, g)
    return None


def p_match(pat, string, pos=0, endpos=None):
    prog, cs = _subject(pat, string)
    pos, endpos = _clamp(pos, endpos, len(cs))
    if pos > endpos:
        return None
    return match_at(pat, prog, string, cs, pos, pos, endpos)


def p_fullmatch(pat, string, pos=0, endpos=None):
    prog, cs = _subject(pat, string)
    pos, endpos = _clamp(pos, endpos, len(cs))
    if pos > endpos:
        return None
    return match_at(pat, prog, string, cs, pos, pos, endpos, full=True)


def p_search(pat, string, pos=0, endpos=None):
    prog, cs = _subject(pat, string)
    pos, endpos = _clamp(pos, endpos, len(cs))
    for i in range(pos, endpos + 1):
        m = match_at(pat, prog, string, cs, i, pos, endpos)
        if m is not None:
            return m
    return None


def p_finditer(pat, string, pos=0, endpos=None):
    prog, cs = _subject(pat, string)
    pos, endpos = _clamp(pos, endpos, len(cs))

    def gen():
        i = pos
        must_advance = False
        while i <= endpos:
            m = None
            st = i
            while st <= endpos:
                m = match_at(pat, prog, string, cs, st, pos, endpos, nonempty=must_advance and st == i)
                if m is not None:
                    break
                st += 1
            if m is None:
                return
            yield m
            must_advance = m._e == m._s
            i = m._e
    return gen()


def p_findall(pat, string, pos=0, endpos=None):
    out = []
    e = string[:0]
    for m in p_finditer(pat, string, pos, endpos):
        n = m._prog.groups
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m._one(1, e))
        else:
            out.append(m.groups(e))
    return out


def p_split(pat, string, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in p_finditer(pat, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(string[last:m._s])
        out.extend(m.groups())
        last = m._e
        n += 1
    out.append(string[last:])
    return out


def p_subn(pat, repl, string, count=0):
    parts = []
    last = 0
    n = 0
    for m in p_finditer(pat, string):
        if count and n >= count:
            break
        parts.append(string[last:m._s])
        if callable(repl):
            parts.append(repl(m))
        elif is_sym(repl):
            raise Unsupported('symbolic re template')
        elif isinstance(repl, str) and '\\' not in repl or isinstance(repl, bytes) and b'\\' not in repl:
            parts.append(repl)
        else:
            parts.append(m.expand(repl))
        last = m._e
        n += 1
    parts.append(string[last:])
    r = parts[0]
    for p in parts[1:]:
        r = r + p
    return r, n


def p_sub(pat, repl, string, count=0):
    return p_subn(pat, repl, string, count)[0]


PAT_METHODS = {
    'match': p_match, 'fullmatch': p_fullmatch, 'search': p_search, 'finditer': p_finditer,
    'findall': p_findall, 'split': p_split, 'sub': p_sub, 'subn': p_subn,
}


def compile_any(pattern, flags=0):
    if isinstance(pattern, (re.Pattern,)):
        return pattern
    if is_sym(pattern):
        return sym_compile(pattern, flags)
    return re.compile(pattern, flags)


RE_FUNCS = {
    're.compile': compile_any,
    're.escape': lambda s: sym_escape(s) if is_sym(s) else re.escape(s),
}
for _n, _f in list(PAT_METHODS.items()):
    if _n in ('sub', 'subn'):
        def _g(pattern, repl, string, count=0, flags=0, _f=_f):
            return _f(compile_any(pattern, flags), repl, string, count)
    elif _n == 'split':
        def _g(pattern, string, maxsplit=0, flags=0, _f=_f):
            return _f(compile_any(pattern, flags), string, maxsplit)
    else:
        def _g(pattern, string, flags=0, _f=_f):
            return _f(compile_any(pattern, flags), string)
    RE_FUNCS['re.' + _n] = _g
