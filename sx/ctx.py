"""The two harness contexts: symbolic (SymCtx) and concrete replay (ConcreteCtx)."""


class Violated(BaseException):
    """a check failed during concrete replay"""
    def __init__(self, label, detail=None):
        super().__init__(label)
        self.label = label
        self.detail = detail


class AssumeFailed(BaseException):
    pass


def enc(v):
    if isinstance(v, bytes):
        return {'b': list(v)}
    return v


def dec(v):
    if isinstance(v, dict):
        return bytes(v['b'])
    return v


def canon_repr(v):
    """repr with deterministic set order"""
    if isinstance(v, (set, frozenset)):
        return 'set(' + ','.join(sorted(map(canon_repr, v))) + ')'
    if isinstance(v, dict):
        return '{' + ','.join(canon_repr(k) + ':' + canon_repr(x) for k, x in v.items()) + '}'
    if isinstance(v, list):
        return '[' + ','.join(map(canon_repr, v)) + ']'
    if isinstance(v, tuple):
        return '(' + ','.join(map(canon_repr, v)) + ')'
    if isinstance(v, (str, bytes, int, float, type(None))):
        return repr(v)
    return f'<{type(v).__name__}>'


class CtxBase:
    def _init_names(self):
        self._names = {}

    def _name(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return name if n == 0 else f'{name}#{n}'

    def check_eq(self, a, b, label, detail=None):
        self.check(self.eq(a, b), label, detail if detail is not None else (a, b))

    def known(self, fid, cond):
        """True when the path is inside the region of a listed known finding."""
        if fid not in self.known_ids:
            return False
        if cond:
            self.known_hits.add(fid)
            return True
        return False


class ConcreteCtx(CtxBase):
    symbolic = False

    def __init__(self, inputs, known_ids=()):
        self._init_names()
        self.inputs = inputs
        self.observed = []
        self.labels = set()
        self.known_ids = set(known_ids)
        self.known_hits = set()
        self.nchecks = 0

    def _get(self, name, default):
        name = self._name(name)
        if name in self.inputs:
            return dec(self.inputs[name])
        return default

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def half(self, name, lo, hi):
        """a float: a multiple of one half between lo and hi"""
        return self._get(name, lo * 2) / 2

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self._get(name, 0)]

    def bool(self, name):
        return bool(self._get(name, 0))

    def str(self, name, n, alphabet=None):
        return self._get(name, 'a' * n)

    def bytes(self, name, n, alphabet=None):
        return self._get(name, b'a' * n)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label, detail=None):
        self.nchecks += 1
        if not cond:
            raise Violated(label, detail)

    def fail(self, label, detail=None):
        raise Violated(label, detail)

    def eq(self, a, b):
        return a == b

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def observe(self, label, value):
        self.observed.append((label, canon_repr(value)))

    def reach(self, label):
        self.labels.add(label)


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, engine, known_ids=()):
        self._init_names()
        self.E = engine
        self.labels = set()
        self.inputs = []          # (name, kind, value)
        self.observed = []
        self.known_ids = set(known_ids)
        self.known_hits = set()
        self.nchecks = 0

    def int(self, name, lo=None, hi=None):
        from .symval import SymInt
        name = self._name(name)
        v = SymInt(None, None, frozenset(), self.E.new_int('i_' + name))
        self.inputs.append((name, 'v', v))
        if lo is not None:
            self.E.assume((v >= lo).f)
        if hi is not None:
            self.E.assume((v <= hi).f)
        return v

    def half(self, name, lo, hi):
        from .symval import SymFloat
        return SymFloat(self.int(name, lo * 2, hi * 2), 2)

    def choice(self, name, seq):
        seq = list(seq)
        name = self._name(name)
        k = self.E.choose(len(seq))
        self.inputs.append((name, 'c', k))
        return seq[k]

    def bool(self, name):
        name = self._name(name)
        k = self.E.choose(2)
        self.inputs.append((name, 'c', k))
        return bool(k)

    def _dom(self, alphabet, full):
        from . import iset as I
        if alphabet is None:
            return full
        if isinstance(alphabet, I.ISet):
            return alphabet
        if isinstance(alphabet, bytes):
            return I.from_values(alphabet)
        if isinstance(alphabet, str):
            return I.from_values(map(ord, alphabet))
        # iterable of (lo, hi) ranges or single characters
        rs = []
        for x in alphabet:
            if isinstance(x, tuple):
                lo, hi = x
                lo = ord(lo) if isinstance(lo, str) else lo
                hi = ord(hi) if isinstance(hi, str) else hi
                rs.append((lo, hi))
            else:
                x = ord(x) if isinstance(x, str) else x
                rs.append((x, x))
        return I.from_ranges(rs)

    def str(self, name, n, alphabet=None):
        from . import iset as I
        from .symval import mkstr
        name = self._name(name)
        d = self._dom(alphabet, I.ALL)
        cs = tuple(self.E.new_char(d) for i in range(n))
        self.inputs.append((name, 'v', _Raw(cs, False)))
        return mkstr(cs)

    def bytes(self, name, n, alphabet=None):
        from . import iset as I
        from .symval import mkbytes
        name = self._name(name)
        d = self._dom(alphabet, I.ALLBYTES)
        cs = tuple(self.E.new_char(d) for i in range(n))
        self.inputs.append((name, 'v', _Raw(cs, True)))
        return mkbytes(cs)

    def assume(self, cond):
        from .symval import bf
        self.E.assume(bf(cond))

    def check(self, cond, label, detail=None):
        from .symval import bf, SymInt
        if type(cond) is SymInt:
            cond = cond != 0
        self.nchecks += 1
        self.E.check(bf(cond), label, detail)

    def fail(self, label, detail=None):
        self.nchecks += 1
        self.E.check(False, label, detail)

    def eq(self, a, b):
        from .symval import mkbool
        from .instrument import _eqf
        return mkbool(_eqf(a, b))

    def all(self, conds):
        from .symval import mkbool, bf, f_and
        return mkbool(f_and([bf(c) for c in conds]))

    def any(self, conds):
        from .symval import mkbool, bf, f_or
        return mkbool(f_or([bf(c) for c in conds]))

    def not_(self, c):
        from .symval import mkbool, bf, f_not
        return mkbool(f_not(bf(c)))

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def iff(self, a, b):
        return self.any([self.all([a, b]), self.all([self.not_(a), self.not_(b)])])

    def observe(self, label, value):
        self.observed.append((label, value))

    def reach(self, label):
        self.labels.add(label)

    # ---- models
    def model_inputs(self, m):
        out = {}
        for name, kind, v in self.inputs:
            out[name] = v if kind == 'c' else enc(evaluate(self.E, m, v))
        return out

    def model_observed(self, m):
        return [(l, canon_repr(evaluate(self.E, m, v))) for l, v in self.observed]


class _Raw:
    __slots__ = ('cs', 'b')

    def __init__(self, cs, b):
        self.cs = cs
        self.b = b


def evaluate(E, m, v):
    from .symval import SymStr, SymBytes, SymInt, SymBool, SymFloat, Mapped
    from .engine import Ch
    import z3

    def ch(c):
        if type(c) is int:
            return c
        if type(c) is Ch:
            return m.eval(E.zchar(c.id), model_completion=True).as_long()
        return c.tbl.apply(m.eval(E.zchar(c.cv.id), model_completion=True).as_long())
    t = type(v)
    if t is _Raw:
        return bytes(map(ch, v.cs)) if v.b else ''.join(chr(ch(c)) for c in v.cs)
    if t is SymStr:
        return ''.join(chr(ch(c)) for c in v.cs)
    if t is SymBytes:
        return bytes(map(ch, v.cs))
    if t is SymInt:
        if v.e is None and v.v is None:
            return ch(v.cv)
        v.z()
        return m.eval(v.e, model_completion=True).as_long()
    if t is SymFloat:
        n = evaluate(E, m, v.num)
        return n / v.d
    if t is SymBool:
        return z3.is_true(m.eval(E.to_z3(v.f), model_completion=True))
    if t in (list, tuple, set, frozenset):
        r = [evaluate(E, m, x) for x in v]
        return t(r)
    if t is dict:
        return {evaluate(E, m, k): evaluate(E, m, x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(evaluate(E, m, x) for x in v)
    return v
