"""Symbolic values: SymBool, SymInt, SymStr, SymBytes."""
import math
import z3

from . import iset as I
from . import engine as G
from .engine import (FIn, FEq, FZ, FD, FDE, FNot, FAnd, FOr, f_not, f_and, f_or, Unsupported, Ch)

PLACEHOLDER = '\u27e6sym\u27e7'


def eng():
    return G.Engine.current


# ======================================================================================
class SymBool:
    __slots__ = ('f', '_h')

    def __init__(self, f):
        self.f = f

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return G.Engine.current.branch(self.f)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f_and([self.f, bf(o)]))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f_or([self.f, bf(o)]))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is SymBool:
            return bool(self) == bool(o)
        if type(o) in (bool, int):
            return bool(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return int(bool(self)) < o

    def __repr__(self):
        return PLACEHOLDER


def mkbool(f):
    if f is True or f is False:
        return f
    f = G.Engine.current.simplify(f)
    if f is True or f is False:
        return f
    return SymBool(f)


def bf(b):
    """formula of a (Sym)bool"""
    if type(b) is SymBool:
        return b.f
    return bool(b)


# ======================================================================================
class SymInt:
    """An integer: variable v plus constant k, or a z3 expression e, or a code point cv."""
    __slots__ = ('v', 'k', 'e', 'cv', 'cvs', '_h', 'lin')

    def __init__(self, e=None, cv=None, cvs=frozenset(), v=None, k=0, lin=None):
        self.lin = lin          # (variables and coefficients, constant) when that is known of an expression
        self.v = v
        self.k = k
        self.cv = cv            # Ch / Mapped when the value is a code point
        if cv is not None and e is None:
            cvs = frozenset((cv.id,)) if type(cv) is Ch else frozenset((cv.cv.id,))
        self.e = e
        self.cvs = cvs

    __class__ = property(lambda self: int)

    def z(self):
        if self.e is None:
            if self.v is not None:
                z = eng().zint(self.v)
                self.e = z + self.k if self.k else z
                return self.e
            cv = self.cv
            if type(cv) is Ch:
                self.e = eng().zchar(cv.id)
            else:
                self.e = cv.z()
        return self.e

    # arithmetic -------------------------------------------------------------------
    def _bin(self, o, fn, rev=False, lin=None):
        t = type(o)
        if t is SymInt:
            a, b, cvs = self.z(), o.z(), self.cvs | o.cvs
        elif t is int:
            a, b, cvs = self.z(), o, self.cvs
        elif t is bool or t is SymBool:
            a, b, cvs = self.z(), int(o), self.cvs
        elif t is float:
            return self._float(o, fn, rev)
        else:
            return NotImplemented
        r = SymInt(fn(b, a) if rev else fn(a, b), None, cvs)
        if lin is not None and not cvs:
            la, lb = _lin(self), _lin(o)
            if la is not None and lb is not None:
                return _from_lin(lin(lb, la) if rev else lin(la, lb), r)
        return r

    def _float(self, o, fn, rev):
        raise Unsupported('int/float arithmetic')

    def __add__(self, o):
        if o.__class__ is int and type(o) is int and o == 0:
            return self
        if self.v is not None and type(o) is int:
            return SymInt(None, None, frozenset(), self.v, self.k + o)
        return self._bin(o, lambda a, b: a + b, False, _lin_add)

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        if self.v is not None and type(o) is int:
            return SymInt(None, None, frozenset(), self.v, self.k + o)
        return self._bin(o, lambda a, b: a + b, True, _lin_add)

    def __sub__(self, o):
        if o is self:
            return 0
        if self.v is not None:
            if type(o) is int:
                return SymInt(None, None, frozenset(), self.v, self.k - o)
            if type(o) is SymInt and o.v == self.v:
                return self.k - o.k
        return self._bin(o, lambda a, b: a - b, False, _lin_sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True, _lin_sub)

    def _mulseq(self, o):
        n = self.__index__()
        return o * n

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return self._mulseq(o)
        if type(o) is SymInt:
            # avoid nonlinear arithmetic: enumerate the left operand
            return self.__index__() * o
        if o.__class__ is int and type(o) is int:
            return self._scale(o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return self._mulseq(o)
        if o.__class__ is int and type(o) is int:
            return self._scale(o)
        return self._bin(o, lambda a, b: a * b, True)

    def _scale(self, n):
        r = SymInt(self.z() * n, None, self.cvs)
        l = _lin(self)
        if l is not None:
            return _from_lin(({v: c * n for v, c in l[0].items() if n}, l[1] * n), r)
        return r

    def __neg__(self):
        r = SymInt(-self.z(), None, self.cvs)
        l = _lin(self)
        if l is not None:
            r.lin = ({v: -c for v, c in l[0].items()}, -l[1])
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __invert__(self):
        return -self - 1

    def _div(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, bool):
            o = int(o)
        if type(o) is not int:
            if type(o) is float:
                raise Unsupported('int/float division')
            return None
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o > 0:
            s = _lin_split(_lin(self), o)
            if s is not None:
                return _from_lin(s[0]), _from_lin(s[1])
        a = self.z()
        if o < 0:
            a, d = -a, -o
            q = a / d
            r = -(a % d)
        else:
            q = a / o
            r = a % o
        return SymInt(q, None, self.cvs), SymInt(r, None, self.cvs)

    def __floordiv__(self, o):
        r = self._div(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._div(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._div(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return o % self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        return self.__index__() / (o.__index__() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 1:
            return self if o else 1
        return pow(self.__index__(), o, m) if m is not None else self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        o = o.__index__()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        o = o.__index__()
        return self // (1 << o)

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & (o.__index__() if isinstance(o, SymInt) else o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | (o.__index__() if isinstance(o, SymInt) else o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ (o.__index__() if isinstance(o, SymInt) else o)
    __rxor__ = __xor__

    # comparison -----------------------------------------------------------------
    def _cmp(self, o, op):
        t = type(o)
        if t is bool:
            o, t = int(o), int
        elif t is SymBool:
            o, t = int(o), int
        if t is float:
            if math.isnan(o):
                return op == '!='
            if math.isinf(o):
                pos = o > 0
                return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
            if o.is_integer():
                o, t = int(o), int
            else:
                fl = math.floor(o)
                if op in ('==', '!='):
                    return op == '!='
                if op in ('<', '<='):
                    return self._cmp(fl, '<=')
                return self._cmp(fl, '>')
        if t is int:
            if self.cv is not None:
                if op == '==':
                    s = I.from_ranges([(o, o)]) if o >= 0 else I.EMPTY
                elif op == '!=':
                    s = I.complement(I.from_ranges([(o, o)])) if o >= 0 else I.ALL
                elif op == '<':
                    s = I.from_ranges([(0, o - 1)])
                elif op == '<=':
                    s = I.from_ranges([(0, o)])
                elif op == '>':
                    s = I.from_ranges([(max(0, o + 1), I.MAXCP)])
                else:
                    s = I.from_ranges([(max(0, o), I.MAXCP)])
                return mkbool(char_in(self.cv, s))
            if self.v is not None:
                return _dcmp(op, self.v, None, o - self.k)
            l = _lin(self)
            if l is not None:
                r = _lin_cmp(l, op, o)
                if r is not None:
                    return r
            a, b, cvs = self.z(), o, self.cvs
        elif t is SymInt:
            if o is self:
                return op in ('==', '<=', '>=')
            if self.v is not None and o.v is not None:
                if self.v == o.v:
                    d = self.k - o.k
                    return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
                return _dcmp(op, self.v, o.v, o.k - self.k)
            if self.cv is not None and o.cv is not None and op in ('==', '!='):
                f = char_eq(self.cv, o.cv)
                return mkbool(f if op == '==' else f_not(f))
            a, b, cvs = self.z(), o.z(), self.cvs | o.cvs
        else:
            return NotImplemented
        if op == '==':
            e = a == b
        elif op == '!=':
            e = a != b
        elif op == '<':
            e = a < b
        elif op == '<=':
            e = a <= b
        elif op == '>':
            e = a > b
        else:
            e = a >= b
        if not cvs and type(b) is int and z3.is_int_value(a):
            e = z3.simplify(e)
        return SymBool(FZ(e, cvs))

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self._cmp(0, '!='))

    def __index__(self):
        if self.cv is not None:
            d = char_domain(self.cv)
            if d.size <= 300:
                E = eng()
                for v in d:
                    if E.branch(char_in(self.cv, I.single(v))):
                        return v
                raise G.Infeasible()
        return eng().concretize(self.z(), self.cvs)

    __int__ = __index__

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        E = eng()
        if E.hash_ok or E.hash_ok_once:
            if E.hash_ok_once:
                E.hash_ok_once -= 1
            return _objhash(self)
        raise Unsupported('native hash of a symbolic int')

    def __repr__(self):
        return PLACEHOLDER

    def __str__(self):
        return PLACEHOLDER

    def __format__(self, spec):
        return PLACEHOLDER

    def bit_length(self):
        return self.__index__().bit_length()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _lin(x):
    """linear form of an integer: ({variable: coefficient}, constant), or None"""
    if type(x) is SymInt:
        if x.v is not None:
            return {x.v: 1}, x.k
        return x.lin
    if type(x) is int:
        return {}, x
    return None


def _lin_add(a, b):
    d = dict(a[0])
    for v, c in b[0].items():
        c += d.pop(v, 0)
        if c:
            d[v] = c
    return d, a[1] + b[1]


def _lin_sub(a, b):
    return _lin_add(a, ({v: -c for v, c in b[0].items()}, -b[1]))


def _from_lin(l, full=None):
    """the integer of a linear form; full: the same value as an expression, when there is one"""
    d, k = l
    if not d:
        return k
    if len(d) == 1:
        (v, c), = d.items()
        if c == 1:
            return SymInt(None, None, frozenset(), v, k)
    if full is None:
        E = eng()
        e = k
        for v, c in d.items():
            e = E.zint(v) * c + e
        full = SymInt(e)
    full.lin = l
    return full


def _lin_range(l):
    """(low, high) of a linear form by the known bounds of its variables, None where unknown"""
    D = eng().dbm
    lo = hi = l[1]
    for v, c in l[0].items():
        up, dn = D[v + 1][0], D[0][v + 1]
        if dn is not None:
            dn = -dn
        if c < 0:
            up, dn = dn, up
        lo = None if lo is None or dn is None else lo + c * dn
        hi = None if hi is None or up is None else hi + c * up
        if lo is None and hi is None:
            break
    return lo, hi


def _lin_split(l, n):
    """quotient and remainder by n > 0 as linear forms, when the bounds of the variables give them"""
    if l is None:
        return None
    q, r = {}, {}
    for v, c in l[0].items():
        if c % n:
            r[v] = c
        else:
            q[v] = c // n
    lo, hi = _lin_range((r, 0))
    if lo is None or hi is None:
        return None
    k = l[1]
    t = (lo + k) // n
    if (hi + k) // n != t:
        return None
    return (q, t), (r, k - t * n)


def _lin_cmp(l, op, o):
    """comparison of a linear form with an integer when the bounds of its variables help, else None"""
    if op in ('<=', '>'):
        r = _lin_cmp(l, '<', o + 1)
        return r if r is None or op == '<=' else (not r if type(r) is bool else SymBool(f_not(r.f)))
    lo, hi = _lin_range(l)
    if op in ('==', '!='):
        if (lo is not None and lo > o) or (hi is not None and hi < o):
            return op == '!='
        return None
    if hi is not None and hi < o:
        return op == '<'
    if lo is not None and lo >= o:
        return op == '>='
    d = l[0]
    n = max(map(abs, d.values()))
    if n == 1:
        return None
    s = _lin_split((d, l[1] - o), n)
    if s is None:
        return None
    # l - o = n * quotient + remainder with 0 <= remainder < n: it is negative exactly when the quotient is
    q = _from_lin(s[0])
    if type(q) is int:
        return (q < 0) == (op == '<')
    return q._cmp(0, op)


def _dcmp(op, x, y, c):
    """x - y op c"""
    if op == '==':
        f = FDE(x, y, c)
    elif op == '!=':
        f = FNot(FDE(x, y, c))
    elif op == '<=':
        f = FD(x, y, c)
    elif op == '<':
        f = FD(x, y, c - 1)
    elif op == '>':
        f = FNot(FD(x, y, c))
    else:
        f = FNot(FD(x, y, c - 1))
    return SymBool(f)


def _objhash(o):
    try:
        return o._h
    except AttributeError:
        E = eng()
        E.nobj += 1
        h = 0x5eed00000000 + E.nobj * 7919
        o._h = h
        return h


# ======================================================================================
# case mapping tables
class Table:
    """A char -> char mapping, identity outside `exc`; characters in `multi` map to something else than
    exactly one character and never reach the table."""
    def __init__(self, name, exc):
        self.name = name
        self.exc = exc
        self.excset = I.from_values(exc)
        self._pre = {}
        self._inv = {}
        for k, v in exc.items():
            self._inv.setdefault(v, []).append(k)

    def apply(self, c):
        return self.exc.get(c, c)

    def preset(self, s):
        r = self._pre.get(s)
        if r is None:
            if s.size <= 300:
                vals = []
                for c in s:
                    if c not in self.exc:
                        vals.append(c)
                    vals.extend(self._inv.get(c, ()))
                r = I.from_values(vals)
            else:
                r = I.union(I.minus(s, self.excset), I.from_values(k for k, v in self.exc.items() if v in s))
            self._pre[s] = r
        return r


class Mapped:
    __slots__ = ('cv', 'tbl')

    def __init__(self, cv, tbl):
        self.cv = cv
        self.tbl = tbl

    @property
    def id(self):
        return self.cv.id

    def __repr__(self):
        return f'{self.tbl.name}({self.cv})'

    def z(self):
        d = char_domain_raw(self.cv)
        c = eng().zchar(self.cv.id)
        rel = [(k, v) for k, v in self.tbl.exc.items() if k in d]
        # group by shift
        groups = {}
        for k, v in rel:
            groups.setdefault(v - k, []).append(k)
        e = c
        for sh, ks in groups.items():
            e = z3.If(eng().z_in(self.cv.id, I.from_values(ks)), c + sh, e)
        return e


_tables = {}


def case_table(op, bytes_=False):
    """(table, multi) for a str/bytes case method, computed from the running Python."""
    k = (op, bytes_)
    r = _tables.get(k)
    if r is None:
        exc = {}
        multi = {}
        if bytes_:
            for i in range(256):
                o = getattr(bytes([i]), op)()
                if o[0] != i:
                    exc[i] = o[0]
        else:
            for i in range(I.MAXCP + 1):
                c = chr(i)
                o = getattr(c, op)()
                if len(o) == 1:
                    if o != c:
                        exc[i] = ord(o)
                else:
                    multi[i] = o
        r = _tables[k] = (Table(op + ('b' if bytes_ else ''), exc), multi, I.from_values(multi))
    return r


_multi = {}


def multi_tables(op, bytes_=False):
    """the characters that map to several, by result length, with one table per result position"""
    k = (op, bytes_)
    r = _multi.get(k)
    if r is None:
        by = {}
        for c, o in case_table(op, bytes_)[1].items():
            by.setdefault(len(o), {})[c] = o
        r = _multi[k] = [(I.from_values(d), [Table(f'{op}{n}.{i}', {c: ord(o[i]) for c, o in d.items()}) for i in range(n)]) for n, d in sorted(by.items())]
    return r


_compose = {}


def compose(t1, t2):
    """t2 after t1"""
    k = (id(t1), id(t2))
    r = _compose.get(k)
    if r is None:
        exc = {}
        for c in set(t1.exc) | set(t2.exc):
            v = t2.apply(t1.apply(c))
            if v != c:
                exc[c] = v
        r = _compose[k] = (Table(f'{t2.name}.{t1.name}', exc), t1, t2)
    return r[0]


# ---- chars -----------------------------------------------------------------------------
def char_domain_raw(cv):
    E = eng()
    return E.dom[E.root(cv.id)]


def char_domain(c):
    """possible values of a char"""
    if type(c) is int:
        return I.single(c)
    if type(c) is Ch:
        return char_domain_raw(c)
    d = char_domain_raw(c.cv)
    return I.union(I.minus(d, c.tbl.excset), I.from_values(c.tbl.exc[k] for k in I.inter(d, c.tbl.excset)))


def norm(c):
    """collapse chars with a singleton domain"""
    if type(c) is int:
        return c
    if type(c) is Ch:
        d = char_domain_raw(c)
        if d.size == 1:
            return d.iv[0][0]
        return c
    d = char_domain_raw(c.cv)
    if d.size == 1:
        return c.tbl.apply(d.iv[0][0])
    if not I.inter(d, c.tbl.excset).iv:
        return c.cv
    return c


def char_in(c, s):
    t = type(c)
    if t is int:
        return c in s
    if t is Ch:
        return FIn(c, s)
    return FIn(c.cv, c.tbl.preset(s))


def char_eq(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is int:
        if tb is int:
            return a == b
        return char_in(b, I.single(a))
    if tb is int:
        return char_in(a, I.single(b))
    if ta is Ch and tb is Ch:
        return FEq(a, b)
    if ta is Mapped and tb is Mapped and a.tbl is b.tbl:
        if a.cv is b.cv:
            return True
        da, db = char_domain_raw(a.cv), char_domain_raw(b.cv)
        out = [FEq(a.cv, b.cv)]
        seen = set()
        for e in I.inter(I.union(da, db), a.tbl.excset):
            v = a.tbl.exc[e]
            if v not in seen:
                seen.add(v)
                p = a.tbl.preset(I.single(v))
                out.append(f_and([FIn(a.cv, p), FIn(b.cv, p)]))
        return f_or(out)
    if ta is Ch:
        a, b = b, a
        ta, tb = tb, ta
    if tb is Ch:
        da = char_domain_raw(a.cv)
        ex = I.inter(da, a.tbl.excset)
        out = [f_and([FIn(a.cv, I.minus(I.ALL, a.tbl.excset)), FEq(a.cv, b)])]
        for e in ex:
            out.append(f_and([FIn(a.cv, I.single(e)), FIn(b, I.single(a.tbl.exc[e]))]))
        return f_or(out)
    # two different tables
    da, db = char_domain(a), char_domain(b)
    common = I.inter(da, db)
    if common.size <= 2000:
        return f_or([f_and([char_in(a, I.single(v)), char_in(b, I.single(v))]) for v in common])
    raise Unsupported('comparison of differently mapped chars')


def char_lt(a, b):
    """formula a < b"""
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a < b
    if ta is int:
        return char_in(b, I.from_ranges([(a + 1, I.MAXCP)]))
    if tb is int:
        return char_in(a, I.from_ranges([(0, b - 1)]))
    za = SymInt(None, a)
    zb = SymInt(None, b)
    return FZ(za.z() < zb.z(), za.cvs | zb.cvs)


def br(f):
    return G.Engine.current.branch(f)


def map_chars(cs, op, bytes_):
    tbl, multi, multiset = case_table(op, bytes_)
    out = []
    for c in cs:
        c = norm(c)
        if type(c) is int:
            if c in multi:
                out.extend(map(ord, multi[c]))
            else:
                out.append(tbl.apply(c))
            continue
        if multi and br(char_in(c, multiset)):
            for mset, tbls in multi_tables(op, bytes_):
                if br(char_in(c, mset)):
                    for t in tbls:
                        out.append(norm(Mapped(c, t) if type(c) is Ch else Mapped(c.cv, compose(c.tbl, t))))
                    break
            continue
        if type(c) is Ch:
            out.append(norm(Mapped(c, tbl)))
        else:
            out.append(norm(Mapped(c.cv, compose(c.tbl, tbl))))
    return out


# ======================================================================================
_missing = object()


class SymSeq:
    """Common behaviour of symbolic str / bytes: a concrete-length tuple of chars."""
    __slots__ = ('cs', '_h')

    def __init__(self, cs):
        self.cs = cs

    # construction helpers are on the subclasses: mk(cs), lit(x)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __hash__(self):
        E = eng()
        if E.hash_ok or E.hash_ok_once:
            if E.hash_ok_once:
                E.hash_ok_once -= 1
            return _objhash(self)
        raise Unsupported('native hash of a symbolic string')

    def __repr__(self):
        return PLACEHOLDER

    def __str__(self):
        return PLACEHOLDER

    def __format__(self, spec):
        return PLACEHOLDER

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # comparisons ------------------------------------------------------------------------
    def eq_formula(self, o):
        b = self.lit(o)
        if b is None:
            return None
        a = self.cs
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = char_eq(x, y)
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return f_and(fs)

    def __eq__(self, o):
        if o is self:
            return True
        f = self.eq_formula(o)
        if f is None:
            return NotImplemented
        return mkbool(f)

    def __ne__(self, o):
        if o is self:
            return False
        f = self.eq_formula(o)
        if f is None:
            return NotImplemented
        return mkbool(f_not(f))

    def _order(self, o):
        """-1, 0, 1 by forking"""
        b = self.lit(o)
        if b is None:
            return None
        a = self.cs
        for x, y in zip(a, b):
            if br(char_eq(x, y)):
                continue
            return -1 if br(char_lt(x, y)) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r < 0

    def __le__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r <= 0

    def __gt__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r > 0

    def __ge__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r >= 0

    # concatenation ------------------------------------------------------------------------
    def __add__(self, o):
        b = self.lit(o)
        if b is None:
            return NotImplemented
        return self.mk(self.cs + b)

    def __radd__(self, o):
        b = self.lit(o)
        if b is None:
            return NotImplemented
        return self.mk(b + self.cs)

    def __mul__(self, n):
        return self.mk(self.cs * n.__index__())
    __rmul__ = __mul__

    # searching --------------------------------------------------------------------------------
    def _need(self, o, what='argument'):
        b = self.lit(o)
        if b is None:
            raise TypeError(f'must be {self.kind}, not {type(o).__name__}')
        return b

    def _match_at(self, i, b):
        a = self.cs
        fs = []
        for k, y in enumerate(b):
            f = char_eq(a[i + k], y)
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return f_and(fs)

    def _range(self, start, end):
        n = len(self.cs)
        s, e, _ = slice(start, end).indices(n)
        raw_s = 0 if start is None else start.__index__()
        if raw_s < 0:
            raw_s = max(0, raw_s + n)
        return raw_s, e

    def find(self, sub, start=None, end=None):
        b = self._sub(sub)
        s, e = self._range(start, end)
        if s > len(self.cs):
            return -1
        for i in range(s, e - len(b) + 1):
            if br(self._match_at(i, b)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        b = self._sub(sub)
        s, e = self._range(start, end)
        if s > len(self.cs):
            return -1
        for i in range(e - len(b), s - 1, -1):
            if br(self._match_at(i, b)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def __contains__(self, sub):
        if isinstance(sub, int) and self.is_bytes:
            b = (_byte(sub),)
        else:
            b = self._need(sub)
        if not b:
            return True
        if len(b) == 1:
            return bool(mkbool(f_or([char_eq(c, b[0]) for c in self.cs])))
        return self.find(self.mk(b)) >= 0

    def count(self, sub, start=None, end=None):
        b = self._sub(sub)
        s, e = self._range(start, end)
        if not b:
            if s > len(self.cs):
                return 0
            return max(0, e - s) + 1 if e >= s else 0
        n = 0
        i = s
        while i <= e - len(b):
            if br(self._match_at(i, b)):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def _affix(self, x, start, end, at_end):
        if isinstance(x, tuple):
            for y in x:
                if self._affix(y, start, end, at_end):
                    return True
            return False
        b = self._need(x)
        s, e = self._range(start, end)
        if s > len(self.cs) or e - s < len(b):
            return False
        return bool(mkbool(self._match_at(e - len(b) if at_end else s, b)))

    def startswith(self, x, start=None, end=None):
        return self._affix(x, start, end, False)

    def endswith(self, x, start=None, end=None):
        return self._affix(x, start, end, True)

    def removeprefix(self, x):
        if self.startswith(x):
            return self.mk(self.cs[len(x):])
        return self.mk(self.cs)

    def removesuffix(self, x):
        if len(x) and self.endswith(x):
            return self.mk(self.cs[:-len(x)])
        return self.mk(self.cs)

    def partition(self, sep):
        b = self._need(sep)
        if not b:
            raise ValueError('empty separator')
        i = self.find(sep)
        if i < 0:
            return self.mk(self.cs), self.empty, self.empty
        return self.mk(self.cs[:i]), sep, self.mk(self.cs[i + len(b):])

    def rpartition(self, sep):
        b = self._need(sep)
        if not b:
            raise ValueError('empty separator')
        i = self.rfind(sep)
        if i < 0:
            return self.empty, self.empty, self.mk(self.cs)
        return self.mk(self.cs[:i]), sep, self.mk(self.cs[i + len(b):])

    def _wsset(self):
        return ws_set(self.is_bytes)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        a = self.cs
        out = []
        if sep is None:
            ws = self._wsset()
            i, n = 0, len(a)
            while True:
                while i < n and br(char_in(a[i], ws)):
                    i += 1
                if i >= n:
                    break
                if maxsplit == 0:
                    out.append(self.mk(a[i:]))
                    break
                j = i
                while j < n and not br(char_in(a[j], ws)):
                    j += 1
                out.append(self.mk(a[i:j]))
                i = j
                maxsplit -= 1
            return out
        b = self._need(sep)
        if not b:
            raise ValueError('empty separator')
        i = st = 0
        while i <= len(a) - len(b):
            if maxsplit == 0:
                break
            if br(self._match_at(i, b)):
                out.append(self.mk(a[st:i]))
                i += len(b)
                st = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self.mk(a[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        a = self.cs
        out = []
        if sep is None:
            ws = self._wsset()
            j = len(a)
            while True:
                while j > 0 and br(char_in(a[j - 1], ws)):
                    j -= 1
                if j <= 0:
                    break
                if maxsplit == 0:
                    out.append(self.mk(a[:j]))
                    break
                i = j
                while i > 0 and not br(char_in(a[i - 1], ws)):
                    i -= 1
                out.append(self.mk(a[i:j]))
                j = i
                maxsplit -= 1
            out.reverse()
            return out
        b = self._need(sep)
        if not b:
            raise ValueError('empty separator')
        en = len(a)
        i = en - len(b)
        while i >= 0:
            if maxsplit == 0:
                break
            if br(self._match_at(i, b)):
                out.append(self.mk(a[i + len(b):en]))
                en = i
                i -= len(b)
                maxsplit -= 1
            else:
                i -= 1
        out.append(self.mk(a[:en]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        a = self.cs
        lb = lb_set(self.is_bytes)
        out = []
        i = st = 0
        n = len(a)
        while i < n:
            if br(char_in(a[i], lb)):
                e = i + 1
                if br(char_eq(a[i], 13)) and e < n and br(char_eq(a[e], 10)):
                    e += 1
                out.append(self.mk(a[st:e] if keepends else a[st:i]))
                i = st = e
            else:
                i += 1
        if st < n:
            out.append(self.mk(a[st:]))
        return out

    def _strip(self, chars, left, right):
        a = self.cs
        if chars is None:
            ws = self._wsset()
            test = lambda c: char_in(c, ws)
        else:
            b = self._need(chars)
            if all(type(x) is int for x in b):
                ws = I.from_values(b)
                test = lambda c: char_in(c, ws)
            else:
                test = lambda c: f_or([char_eq(c, y) for y in b])
        i, j = 0, len(a)
        if left:
            while i < j and br(test(a[i])):
                i += 1
        if right:
            while j > i and br(test(a[j - 1])):
                j -= 1
        return self.mk(a[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, old, new, count=-1):
        count = count.__index__()
        b = self._need(old)
        nw = self._need(new)
        a = self.cs
        out = []
        if not b:
            k = 0
            n = len(a)
            for i in range(n + 1):
                if count < 0 or k < count:
                    out.extend(nw)
                    k += 1
                if i < n:
                    out.append(a[i])
            return self.mk(tuple(out))
        i = 0
        k = 0
        while i < len(a):
            if i <= len(a) - len(b) and (count < 0 or k < count) and br(self._match_at(i, b)):
                out.extend(nw)
                i += len(b)
                k += 1
            else:
                out.append(a[i])
                i += 1
        return self.mk(tuple(out))

    def join(self, it):
        out = []
        first = True
        for i, x in enumerate(it):
            b = self.lit(x)
            if b is None:
                raise TypeError(f'sequence item {i}: expected {self.kind} instance, {type(x).__name__} found')
            if not first:
                out.extend(self.cs)
            out.extend(b)
            first = False
        return self.mk(tuple(out))

    def _fill(self, fill):
        b = self._need(fill)
        if len(b) != 1:
            raise TypeError('The fill character must be exactly one character long')
        return b

    def _dfill(self):
        return b' ' if self.is_bytes else ' '

    def ljust(self, w, fill=None):
        f = self._fill(self._dfill() if fill is None else fill)
        return self.mk(self.cs + f * max(0, w.__index__() - len(self.cs)))

    def rjust(self, w, fill=None):
        f = self._fill(self._dfill() if fill is None else fill)
        return self.mk(f * max(0, w.__index__() - len(self.cs)) + self.cs)

    def center(self, w, fill=None):
        f = self._fill(self._dfill() if fill is None else fill)
        w = w.__index__()
        marg = max(0, w - len(self.cs))
        left = marg // 2 + (marg & w & 1)
        return self.mk(f * left + self.cs + f * (marg - left))

    def zfill(self, w):
        pad = w.__index__() - len(self.cs)
        if pad <= 0:
            return self.mk(self.cs)
        a = self.cs
        if a and br(char_in(a[0], I.from_values([43, 45]))):
            return self.mk((a[0],) + (48,) * pad + a[1:])
        return self.mk((48,) * pad + a)

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for c in self.cs:
            if br(char_eq(c, 9)):
                if tabsize > 0:
                    k = tabsize - (col % tabsize)
                    col += k
                    out.extend([32] * k)
            else:
                out.append(c)
                col += 1
                if br(char_in(c, I.from_values([10, 13]))):
                    col = 0
        return self.mk(tuple(out))

    # predicates -----------------------------------------------------------------------
    def _all(self, name):
        if not self.cs:
            return False
        s = pred(name, self.is_bytes)
        return mkbool(f_and([char_in(c, s) for c in self.cs]))

    def isspace(self):
        return self._all('isspace')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isdigit(self):
        return self._all('isdigit')

    def isascii(self):
        s = I.from_ranges([(0, 127)])
        return mkbool(f_and([char_in(c, s) for c in self.cs]))

    def isupper(self):
        lo = lower_or_title(self.is_bytes)
        up = pred('isupper', self.is_bytes)
        if len(self.cs) == 1:
            return mkbool(char_in(self.cs[0], I.minus(up, lo)))
        return mkbool(f_and([f_not(char_in(c, lo)) for c in self.cs] + [f_or([char_in(c, up) for c in self.cs])]))

    def islower(self):
        up = upper_or_title(self.is_bytes)
        lo = pred('islower', self.is_bytes)
        if len(self.cs) == 1:
            return mkbool(char_in(self.cs[0], I.minus(lo, up)))
        return mkbool(f_and([f_not(char_in(c, up)) for c in self.cs] + [f_or([char_in(c, lo) for c in self.cs])]))

    def istitle(self):
        up = upper_or_title(self.is_bytes)
        lo = pred('islower', self.is_bytes)
        cased = prev = False
        for c in self.cs:
            if br(char_in(c, up)):
                if prev:
                    return False
                prev = cased = True
            elif br(char_in(c, lo)):
                if not prev:
                    return False
                prev = cased = True
            else:
                prev = False
        return cased

    # case ------------------------------------------------------------------------------
    def upper(self):
        return self.mk(tuple(map_chars(self.cs, 'upper', self.is_bytes)))

    def swapcase(self):
        if not self.is_bytes:
            self._sigma_guard()
        return self.mk(tuple(map_chars(self.cs, 'swapcase', self.is_bytes)))

    def _sigma_guard(self):
        for c in self.cs:
            if type(c) is not int or c == 0x3a3:
                if br(char_eq(c, 0x3a3)):
                    if len(self.cs) > 1:
                        raise Unsupported('context-dependent lower-casing of U+03A3')

    def lower(self):
        if not self.is_bytes:
            self._sigma_guard()
        return self.mk(tuple(map_chars(self.cs, 'lower', self.is_bytes)))

    def title(self):
        if not self.is_bytes:
            self._sigma_guard()
        cased = cased_set(self.is_bytes)
        out = []
        prev = False
        for c in self.cs:
            out.extend(map_chars((c,), 'lower' if prev else 'title', self.is_bytes))
            prev = br(char_in(c, cased))
        return self.mk(tuple(out))

    def capitalize(self):
        if not self.is_bytes:
            self._sigma_guard()
        if not self.cs:
            return self.empty
        return self.mk(tuple(map_chars(self.cs[:1], 'title' if not self.is_bytes else 'upper', self.is_bytes))
                       + tuple(map_chars(self.cs[1:], 'lower', self.is_bytes)))


def pred(name, bytes_):
    if bytes_:
        return I.pred_set(name, lambda c: getattr(c, name)(), True)
    return I.pred_set(name, lambda c: getattr(c, name)())


def ws_set(bytes_):
    return pred('isspace', bytes_)


def lb_set(bytes_):
    if bytes_:
        return I.from_values([10, 13])
    return I.pred_set('linebreak', lambda c: len((c + 'x').splitlines()) == 2)


def lower_or_title(bytes_):
    if bytes_:
        return pred('islower', True)
    return I.pred_set('lt', lambda c: c.islower() or (c.istitle() and not c.isupper()))


def upper_or_title(bytes_):
    if bytes_:
        return pred('isupper', True)
    return I.pred_set('ut', lambda c: c.isupper() or c.istitle())


def cased_set(bytes_):
    if bytes_:
        return pred('isalpha', True)
    # cased: affects whether the next letter of .title() is lower-cased
    return I.pred_set('cased', lambda c: (c + 'A').title()[-1:] == 'a')


class SymStr(SymSeq):
    __slots__ = ()
    is_bytes = False
    kind = 'str'
    empty = ''

    __class__ = property(lambda self: str)

    @staticmethod
    def mk(cs):
        return mkstr(cs)

    @staticmethod
    def lit(x):
        t = type(x)
        if t is SymStr:
            return x.cs
        if t is str or isinstance(x, str):
            return tuple(map(ord, x))
        return None

    def _sub(self, sub):
        return self._need(sub)

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(_ix(i.start), _ix(i.stop), _ix(i.step))
            return mkstr(self.cs[i])
        return mkstr((self.cs[_ix(i)],))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        lim = {'ascii': 127, 'us-ascii': 127, 'utf-8': 127, 'utf8': 127, 'latin-1': 255, 'latin1': 255, 'iso-8859-1': 255}.get(enc)
        if lim is None:
            raise Unsupported(f'encode {encoding}')
        s = I.from_ranges([(0, lim)])
        out = []
        for i, c in enumerate(self.cs):
            if not br(char_in(c, s)):
                if 'utf' in enc:
                    if type(c) is not int:
                        d = char_domain(c)
                        if d.size > 300:
                            raise Unsupported('utf-8 encoding of a non-ascii symbolic char')
                        c = SymInt(cv=c).__index__()
                    out.extend(chr(c).encode())
                    continue
                if errors != 'strict':
                    raise Unsupported('encode errors=')
                raise UnicodeEncodeError(enc, 'x' * len(self.cs), i, i + 1, 'ordinal not in range')
            out.append(c)
        return mkbytes(tuple(out))

    def casefold(self):
        return self.mk(tuple(map_chars(self.cs, 'casefold', False)))

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isprintable(self):
        s = pred('isprintable', False)
        return mkbool(f_and([char_in(c, s) for c in self.cs]))

    def isidentifier(self):
        if not self.cs:
            return False
        st = I.pred_set('idstart', lambda c: c.isidentifier())
        co = I.pred_set('idcont', lambda c: ('a' + c).isidentifier())
        return mkbool(f_and([char_in(self.cs[0], st)] + [char_in(c, co) for c in self.cs[1:]]))

    def translate(self, table):
        out = []
        for c in self.cs:
            c = norm(c)
            if type(c) is not int:
                if not isinstance(table, dict):
                    raise Unsupported('translate with a non-dict')
                for k in table:
                    if br(char_eq(c, k)):
                        c = k
                        break
            if type(c) is int:
                try:
                    v = table[c]
                except LookupError:
                    v = c
                if v is None:
                    continue
                if isinstance(v, int):
                    out.append(v)
                else:
                    out.extend(SymStr.lit(v))
            else:
                out.append(c)
        return mkstr(tuple(out))

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')

    def format_map(self, m):
        raise Unsupported('symbolic format string')

    def __mod__(self, o):
        raise Unsupported('symbolic % format string')


class SymBytes(SymSeq):
    __slots__ = ()
    is_bytes = True
    kind = 'bytes'
    empty = b''

    __class__ = property(lambda self: bytes)

    @staticmethod
    def mk(cs):
        return mkbytes(cs)

    @staticmethod
    def lit(x):
        t = type(x)
        if t is SymBytes:
            return x.cs
        if t is bytes or isinstance(x, (bytes, bytearray, memoryview)):
            return tuple(x)
        return None

    def _sub(self, sub):
        if isinstance(sub, int):
            return (_byte(sub),)
        return self._need(sub)

    def __iter__(self):
        for c in self.cs:
            c = norm(c)
            yield c if type(c) is int else SymInt(None, c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(_ix(i.start), _ix(i.stop), _ix(i.step))
            return mkbytes(self.cs[i])
        c = norm(self.cs[_ix(i)])
        return c if type(c) is int else SymInt(None, c)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        lim = {'ascii': 127, 'us-ascii': 127, 'utf-8': 127, 'utf8': 127, 'latin-1': 255, 'latin1': 255, 'iso-8859-1': 255}.get(enc)
        if lim is None:
            raise Unsupported(f'decode {encoding}')
        if lim < 255:
            s = I.from_ranges([(0, lim)])
            for i, c in enumerate(self.cs):
                if not br(char_in(c, s)):
                    if 'utf' in enc:
                        raise Unsupported('utf-8 decoding of a non-ascii symbolic byte')
                    raise UnicodeDecodeError(enc, b'x' * len(self.cs), i, i + 1, 'ordinal not in range')
        return mkstr(self.cs)

    def translate(self, table, delete=b''):
        out = []
        for c in self.cs:
            c = norm(c)
            if delete and br(f_or([char_eq(c, d) for d in SymBytes.lit(delete)])):
                continue
            if table is not None:
                if type(c) is not int:
                    c = SymInt(None, c).__index__()
                c = table[c]
            out.append(c)
        return mkbytes(tuple(out))

    def hex(self, *a):
        raise Unsupported('bytes.hex')

    def __mod__(self, o):
        raise Unsupported('symbolic % format')


def _ix(i):
    if i is None or type(i) is int:
        return i
    return i.__index__()


def _byte(i):
    if type(i) is SymInt:
        if i.cv is not None:
            return i.cv
        return i.__index__()
    return int(i)


def mkstr(cs):
    conc = True
    for c in cs:
        if type(c) is not int:
            conc = False
            break
    if conc:
        return ''.join(map(chr, cs))
    ncs = tuple(map(norm, cs))
    for c in ncs:
        if type(c) is not int:
            return SymStr(ncs)
    return ''.join(map(chr, ncs))


def mkbytes(cs):
    ncs = tuple(map(norm, cs))
    for c in ncs:
        if type(c) is not int:
            return SymBytes(ncs)
    return bytes(ncs)


SYM = (SymStr, SymBytes, SymInt, SymBool)
SYMSET = frozenset(SYM)


def is_sym(x):
    return type(x) in SYMSET


def has_sym(x, depth=4):
    t = type(x)
    if t in SYMSET:
        return True
    if depth and t in (tuple, list, set, frozenset):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    elif depth and t is dict:
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
    return False


class SymFloat:
    """A float num / d with |num| well below 2**53: parsed from a short decimal literal (d a power of ten), or a binary fraction
    made by the harness (d a power of two).  Comparisons with integers and floats of the same kind, conversion to int, and, for binary
    fractions, addition and subtraction are exact; nothing else is modelled."""
    __slots__ = ('num', 'd')
    __class__ = property(lambda self: float)

    def __init__(self, num, d):
        self.num = num
        self.d = d

    def _binary(self):
        return self.d & (self.d - 1) == 0

    def _scaled(self, o):
        if isinstance(o, SymFloat):
            if self.d == o.d:
                return self.num, o.num
            return self.num * o.d, o.num * self.d
        if type(o) in (int, bool) or type(o) is SymInt:
            return self.num, o * self.d
        if type(o) is float:
            if math.isnan(o) or math.isinf(o):
                return None
            n, d = o.as_integer_ratio()
            if d == 1 or self._binary():
                return self.num * d, n * self.d
            raise Unsupported('comparison of a decimal symbolic float with a fraction')
        return NotImplemented

    def _arith(self, o, sign, rev=False):
        if not self._binary():
            raise Unsupported('arithmetic on a decimal float')
        if type(o) is SymFloat:
            if not o._binary():
                raise Unsupported('arithmetic on a decimal float')
            n, d = o.num, o.d
        elif type(o) in (int, bool) or type(o) is SymInt:
            n, d = o, 1
        elif type(o) is float:
            n, d = o.as_integer_ratio()     # raises for inf and nan
        else:
            return NotImplemented
        m = max(d, self.d)
        a, b = self.num * (m // self.d), n * (m // d)
        if rev:
            a, b = b, a
        return SymFloat(a + b if sign > 0 else a - b, m)

    def __add__(self, o):
        return self._arith(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, -1)

    def __rsub__(self, o):
        return self._arith(o, -1, True)

    def __mul__(self, o):
        # by a whole number; exact here (a real float may have to round the product)
        if type(o) in (int, bool) or type(o) is SymInt or (type(o) is float and o.is_integer()):
            return SymFloat(self.num * (int(o) if type(o) is float else o), self.d)
        raise Unsupported('product of a symbolic float')

    __rmul__ = __mul__

    def __eq__(self, o):
        r = self._scaled(o)
        if r is NotImplemented:
            return r
        return False if r is None else r[0] == r[1]

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(f_not(bf(r)))

    def _order(self, o, op):
        r = self._scaled(o)
        if r is NotImplemented:
            return r
        if r is None:
            return getattr(0.0, op)(o)
        a, b = r
        return a < b if op == '__lt__' else a <= b if op == '__le__' else a > b if op == '__gt__' else a >= b

    def __lt__(self, o):
        return self._order(o, '__lt__')

    def __le__(self, o):
        return self._order(o, '__le__')

    def __gt__(self, o):
        return self._order(o, '__gt__')

    def __ge__(self, o):
        return self._order(o, '__ge__')

    def __bool__(self):
        return bool(self.num != 0)

    def __neg__(self):
        return SymFloat(-self.num, self.d)

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SymFloat(self.num % (o * self.d), self.d)
        raise Unsupported('float modulo')

    def __int__(self):
        raise Unsupported('native int() of a symbolic float')

    def trunc(self):
        if self.num >= 0:
            return self.num // self.d
        return -((-self.num) // self.d)

    def __trunc__(self):
        return self.trunc()

    def is_integer(self):
        return self.num % self.d == 0

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')


SYMSET = SYMSET | {SymFloat}


# ---- conversions ------------------------------------------------------------------------
def int_to_str(n):
    """decimal representation of a SymInt as a (Sym)str; forks on sign and on the number of digits"""
    E = eng()
    if n.cv is not None:
        n = SymInt(n.z(), None, n.cvs)
    neg = bool(n < 0)
    m = -n if neg else n
    k = 1
    while True:
        if m < 10 ** k:
            break
        k += 1
        if k > 60:
            raise Unsupported('huge int')
    ds = []
    for i in range(k):
        ds.append(E.new_char(I.from_ranges([(48 if (i or k == 1) else 49, 57)]), f'd{E.nch}'))
    e = 0
    for d in ds:
        e = e * 10 + (E.zchar(d.id) - 48)
    E.define(FZ(m.z() == e, m.cvs | frozenset(d.id for d in ds)))
    # remember the value so that int(str(n)) is n again
    cs = tuple(ds)
    E.scratch[('digits', cs)] = m
    return mkstr(((45,) if neg else ()) + cs)


_DIG = {}


def digit_value_table():
    """code point -> digit value for every Unicode decimal digit"""
    if not _DIG:
        import unicodedata
        for i in range(I.MAXCP + 1):
            v = unicodedata.decimal(chr(i), None)
            if v is not None:
                _DIG[i] = v
    return _DIG


def str_to_int(s, base=10):
    """int(SymStr)"""
    if base != 10:
        raise Unsupported('int(str, base)')
    E = eng()
    cs = [norm(c) for c in (s.cs if isinstance(s, SymSeq) else SymStr.lit(s))]
    ws = ws_set(False)
    while cs and br(char_in(cs[0], ws)):
        cs.pop(0)
    while cs and br(char_in(cs[-1], ws)):
        cs.pop()
    neg = False
    if cs and br(char_in(cs[0], I.from_values([43, 45]))):
        neg = br(char_eq(cs[0], 45))
        cs.pop(0)
    err = ValueError('invalid literal for int() with base 10')
    if not cs:
        raise err
    d = tuple(cs)
    r = E.scratch.get(('digits', d))
    if r is None:
        asc = I.from_ranges([(48, 57)])
        und = I.single(95)
        e = 0
        cvs = frozenset()
        lastund = True
        for c in cs:
            if br(char_in(c, asc)):
                lastund = False
                c = norm(c)
                if type(c) is int:
                    e = e * 10 + (c - 48)
                else:
                    si = SymInt(None, c)
                    e = e * 10 + (si.z() - 48)
                    cvs |= si.cvs
            elif br(char_in(c, und)):
                if lastund:
                    raise err
                lastund = True
            else:
                dv = digit_value_table()
                if br(char_in(c, I.from_values(dv))):
                    raise Unsupported('non-ascii digits')
                raise err
        if lastund:
            raise err
        if type(e) is int:
            return -e if neg else e
        r = SymInt(e, None, cvs)
    return -r if neg else r


_repr_safe = None


def sym_repr(x):
    """repr() of something that may contain symbolic parts -> (Sym)str"""
    t = type(x)
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return repr(bool(x))
    if t is SymStr:
        return _str_repr(x)
    if t is SymBytes:
        return _bytes_repr(x)
    if t in (list, tuple, set, frozenset, dict) and has_sym(x):
        if t is dict:
            out = '{'
            for i, (k, v) in enumerate(x.items()):
                out = out + (', ' if i else '') + _repr1(k) + ': ' + _repr1(v)
            return out + '}'
        if t is frozenset:
            raise Unsupported('repr(frozenset)')
        o, c = {list: '[]', tuple: '()', set: '{}'}[t]
        out = o
        for i, v in enumerate(x):
            out = out + (', ' if i else '') + _repr1(v)
        if t is tuple and len(x) == 1:
            out = out + ','
        return out + c
    return None


def _repr1(x):
    r = sym_repr(x)
    return repr(x) if r is None else r


_hex = []


def _hex_tables():
    if not _hex:
        for i in range(2):
            _hex.append(Table(f'hex{i}', {c: ord(('%02x' % c)[i]) for c in range(256)}))
    return _hex


def _str_repr(s):
    global _repr_safe
    if _repr_safe is None:
        _repr_safe = I.pred_set('repr_plain', lambda c: repr(c) == "'" + c + "'" or c == '"')
    hasq = br(f_or([char_eq(c, 39) for c in s.cs]))
    hasd = br(f_or([char_eq(c, 34) for c in s.cs])) if hasq else False
    q = 34 if (hasq and not hasd) else 39
    out = [q]
    for c in s.cs:
        c = norm(c)
        if type(c) is int:
            if c == 39:
                out.extend((92, 39) if q == 39 else (39,))
            elif c == 34:
                out.append(34)
            else:
                out.extend(map(ord, repr(chr(c))[1:-1]))
            continue
        if br(char_eq(c, 39)):
            out.extend((92, 39) if q == 39 else (39,))
            continue
        if br(char_in(c, _repr_safe)):
            out.append(c)
            continue
        rest = I.minus(char_domain(c), _repr_safe)
        for v in (92, 10, 13, 9):
            if br(char_eq(c, v)):
                out.extend(map(ord, repr(chr(v))[1:-1]))
                break
        else:
            # escape sequence: its form is exact, its hex digits are left unconstrained (over-approximation)
            if br(char_in(c, I.from_ranges([(0, 0xff)]))):
                out.extend((92, 120))
                for t in _hex_tables():
                    out.append(norm(Mapped(c, t) if type(c) is Ch else Mapped(c.cv, compose(c.tbl, t))))
                continue
            elif br(char_in(c, I.from_ranges([(0, 0xffff)]))):
                out.extend((92, 117))
                w = 4
            else:
                out.extend((92, 85, 48, 48))
                w = 6
            for i in range(w):
                out.append(eng().new_char(I.from_values(map(ord, '0123456789abcdef'))))
    out.append(q)
    return mkstr(tuple(out))


def _bytes_repr(s):
    safe = I.pred_set('brepr', lambda c: repr(c) == "b'" + chr(c[0]) + "'", True)
    hasq = br(f_or([char_eq(c, 39) for c in s.cs]))
    hasd = br(f_or([char_eq(c, 34) for c in s.cs])) if hasq else False
    q = 34 if (hasq and not hasd) else 39
    out = [98, q]
    for c in s.cs:
        c = norm(c)
        if type(c) is not int:
            if br(char_eq(c, 39)):
                c = 39
            elif br(char_in(c, safe)):
                out.append(c)
                continue
            else:
                c = SymInt(None, c).__index__()
        if c == 39:
            out.extend((92, 39) if q == 39 else (39,))
        elif c == 34:
            out.append(34)
        else:
            out.extend(map(ord, repr(bytes([c]))[2:-1]))
    out.append(q)
    return mkstr(tuple(out))


def sym_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return str(bool(x))
    return sym_repr(x)


def sym_format(x, spec):
    """format(x, spec) for symbolic x"""
    if isinstance(spec, SymStr):
        raise Unsupported('symbolic format spec')
    t = type(x)
    if t is SymBool:
        return format(bool(x), spec)
    if spec == '':
        return sym_str(x)
    import re
    m = re.fullmatch(r'(?:(.)?([<>=^]))?([-+ ]?)(0?)(\d*)([,_]?)(?:\.(\d+))?([sd]?)', spec, re.S)
    if not m:
        if t is SymInt:
            return format(x.__index__(), spec)
        raise Unsupported(f'format spec {spec!r}')
    fill, align, sign, zero, width, comma, prec, ty = m.groups()
    width = int(width or 0)
    if t is SymStr:
        if sign or comma or ty == 'd' or align == '=':
            raise ValueError('Unknown format code for str')
        s = x
        if prec is not None:
            s = s[:int(prec)]
        if zero and not fill:
            fill = '0'
        align = align or '<'
    elif t is SymInt:
        if ty == 's' or prec is not None:
            raise ValueError('Unknown format code for int')
        neg = bool(x < 0)
        s = int_to_str(-x if neg else x)
        if comma:
            parts = []
            while len(s) > 3:
                parts.insert(0, s[-3:])
                s = s[:-3]
            parts.insert(0, s)
            r = parts[0]
            for p in parts[1:]:
                r = r + comma + p
            s = r
            if zero and width:
                raise Unsupported('zero-padded grouping')
        sg = '-' if neg else ('' if sign in ('', '-') else sign)
        if zero and not align:
            align, fill = '=', fill or '0'
        if align == '=':
            pad = (fill or ' ') * max(0, width - len(s) - len(sg))
            return sg + pad + s
        s = sg + s
        if zero and not fill:
            fill = '0'
        align = align or '>'
    else:
        raise Unsupported('format')
    fill = fill or ' '
    pad = max(0, width - len(s))
    if align == '<':
        return s + fill * pad
    if align == '>':
        return fill * pad + s
    return fill * (pad // 2) + s + fill * (pad - pad // 2)
