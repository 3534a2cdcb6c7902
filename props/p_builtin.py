import math

from sx.registry import harness
from props.holes import subject

KINDS = ['none', 'list', 'object', 'int', 'bool', 'fraction', 'inf', '-inf', 'nan', 'huge', 'huge text', 'str', 'bytes', 'int-like', 'float-like', 'both-like', 'whole']
FNS = ['int', 'float', 'int_or_float']
ASCII = [(0, 127)]
DEFAULT = object()


class Equal:
    """compares equal to everything"""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class NoCompare:
    """cannot be compared (as an array)"""
    def __eq__(self, other):
        raise ValueError('comparison')

    __ne__ = __eq__
    __hash__ = None


class IntLike:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v

    __index__ = None


class FloatLike:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


def convert(how, o):
    try:
        return int(o) if how == 'int' else float(o)
    except (TypeError, ValueError, OverflowError):
        return DEFAULT


def expect(how, o):
    """the documented result, DEFAULT if every conversion fails"""
    if how != 'int_or_float':
        return convert(how, o)
    if isinstance(o, int):
        return o
    if not isinstance(o, float):
        r = convert('int', o)
        if r is not DEFAULT:
            return r
        o = convert('float', o)
        if o is DEFAULT:
            return o
    if math.isinf(o) or math.isnan(o):
        return o
    r = int(o)
    return r if r == o else o


def same(ctx, a, b):
    """same type and value (nan is the same as nan)"""
    if isinstance(a, float) and isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a is b or (type(a) is type(b) and a == b)


LONG = [['12345□789012345□.□', '05.e'], ['□1e□00', '0239-+ .'], [' -9_007_199_254_740_9□□ ', '0123_9'], ['□n□inity', 'iI-+_'], ['□x1□.8', '0.5 1'], ['0.□00000000000000000□', '01_ 5'], ['1□e-□□', '0123.']]


def _cases(tier):
    out = []
    for how in FNS:
        for k in KINDS:
            if k not in ('str', 'bytes'):
                out.append(dict(how=how, kind=k, n=0))
        for k in ('str', 'bytes'):
            for n in range(0, (5 if tier == 'quick' else 6) - (k == 'bytes')):
                out.append(dict(how=how, kind=k, n=n))
            out += [dict(how=how, kind=k, n=t) for t in LONG[:None if tier != 'quick' else 4 - (k == 'bytes')]]
    return out


@harness('N01', cases=_cases, bounds='every ASCII string of up to 4 (thorough 5) characters, every ASCII byte string of up to 3 (4), longer texts of numbers with two or three arbitrary characters, every integer, infinities, nan, fractions, '
         'a number too large for a float and for int(str), objects with __int__ or __float__, None, a list, an object; with and without a default, also one that is equal to everything or cannot be compared')
def convert_any(ctx, how, kind, n):
    import big.builtin as B
    if kind in ('str', 'bytes'):
        if isinstance(n, list):
            o, n = subject(ctx, kind == 'bytes', n)
        else:
            o = ctx.str('s', n, ASCII) if kind == 'str' else ctx.bytes('b', n, range(128))
    elif kind == 'int':
        o = ctx.int('i', -10 ** 12, 10 ** 12) if how == 'float' else ctx.int('i')
    elif kind == 'int-like':
        o = IntLike(ctx.int('i'))
    elif kind == 'float-like':
        o = FloatLike(ctx.choice('f', [0.5, 2.0, math.inf, math.nan, -0.0]))
    else:
        o = {'none': None, 'list': [1], 'object': object(), 'bool': True, 'fraction': 2.5, 'inf': math.inf, '-inf': -math.inf, 'nan': math.nan,
             'huge': 10 ** 400, 'huge text': '1' + '0' * 400, 'both-like': ctx, 'whole': -3.0}[kind]
    want = expect(how, o)
    get = getattr(B, 'get_' + how)
    dflt = ctx.choice('default', ['absent', 'none', 'int', 'self', 'equal', 'nocompare'] if n < 3 else ['absent', 'none', 'int', 'self'] if n < 4 else ['absent', 'int'])
    d = {'absent': o, 'none': None, 'int': ctx.int('d'), 'self': o, 'equal': Equal(), 'nocompare': NoCompare()}[dflt]
    r = get(o) if dflt == 'absent' else get(o, d) if ctx.bool('positional') else get(o, default=d)
    if want is DEFAULT:
        ctx.check(r is d, 'a failed conversion returns the default (the object itself if none is given)')
    else:
        ctx.check(isinstance(r, int) == isinstance(want, int) and isinstance(r, float) == isinstance(want, float), 'the result has the documented type')
        ctx.check(same(ctx, r, want), 'the result is the converted number')
    if how != 'int_or_float':
        t = getattr(B, 'try_' + how)(o)
        ctx.check(t is (want is not DEFAULT), 'try_ tells whether the conversion succeeds')
    elif isinstance(o, int):
        ctx.check(r is o, 'an int is returned unchanged')
    ctx.reach('converted' if want is not DEFAULT else 'default')


@harness('N01', bounds='every argument shape (0 to 2 positional, 0 or 1 keyword arguments), the base method and an override')
def virtual(ctx):
    from big.builtin import pure_virtual
    calls = []

    class A:
        @pure_virtual()
        def f(self, *a, **k):
            "doc"
            calls.append('A')

    class B(A):
        def f(self, *a, **k):
            calls.append((a, k))
            return 5
    a = tuple(ctx.int('a') for i in range(ctx.choice('n', [0, 1, 2])))
    k = {'x': ctx.int('x')} if ctx.bool('kw') else {}
    try:
        A().f(*a, **k)
        ctx.fail('calling a pure virtual method raises')
    except NotImplementedError as e:
        ctx.check('f' in str(e), 'the message names the method')
    ctx.check(calls == [], 'the body never runs')
    ctx.check(B().f(*a, **k) == 5, 'an override works')
    ctx.check(A.f.__name__ == 'f' and A.f.__doc__ == 'doc', 'metadata is kept')
    ctx.reach('virtual')
