"""Validation of the symbolic str/bytes/re models against CPython: random operations on random small symbolic
strings; every path's witness is re-run natively and the result compared, and the paths' witness sets
must partition the input space."""
import sys, random, re, signal, itertools
sys.path.insert(0, '/verif')
from sx import engine as G, symval as V, symre as R, instrument as N, iset as I
from sx.ctx import SymCtx, evaluate
N.install()


def explore(fn, maxpaths=4000):
    E = G.Engine()
    G.Engine.current = E
    while True:
        E.start_path()
        ctx = SymCtx(E)
        try:
            r = ('ok', fn(ctx))
        except G.Infeasible:
            r = None
        except G.Unsupported as e:
            r = ('unsup', str(e))
        except G.Control:
            raise
        except Exception as e:
            r = ('exc', type(e).__name__)
        if r is not None:
            m = E.path_model()
            yield E, ctx, m, r
            maxpaths -= 1
            if not maxpaths:
                return
        E.trail[E.pos:] = []
        if not E.backtrack():
            return


def ev(E, m, v):
    if isinstance(v, R.SymMatch):
        return ('match', v.span(), tuple(v.span(i) for i in range(1, v._prog.groups + 1)), evaluate(E, m, v.groups()), v.lastindex)
    if isinstance(v, re.Match):
        return ('match', v.span(), tuple(v.span(i) for i in range(1, v.re.groups + 1)), v.groups(), v.lastindex)
    if isinstance(v, (list, tuple)):
        return type(v)(ev(E, m, x) for x in v)
    return evaluate(E, m, v)


AL = 'aB \n\t\r1_\x1cé\u0130ßǆ.\'"\\-'
METHS = ['upper', 'lower', 'title', 'capitalize', 'swapcase', 'casefold', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines',
         'isspace', 'isalpha', 'isalnum', 'isdigit', 'isdecimal', 'isnumeric', 'isupper', 'islower', 'istitle', 'isidentifier', 'isascii', 'isprintable',
         'expandtabs', 'encode']


def rs(rng, n, al):
    return ''.join(rng.choice(al) for _ in range(n))


def one(rng, bytes_):
    n = rng.randint(0, 4)
    k = rng.randint(1, 4)
    al = ''.join(rng.sample(AL, k))
    if bytes_:
        al = ''.join(c for c in al if ord(c) < 128) or 'a'
    conc = rs(rng, rng.randint(0, 2), al)
    A = lambda lo=0, hi=2: rs(rng, rng.randint(lo, hi), al)
    kind = rng.randint(0, 9)
    cv = (lambda s: s.encode()) if bytes_ else (lambda s: s)
    if kind == 0:
        meth = rng.choice(METHS)
        if bytes_ and meth in ('casefold', 'isdecimal', 'isnumeric', 'isidentifier', 'isprintable', 'encode'):
            return None
        args = ()
    elif kind == 1:
        meth = rng.choice(['find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith'])
        args = [cv(A())]
        if rng.random() < .5:
            args.append(rng.randint(-3, 4))
            if rng.random() < .5:
                args.append(rng.randint(-3, 4))
    elif kind == 2:
        meth = rng.choice(['split', 'rsplit'])
        args = [cv(A(1, 2)) if rng.random() < .7 else None, rng.randint(-1, 3)]
    elif kind == 3:
        meth = rng.choice(['partition', 'rpartition'])
        args = [cv(A(1, 2))]
    elif kind == 4:
        meth = rng.choice(['strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix'])
        args = [cv(A())]
    elif kind == 5:
        meth = 'replace'
        args = [cv(A()), cv(A()), rng.randint(-1, 2)]
    elif kind == 6:
        meth = rng.choice(['ljust', 'rjust', 'center'])
        args = [rng.randint(0, 8), cv('*')]
    elif kind == 7:
        meth = rng.choice(['zfill', 'splitlines'])
        args = [rng.randint(0, 6)]
    elif kind == 8:
        meth = '__getitem__'
        args = [slice(*(rng.choice([None, rng.randint(-4, 4)]) for _ in range(2)), rng.choice([None, 1, -1, 2]))]
    else:
        meth = rng.choice(['__add__', '__lt__', '__le__', '__eq__', '__contains__', '__radd__', 'repr', 'fmt'])
        args = [cv(A(0, 3))]
    symarg = kind in (1, 2, 3, 4, 5) and rng.random() < .3 and isinstance(args[0], (str, bytes))

    def fn(ctx):
        s = ctx.bytes('s', n, al.encode()) if bytes_ else ctx.str('s', n, al)
        a = list(args)
        if symarg:
            a[0] = ctx.bytes('x', len(args[0]), al.encode()) if bytes_ else ctx.str('x', len(args[0]), al)
        t = s + cv(conc)
        return apply(t, meth, a)
    def apply(t, meth, a):
        if meth == 'repr':
            return N.sx_repr(t)
        if meth == 'fmt':
            return N.sx_fstr(('x'), (t, 114, ''), (t, -1, '>5') if not bytes_ else (t, -1, ''))
        if meth == '__radd__':
            return a[0] + t
        if meth == '__lt__':
            return t < a[0]
        if meth == '__le__':
            return t <= a[0]
        if meth == '__eq__':
            return t == a[0]
        if meth == '__contains__':
            return N.sx_in(a[0], t)
        return N.sx_call(getattr(t, meth), *a)
    def native(inp):
        t = inp['s'] + cv(conc)
        a = list(args)
        if symarg:
            a[0] = inp['x']
        if meth == 'repr':
            return repr(t)
        if meth == 'fmt':
            return f'x{t!r}{t:>5}' if not bytes_ else f'x{t!r}{t}'
        if meth == '__radd__':
            return a[0] + t
        if meth == '__contains__':
            return a[0] in t
        return getattr(t, meth)(*a)
    return fn, native, f'{meth} {args} conc={conc!r} al={al!r} n={n} symarg={symarg}', al, n, symarg


ATOMS = ['a', 'b', '.', '[ab]', '[^a]', r'\s', r'\w', r'\d', r'\S', r'^', '$', r'\b', r'\Z', 'A', r'\B', r'\n', r'[\W]']


def rpat(rng, d=0, ng=None):
    ng = ng if ng is not None else [0]
    r = rng.random()
    if d > 2 or r < .35:
        return rng.choice(ATOMS)
    if r < .55:
        return rpat(rng, d + 1, ng) + rpat(rng, d + 1, ng)
    if r < .65:
        return f'(?:{rpat(rng, d + 1, ng)}|{rpat(rng, d + 1, ng)})'
    if r < .75:
        ng[0] += 1
        return f'({rpat(rng, d + 1, ng)})'
    if r < .92:
        q = rng.choice(['*', '+', '?', '{1,2}', '*?', '+?', '??', '{2}'])
        return f'(?:{rpat(rng, d + 1, ng)}){q}'
    if r < .96:
        return f'(?{rng.choice(["=", "!"])}{rpat(rng, d + 1, ng)})'
    return f'(?<={rng.choice("ab")})' if r < .98 else f'(?<!{rng.choice("ab")})'


def one_re(rng, bytes_):
    al = ''.join(rng.sample('abA \n1', rng.randint(1, 4)))
    n = rng.randint(0, 4)
    p = rpat(rng)
    fl = rng.choice([0, 0, 0, re.I, re.M, re.S, re.A])
    if bytes_:
        p = p.encode()
        if fl == re.A:
            fl = 0
    try:
        pat = re.compile(p, fl)
    except (re.error, FutureWarning):
        return None
    meth = rng.choice(['match', 'search', 'fullmatch', 'findall', 'split', 'sub', 'finditer', 'subn'])
    args = []
    pre = []
    if meth in ('sub', 'subn'):
        pre = [b'<X>' if bytes_ else '<X>']
    elif meth == 'split':
        args = [rng.choice([0, 1, 2])]
    elif rng.random() < .4:
        args = [rng.randint(0, 3)] + ([rng.randint(0, 4)] if rng.random() < .5 else [])

    def fn(ctx):
        s = ctx.bytes('s', n, al.encode()) if bytes_ else ctx.str('s', n, al)
        r = N.sx_call(getattr(pat, meth), *pre, s, *args)
        return list(r) if meth == 'finditer' else r

    def native(inp):
        r = getattr(pat, meth)(*pre, inp['s'], *args)
        return list(r) if meth == 'finditer' else r
    return fn, native, f'{p!r} {fl} {meth} {pre} {args} al={al!r} n={n}', al, n, False


def main(seed, count):
    rng = random.Random(seed)
    tot = bad = unsup = skipped = 0
    for t in range(count):
        bytes_ = rng.random() < .3
        o = one(rng, bytes_) if rng.random() < .5 else one_re(rng, bytes_)
        if o is None:
            continue
        fn, native, desc, al, n, symarg = o
        seen = set()
        npaths = 0
        for E, ctx, m, r in explore(fn):
            npaths += 1
            inp = {}
            for name, kind, v in ctx.inputs:
                inp[name] = evaluate(E, m, v)
            key = tuple(sorted(inp.items()))
            if key in seen:
                print('DUP witness', desc, inp)
                bad += 1
            seen.add(key)
            if r[0] == 'unsup':
                unsup += 1
                continue
            try:
                want = ('ok', ev(E, m, native(inp)))
            except Exception as e:
                want = ('exc', type(e).__name__)
            got = ('ok', ev(E, m, r[1])) if r[0] == 'ok' else r
            if got != want or type(got[1]) is not type(want[1]):
                print('BAD', desc, inp, 'engine', got, 'native', want)
                bad += 1
                break
            # count of assignments on this path, when it is a product of domains
        tot += npaths
    print(f'{count} programs {tot} paths {bad} bad {unsup} unsupported')
    return bad


if __name__ == '__main__':
    sys.exit(1 if main(int(sys.argv[1]), int(sys.argv[2])) else 0)
