from sx.registry import harness

LEVELS = ['alpha', 'beta', 'rc', 'final']


class Fields:
    pass


def strip_zeros(r):
    r = list(r)
    while len(r) > 1 and r[-1] == 0:
        r.pop()
    return r


def cmp(a, b):
    if a == b:
        return 0
    return -1 if a < b else 1


def cmp_release(a, b):
    n = max(len(a), len(b))
    for i in range(n):
        x = a[i] if i < len(a) else 0
        y = b[i] if i < len(b) else 0
        c = cmp(x, y)
        if c:
            return c
    return 0


def cmp_local(a, b):
    if a is None or b is None:
        return (a is not None) - (b is not None)
    for x, y in zip(a, b):
        xi, yi = isinstance(x, int), isinstance(y, int)
        if xi != yi:
            return 1 if xi else -1
        c = cmp(x, y)
        if c:
            return c
    return (len(a) > len(b)) - (len(a) < len(b))


def pre_key(f):
    """PEP 440: a .dev release of the final release sorts before the pre-releases; no pre-release after them"""
    if f.level == 'final':
        if f.post is None and f.dev is not None:
            return (-1, 0, 0)
        return (1, 0, 0)
    return (0, LEVELS.index(f.level), f.serial if f.serial is not None else 0)


def pep440_cmp(a, b):
    c = cmp(a.epoch or 0, b.epoch or 0)
    if c:
        return c
    c = cmp_release(a.release, b.release)
    if c:
        return c
    for x, y in zip(pre_key(a), pre_key(b)):
        c = cmp(x, y)
        if c:
            return c
    x, y = (-1 if a.post is None else a.post), (-1 if b.post is None else b.post)
    c = cmp(x, y)
    if c:
        return c
    if a.dev is None or b.dev is None:
        c = (a.dev is None) - (b.dev is None)
    else:
        c = cmp(a.dev, b.dev)
    if c:
        return c
    return cmp_local(a.local, b.local)


def in_known_dev(a, b):
    """known finding V-KF1: dev release of a final release versus a pre-release of the same release"""
    for x, y in ((a, b), (b, a)):
        if x.level == 'final' and x.post is None and x.dev is not None and y.level != 'final':
            if cmp(a.epoch or 0, b.epoch or 0) == 0 and cmp_release(a.release, b.release) == 0:
                return True
    return False


LOCALS = {'none': None, 'a': ('a',), '1': ('1',), 'a.1': ('a', '1'), '10': ('10',), '2.b': ('2', 'b'), 'A': ('A',), 'b': ('b',), '01': ('01',)}


def local_fields(l):
    t = LOCALS[l]
    if t is None:
        return None
    return tuple(int(x) if x.isdigit() else x.lower() for x in t)


def make(ctx, p, rl, shape, local, hi, base=0, wide=None):
    from big.version import Version
    f = Fields()
    level, post, dev = shape
    wide = wide or hi
    f.epoch = ctx.int(p + '_epoch', 0, wide)
    f.release = tuple(ctx.int(f'{p}_r{i}', base, base + hi) for i in range(rl))
    f.level = level
    f.serial = ctx.int(p + '_serial', 0, wide) if level != 'final' else None
    f.post = ctx.int(p + '_post', 0, wide) if post else None
    f.dev = ctx.int(p + '_dev', 0, wide) if dev else None
    f.local = local_fields(local)
    v = Version(epoch=f.epoch, release=f.release, release_level=f.level, serial=f.serial, post=f.post, dev=f.dev,
                local=LOCALS[local])
    return v, f


SHAPES = [[l, p, d] for l in LEVELS for p in (0, 1) for d in (0, 1)]


def _order_cases(tier):
    out = []
    for i, s1 in enumerate(SHAPES):
        for j, s2 in enumerate(SHAPES):
            out.append(dict(s1=s1, s2=s2, rl=[2, 2], loc=['none', 'none']))
    loc = list(LOCALS)
    for i, a in enumerate(loc):
        for b in loc[i:]:
            out.append(dict(s1=['final', 0, 0], s2=['final', 0, 0], rl=[1, 1], loc=[a, b]))
    lens = [(1, 2), (2, 1), (1, 3), (3, 3)]
    for a in lens:
        out.append(dict(s1=['final', 0, 0], s2=['final', 0, 0], rl=list(a), loc=['none', 'none']))
        out.append(dict(s1=['rc', 0, 1], s2=['final', 1, 0], rl=list(a), loc=['none', 'none']))
    for base in (2 ** 31 - 5, 2 ** 64 - 5):
        out += [dict(s1=['final', 0, 0], s2=['rc', 1, 1], rl=rl, loc=['none', 'none'], base=base) for rl in ([1, 1], [2, 1], [2, 2])]
    if tier == 'thorough':
        for s1 in SHAPES:
            for s2 in SHAPES:
                out.append(dict(s1=s1, s2=s2, rl=[3, 2], loc=['a', 'a.1']))
    return out


@harness('V01', cases=_order_cases, bounds='two versions built from keyword fields; every component of the release an arbitrary integer 0..9 (or just around 2**31, 2**64), every other number up to 10**25; '
         'release of 1-3 components; all 16x16 combinations of pre/post/dev segments; 9x9 local versions')
def order(ctx, s1, s2, rl, loc, base=0):
    hi, wide = 9, 10 ** 25
    a, fa = make(ctx, 'a', rl[0], s1, loc[0], hi, base, wide)
    b, fb = make(ctx, 'b', rl[1], s2, loc[1], hi, base, wide)
    if ctx.known('V-KF1', in_known_dev(fa, fb)):
        less = a < b
        ctx.check(less == (fa.level != 'final'), 'the recorded order (dev release of the final after its pre-releases), nothing else')
        ctx.check((b < a) == (not less), 'exactly one of a < b, b < a')
        ctx.check(a != b, 'and they differ')
        return
    c = pep440_cmp(fa, fb)
    ctx.check((a < b) == (c < 0), 'a < b exactly when PEP 440 orders a before b')
    ctx.check((b < a) == (c > 0), 'b < a exactly when PEP 440 orders b before a')
    ctx.check((a == b) == (c == 0), 'a == b exactly when PEP 440 treats them as the same version')
    ctx.check((a != b) == (c != 0), 'a != b is the negation of a == b')
    ctx.check((a > b) == (c > 0), 'a > b is b < a')
    ctx.check((a <= b) == (c <= 0), 'a <= b is a < b or a == b')
    ctx.check((a >= b) == (c >= 0), 'a >= b is a > b or a == b')
    if c == 0:
        ctx.check(hash(a) == hash(b), 'equal versions hash equally')
        ctx.reach('equal')
    ctx.observe('c', c)


ALNUM = [('a', 'z'), ('A', 'Z'), ('0', '9')]


def parse_segment(x):
    return int(x) if x.isdigit() else x.lower()


def _local_cases(tier):
    shapes = [[1], [2], [1, 1], [2, 1]] + ([[3], [1, 2], [2, 2]] if tier == 'thorough' else [])
    return [dict(la=a, lb=b) for i, a in enumerate(shapes) for b in shapes[i:] if tier == 'thorough' and sum(a + b) < 7 or sum(a + b) < 6]


@harness('V01', cases=_local_cases, bounds='two versions differing in their local segments only: 1-2 segments of 1-2 arbitrary ASCII letters and digits (thorough: one of 3)')
def order_local(ctx, la, lb):
    from big.version import Version
    a = tuple(ctx.str(f'a{i}', n, ALNUM) for i, n in enumerate(la))
    b = tuple(ctx.str(f'b{i}', n, ALNUM) for i, n in enumerate(lb))
    x = Version(release=(1, 2), local=a)
    y = Version('1.2+' + '-'.join(b))
    c = cmp_local(tuple(map(parse_segment, a)), tuple(map(parse_segment, b)))
    ctx.check((x < y) == (c < 0) and (y < x) == (c > 0), 'local versions are ordered segment by segment, numbers after words')
    ctx.check((x == y) == (c == 0), 'and equal exactly when every segment is')
    if c == 0:
        ctx.check(hash(x) == hash(y), 'equal versions hash equally')
        ctx.reach('equal')


@harness('V02', cases=lambda tier: [dict(lens=l) for l in ([1], [2], [1, 1]) + (([3], [2, 1], [1, 2], [1, 1, 1]) if tier == 'thorough' else ())],
         bounds='local versions of 1-2 segments of up to 2 arbitrary ASCII letters and digits (thorough 3)')
def local_round_trip(ctx, lens):
    from big.version import Version
    a = tuple(ctx.str(f'a{i}', n, ALNUM) for i, n in enumerate(lens))
    v = Version(release=(1,), local=a)
    want = tuple(x.lower() for x in a)
    ctx.check_eq(v.local, want, 'local')
    s = str(v)
    ctx.check_eq(s, '1+' + '.'.join(want), 'string form')
    w = Version(s)
    ctx.check(v == w, 'parsing str(v) gives an equal version')
    ctx.check(hash(v) == hash(w), 'and an equal hash')
    ctx.check_eq(w.local, want, 'local')


BAD = {
    'epoch': ['neg', 'str', 'float'], 'release': ['none', 'list', 'empty', 'neg', 'str'], 'release_level': ['bad', 'int'], 'serial': ['neg', 'str', 'final'],
    'post': ['neg', 'str'], 'dev': ['neg', 'str'], 'local': ['empty', 'list', 'str', 'int', 'empty segment', 'text'], 'both': ['both'],
}


@harness('V02', cases=lambda tier: [dict(field=f, how=h) for f in BAD for h in BAD[f]], bounds='one invalid keyword field (arbitrary negative number, wrong type, arbitrary non-alphanumeric local text) '
         'among arbitrary valid ones')
def invalid_keywords(ctx, field, how):
    from big.version import Version
    n = ctx.int('n', 0, 99)
    kw = dict(epoch=n, release=(n, 1), release_level='rc', serial=1, post=n, dev=n, local=('a',))
    neg = ctx.int('neg', -99, -1)
    bad = {'neg': neg, 'str': '1', 'float': 1.0, 'none': None, 'list': [1], 'empty': (), 'bad': 'gamma', 'int': 3, 'empty segment': ('a', '')}.get(how)
    if field == 'release' and how == 'neg':
        bad = (1, neg)
    elif field == 'release' and how == 'str':
        bad = '1'
    elif field == 'local' and how == 'list':
        bad = ['a']
    elif field == 'local' and how == 'str':
        bad = 'a'
    elif field == 'local' and how == 'int':
        bad = (1,)
    elif field == 'local' and how == 'text':
        t = ctx.str('t', 2)
        ctx.assume(ctx.not_(ctx.all([ctx.any([ctx.all(['a' <= c, c <= 'z']), ctx.all(['A' <= c, c <= 'Z']), ctx.all(['0' <= c, c <= '9'])]) for c in t])))
        bad = (t,)
    if field == 'both':
        kw = dict(s='1.0', epoch=n)
    elif (field, how) == ('serial', 'final'):
        kw['release_level'] = 'final'
        kw['serial'] = ctx.int('serial', 1, 99)
    else:
        kw[field] = bad
    try:
        Version(**kw)
        ctx.fail('an invalid field is rejected')
    except ValueError:
        ctx.check(True, 'rejected with ValueError')
        ctx.reach('rejected')


SPELLED = {'a': 'alpha', 'alpha': 'alpha', 'b': 'beta', 'beta': 'beta', 'c': 'rc', 'rc': 'rc', 'pre': 'rc', 'preview': 'rc', 'final': 'final', None: 'final'}


@harness('V02', cases=lambda tier: [dict(sp=sp) for sp in SPELLED], bounds='every spelling of the release level as keyword; optional fields left out, None or an arbitrary number 0..9')
def spelled_keywords(ctx, sp):
    from big.version import Version
    level = SPELLED[sp]
    kw, full = dict(release=(ctx.int('r', 0, 9),)), {}
    for name in ('epoch', 'serial', 'post', 'dev'):
        if name == 'serial' and level == 'final':
            continue
        how = ctx.choice(name, ['absent', 'None', 'number'])
        full[name] = None
        if how == 'None':
            kw[name] = None
        elif how == 'number':
            kw[name] = full[name] = ctx.int(name + ' number', 0, 9)
    if sp is not None or ctx.bool('level given'):
        kw['release_level'] = sp
    v = Version(**kw)
    ctx.check_eq(v.release_level, level, 'release level')
    ctx.check_eq(v.release, kw['release'], 'release')
    ctx.check_eq(v.epoch or 0, full['epoch'] or 0, 'epoch')
    ctx.check_eq(v.serial or 0, full.get('serial') or 0, 'serial')
    ctx.check_eq(v.post, full['post'], 'post')
    ctx.check_eq(v.dev, full['dev'], 'dev')
    w = Version(str(v))
    ctx.check(v == w and hash(v) == hash(w), 'parsing str(v) gives an equal version')
    x = Version(**{**{k: (z or 0 if k in ('epoch', 'serial') else z) for k, z in full.items()}, 'release': kw['release'], 'release_level': level})
    ctx.check(v == x and hash(v) == hash(x), 'absent, None and zero numbers mean the same')
    ctx.check_eq(str(v), str(x), 'and give the same text')


class Info:
    """stands for sys.version_info, whose type cannot be instantiated"""
    def __init__(self, *f):
        self.major, self.minor, self.micro, self.releaselevel, self.serial = self.f = f

    def __iter__(self):
        return iter(self.f)

    def __getitem__(self, i):
        return self.f[i]

    def __len__(self):
        return 5


@harness('V02', cases=lambda tier: [dict(level=l) for l in ('alpha', 'beta', 'candidate', 'final')], bounds='sys.version_info objects of every release level with arbitrary numbers 0..120 (stand-in objects of the type sys.version_info had when big.version was loaded)')
def version_info(ctx, level):
    import importlib.util
    import sys
    import types
    f = [ctx.int(n, 0, 120) for n in ('major', 'minor', 'micro')]
    serial = ctx.int('serial', 0, 120) if level != 'final' else 0
    info = Info(*f, level, serial)
    spec = importlib.util.find_spec('big.version')
    m = importlib.util.module_from_spec(spec)
    real = sys.version_info
    sys.version_info = info
    try:
        spec.loader.exec_module(m)
    finally:
        sys.version_info = real
    v = m.Version(info)
    x = m.Version(release=tuple(f), release_level='rc' if level == 'candidate' else level, serial=serial)
    ctx.check(v == x and hash(v) == hash(x), 'the version of that Python')
    ctx.check_eq(str(v), str(x), 'and its text')
    ctx.check_eq((v.major, v.minor, v.micro), tuple(f), 'numbers')
    ctx.check_eq(v.release_level, 'rc' if level == 'candidate' else level, 'level')
    ctx.check_eq(v.serial or 0, serial, 'serial')


def _fields_cases(tier):
    out = []
    for l in LEVELS:
        for p in (0, 1):
            for d in (0, 1):
                for rl in ((1, 3) if tier == 'quick' else (1, 2, 3, 4)):
                    for loc in ('none', 'a.1', 'A'):
                        out.append(dict(shape=[l, p, d], rl=rl, loc=loc, hi=120 if rl == 1 or (tier != 'quick' and rl == 2) else 9))
    return out


@harness('V02', cases=_fields_cases, bounds='keyword-constructed versions, numeric fields 0..9 (0..120 for one-component releases; thorough also two); release of 1 or 3 components (thorough 1-4)')
def string_round_trip(ctx, shape, rl, loc, hi):
    from big.version import Version
    v, f = make(ctx, 'v', rl, shape, loc, hi)
    s = str(v)
    w = Version(s)
    ctx.check(v == w, 'parsing str(v) gives an equal version')
    ctx.check(hash(v) == hash(w), 'and an equal hash')
    ctx.check_eq(str(w), s, 'the string form is a fixed point')
    ctx.check_eq(repr(v), "Version('" + s + "')", 'repr')
    rel = strip_zeros(f.release)
    ctx.check_eq(w.release, tuple(rel), 'release, trailing zeroes stripped')
    ctx.check_eq(v.release, tuple(rel), 'release, trailing zeroes stripped')
    ctx.check_eq(w.major, rel[0], 'major')
    ctx.check_eq(w.minor, rel[1] if len(rel) > 1 else 0, 'minor')
    ctx.check_eq(w.micro, rel[2] if len(rel) > 2 else 0, 'micro')
    ctx.check_eq(w.epoch or 0, f.epoch, 'epoch')
    ctx.check_eq(w.release_level, f.level, 'release_level')
    ctx.check_eq(w.serial or 0, f.serial or 0, 'serial')
    ctx.check_eq(w.post, f.post, 'post')
    ctx.check_eq(w.dev, f.dev, 'dev')
    want = None if LOCALS[loc] is None else tuple(x.lower() for x in LOCALS[loc])
    ctx.check_eq(w.local, want, 'local')
    ctx.observe('s', s)


PRE = {'a': 'alpha', 'b': 'beta', 'c': 'rc', 'rc': 'rc', 'alpha': 'alpha', 'beta': 'beta', 'pre': 'rc', 'preview': 'rc'}
DIG = '0123456789'


def anycase(ctx, name, word):
    """word with every letter in either case"""
    out = ''
    for i, c in enumerate(word):
        out = out + ctx.str(f'{name}{i}', 1, c + c.upper())
    return out


def _tmpl_cases(tier):
    out = []
    for pre in [None] + sorted(PRE):
        for seps in ('00', '10', '01', '11') if pre else ('00',):
            for num in (0, 1, 2) if pre else (0,):
                out.append(dict(pre=pre, seps=seps, pren=num, post=None, dev=None, epoch=0, local=0))
    for post in ('post', 'rev', 'r', '-'):
        for seps in ('00', '11', '10') if post != '-' else ('00',):
            for n in (0, 1, 2) if post != '-' else (1, 2):
                for dev in (None, 0, 1):
                    out.append(dict(pre=None, seps='00', pren=0, post=[post, seps, n], dev=dev, epoch=0, local=0))
    for dev in (0, 1, 2):
        for epoch in (0, 1, 2):
            out.append(dict(pre='rc', seps='00', pren=1, post=None, dev=dev, epoch=epoch, local=0))
    for local in (1, 2, 3):
        out.append(dict(pre=None, seps='00', pren=0, post=None, dev=None, epoch=0, local=local))
    out.append(dict(pre='beta', seps='11', pren=1, post=['post', '11', 1], dev=1, epoch=1, local=1, decor=0))
    for n in (1, 2):
        out.append(dict(pre=None, seps='00', pren=0, post=None, dev=n, epoch=0, local=0, sep6=1))
    if tier == 'thorough':
        for pre in sorted(PRE):
            for post in ('post', 'rev', 'r'):
                out.append(dict(pre=pre, seps='11', pren=1, post=[post, '11', 1], dev=1, epoch=1, local=1, decor=0))
        out.append(dict(pre='beta', seps='11', pren=1, post=['post', '11', 1], dev=1, epoch=1, local=2))
    return out


@harness('V03', cases=_tmpl_cases, bounds='version strings assembled from the PEP 440 grammar: arbitrary digits (numbers of 1-2 digits), every letter in either case, '
         'every optional separator, surrounding whitespace, all label spellings, local versions of up to 3 arbitrary segment characters')
def parse_template(ctx, pre, seps, pren, post, dev, epoch, local, decor=1, sep6=0):
    from big.version import Version

    def num(name, n):
        s = ctx.str(name, n, DIG)
        return s, int(s)

    def sep(name, flag):
        return ctx.str(name, 1, '-_.') if flag else ''
    s = ctx.choice('lead', ['', ' ', 'v', '\tV']) if decor else ''
    want_epoch = 0
    if epoch:
        t, want_epoch = num('epoch', epoch)
        s = s + t + '!'
    t1, r1 = num('r1', 1)
    t2, r2 = num('r2', 2)
    s = s + t1 + '.' + t2
    rel = strip_zeros((r1, r2))
    level, serial = 'final', 0
    if pre:
        level = PRE[pre]
        s = s + sep('s1', seps[0] == '1') + anycase(ctx, 'pre', pre)
        if pren:
            t, serial = num('pren', pren)
            s = s + sep('s2', seps[1] == '1') + t
    want_post = None
    if post:
        kind, ps, pn = post
        if kind == '-':
            t, want_post = num('postn', pn)
            s = s + '-' + t
        else:
            s = s + sep('s3', ps[0] == '1') + anycase(ctx, 'post', kind)
            want_post = 0
            if pn:
                t, want_post = num('postn', pn)
                s = s + sep('s4', ps[1] == '1') + t
    want_dev = None
    if dev is not None:
        s = s + (ctx.choice('s5', ['', '.', '-', '_']) if decor else '.') + anycase(ctx, 'dev', 'dev')
        want_dev = 0
        if dev:
            t, want_dev = num('devn', dev)
            s = s + sep('s6', sep6) + t
    want_local = None
    if local:
        seg = ctx.str('local', local, 'aZ07')
        s = s + '+' + seg + (ctx.choice('loc2', ['', '.x', '-9', '_Q']) if decor else '-9')
        want_local = True
    s = s + (ctx.choice('trail', ['', '  \n']) if decor else '')
    v = Version(s)
    ctx.check_eq(v.epoch or 0, want_epoch, 'epoch')
    ctx.check_eq(v.release, tuple(rel), 'release')
    ctx.check_eq(v.release_level, level, 'release level')
    ctx.check_eq(v.serial or 0, serial, 'serial')
    ctx.check_eq(v.post, want_post, 'post')
    ctx.check_eq(v.dev, want_dev, 'dev')
    w = Version(str(v))
    ctx.check(v == w, 'str() round trip')
    if local:
        ctx.check(v.local is not None and len(v.local) in (1, 2), 'local')
        ctx.check_eq('.'.join(v.local), (s.strip().lower().replace('-', '.').replace('_', '.').split('+'))[1], 'local text')
    ctx.observe('v', str(v))


def _free_cases(tier):
    out = [dict(n=n, pre=p, post=q) for p, q in (('', ''), ('1', ''), ('1.0', ''), ('1.0a', ''), ('1+', ''), ('1.', ''), ('1!', ''), ('1.0prev', 'ew'), ('1po', 't'))
           for n in range(0, (3 if p == '' else 2) + 1)]
    if tier == 'thorough':
        out += [dict(n=4, pre='', post=''), dict(n=3, pre='1', post=''), dict(n=3, pre='1.0a', post=''), dict(n=3, pre='1+', post=''), dict(n=4, pre='1', post='')]
    return out


@harness('V03', cases=_free_cases, bounds='completely arbitrary Unicode strings of up to 3 characters (thorough 4), alone or after the prefixes 1, 1.0, 1.0a, 1+, 1., 1!')
def parse_arbitrary(ctx, n, pre, post):
    from big.version import Version
    t = ctx.str('t', n)
    s = pre + t + post
    try:
        v = Version(s)
    except ValueError:
        ctx.check(True, 'rejected with ValueError')
        ctx.reach('rejected')
        return
    ctx.reach('accepted')
    out = str(v)
    w = Version(out)
    ctx.check(v == w, 'accepted text round-trips')
    ctx.check(hash(v) == hash(w), 'and hashes equally')
    ctx.check_eq(str(w), out, 'string form is a fixed point')
    ctx.check(out.isascii(), 'normal form is ASCII')
    ctx.observe('v', out)


def _ci(word):
    return ''.join(f'[{c}{c.upper()}]' for c in word)


# the grammar of PEP 440, written down independently; labels in either case
GRAMMAR = (r'\s*[vV]?(?:([0-9]+)!)?([0-9]+(?:\.[0-9]+)*)'
           r'(?:[-_.]?(' + '|'.join(map(_ci, ('preview', 'alpha', 'beta', 'pre', 'rc', 'a', 'b', 'c'))) + r')[-_.]?([0-9]*))?'
           r'(?:-([0-9]+)|[-_.]?(' + '|'.join(map(_ci, ('post', 'rev', 'r'))) + r')[-_.]?([0-9]*))?'
           r'(?:[-_.]?(' + _ci('dev') + r')[-_.]?([0-9]*))?'
           r'(?:\+([a-zA-Z0-9]+(?:[-_.][a-zA-Z0-9]+)*))?\s*')

GRAMMAR_TEMPLATES = ['1□□', '1.0□□', '1a□□', '1.0dev□□', '1post□□', '1□post□1', '1□dev□1', '1.0rc□1□', '1+a□□', '1□rev□2', '1□alpha□1', '□1□', '1□□1', '1!□', '1!□1', '1.0-1□□', '□v1', 'v□1', '1-pre□2', '1+□.□',
                     '1b1-□.dev□', '1a□post□dev', '1.dev1□□', '1.post1□□', '1r□dev', '1+1□a', '1.□.1', '1□0□0', '1.0+□', '□□1.0', '1.0□ ', '1c□1', '1.0□preview', '1rev□-1', '1-□-1']


@harness('V03', cases=lambda tier: [dict(t=t) for t in GRAMMAR_TEMPLATES + ['□□□', '1□□□', '1.0□□□', '1a□□□', '1dev□□□', '1post□□□', '1+□□□', '1□□□1'] + (['□□□□', '1□□□□', '1.0□□□□', '1a□□□□', '1dev□□□□', '1□□□□1', '□1□□□'] if tier != 'quick' else [])],
         bounds='43 (thorough 50) forms with one to three (thorough four) arbitrary characters in any place: accepted exactly when an independently written grammar accepts, with the fields it gives')
def grammar(ctx, t):
    import re
    from big.version import Version
    s = ''
    for i, c in enumerate(t):
        s = s + (ctx.str(f'c{i}', 1) if c == '□' else c)
    m = re.fullmatch(GRAMMAR, s)
    try:
        v = Version(s)
    except ValueError:
        ctx.check(not m, 'every text of the grammar is accepted', lambda: s)
        ctx.reach('rejected')
        return
    ctx.check(bool(m), 'no other text is', lambda: s)
    epoch, release, pre, serial, post1, post, post2, dev, devn, local = m.groups()
    ctx.check_eq(v.epoch or 0, int(epoch) if epoch else 0, 'epoch')
    ctx.check_eq(v.release, tuple(strip_zeros([int(x) for x in release.split('.')])), 'release')
    ctx.check(v.release_level == (PRE[pre.lower()] if pre else 'final'), 'release level', lambda: (s, v.release_level))
    ctx.check_eq(v.serial or 0, int(serial) if serial else 0, 'serial')
    want = int(post1) if post1 else ((int(post2) if post2 else 0) if post else None)
    ctx.check_eq(v.post, want, 'post')
    ctx.check_eq(v.dev, (int(devn) if devn else 0) if dev else None, 'dev')
    if local:
        ctx.check_eq('.'.join(v.local), local.lower().replace('-', '.').replace('_', '.'), 'local')
    else:
        ctx.check(v.local is None, 'no local part')
    ctx.reach('accepted')


@harness('V01', cases=lambda tier: [dict(other=o) for o in ('None', 'int', 'text', 'tuple', 'object', 'float', 'sysinfo')],
         bounds='a version of one arbitrary number compared with six other kinds of objects, in both orders, and with an instance of a subclass')
def strangers(ctx, other):
    import operator
    import sys
    from big.version import Version
    n = ctx.int('n', 0, 10 ** 6)
    v = Version(release=(n,), release_level=ctx.choice('level', [None, 'rc']), post=ctx.choice('post', [None, 0]))
    o = {'None': None, 'int': n, 'text': '1.0', 'tuple': (n,), 'object': object(), 'float': 1.0, 'sysinfo': sys.version_info}[other]
    ctx.check(not (v == o) and not (o == v), 'a version equals no other kind of object')
    ctx.check(v != o and o != v, 'and differs from it')
    for op in (operator.lt, operator.gt, operator.le, operator.ge):
        for x, y in ((v, o), (o, v)):
            try:
                op(x, y)
                ctx.fail('other kinds of objects cannot be ordered with a version')
            except TypeError:
                pass

    class Sub(Version):
        pass
    m = ctx.int('m', 0, 10 ** 6)
    w = Sub(release=(m,), release_level=v.release_level, post=v.post)
    ctx.check((v == w) == (n == m) and (w == v) == (n == m), 'an instance of a subclass is compared as a version')
    ctx.check((v < w) == (n < m) and (w < v) == (m < n) and (v > w) == (n > m) and (w <= v) == (m <= n), 'and ordered as one')
    ctx.check(not (n == m) or hash(v) == hash(w), 'and hashed as one')
    for name in ('epoch', 'release', 'major', 'minor', 'micro', 'release_level', 'releaselevel', 'serial', 'post', 'dev', 'local'):
        try:
            setattr(v, name, n)
            ctx.fail('a version cannot be changed')
        except AttributeError:
            pass
    ctx.reach(other)
