"""Interned integer interval sets (used as character domains)."""
import bisect

MAXCP = 0x10FFFF


class ISet:
    __slots__ = ('iv', 'size', '_starts', '_hash', 'uid')
    _table = {}

    def __new__(cls, iv):
        iv = tuple(iv)
        self = cls._table.get(iv)
        if self is not None:
            return self
        self = object.__new__(cls)
        self.iv = iv
        self.size = sum(b - a + 1 for a, b in iv)
        self._starts = [a for a, b in iv]
        self.uid = len(cls._table)
        cls._table[iv] = self
        return self

    def __contains__(self, n):
        i = bisect.bisect_right(self._starts, n) - 1
        return i >= 0 and self.iv[i][1] >= n

    def __iter__(self):
        for a, b in self.iv:
            yield from range(a, b + 1)

    def __repr__(self):
        return 'ISet(' + ','.join(f'{a:#x}' if a == b else f'{a:#x}-{b:#x}' for a, b in self.iv[:8]) + ('...' if len(self.iv) > 8 else '') + ')'

    def first(self):
        return self.iv[0][0]

    def __bool__(self):
        return bool(self.iv)


EMPTY = ISet(())
ALL = ISet(((0, MAXCP),))
ALLBYTES = ISet(((0, 255),))
_INF = 1 << 200


def from_values(vals):
    vals = sorted(set(vals))
    iv = []
    for v in vals:
        if iv and iv[-1][1] == v - 1:
            iv[-1][1] = v
        else:
            iv.append([v, v])
    return ISet(tuple(x) for x in iv)


def from_ranges(rs):
    rs = sorted((a, b) for a, b in rs if a <= b)
    iv = []
    for a, b in rs:
        if iv and a <= iv[-1][1] + 1:
            iv[-1][1] = max(iv[-1][1], b)
        else:
            iv.append([a, b])
    return ISet(tuple(x) for x in iv)


_single = {}


def single(n):
    s = _single.get(n)
    if s is None:
        s = _single[n] = ISet(((n, n),))
    return s


_icache = {}


def inter(a, b):
    if a is b:
        return a
    if a is ALL:
        return b
    if b is ALL:
        return a
    k = (a.uid, b.uid)
    r = _icache.get(k)
    if r is not None:
        return r
    out = []
    i = j = 0
    A = a.iv
    B = b.iv
    while i < len(A) and j < len(B):
        lo = A[i][0] if A[i][0] > B[j][0] else B[j][0]
        if A[i][1] < B[j][1]:
            hi = A[i][1]
            i += 1
        else:
            hi = B[j][1]
            j += 1
        if lo <= hi:
            out.append((lo, hi))
    r = ISet(out)
    _icache[k] = r
    _icache[(b.uid, a.uid)] = r
    return r


_mcache = {}


def minus(a, b):
    if a is b:
        return EMPTY
    k = (a.uid, b.uid)
    r = _mcache.get(k)
    if r is not None:
        return r
    out = []
    B = b.iv
    j = 0
    for lo, hi in a.iv:
        while j < len(B) and B[j][1] < lo:
            j += 1
        cur = lo
        t = j
        while t < len(B) and B[t][0] <= hi:
            if B[t][0] > cur:
                out.append((cur, B[t][0] - 1))
            cur = B[t][1] + 1
            t += 1
        if cur <= hi:
            out.append((cur, hi))
    r = ISet(out)
    _mcache[k] = r
    return r


_ucache = {}


def union(a, b):
    if a is b:
        return a
    k = (a.uid, b.uid)
    r = _ucache.get(k)
    if r is None:
        r = _ucache[k] = from_ranges(a.iv + b.iv)
    return r


def complement(a, universe=ALL):
    return minus(universe, a)


_predcache = {}


def pred_set(name, fn, bytes_=False):
    """The set of code points (or byte values) for which fn(1-char string) holds; computed
    by running the real predicate over the whole alphabet, once per process."""
    k = (name, bytes_)
    r = _predcache.get(k)
    if r is None:
        if bytes_:
            r = from_values(i for i in range(256) if fn(bytes([i])))
        else:
            r = from_values(i for i in range(MAXCP + 1) if fn(chr(i)))
        _predcache[k] = r
    return r
