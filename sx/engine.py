"""Path-exploring symbolic execution engine.

A path is a deterministic re-execution of the harness; every place where a symbolic truth
value is needed calls Engine.branch, which consults / extends the decision trail.  Feasibility of
pure character-class decisions is decided by exact interval-domain reasoning, everything else (integers,
relations between characters, and every assertion verdict) by z3.
"""
import time
import z3

from . import iset as I


class Control(BaseException):
    """Engine control flow; must never be swallowed by code under test."""


class Unsupported(Control):
    pass


class PathTimeout(Control):
    pass


class Infeasible(Control):
    """ctx.assume failed / path condition unsatisfiable."""


class Violation(Control):
    def __init__(self, label, model, detail=None):
        super().__init__(label)
        self.label = label
        self.model = model
        self.detail = detail


class Stop(Control):
    """Deadline."""


class Ch:
    """A symbolic character (code point) variable."""
    __slots__ = ('id', 'name')

    def __init__(self, id, name):
        self.id = id
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


# ---- formulas -------------------------------------------------------------------------

class F:
    __slots__ = ()


class FIn(F):
    __slots__ = ('cv', 'set')

    def __init__(self, cv, s):
        self.cv = cv
        self.set = s

    def __repr__(self):
        return f'{self.cv} in {self.set}'


class FEq(F):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __repr__(self):
        return f'{self.a}=={self.b}'


class FZ(F):
    __slots__ = ('e', 'cvs')

    def __init__(self, e, cvs=frozenset()):
        self.e = e
        self.cvs = cvs

    def __repr__(self):
        return f'Z({self.e})'


class FD(F):
    """x - y <= c over integer variables (variable index, None = 0)"""
    __slots__ = ('x', 'y', 'c')

    def __init__(self, x, y, c):
        self.x = x
        self.y = y
        self.c = c

    def __repr__(self):
        return f'n{self.x}-n{self.y}<={self.c}'


class FDE(F):
    """x - y == c"""
    __slots__ = ('x', 'y', 'c')

    def __init__(self, x, y, c):
        self.x = x
        self.y = y
        self.c = c

    def __repr__(self):
        return f'n{self.x}-n{self.y}=={self.c}'


class FNot(F):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f'!({self.f})'


class FAnd(F):
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = fs

    def __repr__(self):
        return '(' + ' & '.join(map(repr, self.fs)) + ')'


class FOr(F):
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = fs

    def __repr__(self):
        return '(' + ' | '.join(map(repr, self.fs)) + ')'


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if isinstance(f, FNot):
        return f.f
    return FNot(f)


def f_and(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return FAnd(tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return FOr(tuple(out))


class Entry:
    __slots__ = ('kind', 'choice', 'open', 'value', 'z', 'forced')

    def __init__(self, kind, choice, open_=(), value=None, z=None, forced=False):
        self.kind = kind
        self.choice = choice
        self.open = open_
        self.value = value
        self.z = z
        self.forced = forced


class Stats:
    FIELDS = ('paths', 'infeasible', 'branches', 'forks', 'queries', 'sat', 'unsat', 'unknown',
              'checks', 'checks_trivial', 'checks_solver', 'unsupported', 'timeouts', 'steps')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_time = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_time'] = self.solver_time
        return d


class Engine:
    current = None

    def __init__(self, query_timeout_ms=4000, max_steps=400000):
        self.stats = Stats()
        self.max_steps = max_steps
        self.qt = query_timeout_ms
        self.trail = []
        self.zcache = {}
        self._new_solver()
        self.reset_path()

    def _new_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.qt)
        self.solver.set('random_seed', 1)
        self.synced = 0

    # ---- per-path state -----------------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.nch = 0
        self.nint = 0
        self.dom = []
        self.parent = []
        self.neq = []          # list of (id,id)
        self.entangled = set()
        self.intnames = []
        self.dbm = [[0]]       # difference bounds; node 0 is the constant 0, node i+1 is integer variable i
        self.facts = {}
        self.defined = False
        self.keep = []
        self.impure = False    # integer constraints outside the difference-bound matrix exist
        self.model = None
        self.steps = 0
        self.symkeys = False   # any container has symbolic keys
        self.hash_ok = 0
        self.hash_ok_once = 0
        self.hash_src = {}
        self.inputs = []
        self.observed = []
        self.nobj = 0
        self.unknown_hit = False
        self.notes = []
        self.scratch = {}

    def start_path(self, prefix=None):
        if prefix is not None:
            self.set_prefix(prefix)
        self.reset_path()

    def set_prefix(self, prefix):
        self._pop_to(0)
        self.trail = [Entry(None, c, (), v, None, True) for c, v in prefix]

    def _pop_to(self, n):
        if self.synced > n:
            self.solver.pop(self.synced - n)
            self.synced = n

    def backtrack(self):
        """Move to the next open alternative; False when exhausted."""
        t = self.trail
        while t:
            e = t[-1]
            if e.open:
                self._pop_to(len(t) - 1)
                c = e.open[0]
                e.choice, e.open = c, e.open[1:]
                e.z = None
                e.kind = None
                return True
            self._pop_to(len(t) - 1)
            t.pop()
        return False

    def export_open(self):
        """All open alternatives as prefixes (shallowest first)."""
        out = []
        pre = []
        for e in self.trail:
            for c in e.open:
                out.append(pre + [(c, e.value)])
            pre.append((e.choice, e.value))
        return out

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathTimeout('step limit')

    # ---- variables ------------------------------------------------------------------
    def new_char(self, dom=I.ALL, name=None):
        i = self.nch
        self.nch += 1
        cv = Ch(i, name or f'c{i}')
        self.dom.append(dom)
        self.parent.append(i)
        self.model = None
        self._assume_entry(('in', i, dom))
        return cv

    def new_int(self, name=None):
        i = self.nint
        self.nint += 1
        self.intnames.append(name or f'n{i}')
        for row in self.dbm:
            row.append(None)
        self.dbm.append([None] * (i + 1) + [0])
        return i

    def zint(self, i):
        k = ('n', self.intnames[i])
        r = self.zcache.get(k)
        if r is None:
            r = self.zcache[k] = z3.Int(self.intnames[i])
        return r

    # difference bounds ---------------------------------------------------------------
    def dbm_add(self, x, y, c):
        """x - y <= c (node numbers)"""
        d = self.dbm
        old = d[x][y]
        if old is not None and old <= c:
            return
        n = len(d)
        dy = d[y]
        cols = [(b, dy[b]) for b in range(n) if dy[b] is not None]
        for a in range(n):
            ra = d[a]
            ax = ra[x]
            if ax is None:
                continue
            base = ax + c
            for b, yb in cols:
                v = base + yb
                o = ra[b]
                if o is None or v < o:
                    ra[b] = v

    def dbm_le(self, x, y, c):
        """True / False when x - y <= c is implied / refuted, else None"""
        d = self.dbm
        v = d[x][y]
        if v is not None and v <= c:
            return True
        w = d[y][x]
        if w is not None and w <= -c - 1:
            return False
        return None

    def zchar(self, i):
        k = ('c', i)
        r = self.zcache.get(k)
        if r is None:
            r = self.zcache[k] = z3.Int(f'c{i}')
        return r

    def root(self, i):
        p = self.parent
        while p[i] != i:
            i = p[i]
        return i

    def domain(self, cv):
        return self.dom[self.root(cv.id)]

    # ---- z3 conversion ----------------------------------------------------------------
    def z_in(self, i, s):
        k = (i, s.uid)
        r = self.zcache.get(k)
        if r is None:
            c = self.zchar(i)
            if not s.iv:
                r = z3.BoolVal(False)
            else:
                parts = []
                for a, b in s.iv:
                    if a == b:
                        parts.append(c == a)
                    else:
                        parts.append(z3.And(c >= a, c <= b))
                r = parts[0] if len(parts) == 1 else z3.Or(parts)
            self.zcache[k] = r
        return r

    def to_z3(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        t = type(f)
        if t is FIn:
            s = f.set
            u = I.minus(I.ALL, s)
            if len(u.iv) < len(s.iv):
                return z3.Not(self.z_in(f.cv.id, u))
            return self.z_in(f.cv.id, s)
        if t is FEq:
            return self.zchar(f.a.id) == self.zchar(f.b.id)
        if t is FZ:
            return f.e
        if t is FD or t is FDE:
            k = (t, f.x if f.x is None else self.intnames[f.x], f.y if f.y is None else self.intnames[f.y], f.c)
            r = self.zcache.get(k)
            if r is None:
                if f.y is None:
                    l, r = self.zint(f.x), z3.IntVal(f.c)
                elif f.x is None:
                    l, r = -self.zint(f.y), z3.IntVal(f.c)
                else:
                    l = self.zint(f.x)
                    r = self.zint(f.y) + f.c if f.c else self.zint(f.y)
                r = self.zcache[k] = (l <= r) if t is FD else (l == r)
            return r
        if t is FNot:
            return z3.Not(self.to_z3(f.f))
        if t is FAnd:
            return z3.And([self.to_z3(x) for x in f.fs])
        if t is FOr:
            return z3.Or([self.to_z3(x) for x in f.fs])
        raise AssertionError(f)

    def _sync(self):
        t = self.trail
        n = self.pos
        while self.synced < n:
            e = t[self.synced]
            self.solver.push()
            k = e.kind
            if k is None:
                raise AssertionError('trail entry without kind')
            if k[0] == 'in':
                i, s = k[1], k[2]
                u = I.minus(I.ALL, s)
                if s is not I.ALL:
                    if len(u.iv) < len(s.iv):
                        self.solver.add(z3.Not(self.z_in(i, u)))
                        self.solver.add(self.zchar(i) >= 0, self.zchar(i) <= I.MAXCP)
                    else:
                        self.solver.add(self.z_in(i, s))
                else:
                    self.solver.add(self.zchar(i) >= 0, self.zchar(i) <= I.MAXCP)
            elif k[0] == 'f':
                z = self.to_z3(k[1])
                if e.choice == 1:
                    z = z3.Not(z)
                self.solver.add(z)
            elif k[0] == 'choice':
                pass
            self.synced += 1

    def _check(self, *extra):
        self._sync()
        st = self.stats
        st.queries += 1
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        st.solver_time += time.perf_counter() - t0
        if r == z3.sat:
            st.sat += 1
            return 'sat'
        if r == z3.unsat:
            st.unsat += 1
            return 'unsat'
        st.unknown += 1
        return 'unknown'

    # ---- trail ---------------------------------------------------------------------------
    def _assume_entry(self, kind):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            e.kind = kind
            if e.choice != 'a':
                raise RuntimeError('nondeterministic harness (assume entry mismatch)')
        else:
            self.trail.append(Entry(kind, 'a'))
        self.pos += 1

    def choose(self, n, label='choice'):
        """n-way structural choice."""
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            e.kind = ('choice',)
            if not isinstance(e.choice, int) or not (0 <= e.choice < n):
                raise RuntimeError('nondeterministic harness (choice mismatch)')
        else:
            e = Entry(('choice',), 0, tuple(range(1, n)))
            self.trail.append(e)
            self.stats.forks += n - 1
        self.pos += 1
        return e.choice

    # ---- simplification under the current domains ---------------------------------------
    def simplify(self, f):
        if f is True or f is False:
            return f
        t = type(f)
        if t is FIn:
            d = self.dom[self.root(f.cv.id)]
            r = I.inter(d, f.set)
            if r is d:
                return True
            if not r.iv:
                return False
            return f
        if t is FEq:
            a, b = self.root(f.a.id), self.root(f.b.id)
            if a == b:
                return True
            da, db = self.dom[a], self.dom[b]
            r = I.inter(da, db)
            if not r.iv:
                return False
            if da.size == 1:
                return self.simplify(FIn(f.b, da))
            if db.size == 1:
                return self.simplify(FIn(f.a, db))
            for x, y in self.neq:
                x, y = self.root(x), self.root(y)
                if (x, y) == (a, b) or (x, y) == (b, a):
                    return False
            return f
        if t is FD:
            r = self.dbm_le(0 if f.x is None else f.x + 1, 0 if f.y is None else f.y + 1, f.c)
            return f if r is None else r
        if t is FDE:
            x, y = 0 if f.x is None else f.x + 1, 0 if f.y is None else f.y + 1
            a = self.dbm_le(x, y, f.c)
            if a is False:
                return False
            b = self.dbm_le(y, x, -f.c)
            if b is False:
                return False
            return True if a and b else f
        if t is FZ:
            r = self.facts.get(f.e.get_id())
            return f if r is None else r
        if t is FNot:
            return f_not(self.simplify(f.f))
        if t is FAnd:
            out = []
            for x in f.fs:
                x = self.simplify(x)
                if x is False:
                    return False
                if x is not True:
                    out.append(x)
            return f_and(out)
        if t is FOr:
            out = []
            for x in f.fs:
                x = self.simplify(x)
                if x is True:
                    return True
                if x is not False:
                    out.append(x)
            return f_or(out)
        raise AssertionError(f)

    # ---- applying a literal to the path state --------------------------------------------
    def _apply(self, f, val):
        """f atomic (FIn, FEq, FZ)."""
        t = type(f)
        if (t is FIn and self.root(f.cv.id) in self.entangled or
                t is FEq and (self.root(f.a.id) in self.entangled or self.root(f.b.id) in self.entangled)):
            self.impure = True
        if t is FIn:
            r = self.root(f.cv.id)
            d = self.dom[r]
            self.dom[r] = I.inter(d, f.set) if val else I.minus(d, f.set)
            if self.dom[r].size == 1 and self.neq:
                self._propagate()
        elif t is FEq:
            a, b = self.root(f.a.id), self.root(f.b.id)
            if val:
                if a != b:
                    self.dom[a] = I.inter(self.dom[a], self.dom[b])
                    self.parent[b] = a
                    if b in self.entangled:
                        self.entangled.add(a)
            else:
                self.neq.append((a, b))
            if self.neq:
                self._propagate()
        elif t is FD:
            x, y = 0 if f.x is None else f.x + 1, 0 if f.y is None else f.y + 1
            if val:
                self.dbm_add(x, y, f.c)
            else:
                self.dbm_add(y, x, -f.c - 1)
        elif t is FDE:
            x, y = 0 if f.x is None else f.x + 1, 0 if f.y is None else f.y + 1
            if val:
                self.dbm_add(x, y, f.c)
                self.dbm_add(y, x, -f.c)
            else:
                # tighten when one side is already a bound
                if self.dbm[x][y] == f.c:
                    self.dbm_add(x, y, f.c - 1)
                elif self.dbm[y][x] == -f.c:
                    self.dbm_add(y, x, -f.c - 1)
                else:
                    self.impure = True
        else:
            self.facts[f.e.get_id()] = val
            self.keep.append(f.e)
            self.impure = True
            for c in f.cvs:
                self.entangled.add(self.root(c))
        m = self.model
        if m is not None:
            if not self._model_ok(m, f, val):
                self.model = None

    def _propagate(self):
        changed = True
        while changed:
            changed = False
            for x, y in self.neq:
                x, y = self.root(x), self.root(y)
                for p, q in ((x, y), (y, x)):
                    if self.dom[p].size == 1:
                        nd = I.minus(self.dom[q], self.dom[p])
                        if nd is not self.dom[q]:
                            self.dom[q] = nd
                            if nd.size <= 1:
                                changed = True

    def _model_ok(self, m, f, val):
        z = self.to_z3(f)
        r = m.eval(z, model_completion=True)
        if z3.is_true(r):
            return val
        if z3.is_false(r):
            return not val
        return False

    def _char_feasible(self, f, val):
        """Exact feasibility for FIn/FEq literals in the pure char theory; None when z3 is needed."""
        t = type(f)
        if t is FIn:
            r = self.root(f.cv.id)
            if r in self.entangled:
                return None
            d = self.dom[r]
            nd = I.inter(d, f.set) if val else I.minus(d, f.set)
            if not nd.iv:
                return False
            deg = 0
            for x, y in self.neq:
                if self.root(x) == r or self.root(y) == r:
                    deg += 1
            if nd.size > deg:
                return True
            return None
        if t is FEq:
            a, b = self.root(f.a.id), self.root(f.b.id)
            if a in self.entangled or b in self.entangled:
                return None
            if val:
                d = I.inter(self.dom[a], self.dom[b])
                if not d.iv:
                    return False
                deg = 0
                for x, y in self.neq:
                    x, y = self.root(x), self.root(y)
                    if x in (a, b) or y in (a, b):
                        deg += 1
                if d.size > deg:
                    return True
                return None
            else:
                da, db = self.dom[a], self.dom[b]
                deg = [1, 1]
                for x, y in self.neq:
                    x, y = self.root(x), self.root(y)
                    if x == a or y == a:
                        deg[0] += 1
                    if x == b or y == b:
                        deg[1] += 1
                if da.size > deg[0] and db.size > deg[1]:
                    return True
                return None
        return None

    def _feasible(self, f, val):
        t = type(f)
        if t is FIn or t is FEq:
            r = self._char_feasible(f, val)
            if r is not None:
                return r
        elif (t is FD or t is FDE) and not self.impure:
            # neither implied nor refuted by a closed difference-bound matrix: both sides feasible
            return True
        m = self.model
        if m is not None and self._model_ok(m, f, val):
            return True
        z = self.to_z3(f)
        r = self._check(z if val else z3.Not(z))
        if r == 'sat':
            self._pending_model = (self.solver.model(), val)
            return True
        if r == 'unsat':
            return False
        self.unknown_hit = True
        return True

    # ---- branching --------------------------------------------------------------------------
    def branch(self, f):
        f = self.simplify(f)
        if f is True or f is False:
            return f
        t = type(f)
        if t is FNot:
            return not self.branch(f.f)
        if t is FAnd:
            if any(type(x) is FZ or (type(x) in (FNot, FAnd, FOr)) for x in f.fs) and not any(type(x) in (FD, FDE) for x in f.fs) and self._all_z(f):
                return self._decide(FZ(self.to_z3(f), self._cvs(f)))
            for x in f.fs:
                if not self.branch(x):
                    return False
            return True
        if t is FOr:
            if self._all_z(f) and not all(type(x) in (FD, FDE) for x in f.fs):
                return self._decide(FZ(self.to_z3(f), self._cvs(f)))
            m = self._merge_in(f)
            if m is not None:
                return self._decide(m)
            for x in f.fs:
                if self.branch(x):
                    return True
            return False
        return self._decide(f)

    def _merge_in(self, f):
        cv = None
        s = None
        for x in f.fs:
            if type(x) is not FIn:
                return None
            if cv is None:
                cv, s = x.cv, x.set
            elif x.cv is cv:
                s = I.union(s, x.set)
            else:
                return None
        return FIn(cv, s)

    def _all_z(self, f):
        t = type(f)
        if t is FZ or t is FD or t is FDE:
            return True
        if t is FNot:
            return self._all_z(f.f)
        if t in (FAnd, FOr):
            return all(self._all_z(x) for x in f.fs)
        return False

    def _cvs(self, f):
        t = type(f)
        if t is FZ:
            return f.cvs
        if t is FIn:
            return frozenset((f.cv.id,))
        if t is FEq:
            return frozenset((f.a.id, f.b.id))
        if t is FNot:
            return self._cvs(f.f)
        if t in (FAnd, FOr):
            r = frozenset()
            for x in f.fs:
                r |= self._cvs(x)
            return r
        return frozenset()

    def _decide(self, f):
        s = self.simplify(f)
        if s is True or s is False:
            return s
        f = s
        if type(f) is FIn:          # within what is known already the set is often much simpler
            d = I.inter(self.dom[self.root(f.cv.id)], f.set)
            if len(d.iv) < len(f.set.iv):
                f = FIn(f.cv, d)
        self.stats.branches += 1
        self.tick()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.choice not in (0, 1):
                raise RuntimeError('nondeterministic harness (branch mismatch)')
            e.kind = ('f', f)
            self.pos += 1
            val = e.choice == 0
            self._apply(f, val)
            return val
        self._pending_model = None
        ft = self._feasible(f, True)
        pm = self._pending_model
        if not ft:
            # implied false: record (so that replay needs no query) but no alternative
            self.trail.append(Entry(('f', f), 1))
            self.pos += 1
            self._apply(f, False)
            return False
        self._pending_model = None
        ff = self._feasible(f, False)
        if ff:
            self.stats.forks += 1
        self.trail.append(Entry(('f', f), 0, (1,) if ff else ()))
        self.pos += 1
        if pm is not None:
            self.model = pm[0]
        self._apply(f, True)
        return True

    def assume(self, f):
        """Restrict the path; Infeasible if impossible."""
        f = self.simplify(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        t = type(f)
        if t is FAnd:
            for x in f.fs:
                self.assume(x)
            return
        if t is FOr:
            m = self._merge_in(f)
            if m is not None:
                f, t = m, FIn
        if t is FNot and type(f.f) in (FIn, FEq, FD, FDE):
            lit, val = f.f, False
        elif t in (FIn, FEq, FD, FDE):
            lit, val = f, True
        else:
            lit, val = FZ(self.to_z3(f), self._cvs(f)), True
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            e.kind = ('f', lit)
            if e.choice not in (0, 1):
                raise RuntimeError('nondeterministic harness (assume mismatch)')
            self.pos += 1
            self._apply(lit, e.choice == 0)
            return
        self._pending_model = None
        if not self._feasible(lit, val):
            raise Infeasible()
        pm = self._pending_model
        self.trail.append(Entry(('f', lit), 0 if val else 1))
        self.pos += 1
        if pm is not None:
            self.model = pm[0]
        self._apply(lit, val)

    def define(self, f):
        """Record a definitional constraint (always satisfiable, whatever the values of the variables it
        defines fresh characters from): does not affect the feasibility of other decisions until one of
        the defined characters is itself constrained."""
        lit = FZ(self.to_z3(f), self._cvs(f))
        if self.pos < len(self.trail):
            self.trail[self.pos].kind = ('f', lit)
        else:
            self.trail.append(Entry(('f', lit), 0))
        self.pos += 1
        for c in lit.cvs:
            self.entangled.add(self.root(c))
        self.keep.append(lit.e)
        self.defined = True
        self.model = None

    def concretize(self, zexpr, cvs=frozenset(), limit=200):
        """Fork over every feasible value of an integer expression."""
        n = 0
        while True:
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                v = e.value
                if v is None:
                    raise RuntimeError('nondeterministic harness (concretize mismatch)')
                f = FZ(zexpr == v, cvs)
                e.kind = ('f', f)
                self.pos += 1
                ok = e.choice == 0
                self._apply(f, ok)
                if ok:
                    return v
                continue
            if self.model is None:
                r = self._check()
                if r == 'unsat':
                    raise Infeasible()
                if r != 'sat':
                    raise Unsupported('solver unknown while enumerating values')
                self.model = self.solver.model()
            v = self.model.eval(zexpr, model_completion=True).as_long()
            f = FZ(zexpr == v, cvs)
            n += 1
            if n > limit:
                raise Unsupported('value enumeration limit')
            r = self._check(zexpr != v)
            self.trail.append(Entry(('f', f), 0, (1,) if r != 'unsat' else (), v))
            if r != 'unsat':
                self.stats.forks += 1
            self.pos += 1
            self._apply(f, True)
            return v

    def pure(self):
        """path condition decided entirely by the built-in theories"""
        return not self.impure and not self.entangled and not self.unknown_hit

    # ---- verdicts ---------------------------------------------------------------------------
    def path_model(self):
        if self.model is not None:
            return self.model
        r = self._check()
        if r == 'sat':
            self.model = self.solver.model()
            return self.model
        if r == 'unsat':
            raise Infeasible()
        return None

    def check(self, f, label, detail=None):
        st = self.stats
        st.checks += 1
        f0 = f
        f = self.simplify(f)
        if f is True:
            st.checks_trivial += 1
            if f0 is not True and (st.checks_trivial < 100 or st.checks_trivial % 16 == 0):
                # decided by the built-in theories: cross-check with z3
                st.checks_solver += 1
                if self._check(z3.Not(self.to_z3(f0))) == 'sat':
                    raise AssertionError(f'decision procedures disagree on {f0}')
            return
        if f is False:
            m = self.path_model()
            raise Violation(label, m, detail)
        self.stats.checks_solver += 1
        z = self.to_z3(f)
        r = self._check(z3.Not(z))
        if r == 'sat':
            raise Violation(label, self.solver.model(), detail)
        if r == 'unknown':
            self.unknown_hit = True
