"""AST instrumentation of real Python source so that built-in operations dispatch on symbolic values.

Only operations that CPython performs inside C code without consulting the operands' Python-level
protocol are rewritten (calls, `in`, subscripts, f-strings, %, set/dict construction, bare excepts); arithmetic,
comparison and control flow run natively against the overloaded methods of the symbolic values.
"""
import ast
import builtins
import functools
import math
import importlib.abc
import importlib.util
import operator
import os
import re
import sys
import types

from . import engine as G
from . import symval as V
from . import symre as R
from . import iset as I
from .engine import Unsupported, Control
from .symval import (SymBool, SymInt, SymStr, SymBytes, SYMSET, has_sym, is_sym, mkstr, mkbytes, mkbool, f_and, f_or)

RAW_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}


def _const_expr(n):
    if isinstance(n, ast.Constant):
        return True
    if isinstance(n, ast.Tuple):
        return all(_const_expr(x) for x in n.elts)
    return False


def _pure(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


class Tx(ast.NodeTransformer):
    def call(self, name, *args, node):
        return ast.copy_location(
            ast.Call(ast.copy_location(ast.Name(name, ast.Load()), node), list(args), []), node)

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.body = [self.visit(x) for x in node.body]
        node.body = [y for x in node.body for y in (x if isinstance(x, list) else [x])]
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in RAW_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(ast.copy_location(ast.Name('__sx_call__', ast.Load()), node), [node.func] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self.call('__sx_in__', node.left, node.comparators[0], node=node)
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.copy_location(ast.UnaryOp(ast.Not(), r), node)
            return r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Constant) and isinstance(s.value, int):
                return node
            if isinstance(s, ast.Slice):
                none = lambda: ast.copy_location(ast.Constant(None), node)
                s = self.call('__sx_slice__', s.lower or none(), s.upper or none(), s.step or none(), node=node)
            return self.call('__sx_getitem__', node.value, s, node=node)
        if not isinstance(node.slice, (ast.Slice, ast.Constant)) and _pure(node.value):
            import copy
            base = copy.deepcopy(node.value)
            for x in ast.walk(base):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            node.slice = self.call('__sx_key2__' if getattr(node, '_aug', False) else '__sx_key__', base, node.slice, node=node)
        elif isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str) and _pure(node.value):
            import copy
            base = copy.deepcopy(node.value)
            for x in ast.walk(base):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            node.slice = self.call('__sx_key__', base, node.slice, node=node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.copy_location(ast.Constant(''), node)
                parts.append(ast.copy_location(ast.Tuple([val, ast.copy_location(ast.Constant(v.conversion), node), spec], ast.Load()), node))
        return self.call('__sx_fstr__', *parts, node=node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call('__sx_mod__', node.left, node.right, node=node)
        for k, n in ((ast.BitOr, '|'), (ast.BitAnd, '&'), (ast.Sub, '-'), (ast.BitXor, '^')):
            if isinstance(node.op, k):
                return self.call('__sx_setop__', ast.copy_location(ast.Constant(n), node), node.left, node.right, node=node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            node.target._aug = True
        self.generic_visit(node)
        if isinstance(node.target, (ast.Name, ast.Attribute)) and _pure(node.target):
            for k, n in ((ast.BitOr, '|'), (ast.BitAnd, '&'), (ast.Sub, '-'), (ast.BitXor, '^')):
                if isinstance(node.op, k):
                    import copy
                    load = copy.deepcopy(node.target)
                    load.ctx = ast.Load()
                    return ast.copy_location(ast.Assign(
                        [node.target], self.call('__sx_isetop__', ast.copy_location(ast.Constant(n), node), load, node.value, node=node)), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(_const_expr(x) for x in node.elts):
            return node
        return self.call('__sx_set__', ast.copy_location(ast.List(node.elts, ast.Load()), node), node=node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call('__sx_set__', ast.copy_location(ast.ListComp(node.elt, node.generators), node), node=node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        t = ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node)
        return self.call('__sx_dict__', ast.copy_location(ast.ListComp(t, node.generators), node), node=node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(_const_expr(k) for k in node.keys):
            return node
        items = [ast.copy_location(ast.Tuple([k, v], ast.Load()), node) for k, v in zip(node.keys, node.values)]
        return self.call('__sx_dict__', ast.copy_location(ast.List(items, ast.Load()), node), node=node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type
        names = []
        if t is None:
            names = ['*']
        elif isinstance(t, ast.Name):
            names = [t.id]
        elif isinstance(t, ast.Tuple):
            names = [x.id for x in t.elts if isinstance(x, ast.Name)]
        if t is None or 'BaseException' in names or not all(isinstance(x, ast.Name) for x in ([t] if not isinstance(t, ast.Tuple) else t.elts)):
            st = ast.copy_location(ast.Expr(self.call('__sx_reraise__', node=node)), node)
            node.body = [st] + node.body
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        st = ast.copy_location(ast.Expr(self.call('__sx_tick__', node=node)), node)
        node.body = [st] + node.body
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Tx().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


# ======================================================================================
# runtime support

def sx_tick():
    e = G.Engine.current
    if e is not None:
        e.tick()


def sx_reraise():
    t = sys.exc_info()[0]
    if t is not None and issubclass(t, Control):
        raise


def sx_slice(a, b, c):
    return slice(a, b, c)


def _canon_eq(a, b):
    """Are a and b the same dictionary key?  (forks)"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return all(_canon_eq(x, y) for x, y in zip(a, b))
    if ta in SYMSET or tb in SYMSET:
        return bool(a == b)
    if ta is tuple or tb is tuple:
        return False
    try:
        return bool(a == b)
    except Control:
        raise
    except Exception:
        return False


def _key_has_sym(k):
    return type(k) in SYMSET or (type(k) in (tuple, frozenset) and has_sym(k))


def canon_key(container, k):
    """Return the key of `container` equal to k if there is one (forking on equality), else k."""
    E = G.Engine.current
    if E is None:
        return k
    sk = _key_has_sym(k)
    if not sk and not E.symkeys:
        return k
    if not sk:
        try:
            if k in container:
                return k
        except Unsupported:
            raise
        except TypeError:
            return k
        for x in list(container):
            if _key_has_sym(x) and _canon_eq(x, k):
                return x
        return k
    if type(k) is SymBool:
        return bool(k)
    for x in list(container):
        if _canon_eq(x, k):
            return x
    E.symkeys = True
    return k


class _hashok:
    def __enter__(self):
        E = G.Engine.current
        if E is not None:
            E.hash_ok += 1

    def __exit__(self, *a):
        E = G.Engine.current
        if E is not None:
            E.hash_ok -= 1


hashok = _hashok()


def sx_key(container, k):
    """key for a store / delete / augmented subscript"""
    t = type(container)
    if isinstance(container, (dict,)):
        E = G.Engine.current
        if E is not None and (E.symkeys or _key_has_sym(k)):
            k2 = canon_key(container, k)
            if _key_has_sym(k2):
                return _allow(k2)
            return k2
    elif type(k) is SymInt and t in (list, bytearray):
        return k.__index__()
    return k


def sx_key2(container, k):
    """key of an augmented assignment: hashed for the load and for the store"""
    k = sx_key(container, k)
    E = G.Engine.current
    if E is not None and E.hash_ok_once:
        E.hash_ok_once *= 2
    return k


def _count_syms(k):
    if type(k) in SYMSET:
        return 1
    if type(k) is tuple:
        return sum(map(_count_syms, k))
    return 0


def _allow(k):
    # the native subscript that follows hashes k: permit it once
    G.Engine.current.hash_ok_once = _count_syms(k)
    return k


def sx_getitem(a, k):
    ta = type(a)
    if ta is list or ta is tuple:
        return a[k]
    if ta is str or ta is bytes:
        if type(k) is SymInt:
            return a[k.__index__()]
        return a[k]
    if isinstance(a, dict):
        E = G.Engine.current
        if E is not None and (E.symkeys or _key_has_sym(k)):
            k = canon_key(a, k)
            with hashok:
                return a[k]
    return a[k]


def sx_in(x, c):
    tc = type(c)
    if tc is str or tc is bytes:
        tx = type(x)
        if tx is SymStr or tx is SymBytes:
            if tc is str and tx is SymStr:
                return SymStr(tuple(map(ord, c))).__contains__(x)
            if tc is bytes and tx is SymBytes:
                return SymBytes(tuple(c)).__contains__(x)
            raise TypeError("'in <string>' requires string as left operand")
        if tx is SymInt and tc is bytes:
            return SymBytes(tuple(c)).__contains__(x)
        return x in c
    if tc in (dict, set, frozenset) or isinstance(c, (dict, set, frozenset, type({}.keys()))):
        E = G.Engine.current
        if E is not None and (E.symkeys or _key_has_sym(x)):
            if _key_has_sym(x) and type(x) in SYMSET and not E.symkeys:
                # membership in a set of concrete keys: one disjunction
                fs = []
                plain = True
                for y in c:
                    if type(y) in SYMSET or type(y) is tuple:
                        plain = False
                        break
                    if type(x) is SymStr and type(y) is not str or type(x) is SymBytes and type(y) is not bytes:
                        continue
                    r = x == y
                    fs.append(r.f if type(r) is SymBool else r)
                if plain and all(type(f) is bool or isinstance(f, G.F) for f in fs):
                    return mkbool(f_or(fs))
            k = canon_key(c, x)
            with hashok:
                return k in c
        return x in c
    return x in c


def sx_set(items):
    E = G.Engine.current
    if E is None or not (E.symkeys or any(_key_has_sym(x) for x in items)):
        return set(items)
    s = set()
    with hashok:
        for x in items:
            s.add(canon_key(s, x))
    return s


def sx_dict(items):
    E = G.Engine.current
    items = list(items)
    if E is None or not (E.symkeys or any(_key_has_sym(k) for k, v in items)):
        return dict(items)
    d = {}
    with hashok:
        for k, v in items:
            d[canon_key(d, k)] = v
    return d


_SETOPS = {'|': operator.or_, '&': operator.and_, '-': operator.sub, '^': operator.xor}
_ISETOPS = {'|': operator.ior, '&': operator.iand, '-': operator.isub, '^': operator.ixor}
_SETNAMES = {'|': 'union', '&': 'intersection', '-': 'difference', '^': 'symmetric_difference'}
_KV = (type({}.keys()), type({}.items()))


def _symset(x):
    for k in x:
        if _key_has_sym(k):
            return True
    return False


def sx_setop(op, a, b):
    ta = type(a)
    if ta is int or ta is SymInt:
        return _SETOPS[op](a, b)
    if isinstance(a, (set, frozenset) + _KV) and isinstance(b, (set, frozenset) + _KV):
        E = G.Engine.current
        if E is not None and E.symkeys and (_symset(a) or _symset(b)):
            return set_method(a, _SETNAMES[op], (b,))
    elif ta is dict and type(b) is dict and op == '|':
        E = G.Engine.current
        if E is not None and E.symkeys:
            return sx_dict(list(a.items()) + list(b.items()))
    return _SETOPS[op](a, b)


def sx_isetop(op, a, b):
    if isinstance(a, set):
        E = G.Engine.current
        if E is not None and E.symkeys and (_symset(a) or _symset(b)):
            r = set_method(a, _SETNAMES[op], (b,))
            a.clear()
            with hashok:
                for x in r:
                    a.add(x)
            return a
    return _ISETOPS[op](a, b)


def set_method(s, name, args):
    """set operations when symbolic elements are involved"""
    with hashok:
        if name == 'add':
            s.add(canon_key(s, args[0]))
            return None
        if name in ('discard', 'remove'):
            return getattr(s, name)(canon_key(s, args[0]))
        if name in ('update', 'union'):
            t = s if name == 'update' else s.copy()
            fz = type(t) is frozenset
            if fz:
                t = set(t)
            for a in args:
                for x in list(a):
                    t.add(canon_key(t, x))
            return None if name == 'update' else (frozenset(t) if fz else t)
        if name in ('difference', 'intersection', 'symmetric_difference', 'difference_update', 'intersection_update'):
            base = name.replace('_update', '')
            cur = list(s)
            for a in args:
                other = list(a)
                oset = sx_set(other)
                if base == 'difference':
                    cur = [x for x in cur if not _member(oset, x)]
                elif base == 'intersection':
                    cur = [x for x in cur if _member(oset, x)]
                else:
                    me = sx_set(cur)
                    cur = [x for x in cur if not _member(oset, x)] + [x for x in oset if not _member(me, x)]
            if name.endswith('_update'):
                s.clear()
                for x in cur:
                    s.add(x)
                return None
            r = sx_set(cur)
            return frozenset(r) if type(s) is frozenset else r
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            other = args[0]
            if name == 'issubset':
                return all(_member(other, x) for x in list(s))
            if name == 'issuperset':
                return all(_member(s, x) for x in list(other))
            return not any(_member(s, x) for x in list(other))
    raise Unsupported(f'set.{name} on symbolic elements')


def _member(s, x):
    return bool(sx_in(x, s))


def dict_method(d, name, args, kw):
    with hashok:
        if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__', '__setitem__', '__delitem__', 'move_to_end'):
            k = canon_key(d, args[0])
            return getattr(d, name)(k, *args[1:], **kw)
        if name == 'update':
            for a in args:
                items = a.items() if hasattr(a, 'keys') else a
                for k, v in list(items):
                    d[canon_key(d, k)] = v
            for k, v in kw.items():
                d[canon_key(d, k)] = v
            return None
        if name in ('keys', 'values', 'items', 'copy', 'clear', 'popitem', '__len__', '__iter__'):
            return getattr(d, name)(*args)
    raise Unsupported(f'dict.{name} with symbolic keys')


def sx_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = sx_repr(v)
            elif conv == 115:
                v = sx_str(v)
            elif conv == 97:
                v = ascii(v)
            v = sx_format(v, spec)
            out.append(v)
        else:
            out.append(p)
    return V.SymStr(()).join(out)


PLAIN = {str, bytes, int, float, bool, type(None), type}


def sx_mod(a, b):
    ta = type(a)
    if ta is str or ta is bytes:
        if has_sym(b):
            return percent(a, b)
        if ta is str:
            for x in (b if type(b) is tuple else (b.values() if type(b) is dict else (b,))):
                if type(x) not in PLAIN:
                    try:
                        return percent(a, b)
                    except Unsupported:
                        break
    elif ta is SymStr or ta is SymBytes:
        raise Unsupported('symbolic % format')
    return a % b


def percent(fmt, args):
    if isinstance(fmt, bytes):
        raise Unsupported('bytes %')
    named = isinstance(args, dict)
    if not named and not isinstance(args, tuple):
        args = (args,)
    out = []
    pos = 0
    i = 0

    def take():
        nonlocal i
        if named or i >= len(args):
            raise TypeError('not enough arguments for format string')
        i += 1
        return args[i - 1]

    def star():
        v = take()
        if not isinstance(v, (int, V.SymInt, V.SymBool)):
            raise TypeError('* wants int')
        return int(v.__index__())

    for m in re.finditer(r'%(?:\((\w+)\))?([-0+ #]*)(\*|\d+)?(?:\.(\*|\d+))?([sdriuxX%])', fmt):
        if '%' in fmt[pos:m.start()]:
            raise Unsupported('% format')
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, fl, w, pr, ty = m.groups()
        if ty == '%':
            if m.group() != '%%':
                raise Unsupported('% format')
            out.append('%')
            continue
        if '#' in fl or (pr is not None and ty not in 'sr'):
            raise Unsupported('% format')
        if w == '*':
            w = star()
            if w < 0:
                fl += '-'
                w = -w
        else:
            w = int(w or 0)
        if pr == '*':
            pr = max(0, star())
        elif pr is not None:
            pr = int(pr)
        if name is not None:
            if not named:
                raise TypeError('format requires a mapping')
            v = args[name]
        else:
            v = take()
        if ty == 's':
            v = sx_str(v)
        elif ty == 'r':
            v = sx_repr(v)
        if ty in 'sr':
            if pr is not None:
                v = v[:pr]
            v = v.ljust(w) if '-' in fl else v.rjust(w)
        else:
            if not is_sym(v) and not isinstance(v, int):
                if ty not in 'diu' or not isinstance(v, float):
                    raise Unsupported('% format')
                v = int(v)
            spec = ('<' if '-' in fl else '') + ('+' if '+' in fl else (' ' if ' ' in fl else '')) + ('0' if '0' in fl and '-' not in fl else '') + (str(w) if w else '') + (ty if ty in 'xX' else 'd')
            v = V.sym_format(v, spec) if is_sym(v) else format(v, spec)
        out.append(v)
    if '%' in fmt[pos:]:
        raise Unsupported('% format')
    if not named and i < len(args):
        raise TypeError('not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return V.SymStr(()).join(out)


# ---- builtins ----------------------------------------------------------------------------

def sx_str(x='', *a, **k):
    if a or k:
        if type(x) is SymBytes:
            enc = a[0] if a else k.get('encoding', 'utf-8')
            return x.decode(enc, *a[1:])
        return str(x, *a, **k)
    if type(x) in SYMSET:
        return V.sym_str(x)
    if type(x) is str:
        return x
    if type(x) in (list, tuple, dict, set, frozenset):
        r = V.sym_repr(x)
        if r is not None:
            return r
        return str(x)
    if isinstance(x, BaseException):
        if type(x).__str__ is BaseException.__str__ and has_sym(x.args):
            return sx_str(x.args[0]) if len(x.args) == 1 else V.sym_repr(x.args)
        return str(x)
    f = type(x).__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if f is object.__str__:
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    if type(x) in SYMSET or type(x) in (list, tuple, dict, set, frozenset):
        r = V.sym_repr(x)
        if r is not None:
            return r
        return repr(x)
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def sx_format(x, spec=''):
    if type(x) in SYMSET:
        return V.sym_format(x, spec)
    if type(x) is str and spec == '':
        return x
    if is_sym(spec):
        raise Unsupported('symbolic format spec')
    f = type(x).__format__
    if isinstance(f, types.FunctionType):
        return f(x, spec)
    if f is object.__format__ and spec == '':
        return sx_str(x)
    return format(x, spec)


class SymHash:
    """hash() of a structure with symbolic parts: an uninterpreted function of the structure."""
    __class__ = property(lambda self: int)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if type(o) is SymHash:
            return mkbool(_eqf(self.v, o.v))
        if type(o) is int:
            src = G.Engine.current.hash_src.get(o)
            if src is not None:
                return mkbool(_eqf(self.v, src[0]))
            raise Unsupported('symbolic hash compared with a number')
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __xor__(self, o):
        return SymHash(('^', self, o))
    __rxor__ = __xor__

    def __hash__(self):
        raise Unsupported('native use of a symbolic hash')

    def __index__(self):
        raise Unsupported('native use of a symbolic hash')

    def __add__(self, o):
        return SymHash(('+', self, o))

    def __mul__(self, o):
        return SymHash(('*', self, o))


def _eqf(a, b):
    """structural equality as a formula, without forking"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (tuple, list) and tb is ta:
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = _eqf(x, y)
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)
    if ta is dict and tb is dict:
        if len(a) != len(b):
            return False
        if not has_sym(a) and not has_sym(b):
            return a == b
        fs = []
        for (k1, v1), (k2, v2) in zip(a.items(), b.items()):
            fs.append(_eqf(k1, k2))
            fs.append(_eqf(v1, v2))
        f = f_and(fs)
        if f is False:
            raise Unsupported('dict equality')
        return f
    r = a == b
    if type(r) is SymBool:
        return r.f
    return bool(r)


def sx_hash(x):
    t = type(x)
    if t is SymStr or t is SymBytes:
        from .symval import norm
        cs = [norm(c) for c in x.cs]
        if all(type(c) is int for c in cs):         # this path leaves one value
            x = ''.join(map(chr, cs)) if t is SymStr else bytes(cs)
            t = type(x)
    if t in SYMSET or has_sym(x):
        return SymHash(x)
    f = getattr(t, '__hash__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    h = hash(x)
    E = G.Engine.current
    if E is not None:
        E.hash_src[h] = (x,)
    return h


def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in SYMSET or t is R.SymMatch or t is R.SymPattern:
            return a[0].__class__
        return t
    return type(*a)


def sx_int(x=0, *a, **k):
    t = type(x)
    if t is SymStr or t is SymBytes:
        return V.str_to_int(x, *(int(y) for y in a), **k)
    if t is SymInt:
        return x
    if t is SymBool:
        return int(bool(x))
    if t is SymHash:
        return x
    if t is V.SymFloat:
        return x.trunc()
    return int(x, *a, **k)


def sx_float(x=0.0):
    t = type(x)
    if t is SymStr or t is SymBytes:
        return sym_float(x)
    if t is SymInt:
        if -2 ** 53 < x and x < 2 ** 53:
            return V.SymFloat(x, 1)
        raise Unsupported('float of a huge symbolic int')
    if t is V.SymFloat:
        return x
    return float(x)


_FLOAT = None


def sym_float(s):
    """float(text): forks on the shape of the literal; the digits stay symbolic"""
    global _FLOAT
    if _FLOAT is None:
        _FLOAT = re.compile(r'[+-]?(?:(?P<inf>inf(?:inity)?)|(?P<nan>nan)|(?P<i>[0-9]+(?:_[0-9]+)*)?(?P<p>\.(?P<f>[0-9]+(?:_[0-9]+)*)?)?(?:e(?P<e>[+-]?[0-9]+(?:_[0-9]+)*))?)',
                            re.I | re.A)
    if type(s) is SymBytes:
        s = s.decode('latin-1')
    err = ValueError('could not convert string to float')
    t = s.strip()
    if not t.isascii():
        for c in t:
            if type(c) is SymStr and c.isdigit() and not c.isascii():
                raise Unsupported('non-ascii digits')
        raise err
    m = sx_call(_FLOAT.fullmatch, t)
    if not m:
        raise err
    neg = t.startswith('-')
    if m.group('inf') is not None:
        return -math.inf if neg else math.inf
    if m.group('nan') is not None:
        return math.nan
    i, f, e = m.group('i') or '', m.group('f') or '', m.group('e')
    if not i and not f:
        raise err
    i, f = i.replace('_', ''), f.replace('_', '')
    n = sx_int(i + f)
    k = len(f)
    if e is not None:
        x = sx_int(e)
        x = x.__index__() if type(x) is SymInt else x
        if type(n) is SymInt and (x >= 15 - len(i) - len(f) or x < -15):
            if len(i) + len(f) > 3:
                raise Unsupported('large float exponent')
            n = n.__index__()       # few digits: enumerate them, then use the real conversion
        if type(n) is int:
            r = float(f'{n}e{x - len(f)}')
            return -r if neg else r
        if x > 0:
            n = n * 10 ** x
        else:
            k += -x
    if len(i) + len(f) > 15:
        if sum(type(c) is not int for d in (i, f) if type(d) is SymStr for c in d.cs) > 4:
            raise Unsupported('long float literal')
        n = n.__index__() if type(n) is SymInt else n       # few unknown digits: enumerate them, then use the real conversion
        r = float(f'{n}e{-k}')
        return -r if neg else r
    r = V.SymFloat(n, 10 ** k) if type(n) is SymInt else n / 10 ** k
    return -r if neg else r


def sx_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        r = x != 0
        return r
    return bool(x)


def sx_ord(c):
    t = type(c)
    if t is SymStr or t is SymBytes:
        if len(c.cs) != 1:
            raise TypeError(f'ord() expected a character, but string of length {len(c.cs)} found')
        return SymInt(None, c.cs[0])
    return ord(c)


def sx_chr(n):
    if type(n) is SymInt:
        if n.cv is not None:
            return mkstr((n.cv,))
        E = G.Engine.current
        if not (n >= 0) or not (n <= I.MAXCP):
            raise ValueError('chr() arg not in range(0x110000)')
        c = E.new_char(I.ALL)
        E.assume(G.FZ(E.zchar(c.id) == n.z(), n.cvs | frozenset((c.id,))))
        return mkstr((c,))
    return chr(n)


def sx_bytes(x=b'', *a, **k):
    t = type(x)
    if t is SymBytes:
        return x
    if t is SymStr:
        return x.encode(*a, **k)
    if t is SymInt:
        return bytes(x.__index__())
    if isinstance(x, (str, bytes, int)) or a or k:
        return bytes(x, *a, **k)
    if hasattr(x, '__bytes__'):
        return bytes(x)
    items = list(x)
    if any(type(y) is SymInt for y in items):
        return mkbytes(tuple(V._byte(y) for y in items))
    return bytes(items)


def sx_setctor(x=()):
    return sx_set(list(x))


def sx_frozenset(x=()):
    if type(x) is frozenset:
        return x
    s = sx_set(list(x))
    with hashok:
        return frozenset(s)


def sx_dictctor(*a, **k):
    if not a:
        return dict(**k)
    x = a[0]
    if isinstance(x, dict):
        E = G.Engine.current
        d = dict(x)
        d.update(k)
        return d
    items = list(x.items()) if hasattr(x, 'keys') and hasattr(x, 'items') else list(x)
    items = [tuple(y) for y in items]
    d = sx_dict(items)
    d.update(k)
    return d


def sx_map(f, *its):
    if type(f) in (types.FunctionType, types.MethodType):
        return map(f, *its)

    def gen():
        for args in zip(*its):
            yield sx_call(f, *args)
    return gen()


def sx_filter(f, it):
    if f is None or type(f) in (types.FunctionType, types.MethodType):
        return filter(f, it)

    def gen():
        for x in it:
            if sx_call(f, x):
                yield x
    return gen()


def sx_divmod(a, b):
    return divmod(a, b)


def sx_ascii(x):
    if has_sym(x):
        raise Unsupported('ascii()')
    return ascii(x)


def sx_sorted(it, *, key=None, reverse=False):
    if key is not None and type(key) not in (types.FunctionType, types.MethodType):
        k0 = key
        key = lambda x: sx_call(k0, x)
    return sorted(it, key=key, reverse=reverse)


def sx_getattr(o, n, *d):
    if is_sym(n):
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, n, *d)


def sx_isinstance(o, c):
    t = type(o)
    if t is SymInt or t is SymBool or t is SymStr or t is SymBytes:
        return isinstance(o, c)
    return isinstance(o, c)


def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
    if has_sym(a):
        s = (sep if sep is not None else ' ')
        t = V.SymStr(tuple(map(ord, s))).join([sx_str(x) for x in a]) + (end if end is not None else '\n')
        if file is None:
            return None
        return sx_call(file.write, t)
    return print(*a, sep=sep, end=end, file=file, flush=flush)


def sx_minmax(fn):
    def f(*a, key=None, **k):
        if key is not None and type(key) not in (types.FunctionType, types.MethodType):
            k0 = key
            key = lambda x: sx_call(k0, x)
        return fn(*a, key=key, **k)
    return f


def sx_abs(x):
    return abs(x)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_memo_wrapper(f, a, k):
    return sx_call(f.__wrapped__, *a, **k)


def _concrete(x):
    if type(x) is SymInt:
        return x.__index__()
    if type(x) is SymBool:
        return bool(x)
    return x


BUILTINS = {
    str: sx_str, repr: sx_repr, format: sx_format, hash: sx_hash, type: sx_type, int: sx_int, float: sx_float,
    bool: sx_bool, ord: sx_ord, chr: sx_chr, bytes: sx_bytes, set: sx_setctor, frozenset: sx_frozenset,
    dict: sx_dictctor, map: sx_map, filter: sx_filter, ascii: sx_ascii, sorted: sx_sorted, getattr: sx_getattr,
    print: sx_print, min: sx_minmax(min), max: sx_minmax(max), sum: sx_sum,
}

# C-implemented callables that are generic: they work on any objects through the ordinary protocols
SAFE = {len, isinstance, issubclass, list, tuple, iter, next, reversed, enumerate, zip, any, all, callable, id, hasattr,
        setattr, delattr, slice, range, abs, divmod, round, object, pow, property, staticmethod, classmethod, memoryview}
SAFE_MODULES = {'_heapq', '_collections', 'collections', 'itertools', '_functools', 'functools', 'operator', '_operator', 'heapq',
                '_weakref', 'weakref', '_thread', '_abc', 'abc', 'copy', 'contextlib', 'types', 'inspect', 'bisect', '_bisect'}

STRM = {n for n in dir(str) if not n.startswith('__')}
BYTESM = {n for n in dir(bytes) if not n.startswith('__')}

_BFT = types.BuiltinFunctionType
_BMT = type(re.compile('a').match)
_MD = type(str.upper)
_LRU = type(functools.lru_cache(None)(lambda: 0))
_PARTIAL = functools.partial
_WD = type(object.__init__)
_MW = type(''.__add__)
_RE = {}
for _n, _f in R.RE_FUNCS.items():
    _RE[getattr(re, _n[3:])] = _f


def any_sym(a, k):
    for x in a:
        t = type(x)
        if t in SYMSET:
            return True
        if (t is tuple or t is list) and has_sym(x, 2):
            return True
    if k:
        for x in k.values():
            t = type(x)
            if t in SYMSET or ((t is tuple or t is list) and has_sym(x, 2)):
                return True
    return False


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        h = _RE.get(f)
        if h is not None:
            if any_sym(a, k) or any(type(x) is R.SymPattern for x in a):
                return h(*a, **k)
        elif f in EXTRA:
            return EXTRA[f](*a, **k)
        return f(*a, **k)
    if t is types.MethodType:
        return f(*a, **k)
    if t is type:
        h = BUILTINS.get(f)
        if h is not None:
            return h(*a, **k)
        if f in EXTRA:
            return EXTRA[f](*a, **k)
        return f(*a, **k)
    if t is _BFT or t is _BMT:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            h = BUILTINS.get(f)
            if h is not None:
                return h(*a, **k)
            if f in SAFE or not any_sym(a, k):
                return f(*a, **k)
            if f in EXTRA:
                return EXTRA[f](*a, **k)
            if f.__module__ in SAFE_MODULES:
                return f(*a, **k)
            raise Unsupported(f'{f.__module__}.{f.__name__} on symbolic arguments')
        return call_bound(s, f.__name__, f, a, k)
    if t is _MD:
        if a:
            s = a[0]
            ts = type(s)
            if ts in SYMSET:
                return getattr(s, f.__name__)(*a[1:], **k)
            return call_bound(s, f.__name__, None, a[1:], k, f)
        return f(*a, **k)
    if t is _LRU:
        if any_sym(a, k):
            return sx_memo_wrapper(f, a, k)
        return f(*a, **k)
    if t is _PARTIAL:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is _MW:
        s = f.__self__
        if type(s) in (str, bytes) and any_sym(a, k):
            return getattr(_lift(s), f.__name__)(*a, **k)
        return f(*a, **k)
    h = None
    try:
        h = EXTRA.get(f)
    except TypeError:
        pass
    if h is not None:
        return h(*a, **k)
    return f(*a, **k)


def _math_pred(f, of_sym):
    def g(x):
        return of_sym if type(x) in SYMSET else f(x)
    return g


EXTRA = {math.isinf: _math_pred(math.isinf, False), math.isnan: _math_pred(math.isnan, False), math.isfinite: _math_pred(math.isfinite, True)}


def _lift(s):
    if isinstance(s, str):
        return SymStr(tuple(map(ord, s)))
    return SymBytes(tuple(s))


def _lift_cls(s):
    return SymStr if isinstance(s, str) else SymBytes


def call_bound(s, name, f, a, k, md=None):
    """Call a C-implemented method `name` of s."""
    ts = type(s)
    if ts is str or ts is bytes:
        if name == 'join':
            items = list(a[0])
            for x in items:
                if type(x) in SYMSET:
                    return _lift(s).join(items)
            return s.join(items)
        if a or k:
            if any_sym(a, k):
                if name in ('format',):
                    return str_format(s, a, k)
                if ts is str and name == 'encode':
                    return s.encode(*map(_concrete, a), **k)
                a = tuple(map(_concrete, a))
                if not any_sym(a, k):
                    return getattr(s, name)(*a, **k)
                return getattr(_lift(s), name)(*a, **k)
            if name == 'format' and ts is str:
                return str_format(s, a, k) if has_sym(a) or has_sym(k) else s.format(*a, **k)
        return f(*a, **k) if f is not None else md(s, *a, **k)
    if isinstance(s, re.Pattern):
        if any_sym(a, k) or type(s) is R.SymPattern:
            h = R.PAT_METHODS.get(name)
            if h is None:
                raise Unsupported(f're.Pattern.{name}')
            return h(s, *a, **k)
        return f(*a, **k) if f is not None else md(s, *a, **k)
    E = G.Engine.current
    if s is dict and name == 'fromkeys' and E is not None:
        v = a[1] if len(a) > 1 else None
        return sx_dict([(x, v) for x in a[0]])
    if isinstance(s, (dict,)):
        if E is not None and (E.symkeys or (a and _key_has_sym(a[0])) or (name == 'update' and has_sym(a))):
            return dict_method(s, name, a, k)
    elif isinstance(s, (set, frozenset)):
        if E is not None and (E.symkeys or (a and (_key_has_sym(a[0]) or has_sym(a)))):
            if name == '__contains__':
                return sx_in(a[0], s)
            if name in ('copy', 'clear', 'pop'):
                return f(*a, **k) if f is not None else md(s, *a, **k)
            return set_method(s, name, a)
    elif ts is list and name == 'sort':
        key = k.get('key')
        if key is not None and type(key) not in (types.FunctionType, types.MethodType):
            k['key'] = lambda x: sx_call(key, x)
    elif any_sym(a, k):
        if isinstance(s, type) and s in (str, bytes, int, dict):
            nm = f'{s.__name__}.{name}'
            if nm == 'dict.fromkeys':
                v = a[1] if len(a) > 1 else None
                return sx_dict([(x, v) for x in a[0]])
            if nm == 'bytes.fromhex':
                raise Unsupported(nm)
            if nm == 'str.maketrans':
                raise Unsupported(nm)
            if nm == 'int.from_bytes':
                raise Unsupported(nm)
        mod = ts.__module__
        if ts in (list, tuple, object) or mod in SAFE_MODULES or mod == 'builtins' and ts.__name__ in ('generator', 'list_iterator', 'tuple_iterator', 'type', 'BaseException', 'super') or issubclass(ts, BaseException):
            pass
        elif mod.startswith('big') or mod.startswith('props') or name.startswith('__'):
            pass
        else:
            fe = None
            try:
                fe = EXTRA.get(f)
            except TypeError:
                pass
            if fe is not None:
                return fe(*a, **k)
            raise Unsupported(f'{mod}.{ts.__name__}.{name} on symbolic arguments')
    return f(*a, **k) if f is not None else md(s, *a, **k)


def str_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        m = re.fullmatch(r'(\w*)((?:\.\w+|\[\w+\])*)', field)
        if not m:
            raise Unsupported('str.format field')
        nm = m.group(1)
        if nm == '':
            v = a[auto]
            auto += 1
        elif nm.isdigit():
            v = a[int(nm)]
        else:
            v = k[nm]
        for x in re.findall(r'\.\w+|\[\w+\]', m.group(2)):
            if x[0] == '.':
                v = getattr(v, x[1:])
            else:
                i = x[1:-1]
                v = v[int(i) if i.isdigit() else i]
        if conv == 'r':
            v = sx_repr(v)
        elif conv == 's':
            v = sx_str(v)
        if spec and '{' in spec:
            spec = str_format(spec, a, k)
        out.append(sx_format(v, spec or ''))
    return SymStr(()).join(out)


def install():
    b = builtins
    b.__sx_call__ = sx_call
    b.__sx_in__ = sx_in
    b.__sx_getitem__ = sx_getitem
    b.__sx_slice__ = sx_slice
    b.__sx_key__ = sx_key
    b.__sx_key2__ = sx_key2
    b.__sx_fstr__ = sx_fstr
    b.__sx_mod__ = sx_mod
    b.__sx_setop__ = sx_setop
    b.__sx_isetop__ = sx_isetop
    b.__sx_set__ = sx_set
    b.__sx_dict__ = sx_dict
    b.__sx_reraise__ = sx_reraise
    b.__sx_tick__ = sx_tick


_CODE = {}          # transformed code by source and path: a harness may load a module several times


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = _CODE.get((src, self.path))
        if code is None:
            code = _CODE[src, self.path] = transform(src, self.path)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots          # package name -> directory

    def find_spec(self, name, path=None, target=None):
        top = name.partition('.')[0]
        d = self.roots.get(top)
        if d is None:
            return None
        parts = name.split('.')[1:]
        base = os.path.join(d, *parts)
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            if not os.path.exists(p):
                return None
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, True), submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, False))
        return None
