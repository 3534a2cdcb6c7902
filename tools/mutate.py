#!/usr/bin/env python3
"""Mutation survey (development aid; no check uses it).
   mutate.py tests FILE OUT.jsonl [WORKERS [STEP [FIRST]]]   mutants of /repo/FILE (every STEP-th) that the tests let pass
   mutate.py checks OUT.jsonl RES.jsonl [WORKERS]   which of those the checks of the function's properties report"""
import ast, copy, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def variants(n):
    """mutated copies of one node"""
    def c(**kw):
        m = copy.deepcopy(n)
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        yield c(ops=[SWAP[type(n.ops[0])]()])
        if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            inv = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}[type(n.ops[0])]
            yield c(ops=[inv()])
    elif isinstance(n, ast.BoolOp):
        yield c(op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
        for i in range(len(n.values)):
            v = n.values[:i] + n.values[i + 1:]
            yield v[0] if len(v) == 1 else c(values=v)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield n.operand
    elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
        yield c(op=ARITH[type(n.op)]())
        if isinstance(n.op, (ast.Add, ast.Sub)):
            yield n.left
    elif isinstance(n, ast.Constant):
        if n.value is True or n.value is False:
            yield c(value=not n.value)
        elif type(n.value) is int:
            yield c(value=n.value + 1)
            if n.value:
                yield c(value=n.value - 1)
    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        if n.id in ('min', 'max'):
            yield c(id='max' if n.id == 'min' else 'min')
    elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
        t = n.test
        yield t, ast.UnaryOp(ast.Not(), t)
        if not isinstance(n, ast.While):
            yield t, ast.Constant(True)
            yield t, ast.Constant(False)
    elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            yield ast.Pass()
        if isinstance(n, ast.AugAssign) and type(n.op) in ARITH:
            yield c(op=ARITH[type(n.op)]())
    elif isinstance(n, ast.Break):
        yield ast.Continue()
        yield ast.Pass()
    elif isinstance(n, ast.Continue):
        yield ast.Pass()
        yield ast.Break()
    elif isinstance(n, ast.Slice):
        if n.lower:
            yield c(lower=None)
        if n.upper:
            yield c(upper=None)
    elif isinstance(n, ast.Call) and n.keywords:
        for i in range(len(n.keywords)):
            yield c(keywords=n.keywords[:i] + n.keywords[i + 1:])
    elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'getattr', 'hasattr')):
        yield c(args=n.args[::-1])


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda l, c: offs[l - 1] + c
    out = []

    def walk(n, fn):
        if isinstance(n, (ast.Assert, ast.Raise, ast.JoinedStr)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            fn = fn + [n.name]
        if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for x in n.body) and len(n.body) == 1:
            pass
        if fn:
            for m in variants(n):
                t, m = m if isinstance(m, tuple) else (n, m)
                if not hasattr(t, 'lineno'):
                    continue
                a, z = pos(t.lineno, t.col_offset), pos(t.end_lineno, t.end_col_offset)
                new = ast.unparse(ast.fix_missing_locations(m))
                if isinstance(m, ast.expr) and not isinstance(t, (ast.Constant, ast.Name, ast.Slice)):
                    new = '(' + new + ')'
                out.append(('.'.join(fn), t.lineno, b[a:z].decode(), new, a, z))
        for x in ast.iter_child_nodes(n):
            walk(x, fn)
    walk(tree, [])
    seen = set()
    for fn, line, old, new, a, z in out:
        s = (b[:a] + new.encode() + b[z:]).decode()
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, path, 'exec')
        except SyntaxError:
            continue
        yield fn, line, old, new, s


def run_tests(w, timeout=90):
    prog = ("import os, sys, pytest\nsys.argv[0] = os.path.abspath('tests/test_all.py')\n"
            "rc = int(pytest.main(['-q', '-p', 'no:cacheprovider', '--timeout=20', '--ignore=tests/test_all.py', '-x', 'tests']))\nsys.stdout.flush()\nos._exit(rc)")
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-c', prog], cwd=w, env=seed.ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def main_tests(file, out, workers, step=1, first=0):
    import queue
    pool = queue.Queue()
    for i in range(workers):
        pool.put(seed.copy(f'mut{os.getpid()}-{i}'))
    ms = list(mutants('/repo/' + file))[first::step]
    print(len(ms), 'mutants', flush=True)
    orig = open('/repo/' + file).read()
    f = open(out, 'a')
    n = [0, 0]

    def go(m):
        fn, line, old, new, s = m
        w = pool.get()
        try:
            open(os.path.join(w, file), 'w').write(s)
            ok = run_tests(w)
            open(os.path.join(w, file), 'w').write(orig)
        finally:
            pool.put(w)
        n[0] += 1
        if ok:
            n[1] += 1
            f.write(json.dumps(dict(file=file, fn=fn, line=line, old=old, new=new)) + '\n')
            f.flush()
        if n[0] % 100 == 0:
            print(n, flush=True)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, ms))
    print('done', n, flush=True)
    while not pool.empty():
        shutil.rmtree(os.path.dirname(pool.get()))


def props_of(file, fn):
    """properties whose mechanisms name the function, else all of the file"""
    ps = [json.loads(l) for l in open(os.path.join(seed.VERIF, 'properties.jsonl'))]
    hit, rest = [], []
    names = set(fn.split('.'))
    for p in ps:
        t = json.dumps(p)
        if file not in t:
            continue
        import re
        if any(re.search(r'\b' + re.escape(x) + r'\b', t) for x in names):
            hit.append(p['id'])
        else:
            rest.append(p['id'])
    return hit, rest


def main_checks(inp, out, workers):
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['old'], d['new']))
    todo = [json.loads(l) for l in open(inp)]
    f = open(out, 'a')
    gen = {}

    def go(d):
        if (d['file'], d['line'], d['old'], d['new']) in done:
            return
        if d['file'] not in gen:
            gen[d['file']] = list(mutants('/repo/' + d['file']))
        s = [m[4] for m in gen[d['file']] if list(m[1:4]) == [d['line'], d['old'], d['new']]]
        w = seed.copy(f'chk{abs(hash((d["file"], d["line"], d["old"], d["new"])))}')
        try:
            open(os.path.join(w, d['file']), 'w').write(s[0])
            hit, rest = props_of(d['file'], d['fn'])
            d['hit'] = hit
            d['res'] = None
            for p in hit + ([] if len(hit) > 0 else rest):
                try:
                    r = subprocess.run([os.path.join(seed.VERIF, 'check'), p, '--no-evidence', '--deadline', '240'], cwd=seed.VERIF,
                                       env=dict(seed.ENV, SX_REPO=w), capture_output=True, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc:
                    d['res'] = [p, rc]
                    if rc == 1:
                        break
        finally:
            shutil.rmtree(os.path.dirname(w), ignore_errors=True)
        f.write(json.dumps(d) + '\n')
        f.flush()
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, todo))


if __name__ == '__main__':
    if sys.argv[1] == 'tests':
        main_tests(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:] or [6]))
    elif sys.argv[1] == 'checks':
        main_checks(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 3)
