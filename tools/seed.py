#!/usr/bin/env python3
"""Plant a bug: seed.py FILE.py, where FILE.py defines a list BUGS of dicts
   id, property, file, edits=[(old, new)...], needs, breaks, demo (python source; exits nonzero / raises when broken).
Confirms everything in a scratch copy and keeps it under seeded/; then runs the property's quick check against the copy.
   seed.py --recheck [ID...]   re-confirms kept bugs and runs their checks."""
import json, os, shutil, subprocess, sys, time, runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable'] if os.path.exists('/opt/vp/BASELINE.json') else []
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TZ='UTC')


def tests_pass(w):
    prog = ("import os, sys, pytest\nsys.argv[0] = os.path.abspath('tests/test_all.py')\n"
            "rc = int(pytest.main(['-q', '-p', 'no:cacheprovider', '--timeout=60', '--ignore=tests/test_all.py', '-x', 'tests']))\nsys.stdout.flush()\nos._exit(rc)")
    p = subprocess.run(['/opt/venv/bin/python', '-c', prog], cwd=w, env=ENV, capture_output=True, text=True, timeout=600)
    return p.returncode == 0, p.stdout[-1500:]


def demo(d, cwd):
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def check(prop, w):
    t = time.time()
    p = subprocess.run([os.path.join(VERIF, 'check'), prop, '--no-evidence'], cwd=VERIF, env=dict(ENV, SX_REPO=w), capture_output=True, text=True)
    out = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    return p.returncode, out[:2], p.stdout[-300:] if p.returncode not in (0, 1) else '', round(time.time() - t)


def copy(name):
    w = f'/tmp/seedwork/{name}/repo'
    shutil.rmtree(os.path.dirname(w), ignore_errors=True)
    os.makedirs(os.path.dirname(w))
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    return w


def one(b):
    w = copy(b['id'])
    try:
        p = os.path.join(w, b['file'])
        s = open(p).read()
        for old, new in b['edits']:
            if s.count(old) != 1:
                return f'EDIT {s.count(old)} matches: {old!r}'
            s = s.replace(old, new)
        d = f'/tmp/seedwork/{b["id"]}/seed'
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec "$PY" "$d/demo.py"\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc, out = demo(d, w)
        if rc:
            return f'DEMO fails on the clean tree: {out}'
        open(p, 'w').write(s)
        ok, out = tests_pass(w)
        if not ok:
            return f'TESTS fail: {out}'
        rc, out = demo(d, w)
        if not rc:
            return 'DEMO passes with the bug'
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        dest = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        return 'kept', check(b['property'], w), out[-160:]
    finally:
        shutil.rmtree(f'/tmp/seedwork/{b["id"]}', ignore_errors=True)


def recheck(i):
    d = os.path.join(VERIF, 'seeded', i)
    w = copy(i)
    try:
        prop = json.load(open(d + '/meta.json'))['property']
        a, out = demo(d, w)
        p = subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if p.returncode:
            return 'PATCH', p.stderr[-300:]
        b, out2 = demo(d, w)
        ok, o = tests_pass(w)
        return 'ok' if a == 0 and b and ok else f'BAD clean={a} bug={b} tests={ok}', check(prop, w)
    finally:
        shutil.rmtree(f'/tmp/seedwork/{i}', ignore_errors=True)


def note(i, r):
    fn = os.path.join(VERIF, 'tools', 'seed_results.json')
    d = json.load(open(fn)) if os.path.exists(fn) else {}
    for x in r:
        if isinstance(x, tuple) and len(x) == 4:
            old = d.get(i, '')
            d[i] = ('yes' if 'no' != old and 'after' not in old else 'yes, after strengthening (missed at first)') if x[0] == 1 else 'no'
    json.dump(d, open(fn, 'w'), indent=0, sort_keys=True)
    return r


if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        for i in sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
            print(i, *note(i, recheck(i)), flush=True)
    else:
        for b in runpy.run_path(sys.argv[1])['BUGS']:
            r = one(b)
            note(b['id'], r if isinstance(r, tuple) else ())
            print(b['id'], b['property'], r, flush=True)
