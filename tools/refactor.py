#!/usr/bin/env python3
"""refactor.py FILE.py [ID...]: FILE.py defines REFS, a list of dicts id, file, props, edits=[(old, new)...] (old may occur
once only; new imports go in as part of an edit).  Each is a rewriting of the code that keeps its behaviour: applied to a scratch copy, the
tests must pass, and every check named must come out 0 with nothing inconclusive."""
import os, shutil, subprocess, sys, runpy, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed


def one(r):
    w = seed.copy('ref-' + r['id'])
    try:
        p = os.path.join(w, r['file'])
        s = open(p).read()
        for old, new in r['edits']:
            if s.count(old) != 1:
                return f'EDIT {s.count(old)} matches: {old!r}'
            s = s.replace(old, new)
        open(p, 'w').write(s)
        ok, out = seed.tests_pass(w)
        if not ok:
            return f'TESTS fail: {out}'
        bad = []
        for prop in r['props'].split():
            t = time.time()
            q = subprocess.run([os.path.join(seed.VERIF, 'check'), prop, '--no-evidence'], cwd=seed.VERIF, env=dict(seed.ENV, SX_REPO=w), capture_output=True, text=True)
            notes = [l for l in (q.stdout + q.stderr).splitlines() if l.startswith('VIOLATION') or 'INCONCLUSIVE' in l or 'MISMATCH' in l]
            bad.append(f'   {prop}: rc {q.returncode} {time.time() - t:.0f}s {q.stdout.splitlines()[-1:]} {"" if not q.returncode and not notes else (notes[:4], q.stdout[-600:])}')
        return '\n' + '\n'.join(bad)
    finally:
        shutil.rmtree(os.path.dirname(w), ignore_errors=True)


if __name__ == '__main__':
    for r in runpy.run_path(sys.argv[1])['REFS']:
        if len(sys.argv) > 2 and r['id'] not in sys.argv[2:]:
            continue
        print(r['id'], one(r), flush=True)
