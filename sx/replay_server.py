"""Concrete replay of harness inputs on the unmodified /repo sources (run with the repository's own Python).
Reads JSON requests on stdin, writes JSON answers on the original stdout."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, VERIF]

import sx.registry as registry
from sx.ctx import ConcreteCtx, Violated, AssumeFailed


def run(req):
    mod = importlib.import_module(req['module'])
    h = [x for x in registry.HARNESSES[req['prop']] if x.name == req['harness']][0]
    ctx = ConcreteCtx(req['inputs'], req.get('known', ()))
    out = {'status': 'ok'}
    try:
        h.fn(ctx, **req['params'])
        if req.get('known_only'):
            out['known_hits'] = sorted(ctx.known_hits)
    except Violated as e:
        out = {'status': 'violation', 'label': e.label, 'detail': repr(e.detail() if callable(e.detail) else e.detail)[:600]}
    except AssumeFailed:
        out = {'status': 'assume_failed'}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        out = {'status': 'exception', 'type': type(e).__name__, 'error': str(e)[:300],
               'where': [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-6:]],
               'in_repo': any(f.filename.startswith(REPO + '/big') for f in tb)}
    out['observed'] = ctx.observed
    out['nchecks'] = ctx.nchecks
    return out


def main():
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.setrecursionlimit(3000)
    for line in sys.stdin:
        req = json.loads(line)
        r = run(req)
        real.write(json.dumps(r) + '\n')
        real.flush()


if __name__ == '__main__':
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        r = run(req)
        print(json.dumps(r, indent=1))
        sys.exit(0 if r['status'] == 'ok' else 1)
    main()
