"""Validation of the integer model: random integer programs (+ - * // % comparisons) over bounded variables, every
path's witness re-run natively, and the witness sets checked to cover a brute-force sweep of the inputs."""
import sys, random, operator, itertools
sys.path.insert(0, '/verif/selftest')
sys.path.insert(0, '/verif')
import fuzz_engine as F
from sx.ctx import evaluate

OPS = [operator.add, operator.sub, operator.mul, operator.floordiv, operator.mod]
CMP = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]


def program(rng, nv):
    """instructions: (op, reg, reg or const) or (compare, reg, const, skip)"""
    code = []
    for i in range(rng.randint(2, 7)):
        a = rng.randrange(nv + len([c for c in code if c[0] == 'op']))
        n = nv + len([c for c in code if c[0] == 'op'])
        if rng.random() < .65:
            op = rng.choice(OPS)
            b = ('r', rng.randrange(n)) if op in (operator.add, operator.sub) and rng.random() < .7 else ('c', rng.choice([1, 2, 3, 5, 7, 10, 10, 100, -1, -3]))
            code.append(('op', op, a, b))
        else:
            code.append(('cmp', rng.choice(CMP), a, ('r', rng.randrange(n)) if rng.random() < .3 else ('c', rng.choice([0, 1, -1, 5, 10, 100, 37, 1000]))))
    return code


def run(code, regs, out):
    regs = list(regs)
    for kind, op, a, b in code:
        o = regs[b[1]] if b[0] == 'r' else b[1]
        if kind == 'op':
            regs.append(op(regs[a], o))
        elif op(regs[a], o):
            out.append(True)
            regs[0] = regs[0] + 1
        else:
            out.append(False)
    return regs


def main(seed, count):
    rng = random.Random(seed)
    bad = paths = 0
    for i in range(count):
        nv = rng.randint(1, 3)
        bounds = [sorted(rng.sample(range(-12, 13), 2)) for _ in range(nv)]
        code = program(rng, nv)

        def fn(ctx):
            out = []
            regs = run(code, [ctx.int(f'v{j}', lo, hi) for j, (lo, hi) in enumerate(bounds)], out)
            return out, regs
        seen = set()
        desc = f'{bounds} {code}'
        unsup = False
        for E, ctx, m, r in F.explore(fn):
            paths += 1
            if r[0] == 'unsup':
                unsup = True
                continue
            if r[0] == 'exc':
                bad += 1
                print('EXC', r, desc)
                continue
            out, regs = F.ev(E, m, r[1])
            ins = [evaluate(E, m, v) for name, kind, v in ctx.inputs]
            o2 = []
            r2 = run(code, ins, o2)
            seen.add(tuple(o2))
            if o2 != list(out) or r2 != list(regs):
                bad += 1
                print('BAD', desc, ins, out, o2, regs, r2)
        if not unsup:
            for ins in itertools.product(*(range(lo, hi + 1) for lo, hi in bounds)):
                o2 = []
                run(code, ins, o2)
                if tuple(o2) not in seen:
                    bad += 1
                    print('MISSED', desc, ins, o2)
                    break
    print(count, 'programs', paths, 'paths', bad, 'bad')
    return bad


if __name__ == '__main__':
    sys.exit(bool(main(int(sys.argv[1]), int(sys.argv[2]))))
