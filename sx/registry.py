"""Harness registry (imported by instrumented and by plain harness modules alike)."""
HARNESSES = {}      # property id -> list of Harness


class Harness:
    def __init__(self, prop, name, fn, cases, bounds, assumes):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.cases = cases
        self.bounds = bounds
        self.assumes = assumes


def harness(prop, cases=None, bounds='', assumes=()):
    """cases(tier) -> list of keyword dicts, one per separately explored configuration"""
    def deco(fn):
        h = Harness(prop, fn.__name__, fn, cases or (lambda tier: [{}]), bounds, list(assumes))
        lst = HARNESSES.setdefault(prop, [])
        lst[:] = [x for x in lst if x.name != h.name]
        lst.append(h)
        return fn
    return deco
