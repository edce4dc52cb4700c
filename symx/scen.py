"""Scenario registry used by harness modules."""


class Scenario:
    def __init__(self, fn, name, quick, thorough, covers, bounds, steps):
        self.fn, self.name, self.covers, self.bounds, self.steps = fn, name, tuple(covers), bounds, steps
        self.quick = [quick] if isinstance(quick, dict) else list(quick)
        if thorough is None: thorough = self.quick
        self.thorough = [thorough] if isinstance(thorough, dict) else list(thorough)

    def variants(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


def registry():
    table = {}
    def scenario(quick=None, thorough=None, covers=(), bounds='', steps=60000):
        def deco(fn):
            table[fn.__name__] = Scenario(fn, fn.__name__, {} if quick is None else quick, thorough, covers, bounds, steps)
            return fn
        return deco
    return table, scenario
