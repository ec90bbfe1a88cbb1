"""Registry of the harnesses.  A harness is one Python function run twice: symbolically over the
instrumented code (every input a solver variable) and natively to replay a counterexample."""

REGISTRY = {}
ORDER = []


class Harness:
    def __init__(self, fn, props, quick, thorough, note, covers, budget, opts):
        self.fn = fn
        self.name = fn.__module__.split(".")[-1] + "." + fn.__name__
        self.props = props
        self.quick = quick
        self.thorough = thorough
        self.note = note
        self.covers = covers
        self.budget = budget
        self.opts = opts

    def instances(self, tier):
        cases = self.thorough if tier == "thorough" and self.thorough is not None else self.quick
        if callable(cases):
            cases = cases()
        return list(cases)


def harness(*props, quick=({},), thorough=None, bounds="", covers=(), budget=None, **opts):
    """quick/thorough: the keyword arguments of each instance; covers: labels that must be reached."""

    def deco(fn):
        h = Harness(fn, props, quick, thorough, bounds, tuple(covers), budget, opts)
        REGISTRY[h.name] = h
        ORDER.append(h.name)
        return fn

    return deco
