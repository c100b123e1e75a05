"""Registry of harness cases."""

CASES = {}


class Case:
    def __init__(self, prop, fn, name, quick, thorough, opts):
        self.prop, self.fn, self.name = prop, fn, name
        self.quick, self.thorough, self.opts = quick, thorough, opts


def case(prop, quick=({},), thorough=None, **opts):
    """Register a harness function: one job per parameter dict and tier.

    options: nl (False/True/"nra"), ticks, timeout (ms per query), trig,
    validate (max traces), max_paths, hang (a run past the step bound is
    replayed and reported when the real code does not finish either).
    """
    def deco(fn):
        key = (fn.__module__.split(".")[-1], fn.__name__, prop)
        old = CASES.get(key)
        if old:
            # stacked decorators add cases
            q = list(quick)
            old.quick += q
            old.thorough += list(thorough if thorough is not None else q)
            for k, v in opts.items():
                old.opts[k] = max(v, old.opts.get(k, v))
            return fn
        CASES[key] = Case(prop, fn, fn.__name__, list(quick), list(thorough if thorough is not None else quick), opts)
        return fn
    return deco
