"""Registry of contracts (units)."""

UNITS = {}  # property id -> list of Unit


class Unit:
    def __init__(self, prop, name, fn, functions, cases, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = functions
        self.cases = cases
        self.opts = opts

    def case_list(self, tier):
        c = self.cases(tier) if callable(self.cases) else self.cases
        return c or [{}]


def unit(prop, functions, cases=None, name=None, **opts):
    """
    Register a contract for a property (or several, separated by blanks).

    functions: names of the functions of /repo whose code the contract covers
    cases: list of dicts (or callable tier -> list): enumerated configurations;
        a case with key 'bounded' marks a bounded instance of an unbounded
        contract, its value states the bound
    opts: exploration options (feas_ms, goal_ms, max_paths, max_s), 'conc'
        False to skip runtime validation, 'w' weight of the runtime search
    """

    def deco(fn):
        for p in prop.split():
            UNITS.setdefault(p, []).append(
                Unit(p, name or fn.__name__, fn, functions, cases or [{}], opts)
            )
        return fn

    return deco
