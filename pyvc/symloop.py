"""
Loops with a symbolic number of iterations whose loop-carried state is the ghost state of a contract.

`env.loop(inv, havoc)` gives the next symbolic loop its contract: the invariant is proved on entry,
the state is replaced by an arbitrary one that satisfies it, one arbitrary iteration of the real loop
body is executed and the invariant proved again; the code after the loop starts from the invariant
and the negated loop condition.  A body that changes a local variable of the function (other than
the loop variable) is not covered by the contract and is refused.
"""

import builtins
import sys

import z3

from . import core


class LoopSpec:
    def __init__(self, env, inv, havoc):
        self.env, self.inv, self.havoc = env, inv, havoc


def iterate(n, item, depth=1):
    c = core.ctx()
    spec = getattr(c, "loop_spec", None)
    if spec is None:
        raise core.EngineError("loop with a symbolic number of iterations and no contract")
    c.loop_spec = None
    env = spec.env
    zero = core.S(z3.IntVal(0))
    env.ensure("loop invariant holds on entry", spec.inv(zero))
    c.flush()
    k = core.S(c.fresh("iter", "I"))
    spec.havoc(k)
    c.assume(k.e >= 0)
    c.assume(k.e <= n.e)
    env.assume(spec.inv(k))
    if k < n:
        f = sys._getframe(1)
        before = {a: id(b) for a, b in f.f_locals.items()}
        x = item(k)
        yield x
        for a, b in f.f_locals.items():
            if b is not x and before.get(a) != id(b):
                raise core.EngineError(f"loop-carried local variable {a!r} is not in the loop contract")
        env.ensure("loop invariant is preserved by an arbitrary iteration", spec.inv(k + 1))
        raise core.PathAbort()
    c.assume(k.e == n.e)


class SymRange:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return iterate(self.n, lambda k: k)

    def __vc_len__(self):
        return self.n


def vc_range(*a):
    if core.CTX is not None and getattr(core.CTX, "loop_specs", None) and any(isinstance(x, core.S) for x in a):
        from .loops import Range

        b = (0, a[0], 1) if len(a) == 1 else a if len(a) == 3 else (*a, 1)
        if any(isinstance(x, core.S) and core._const_of(z3.simplify(x.e)) is None for x in b):
            return Range(*[x if isinstance(x, core.S) or i == 2 else core.S(z3.IntVal(int(x))) for i, x in enumerate(b)])
    if core.CTX is not None and getattr(core.CTX, "loop_spec", None) is not None:
        if len(a) == 1 and isinstance(a[0], core.S):
            return SymRange(a[0])
        if len(a) == 2 and isinstance(a[1], core.S) and not isinstance(a[0], core.S) and a[0] == 0:
            return SymRange(a[1])
    return builtins.range(*a)


def vc_len(x):
    f = getattr(x, "__vc_len__", None)
    return f() if f is not None else builtins.len(x)
