"""
Loading the code under verification.

`load_symbolic()` imports every openamundsen module from /repo's working tree.
The source text is used as is; the only changes made on the way are mechanical:

 * `for T in prange(E): BODY` iterates over `VC__.par(prange(E))`, and the local
   names BODY assigns are poisoned at the start of each iteration (an iteration
   of a parallel loop may not depend on another one);
 * `float(x)` and `int(x)` calls go to `VC__.float`/`VC__.int`, which accept symbolic numbers;
 * in functions that have a loop contract (loops.py) every for/while loop is cut
   at its head (see CutLoops);
 * `range` and `len` get versions that accept symbolic sizes (symloop.py);
 * module globals that are `numpy` are replaced by a stand-in whose array
   constructors can hold symbolic numbers, `min`/`max` get merging versions;
 * numba is disabled (NUMBA_DISABLE_JIT), i.e. the decorated Python functions
   themselves are executed.
"""

import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")


class VC:
    """Runtime support visible to the loaded modules as `VC__`."""

    @staticmethod
    def par(it):
        from . import core

        c = core.CTX
        if c is None:
            yield from it
            return
        from .arrays import ParIndex

        c.parallel += 1
        c.epoch += 1
        try:
            for x in it:
                yield ParIndex(x) if type(x) is int else x
        finally:
            c.parallel -= 1
            c.epoch += 1

    @staticmethod
    def float(x, *a):
        from . import core

        if core.CTX is not None and isinstance(x, core.S):
            return x
        return builtins.float(x, *a)

    @staticmethod
    def int(x, *a):
        from . import core

        if core.CTX is not None and isinstance(x, core.S):
            return core.trunc(x)
        return builtins.int(x, *a)

    @staticmethod
    def poison(name):
        from . import core

        if core.CTX is None:
            return None
        return Poison(name)

    @staticmethod
    def loop(lid, it=None):
        from . import loops

        return loops.make(lid, it)

    @staticmethod
    def get(loc, names):
        return tuple(loc.get(n, UNSET) for n in names)


class _Unset:
    def __repr__(self):
        return "<unset>"


UNSET = _Unset()


class Poison:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def _bad(self, *a, **k):
        from .core import LocalityViolation

        raise LocalityViolation(
            f"iteration of a parallel loop reads local {self.__dict__['_n']!r} of another iteration"
        )

    for _m in (
        "getattr getitem setitem add radd sub rsub mul rmul truediv rtruediv pow rpow neg lt le gt "
        "ge bool index float int call iter len iadd isub imul itruediv eq ne"
    ).split():
        locals()[f"__{_m}__"] = _bad
    __hash__ = None


def _is_prange(it):
    if not isinstance(it, ast.Call):
        return False
    f = it.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (
        isinstance(f, ast.Attribute) and f.attr == "prange"
    )


def assigned_names(body):
    names = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in names:
                names.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
    return [n for n in names if not n.startswith("VC__")]


def _expr(s):
    return ast.parse(s, mode="eval").body


class ParLoops(ast.NodeTransformer):
    def visit_For(self, node):
        self.generic_visit(node)
        if _is_prange(node.iter) and not node.orelse:
            node.iter = ast.Call(func=_expr("VC__.par"), args=[node.iter], keywords=[])
            pre = []
            for n in assigned_names(node.body):
                pre.append(ast.parse(f"{n} = VC__.poison({n!r})").body[0])
            node.body = pre + node.body
        return node


class Casts(ast.NodeTransformer):
    """float(x)/int(x) of a symbolic number is that number/its truncation."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("float", "int") and node.args:
            node.func = _expr(f"VC__.{node.func.id}")
        return node


class CutLoops(ast.NodeTransformer):
    """
    for T in E: B   ->  VC__L = VC__.loop(id, E)
                        while True:
                            x, y, .. = VC__L.head(VC__.get(locals(), ('x', 'y', ..)), locals())
                            if not VC__L.test(): break
                            T = VC__L.item()
                            B
    where x, y, .. are the names B assigns; while-loops likewise with the
    original condition in the place of test().  For loops without a contract
    head() returns the values unchanged.
    """

    def __init__(self, mod, qual):
        self.mod, self.qual, self.n = mod, qual, 0

    def visit_FunctionDef(self, node):
        return node  # nested functions are left alone

    def _cut(self, node, is_for):
        n = self.n
        self.n += 1
        names = assigned_names(node.body)
        if is_for:
            for x in ast.walk(node.target):
                if isinstance(x, ast.Name) and x.id in names:
                    names.remove(x.id)
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        L = f"VC__L{n}"
        lid = f"{self.mod}:{self.qual}:{n}"
        new = []
        init = ast.parse(f"{L} = VC__.loop({lid!r}, 0)").body[0]
        if is_for:
            init.value.args[1] = node.iter
        else:
            init.value.args[1] = ast.Constant(value=None)
        new.append(init)
        hb = []
        if names:
            tup = "(" + ", ".join(names) + ",)"
            hb += ast.parse(f"{tup} = {L}.head({tuple(names)!r}, VC__.get(locals(), {tuple(names)!r}), locals())").body
        else:
            hb += ast.parse(f"{L}.head((), (), locals())").body
        if is_for:
            hb += ast.parse(f"if not {L}.test(): break").body
            it = ast.parse(f"X = {L}.item()").body[0]
            it.targets = [node.target]
            hb.append(it)
        else:
            cond = ast.parse("if not X: break").body[0]
            cond.test.operand = node.test
            hb.append(cond)
            hb += ast.parse(f"{L}.enter()").body
        loop = ast.While(test=ast.Constant(value=True), body=hb + body, orelse=[])
        new.append(loop)
        return new

    def visit_For(self, node):
        if node.orelse or _is_prange(node.iter) or (
            isinstance(node.iter, ast.Call)
            and isinstance(node.iter.func, ast.Attribute)
            and node.iter.func.attr == "par"
        ):
            self.generic_visit(node)
            return node
        return self._cut(node, True)

    def visit_While(self, node):
        if node.orelse:
            self.generic_visit(node)
            return node
        return self._cut(node, False)


def transform(tree, mod, cut_quals):
    tree = Casts().visit(ParLoops().visit(tree))

    def walk(body, prefix):
        for node in body:
            if isinstance(node, ast.FunctionDef):
                q = prefix + node.name
                if f"{mod}:{q}" in cut_quals:
                    t = CutLoops(mod, q)
                    nb = []
                    for st in node.body:
                        r = t.visit(st)
                        nb.extend(r if isinstance(r, list) else [r])
                    node.body = nb
            elif isinstance(node, ast.ClassDef):
                walk(node.body, prefix + node.name + ".")

    walk(tree.body, "")
    ast.fix_missing_locations(tree)
    return tree


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, cut_quals):
        self.cut = cut_quals

    def find_spec(self, name, path=None, target=None):
        if name != "openamundsen" and not name.startswith("openamundsen."):
            return None
        rel = name.replace(".", "/")
        pkg = os.path.join(REPO, rel, "__init__.py")
        mod = os.path.join(REPO, rel + ".py")
        if os.path.exists(pkg):
            return importlib.util.spec_from_file_location(
                name, pkg, loader=_Loader(name, pkg, self.cut),
                submodule_search_locations=[os.path.dirname(pkg)],
            )
        if os.path.exists(mod):
            return importlib.util.spec_from_file_location(
                name, mod, loader=_Loader(name, mod, self.cut)
            )
        return None


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, cut):
        self.name, self.path, self.cut = name, path, cut

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as fh:
            src = fh.read()
        tree = ast.parse(src, self.path)
        tree = transform(tree, self.name, self.cut)
        code = compile(tree, self.path, "exec")
        module.__dict__["VC__"] = VC
        exec(code, module.__dict__)


def _merge_min(*a, **k):
    from . import core

    if core.CTX is not None and not k and len(a) >= 2 and any(isinstance(x, core.S) for x in a):
        r = a[0]
        for b in a[1:]:
            r = core.ite(core.lt(b, r), b, r)
        return r
    return builtins.min(*a, **k)


def _merge_max(*a, **k):
    from . import core

    if core.CTX is not None and not k and len(a) >= 2 and any(isinstance(x, core.S) for x in a):
        r = a[0]
        for b in a[1:]:
            r = core.ite(core.lt(r, b), b, r)
        return r
    return builtins.max(*a, **k)


MODULES = [
    "openamundsen.constants",
    "openamundsen.util",
    "openamundsen.tridiag",
    "openamundsen.heatconduction",
    "openamundsen.interpolation",
    "openamundsen.terrain",
    "openamundsen.surface",
    "openamundsen.landcover",
    "openamundsen.statevars",
    "openamundsen.model",
    "openamundsen.meteo.atmosphere",
    "openamundsen.meteo.interpolation",
    "openamundsen.meteo.precipcorr",
    "openamundsen.modules.snow.snow",
    "openamundsen.modules.snow.multilayermodel",
    "openamundsen.modules.snow.cryolayermodel",
    "openamundsen.modules.soil.soil",
    "openamundsen.modules.soil.init",
    "openamundsen.modules.canopy.canopy",
    "openamundsen.modules.evapotranspiration.evapotranspiration",
    "openamundsen.modules.glacier.glaciermodel",
    "openamundsen.modules.radiation.sunparams",
    "openamundsen.modules.radiation.clearsky",
    "openamundsen.modules.radiation.irradiance",
    "openamundsen.modules.radiation.shadows",
    "openamundsen.fileio.griddedoutput",
    "openamundsen.fileio.pointoutput",
]


def load_symbolic(cut_quals=()):
    assert os.environ.get("NUMBA_DISABLE_JIT") == "1"
    assert "openamundsen" not in sys.modules
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(set(cut_quals)))
    importlib.import_module("openamundsen")
    for m in MODULES:
        importlib.import_module(m)
    patch_numpy()


def patch_numpy():
    import numpy as np

    from . import arrays, symloop

    proxy = arrays.NpProxy(np)
    for name, mod in list(sys.modules.items()):
        if not (name == "openamundsen" or name.startswith("openamundsen.")) or mod is None:
            continue
        if not getattr(mod, "__file__", "").startswith(REPO):
            raise RuntimeError(f"{name} not loaded from {REPO}: {mod.__file__}")
        g = mod.__dict__
        for k, v in list(g.items()):
            if v is np:
                g[k] = proxy
            elif callable(v) and getattr(v, "__name__", None) in arrays.PROXY and v is getattr(
                np, v.__name__, None
            ):
                g[k] = _late(proxy, v.__name__)
        g.setdefault("min", _merge_min)
        g.setdefault("max", _merge_max)
        g.setdefault("range", symloop.vc_range)
        g.setdefault("len", symloop.vc_len)


def _late(proxy, name):
    return lambda *a, **k: getattr(proxy, name)(*a, **k)


def load_concrete():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import openamundsen

    f = openamundsen.__file__
    assert f.startswith(REPO + "/"), f
