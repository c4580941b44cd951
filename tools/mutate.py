"""
Mutation run over the functions under contract (development aid; no check uses it):
  python tools/mutate.py OUT.jsonl N [PROP...]
Random small edits of the functions named in the units of each property, in a scratch worktree; every edit is
run through the run-time contract check and the verifier; survivors are listed for review.
"""
import ast, copy, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"


def functions():
    """name -> [(file, lineno, end_lineno)]"""
    out = {}
    for f in glob.glob(REPO + "/openamundsen/**/*.py", recursive=True):
        t = ast.parse(open(f).read())
        mod = os.path.basename(f)[:-3]
        def walk(n, cls=None):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                elif isinstance(c, ast.FunctionDef):
                    for k in ([f"{cls}.{c.name}"] if cls else []) + [f"{mod}.{c.name}", c.name]:
                        out.setdefault(k, []).append((f, c.lineno, c.end_lineno))
        walk(t)
    return out


class Mut(ast.NodeTransformer):
    """Numbers the mutation points of a function; applies the k-th."""
    def __init__(self, lo, hi, k=None, rng=None):
        self.lo, self.hi, self.k, self.n, self.rng, self.desc = lo, hi, k, 0, rng, None
    def hit(self, node):
        if not (self.lo <= getattr(node, "lineno", 0) <= self.hi):
            return False
        self.n += 1
        return self.k is not None and self.n - 1 == self.k
    def visit_Compare(self, node):
        self.generic_visit(node)
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        t = type(node.ops[0])
        if t in sw and self.hit(node):
            self.desc = f"{node.lineno}: cmp {t.__name__}: {ast.unparse(node)}"
            node.ops[0] = sw[t]()
        return node
    def visit_BinOp(self, node):
        self.generic_visit(node)
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
        t = type(node.op)
        if t in sw and self.hit(node):
            self.desc = f"{node.lineno}: op {t.__name__}: {ast.unparse(node)[:80]}"
            node.op = sw[t]()
        return node
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node):
            self.desc = f"{node.lineno}: boolop {ast.unparse(node)[:80]}"
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        return node
    def visit_Constant(self, node):
        if isinstance(node.value, (int, float)) and not isinstance(node.value, bool) and self.hit(node):
            self.desc = f"{node.lineno}: const {node.value}"
            return ast.copy_location(ast.Constant(node.value + 1 if node.value in (0, 1) or isinstance(node.value, int) else node.value * 1.1), node)
        return node
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Not, ast.Invert)) and self.hit(node):
            self.desc = f"{node.lineno}: drop not {ast.unparse(node)[:80]}"
            return node.operand
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        sw = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "any": "all", "all": "any"}
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
        if nm in sw and self.hit(node):
            self.desc = f"{node.lineno}: call {ast.unparse(node)[:80]}"
            if isinstance(f, ast.Attribute):
                f.attr = sw[nm]
            else:
                f.id = sw[nm]
        return node
    def stmt(self, node):
        self.generic_visit(node)
        if self.hit(node):
            self.desc = f"{node.lineno}: drop {ast.unparse(node)[:80]}"
            return ast.copy_location(ast.Pass(), node)
        return node
    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return node
        if isinstance(node.value, ast.Call) and "logger" in ast.unparse(node.value.func):
            return node
        return self.stmt(node)
    visit_AugAssign = stmt
    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            return self.stmt(node)
        self.generic_visit(node)
        return node
    def visit_FunctionDef(self, node):
        # neither decorators nor defaults nor annotations
        node.body = [self.visit(s) for s in node.body]
        return node
    def visit_Raise(self, node):
        return node
    def visit_JoinedStr(self, node):
        return node


def units(prop):
    """Functions named in the units of a property."""
    out = []
    for f in sorted(glob.glob(ROOT + "/contracts/c_*.py")):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "unit" and n.args[0].value == prop:
                try:
                    out += ast.literal_eval(n.args[1])
                except ValueError:
                    print("not literal:", f, n.lineno)
    return sorted(set(out))


def run(prop, repo, tmp):
    env = dict(os.environ, PYTHONPATH=ROOT, NUMBA_DISABLE_JIT="1", PYTHONWARNINGS="ignore", PYVC_REPO=repo,
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
    o = os.path.join(tmp, "c.json")
    s = os.path.join(tmp, "s.json")
    for f in (o, s):
        if os.path.exists(f):
            os.unlink(f)
    subprocess.run([PY, "-m", "pyvc.conc", prop, "--out", o, "--budget", "10", "--seed", "1"], cwd=ROOT, env=env,
                   capture_output=True, timeout=600)
    if not os.path.exists(o):
        return "load error"
    h = json.load(open(o))["hits"]
    if h:
        return f"input: {h[0]['unit']}: {h[0]['clause']}"
    subprocess.run([PY, "-m", "pyvc.symrun", prop, "--tier", "quick", "--out", s, "--deadline", "200"], cwd=ROOT, env=env,
                   capture_output=True, timeout=600)
    if not os.path.exists(s):
        return "SURVIVED (no symbolic result)"
    r = json.load(open(s))["results"]
    bad = [(x["unit"], x["bad"][0]["name"]) for x in r if x["nbad"]]
    if bad:
        return f"obligation: {bad[0]}"
    un = sorted({x["unit"] for x in r if x["crash"] or x["errors"] or x["incomplete"]})
    return "SURVIVED" + (f" (unsupported: {un})" if un else "")


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    props = sys.argv[3:]
    F = functions()
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        for prop in props:
            rng = random.Random(f"{prop}-{os.environ.get('MSEED', 1)}")
            pts = []
            for name in units(prop):
                key = name if name in F else name.split(".")[-1]
                for f, lo, hi in F.get(key, [])[:1]:
                    m = Mut(lo, hi)
                    m.visit(ast.parse(open(f).read()))
                    pts += [(f, lo, hi, k) for k in range(m.n)]
            pts = sorted(set(pts))
            rng.shuffle(pts)
            for f, lo, hi, k in pts[:n]:
                w = os.path.join(tmp, "r")
                shutil.rmtree(w, ignore_errors=True)
                os.makedirs(w)
                shutil.copytree(REPO + "/openamundsen", w + "/openamundsen", ignore=shutil.ignore_patterns("__pycache__"))
                m = Mut(lo, hi, k)
                t = m.visit(ast.parse(open(f).read()))
                ast.fix_missing_locations(t)
                open(os.path.join(w, os.path.relpath(f, REPO)), "w").write(ast.unparse(t))
                try:
                    res = run(prop, w, tmp)
                except subprocess.TimeoutExpired:
                    res = "timeout"
                with open(out, "a") as fh:
                    fh.write(json.dumps(dict(prop=prop, file=os.path.relpath(f, REPO), mut=m.desc, res=res)) + "\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
