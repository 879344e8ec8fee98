"""Mutation testing of the checks.  python3 dev/mutate.py FILE [--every N] [--jobs J]   (scratch copies under /tmp/mut)

Makes one small syntactic change at a time in a scratch copy of /repo; mutants the existing tests notice are dropped; the checks
are run (via ABSINT_REPO) on the others.  Survivors are printed: each is either equivalent, outside all properties, or a hole.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "range.py": ["C01", "C02", "C04", "C05", "C06", "C07", "C42"],
    "span.py": ["C08", "C09", "C10", "C42"],
    "annotated_text_utils.py": ["C10", "C42"],
    "parameters.py": ["C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C20", "C21", "C23", "C42", "C44"],
    "io_utils.py": ["C22", "C23", "C24", "C25", "C43", "C42", "C44"],
    "key_value.py": ["C26", "C27", "C28", "C29", "C30", "C31", "C32", "C42", "C44"],
    "_graph.py": ["C33", "C17", "C42"], "iter_utils.py": ["C34", "C42"], "collection_utils.py": ["C34", "C42"], "iterutils.py": ["C34", "C42"],
    "preconditions.py": ["C35"], "checkpoints.py": ["C36", "C42", "C44"], "memory_amount.py": ["C38", "C42"],
    "misc_utils.py": ["C39", "C42"], "class_utils.py": ["C39", "C42"], "attrutils.py": ["C39", "C42"],
    "parameters_only_entrypoint.py": ["C37", "C42"], "logging_utils.py": ["C37", "C42"],
    "scripts/split_key_value_store.py": ["C32", "C42", "C44"], "scripts/join_key_value_stores.py": ["C32", "C42", "C44"],
    "scripts/downsample_key_value_store.py": ["C40", "C42", "C44"], "scripts/directory_to_key_value_store.py": ["C40", "C42", "C44"],
    "scripts/text_at_offsets.py": ["C40", "C42", "C44"], "scripts/tar_gz_to_zip.py": ["C41", "C44"],
}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NAMES = {"lower": "upper", "upper": "lower", "start": "end", "end": "start", "min": "max", "max": "min", "any": "all", "all": "any",
         "_lower_bound": "_upper_bound", "_upper_bound": "_lower_bound", "ValueError": "KeyError", "keys": "values",
         "lower_endpoint": "upper_endpoint", "upper_endpoint": "lower_endpoint", "is_dir": "exists", "is_file": "exists",
         "OPEN": "CLOSED", "CLOSED": "OPEN", "_BELOW_ALL": "_ABOVE_ALL", "_ABOVE_ALL": "_BELOW_ALL", "append": "remove",
         "bisect_left": "bisect_right", "bisect_right": "bisect_left", "ParameterError": "RuntimeError"}


def doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


def mutants(tree):
    """Yields (lineno, description, apply) where apply edits a deep copy located by index."""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in SWAP:
                    yield ln, "%s->%s" % (type(op).__name__, SWAP[type(op)].__name__), lambda t, i=i, k=k, op=op: t[i].ops.__setitem__(
                        k, SWAP[type(op)]())
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot) and isinstance(n.comparators[0], ast.Constant):
                yield ln, "is not None -> truth", ("replace", i, lambda x: x.left)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.Is) and isinstance(n.comparators[0], ast.Constant):
                yield ln, "is None -> not", ("replace", i, lambda x: ast.UnaryOp(ast.Not(), x.left))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.Is):
                yield ln, "is -> ==", lambda t, i=i: t[i].ops.__setitem__(0, ast.Eq())
        elif isinstance(n, ast.BoolOp):
            yield ln, "and<->or", lambda t, i=i: setattr(t[i], "op", ast.Or() if isinstance(t[i].op, ast.And) else ast.And())
            for k in range(len(n.values)):
                yield ln, "drop operand %d" % k, lambda t, i=i, k=k: t[i].values.pop(k) if len(t[i].values) > 2 else t[i].values.__setitem__(
                    k, t[i].values[1 - k])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield ln, "drop not", ("replace", i, lambda x: x.operand)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield ln, "+<->-", lambda t, i=i: setattr(t[i], "op", ast.Sub() if isinstance(t[i].op, ast.Add) else ast.Add())
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool) and ln:
            if type(n.value) is bool:
                yield ln, "flip bool", lambda t, i=i: setattr(t[i], "value", not t[i].value)
            else:
                yield ln, "const+1", lambda t, i=i: setattr(t[i], "value", t[i].value + 1)
        elif isinstance(n, ast.If):
            yield ln, "if True", lambda t, i=i: setattr(t[i], "test", ast.Constant(True))
            yield ln, "if False", lambda t, i=i: setattr(t[i], "test", ast.Constant(False))
        elif isinstance(n, ast.IfExp):
            yield ln, "ifexp body", ("replace", i, lambda x: x.body)
            yield ln, "ifexp orelse", ("replace", i, lambda x: x.orelse)
        elif isinstance(n, ast.Name) and n.id in NAMES:
            yield ln, "%s->%s" % (n.id, NAMES[n.id]), lambda t, i=i: setattr(t[i], "id", NAMES[t[i].id])
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield ln, ".%s->%s" % (n.attr, NAMES[n.attr]), lambda t, i=i: setattr(t[i], "attr", NAMES[t[i].attr])
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not isinstance(n.args[0], ast.Starred):
                yield ln, "swap args", lambda t, i=i: t[i].args.reverse()
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    yield ln, "drop keyword %s" % kw.arg, lambda t, i=i, k=k: t[i].keywords.pop(k)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                    "list", "set", "sorted", "dict", "tuple", "str", "immutableset", "immutabledict", "iter", "reversed", "pathify"):
                yield ln, "drop %s()" % n.func.id, ("replace", i, lambda x: x.args[0])
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield ln, "pass", ("stmt", i, lambda x: ast.Pass())
        elif isinstance(n, ast.With):
            yield ln, "with -> enter only", ("stmt", i, lambda x: unwith(x))
        elif isinstance(n, ast.Try):
            if n.finalbody and not n.handlers:
                yield ln, "drop finally", ("stmt", i, lambda x: x.body + x.finalbody)
            if n.handlers:
                yield ln, "drop handlers", ("stmt", i, lambda x: x.body)
        elif isinstance(n, ast.Return) and n.value is not None:
            yield ln, "return None", lambda t, i=i: setattr(t[i], "value", ast.Constant(None))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(n, ast.Expr) and not doc(n)):
            yield ln, "drop %s" % type(n).__name__, ("stmt", i, lambda x: ast.Pass())
        elif isinstance(n, (ast.FunctionDef,)):
            for k, d in enumerate(n.decorator_list):
                yield ln, "drop decorator", lambda t, i=i, k=k: t[i].decorator_list.pop(k)


def unwith(x):
    out = []
    for it in x.items:
        if it.optional_vars is not None:
            out.append(ast.Assign([it.optional_vars], it.context_expr, lineno=x.lineno))
        else:
            out.append(ast.Expr(it.context_expr))
    return out + x.body


def build(src, k):
    tree = ast.parse(src)
    for j, (ln, what, ap) in enumerate(mutants(tree)):
        if j == k:
            break
    else:
        return None
    t = copy.deepcopy(tree)
    nodes = list(ast.walk(t))
    if callable(ap):
        ap(nodes)
    else:
        kind, i, f = ap
        target = nodes[i]
        new = f(target)

        class R(ast.NodeTransformer):
            def visit(self, node):
                if node is target:
                    return new
                return self.generic_visit(node)

        t = R().visit(t)
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def main():
    rel = sys.argv[1]
    every = int(sys.argv[sys.argv.index("--every") + 1]) if "--every" in sys.argv else 1
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 6
    lines = None
    if "--lines" in sys.argv:
        a, b = sys.argv[sys.argv.index("--lines") + 1].split("-")
        lines = range(int(a), int(b) + 1)
    src = open("/repo/vistautils/" + rel).read()
    lst = [(k, ln, what) for k, (ln, what, _) in enumerate(mutants(ast.parse(src)))]
    if lines:
        lst = [x for x in lst if x[1] in lines]
    lst = lst[::every]
    pool = Queue()
    tag = rel.replace("/", "_")
    for j in range(jobs):
        d = "/tmp/mut/%s-%d" % (tag, j)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", "/repo/vistautils", "/repo/tests", d])
        for f in ("setup.cfg", "pytest.ini", "tox.ini", "setup.py"):
            if os.path.exists("/repo/" + f):
                shutil.copy("/repo/" + f, d)
        os.makedirs(d + "/out")
        pool.put(d)
    import threading
    table = {ln: l for ln, l in enumerate(src.split("\n"), 1)}
    have = json.load(open(VERIF + "/MANIFEST.json"))
    claimed = {c["property"] for c in have["checks"]}
    stats = {"tests": 0, "caught": 0, "survived": 0, "broken": 0}
    lock = threading.Lock()
    base = json.load(open("/opt/vp/BASELINE.json"))

    def one(x):
        k, ln, what = x
        d = pool.get()
        try:
            try:
                new = build(src, k)
                compile(new, rel, "exec")
            except Exception:
                return
            with open(d + "/vistautils/" + rel, "w") as f:
                f.write(new)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", ABSINT_REPO=d, ABSINT_OUT=d + "/out",
                       ABSINT_WORKERS="1")
            try:
                r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--basetemp=" + d + "/tmp"
                                    ] + DESEL, cwd=d, env=env,
                                   capture_output=True, text=True, timeout=60)
                killed = r.returncode != 0
            except subprocess.TimeoutExpired:
                killed = True
            if killed:
                with lock:
                    stats["tests"] += 1
                return
            hit = []
            for c in CHECKS[rel]:
                if c not in claimed:
                    continue
                try:
                    r = subprocess.run([PY, VERIF + "/check.py", c], cwd=VERIF, env=env, capture_output=True, text=True, timeout=300)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    hit.append((c, rc))
                    if rc == 1:
                        break
            with lock:
                if any(rc == 1 for _, rc in hit):
                    stats["caught"] += 1
                    if "-v" in sys.argv:
                        print("caught %s by %s: line %d %s | %s" % (rel, hit, ln, what, table.get(ln, "").strip()), flush=True)
                else:
                    stats["broken" if hit else "survived"] += 1
                    print("%s %s:%d %s %s | %s" % ("BROKEN" if hit else "SURVIVED", rel, ln, what, hit or "",
                                                   table.get(ln, "").strip()), flush=True)
        finally:
            pool.put(d)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, lst))
    print("%s: %d mutants: %r" % (rel, len(lst), stats), flush=True)
    for j in range(jobs):
        shutil.rmtree("/tmp/mut/%s-%d" % (tag, j), ignore_errors=True)


DESEL = []
if __name__ == "__main__":
    for t in json.load(open("/tmp/failing_tests.json")) if os.path.exists("/tmp/failing_tests.json") else []:
        DESEL += ["--deselect", t]
    main()
