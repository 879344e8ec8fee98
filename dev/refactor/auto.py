"""Applies mechanical behaviour-preserving rewrites to every function of a scratch copy of the repository.

usage: auto.py KIND [check ids...]   KIND: unparse, locals, temps, invert, loops, reorder, privates, else, demorgan, lambdas"""
import ast
import builtins
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, VERIF)
from specs.table import TABLE  # noqa: E402

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Locals(ast.NodeTransformer):
    """Renames the local variables (not the parameters) of every function without inner functions or classes."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        inner = [n for n in ast.walk(f) if n is not f and isinstance(n, FN + (ast.ClassDef, ast.Global, ast.Nonlocal))]
        if any(not isinstance(n, ast.Lambda) for n in inner):
            return f
        a = f.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for n in inner:
            params |= {x.arg for x in n.args.args}
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + "_v"
            elif isinstance(n, ast.ExceptHandler) and n.name:
                pass
        return f


class Temps(ast.NodeTransformer):
    """Names every returned expression and every condition first."""

    def __init__(self):
        self.k = 0

    def tmp(self, v):
        self.k += 1
        n = "tmp_%d" % self.k
        return ast.Assign([ast.Name(n, ast.Store())], v, lineno=1), ast.Name(n, ast.Load())

    def visit_Return(self, s):
        self.generic_visit(s)
        if s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
            return s
        a, n = self.tmp(s.value)
        return [a, ast.Return(n)]

    def visit_Raise(self, s):
        if s.exc is None or not isinstance(s.exc, ast.Call):
            return s
        a, n = self.tmp(s.exc)
        return [a, ast.Raise(n, s.cause)]

    def visit_For(self, s):
        self.generic_visit(s)
        if isinstance(s.iter, ast.Name):
            return s
        a, n = self.tmp(s.iter)
        s.iter = n
        return [a, s]

    def visit_If(self, s):
        self.generic_visit(s)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
            return s
        a, n = self.tmp(s.test)
        s.test = n
        return [a, s]

    def visit_ClassDef(self, c):
        c.body = [self.generic_visit(x) if isinstance(x, FN) else x for x in c.body]
        return c

    def visit_Module(self, m):
        m.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in m.body]
        return m


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A;  a conditional expression likewise."""

    def visit_If(self, s):
        self.generic_visit(s)
        if not s.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Pass()], s.body)
        return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)

    def visit_IfExp(self, e):
        self.generic_visit(e)
        return ast.IfExp(ast.UnaryOp(ast.Not(), e.test), e.orelse, e.body)


class Loops(ast.NodeTransformer):
    """for x in y: body  ->  an explicit iterator with while; comprehensions of one clause -> generator functions."""

    def __init__(self):
        self.k = 0

    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse:
            return s
        self.k += 1
        it = "it_%d" % self.k
        end = "end_%d" % self.k
        val = "val_%d" % self.k
        new = ast.parse("%s = iter(None)\n%s = object()\nwhile True:\n    %s = next(%s, %s)\n    if %s is %s:\n        break\n" % (
            it, end, val, it, end, val, end)).body
        new[0].value.args[0] = s.iter
        new[2].body += [ast.Assign([s.target], ast.Name(val, ast.Load()), lineno=1)] + s.body
        return new


class Else(ast.NodeTransformer):
    """Statements after an if which always leaves go to its else branch, and an else after one which leaves is unfolded."""

    def fix(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                if s.orelse:
                    out.append(ast.If(s.test, s.body, []))
                    return out + self.fix(s.orelse + body[i + 1:])
                if body[i + 1:]:
                    out.append(ast.If(s.test, s.body, self.fix(body[i + 1:])))
                    return out
            out.append(s)
        return out

    def visit_FunctionDef(self, f):
        f.body = self.fix(f.body)
        for n in ast.walk(f):
            if isinstance(n, (ast.For, ast.While, ast.With)):
                n.body = self.fix(n.body)
        return f


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, e):
        self.generic_visit(e)
        return e

    def visit_If(self, s):
        self.generic_visit(s)
        t = s.test
        if isinstance(t, ast.BoolOp):
            op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return s

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) != 1:
            return e
        flip = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(e.ops[0]))
        if flip is None:
            return e
        return ast.UnaryOp(ast.Not(), ast.Compare(e.left, [flip()], e.comparators))


class Lambdas(ast.NodeTransformer):
    """List, set and dict comprehensions -> list(...) and so on of generator expressions; f-strings -> join; any/all -> loops kept."""

    def visit_ListComp(self, e):
        self.generic_visit(e)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(e.elt, e.generators)], [])

    def visit_SetComp(self, e):
        self.generic_visit(e)
        return ast.Call(ast.Name("set", ast.Load()), [ast.GeneratorExp(e.elt, e.generators)], [])

    def visit_DictComp(self, e):
        self.generic_visit(e)
        return ast.Call(ast.Name("dict", ast.Load()), [ast.GeneratorExp(ast.Tuple([e.key, e.value], ast.Load()), e.generators)], [])

    def visit_JoinedStr(self, e):
        self.generic_visit(e)
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None:
                fn = {114: "repr", 97: "ascii"}.get(v.conversion, "str")
                parts.append(ast.Call(ast.Name(fn, ast.Load()), [v.value], []))
            else:
                return e
        if any(isinstance(v, ast.FormattedValue) and v.format_spec for v in e.values):
            return e
        return ast.Call(ast.Attribute(ast.Constant(""), "join", ast.Load()), [ast.Tuple(parts, ast.Load())], [])

    def visit_FormattedValue(self, e):
        e.value = self.visit(e.value)
        return e


class Reorder(ast.NodeTransformer):
    """The methods of every class without decorators that depend on order, in the opposite order."""

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        names = [getattr(s, "name", None) for s in c.body]
        plain = [i for i, s in enumerate(c.body)
                 if isinstance(s, ast.FunctionDef) and not s.decorator_list and names.count(s.name) == 1]
        for i, s in zip(plain, [c.body[j] for j in reversed(plain)]):
            c.body[i] = s
        return c


class Helpers(ast.NodeTransformer):
    """The body of every method moves to a private function of the module."""

    def __init__(self):
        self.new = []

    def visit_Module(self, m):
        body = []
        for s in m.body:
            self.new = []
            s = self.visit(s)
            body += self.new + [s]
        m.body = body
        return m

    def visit_ClassDef(self, c):
        for s in c.body:
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or s.name in ("__init__", "__init_subclass__"):
                continue
            if any(isinstance(n, ast.Name) and n.id in ("super", "__class__") or isinstance(n, (ast.Yield, ast.YieldFrom)) or
                   isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(s)):
                continue
            a = s.args
            if a.posonlyargs or a.vararg or a.kwarg or not a.args:
                continue
            name = "_%s_%s_body" % (c.name.strip("_").lower(), s.name.strip("_"))
            names = [x.arg for x in a.args + a.kwonlyargs]
            body = s.body
            doc = []
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                doc, body = body[:1], body[1:]
            if not body:
                continue
            h = ast.FunctionDef(name, ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body, [], lineno=1)
            h.type_params = []
            self.new.append(h)
            s.body = doc + [ast.Return(ast.Call(ast.Name(name, ast.Load()), [ast.Name(n, ast.Load()) for n in names], []))]
        return c


KINDS = {"unparse": ast.NodeTransformer, "locals": Locals, "temps": Temps, "invert": Invert, "loops": Loops, "else": Else,
         "demorgan": DeMorgan, "lambdas": Lambdas, "reorder": Reorder, "helpers": Helpers}


def privates(files, tests):
    """Names starting with one underscore which no test mentions get another name everywhere."""
    names = set()
    for s in files.values():
        names |= set(re.findall(r"(?<![\w])_[a-z][A-Za-z0-9_]+\b|(?<![\w])_[A-Z][A-Za-z0-9_]+\b", s))
    bound = {m for s in files.values() for m in re.findall(r"^    (_\w+)\s*[:=]", s, re.M)}  # attrs derives arguments from them
    bound |= {m for s in files.values() for m in re.findall(r"(_\w+)[^\n]*[\x22\x27]", s) if re.search(r"[\x22\x27][^\x22\x27\n]*" + m + r"\b[^\n]*[\x22\x27]", s)}
    bound |= {n for n in names if "from_param" in n or "_source" in n and "_from" in n}
    bound |= {m for s in files.values() for m in re.findall(r"import (_\w+)", s) if m.startswith(("_to_", "_check_isinstance"))}
    names = {n for n in names if n not in tests and n not in bound and not n.startswith("__") and not hasattr(builtins, n) and
             n not in ("_includes", "_replace", "_asdict", "_fields", "_name")}
    return {f: re.sub(r"(?<![\w\"'%.])_\w+\b|(?<=\.)_\w+\b", lambda m: m.group() + "_x" if m.group() in names else m.group(), s)
            for f, s in files.items()}


def main():
    kind, ids = sys.argv[1], sys.argv[2:] or list(TABLE)
    d = tempfile.mkdtemp(prefix="refactor")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        paths = glob.glob(d + "/repo/vistautils/**/*.py", recursive=True)
        files = {p: open(p, encoding="utf-8").read() for p in paths}
        if kind == "privates":
            tests = "\n".join(open(p, encoding="utf-8").read() for p in glob.glob("/repo/tests/**/*.py", recursive=True))
            files = privates(files, tests)
        else:
            for p, s in files.items():
                t = KINDS[kind]().visit(ast.parse(s))
                files[p] = ast.unparse(ast.fix_missing_locations(t)) + "\n"
        for p, s in files.items():
            open(p, "w", encoding="utf-8").write(s)
        r = subprocess.run([os.environ.get("VPY", "/opt/venv/bin/python"), "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                           cwd=d + "/repo", env=dict(os.environ, PYTHONPATH=d + "/repo"), capture_output=True, text=True)
        print(kind, "\n".join(x[:200] for x in r.stdout.split("\n") if x.startswith(("FAILED", "ERROR")) or " passed" in x or " error" in x),
              flush=True)
        if os.environ.get("KEEP"):
            shutil.rmtree(os.environ["KEEP"], ignore_errors=True)
            shutil.copytree(d + "/repo", os.environ["KEEP"])

        def one(c):
            e = dict(os.environ, ABSINT_REPO=d + "/repo", ABSINT_OUT=d + "/" + c)
            os.makedirs(d + "/" + c)
            return c, subprocess.run([sys.executable, VERIF + "/check.py", c], env=e, capture_output=True, text=True)

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for c, r in ex.map(one, ids):
                if r.returncode or "inconclusive: " in r.stdout:
                    print(kind, c, r.returncode, "\n".join(x[:400] for x in r.stdout.split("\n")[:int(os.environ.get("N", "5"))]),
                          r.stderr[-600:], flush=True)
    finally:
        shutil.rmtree(d)


main()
