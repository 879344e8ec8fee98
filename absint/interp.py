"""Evaluator of Python syntax trees over the abstract values of this package.

The source under /repo is parsed with `ast`, every function body is compiled to a tree of
closures, and evaluated on abstract arguments.  The repository's modules are never imported
and its byte code is never run.
"""
import ast
import builtins
import collections.abc
import re
import types

from .core import M, Budget, EngineError, Unmodelled, has_token
from .values import ASet, str_len

MISSING = object()
BRK, CNT, RET = "break", "continue", "return"


class Frame:
    __slots__ = ("v", "g", "p", "ret", "cell", "file", "qual", "exc")

    def __init__(self, v, g, p, file, qual):
        self.v = v
        self.g = g
        self.p = p
        self.ret = None
        self.cell = None
        self.file = file
        self.qual = qual


class Scope:
    def __init__(self, kind, parent, name, cls=None):
        self.kind = kind
        self.parent = parent
        self.name = name
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.cls = cls if cls is not None else (parent.cls if parent else None)
        self.qual = name if parent is None or parent.kind == "module" else parent.qual + (
            ".<locals>." if parent.kind == "function" else ".") + name

    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__") and "." not in name:
            return "_" + self.cls.lstrip("_") + name
        return name


class _Collect(ast.NodeVisitor):
    """Names bound in one scope (not descending into nested scopes)."""

    def __init__(self, scope):
        self.s = scope
        self.has_yield = False

    def bind(self, name):
        self.s.locals.add(self.s.mangle(name))

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bind(n.id)

    def visit_FunctionDef(self, n):
        self.bind(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bind(n.name)
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def _comp(self, n):
        # the first iterable is evaluated here; walrus targets bind here too
        self.visit(n.generators[0].iter)
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                self.bind(sub.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.bind((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.bind(a.asname or a.name)

    def visit_Global(self, n):
        self.s.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.s.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bind(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.bind(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.bind(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.bind(n.rest)
        self.generic_visit(n)


def collect(scope, body):
    c = _Collect(scope)
    for s in body:
        c.visit(s)
    scope.locals -= scope.globals
    scope.locals -= scope.nonlocals
    return c.has_yield


def contains_yield(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    v = V()
    if isinstance(node, list):
        for n in node:
            v.visit(n)
    else:
        v.visit(node)
    return v.found


_STR_HOMOMORPHIC = {
    "join", "split", "rsplit", "splitlines", "strip", "lstrip", "rstrip", "startswith", "endswith",
    "replace", "format", "encode", "partition", "rpartition", "find", "rfind", "index", "rindex",
    "__contains__", "__eq__", "__ne__", "__hash__", "__add__", "removeprefix", "removesuffix",
    "__str__", "__repr__", "__format__", "__mod__", "__radd__", "count", "format_map", "isidentifier",
    "isspace", "expandtabs", "__len__", "__iter__",
}
_BuiltinMethod = type("".join)


class Compiler:
    def __init__(self, filename, modname, machine_builtins):
        self.file = filename
        self.mod = modname
        self.builtins = machine_builtins

    # ------------------------------------------------------------------ names
    def load_name(self, name, scope):
        name = scope.mangle(name)
        bi = self.builtins

        def glob(f, name=name):
            g = f.g
            if name in g:
                return g[name]
            if name in bi:
                return bi[name]
            raise NameError("name %r is not defined" % name)

        if name in scope.globals or scope.kind == "module":
            return glob
        if scope.kind == "class":
            outer = self._outer(name, scope.parent, 1) or glob

            def cls(f):
                try:
                    return f.v[name]
                except KeyError:
                    return outer(f)

            return cls
        if name in scope.locals:
            def loc(f):
                try:
                    return f.v[name]
                except KeyError:
                    raise UnboundLocalError(
                        "local variable %r referenced before assignment" % name) from None

            return loc
        if name == "__class__":
            return self._class_cell(scope)
        return self._outer(name, scope.parent, 1) or glob

    def _outer(self, name, scope, depth):
        while scope is not None and scope.kind != "module":
            if scope.kind != "class" and name in scope.locals:
                if depth == 1:
                    def up1(f):
                        try:
                            return f.p.v[name]
                        except KeyError:
                            raise NameError("free variable %r" % name) from None

                    return up1

                def up(f, depth=depth):
                    for _ in range(depth):
                        f = f.p
                    try:
                        return f.v[name]
                    except KeyError:
                        raise NameError("free variable %r" % name) from None

                return up
            scope = scope.parent
            depth += 1
        return None

    def _class_cell(self, scope):
        depth = 0
        while scope is not None and scope.kind != "class":
            scope = scope.parent
            depth += 1
        if scope is None:
            raise Unmodelled("__class__ outside class")

        def cell(f):
            for _ in range(depth):
                f = f.p
            return f.cell[0]

        return cell

    def store_name(self, name, scope):
        name = scope.mangle(name)
        if name in scope.globals:
            def sg(f, val):
                f.g[name] = val

            return sg
        if name in scope.nonlocals or (scope.kind == "comp" and name not in scope.locals):
            s, depth = scope.parent, 1
            while s is not None and not (s.kind in ("function",) and name in s.locals):
                if s.kind == "module" or (scope.kind == "comp" and s.kind in ("class",)):
                    break
                s = s.parent
                depth += 1

            def sn(f, val):
                for _ in range(depth):
                    f = f.p
                f.v[name] = val

            return sn

        def sl(f, val):
            f.v[name] = val

        return sl

    # ------------------------------------------------------------ expressions
    def expr(self, n, sc):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            kind = type(n).__name__

            def bad(f):
                raise Unmodelled("expression %s at %s:%s" % (kind, self.file, getattr(n, "lineno", "?")))

            return bad
        return m(n, sc)

    def e_Constant(self, n, sc):
        v = n.value
        return lambda f: v

    def e_Name(self, n, sc):
        return self.load_name(n.id, sc)

    def e_Tuple(self, n, sc):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            lst = self._starlist(n.elts, sc)
            return lambda f: tuple(lst(f))
        es = [self.expr(e, sc) for e in n.elts]
        return lambda f: tuple([e(f) for e in es])

    def _starlist(self, elts, sc):
        parts = [(isinstance(e, ast.Starred), self.expr(e.value if isinstance(e, ast.Starred) else e, sc))
                 for e in elts]

        def run(f):
            out = []
            for star, e in parts:
                if star:
                    out.extend(e(f))
                else:
                    out.append(e(f))
            return out

        return run

    def e_List(self, n, sc):
        return self._starlist(n.elts, sc)

    def e_Set(self, n, sc):
        lst = self._starlist(n.elts, sc)
        return lambda f: ASet(lst(f))

    def e_Dict(self, n, sc):
        parts = [(self.expr(k, sc) if k is not None else None, self.expr(v, sc))
                 for k, v in zip(n.keys, n.values)]

        def run(f):
            out = {}
            for k, v in parts:
                if k is None:
                    out.update(v(f))
                else:
                    kk = k(f)
                    out[kk] = v(f)
            return out

        return run

    _BIN = {
        ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
        ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
        ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
        ast.MatMult: lambda a, b: a @ b,
    }

    def _iop(op):  # noqa
        import operator
        fn = getattr(operator, op)
        return lambda a, b: fn(a, b)

    _AUG = {
        ast.Add: _iop("iadd"), ast.Sub: _iop("isub"), ast.Mult: _iop("imul"), ast.Div: _iop("itruediv"),
        ast.FloorDiv: _iop("ifloordiv"), ast.Mod: _iop("imod"), ast.Pow: _iop("ipow"),
        ast.BitOr: _iop("ior"), ast.BitAnd: _iop("iand"), ast.BitXor: _iop("ixor"),
        ast.LShift: _iop("ilshift"), ast.RShift: _iop("irshift"), ast.MatMult: _iop("imatmul"),
    }

    def e_BinOp(self, n, sc):
        op = self._BIN[type(n.op)]
        a, b = self.expr(n.left, sc), self.expr(n.right, sc)
        if isinstance(n.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            def run(f):
                r = op(a(f), b(f))
                return ASet(r) if type(r) is set else r

            return run
        return lambda f: op(a(f), b(f))

    def e_UnaryOp(self, n, sc):
        a = self.expr(n.operand, sc)
        if isinstance(n.op, ast.Not):
            return lambda f: not a(f)
        if isinstance(n.op, ast.USub):
            return lambda f: -a(f)
        if isinstance(n.op, ast.UAdd):
            return lambda f: +a(f)
        return lambda f: ~a(f)

    def e_BoolOp(self, n, sc):
        es = [self.expr(e, sc) for e in n.values]
        if isinstance(n.op, ast.And):
            def run(f):
                v = None
                for i, e in enumerate(es):
                    v = e(f)
                    if i + 1 < len(es) and not v:
                        return v
                return v
        else:
            def run(f):
                v = None
                for i, e in enumerate(es):
                    v = e(f)
                    if i + 1 < len(es) and v:
                        return v
                return v
        return run

    _CMP = {
        ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b,
        ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
        ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
        ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
    }

    def e_Compare(self, n, sc):
        first = self.expr(n.left, sc)
        rest = [(self._CMP[type(o)], self.expr(c, sc)) for o, c in zip(n.ops, n.comparators)]
        if len(rest) == 1:
            op, c = rest[0]
            return lambda f: op(first(f), c(f))

        def run(f):
            a = first(f)
            r = True
            for i, (op, c) in enumerate(rest):
                b = c(f)
                r = op(a, b)
                if i + 1 < len(rest) and not r:
                    return r
                a = b
            return r

        return run

    def e_IfExp(self, n, sc):
        t, a, b = self.expr(n.test, sc), self.expr(n.body, sc), self.expr(n.orelse, sc)
        return lambda f: a(f) if t(f) else b(f)

    def e_NamedExpr(self, n, sc):
        v = self.expr(n.value, sc)
        st = self.store_name(n.target.id, sc)

        def run(f):
            x = v(f)
            st(f, x)
            return x

        return run

    def e_Attribute(self, n, sc):
        v = self.expr(n.value, sc)
        attr = sc.mangle(n.attr)
        return lambda f: getattr(v(f), attr)

    def e_Subscript(self, n, sc):
        v = self.expr(n.value, sc)
        s = self.expr(n.slice, sc)

        def run(f):
            x = v(f)
            i = s(f)
            if type(x) is str:
                return str_index(x, i)
            if type(x) in (list, tuple, bytes) and type(i) is slice and any(
                    hasattr(y, "__abslen_index__") for y in (i.start, i.stop, i.step)):
                raise Unmodelled("slice of concrete sequence by abstract index")
            return x[i]

        return run

    def e_Slice(self, n, sc):
        parts = [self.expr(x, sc) if x is not None else (lambda f: None) for x in (n.lower, n.upper, n.step)]
        return lambda f: slice(parts[0](f), parts[1](f), parts[2](f))

    def e_Starred(self, n, sc):
        raise Unmodelled("starred expression")

    def e_JoinedStr(self, n, sc):
        parts = [self.expr(p, sc) for p in n.values]
        return lambda f: "".join([p(f) for p in parts])

    def e_FormattedValue(self, n, sc):
        v = self.expr(n.value, sc)
        spec = self.expr(n.format_spec, sc) if n.format_spec is not None else None
        conv = n.conversion

        def run(f):
            x = v(f)
            if conv == 114:
                x = repr(x)
            elif conv == 115:
                x = str(x)
            elif conv == 97:
                x = ascii(x)
            return format(x, spec(f) if spec else "")

        return run

    def e_Lambda(self, n, sc):
        return self.function(n, sc, "<lambda>")

    def e_Call(self, n, sc):
        line = n.lineno
        file = self.file
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cell = self._class_cell(sc)
            depth = 0
            s = sc
            while s.kind == "comp":
                s = s.parent
                depth += 1
            first = s.argnames[0] if getattr(s, "argnames", None) else None

            def sup(f):
                g = f
                for _ in range(depth):
                    g = g.p
                return super(cell(f), g.v[first])

            return sup
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars", "dir") and not n.args:
            which = n.func.id
            if which == "globals":
                return lambda f: f.g
            return lambda f: dict(f.v)
        fn = self.expr(n.func, sc)
        simple = not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords)
        if simple and not n.keywords:
            args = [self.expr(a, sc) for a in n.args]

            def call0(f):
                fv = fn(f)
                a = [x(f) for x in args]
                if type(fv) is _BuiltinMethod:
                    return native_method(fv, a, {})
                M.call_site = (file, line)
                if fv is int and len(a) == 1 and isinstance(a[0], int) and hasattr(a[0], "__abslen_index__"):
                    return a[0]
                return fv(*a)

            return call0
        arglist = self._starlist(n.args, sc)
        kws = [(k.arg, self.expr(k.value, sc)) for k in n.keywords]

        def call(f):
            fv = fn(f)
            a = arglist(f)
            kw = {}
            for k, e in kws:
                if k is None:
                    for kk, vv in dict(e(f)).items():
                        if kk in kw:
                            raise TypeError("got multiple values for keyword argument %r" % kk)
                        kw[kk] = vv
                else:
                    kw[k] = e(f)
            if type(fv) is _BuiltinMethod:
                return native_method(fv, a, kw)
            M.call_site = (file, line)
            return fv(*a, **kw)

        return call

    # comprehensions
    def _comp(self, n, sc, elt_nodes):
        cs = Scope("comp", sc, "<comp>")
        for g in n.generators:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    cs.locals.add(t.id)
        gens = []
        for i, g in enumerate(n.generators):
            it = self.expr(g.iter, sc if i == 0 else cs)
            gens.append((it, self.target(g.target, cs), [self.expr(c, cs) for c in g.ifs]))
        elts = [self.expr(e, cs) for e in elt_nodes]

        def rec(f, i, first):
            it, tgt, ifs = gens[i]
            seq = first if i == 0 else iterate(it(f))
            for x in seq:
                M.path.steps += 1
                if M.path.steps > M.budget:
                    raise Budget("step budget")
                tgt(f, x)
                ok = True
                for c in ifs:
                    if not c(f):
                        ok = False
                        break
                if not ok:
                    continue
                if i + 1 == len(gens):
                    yield elts[0](f) if len(elts) == 1 else (elts[0](f), elts[1](f))
                else:
                    yield from rec(f, i + 1, None)

        def start(f):
            first = iterate(gens[0][0](f))
            return rec(Frame({}, f.g, f, f.file, f.qual), 0, first)

        return start

    def e_ListComp(self, n, sc):
        r = self._comp(n, sc, [n.elt])
        return lambda f: list(r(f))

    def e_SetComp(self, n, sc):
        r = self._comp(n, sc, [n.elt])
        return lambda f: ASet(r(f))

    def e_GeneratorExp(self, n, sc):
        return self._comp(n, sc, [n.elt])

    def e_DictComp(self, n, sc):
        r = self._comp(n, sc, [n.key, n.value])
        return lambda f: dict(r(f))

    # -------------------------------------------------------------- targets
    def target(self, t, sc):
        if isinstance(t, ast.Name):
            return self.store_name(t.id, sc)
        if isinstance(t, ast.Attribute):
            v = self.expr(t.value, sc)
            attr = sc.mangle(t.attr)

            def sa(f, x):
                setattr(v(f), attr, x)

            return sa
        if isinstance(t, ast.Subscript):
            v, s = self.expr(t.value, sc), self.expr(t.slice, sc)

            def ss(f, x):
                v(f)[s(f)] = x

            return ss
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ts = [self.target(e.value if isinstance(e, ast.Starred) else e, sc) for e in t.elts]

            def st(f, x):
                vals = list(iterate(x))
                if star:
                    i = star[0]
                    after = len(ts) - i - 1
                    if len(vals) < len(ts) - 1:
                        raise ValueError("not enough values to unpack")
                    vals = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
                if len(vals) < len(ts):
                    raise ValueError("not enough values to unpack (expected %d, got %d)" % (len(ts), len(vals)))
                if len(vals) > len(ts):
                    raise ValueError("too many values to unpack (expected %d)" % len(ts))
                for s, vv in zip(ts, vals):
                    s(f, vv)

            return st
        raise Unmodelled("assignment target %s" % type(t).__name__)

    # ------------------------------------------------------------- patterns
    def pattern(self, p, sc):
        """Compile a match pattern to a function (frame, subject) -> bool which binds the captured names."""
        if isinstance(p, ast.MatchValue):
            v = self.expr(p.value, sc)
            return lambda f, x: bool(x == v(f))
        if isinstance(p, ast.MatchSingleton):
            return lambda f, x: x is p.value
        if isinstance(p, ast.MatchAs):
            st = self.store_name(p.name, sc) if p.name else None
            sub = self.pattern(p.pattern, sc) if p.pattern is not None else None

            def as_(f, x):
                if sub is not None and not sub(f, x):
                    return False
                if st is not None:
                    st(f, x)
                return True

            return as_
        if isinstance(p, ast.MatchOr):
            alts = [self.pattern(a, sc) for a in p.patterns]
            return lambda f, x: any(a(f, x) for a in alts)
        if isinstance(p, ast.MatchSequence):
            star = [i for i, e in enumerate(p.patterns) if isinstance(e, ast.MatchStar)]
            subs = [self.store_name(e.name, sc) if isinstance(e, ast.MatchStar) and e.name else
                    None if isinstance(e, ast.MatchStar) else self.pattern(e, sc) for e in p.patterns]

            def seq(f, x):
                if isinstance(x, (str, bytes, bytearray)) or not isinstance(x, collections.abc.Sequence):
                    return False
                vals = list(iterate(x))
                if star:
                    i = star[0]
                    after = len(subs) - i - 1
                    if len(vals) < len(subs) - 1:
                        return False
                    middle = vals[i:len(vals) - after]
                    if not all(s(f, v) for s, v in zip(subs[:i], vals)):
                        return False
                    if not all(s(f, v) for s, v in zip(subs[i + 1:], vals[len(vals) - after:])):
                        return False
                    if subs[i] is not None:
                        subs[i](f, middle)
                    return True
                return len(vals) == len(subs) and all(s(f, v) for s, v in zip(subs, vals))

            return seq
        if isinstance(p, ast.MatchMapping):
            keys = [self.expr(k, sc) for k in p.keys]
            subs = [self.pattern(e, sc) for e in p.patterns]
            rest = self.store_name(p.rest, sc) if p.rest else None

            def mapping(f, x):
                if not isinstance(x, collections.abc.Mapping):
                    return False
                ks = [k(f) for k in keys]
                for k, s in zip(ks, subs):
                    v = x.get(k, MISSING)
                    if v is MISSING or not s(f, v):
                        return False
                if rest is not None:
                    rest(f, {k: v for k, v in x.items() if k not in ks})
                return True

            return mapping
        if isinstance(p, ast.MatchClass):
            cls = self.expr(p.cls, sc)
            pos = [self.pattern(e, sc) for e in p.patterns]
            kws = [(k, self.pattern(e, sc)) for k, e in zip(p.kwd_attrs, p.kwd_patterns)]

            def klass(f, x):
                c = cls(f)
                if not isinstance(x, c):
                    return False
                if pos:
                    host = getattr(c, "__host__", c)
                    if host in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
                        if len(pos) != 1 or not pos[0](f, x):
                            return False
                    else:
                        names = getattr(c, "__match_args__", ())
                        if len(pos) > len(names):
                            raise TypeError("too many positional sub-patterns")
                        for n, s in zip(names, pos):
                            v = getattr(x, n, MISSING)
                            if v is MISSING or not s(f, v):
                                return False
                for n, s in kws:
                    v = getattr(x, n, MISSING)
                    if v is MISSING or not s(f, v):
                        return False
                return True

            return klass
        raise Unmodelled("pattern %s" % type(p).__name__)

    def s_Match(self, n, sc):
        subject = self.expr(n.subject, sc)
        cases = [(self.pattern(c.pattern, sc), self.expr(c.guard, sc) if c.guard is not None else None,
                  self.block(c.body, sc), c.pattern.lineno) for c in n.cases]
        file = self.file

        def run(f):
            x = subject(f)
            for pat, guard, body, line in cases:
                if pat(f, x) and (guard is None or guard(f)):
                    M.path.trace.append((file, line, True))
                    return body(f)

        return run

    # ------------------------------------------------------------ statements
    def block(self, body, sc):
        stmts = []
        for s in body:
            c = self.stmt(s, sc)
            if c is not None:
                stmts.append(((self.file, s.lineno), c))

        def run(f):
            p = M.path
            for site, s in stmts:
                p.steps += 1
                M.sites.add(site)
                p.site = site
                if p.steps > M.budget:
                    raise Budget("step budget exhausted at %s:%d" % site)
                r = s(f)
                if r is not None:
                    return r
            return None

        return run

    def stmt(self, n, sc):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            kind = type(n).__name__

            def bad(f):
                raise Unmodelled("statement %s at %s:%s" % (kind, self.file, n.lineno))

            return bad
        return m(n, sc)

    def s_Pass(self, n, sc):
        return None

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, n, sc):
        if isinstance(n.value, ast.Constant):
            return None
        e = self.expr(n.value, sc)

        def run(f):
            e(f)

        return run

    def s_Assign(self, n, sc):
        v = self.expr(n.value, sc)
        ts = [self.target(t, sc) for t in n.targets]
        if len(ts) == 1:
            t0 = ts[0]

            def run1(f):
                t0(f, v(f))

            return run1

        def run(f):
            x = v(f)
            for t in ts:
                t(f, x)

        return run

    def s_AnnAssign(self, n, sc):
        v = self.expr(n.value, sc) if n.value is not None else None
        t = self.target(n.target, sc)
        ann = None
        if sc.kind == "class" and isinstance(n.target, ast.Name):
            e = self.expr(n.annotation, sc)
            text = ast.unparse(n.annotation)
            name = sc.mangle(n.target.id)

            def ann(f):  # noqa
                try:
                    a = e(f)
                except EngineError:
                    a = text
                except Exception:
                    a = text
                f.v.setdefault("__annotations__", {})[name] = a

        def run(f):
            if v is not None:
                t(f, v(f))
            if ann is not None:
                ann(f)

        return run

    def s_AugAssign(self, n, sc):
        op = self._AUG[type(n.op)]
        v = self.expr(n.value, sc)
        t = n.target
        if isinstance(t, ast.Name):
            ld, st = self.load_name(t.id, sc), self.store_name(t.id, sc)

            def run(f):
                st(f, op(ld(f), v(f)))

            return run
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, sc)
            attr = sc.mangle(t.attr)

            def run(f):
                x = o(f)
                setattr(x, attr, op(getattr(x, attr), v(f)))

            return run
        o, i = self.expr(t.value, sc), self.expr(t.slice, sc)

        def run(f):
            x, k = o(f), i(f)
            x[k] = op(x[k], v(f))

        return run

    def s_Return(self, n, sc):
        if n.value is None:
            def r0(f):
                f.ret = None
                return RET

            return r0
        e = self.expr(n.value, sc)

        def run(f):
            f.ret = e(f)
            return RET

        return run

    def s_Break(self, n, sc):
        return lambda f: BRK

    def s_Continue(self, n, sc):
        return lambda f: CNT

    def s_If(self, n, sc):
        t = self.expr(n.test, sc)
        a = self.block(n.body, sc)
        b = self.block(n.orelse, sc) if n.orelse else None
        line, file = n.lineno, self.file

        def run(f):
            if t(f):
                M.path.trace.append((file, line, True))
                return a(f)
            M.path.trace.append((file, line, False))
            if b is not None:
                return b(f)

        return run

    def s_While(self, n, sc):
        t = self.expr(n.test, sc)
        body = self.block(n.body, sc)
        els = self.block(n.orelse, sc) if n.orelse else None

        def run(f):
            while t(f):
                M.path.steps += 1
                if M.path.steps > M.budget:
                    raise Budget("loop exceeds the step budget at %s:%d" % (self.file, n.lineno))
                r = body(f)
                if r is BRK:
                    return None
                if r is RET:
                    return r
            if els is not None:
                return els(f)

        return run

    def s_For(self, n, sc):
        it = self.expr(n.iter, sc)
        tgt = self.target(n.target, sc)
        body = self.block(n.body, sc)
        els = self.block(n.orelse, sc) if n.orelse else None

        def run(f):
            for x in iterate(it(f)):
                M.path.steps += 1
                if M.path.steps > M.budget:
                    raise Budget("loop exceeds the step budget at %s:%d" % (self.file, n.lineno))
                tgt(f, x)
                r = body(f)
                if r is BRK:
                    return None
                if r is RET:
                    return r
            if els is not None:
                return els(f)

        return run

    def s_Raise(self, n, sc):
        e = self.expr(n.exc, sc) if n.exc is not None else None
        c = self.expr(n.cause, sc) if n.cause is not None else None
        line, file = n.lineno, self.file

        def run(f):
            M.path.raise_site = (file, line, f.qual)
            if e is None:
                raise
            x = e(f)
            if c is not None:
                raise x from c(f)
            raise x

        return run

    def s_Assert(self, n, sc):
        t = self.expr(n.test, sc)
        m = self.expr(n.msg, sc) if n.msg is not None else None

        def run(f):
            if M.world.optimized:  # python -O: assertions are not evaluated
                return
            if not t(f):
                M.path.raise_site = (self.file, n.lineno, f.qual)
                raise AssertionError(m(f)) if m else AssertionError()

        return run

    def s_Delete(self, n, sc):
        ds = []
        for t in n.targets:
            if isinstance(t, ast.Name):
                name = sc.mangle(t.id)
                ds.append(lambda f, name=name: f.v.pop(name) if name in f.v else f.g.pop(name))
            elif isinstance(t, ast.Attribute):
                o, a = self.expr(t.value, sc), sc.mangle(t.attr)
                ds.append(lambda f, o=o, a=a: delattr(o(f), a))
            elif isinstance(t, ast.Subscript):
                o, i = self.expr(t.value, sc), self.expr(t.slice, sc)

                def d(f, o=o, i=i):
                    del o(f)[i(f)]

                ds.append(d)
            else:
                raise Unmodelled("del target")

        def run(f):
            for d in ds:
                d(f)

        return run

    def s_Import(self, n, sc):
        items = [(a.name, a.asname, self.store_name((a.asname or a.name).split(".")[0], sc)) for a in n.names]

        def run(f):
            for name, asname, st in items:
                mod = LOADER.load(name)
                if asname is None and "." in name:
                    mod = LOADER.load(name.split(".")[0])
                st(f, mod)

        return run

    def s_ImportFrom(self, n, sc):
        modname = n.module or ""
        if n.level:
            base = self.mod.split(".")
            base = base[: len(base) - n.level + (1 if self.file.endswith("__init__.py") else 0)]
            modname = ".".join(base + ([modname] if modname else []))
        items = [(a.name, self.store_name(a.asname or a.name, sc) if a.name != "*" else None) for a in n.names]

        def run(f):
            mod = LOADER.load(modname)
            for name, st in items:
                if name == "*":
                    for k, v in vars(mod).items():
                        if not k.startswith("_"):
                            f.v[k] = v
                    continue
                try:
                    v = getattr(mod, name)
                except AttributeError:
                    try:
                        v = LOADER.load(modname + "." + name)
                    except ImportError:
                        raise ImportError("cannot import name %r from %r" % (name, modname)) from None
                st(f, v)

        return run

    # ------------------------------------------------------------------- try
    def _handlers(self, n, sc, blocker):
        hs = []
        for h in n.handlers:
            ty = self.expr(h.type, sc) if h.type is not None else None
            st = self.store_name(h.name, sc) if h.name else None
            hs.append((ty, st, sc.mangle(h.name) if h.name else None, blocker(h.body, sc)))
        return hs

    @staticmethod
    def _match(hs, f, e):
        for ty, st, name, body in hs:
            if ty is None:
                return st, name, body
            t = ty(f)
            if isinstance(e, t):
                return st, name, body
        return None

    def s_Try(self, n, sc):
        body = self.block(n.body, sc)
        hs = self._handlers(n, sc, self.block)
        els = self.block(n.orelse, sc) if n.orelse else None
        fin = self.block(n.finalbody, sc) if n.finalbody else None
        match = self._match

        def inner(f):
            try:
                r = body(f)
            except EngineError:
                raise
            except BaseException as e:
                h = match(hs, f, e)
                if h is None:
                    raise
                st, name, hb = h
                if st is not None:
                    st(f, e)
                try:
                    return hb(f)
                finally:
                    if name is not None:
                        f.v.pop(name, None)
            if r is None and els is not None:
                return els(f)
            return r

        if fin is None:
            return inner

        def run(f):
            try:
                r = inner(f)
            except EngineError:
                raise
            except BaseException:
                saved = f.ret
                fr = fin(f)
                if fr is not None:
                    return fr
                f.ret = saved
                raise
            saved = f.ret
            fr = fin(f)
            if fr is not None:
                return fr
            f.ret = saved
            return r

        return run

    def s_With(self, n, sc):
        items = [(self.expr(i.context_expr, sc), self.target(i.optional_vars, sc) if i.optional_vars else None)
                 for i in n.items]
        body = self.block(n.body, sc)

        def run(f, k=0):
            if k == len(items):
                return body(f)
            ctx = items[k][0](f)
            enter, ex = with_protocol(ctx)
            val = enter(ctx)
            try:
                if items[k][1] is not None:
                    items[k][1](f, val)
                r = run(f, k + 1)
            except EngineError:
                raise
            except BaseException as e:
                saved = f.ret
                if not ex(ctx, type(e), e, e.__traceback__):
                    raise
                f.ret = saved
                return None
            saved = f.ret
            ex(ctx, None, None, None)
            f.ret = saved
            return r

        return run

    # ------------------------------------------------------ generator bodies
    def gblock(self, body, sc):
        stmts = []
        for s in body:
            if contains_yield(s):
                stmts.append(((self.file, s.lineno), True, self.gstmt(s, sc)))
            else:
                c = self.stmt(s, sc)
                if c is not None:
                    stmts.append(((self.file, s.lineno), False, c))

        def run(f):
            for site, gen, s in stmts:
                p = M.path
                p.steps += 1
                M.sites.add(site)
                p.site = site
                if p.steps > M.budget:
                    raise Budget("step budget exhausted at %s:%d" % site)
                if gen:
                    r = yield from s(f)
                else:
                    r = s(f)
                if r is not None:
                    return r
            return None

        return run

    def gexpr(self, n, sc):
        """expression whose top node is a yield (or contains none)."""
        if isinstance(n, ast.Yield):
            e = self.expr(n.value, sc) if n.value is not None else (lambda f: None)

            def y(f):
                return (yield e(f))

            return y
        if isinstance(n, ast.YieldFrom):
            e = self.expr(n.value, sc)

            def yf(f):
                return (yield from iterate(e(f)))

            return yf
        if contains_yield(n):
            raise Unmodelled("yield nested in an expression at %s:%d" % (self.file, n.lineno))
        e = self.expr(n, sc)

        def plain(f):
            return e(f)
            yield  # noqa

        return plain

    def gstmt(self, n, sc):
        t = type(n).__name__
        if t == "Expr":
            e = self.gexpr(n.value, sc)

            def run(f):
                yield from e(f)

            return run
        if t in ("Assign", "AnnAssign"):
            e = self.gexpr(n.value, sc)
            ts = [self.target(x, sc) for x in (n.targets if t == "Assign" else [n.target])]

            def run(f):
                v = yield from e(f)
                for x in ts:
                    x(f, v)

            return run
        if t == "Return":
            e = self.gexpr(n.value, sc)

            def run(f):
                f.ret = yield from e(f)
                return RET

            return run
        if t == "If":
            c = self.expr(n.test, sc)
            a, b = self.gblock(n.body, sc), self.gblock(n.orelse, sc)
            line, file = n.lineno, self.file

            def run(f):
                if c(f):
                    M.path.trace.append((file, line, True))
                    return (yield from a(f))
                M.path.trace.append((file, line, False))
                return (yield from b(f))

            return run
        if t == "Match":
            subject = self.expr(n.subject, sc)
            cases = [(self.pattern(c.pattern, sc), self.expr(c.guard, sc) if c.guard is not None else None,
                      self.gblock(c.body, sc)) for c in n.cases]

            def run(f):
                x = subject(f)
                for pat, guard, body in cases:
                    if pat(f, x) and (guard is None or guard(f)):
                        return (yield from body(f))

            return run
        if t == "While":
            c = self.expr(n.test, sc)
            body, els = self.gblock(n.body, sc), self.gblock(n.orelse, sc)

            def run(f):
                while c(f):
                    M.path.steps += 1
                    if M.path.steps > M.budget:
                        raise Budget("loop exceeds the step budget at %s:%d" % (self.file, n.lineno))
                    r = yield from body(f)
                    if r is BRK:
                        return None
                    if r is RET:
                        return r
                return (yield from els(f))

            return run
        if t == "For":
            it = self.expr(n.iter, sc)
            tgt = self.target(n.target, sc)
            body, els = self.gblock(n.body, sc), self.gblock(n.orelse, sc)

            def run(f):
                for x in iterate(it(f)):
                    M.path.steps += 1
                    if M.path.steps > M.budget:
                        raise Budget("loop exceeds the step budget at %s:%d" % (self.file, n.lineno))
                    tgt(f, x)
                    r = yield from body(f)
                    if r is BRK:
                        return None
                    if r is RET:
                        return r
                return (yield from els(f))

            return run
        if t == "Try":
            body = self.gblock(n.body, sc)
            hs = self._handlers(n, sc, self.gblock)
            els = self.gblock(n.orelse, sc)
            fin = self.gblock(n.finalbody, sc)
            match = self._match

            def inner(f):
                try:
                    r = yield from body(f)
                except EngineError:
                    raise
                except BaseException as e:
                    h = match(hs, f, e)
                    if h is None:
                        raise
                    st, name, hb = h
                    if st is not None:
                        st(f, e)
                    try:
                        return (yield from hb(f))
                    finally:
                        if name is not None:
                            f.v.pop(name, None)
                if r is None:
                    return (yield from els(f))
                return r

            def run(f):
                try:
                    r = yield from inner(f)
                except EngineError:
                    raise
                except BaseException:
                    saved = f.ret
                    fr = yield from fin(f)
                    if fr is not None:
                        return fr
                    f.ret = saved
                    raise
                saved = f.ret
                fr = yield from fin(f)
                if fr is not None:
                    return fr
                f.ret = saved
                return r

            return run
        if t == "With":
            items = [(self.expr(i.context_expr, sc), self.target(i.optional_vars, sc) if i.optional_vars else None)
                     for i in n.items]
            body = self.gblock(n.body, sc)

            def run(f, k=0):
                if k == len(items):
                    return (yield from body(f))
                ctx = items[k][0](f)
                enter, ex = with_protocol(ctx)
                val = enter(ctx)
                try:
                    if items[k][1] is not None:
                        items[k][1](f, val)
                    r = yield from run(f, k + 1)
                except EngineError:
                    raise
                except BaseException as e:
                    saved = f.ret
                    if not ex(ctx, type(e), e, e.__traceback__):
                        raise
                    f.ret = saved
                    return None
                saved = f.ret
                ex(ctx, None, None, None)
                f.ret = saved
                return r

            return run
        raise Unmodelled("yield inside %s" % t)

    # ------------------------------------------------------------- functions
    def function(self, n, sc, name):
        a = n.args
        fs = Scope("function", sc, name)
        pos = [fs.mangle(x.arg) for x in a.posonlyargs + a.args]
        nposonly = len(a.posonlyargs)
        kwonly = [fs.mangle(x.arg) for x in a.kwonlyargs]
        vararg = a.vararg.arg if a.vararg else None
        kwarg = a.kwarg.arg if a.kwarg else None
        fs.argnames = pos or ([vararg] if vararg else [])
        fs.locals.update(pos, kwonly, [x for x in (vararg, kwarg) if x])
        defaults = [self.expr(d, sc) for d in a.defaults]
        kwdefaults = [(k, self.expr(d, sc)) for k, d in zip(kwonly, a.kw_defaults) if d is not None]
        is_lambda = isinstance(n, ast.Lambda)
        doc = None if is_lambda else ast.get_docstring(n)
        state = {}
        file, qual, line = self.file, fs.qual, n.lineno
        has_yield = False
        if is_lambda:
            pass
        else:
            has_yield = collect(fs, n.body)

        def compile_body():
            if is_lambda:
                e = self.expr(n.body, fs)

                def body(f):
                    f.ret = e(f)
                    return RET
            elif has_yield:
                body = self.gblock(n.body, fs)
            else:
                body = self.block(n.body, fs)
            state["body"] = body
            return body

        npos = len(pos)
        posset = set(pos[nposonly:]) | set(kwonly)
        modname = self.mod

        def make(f):
            dv = [d(f) for d in defaults]
            kd = {k: d(f) for k, d in kwdefaults}
            ndef = len(dv)

            def trampoline(*args, **kwargs):
                if len(args) == npos and not kwargs and not kwonly and not vararg and not kwarg:
                    v = dict(zip(pos, args))
                else:
                    v = bind(name, pos, posset, kwonly, vararg, kwarg, trampoline.__idefaults__,
                             trampoline.__ikwdefaults__, args, kwargs)
                fr = Frame(v, f.g, f, file, qual)
                body = state.get("body") or compile_body()
                M.functions.add((file, qual))
                if has_yield:
                    return drive(body, fr)
                M.depth += 1
                if M.depth > 400:
                    M.depth -= 1
                    raise RecursionError("maximum recursion depth exceeded")
                try:
                    if body(fr) is RET:
                        return fr.ret
                    return None
                finally:
                    M.depth -= 1

            trampoline.__name__ = name
            trampoline.__qualname__ = qual
            trampoline.__module__ = modname
            trampoline.__doc__ = doc
            trampoline.__interp__ = (file, line, qual)
            trampoline.__iargs__ = (tuple(pos), tuple(kwonly), vararg, kwarg)
            trampoline.__idefaults__ = dv
            trampoline.__ikwdefaults__ = kd
            return trampoline

        return make

    def s_FunctionDef(self, n, sc):
        mk = self.function(n, sc, n.name)
        decs = [self.expr(d, sc) for d in n.decorator_list]
        st = self.store_name(n.name, sc)

        def run(f):
            ds = [d(f) for d in decs]
            fn = mk(f)
            for d in reversed(ds):
                fn = d(fn)
            st(f, fn)

        return run

    def s_ClassDef(self, n, sc):
        bases = self._starlist(n.bases, sc)
        kws = [(k.arg, self.expr(k.value, sc)) for k in n.keywords]
        decs = [self.expr(d, sc) for d in n.decorator_list]
        cs = Scope("class", sc, n.name, cls=n.name)
        collect(cs, n.body)
        body = self.block(n.body, cs)
        doc = ast.get_docstring(n)
        st = self.store_name(n.name, sc)
        qual, modname, file = cs.qual, self.mod, self.file

        def run(f):
            ds = [d(f) for d in decs]
            bs = tuple(bases(f))
            kw = {k: e(f) for k, e in kws}
            rb = types.resolve_bases(bs)
            meta, ns, kw2 = types.prepare_class(n.name, rb, kw)
            ns["__module__"] = modname
            ns["__qualname__"] = qual
            if doc is not None:
                ns["__doc__"] = doc
            if rb is not bs:
                ns["__orig_bases__"] = bs
            fr = Frame(ns, f.g, f, file, qual)
            fr.cell = [None]
            body(fr)
            cls = meta(n.name, rb, ns, **kw2)
            fr.cell[0] = cls
            for d in reversed(ds):
                cls = d(cls)
            if isinstance(cls, type):
                fr.cell[0] = cls
            st(f, cls)

        return run


def drive(body, fr):
    M.depth += 0
    r = yield from body(fr)
    return fr.ret if r is RET else None


def bind(name, pos, posset, kwonly, vararg, kwarg, dv, kd, args, kwargs):
    v = {}
    n = len(pos)
    for k, x in zip(pos, args):
        v[k] = x
    if len(args) > n:
        if vararg is None:
            raise TypeError("%s() takes %d positional arguments but %d were given" % (name, n, len(args)))
        v[vararg] = tuple(args[n:])
    elif vararg is not None:
        v[vararg] = ()
    extra = {}
    for k, x in kwargs.items():
        if k in posset:
            if k in v:
                raise TypeError("%s() got multiple values for argument %r" % (name, k))
            v[k] = x
        elif kwarg is not None:
            extra[k] = x
        else:
            raise TypeError("%s() got an unexpected keyword argument %r" % (name, k))
    nd = len(dv)
    missing = []
    for i, k in enumerate(pos):
        if k not in v:
            j = i - (n - nd)
            if j >= 0:
                v[k] = dv[j]
            else:
                missing.append(k)
    for k in kwonly:
        if k not in v:
            if k in kd:
                v[k] = kd[k]
            else:
                missing.append(k)
    if missing:
        raise TypeError("%s() missing required argument(s): %s" % (name, ", ".join(missing)))
    if kwarg is not None:
        v[kwarg] = extra
    return v


def iterate(x):
    if type(x) is str and has_token(x):
        raise Unmodelled("iteration over the characters of an abstract string")
    return x if isinstance(x, types.GeneratorType) else iter(x)


def cut(x, p):
    """The place in the representation of the abstract string x which lies p characters from its start (p may be
    abstract, and is relative to the end when negative), or None when it lies inside a token."""
    if type(p) is int:
        # a constant number of characters from either end which are all known
        k = -p if p < 0 else p
        if k <= len(x) and not any("\ue000" <= c < "\uf000" for c in (x[len(x) - k:] if p < 0 else x[:k])):
            return len(x) - k if p < 0 else k
    total = str_len(x)
    if p < 0:
        p = total + p
        if p < 0:
            return 0
    # whole runs of known characters at a time
    k = 0
    for piece in re.split("([\ue000-\uefff])", x):
        if not piece:
            continue
        d = p - str_len(x[:k])
        if type(d) is int and 0 <= d <= len(piece) and (d == 0 or not "\ue000" <= piece[0] < "\uf000"):
            return k + d
        k += len(piece)
    if type(p - total) is int and p - total == 0:
        return len(x)
    try:
        return len(x) if p > total else None
    except Unmodelled:
        return None


def str_index(x, i):
    if not has_token(x):
        if isinstance(i, slice) or isinstance(i, int) and not hasattr(i, "__abslen_index__"):
            if not isinstance(i, slice) or not any(hasattr(y, "__abslen_index__") for y in (i.start, i.stop, i.step)):
                return x[i]
        raise Unmodelled("abstract index into a constant string")
    if isinstance(i, slice):
        if i.step not in (None, 1):
            if i.step == -1 and i.start is i.stop is None:
                raise Unmodelled("reversing an abstract string")
            raise Unmodelled("stride over an abstract string")
        if not all(y is None or isinstance(y, int) for y in (i.start, i.stop)):
            return x[i]
        # the first and the last character of a word are words of one character
        if type(i.stop) is int and i.stop == 1 and (i.start is None or type(i.start) is int and i.start == 0):
            return str_index(x, 0)
        if type(i.start) is int and i.start == -1 and i.stop is None:
            return str_index(x, -1)
        a = 0 if i.start is None else cut(x, i.start)
        b = len(x) if i.stop is None else cut(x, i.stop)
        if a is not None and b is not None:
            return x[a:b]
    elif isinstance(i, int):
        k = cut(x, i)
        if k == len(x):
            raise IndexError("string index out of range")
        if k is not None:
            return one_char(x[k], 0)
        if type(i) is int and i == -1:
            return one_char(x[-1], 1)
    raise Unmodelled("indexing inside an abstract string")


def one_char(c, last):
    if "\ue000" <= c < "\uf000":
        return chr(0xF000 + 0x400 * last + (ord(c) - 0xE000) % 0x400)
    return c


def native_method(fv, a, kw):
    s = fv.__self__
    if type(s) is str:
        if fv.__name__ not in _STR_HOMOMORPHIC and has_token(s):
            raise Unmodelled("str.%s on an abstract string" % fv.__name__)
        if fv.__name__ in ("find", "rfind", "index", "rindex") and has_token(s):
            r = fv(*a, **kw)
            return str_len(s[:r]) if r >= 0 else r
    elif type(s) is re.Match and type(s.string) is str and fv.__name__ in ("start", "end", "span") and has_token(s.string):
        r = fv(*a, **kw)
        if type(r) is tuple:
            return tuple(str_len(s.string[:k]) if k >= 0 else k for k in r)
        return str_len(s.string[:r]) if r >= 0 else r
    return fv(*a, **kw)


def with_protocol(ctx):
    t = type(ctx)
    try:
        return t.__enter__, t.__exit__
    except AttributeError:
        raise AttributeError("__enter__") from None


LOADER = None


def set_loader(l):
    global LOADER
    LOADER = l
