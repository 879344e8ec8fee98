"""Guarantees which cut across all parts: answers depend on the arguments only, and failures are never success."""
import collections
import itertools
import os

from immutablecollections import immutabledict

from absint import env, world
from absint.check import api, attempt
from absint.core import M
from absint.values import tok
from absint.world import APath, make_gzip_bytes, make_tgz_bytes, make_zip_bytes

META = {}
DEBUG = False
A, B, C = tok(0), tok(1), tok(2)
P_ = "vistautils."


def norm(x, depth=0):
    """The observable content of a value, comparable and independent of later changes to it."""
    if depth > 12:
        return "..."
    n = lambda y: norm(y, depth + 1)
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, world.pathlib.PurePath):
        return ("path", str(x))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__)
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(n(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((n(y) for y in x), key=repr))
    Parameters = api(P_ + "parameters", "Parameters")
    if isinstance(x, Parameters):
        return ("Parameters", n(x.as_nested_dicts()), tuple(x.namespace_prefix))
    if isinstance(x, collections.abc.Mapping):
        return ("map",) + tuple((n(k), n(v)) for k, v in x.items())
    Range, RangeSet, RangeMap = api(P_ + "range", "Range", "RangeSet", "RangeMap")
    if isinstance(x, Range):
        return ("Range", str(x))
    if isinstance(x, RangeSet):
        return ("RangeSet",) + tuple(str(r) for r in x.as_ranges())
    if isinstance(x, RangeMap):
        return ("RangeMap",) + tuple((str(r), n(v)) for r, v in x.as_dict().items())
    Span = api(P_ + "span", "Span")
    if isinstance(x, Span):
        return ("Span", x.start, x.end)
    if isinstance(x, collections.abc.Iterable) and not isinstance(x, type):
        return ("iterable",) + tuple(n(y) for y in x)
    if isinstance(x, type) or callable(x):
        return ("callable", getattr(x, "__name__", "?"))
    if hasattr(type(x), "__attrs_attrs__"):
        return ("object", type(x).__name__) + tuple((a.name, n(getattr(x, a.name, None))) for a in type(x).__attrs_attrs__)
    return ("object", type(x).__name__)


def outcome(o):
    return ("ret", norm(o.value)) if o.ok else ("exc", type(o.value).__name__)


def mutables(x, seen=None):
    """The lists, dictionaries and sets reachable from a value through built-in containers."""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, (list, tuple, set, frozenset)):
        if isinstance(x, (list, set)):
            yield x
        for y in list(x):
            yield from mutables(y, seen)
    elif isinstance(x, dict):
        yield x
        for y in list(x.values()):
            yield from mutables(y, seen)


def spoil(x, dicts_only=False):
    for m in list(mutables(x)):
        if dicts_only and not isinstance(m, dict):
            continue
        try:
            if isinstance(m, list):
                m.append("spoilt")
            elif isinstance(m, set):
                m.add("spoilt")
            else:
                m["spoilt"] = "spoilt"
        except Exception:
            pass  # frozen after all


# A probe: name -> (maker of (function, arguments) for a variant, does the result stay valid when arguments change)
def probes():
    out = {}

    def p(name, eager=True):
        def deco(f):
            out[name] = (f, eager)
            return f
        return deco

    rng = lambda: api(P_ + "range", "Range", "ImmutableRangeSet", "MutableRangeSet", "RangeSet", "immutablerangemap")
    ends = [(1, 4), (1, 5), (2, 4)]

    @p("Range factories and accessors")
    def _(v):
        R = rng()[0]
        return lambda a, b: [R.closed(a, b), R.open(a, b), R.closed_open(a, b), R.open_closed(a, b), R.at_least(a), R.at_most(b),
                             R.all(), R.greater_than(a), R.less_than(b), R.closed(a, b).is_empty(), a in R.open(a, b),
                             hash(R.closed(a, b)) == hash(R.closed(a, b))], ends[v]

    @p("Range.create_spanning")
    def _(v):
        R = rng()[0]
        return R.create_spanning, ([R.closed(9, 9), R.open(*ends[v])],)

    @p("range set building and queries")
    def _(v):
        R, I, Mu, RS, im = rng()
        lst = [R.closed(8, 9), R.open(*ends[v])]

        def f(rs):
            s = RS.create_mutable().add_all(rs)
            i = I.builder().add_all(rs).build()
            return [s, i, s.immutable_copy(), s.ranges_enclosed_by(R.closed(0, 4)), s.ranges_overlapping(R.closed(4, 4)),
                    s.as_ranges(), i.range_containing(4), s.rightmost_containing_or_below(7), s.span, i.encloses_all(rs),
                    s.leftmost_containing_or_above(4), s.is_empty(), i.is_empty()]
        return f, (lst,)

    @p("range map building and lookup")
    def _(v):
        R, I, Mu, RS, im = rng()

        def f(items):
            m = im(items)
            return [m, m[4], m[8], m.get_enclosed_by(R.closed(0, 5)), m.get_from_rightmost_containing_or_below(7), m.is_empty(),
                    m.get_from_leftmost_containing_or_above(4)]
        return f, ([(R.closed(8, 9), "x"), (R.open(*ends[v]), "y")],)

    @p("span operations")
    def _(v):
        Span = api(P_ + "span", "Span")
        a, b = Span(*ends[v]), Span(3, 9)

        def f(a, b, t, many):
            return [a.intersection(b), a.clip_to(b), a.shift(2), a.overlaps(b), Span.minimal_enclosing_span(many), t[a.start:a.end],
                    len(a), a.precedes(b), sorted(many, key=Span.earliest_then_longest_first_key), a.contains_span(b)]
        return f, (a, b, "abcdefghij", [b, a, Span(0, 2)])

    @p("span indexes")
    def _(v):
        Span, H = api(P_ + "span", "Span", "HasSpanIndex")
        An = api(P_ + "annotated_text_utils", "AnnotatedSpan")
        items = [An("a", Span(8, 9)), An("b", Span(*ends[v]))]

        def f(items):
            o, d = H.index(items), H.index_disjoint(items)
            q = Span(1, 4)
            return [g(q) for i in (o, d) for g in (i.get_exactly_matching, i.get_overlapping, i.get_contained, i.get_containing)]
        return f, (items,)

    @p("annotated text")
    def _(v):
        Span = api(P_ + "span", "Span")
        F, An = api(P_ + "annotated_text_utils", "HTMLStyleAnnotationFormatter", "AnnotatedSpan")
        anns = [An("b", Span(*ends[v]), immutabledict([("k", "v%d" % v)])), An("i", Span(0, 9))]
        return lambda t, a: [F().annotated_text(t, a), F().annotated_text(t[2:5], a, text_offsets=Span(2, 5))], ("abcdefghij", anns)

    trees = [{"a": {"b": 1, "c": [1, 2]}, "d": "x"}, {"a": {"b": True, "c": [1, 3]}, "d": "y"}, {"a": {"b": 1.0}, "d": "x"}]

    def fresh(v):
        t = trees[v]
        return {k: ({kk: (list(vv) if isinstance(vv, list) else vv) for kk, vv in x.items()} if isinstance(x, dict) else x)
                for k, x in t.items()}

    @p("Parameters.from_mapping", eager="dicts")
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")

        def f(m):
            q = Ps.from_mapping(m)
            return [q.as_nested_dicts(), list(q.namespaced_items()), q.namespace("a"), q.sub_namespaces(), "a.b" in q,
                    q.string("d"), q.get_optional("zz", object), q.optional_string("e", default="q"), q.namespace_or_empty("zz")]
        return f, (fresh(v),)

    @p("Parameters.empty and from_key_value_pairs")
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")
        return lambda prs: [Ps.empty(), Ps.from_key_value_pairs(prs), Ps.empty(namespace_prefix=["n", "m"]),
                            Ps.from_mapping({}, namespace_prefix=["q"]), Ps.from_mapping({})], (
            [("a.b", ends[v][0]), ("c", ends[v][1])],)

    @p("Parameters.unify", eager="dicts")
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")
        return lambda a, b: Ps.from_mapping(a).unify(b).as_nested_dicts(), ({"d": "old", "k": {"l": 1}}, fresh(v))

    @p("accessors with defaults", eager=False)
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")

        def f(m, dflt):
            q = Ps.from_mapping(m)
            return [q.arbitrary_list("l"), q.arbitrary_list("zz", default=dflt), q.optional_arbitrary_list("zz"),
                    q.optional_arbitrary_list("zz", default=dflt), q.integer("i"), q.optional_integer("zz", default=3),
                    q.string("s", valid_options=["p", "q", "r"]), q.namespace_or_empty("nn")]
        return f, ({"l": [1, v], "i": v, "s": "pqr"[v]}, [v])

    @p("evaluate")
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")

        def f(m, ctx):
            q = Ps.from_mapping(m)
            return [q.evaluate("e", object, context=ctx), q.evaluate("i", object, context=ctx), q.optional_evaluate("zz", object)]
        return f, ({"e": "zork + 1", "i": {"value": "base64.b64encode(b'x')", "import": ["base64"]}}, {"zork": v})

    @p("object_from_parameters")
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")

        def made(params):
            return [params.integer("n", default=7)]

        def f(m, ctx, special, facs):
            q = Ps.from_mapping(m)
            return [q.object_from_parameters("o", list, context=ctx), q.object_from_parameters("zz", list, default_factory=ctx["made"]),
                    q.object_from_parameters("zz", list, default_factory=ctx["made"], context=ctx, special_factories=facs,
                                             special_values=special),
                    q.object_from_parameters("zz", list, default_value=[v], special_factories=facs, special_values=special),
                    q.object_from_parameters("s", str, special_values=special),
                    q.object_from_parameters("f", list, special_factories=facs)]
        return f, ({"o": {"factory": "made", "n": v}, "s": "it", "f": {"factory": "it", "n": v + 1}}, {"made": made},
                   {"it": "sp%d" % v}, {"it": made})

    @p("YAML loading")
    def _(v):
        L = api(P_ + "parameters", "YAMLParametersLoader")
        M.world.add_file("/p/a.yaml", ("_includes: [b.yaml]\nx: '%%y%%/%d'\n" % v).encode())
        M.world.add_file("/p/b.yaml", ("y: base%d\nz: {k: [1, %d]}\n" % (v, v)).encode())
        M.world.environ["ENVY"] = "e%d" % v

        def f(inc):
            l = L(interpolate_environmental_variables=True)
            return [L().load(APath("/p/a.yaml")), L().load("/p/a.yaml"), L().load_string("w: '%y%'\n", included_context=inc),
                    l.load_string("w: '%ENVY%'\n"), l.load_string("w: 1\n"),
                    attempt(L().load_string, "w: '%ENVY%'\n")]
        return lambda inc: [outcome(x) if hasattr(x, "ok") else x for x in f(inc)], (
            api(P_ + "parameters", "Parameters").from_mapping({"y": "inc%d" % v}),)

    @p("YAML writing", eager="dicts")
    def _(v):
        Ps, Wr = api(P_ + "parameters", "Parameters", "YAMLParametersWriter")
        Sink = api(P_ + "io_utils", "CharSink")

        def f(m):
            q = Ps.from_mapping(m)
            s = Sink.to_string()
            Wr().write(q, s)
            r = Ps.from_mapping({"l": lst})
            Wr().write(r, "/o/y%d" % v)
            return [s.last_string_written, str(q), q, str(r), str(r) == M.world.content("/o/y%d" % v).decode()]
        lst = [{"p": APath("/q%d" % v), "l": [APath("r"), {"m": APath("s")}]}, APath("t")]
        return lambda m, l: f(m), (fresh(v), lst)

    @p("path lists and maps", eager=True)
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")
        M.world.add_file("/p/list", ("a%d\n/b\n" % v).encode())
        M.world.add_file("/p/map", ("k\ta%d\n" % v).encode())

        def f(m):
            q = Ps.from_mapping(m)
            return [list(q.path_list_from_file("l")), dict(q.path_map_from_file("m"))]
        return f, ({"l": "/p/list", "m": "/p/map"},)

    @p("character sources")
    def _(v):
        CS, BS = api(P_ + "io_utils", "CharSource", "ByteSource")
        d = ("t%d\nu\n" % v).encode()
        w = M.world
        w.add_file("/s/f", d)
        w.add_file("/s/g.gz", make_gzip_bytes(d))
        w.add_file("/s/z.zip", make_zip_bytes([("m", d)]))
        w.add_file("/s/t.tgz", make_tgz_bytes([("m", "file", d)]))

        def f(s):
            srcs = [CS.from_file(APath("/s/f")), CS.from_gzipped_file(APath("/s/g.gz")), CS.from_file_in_zip(APath("/s/z.zip"), "m"),
                    CS.from_file_in_tgz(APath("/s/t.tgz"), "m"), CS.from_string(s), CS.from_nowhere(),
                    CS.from_byte_source(BS.from_file(APath("/s/f")))]
            return [g for x in srcs for g in (x.read_all(), x.readlines(), x.is_empty())] + [
                BS.from_file(APath("/s/f")).read(), BS.from_file_in_zip(APath("/s/z.zip"), "m").read(1)]
        return f, ("s%d\n" % v,)

    @p("sinks")
    def _(v):
        CK, BK, CS = api(P_ + "io_utils", "CharSink", "ByteSink", "CharSource")

        def f(t):
            s, b = CK.to_string(), BK.to_buffer()
            first = s.last_string_written
            s.write(t)
            b.write(t.encode())
            CK.to_file("/o/f").write(t)
            CK.to_nowhere().write(t)
            return [first, s.last_string_written, b.last_bytes_written, CS.from_file("/o/f").read_all()]
        return f, ("t%d" % v,)

    @p("line sets and docID maps")
    def _(v):
        ls, wr, rd, CS, CK, emp = api(P_ + "io_utils", "file_lines_to_set", "write_doc_id_to_file_map", "read_doc_id_to_file_map",
                                      "CharSource", "CharSink", "is_empty_directory")
        M.world.add_file("/s/lines", ("a%d\nb\n" % v).encode())
        M.world.nodes.pop("/s/dir/x", None)
        M.world.add_dir("/s/dir")
        if v:
            M.world.add_file("/s/dir/x", b"")

        def f(m):
            s = CK.to_string()
            wr(m, s)
            return [ls(APath("/s/lines")), s.last_string_written, rd(CS.from_string(s.last_string_written)), emp(APath("/s/dir"))]
        return f, ({"d%d" % v: APath("/x"), "a": APath("y")},)

    @p("key-value stores")
    def _(v):
        K, S = api(P_ + "key_value", "KeyValueSink", "KeyValueSource")

        M.world.add_dir("/k")

        def f(items):
            with K.zip_character_sink(APath("/k/z.zip"), overwrite=True) as s:
                for k, x in items:
                    s.put(k, x)
            with S.zip_character_source(APath("/k/z.zip")) as z:
                res = [z.keys(), dict(z.items()), z.get("no"), z.get("no", "dflt"), z["a"]]
                try:
                    res.append(z["no"])
                except KeyError:
                    res.append("refused")
            with S.interpret_values(S.zip_character_source(APath("/k/z.zip")), lambda k, x: k + x) as i:
                res += [dict(i.items()), i.keys()]
            return res
        return f, ([("a", "x%d" % v), ("k%d" % v, "y")],)

    @p("stores over files")
    def _(v):
        S = api(P_ + "key_value", "KeyValueSource")
        M.world.add_file("/k/f", b"c%d" % v)
        M.world.add_file("/k/map", b"k%d\t/k/f\n" % v)

        def f(m):
            res = []
            for s in (S.from_path_mapping(m), S.from_doc_id_to_file_map("/k/map"), S.binary_from_doc_id_to_file_map(APath("/k/map"))):
                with s as s:
                    res += [s.keys(), dict(s.items()), s.get("zz", None)]
            return res
        return f, (immutabledict([("k", APath("/k/f"))]),)

    @p("stores from parameters")
    def _(v):
        Ps = api(P_ + "parameters", "Parameters")
        fns = {(k, m): api(P_ + "key_value", "%s_key_value_%s_from_params" % (k, m))
               for k in ("char", "byte") for m in ("source", "linear_source", "sink")}

        def f(m, ctx):
            q = Ps.from_mapping(m)
            res = []
            for kind, val in (("char", q.string("val")), ("byte", q.string("val").encode("utf-8"))):
                with fns[kind, "sink"](q, output_namespace="o", eval_context=ctx) as s:
                    s.put("k", val)
                for way in ("source", "linear_source"):
                    with fns[kind, way](q, input_namespace="o", eval_context=ctx) as s:
                        res.append(dict(s.items()))
            return res
        return f, ({"o": {"type": "zip", "path": "/k/p%d.zip" % v}, "val": "x%d" % v}, {"zork": [v]})

    @p("tar stores")
    def _(v):
        LS = api(P_ + "key_value", "KeyValueLinearSource")
        M.world.add_file("/k/t.tgz", make_tgz_bytes([("a", "file", b"1%d" % v), ("b%d" % v, "file", b"2")]))

        def f(keep):
            with LS.str_linear_source_from_tar_gz(APath("/k/t.tgz"), name_filter=lambda n: n in keep) as s:
                return [list(s.items()), list(s.items()), list(s.items(key_filter=lambda k: k == "a"))]
        return f, ({"a", "b%d" % v},)

    @p("iteration helpers", eager=False)
    def _(v):
        drop, windowed, non_none, only, get_only, tile = (
            api(P_ + "iter_utils", "drop"), api(P_ + "iter_utils", "windowed"), api(P_ + "iter_utils", "non_none"),
            api(P_ + "iter_utils", "only"), api(P_ + "collection_utils", "get_only"), api(P_ + "iterutils", "tile_with_pairs"))
        return lambda l: [list(drop(l, 1)), list(windowed(l, 2)), list(windowed(l, 2, partial_windows=True)), list(non_none(l)),
                          only(l[:1]), get_only(l[:1]), list(tile(l)), list(windowed(l, 1))], ([v, None, 3, 4],)

    @p("graphs")
    def _(v):
        G = api(P_ + "_graph", "Digraph")
        nodes = ["a", "b", "c"]
        edges = [("a", "b"), ("bc"[v % 2], "cb"[v % 2])]

        def f(ns, es):
            g = G(ns, es)
            first = list(g.topological_sort())
            return [sorted(first), first.index("a") < first.index("b"), list(g.topological_sort()) == first,
                    [g.in_degree()[n] if callable(g.in_degree) else g.in_degree[n] for n in ns]]
        return f, (nodes, edges)

    @p("small helpers")
    def _(v):
        sl, se, fl, pa = api(P_ + "misc_utils", "str_list_limited", "strip_extension", "flatten_once_to_list", "pathify")
        ev = api(P_ + "misc_utils", "eval_in_context_of_modules")
        return lambda l, ctx: [sl(l, 2), se("a.b%d" % v), fl([l, l]), pa("/x/%d" % v),
                               ev("zork + [1]", ctx, context_modules=["base64"], expected_type=list)], ([v, 2, 3], {"zork": [v]})

    @p("preconditions")
    def _(v):
        ca, cs, ci, cin, call, cn = api(P_ + "preconditions", "check_arg", "check_state", "check_isinstance", "check_in",
                                        "check_all_isinstance", "check_not_none")

        def f(l):
            return [outcome(attempt(g)) for g in (
                lambda: ca(v, "m %s", (1,)), lambda: cs(v), lambda: ci(v, int), lambda: cin(v, l), lambda: call(l, int), lambda: cn(v))]
        return f, ([0, 2],)

    @p("memory amounts")
    def _(v):
        MA = api(P_ + "memory_amount", "MemoryAmount")
        return lambda s: [MA.parse(s).amount, MA.parse(s).unit.name, MA.parse(s) == MA.parse(s), str(MA.parse(s))], (
            ["1K", "1 MB", "2k"][v],)

    @p("attribute helpers")
    def _(v):
        import attr as _  # noqa: F401  (the analysed helpers build on it)
        src = ('from attr import attrs\nfrom vistautils.attrutils import *\nfrom immutablecollections import ImmutableSet, immutableset\n'
               '@attrs\nclass X:\n    a = attrib_immutable(ImmutableSet)\n    b = attrib_opt_immutable(ImmutableSet)\n'
               '    c = attrib_factory(list)\n    d = attrib_opt_instance_of(int)\n')
        g = env.LOADER.source(src, "probe_attr_helpers_%d" % v, "<probe>").__dict__

        def f(a, b):
            x, y = g["X"](a, b), g["X"](a)
            x.c.append(1)
            return [list(x.a), list(x.b), list(y.b), y.c, y.d]
        iset = g["immutableset"]
        return f, (iset([v, 9]), iset([v]))

    @p("checkpoints")
    def _(v):
        Ck = api(P_ + "checkpoints", "Checkpoints")
        for k in [k for k in M.world.nodes if k.startswith("/c/")]:
            M.world.nodes.pop(k)
        M.world.add_dir("/c/d")

        def f(n):
            c = Ck.from_directory("/c/d")
            before = "a" in c
            c.set(n)
            return [before, n in c, "a" in c, "b" in Ck.from_directory(APath("/c/d"))]
        return f, ("ab"[v % 2],)

    return out


META["C42"] = dict(
    min_obligations=300, workers=4,
    explanation="Every public function and method of the library is evaluated on two or three variants of its arguments in every "
                "order (A B A, and against every other part's operations in between); results must not depend on what happened "
                "before, arguments and the process environment must be left as they were, and neither changing the arguments "
                "afterwards nor changing a returned container may show in an earlier or later answer.")


FRESH = {}


def c42(run):
    names = sorted(probes())
    PR = probes()

    def alone(name, v):
        """The answer in a process which has done nothing else: modules loaded afresh, an empty file system."""
        if (name, v) in FRESH:
            return FRESH[name, v]
        saved, decided = (env.LOADER.modules, M.world), M.path.pos
        env.LOADER.modules, M.world = {}, world.World()
        try:
            fn, args = probes()[name][0](v)
            res = outcome(attempt(fn, *args))
        finally:
            env.LOADER.modules, M.world = saved
        if M.path.pos == decided:
            FRESH[name, v] = res
        return res

    def call(S, name, v, check=True):
        mk, eager = PR[name]
        fn, args = mk(v)
        before = norm(args)
        environ, cwd, level = dict(M.world.environ), M.world.cwd, {k: dict(x) for k, x in M.world.logging.items()}
        o = attempt(fn, *args)
        if DEBUG and not o.ok:
            print(name, o)
        res = outcome(o)
        if check:
            S.require(norm(args) == before, "arguments-left-alone", lambda: "%r became %r" % (before, norm(args)))
            S.require((dict(M.world.environ), M.world.cwd) == (environ, cwd), "process-environment-left-alone")
            S.require({k: dict(x) for k, x in M.world.logging.items()} == level, "logging-left-alone")
        return o, res, args, eager

    def again(S, name, v, w):
        o1, r1, args, eager = call(S, name, v)
        _, rw, _, _ = call(S, name, w)
        o2, r2, _, _ = call(S, name, v)
        S.require(r1 == r2, "same-answer-again", lambda: "%s: first %r, then %r" % (name, r1, r2))
        for got, u in ((r1, v), (rw, w)):
            S.require(got == alone(name, u), "same-answer-as-in-a-fresh-process",
                      lambda: "%s: %r, but %r in a fresh process" % (name, got, alone(name, u)))
        if o1.ok:
            S.require(outcome(o1) == r1, "results-stay-as-they-are", lambda: "%r became %r" % (r1, outcome(o1)))
        if o1.ok and eager:
            spoil(args, eager == "dicts")
            S.require(outcome(o1) == r1, "results-are-independent-of-the-arguments",
                      lambda: "after changing the arguments %r became %r" % (r1, outcome(o1)))

    def spoilt(S, name, v, w):
        o1, r1, args, eager = call(S, name, v)
        if o1.ok:
            spoil(o1.value)
        o2, r2, _, _ = call(S, name, v)
        S.require(r1 == r2, "changing-a-result-changes-nothing-else", lambda: "%s: first %r, then %r" % (name, r1, r2))

    for name in names:
        for v, w in itertools.permutations(range(3), 2):
            run.scenario("%s: variants %d %d %d" % (name, v, w, v), lambda S, name=name, v=v, w=w: again(S, name, v, w))
            run.scenario("%s: result of %d changed" % (name, v), lambda S, name=name, v=v, w=w: spoilt(S, name, v, w))

    def loggers(w):
        """The settings of the loggers which are not as they start out; a handler which does nothing is no setting."""
        ret = {}
        for k, x in w.logging.items():
            x = dict(x)
            x["handlers"] = [h for h in x.get("handlers", ()) if getattr(h, "kind", "") != "NullHandler"]
            if x != {"level": 30 if k == "root" else 0, "handlers": [], "propagate": True, "filters": [], "disabled": False}:
                ret[k] = x
        return ret

    def imported(S, module):
        saved, w = (env.LOADER.modules, M.world), world.World()
        w.add_file("/w/f", b"x")
        w.environ["HOME"] = "/w"
        look = lambda: ({k: (n.kind, n.data) for k, n in w.nodes.items()}, dict(w.environ), w.cwd, list(w.argv),
                        loggers(w), w.stdout.getvalue(), w.stderr.getvalue(), len(w.handles))
        before = look()
        env.LOADER.modules, M.world = {}, w
        try:
            o = attempt(env.LOADER.load, module)
            after = look()
        finally:
            env.LOADER.modules, M.world = saved
        S.expect(o, lambda v: v is not None, "importable")
        S.require(after == before, "importing-does-nothing-else", lambda: "importing %s: %r became %r" % (
            module, [b for a, b in zip(after, before) if a != b], [a for a, b in zip(after, before) if a != b]))

    for f in sorted(os.listdir(os.path.join(env.REPO, "vistautils")) + [
            "scripts/" + x for x in os.listdir(os.path.join(env.REPO, "vistautils", "scripts"))]):
        if f.endswith(".py"):
            module = P_ + f[:-3].replace("/", ".").replace(".__init__", "").replace("__init__", "") if f != "__init__.py" else "vistautils"
            run.scenario("importing %s" % module, lambda S, module=module: imported(S, module))

    def cross(S, a, b):
        _, r1, _, _ = call(S, a, 0)
        call(S, b, 1)
        call(S, b, 0)
        _, r2, _, _ = call(S, a, 0)
        S.require(r1 == r2, "same-answer-after-other-uses", lambda: "%s, then %s: %r became %r" % (a, b, r1, r2))

    for a, b in itertools.permutations(names, 2):
        run.scenario("%s, then %s" % (a, b), lambda S, a=a, b=b: cross(S, a, b))


# --------------------------------------------------------------------------- C44
META["C44"] = dict(
    min_obligations=500, workers=4,
    explanation="Every script and every operation which writes is evaluated with a failure injected at each single call to the "
                "environment in turn. On each such path the operation must raise, leave its inputs as they were and close what it "
                "opened; then the same operation is evaluated again over what the failed run left behind - and over what a "
                "process killed at that call would have left - and must give the result of an undisturbed run.")


def c44(run):
    SC = P_ + "scripts."
    from specs.scriptspec import listing, params, read_store, store
    main = {n: api(SC + n, "main") for n in ("split_key_value_store", "join_key_value_stores", "downsample_key_value_store",
                                             "directory_to_key_value_store", "tar_gz_to_zip", "text_at_offsets")}
    run.anchor(*main.values())
    kA, kB, kC = tok(20), "d" + tok(21), "k.x"
    M3 = {kA: b"v0\n", kB: b"", kC: b"\x00\xff"}

    def zips(*paths):
        return lambda: {p: read_store(p) for p in paths}

    def raw(*paths):
        return lambda: {p: M.world.content(p) for p in paths}

    jobs = {}

    def job(name, inputs, kill=True):
        def deco(f):
            jobs[name] = (f, inputs, kill)
            return f
        return deco

    @job("even split", ["/s"])
    def _():
        store("/s/in.zip", M3)
        M.world.add_dir("/o")
        return lambda: main["split_key_value_store"](params({"input": {"type": "zip", "path": "/s/in.zip"}, "num_slices": 2,
                                                             "output_dir": "/o/out"})), \
            lambda: (zips("/o/out/0.zip", "/o/out/1.zip")(), raw("/o/out/_slices.txt")())

    @job("explicit split", ["/s"])
    def _():
        store("/s/in.zip", M3)
        M.world.add_file("/s/k1", listing([kA, kC]))
        M.world.add_file("/s/k2", listing([kB]))
        return lambda: main["split_key_value_store"](params({
            "input": {"type": "zip", "path": "/s/in.zip"},
            "explicit_split": {"a": {"keys_file": "/s/k1", "output_file": "/o/n/a.zip"},
                               "b": {"keys_file": "/s/k2", "output_file": "/o/b.zip"}}})), zips("/o/n/a.zip", "/o/b.zip")

    for typ in ("zip", "file-map"):
        def joining(typ=typ):
            store("/s/a.zip", {kA: b"1"})
            store("/s/b.zip", {kC: b"\xff"})
            M.world.add_file("/s/list", b"/s/a.zip\n/s/b.zip\n")
            out = "/o/d/j.zip" if typ == "zip" else "/o/d"
            look = zips(out) if typ == "zip" else raw("/o/d/" + kA, "/o/d/" + kC, "/o/d/_index")

            def once():
                if typ != "zip" and M.world.faults is None and M.world.exists("/o/d"):
                    M.world.rmtree("/o/d")
                M.world.add_dir("/o/d")
                main["join_key_value_stores"](params({"input_store_list_file": "/s/list", "output": {"type": typ, "path": out}}))
            return once, look
        job("join to a %s" % typ, ["/s"])(joining)

    @job("downsampling", ["/s"])
    def _():
        store("/s/in.zip", M3)
        return lambda: main["downsample_key_value_store"](params({"input": {"type": "zip", "path": "/s/in.zip"},
                                                                  "num_to_sample": 5, "output_zip_path": "/o/s.zip"})), \
            zips("/o/s.zip")

    @job("copying a directory", ["/s"])
    def _():
        M.world.add_file("/s/d/a.txt", b"1")
        M.world.add_file("/s/d/" + kB, b"")
        M.world.add_dir("/o")
        return lambda: main["directory_to_key_value_store"](params({
            "input_directory": "/s/d", "key_function": "strip_one_extension", "output": {"type": "zip", "path": "/o/c.zip"}})), \
            zips("/o/c.zip")

    for opts in ([], ["--dont-stream"], ["--omit-large-files", "--large-file-cutoff", "0.000000001"]):
        def conv(opts=opts):
            M.world.add_file("/w/in.tgz", make_tgz_bytes([("a", "file", b"12"), ("d", "dir", None), ("d/b", "file", b"3")]))
            M.world.add_file("/w/in.zip", b"earlier")
            M.world.argv = ["prog", "in.tgz"] + opts
            return main["tar_gz_to_zip"], lambda: [x for x in sorted(world.read_zip_bytes(M.world.content("/w/in.zip")))
                                                   if not x[0].endswith("/")]
        job("converting a tar %s" % " ".join(opts), ["/w/in.tgz"])(conv)

    @job("text at offsets", ["/s"])
    def _():
        M.world.add_file("/s/t", "ab\u00e9cd".encode("utf-8"))
        M.world.argv = ["prog", "/s/t", "1", "3"]
        return main["text_at_offsets"], lambda: M.world.stdout.getvalue().splitlines()[-1:]

    IO, KV, PA = P_ + "io_utils", P_ + "key_value", P_ + "parameters"

    @job("writing text to a file", [])
    def _():
        K = api(IO, "CharSink")
        return lambda: K.to_file("/o/n/f").write(A + "\n" + B), raw("/o/n/f")

    @job("writing bytes to a file", [])
    def _():
        K = api(IO, "ByteSink")
        return lambda: K.to_file(APath("/o/n/f")).write(b"ab\xff"), raw("/o/n/f")

    @job("writing bytes into a new zip file", [], kill=False)
    def _():
        K = api(IO, "ByteSink")
        M.world.add_dir("/o")

        def once():
            if M.world.faults is None and M.world.exists("/o/z.zip"):
                M.world.unlink("/o/z.zip")
            K.file_in_zip(APath("/o/z.zip"), "m").write(b"ab\xff")
        return once, lambda: world.read_zip_bytes(M.world.content("/o/z.zip"))

    @job("writing YAML", [])
    def _():
        Wr = api(PA, "YAMLParametersWriter")
        return lambda: Wr().write(params({"a": {"b": [1, "x"]}, "c": A}), APath("/o/n/p.yaml")), raw("/o/n/p.yaml")

    @job("loading YAML with includes", ["/s"])
    def _():
        L = api(PA, "YAMLParametersLoader")
        M.world.add_file("/s/a.yaml", b"_includes: [b.yaml, c.yaml]\nx: '%y%'\n")
        M.world.add_file("/s/b.yaml", b"y: 1\n")
        M.world.add_file("/s/c.yaml", b"z: {w: 2}\n")
        got = []
        return lambda: got.append(L().load(APath("/s/a.yaml"))), lambda: got[-1].as_nested_dicts()

    for meth, arg in (("creatable_directory", "/o/a/b"), ("creatable_file", "/o/a/b/f"), ("creatable_empty_directory", "/o/e"),
                      ("path_list_from_file", "/s/l"), ("path_map_from_file", "/s/m"), ("existing_file", "/s/l")):
        def path(meth=meth, arg=arg):
            M.world.add_file("/s/l", b"a\nb\n")
            M.world.add_file("/s/m", b"a\tb\n")
            M.world.add_file("/o/e/x/y", b"1")
            M.world.add_file("/o/e/z", b"1")
            got = []
            kw = {"delete": True} if meth == "creatable_empty_directory" else {}
            return lambda: got.append(getattr(params({"p": arg}), meth)("p", **kw)), lambda: (
                norm(got[-1]), sorted(k for k in M.world.nodes))
        job("parameter path: %s" % meth, ["/s"])(path)

    for text in (True, False):
        def zsink(text=text):
            K = api(KV, "KeyValueSink")
            M.world.add_dir("/o")
            conv = (lambda b: b.decode("latin-1")) if text else (lambda b: b)

            def once():
                with getattr(K, "zip_character_sink" if text else "zip_bytes_sink")(APath("/o/k.zip"), overwrite=True) as s:
                    s.put(kA, conv(b"1"))
                    s.put(kC, conv(b""))
            return once, zips("/o/k.zip")
        job("writing a zip store (%s)" % ("text" if text else "bytes"), [])(zsink)

        def dsink(text=text):
            f = api(KV, "char_key_value_sink_from_params" if text else "byte_key_value_sink_from_params")
            conv = (lambda b: b.decode("latin-1")) if text else (lambda b: b)

            def once():
                if M.world.faults is None and M.world.exists("/o/d"):  # such a store is never mixed with what is there
                    M.world.rmtree("/o/d")
                M.world.add_dir("/o/d")
                with f(params({"output": {"type": "file-map", "path": "/o/d"}})) as s:
                    s.put(kA, conv(b"1"))
                    s.put("sub/" + kC, conv(b""))
            return once, raw("/o/d/" + kA, "/o/d/sub/" + kC, "/o/d/_index")
        job("writing a directory store (%s)" % ("text" if text else "bytes"), [])(dsink)

        def zsource(text=text):
            S_ = api(KV, "KeyValueSource")
            store("/s/in.zip", {kA: b"1", kC: b""})
            got = []

            def once():
                with getattr(S_, "zip_character_source" if text else "zip_bytes_source")(APath("/s/in.zip")) as s:
                    got.append((dict(s.items()), sorted(s.keys()), s[kA], s.get(kC, None), s.get("none")))
            return once, lambda: got[-1]
        job("reading a zip store (%s)" % ("text" if text else "bytes"), ["/s"])(zsource)

        def fsource(text=text):
            S_ = api(KV, "KeyValueSource")
            M.world.add_file("/s/f", b"1")
            M.world.add_file("/s/map", b"k\t/s/f\n")
            got = []

            def once():
                with getattr(S_, "from_doc_id_to_file_map" if text else "binary_from_doc_id_to_file_map")("/s/map") as s:
                    got.append((dict(s.items()), s["k"], s.get("k", None)))
            return once, lambda: got[-1]
        job("reading a file map (%s)" % ("text" if text else "bytes"), ["/s"])(fsource)

        def tsource(text=text):
            L = api(KV, "KeyValueLinearSource")
            M.world.add_file("/s/t.tgz", make_tgz_bytes([("a", "file", b"1"), ("b", "file", b"")]))
            got = []

            def once():
                with getattr(L, "str_linear_source_from_tar_gz" if text else "byte_linear_source_from_tar_gz")(
                        APath("/s/t.tgz")) as s:
                    got.append(list(s.items()))
            return once, lambda: got[-1]
        job("reading a tar store (%s)" % ("text" if text else "bytes"), ["/s"])(tsource)

    @job("checkpoints", [])
    def _():
        Ck = api(P_ + "checkpoints", "Checkpoints")

        def once():
            c = Ck.from_directory("/o/c")
            c.set("a")
            c.reset_all()
            c.set("b")
        return once, lambda: ["a" in Ck.from_directory("/o/c"), "b" in Ck.from_directory("/o/c")]

    @job("line sets and docID maps", ["/s"])
    def _():
        ls, wr, rd, CS, CK = api(IO, "file_lines_to_set", "write_doc_id_to_file_map", "read_doc_id_to_file_map", "CharSource",
                                 "CharSink")
        M.world.add_file("/s/l", b"a\nb\n")
        got = []

        def once():
            ls(APath("/s/l"))
            wr({"d": APath("/x")}, CK.to_file("/o/m"))
            got.append(norm(rd(CS.from_file("/o/m"))))
        return once, lambda: got[-1]

    @job("unpickling", ["/s"])
    def _():
        M.world.add_file("/s/p", env.STUBS["pickle"].dumps([1, 2]))
        got = []
        return lambda: got.append(params({"p": "/s/p"}).pickled_object_from_file("p")), lambda: got[-1]

    def go(S, name, killed):
        mk, inputs, kill = jobs[name]
        w = M.world
        todo, look = mk()
        nodes0 = {k: world.Node(n.kind, n.data) for k, n in w.nodes.items()}
        if not S.expect(attempt(todo), lambda r: True, "undisturbed-run-works", main.get(name)):
            return
        want = attempt(look)
        if not S.expect(want, lambda r: True, "undisturbed-run-works"):
            return
        w.nodes = nodes0
        todo, look = mk()
        before = {k: v for k, v in w.snapshot().items() if any(k == i or k.startswith(i + "/") for i in inputs)}
        w.faults = lambda op, path: True
        o = attempt(todo)
        w.faults = None
        if w.fault_used is None:
            S.expect(o, lambda r: True, "undisturbed-run-works")
            return
        what = "%s of %s" % w.fault_used[:2]
        S.require(not o.ok, "failure-is-reported", lambda: "a failing %s goes unnoticed" % what)
        S.require(not w.leaked(), "everything-closed", lambda: "%r open after a failing %s" % (w.leaked(), what))
        now = {k: v for k, v in w.snapshot().items() if any(k == i or k.startswith(i + "/") for i in inputs)}
        S.require(now == before, "inputs-unchanged", lambda: "%r after a failing %s" % (sorted(k for k in set(now) | set(before)
                                                                                           if now.get(k) != before.get(k)), what))
        if killed:
            w.nodes = w.at_fault
        again = attempt(todo)
        if S.expect(again, lambda r: True, "can-be-repeated"):
            S.expect(attempt(look), want.value, "repeated-run-gives-the-same")

    for name in jobs:
        for killed in ((False, True) if jobs[name][2] else (False,)):
            run.scenario("%s%s" % (name, ", killed" if killed else ""), lambda S, name=name, killed=killed: go(S, name, killed))
