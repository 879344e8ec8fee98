"""Specifications of vistautils.parameters.

Parameter values are opaque: strings are tokens (unknown non-empty words), integers linear expressions over unknown positive
symbols, other leaves atoms.  Parameter trees are enumerated by shape, files live in the abstract file system.
"""
import itertools

from absint import env
from absint.check import api, attempt
from absint.core import M, Unmodelled
from absint.values import Atom, sym, tok
from absint.world import APath

MOD = "vistautils.parameters"
META = {}


def P():
    return api(MOD, "Parameters")


def perr():
    return api(MOD, "ParameterError")


def isnone(v):
    return v is None


def same(w):
    """The very value: same object, or an equal one of exactly the same type."""
    return lambda v: v is w or (type(v) is type(w) and v == w)


def nest(path, value, sib=True):
    """{path[0]: {path[1]: ... value}} with a sibling entry on every level."""
    out = value
    for k in reversed(path):
        out = {k: out}
        if sib:
            out[tok(90)] = tok(91)
    return out


PATHS = [(tok(20),), (tok(20), tok(21)), (tok(20), tok(21), tok(20))]


def values():
    return {
        "str": tok(0), "emptystr": "", "pos": sym("i", 3), "one": 1, "two": 2, "zero": 0, "minus1": -1,
        "neg": -sym("i", 2), "true": True, "false": False,
        "float": 1.5, "fzero": 0.0, "fneg": -2.5, "list": [Atom("e0"), Atom("e1")], "emptylist": [],
        "ns": {tok(9): tok(8)}, "emptyns": {},
        "textual": " null ", "yes": "true", "digits": "10", "dotted": "a.b", "lines": "x\n\ny\n", "percent": "100%", "path": "~/x/../y",
        "big": 10 ** 30, "inf": float("inf"), "tiny": 5e-324, "whole": 2.0, "nested": [[], [0, ""], {"a": []}],
        "emptytuple": (), "tuple": (1, 2), "bytes": b"", "set": frozenset(), "range": range(0), "complex": 0j, "type": int,
    }


# accessor -> (kinds returned as they are, kinds on which the contract says nothing)
ACC = {
    "string": ({"str", "emptystr", "textual", "yes", "digits", "dotted", "lines", "percent", "path"}, set()),
    "integer": ({"pos", "one", "two", "zero", "minus1", "neg", "big"}, {"true", "false"}),
    "positive_integer": ({"pos", "one", "two", "big"}, {"true", "false"}),
    "floating_point": ({"float", "fzero", "fneg", "inf", "tiny", "whole"}, set()),
    "boolean": ({"true", "false"}, set()),
    "arbitrary_list": ({"list", "emptylist", "nested"}, {"emptytuple", "tuple"}),
}

ENUM = """
from enum import Enum
class Plain(Enum):
    red = 1
    blue = 2
class Alias(Enum):
    low = 1
    small = 1
    high = "low"
class Values(Enum):
    zero = 0
    empty = ""
    none = None
    nothing = ()
class Text(Enum):
    first = "alpha"
    second = "first"
    third = "Beta"
class Falsy(Enum):
    zero = 0
    one = 1
    def __bool__(self):
        return False
"""


# --------------------------------------------------------------------------- C11
META["C11"] = dict(
    min_obligations=1000, workers=4,
    explanation="Every typed accessor and its optional twin is evaluated on every kind of parameter value (opaque strings, "
                "unknown integers by sign, booleans, floats, lists, namespaces, the falsy one of each) at nesting depth one to "
                "three, on absent names and below leaves, and compared with the accessor's type table.")


def c11(run):
    Params, Err = api(MOD, "Parameters", "ParameterError")
    Range = api("vistautils.range", "Range")
    run.anchor(Params.get, Params.get_optional, Params.string, Params.integer, Params.positive_integer,
               Params.floating_point, Params.boolean, Params.arbitrary_list, Params.enum, Params.__contains__)
    for acc, (good, free) in ACC.items():
        for kind in values():
            for path in PATHS:
                def sc(S, acc=acc, kind=kind, path=path, good=good, free=free):
                    v = values()[kind]
                    p = Params.from_mapping(nest(path, v))
                    name = ".".join(path)
                    for meth in (acc, "optional_" + acc):
                        o = attempt(getattr(p, meth), name)
                        if kind in good:
                            S.expect(o, same(v), acc + "-returns-the-value", getattr(Params, meth))
                        elif kind not in free:
                            S.expect(o, Err, acc + "-refuses-other-types", getattr(Params, meth))
                    S.expect(attempt(lambda: name in p), True, "membership", Params.__contains__)

                run.scenario("%s of %s at depth %d" % (acc, kind, len(path)), sc)

        def absent(S, acc=acc):
            p = Params.from_mapping(nest(PATHS[1], tok(0)))
            for name in (tok(5), tok(20) + "." + tok(5), tok(5) + "." + tok(6), tok(20) + "." + tok(21) + "." + tok(6),
                         tok(90) + "." + tok(6)):
                S.expect(attempt(getattr(p, acc), name), Err, "absent-parameter-refused", getattr(Params, acc))
                S.expect(attempt(getattr(p, "optional_" + acc), name), isnone, "absent-optional-is-none",
                         getattr(Params, "optional_" + acc))
                S.expect(attempt(lambda: name in p), False, "membership", Params.__contains__)

        run.scenario("%s of an absent parameter" % acc, absent)

    for kind in values():
        for path in PATHS:
            def ns(S, kind=kind, path=path):
                v = values()[kind]
                p = Params.from_mapping(nest(path, v))
                name = ".".join(path)
                isns = kind in ("ns", "emptyns")
                good = lambda r: isinstance(r, Params) and r.as_nested_dicts() == v  # noqa
                S.expect(attempt(p.namespace, name), good if isns else Err, "namespace-typed", Params.namespace)
                S.expect(attempt(p.optional_namespace, name), good if isns else isnone, "optional-namespace",
                         Params.optional_namespace)
                S.expect(attempt(p.namespace_or_empty, name), good if isns else Err, "namespace-or-empty",
                         Params.namespace_or_empty)
                S.expect(attempt(p.has_namespace, name), isns, "has-namespace", Params.has_namespace)
                for t in (str, bool, float, list, Params, object):
                    ok = t is object or (t is Params) == isns and (isns or isinstance(v, t))
                    for m in ("get", "get_optional"):
                        S.expect(attempt(getattr(p, m), name, t),
                                 (lambda r: r is v or r == v or isns) if ok else Err, "get-checks-the-type", getattr(Params, m))

            run.scenario("namespace accessors on %s at depth %d" % (kind, len(path)), ns)

    def nsabsent(S):
        p = Params.from_mapping(nest(PATHS[1], tok(0)))
        for name in (tok(5), tok(20) + "." + tok(5)):
            S.expect(attempt(p.namespace, name), Err, "absent-parameter-refused", Params.namespace)
            S.expect(attempt(p.optional_namespace, name), isnone, "optional-namespace", Params.optional_namespace)
            S.expect(attempt(p.has_namespace, name), False, "has-namespace", Params.has_namespace)
            S.expect(attempt(p.namespace_or_empty, name), lambda r: isinstance(r, Params) and r.as_nested_dicts() == {},
                     "namespace-or-empty", Params.namespace_or_empty)
            S.expect(attempt(p.get, name, object), Err, "absent-parameter-refused", Params.get)
            S.expect(attempt(p.get_optional, name, object), isnone, "absent-optional-is-none", Params.get_optional)

    run.scenario("namespace accessors on absent names", nsabsent)

    def options(S):
        p = Params.from_mapping({"k": tok(0), "e": ""})
        for opts in ([tok(0)], (tok(1), tok(0)), {tok(0), tok(2)}, [""], [], (tok(1), tok(2)), {tok(1)}):
            for key, v in (("k", tok(0)), ("e", "")):
                for m in ("string", "optional_string"):
                    S.expect(attempt(getattr(p, m), key, opts), v if v in opts else Err, "valid-options-enforced",
                             Params.string)
                    S.expect(attempt(getattr(p, m), key, valid_options=opts), v if v in opts else Err,
                             "valid-options-enforced", Params.string)
            S.expect(attempt(p.optional_string, "absent", opts), isnone, "absent-optional-is-none")
            S.expect(attempt(p.string, "absent", opts), Err, "absent-parameter-refused")

        # an option is matched exactly
        for word in (tok(0), "Ab", ""):
            for near in (" " + word, word + " ", "\t" + word, word + "\n", word + "x", word.lower() + "b", word.swapcase() + "q", word * 2 + "z"):
                p = Params.from_mapping({"k": near, "l": word})
                for m in ("string", "optional_string"):
                    S.expect(attempt(getattr(p, m), "k", [word]), Err, "valid-options-enforced", getattr(Params, m))
                    S.expect(attempt(getattr(p, m), "l", [near]), Err, "valid-options-enforced", getattr(Params, m))
                    S.expect(attempt(getattr(p, m), "k", [word, near]), near, "valid-options-enforced", getattr(Params, m))
        S.expect(attempt(Params.from_mapping({"k": "ab"}).string, "k", ["AB", "Ab"]), Err, "valid-options-enforced", Params.string)

    run.scenario("valid options", options)

    def emptynames(S):
        # a dotted name has exactly the components between its dots, empty ones included
        p = Params.from_mapping({"a": {"b": 1, "n": {"c": 2}}, "z": 3})
        for name in ("", ".", "a.", ".a", "a..b", ".a.b", "a.b.", "..a", "a.n..c", "z.", ".z", " z", "z ", "a. b", "a .b"):
            S.expect(attempt(lambda: name in p), False, "membership", Params.__contains__)
            S.expect(attempt(p.integer, name), Err, "absent-parameter-refused", Params.get)
            S.expect(attempt(p.get, name, object), Err, "absent-parameter-refused", Params.get)
            S.expect(attempt(p.optional_integer, name), isnone, "absent-optional-is-none", Params.get_optional)
            S.expect(attempt(p.namespace, name), Err, "absent-parameter-refused", Params.namespace)
            S.expect(attempt(p.optional_namespace, name), isnone, "optional-namespace", Params.optional_namespace)
            S.expect(attempt(p.integer, name, default=7), 7, "default-used-when-absent", Params.integer)
        q = Params.from_mapping({"": 5, "a": {"": 6, "b": {"": {"c": 7}}}})
        for name, v in (("", 5), ("a.", 6), ("a.b..c", 7)):
            S.expect(attempt(q.integer, name), v, "integer-returns-the-value", Params.integer)
            S.expect(attempt(lambda: name in q), True, "membership", Params.__contains__)

    run.scenario("names with empty components", emptynames)

    def otherkinds(S):
        # values of classes which are like, but are not, what an accessor promises
        path, num = APath("/d/" + tok(3)), Atom("e")
        p = Params.from_mapping({"p": path, "b": b"x", "t": (1, 2), "c": 1j, "o": num, "s": frozenset([1]), "n": {"p": path}})
        for k in ("p", "b", "t", "c", "o", "s", "n.p"):
            for acc in ACC:
                for m in (acc, "optional_" + acc):
                    S.expect(attempt(getattr(p, m), k), Err, acc + "-refuses-other-types", getattr(Params, m))
            for t in (str, int, float, bool, list, dict, Params):
                for m in ("get", "get_optional"):
                    S.expect(attempt(getattr(p, m), k, t), Err, "get-checks-the-type", getattr(Params, m))
            v = p.get(k, object)
            for m in ("get", "get_optional"):
                S.expect(attempt(getattr(p, m), k, type(v)), lambda r: r is v, "get-checks-the-type", getattr(Params, m))
            for m in ("existing_file", "creatable_file", "existing_directory", "optional_existing_file"):
                S.expect(attempt(getattr(p, m), k), Err, "non-string-path-refused", getattr(Params, m))

    run.scenario("values of other classes", otherkinds)

    def irange(S, lo, hi):
        a = sym("a", 1)
        b = a + sym("g", 3)
        for v in (a - 1, a, a + 1, b - 1, b, b + 1):
            p = Params.from_mapping({"k": v})
            for f, lk, uk in (("closed", 0, 1), ("open", 1, 0), ("closed_open", 0, 0), ("open_closed", 1, 1)):
                good = (v > a if lk else v >= a) and (v <= b if uk else v < b)
                S.expect(attempt(p.integer, "k", valid_range=getattr(Range, f)(a, b)), v if good else Err,
                         "valid-range-enforced", Params.integer)
            S.expect(attempt(p.integer, "k", valid_range=Range.at_least(b)), v if v >= b else Err, "valid-range-enforced",
                     Params.integer)
            S.expect(attempt(p.integer, "k", valid_range=Range.all()), v, "valid-range-enforced", Params.integer)
        for v in (-1.0, 0.0, 0.5, 1.0, 1.5):
            p = Params.from_mapping({"k": v})
            for m in ("floating_point", "optional_floating_point"):
                for r, good in ((Range.closed(0.0, 1.0), 0 <= v <= 1), (Range.open(0.0, 1.0), 0 < v < 1),
                                (Range.less_than(0.0), v < 0), (Range.all(), True), (None, True)):
                    S.expect(attempt(getattr(p, m), "k", r), v if good else Err, "valid-range-enforced",
                             getattr(Params, m))
                    S.expect(attempt(getattr(p, m), "k", valid_range=r), v if good else Err, "valid-range-enforced")

        # unusual floats
        nan = float("nan")
        for m in ("floating_point", "optional_floating_point"):
            for r in (Range.closed(0.0, 1.0), Range.open(-1e308, 1e308), Range.at_least(0.0), Range.at_most(0.0),
                      Range.less_than(1e308), Range.greater_than(-1e308)):
                inside = nan in r  # (whatever ranges make of it, the accessor agrees)
                want = (lambda x: x is nan) if inside else Err
                S.expect(attempt(getattr(Params.from_mapping({"k": nan}), m), "k", r), want, "valid-range-enforced", getattr(Params, m))
                S.expect(attempt(getattr(Params.empty(), m), "k", r, default=nan), want, "valid-range-enforced", getattr(Params, m))
            for v in (nan, float("inf"), -float("inf")):
                S.expect(attempt(getattr(Params.from_mapping({"k": v}), m), "k"), lambda x: x is v, "floating_point-returns-the-value",
                         getattr(Params, m))
            for v, r, good in ((float("inf"), Range.at_least(0.0), True), (float("inf"), Range.less_than(1e308), False),
                               (-float("inf"), Range.at_most(0.0), True), (-float("inf"), Range.at_least(0.0), False),
                               (-0.0, Range.at_least(0.0), True), (0.0, Range.greater_than(-0.0), False),
                               (5e-324, Range.greater_than(0.0), True), (1.0000000000000002, Range.at_most(1.0), False)):
                S.expect(attempt(getattr(Params.from_mapping({"k": v}), m), "k", r), same(v) if good else Err, "valid-range-enforced",
                         getattr(Params, m))
        for v, r, good in ((10 ** 30, Range.at_least(1), True), (10 ** 30, Range.at_most(2 ** 63), False), (-2 ** 63, Range.less_than(0), True),
                           (2 ** 53 + 1, Range.at_most(2 ** 53), False), (0, Range.open(-1, 1), True), (0, Range.open(-1, 0), False),
                           (1, Range.closed(1, 1), True), (1, Range.closed_open(1, 1), False), (1, Range.open_closed(1, 1), False)):
            S.expect(attempt(Params.from_mapping({"k": v}).integer, "k", valid_range=r), same(v) if good else Err,
                     "valid-range-enforced", Params.integer)
            S.expect(attempt(Params.empty().integer, "k", valid_range=r, default=v), same(v) if good else Err,
                     "valid-range-enforced", Params.integer)

    run.scenario("valid ranges", lambda S: irange(S, 0, 1))

    def enums(S):
        mod = env.LOADER.source(ENUM, "scenario_enum", "<scenario>")
        p = Params.from_mapping({"r": "red", "b": "blue", "z": "zero", "o": "one", "t": tok(0), "i": 3, "e": "", "n": {}})
        for key, want in (("r", mod.Plain.red), ("b", mod.Plain.blue), ("z", Err), ("t", Err), ("i", Err), ("e", Err),
                          ("n", Err), ("absent", Err)):
            S.expect(attempt(p.enum, key, mod.Plain), (lambda v: v is want) if want is not Err else Err, "enum", Params.enum)
            for d in (mod.Plain.red, mod.Plain.blue):
                w = d if key == "absent" else want
                S.expect(attempt(p.enum, key, mod.Plain, default=d), (lambda v: v is w) if w is not Err else Err,
                         "enum-default", Params.enum)
        q = Params.from_mapping({"l": "low", "s": "small", "h": "high", "n": "name", "v": "value", "m": "__members__",
                                 "one": "1", "c": "LOW", "p": " low", "q": "Alias.low"})
        for key, want in (("l", mod.Alias.low), ("s", mod.Alias.low), ("h", mod.Alias.high), ("n", Err), ("v", Err), ("m", Err),
                          ("one", Err), ("c", Err), ("p", Err), ("q", Err)):
            S.expect(attempt(q.enum, key, mod.Alias), (lambda v: v is want) if want is not Err else Err, "enum-by-name",
                     Params.enum)
        # only names name members: a member's value does not
        q = Params.from_mapping({"a": "alpha", "f": "first", "t": "Beta", "s": "second", "one": 1, "u": "Text.first"})
        for key, want in (("a", Err), ("f", mod.Text.first), ("t", Err), ("s", mod.Text.second), ("one", Err), ("u", Err)):
            for cls in (mod.Text, mod.Plain):
                w = want if cls is mod.Text else Err
                S.expect(attempt(q.enum, key, cls), (lambda v: v is w) if w is not Err else Err, "enum-by-name", Params.enum)
                S.expect(attempt(q.enum, key, cls, default=cls(list(cls)[0])), (lambda v: v is w) if w is not Err else Err,
                         "enum-by-name", Params.enum)
        for key, want in (("z", mod.Falsy.zero), ("o", mod.Falsy.one), ("r", Err)):
            S.expect(attempt(p.enum, key, mod.Falsy), (lambda v: v is want) if want is not Err else Err, "enum", Params.enum)
        for d in (mod.Falsy.zero, mod.Falsy.one):
            S.expect(attempt(p.enum, "absent", mod.Falsy, default=d), lambda v: v is d, "enum-default", Params.enum)
            S.expect(attempt(p.enum, "z", mod.Falsy, default=d), lambda v: v is mod.Falsy.zero, "enum-default", Params.enum)

    run.scenario("enumerations", enums)

    def exactly(S):
        p = Params.from_mapping({"f": 0, "s": "", "l": [], "n": {}, "x": False, "a": {"q": tok(1)}})
        names = ["f", "s", "l", "n", "x", "a.q", "no", "a.no", "f.q"]
        present = {"f", "s", "l", "n", "x", "a.q"}
        for k in (1, 2, 3, 4, 5, 8, 9):
            for c in itertools.combinations(names, k):
                cnt = len(present & set(c))
                S.expect(attempt(p.assert_exactly_one_present, list(c)), isnone if cnt == 1 else Err, "exactly-one-present",
                         Params.assert_exactly_one_present)
        S.expect(attempt(p.assert_exactly_one_present, []), Err, "exactly-one-present")

    run.scenario("assert_exactly_one_present", exactly, budget=2000000)


# --------------------------------------------------------------------------- C12
META["C12"] = dict(
    min_obligations=500,
    explanation="Every accessor with a default is evaluated on absent and present parameters with every default of its type, "
                "falsy ones included, and with defaults of other types or outside the permitted options or range.")


def c12(run):
    Params, Err = api(MOD, "Parameters", "ParameterError")
    Range = api("vistautils.range", "Range")
    run.anchor(Params.get, Params.get_optional, Params.optional_integer, Params.optional_positive_integer,
               Params.optional_floating_point, Params.optional_boolean, Params.optional_arbitrary_list,
               Params.optional_string)
    defaults = {
        "string": ["str2", "emptystr"], "integer": ["pos2", "one", "zero", "minus1", "neg"],
        "positive_integer": ["pos2", "one", "two"],
        "floating_point": ["float", "fzero", "fneg"], "boolean": ["true", "false"], "arbitrary_list": ["list", "emptylist"],
    }

    for acc, (good, _) in ACC.items():
        defaults[acc] += sorted(k for k in good if k not in defaults[acc])

    def val(k):
        return {"str2": tok(33), "pos2": sym("j", 3)}.get(k, values().get(k))

    for acc, (good, free) in ACC.items():
        for dk in defaults[acc]:
            for where in ("absent", "absent nested", "below a leaf", "far below a leaf", "below a deep leaf", "deep in nothing"):
                def ab(S, acc=acc, dk=dk, where=where):
                    d = val(dk)
                    p = Params.from_mapping({"a": {"b": tok(1), "c": {"d": {"e": {}}}}, "leaf": tok(2)})
                    name = {"absent": tok(5), "absent nested": "a." + tok(5), "below a leaf": "leaf." + tok(5),
                            "far below a leaf": "leaf.x.y.z.w.v." + tok(5), "below a deep leaf": "a.b.x.y.z." + tok(5),
                            "deep in nothing": "a.c.d.e." + tok(5)}[where]
                    for m in (acc, "optional_" + acc):
                        S.expect(attempt(getattr(p, m), name, default=d), same(d), "default-used-when-absent",
                                 getattr(Params, m))

                run.scenario("default %s of %s, %s" % (dk, acc, where), ab)
            for kind in values():
                def pres(S, acc=acc, dk=dk, kind=kind, good=good, free=free):
                    v, d = values()[kind], val(dk)
                    p = Params.from_mapping({"a": {"k": v}})
                    for m in (acc, "optional_" + acc):
                        o = attempt(getattr(p, m), "a.k", default=d)
                        if kind in good:
                            S.expect(o, same(v), "default-ignored-when-present", getattr(Params, m))
                        elif kind not in free:
                            S.expect(o, Err, "default-does-not-hide-a-bad-value", getattr(Params, m))

                run.scenario("default %s of %s, present %s" % (dk, acc, kind), pres)
        for kind in values():
            def wrong(S, acc=acc, kind=kind, good=good, free=free):
                if kind in good or kind in free or kind in ("ns", "emptyns"):
                    return
                p = Params.empty()
                S.expect(attempt(getattr(p, acc), "k", default=values()[kind]), Err, "default-of-wrong-type-refused",
                         getattr(Params, acc))
                if acc == "positive_integer" and kind in ("zero", "minus1", "neg", "str", "float") or (
                        acc == "arbitrary_list" and kind in ("str", "pos", "one", "zero", "true", "emptystr", "false")):
                    S.expect(attempt(getattr(p, "optional_" + acc), "k", default=values()[kind]), Err,
                             "default-of-wrong-type-refused", getattr(Params, "optional_" + acc))

            run.scenario("default of wrong type %s for %s" % (kind, acc), wrong)

    def valid(S):
        p = Params.empty()
        for d in (tok(0), tok(1), ""):
            for opts in ([tok(0), ""], (tok(1),), {tok(7)}):
                S.expect(attempt(p.string, "k", opts, d), d if d in opts else Err, "default-validated", Params.string)
        for d in (-1.0, 0.0, 0.5, 1.0):
            for r, f in ((Range.closed(0.0, 0.5), lambda x: 0 <= x <= 0.5), (Range.open(-1.0, 0.5), lambda x: -1 < x < 0.5)):
                for m in ("floating_point", "optional_floating_point"):
                    S.expect(attempt(getattr(p, m), "k", r, default=d), d if f(d) else Err, "default-validated",
                             getattr(Params, m))
        for d in (-2.0, 0.0, 2.0):
            for r, f in ((Range.closed(1.0, 3.0), lambda x: x == 2.0), (Range.greater_than(0.0), lambda x: x > 0),
                         (Range.less_than(0.0), lambda x: x < 0), (Range.at_most(0.0), lambda x: x <= 0),
                         (Range.all(), lambda x: True), (None, lambda x: True)):
                for m in ("floating_point", "optional_floating_point"):
                    S.expect(attempt(getattr(p, m), "k", r, default=d), d if f(d) else Err, "default-validated",
                             getattr(Params, m))
                    q = Params.from_mapping({"k": 2.0})
                    if f(d):
                        S.expect(attempt(getattr(q, m), "k", r, default=d), 2.0 if r is None or 2.0 in r else Err,
                                 "default-ignored-when-present", getattr(Params, m))
        for d in (-1, 0, 1):
            for r, f in ((Range.closed(1, 3), lambda x: x == 1), (Range.less_than(0), lambda x: x < 0), (None, lambda x: True)):
                kw = {} if r is None else {"valid_range": r}
                S.expect(attempt(p.integer, "k", default=d, **kw), d if f(d) else Err, "default-validated", Params.integer)
        for d in (0, 1, 2, 3):
            S.expect(attempt(p.integer, "k", default=d, valid_range=Range.closed(1, 2)), d if 1 <= d <= 2 else Err,
                     "default-validated", Params.integer)
        for d in (0, "", False, [], Atom("d"), 0.0):
            S.expect(attempt(p.get_optional, "k", object, default=d), same(d), "default-used-when-absent",
                     Params.get_optional)
            S.expect(attempt(p.get, "k", object, d), same(d), "default-used-when-absent", Params.get)

        # evaluate
        for d in (0, "", False, [], (), 0.0, Atom("d"), tok(4)):
            e = Params.from_mapping({"n": {"v": "3"}, "x": "1 + 1", "bad": "1 +"})
            for name in ("k", "n.k", "x.k"):
                S.expect(attempt(e.evaluate, name, type(d), default=d), lambda r: r is d, "default-used-when-absent",
                         Params.evaluate)
            S.expect(attempt(e.evaluate, "x", int, default=d), 2, "default-ignored-when-present", Params.evaluate)
            S.expect(attempt(e.evaluate, "bad", int, default=d), Err, "default-does-not-hide-a-bad-value", Params.evaluate)
            S.expect(attempt(e.evaluate, "n", int, default=d), Err, "default-does-not-hide-a-bad-value", Params.evaluate)

    run.scenario("default validation", valid)

    def booleans(S):
        f = getattr(Params, "optional_boolean_with_default", None)
        if f is None:
            return
        for d in (True, False):
            p = Params.from_mapping({"t": True, "f": False, "n": {"t": True, "f": False}, "i": 0, "s": "", "l": [], "e": {}})
            for name, want in (("t", True), ("f", False), ("n.t", True), ("n.f", False), ("no", d), ("n.no", d), ("t.no", d), ("no.f", d)):
                S.expect(attempt(p.optional_boolean_with_default, name, d), same(want),
                         "default-used-when-absent" if "no" in name else "default-ignored-when-present", f)
            for name in ("i", "s", "l", "e", "n"):
                S.expect(attempt(p.optional_boolean_with_default, name, d), Err, "default-does-not-hide-a-bad-value", f)

    run.scenario("boolean with default", booleans)

    def enums(S):
        mod = env.LOADER.source(ENUM, "scenario_enum", "<scenario>")
        for cls in (mod.Plain, mod.Alias, mod.Falsy, mod.Values):
            names = list(cls.__members__)
            for d in cls.__members__.values():
                p = Params.from_mapping({"a": {n: n for n in names}, "bad": "no such member", "i": 3, "e": ""})
                S.expect(attempt(p.enum, "k", cls, default=d), lambda v: v is d, "default-used-when-absent", Params.enum)
                S.expect(attempt(p.enum, "a.k", cls, default=d), lambda v: v is d, "default-used-when-absent", Params.enum)
                for n in names:
                    S.expect(attempt(p.enum, "a." + n, cls, default=d), lambda v: v is cls[n], "default-ignored-when-present",
                             Params.enum)
                for n in ("bad", "i", "e", "a"):
                    S.expect(attempt(p.enum, n, cls, default=d), Err, "default-does-not-hide-a-bad-value", Params.enum)
            S.expect(attempt(Params.empty().enum, "k", cls), Err, "absent-parameter-refused", Params.enum)

    run.scenario("enumeration defaults", enums)


# --------------------------------------------------------------------------- C13
META["C13"] = dict(
    min_obligations=300,
    explanation="Every path accessor is evaluated against every state of the path in an abstract file system (absent with or "
                "without parent, file, empty directory, directory with contents, below a file), absolute and relative; the "
                "result and the exact change to the file system are compared with the contract.")


def c13(run):
    Params, Err = api(MOD, "Parameters", "ParameterError")
    run.anchor(Params.creatable_directory, Params.creatable_empty_directory, Params.creatable_file, Params.existing_file,
               Params.existing_directory)
    STATES = ("absent", "absent-no-parent", "file", "emptyfile", "emptydir", "fulldir", "nesteddir", "special",
              "only .nfs0001", "only .DS_Store", "only .gitkeep", "only Thumbs.db", "only lost+found/", "only __pycache__/x",
              "only .git/config", "only x~", "only .x.swp")

    def setup(state, base):
        w = M.world
        w.add_dir(base)
        w.add_file(base + "/bystander/" + tok(70), tok(71))
        w.add_file("/other/" + tok(72), tok(73))
        tgt = base + "/" + tok(60)
        if state == "absent-no-parent":
            tgt = base + "/" + tok(60) + "/" + tok(61) + "/" + tok(62)
        elif state == "file":
            w.add_file(tgt, tok(1))
        elif state == "emptyfile":
            w.add_file(tgt, b"")
        elif state == "emptydir":
            w.add_dir(tgt)
        elif state == "fulldir":
            w.add_file(tgt + "/" + tok(63), tok(2))
        elif state == "nesteddir":
            w.add_dir(tgt + "/" + tok(63))
        elif state == "special":
            w.add_special(tgt)
        elif state.startswith("only "):
            (w.add_dir(tgt + "/" + state[5:-1]) if state.endswith("/") else w.add_file(tgt + "/" + state[5:], b""))
        return tgt

    def parents(snap, tgt, upto):
        out = dict(snap)
        parts = tgt.split("/")
        for i in range(2, len(parts) + (1 if upto else 0)):
            out.setdefault("/".join(parts[:i]), ("dir", b""))
        return out

    ACCS = ["existing_file", "existing_directory", "creatable_directory", "creatable_file",
            "creatable_empty_directory", "creatable_empty_directory+keep", "creatable_empty_directory+delete"]
    for acc in ACCS:
        for opt in (False, True):
            for state in STATES:
                for rel in (False, True):
                    def sc(S, acc=acc, opt=opt, state=state, rel=rel):
                        base = "/w/" + tok(50) if rel else "/d/" + tok(50)
                        tgt = setup(state, base)
                        given = tgt[len("/w/"):] if rel else tgt
                        before = M.world.snapshot()
                        p = Params.from_mapping({"a": {"k": given}})
                        meth, _, mode = acc.partition("+")
                        kw = {"delete": True} if mode == "delete" else {"delete": False} if mode == "keep" else {}
                        f = getattr(p, ("optional_" if opt else "") + meth)
                        o = attempt(f, "a.k", **kw)
                        after = M.world.snapshot()
                        want = before
                        if meth == "existing_file":
                            ok = state in ("file", "emptyfile")
                        elif meth == "existing_directory":
                            ok = state in ("emptydir", "fulldir", "nesteddir") or state.startswith("only ")
                        elif meth == "creatable_directory":
                            ok = None if state in ("file", "emptyfile", "special") else True
                            want = parents(before, tgt, True) if ok else before
                        elif meth == "creatable_file":
                            ok = True
                            want = parents(before, tgt, False)
                        else:
                            ok = state not in ("file", "emptyfile", "special") and (
                                mode == "delete" or state not in ("fulldir", "nesteddir") and not state.startswith("only "))
                            if ok:
                                want = parents(before, tgt, True)
                                want = {k: v for k, v in want.items() if not k.startswith(tgt + "/")}
                        if ok is None:
                            S.expect(o, Exception, meth + "-outcome", f)
                        else:
                            S.expect(o, (lambda v: isinstance(v, APath) and str(v) == tgt) if ok else Err,
                                     meth + "-outcome", f)
                        S.require(after == want, meth + "-effects", lambda: "gained %s, lost %s" % (
                            sorted(set(after) - set(want)), sorted(set(want) - set(after))), f)

                    run.scenario("%s%s on %s, %s" % ("optional " if opt else "", acc, state, "relative" if rel else "absolute"),
                                 sc)

        for opt in (False, True):
            for state in ("full-of-links", "only-dangling", "link-to-empty", "link-to-full", "link-to-file", "dangling",
                          "below-link"):
                def lk(S, acc=acc, opt=opt, state=state):
                    w = M.world
                    base = "/d/" + tok(50)
                    tgt = base + "/" + tok(60)
                    w.add_dir(base)
                    w.add_file("/other/" + tok(72), tok(73))
                    w.add_file("/other/" + tok(74) + "/" + tok(75), tok(76))
                    real, kind, inside = tgt, "dir", ()
                    if state == "full-of-links":
                        w.add_file(tgt + "/" + tok(63), tok(2))
                        w.add_link(tgt + "/" + tok(64), "/other")
                        w.add_link(tgt + "/" + tok(65), "/other/" + tok(72))
                        w.add_link(tgt + "/" + tok(66), "/nowhere")
                        w.add_link(tgt + "/" + tok(67) + "/" + tok(68), "/other/" + tok(74))
                        inside = True
                    elif state == "only-dangling":
                        w.add_link(tgt + "/" + tok(66), "/nowhere")
                        inside = True
                    elif state == "link-to-empty":
                        real = "/real/" + tok(61)
                        w.add_dir(real)
                        w.add_link(tgt, real)
                    elif state == "link-to-full":
                        real = "/real/" + tok(61)
                        w.add_file(real + "/" + tok(62), tok(1))
                        w.add_link(tgt, real)
                        inside = True
                    elif state == "link-to-file":
                        real, kind = "/real/" + tok(61), "file"
                        w.add_file(real, tok(1))
                        w.add_link(tgt, real)
                    elif state == "dangling":
                        real, kind = "/real/" + tok(61), None
                        w.add_link(tgt, real)
                    else:
                        real, kind = "/real/" + tok(61) + "/" + tok(62), None
                        w.add_dir("/real")
                        w.add_link(tgt, "/real/" + tok(61))
                        w.add_dir("/real/" + tok(61))
                        tgt = tgt + "/" + tok(62)
                    before = w.snapshot()
                    p = Params.from_mapping({"a": {"k": tgt}})
                    meth, _, mode = acc.partition("+")
                    kw = {"delete": True} if mode == "delete" else {"delete": False} if mode == "keep" else {}
                    f = getattr(p, ("optional_" if opt else "") + meth)
                    o = attempt(f, "a.k", **kw)
                    after = w.snapshot()
                    want = before
                    if meth == "existing_file":
                        ok = kind == "file"
                    elif meth == "existing_directory":
                        ok = kind == "dir"
                    elif meth == "creatable_directory":
                        ok = None if kind == "file" else True
                        want = parents(before, real, True) if ok else before
                    elif meth == "creatable_file":
                        ok = True
                        want = parents(before, real, False)
                    else:
                        ok = kind != "file" and (mode == "delete" or not inside)
                        if ok:
                            want = parents(before, real, True)
                            want = {k: v for k, v in want.items() if not k.startswith(real + "/")}
                    if ok is None:
                        S.expect(o, Exception, meth + "-outcome", f)
                    else:
                        S.expect(o, (lambda v: isinstance(v, APath) and w.loc(v) == real) if ok else Err,
                                 meth + "-outcome", f)
                    S.require(after == want, meth + "-effects", lambda: "gained %s, lost %s" % (
                        sorted(set(after) - set(want)), sorted(set(want) - set(after))), f)

                run.scenario("%s%s with symbolic links: %s" % ("optional " if opt else "", acc, state), lk)

        for spelling in ("%s/../{}/%s", "%s/./%s/", "%s/%s/.", "%s//%s", "%s/ %s", "%s/%s ", "%s/~%s", "%s/%%%s%%", "%s/.%s",
                         "%s/$HOME%s", "$HOME/%s/%s", "%s/${HOME}/%s", "%s/$X%s", "%s/%s\u00e9", "%s/%s*", "~/%s%s", "%s/%s\\x"):
            for state in ("absent", "file", "fulldir"):
                def sp(S, acc=acc, state=state, spelling=spelling):
                    w = M.world
                    base, leaf = "/d/" + tok(50), tok(60)
                    w.add_dir(base)
                    given = spelling.replace("{}", tok(50)) % (base, leaf)
                    tgt = w.norm(given)
                    w.environ = {"HOME": "/elsewhere", "X": "y", "X" + leaf: "z"}
                    if state == "file":
                        w.add_file(tgt, tok(1))
                    elif state == "fulldir":
                        w.add_file(tgt + "/" + tok(63), tok(2))
                    before = w.snapshot()
                    meth, _, mode = acc.partition("+")
                    kw = {"delete": True} if mode == "delete" else {"delete": False} if mode == "keep" else {}
                    f = getattr(Params.from_mapping({"k": given}), meth)
                    o = attempt(f, "k", **kw)
                    want = before
                    ok = {"existing_file": state == "file", "existing_directory": state == "fulldir",
                          "creatable_directory": None if state == "file" else True, "creatable_file": True,
                          "creatable_empty_directory": state == "absent" or state == "fulldir" and mode == "delete"}[meth]
                    if ok and meth.startswith("creatable"):
                        want = parents(before, tgt, meth != "creatable_file")
                        if mode == "delete":
                            want = {k: v for k, v in want.items() if not k.startswith(tgt + "/")}
                    S.expect(o, Exception if ok is None else (lambda v: str(v) == tgt) if ok else Err, meth + "-outcome", f)
                    after = w.snapshot()
                    S.require(after == want, meth + "-effects", lambda: "gained %s, lost %s" % (
                        sorted(set(after) - set(want)), sorted(set(want) - set(after))), f)

                run.scenario("%s of a path spelt %r, %s" % (acc, spelling, state), sp)

        def ab(S, acc=acc):
            meth = acc.partition("+")[0]
            kw = {"delete": True} if acc.endswith("+delete") else {}
            before = M.world.snapshot()
            p = Params.from_mapping({"a": {}, "i": 3, "l": [tok(1)]})
            for name in ("k", "a.k"):
                S.expect(attempt(getattr(p, meth), name, **kw), Err, "absent-parameter-refused", getattr(Params, meth))
                S.expect(attempt(getattr(p, "optional_" + meth), name, **kw), isnone, "absent-optional-is-none",
                         getattr(Params, "optional_" + meth))
            for name in ("i", "l", "a"):
                S.expect(attempt(getattr(p, meth), name, **kw), Err, "non-string-path-refused", getattr(Params, meth))
                S.expect(attempt(getattr(p, "optional_" + meth), name, **kw), Err, "non-string-path-refused",
                         getattr(Params, "optional_" + meth))
            S.require(M.world.snapshot() == before, "absent-parameter-has-no-effect")

        run.scenario("%s without a path" % acc, ab)


# --------------------------------------------------------------------------- trees
def trees(depth, keys, leaf):
    """All mappings of at most `depth` levels over the given keys; leaves are made by leaf(path)."""
    def rec(d, path):
        opts = [None]  # absent
        opts.append(("leaf",))
        if d > 0:
            opts += [("ns", t) for t in maps(d - 1, path)]
        return opts

    def maps(d, path):
        for combo in itertools.product(*[rec(d, path + (k,)) for k in keys]):
            yield tuple(combo)

    def build(t, path):
        out = {}
        for k, c in zip(keys, t):
            if c is None:
                continue
            out[k] = leaf(path + (k,)) if c[0] == "leaf" else build(c[1], path + (k,))
        return out

    return [lambda t=t: build(t, ()) for t in maps(depth - 1, ())]


def items_of(d, prefix=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from items_of(v, prefix + (k,))
        else:
            yield ".".join(prefix + (k,)), v


def walk(d, prefix=()):
    for k, v in d.items():
        yield prefix + (k,), v
        if isinstance(v, dict):
            yield from walk(v, prefix + (k,))


# --------------------------------------------------------------------------- C14
META["C14"] = dict(
    min_obligations=3000, workers=4,
    explanation="All parameter trees of up to three levels over two keys (with opaque leaves, empty namespaces included) are "
                "built by each constructor; dotted lookup, membership, namespaces, prefixes, full item names and conversions "
                "are compared with the tree.")


def c14(run):
    Params, Err = api(MOD, "Parameters", "ParameterError")
    run.anchor(Params.from_mapping, Params.from_key_value_pairs, Params.as_nested_dicts, Params.namespaced_items,
               Params.sub_namespaces, Params.namespace, Params.__contains__)
    ka, kb = tok(20), tok(21)

    def tree(S, mk):
        d = mk()
        ref = mk()
        p = attempt(Params.from_mapping, d)
        if not S.expect(p, lambda v: isinstance(v, Params), "built", Params.from_mapping):
            return
        p = p.value
        nodes = dict(walk(ref))
        for n in (1, 2, 3, 4):
            for path in itertools.product((ka, kb), repeat=n):
                name = ".".join(path)
                v = nodes.get(path, Unmodelled)
                S.expect(attempt(lambda: name in p), v is not Unmodelled, "membership", Params.__contains__)
                if v is Unmodelled:
                    S.expect(attempt(p.get, name, object), Err, "absent-lookup-refused", Params.get)
                elif isinstance(v, dict):
                    o = attempt(p.namespace, name)
                    if S.expect(o, lambda r: isinstance(r, Params) and r.as_nested_dicts() == v, "dotted-lookup",
                                Params.namespace):
                        ns = o.value
                        S.require(tuple(ns.namespace_prefix) == path, "namespace-prefix",
                                  lambda: "%r has prefix %r" % (name, ns.namespace_prefix), Params.namespace)
                        S.require(sorted((a, repr(b)) for a, b in ns.namespaced_items())
                                  == sorted((name + "." + a, repr(b)) for a, b in items_of(v)), "namespaced-items-of-nested",
                                  lambda: "%r" % list(ns.namespaced_items()), Params.namespaced_items)
                        S.require(sorted((tuple(x.namespace_prefix), repr(x.as_nested_dicts())) for x in ns.sub_namespaces())
                                  == sorted((path + (k,), repr(c)) for k, c in v.items() if isinstance(c, dict)),
                                  "sub-namespaces", "", Params.sub_namespaces)
                else:
                    S.expect(attempt(p.get, name, object), lambda r: r is v or r == v, "dotted-lookup", Params.get)
                    cur = p
                    for c in path[:-1]:
                        cur = cur.namespace(c)
                    S.expect(attempt(cur.get, path[-1], object), lambda r: r is v or r == v, "stepwise-lookup", Params.get)
        S.expect(attempt(lambda: sorted((a, repr(b)) for a, b in p.namespaced_items())),
                 sorted((a, repr(b)) for a, b in items_of(ref)), "namespaced-items", Params.namespaced_items)
        S.expect(attempt(p.as_nested_dicts), lambda v: v == ref and plain(v), "as-nested-dicts", Params.as_nested_dicts)
        S.require(list(p.as_nested_dicts()) == list(ref), "order-preserved")
        S.expect(attempt(lambda: len(p.sub_namespaces())), len({repr(sorted(map(str, walk(v)))) + str(k) for k, v in ref.items()
                                                                if isinstance(v, dict)}), "sub-namespaces",
                 Params.sub_namespaces)
        pairs = list(items_of(ref))
        nonempty = prune(ref)
        for it in (pairs, iter(pairs)):
            S.expect(attempt(lambda: Params.from_key_value_pairs(it).as_nested_dicts()), nonempty, "from-pairs",
                     Params.from_key_value_pairs)
        alt = [(a.replace(".", "/"), b) for a, b in pairs]
        S.expect(attempt(lambda: Params.from_key_value_pairs(alt, namespace_separator="/").as_nested_dicts()), nonempty,
                 "from-pairs-separator", Params.from_key_value_pairs)
        S.require(d == ref, "mapping-not-modified")
        # a Parameters nested in a mapping becomes a namespace
        q = Params.from_mapping({"top": p, "leaf": Atom("x")})
        S.expect(attempt(q.as_nested_dicts), {"top": ref, "leaf": Atom("x")}, "nested-parameters-become-namespaces")
        S.expect(attempt(lambda: sorted((a, repr(b)) for a, b in q.namespaced_items())),
                 sorted([("top." + a, repr(b)) for a, b in items_of(ref)] + [("leaf", repr(Atom("x")))]),
                 "namespaced-items", Params.namespaced_items)
        for path, v in nodes.items():
            S.require("top." + ".".join(path) in q, "membership")
        # prefixes given at construction extend
        one_shot = attempt(lambda: Params.from_mapping(d, namespace_prefix=iter(("p", "q"))))
        S.expect(one_shot, lambda x: tuple(x.namespace_prefix) == ("p", "q") and all(
            tuple(x.namespace(".".join(path)).namespace_prefix) == ("p", "q") + path
            for path, v in nodes.items() if isinstance(v, dict)), "prefix-given-as-an-iterator", Params.from_mapping)
        r = Params.from_mapping(d, namespace_prefix=("p", "q"))
        for path, v in nodes.items():
            if isinstance(v, dict):
                S.require(tuple(r.namespace(".".join(path)).namespace_prefix) == ("p", "q") + path, "namespace-prefix")
        S.expect(attempt(lambda: sorted(a for a, b in r.namespaced_items())), sorted("p.q." + a for a, b in items_of(ref)),
                 "namespaced-items", Params.namespaced_items)
        S.expect(attempt(setattr, p, "namespace_prefix", ()), Exception, "frozen")

    def plain(v):
        return type(v) is dict and all(plain(x) for x in v.values() if isinstance(x, dict) or hasattr(x, "as_nested_dicts"))

    def prune(d):
        out = {}
        for k, v in d.items():
            if isinstance(v, dict):
                v = prune(v)
                if not v:
                    continue
            out[k] = v
        return out

    lf = lambda path: Atom("leaf " + "".join(path))  # noqa
    ts = trees(3, (ka, kb), lf)
    if not run.thorough:
        ts = trees(2, (ka, kb), lf) + ts[5::7]
    for i, mk in enumerate(ts):
        run.scenario("tree %d" % i, lambda S, mk=mk: tree(S, mk), budget=2000000)

    def misc(S):
        for bad in ({"a.b": 1}, {"x": {"a.b": 1}}, {".": 1}, {"x": {"y": {"q.": Atom("v")}}}):
            S.expect(attempt(Params.from_mapping, bad), ValueError, "separator-in-key-refused", Params.from_mapping)
        S.expect(attempt(Params.from_key_value_pairs, [("a.b", 1)], namespace_separator="/"), ValueError,
                 "separator-in-key-refused")
        for bad in ([("", 1)], [("a", 1), ("", 2)]):
            S.expect(attempt(Params.from_key_value_pairs, bad), Exception, "empty-name-refused", Params.from_key_value_pairs)
        for bad in ([], [("a", 1)], None, tok(1), 3):
            S.expect(attempt(Params.from_mapping, bad), TypeError, "non-mapping-refused", Params.from_mapping)
        for bad in (None, 3, ("a",), b"a"):
            S.expect(attempt(Params.empty().get, bad, object), ValueError, "non-string-name-refused", Params.get)
        e = Params.empty()
        S.require(e.as_nested_dicts() == {} and list(e.namespaced_items()) == [] and len(e.sub_namespaces()) == 0, "empty")
        S.expect(attempt(lambda: tuple(Params.empty(namespace_prefix=["u", "v"]).namespace_prefix)), ("u", "v"),
                 "namespace-prefix")
        # namespace_or_empty keeps extending the prefix
        for start in ((), (tok(1),), (tok(1), "vw")):
            p = Params.empty(namespace_prefix=start)
            n1 = p.namespace_or_empty(tok(3))
            n2 = n1.namespace_or_empty("xyz")
            S.require(tuple(n1.namespace_prefix) == start + (tok(3),) and tuple(n2.namespace_prefix) == start + (tok(3), "xyz"),
                      "namespace-prefix", lambda: "%r %r" % (n1.namespace_prefix, n2.namespace_prefix),
                      Params.namespace_or_empty)
        # however deep
        deep = 7
        for s0 in range(deep):
            d, cut = {"k": 1}, []
            for i in reversed(range(deep)):
                d = {tok(40 + i % 3) + str(i): d, "z": i}
            p, pre = Params.from_mapping(d), []
            cur, node = p, d
            for i in range(deep):
                key = next(iter(node))
                node = node[key]
                pre.append(key)
                one = p.namespace(".".join(pre))
                cur = cur.namespace(key)
                for x in (one, cur):
                    S.require(tuple(x.namespace_prefix) == tuple(pre), "namespace-prefix", lambda: "%r of %r" % (
                        x.namespace_prefix, pre), Params.namespace)
                    S.require(x.as_nested_dicts() == node, "dotted-lookup", "", Params.namespace)
                    S.require([a for a, _ in x.namespaced_items()] == [".".join(pre) + "." + a for a, _ in items_of(node)],
                              "namespaced-items-of-nested", "", Params.namespaced_items)
                if i + 1 < deep:
                    S.require([tuple(y.namespace_prefix) for y in cur.sub_namespaces()] == [tuple(pre) + (next(iter(node)),)],
                              "sub-namespaces", "", Params.sub_namespaces)
                # a failure says which parameter of which namespace is meant
                o = attempt(cur.get, "ghost", object)
                S.require(not o.ok and ".".join(pre) in str(o.value) and "ghost" in str(o.value), "failure-names-the-parameter",
                          lambda: "%r" % o, Params.get)
                e = cur.namespace_or_empty("ghost")
                S.require(tuple(e.namespace_prefix) == tuple(pre) + ("ghost",), "namespace-prefix", "", Params.namespace_or_empty)
            S.expect(attempt(p.integer, ".".join(pre) + ".k"), 1, "dotted-lookup", Params.get)
            break
        for start in ((), (tok(1),)):
            n = Params.empty(namespace_prefix=start).namespace_or_empty("ab.cd")
            S.require(".".join(n.namespace_prefix) == ".".join(start + ("ab", "cd")), "namespace-prefix",
                      lambda: "%r" % (n.namespace_prefix,), Params.namespace_or_empty)
        # there is nothing below a leaf, whatever the leaf
        for v in (0, "", False, [], 0.0, (), b"", frozenset(), "b", "a.b", ["b"], [{"b": 1}], ("b",), "b: 1", b"b", 1.5, True, Atom("x"), [None]):
            p = Params.from_mapping({"a": v, "n": {"a": v}})
            for pre in ("a", "n.a"):
                for low in (".b", ".b.c", ".", ".0", ".__class__", ".a", ".real"):
                    S.expect(attempt(lambda: (pre + low) in p), False, "nothing-below-a-leaf", Params.__contains__)
                    S.expect(attempt(p.get, pre + low, object), Err, "nothing-below-a-leaf", Params.get)
                    S.expect(attempt(p.string, pre + low), Err, "nothing-below-a-leaf", Params.string)
                    S.expect(attempt(p.optional_string, pre + low), isnone, "nothing-below-a-leaf", Params.optional_string)
                    S.expect(attempt(p.namespace, pre + low), Err, "nothing-below-a-leaf", Params.namespace)
                    S.expect(attempt(p.optional_namespace, pre + low), isnone, "nothing-below-a-leaf", Params.optional_namespace)
                    S.expect(attempt(p.has_namespace, pre + low), False, "nothing-below-a-leaf", Params.has_namespace)
                S.require(pre in p, "membership")
                S.expect(attempt(p.get, pre, object), same(v), "dotted-lookup", Params.get)
        # falsy values are present
        for v in (0, "", False, [], 0.0, (), b"", frozenset(), set(), range(0), 0j, [None], "None", "null"):
            p = Params.from_mapping({"a": {"k": v}})
            S.require("a.k" in p and p.get("a.k", object) == v, "falsy-values-are-present", repr(v), Params.__contains__)
            S.require(list(p.namespaced_items()) == [("a.k", v)], "falsy-values-are-present", repr(v))
        for v in (0, "", False, [], 0.0, None, (), 1, tok(3), [None], [{"a": None}]):
            p = Params.from_mapping({"a": {"k": v, "j": 1}, "l": v, "n": {}})
            S.expect(attempt(p.as_nested_dicts), lambda r: repr(r) == repr({"a": {"k": v, "j": 1}, "l": v, "n": {}}),
                     "as-nested-dicts", Params.as_nested_dicts)
            S.expect(attempt(lambda: list(p.namespaced_items())), lambda r: repr(r) == repr([("a.k", v), ("a.j", 1), ("l", v)]),
                     "namespaced-items", Params.namespaced_items)
            S.expect(attempt(lambda: Params.from_key_value_pairs([("a.k", v), ("a.j", 1), ("l", v)]).as_nested_dicts()),
                     lambda r: repr(r) == repr({"a": {"k": v, "j": 1}, "l": v}), "from-pairs", Params.from_key_value_pairs)

        # values of any kind, hashable or not, in namespaces
        for v in ([], [1, [2]], (), ([],), {1}, frozenset(), [{"a": None}], 0, "", None, tok(3), 1.5, b"x", [tok(3)]):
            d = {"a": {"k": v, "j": {"i": v}}, "b": {"k": v}, "c": v, "e": {}}
            p = Params.from_mapping(d)
            S.expect(attempt(lambda: [(tuple(x.namespace_prefix), repr(x.as_nested_dicts())) for x in p.sub_namespaces()]),
                     [(("a",), repr(d["a"])), (("b",), repr(d["b"])), (("e",), "{}")], "sub-namespaces", Params.sub_namespaces)
            S.expect(attempt(lambda: [(tuple(x.namespace_prefix), repr(x.as_nested_dicts()))
                                      for x in p.namespace("a").sub_namespaces()]),
                     [(("a", "j"), repr(d["a"]["j"]))], "sub-namespaces", Params.sub_namespaces)
            q = Params.from_mapping(dict(reversed(list(d.items()))))
            S.expect(attempt(lambda: (p == q, p.namespace("a") == q.namespace("a"), p == p.namespace("a"))), (True, True, False),
                     "equality", Params.from_mapping)
            hs = [attempt(hash, x) for x in (p, q, p.namespace("a"), q.namespace("a"))]
            if all(h.ok for h in hs):
                S.require(hs[0].value == hs[1].value and hs[2].value == hs[3].value, "equal-parameters-hash-alike")

    run.scenario("corner cases", misc)

    def pairs(S):
        # what contradicts itself describes no tree
        for v in (0, "", False, 1, tok(1), [], None, 0.0):
            for ps in ([("a", v), ("a.b", 1)], [("n.a", v), ("n.a.b", 1)], [("n.a", v), ("n.a.b.c", 1)]):
                S.expect(attempt(Params.from_key_value_pairs, ps), Exception, "leaf-with-parameters-below-it-refused",
                         Params.from_key_value_pairs)
        for ps, want in (
                ([("a", 1), ("a", 2)], {"a": 2}), ([("a.b", 1), ("a.b", 2), ("a.c", 3)], {"a": {"b": 2, "c": 3}}),
                ([("a.b", 1), ("z", 2), ("a.c", 3)], {"a": {"b": 1, "c": 3}, "z": 2}),
                ([("a", {}), ("a.b", 1)], {"a": {"b": 1}}), ([("a", {"c": 2}), ("a.b", 1)], {"a": {"c": 2, "b": 1}}),
                ([("a", {"c": {"d": 2}}), ("a.c.e", 1)], {"a": {"c": {"d": 2, "e": 1}}}),
                ([("a..b", 1), ("a.b", 2)], {"a": {"": {"b": 1}, "b": 2}}), ([(".a", 1), ("a", 2)], {"": {"a": 1}, "a": 2}),
                ([("a.", 1), ("b", 2)], {"a": {"": 1}, "b": 2}), ([(" a", 1), ("a", 2), ("a ", 3)], {" a": 1, "a": 2, "a ": 3}),
                ([("a.b.c.d.e", 1), ("a.b.c.f", 2)], {"a": {"b": {"c": {"d": {"e": 1}, "f": 2}}}})):
            o = attempt(lambda: Params.from_key_value_pairs(ps).as_nested_dicts())
            S.expect(o, lambda r: repr(r) == repr(want), "from-pairs", Params.from_key_value_pairs)
            for rest in ([], [("a.b.c.q", 7), ("a.c.q", 8)]):
                deep = [("a", {"b": {"c": {"k": 1}}, "c": {}}), ("z", [1, {"k": {}}])] + rest
                was = repr(deep)
                attempt(Params.from_key_value_pairs, deep)
                S.require(repr(deep) == was, "from-pairs-leaves-the-values-alone", lambda: "%s -> %r" % (was, deep),
                          Params.from_key_value_pairs)
            two = [(k.replace(".", "::"), v) for k, v in ps]
            S.expect(attempt(lambda: Params.from_key_value_pairs(two, namespace_separator="::").as_nested_dicts()),
                     lambda r: repr(r) == repr(want), "from-pairs-separator", Params.from_key_value_pairs)

    run.scenario("key-value pairs", pairs)

    def names(S, name):
        for d in ({name: 1}, {name: {name: 1}}, {name: {}}, {"a": {name: {"b": {name: 1}}, "z": 0}},
                  {name: {"k": 1}, name + "x": {"k": 2}, "x" + name: 3, "n": {name: 4}}):
            p = Params.from_mapping(d)
            S.require(p.as_nested_dicts() == d, "as-nested-dicts", lambda: "%r -> %r" % (d, p.as_nested_dicts()),
                      Params.as_nested_dicts)
            S.require(list(p.namespaced_items()) == list(items_of(d)), "namespaced-items",
                      lambda: "%r -> %r" % (d, list(p.namespaced_items())), Params.namespaced_items)
            for path, v in walk(d):
                full = ".".join(path)
                S.expect(attempt(lambda: full in p), True, "membership", Params.__contains__)
                if isinstance(v, dict):
                    for f in (p.optional_namespace, p.namespace_or_empty):
                        S.expect(attempt(f, full), lambda r: isinstance(r, Params) and r.as_nested_dicts() == v, "dotted-lookup", f)
                    o = attempt(p.namespace, full)
                    if S.expect(o, lambda r: r.as_nested_dicts() == v and tuple(r.namespace_prefix) == path, "dotted-lookup",
                                Params.namespace):
                        S.require(list(o.value.namespaced_items()) == [(full + "." + a, b) for a, b in items_of(v)],
                                  "namespaced-items-of-nested", "", Params.namespaced_items)
                        S.require([tuple(x.namespace_prefix) for x in o.value.sub_namespaces()]
                                  == [path + (k,) for k, c in v.items() if isinstance(c, dict)], "sub-namespaces", "",
                                  Params.sub_namespaces)
                else:
                    S.expect(attempt(p.integer, full), v, "dotted-lookup", Params.get)
                for other in (full + "y", full + " ", "y" + full, full + "." + name):
                    if other not in {".".join(q) for q, _ in walk(d)}:
                        S.expect(attempt(lambda: other in p), False, "membership", Params.__contains__)
            S.require([tuple(x.namespace_prefix) for x in p.sub_namespaces()] == [(k,) for k, c in d.items()
                                                                                 if isinstance(c, dict)],
                      "sub-namespaces", lambda: "%r" % p.sub_namespaces(), Params.sub_namespaces)
            flat = list(items_of(d))
            if flat:
                S.expect(attempt(lambda: Params.from_key_value_pairs(flat).as_nested_dicts()), d, "from-pairs",
                         Params.from_key_value_pairs)

    T = (tok(23), tok(24))
    for name in ["_x", "__x__", "_includes", "X", "x", "1", "0", "value", "self", "_data", "namespace_prefix", "%x%", "-", "None",
                 "True", "\u00e9", "a" * 40] + [x % T for x in ("%s %s", "%s/%s", "%s-%s", "%s_%s", "%s:%s", "%s%%%s", "%s\n%s",
                                                               "%s\t%s", " %s%s", "%s%s ", "%s[0]%s", "%s\\%s", "#%s%s")]:
        run.scenario("named %r" % name, lambda S, name=name: names(S, name), budget=2000000)


# --------------------------------------------------------------------------- C15
META["C15"] = dict(
    min_obligations=3000, workers=4,
    explanation="unify is evaluated on all pairs of parameter trees of two levels over two keys (sampled three levels), "
                "including empty namespaces and falsy leaves, given as Parameters or plain mapping; the result is compared "
                "with recursive overriding and conflicts must be refused.")


def c15(run):
    Params = api(MOD, "Parameters")
    run.anchor(Params.unify)
    ka, kb = tok(20), tok(21)

    class Conflict(Exception):
        pass

    def merge(a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            if k in a and k in b:
                if isinstance(a[k], dict) != isinstance(b[k], dict):
                    raise Conflict
                out[k] = merge(a[k], b[k]) if isinstance(a[k], dict) else b[k]
            else:
                out[k] = a[k] if k in a else b[k]
        return out

    def pair(S, mk1, mk2):
        a, b = mk1(), mk2()
        pa, pb = Params.from_mapping(a), Params.from_mapping(b)
        try:
            want = merge(a, b)
        except Conflict:
            want = None
        for other in (pb, b):
            o = attempt(pa.unify, other)
            if want is None:
                S.expect(o, IOError, "namespace-against-leaf-refused", Params.unify)
            elif S.expect(o, lambda v: isinstance(v, Params) and v.as_nested_dicts() == want, "unify-overrides-recursively",
                          Params.unify):
                S.require(sorted(map(str, o.value.namespaced_items())) == sorted(map(str, items_of(want))),
                          "names-of-unified-items", lambda: "%r" % list(o.value.namespaced_items()), Params.unify)
                for path, v in walk(want):
                    if isinstance(v, dict):
                        n = attempt(o.value.namespace, ".".join(path))
                        S.expect(n, lambda r: tuple(r.namespace_prefix) == path, "prefix-of-unified-namespaces", Params.unify)
            S.require(pa.as_nested_dicts() == mk1() and pb.as_nested_dicts() == mk2() and b == mk2(), "operands-unchanged")
        if want is not None:
            S.expect(attempt(lambda: pa.unify(pa).as_nested_dicts()), a, "unify-with-itself", Params.unify)
            S.expect(attempt(lambda: pa.unify({}).as_nested_dicts()), a, "unify-with-empty", Params.unify)
            S.expect(attempt(lambda: Params.empty().unify(pa).as_nested_dicts()), a, "unify-with-empty", Params.unify)

    left = trees(2, (ka, kb), lambda p: Atom("old " + "".join(p)))
    right = trees(2, (ka, kb), lambda p: Atom("new " + "".join(p)))
    for i, l in enumerate(left):
        def row(S, l=l):
            for r in right:
                pair(S, l, r)

        run.scenario("two levels, old tree %d" % i, row, budget=4000000)
    l3 = trees(3, (ka, kb), lambda p: Atom("old " + "".join(p)))
    r3 = trees(3, (ka, kb), lambda p: Atom("new " + "".join(p)))
    step = 11 if run.thorough else 97
    for i, l in enumerate(l3[:: step // 2 or 1]):
        def row3(S, l=l, i=i):
            for r in r3[i % step:: step]:
                pair(S, l, r)

        run.scenario("three levels, old tree %d" % i, row3, budget=8000000)

    def falsy(S):
        for old in (0, "", False, [], Atom("o"), 0.0):
            for new in (0, "", False, [], Atom("n"), 0.0):
                for wrap in (lambda x: {"k": x}, lambda x: {"a": {"k": x, "s": 1}}):
                    o = attempt(lambda: Params.from_mapping(wrap(old)).unify(wrap(new)).as_nested_dicts())
                    S.expect(o, lambda v: repr(v) == repr(wrap(new)), "falsy-values-override", Params.unify)

    run.scenario("falsy values", falsy)

    def kinds(S):
        vals = [[1, 2], [2, 3], [], [{"a": 1}], (1,), {1}, frozenset([2]), APath("/x/" + tok(1)), APath("rel"), tok(1), tok(2), "", 3, 0,
                2.5, True, False, b"x", Atom("v"), [[1], [2]], [tok(3)]]
        for old in vals:
            for new in vals:
                for wrap in (lambda x: {"k": x}, lambda x: {"a": {"k": x, "s": 1}, "b": x}):
                    keep = repr(old)
                    for given in (wrap(new), Params.from_mapping(wrap(new))):
                        o = attempt(lambda: Params.from_mapping(wrap(old)).unify(given).as_nested_dicts())
                        S.expect(o, lambda v: repr(v) == repr(wrap(new)), "a-new-value-replaces-the-old", Params.unify)
                    S.require(repr(old) == keep, "operands-unchanged", keep)

    run.scenario("values of every kind", kinds, budget=6000000)


# --------------------------------------------------------------------------- C17
META["C17"] = dict(
    min_obligations=500, workers=8,
    explanation="Interpolation is evaluated on all dependency graphs over three parameters with opaque contents (whole-value "
                "and embedded placeholders, nested names, included parameters, environment), in every order of definition, "
                "and compared with recursive substitution; cycles, unknown names and embedded non-strings must be refused.")


class Refused(Exception):
    pass


def subst(own, context, environ):
    """Reference semantics: own/context nested dicts -> interpolated own."""
    import re
    rx = re.compile(r"%([\w.\-]+)%")
    done, busy = {}, set()

    def find(d, name):
        cur = d
        for part in name.split("."):
            if not isinstance(cur, dict) or part not in cur:
                return None
            cur = cur[part]
        return cur

    def look(name):
        v = find(own, name)
        if v is not None:
            return node(name, v)
        v = find(context, name)
        if v is None and "." not in name and name not in context:
            v = environ.get(name)
        if v is None:
            raise Refused("unknown %s" % name)
        return v

    def node(name, v):
        if isinstance(v, dict):
            return {k: node(name + "." + k, x) for k, x in v.items()}
        if not isinstance(v, str):
            return v
        if name in done:
            return done[name]
        if name in busy:
            raise Refused("cycle")
        busy.add(name)
        if rx.fullmatch(v):
            out = look(v[1:-1])
        else:
            def rep(m):
                x = look(m.group(1))
                if not isinstance(x, str):
                    raise Refused("embedded non-string")
                return x

            out = rx.sub(rep, v)
        busy.discard(name)
        done[name] = out
        return out

    return {k: node(k, v) for k, v in own.items()}


def c17(run):
    Params, Loader = api(MOD, "Parameters", "YAMLParametersLoader")
    run.anchor(Loader.load_string, Loader.load)

    def dump(d, ind=0):
        out = ""
        for k, v in d.items():
            if isinstance(v, dict) and v:
                out += " " * ind + k + ":\n" + dump(v, ind + 2)
            else:
                out += " " * ind + k + ": " + (
                    "{}" if isinstance(v, dict) else "'%s'" % v.replace("'", "''") if isinstance(v, str) else
                    "[%s]" % ", ".join("'%s'" % x for x in v) if isinstance(v, list) else str(v).lower() if isinstance(v, bool) else str(v)) + "\n"
        return out

    def overlay(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = overlay(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
        return out

    def go(S, own, context=None, environ=None, env_on=True):
        context = context or {}
        M.world.environ = dict(environ or {})
        try:
            want = overlay(context, subst(own, context, environ or {} if env_on else {}))
        except Refused:
            want = None
        ld = Loader() if env_on is True else Loader(interpolate_environmental_variables=env_on)
        kw = {"included_context": Params.from_mapping(context)} if context else {}
        o = attempt(ld.load_string, dump(own) or "{}\n", **kw)
        if want is None:
            S.expect(o, IOError, "impossible-interpolation-refused", Loader.load_string)
        else:
            S.expect(o, lambda v: isinstance(v, Params) and typed(v.as_nested_dicts()) == typed(want), "interpolation",
                     Loader.load_string)
            if o.ok:
                S.require(typed(dict(o.value.namespaced_items())) == typed(dict(items_of(want))), "names-of-interpolated-items",
                          lambda: "%r" % list(o.value.namespaced_items()))
        S.require(M.world.environ == dict(environ or {}), "environment-unchanged")

    def typed(d):
        if isinstance(d, dict):
            return {k: typed(v) for k, v in d.items()}
        return (type(d).__name__, d)

    T = [tok(i) for i in range(10)]
    forms = {
        "plain": lambda x, i: T[i], "whole": lambda x, i: "%%%s%%" % x, "emb": lambda x, i: "%s%%%s%%%s" % (T[i], x, T[i + 4]),
        "pre": lambda x, i: "%%%s%%-%s" % (x, T[i]), "twice": lambda x, i: "%%%s%%%%%s%%" % (x, x),
    }
    def nest(flat):
        out = {}
        for n, v in flat:
            d = out
            for part in n.split(".")[:-1]:
                d = d.setdefault(part, {})
            d[n.split(".")[-1]] = v
        return out

    k = 0
    for names, ghost in ((["p", "q-x", "r_1"], "ghost"), (["p", "n.q", "n.r"], "n.ghost"), (["p", "n.q", "m.r"], "q"),
                         (["n.p", "n.q", "m.k.r"], "m.k.ghost")):
        per = []
        for i, n in enumerate(names):
            opts = [("plain", None)]
            for target in names + [ghost]:
                for fm in ("whole", "emb", "twice"):
                    if target == n and fm != "emb":
                        continue
                    opts.append((fm, target))
            per.append(opts)
        for combo in itertools.product(*per):
            own0 = {n: forms[f](t, i) for i, (n, (f, t)) in enumerate(zip(names, combo))}
            if not run.thorough and (k % 3 if "." in names[1] else k % 2) and combo[0][0] != "plain":
                k += 1
                continue
            orders = list(itertools.permutations(names))
            k += 1
            for order in (orders if run.thorough and "." in names[1] else [orders[(k - 1) % 6]]):
                own = nest([(n, own0[n]) for n in order])
                run.scenario(lambda own=own: "graph %s" % own, lambda S, own=own: go(S, own))
    # every order of a chain and of a diamond
    for order in itertools.permutations(["a", "b", "c", "d"]):
        for base in ({"a": "%b%/x", "b": "%c%%d%", "c": T[0] + "%d%", "d": T[1]}, {"a": "%b%", "b": "%c%", "c": "%d%", "d": 7},
                     {"a": "%b%", "b": "%c%", "c": "%a%", "d": T[1]}, {"a": "%d%", "b": "%d%", "c": "%d%", "d": "%d%"}):
            own = {n: base[n] for n in order}
            run.scenario(lambda own=own: "chain %s" % own, lambda S, own=own: go(S, own))
    # kinds of referenced values
    for kind, v in (("int", 5), ("zero", 0), ("false", False), ("true", True), ("float", 0.0), ("empty", ""), ("str", T[0]),
                    ("list", [T[1], T[2]]), ("emptylist", []), ("ns", {"k": T[3], "z": 0}), ("nested", {"m": {"k": "%lit%"}})):
        for where in ("own", "context", "both"):
            for ref in ("%v%", T[5] + "%v%", "%v%%v%", "%v%" + T[6], " %v%", "%v% ", "%v%\t", " %v% "):
                def sc(S, v=v, where=where, ref=ref):
                    own, ctx = {"a": ref, "n": {"b": ref, "m": {"c": ref}}, "lit": T[7]}, {}
                    if where in ("own", "both"):
                        own["v"] = v
                    if where in ("context", "both"):
                        ctx["v"] = v if where == "context" else ({"q": T[8]} if isinstance(v, dict) else T[8])
                    if isinstance(v, dict) and "m" in v and where != "own":
                        return
                    go(S, own, ctx)

                run.scenario("reference to %s (%s) as %r" % (kind, where, ref), sc)
    # nested names and precedence
    for own, ctx, en in (
            ({"a": "%n.x%", "n": {"x": T[0]}}, {}, {}), ({"n": {"x": T[0], "y": "%n.x%"}}, {}, {}),
            ({"n": {"x": "%m.y%"}, "m": {"y": "%z%"}, "z": T[0]}, {}, {}), ({"n": {"x": "%m.y%"}, "m": {"y": "%n.x%"}}, {}, {}),
            ({"n": {"x": "%x%"}, "x": T[1]}, {}, {}), ({"n": {"x": "%x%"}}, {}, {}), ({"n": {"x": "%x%"}}, {"x": T[2]}, {}),
            ({"a": "%n.x%"}, {"n": {"x": T[0]}}, {}), ({"a": "%n.x%", "n": {"y": T[1]}}, {"n": {"x": T[0]}}, {}),
            ({"a": "%n.x%", "n": {"x": T[1]}}, {"n": {"x": T[0]}}, {}), ({"a": "%HOME%"}, {}, {"HOME": T[0]}),
            ({"a": "%HOME%/%HOME%"}, {}, {"HOME": T[0]}), ({"a": "%HOME%", "HOME": T[1]}, {}, {"HOME": T[0]}),
            ({"a": "%HOME%"}, {"HOME": T[1]}, {"HOME": T[0]}), ({"a": "%HOME%", "HOME": ""}, {}, {"HOME": T[0]}),
            ({"a": "%HOME%"}, {"HOME": 0}, {"HOME": T[0]}), ({"a": "%HOME%"}, {}, {"HOME": "%b%", "b": T[3]}),
            ({"a": "%HOME%", "b": T[4]}, {}, {"HOME": "%b%"}), ({"HOME": "%HOME%"}, {}, {"HOME": T[0]}),
            ({"a": "100%", "b": "% x %", "c": "%%", "d": "50%off%"}, {"off": T[0]}, {}),
            ({"a": "%a.b%", "b": T[0]}, {}, {}), ({"a": "%b%", "b": {"c": "%d%"}, "d": T[0]}, {}, {}),
            ({"a": "%b.c%", "b": {"c": {"d": T[0]}}}, {}, {}), ({"a": "%b%"}, {}, {"b": ""}),
            ({"l": ["%a%", "x%a%"], "a": T[0]}, {}, {}), ({"b": "%l%", "l": ["%a%"], "a": T[0]}, {}, {}),
            ({"a": "x%v.k1%y", "v": {"k1": T[2]}}, {}, {}),
            ({"a": "x%v%y", "b": "%v%", "v": "\\g<0>\\1\\n\\"}, {}, {}), ({"a": "%v%%w%", "w": "%", "v": "5%"}, {}, {}),
            ({"a": "%v%w%", "w": T[3], "v": "%"}, {}, {}), ({"a": "<%v%>", "v": "100% x 50%"}, {}, {}),
            ({"a": "%b%", "b": T[1]}, {}, {"x.y": T[2], "b.c": T[3], ".": "", "a.": "1"}),
            ({"a": "%x.y%"}, {}, {"x.y": T[2]}), ({"a": "%x.y%", "x": {"y": T[4]}}, {}, {"x.y": T[2]}),
            ({"a": "%x.y%"}, {"x": {"y": T[4]}}, {"x.y": T[2]}), ({"a": "%x y%", "b": "%x/y%"}, {}, {"x y": T[2]}),
            ({"a": "%b%", "c": T[0]}, {"b": "%c%"}, {}), ({"a": "%HOME%"}, {}, {}),
            ({"a": "%b%%c%%d%%b%/%c%", "b": T[0], "c": T[1], "d": T[2]}, {}, {}),
            ({"a": "%b%,%c%,%d%,%e%,%f%,%g%", "b": T[0], "c": "%g%", "d": "%e%", "e": "%f%", "f": T[1], "g": "%b%"}, {}, {}),
            ({"z": "%b%%b%%b%%b%%b%", "b": "%c%%c%%c%%c%", "c": T[3]}, {}, {}),
            ({"a": "%b%-%c%-%d%", "d": "%e%", "e": T[1]}, {"b": T[2], "c": T[3]}, {}),
            ({"a": "%b%-%c%-%d%-%a%", "d": "%e%", "e": T[1]}, {"b": T[2], "c": T[3]}, {}),
            ({"a": "%b%-%c%-%d%-%ghost%", "d": "%e%", "e": T[1]}, {"b": T[2], "c": T[3]}, {}),
            ({"a": "%b%-%c%-%d%", "d": "%e%", "e": "%a%"}, {"b": T[2], "c": T[3]}, {}),
            ({"n": {"a": "%n.b%-%n.c%-%n.m.d%", "b": "%n.m.d%", "c": "%n.b%%n.b%", "m": {"d": T[4]}}}, {}, {}),
            ({"a": "%x%%y%"}, {"x": "%y%", "y": T[1]}, {}), ({"a": "%x%%y%"}, {"y": "%x%", "x": T[1]}, {}),
            ({"a": "%y%%x%"}, {"x": "%y%", "y": T[1]}, {}), ({"a": "<%x%|%y%>"}, {}, {"x": "%y%", "y": T[1]}),
            ({"a": "<%x%|%y%>", "y": T[2]}, {"x": "%y%"}, {}), ({"a": "<%y%|%x%>", "y": T[2]}, {}, {"x": "%y%"}),
            ({"a": "%x%", "b": "<%a%|%y%>", "y": T[2]}, {"x": "%y%"}, {}), ({"a": "<%x%>"}, {"x": "%x%"}, {}),
            ({"caf\u00e9": T[0], "a": "%caf\u00e9%", "b": "x%caf\u00e9%"}, {}, {}), ({"a": "x%\u4e2d.\u00fc%"}, {"\u4e2d": {"\u00fc": T[1]}}, {}),
            ({"a": "%\u00e9%"}, {}, {"\u00e9": T[1]}), ({"a": "%x\u0663%", "x\u0663": T[1]}, {}, {}), ({"a": "x%\u00e9%"}, {}, {}),
            ({"a": "%-%", "-": T[1], "b": "%_%", "_": T[2], "c": "%x1%", "x1": T[3]}, {}, {}),
            ({"a": "%b%\u00e9%c%", "b": "\u00e8", "c": "\u4e2d"}, {}, {}),
            ({"q": T[0]}, {"z": "%unknown%"}, {"E": "%nope%"}), ({}, {}, {"HOME": T[0], "x": T[1]}), ({"n": {}}, {}, {"n": T[0], "x": T[1]}),
            ({}, {"a": T[1]}, {"HOME": T[0], "a": T[2]}), ({"n": {"m": {}}}, {"a": {"b": T[1]}}, {"a": T[0]}), ({"n": {"k": T[2]}}, {"n": {"j": T[1]}}, {})):
        for env_on in (True, False):
            run.scenario("own %s, included %s, environment %s (%s)" % (own, ctx, en, env_on),
                         lambda S, own=own, ctx=ctx, en=en, env_on=env_on: go(S, own, ctx, en, env_on))


    def many(S):
        big = {"a": "".join("%%v%d%%" % (i % 40) for i in range(700)), "z": "%a%", "e": "%a%<%n.w%>", "n": {"w": "%v0%" * 300 + "%E%" * 300}}
        big.update(("v%d" % i, "<%d%%v%d%%>" % (i, i + 1) if i % 10 != 9 else "-%d-" % i) for i in range(40))
        go(S, big, {"x": "%v1%"}, {"E": T[9], "V": "%v1%"})
        chain = {"c%d" % i: "%%c%d%%" % (i + 1) if i % 2 else "(%%c%d%%)" % (i + 1) for i in range(60)}
        go(S, dict(chain, c60="end"))
        go(S, dict(reversed(list(dict(chain, c60="end").items()))))
        go(S, dict(chain, c60="%c0%"))
        go(S, {"x" * 300: T[1], "a": "%" + "x" * 300 + "%", "b": "%" + "y" * 300 + "%", "y" * 300: "%a%" * 120})
        deep, name = T[2], "leaf"
        node = {"leaf": deep}
        for i in range(12):
            node, name = {"n%d" % i: node, "up": "%w%"}, "n%d.%s" % (i, name)
        go(S, dict(node, ref="%" + name + "%", emb="<%" + name + "%>", w="W"))

    run.scenario("many, long and deep references", many, budget=40000000)

    # any environment variable can be named, unless its name is dotted
    for var in ("HOME", "my-var", "1", "1ST", "-", "--x", "_", "__x__", "caf\u00e9", "a-b-c", "class", "None", "X" * 200, "lower", "0-0"):
        for val in (T[0], "", " x ", "%HOME%", "1", "%" + var + "%"):
            for own in ({"a": "%" + var + "%"}, {"n": {"a": "<%" + var + "%>"}, "b": "%n.a%"}, {"a": "%" + var + "%" * 2 + var + "%"}):
                run.scenario("environment variable %r is %r, %s" % (var[:20], val[:20], list(own)),
                             lambda S, own=own, var=var, val=val: go(S, own, {}, {var: val}))

    for v in ("", " ", "  x ", "x ", " x", "\t", "x  y", "\u00e9", "e\u0301", "%", "%%", "100%", "a%b", "\\1", "\\", "\\n", "a: b", "#x", "- y", "{z}", "{0}", "{",
              "null", "~", "1", "0", "1.0", "true", "no", "X", "'", "''", '"', "$v", "${v}", "%v", "v%", "% v %", "%(v)s", "%s", "%d", "x" * 300,
              "a/../b", "./", "~/x", "__class__", "\u4e2d\u6587", "\xa0", "\u2028", "0x10", "1e3", "[1]", "lambda", "&amp;"):
        for where in ("own", "context", "environment"):
            def plain(S, v=v, where=where):
                own = {"a": "%v%", "b": "p%v%q", "c": "%v%%v%", "n": {"d": " %v% ", "e": {"f": "%v%/%w%"}}, "w": "W", "g": "%a%,%b%"}
                if where == "own":
                    own["v"] = v
                go(S, own, {"v": v} if where == "context" else {}, {"v": v} if where == "environment" else {})

            run.scenario("value %r from %s" % (v, where), plain)


# --------------------------------------------------------------------------- C18
META["C18"] = dict(
    min_obligations=200,
    explanation="Loading is evaluated on files of the abstract file system with every arrangement of one to three includes "
                "(relative, nested, absolute, from other directories) and every kind of malformed or missing input.")


def c18(run):
    Params, Err, Loader = api(MOD, "Parameters", "ParameterError", "YAMLParametersLoader")
    run.anchor(Loader.load, Loader.load_string)
    T = [tok(i) for i in range(12)]

    def load(S, files, want, rule, environ=None, loader=None, **kw):
        w = M.world
        for f, text in files.items():
            w.add_file(f, text)
        w.environ = dict(environ or {})
        before = w.snapshot()
        root = next(iter(files))
        for arg in (root, APath(root)):
            o = attempt((loader or Loader)().load, arg, **kw)
            if want is None:
                S.expect(o, IOError, rule, Loader.load)
            else:
                S.expect(o, lambda v: isinstance(v, Params) and v.as_nested_dicts() == want, rule, Loader.load)
        S.require(w.snapshot() == before, "loading-has-no-file-effects")
        S.require(not w.leaked(), "files-closed", lambda: "%r" % w.leaked())
        S.require(not any(e[0] == "locale-encoding" for e in w.events), "files-read-as-utf8",
                  "a parameter file is read in the locale encoding")

    cases = [
        ("plain", {"/d/r.params": "a: %s\nb:\n  c: %s\n" % (T[0], T[1])}, {"a": T[0], "b": {"c": T[1]}}),
        ("one include", {"/d/r.params": "_includes: [i.params]\na: %s\n" % T[0], "/d/i.params": "b: %s\n" % T[1]},
         {"a": T[0], "b": T[1]}),
        ("root overrides include", {"/d/r.params": "_includes: [i.params]\na: %s\nn: {x: %s}\n" % (T[0], T[3]),
                                    "/d/i.params": "a: %s\nn: {x: %s, y: %s}\n" % (T[1], T[4], T[5])},
         {"a": T[0], "n": {"x": T[3], "y": T[5]}}),
        ("later include overrides earlier", {"/d/r.params": "_includes: [i.params, j.params]\nz: %s\n" % T[0],
                                             "/d/i.params": "a: %s\nb: %s\n" % (T[1], T[2]), "/d/j.params": "a: %s\n" % T[3]},
         {"z": T[0], "a": T[3], "b": T[2]}),
        ("includes in the other order", {"/d/r.params": "_includes: [j.params, i.params]\nz: %s\n" % T[0],
                                         "/d/i.params": "a: %s\nb: %s\n" % (T[1], T[2]), "/d/j.params": "a: %s\n" % T[3]},
         {"z": T[0], "a": T[1], "b": T[2]}),
        ("nested include relative to the including file",
         {"/d/r.params": "_includes: [sub/i.params]\na: %s\n" % T[0], "/d/sub/i.params": "_includes: [j.params]\nb: %s\n" % T[1],
          "/d/sub/j.params": "c: %s\n" % T[2], "/d/j.params": "c: %s\n" % T[3]}, {"a": T[0], "b": T[1], "c": T[2]}),
        ("include in the parent directory", {"/d/e/r.params": "_includes: ['../i.params']\na: %s\n" % T[0],
                                             "/d/i.params": "b: %s\n" % T[1]}, {"a": T[0], "b": T[1]}),
        ("absolute include", {"/d/r.params": "_includes: ['/x/i.params']\na: %s\n" % T[0], "/x/i.params": "b: %s\n" % T[1],
                              "/d/x/i.params": "b: %s\n" % T[2]}, {"a": T[0], "b": T[1]}),
        ("relative include of an absolute include",
         {"/d/r.params": "_includes: ['/x/i.params']\na: %s\n" % T[0], "/x/i.params": "_includes: [j.params]\nb: %s\n" % T[1],
          "/x/j.params": "c: %s\n" % T[3], "/d/j.params": "c: %s\n" % T[2]}, {"a": T[0], "b": T[1], "c": T[3]}),
        ("interpolation from an include", {"/d/r.params": "_includes: [i.params]\na: '%%b%%/%s'\n" % T[0],
                                           "/d/i.params": "b: %s\n" % T[1]}, {"a": T[1] + "/" + T[0], "b": T[1]}),
        ("interpolation between includes", {"/d/r.params": "_includes: [i.params, j.params]\nz: 1\n",
                                            "/d/i.params": "b: %s\n" % T[1], "/d/j.params": "c: '%%b%%%s'\n" % T[2]},
         {"z": 1, "b": T[1], "c": T[1] + T[2]}),
        ("interpolation from a later include", {"/d/r.params": "_includes: [j.params, i.params]\nz: 1\n",
                                                "/d/i.params": "b: %s\n" % T[1], "/d/j.params": "c: '%%b%%%s'\n" % T[2]}, None),
        ("include interpolated before overriding", {"/d/r.params": "_includes: [i.params]\nb: %s\n" % T[0],
                                                    "/d/i.params": "b: %s\nc: '%%b%%'\n" % T[1]}, {"b": T[0], "c": T[1]}),
        ("root interpolates its own value first", {"/d/r.params": "_includes: [i.params]\nb: %s\na: '%%b%%'\n" % T[0],
                                                   "/d/i.params": "b: %s\n" % T[1]}, {"b": T[0], "a": T[0]}),
        ("diamond", {"/d/r.params": "_includes: [i.params, j.params]\na: '%c%'\n",
                     "/d/i.params": "_includes: [k.params]\nb: %s\n" % T[0], "/d/j.params": "_includes: [k.params]\nb: %s\n" % T[1],
                     "/d/k.params": "c: %s\n" % T[2]}, {"a": T[2], "b": T[1], "c": T[2]}),
        ("empty include list", {"/d/r.params": "_includes: []\na: %s\n" % T[0]}, {"a": T[0]}),
        ("only includes", {"/d/r.params": "_includes: [i.params]\n", "/d/i.params": "b: %s\n" % T[1]}, {"b": T[1]}),
        ("empty mapping", {"/d/r.params": "{}\n"}, {}),
        ("value types", {"/d/r.params": "i: 3\nf: 1.5\nb: false\ns: '3'\nl: [1, %s]\nn: {}\n" % T[0]},
         {"i": 3, "f": 1.5, "b": False, "s": "3", "l": [1, T[0]], "n": {}}),
        ("home is not looked up", {"/d/r.params": "_includes: ['~/i.params', '$HOME/i.params']\nz: 1\n", "/d/~/i.params": "a: 1\n",
                                   "/d/$HOME/i.params": "b: 2\n", "/root/i.params": "a: 3\n", "/h/i.params": "a: 4\nb: 4\n"},
         {"a": 1, "b": 2, "z": 1}),
        ("includes named like options and comments",
         {"/d/r.params": "_includes: ['%HOME%', 'a*', '-i', '#i', ' i ', 'C:/i', 'file:/i.params']\nz: 1\n", "/d/%HOME%": "d: 4\n",
          "/d/a*": "e: 5\n", "/d/-i": "f: 6\n", "/d/#i": "g: 7\n", "/d/ i ": "h: 8\n", "/d/C:/i": "i: 9\n",
          "/d/file:/i.params": "j: 10\n"}, {"z": 1, "d": 4, "e": 5, "f": 6, "g": 7, "h": 8, "i": 9, "j": 10}),
        ("absolute and relative includes in turn",
         {"/d/r.params": "_includes: ['/x/i.params', j.params, '/x/k.params', l.params]\nz: '%a%'\n", "/x/i.params": "a: 1\nb: i\n",
          "/d/j.params": "a: 2\nc: '%b%j'\n", "/x/k.params": "a: 3\nd: '%c%k'\n", "/d/l.params": "a: 4\ne: '%d%l'\n"},
         {"a": 4, "b": "i", "c": "ij", "d": "ijk", "e": "ijkl", "z": 4}),
        ("relative and absolute includes in turn",
         {"/d/r.params": "_includes: [j.params, '/x/i.params', l.params, '/x/k.params']\nz: '%a%'\n", "/x/i.params": "a: 1\nb: '%c%i'\n",
          "/d/j.params": "a: 2\nc: j\n", "/x/k.params": "a: 3\nd: '%e%k'\n", "/d/l.params": "a: 4\ne: '%b%l'\n"},
         {"a": 3, "b": "ji", "c": "j", "d": "jilk", "e": "jil", "z": 3}),
        # refused
        ("missing file", {"/d/x": ""}, "missing"),
        ("missing include", {"/d/r.params": "_includes: [nope.params]\na: 1\n"}, None),
        ("missing absolute include", {"/d/r.params": "_includes: ['/nope.params']\na: 1\n"}, None),
        ("include is a directory", {"/d/r.params": "_includes: [sub]\na: 1\n", "/d/sub/f": "x"}, None),
        ("top level list", {"/d/r.params": "- a\n- b\n"}, None), ("top level scalar", {"/d/r.params": T[0]}, None),
        ("empty file", {"/d/r.params": ""}, None), ("integer key", {"/d/r.params": "1: a\n"}, None),
        ("nested integer key", {"/d/r.params": "a:\n  b:\n    2: c\n"}, None), ("boolean key", {"/d/r.params": "a: {true: 1}\n"}, None),
        ("null key", {"/d/r.params": "a: {null: 1}\n"}, None),
        *[("integer key at depth %d%s" % (n, w), {"/d/r.params": "{x: " * n + b + "}" * n + "\n"}, None) for n in (3, 4, 5, 8, 20)
          for w, b in (("", "{1: y}"), (" after others", "{k: {l: 1}, 1: y}"), (" of a namespace", "{1: {k: y}}"))],
        *[("dotted key at depth %d" % n, {"/d/r.params": "{x: " * n + "{a.b: y}" + "}" * n + "\n"}, None) for n in (3, 4, 5, 8)],
        ("integer key in the first of several namespaces", {"/d/r.params": "a: {1: 1}\nb: {x: 1}\nc: 3\n"}, None),
        ("integer key in the middle of several namespaces", {"/d/r.params": "a: {x: 1}\nb: {y: {1: 1}}\nc: {z: 1}\n"}, None),
        ("integer key in the last of several namespaces", {"/d/r.params": "a: {x: 1}\nb: {x: 1}\nc: {1: 1}\n"}, None),
        ("integer key after string keys", {"/d/r.params": "a: {x: 1, y: 2, 3: 4}\n"}, None),
        ("integer key before string keys", {"/d/r.params": "1: a\nx: b\n"}, None),
        ("last top-level key an integer", {"/d/r.params": "x: b\ny: c\n0: a\n"}, None),
        ("float key", {"/d/r.params": "a: {1.5: x}\n"}, None), ("date key", {"/d/r.params": "2001-01-01: x\n"}, None),
        ("dotted key in the last of several namespaces", {"/d/r.params": "a: {x: 1}\nb: {c.d: 1}\n"}, None),
        ("dotted key in the first of several namespaces", {"/d/r.params": "a: {c.d: 1}\nb: {x: 1}\n"}, None),
        ("environment and an empty mapping", {"/d/r.params": "{}\n"}, {}),
        ("environment and empty namespaces", {"/d/r.params": "a: {}\nb: {c: {}}\n"}, {"a": {}, "b": {"c": {}}}),
        ("include of an empty mapping", {"/d/r.params": "_includes: [i.params]\na: 1\n", "/d/i.params": "{}\n"}, {"a": 1}),
        ("include by an empty mapping", {"/d/r.params": "_includes: [i.params, j.params]\n", "/d/i.params": "{}\n",
                                         "/d/j.params": "b: 1\n"}, {"b": 1}),
        ("_includes below the top is a parameter", {"/d/r.params": "a: {_includes: [x]}\n"}, {"a": {"_includes": ["x"]}}),
        ("three includes", {"/d/r.params": "_includes: [i.params, j.params, k.params]\nz: '%%a%%%%b%%%%c%%'\n".replace("%%", "%"),
                            "/d/i.params": "a: %s\n" % T[0], "/d/j.params": "b: '%%a%%%s'\n" % T[1],
                            "/d/k.params": "c: '%%b%%%s'\na: %s\n" % (T[2], T[3])},
         {"a": T[3], "b": T[0] + T[1], "c": T[0] + T[1] + T[2], "z": T[3] + T[0] + T[1] + T[0] + T[1] + T[2]}),
        ("the same file included twice", {"/d/r.params": "_includes: [i.params, j.params, i.params]\nz: 1\n",
                                          "/d/i.params": "a: %s\n" % T[0], "/d/j.params": "a: %s\n" % T[1]}, {"a": T[0], "z": 1}),
        ("chain of four", {"/d/r.params": "_includes: [e/i.params]\na: %s\n" % T[0],
                           "/d/e/i.params": "_includes: [f/j.params]\na: %s\nb: %s\n" % (T[1], T[1]),
                           "/d/e/f/j.params": "_includes: ['../../k.params']\nb: %s\nc: %s\n" % (T[2], T[2]),
                           "/d/k.params": "c: %s\nd: %s\n" % (T[3], T[3])}, {"a": T[0], "b": T[1], "c": T[2], "d": T[3]}),
        ("include overridden with a falsy value", {"/d/r.params": "_includes: [i.params]\na: 0\nb: ''\nc: false\nd: []\n",
                                                   "/d/i.params": "a: 1\nb: x\nc: true\nd: [1]\ne: 0\n"},
         {"a": 0, "b": "", "c": False, "d": [], "e": 0}),
        ("dotted key", {"/d/r.params": "a.b: c\n"}, None), ("nested dotted key", {"/d/r.params": "a: {b.c: d}\n"}, None),
        ("bad yaml", {"/d/r.params": "a: [1, 2\n"}, None), ("bad yaml tag", {"/d/r.params": "a: !!python/object:os.x {}\n"}, None),
        ("include with list at top", {"/d/r.params": "_includes: [i.params]\na: 1\n", "/d/i.params": "- x\n"}, None),
        ("include with integer key", {"/d/r.params": "_includes: [i.params]\na: 1\n", "/d/i.params": "x: {3: 1}\n"}, None),
        ("namespace against leaf", {"/d/r.params": "_includes: [i.params]\na: 1\n", "/d/i.params": "a: {x: 1}\n"}, None),
        ("leaf against namespace", {"/d/r.params": "_includes: [i.params]\na: {x: 1}\n", "/d/i.params": "a: 1\n"}, None),
        ("unknown interpolation", {"/d/r.params": "a: '%nope%'\n"}, None),
        ("unknown interpolation in include", {"/d/r.params": "_includes: [i.params]\nq: 1\n", "/d/i.params": "a: '%q%'\n"}, None),
        ("self include", {"/d/r.params": "_includes: [i.params]\nq: 1\n", "/d/i.params": "_includes: [nope]\n"}, None),
    ]
    for name, files, want in cases:
        def sc(S, name=name, files=files, want=want):
            if want == "missing":
                M.world.add_dir("/d")
                S.expect(attempt(Loader().load, "/d/r.params"), IOError, "bad-input-refused-as-ioerror", Loader.load)
                return
            load(S, files, want, "includes-and-values" if want is not None else "bad-input-refused-as-ioerror",
                 environ={"HOME": T[11], "PATH_LIKE": "x"})

        run.scenario(name, sc)

    def ctx(S):
        c = Params.from_mapping({"b": T[1], "n": {"x": T[2], "y": T[3]}})
        load(S, {"/d/r.params": "a: '%%b%%'\nn: {x: '%%n.y%%'}\n".replace("%%", "%")},
             {"a": T[1], "b": T[1], "n": {"x": T[3], "y": T[3]}}, "included-context", included_context=c)
        S.require(c.as_nested_dicts() == {"b": T[1], "n": {"x": T[2], "y": T[3]}}, "context-unchanged")
        load(S, {"/d/r.params": "a: '%b%'\nn: {x: 1}\n"}, {"a": T[1], "b": T[1], "n": {"x": 1, "y": T[3]}},
             "included-context", context=c)
        o = attempt(Loader().load, "/d/r.params", c, included_context=c)
        S.expect(o, Err, "both-contexts-refused", Loader.load)
        load(S, {"/d/r.params": "_includes: [i.params]\na: '%c%'\n", "/d/i.params": "c: '%b%'\nb: x\n"},
             {"a": "x", "c": "x", "b": "x", "n": {"x": T[2], "y": T[3]}}, "included-context", included_context=c)
        load(S, {"/d/r.params": "_includes: [i.params]\na: '%c%'\n", "/d/i.params": "c: '%b%'\n"},
             {"a": T[1], "c": T[1], "b": T[1], "n": {"x": T[2], "y": T[3]}}, "included-context", included_context=c)

    run.scenario("included context", ctx)

    def strings(S):
        for text in ("_includes: [i.params]\na: 1\n", "_includes: ['../i.params']\na: 1\n"):
            M.world.add_file("/w/i.params", "b: 2\n")
            M.world.add_file("/i.params", "b: 2\n")
            S.expect(attempt(Loader().load_string, text), IOError, "relative-include-from-string-refused", Loader.load_string)
        M.world.add_file("/q/i.params", "b: %s\n_includes: [j.params]\n" % T[1])
        M.world.add_file("/q/j.params", "c: %s\n" % T[2])
        S.expect(attempt(lambda: Loader().load_string("_includes: ['/q/i.params']\na: '%b%'\n").as_nested_dicts()),
                 {"a": T[1], "b": T[1], "c": T[2]}, "absolute-include-from-string", Loader.load_string)
        for bad in ("", "- a", "3", "1: 2", "a: {2: 3}", "a: [", "a.b: 1"):
            S.expect(attempt(Loader().load_string, bad), IOError, "bad-input-refused-as-ioerror", Loader.load_string)
        for _ in range(2):
            S.expect(attempt(lambda: Loader().load_string("a: 1\n").as_nested_dicts()), {"a": 1}, "loads-are-independent")
            S.expect(attempt(lambda: Loader().load_string("b: 1\n").as_nested_dicts()), {"b": 1}, "loads-are-independent")

    run.scenario("strings", strings)

    def cwd(S):
        # what lies in the current directory does not matter
        for inc in ("i.params", "sub/i.params", "./i.params", "../i.params"):
            M.world.add_file(M.world.norm("/w/" + inc), "b: %s\n" % T[1])
            M.world.add_file("/w/i.params", "b: %s\n" % T[1])
            want = {"a": T[0], "b": T[2]}
            load(S, {"/d/q/r.params": "_includes: ['%s']\na: %s\n" % (inc, T[0]), M.world.norm("/d/q/" + inc): "b: %s\n" % T[2]}, want,
                 "includes-are-relative-to-the-including-file")
            load(S, {"/d/empty/r.params": "_includes: ['%s']\na: %s\n" % (inc, T[0])}, None if inc != "../i.params" else dict(want, b=T[3]),
                 "includes-are-relative-to-the-including-file") if inc != "../i.params" else None
        M.world.add_file("/w/e/r.params", "_includes: [i.params]\na: %s\n" % T[0])
        M.world.add_file("/w/e/i.params", "b: %s\n" % T[4])
        for arg in ("e/r.params", APath("e/r.params"), "./e/r.params"):
            S.expect(attempt(lambda: Loader().load(arg).as_nested_dicts()), {"a": T[0], "b": T[4]},
                     "includes-are-relative-to-the-including-file", Loader.load)

    run.scenario("the current directory holds files of the same names", cwd)

    def prefixes(S):
        M.world.add_file("/d/r.params", "_includes: [i.params]\na: %s\nn: {x: {y: 1}}\n" % T[0])
        M.world.add_file("/d/i.params", "b: %s\nn: {z: 1}\nm: {k: 2}\n" % T[1])
        for pre in ((), ("p",), ("p", "q"), ["p", "q", "r"], (T[5], T[6], T[5])):
            for o in (attempt(Loader().load, "/d/r.params", namespace_path=pre),
                      attempt(Loader().load_string, "_includes: ['/d/i.params']\na: %s\nn: {x: {y: 1}}\n" % T[0], namespace_path=pre)):
                S.expect(o, lambda v: tuple(v.namespace_prefix) == tuple(pre) and v.as_nested_dicts() == {
                    "a": T[0], "b": T[1], "n": {"x": {"y": 1}, "z": 1}, "m": {"k": 2}}, "namespace-path", Loader.load)

    run.scenario("loaded below a namespace", prefixes)

    def envs(S):
        files = {"/d/r.params": "_includes: [i.params]\na: '%E%'\n", "/d/i.params": "c: '%E%'\n"}
        load(S, files, {"a": T[5], "c": T[5]}, "environment-in-includes", environ={"E": T[5], "a": T[6]})
        off = lambda: Loader(interpolate_environmental_variables=False)
        load(S, files, None, "environment-switched-off", environ={"E": T[5]}, loader=off)
        inner = {"/d/r2.params": "_includes: [i.params]\na: 1\n", "/d/i.params": "c: '%E%'\n"}
        load(S, inner, {"a": 1, "c": T[5]}, "environment-in-includes", environ={"E": T[5]})
        load(S, inner, None, "environment-switched-off", environ={"E": T[5]}, loader=off)
        deep = {"/d/r3.params": "_includes: [r2.params]\nz: 1\n", "/d/r2.params": "_includes: [i.params]\na: 1\n", "/d/i.params": "c: '%E%'\n"}
        load(S, deep, {"z": 1, "a": 1, "c": T[5]}, "environment-in-includes", environ={"E": T[5]})
        load(S, deep, None, "environment-switched-off", environ={"E": T[5]}, loader=off)
        for text in ("a: '%E%'\n", "a: x%E%\nb: {}\n", "n: {k: '%E%'}\n"):
            load(S, {"/d/s.params": text}, None, "environment-switched-off", environ={"E": T[5]},
                 loader=lambda: Loader(interpolate_environmental_variables=False))
            o = attempt(Loader(interpolate_environmental_variables=False).load_string, text)
            S.expect(o, IOError, "environment-switched-off", Loader.load_string)
        load(S, {"/d/t.params": "a: '%b%'\nb: 1\n"}, {"a": 1, "b": 1}, "environment-switched-off", environ={"E": T[5], "b": T[6]},
             loader=lambda: Loader(interpolate_environmental_variables=False))
        load(S, {"/d/r.params": "a: '%%E%%'\nE: %s\n" % T[1]}, {"a": T[1], "E": T[1]}, "explicit-beats-environment",
             environ={"E": T[5]})

    run.scenario("environment", envs)


# --------------------------------------------------------------------------- C19
META["C19"] = dict(
    min_obligations=300,
    explanation="evaluate and object_from_parameters are evaluated on the full decision table of parameter form (absent, "
                "string, namespace with value, factory, both, neither), special values and factories, defaults, factory kinds "
                "and result types.")

OBJ = """
from vistautils.parameters import Parameters
class Base:
    pass
class Plain(Base):
    pass
class FromParams(Base):
    def __init__(self, params=None):
        self.params = params
    @staticmethod
    def from_parameters(params):
        return FromParams(params)
class Other:
    pass
calls = []
def make(params):
    calls.append(params)
    return FromParams(params)
def make_other(params):
    return Other()
def make_plain(params):
    return Plain()
def boom(params):
    raise RuntimeError("boom")
plain_instance = Plain()
other_instance = Other()
number = 7
"""


class Importable(dict):
    """Modules of which a parent knows only those sub-modules which have been imported."""

    def __getitem__(self, name):
        m = dict.__getitem__(self, name)
        up, _, leaf = name.rpartition(".")
        if up:
            setattr(self[up], leaf, m)
        return m


def c19(run):
    Params, Err = api(MOD, "Parameters", "ParameterError")
    run.anchor(Params.evaluate, Params.object_from_parameters, Params.optional_evaluate)

    def mod():
        m = env.LOADER.source(OBJ, "scenario_obj", "<scenario>")
        return m

    def ctx(m):
        return {k: v for k, v in vars(m).items() if not k.startswith("__")}

    def ev(S):
        m = mod()
        c = ctx(m)
        keep = dict(c)
        p = Params.from_mapping({"e": "plain_instance", "n": {"value": "number"}, "alt": {"expr": "number + 1"},
                                 "bad": "nonsense_name", "syn": "1 +", "sp": "magic", "nsp": {"value": "magic"}, "i": 3,
                                 "nov": {"other": "1"}, "q": {"value": 3}})
        def is_(x):
            return lambda v: v is x or v == x
        S.expect(attempt(p.evaluate, "e", m.Plain, context=c), is_(m.plain_instance), "evaluate", Params.evaluate)
        S.expect(attempt(p.evaluate, "e", m.Base, context=c), is_(m.plain_instance), "evaluate", Params.evaluate)
        S.expect(attempt(p.evaluate, "e", m.Other, context=c), Err, "evaluate-checks-the-type", Params.evaluate)
        S.expect(attempt(p.evaluate, "n", int, context=c), is_(7), "evaluate-namespace", Params.evaluate)
        S.expect(attempt(p.evaluate, "n", str, context=c), Err, "evaluate-checks-the-type", Params.evaluate)
        S.expect(attempt(p.evaluate, "alt", int, context=c, namespace_param_name="expr"), is_(8), "evaluate-namespace")
        S.expect(attempt(p.evaluate, "alt", int, context=c), Err, "evaluate-missing-value")
        for k in ("bad", "syn", "i", "nov", "q", "absent", "n.absent"):
            S.expect(attempt(p.evaluate, k, object, context=c), Err, "evaluate-failure-is-parameter-error", Params.evaluate)
            S.expect(attempt(p.optional_evaluate, k, object), isnone if "absent" in k else Err, "optional-evaluate",
                     Params.optional_evaluate)
        S.expect(attempt(p.evaluate, "sp", int, context=c, special_values={"magic": "number * 2"}), is_(14), "special-values",
                 Params.evaluate)
        S.expect(attempt(p.evaluate, "nsp", int, context=c, special_values={"magic": "number * 2"}), is_(14), "special-values",
                 Params.evaluate)
        S.expect(attempt(p.evaluate, "e", m.Plain, context=c, special_values={"magic": "number"}), is_(m.plain_instance),
                 "special-values", Params.evaluate)
        S.expect(attempt(p.evaluate, "sp", int, context=c, special_values={"other": "number"}), Err, "special-values")
        for d in (m.plain_instance, 0, "", False):
            S.expect(attempt(p.evaluate, "absent", object, context=c, default=d), is_(d), "evaluate-default", Params.evaluate)
            S.expect(attempt(p.evaluate, "e", m.Plain, context=c, default=d), is_(m.plain_instance), "evaluate-default")
        S.expect(attempt(p.evaluate, "bad", object, context=c, default=1), Err, "default-does-not-hide-a-failure")
        S.require(c == keep and set(c) == set(keep), "context-unchanged", "", Params.evaluate)
        for e in ("1 + 2", "[1, 2]", "'abc'", "len('ab')"):
            S.expect(attempt(Params.from_mapping({"x": e}).evaluate, "x", object), eval(e), "evaluate-without-context",
                     Params.evaluate)
            S.expect(attempt(Params.from_mapping({"x": e}).optional_evaluate, "x", object), eval(e), "optional-evaluate",
                     Params.optional_evaluate)

    run.scenario("evaluate", ev)

    def falsy(S):
        m = mod()
        c = ctx(m)
        p = Params.from_mapping({"sv": "sv", "nv": {"value": "sv"}, "sf": "sf", "nf": {"factory": "sf", "x": 1}, "n": {}, "e": ""})
        for v in (0, "", False, [], 0.0, (), None):
            t = type(v)
            for name in ("sv", "nv"):
                S.expect(attempt(p.object_from_parameters, name, t, context=c, special_values={"sv": v} if not isinstance(v, str)
                                 else {"sv": "''"}), (lambda r: r == v and type(r) is t) if name == "nv" or not isinstance(v, str)
                         else lambda r: r == "''", "falsy-special-value", Params.object_from_parameters)
            if v is not None:
                S.expect(attempt(p.object_from_parameters, "absent", t, context=c, default_value=v),
                         lambda r: r is v, "falsy-default-value", Params.object_from_parameters)
                S.expect(attempt(p.object_from_parameters, "absent", t, context=c, default_value=v, default_factory=m.make_plain),
                         lambda r: r is v, "falsy-default-value", Params.object_from_parameters)
            for sf in (lambda q: v,):
                S.expect(attempt(p.object_from_parameters, "sf", t, context=c, special_factories={"sf": sf}), lambda r: r is v,
                         "falsy-result-of-a-factory", Params.object_from_parameters)
                S.expect(attempt(p.object_from_parameters, "nf", t, context=c, special_factories={"sf": sf}), lambda r: r is v,
                         "falsy-result-of-a-factory", Params.object_from_parameters)
                S.expect(attempt(p.object_from_parameters, "absent", t, context=c, default_factory=sf), lambda r: r is v,
                         "falsy-result-of-a-factory", Params.object_from_parameters)
        # defaults and special values are checked like everything else
        for bad in (m.other_instance, 3, "plain_instance", "", 0, False, m.Plain, m.make_plain):
            S.expect(attempt(p.object_from_parameters, "absent", m.Base, context=c, default_value=bad), Err,
                     "default-value-checked", Params.object_from_parameters)
            S.expect(attempt(p.object_from_parameters, "absent", m.Base, context=c, default_factory=lambda q: bad), Err,
                     "default-factory-result-checked", Params.object_from_parameters)
            S.expect(attempt(p.object_from_parameters, "sv", m.Base, context=c, special_values={"sv": bad}), Err,
                     "special-value-checked", Params.object_from_parameters)
            S.expect(attempt(p.object_from_parameters, "sf", m.Base, context=c, special_factories={"sf": lambda q: bad}), Err,
                     "special-factory-result-checked", Params.object_from_parameters)
            S.expect(attempt(p.object_from_parameters, "nf", m.Base, context=c, special_factories={"sf": lambda q: bad}), Err,
                     "special-factory-result-checked", Params.object_from_parameters)
        # None is a result like any other
        q = Params.from_mapping({"v": {"value": "None"}, "s": "None", "f": {"factory": "none"}, "sf": "sf", "nf": {"factory": "sf"}})
        c2 = dict(c, none=lambda x: None)
        for kw in ({}, {"default_value": m.plain_instance}, {"default_factory": m.make_plain}):
            for name in ("v", "s", "f", "sf", "nf"):
                S.expect(attempt(q.object_from_parameters, name, m.Base, context=c2, special_factories={"sf": lambda x: None}, **kw),
                         Exception, "result-type-checked", Params.object_from_parameters)
                S.expect(attempt(q.object_from_parameters, name, type(None), context=c2, special_factories={"sf": lambda x: None}),
                         isnone, "result-type-checked", Params.object_from_parameters)
            if not kw:
                S.expect(attempt(q.object_from_parameters, "absent", m.Base, context=c2, default_factory=lambda x: None), Err,
                         "default-factory-result-checked", Params.object_from_parameters)
        # special values and factories match exactly
        for near in (" magic", "magic ", "magic\t", "Magic", "magic.", "(magic)", "magi", "magicx"):
            q = Params.from_mapping({"s": near, "v": {"value": near}, "f": {"factory": near}})
            for name in ("s", "v"):
                S.expect(attempt(q.evaluate, name, object, context=c, special_values={"magic": "number"}), Err, "special-values",
                         Params.evaluate)
                S.expect(attempt(q.evaluate, name, object, context=c, special_values={"magic": "number", near: "number + 1"}), 8,
                         "special-values", Params.evaluate)
                S.expect(attempt(q.object_from_parameters, name, m.Base, context=c, special_values={"magic": m.plain_instance}),
                         Exception, "special-values", Params.object_from_parameters)
            for name in ("s", "f"):
                S.expect(attempt(q.object_from_parameters, name, m.Base, context=c, special_factories={"magic": m.make}),
                         Exception, "special-values", Params.object_from_parameters)
        # a present parameter is never replaced by the default
        for name in ("sv", "nv", "n", "e"):
            S.expect(attempt(p.object_from_parameters, name, m.Base, context=c, default_value=m.plain_instance,
                             default_factory=m.make_plain), Exception, "default-does-not-hide-a-failure",
                     Params.object_from_parameters)

    run.scenario("falsy values and unchecked results", falsy)

    def imports(S):
        pk = env.LOADER.source("x = 1\n", "scenpkg", "<scenario>")
        sub = env.LOADER.source("class K:\n    tag = 'sub'\n", "scenpkg.sub", "<scenario>")
        pk.sub = sub
        c = {"unrelated": 1}
        p = Params.from_mapping({"q": "scenpkg.sub.K", "n": {"value": "scenpkg.sub.K", "import": ["scenpkg.sub"]},
                                 "m": {"value": "scenpkg.sub.K", "import": ["scenpkg.missing"]},
                                 "no": {"value": "scenpkg.sub.K"}, "bad": "scenpkg.nope.K",
                                 "f": {"factory": "scenpkg.sub.K", "import": ["scenpkg.sub"]}})
        k = lambda v: v is sub.K  # noqa
        S.expect(attempt(p.evaluate, "q", type, context=c), k, "qualified-names-are-imported", Params.evaluate)
        S.expect(attempt(p.evaluate, "n", type, context=c), k, "import-list", Params.evaluate)
        S.expect(attempt(p.evaluate, "m", type, context=c), Err, "missing-import-refused", Params.evaluate)
        S.expect(attempt(p.evaluate, "bad", type, context=c), Err, "missing-import-refused", Params.evaluate)
        S.expect(attempt(p.object_from_parameters, "q", type), k, "qualified-names-are-imported",
                 Params.object_from_parameters)
        S.expect(attempt(p.object_from_parameters, "n", type, context=c), k, "import-list", Params.object_from_parameters)
        S.expect(attempt(p.object_from_parameters, "f", sub.K, context=c), lambda v: isinstance(v, sub.K), "import-list",
                 Params.object_from_parameters)
        S.require(c == {"unrelated": 1}, "context-unchanged", "the caller's context was modified", Params.evaluate)
        one = env.LOADER.source("def f(params):\n    return 'one'\ng = 1\n", "scenone", "<scenario>")
        two = env.LOADER.source("def f(params):\n    return 'two'\ng = 2\n", "scentwo", "<scenario>")
        for names in (["scenone", "scentwo"], ["scentwo", "scenone"], ["scentwo", "scenpkg", "scenone"]):
            q = Params.from_mapping({"n": {"value": "(scenone.g, scentwo.g)", "import": names},
                                     "f": {"factory": "scentwo.f", "import": names},
                                     "f1": {"factory": "scenone.f", "import": names}})
            S.expect(attempt(q.evaluate, "n", tuple, context=c), (1, 2), "import-list", Params.evaluate)
            S.expect(attempt(q.object_from_parameters, "n", tuple, context=c), (1, 2), "import-list",
                     Params.object_from_parameters)
            S.expect(attempt(q.object_from_parameters, "f", str, context=c), "two", "import-list", Params.object_from_parameters)
            S.expect(attempt(q.object_from_parameters, "f1", str, context=c), "one", "import-list",
                     Params.object_from_parameters)
        S.require(c == {"unrelated": 1}, "context-unchanged", "the caller's context was modified", Params.evaluate)
        for bad in (["scenone", "scen.missing"], ["scen.missing", "scenone"]):
            q = Params.from_mapping({"n": {"value": "1", "import": bad}})
            S.expect(attempt(q.evaluate, "n", int, context=c), Err, "missing-import-refused", Params.evaluate)

        # however deep the module
        for depth in (1, 2, 3, 4, 5, 8):
            names = ["deep%d" % depth] + ["m%d" % i for i in range(1, depth)]
            mods = [env.LOADER.source("class K:\n    depth = %d\nname = 'K'\n" % i, ".".join(names[: i + 1]), "<scenario>")
                    for i in range(depth)]
            lazy = Importable((m.__name__, m) for m in mods)
            lazy.update(M.world.modules)
            M.world.modules = lazy
            for m in mods:
                del env.LOADER.modules[m.__name__]
            full = ".".join(names)
            q = Params.from_mapping({"k": full + ".K", "d": full + ".K.depth", "n": {"f": full + ".K"}, "no": full + ".Nope",
                                     "mis": full + "x.K", "v": {"value": full + ".K", "import": [full]},
                                     "f": {"factory": full + ".K", "import": [full]}, "both": {"value": full + ".K.depth", "import": [names[0], full]}})
            S.expect(attempt(q.evaluate, "k", type, context=c), lambda v: v is mods[-1].K, "qualified-names-are-imported", Params.evaluate)
            S.expect(attempt(q.evaluate, "n.f", type), lambda v: v is mods[-1].K, "qualified-names-are-imported", Params.evaluate)
            S.expect(attempt(q.object_from_parameters, "k", type), lambda v: v is mods[-1].K, "qualified-names-are-imported",
                     Params.object_from_parameters)
            S.expect(attempt(q.object_from_parameters, "v", type, context=c), lambda v: v is mods[-1].K, "import-list",
                     Params.object_from_parameters)
            S.expect(attempt(q.object_from_parameters, "f", mods[-1].K, context=c), lambda v: v.depth == depth - 1, "import-list",
                     Params.object_from_parameters)
            S.expect(attempt(q.evaluate, "both", int, context=c), depth - 1, "import-list", Params.evaluate)
            for bad in ("no", "mis"):
                S.expect(attempt(q.evaluate, bad, object, context=c), Err, "missing-import-refused", Params.evaluate)
                S.expect(attempt(q.object_from_parameters, bad, object, context=c), Exception, "missing-import-refused",
                         Params.object_from_parameters)

    run.scenario("imports", imports)

    def builtin(S):
        # classes are made without arguments and functions called with the parameters, built in or not
        p = Params.from_mapping({"n": {k: {"factory": k, "x": 1} for k in ("dict", "list", "str", "int", "float", "bool", "tuple", "object",
                                                                           "make", "Plain")}, "ident": {"factory": "repr", "x": 1}})
        m = mod()
        c = ctx(m)
        for name, t, want in (("dict", dict, {}), ("list", list, []), ("str", str, ""), ("int", int, 0), ("float", float, 0.0),
                              ("bool", bool, False), ("tuple", tuple, ())):
            S.expect(attempt(p.object_from_parameters, "n." + name, t, context=c), same(want), "class-made-without-arguments",
                     Params.object_from_parameters)
            S.expect(attempt(p.object_from_parameters, "absent", t, context=c, default_factory=t), same(want),
                     "class-made-without-arguments", Params.object_from_parameters)
            q = Params.from_mapping({"s": "sf", "v": {"factory": "sf"}})
            for k in ("s", "v"):
                S.expect(attempt(q.object_from_parameters, k, t, context=c, special_factories={"sf": t}), same(want),
                         "class-made-without-arguments", Params.object_from_parameters)
            S.expect(attempt(p.object_from_parameters, "n." + name, m.Base, context=c), Err, "result-type-checked",
                     Params.object_from_parameters)
        S.expect(attempt(p.object_from_parameters, "n.object", object, context=c), lambda v: type(v) is object,
                 "class-made-without-arguments", Params.object_from_parameters)

        class Callable:
            def __call__(self, params):
                return ("called", params)

        for f in (Callable(), Callable().__call__, lambda params: ("called", params)):
            o = attempt(p.object_from_parameters, "absent", tuple, context=c, default_factory=f)
            S.expect(o, lambda v: v[0] == "called" and isinstance(v[1], Params), "callable-factory", Params.object_from_parameters)
            o = attempt(Params.from_mapping({"v": {"factory": "sf", "x": 1}}).object_from_parameters, "v", tuple, context=c,
                        special_factories={"sf": f})
            S.expect(o, lambda v: v[0] == "called" and v[1].as_nested_dicts() == {"factory": "sf", "x": 1}, "callable-factory",
                     Params.object_from_parameters)

    run.scenario("factories of every kind", builtin)

    # decision table of object_from_parameters
    forms = {
        "absent": None, "value": {"value": "plain_instance"}, "value wrong type": {"value": "other_instance"},
        "factory callable": {"factory": "make", "arg": tok(1)}, "factory class": {"factory": "FromParams", "arg": tok(1)},
        "factory plain class": {"factory": "Plain"}, "factory not callable": {"factory": "number"},
        "factory wrong type": {"factory": "make_other"}, "factory raises": {"factory": "boom"},
        "both": {"value": "plain_instance", "factory": "make"}, "neither": {"arg": tok(1)}, "empty namespace": {},
        "string": "plain_instance", "string wrong type": "other_instance", "string special": "sv", "string special factory": "sf",
        "string special class": "sc", "string unknown": "nonsense", "value special": {"value": "sv"},
        "factory special": {"factory": "sf", "arg": tok(1)}, "factory special class": {"factory": "sc", "arg": tok(1)},
        "integer": 3, "value bad": {"value": "nonsense"},
    }
    for form, v in forms.items():
        for dv in (None, "default"):
            for df in (None, "make_plain", "Plain", "FromParams", "number"):
                for style in ("object", "expression"):
                    def tab(S, form=form, v=v, dv=dv, df=df, style=style):
                        m = mod()
                        c = ctx(m)
                        del m.calls[:]
                        dflt = m.Plain()
                        special = m.Plain()
                        c["special_name"] = special
                        base = {"top": {}} if v is None else {"top": {"o": v}}
                        p = Params.from_mapping(base)
                        svals = {"sv": special} if style == "object" or form == "string special" else {"sv": "special_name"}
                        sfac = {"sf": m.make, "sc": m.FromParams} if style == "object" else {"sf": "make", "sc": "FromParams"}
                        kw = dict(context=c, special_values=svals, special_factories=sfac)
                        if dv:
                            kw["default_value"] = dflt
                        if df:
                            kw["default_factory"] = getattr(m, df)
                        f = p.object_from_parameters
                        o = attempt(f, "top.o", m.Base, **kw)
                        fp = lambda q: lambda r: isinstance(r, m.FromParams) and q(r.params)  # noqa
                        isns = lambda q: isinstance(q, Params) and q.as_nested_dicts() == v and tuple(q.namespace_prefix) == ("top", "o")  # noqa
                        empty = lambda q: isinstance(q, Params) and q.as_nested_dicts() == {}  # noqa
                        if form == "absent":
                            if dv:
                                want = lambda r: r is dflt  # noqa
                            elif df in ("make_plain", "Plain"):
                                want = lambda r: isinstance(r, m.Plain)  # noqa
                            elif df == "FromParams":
                                want = fp(empty)
                            else:
                                want = Err
                        else:
                            want = {
                                "value": lambda r: r is m.plain_instance, "value wrong type": Err,
                                "factory callable": fp(isns), "factory class": fp(isns),
                                "factory plain class": lambda r: isinstance(r, m.Plain), "factory not callable": Err,
                                "factory wrong type": Err, "factory raises": RuntimeError, "both": Err, "neither": Err,
                                "empty namespace": Err, "string": lambda r: r is m.plain_instance, "string wrong type": Exception,
                                "string special": lambda r: r is special, "string special factory": fp(empty),
                                "string special class": fp(empty), "string unknown": Exception,
                                "value special": lambda r: r is special, "factory special": fp(isns),
                                "factory special class": fp(isns), "integer": Err, "value bad": Err,
                            }[form]
                        S.expect(o, want, "object-%s" % form.replace(" ", "-"), Params.object_from_parameters)

                    run.scenario("object from %s, default value %s, default factory %s, special %ss" % (form, dv, df, style), tab)

    def prefix(S):
        m = mod()
        for path in (("o",), ("a", "o"), ("ab", "cd", "ef")):
            p = Params.from_mapping(nest(path[:-1], {"z": 1}, sib=False) if path[:-1] else {"z": 1})
            holder = p.namespace(".".join(path[:-1])) if path[:-1] else p
            o = attempt(holder.object_from_parameters, path[-1], m.FromParams, default_factory=m.FromParams)
            S.expect(o, lambda v: tuple(v.params.namespace_prefix) == path, "default-factory-prefix",
                     Params.object_from_parameters)
            q = Params.from_mapping(nest(path[:-1], {path[-1]: "sf"}, sib=False))
            holder = q.namespace(".".join(path[:-1])) if path[:-1] else q
            o = attempt(holder.object_from_parameters, path[-1], m.FromParams, special_factories={"sf": m.FromParams})
            S.expect(o, lambda v: tuple(v.params.namespace_prefix) == path, "special-factory-prefix",
                     Params.object_from_parameters)

    run.scenario("prefix handed to factories", prefix)

    def renamed(S):
        m = mod()
        p = Params.from_mapping({"o": {"type": "make", "value": tok(1)}, "w": {"val": "plain_instance", "factory": "x"}})
        o = attempt(p.object_from_parameters, "o", m.FromParams, context=ctx(m), factory_namespace_param_name="type",
                    value_namespace_param_name="val")
        S.expect(o, lambda v: v.params.as_nested_dicts() == {"type": "make", "value": tok(1)}, "renamed-parameters")
        o = attempt(p.object_from_parameters, "w", m.Plain, context=ctx(m), value_namespace_param_name="val",
                    factory_namespace_param_name="type")
        S.expect(o, lambda v: v is m.plain_instance, "renamed-parameters")

    run.scenario("renamed value and factory parameters", renamed)


# --------------------------------------------------------------------------- C20
META["C20"] = dict(
    min_obligations=300, workers=4,
    explanation="Writing is evaluated on all parameter trees of two levels (sampled three) with leaves of every type and to "
                "every kind of target; the text is loaded back by the loader (YAML parsing and emitting are trusted) and must "
                "give the same parameters; illegal values must be refused.")


def c20(run):
    Params, Loader, Writer = api(MOD, "Parameters", "YAMLParametersLoader", "YAMLParametersWriter")
    CharSink = api("vistautils.io_utils", "CharSink")
    run.anchor(Writer.write, Params.__str__)

    def norm(v):
        if isinstance(v, dict):
            return {k: norm(x) for k, x in v.items()}
        if isinstance(v, APath):
            return ("str", str(v))
        if isinstance(v, (list, tuple)):
            return [norm(x) for x in v]
        return (type(v).__name__, v)

    def rt(S, mk):
        d = mk()
        p = Params.from_mapping(d)
        want = norm(mk())
        sink = CharSink.to_string()
        targets = [("sink", sink), ("path", APath("/d/out.params")), ("str", "/d/out2.params")]
        M.world.add_dir("/d")
        for name, t in targets:
            if not S.expect(attempt(Writer().write, p, t), isnone, "written", Writer.write):
                continue
            text = sink.last_string_written if name == "sink" else M.world.content(
                "/d/out.params" if name == "path" else "/d/out2.params").decode("utf-8")
            o = attempt(Loader(interpolate_environmental_variables=False).load_string, text)
            S.expect(o, lambda v: norm(v.as_nested_dicts()) == want, "round-trip", Writer.write)
            if o.ok:
                S.require([".".join(q) for q, _ in walk(o.value.as_nested_dicts())] == [".".join(q) for q, _ in walk(d)],
                          "order-preserved", lambda: "%s: %r" % (name, text), Writer.write)
        s = attempt(str, p)
        S.expect(s, sink.last_string_written, "str-is-the-written-form", Params.__str__)
        S.require(norm(p.as_nested_dicts()) == want, "parameters-unchanged")
        S.require(not M.world.leaked(), "files-closed")
        S.require(not any(e[0] == "locale-encoding" for e in M.world.events), "written-as-utf8")

    leaves = [lambda: tok(3), lambda: "", lambda: 5, lambda: 0, lambda: -2, lambda: 1.5, lambda: True, lambda: False,
              lambda: "3", lambda: "true", lambda: "null", lambda: "a: b", lambda: "- x", lambda: " lead", lambda: "#c",
              lambda: "multi\nline\n", lambda: "\u00e9\u4e2d", lambda: [tok(1), tok(2)], lambda: [], lambda: [1, [2, [tok(4)]]],
              lambda: (tok(1), 2), lambda: APath("/x/" + tok(5)), lambda: [APath("y/" + tok(5))], lambda: None,
              lambda: "w " * 60, lambda: "'q\"", lambda: [{"k": tok(1), "j": [1]}], lambda: "@x", lambda: "1e3", lambda: "{",
              lambda: "x: %", lambda: [None], lambda: [0, False, ""], lambda: "\t", lambda: "0x10", lambda: "2001-01-01"]
    PLAIN = [1.0, -0.0, 0.0, -1.0, 100.0, 1e300, 0.1, 1e16, 123456789.0, 5e-324, float("inf"), -float("inf"), 2 ** 70, -2 ** 70, 10 ** 15,
             "x  ", "x \ny\t\nz", "\n", "\n\n", "a\n\nb", "\na", " \n ", "x\ry", "x\r\ny", "a\x85b", "\u2028x", "x\u2029", "a\x00b", "\x07", "\x7f",
             "\ufeffx", "x\ufeff", "\U0001f600", "yes", "No", "on", "~", "0o7", "012", "1_000", "1:30", ".5", "+1", "-", "?", "|", ">", "%", "100%", "!x",
             "&x", "*x", "...", "---", "x\n---\ny", "q'q" * 60, "a" + " " * 100 + "b", "x " * 39 + "y  z", "\\n", "\\", "\"", "'", "''", ": ", " #x", "x #y",
             "x:", ",", "]", "`", "=", "<<", ".inf", ".nan", "1.", "1e5", "0b1", "null ", "\xa0x\xa0", "e\u0301", "\u00e9"]
    for v in PLAIN:
        leaves.append(lambda v=v: v)
    leaves.append(lambda: list(PLAIN))
    for i, mkleaf in enumerate(leaves):
        for shape in range(3):
            def one(S, mkleaf=mkleaf, shape=shape):
                rt(S, lambda: [{"k": mkleaf()}, {"b": {"k": mkleaf(), "a": tok(7)}, "a": 1}, {"z": {"y": {"x": mkleaf()}}}][shape])

            run.scenario("leaf %d (%r) shape %d" % (i, mkleaf(), shape), one)
    NAMES = ["_x", "X", "1", "true", "null", "~", "-", "- x", "a b", "#c", "a: b", "x:", "%x%", "\u00e9", "@", "*a", "&a", "!t", "'q",
             '"q', "{", "[", ",", "?", "|", ">", "1e3", "0x1", "2001-01-01", "=", "<<", "a" * 200, " lead", "trail ", "t\tt",
             "l\nl", tok(4) + " " + tok(5), ""]
    for name in NAMES:
        def named(S, name=name):
            rt(S, lambda: {name: tok(1), "z": {name: 1, "b": {name: [tok(2)]}}, "a": {}})

        run.scenario("parameter named %r" % name, named)
    ts = trees(3, ("b", "a"), lambda path: tok(len(path)))
    for i, mk in enumerate(ts[:: 1 if run.thorough else 6]):
        run.scenario("tree %d" % i, lambda S, mk=mk: rt(S, mk), budget=2000000)

    def deep():
        d = {"x": "bottom", "l": list(range(500))}
        for i in range(40):
            d = {"k%d" % i: d, "v": i}
        return d

    for name, mk in (("wide", lambda: {"k%d" % (i * 37 % 500): i for i in range(500)}), ("deep", deep),
                     ("long texts", lambda: {"a": "word " * 3000, "b": "x" * 20000, "c": "line\n" * 900, "d": "\u00e9" * 3000, "n": {"y" * 130: "z"}}),
                     ("long lists", lambda: {"l": ["item %d" % i for i in range(900)], "m": [[i, [i]] for i in range(200)]})):
        run.scenario(name, lambda S, mk=mk: rt(S, mk), budget=20000000)

    def bad(S):
        for v in (b"x", bytearray(b"x"), b"", object(), Atom("x"), [b"x"], {"n": b"x"}, {1, 2}, [[object()]]):
            S.expect(attempt(Writer().write, Params.from_mapping({"k": v}), CharSink.to_string()), Exception,
                     "illegal-value-refused", Writer.write)

    run.scenario("illegal values", bad)


# --------------------------------------------------------------------------- C21
META["C21"] = dict(
    min_obligations=200,
    explanation="Path lists and maps are evaluated on files whose lines are all combinations of line kinds (entries, comments, "
                "blank, padded, malformed) with opaque paths, with and without a base directory.")


def c21(run):
    Params, Err = api(MOD, "Parameters", "ParameterError")
    run.anchor(Params.path_list_from_file, Params.path_map_from_file, Params.pickled_object_from_file)
    a, b = tok(1), tok(2)
    LINES = {"entry": (a, a), "other": (b + "/" + a, b + "/" + a), "absolute": ("/" + b, "/" + b), "padded": ("  " + a + " \t", a),
             "comment": ("#" + a, None), "padded comment": ("  # " + a, None), "blank": ("", None), "spaces": ("  \t", None),
             "inner space": (a + " " + b, a + " " + b), "inner hash": (a + "#" + b, a + "#" + b), "dash": ("-" + a, "-" + a), "dash hash": ("-#" + a, "-#" + a), "quoted": ("'" + a + "'", "'" + a + "'"),
             "semicolon": (";" + a, ";" + a), "slashes": ("//" + a, "//" + a), "star": ("*" + a, "*" + a), "two": (a + "," + b, a + "," + b), "hidden": ("." + a, "." + a), "here": ("./" + b, "./" + b),
             "up": ("../" + a + "/" + b, "../" + a + "/" + b), "home": ("~/" + a, "~/" + a), "tab": (a + "\t" + b, a + "\t" + b),
             "variable": ("$HOME/%" + a + "%", "$HOME/%" + a + "%"),
             "mark": ("\ufeffx", "\ufeffx"), "separators": ("x\u2028y\x0bz\x85w/\x1cv\x0cu", "x\u2028y\x0bz\x85w/\x1cv\x0cu")}

    def paths_ok(o, want, base):
        if not o.ok:
            return False
        v = list(o.value)
        return all(isinstance(x, APath) for x in v) and [str(x) for x in v] == [
            str(APath(base) / x) if base else str(APath(x)) for x in want]

    def lst(S, combo, base, end):
        text = "\n".join(LINES[c][0] for c in combo) + end
        M.world.add_file("/d/list", text)
        before = M.world.snapshot()
        p = Params.from_mapping({"n": {"l": "/d/list"}})
        want = [LINES[c][1] for c in combo if LINES[c][1] is not None]
        kw = {"resolve_relative_to": APath(base)} if base else {}
        o = attempt(p.path_list_from_file, "n.l", **kw)
        S.require(paths_ok(o, want, base), "path-list-from-file", lambda: "%r -> %r" % (text, o), Params.path_list_from_file)
        o = attempt(p.path_list_from_file, "n.l", log_name="x", **kw)
        S.require(paths_ok(o, want, base), "path-list-from-file", lambda: "%r -> %r" % (text, o), Params.path_list_from_file)
        S.require(M.world.snapshot() == before and not M.world.leaked(), "no-file-effects")
        S.require(not any(e[0] == "locale-encoding" for e in M.world.events), "read-as-utf8")

    kinds = list(LINES)
    k = 0
    for n in (0, 1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            k += 1
            if n == 3 and not run.thorough and k % 11:
                continue
            base = (None, "/base/" + tok(9), "rel")[k % 3]
            run.scenario(lambda combo=combo, base=base: "list of %s relative to %s" % (combo, base),
                         lambda S, combo=combo, base=base, end=("\n", "")[k % 2]: lst(S, combo, base, end))

    def direct(S):
        for vals in ([], [a], [a, b + "/" + a, "/" + b], ["  " + a + " "], ["." + a, "../" + b, "./" + a], ["#" + a, "~/" + b]):
            for base in (None, "/base"):
                kw = {"resolve_relative_to": APath(base)} if base else {}
                o = attempt(Params.from_mapping({"l": list(vals)}).path_list_from_file, "l", **kw)
                S.require(paths_ok(o, [x.strip() for x in vals], base), "path-list-given-directly", lambda: "%r" % o,
                          Params.path_list_from_file)
        for v in (3, {}, {"x": 1}, True):
            S.expect(attempt(Params.from_mapping({"l": v}).path_list_from_file, "l"), Err, "bad-list-parameter-refused")
        for f in ("path_list_from_file", "path_map_from_file", "pickled_object_from_file"):
            M.world.add_dir("/d")
            S.expect(attempt(getattr(Params.empty(), f), "l"), Err, "absent-parameter-refused", getattr(Params, f))
            S.expect(attempt(getattr(Params.from_mapping({"l": "/d/nope"}), f), "l"), Err, "missing-file-refused",
                     getattr(Params, f))
            S.expect(attempt(getattr(Params.from_mapping({"l": "/d"}), f), "l"), Err, "missing-file-refused")

    run.scenario("lists given directly", direct)

    MLINES = {"entry": (a + "\t" + b, (a, b)), "second": (b + "\t" + a + "/" + b, (b, a + "/" + b)),
              "padded": (" " + tok(3) + " \t " + b + " ", (tok(3), b)), "absolute": (tok(4) + "\t/" + b, (tok(4), "/" + b)),
              "empty path": (tok(5) + "\t", (tok(5), "")),
              "empty key": ("\t" + b, ("", b)), "blank": ("", None), "spaces": ("  ", None), "comment": ("#" + a, None),
              "comment with a field": ("#" + a + "\t" + b, ("#" + a, b)), "inner space": (tok(6) + " x\ty " + b, (tok(6) + " x", "y " + b)),
              "same": (tok(7) + "\t" + tok(7), (tok(7), tok(7))), "hidden": (".k\t." + b, (".k", "." + b)),
              "up": ("../" + a + "\t../" + a, ("../" + a, "../" + a)), "home": ("~\t~/" + b, ("~", "~/" + b)),
              "mark": ("\ufeffk\t\ufeffx", ("\ufeffk", "\ufeffx")), "separators": ("k\u2028l\x85m\tx\x0by\x1cz", ("k\u2028l\x85m", "x\x0by\x1cz")),
              "hash": (tok(8) + "\t#" + b, (tok(8), "#" + b)), "one field": (a, None), "three fields": (a + "\t" + b + "\t" + a, None)}

    def mp(S, combo, base, end):
        M.world.add_file("/d/map", "\n".join(MLINES[c][0] for c in combo) + end)
        p = Params.from_mapping({"m": "/d/map"})
        kw = {"resolve_relative_to": APath(base)} if base else {}
        for ln in (None, "x"):
            o = attempt(p.path_map_from_file, "m", log_name=ln, **kw)
            if any(MLINES[c][1] is None for c in combo):
                S.expect(o, IOError, "malformed-map-line-refused", Params.path_map_from_file)
            else:
                want = {k: str(APath(base) / v) if base else str(APath(v)) for k, v in (MLINES[c][1] for c in combo)}
                S.expect(o, lambda v: {k: str(x) for k, x in v.items()} == want and all(isinstance(x, APath) for x in v.values())
                         and list(v) == list(want), "path-map-from-file", Params.path_map_from_file)
        S.require(not M.world.leaked(), "files-closed", lambda: "%r" % M.world.leaked(), Params.path_map_from_file)
        S.require(not any(e[0] == "locale-encoding" for e in M.world.events), "read-as-utf8")

    k = 0
    for n in (0, 1, 2, 3):
        for combo in itertools.permutations(MLINES, n):
            k += 1
            if n == 3 and not run.thorough and k % 17 or combo and combo[-1] == "blank":
                continue  # (a blank last line is the end of the line before)
            base = (None, "/base/" + tok(9), "rel")[k % 3]
            run.scenario(lambda combo=combo, base=base: "map of %s relative to %s" % (combo, base),
                         lambda S, combo=combo, base=base, end=("\n", "")[k % 2 if n else 1]: mp(S, combo, base, end))

    def lots(S):
        w = M.world
        many = ["p%d/_%s" % (i, "x" * (i % 97)) for i in range(3000)] + ["y" * 300, "a b/c d", "e" + "/f" * 400]
        text = "".join("%s\n%s" % (x, ("", "\n", "# %s\n" % x, "   \n")[i % 4]) for i, x in enumerate(many))
        w.add_file("/d/list", text + "last")
        many.append("last")
        maps = [("k%d _%s" % ((i * 37) % 3000, "k" * (i % 31)), x) for i, x in enumerate(many)]
        w.add_file("/d/map", "".join("%s\t%s\n" % e for e in maps))
        p = Params.from_mapping({"l": "/d/list", "m": "/d/map", "direct": many})
        for base in (None, "/base"):
            kw = {"resolve_relative_to": APath(base)} if base else {}
            for name in ("l", "direct"):
                o = attempt(p.path_list_from_file, name, **kw)
                S.require(paths_ok(o, many, base), "path-list-from-file", "3004 entries", Params.path_list_from_file)
            S.expect(attempt(p.path_map_from_file, "m", **kw), lambda v: [(k, str(x)) for k, x in v.items()] == [
                (k, str(APath(base) / x) if base else x) for k, x in maps], "path-map-from-file", Params.path_map_from_file)

    run.scenario("thousands of lines", lots, budget=20000000)

    def pick(S):
        obj = {"a": [1, tok(3)], "b": None}
        M.world.add_file("/d/p", env._pdumps(obj))
        S.expect(attempt(Params.from_mapping({"m": "/d/p"}).pickled_object_from_file, "m"), obj, "pickled-object",
                 Params.pickled_object_from_file)
        S.require(not M.world.leaked(), "files-closed", lambda: "%r" % M.world.leaked(), Params.pickled_object_from_file)

    run.scenario("pickled object", pick)
