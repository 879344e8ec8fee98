"""Specifications of vistautils.span and vistautils.annotated_text_utils.

Offsets are linear expressions over positive gap symbols: a scenario fixes only the order of the offsets (with zero) and
whether each gap is exactly one or larger, so it stands for all integers with that shape.
"""
import collections
import itertools
import re

from immutablecollections import immutabledict

from absint import env
from absint.check import api, attempt
from absint.core import Unmodelled
from absint.values import Atom, sym, tok

SPAN = "vistautils.span"
META = {}


def arrangements(k):
    """All weak orders of k labelled points as level tuples."""
    seen = set()
    for lv in itertools.product(range(k), repeat=k):
        u = sorted(set(lv))
        c = tuple(u.index(x) for x in lv)
        if c not in seen:
            seen.add(c)
            yield c


def place(n, gaps, zero):
    """n ascending offsets; gaps[i] in (1, 2): exactly one or unknown >= 2; zero: index after which 0 lies.

    zero = 2*i means level i is 0; 2*i+1 means 0 lies strictly between level i and i+1 (gap split in two symbols)."""
    out = [None] * n
    if zero == -1:
        out[0] = sym("z", 1)
    elif zero == 2 * n - 1:
        out[n - 1] = -sym("z", 1)
    elif zero % 2 == 0:
        out[zero // 2] = 0
    else:
        i = zero // 2
        out[i] = -1 if gaps[i] == 1 else -sym("za", 2)
        out[i + 1] = 1 if gaps[i] == 1 else sym("zb", 1)
    g = [sym("g%d" % i, 2) if x == 2 else sym("g%d" % i, 3) if x == 3 else 2 if x == 4 else 1 for i, x in enumerate(gaps)]
    known = [i for i in range(n) if out[i] is not None]
    for i in range(known[-1] + 1, n):
        out[i] = out[i - 1] + g[i - 1]
    for i in range(known[0] - 1, -1, -1):
        out[i] = out[i + 1] - g[i]
    return out


def layouts(n, thorough=True, kinds=(1, 2)):
    zs = list(range(-1, 2 * n))
    if not thorough:
        zs = [-1, 0, 1, 2 * n - 1]
    for gaps in itertools.product(kinds, repeat=n - 1):
        for z in zs:
            yield gaps, z, place(n, gaps, z)


# the same arrangements on plain numbers, where nothing is unknown
PLAIN = [[-7, -5, -4, -1, 0, 3, 4], [-1, 0, 1, 2, 3, 4, 5], [0, 255, 256, 257, 65535, 65536, 65537],
         [2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63], [-2 ** 70, -2 ** 53 - 1, -1000000, -300, 7, 10 ** 9, 10 ** 40],
         [100, 101, 110, 200, 1000, 1100, 10000]]


def slen(x):
    return env.BUILTINS["len"](x)


# --------------------------------------------------------------------------- C08
META["C08"] = dict(
    min_obligations=5000, workers=4,
    explanation="Every Span operation is evaluated on all pairs of spans in all relative positions (Allen relations), with each "
                "gap exactly one or an unknown larger number and zero lying anywhere, and compared with the half-open-interval "
                "definition; offsets are linear expressions over unknown gaps.")


def c08(run):
    Span, = (api(SPAN, "Span"),)
    Range, BoundType = api("vistautils.range", "Range", "BoundType")
    run.anchor(Span.contains_offset, Span.contains_span, Span.precedes, Span.follows, Span.overlaps, Span.intersection,
               Span.clip_to, Span.shift, Span.minimal_enclosing_span, Span.as_range)

    def iss(v, a, b):
        return isinstance(v, Span) and v.start == a and v.end == b

    def pair(S, lv, pts):
        s1, e1, s2, e2 = (pts[i] for i in lv)
        a, b = Span(s1, e1), Span(s2, e2)
        S.expect(attempt(a.contains_span, b), s1 <= s2 and e2 <= e1, "contains_span", Span.contains_span)
        S.expect(attempt(lambda: b in a), s1 <= s2 and e2 <= e1, "contains_span", Span.__contains__)
        S.expect(attempt(a.precedes, b), e1 <= s2, "precedes", Span.precedes)
        S.expect(attempt(a.follows, b), e2 <= s1, "follows", Span.follows)
        ov = s1 < e2 and s2 < e1
        S.expect(attempt(a.overlaps, b), ov, "overlaps", Span.overlaps)
        lo, hi = max(s1, s2), min(e1, e2)
        none = lambda v: v is None  # noqa
        S.expect(attempt(a.intersection, b), (lambda v: iss(v, lo, hi)) if ov else none, "intersection", Span.intersection)
        S.expect(attempt(a.clip_to, b), (lambda v: iss(v, lo, hi)) if ov else none, "clip_to", Span.clip_to)
        S.expect(attempt(lambda: a == b), s1 == s2 and e1 == e2, "equality", Span)
        if s1 == s2 and e1 == e2:
            S.require(hash(a) == hash(b), "hash-agrees-with-eq")
        ml, mh = min(s1, s2), max(e1, e2)
        for mkit in (lambda: [a, b], lambda: (b, a), lambda: iter([a, b]), lambda: (x for x in (b, a)), lambda: {a, b}):
            S.expect(attempt(Span.minimal_enclosing_span, mkit()), lambda v: iss(v, ml, mh), "minimal_enclosing_span",
                     Span.minimal_enclosing_span)
        ka, kb = (attempt(Span.earliest_then_longest_first_key, x) for x in (a, b))
        if S.require(ka.ok and kb.ok, "sort-key"):
            S.require((ka.value < kb.value) == (s1 < s2 or (s1 == s2 and e1 > e2)), "sort-key",
                      lambda: "%r %r" % (a, b), Span.earliest_then_longest_first_key)
            S.require((ka.value == kb.value) == (s1 == s2 and e1 == e2), "sort-key")
        S.require(iss(a, s1, e1) and iss(b, s2, e2), "operands-unchanged")

    for lv in arrangements(4):
        if not (lv[0] < lv[1] and lv[2] < lv[3]):
            continue
        n = max(lv) + 1
        for gaps, z, pts in layouts(n, True, (1, 2, 3, 4) if run.thorough else (1, 2)):
            run.scenario("pair %s gaps %s zero %d" % (lv, gaps, z), lambda S, lv=lv, pts=pts: pair(S, lv, pts))

        for k, vals in enumerate(PLAIN):
            run.scenario("pair %s on numbers %d" % (lv, k), lambda S, lv=lv, vals=vals: pair(S, lv, vals))

    def single(S, s, e):
        o = attempt(Span, s, e)
        if not S.expect(o, lambda v: iss(v, s, e), "constructed", Span):
            return
        a = o.value
        for i in (s - 1, s, s + 1, e - 1, e, e + 1):
            S.expect(attempt(a.contains_offset, i), s <= i and i < e, "contains_offset", Span.contains_offset)
            S.expect(attempt(lambda: i in a.as_range()), s <= i and i < e, "as_range", Span.as_range)
        r = attempt(a.as_range)
        S.expect(r, lambda v: v.lower_endpoint == s and v.upper_endpoint == e - 1 and v.lower_bound_type is BoundType.closed()
                 and v.upper_bound_type is BoundType.closed(), "as_range", Span.as_range)
        S.expect(attempt(slen, a), e - s, "length", Span.__len__)
        for d in (0, 1, -1, sym("d", 1), -sym("d", 1)) if not (type(s) is int and type(e) is int) else (0, 1, -1, -s, -e, 10 ** 20, -10 ** 6, 257):
            S.expect(attempt(a.shift, d), lambda v: iss(v, s + d, e + d), "shift", Span.shift)
        S.expect(attempt(Span.from_inclusive_to_exclusive, s, e), lambda v: iss(v, s, e), "constructed",
                 Span.from_inclusive_to_exclusive)
        S.expect(attempt(Span.minimal_enclosing_span, [a]), lambda v: iss(v, s, e), "minimal_enclosing_span")
        S.expect(attempt(setattr, a, "start", s - 1), Exception, "frozen", Span)
        S.expect(attempt(setattr, a, "end", e + 1), Exception, "frozen", Span)
        S.require(iss(a, s, e), "frozen")
        for bad in ((e, s), (s, s), (e, e)):
            S.expect(attempt(Span, *bad), ValueError, "empty-or-reversed-refused", Span)
            S.expect(attempt(Span.from_inclusive_to_exclusive, *bad), ValueError, "empty-or-reversed-refused", Span)
        for bad in ((str(tok(1)), e), (s, None), (None, e), (s, 1.5), (1.5, 9), (1.0, 9), ("1", 9), (1, "9"), (1, 9.0), (b"1", 9),
                    ([1], 9), (1, [9]), ("1", "9"), (1.0, 9.0)):
            S.expect(attempt(Span, *bad), (TypeError, ValueError), "non-integer-offset-refused", Span)
        for other in (None, Atom("x"), 3):
            S.expect(attempt(lambda: a == other), False, "equality", Span)

    for gaps, z, pts in layouts(2, True, (1, 3, 4)):
        run.scenario("single gaps %s zero %d" % (gaps, z), lambda S, pts=pts: single(S, *pts))
    for a, b in sorted({ab for vals in PLAIN for ab in itertools.combinations(vals, 2)}):
        if b - a < 2 ** 63:
            run.scenario("single from %d to %d" % (a, b), lambda S, a=a, b=b: single(S, a, b))

    def three(S, order, zero):
        ps = place(6, [1, 2, 1, 3, 1], zero)
        for s_, e_ in ((0, 5), (1, 4), (0, 3), (2, 5)):
            big = (ps[s_], ps[e_])
            for other in itertools.combinations([(0, 1), (1, 2), (2, 3), (1, 3), (3, 4), (4, 5), (2, 4)], 2):
                spans = [big] + [(ps[i], ps[j]) for i, j in other]
                spans = [spans[i] for i in order]
                ml, mh = spans[0]
                for x, y in spans[1:]:
                    ml, mh = min(ml, x), max(mh, y)
                for mk in (list, iter):
                    S.expect(attempt(Span.minimal_enclosing_span, mk([Span(*x) for x in spans])), lambda v: iss(v, ml, mh),
                             "minimal_enclosing_span", Span.minimal_enclosing_span)

    for order in itertools.permutations(range(3)):
        for zero in range(-1, 12):
            run.scenario("three spans in order %s zero %d" % (order, zero), lambda S, order=order, zero=zero: three(S, order, zero))

    def misc(S):
        S.expect(attempt(Span.minimal_enclosing_span, []), ValueError, "minimal_enclosing_span-empty-refused")
        S.expect(attempt(Span.minimal_enclosing_span, iter(())), ValueError, "minimal_enclosing_span-empty-refused")
        for n in (5, 11, 40, 150, 300, 1200):
            pts = [(i * 7919) % 10007 - 5000 for i in range(n)]
            spans = [Span(p, p + 1 + (i * 31) % 97) for i, p in enumerate(pts)]
            for ss in (spans, spans[::-1], sorted(spans, key=lambda x: x.end), sorted(spans, key=lambda x: -x.start)):
                lo, hi = min(x.start for x in ss), max(x.end for x in ss)
                for mk in (list, iter, set):
                    S.expect(attempt(Span.minimal_enclosing_span, mk(ss)), lambda v: iss(v, lo, hi), "minimal_enclosing_span",
                             Span.minimal_enclosing_span)

    run.scenario("no spans and many spans", misc, budget=20000000)

    def mixin(S, lv, pts):
        mod = env.LOADER.source("""
from attr import attrs, attrib
from vistautils.span import HasSpan, Span
@attrs(frozen=True)
class Item(HasSpan):
    name = attrib()
    span = attrib()
""", "scenario_item", "<scenario>")
        s1, e1, s2, e2 = (pts[i] for i in lv)
        it = mod.Item("n", Span(s1, e1))
        S.expect(attempt(lambda: it.start), s1, "mixin-delegates")
        S.expect(attempt(lambda: it.end), e1, "mixin-delegates")
        S.expect(attempt(it.contains_offset, s2), s1 <= s2 and s2 < e1, "mixin-delegates")
        S.expect(attempt(it.contains_span, Span(s2, e2)), s1 <= s2 and e2 <= e1, "mixin-delegates")

    for lv in arrangements(4):
        if lv[0] < lv[1] and lv[2] < lv[3]:
            n = max(lv) + 1
            for zero in range(-1, 2 * n):
                run.scenario("mixin %s zero %d" % (lv, zero), lambda S, lv=lv, n=n, zero=zero: mixin(
                    S, lv, place(n, [2, 1, 2][:n - 1], zero)))
            for k, vals in enumerate(PLAIN):
                run.scenario("mixin %s on numbers %d" % (lv, k), lambda S, lv=lv, vals=vals: mixin(S, lv, vals))


# --------------------------------------------------------------------------- C09
META["C09"] = dict(
    min_obligations=5000, workers=8,
    explanation="Both kinds of span index are built from every set of up to two items (sampled sets of three) over all spans "
                "between five symbolic offsets (adjacent or further apart) and every lookup with every query span is compared "
                "with the definition over the items.")

ITEM = """
from attr import attrs, attrib
from vistautils.span import HasSpan, Span
@attrs(frozen=True)
class Item(HasSpan):
    name = attrib()
    span = attrib()
"""


def c09(run):
    Span, Index = api(SPAN, "Span", "HasSpanIndex")
    run.anchor(Index.index, Index.index_disjoint)

    def q(S, spans, pts, falsy):
        mod = env.LOADER.source(ITEM if not falsy else ITEM + "    def __bool__(self):\n        return False\n",
                                "scenario_item", "<scenario>")
        items = [mod.Item("i%d" % n, Span(pts[a], pts[b])) for n, (a, b) in enumerate(spans)]
        disjoint = all(x[1] <= y[0] or y[1] <= x[0] for x, y in itertools.combinations(spans, 2))
        for it in (items, iter(items)):
            o = attempt(Index.index, it)
            if S.expect(o, lambda v: v is not None, "built", Index.index):
                look(S, o.value, items, spans, pts, Span, False)
                if len(items) > 1:
                    look(S, o.value, items, spans, pts, Span, False)
        for it in (items, iter(items), tuple(reversed(items))):
            o = attempt(Index.index_disjoint, it)
            if not disjoint:
                S.expect(o, ValueError, "overlapping-items-refused", Index.index_disjoint)
            elif S.expect(o, lambda v: v is not None, "disjoint-items-accepted", Index.index_disjoint):
                look(S, o.value, items, spans, pts, Span, True)
                if len(items) > 1:
                    look(S, o.value, items, spans, pts, Span, True)

    def look(S, ix, items, spans, pts, Span, single):
        n = len(pts)
        for a in range(n):
            for b in range(a + 1, n):
                g = Span(pts[a], pts[b])
                sel = lambda p: [it for it, sp in zip(items, spans) if p(sp)]  # noqa
                exact = sel(lambda t: t == (a, b))
                cont = sel(lambda t: t[0] <= a and b <= t[1])
                inside = sel(lambda t: a <= t[0] and t[1] <= b)
                ov = sel(lambda t: t[0] < b and a < t[1])
                pre = "disjoint-" if single else ""
                if single:
                    one = lambda want: (lambda v: v is None) if not want else (lambda v: v is want[0])  # noqa
                    S.expect(attempt(ix.get_exactly_matching, g), one(exact), pre + "exactly-matching")
                    S.expect(attempt(ix.get_containing, g), one(cont), pre + "containing")
                else:
                    S.expect(attempt(ix.get_exactly_matching, g), same(exact), pre + "exactly-matching")
                    S.expect(attempt(ix.get_containing, g), same(cont), pre + "containing")
                S.expect(attempt(ix.get_contained, g), same(inside), pre + "contained")
                S.expect(attempt(ix.get_overlapping, g), same(ov), pre + "overlapping")

    def same(want):
        return lambda v: len(list(v)) == len(want) and set(v) == set(want)

    n = 5
    pts_list = [place(n, g, z) for g, z in (((1, 1, 1, 1), -1), ((1, 2, 1, 2), -1), ((2, 1, 2, 2), 3), ((1, 1, 2, 1), 4), ((2, 1, 1, 2), 2),
                                           ((1, 2, 1, 1), 9))]
    sp = [(a, b) for a in range(n) for b in range(a + 1, n)]
    run.scenario("no items", lambda S: q(S, [], pts_list[1], False))
    for pi, pts in enumerate(pts_list):
        for s in sp:
            run.scenario("one item %s layout %d" % (s, pi), lambda S, s=s, pts=pts: q(S, [s], pts, True))
        for i, (s, t) in enumerate(itertools.product(sp, repeat=2)):
            if pi in (0, 3, 4, 5) and not run.thorough and (i + pi) % 3:
                continue
            run.scenario("two items %s %s layout %d" % (s, t, pi),
                         lambda S, s=s, t=t, pts=pts: q(S, [s, t], pts, False))
    trip = list(itertools.combinations_with_replacement(sp, 3))
    for i, t3 in enumerate(trip):
        if run.thorough or i % 2 == 0 or all(x[1] <= y[0] for x, y in zip(t3, t3[1:])):
            run.scenario("three items %s" % (t3,), lambda S, t3=t3, i=i: q(S, list(t3), pts_list[i % 6], False),
                         budget=2000000)
    for k, vals in enumerate(PLAIN):
        for i, (s, t) in enumerate(itertools.product(sp, repeat=2)):
            run.scenario("two items %s %s on numbers %d" % (s, t, k), lambda S, s=s, t=t, vals=vals: q(S, [s, t], vals[:5], False))
        for i, t3 in enumerate(trip):
            if i % 6 == k:
                run.scenario("three items %s on numbers %d" % (t3, k), lambda S, t3=t3, vals=vals: q(S, list(t3)[::-1], vals[2:], False))
    if run.thorough:
        for i, t4 in enumerate(itertools.combinations_with_replacement(sp, 4)):
            if i % 2 == 0 or all(x[1] <= y[0] for x, y in zip(t4, t4[1:])):
                run.scenario("four items %s" % (t4,), lambda S, t4=t4, i=i: q(S, [t4[k] for k in (2, 0, 3, 1)], pts_list[i % 6], False),
                             budget=2000000)

    # different items that look the same, or that are alike but for one part
    def twins(S, kind):
        Span_ = Span
        body = {"str": "    def __str__(self):\n        return 'x'\n    __repr__ = __str__\n",
                "hash": "    def __hash__(self):\n        return 7\n", "bool": "    def __bool__(self):\n        return self.name == 'a'\n",
                "len": "    def __len__(self):\n        return 0\n"}[kind]
        mod = env.LOADER.source(ITEM.replace("@attrs(frozen=True)", "@attrs(frozen=True%s)" % {
            "str": ", repr=False", "hash": ", hash=False"}.get(kind, "")) + body, "scenario_item", "<scenario>")
        a, b, c = (mod.Item(n_, Span_(*sp_)) for n_, sp_ in (("a", (2, 5)), ("b", (2, 5)), ("a", (5, 6))))
        S.expect(attempt(Index.index_disjoint, [a, b]), ValueError, "overlapping-items-refused", Index.index_disjoint)
        S.expect(attempt(Index.index_disjoint, [b, c, a]), ValueError, "overlapping-items-refused", Index.index_disjoint)
        S.expect(attempt(Index.index_disjoint, [a, c, a]), lambda v: v is not None, "disjoint-items-accepted", Index.index_disjoint)
        look(S, Index.index([a, b, c]), [a, b, c], [(2, 5), (2, 5), (5, 6)], list(range(8)), Span_, False)
        look(S, Index.index_disjoint([c, b]), [c, b], [(5, 6), (2, 5)], list(range(8)), Span_, True)

    for kind in ("str", "hash", "bool", "len"):
        run.scenario("items alike: %s" % kind, lambda S, kind=kind: twins(S, kind), budget=2000000)

    # distinct items which are equal and have the same span
    def copies(S, pts):
        mod = env.LOADER.source(ITEM, "scenario_item", "<scenario>")
        mk = lambda n_, a, b: mod.Item(n_, Span(pts[a], pts[b]))  # noqa
        for items in ([mk("a", 1, 2), mk("a", 1, 2)], [mk("a", 1, 2), mk("b", 2, 3), mk("a", 1, 2)],
                      [mk("a", 0, 1), mk("b", 3, 4), mk("b", 3, 4), mk("a", 0, 1)]):
            o = attempt(Index.index_disjoint, items)
            if not S.expect(o, lambda v: v is not None, "disjoint-items-accepted", Index.index_disjoint):
                continue
            ix = Index.index(items)
            for it in items:
                S.expect(attempt(o.value.get_exactly_matching, it.span), lambda v: v == it, "equal-items-get_exactly_matching")
                S.expect(attempt(ix.get_exactly_matching, it.span), lambda v: set(v) == {it}, "equal-items-get_exactly_matching")
                S.expect(attempt(o.value.get_overlapping, it.span), lambda v: set(v) == {it}, "equal-items-get_overlapping")
            bad = items + [mk("c", 0, 3)]
            S.expect(attempt(Index.index_disjoint, bad), ValueError, "overlapping-items-refused", Index.index_disjoint)

    for k, pts in enumerate(pts_list[:3]):
        run.scenario("distinct equal items with one span, %d" % k, lambda S, pts=pts: copies(S, pts))

    # items which are equal although their spans differ
    def alike(S, spans, pts):
        mod = env.LOADER.source(ITEM.replace("span = attrib()", "span = attrib(eq=False, hash=False)"), "scenario_item",
                                "<scenario>")
        items = [mod.Item("same", Span(pts[a], pts[b])) for a, b in spans]
        ix, dx = Index.index(items), attempt(Index.index_disjoint, items)
        if not S.expect(dx, lambda v: v is not None, "disjoint-items-accepted", Index.index_disjoint):
            return
        dx = dx.value
        for a, b in itertools.combinations(range(len(pts)), 2):
            g = Span(pts[a], pts[b])
            sel = lambda p: [it for it, sp in zip(items, spans) if p(sp)]  # noqa
            for i, single in ((ix, False), (dx, True)):
                for name, want in (("get_exactly_matching", sel(lambda t: t == (a, b))),
                                   ("get_containing", sel(lambda t: t[0] <= a and b <= t[1])),
                                   ("get_contained", sel(lambda t: a <= t[0] and t[1] <= b)),
                                   ("get_overlapping", sel(lambda t: t[0] < b and a < t[1]))):
                    if single and name in ("get_exactly_matching", "get_containing"):
                        S.expect(attempt(getattr(i, name), g), (lambda v: v is want[0]) if want else (lambda v: v is None),
                                 "equal-items-" + name)
                    else:
                        # the items are equal: one of them stands for all
                        S.expect(attempt(getattr(i, name), g), lambda v: set(v) == set(want), "equal-items-" + name)

    for ti, t2 in enumerate([(s_, t_) for s_ in sp for t_ in sp if s_[1] <= t_[0]]):
        run.scenario("equal items %s" % (t2,), lambda S, t2=t2, ti=ti: alike(S, list(t2), pts_list[ti % 3]))

    # many items
    for count, width in ((12, 1), (12, 3), (25, 2)):
        def many(S, count=count, width=width):
            npts = 2 * count + 1
            pts = [3 * i - 7 + (i % 2) for i in range(npts)]
            spans = [(2 * i, min(2 * i + width, npts - 1)) for i in range(count)]
            order = spans[::2] + spans[::-2] if count % 2 == 0 else spans[::-1]
            order = list(dict.fromkeys(order))
            mod = env.LOADER.source(ITEM, "scenario_item", "<scenario>")
            items = [mod.Item("i%d" % k, Span(pts[a], pts[b])) for k, (a, b) in enumerate(order)]
            look(S, Index.index(items), items, order, pts, Span, False)
            if width <= 2:
                o = attempt(Index.index_disjoint, items)
                if S.expect(o, lambda v: v is not None, "disjoint-items-accepted", Index.index_disjoint):
                    look(S, o.value, items, order, pts, Span, True)
            else:
                S.expect(attempt(Index.index_disjoint, items), ValueError, "overlapping-items-refused", Index.index_disjoint)

        run.scenario("%d items of width %d" % (count, width), many, budget=80000000)


# --------------------------------------------------------------------------- C10
META["C10"] = dict(
    min_obligations=2000, workers=8,
    explanation="The markup formatter is evaluated on texts of distinct characters with every pair (sampled triples) of "
                "annotations, including ones sticking out of or outside the text window, with opaque labels; the output is "
                "parsed back and compared with the definition (text preserved, tags at the clipped offsets, nesting).")


def c10(run):
    A = "vistautils.annotated_text_utils"
    Fmt, Ann = api(A, "HTMLStyleAnnotationFormatter", "AnnotatedSpan")
    Span = api(SPAN, "Span")
    run.anchor(Fmt.annotated_text)
    TAG = re.compile("<(/?)([\ue000-\uf8ff]+)((?: [^<>]*)?)>")

    def parse(out):
        """-> (text, [(offset, is_end, label, attrs)])"""
        text, tags, i = "", [], 0
        while i < len(out):
            m = TAG.match(out, i)
            if m:
                tags.append((len(text), bool(m.group(1)), m.group(2), m.group(3)))
                i = m.end()
            else:
                text += out[i]
                i += 1
        return text, tags

    def go(S, text, base, anns, how, attrs=None, labels=None):
        lab = (lambda k: labels[k]) if labels else tok
        if base in (0, -9):
            text = "<\ud83d\ude00\u2028\U0001f600&\r>"[:len(text)]
        elif base == -2:
            text = "\r\n\n\t \udc80\r"[:len(text)]
        elif base == 5:
            text = " \t\r\n\x00\x85\n"[:len(text)]
        n = len(text)
        objs = []
        for k, (a, b) in enumerate(anns):
            at = (attrs or {}).get(k)
            at = at if at is None else immutabledict(list(at.items()))
            objs.append(Ann(lab(k), Span(a, b), at) if at is not None else Ann(lab(k), Span(a, b)))
        coll = objs if how == "list" else tuple(objs) if how == "tuple" else set(objs) if how == "set" else dict.fromkeys(
            objs).keys()
        snapshot = [(o.label, o.span.start, o.span.end) for o in objs]
        f = Fmt()
        if base is None:
            o = attempt(f.annotated_text, text, coll)
            base = 0
        else:
            o = attempt(f.annotated_text, text, coll, text_offsets=Span(base, base + n))
        if not S.expect(o, lambda v: isinstance(v, str), "renders", Fmt.annotated_text):
            return
        got, tags = parse(o.value)
        S.require(got == text, "text-preserved", lambda: "%r -> %r" % (text, o.value), Fmt.annotated_text)
        clipped = []
        for k, (a, b) in enumerate(anns):
            lo, hi = max(a, base) - base, min(b, base + n) - base
            if lo < hi:
                clipped.append((lab(k), (lo, hi)))
        starts = [(t[2], t[0]) for t in tags if not t[1]]
        ends = [(t[2], t[0]) for t in tags if t[1]]
        S.require(sorted(starts) == sorted((k, v[0]) for k, v in clipped), "start-tags-at-clipped-starts",
                  lambda: "%r for %r in %r" % (o.value, anns, (base, base + n)), Fmt.annotated_text)
        S.require(sorted(ends) == sorted((k, v[1]) for k, v in clipped), "end-tags-at-clipped-ends",
                  lambda: "%r for %r in %r" % (o.value, anns, (base, base + n)), Fmt.annotated_text)
        cl = [v for _, v in clipped]
        laminar = all(x[1] <= y[0] or y[1] <= x[0] or (x[0] <= y[0] and y[1] <= x[1]) or (y[0] <= x[0] and x[1] <= y[1])
                      for x, y in itertools.combinations(cl, 2))
        if laminar:
            st, good = [], True
            for _, end, name, _a in tags:
                if not end:
                    st.append(name)
                elif st and st[-1] == name:
                    st.pop()
                else:
                    good = False
            S.require(good and not st, "nestable-annotations-are-nested", lambda: "%r for %r" % (o.value, anns),
                      Fmt.annotated_text)
        else:
            S.require(all(not (p[0] == q[0] and not p[1] and q[1]) for p, q in zip(tags, tags[1:])),
                      "ends-before-starts", lambda: "%r" % o.value, Fmt.annotated_text)
        for k, at in (attrs or {}).items():
            for t in tags:
                if t[2] == lab(k) and not t[1]:
                    S.require(t[3] == "".join(' %s="%s"' % kv for kv in sorted(at.items())), "attributes-rendered",
                              lambda: "%r" % o.value, Fmt.annotated_text)
                elif t[1]:
                    S.require(t[3] == "", "end-tags-have-no-attributes")
        S.require(snapshot == [(x.label, x.span.start, x.span.end) for x in objs], "annotations-not-modified")

    n = 5 if run.thorough else 4
    text = "abcdefg"[:n]
    for base in (None, 0, 5, -2, -9):
        b0 = base or 0
        sp = [(a, b) for a in range(b0 - 2, b0 + n + 2) for b in range(a + 1, b0 + n + 3)]
        for a in sp:
            def row(S, a=a, base=base, sp=sp):
                go(S, text, base, [a], "list")
                for j, b in enumerate(sp):
                    go(S, text, base, [a, b], ("list", "tuple", "keys", "set")[j % 4])
                    go(S, text, base, [a, b], "list", labels=[tok(9), tok(3)])
                go(S, text, base, [a, a], "list", labels=[tok(4), tok(4)])
                go(S, text, base, [a, (b0, b0 + n), a], "tuple", labels=[tok(4), tok(6), tok(4)])

            run.scenario("annotations [%d:%d) with any other, base %s" % (a[0], a[1], base), row, budget=4000000)
    inner = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    for t3 in itertools.product(inner, repeat=3):
        def three(S, t3=t3):
            go(S, text, None, list(t3), "list")
            for labels in ((7, 5, 3), (5, 7, 3), (4, 4, 4), (4, 2, 4)):
                go(S, text, None, list(t3), "list", labels=[tok(x) for x in labels])

        run.scenario("annotations %s" % (t3,), three)
    if run.thorough:
        for t4 in itertools.combinations_with_replacement(inner, 4):
            run.scenario("annotations %s" % (t4,), lambda S, t4=t4: go(S, text, 5, [(a + 5, b + 5) for a, b in t4], "tuple"))

    def misc(S):
        f = Fmt()
        for t in ("", "a", "ab<c>"):
            S.expect(attempt(f.annotated_text, t, []), t, "text-preserved", Fmt.annotated_text)
        S.expect(attempt(f.annotated_text, "", [Ann(tok(0), Span(0, 3))]), "", "text-preserved")
        for n_, off in ((3, (0, 2)), (3, (0, 4)), (1, (5, 8))):
            S.expect(attempt(f.annotated_text, "abcdef"[:n_], [], text_offsets=Span(*off)), ValueError,
                     "wrong-offset-length-refused", Fmt.annotated_text)
        S.expect(attempt(f.annotated_text, "", [], text_offsets=Span(0, 2)), ValueError, "wrong-offset-length-refused")
        go(S, "abc", None, [(0, 2), (1, 2)], "list", {0: {}, 1: {"y": tok(7), "x": tok(8)}})
        go(S, "abc", None, [(0, 2), (1, 2)], "list", {0: {"x": ""}, 1: {"a": "1", "b": ""}})
        for t in ("a\r\nb", "\r", "ab\n", "\n\n", "  ", "\ufeffa", "a&lt;b", "%s{0}\\1", "\udc00x\ud800", "e\u0301\u00e9", "\ufeff\ufeff"):
            S.expect(attempt(f.annotated_text, t, []), t, "text-preserved", Fmt.annotated_text)
            go(S, t, None, [(0, len(t))], "list")
            go(S, t, 40, [(40, 41), (39, 40 + len(t))], "list")
        go(S, "abc", 7, [(6, 9), (8, 12)], "tuple", {0: {"k": tok(5)}, 1: {"b": tok(7), "a": tok(8), "c": tok(9)}})

        # the very same annotation given more than once is rendered as often
        one = Ann(tok(1), Span(1, 3))
        for coll in ([one, one], (one, one, one), [one, Ann(tok(2), Span(0, 3)), one], collections.deque([one, one])):
            o = attempt(f.annotated_text, "abcd", coll)
            S.expect(o, lambda v: v.count("<%s>" % tok(1)) == v.count("</%s>" % tok(1)) == sum(x is one for x in coll) and
                     parse(v)[0] == "abcd", "start-tags-at-clipped-starts", Fmt.annotated_text)

    run.scenario("corner cases", misc)

    def wide(S):
        text = "".join(chr(97 + i % 26) for i in range(3000))
        cuts = (0, 1, 1000, 1023, 1024, 1025, 2047, 2048, 2999, 3000)
        ends = [(a, b) for a, b in itertools.combinations(cuts, 2)]
        for a in ends:
            for b in [(0, 3000), (1, 3000), (0, 2999), (1024, 3000), (0, 1024), a]:
                for lab in ([tok(9), tok(3)], [tok(3), tok(9)]):
                    go(S, text, None, [a, b], "list", labels=lab)
        go(S, text, None, ends[:40], "list", labels=[tok(i) for i in range(40)])

    run.scenario("long texts", wide, budget=40000000)

    def many(S):
        # a good many annotations, nested in one another or side by side
        for n in (40, 130, 300):
            anns = [(i, 2 * n + 1 - i) for i in range(n)]
            for order in (anns, anns[::-1], anns[::2] + anns[1::2]):
                go(S, "x" * (2 * n + 1), None, order, "list", labels=[tok(1 + a) for a, _ in order])
            side = [(2 * i, 2 * i + 1 + i % 2) for i in range(n)]
            go(S, "y" * (2 * n + 1), None, side[::-1], "tuple", labels=[tok(1 + a) for a, _ in side])
            same = [(3, 7)] * n
            go(S, "z" * 9, None, same, "list", labels=[tok(i) for i in range(n)])

    run.scenario("many annotations", many, budget=40000000)
