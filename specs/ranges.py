"""Specifications of vistautils.range over order types.

A cut is represented in the oracle by an integer position: BelowAll=-1, just below endpoint r = 2r, just above = 2r+1,
AboveAll = 2m.  A range is a pair of positions; the value with rank r occupies the cell [2r, 2r+1].
"""
import copy
import itertools
from datetime import date
from decimal import Decimal
from fractions import Fraction

from absint.check import api, attempt
from absint.core import Unmodelled
from absint.values import Atom, OrdVal

R = "vistautils.range"
META = {}
SRC = ["vistautils/range.py"]


# concrete element types: neighbouring, awkward, falsy and extreme members of each, in increasing order
INF = float("inf")
KINDS = {
    "int": [-2, -1, 0, 1, 2, 3, 4], "bigint": [-2 ** 70, -2 ** 53 - 1, -2 ** 53, 2 ** 53, 2 ** 53 + 1, 2 ** 64, 10 ** 40],
    "str": ["", " ", " a", "A", "a", "a\x00", "a ", "b", "\u00e9"], "digits": ["-1", "0", "1", "10", "2", "9"],
    "float": [-INF, -1.5, -0.0, 5e-324, 0.5, 1e300, INF], "mixed": [-INF, -1, Fraction(-1, 2), 0, 0.5, 1, Decimal(2), 2 ** 80],
    "tuple": [(), (0,), (0, ""), (1,), (1, "a"), (1, "b")], "bytes": [b"", b"\x00", b" ", b"a", b"a\x00", b"\xff"],
    "date": [date(1, 1, 1), date(2020, 2, 28), date(2020, 2, 29), date(2020, 3, 1), date(9999, 12, 30), date(9999, 12, 31)],
    "bool": [False, True],
    "fraction": [Fraction(-1, 3), Fraction(0), Fraction(1, 10 ** 9), Fraction(1, 3), Fraction(1, 2), Fraction(7)],
    "decimal": [Decimal("-0.1"), Decimal("0"), Decimal("0.10"), Decimal("0.11"), Decimal("1E+3"), Decimal("Infinity")],
}
POINTS = [None]  # the concrete element type of the running scenario, or None: opaque points


def pt(r):
    return OrdVal(r) if POINTS[0] is None else POINTS[0][r]


def rk(v):
    if POINTS[0] is None:
        return v.rank
    for r, w in enumerate(POINTS[0]):
        if v is w:
            return r
    return POINTS[0].index(v)


def windows(m):
    """The concrete element types, seen through m neighbouring members each: the first, the last and the middle ones."""
    for kind, vals in sorted(KINDS.items()):
        for at in sorted({0, len(vals) - m, (len(vals) - m) // 2}):
            if 0 <= at <= len(vals) - m:
                yield kind, at


def over(kind, at, body):
    """The scenario body with its points drawn from a concrete element type."""
    def sc(S):
        POINTS[0] = KINDS[kind][at:]
        try:
            body(S)
        finally:
            POINTS[0] = None

    return sc


def cuts(m):
    return list(range(-1, 2 * m + 1))


def build(Range, lo, hi, m):
    """Build a range through its public factory from oracle positions (fresh endpoint objects)."""
    lv = None if lo == -1 else (pt(lo // 2), lo % 2 == 1)  # (endpoint, open?)
    uv = None if hi == 2 * m else (pt(hi // 2), hi % 2 == 0)
    if lv is None and uv is None:
        return Range.all()
    if lv is None:
        return (Range.less_than if uv[1] else Range.at_most)(uv[0])
    if uv is None:
        return (Range.greater_than if lv[1] else Range.at_least)(lv[0])
    f = {(True, True): Range.open, (False, False): Range.closed, (False, True): Range.closed_open,
         (True, False): Range.open_closed}[(lv[1], uv[1])]
    return f(lv[0], uv[0])


def show(lo, hi, m):
    a = "(-inf" if lo == -1 else "%sp%d" % ("(" if lo % 2 else "[", lo // 2)
    b = "+inf)" if hi == 2 * m else "p%d%s" % (hi // 2, "]" if hi % 2 else ")")
    return a + ".." + b


def inside(lo, hi, r):
    return lo <= 2 * r and 2 * r + 1 <= hi


def valid(lo, hi, m):
    return lo <= hi and lo != 2 * m and hi != -1 and not (lo % 2 == 1 and lo != -1 and hi < lo) and lo <= hi


def all_ranges(m):
    return [(lo, hi) for lo in cuts(m)[:-1] for hi in cuts(m)[1:] if lo <= hi]


def pos(rng, m):
    """Read a Range back through its public accessors into oracle positions."""
    BoundType = api(R, "BoundType")
    if rng.has_lower_bound():
        lo = 2 * rk(rng.lower_endpoint) + (1 if rng.lower_bound_type is BoundType.open() else 0)
    else:
        lo = -1
    if rng.has_upper_bound():
        hi = 2 * rk(rng.upper_endpoint) + (0 if rng.upper_bound_type is BoundType.open() else 1)
    else:
        hi = 2 * m
    return lo, hi


def unpickle(x, proto):
    """What pickle does with a value under the given protocol, through the reduce methods the value offers."""
    r = x.__reduce_ex__(proto)
    if isinstance(r, str):
        return x
    y = r[0](*r[1])
    state = r[2] if len(r) > 2 else None
    if state is not None:
        if hasattr(y, "__setstate__"):
            y.__setstate__(state)
        else:
            d, slots = state if isinstance(state, tuple) and len(state) == 2 else (state, None)
            for k, v in itertools.chain((d or {}).items(), (slots or {}).items()):
                object.__setattr__(y, k, v)
    return y


def mixed(n, m, step):
    """n members over m ranks in a fixed irregular arrangement: neighbours, gaps, singletons, every bound kind."""
    out, at, x = [], 0, 7 * step + n
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2147483648
        lo = at + 1 + (x >> 8) % 3
        hi = lo + 1 + (x >> 16) % 4
        if hi >= 2 * m:
            break
        out.append((lo, hi))
        at = hi
    return out


# --------------------------------------------------------------------------- C01
META["C01"] = dict(
    exhaustive=True, min_obligations=400,
    explanation="Abstract interpretation of every Range factory, __contains__ and accessor over order types: endpoints and "
                "probe values are opaque points known only by their relative order, all order types of two endpoints and one "
                "probe are enumerated, so the verdict covers every totally ordered element type.")


def c01(run):
    Range, BoundType = api(R, "Range", "BoundType")
    run.anchor(Range.open, Range.closed, Range.closed_open, Range.open_closed, Range.less_than, Range.at_most,
               Range.greater_than, Range.at_least, Range.all, Range.__contains__, Range.is_empty)
    m = 7  # ranks 0..6: two endpoints and the probe in every relative position

    def check_rng(S, rng, lo, hi, name):
        for r in range(m):
            o = attempt(lambda: OrdVal(r) in rng)
            S.expect(o, inside(lo, hi, r), "membership", Range.__contains__)
        S.expect(attempt(lambda: None in rng), ValueError, "none-membership-rejected", Range.__contains__)
        S.expect(attempt(rng.is_empty), lo == hi, "is_empty", Range.is_empty)
        S.expect(attempt(rng.has_lower_bound), lo != -1, "has_lower_bound")
        S.expect(attempt(rng.has_upper_bound), hi != 2 * m, "has_upper_bound")
        if lo != -1:
            S.expect(attempt(lambda: rng.lower_endpoint), OrdVal(lo // 2), "lower_endpoint")
            S.expect(attempt(lambda: rng.lower_bound_type),
                     lambda v: v is (BoundType.open() if lo % 2 else BoundType.closed()), "lower_bound_type")
        else:
            S.expect(attempt(lambda: rng.lower_endpoint), ValueError, "lower_endpoint-absent")
        if hi != 2 * m:
            S.expect(attempt(lambda: rng.upper_endpoint), OrdVal(hi // 2), "upper_endpoint")
            S.expect(attempt(lambda: rng.upper_bound_type),
                     lambda v: v is (BoundType.closed() if hi % 2 else BoundType.open()), "upper_bound_type")
        else:
            S.expect(attempt(lambda: rng.upper_endpoint), ValueError, "upper_endpoint-absent")

    two = [("open", 1, 0), ("closed", 0, 1), ("closed_open", 0, 0), ("open_closed", 1, 1)]
    for fname, lk, uk in two:
        for a in range(1, 6, 2):
            for b in range(1, 6, 2):
                def sc(S, fname=fname, lk=lk, uk=uk, a=a, b=b):
                    lo, hi = 2 * a + lk, 2 * b + uk
                    o = attempt(getattr(Range, fname), OrdVal(a), OrdVal(b))
                    if b < a or lo > hi:
                        S.expect(o, ValueError, "invalid-bounds-refused", getattr(Range, fname))
                        return
                    if S.expect(o, lambda v: isinstance(v, Range), "valid-bounds-accepted", getattr(Range, fname)):
                        check_rng(S, o.value, lo, hi, fname)

                run.scenario("%s(p%d,p%d)" % (fname, a, b), sc)
    one = [("less_than", -1, 0), ("at_most", -1, 1), ("greater_than", 1, None), ("at_least", 0, None)]
    for fname, x, y in one:
        for a in (1, 3, 5):
            def sc1(S, fname=fname, x=x, y=y, a=a):
                lo, hi = (-1, 2 * a + y) if x == -1 else (2 * a + x, 2 * m)
                o = attempt(getattr(Range, fname), OrdVal(a))
                if S.expect(o, lambda v: isinstance(v, Range), "valid-bounds-accepted", getattr(Range, fname)):
                    check_rng(S, o.value, lo, hi, fname)

            run.scenario("%s(p%d)" % (fname, a), sc1)

    def sall(S):
        check_rng(S, Range.all(), -1, 2 * m, "all")
        S.expect(attempt(lambda: BoundType.open().flip()), lambda v: v is BoundType.closed(), "flip")
        S.expect(attempt(lambda: BoundType.closed().flip()), lambda v: v is BoundType.open(), "flip")

    run.scenario("all()", sall)

    for kname, vals in KINDS.items():
        def conc(S, vals=vals):
            for (i, a), (j, b) in itertools.product(enumerate(vals), repeat=2):
                for fname, lk, uk in two:
                    lo, hi = 2 * i + lk, 2 * j + uk
                    o = attempt(getattr(Range, fname), a, b)
                    if lo > hi:
                        S.expect(o, ValueError, "invalid-bounds-refused", getattr(Range, fname))
                    elif S.expect(o, lambda v: isinstance(v, Range), "valid-bounds-accepted", getattr(Range, fname)):
                        probes(S, o.value, lo, hi, vals)
                        S.expect(attempt(repr, o.value), lambda v: isinstance(v, str), "printable", Range.__repr__)
                        S.expect(attempt(o.value.is_empty), lo == hi, "is_empty", Range.is_empty)
                        S.expect(attempt(lambda: o.value.lower_endpoint), lambda v: v is a, "lower_endpoint")
                        S.expect(attempt(lambda: o.value.upper_endpoint), lambda v: v is b, "upper_endpoint")
                        S.expect(attempt(o.value.has_lower_bound), True, "has_lower_bound")
                        S.expect(attempt(o.value.has_upper_bound), True, "has_upper_bound")
            for i, a in enumerate(vals):
                for fname, x, y in one:
                    lo, hi = (-1, 2 * i + y) if x == -1 else (2 * i + x, 2 * len(vals))
                    o = attempt(getattr(Range, fname), a)
                    if S.expect(o, lambda v: isinstance(v, Range), "valid-bounds-accepted", getattr(Range, fname)):
                        probes(S, o.value, lo, hi, vals)
                        S.expect(attempt(o.value.is_empty), False, "is_empty", Range.is_empty)
                        S.expect(attempt(o.value.has_lower_bound), x != -1, "has_lower_bound")
                        S.expect(attempt(o.value.has_upper_bound), x == -1, "has_upper_bound")

        def probes(S, rng, lo, hi, vals):
            for r, v in enumerate(vals):
                S.expect(attempt(lambda: v in rng), inside(lo, hi, r), "membership", Range.__contains__)
            S.expect(attempt(lambda: None in rng), ValueError, "none-membership-rejected", Range.__contains__)

        run.scenario("ranges of %s" % kname, conc, budget=8000000)


# --------------------------------------------------------------------------- C02
META["C02"] = dict(
    exhaustive=True, min_obligations=5000, workers=4,
    explanation="encloses, is_connected, equality, hash, span, intersection and create_spanning are evaluated on all pairs "
                "(and, for create_spanning, triples) of ranges over every order type of their endpoints and compared with "
                "the set-theoretic definition on cut positions.")


def c02(run):
    Range = api(R, "Range")
    run.anchor(Range.encloses, Range.is_connected, Range.span, Range.intersection, Range.__eq__, Range.__hash__,
               Range.create_spanning)
    m = 4
    rs, pairs = all_ranges(m), []
    for x in rs:
        for y in rs:
            def sc(S, x=x, y=y):
                a, b = build(Range, *x, m), build(Range, *y, m)
                S.expect(attempt(a.encloses, b), x[0] <= y[0] and y[1] <= x[1], "encloses", Range.encloses)
                conn = x[0] <= y[1] and y[0] <= x[1]
                S.expect(attempt(a.is_connected, b), conn, "is_connected", Range.is_connected)
                S.expect(attempt(lambda: a == b), x == y, "equality", Range.__eq__)
                S.expect(attempt(lambda: a != b), x != y, "inequality", Range.__eq__)
                h1, h2 = attempt(hash, a), attempt(hash, b)
                S.require(h1.ok and h2.ok and (x != y or h1.value == h2.value), "hash-agrees-with-eq",
                          lambda: "%r / %r" % (h1, h2), Range.__hash__)
                hull = (min(x[0], y[0]), max(x[1], y[1]))
                S.expect(attempt(a.span, b), lambda v: pos(v, m) == hull, "span", Range.span)
                o = attempt(a.intersection, b)
                if conn:
                    S.expect(o, lambda v: pos(v, m) == (max(x[0], y[0]), min(x[1], y[1])), "intersection",
                             Range.intersection)
                else:
                    S.expect(o, ValueError, "intersection-of-unconnected-refused", Range.intersection)
                for seq in ([a, b], (b, a)):
                    S.expect(attempt(Range.create_spanning, seq), lambda v: pos(v, m) == hull, "create_spanning",
                             Range.create_spanning)
                S.require(pos(a, m) == x and pos(b, m) == y, "operands-unchanged")

            run.scenario("%s vs %s" % (show(*x, m), show(*y, m)), sc)
            pairs.append(sc)
    for kind, at in windows(m):
        def conc(S):
            for sc in pairs:
                sc(S)

        run.scenario("pairs of ranges of %s from %d" % (kind, at), over(kind, at, conc), budget=80000000)

    def misc(S):
        S.expect(attempt(Range.create_spanning, []), ValueError, "create_spanning-empty-refused", Range.create_spanning)
        a = build(Range, 0, 1, 1)
        for other in (None, 0, "x", Atom("other"), (1, 2)):
            S.expect(attempt(lambda: a == other), False, "equality-with-non-range", Range.__eq__)
        for x, y, z in itertools.product([(-1, 2), (2, 5), (4, 4), (3, 8)], repeat=3):
            v = Range.create_spanning([build(Range, *t, 4) for t in (x, y, z)])
            S.require(pos(v, 4) == (min(x[0], y[0], z[0]), max(x[1], y[1], z[1])), "create_spanning-three")
        for op in ("_lower_bound", "_upper_bound"):
            o = attempt(setattr, a, op, 1)
            S.require(not o.ok or True, "range")

    run.scenario("corner cases", misc)

    def alike(S):
        """Equality and hash follow the endpoints, not how they print or which type they have."""
        same = [(1, 1.0), (1, True), (0, False), (0.0, -0.0), (2, Fraction(2)), (Decimal("0.5"), Decimal("0.50")), (5, Decimal(5))]
        other = [(1, "1"), ("a", b"a"), ((1,), "(1,)"), (date(2020, 1, 1), "2020-01-01"), (1, "1.0")]
        for x, y in same + other:
            eq = (x, y) in same and x == y
            for f in (Range.less_than, Range.at_most, Range.greater_than, Range.at_least, lambda v: Range.closed(v, v),
                      lambda v: Range.closed_open(v, v), lambda v: Range.open_closed(v, v)):
                a, b = f(x), f(y)
                S.expect(attempt(lambda: a == b), eq, "equality", Range.__eq__)
                S.expect(attempt(lambda: a != b), not eq, "inequality", Range.__eq__)
                h1, h2 = attempt(hash, a), attempt(hash, b)
                S.require(h1.ok and h2.ok and (not eq or h1.value == h2.value), "hash-agrees-with-eq",
                          lambda: "%r / %r for %r / %r" % (h1, h2, a, b), Range.__hash__)

    run.scenario("equality across element types", alike)
    for x in all_ranges(2):
        def rt(S, x=x):
            a = build(Range, *x, 2)
            b = copy.deepcopy(a)
            S.require(a == b and b == a and hash(a) == hash(b), "copy-equals-original", "a copied or unpickled range differs")
            S.require(pos(b, 2) == x, "copy-same-bounds")
            S.require(b.is_empty() == a.is_empty() and b.encloses(a) and a.encloses(b) and a.is_connected(b),
                      "copy-behaves-alike")
            for r in (0, 1):
                S.require((pt(r) in b) == inside(x[0], x[1], r), "copy-membership")
            c = copy.copy(a)
            S.require(a == c, "copy-equals-original")
            for proto in (0, 1, 2, 5):
                o = attempt(unpickle, a, proto)
                S.expect(o, lambda v: v == a and hash(v) == hash(a) and pos(v, 2) == x, "copy-equals-original")

        run.scenario("copy/unpickle of %s" % show(*x, 2), rt)
        for kind, at in windows(2):
            run.scenario("copy/unpickle of %s of %s from %d" % (show(*x, 2), kind, at), over(kind, at, rt))


# --------------------------------------------------------------------------- RangeSet
def union(ranges):
    """Canonical coalesced list of oracle ranges."""
    out = []
    for lo, hi in sorted(r for r in ranges if r[0] < r[1]):
        if out and lo <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return out


def states(m, k):
    """All canonical k-member sets over m ranks: strictly increasing cut positions."""
    for c in itertools.combinations(cuts(m), 2 * k):
        ms = [(c[2 * i], c[2 * i + 1]) for i in range(k)]
        yield ms


def wide_states(k):
    """k members on distinct ranks with unused ranks between and around, every bound kind at the ends."""
    m = 4 * k + 1
    base = [(4 * i + 1, 4 * i + 3) for i in range(k)]
    for kinds in itertools.product((0, 1), repeat=2):
        for lowinf in (False, True):
            for hiinf in (False, True):
                ms = [(2 * a + kinds[0], 2 * b + kinds[1]) for a, b in base]
                if lowinf:
                    ms[0] = (-1, ms[0][1])
                if hiinf:
                    ms[-1] = (ms[-1][0], 2 * m)
                yield m, ms


def mk_set(Range, RangeSet, ms, m):
    s = RangeSet.create_mutable()
    for x in ms:
        s.add(build(Range, *x, m))
    return s


def as_pos(s, m):
    return [pos(r, m) for r in s.as_ranges()]


META["C04"] = dict(
    min_obligations=5000, workers=8,
    explanation="Inductive step of the coalescing invariant: from every canonical set of up to 2 members over 5 endpoint "
                "ranks (all order types, all bound kinds) and 3-4 members on spread ranks, one add of every possible range "
                "is evaluated abstractly and must give exactly the canonical union; add_all, builders and clear reduce to it.")


def c04(run):
    Range, RangeSet, IRS = api(R, "Range", "RangeSet", "ImmutableRangeSet")
    run.anchor(RangeSet.create_mutable, RangeSet.create_mutable().add, RangeSet.create_mutable().add_all, IRS.builder)

    def step(S, ms, m, adds):
        for y in adds:
            s = mk_set(Range, RangeSet, ms, m)
            r = attempt(s.add, build(Range, *y, m))
            want = union(ms + [y])
            if not S.expect(r, lambda v: v is s, "add-returns-the-set", s.add):
                continue
            got = as_pos(s, m)
            S.require(got == want, "add-gives-canonical-union", lambda: "{%s} + %s = {%s}, expected {%s}" % (
                ", ".join(show(*t, m) for t in ms), show(*y, m), ", ".join(show(*t, m) for t in got),
                ", ".join(show(*t, m) for t in want)), s.add)
            S.require(len(s) == len(want) and s.is_empty() == (not want), "size-agrees")

    for k, m in ((0, 2), (1, 4), (2, 5 if not run.thorough else 6)):
        adds = all_ranges(m)
        for ms in states(m, k):
            run.scenario(lambda ms=ms, m=m: "add to {%s}" % ", ".join(show(*t, m) for t in ms),
                         lambda S, ms=ms, m=m, adds=adds: step(S, ms, m, adds), budget=4000000)
    for k in (3, 4) if not run.thorough else (3, 4, 5, 6):
        for m, ms in wide_states(k):
            adds = all_ranges(m)
            for j in range(4):
                run.scenario(lambda ms=ms, m=m, j=j: "add to {%s} part %d" % (", ".join(show(*t, m) for t in ms), j),
                             lambda S, ms=ms, m=m, adds=adds[j::4]: step(S, ms, m, adds), budget=40000000)

    for m in (3, 4):
        for kind, at in windows(m):
            def conc(S, m=m):
                for ms in itertools.chain(*(states(m, k) for k in (0, 1, 2)[:5 - m])):
                    step(S, ms, m, all_ranges(m))

            run.scenario("add to sets of %d %s from %d" % (m, kind, at), over(kind, at, conc), budget=80000000)

    # histories through the bulk operations
    m = 4
    some = [(-1, 1), (0, 3), (1, 2), (2, 2), (2, 4), (3, 6), (4, 5), (5, 8), (6, 7), (-1, 8)]
    bulks = []
    for seq in itertools.permutations(some, 3):
        def bulk(S, seq=seq):
            want = union(seq)
            rngs = [build(Range, *t, m) for t in seq]
            s = RangeSet.create_mutable()
            S.expect(attempt(s.add_all, rngs), lambda v: v is s, "add_all-returns-the-set", s.add_all)
            S.require(as_pos(s, m) == want, "add_all-is-repeated-add", lambda: "%r" % as_pos(s, m), s.add_all)
            s2 = RangeSet.create_mutable().add_all(s)
            S.require(as_pos(s2, m) == want, "add_all-of-a-range-set", "", s.add_all)
            s2.add(Range.all())
            S.require(as_pos(s, m) == want, "sets-share-nothing", "", s.add_all)
            s2.clear()
            S.require(as_pos(s, m) == want, "sets-share-nothing", "", s.add_all)
            s2 = RangeSet.create_mutable().add_all(s)
            s.add_all(s)
            S.require(as_pos(s, m) == want, "add_all-of-itself", lambda: "%r" % as_pos(s, m), s.add_all)
            s.add_all(s.as_ranges())
            S.require(as_pos(s, m) == want, "add_all-of-itself", lambda: "%r" % as_pos(s, m), s.add_all)
            s3 = RangeSet.create_mutable().add_all(iter(rngs))
            S.require(as_pos(s3, m) == want, "add_all-of-an-iterator", "", s.add_all)
            b = IRS.builder()
            S.require(b.add_all(rngs) is b, "builder-returns-itself")
            S.require(as_pos(b.build(), m) == want, "builder-gives-canonical-union")
            b2 = IRS.builder()
            for r in rngs:
                S.require(b2.add(r) is b2, "builder-returns-itself")
            S.require(as_pos(b2.build(), m) == want, "builder-gives-canonical-union")
            if want:
                S.expect(attempt(lambda: s.span), lambda v: pos(v, m) == (want[0][0], want[-1][1]), "span")
            frozen = s.immutable_copy()
            S.require(as_pos(IRS.builder().add_all(frozen.as_ranges()).build(), m) == want, "builder-gives-canonical-union")
            s4 = RangeSet.create_mutable().add_all(frozen)
            s4.add(Range.all())
            S.require(as_pos(frozen, m) == want, "sets-share-nothing", "", s.add_all)
            s.clear()
            S.require(as_pos(s2, m) == want, "sets-share-nothing", "", s.add_all)
            S.require(s.is_empty() and len(s) == 0 and as_pos(s, m) == [], "clear-empties", "", s.clear)
            S.require(not any(pt(i) in s for i in range(m)), "clear-empties", "", s.clear)
            s.add(rngs[0])
            S.require(as_pos(s, m) == union(seq[:1]), "usable-after-clear")

        run.scenario("bulk %s" % " ".join(show(*t, m) for t in seq), bulk, budget=2000000)
        bulks.append(bulk)
    for kind, at in windows(m):
        def cbulk(S):
            for b in bulks[::9]:
                b(S)

        run.scenario("bulk operations on %s from %d" % (kind, at), over(kind, at, cbulk), budget=80000000)

    # long histories: many members, adds of every length in an irregular order, clears in between
    for step_ in range(3 if not run.thorough else 12):
        def long(S, step_=step_):
            m, x, ms = 60, 99 + step_, []
            s, b = RangeSet.create_mutable(), IRS.builder()
            built = []
            for i in range(70):
                x = (x * 1103515245 + 12345) % 2147483648
                lo = (x >> 6) % (2 * m)
                hi = min(lo + (0, 1, 1, 2, 3, 5, 9, 40)[(x >> 20) % 8], 2 * m)
                if lo == 0 and i % 2:
                    lo = -1
                y = (lo, hi)
                s.add(build(Range, *y, m))
                b.add(build(Range, *y, m))
                ms.append(y)
                got = as_pos(s, m)
                S.require(got == union(ms), "add-gives-canonical-union", lambda: "after %d adds, the last %s: {%s}" % (
                    i + 1, show(*y, m), ", ".join(show(*t, m) for t in got)), s.add)
                built.append(y)
                if i in (30, 31, 55):
                    S.require(as_pos(b.build(), m) == union(built), "builder-gives-canonical-union")
                    s.clear()
                    S.require(as_pos(s, m) == [], "clear-empties", "", s.clear)
                    ms = []
                if i % 10 == 9 and union(ms):
                    S.require(pos(s.span, m) == (union(ms)[0][0], union(ms)[-1][1]), "span")
                    S.require(len(s) == len(union(ms)), "size-agrees")

        run.scenario("long history %d" % step_, long, budget=20000000)
    for n in (9, 20):
        def big(S, n=n):
            m = 4 * n
            for seed in range(2):
                ms = mixed(n, m, seed)
                for y in [(lo, hi) for k, (lo, hi) in enumerate(itertools.product(range(-1, 2 * m, 5), range(0, 2 * m + 1, 7)))
                          if lo <= hi]:
                    s = mk_set(Range, RangeSet, ms, m)
                    s.add(build(Range, *y, m))
                    S.require(as_pos(s, m) == union(ms + [y]), "add-gives-canonical-union", lambda: "{%s} + %s" % (
                        ", ".join(show(*t, m) for t in ms), show(*y, m)), s.add)

        run.scenario("add to sets of %d members" % n, big, budget=80000000)

    # bulk operations on more ranges than any limit
    for n in (70, 300):
        for order in range(3):
            def lots(S, n=n, order=order):
                m = 4 * n
                ms = [(8 * i + 2, 8 * i + 5 + i % 2) for i in range(n)]
                ms[-1] = (ms[-1][0], 2 * m)
                seq = (ms, ms[::-1], ms[::2] + ms[1::2] + ms[3:9])[order]
                rngs = [build(Range, *t, m) for t in seq]
                s = RangeSet.create_mutable()
                S.expect(attempt(s.add_all, rngs), lambda v: v is s, "add_all-returns-the-set", s.add_all)
                S.require(as_pos(s, m) == ms and len(s) == n, "add_all-is-repeated-add", lambda: "%d of %d ranges" % (len(s), n), s.add_all)
                S.require(as_pos(RangeSet.create_mutable().add_all(iter(rngs)), m) == ms, "add_all-of-an-iterator", "", s.add_all)
                S.require(as_pos(RangeSet.create_mutable().add_all(s), m) == ms, "add_all-of-a-range-set", "", s.add_all)
                b = IRS.builder().add_all(rngs)
                S.require(as_pos(b.build(), m) == ms, "builder-gives-canonical-union", "", IRS.builder)
                S.require(as_pos(IRS.builder().add_all(iter(rngs)).build(), m) == ms, "builder-gives-canonical-union", "", IRS.builder)
                S.require(as_pos(s.immutable_copy(), m) == ms and s.immutable_copy() == s, "copy-has-every-range", "", s.immutable_copy)
                S.require(s.encloses_all(rngs) and not s.encloses_all(rngs + [build(Range, 2, 9, m)]), "encloses_all", "", s.encloses_all)
                mid = ms[3:n - 3]
                g = build(Range, mid[0][0], mid[-1][1], m)
                S.require(sorted(pos(r, m) for r in s.ranges_enclosed_by(g)) == mid, "ranges_enclosed_by", "", s.ranges_enclosed_by)
                S.require(sorted(pos(r, m) for r in s.ranges_overlapping(g)) == mid, "ranges_overlapping", "", s.ranges_overlapping)
                s.add(g)
                S.require(as_pos(s, m) == union(ms + [(mid[0][0], mid[-1][1])]), "add-gives-canonical-union", "", s.add)
                s.clear()
                S.require(s.is_empty() and len(s) == 0 and as_pos(s, m) == [], "clear-empties", "", s.clear)

            run.scenario("bulk operations on %d ranges, order %d" % (n, order), lots, budget=80000000)

    # adding a whole range set to a set which has members already
    m = 4
    for i, a in enumerate(itertools.chain(states(m, 1), states(m, 2))):
        def merge(S, a=a):
            for b in itertools.chain(states(m, 0), states(m, 1), itertools.islice(states(m, 2), i % 7, None, 7)):
                want = union(list(a) + list(b))
                for frozen in (False, True):
                    x, y = mk_set(Range, RangeSet, a, m), mk_set(Range, RangeSet, b, m)
                    S.expect(attempt(x.add_all, y.immutable_copy() if frozen else y), lambda v: v is x, "add_all-returns-the-set", x.add_all)
                    S.require(as_pos(x, m) == want, "add_all-of-a-range-set", lambda: "%r and %r give %r" % (a, b, as_pos(x, m)), x.add_all)
                    S.require(as_pos(y, m) == list(b), "sets-share-nothing", "", x.add_all)

        run.scenario(lambda a=a: "add range sets to {%s}" % ", ".join(show(*t, m) for t in a), merge, budget=80000000)

    def thousands(S):
        n = 1200
        big = 4 * n
        ms = [(8 * i + 2, 8 * i + 5 + i % 2) for i in range(n)]
        s = mk_set(Range, RangeSet, ms, big)
        S.require(as_pos(s, big) == ms, "add-gives-canonical-union", "", s.add)
        frozen = s.immutable_copy()
        s.add(build(Range, ms[1][0], ms[-2][1], big))
        S.require(as_pos(s, big) == [ms[0], (ms[1][0], ms[-2][1]), ms[-1]], "add-gives-canonical-union", lambda: "%d ranges" % len(s), s.add)
        S.require(as_pos(frozen, big) == ms, "sets-share-nothing", "", s.immutable_copy)
        s.add_all(frozen)
        S.require(len(s) == 3, "add_all-of-a-range-set", "", s.add_all)
        t = RangeSet.create_mutable().add_all(frozen)
        t.clear()
        S.require(t.is_empty() and as_pos(t, big) == [] and as_pos(frozen, big) == ms, "clear-empties", "", s.clear)

    run.scenario("adds to sets of 1200 ranges", thousands, budget=80000000)

    def empty(S):
        s = RangeSet.create_mutable()
        S.require(s.is_empty() and len(s) == 0 and list(s.as_ranges()) == [], "new-set-empty")
        S.expect(attempt(lambda: s.span), ValueError, "span-of-empty-refused")
        e = IRS.builder().build()
        S.require(e.is_empty() and len(e) == 0, "new-set-empty")
        S.expect(attempt(lambda: e.span), ValueError, "span-of-empty-refused")

    run.scenario("empty set", empty)


META["C05"] = dict(
    min_obligations=5000, workers=8,
    explanation="Every query of RangeSet is evaluated abstractly on every canonical set of up to 2 members over all order "
                "types (3-4 members on spread ranks), for every probe value and every query range, and compared with the "
                "definition quantified over the members.")


def c05(run):
    Range, RangeSet = api(R, "Range", "RangeSet")
    probe = RangeSet.create_mutable()
    run.anchor(probe.__contains__, probe.range_containing, probe.encloses, probe.range_enclosing_range,
               probe.ranges_enclosed_by, probe.intersects, probe.ranges_overlapping,
               probe.rightmost_containing_or_below, probe.leftmost_containing_or_above)

    def q(S, ms, m, qs, ranks):
        mut = mk_set(Range, RangeSet, ms, m)
        for s in (mut, mut.immutable_copy()):
            ask(S, s, ms, m, qs, ranks)

    def ask(S, s, ms, m, qs, ranks):
        if True:
            for r in ranks:
                v = pt(r)
                hit = [x for x in ms if inside(x[0], x[1], r)]
                S.expect(attempt(lambda: v in s), bool(hit), "contains", s.__contains__)
                opt(S, attempt(s.range_containing, v), hit[0] if hit else None, "range_containing", m, s.range_containing)
                below = [x for x in ms if x[0] <= 2 * r]
                opt(S, attempt(s.rightmost_containing_or_below, v), below[-1] if below else None,
                    "rightmost_containing_or_below", m, s.rightmost_containing_or_below)
                above = [x for x in ms if x[1] >= 2 * r + 1]
                opt(S, attempt(s.leftmost_containing_or_above, v), above[0] if above else None,
                    "leftmost_containing_or_above", m, s.leftmost_containing_or_above)
            for y in qs:
                g = build(Range, *y, m)
                enc = [x for x in ms if x[0] <= y[0] and y[1] <= x[1]]
                S.expect(attempt(s.encloses, g), bool(enc), "encloses", s.encloses)
                opt(S, attempt(s.range_enclosing_range, g), enc[0] if enc else None, "range_enclosing_range", m,
                    s.range_enclosing_range)
                many(S, attempt(s.ranges_enclosed_by, g), [x for x in ms if y[0] <= x[0] and x[1] <= y[1]],
                     "ranges_enclosed_by", m, s.ranges_enclosed_by, y, ms)
                S.expect(attempt(s.intersects, g), any(max(x[0], y[0]) < min(x[1], y[1]) for x in ms), "intersects",
                         s.intersects)
                many(S, attempt(s.ranges_overlapping, g), [x for x in ms if x[0] <= y[1] and y[0] <= x[1]],
                     "ranges_overlapping", m, s.ranges_overlapping, y, ms)
            S.require(as_pos(s, m) == list(ms), "queries-do-not-modify")

    def opt(S, o, want, rule, m, at):
        if want is None:
            S.expect(o, lambda v: v is None, rule, at)
        else:
            S.expect(o, lambda v: v is not None and pos(v, m) == want, rule, at)

    def many(S, o, want, rule, m, at, y, ms):
        if not o.ok:
            S.expect(o, lambda v: True, rule, at)
            return
        got = sorted(pos(v, m) for v in o.value)
        S.require(got == want, rule, lambda: "query %s on {%s}: got {%s}, expected {%s}" % (
            show(*y, m), ", ".join(show(*t, m) for t in ms), ", ".join(show(*t, m) for t in got),
            ", ".join(show(*t, m) for t in want)), at)

    for k, m in ((0, 2), (1, 4), (2, 5 if not run.thorough else 6)):
        for ms in states(m, k):
            run.scenario(lambda ms=ms, m=m: "query {%s}" % ", ".join(show(*t, m) for t in ms),
                         lambda S, ms=ms, m=m: q(S, ms, m, all_ranges(m), range(m)), budget=40000000)
    for k in (3, 4) if not run.thorough else (3, 4, 5):
        for m, ms in wide_states(k):
            for j in range(4):
                run.scenario(lambda ms=ms, m=m, j=j: "query {%s} part %d" % (", ".join(show(*t, m) for t in ms), j),
                             lambda S, ms=ms, m=m, j=j: q(S, ms, m, all_ranges(m)[j::4], range(j, m, 4)), budget=80000000)

    for m in (3, 4):
        for kind, at in windows(m):
            def conc(S, m=m):
                for ms in itertools.chain(*(itertools.islice(states(m, k), k // 2, None, max(1, k)) for k in (0, 1, 2)[:5 - m])):
                    q(S, ms, m, all_ranges(m), range(m))

            run.scenario("query sets of %d %s from %d" % (m, kind, at), over(kind, at, conc), budget=80000000)

    # answers follow the set: every query again after each change, on the set and on the copies made before it
    def live(S, seq, m):
        s, ms, frozen = RangeSet.create_mutable(), [], []
        for y in seq:
            for _ in (0, 1):
                ask(S, s, ms, m, qs=all_ranges(m)[len(ms)::7], ranks=range(m))
            for f, at in frozen[-2:]:
                ask(S, f, at, m, qs=all_ranges(m)[len(at)::9], ranks=range(m))
            frozen.append((s.immutable_copy(), list(ms)))
            if y is None:
                s.clear()
                ms = []
            elif y == "bulk":
                s.add_all([build(Range, *t, m) for t in seq if isinstance(t, tuple)])
                ms = union(ms + [t for t in seq if isinstance(t, tuple)])
            else:
                s.add(build(Range, *y, m))
                ms = union(ms + [y])
        ask(S, s, ms, m, qs=all_ranges(m), ranks=range(m))

    m = 4
    some = [(0, 1), (0, 3), (1, 2), (2, 4), (3, 6), (5, 8), (6, 7), (-1, 1), (4, 5)]
    for n, (a, b, c) in enumerate(itertools.permutations(some, 3)):
        seq = [(a, b, None, c), (a, b, c, None, a), (a, None, "bulk", b, c), ("bulk", a, None, b)][n % 4]
        run.scenario(lambda seq=seq: "queries between changes %s" % " ".join(show(*t, 4) if isinstance(t, tuple) else str(t) for t in seq),
                     lambda S, seq=seq: live(S, seq, 4), budget=8000000)
    for kind, at in windows(4):
        def clive(S):
            for a, b, c in list(itertools.permutations(some, 3))[::40]:
                live(S, (a, b, None, c, b, "bulk"), 4)

        run.scenario("queries between changes on %s from %d" % (kind, at), over(kind, at, clive), budget=80000000)

    for n in (9, 17, 30):
        for part in range(4):
            def big(S, n=n, part=part):
                m = 4 * n
                ms = mixed(n, m, n)
                pts = list(range(-1, 2 * m + 1))
                qs = [(lo, hi) for i, lo in enumerate(pts[:-1]) for hi in pts[i::max(1, len(pts) // 9)]
                      if lo <= hi and hi != -1 and (lo + hi) % 4 == part]
                q(S, ms, m, qs[::1 if run.thorough or n < 30 else 3], range(part, m, 4))

            run.scenario("query %d members part %d" % (n, part), big, budget=80000000)

    def ea(S):
        m = 4
        ms = [(0, 3), (5, 8)]
        s = mk_set(Range, RangeSet, ms, m)
        for seq in itertools.product([(0, 1), (2, 3), (3, 5), (6, 7), (5, 8), (2, 2)], repeat=2):
            want = all(any(x[0] <= y[0] and y[1] <= x[1] for x in ms) for y in seq)
            S.expect(attempt(s.encloses_all, [build(Range, *y, m) for y in seq]), want, "encloses_all", s.encloses_all)
            S.expect(attempt(s.encloses_all, iter([build(Range, *y, m) for y in seq])), want, "encloses_all",
                     s.encloses_all)
            other = mk_set(Range, RangeSet, union(seq), m)
            S.expect(attempt(s.encloses_all, other), all(any(x[0] <= y[0] and y[1] <= x[1] for x in ms)
                                                         for y in union(seq)), "encloses_all", s.encloses_all)
        S.expect(attempt(s.encloses_all, []), True, "encloses_all", s.encloses_all)
        for ms in ([], [(-1, 8)], [(0, 5)], [(0, 7)], [(1, 4), (5, 8)]):
            s = mk_set(Range, RangeSet, ms, m)
            for k in (0, 1, 2, 3):
                for ys in states(m, k):
                    want = all(any(x[0] <= y[0] and y[1] <= x[1] for x in ms) for y in ys)
                    other = mk_set(Range, RangeSet, ys, m)
                    for t in (other, other.immutable_copy(), [build(Range, *y, m) for y in ys]):
                        S.expect(attempt(s.encloses_all, t), want, "encloses_all", s.encloses_all)

    run.scenario("encloses_all", ea, budget=40000000)

    def thousands(S, n):
        big = 4 * n
        ms = [(8 * i + 2, 8 * i + 5 + i % 2) for i in range(n)]
        s = mk_set(Range, RangeSet, ms, big)
        for t in (s, s.immutable_copy()):
            for y in ((-1, 2 * big), (ms[1][0], ms[-2][1]), (ms[n // 2][0] + 1, 2 * big), (-1, ms[n // 2][1] - 1), (ms[n // 3][0] - 1, ms[-n // 3][1] + 1)):
                g = build(Range, *y, big)
                many(S, attempt(t.ranges_enclosed_by, g), [x for x in ms if y[0] <= x[0] and x[1] <= y[1]], "ranges_enclosed_by", big,
                     t.ranges_enclosed_by, (0, 0), [])
                many(S, attempt(t.ranges_overlapping, g), [x for x in ms if x[0] <= y[1] and y[0] <= x[1]], "ranges_overlapping", big,
                     t.ranges_overlapping, (0, 0), [])
            ask(S, t, ms, big, [], [0, 1, 2, n, 2 * n + 1, 4 * n - 4, 4 * n - 3, 4 * n - 2, 4 * n - 1])
            if n > 500:
                continue  # (an implementation may take each range in turn)
            rngs = [build(Range, *x, big) for x in ms]
            for bad in (0, n // 2, n - 1):
                gone = rngs[:bad] + [build(Range, ms[bad][0], ms[bad][1] + 1, big)] + rngs[bad + 1:]
                for arg in (gone, iter(gone), RangeSet.create_mutable().add_all(gone)):
                    S.expect(attempt(t.encloses_all, arg), False, "encloses_all", s.encloses_all)
            for arg in (rngs, iter(rngs), s, s.immutable_copy()):
                S.expect(attempt(t.encloses_all, arg), True, "encloses_all", s.encloses_all)

    for n in (70, 300, 1100):
        run.scenario("query %d members" % n, lambda S, n=n: thousands(S, n), budget=80000000)
    for name in ("maximal_containing_or_below", "minimal_containing_or_above"):
        def dep(S, name=name):
            m = 5
            ms = [(2, 5), (7, 8)]
            s = mk_set(Range, RangeSet, ms, m)
            new = {"maximal_containing_or_below": "rightmost_containing_or_below",
                   "minimal_containing_or_above": "leftmost_containing_or_above"}[name]
            for r in range(m):
                S.require(getattr(s, name)(pt(r)) == getattr(s, new)(pt(r)), "deprecated-alias-agrees")

        run.scenario("alias " + name, dep)


META["C06"] = dict(
    min_obligations=1000, workers=4,
    explanation="Equality, hash, copying (the reduce protocol that pickling uses) and isolation of RangeSets are evaluated "
                "abstractly over all pairs of canonical sets of at most two members; aliasing between a mutable set, its "
                "immutable copies and its builder is decided by evaluating mutation after the copy.")


def c06(run):
    Range, RangeSet, IRS = api(R, "Range", "RangeSet", "ImmutableRangeSet")
    run.anchor(RangeSet.__eq__, RangeSet.__hash__, RangeSet.create_mutable().immutable_copy, IRS.builder)
    m = 3
    sts = [list(s) for k in (0, 1) for s in states(m, k)] + [list(s) for s in itertools.islice(states(m, 2), 0, None, 3)]
    concrete = []
    for i, a in enumerate(sts):
        def sc(S, a=a):
            x = mk_set(Range, RangeSet, a, m)
            xi = x.immutable_copy()
            for b in sts:
                y = mk_set(Range, RangeSet, list(reversed(b)), m)
                for p in (x, xi):
                    for q in (y, y.immutable_copy()):
                        S.expect(attempt(lambda: p == q), a == b, "equality", RangeSet.__eq__)
                        S.expect(attempt(lambda: p != q), a != b, "equality", RangeSet.__eq__)
                        if a == b:
                            hp, hq = attempt(hash, p), attempt(hash, q)
                            S.require(hp.ok and hq.ok and hp.value == hq.value, "hash-agrees-with-eq",
                                      lambda: "equal range sets hash as %r and %r" % (hp, hq), RangeSet.__hash__)
            h = attempt(hash, xi)
            S.require(h.ok and hash(xi) == h.value, "hash-stable", "", RangeSet.__hash__)
            for other in (None, 1, "x", [], tuple(x.as_ranges())):
                S.expect(attempt(lambda: x == other), False, "equality-with-other-type", RangeSet.__eq__)

        run.scenario("equality of {%s}" % ", ".join(show(*t, m) for t in a), sc, budget=8000000)
        concrete.append(sc)

        def cp(S, a=a):
            x = mk_set(Range, RangeSet, a, m)
            for orig in (x, x.immutable_copy()):
                c = copy.deepcopy(orig)
                S.require(c == orig and orig == c, "unpickled-equals-original", "", RangeSet.__eq__)
                S.require(as_pos(c, m) == a, "unpickled-same-ranges")
                S.require(c.is_empty() == (not a) and len(c) == len(a), "unpickled-same-size")
                for r in range(m):
                    S.require((pt(r) in c) == any(inside(t[0], t[1], r) for t in a), "unpickled-membership")
                for y in all_ranges(m):
                    g = build(Range, *y, m)
                    S.require(c.encloses(g) == orig.encloses(g) and c.intersects(g) == orig.intersects(g)
                              and sorted(pos(t, m) for t in c.ranges_enclosed_by(g))
                              == sorted(pos(t, m) for t in orig.ranges_enclosed_by(g)), "unpickled-queries")
                for proto in (0, 1, 2, 5):
                    o = attempt(unpickle, orig, proto)
                    if S.expect(o, lambda v: v == orig and orig == v and as_pos(v, m) == a, "unpickled-equals-original"):
                        S.require(o.value.is_empty() == (not a) and len(o.value) == len(a), "unpickled-same-size")
                        S.require(hash(o.value) == hash(orig), "unpickled-same-hash")
                        if hasattr(o.value, "add"):
                            o.value.add(Range.all())
                            S.require(as_pos(o.value, m) == [(-1, 2 * m)] and as_pos(orig, m) == a, "copies-independent")
            c = copy.deepcopy(x)
            for y in all_ranges(m)[::3]:
                c2 = copy.deepcopy(x)
                c2.add(build(Range, *y, m))
                S.require(as_pos(c2, m) == union(a + [y]), "unpickled-usable")
                S.require(as_pos(x, m) == a, "copies-independent")

        run.scenario("copy of {%s}" % ", ".join(show(*t, m) for t in a), cp, budget=8000000)
        concrete.append(cp)

        def iso(S, a=a):
            for y in all_ranges(m)[::2]:
                x = mk_set(Range, RangeSet, a, m)
                c1 = x.immutable_copy()
                x.add(build(Range, *y, m))
                S.require(as_pos(c1, m) == a, "immutable-copy-isolated", "", x.immutable_copy)
                S.require(as_pos(x, m) == union(a + [y]), "add-after-copy")
                c2 = x.immutable_copy()
                x.clear()
                S.require(as_pos(c1, m) == a and as_pos(c2, m) == union(a + [y]), "immutable-copy-isolated", "",
                          x.immutable_copy)
                b = IRS.builder()
                for t in a:
                    b.add(build(Range, *t, m))
                b1 = b.build()
                b.add(build(Range, *y, m))
                b2 = b.build()
                S.require(as_pos(b1, m) == a, "built-set-isolated-from-builder", "", IRS.builder)
                S.require(as_pos(b2, m) == union(a + [y]), "builder-reusable", "", IRS.builder)
                p1, p2 = RangeSet.create_mutable(), RangeSet.create_mutable()
                p1.add(build(Range, *y, m))
                S.require(p2.is_empty(), "fresh-sets-independent")
            i = mk_set(Range, RangeSet, a, m).immutable_copy()
            for name in ("add", "add_all", "clear", "remove"):
                S.require(not hasattr(i, name), "immutable-set-has-no-mutator", name)

        run.scenario("isolation of {%s}" % ", ".join(show(*t, m) for t in a), iso, budget=8000000)
        concrete.append(iso)
    for kind, at in windows(m):
        def conc(S, at=at):
            for sc in concrete[at::7]:
                sc(S)

        run.scenario("sets of %s from %d" % (kind, at), over(kind, at, conc), budget=80000000)

    def lots(S):
        n = 150
        big = 4 * n
        ms = [(8 * i + 2, 8 * i + 5 + i % 2) for i in range(n)]
        x, y = mk_set(Range, RangeSet, ms, big), mk_set(Range, RangeSet, ms[::-1], big)
        S.require(x == y and x.immutable_copy() == y and hash(x.immutable_copy()) == hash(y.immutable_copy()), "equality", "",
                  RangeSet.__eq__)
        for i in (0, n // 2, n - 1):
            z = mk_set(Range, RangeSet, ms[:i] + [(ms[i][0], ms[i][1] + 1)] + ms[i + 1:], big)
            S.require(x != z and z.immutable_copy() != x and not x == z, "equality", "", RangeSet.__eq__)
            z = mk_set(Range, RangeSet, ms[:i] + ms[i + 1:], big)
            S.require(x != z and z != x.immutable_copy(), "equality", "", RangeSet.__eq__)
        for orig in (x, x.immutable_copy()):
            for proto in (0, 2, 5):
                S.expect(attempt(unpickle, orig, proto), lambda v: v == orig and as_pos(v, big) == ms and len(v) == n,
                         "unpickled-equals-original")

    run.scenario("sets of 150 ranges", lots, budget=80000000)

    def thousands(S):
        n = 1100
        big = 4 * n
        ms = [(8 * i + 2, 8 * i + 5 + i % 2) for i in range(n)]
        x = mk_set(Range, RangeSet, ms, big)
        y, z = x.immutable_copy(), IRS.builder().add_all(x.as_ranges()).build()
        S.require(x == y and y == z and hash(y) == hash(z), "equality", "", RangeSet.__eq__)
        x.add(build(Range, ms[3][0], ms[-3][1], big))
        S.require(as_pos(y, big) == ms and as_pos(z, big) == ms and x != y, "copies-are-isolated", "", x.immutable_copy)
        S.expect(attempt(unpickle, y, 2), lambda v: v == y and as_pos(v, big) == ms, "unpickled-equals-original")

    run.scenario("sets of 1100 ranges", thousands, budget=80000000)


META["C07"] = dict(
    min_obligations=1000, workers=8,
    explanation="ImmutableRangeMap lookup, enclosed-by, rightmost/leftmost queries, construction checks, equality, hash and "
                "copying are evaluated abstractly over canonical key sets of at most three ranges in every order type and "
                "insertion order, with opaque values.")


def c07(run):
    Range, IRM, immutablerangemap = api(R, "Range", "ImmutableRangeMap", "immutablerangemap")
    run.anchor(immutablerangemap, IRM.__getitem__, IRM.get_enclosed_by, IRM.get_from_rightmost_containing_or_below,
               IRM.get_from_leftmost_containing_or_above, IRM.builder, IRM.__contains__)

    def mk(ms, m, how, vals):
        pairs = [(build(Range, *t, m), v) for t, v in zip(ms, vals)]
        if how == "builder":
            b = IRM.builder()
            for k, v in pairs:
                b.put(k, v)
            return b.build()
        if how == "iter":
            return immutablerangemap(iter(pairs))
        return immutablerangemap(pairs)

    def q(S, ms, m, how, perm, same=False):
        vals = [Atom("v%d" % (0 if same else i)) for i in range(len(ms))]
        by = dict(zip(ms, vals))
        keys = [ms[i] for i in perm]
        o = attempt(mk, keys, m, how, [by[k] for k in keys])
        if not S.expect(o, lambda v: isinstance(v, IRM), "constructed", immutablerangemap):
            return
        x = o.value
        for r in range(m):
            hit = [t for t in ms if inside(t[0], t[1], r)]
            S.expect(attempt(lambda: pt(r) in x), bool(hit), "contains", IRM.__contains__)
            val(S, attempt(lambda: x[pt(r)]), by[hit[0]] if hit else None, "getitem", IRM.__getitem__)
            below = [t for t in ms if t[0] <= 2 * r]
            val(S, attempt(x.get_from_rightmost_containing_or_below, pt(r)), by[below[-1]] if below else None,
                "rightmost", IRM.get_from_rightmost_containing_or_below)
            above = [t for t in ms if t[1] >= 2 * r + 1]
            val(S, attempt(x.get_from_leftmost_containing_or_above, pt(r)), by[above[0]] if above else None,
                "leftmost", IRM.get_from_leftmost_containing_or_above)
        for y in all_ranges(m):
            g = build(Range, *y, m)
            want = {by[t] for t in ms if y[0] <= t[0] and t[1] <= y[1]}
            S.expect(attempt(x.get_enclosed_by, g), lambda v: set(v) == want and len(v) == len(want), "get_enclosed_by",
                     IRM.get_enclosed_by)
        S.expect(attempt(x.is_empty), not ms, "is_empty")
        d = attempt(lambda: {pos(k, m): v for k, v in x.as_dict().items()})
        S.expect(d, by, "as_dict")

    def val(S, o, want, rule, at):
        if want is None:
            S.expect(o, lambda v: v is None, rule, at)
        else:
            S.expect(o, lambda v: v is want or v == want, rule, at)

    for k, m in ((0, 2), (1, 3), (2, 4)):
        for n, ms in enumerate(states(m, k)):
            ms = [tuple(t) for t in ms]
            for perm in itertools.permutations(range(k)):
                how = ("list", "builder", "iter")[n % 3]
                run.scenario(lambda ms=ms, m=m, perm=perm, how=how: "map %s order %s via %s" % (
                    ", ".join(show(*t, m) for t in ms), perm, how),
                    lambda S, ms=ms, m=m, how=how, perm=perm: q(S, ms, m, how, perm, same=(sum(perm) % 2 == 1 and perm[0] == 1)),
                    budget=8000000)
    for m, kmax in ((2, 2), (3, 2), (4, 2)):
        for kind, at in windows(m):
            def conc(S, m=m, at=at):
                for n, ms in enumerate(itertools.chain(*(states(m, k) for k in range(kmax + 1)))):
                    ms = [tuple(t) for t in ms]
                    if m < 4 or n % 3 == at % 3:
                        q(S, ms, m, ("list", "builder", "iter")[n % 3], list(range(len(ms)))[::1 if n % 2 else -1])

            run.scenario("maps of %d %s from %d" % (m, kind, at), over(kind, at, conc), budget=80000000)
    for j, (m, ms) in enumerate(wide_states(3)):
        for perm in itertools.permutations(range(3)):
            run.scenario("map of three %d %s" % (j, perm),
                         lambda S, ms=ms, m=m, perm=perm: q(S, ms, m, "list", perm), budget=80000000)

    for n in (70, 300):
        for how in ("list", "builder", "iter"):
            def lots(S, n=n, how=how):
                m = 4 * n
                ms = [(8 * i + 2, 8 * i + 5 + i % 2) for i in range(n)]
                by = {t: Atom("v%d" % i) for i, t in enumerate(ms)}
                keys = ms[::2] + ms[1::2]
                x = mk(keys, m, how, [by[k] for k in keys])
                S.require({pos(k, m): v for k, v in x.as_dict().items()} == by, "as_dict", "", immutablerangemap)
                for i, t in enumerate(ms):
                    r = (t[0] + t[1]) // 4
                    S.require(pt(r) in x and x[pt(r)] is by[t], "getitem", "", IRM.__getitem__)
                    S.require(x.get_from_rightmost_containing_or_below(pt(r + 2)) is by[t], "rightmost", "",
                              IRM.get_from_rightmost_containing_or_below)
                    S.require(pt(r + 2) not in x and x[pt(r + 2)] is None, "contains", "", IRM.__contains__)
                    if i:
                        S.require(x.get_from_leftmost_containing_or_above(pt(r - 2)) is by[t], "leftmost", "",
                                  IRM.get_from_leftmost_containing_or_above)
                S.require(set(x.get_enclosed_by(Range.all())) == set(by.values()), "get_enclosed_by", "", IRM.get_enclosed_by)
                y = mk(ms, m, "list", [by[k] for k in ms])
                S.require(x == y and hash(x) == hash(y), "equality")
                for bad in ((ms[n - 1][0] + 1, ms[n - 1][1]), (ms[n // 2][0] + 1, ms[n // 2][1] + 3)):
                    S.expect(attempt(mk, keys + [bad], m, how, [by[k] for k in keys] + [Atom("w")]), ValueError,
                             "connected-or-empty-keys-refused", immutablerangemap)

            run.scenario("map of %d ranges via %s" % (n, how), lots, budget=80000000)

    # construction is refused for connected or overlapping keys
    m = 3
    for a in all_ranges(m):
        def bad(S, a=a):
            for b in all_ranges(m):
                conn = a[0] <= b[1] and b[0] <= a[1]
                if a == b:
                    continue
                nonempty = a[0] < a[1] and b[0] < b[1]
                for how in ("list", "builder"):
                    o = attempt(mk, [a, b], m, how, [Atom("v0"), Atom("v1")])
                    if conn or not nonempty:
                        S.expect(o, ValueError, "connected-or-empty-keys-refused", immutablerangemap)
                    else:
                        S.expect(o, lambda v: not v.is_empty(), "disjoint-keys-accepted", immutablerangemap)
            if a[0] == a[1]:
                S.expect(attempt(mk, [a], m, "list", [Atom("v0")]), ValueError, "connected-or-empty-keys-refused",
                         immutablerangemap)

        run.scenario("two keys, first %s" % show(*a, m), bad, budget=4000000)
        for kind, at in windows(m):
            run.scenario("two keys, first %s of %s from %d" % (show(*a, m), kind, at), over(kind, at, bad), budget=4000000)
        if a[0] < a[1]:
            def eqh(S, a=a):
                v0, v1 = Atom("v0"), Atom("v1")
                x, y, z = (mk([a], m, "list", [v]) for v in (v0, Atom("v0"), v1))
                S.expect(attempt(lambda: x == y), True, "equality")
                S.expect(attempt(lambda: x == z), False, "equality")
                S.expect(attempt(lambda: x == immutablerangemap()), False, "equality")
                h1, h2 = attempt(hash, x), attempt(hash, y)
                S.require(h1.ok and h2.ok and h1.value == h2.value, "hash-agrees-with-eq",
                          lambda: "equal range maps hash as %r and %r" % (h1, h2))
                c = copy.deepcopy(x)
                S.expect(attempt(lambda: c == x), True, "unpickled-equals-original")
                for r in range(m):
                    S.require(c[pt(r)] == x[pt(r)], "unpickled-lookup")
                for value in (v0, None, 0, "", False, (), range(0)):
                    w = mk([a], m, "list", [value])
                    for proto in (0, 1, 2, 5):
                        o = attempt(unpickle, w, proto)
                        S.expect(o, lambda v: v == w and w == v and hash(v) == hash(w)
                                 and [(pos(k, m), y) for k, y in v.as_dict().items()] == [(a, value)], "unpickled-equals-original")
                    hit = [r for r in range(m) if inside(a[0], a[1], r)]
                    for r in hit:
                        S.expect(attempt(lambda: w[pt(r)]), lambda v: v is value, "getitem", IRM.__getitem__)
                        S.expect(attempt(lambda: pt(r) in w), True, "contains", IRM.__contains__)
                        for g in (w.get_from_rightmost_containing_or_below, w.get_from_leftmost_containing_or_above):
                            S.expect(attempt(g, pt(r)), lambda v: v is value, "nearest", g)
                    S.expect(attempt(lambda: list(w.get_enclosed_by(Range.all()))), [value], "get_enclosed_by", IRM.get_enclosed_by)
                for n in ("rng_to_val", "range_set", "extra"):
                    S.expect(attempt(setattr, x, n, None), Exception, "frozen")
                for other in (None, 3, {}, Atom("o")):
                    S.expect(attempt(lambda: x == other), False, "equality")

            run.scenario("equality/copy of map on %s" % show(*a, m), eqh)
            for kind, at in windows(m):
                run.scenario("equality/copy of map on %s of %s from %d" % (show(*a, m), kind, at), over(kind, at, eqh), budget=4000000)

    def em(S):
        for x in (immutablerangemap(), immutablerangemap([]), IRM.builder().build()):
            S.require(x.is_empty() and dict(x.as_dict()) == {}, "empty-map")
            S.require(pt(0) not in x and x[pt(0)] is None, "empty-map")
        S.require(immutablerangemap() == immutablerangemap([]), "equality")
        b = IRM.builder()
        b.put(build(Range, 0, 1, 2), Atom("a"))
        x = b.build()
        S.require(len(x.as_dict()) == 1, "builder")
        b.put(build(Range, 2, 3, 2), Atom("b"))
        y = b.build()
        S.require(len(y.as_dict()) == 2 and len(x.as_dict()) == 1, "builder")
        S.require(x[pt(0)] == Atom("a") and x[pt(1)] is None and y[pt(0)] == Atom("a") and y[pt(1)] == Atom("b"), "builder")
        S.require(IRM.builder().build().is_empty(), "builder")
        c = attempt(copy.deepcopy, immutablerangemap())
        S.expect(c, lambda v: v == immutablerangemap(), "unpickled-equals-original")

    run.scenario("empty map", em)
