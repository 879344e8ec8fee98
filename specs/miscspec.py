"""Specifications of the smaller modules: graph, iteration, preconditions, checkpoints, entry point, memory amounts, helpers."""
import collections
import itertools

from absint import env
from absint.check import api, attempt
from absint.core import M
from absint.values import tok
from absint.world import APath

META = {}
A, B, C = tok(0), tok(1), tok(2)


class Stop(Exception):
    pass


# --------------------------------------------------------------------------- C33
META["C33"] = dict(
    min_obligations=1000, workers=4,
    explanation="Every directed graph over at most three opaque nodes (loops included), and all acyclic and single-cycle "
                "shapes over four, in different node and edge orders, is sorted; the result must be a permutation of the nodes "
                "with every edge pointing forward, and exactly the cyclic graphs must be refused.")


def c33(run):
    Digraph, Err = api("vistautils._graph", "Digraph", "ParameterInterpolationError")
    run.anchor(Digraph.topological_sort, Digraph.in_degree)

    def cyclic(nodes, edges):
        above, below = {n: 0 for n in nodes}, {n: [] for n in nodes}
        for a, b in set(edges):
            above[b] += 1
            below[a].append(b)
        free = [n for n in above if not above[n]]
        for n in free:
            for m in below[n]:
                above[m] -= 1
                if not above[m]:
                    free.append(m)
        return len(free) < len(above)

    def go(S, nodes, edges):
        o = attempt(Digraph, nodes=nodes, edges=edges)
        if len(edges) % 2:
            conv = api("immutablecollections", "immutableset", "immutablesetmultidict")
            o = attempt(Digraph, nodes=conv[0](nodes), edges=conv[1](edges))
        if not S.expect(o, lambda g: True, "graph-built", Digraph.topological_sort):
            return
        g = o.value
        for i in range(2):
            got = []

            def sort():
                for n in g.topological_sort():
                    got.append(n)

            o = attempt(sort)
            if cyclic(nodes, edges):
                S.expect(o, Err, "cycle-refused", Digraph.topological_sort)
                S.require(len(set(got)) == len(got) and set(got) <= set(nodes), "each-node-once", "", Digraph.topological_sort)
            else:
                S.expect(o, lambda r: r is None, "sorted", Digraph.topological_sort)
                S.require(sorted(got, key=repr) == sorted(nodes, key=repr), "each-node-once", lambda: "%r of %r" % (got, nodes),
                          Digraph.topological_sort)
            pos = {n: k for k, n in enumerate(got)}
            S.require(all(pos[a] < pos[b] for a, b in edges if a in pos and b in pos) and
                      all(a in pos for a, b in edges if b in pos), "edges-point-forward",
                      lambda: "%r for %r" % (got, edges), Digraph.topological_sort)
        want = {n: 0 for n in nodes}
        for _, b in set(edges):
            want[b] += 1
        S.expect(attempt(lambda: dict(g.in_degree())), want, "in-degrees", Digraph.in_degree)
        S.expect(attempt(lambda: {n: g.in_degree()[n] for n in list(nodes)[:40]}), want if len(nodes) <= 40 else
                 (lambda v: all(want[k] == x for k, x in v.items())), "in-degrees", Digraph.in_degree)
        S.expect(attempt(lambda: {(b, a) for a, b in g.predecessors.items()}), set(edges), "predecessors-invert-edges")

    names = [tok(i) for i in (2, 0, 3, 1)]
    for n in (0, 1, 2, 3):
        pairs = list(itertools.product(range(n), repeat=2))
        for mask in range(1 << len(pairs)):
            edges = tuple((names[a], names[b]) for k, (a, b) in enumerate(pairs) if mask >> k & 1)
            run.scenario(lambda edges=edges, n=n: "%d nodes, edges %s" % (n, edges),
                         lambda S, edges=edges, n=n: go(S, tuple(names[:n]), edges))
    pairs = [(a, b) for a in range(4) for b in range(a)]
    for mask in range(1 << len(pairs)):
        edges = [(names[a], names[b]) for k, (a, b) in enumerate(pairs) if mask >> k & 1]

        def four(S, edges=edges):
            go(S, tuple(names), tuple(edges))
            go(S, tuple(reversed(names)), tuple(reversed(edges)))
            go(S, tuple(sorted(names)), tuple(edges) + ((names[1], names[3]),))

        run.scenario(lambda edges=edges: "four nodes, edges %s" % (edges,), four)

    names5 = [tok(i) for i in (2, 0, 4, 3, 1)] + [tok(7)]
    for size, step in ((5, 1 if run.thorough else 3), (6, 3 if run.thorough else 97)):
        pairs = [(a, b) for a in range(size) for b in range(a)]
        for mask in range(0, 1 << len(pairs), step):
            def bigger(S, mask=mask, pairs=pairs, size=size):
                edges = tuple((names5[a], names5[b]) for k, (a, b) in enumerate(pairs) if mask >> k & 1)
                go(S, tuple(names5[:size]), edges)
                if mask % 5 == 0:
                    go(S, tuple(names5[:size]), edges + ((names5[0], names5[size - 1]), (names5[size - 1], names5[1])))

            run.scenario(lambda mask=mask, size=size: "%d nodes, edges of number %d" % (size, mask), bigger)

    def shapes(S):
        N = ["n%02d" % i for i in range(40)]
        chain = list(zip(N, N[1:]))
        fan = [(N[0], x) for x in N[1:-1]] + [(x, N[-1]) for x in N[1:-1]]
        dense = [(a, b) for i, a in enumerate(N) for b in N[i + 1:] if (i * 7 + len(b)) % 3]
        two = chain[:18] + chain[20:]
        for es in (chain, fan, two, dense, [], chain[1:] + [(N[0], N[-1])]):
            for back in (None, (N[-1], N[0]), (N[30], N[5]), (N[25], N[24]), (N[7], N[7])):
                for f in (list, lambda x: list(reversed(x))):
                    go(S, tuple(f(N)), tuple(f(es + ([back] if back else []))))

    run.scenario("large graphs", shapes, budget=4000000)

    def wider(S):
        N = ["n%03d" % i for i in range(150)]
        for es in ([], [(N[0], x) for x in N[1:]], [(x, N[0]) for x in N[1:]], list(zip(N[:75], N[75:])), list(zip(N, N[1:])),
                   [(a, b) for a in N[:12] for b in N[12:]], [(a, b) for a in N[:130] for b in N[140:]],
                   list(zip(N, N[1:])) + [(N[-1], N[0])], list(zip(N[100:], N[101:])) + [(N[149], N[148])]):
            go(S, tuple(N), tuple(es))
            go(S, tuple(reversed(N)), tuple(reversed(es)))

    run.scenario("wide graphs", wider, budget=20000000)

    def huge(S):
        N = ["n%04d" % i for i in range(1200)]
        ring = list(zip(N, N[1:])) + [(N[-1], N[0])]
        for es in (list(zip(N, N[1:])), list(zip(N, N[1:])) + list(zip(N, N[2:])), [(a, b) for a, b in zip(N, reversed(N)) if a < b],
                   ring, list(zip(N[1000:], N[1001:])) + [(N[1199], N[1000])]):
            go(S, tuple(N), tuple(es))
            go(S, tuple(reversed(N)), tuple(es[::-1]))

    run.scenario("huge graphs", huge, budget=60000000)

    def misc(S):
        S.expect(attempt(Digraph, nodes=(A, B), edges=((A, C),)), Exception, "unknown-node-refused")
        S.expect(attempt(Digraph, nodes=(A, B), edges=((C, A),)), Exception, "unknown-node-refused")
        for odd in ("", " ", "%", "\n"):
            for es in (((A, odd),), ((odd, A),), ((odd, odd),), ((A, B), (A, odd)), ((odd, B), (A, B))):
                S.expect(attempt(Digraph, nodes=(A, B), edges=es), Exception, "unknown-node-refused")
                go(S, (A, odd, B), es)
        S.expect(attempt(lambda: list(Digraph().topological_sort())), [], "sorted")
        S.expect(attempt(lambda: sorted(Digraph(nodes=[A, B]).topological_sort())), sorted([A, B]), "sorted")
        g = Digraph(nodes=[A, B], edges=[(A, B), (A, B)])
        S.expect(attempt(lambda: list(g.topological_sort())), [A, B], "sorted")

    run.scenario("corner cases", misc)


# --------------------------------------------------------------------------- C34
META["C34"] = dict(
    min_obligations=1500, workers=2,
    explanation="Every iteration helper is evaluated on all inputs of up to six opaque items (None and falsy ones included), as "
                "lists, one-shot iterators and re-iterables, for all sizes up to seven; results, laziness and repeatability "
                "must follow the definitions.")


class Counted:
    """A one-shot iterator which counts what was taken."""

    def __init__(self, items):
        self.it = iter(items)
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        self.taken += 1
        return x


class Again:
    """Iterable any number of times, nothing else."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class AlwaysEqual:
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


def windows(items, w, partial):
    out = [tuple(items[i:i + w]) for i in range(max(0, len(items) - w + 1))]
    if partial:
        out = [tuple(items[i:i + w]) for i in range(len(items))]
    return out


def c34(run):
    drop, only, windowed, non_none = api("vistautils.iter_utils", "drop", "only", "windowed", "non_none")
    get_only = api("vistautils.collection_utils", "get_only")
    tile = api("vistautils.iterutils", "tile_with_pairs")
    run.anchor(drop, only, windowed, non_none, get_only, tile)
    POOLS = [[tok(i) for i in range(7)], [None] * 7, ["", None, A, None, 0, 0, False], [None, 0, "", A, None, False, ()], [AlwaysEqual() for _ in range(7)],
             [float("nan")] * 7, [float("nan"), Stop(), NotImplemented, Ellipsis, StopIteration(), type(None), ("",)],
             [[], {}, set(), b"", 0.0, 1 << 70, StopIteration]]

    def same(got, want):
        return len(got) == len(want) and all(len(x) == len(y) and all(a is b for a, b in zip(x, y)) if isinstance(y, tuple) and
                                             isinstance(x, tuple) and y != () else x is y for x, y in zip(got, want))

    for pi, pool in enumerate(POOLS):
        for n in range(7):
            items = pool[:n]

            def drops(S, items=items):
                for k in range(8):
                    want = items[k:]
                    S.expect(attempt(lambda: list(drop(items, k))), lambda v: same(v, want), "drop", drop)
                    S.expect(attempt(lambda: list(drop(Counted(items), k))), lambda v: same(v, want), "drop", drop)
                    S.expect(attempt(lambda: list(drop(tuple(items), k))), lambda v: same(v, want), "drop", drop)
                    o = attempt(drop, Again(items), k)
                    if S.expect(o, lambda v: not hasattr(v, "__next__"), "drop-of-iterable-is-iterable", drop):
                        for _ in range(2):
                            S.expect(attempt(list, o.value), lambda v: same(v, want), "drop-can-be-repeated", drop)
                    o = attempt(drop, Counted(items), k)
                    S.expect(o, lambda v: hasattr(v, "__next__"), "drop-of-iterator-is-iterator", drop)
                    if k < len(items):
                        c = Counted(items)
                        S.expect(attempt(lambda: next(iter(drop(c, k)))), lambda v: v is items[k], "drop", drop)
                        S.require(c.taken == k + 1, "drop-is-lazy", lambda: "%d taken" % c.taken, drop)

            def wins(S, items=items):
                for w in range(1, 8):
                    for partial in (False, True):
                        want = windows(items, w, partial)
                        for mk in (list, tuple, Counted):
                            S.expect(attempt(lambda: [tuple(x) for x in windowed(mk(items), w, partial_windows=partial)]),
                                     lambda v: same(v, want), "windowed", windowed)
                        o = attempt(windowed, Again(items), w, partial_windows=partial)
                        if S.expect(o, lambda v: not hasattr(v, "__next__"), "windows-of-iterable-are-iterable", windowed):
                            for _ in range(2):
                                S.expect(attempt(list, o.value), lambda v: same(v, want), "windows-can-be-repeated", windowed)
                        S.expect(attempt(windowed, Counted(items), w, partial_windows=partial),
                                 lambda v: hasattr(v, "__next__"), "windows-of-iterator-are-iterator", windowed)
                    S.expect(attempt(lambda: list(windowed(items, w))), lambda v: same(v, windows(items, w, False)), "windowed",
                             windowed)
                    if w <= len(items):
                        for partial in (False, True):
                            c = Counted(items)
                            S.expect(attempt(lambda: next(iter(windowed(c, w, partial_windows=partial)))),
                                     lambda v: same([v], [tuple(items[:w])]), "windowed", windowed)
                            S.require(c.taken == w, "windowed-is-lazy", lambda: "%d taken" % c.taken, windowed)
                S.expect(attempt(lambda: list(tile(items))), lambda v: same(v, windows(items, 2, False)), "pairs", tile)
                S.expect(attempt(lambda: list(tile(Counted(items)))), lambda v: same(v, windows(items, 2, False)), "pairs", tile)

            def onlys(S, items=items):
                for f in (only, get_only):
                    for mk in (list, tuple, Counted, Again, collections.deque):
                        o = attempt(f, mk(items))
                        if len(items) == 1:
                            S.expect(o, lambda v: v is items[0], "only-item", f)
                        else:
                            S.expect(o, (ValueError, LookupError), "not-exactly-one-refused", f)
                    c = Counted(items)
                    attempt(f, c)
                    S.require(c.taken <= 2, "only-looks-at-two-items", "", f)

            def nn(S, items=items):
                for mk in (list, Counted, Again):
                    S.expect(attempt(lambda: list(non_none(mk(items)))),
                             lambda v: same(v, [x for x in items if x is not None]), "non-none", non_none)
                c = Counted([A, None, B])
                S.expect(attempt(lambda: next(iter(non_none(c)))), lambda v: v == A, "non-none", non_none)
                S.require(c.taken <= 1, "non-none-is-lazy", "", non_none)

            for nm, f in (("drop", drops), ("windows", wins), ("only", onlys), ("non_none", nn)):
                run.scenario("%s, %d items of pool %d" % (nm, n, pi), f)

    def misc(S):
        S.expect(attempt(drop, [A], -1), ValueError, "negative-drop-refused", drop)
        S.expect(attempt(drop, iter([A]), -2), ValueError, "negative-drop-refused", drop)
        for w in (0, -1):
            for it in ([A], iter([A]), []):
                S.expect(attempt(windowed, it, w), ValueError, "empty-window-refused", windowed)
        for f in (only, get_only):
            S.expect(attempt(f, {A: B}), A, "only-item", f)
            S.expect(attempt(f, (x for x in [B])), B, "only-item", f)
            S.expect(attempt(f, (x for x in [])), (ValueError, LookupError), "not-exactly-one-refused", f)
            S.expect(attempt(f, itertools.count()), (ValueError, LookupError), "not-exactly-one-refused", f)
            S.expect(attempt(f, {A: 1, B: 2}.items()), (ValueError, LookupError), "not-exactly-one-refused", f)

            def boom():
                yield A
                raise Stop()

            S.expect(attempt(f, boom()), Stop, "errors-pass-through", f)
        S.expect(attempt(lambda: list(itertools.islice(windowed(itertools.count(), 2), 3))), [(0, 1), (1, 2), (2, 3)],
                 "windowed-is-lazy", windowed)
        S.expect(attempt(lambda: list(itertools.islice(drop(itertools.count(), 2), 2))), [2, 3], "drop-is-lazy", drop)
        src = [A, B, C]
        for n in (8, 10, 11, 12, 64, 100, 1001):
            for f in (only, get_only):
                for mk in (list, tuple, iter, range):
                    S.expect(attempt(f, mk(range(n)) if mk is not range else range(n)), (ValueError, LookupError),
                             "not-exactly-one-refused", f)
            for k in (0, 1, 5, n - 1, n, n + 1, 5 * n):
                S.expect(attempt(lambda: list(drop(list(range(n)), k))), list(range(n))[k:], "drop", drop)
                S.expect(attempt(lambda: list(drop(iter(range(n)), k))), list(range(n))[k:], "drop", drop)
            for w in (1, 2, 5, 7, n - 1, n, n + 1):
                for partial in (False, True):
                    S.expect(attempt(lambda: [tuple(x) for x in windowed(list(range(n)), w, partial_windows=partial)]),
                             windows(list(range(n)), w, partial), "windowed", windowed)
            S.expect(attempt(lambda: list(non_none([None, 0] * n))), [0] * n, "non-none", non_none)
        d = drop(src, 1)
        v = windowed(src, 2)
        src.append(A)
        S.expect(attempt(list, d), [B, C, A], "views-follow-their-iterable", drop)
        S.expect(attempt(list, v), [(A, B), (B, C), (C, A)], "views-follow-their-iterable", windowed)

    run.scenario("corner cases", misc, budget=8000000)


# --------------------------------------------------------------------------- C35
META["C35"] = dict(
    min_obligations=300,
    explanation="Every precondition function is evaluated on every kind of value (truthy and falsy values of each type) against "
                "every class specification; it must return its argument or raise exactly when its condition fails.")


def c35(run):
    names = ("check_not_none", "check_arg", "check_state", "check_args_are_none", "check_args_not_none", "check_isinstance",
             "check_opt_isinstance", "check_all_isinstance", "check_issubclass", "check_in")
    fns = dict(zip(names, api("vistautils.preconditions", *names)))
    run.anchor(*fns.values())
    VALUES = [None, 0, 1, "", A, 0.0, 1.5, False, True, [], [A], (), {}, b"", b"x", float("nan"), object(), int, AlwaysEqual()]
    CLASSES = [int, str, float, bool, list, dict, bytes, object, type(None), (int, str), (), (list, (dict, tuple)), type]

    def opt(f):
        def g(S):
            M.world.optimized = True
            f(S)

        return g

    def truth(S):
        for v in VALUES:
            for kw in ({}, {"msg": "m"}, {"msg": ""}):
                S.expect(attempt(fns["check_not_none"], v, **kw), ValueError if v is None else (lambda r: r is v), "check-not-none",
                         fns["check_not_none"])
                S.expect(attempt(fns["check_arg"], v, **kw), (lambda r: r is None) if v else ValueError, "check-arg",
                         fns["check_arg"])
                S.expect(attempt(fns["check_state"], v, **kw), (lambda r: r is None) if v else AssertionError, "check-state",
                         fns["check_state"])
            S.expect(attempt(fns["check_arg"], v, "m %s %s", (A, 1)), (lambda r: r is None) if v else ValueError, "check-arg",
                     fns["check_arg"])

    run.scenario("truth of values", truth)
    run.scenario("truth of values, assertions disabled", opt(truth))

    def nones(S):
        for n in range(4):
            for args in itertools.product([None, 0, A], repeat=n):
                for kw in ({}, {"msg": "m"}):
                    S.expect(attempt(fns["check_args_are_none"], *args, **kw),
                             (lambda r: r is None) if all(a is None for a in args) else ValueError, "check-args-are-none",
                             fns["check_args_are_none"])
                    S.expect(attempt(fns["check_args_not_none"], *args, **kw),
                             (lambda r: r is None) if all(a is not None for a in args) else ValueError, "check-args-not-none",
                             fns["check_args_not_none"])

        for args in ([[]], [[], []], [{}, {1}], [1, True, 1.0], [A, A], [float("nan")] * 2, [AlwaysEqual(), None], [None, AlwaysEqual()],
                     [AlwaysEqual()], [0, AlwaysEqual()], [AlwaysEqual(), A],
                     [[None]], [()], ["None"], [0] * 300 + [None], [None] * 300 + [0], [None] * 300, [0] * 300):
            S.expect(attempt(fns["check_args_are_none"], *args),
                     (lambda r: r is None) if all(a is None for a in args) else ValueError, "check-args-are-none")
            S.expect(attempt(fns["check_args_not_none"], *args),
                     (lambda r: r is None) if all(a is not None for a in args) else ValueError, "check-args-not-none")

    run.scenario("lists of arguments", nones)
    run.scenario("lists of arguments, assertions disabled", opt(nones))

    def classes(S):
        for v in VALUES:
            for c in CLASSES:
                ok = isinstance(v, c)
                S.expect(attempt(fns["check_isinstance"], v, c), (lambda r: r is v) if ok else TypeError, "check-isinstance",
                         fns["check_isinstance"])
                S.expect(attempt(fns["check_opt_isinstance"], v, c), (lambda r: r is v) if ok or v is None else TypeError,
                         "check-opt-isinstance", fns["check_opt_isinstance"])
        for vs in itertools.chain([()], [(v,) for v in VALUES], itertools.product(VALUES[:8], repeat=2)):
            for c in CLASSES:
                for mk in (list, iter):
                    S.expect(attempt(fns["check_all_isinstance"], mk(vs), c),
                             (lambda r: True) if all(isinstance(v, c) for v in vs) else TypeError, "check-all-isinstance",
                             fns["check_all_isinstance"])
        for a in CLASSES[:9] + [type]:
            for c in CLASSES:
                ok = issubclass(a, c)
                S.expect(attempt(fns["check_issubclass"], a, c), (lambda r: r is a) if ok else TypeError, "check-issubclass",
                         fns["check_issubclass"])
        S.expect(attempt(fns["check_issubclass"], 3, int), TypeError, "check-issubclass")
        for v in VALUES:
            for c in CLASSES:
                for n in range(3):
                    vs = VALUES[1:1 + n] + [v]
                    S.expect(attempt(fns["check_all_isinstance"], vs, c),
                             (lambda r: True) if all(isinstance(x, c) for x in vs) else TypeError, "check-all-isinstance",
                             fns["check_all_isinstance"])

    run.scenario("values and classes", classes, budget=3000000)
    run.scenario("values and classes, assertions disabled", opt(classes), budget=3000000)

    def member(S):
        for legal in ((), (A,), (A, B), ("", 0), (None,), [A, 1], {A, B}, {A: 1}, range(3), "ab", tuple("abcdefghijklmno")):
            for item in (A, B, C, 0, 1, 3, "", None, "a"):
                try:
                    want = item in legal
                except TypeError:
                    continue
                for kw in ({}, {"item_name": "it"}):
                    S.expect(attempt(fns["check_in"], item, legal, **kw), (lambda r: r is None) if want else ValueError, "check-in",
                             fns["check_in"])

    run.scenario("membership", member)
    run.scenario("membership, assertions disabled", opt(member))


# --------------------------------------------------------------------------- C36
META["C36"] = dict(
    min_obligations=1000, workers=2,
    explanation="All histories of up to four checkpoint operations (set, reset, re-open, an outside program's files) over opaque "
                "names and every state of the directory are evaluated; membership must follow the history and nothing outside "
                "the directory may change, also when one environment call fails.")


def c36(run):
    Cp = api("vistautils.checkpoints", "Checkpoints")
    run.anchor(Cp.from_directory)
    NAMES = [A, B, "x.y", " "]
    OPS = ["set a", "set b", "set dotted", "reset", "reopen"]

    def history(S, ops, state, how):
        w = M.world
        w.add_file("/other/keep", b"1")
        w.add_file("/cp2/" + A, b"1")
        if state != "absent":
            w.add_dir("/p/cp")
        done = set()
        if state == "used":
            w.add_file("/p/cp/" + B, b"")
            done.add(B)
        outside = {k: v for k, v in w.snapshot().items() if not k.startswith("/p")}
        arg = "/p/cp" if how == "str" else APath("/p/cp")
        o = attempt(Cp.from_directory, arg)
        if not S.expect(o, lambda c: w.isdir("/p/cp"), "directory-made", Cp.from_directory):
            return
        c = o.value
        for op in ops:
            if op.startswith("set"):
                n = {"a": A, "b": B, "dotted": "x.y"}[op.split()[1]]
                S.expect(attempt(c.set, n), lambda r: r is None, "set-works", c.set)
                done.add(n)
            elif op == "reset":
                S.expect(attempt(c.reset_all), lambda r: r is None, "reset-works", c.reset_all)
                done.clear()
            else:
                c = Cp.from_directory(arg)
            S.expect(attempt(lambda: {n for n in NAMES if n in c}), done, "membership-follows-history", c.__contains__)
        S.require({k: v for k, v in w.snapshot().items() if not k.startswith("/p")} == outside, "nothing-else-touched", "", c.set)
        S.require(w.isdir("/p/cp"), "directory-kept", "", c.reset_all)
        S.require(not w.leaked(), "everything-closed")

    for n in range(5 if run.thorough else 4):
        for ops in itertools.product(OPS, repeat=n):
            for state in ("absent", "empty", "used"):
                run.scenario(lambda ops=ops, state=state: "%s, directory %s" % (list(ops), state),
                             lambda S, ops=ops, state=state: history(S, ops, state, "path" if len(ops) % 2 else "str"))

    from specs.kvspec import AWKWARD
    awk = [n for n in AWKWARD if "/" not in n] + [" x", "x ", "X", "x", "\\", "a\\b", "x\n", "...", "~x", "#x#", "x.tmp", ".gitignore", "..x", "q" * 250,
                                                    "q" * 249, "q" * 249 + "r", "A.TXT", "A.txt", "a.TXT", "a.txt", "a.", "A", "a", "a.b.C", "\u00e9", "e\u0301", "\u00c9", "\u0130", "\u0131",
                                                    "%41", "a%2Fb", "a+b", "a b", "CON", "nul", "-rf", "*", "?", "[a]", "a:b", "1", "01", "a\tb"]

    def names(S, names):
        w = M.world
        c = Cp.from_directory("/p/cp")
        done = []
        for n in names:
            S.expect(attempt(lambda: n in c), False, "membership-follows-history", c.__contains__)
            S.expect(attempt(c.set, n), lambda r: r is None, "set-works", c.set)
            done.append(n)
            d = Cp.from_directory("/p/cp")
            S.expect(attempt(lambda: [x for x in names if x in d]), done, "membership-follows-history", c.__contains__)
        S.expect(attempt(c.reset_all), lambda r: r is None, "reset-works", c.reset_all)
        S.expect(attempt(lambda: [x for x in names if x in c]), [], "membership-follows-history", c.reset_all)
        S.require(w.children("/p/cp") == [], "reset-empties", lambda: "%r" % w.children("/p/cp"), c.reset_all)

    for i in range(0, len(awk), 10):
        run.scenario("awkward names %d" % i, lambda S, i=i: names(S, list(dict.fromkeys(awk[i:i + 10]))))

    def where(S, d, path):
        w = M.world
        w.add_dir("/w/sub")
        before = set(w.snapshot())
        c = attempt(Cp.from_directory, d)
        if not S.expect(c, lambda v: True, "directory-made", Cp.from_directory):
            return
        S.require(w.isdir(path), "directory-made", lambda: "%r" % sorted(w.snapshot()), Cp.from_directory)
        c = c.value
        S.expect(attempt(c.set, A), lambda r: r is None, "set-works", c.set)
        S.require(w.isfile(path.rstrip("/") + "/" + A), "file-in-the-directory", lambda: "%r" % sorted(w.snapshot()), c.set)
        new = set(w.snapshot()) - before
        S.require(all(path.startswith(x) or x == path.rstrip("/") + "/" + A for x in new), "nothing-else-touched", lambda: "%r" % new, c.set)
        S.expect(attempt(c.reset_all), lambda r: r is None, "reset-works", c.reset_all)
        S.require(w.isdir(path) and not w.children(path), "reset-empties", "", c.reset_all)

    for d, path in (("/p/cp ", "/p/cp "), (" ", "/w/ "), ("~", "/w/~"), ("$HOME/x", "/w/$HOME/x"), ("cp", "/w/cp"), ("a/b/c/", "/w/a/b/c"),
                    ("sub", "/w/sub"), ("./x", "/w/x"), ("/p/../q", "/q"), ("x.d", "/w/x.d"), ("/p//cp", "/p/cp"), ("\u00e4\n", "/w/\u00e4\n")):
        for mk in (str, APath):
            run.scenario("%s of %r" % (mk.__name__, d), lambda S, d=d, path=path, mk=mk: where(S, mk(d), path))

    def misc(S):
        w = M.world
        c = Cp.from_directory(APath("/p/cp"))
        for bad in (None, 3, b"x", APath("x")):
            S.expect(attempt(c.set, bad), TypeError, "names-are-strings", c.set)
            S.expect(attempt(lambda: bad in c), TypeError, "names-are-strings", c.__contains__)
        w.add_dir("/p/cp/" + A)
        S.expect(attempt(lambda: A in c), False, "directories-are-no-checkpoints", c.__contains__)
        w.add_file("/p/cp/sub/x", b"")
        S.expect(attempt(c.reset_all), lambda r: r is None, "reset-works", c.reset_all)
        S.require(w.children("/p/cp") == [], "reset-empties", lambda: "%r" % w.children("/p/cp"), c.reset_all)
        c2 = Cp.from_directory("/p/cp2")
        c.set(A)
        S.expect(attempt(lambda: (A in c, A in c2)), (True, False), "directories-are-independent", c.__contains__)
        w.add_file("/p/cp/" + B, b"content")
        c.set(B)
        S.require(w.content("/p/cp/" + B) == b"content", "set-keeps-contents", "", c.set)
        c2.reset_all()
        S.expect(attempt(lambda: A in c), True, "directories-are-independent", c.__contains__)
        w.add_file("/p/file", b"x")
        S.expect(attempt(Cp.from_directory, "/p/file"), OSError, "not-a-directory-refused", Cp.from_directory)
        S.require(w.content("/p/file") == b"x", "nothing-else-touched")

    run.scenario("corner cases", misc)

    def fault(S):
        w = M.world
        c = Cp.from_directory(APath("/p/cp"))
        c.set(B)
        w.faults = lambda op, p: True
        o = attempt(c.set, A)
        w.faults = None
        if w.fault_used:
            S.expect(o, OSError, "failures-reported", c.set)
        else:
            S.expect(attempt(lambda: A in c), True, "membership-follows-history", c.set)
        S.expect(attempt(lambda: B in c), True, "membership-follows-history", c.set)
        S.require(not w.leaked(), "everything-closed")

    run.scenario("one failure in set", fault)

    def fault2(S):
        w = M.world
        c = Cp.from_directory(APath("/p/cp"))
        c.set(B)
        w.faults = lambda op, p: True
        o = attempt(c.reset_all)
        w.faults = None
        if w.fault_used:
            S.expect(o, OSError, "failures-reported", c.reset_all)

    run.scenario("one failure in reset", fault2)


# --------------------------------------------------------------------------- C38
META["C38"] = dict(
    min_obligations=2000, workers=4,
    explanation="Every word of up to five symbols over the classes of characters the grammar distinguishes (digits, zero, space, "
                "each unit letter in both cases, the byte letter, a line end and an opaque other character) is parsed; exactly "
                "the words of the grammar may be accepted, with the amount and unit they spell.")


def c38(run):
    Amount, Unit = api("vistautils.memory_amount", "MemoryAmount", "MemoryUnit")
    run.anchor(Amount.parse, Unit.parse)
    UN = {"k": Unit.KILOBYTES, "m": Unit.MEGABYTES, "g": Unit.GIGABYTES, "t": Unit.TERABYTES}
    S1 = ["1", "0", " ", "k", "G", "m", "T", "b", "B", "\n", A, "-", ".", "+", "_"]

    def ref(w):
        i = 0
        while i < len(w) and w[i] in "0123456789":
            i += 1
        num, rest = w[:i], w[i:]
        if not num:
            return None
        if rest.startswith(" "):
            rest = rest[1:]
        if not rest or rest[0].lower() not in UN or rest[1:] not in ("", "b", "B"):
            return None
        if int(num) < 1:
            return None
        return int(num), UN[rest[0].lower()]

    def check(S, w):
        o = attempt(Amount.parse, w)
        want = ref(w)
        if want is None:
            S.expect(o, (RuntimeError, ValueError), "not-an-amount-refused", Amount.parse)
        else:
            S.expect(o, lambda a: (a.amount, a.unit) == want and type(a.amount) is int, "amount-and-unit", Amount.parse)

    for n in range(5 if run.thorough else 4):
        for pre in itertools.product(S1, repeat=n):
            def row(S, pre=pre):
                if not pre:
                    check(S, "")
                for last in S1:
                    check(S, "".join(pre) + last)

            run.scenario(lambda pre=pre: "words starting with %r" % "".join(pre), row)

    def longer(S):
        for num in ("+7", "1_0", "1e3", "0x1", "7.0", "1,000", "-7", "_1", "a1", "", "7", "10", "0", "00", "007", "123456789012345678901234567890"):
            for sp in ("", " ", "  ", "\t"):
                for u in "kKmMgGtTxX":
                    for b in ("", "b", "B", "bb", " b", "\n", "s", "ib"):
                        check(S, num + sp + u + b)
                        check(S, " " + num + sp + u + b)
                        check(S, num + sp + u + b + " ")

    run.scenario("longer words", longer, budget=4000000)

    def units(S):
        for u in ["q", "", "KB", " K", "K ", "B", "p"] + list("kmgtKMGT"):
            want = UN.get(u.lower())
            S.expect(attempt(Unit.parse, u), Exception if want is None else (lambda r: r is want), "unit", Unit.parse)
        for u in UN.values():
            for n in (1, 2, 1000):
                S.expect(attempt(Amount, n, u), lambda a: (a.amount, a.unit) == (n, u), "amount-and-unit")
            for n in (0, -1, 1.0, "1", None):
                S.expect(attempt(Amount, n, u), Exception, "illegal-amount-refused")
        a = Amount(3, Unit.KILOBYTES)
        S.require(a == Amount.parse("3K") and hash(a) == hash(Amount.parse("3 kb")) and a != Amount.parse("3M") and
                  a != Amount.parse("4K"), "amounts-are-values")
        S.expect(attempt(setattr, a, "amount", 5), AttributeError, "amounts-are-frozen")
        S.require(len({x for x in Unit}) == 4, "four-units")

    run.scenario("units and values", units)


# --------------------------------------------------------------------------- C39
META["C39"] = dict(
    min_obligations=1000, workers=2,
    explanation="The helper functions are evaluated on all lists, names and nestings up to small sizes of opaque items, and "
                "evaluation of expressions in every arrangement of context and modules; results must follow the definitions "
                "and arguments stay unchanged.")

HELP = """
VALUE = "u"
class Outer:
    class Inner:
        pass
def f():
    return VALUE
def g():
    class Local:
        class Deep:
            pass
    return Local
"""


def c39(run):
    sll, ev, pathify, strip, flat, WithId, Scored = api(
        "vistautils.misc_utils", "str_list_limited", "eval_in_context_of_modules", "pathify", "strip_extension",
        "flatten_once_to_list", "WithId", "Scored")
    fqn, fqnt = api("vistautils.class_utils", "fully_qualified_name", "fully_qualified_name_of_type")
    run.anchor(sll, ev, pathify, strip, flat, fqn, fqnt)

    for n in range(6):
        def lists(S, n=n):
            items = [A, 1, None, (B,), "x'"][:n]
            for limit in range(8):
                for mk in (list, tuple, iter, lambda x: (y for y in x), collections.deque):
                    o = attempt(sll, mk(items), limit)
                    if n <= limit:
                        S.expect(o, str(items), "short-lists-in-full", sll)
                    else:
                        shown = ", ".join(repr(x) for x in items[:limit])
                        S.expect(o, lambda v: v.startswith("[" + shown) and v.endswith("and %d more]" % (n - limit)) and
                                 not any(repr(x) in v for x in items[limit:] if x != 1), "long-lists-cut", sll)
                S.expect(attempt(sll, items, limit), lambda v: True, "short-lists-in-full")
                S.require(len(items) == n, "argument-unchanged", "", sll)
            S.expect(attempt(sll, items, -1), ValueError, "negative-limit-refused", sll)
            S.expect(attempt(sll, dict.fromkeys(items).keys(), 8), str(items), "short-lists-in-full", sll)

        run.scenario("lists of %d" % n, lists)

    def longer(S):
        items = [("i%d" % i if i % 3 else i) for i in range(400)]
        for n in (31, 101, 400):
            for limit in (0, 10, 30, 31, 32, 99, 100, 101, 250, 399, 400, 1000):
                for mk in (list, iter):
                    o = attempt(sll, mk(items[:n]), limit)
                    if n <= limit:
                        S.expect(o, str(items[:n]), "short-lists-in-full", sll)
                    else:
                        shown = ", ".join(repr(x) for x in items[:limit])
                        S.expect(o, lambda v: v.startswith("[" + shown) and v.endswith("and %d more]" % (n - limit)) and
                                 repr(items[limit]) not in v[len(shown) + 1:].split("and ")[0], "long-lists-cut", sll)
        big = ["x" * 5000, "y" * 70000, "z"]
        S.expect(attempt(sll, big, 3), str(big), "short-lists-in-full", sll)
        S.expect(attempt(sll, big, 2), lambda v: v.startswith(str(big[:2])[:-1]) and v.endswith("and 1 more]"), "long-lists-cut", sll)
        nest = [list(range(i, i + i % 5)) for i in range(600)] + [list(range(3000))]
        S.expect(attempt(flat, nest), [x for y in nest for x in y], "flattened-once", flat)
        S.expect(attempt(strip, "a" * 300 + "." + "b" * 300 + ".c"), "a" * 300 + "." + "b" * 300, "one-extension-stripped", strip)

    run.scenario("long lists", longer, budget=20000000)

    def names(S):
        for k in range(6):
            for parts in itertools.product(["a", ".", "b", "/"], repeat=k):
                s = "".join(parts)
                want = s[:s.rindex(".")] if "." in s else s
                S.expect(attempt(strip, s), want, "one-extension-stripped", strip)
        from specs.kvspec import AWKWARD
        for s in AWKWARD + ["a.b" + x for x in AWKWARD] + [x + ".tar.gz" for x in AWKWARD]:
            want = s[:s.rindex(".")] if "." in s else s
            S.expect(attempt(strip, s), want, "one-extension-stripped", strip)
        for p in ["~", "~/x", "~root/y", "$HOME/x", "${HOME}", "%HOME%", "C:\\x", "a\\b", "//a", "///a", "a/.", "..", "file:///x", "", A, "/" + A, "a/../b", "./x", "a//b", "a/"] + AWKWARD:
            S.expect(attempt(pathify, p), lambda v: isinstance(v, APath) and v == APath(p), "string-to-path", pathify)
            q = APath(p)
            S.expect(attempt(pathify, q), lambda v: v == q, "paths-unchanged", pathify)

    run.scenario("names", names, budget=2000000)

    def flats(S):
        for k in range(4):
            for lens in itertools.product(range(3), repeat=k):
                c = iter(range(99))
                nest = [[(next(c),) for _ in range(m)] for m in lens]
                want = [x for y in nest for x in y]
                for mk in (list, tuple, iter):
                    S.expect(attempt(flat, mk([mk(y) for y in nest])), lambda v: type(v) is list and v == want, "flattened-once",
                             flat)
                S.require([len(y) for y in nest] == list(lens), "argument-unchanged", "", flat)

        class Falsy(list):
            def __bool__(self):
                return False

        for nest in ([Falsy([A, B]), [C]], [[None, 0], [""], ["ab"]], [{}, {A: 1}], ["ab", ""], [[[A]], ([B],)]):
            S.expect(attempt(flat, nest), [x for y in nest for x in y], "flattened-once", flat)
        for nest in ({(1, "a"), (None,), ()}, {("b", 2), (b"", 1.5)}, frozenset([(0, None, "")]), {(1, "a"): 0, (None,): 0}.keys()):
            S.expect(attempt(flat, nest), lambda v: type(v) is list and v == [x for y in nest for x in y], "flattened-once", flat)
        for bad in ([1], [None], [[A], 3]):
            S.expect(attempt(flat, bad), TypeError, "not-nested-refused", flat)

    run.scenario("flattening", flats)

    def values(S):
        for i in (None, "", 3, A, " ", "\n", "0", "None"):
            for item in (None, 0, "", A):
                ok = isinstance(i, str) and i != "" and item is not None
                S.expect(attempt(WithId, i, item), (lambda v: v.id is i and v.item is item) if ok else Exception, "with-id", WithId)
        for item in (None, 0, "", A):
            for s in (None, 1, "1", 0.0, -1.5, True, float("inf"), -float("inf"), 1e300, 5e-324, -0.0, b"1", [1.0], (), 1j):
                ok = item is not None and type(s) is float
                S.expect(attempt(Scored, item, s), (lambda v: v.item is item and v.score == s) if ok else Exception, "scored",
                         Scored)
        nan = float("nan")
        S.expect(attempt(Scored, A, nan), lambda v: v.score is nan, "scored", Scored)
        for i in ("a/b", "..", "x" * 5000, "\ud800", "\x00", "id", "a\nb", " a "):
            for item in (float("nan"), [], {}, (), 0.0, False, AlwaysEqual(), type):
                S.expect(attempt(WithId, i, item), lambda v: v.id is i and v.item is item, "with-id", WithId)
                S.expect(attempt(Scored, item, 2.5), lambda v: v.score == 2.5 and v.item is item, "scored", Scored)
        w, s = WithId(A, B), Scored(A, 1.0)
        S.require(w == WithId(A, B) and hash(w) == hash(WithId(A, B)) and w != WithId(A, C) and w != WithId(B, B),
                  "pairs-are-values")
        S.require(s == Scored(A, 1.0) and hash(s) == hash(Scored(A, 1.0)) and s != Scored(A, 2.0) and s != Scored(B, 1.0),
                  "pairs-are-values")
        for o, a in ((w, "id"), (w, "item"), (s, "item"), (s, "score")):
            S.expect(attempt(setattr, o, a, A), AttributeError, "pairs-are-frozen")

    run.scenario("pairs", values)

    def qual(S):
        mod = env.LOADER.source(HELP, "um.sub", "<scenario>")
        S.expect(attempt(fqn, mod), "um.sub", "module-name", fqn)
        S.expect(attempt(fqn, mod.Outer), "um.sub.Outer", "class-name", fqn)
        S.expect(attempt(fqn, mod.Outer.Inner), "um.sub.Outer.Inner", "class-name", fqn)
        S.expect(attempt(fqnt, mod.Outer.Inner()), "um.sub.Outer.Inner", "class-name", fqnt)
        S.expect(attempt(fqnt, mod.Outer()), "um.sub.Outer", "class-name", fqnt)
        for v in (3, A, [], {}, 1.5, (), b"", True, None):
            S.expect(attempt(fqnt, v), type(v).__qualname__, "builtin-name", fqnt)
            S.expect(attempt(fqn, type(v)), type(v).__qualname__, "builtin-name", fqn)
        S.expect(attempt(fqnt, mod.Outer), "type", "builtin-name", fqnt)
        S.expect(attempt(fqnt, int), "type", "builtin-name", fqnt)
        main = env.LOADER.source(HELP, "__main__", "<scenario>")
        S.expect(attempt(fqn, main.Outer.Inner), "__main__.Outer.Inner", "class-name", fqn)
        S.expect(attempt(fqnt, main.Outer()), "__main__.Outer", "class-name", fqnt)
        S.expect(attempt(fqn, main), "__main__", "module-name", fqn)
        for m, pre in ((mod, "um.sub"), (main, "__main__")):
            S.expect(attempt(fqn, m.g()), pre + ".g.<locals>.Local", "class-name", fqn)
            S.expect(attempt(fqnt, m.g().Deep()), pre + ".g.<locals>.Local.Deep", "class-name", fqnt)
        top = env.LOADER.source(HELP, "um", "<scenario>")
        S.expect(attempt(fqn, top.Outer), "um.Outer", "class-name", fqn)
        S.expect(attempt(fqn, top), "um", "module-name", fqn)
        S.expect(attempt(fqnt, collections.OrderedDict()), "collections.OrderedDict", "class-name", fqnt)
        S.expect(attempt(fqn, collections.abc), "collections.abc", "module-name", fqn)

    run.scenario("qualified names", qual)

    def evals(S):
        w = M.world
        pkg = env.LOADER.source("TOP = 'top'", "um", "<scenario>")
        sub = env.LOADER.source(HELP, "um.sub", "<scenario>")
        pkg.sub = sub
        w.modules["um"] = pkg
        w.modules["um.sub"] = sub
        table = [
            ("um.TOP", {}, ["um"], str, "top"), ("um.sub.VALUE", {}, ["um.sub"], str, "u"),
            ("um.sub.f()", {}, ["um", "um.sub"], str, "u"), ("x", {"x": 3}, [], int, 3), ("um", {"um": "mine"}, ["um"], str, "mine"),
            ("um", {"um": 0}, ["um"], int, 0), ("um", {"um": None}, ["um"], object, None), ("um", {"um": ""}, ["um"], str, ""),
            ("um", {"um": []}, ["um", "um.sub"], list, []),
            ("um.sub.Outer", {}, ["um.sub"], type, sub.Outer), ("x", {"x": 0}, ["um"], int, 0),
            ("x", {"x": None}, [], object, None), ("um.TOP", {}, ["um", "um"], str, "top"),
            ("(lambda: x)()", {"x": 3}, [], int, 3), ("[x for _ in (1, 2)]", {"x": 3}, [], list, [3, 3]),
            ("list(y + x for y in z)", {"x": 3, "z": (1, 2)}, [], list, [4, 5]), ("{k: um.TOP for k in z}", {"z": "a"}, ["um"], dict, {"a": "top"}),
            ("(lambda k: um.sub.VALUE + k)(x)", {"x": "v"}, ["um.sub"], str, "uv"),
        ]
        for last, outer in ((1, "sub.VALUE"), (None, "um.sub.VALUE"), (0, "um.sub.f()")):
            if outer.startswith("um"):
                table += [(outer, {"sub": last}, ["um.sub"], str, "u"), (outer, {"sub": last}, ["um", "um.sub"], str, "u"),
                          ("sub", {"sub": last}, ["um.sub"], object, last)]
        table += [("um.sub.VALUE", {"um.sub": 1}, ["um"], str, "u")]
        for expr, ctx, mods, typ, want in table:
            ref, rm = dict(ctx), list(mods)
            S.expect(attempt(ev, expr, ctx, context_modules=mods, expected_type=typ), lambda v: v == want, "value-in-context", ev)
            S.require(ctx == ref and mods == rm, "context-unchanged", lambda: "%r" % sorted(ctx), ev)
        S.expect(attempt(ev, "x", {"x": 3}, context_modules=[], expected_type=str), TypeError, "wrong-type-refused", ev)
        S.expect(attempt(ev, "x", {"x": None}, context_modules=[], expected_type=str), TypeError, "wrong-type-refused", ev)
        S.expect(attempt(ev, "nope", {}, context_modules=[], expected_type=object), NameError, "unknown-name-refused", ev)
        for hidden in ("importlib", "chain", "str_list_limited", "context", "to_eval", "module_name", "Path", "preconditions"):
            S.expect(attempt(ev, hidden, {"x": 1}, context_modules=[], expected_type=object), NameError, "unknown-name-refused", ev)
        S.expect(attempt(ev, "um.TOP", {}, context_modules=[], expected_type=object), NameError, "modules-only-if-asked", ev)
        S.expect(attempt(ev, "1", {}, context_modules=["no_such_module_x"], expected_type=int), ImportError,
                 "missing-module-refused", ev)
        for ctx in ({"nosuch": 1}, {"nosuch": None}, {"nosuch_": 1}, {"um": 1}, {"sub": 1}):
            S.expect(attempt(ev, "1", ctx, context_modules=["um.nosuch"], expected_type=int), ImportError, "missing-module-refused", ev)
        imd = api("immutablecollections", "immutabledict")
        S.expect(attempt(ev, "x", imd([("x", 4)]), context_modules=["um"], expected_type=int), 4, "value-in-context", ev)

    run.scenario("evaluation", evals)

    def attrs_helpers(S):
        w = M.world
        hs = api("vistautils.attrutils", "attrib_instance_of", "attrib_opt_instance_of", "attrib_factory", "attrib_immutable",
                 "attrib_opt_immutable", "attrib_private_immutable_builder", "opt_instance_of", "non_empty")
        mod = env.LOADER.source("""
from attr import attrs, attrib
from immutablecollections import ImmutableSet
from vistautils.attrutils import *
@attrs
class T:
    a = attrib_instance_of(int)
    b = attrib_opt_instance_of(str)
    c = attrib_factory(list)
    d = attrib_opt_immutable(ImmutableSet)
    e = attrib_private_immutable_builder(ImmutableSet)
    f = attrib_immutable(ImmutableSet, default=[1])
    g = attrib(default=None, validator=opt_instance_of(float))
    h = attrib_opt_instance_of(int, default=4)
    i = attrib_opt_instance_of(int, default=0)
    j = attrib_opt_instance_of(str, default="")
    k = attrib_instance_of((int, str), default=0)
    l = attrib_opt_instance_of((int, str))
    m = attrib_instance_of(bool, default=False)
def bad():
    return attrib_immutable(list)
def bad2():
    return attrib_opt_immutable(dict)
def bad3():
    return attrib_private_immutable_builder(set)
""", "attrs_user", "<scenario>")
        T = mod.T
        t = attempt(T, 1)
        S.expect(t, lambda v: (v.a, v.b, v.c, list(v.d), list(v.f), v.g, v.h) == (1, None, [], [], [1], None, 4) and
                 v.i == 0 and v.i is not None and v.j == "" and v.k == 0 and v.l is None and v.m is False, "attribute-defaults",
                 hs[0])
        if t.ok:
            u = T(2)
            S.require(t.value.c is not u.c and t.value.e is not u.e, "attribute-defaults-not-shared", "", hs[2])
            S.expect(attempt(lambda: list(t.value.e.add(A).build())), [A], "private-builder", hs[5])
        for kw, ok in (({"a": 1}, True), ({"a": "1"}, False), ({"a": None}, False), ({"a": 1, "b": A}, True), ({"a": 1, "b": 2}, False),
                       ({"a": 1, "b": ""}, True), ({"a": 1, "b": 0}, False), ({"a": 1, "g": 1.0}, True), ({"a": 1, "g": 0}, False),
                       ({"a": 1, "h": None}, True), ({"a": 1, "h": ""}, False), ({"a": 0}, True),
                       ({"a": 1, "i": None}, True), ({"a": 1, "j": 0}, False), ({"a": 1, "k": None}, False), ({"a": 1, "k": ""}, True),
                       ({"a": 1, "l": 0}, True), ({"a": 1, "l": ""}, True), ({"a": 1, "l": ()}, False), ({"a": 1, "m": 0}, False),
                       ({"a": 1, "m": None}, False)):
            S.expect(attempt(lambda: T(**kw)), (lambda v: all(getattr(v, k) is x for k, x in kw.items())) if ok else TypeError,
                     "attribute-types", hs[1])
        S.expect(attempt(lambda: list(T(1, d=[A, B, A]).d)), [A, B], "attribute-converted", hs[4])
        S.expect(attempt(lambda: list(T(1, d=None).d)), [], "attribute-converted", hs[4])
        S.expect(attempt(lambda: list(T(1, f=[B]).f)), [B], "attribute-converted", hs[3])
        S.expect(attempt(lambda: T(1, e=3)), TypeError, "private-builder", hs[5])
        # whatever is given, an immutable copy of it is kept
        Iset, Idict = api("immutablecollections", "ImmutableSet", "ImmutableDict")
        src = """
from attr import attrs
from immutablecollections import ImmutableSet, ImmutableDict
from vistautils.attrutils import *
@attrs
class T:
    a = attrib_%simmutable(ImmutableSet)
    b = attrib_%simmutable(ImmutableDict)
"""
        for j, kind in enumerate(("", "opt_")):
            C = env.LOADER.source(src % (kind, kind), "attrs_copies%d" % j, "<scenario>").T
            for mk in (list, tuple, iter, lambda v: dict.fromkeys(v).keys()):
                items = [A, "", None, B]
                pairs = [(A, 0), ("", None)]
                o = attempt(lambda: C(mk(items), list(pairs)))
                S.expect(o, lambda v: isinstance(v.a, Iset) and list(v.a) == items and isinstance(v.b, Idict)
                         and list(v.b.items()) == pairs, "attribute-converted", hs[3 + j])
            given, d = [A, B], None
            o = attempt(lambda: C(given, pairs))
            given.append(tok(77))
            pairs.append((B, 1))
            S.expect(o, lambda v: list(v.a) == [A, B] and list(v.b.items()) == [(A, 0), ("", None)], "attribute-copied", hs[3 + j])
            for falsy in (0, False, 0.0):
                S.expect(attempt(lambda: C(falsy, [])), Exception, "only-collections-accepted", hs[3 + j])
                S.expect(attempt(lambda: C([], falsy)), Exception, "only-collections-accepted", hs[3 + j])
            S.expect(attempt(lambda: C(None, None)), (lambda v: list(v.a) == [] and isinstance(v.a, Iset) and isinstance(v.b, Idict)
                                                      and len(v.b) == 0) if kind else Exception, "none-is-empty-if-optional", hs[3 + j])
            for empty in ([], (), {}, ""):
                S.expect(attempt(lambda: C(empty, [])), lambda v: isinstance(v.a, Iset) and list(v.a) == [], "attribute-converted",
                         hs[3 + j])
        for b in (mod.bad, mod.bad2, mod.bad3):
            S.expect(attempt(b), ValueError, "only-immutable-collections", b)
        for v, want in (([], False), ([A], True), ("", False), (A, True), ({}, False)):
            S.expect(attempt(hs[7], None, None, v), want, "non-empty", hs[7])

    run.scenario("attribute helpers", attrs_helpers)
