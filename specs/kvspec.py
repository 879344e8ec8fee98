"""Specifications of vistautils.key_value.

Keys and values are opaque tokens (and the empty value); stores live in the abstract file system, which can fail at any one
call.
"""
import itertools

from absint import env
from absint.check import api, attempt
from absint.core import AnchorMissing, M
from absint.values import Atom, tok
from absint.world import APath, make_tgz_bytes, make_zip_bytes, read_zip_bytes

MOD = "vistautils.key_value"
META = {}
KEYS = [tok(20), tok(21), "d/" + tok(22)]
VALS = [tok(30) + "\n" + tok(31), "", tok(32)]


# characters which some way of splitting, stripping, quoting or translating text treats specially
SPECIALS = [" ", "\r", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\u3000", "\xa0", "\ufeff", "%", "\\", "'",
            '"', "{", "}", "#", ",", ":", ";", "=", "*", "?", "[", "]", "$", "~", "-", ".", "__", "\u00e9", "\U0001f600"]
AWKWARD = [x for c in SPECIALS for x in (tok(23) + c + tok(24), c + tok(23), tok(23) + c)] + ["__keys2", "_index2", "keys", "A", "a"]
KINDRED = [("q", "q/", "/q", "./q", "Q"), ("q/r", "q//r", "q/./r", "q\\r", "q/r/"), ("\u00e9", "e\u0301", "\u00c9"), ("q.txt", "q", "q.gz", "q."),
           ("1", "01", "1.0"), ("q r", "q%20r", "q+r", "q_r")]
AWKWARD_VALUES = [x for c in SPECIALS + ["\n", "\r\n", "\t", "\n\n", "\0", "\x1a", "\0\n"] for x in (tok(33) + c + tok(34), c + tok(33), tok(33) + c, c)]


class Stop(Exception):
    pass


def apis():
    return api(MOD, "KeyValueSink", "KeyValueSource", "KeyValueLinearSource")


def dir_sinks():
    """The classes of directory-backed sinks: private, so found through the public way of making them if they moved."""
    try:
        return api(MOD, "_DirectoryCharKeyValueSink", "_DirectoryBytesKeyValueSink")
    except AnchorMissing:
        Params = api("vistautils.parameters", "Parameters")
        M.world.add_dir("/o/dir")
        p = Params.from_mapping({"output": {"type": "file-map", "path": "/o/dir"}})
        return [type(f(p)) for f in api(MOD, "char_key_value_sink_from_params", "byte_key_value_sink_from_params")]


def enc(v):
    return v.encode("utf-8") if isinstance(v, str) else v


def listing(keys):
    return "\n".join(keys).encode("utf-8")


def install(kind, m):
    """Installs a store of the given kind holding m (values text) in the world; returns (maker of a source, is text)."""
    Sink, Source, Linear = apis()
    from_map = api(MOD, "KeyValueSource.from_path_mapping")
    w = M.world
    text = "char" in kind
    if kind.startswith("zip"):
        names = {k: k for k in m}
        fn = None
        if "renamed" in kind:
            fn = lambda k: "pre/" + k + ".x"  # noqa
            names = {k: fn(k) for k in m}
        members = [(names[k], enc(v)) for k, v in m.items()]
        if "unlisted" not in kind:
            members.insert(0, ("__keys", listing(m)))
        w.add_file("/s/z.zip", make_zip_bytes(members))
        f = Source.zip_character_source if text else Source.zip_bytes_source
        kw = {"filename_function": fn} if fn else {}
        if "own listing" in kind:
            kw["keys_function"] = lambda z: set(m)
        return lambda: f(APath("/s/z.zip"), **kw)
    paths = {}
    for i, (k, v) in enumerate(m.items()):
        paths[k] = APath("/s/f%d" % i)
        w.add_file("/s/f%d" % i, enc(v))
    if kind.startswith("paths"):
        imd = api("immutablecollections", "immutabledict")
        if text:
            return lambda: from_map(imd(list(paths.items())))
        cls = api(MOD, "_PathMappingBytesKeyValueSource")
        return lambda: cls(imd(list(paths.items())))
    w.add_file("/s/map", "".join("%s\t%s\n" % x for x in paths.items()))
    f = Source.from_doc_id_to_file_map if text else Source.binary_from_doc_id_to_file_map
    if "source" in kind:
        CharSource = api("vistautils.io_utils", "CharSource")
        return lambda: f(CharSource.from_file("/s/map"))
    return lambda: f("/s/map" if "str" in kind else APath("/s/map"))


KINDS = ["zip char", "zip bytes", "zip char renamed", "zip bytes own listing", "zip char unlisted", "paths char", "paths bytes",
         "map char", "map bytes", "map char str", "map bytes source"]

MAPS = [{}, {KEYS[0]: VALS[0]}, {KEYS[0]: VALS[1]}, {KEYS[0]: VALS[0], KEYS[1]: VALS[1]},
        {KEYS[2]: VALS[2], KEYS[0]: VALS[1], KEYS[1]: VALS[0]}]


# concrete keys close to each other, and more and longer entries than any threshold
WILD = {"A": "1", "a": "2", "Ab": "3", "aB": "3 ", "x" * 200: "4", "x" * 199 + "y": "5", "k.txt": "6", "k.TXT": "7", "k": "", "a b": "9",
        "a  b": "10", "d/k": "11", "D/k": "12", "D/K": "12\n", "e/f/g.h/i": "13", "\u00e9": "14", "e\u0301": "15", "0": "16", "00": "17",
        "1e3": "18", "None": "None", "true": "0", "k.tar.gz": "19", ".k": "20", "k-": "21", "__keys__": "22", "_index.": "23"}
MANY = {"k%04d%s" % (i, "_" * 60): "value %d" % i for i in range(1300)}
HUGE = {"h": "".join("line %d %s\n" % (i, "\u00e9" * (i % 61)) for i in range(4000)) * 20, "i": "x" * 1200000}
EVERY = {"v%03d" % i: v for i, v in enumerate(x for x in AWKWARD_VALUES if "\r" not in x)}
CONCRETE = {"concrete keys": WILD, "many keys": MANY, "long values": HUGE, "every value": EVERY}


def val(kind, v):
    return v if "char" in kind else enc(v)


# --------------------------------------------------------------------------- C29
META["C29"] = dict(
    min_obligations=1000,
    explanation="Every kind of key-value source, and an interpreting source over each, is evaluated on mappings of opaque keys "
                "to opaque and empty values with present and absent keys and every kind of default; all ways of access must "
                "agree with the mapping.")


def c29(run):
    Sink, Source, Linear = apis()
    run.anchor(Source.items, Linear.interpret_values, Source.zip_character_source, Source.zip_bytes_source, Source.from_path_mapping,
               Source.from_doc_id_to_file_map, Source.binary_from_doc_id_to_file_map, Source.interpret_values)

    def laws(S, s, m, listed, where, rejected=False):
        absent = [tok(25), "d", "__nothing"] + (["pre/" + k + ".x" for k in m] if rejected else [])
        before = M.world.snapshot()
        dflts = [None, "", 0, False, Atom("default"), b""]
        for k, v in m.items():
            S.expect(attempt(lambda: s[k]), lambda r: r == v and type(r) is type(v), "getitem", where)
            S.expect(attempt(s.get, k), lambda r: r == v and type(r) is type(v), "get", where)
            for d in dflts:
                S.expect(attempt(s.get, k, d), lambda r: r == v and type(r) is type(v), "default-ignored-when-present", where)
        for k in absent:
            S.expect(attempt(lambda: s[k]), KeyError, "getitem-of-absent", where)
            S.expect(attempt(s.get, k), lambda r: r is None, "get-of-absent", where)
            for d in dflts:
                S.expect(attempt(s.get, k, d), lambda r: r is d, "default-used-when-absent", where)
        if listed:
            S.expect(attempt(s.keys), lambda r: sorted(r) == sorted(m), "keys", where)
            for _ in range(2):
                S.expect(attempt(lambda: list(s.items())), lambda r: sorted(r) == sorted(m.items()), "items", where)
            for chosen in ([], list(m), list(m)[:1], list(m)[1:]):
                seen = []

                def flt(k):
                    seen.append(k)
                    return k in chosen

                S.expect(attempt(lambda: list(s.items(flt))), lambda r: sorted(r) == sorted((k, m[k]) for k in chosen),
                         "items-filtered", where)
                S.require(sorted(set(seen)) == sorted(m), "filter-sees-every-key", "", where)
                S.expect(attempt(lambda: list(s.items(key_filter=flt))),
                         lambda r: sorted(r) == sorted((k, m[k]) for k in chosen), "items-filtered", where)
        else:
            S.expect(attempt(s.keys), lambda r: r is None, "keys-unknown", where)
            S.expect(attempt(lambda: list(s.items())), NotImplementedError, "items-need-keys", where)
        S.require(M.world.snapshot() == before, "reading-changes-nothing", "", where)

    for kind in KINDS:
        for i, m in enumerate(MAPS):
            def plain(S, kind=kind, m=m):
                mk = install(kind, m)
                want = {k: val(kind, v) for k, v in m.items()}
                s = mk()
                with s as t:
                    laws(S, t, want, "unlisted" not in kind, type(s).get, "renamed" in kind)
                S.require(not M.world.leaked(), "everything-closed", lambda: "%r" % M.world.leaked())
                S.require(not any(e[0] == "locale-encoding" for e in M.world.events), "explicit-encoding")

            run.scenario("%s, mapping %d" % (kind, i), plain)

            def interp(S, kind=kind, m=m):
                mk = install(kind, m)
                res = {k: r for k, r in zip(m, (Atom("r"), "", 0))}
                calls = []

                def f(k, v):
                    calls.append((k, v))
                    return res[k]

                s = Source.interpret_values(mk(), f)
                with s as t:
                    laws(S, t, res, "unlisted" not in kind, type(s).get, "renamed" in kind)
                    del calls[:]
                    for k in m:
                        t[k], t.get(k), t.get(tok(25)), t.get(tok(25), 3)
                    S.require(calls == [(k, val(kind, m[k])) for k in m for _ in range(2)], "interpretation-called-as-promised",
                              lambda: "%r" % calls, type(s).get)
                    if "unlisted" not in kind:
                        for k0 in [None] + list(m):
                            del calls[:]
                            attempt(lambda: list(t.items(lambda k: k == k0)))
                            S.require(calls == [(k, val(kind, m[k])) for k in m if k == k0], "interpretation-called-as-promised",
                                      lambda: "filter for %r: %r" % (k0, calls), type(s).items)
                S.require(not M.world.leaked(), "everything-closed", lambda: "%r" % M.world.leaked())

            run.scenario("interpreted %s, mapping %d" % (kind, i), interp)

            def nested(S, kind=kind, m=m):
                mk = install(kind, m)
                s = Source.interpret_values(Source.interpret_values(mk(), lambda k, v: (k, v)), lambda k, v: (v, k))
                with s as t:
                    for k in m:
                        S.expect(attempt(lambda: t[k]), ((k, val(kind, m[k])), k), "getitem")
                        S.expect(attempt(t.get, k, 3), ((k, val(kind, m[k])), k), "get")
                    S.expect(attempt(t.get, tok(25), 3), 3, "default-used-when-absent")

            run.scenario("twice interpreted %s, mapping %d" % (kind, i), nested)

    for kind in KINDS:
        chunks = [AWKWARD[i:i + 12] for i in range(0, len(AWKWARD), 12)]
        for i, ks in enumerate(chunks):
            def awkward(S, kind=kind, ks=ks, i=i):
                if kind.startswith("map"):
                    ks = [k for k in ks if k == k.strip() and "\r" not in k]
                vs = [AWKWARD_VALUES[(7 * i + 5 * j) % len(AWKWARD_VALUES)] for j in range(len(ks))]
                if kind.startswith(("map", "paths")) and "char" in kind:
                    vs = [v.replace("\r", "") for v in vs]  # files are read with universal newlines
                m = dict(zip(ks, vs))
                want = {k: val(kind, v) for k, v in m.items()}
                with install(kind, m)() as t:
                    for k, v in want.items():
                        S.expect(attempt(lambda: t[k]), v, "getitem", type(t).get)
                        S.expect(attempt(t.get, k, 3), v, "get", type(t).get)
                    if "unlisted" not in kind:
                        S.expect(attempt(t.keys), lambda r: sorted(r) == sorted(want), "keys", type(t).keys)
                        S.expect(attempt(lambda: dict(t.items())), want, "items", type(t).keys)

            run.scenario("%s with awkward keys and values %d" % (kind, i), awkward)

    for kind in KINDS:
        for name, m in CONCRETE.items():
            def concrete(S, kind=kind, m=m):
                want = {k: val(kind, v) for k, v in m.items()}
                for wrap in (False, True):
                    mk = install(kind, m)
                    w = {k: (k, v) for k, v in want.items()} if wrap else want
                    with (Source.interpret_values(mk(), lambda k, v: (k, v)) if wrap else mk()) as t:
                        for k in m:
                            S.expect(attempt(lambda: (t[k], t.get(k, 3))), lambda r: r == (w[k], w[k]), "getitem", type(t).get)
                        near = [f(k) for k in list(m)[:25] for f in (
                            lambda k: "/" + k, lambda k: "./" + k, lambda k: " " + k, lambda k: k + " ", lambda k: k + "/",
                            lambda k: k + "\n", lambda k: "\ufeff" + k, lambda k: k.swapcase() + "!", lambda k: "d/../" + k)]
                        for k in ["B", "K", "X" * 200, "x" * 198, "k1300", "d", "e/f", "k.Txt", "e", "h/"] + near:
                            if k not in m:
                                S.expect(attempt(t.get, k, 3), 3, "default-used-when-absent", type(t).get)
                                S.expect(attempt(lambda: t[k]), KeyError, "getitem-of-absent", type(t).get)
                        if "unlisted" not in kind:
                            S.expect(attempt(t.keys), lambda r: sorted(r) == sorted(w), "keys", type(t).keys)
                            S.expect(attempt(lambda: list(t.items())), lambda r: sorted(r) == sorted(w.items()), "items", type(t).keys)

            run.scenario("%s with %s" % (kind, name), concrete)

    for wrapped in (False, True):
        def linear(S, wrapped=wrapped):
            names = [KEYS[0], "d/" + tok(21), tok(22) + ".x", KEYS[0]]
            M.world.add_file("/s/t.tgz", make_tgz_bytes([(n, "file", b"%d" % i) for i, n in enumerate(names)]))
            want = [("K" + n, b"%d" % i) for i, n in enumerate(names)]
            calls, res = [], [Atom("r"), "", 0, None]

            def f(k, v):
                calls.append((k, v))
                return res[len(calls) - 1] if not wrapped else (k, v)

            src = Linear.interpret_values(Linear.byte_linear_source_from_tar_gz(
                APath("/s/t.tgz"), key_function=lambda n: "K" + n), f)
            if wrapped:
                src = Linear.interpret_values(src, lambda k, v: (v, k))
            for flt in (None, lambda k: k == "K" + names[0], lambda k: False, lambda k: True, lambda k: k.startswith("Kd")):
                del calls[:]
                chosen = [x for x in want if flt is None or flt(x[0])]
                expected = [(k, (((k, v), k))) for k, v in chosen] if wrapped else [(k, r) for (k, _), r in zip(chosen, res)]
                with src as s:
                    S.expect(attempt(lambda: list(s.items(flt) if flt else s.items())), lambda r: r == expected, "linear-items",
                             Linear.interpret_values)
                S.require(calls == chosen, "interpretation-called-as-promised", lambda: "%r" % calls, Linear.interpret_values)

        run.scenario("interpreted linear source%s" % (", twice" if wrapped else ""), linear)

    def truthy(S, kind):
        m = {KEYS[0]: "x", KEYS[1]: "y"}
        want = sorted((k, val(kind, v)) for k, v in m.items())
        for wrap in (False, True):
            mk = install(kind, m)
            with (Source.interpret_values(mk(), lambda k, v: v) if wrap else mk()) as t:
                for yes, no in ((1, 0), ("y", ""), ([0], []), (2.5, None)):
                    S.expect(attempt(lambda: list(t.items(lambda k: yes if k == KEYS[0] else no))),
                             lambda r: r == [x for x in want if x[0] == KEYS[0]], "items-filtered", type(t).items)

    for kind in ("zip char", "paths bytes", "map char"):
        run.scenario("%s, filters answering other things than booleans" % kind, lambda S, kind=kind: truthy(S, kind))

    def changing(S, kind):
        """The values are those of the store at the time of asking."""
        m = {KEYS[0]: "x", KEYS[1]: "y"}
        for wrap in (False, True):
            mk = install(kind, m)
            seen = []

            def f(k, v):
                seen.append(v)
                return (k, v, len(seen))

            with (Source.interpret_values(mk(), f) if wrap else mk()) as t:
                for n, new in enumerate(("x", "later", "", "x")):
                    M.world.add_file("/s/f0", enc(new))
                    now = val(kind, new)
                    got = [attempt(lambda: t[KEYS[0]]), attempt(t.get, KEYS[0], 3), attempt(lambda: dict(t.items())[KEYS[0]])]
                    for o in got:
                        S.expect(o, (lambda r: r[:2] == (KEYS[0], now)) if wrap else now, "values-as-they-are-now", type(t).get)

    for kind in ("paths char", "paths bytes", "map char", "map bytes"):
        run.scenario("%s whose files change" % kind, lambda S, kind=kind: changing(S, kind))

    def nones(S):
        mk = install("zip char", {KEYS[0]: "x"})
        with Source.interpret_values(Source.interpret_values(mk(), lambda k, v: None), lambda k, v: (k, v)) as t:
            S.expect(attempt(t.get, KEYS[0], 3), (KEYS[0], None), "none-from-a-wrapped-source-is-a-value")
            S.expect(attempt(lambda: t[KEYS[0]]), (KEYS[0], None), "none-from-a-wrapped-source-is-a-value")

    run.scenario("interpretations returning None", nones)

    def gone(S):
        for kind in ("map char", "map bytes", "paths char", "paths bytes"):
            mk = install(kind, {KEYS[0]: "x", KEYS[1]: "y"})
            M.world.unlink("/s/f0")
            with mk() as s:
                S.expect(attempt(s.get, KEYS[0], 3), Exception, "unreadable-value-is-an-error")
                S.expect(attempt(lambda: s[KEYS[0]]), Exception, "unreadable-value-is-an-error")
                S.expect(attempt(s.get, KEYS[1]), val(kind, "y"), "get")
        def naming(k):
            return {KEYS[0]: KEYS[0]}[k]

        M.world.add_file("/s/named.zip", make_zip_bytes([("__keys", enc(KEYS[0])), (KEYS[0], b"x")]))
        for f in (Source.zip_character_source, Source.zip_bytes_source):
            with f(APath("/s/named.zip"), filename_function=naming) as s:
                S.expect(attempt(s.get, KEYS[0]), lambda r: r in ("x", b"x"), "get")
                for g in (lambda: s[KEYS[1]], lambda: s.get(KEYS[1]), lambda: s.get(KEYS[1], "d")):
                    S.expect(attempt(g), KeyError, "errors-of-the-naming-function-reported")
        for kind in ("zip char", "map char", "paths char"):
            mk = install(kind, {KEYS[0]: b"a\xff\xfe"})
            with mk() as s:
                for g in (lambda: s[KEYS[0]], lambda: s.get(KEYS[0]), lambda: s.get(KEYS[0], "d")):
                    S.expect(attempt(g), UnicodeDecodeError, "undecodable-value-is-an-error")
        for kind in ("zip char", "zip bytes"):
            with install(kind, {KEYS[0]: "x"})() as s:
                for g in (lambda: s[None], lambda: s.get(None), lambda: s.get(None, 3)):
                    S.expect(attempt(g), Exception, "none-is-no-key")

    run.scenario("unreadable values", gone)

    def overlisted(S):
        """The listing function names more than the archive holds."""
        M.world.add_file("/s/z.zip", make_zip_bytes([(KEYS[0], b"x"), ("__keys", (KEYS[0] + "\n" + KEYS[1]).encode("utf-8"))]))
        for mk, v in ((lambda: Source.zip_character_source(APath("/s/z.zip")), "x"), (lambda: Source.zip_bytes_source(APath("/s/z.zip")), b"x"),
                      (lambda: Source.zip_bytes_source(APath("/s/z.zip"), keys_function=lambda z: {KEYS[0], KEYS[2]}), b"x"),
                      (lambda: Source.zip_bytes_source(APath("/s/z.zip"), keys_function=lambda z: None), b"x"),
                      (lambda: Source.zip_bytes_source(APath("/s/z.zip"), keys_function=lambda z: frozenset()), b"x")):
            with mk() as s:
                for k in KEYS[1:3]:
                    S.expect(attempt(s.get, k, 3), 3, "default-used-when-absent")
                    S.expect(attempt(s.get, k), lambda r: r is None, "default-used-when-absent")
                    S.expect(attempt(lambda: s[k]), KeyError, "getitem-of-absent")
                S.expect(attempt(s.get, KEYS[0], 3), v, "get")
                S.expect(attempt(lambda: s[KEYS[0]]), v, "getitem")

    run.scenario("listings naming too much or too little", overlisted)

    def greedy(S):
        class Greedy:
            def __eq__(self, o):
                return True

            def __ne__(self, o):
                return False

            __hash__ = None

        g = Greedy()
        mk = install("zip char", {KEYS[0]: "x"})
        with Source.interpret_values(Source.interpret_values(mk(), lambda k, v: g), lambda k, v: (k, v is g)) as t:
            S.expect(attempt(t.get, KEYS[0], 3), (KEYS[0], True), "interpreted-value")
            S.expect(attempt(lambda: t[KEYS[0]]), (KEYS[0], True), "interpreted-value")
            S.expect(attempt(t.get, KEYS[1], 3), 3, "default-used-when-absent")
            S.expect(attempt(lambda: t.get(KEYS[1], g) is g), True, "default-used-when-absent")

    run.scenario("values equal to everything", greedy)


# --------------------------------------------------------------------------- C26
META["C26"] = dict(
    min_obligations=200,
    explanation="Typestate of every key-value store: use before entering or after leaving is refused, exceptions in the block "
                "pass through, and archives are closed on every path, including a failure injected at each single call to "
                "the environment while entering, using and leaving.")


def c26(run):
    Sink, Source, Linear = apis()
    run.anchor(Sink.zip_character_sink, Source.zip_character_source, Linear.byte_linear_source_from_tar_gz)
    SINKS = {"zip char": lambda: Sink.zip_character_sink(APath("/o/z.zip")),
             "zip bytes": lambda: Sink.zip_bytes_sink(APath("/o/z.zip")),
             "zip append": lambda: Sink.zip_bytes_sink(APath("/o/z.zip"), overwrite=False),
             "dir char": lambda: dir_sinks()[0](APath("/o/dir")),
             "dir bytes": lambda: dir_sinks()[1](APath("/o/dir"))}

    def v(kind, x):
        return x if "char" in kind else enc(x)

    for kind, mk in SINKS.items():
        for raising in (False, True):
            for faulty in (False, True):
                def sc(S, kind=kind, mk=mk, raising=raising, faulty=faulty):
                    w = M.world
                    w.add_dir("/o/dir")
                    if kind == "zip append":
                        w.add_file("/o/z.zip", make_zip_bytes([("__keys", listing([tok(29)])), (tok(29), b"o")]))

                    def body():
                        with mk() as s:
                            s.put(KEYS[0], v(kind, VALS[0]))
                            if raising:
                                raise Stop()
                            s[KEYS[1]] = v(kind, VALS[1])

                    if faulty:
                        w.faults = lambda op, p: True
                    o = attempt(body)
                    w.faults = None
                    S.require(not w.leaked(), "everything-closed", lambda: "%r after it %r" % (w.leaked(), o))
                    if raising and not w.fault_used:
                        S.expect(o, Stop, "exceptions-pass-through")
                    elif not raising and not w.fault_used:
                        S.expect(o, lambda r: r is None, "block-works")
                    elif w.fault_used and not (w.fault_used[0] == "read" and kind == "zip append"):
                        S.expect(o, Exception, "failures-are-reported")

                run.scenario("%s sink%s%s" % (kind, ", body raises" if raising else "", ", one failure" if faulty else ""), sc)

    def outside(S, kind, mk):
        M.world.add_dir("/o/dir")
        if not kind.startswith("zip"):
            return
        s = mk()
        S.expect(attempt(s.put, KEYS[0], v(kind, VALS[0])), Exception, "put-outside-block-refused")
        with s:
            s.put(KEYS[0], v(kind, VALS[0]))
        before = M.world.snapshot()
        S.expect(attempt(s.put, KEYS[1], v(kind, VALS[0])), Exception, "put-outside-block-refused")
        S.require(M.world.snapshot() == before, "put-outside-block-refused", "it changed the store")

    for kind, mk in SINKS.items():
        run.scenario("%s sink outside its block" % kind, lambda S, kind=kind, mk=mk: outside(S, kind, mk))

    def tar(S):
        M.world.add_file("/s/t.tgz", make_tgz_bytes([(KEYS[0], "file", enc(VALS[0])), (KEYS[1], "file", enc(VALS[1]))]))
        return Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz"))

    def sources(S, kind, faulty, raising, wrap):
        w = M.world
        mk = install(kind, MAPS[3]) if kind != "tar" else lambda: tar(S)
        if kind == "tar":
            mk()
        wr = (Source if kind != "tar" else Linear).interpret_values
        mk2 = (lambda: wr(mk(), lambda k, x: x)) if wrap else mk

        def body():
            with mk2() as s:
                if kind != "tar":
                    s.get(KEYS[0])
                    s[KEYS[0]]
                    s.keys()
                for p in s.items():
                    if raising:
                        raise Stop()

        if faulty:
            w.faults = lambda op, p: True
        o = attempt(body)
        w.faults = None
        S.require(not w.leaked(), "everything-closed", lambda: "%r after it %r" % (w.leaked(), o))
        if not w.fault_used:
            S.expect(o, Stop if raising else lambda r: r is None, "exceptions-pass-through")
        else:
            S.expect(o, Exception, "failures-are-reported")

    for kind in [k for k in KINDS if "unlisted" not in k] + ["tar"]:
        for faulty in (False, True):
            for raising in (False, True):
                for wrap in (False, True):
                    run.scenario("%s source%s%s%s" % (kind, ", interpreted" if wrap else "", ", body raises" if raising else "",
                                                    ", one failure" if faulty else ""),
                                 lambda S, kind=kind, faulty=faulty, raising=raising, wrap=wrap: sources(
                                     S, kind, faulty, raising, wrap))

    def src_outside(S, kind):
        s = install(kind, MAPS[3])()

        def refused():
            for g in (lambda: s[KEYS[0]], lambda: s.get(KEYS[0]), lambda: s.get(KEYS[0], 3), s.keys, lambda: list(s.items())):
                S.expect(attempt(g), Exception, "use-outside-block-refused")

        refused()
        for _ in range(2):
            with s as t:
                S.expect(attempt(t.get, KEYS[0]), val(kind, VALS[0]), "works-when-entered-again")
            refused()

        def body():
            with s:
                raise Stop()

        S.expect(attempt(body), Stop, "exceptions-pass-through")
        refused()

    for kind in ("zip char", "zip bytes"):
        run.scenario("%s source outside its block" % kind, lambda S, kind=kind: src_outside(S, kind))

    def tar_outside(S):
        s = tar(S)
        S.expect(attempt(lambda: list(s.items())), Exception, "use-outside-block-refused")
        for _ in range(2):
            with s as t:
                S.expect(attempt(lambda: len(list(t.items()))), 2, "works-when-entered-again")

    run.scenario("tar source outside its block", tar_outside)

    def bad(S):
        w = M.world
        for data in (None, b"garbage", make_zip_bytes([("__keys", b"\xff\xfe"), (KEYS[0], b"")])):
            if data is not None:
                w.add_file("/s/z.zip", data)
            for f in (Source.zip_character_source, Source.zip_bytes_source):
                def go():
                    with f(APath("/s/z.zip")) as s:
                        return s.get(KEYS[0])

                S.expect(attempt(go), Exception, "bad-store-refused")
                S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked())
        w.add_file("/s/t.tgz", b"garbage")

        def go2():
            with Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz")) as s:
                return list(s.items())

        S.expect(attempt(go2), Exception, "bad-store-refused")
        S.require(not w.leaked(), "everything-closed")

    run.scenario("bad stores", bad)

    def broken_listing(S):
        """A source whose block could not be entered is as closed as before."""
        w = M.world
        w.add_file("/s/z.zip", make_zip_bytes([(KEYS[0], b"x"), ("__keys", b"\xff\xfe")]))

        def boom(z):
            raise Stop()

        for mk in (lambda f: f(APath("/s/z.zip")), lambda f: f(APath("/s/z.zip"), keys_function=boom)):
            for f in (Source.zip_character_source, Source.zip_bytes_source):
                s = mk(f)
                S.expect(attempt(s.__enter__), Exception, "bad-store-refused")
                for use in (s.keys, lambda: s.get(KEYS[0]), lambda: s[KEYS[0]], lambda: list(s.items())):
                    S.expect(attempt(use), Exception, "refused-outside-its-block")
                S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked())

    run.scenario("broken listings", broken_listing)

    EXC = [KeyError("k"), StopIteration(), OSError("o"), ValueError("v"), TypeError("t"), RuntimeError("r"), GeneratorExit(),
           KeyboardInterrupt(), SystemExit(3), AssertionError("a"), UnicodeDecodeError("utf-8", b"x", 0, 1, "r"), LookupError(),
           NotImplementedError(), EOFError(), BaseException()]

    def passes(S, mk, exc, use):
        M.world.add_dir("/o/dir")

        def body():
            with mk() as s:
                use(s)
                raise exc

        o = attempt(body)
        S.require(o.kind == "exc" and o.value is exc, "exceptions-pass-through", lambda: "%r became %r" % (exc, o))
        S.require(not M.world.leaked(), "everything-closed", lambda: "%r" % M.world.leaked())

    for exc in EXC:
        en = type(exc).__name__
        for kind, mk in SINKS.items():
            run.scenario("%s in the block of a %s sink" % (en, kind), lambda S, kind=kind, mk=mk, exc=exc: (
                M.world.add_file("/o/z.zip", make_zip_bytes([("__keys", listing([tok(29)])), (tok(29), b"o")]))
                if kind == "zip append" else None,
                passes(S, mk, exc, lambda s: s.put(KEYS[0], v(kind, VALS[0])))))
        for kind in KINDS + ["tar"]:
            for wrap in (False, True):
                def src(S, kind=kind, wrap=wrap, exc=exc):
                    mk = install(kind, MAPS[3]) if kind != "tar" else lambda: tar(S)
                    wr = (Source if kind != "tar" else Linear).interpret_values
                    passes(S, (lambda: wr(mk(), lambda k, x: x)) if wrap else mk, exc,
                           (lambda s: s.get(KEYS[0])) if kind != "tar" else lambda s: next(s.items()))

                run.scenario("%s in the block of a %s source%s" % (en, kind, ", interpreted" if wrap else ""), src)

    def keysfail(S):
        for f in (Sink.zip_character_sink, Sink.zip_bytes_sink):
            M.world.add_dir("/o")

            def out(z, k):
                raise Stop()

            def go():
                with f(APath("/o/z.zip"), keys_out_function=out) as s:
                    s.put(KEYS[0], "x")

            S.expect(attempt(go), Stop, "exceptions-pass-through")
            S.require(not M.world.leaked(), "everything-closed", lambda: "%r" % M.world.leaked())

    run.scenario("a listing function which fails", keysfail)


# --------------------------------------------------------------------------- C27
META["C27"] = dict(
    min_obligations=1000, workers=4,
    explanation="All histories of up to three puts (fresh, duplicate, of illegal values or keys, failing in the environment) in "
                "one or two sessions of a zip store, overwriting or appending, are evaluated; afterwards the listing must name "
                "exactly the keys put successfully and every one must read back as first written.")


def c27(run):
    Sink, Source, Linear = apis()
    run.anchor(Sink.zip_character_sink, Sink.zip_bytes_sink, Sink.put)
    k0, k1 = KEYS[0], KEYS[2]
    OPS = {"put a": (k0, VALS[0]), "put b": (k1, VALS[1]), "put a again": (k0, VALS[2]), "none value": (k0, None),
           "bad value": (k1, 3), "none key": (None, VALS[0]), "newline key": ("x\ny", VALS[0]), "empty key": ("", VALS[0]),
           "reserved key": ("__keys", VALS[0]), "failing put a": (k0, VALS[2]), "failing name": ("boom", VALS[0])}

    AWK = set()

    def history(S, sessions, text, abort=None):
        w = M.world
        w.add_dir("/o")
        f = Sink.zip_character_sink if text else Sink.zip_bytes_sink
        model = {}

        def name(k):
            if k == "boom":
                raise Stop()
            return "n/" + k if k != "__keys" else k

        for over, ops in sessions:
            if over:
                model = {}

            def body():
                with f(APath("/o/z.zip"), overwrite=over, filename_function=name) as s:
                    for i, op in enumerate(ops):
                        k, v = OPS[op]
                        if isinstance(v, str) and not text:
                            v = enc(v)
                        failing = op == "failing put a"
                        if failing:
                            w.faults = lambda o, p: o == "zip-write"
                        if i % 2:
                            o = attempt(s.put, k, v)
                        else:
                            o = attempt(s.__setitem__, k, v)
                        w.faults = None
                        good = (op in AWK or op in ("put a", "put b", "put a again", "failing put a")) and k not in model and not (
                            failing and w.fault_used)
                        w.fault_used = None
                        S.expect(o, (lambda r: r is None) if good else Exception,
                                 "accepted" if good else "duplicate-or-illegal-put-refused", Sink.put)
                        if good:
                            model[k] = v
                    if abort is not None:
                        raise abort

            o = attempt(body)
            if abort is not None:
                S.require(o.kind == "exc" and o.value is abort, "exceptions-pass-through", lambda: "%r" % o, Sink.put)
            elif not S.expect(o, lambda r: r is None, "session-works", Sink.put):
                return
        S.require(not w.leaked(), "everything-closed")
        data = attempt(lambda: dict(read_zip_bytes(w.content("/o/z.zip"))))
        S.expect(data, lambda d: set(d) == {"n/" + k for k in model} | {"__keys"}, "zip-members", Sink.put)
        g = Source.zip_character_source if text else Source.zip_bytes_source

        def back():
            with g(APath("/o/z.zip"), name) as s:
                return sorted(s.keys()), dict(s.items())

        S.expect(attempt(back), lambda r: r == (sorted(model), model), "listing-names-exactly-what-was-written", Sink.put)

    n = 0
    for k in (0, 1, 2, 3):
        for ops in itertools.product(OPS, repeat=k):
            n += 1
            if k == 3 and not run.thorough and n % 3:
                continue
            for text in (True, False) if k < 3 else (bool(n % 2),):
                run.scenario(lambda ops=ops, text=text: "%s (%s)" % (list(ops), "text" if text else "bytes"),
                             lambda S, ops=ops, text=text: history(S, [(True, ops)], text))
    small = [(), ("put a",), ("put b",), ("put a", "put b"), ("bad value", "put b"), ("put a again", "put a")]
    for s1 in small:
        for s2 in small:
            for o2 in (True, False):
                for text in (True, False):
                    run.scenario("%s then %s %s (%s)" % (s1, "overwriting" if o2 else "appending", s2, text),
                                 lambda S, s1=s1, s2=s2, o2=o2, text=text: history(S, [(False, s1), (o2, s2)], text))
    for s1 in small[1:4]:
        for s2 in small[:4]:
            for s3 in small[1:4]:
                run.scenario("%s then appending %s, %s" % (s1, s2, s3),
                             lambda S, s1=s1, s2=s2, s3=s3: history(S, [(True, s1), (False, s2), (False, s3)], False))

    for exc in (Stop(), ValueError("v"), KeyboardInterrupt(), GeneratorExit()):
        for s1 in small:
            for over in (True, False):
                for text in (True, False):
                    run.scenario("%s, aborted by %s, %s (%s)" % (s1, type(exc).__name__, "new" if over else "appending", text),
                                 lambda S, s1=s1, exc=exc, over=over, text=text: history(S, [(over, s1)], text, exc))
                    run.scenario("put b aborted, then %s, aborted by %s, %s (%s)" % (
                        s1, type(exc).__name__, "new" if over else "appending", text), lambda S, s1=s1, exc=exc, over=over,
                        text=text: history(S, [(True, ("put b", )), (over, s1)], text, exc))

    for i, k in enumerate(AWKWARD):
        OPS[k] = (k, AWKWARD_VALUES[i % len(AWKWARD_VALUES)])
        AWK.add(k)
    for i, k in enumerate(AWKWARD):
        for text in (False, True):
            run.scenario("awkward key %r (%s)" % (k, text), lambda S, k=k, text=text: history(
                S, [(True, (k, "put a")), (False, ("put b", k))], text))
            run.scenario("awkward key %r alone (%s)" % (k, text), lambda S, k=k, text=text: history(S, [(True, (k,)), (False, (k,))], text))
    run.scenario("all awkward keys", lambda S: history(S, [(True, tuple(AWKWARD)), (False, ("put a",))], True))
    # keys which some way of normalising a file name takes for one another
    for kin in KINDRED:
        for i, k in enumerate(kin):
            OPS[k] = (k, VALS[i % 2] + str(i))
            AWK.add(k)
        for text in (False, True):
            for ks in itertools.permutations(kin, 2):
                run.scenario("kindred keys %r (%s)" % (ks, text), lambda S, ks=ks, text=text: history(S, [(True, ks), (False, ("put b", ks[1]))], text))
                run.scenario("kindred keys %r apart (%s)" % (ks, text),
                             lambda S, ks=ks, text=text: history(S, [(True, ks[:1]), (False, ks[1:])], text))

    def concrete(S, text, m):
        M.world.add_dir("/o")
        f = Sink.zip_character_sink if text else Sink.zip_bytes_sink
        m = {k: v if text else enc(v) for k, v in m.items()}
        keys = list(m)
        for over, part in ((True, keys[:len(keys) // 2]), (False, keys[len(keys) // 2:])):
            with f(APath("/o/z.zip"), overwrite=over) as s:
                for k in part:
                    S.expect(attempt(s.put, k, m[k]), lambda r: r is None, "accepted", Sink.put)
                for k in keys[:keys.index(part[-1]) + 1]:
                    S.expect(attempt(s.put, k, m[k][:1]), Exception, "duplicate-or-illegal-put-refused", Sink.put)
        g = Source.zip_character_source if text else Source.zip_bytes_source
        with g(APath("/o/z.zip")) as t:
            S.expect(attempt(t.keys), lambda r: sorted(r) == sorted(m), "listing-names-exactly-what-was-written", Sink.put)
            S.expect(attempt(lambda: dict(t.items())), lambda r: r == m, "listing-names-exactly-what-was-written", Sink.put)
        S.expect(attempt(lambda: [n for n, _ in read_zip_bytes(M.world.content("/o/z.zip")) if n != "__keys"]),
                 lambda r: r == keys, "zip-members", Sink.put)

    for name, m in CONCRETE.items():
        for text in (True, False):
            run.scenario("two sessions with %s (%s)" % (name, text), lambda S, m=m, text=text: concrete(S, text, m))

    def reuse(S):
        M.world.add_dir("/o")
        s = Sink.zip_bytes_sink(APath("/o/z.zip"))
        for i in range(2):
            with s:
                S.expect(attempt(s.put, KEYS[i], b"%d" % i), lambda r: r is None, "accepted")
        with Source.zip_bytes_source(APath("/o/z.zip")) as t:
            S.expect(attempt(lambda: dict(t.items())), {KEYS[1]: b"1"}, "listing-names-exactly-what-was-written")
        s2 = Sink.zip_bytes_sink(APath("/o/z2.zip"))
        s3 = Sink.zip_bytes_sink(APath("/o/z3.zip"))
        with s2, s3:
            s2.put(KEYS[0], b"2")
            S.expect(attempt(s3.put, KEYS[0], b"3"), lambda r: r is None, "sinks-are-independent")

    run.scenario("a sink used twice", reuse)

    def again(S, text):
        """One source object, entered before and after the store is written again."""
        M.world.add_dir("/o")
        v = (lambda x: x) if text else enc
        snk = Sink.zip_character_sink if text else Sink.zip_bytes_sink
        t = (Source.zip_character_source if text else Source.zip_bytes_source)(APath("/o/z.zip"))
        i = (Source.interpret_values)(t, lambda k, x: x)
        for over, new, want in ((True, KEYS[:1], KEYS[:1]), (False, KEYS[1:2], KEYS[:2]), (True, KEYS[2:3], KEYS[2:3]), (True, [], [])):
            with snk(APath("/o/z.zip"), overwrite=over) as s:
                for k in new:
                    s.put(k, v("of " + k))
            for u in (t, i):
                with u:
                    S.expect(attempt(lambda: (sorted(u.keys()), dict(u.items()))), (sorted(want), {k: v("of " + k) for k in want}),
                             "listing-names-exactly-what-was-written", Source.keys)

    for text in (True, False):
        run.scenario("a %s source used again after the store was changed" % ("text" if text else "bytes"),
                     lambda S, text=text: again(S, text))

    def clash(S):
        M.world.add_dir("/o")
        for f, v in ((Sink.zip_character_sink, "x"), (Sink.zip_bytes_sink, b"x")):
            with f(APath("/o/z.zip"), filename_function=lambda k: "__keys" if k == KEYS[0] else k) as s:
                S.expect(attempt(s.put, KEYS[0], v), Exception, "duplicate-or-illegal-put-refused", Sink.put)
                S.expect(attempt(s.put, KEYS[1], v), lambda r: r is None, "accepted", Sink.put)
            with Source.zip_bytes_source(APath("/o/z.zip")) as t:
                S.expect(attempt(lambda: dict(t.items())), {KEYS[1]: b"x"}, "listing-names-exactly-what-was-written", Sink.put)

    run.scenario("a key stored under the name of the listing", clash)

    def custom(S):
        M.world.add_dir("/o")
        stored = {}
        for f, v in ((Sink.zip_character_sink, "x"), (Sink.zip_bytes_sink, b"x")):
            stored.clear()
            got = []

            def kin(z):
                got.append(set(z.namelist()))
                return frozenset(stored.get("keys", ()))

            def kout(z, keys):
                stored["keys"] = set(keys)
                z.writestr("mine", b"m")

            for over, keys in ((True, KEYS[:2]), (False, KEYS[2:])):
                with f(APath("/o/z.zip"), overwrite=over, keys_in_function=kin, keys_out_function=kout) as s:
                    for k in keys:
                        s.put(k, v)
                    if not over:
                        S.expect(attempt(s.put, KEYS[0], v), Exception, "duplicate-or-illegal-put-refused")
            S.require(stored["keys"] == set(KEYS), "own-listing-functions-used", lambda: "%r" % stored)
            S.require("__keys" not in dict(read_zip_bytes(M.world.content("/o/z.zip"))), "own-listing-functions-used")
            S.expect(attempt(f, APath("/o/z.zip"), keys_in_function=kin, keys_out_function=None), Exception,
                     "listing-functions-come-in-pairs")

    run.scenario("own listing functions", custom)


# --------------------------------------------------------------------------- C28
META["C28"] = dict(
    min_obligations=100,
    explanation="Everything written to a store by each kind of sink, for mappings of opaque keys and opaque, empty and multi-"
                "line values, is read back by each matching source and must be the same mapping; directory stores may write "
                "only inside their directory.")


def c28(run):
    Sink, Source, Linear = apis()
    DirC, DirB = dir_sinks()
    run.anchor(Sink.zip_character_sink, Sink.zip_bytes_sink, DirC.put, DirB.put)
    PAIRS = {
        "zip char": (lambda: Sink.zip_character_sink(APath("/o/z.zip")), lambda: Source.zip_character_source(APath("/o/z.zip"))),
        "zip char as bytes": (lambda: Sink.zip_character_sink(APath("/o/z.zip")), lambda: Source.zip_bytes_source(APath("/o/z.zip"))),
        "zip bytes": (lambda: Sink.zip_bytes_sink(APath("/o/z.zip")), lambda: Source.zip_bytes_source(APath("/o/z.zip"))),
        "dir char": (lambda: DirC(APath("/o/dir")), lambda: Source.from_doc_id_to_file_map(APath("/o/dir/_index"))),
        "dir bytes": (lambda: DirB(APath("/o/dir")), lambda: Source.binary_from_doc_id_to_file_map(APath("/o/dir/_index"))),
        "dir char relative": (lambda: DirC(APath("dir")), lambda: Source.from_doc_id_to_file_map("dir/_index")),
    }
    more = [{tok(26): tok(33) * 3000, tok(27): "\n\n" + tok(34)}, {tok(28) + " " + tok(29): "\u2028\x85\x0b" + tok(35)},
            {tok(28) + ".txt": "\ufeff", "A": "1", "a": "2"}]
    legal = [k for k in AWKWARD if k == k.strip() and "\r" not in k]
    more += [{k: AWKWARD_VALUES[(i + 5 * j) % len(AWKWARD_VALUES)].replace("\r", "") for j, k in enumerate(legal[i:i + 12])}
             for i in range(0, len(legal), 12)]
    for pname, (mksink, mksrc) in PAIRS.items():
        for i, m in enumerate(MAPS + more):
            for order in (1, -1):
                for existing in (False, True):
                    def rt(S, pname=pname, mksink=mksink, mksrc=mksrc, m=m, order=order, existing=existing):
                        w = M.world
                        w.add_file("/o/bystander", b"b")
                        if existing:
                            w.add_dir("/o/dir" if "relative" not in pname else "/w/dir")
                            w.add_file("/o/z.zip", make_zip_bytes([("__keys", b"old"), ("old", b"old")]))
                        before = w.snapshot()
                        vals = {k: v if "bytes" not in pname or "as bytes" in pname else enc(v) for k, v in m.items()}
                        with mksink() as s:
                            for k in list(vals)[::order]:
                                s.put(k, vals[k])
                        want = {k: v if "bytes" not in pname else enc(v) for k, v in m.items()}
                        with mksrc() as t:
                            S.expect(attempt(t.keys), lambda r: sorted(r) == sorted(want), "keys-read-back")
                            S.expect(attempt(lambda: dict(t.items())), want, "values-read-back")
                            for k in want:
                                S.expect(attempt(t.get, k), want[k], "values-read-back")
                            S.expect(attempt(t.get, "old"), lambda r: r is None, "overwritten")
                        after = w.snapshot()
                        where = {"zip": "/o/z.zip", "dir": "/w/dir" if "relative" in pname else "/o/dir"}[pname[:3]]
                        S.require(all(after.get(k) == v for k, v in before.items() if not k.startswith(where)) and
                                  all(k in before or k.startswith(where) for k in after), "nothing-else-touched")
                        S.require(not w.leaked(), "everything-closed")
                        S.require(not any(e[0] == "locale-encoding" for e in w.events), "explicit-encoding")

                    run.scenario("%s, mapping %d, order %d%s" % (pname, i, order, ", over an earlier store" if existing else ""), rt)

    for pname, (mksink, mksrc) in PAIRS.items():
        for name, m in CONCRETE.items():
            def concrete(S, pname=pname, mksink=mksink, mksrc=mksrc, m=m):
                M.world.add_dir("/o")
                with mksink() as s:
                    for k, v in m.items():
                        s.put(k, v if "bytes" not in pname or "as bytes" in pname else enc(v))
                want = {k: v if "bytes" not in pname else enc(v) for k, v in m.items()}
                with mksrc() as t:
                    S.expect(attempt(t.keys), lambda r: sorted(r) == sorted(want), "keys-read-back")
                    S.expect(attempt(lambda: dict(t.items())), lambda r: r == want, "values-read-back")

            run.scenario("%s with %s" % (pname, name), concrete)

    for pname, (mksink, mksrc) in PAIRS.items():
        def crs(S, pname=pname, mksink=mksink, mksrc=mksrc):
            vals = ["a\r\nb\rc", "\r", "\r\n", tok(33) + "\r"]
            m = {tok(40 + i): v if "bytes" not in pname or "as bytes" in pname else enc(v) for i, v in enumerate(vals)}
            M.world.add_dir("/o")
            with mksink() as s:
                for k, v in m.items():
                    s.put(k, v)
            with mksrc() as t:
                S.expect(attempt(lambda: dict(t.items())), {k: v if "bytes" not in pname else enc(v) for k, v in m.items()},
                         "carriage-returns-read-back")

        run.scenario("carriage returns in values, %s" % pname, crs)

    for cls, v in ((DirC, "x"), (DirB, b"x")):
        def illegal(S, cls=cls, v=v):
            w = M.world
            w.add_file("/o/secret", b"s")
            w.add_dir("/o/dir")
            with cls(APath("/o/dir")) as s:
                before = w.snapshot()
                for k in ("../secret", "/o/secret", "a/../../secret", "_index", "a\tb", "a\nb", " a", "a\n", "a\rb", "_index/x", "./_index", "_index/", "a/../../../etc/x"):
                    S.expect(attempt(s.put, k, v), Exception, "key-refused", cls.put)
                S.require(w.snapshot() == before, "refused-key-changes-nothing", lambda: "%r" % [
                    k for k in w.snapshot() if k not in before], cls.put)
                s.put(KEYS[0], v)
            with Source.binary_from_doc_id_to_file_map("/o/dir/_index") as t:
                S.expect(attempt(lambda: dict(t.items())), {KEYS[0]: b"x"}, "values-read-back", cls.put)

        run.scenario("illegal keys of %s" % cls.__name__, illegal)

        def either(S, ks, cls=cls, v=v):
            """A key is refused, leaving everything as it was, or its value is read back under exactly that key."""
            w = M.world
            for k in ks:
                put = []
                w.add_dir("/o/x")
                with cls(APath("/o/x/dir")) as s:
                    before = w.snapshot()
                    o = attempt(s.put, k, v)
                    if o.ok:
                        put.append(k)
                    else:
                        S.require(w.snapshot() == before, "refused-key-changes-nothing", lambda: "%r" % k, cls.put)
                    s.put("plain", v)
                with Source.binary_from_doc_id_to_file_map("/o/x/dir/_index") as t:
                    S.expect(attempt(lambda: dict(t.items())), {x: b"x" for x in put + ["plain"]}, "values-read-back", cls.put)
                for p in sorted(w.snapshot(), reverse=True):
                    if p.startswith("/o/x/"):
                        (w.unlink if w.isfile(p) else w.rmdir)(p)

        spaces = [c for c in AWKWARD if c != c.strip()] + ["\u2003x", "x\u2003", "\x0bx", "x\x1c", "\x85x", "x\u3000", "\u2028x", "\ufeffx"]
        for i in range(0, len(spaces), 8):
            run.scenario("awkward keys %d of %s" % (i, cls.__name__), lambda S, ks=spaces[i:i + 8], either=either: either(S, ks))

        def nested_dirs(S, cls=cls, v=v):
            w = M.world
            for inside in (("sub/f",), ("sub/",), ("f",), ("sub/deep/f", "other/")):
                for p in inside:
                    (w.add_dir("/o/d/" + p[:-1]) if p.endswith("/") else w.add_file("/o/d/" + p, b"precious"))
                before = w.snapshot()
                S.expect(attempt(cls(APath("/o/d")).__enter__), Exception, "existing-files-are-not-mixed-in", cls.put)
                S.require(w.snapshot() == before, "existing-files-are-not-mixed-in", lambda: "%r" % (inside,), cls.put)

        run.scenario("a %s over a directory with directories" % cls.__name__, nested_dirs)

        def again(S, cls=cls, v=v):
            w = M.world
            s = cls(APath("/o/dir"))
            w.add_dir("/o/dir2")
            with s:
                s.put(KEYS[0], v)
                s.put(KEYS[0], v + v)
            with Source.binary_from_doc_id_to_file_map("/o/dir/_index") as t:
                S.expect(attempt(lambda: dict(t.items())), {KEYS[0]: b"xx"}, "last-put-wins", cls.put)
            before = w.snapshot()
            S.expect(attempt(s.__enter__), Exception, "existing-files-are-not-mixed-in", cls.put)
            S.require(w.snapshot() == before, "existing-files-are-not-mixed-in")
            with cls(APath("/o/dir2")) as s:
                s.put(KEYS[0], v)
                s.put(KEYS[0], v[:0])
                s.put(KEYS[2], v[:0])
            with Source.binary_from_doc_id_to_file_map("/o/dir2/_index") as t:
                S.expect(attempt(lambda: dict(t.items())), {KEYS[0]: b"", KEYS[2]: b""}, "last-put-wins", cls.put)

        def cleared(S, cls=cls, v=v):
            w = M.world
            s = cls(APath("/o/dir"))
            for i in range(2):
                with s:
                    s.put(KEYS[i], v)
                with Source.binary_from_doc_id_to_file_map("/o/dir/_index") as t:
                    S.expect(attempt(lambda: dict(t.items())), {KEYS[i]: b"x"}, "index-names-exactly-what-was-written", cls.put)
                for p in sorted(w.snapshot(), reverse=True):
                    if p.startswith("/o/dir/") and w.isfile(p):
                        w.unlink(p)
            with s:
                pass
            with Source.binary_from_doc_id_to_file_map("/o/dir/_index") as t:
                S.expect(attempt(lambda: dict(t.items())), {}, "index-names-exactly-what-was-written", cls.put)

        run.scenario("a %s whose directory was cleared" % cls.__name__, cleared)

        run.scenario("repeated use of %s" % cls.__name__, again)


# --------------------------------------------------------------------------- C31
META["C31"] = dict(
    min_obligations=300,
    explanation="The tar source is evaluated on archives of regular files, directories and links with opaque names and contents, "
                "compressed or not, under every combination of name filter, key function and key filter, and compared with the "
                "definition; the interpreting linear source likewise.")


def c31(run):
    Sink, Source, Linear = apis()
    run.anchor(Linear.byte_linear_source_from_tar_gz, Linear.str_linear_source_from_tar_gz, Linear.interpret_values)
    N = [tok(20), "d/" + tok(21), tok(22) + ".x"]
    ENT = [(N[0], "file", enc(VALS[0])), (N[1], "file", b""), (N[2], "file", enc(VALS[2])), ("d", "dir", None), ("l", "link", N[0]),
           (N[0], "file", enc(VALS[2]))]
    archives = [()] + [c for k in (1, 2, 3) for c in itertools.permutations(range(len(ENT)), k) if k < 3 or run.thorough or sum(c) % 3 == 0]
    NF = {"none": None, "all": lambda n: True, "no": lambda n: False, "first": lambda n: n == N[0]}
    KF = {"none": None, "map": lambda n: "K" + n, "skip": lambda n: None if n == N[0] else n + ".k"}
    FF = {"none": None, "plain": lambda k: k in N, "some": lambda k: N[1] in k, "mapped": lambda k: k.startswith("K") or k.endswith(".k")}
    n = 0
    for arc in archives:
        for (nn, nf), (kn, kf), (fn, ff) in itertools.product(NF.items(), KF.items(), FF.items()):
            n += 1
            if len(arc) == 3 and n % 5:
                continue

            def sc(S, arc=arc, nf=nf, kf=kf, ff=ff, n=n):
                w = M.world
                w.add_file("/s/t.tgz", make_tgz_bytes([ENT[i] for i in arc], ("w:gz", "w", "w:bz2", "w:xz")[n % 4]))
                before = w.snapshot()
                kw = {}
                seen = []
                if nf:
                    kw["name_filter"] = lambda x: (seen.append(x), nf(x))[1]
                if kf:
                    kw["key_function"] = kf
                want = []
                for i in arc:
                    name, typ, data = ENT[i]
                    if typ == "file" and (nf is None or nf(name)):
                        k = kf(name) if kf else name
                        if k is not None and (ff is None or ff(k)):
                            want.append((k, data))
                a = {"key_filter": ff} if ff else {}
                with Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz"), **kw) as s:
                    S.expect(attempt(lambda: list(s.items(**a))), want, "tar-items", Linear.byte_linear_source_from_tar_gz)
                    S.expect(attempt(lambda: list(s.items(**a))), want, "tar-items-again")
                S.require(all(x in N for x in seen), "name-filter-gets-member-names")
                with Linear.str_linear_source_from_tar_gz(APath("/s/t.tgz"), **kw) as s:
                    S.expect(attempt(lambda: list(s.items(**a))), [(k, v.decode("utf-8")) for k, v in want], "tar-items-as-text",
                             Linear.str_linear_source_from_tar_gz)
                calls = []

                def f(k, v):
                    calls.append((k, v))
                    return (v, k)

                with Linear.interpret_values(Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz"), **kw), f) as s:
                    S.expect(attempt(lambda: list(s.items(**a))), [(k, (v, k)) for k, v in want], "interpreted-items",
                             Linear.interpret_values)
                    S.require(calls == want, "interpretation-called-as-promised", lambda: "%r" % calls)
                S.require(not w.leaked(), "everything-closed")
                S.require(w.snapshot() == before, "reading-changes-nothing")

            run.scenario(lambda arc=arc, nn=nn, kn=kn, fn=fn: "archive %s, name filter %s, key function %s, key filter %s" % (
                arc, nn, kn, fn), sc)

    def inc(S):
        M.world.add_file("/s/t.tgz", make_tgz_bytes([ENT[0], ENT[2]]))
        with Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz")) as s:
            it = s.items()
            S.expect(attempt(next, it), (N[0], enc(VALS[0])), "tar-items")
            S.expect(attempt(next, it), (N[2], enc(VALS[2])), "tar-items")
            S.expect(attempt(next, it), StopIteration, "tar-items")
        M.world.add_file("/s/b.tgz", make_tgz_bytes([("b", "file", b"a\xff\xfe")]))
        with Linear.str_linear_source_from_tar_gz(APath("/s/b.tgz")) as s:
            S.expect(attempt(lambda: list(s.items())), UnicodeDecodeError, "undecodable-value-is-an-error")

    run.scenario("step by step", inc)

    def concrete(S, m, mode):
        M.world.add_file("/s/t.tgz", make_tgz_bytes([(n, "file", enc(v)) for n, v in m.items()], mode))
        for read, want in ((Linear.byte_linear_source_from_tar_gz, [(k, enc(v)) for k, v in m.items()]),
                           (Linear.str_linear_source_from_tar_gz, list(m.items()))):
            with read(APath("/s/t.tgz")) as s:
                S.expect(attempt(lambda: list(s.items())), lambda r: r == want, "tar-items", read)
                S.expect(attempt(lambda: list(s.items(lambda k: k != "a"))), lambda r: r == [x for x in want if x[0] != "a"], "tar-items", read)

    for name, m in CONCRETE.items():
        for mode in ("w:gz", "w"):
            run.scenario("archive (%s) with %s" % (mode, name), lambda S, m=m, mode=mode: concrete(S, m, mode))

    def truthy(S):
        M.world.add_file("/s/t.tgz", make_tgz_bytes([ENT[0], ENT[2], ENT[5], ENT[3]]))
        want = [(N[0], ENT[0][2]), (N[0], ENT[5][2])]
        for yes, no in ((1, 0), ("y", ""), ([0], []), (2.5, None)):
            def f(n):
                return yes if n == N[0] else no

            for kw, a in (({"name_filter": f}, {}), ({}, {"key_filter": f}), ({"name_filter": f}, {"key_filter": f})):
                with Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz"), **kw) as s:
                    S.expect(attempt(lambda: list(s.items(**a))), want, "tar-items", Linear.byte_linear_source_from_tar_gz)

    run.scenario("filters answering other things than booleans", truthy)

    def order(S):
        """Entries which one filter leaves out are not given to the next function."""
        M.world.add_file("/s/t.tgz", make_tgz_bytes([("a/x", "file", b"1"), ("b", "file", b"2"), ("d", "dir", None), ("a/y", "file", b"3")]))

        def key(n):
            return n.split("/")[1]

        def among(k):
            return {"x": True, "y": False}[k]

        with Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz"), name_filter=lambda n: n.startswith("a/"), key_function=key) as s:
            S.expect(attempt(lambda: list(s.items())), [("x", b"1"), ("y", b"3")], "tar-items", Linear.byte_linear_source_from_tar_gz)
            S.expect(attempt(lambda: list(s.items(among))), [("x", b"1")], "tar-items", Linear.byte_linear_source_from_tar_gz)
        with Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz"), key_function=lambda n: n[2:] or None) as s:
            S.expect(attempt(lambda: list(s.items(among))), [("x", b"1")], "tar-items", Linear.byte_linear_source_from_tar_gz)

    run.scenario("functions defined on what is left only", order)

    ODD = ["./x", ".x", "a//b", "..x", "x/./y", "-", "x ", " x", "../x", "./", "a/../b", ".a/.b", "x" * 120 + "/" + "y" * 120] + AWKWARD

    def odd(S, names, i):
        vals = [enc(AWKWARD_VALUES[(3 * i + j) % len(AWKWARD_VALUES)]) for j in range(len(names))]
        names = [n for n in names if not n.endswith("/")]
        want = list(zip(names, vals))
        M.world.add_file("/s/t.tgz", make_tgz_bytes([(n, "file", v) for n, v in want]))
        with Linear.byte_linear_source_from_tar_gz(APath("/s/t.tgz")) as s:
            S.expect(attempt(lambda: list(s.items())), want, "tar-items", Linear.byte_linear_source_from_tar_gz)
            for n, v in want:
                S.expect(attempt(lambda: list(s.items(lambda k: k == n))), [x for x in want if x[0] == n], "tar-items",
                         Linear.byte_linear_source_from_tar_gz)
        with Linear.str_linear_source_from_tar_gz(APath("/s/t.tgz"), key_function=lambda n: "K" + n + " ") as s:
            S.expect(attempt(lambda: list(s.items())), [("K" + k + " ", v.decode("utf-8")) for k, v in want], "tar-items-as-text",
                     Linear.str_linear_source_from_tar_gz)

    for i in range(0, len(ODD), 6):
        run.scenario("awkward names %d" % i, lambda S, i=i: odd(S, ODD[i:i + 6], i))


# --------------------------------------------------------------------------- C30
META["C30"] = dict(
    min_obligations=100,
    explanation="Each of the six functions building stores from parameters is evaluated on every documented form of the type "
                "parameter (shortcuts, classes, callables, expressions from the caller's context), in default and named "
                "namespaces, and the store obtained is compared with the one built directly; other forms must be refused.")

USER = """
from vistautils.key_value import KeyValueSource, KeyValueSink
class Mine:
    pass
class Src(KeyValueSource):
    def __init__(self, params):
        self.params = params
    @staticmethod
    def from_parameters(params):
        return Src(params)
    def __getitem__(self, item):
        return item
    def get(self, key, _default=None):
        return key
    def __exit__(self, *a):
        return None
class Snk(KeyValueSink):
    def __init__(self, params):
        self.params = params
    @staticmethod
    def from_parameters(params):
        return Snk(params)
    def put(self, key, value):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return None
def make_src(params):
    return Src(params)
def make_snk(params):
    return Snk(params)
"""


def c30(run):
    Sink, Source, Linear = apis()
    Params, Err = api("vistautils.parameters", "Parameters", "ParameterError")
    names = ["char_key_value_linear_source_from_params", "byte_key_value_linear_source_from_params",
             "char_key_value_source_from_params", "byte_key_value_source_from_params", "char_key_value_sink_from_params",
             "byte_key_value_sink_from_params"]
    fns = {n: api(MOD, n) for n in names}
    run.anchor(*fns.values())

    for n, f in fns.items():
        sink = "sink" in n
        text = n.startswith("char")
        arg = "output_namespace" if sink else "input_namespace"
        default = "output" if sink else "input"
        for ns in (default, "other", "a.b"):
            def params(d, ns=ns):
                out = d
                for k in reversed(ns.split(".")):
                    out = {k: out}
                return Params.from_mapping(out)

            def call(p, ns=ns, **kw):
                if ns != default:
                    kw[arg] = ns
                return attempt(f, p, **kw)

            def call2(p, f=f, ns=ns, default=default, arg=arg, **kw):
                if ns != default:
                    kw[arg] = ns
                return attempt(f, p, **kw)

            def shortcuts(S, f=f, sink=sink, text=text, params=params, call=call2):
                w = M.world
                w.add_dir("/o/dir")
                w.add_file("/s/f0", enc(VALS[0]))
                w.add_file("/s/map", KEYS[0] + "\t/s/f0\n")
                w.add_file("/s/z.zip", make_zip_bytes([("__keys", enc(KEYS[0])), (KEYS[0], enc(VALS[0]))]))
                v = VALS[0] if text else enc(VALS[0])
                if not sink:
                    for t, path in (("zip", "/s/z.zip"), ("file-map", "/s/map")):
                        o = call(params({"type": t, "path": path}))
                        if S.expect(o, lambda r: isinstance(r, Source), "shortcut-%s" % t, f):
                            with o.value as s:
                                S.expect(attempt(lambda: dict(s.items())), {KEYS[0]: v}, "shortcut-%s" % t, f)
                        S.expect(call(params({"type": t, "path": "/s/none"})), Err, "missing-store-refused", f)
                        S.expect(call(params({"type": t})), Err, "missing-path-refused", f)
                else:
                    for t, path in (("zip", "/o/new/z.zip"), ("file-map", "/o/dir")):
                        o = call(params({"type": t, "path": path}))
                        if S.expect(o, lambda r: isinstance(r, Sink), "shortcut-%s" % t, f):
                            with o.value as s:
                                s.put(KEYS[0], v)
                            if t == "zip":
                                S.expect(attempt(lambda: dict(read_zip_bytes(w.content(path)))),
                                         {"__keys": enc(KEYS[0]), KEYS[0]: enc(VALS[0])}, "shortcut-%s" % t, f)
                            else:
                                S.expect(attempt(lambda: w.content(path + "/" + KEYS[0])), enc(VALS[0]), "shortcut-%s" % t, f)
                                S.require(w.isfile(path + "/_index"), "shortcut-%s" % t, "no index", f)
                        S.expect(call(params({"type": t})), Err, "missing-path-refused", f)
                S.expect(call(params({"path": "/s/z.zip"})), Exception, "type-required", f)
                S.expect(call(Params.empty()), Exception, "namespace-required", f)
                if "." in ns:
                    for k in ("a", "b", "input", "output"):
                        S.expect(call(Params.from_mapping({k: {"type": "zip", "path": "/s/z.zip"}})), Exception, "namespace-required", f)
                S.expect(call(params({"type": "no_such_thing", "path": "/s/z.zip"})), Exception, "unknown-type-refused", f)
                S.expect(call(params({"type": 3, "path": "/s/z.zip"})), Exception, "unknown-type-refused", f)
                S.require(not w.leaked(), "everything-closed")

            run.scenario("%s: shortcuts in %s" % (n, ns), shortcuts)

            def over(S, f=f, sink=sink, text=text, params=params, call=call2, ns=ns, default=default):
                w = M.world
                if sink:
                    for extra in ({}, {"overwrite": False}, {"overwrite": True}, {"append": True}, {"mode": "a"}):
                        w.add_file("/o/z.zip", make_zip_bytes([("__keys", b"old"), ("old", b"old")]))
                        o = call(params(dict({"type": "zip", "path": "/o/z.zip"}, **extra)))
                        if S.expect(o, lambda r: isinstance(r, Sink), "shortcut-zip", f):
                            with o.value as s:
                                s.put(KEYS[0], VALS[0] if text else enc(VALS[0]))
                            S.expect(attempt(lambda: dict(read_zip_bytes(w.content("/o/z.zip")))),
                                     {"__keys": enc(KEYS[0]), KEYS[0]: enc(VALS[0])}, "shortcut-zip", f)
                w.add_file("/s/z.zip", make_zip_bytes([("__keys", enc(KEYS[0])), (KEYS[0], enc(VALS[0]))]))
                path = "/o/right.zip" if sink else "/s/z.zip"
                decoy = {"type": "zip", "path": "/o/wrong.zip" if sink else "/s/wrong.zip"}
                w.add_file("/s/wrong.zip", make_zip_bytes([("__keys", b"old"), ("old", b"old")]))
                d = params({"type": "zip", "path": path}).as_nested_dicts()
                for k in ("input", "output", "other"):
                    d.setdefault(k, decoy)
                o = call(Params.from_mapping(d))
                if not S.expect(o, lambda r: isinstance(r, Sink if sink else Source), "namespace-used", f):
                    return
                with o.value as s:
                    if sink:
                        s.put(KEYS[0], VALS[0] if text else enc(VALS[0]))
                    else:
                        S.expect(attempt(lambda: dict(s.items())), {KEYS[0]: VALS[0] if text else enc(VALS[0])}, "namespace-used", f)
                S.require(not sink or (w.isfile(path) and not w.isfile("/o/wrong.zip")), "namespace-used", "", f)

            run.scenario("%s: earlier stores and other namespaces, in %s" % (n, ns), over)

            def user(S, f=f, sink=sink, params=params, call=call2, ns=ns):
                mod = env.LOADER.source(USER, "usermod", "<scenario>")
                cls = mod.Snk if sink else mod.Src
                cn, fn = ("Snk", "make_snk") if sink else ("Src", "make_src")
                good = lambda r: isinstance(r, cls) and r.params.as_nested_dicts()["x"] == tok(5) and tuple(  # noqa
                    r.params.namespace_prefix) == tuple(ns.split("."))
                M.world.modules["usermod"] = mod
                for t in (cn, fn):
                    o = call(params({"type": t, "x": tok(5)}), eval_context=dict(vars(mod)))
                    S.expect(o, good, "type-from-the-callers-context", f)
                    o = call(params({"type": "usermod." + t, "x": tok(5), "import": ["usermod"]}))
                    S.expect(o, good, "imported-type", f)
                    S.expect(call(params({"type": t, "x": tok(5)})), Exception, "unknown-type-refused", f)
                for t in ("Path", "Parameters", "KeyValueSink", "KeyValueSource", "_identity", "dict"):
                    o = call(params({"type": t, "x": tok(5)}), eval_context={t: cls})
                    S.expect(o, good, "type-from-the-callers-context", f)
                wrong = "make_src" if sink else "make_snk"
                S.expect(call(params({"type": wrong, "x": 1}), eval_context=dict(vars(mod))), Err, "wrong-kind-refused", f)
                S.expect(call(params({"type": "Mine", "x": 1}), eval_context=dict(vars(mod))), Err, "wrong-kind-refused", f)
                ctx = dict(vars(mod))
                ref = dict(ctx)
                call(params({"type": cn, "x": 1}), eval_context=ctx)
                S.require({k: v for k, v in ctx.items() if k != "__builtins__"} ==
                          {k: v for k, v in ref.items() if k != "__builtins__"}, "context-unchanged", "", f)

            run.scenario("%s: own types in %s" % (n, ns), user)
    for n in names[:2]:
        def lin(S, f=fns[n]):
            mod = env.LOADER.source("""
from vistautils.key_value import KeyValueLinearSource
class Lin(KeyValueLinearSource):
    def __exit__(self, *a):
        return None
def make(params):
    return Lin()
""", "usermod", "<scenario>")
            S.expect(attempt(f, Params.from_mapping({"input": {"type": "make"}}), eval_context=dict(vars(mod))),
                     lambda r: isinstance(r, mod.Lin), "linear-sources-accepted", f)
            for m in names[2:4]:
                S.expect(attempt(fns[m], Params.from_mapping({"input": {"type": "make"}}), eval_context=dict(vars(mod))), Err,
                         "linear-sources-refused-where-random-access-is-needed", fns[m])

        run.scenario("%s: linear sources" % n, lin)
