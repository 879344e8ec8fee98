"""Specifications of vistautils.io_utils.

Contents are words of opaque tokens (unknown characters which are neither line ends nor otherwise special) and line ends;
files and archives live in the abstract file system, which can fail at any one call.
"""
import itertools

from absint import check, env, world
from absint.check import api, attempt
from absint.core import M
from absint.values import tok
from absint.world import APath, AZipFile, make_gzip_bytes, make_tgz_bytes, make_zip_bytes, read_zip_bytes

MOD = "vistautils.io_utils"
META = {}
A, B, C = tok(0), tok(1), tok(2)

TEXTS = ["", A, "\n", A + "\n", A + "\n" + B, "\n\n", A + "\n\n", "\n" + A, A + "\n" + B + "\n" + C + "\n", " " + A + " \n\t",
         A + "\u2028" + B, A + "\x0b" + B + "\x0c\n" + C + "\x85" + A + "\n", "\ufeff" + A, A + "\x00" + B, A + "\n\x00", "\x00", "\x1a" + A + "\x1a", "\u00e9\U0001f600" + A]
LONG = (A + B) * 6000 + "\n" + C * 9000

ENCS = ("utf-8", "gb18030", "utf-16", "utf-32-be", "utf-8-sig", "utf-16-le")


def expect_lines(text):
    parts = text.split("\n")
    return parts[:-1] if parts[-1] == "" else parts


def char_sources(text, encoding=None):
    """name -> maker of a character source whose content is text (installs what it needs in the world)."""
    CharSource, ByteSource = api(MOD, "CharSource", "ByteSource")
    enc = encoding or "utf-8"
    data = text.encode(enc)
    member = "d/" + (tok(40) if encoding in (None,) + ENCS else "m")
    w = M.world
    if encoding is None:
        w.add_file("/s/f", data)
        w.add_file("/w/rel", data)
        w.add_file("/s/z.zip", make_zip_bytes([("other", b"o"), (member, data), ("z", b"z")]))
        yield "string", lambda: CharSource.from_string(text)
        yield "file", lambda: CharSource.from_file(APath("/s/f"))
        yield "file named by string", lambda: CharSource.from_file("/s/f")
        yield "file named relatively", lambda: CharSource.from_file("rel")
        yield "zip", lambda: CharSource.from_file_in_zip(APath("/s/z.zip"), member)
        zf = AZipFile(APath("/s/z.zip"))
        w.handles.pop()
        yield "open zip", lambda: CharSource.from_file_in_zip(zf, member)
        if text == "":
            yield "nowhere", lambda: CharSource.from_nowhere()
    w.add_file("/s/b", data)
    w.add_file("/s/g.gz", make_gzip_bytes(data))
    kw = {"encoding": encoding} if encoding else {}
    yield "bytes", lambda: CharSource.from_byte_source(ByteSource.from_file(APath("/s/b")), **kw)
    yield "gzip", lambda: CharSource.from_gzipped_file(APath("/s/g.gz"), **kw)
    if enc not in ("utf-16", "utf-32-be", "utf-16-le"):
        w.add_file("/s/t.tgz", make_tgz_bytes([("other", "file", b"o"), ("d", "dir", None), (member, "file", data),
                                              ("z", "file", b"z"), ("l", "link", member)]))
        yield "tgz", lambda: CharSource.from_file_in_tgz(APath("/s/t.tgz"), member, **kw)
        yield "tgz link", lambda: CharSource.from_file_in_tgz(APath("/s/t.tgz"), "l", **kw)


def byte_sources(data):
    ByteSource = api(MOD, "ByteSource")
    w = M.world
    member = "d/" + tok(40)
    w.add_file("/s/f", data)
    w.add_file("/s/z.zip", make_zip_bytes([("other", b"o"), (member, data)]))
    yield "file", lambda: ByteSource.from_file(APath("/s/f"))
    yield "zip", lambda: ByteSource.from_file_in_zip(APath("/s/z.zip"), member)
    zf = AZipFile(APath("/s/z.zip"))
    w.handles.pop()
    yield "open zip", lambda: ByteSource.from_file_in_zip(zf, member)


CHAR_KINDS = ("string", "file", "file named by string", "file named relatively", "zip", "open zip", "nowhere", "bytes", "gzip", "tgz", "tgz link")
BYTE_KINDS = ("file", "zip", "open zip")


def pick(gen, kind):
    for k, mk in gen:
        if k == kind:
            made = mk
            break
    else:
        return None
    return made


# --------------------------------------------------------------------------- C22
META["C22"] = dict(
    min_obligations=300, workers=4,
    explanation="Typestate of every file, archive and archive member opened by a source or sink operation: on every path "
                "through the operation, including a failure injected at each single call to the environment, a missing or "
                "unreadable archive member and an exception in the caller's block, everything opened is closed at the end.")


class _Closing(check.Run):
    """Explores another specification's scenarios; judges nothing but whether everything was closed."""

    def __init__(self, parent):
        super().__init__(parent.pid, parent.tier, parent.worker, parent.workers)
        self.parent = parent

    def require(self, cond, rule, detail="", at=None):
        if rule in ("everything-closed", "files-closed"):
            self.parent.current = self.current
            self.parent.require(cond, "everything-closed", detail, at)
        return bool(cond)

    def fail(self, *a, **kw):
        pass


def c22(run):
    CharSource, ByteSource, CharSink, ByteSink = api(MOD, "CharSource", "ByteSource", "CharSink", "ByteSink")
    run.anchor(CharSource.read_all, CharSource.readlines, CharSource.is_empty, ByteSource.read, CharSink.write, ByteSink.write)

    class Stop(Exception):
        pass

    def body(src, n, stop):
        with src.open() as f:
            for _ in range(n):
                f.read(1)
            if stop:
                raise Stop()

    def sink_body(sink, data, stop):
        with sink.open() as f:
            f.write(data)
            if stop:
                raise Stop()
            f.write(data)

    CHAR_OPS = {
        "read_all": lambda s: s.read_all(), "readlines": lambda s: s.readlines(), "is_empty": lambda s: s.is_empty(),
        "block": lambda s: body(s, 1, False), "block that raises": lambda s: body(s, 1, True),
        "empty block": lambda s: body(s, 0, False), "open and close": lambda s: s.open().close(),
        "iterate": lambda s: use(s, list), "reread": lambda s: (s.read_all(), s.is_empty(), s.read_all()),
        "close twice": lambda s: twice(s)}

    def use(s, f):
        with s.open() as inp:
            return f(inp)

    def twice(s):
        f = s.open()
        f.close()
        f.close()

    BYTE_OPS = {k: v for k, v in CHAR_OPS.items() if k not in ("read_all", "readlines", "is_empty", "reread")}
    BYTE_OPS.update({"read": lambda s: s.read(), "read one": lambda s: s.read(1)})

    def check(S, o, fn, faulty):
        S.require(not M.world.leaked(), "everything-closed", lambda: "still open: %r after it %r" % (M.world.leaked(), o), fn)
        if not faulty and o.kind == "exc":
            S.require(isinstance(o.value, Stop), "operation-works", lambda: "%r" % o, fn)

    for kind in CHAR_KINDS:
        for opname, op in CHAR_OPS.items():
            for faulty in (False, True):
                def sc(S, kind=kind, opname=opname, op=op, faulty=faulty):
                    text = "" if kind == "nowhere" else A + "\n" + B
                    mk = pick(char_sources(text), kind)
                    before = M.world.snapshot()
                    if faulty:
                        M.world.faults = lambda o, p: True
                    o = attempt(lambda: op(mk()))
                    M.world.faults = None
                    check(S, o, getattr(CharSource, opname, None), M.world.fault_used)
                    S.require(M.world.snapshot() == before, "sources-change-nothing")

                run.scenario("%s of a %s source%s" % (opname, kind, ", one failure" if faulty else ""), sc)
    for kind in BYTE_KINDS:
        for opname, op in BYTE_OPS.items():
            for faulty in (False, True):
                def sc(S, kind=kind, opname=opname, op=op, faulty=faulty):
                    mk = pick(byte_sources(b"abc"), kind)
                    if faulty:
                        M.world.faults = lambda o, p: True
                    o = attempt(lambda: op(mk()))
                    M.world.faults = None
                    check(S, o, getattr(ByteSource, opname, None), M.world.fault_used)

                run.scenario("%s of a %s byte source%s" % (opname, kind, ", one failure" if faulty else ""), sc)

    BAD = {
        "missing": lambda w: None,
        "garbage": lambda w: [w.add_file(p, b"garbage \xff\xfe") for p in ("/s/f", "/s/z.zip", "/s/g.gz", "/s/t.tgz")],
        "no such member": lambda w: (w.add_file("/s/z.zip", make_zip_bytes([("other", b"o")])),
                                     w.add_file("/s/t.tgz", make_tgz_bytes([("other", "file", b"o")]))),
        "member is a directory": lambda w: (w.add_file("/s/t.tgz", make_tgz_bytes([("m", "dir", None)])),),
        "undecodable": lambda w: (w.add_file("/s/f", b"a\xff\xfe"), w.add_file("/s/g.gz", make_gzip_bytes(b"a\xff\xfe")),
                                  w.add_file("/s/z.zip", make_zip_bytes([("m", b"a\xff\xfe")])),
                                  w.add_file("/s/t.tgz", make_tgz_bytes([("m", "file", b"a\xff\xfe")]))),
        "truncated": lambda w: (w.add_file("/s/g.gz", make_gzip_bytes(b"abc" * 50)[:-9]),
                                w.add_file("/s/z.zip", make_zip_bytes([("m", b"abc" * 50)])[:-9]),
                                w.add_file("/s/t.tgz", make_tgz_bytes([("m", "file", b"abc" * 50)])[:-30])),
        "directory": lambda w: [w.add_dir(p) for p in ("/s/f", "/s/z.zip", "/s/g.gz", "/s/t.tgz")],
    }
    MK = {"file": lambda: CharSource.from_file(APath("/s/f")), "zip": lambda: CharSource.from_file_in_zip(APath("/s/z.zip"), "m"),
          "gzip": lambda: CharSource.from_gzipped_file(APath("/s/g.gz")),
          "tgz": lambda: CharSource.from_file_in_tgz(APath("/s/t.tgz"), "m"),
          "wrapped zip": lambda: CharSource.from_byte_source(ByteSource.from_file_in_zip(APath("/s/z.zip"), "m"))}
    for bad, setup in BAD.items():
        for kind, mk in MK.items():
            for opname, op in CHAR_OPS.items():
                def sc(S, setup=setup, mk=mk, op=op, opname=opname):
                    setup(M.world)
                    o = attempt(lambda: op(mk()))
                    check(S, o, getattr(CharSource, opname, None), True)

                run.scenario("%s of a %s source: %s" % (opname, kind, bad), sc)

    for stop in (False, True):
        for faulty in (False, True):
            for kind in ("file", "file named by string", "string", "nowhere", "byte file", "zip", "existing zip", "buffer",
                         "zip in a missing directory", "garbage zip"):
                for whole in (False, True):
                    def sc(S, stop=stop, faulty=faulty, kind=kind, whole=whole):
                        w = M.world
                        w.add_dir("/o")
                        if kind == "existing zip":
                            w.add_file("/o/x.zip", make_zip_bytes([("other", b"o")]))
                        if kind == "garbage zip":
                            w.add_file("/o/x.zip", b"garbage")
                        if faulty:
                            w.faults = lambda o, p: True
                        char = kind in ("file", "file named by string", "string", "nowhere")
                        data = A + "\n" if char else b"ab"

                        def go():
                            s = {"file": lambda: CharSink.to_file(APath("/o/n/x")),
                                 "file named by string": lambda: CharSink.to_file("/o/n/x"), "string": CharSink.to_string,
                                 "nowhere": CharSink.to_nowhere, "byte file": lambda: ByteSink.to_file(APath("/o/n/x")),
                                 "zip": lambda: ByteSink.file_in_zip(APath("/o/x.zip"), "m"), "buffer": ByteSink.to_buffer,
                                 "zip in a missing directory": lambda: ByteSink.file_in_zip(APath("/o/no/x.zip"), "m"),
                                 }.get(kind, lambda: ByteSink.file_in_zip(APath("/o/x.zip"), "m"))()
                            return s.write(data) if whole else sink_body(s, data, stop)

                        o = attempt(go)
                        w.faults = None
                        fn = (CharSink if char else ByteSink).write
                        S.require(not w.leaked(), "everything-closed", lambda: "still open: %r after it %r" % (w.leaked(), o), fn)
                        if stop and not whole and not w.fault_used and kind not in ("zip in a missing directory", ):
                            S.expect(o, Stop, "exceptions-pass-through", fn)
                        # (the zip library itself takes an unreadable end record for "not a zip file yet")
                        if w.fault_used and w.fault_used[0] != "read":
                            S.expect(o, Exception, "failures-are-reported", fn)

                    if not (whole and stop):
                        run.scenario("%s to a %s sink%s%s" % ("write" if whole else "block", kind, ", body raises" if stop else "",
                                                            ", one failure" if faulty else ""), sc)

    def misc(S, what, faulty):
        w = M.world
        rd, wr, lines = api(MOD, "read_doc_id_to_file_map", "write_doc_id_to_file_map", "file_lines_to_set")
        w.add_file("/o/m", A + "\t/x\n" + (B + "\n" if what == "bad map" else ""))
        if faulty:
            w.faults = lambda o, p: True
        o = attempt({"lines": lambda: lines(APath("/o/m")), "map": lambda: rd(CharSource.from_file("/o/m")),
                     "bad map": lambda: rd(CharSource.from_file("/o/m")),
                     "write": lambda: wr({A: APath("/x"), B: APath("y")}, CharSink.to_file("/o/out"))}[what])
        w.faults = None
        S.require(not w.leaked(), "everything-closed", lambda: "still open: %r after it %r" % (w.leaked(), o), rd)
        if w.fault_used:
            S.expect(o, Exception, "failures-are-reported", rd)

    import importlib
    for mod, fns in (("specs.kvspec", ("c26", "c31")), ("specs.scriptspec", ("c32", "c40", "c41")),
                     ("specs.params", ("c18", "c21")), ("specs.iospec", ("c25",))):
        for fn in fns:
            sub = _Closing(run)
            getattr(importlib.import_module(mod), fn)(sub)
            run.scenarios += sub.scenarios
            run.paths += sub.paths
            run.steps += sub.steps
            run.nontrivial += sub.nontrivial

    for what in ("lines", "map", "bad map", "write"):
        for faulty in (False, True):
            run.scenario("%s%s" % (what, ", one failure" if faulty else ""), lambda S, what=what, faulty=faulty: misc(S, what, faulty))


# --------------------------------------------------------------------------- C24
META["C24"] = dict(
    min_obligations=1000, workers=4,
    explanation="Every kind of character source is evaluated on the same opaque contents (with line ends, other Unicode line "
                "separators, leading byte-order mark, empty, longer than any buffer) and must give the same text, lines, "
                "emptiness and incremental reads; byte sources the same bytes for every size.")


def c24(run):
    CharSource, ByteSource = api(MOD, "CharSource", "ByteSource")
    run.anchor(CharSource.read_all, CharSource.readlines, CharSource.is_empty, CharSource.from_string, CharSource.from_file,
               CharSource.from_gzipped_file, CharSource.from_file_in_tgz, CharSource.from_file_in_zip,
               CharSource.from_byte_source, ByteSource.read, ByteSource.from_file, ByteSource.from_file_in_zip)

    def same(S, text, encoding, kind):
        mk = pick(char_sources(text, encoding), kind)
        if mk is None:
            return
        before = M.world.snapshot()
        src = mk()
        order = [("is_empty", text == ""), ("read_all", text), ("readlines", expect_lines(text)), ("read_all", text),
                 ("is_empty", text == ""), ("readlines", expect_lines(text))]
        for m, want in order:
            S.expect(attempt(getattr(src, m)), want, m, getattr(CharSource, m))

        def it():
            with src.open() as f:
                return list(f)

        S.expect(attempt(it), [x + "\n" for x in expect_lines(text)] if text.endswith("\n") or not text else
                 [x + "\n" for x in expect_lines(text)[:-1]] + [expect_lines(text)[-1]], "iteration", CharSource.read_all)

        def inc():
            with src.open() as f, src.open() as g:
                out = []
                a = f.read(1)
                out.append(g.read())
                out.append(a + f.read())
                return out

        S.expect(attempt(inc), [text, text], "each-open-starts-at-the-beginning", CharSource.read_all)
        S.require(M.world.snapshot() == before, "sources-change-nothing")
        S.require(not any(e[0] == "locale-encoding" for e in M.world.events), "explicit-encoding",
                  lambda: "%r" % [e for e in M.world.events if e[0] == "locale-encoding"])

    for kind in CHAR_KINDS:
        for i, text in enumerate(TEXTS + [LONG]):
            if kind == "nowhere" and text:
                continue
            for e in (None,) + (ENCS if kind in ("bytes", "gzip", "tgz", "tgz link") else ()):
                run.scenario("%s source of text %d in %s" % (kind, i, e or "default encoding"),
                             lambda S, text=text, e=e, kind=kind: same(S, text, e, kind))

    def coded(S, kind, e):
        """Concrete texts in the encodings where the same bytes mean different characters."""
        texts = [bytes(range(0xa0, 0x100)).decode(e, "ignore"), "plain", "", bytes(range(0x80, 0xa0)).decode(e, "ignore") + "\nz",
                 "\ufeff", "\ufeff\n", "\u00e9" * 90 + "x" * 30, "~a~ +b- &c;", "a\tb  \x1a", "\n" * 120]
        for text in texts:
            try:
                ok = text.encode(e).decode(e) == text and (text.endswith("z") or "\x85" not in text)
            except UnicodeError:
                ok = False
            if not ok:
                continue
            text = text.replace("\r\n", "\n").replace("\r", "\n") if kind != "string" else text
            mk = pick(char_sources(text, None if e == "utf-8" and kind not in ("bytes", "gzip", "tgz", "tgz link") else e), kind)
            src = mk()
            S.expect(attempt(repr, src), lambda r: isinstance(r, str), "shown")
            for m, want in (("read_all", text), ("readlines", expect_lines(text)), ("is_empty", text == ""), ("read_all", text)):
                S.expect(attempt(getattr(src, m)), want, m, getattr(CharSource, m))
            S.require(not any(x[0] == "locale-encoding" for x in M.world.events), "explicit-encoding")

    for kind in CHAR_KINDS:
        for e in ("utf-8", "latin-1", "iso-8859-15", "cp1252", "cp437", "koi8-r", "mac-roman", "ascii", "shift_jis", "utf-7") if kind in (
                "bytes", "gzip", "tgz", "tgz link") else ("utf-8",):
            if kind != "nowhere":
                run.scenario("%s source of concrete texts in %s" % (kind, e), lambda S, kind=kind, e=e: coded(S, kind, e))

    # longer than the buffers of any layer, with short lines and with one long line at the end
    HUGE = "".join("line %d \u00e9\u4e2d%s\n" % (i, "x" * (i % 97)) for i in range(3000)) + "y" * 1200000 + "\n\nend"

    def huge(S, kind):
        mk = pick(char_sources(HUGE, None), kind)
        for m, want in (("read_all", HUGE), ("readlines", HUGE.split("\n")), ("is_empty", False)):
            S.expect(attempt(getattr(mk(), m)), lambda r: r == want and type(r) is type(want), m, getattr(CharSource, m))

    for kind in CHAR_KINDS:
        if kind != "nowhere":
            run.scenario("%s source of a long text" % kind, lambda S, kind=kind: huge(S, kind))

    def crs(S, kind):
        for raw in ("\r\n", "\r", "a\r\nb\rc\n\r\r\n", "\r\r", "x\r"):
            for e in (None, "utf-8") if kind in ("bytes", "gzip", "tgz", "tgz link") else (None,):
                mk = pick(char_sources(raw, e), kind)
                text = raw if kind == "string" else raw.replace("\r\n", "\n").replace("\r", "\n")
                S.expect(attempt(lambda: mk().read_all()), text, "line-ends-read-alike", CharSource.read_all)
                S.expect(attempt(lambda: mk().readlines()), expect_lines(text), "line-ends-read-alike", CharSource.readlines)
                S.expect(attempt(lambda: mk().is_empty()), False, "is_empty")

    for kind in CHAR_KINDS:
        if kind != "nowhere":
            run.scenario("%s source with carriage returns" % kind, lambda S, kind=kind: crs(S, kind))

    def refuse(S):
        w = M.world
        w.add_file("/s/bad", b"a\xff\xfe")
        w.add_file("/s/bad.gz", make_gzip_bytes(b"a\xff\xfe"))
        w.add_file("/s/bad.zip", make_zip_bytes([("m", b"a\xff\xfe")]))
        w.add_file("/s/bad.tgz", make_tgz_bytes([("m", "file", b"a\xff\xfe"), ("d", "dir", None)]))
        mks = [lambda: CharSource.from_file(APath("/s/bad")), lambda: CharSource.from_gzipped_file(APath("/s/bad.gz")),
               lambda: CharSource.from_file_in_zip(APath("/s/bad.zip"), "m"),
               lambda: CharSource.from_file_in_tgz(APath("/s/bad.tgz"), "m"),
               lambda: CharSource.from_byte_source(ByteSource.from_file(APath("/s/bad")))]
        for mk in mks:
            for m in ("read_all", "readlines"):
                S.expect(attempt(lambda: getattr(mk(), m)()), UnicodeDecodeError, "undecodable-content-refused")
        gone = [lambda: CharSource.from_file(APath("/s/no")), lambda: CharSource.from_file("/s/no"),
                lambda: CharSource.from_gzipped_file(APath("/s/no.gz")),
                lambda: CharSource.from_file_in_zip(APath("/s/no.zip"), "m"),
                lambda: CharSource.from_file_in_zip(APath("/s/bad.zip"), "no"),
                lambda: CharSource.from_file_in_tgz(APath("/s/no.tgz"), "m"),
                lambda: CharSource.from_file_in_tgz(APath("/s/bad.tgz"), "no"),
                lambda: CharSource.from_byte_source(ByteSource.from_file(APath("/s/no")))]
        for mk in gone:
            for m in ("read_all", "readlines", "is_empty"):
                S.expect(attempt(lambda: getattr(mk(), m)()), Exception, "missing-content-refused")
        S.expect(attempt(lambda: CharSource.from_file_in_tgz(APath("/s/bad.tgz"), "d").read_all()), Exception,
                 "directory-member-refused")
        for bad in (None, 3, b"x"):
            S.expect(attempt(CharSource.from_string, bad), Exception, "non-string-content-refused")

    run.scenario("refusals", refuse)

    def bts(S, data, kind):
        mk = pick(byte_sources(data), kind)
        before = M.world.snapshot()
        src = mk()
        S.expect(attempt(src.read), data, "read-bytes", ByteSource.read)
        for n in (0, 1, 2, len(data), len(data) + 1, -1, len(data), len(data) - 1, 4096, 5000, 8192, 70000, 2 ** 20 + 1):
            n = max(n, -1)
            S.expect(attempt(src.read, n), data if n < 0 else data[:n], "read-bytes", ByteSource.read)
            S.expect(attempt(src.read, size=n), data if n < 0 else data[:n], "read-bytes", ByteSource.read)
        if hasattr(src, "is_empty"):
            S.expect(attempt(src.is_empty), not data, "bytes-is-empty")
        S.require(M.world.snapshot() == before, "sources-change-nothing")

    for kind in BYTE_KINDS:
        for i, data in enumerate((b"", b"a", b"\x00\xff\r\n\n", bytes(range(256)) * 90, bytes(range(251)) * 9000)):
            run.scenario("%s byte source of content %d" % (kind, i), lambda S, data=data, kind=kind: bts(S, data, kind))

    def still_open(S):
        w = M.world
        w.add_file("/s/z.zip", make_zip_bytes([("m", b"abc"), ("n", b"def"), ("e", b""), ("bad", b"a\xff\xfe")]))
        zf = AZipFile(APath("/s/z.zip"))
        for mk in (lambda: ByteSource.from_file_in_zip(zf, "m").read(),
                   lambda: CharSource.from_file_in_zip(zf, "m").read_all().encode("utf-8")):
            for _ in range(2):
                S.expect(attempt(mk), b"abc", "open-zip-stays-open")
                S.expect(attempt(lambda: zf.read("n")), b"def", "open-zip-stays-open")
        for m in ("e", "no", "bad"):
            for op in ("read_all", "readlines", "is_empty"):
                attempt(lambda: getattr(CharSource.from_file_in_zip(zf, m), op)())
                S.expect(attempt(lambda: zf.read("n")), b"def", "open-zip-stays-open")
            attempt(lambda: ByteSource.from_file_in_zip(zf, m).read())
            attempt(lambda: ByteSource.from_file_in_zip(zf, m).read(0))
            S.expect(attempt(lambda: zf.read("n")), b"def", "open-zip-stays-open")

    run.scenario("an open zip file stays open", still_open)


# --------------------------------------------------------------------------- C25
META["C25"] = dict(
    min_obligations=300,
    explanation="Every kind of sink is evaluated on sequences of whole and incremental writes of opaque contents over every "
                "earlier state of the target; the bytes that end up there, everything else in the file system, and what the "
                "matching source reads back are compared with the contract, also when one environment call fails.")


def c25(run):
    CharSource, ByteSource, CharSink, ByteSink = api(MOD, "CharSource", "ByteSource", "CharSink", "ByteSink")
    run.anchor(CharSink.write, ByteSink.write, CharSink.to_file, ByteSink.to_file, ByteSink.file_in_zip, CharSink.to_string,
               ByteSink.to_buffer, CharSink.to_nowhere)

    def inc(sink, parts):
        with sink.open() as f:
            for p in parts:
                f.write(p)

    plans = [("whole", ["x"]), ("whole twice", ["x", "y"]), ("incremental", [["x", "y", "x"]]), ("inc then whole", [["x", "y"], "y"]),
             ("whole then inc", ["y", ["x", "x"]]), ("nothing", [[]]), ("empty", [""]), ("whole then empty", ["x", ""])]

    def run_plan(S, sink, plan, vals, fn):
        last = None
        for step in plan:
            if isinstance(step, list):
                parts = [vals[p] for p in step]
                last = vals[""].join(parts)
                o = attempt(inc, sink, parts)
            else:
                last = vals[step]
                o = attempt(sink.write, last)
            if not S.expect(o, lambda v: v is None, "written", fn):
                return None
        return last

    for text in TEXTS + [LONG]:
        vals = {"x": text, "y": C + "\n", "": ""}
        for pname, plan in plans:
            for state in ("absent", "no parent", "no parents", "existing", "longer", "by string"):
                def tofile(S, vals=vals, plan=plan, state=state):
                    w = M.world
                    p = {"no parent": "/o/n/x", "no parents": "/o/n/n/n/x"}.get(state, "/o/x")
                    w.add_file("/o/other", B)
                    if state == "existing":
                        w.add_file(p, B)
                    if state == "longer":
                        w.add_file(p, B * 20000)
                    before = w.snapshot()
                    sink = CharSink.to_file(p if state == "by string" else APath(p))
                    last = run_plan(S, sink, plan, vals, CharSink.write)
                    if last is None:
                        return
                    want = dict(before)
                    for d in {"no parent": ["/o/n"], "no parents": ["/o/n", "/o/n/n", "/o/n/n/n"]}.get(state, []):
                        want[d] = ("dir", b"")
                    want[p] = ("file", last.encode("utf-8"))
                    S.require(w.snapshot() == want, "file-content", lambda: "%r" % {
                        k: v for k, v in w.snapshot().items() if want.get(k) != v}, CharSink.write)
                    S.require(not any(e[0] == "locale-encoding" for e in w.events), "explicit-encoding", "", CharSink.write)
                    S.expect(attempt(lambda: CharSource.from_file(APath(p)).read_all()), last, "read-back", CharSink.write)
                    S.require(not w.leaked(), "everything-closed")

                if state in ("absent", "by string") or text in (A, ""):
                    run.scenario(lambda text=text, pname=pname, state=state: "%s of %r to a file: %s" % (
                        pname, text[:20], state), tofile)

            def tostring(S, vals=vals, plan=plan):
                s = CharSink.to_string()
                s2 = CharSink.to_string()
                S.require(s.last_string_written is None, "nothing-written-yet")
                last = run_plan(S, s, plan, vals, CharSink.write)
                S.require(last is None or s.last_string_written == last, "last-string-written",
                          lambda: "%r" % s.last_string_written, CharSink.to_string)
                S.require(s2.last_string_written is None, "sinks-are-independent")

            run.scenario(lambda pname=pname, text=text: "%s of %r to a string" % (pname, text[:20]), tostring)

            def nowhere(S, vals=vals, plan=plan):
                before = M.world.snapshot()
                run_plan(S, CharSink.to_nowhere(), plan, vals, CharSink.to_nowhere)
                S.require(M.world.snapshot() == before, "nowhere-writes-nothing", "", CharSink.to_nowhere)

            if text in ("", A):
                run.scenario(lambda pname=pname, text=text: "%s of %r to nowhere" % (pname, text), nowhere)

    for data in (b"", b"a", b"\x00\xff\r\n\n", bytes(range(256)) * 90):
        vals = {"x": data, "y": b"yy", "": b""}
        for pname, plan in plans:
            for state in ("absent", "no parent", "no parents", "existing"):
                def bfile(S, vals=vals, plan=plan, state=state):
                    w = M.world
                    p = {"no parent": "/o/n/x", "no parents": "/o/n/n/n/x"}.get(state, "/o/x")
                    w.add_file("/o/other", B)
                    if state == "existing":
                        w.add_file(p, b"o" * 70000)
                    before = w.snapshot()
                    last = run_plan(S, ByteSink.to_file(APath(p)), plan, vals, ByteSink.write)
                    if last is None:
                        return
                    want = dict(before)
                    for d in {"no parent": ["/o/n"], "no parents": ["/o/n", "/o/n/n", "/o/n/n/n"]}.get(state, []):
                        want[d] = ("dir", b"")
                    want[p] = ("file", last)
                    S.require(w.snapshot() == want, "file-content", "", ByteSink.write)

                run.scenario("%s of %d bytes to a file: %s" % (pname, len(data), state), bfile)

            def buf(S, vals=vals, plan=plan):
                s = ByteSink.to_buffer()
                s2 = ByteSink.to_buffer()
                S.require(s.last_bytes_written is None, "nothing-written-yet")
                last = run_plan(S, s, plan, vals, ByteSink.write)
                S.require(last is None or s.last_bytes_written == last, "last-bytes-written", "", ByteSink.to_buffer)
                S.require(s2.last_bytes_written is None, "sinks-are-independent")

            run.scenario("%s of %d bytes to a buffer" % (pname, len(data)), buf)
            for state in ("absent", "existing", "same member"):
                def zp(S, vals=vals, plan=plan, state=state):
                    w = M.world
                    w.add_dir("/o")
                    m = "d/" + tok(41)
                    old = []
                    if state != "absent":
                        old = [("other", b"o"), ("d/two", b"2")]
                        w.add_file("/o/x.zip", make_zip_bytes(old + ([(m, b"old")] if state == "same member" else [])))
                    last = run_plan(S, ByteSink.file_in_zip(APath("/o/x.zip"), m), plan, vals, ByteSink.write)
                    if last is None:
                        return
                    got = attempt(lambda: read_zip_bytes(w.content("/o/x.zip")))
                    S.expect(got, lambda v: dict(v) == dict(old + [(m, last)]) and [x for x in v if x[0] != m] == old,
                             "zip-content", ByteSink.file_in_zip)
                    S.expect(attempt(lambda: ByteSource.from_file_in_zip(APath("/o/x.zip"), m).read()), last, "read-back",
                             ByteSink.file_in_zip)
                    S.require(not w.leaked(), "everything-closed")

                run.scenario("%s of %d bytes to a zip: %s" % (pname, len(data), state), zp)

    def huge(S, kind):
        w = M.world
        w.add_file("/o/x.zip", make_zip_bytes([("other", b"o")]))
        text = "".join("%d \u00e9\n" % i * (i % 7) for i in range(30000)) * 4
        if kind in ("char", "string"):
            vals = {"x": text, "y": "p" * 70001, "": ""}
        else:
            vals = {"x": text.encode("utf-8") + b"\xff" * 9, "y": b"\x00" * 70001, "": b""}
        for plan in (["x"], [["x"]], [["y", "x", "y"]], ["x", "y"], [["y"] * 40]):
            sink = {"char": lambda: CharSink.to_file("/o/f"), "bytes": lambda: ByteSink.to_file(APath("/o/f")),
                    "string": CharSink.to_string, "buffer": ByteSink.to_buffer,
                    "zip": lambda: ByteSink.file_in_zip(APath("/o/x.zip"), "m%d" % len(w.events))}[kind]()
            member = "m%d" % len(w.events)
            last = run_plan(S, sink, plan, vals, CharSink.write if kind in ("char", "string") else ByteSink.write)
            if kind == "zip":
                names = [n for n, _ in read_zip_bytes(w.content("/o/x.zip"))]
                S.require(dict(read_zip_bytes(w.content("/o/x.zip")))[member] == last and names[0] == "other", "zip-content",
                          "", ByteSink.file_in_zip)
                w.add_file("/o/x.zip", make_zip_bytes([("other", b"o")]))
            else:
                got = w.content("/o/f") if kind in ("char", "bytes") else sink.last_string_written if kind == "string" else sink.last_bytes_written
                S.require(got == (last.encode("utf-8") if kind == "char" else last), "everything-written", lambda: "%d of %d" % (
                    len(got or ""), len(last)), CharSink.write if kind in ("char", "string") else ByteSink.write)

    for kind in ("char", "bytes", "string", "buffer", "zip"):
        run.scenario("megabytes, " + kind, lambda S, kind=kind: huge(S, kind), budget=20000000)

    def moved(S):
        """Writers may move about in what they write."""
        M.world.add_dir("/o")
        for mk, got in ((ByteSink.to_buffer, lambda s: s.last_bytes_written), (lambda: ByteSink.to_file(APath("/o/x")), lambda s: M.world.content("/o/x"))):
            s = mk()

            def body():
                with s.open() as f:
                    f.write(b"abcdef")
                    f.seek(1)
                    f.write(b"X")

            S.expect(attempt(body), lambda v: v is None, "written")
            S.require(got(s) == b"aXcdef", "everything-written", lambda: "%r" % (got(s),))
        s = CharSink.to_string()
        with s.open() as f:
            f.write("abcdef")
            f.seek(0)
            f.write("Y")
        S.require(s.last_string_written == "Ybcdef", "last-string-written", lambda: "%r" % (s.last_string_written,))

    run.scenario("moving about while writing", moved)

    def names(S):
        w = M.world
        w.add_dir("/o")
        for n in (" lead", "trail ", "a b", "tab\tin", "nl\nin", "nl\n", "~", "$HOME", "%s", "*", ".", "é"):
            for by, mk, data in (("string", lambda q: CharSink.to_file(q), A), ("path", lambda q: CharSink.to_file(APath(q)), A),
                                 ("bytes", lambda q: ByteSink.to_file(APath(q)), b"ab")):
                q = "/o/%s-%s" % (n, by) if n[-1] not in " \n" else "/o/%s-%s" % (by, n)
                before = w.snapshot()
                S.expect(attempt(lambda: mk(q).write(data)), lambda v: v is None, "written")
                want = dict(before)
                want[q] = ("file", data if isinstance(data, bytes) else data.encode("utf-8"))
                S.require(w.snapshot() == want, "file-content", lambda: "%r: %r" % (q, {k: v for k, v in w.snapshot().items() if want.get(k) != v}))

    run.scenario("file names are taken literally", names)

    def unused(S):
        w = M.world
        w.add_dir("/o")
        w.add_file("/o/x.zip", make_zip_bytes([("other", b"o")]))
        w.add_file("/o/old", b"old")
        before = w.snapshot()
        for mk in (lambda: CharSink.to_file(APath("/o/new")), lambda: CharSink.to_file("/o/old"), lambda: ByteSink.to_file(APath("/o/new")),
                   lambda: ByteSink.to_file(APath("/o/old")), lambda: ByteSink.file_in_zip(APath("/o/x.zip"), "m"),
                   lambda: ByteSink.file_in_zip(APath("/o/y.zip"), "m"), CharSink.to_string, CharSink.to_nowhere, ByteSink.to_buffer):
            S.expect(attempt(mk), lambda v: v is not None, "made")
            S.require(w.snapshot() == before, "a-sink-not-written-to-changes-nothing")

    run.scenario("sinks which are not written to", unused)

    def lone(S, whole):
        M.world.add_dir("/o")
        for bad in ("\ud800", "a\udcff\n", "x" * 9000 + "\udfff"):
            s = CharSink.to_file(APath("/o/x"))
            S.expect(attempt(s.write, bad) if whole else attempt(inc, s, ["x", bad]), UnicodeError, "unencodable-text-refused",
                     CharSink.write)
            S.require(not M.world.leaked(), "everything-closed")
            t = CharSink.to_string()
            S.expect(attempt(t.write, bad), lambda v: t.last_string_written == bad, "last-string-written")

    for whole in (True, False):
        run.scenario("text which cannot be encoded, %s" % ("at once" if whole else "in parts"), lambda S, whole=whole: lone(S, whole))

    def faulty(S, kind):
        w = M.world
        w.add_dir("/o")
        w.add_file("/o/x.zip", make_zip_bytes([("other", b"o")]))
        w.faults = lambda op, p: True
        data = A + "\n" if kind == "file" else b"ab"
        go = {"file": lambda: CharSink.to_file("/o/f").write(data), "bytes": lambda: ByteSink.to_file(APath("/o/f")).write(data),
              "zip": lambda: ByteSink.file_in_zip(APath("/o/x.zip"), "m").write(data)}[kind]
        o = attempt(go)
        w.faults = None
        if w.fault_used is None:
            S.expect(o, lambda v: v is None, "written")
        elif o.ok:
            want = data.encode("utf-8") if kind == "file" else data
            got = dict(read_zip_bytes(w.content("/o/x.zip"))).get("m") if kind == "zip" else w.content("/o/f")
            S.require(got == want, "failures-are-not-swallowed", lambda: "failure at %r left %r" % (w.fault_used, got))
        else:
            S.require(True, "failures-are-not-swallowed")

    for kind in ("file", "bytes", "zip"):
        run.scenario("one failure while writing to %s" % kind, lambda S, kind=kind: faulty(S, kind))

    def nul(S):
        class Stop(Exception):
            pass

        before = M.world.snapshot()

        def body(exc):
            with CharSink.to_nowhere().open() as f:
                f.write(A)
                f.writelines([A, B])
                f.flush()
                if exc:
                    raise exc()

        S.expect(attempt(body, None), lambda v: v is None, "nowhere-accepts-everything")
        S.expect(attempt(body, Stop), Stop, "exceptions-pass-through")
        S.require(M.world.snapshot() == before and not M.world.handles, "nowhere-writes-nothing")
        for mk in (CharSink.to_string, ByteSink.to_buffer, lambda: CharSink.to_file("/w/x"), lambda: ByteSink.to_file(APath("/w/y"))):
            def b2():
                with mk().open():
                    raise Stop()

            S.expect(attempt(b2), Stop, "exceptions-pass-through")

    run.scenario("the null sink and exceptions", nul)

    def kept(S):
        s = CharSink.to_string()
        with s.open() as f:
            f.write(A)
        with s.open() as f:
            f.write(B)
            S.require(s.last_string_written == A, "last-string-written", "while a second write is under way")
        S.require(s.last_string_written == B, "last-string-written")
        with s.open() as f:
            pass
        S.require(s.last_string_written == "", "last-string-written")

    run.scenario("string sink during writes", kept)


# --------------------------------------------------------------------------- C43
META["C43"] = dict(
    min_obligations=200,
    explanation="Line sets and docID maps are evaluated on files of all combinations of line kinds with opaque contents, and "
                "the map round trip on all maps of up to three opaque entries.")


def c43(run):
    CharSource, CharSink = api(MOD, "CharSource", "CharSink")
    rd, wr, lines, empty = api(MOD, "read_doc_id_to_file_map", "write_doc_id_to_file_map", "file_lines_to_set",
                               "is_empty_directory")
    run.anchor(rd, wr, lines, empty)
    ODD = ["\ufeff", "\ufeffa", "a\0", "\0", "\x1a", "#!", "# c", "//", ";", "--", "%", "\\", "a\\", '"a"', "'a'", "a#b", "A", "a", "b ", "b", " b", "0", "00",
           "None", "\xa0", "\xa0b", "b\xa0", "\x85", "\x1c", "e\u0301", "\u00e9", "~", "$HOME", "a,b", "a b", "-", "...", "=", "[x]", "a" * 300]

    def odd(S):
        for part in [[x] for x in ODD] + [ODD, ODD[::-1], ODD[::2] + [""] + ODD[1::2]]:
            for end in ("", "\n", "\n\n"):
                M.world.add_file("/o/l", "\n".join(part) + end)
                S.expect(attempt(lines, APath("/o/l")), lambda v: list(v) == list(dict.fromkeys(x for x in part if x)), "lines-to-set", lines)

    run.scenario("concrete lines", odd)

    def oddmap(S):
        ids = [x.strip() for x in ODD if x.strip() and "\x85" not in x and "\x1c" not in x]
        for i, one in enumerate(ids):
            path = ids[(i * 7 + 3) % len(ids)]
            for m in ({one: APath(path)}, {one: APath("/d", path)}, {one: APath("~", one), path: APath("~user")}):
                sink = CharSink.to_string()
                S.expect(attempt(wr, m, sink), lambda v: v is None, "map-written", wr)
                text = sink.last_string_written or ""
                S.require(text == "".join("%s\t%s\n" % (k, APath("/w") / m[k]) for k in sorted(m)), "map-text", lambda: repr(text), wr)
                S.expect(attempt(rd, CharSource.from_string(text)), lambda v: dict(v.items()) == {k: APath("/w") / p for k, p in m.items()},
                         "map-round-trip", rd)
            for rel in (path, "~/" + path, "./" + path, "../" + path, "$HOME/" + path, "C:\\" + path, "file:///" + path):
                S.expect(attempt(rd, CharSource.from_string("%s\t%s\n" % (one, rel))), lambda v: {k: str(p) for k, p in v.items()} == {
                    one: str(APath(rel))}, "map-read", rd)

    run.scenario("concrete maps", oddmap)

    L = [A, B, "", " " + A, A + " ", A + "\t" + B, A + "\u2028" + B, "#" + A, "\x0c", " "]
    for n in (0, 1, 2, 3):
        for k, combo in enumerate(itertools.product(L, repeat=n)):
            if n == 3 and k % (1 if run.thorough else 7):
                continue
            for end in ("", "\n"):
                def sc(S, combo=combo, end=end):
                    M.world.add_file("/o/l", "\n".join(combo) + end)
                    want = list(dict.fromkeys(x for x in combo if x))
                    o = attempt(lines, APath("/o/l"))
                    S.expect(o, lambda v: list(v) == want, "lines-to-set", lines)
                    S.require(not any(e[0] == "locale-encoding" for e in M.world.events), "explicit-encoding", "", lines)
                    S.require(not M.world.leaked(), "everything-closed")

                run.scenario(lambda combo=combo: "lines %r" % (combo,), sc)

    def lots(S):
        w = M.world
        many = ["line %d %s" % (i, "x" * (i % 211)) for i in range(3000)] + ["y" * 200000, "line 7 " + "x" * 7, " " * 9]
        w.add_file("/o/l", "\n".join(many + ["", ""] + many[:50]))
        S.expect(attempt(lines, APath("/o/l")), lambda v: list(v) == list(dict.fromkeys(many)), "lines-to-set", lines)
        m = {"doc%04d" % ((i * 37) % 3000): APath("/x/y%d" % i) for i in range(3000)}
        m["z" * 300] = APath("/" + "long/" * 200 + "f")
        sink = CharSink.to_string()
        S.expect(attempt(wr, m, sink), lambda v: v is None, "map-written", wr)
        text = sink.last_string_written or ""
        S.require(text == "".join("%s\t%s\n" % (k, m[k]) for k in sorted(m)), "map-text", "3001 entries", wr)
        S.expect(attempt(rd, CharSource.from_string(text)), lambda v: dict(v.items()) == m and list(v) == sorted(m), "map-round-trip", rd)

    run.scenario("thousands of lines", lots, budget=20000000)

    ids = [A, B, C, A + B, "b", "B", "a"]
    for n in (0, 1, 2, 3):
        for combo in itertools.permutations(ids, n):
            for i in range(3):
                def rt(S, combo=combo, i=i):
                    paths = [APath("/x/" + tok(5)), APath("rel/" + tok(6)), APath("/with space/" + tok(7))]
                    m = {k: paths[(j + i) % 3] for j, k in enumerate(combo)}
                    ref = dict(m)
                    sink = CharSink.to_string()
                    S.expect(attempt(wr, m, sink), lambda v: v is None, "map-written", wr)
                    text = sink.last_string_written or ""
                    S.require(text == "".join("%s\t%s\n" % (k, APath("/w") / m[k]) for k in sorted(m)), "map-text",
                              lambda: repr(text), wr)
                    S.require(m == ref, "argument-unchanged")
                    o = attempt(rd, CharSource.from_string(text))
                    S.expect(o, lambda v: dict(v.items()) == {k: APath("/w") / p for k, p in m.items()} and
                             all(isinstance(x, APath) for x in v.values()) and list(v) == sorted(m), "map-round-trip", rd)

                run.scenario(lambda combo=combo, i=i: "map of %r %d" % (combo, i), rt)

    def literal(S):
        M.world.add_file("/d/real", "x")
        M.world.symlink("/d", "/l")
        M.world.symlink("/d/real", "/d/link")
        m = {A: APath("/l/real"), B: APath("/d/link"), C: APath("/d/../d/real"), "z": APath("../w/y"), "q": APath("/nowhere/./x")}
        sink = CharSink.to_string()
        S.expect(attempt(wr, m, sink), lambda v: v is None, "map-written", wr)
        S.expect(attempt(rd, CharSource.from_string(sink.last_string_written or "")),
                 lambda v: dict(v.items()) == {k: APath("/w") / p for k, p in m.items()}, "paths-are-not-resolved", wr)

    run.scenario("paths with links and steps upwards", literal)

    def bad(S):
        for text in (A + "\n", A + "\t/x\t/y\n", A + "\t/x\n" + B + "\n", A + "\t/x\n" + B + "\t/x\tz", "/x", A + "\t/x\n \n", " ", "\t\t\n",
                     A + "\t/x\t\n", A + "\t\t/x\n", "\t" + A + "\t/x\n", A + "\t/x\t \n", A + " /x\n", A + "\t/x\n\n", "\n"):
            S.expect(attempt(rd, CharSource.from_string(text)), IOError, "bad-map-line-refused", rd)
        for text, want in ((A + "\t/x", {A: "/x"}), (" " + A + "  \t /x \n", {A: "/x"}), (A + "\trel/y\n", {A: "rel/y"}), ("", {})):
            S.expect(attempt(rd, CharSource.from_string(text)), lambda v: {k: str(p) for k, p in v.items()} == want, "map-read", rd)

    run.scenario("bad map lines", bad)

    def dirs(S):
        w = M.world
        w.add_dir("/o/e")
        w.add_file("/o/f", b"")
        w.add_file("/o/full/.hidden", b"")
        w.add_dir("/o/nested/e")
        for p, want in (("/o/e", True), ("/o/f", False), ("/o/full", False), ("/o/nested", False), ("/o/nested/e", True),
                        ("/o/none", False), ("/o", False)):
            S.expect(attempt(empty, APath(p)), want, "is-empty-directory", empty)

    run.scenario("empty directories", dirs)
