"""Specifications of the command-line scripts, the parameters-only entry point and logging, and the encoding rule."""
import ast
import itertools
import os

from absint import check, env
from absint.check import api, attempt
from absint.core import AnchorMissing, M
from absint.values import tok
from absint.world import APath, make_tgz_bytes, make_zip_bytes, read_zip_bytes

META = {}
SC = "vistautils.scripts."
KEYS = [tok(20), tok(21), "d/" + tok(22), "k", "a.b"]
VALS = [b"v0\n", b"", b"\x00\xff\r\n", b"v3", b"v4"]


class Stop(Exception):
    pass


def listing(keys):
    return "\n".join(keys).encode("utf-8")


def store(path, m, order=None):
    keys = list(order or m)
    M.world.add_file(path, make_zip_bytes([("__keys", listing(keys))] + [(k, m[k]) for k in keys]))


def read_store(path):
    members = read_zip_bytes(M.world.content(path))
    d = dict(members)
    if len(d) != len(members) or "__keys" not in d:
        raise ValueError("malformed store: %r" % [n for n, _ in members])
    keys = [k for k in d.pop("__keys").decode("utf-8").split("\n") if k]
    if sorted(keys) != sorted(d):
        raise ValueError("listing %r of members %r" % (keys, sorted(d)))
    return d


def params(m):
    return api("vistautils.parameters", "Parameters").from_mapping(m)


def awkward():
    from specs.kvspec import AWKWARD
    return AWKWARD


def untouched(S, before, allowed, at):
    """Nothing but the allowed paths (and directories above them) was created, changed or deleted."""
    after = M.world.snapshot()
    bad = [k for k in set(before) | set(after) if before.get(k) != after.get(k) and not any(
        k == a or k.startswith(a + "/") or (a.startswith(k + "/") and k not in before) for a in allowed)]
    S.require(not bad, "nothing-else-touched", lambda: "%r" % bad, at)


# --------------------------------------------------------------------------- C32
META["C32"] = dict(
    min_obligations=500, workers=4,
    explanation="Splitting (even and explicit) and joining are evaluated on stores of up to four opaque keys with opaque and empty "
                "contents for all slice counts, key listings, shuffles, key files and duplicates; outputs must partition, cover "
                "or unite the inputs exactly, refuse what they promise to refuse, and leave the inputs alone.")


def c32(run):
    split = api(SC + "split_key_value_store", "main")
    join = api(SC + "join_key_value_stores", "main")
    run.anchor(split, join)

    def even(S, n, slices, seed, order, stale=False, out="/o/out"):
        w = M.world
        m = dict(n) if isinstance(n, dict) else dict(zip(KEYS[:n], VALS)) if isinstance(n, int) else {k: VALS[i % len(VALS)] for i, k in enumerate(n)}
        store("/s/in.zip", m, order)
        if stale:
            for i in range(slices):
                store(out + "/%d.zip" % i, {"stale%d" % i: b"stale", KEYS[0]: b"stale"})
            w.add_file(out + "/_slices.txt", b"stale\n" * 99)
        w.add_dir("/s/other")
        p = {"input": {"type": "zip", "path": "/s/in.zip"}, "num_slices": slices, "output_dir": out}
        if seed is not None:
            p["random_seed"] = seed
        before = w.snapshot()
        if not S.expect(attempt(split, params(p)), lambda r: r is None, "split-works", split):
            return None
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), split)
        untouched(S, before, ["/o"], split)
        files = [out + "/%d.zip" % i for i in range(slices)]
        S.require(sorted(w.children(out)) == sorted(["_slices.txt"] + ["%d.zip" % i for i in range(slices)]),
                  "one-store-per-slice", lambda: "%r" % w.children(out), split)
        S.require(w.content(out + "/_slices.txt").decode("utf-8").split() == files, "slices-listed",
                  lambda: "%r" % w.content(out + "/_slices.txt"), split)
        o = attempt(lambda: [read_store(f) for f in files])
        if not S.expect(o, lambda v: True, "slices-are-stores", split):
            return None
        union = {}
        for d in o.value:
            S.require(not set(union) & set(d), "slices-are-disjoint", "", split)
            union.update(d)
        S.require(union == m, "slices-cover-the-input", lambda: "%r of %r" % (union, m), split)
        sizes = [len(d) for d in o.value]
        S.require(max(sizes) - min(sizes) <= 1, "slices-of-equal-size", lambda: "%r" % sizes, split)
        return o.value

    for n in (0, 1, 2, 3, 4):
        for slices in (1, 2, 3, 5, 12):
            for seed in (None, 1, 7):
                for stale in (False, True):
                    run.scenario("%d keys in %d slices, seed %s%s" % (n, slices, seed, ", over earlier slices" if stale else ""),
                                 lambda S, n=n, slices=slices, seed=seed, stale=stale: even(S, n, slices, seed, None, stale))
    MANY = ["k%03d" % i for i in range(60)]
    for slices in (1, 7, 11, 59, 60, 61, 100):
        for seed in (None, 2):
            run.scenario("60 keys in %d slices, seed %s" % (slices, seed), lambda S, slices=slices, seed=seed: even(
                S, MANY, slices, seed, None))
    from specs.kvspec import CONCRETE
    for name, cm in CONCRETE.items():
        cm = {k: v.encode("utf-8") for k, v in cm.items()}
        for slices in (1, 2, 300):
            for seed in (None, 5):
                run.scenario("%s in %d slices, seed %s" % (name, slices, seed), lambda S, cm=cm, slices=slices, seed=seed: even(
                    S, cm, slices, seed, None), budget=20000000)
    AWK = [x for x in awkward() if x != "__keys"]
    for i in range(0, len(AWK), 20):
        run.scenario("awkward keys in 3 slices %d" % i, lambda S, i=i: even(S, AWK[i:i + 20], 3, None, None))

    def stable(S, seed, keys=None):
        outs = []
        keys = keys or KEYS[:3]
        for order, out in ((keys, "/o/out"), (keys[::-1], "/o/out"), (keys[1:] + keys[:1], "/o/deeper/than/that")):
            M.world.nodes = {k: v for k, v in M.world.nodes.items() if not k.startswith(("/o", "/s"))}
            outs.append(even(S, keys, 2, seed, order, out=out))
            env.STUBS["random"].shuffle([1, 2])
            M.world.set_order = 1 - M.world.set_order
        S.require(outs[0] is not None and outs[0] == outs[1] == outs[2], "split-is-reproducible", lambda: "%r" % outs, split)

    run.scenario("twice without seed, other listing order", lambda S: stable(S, None))
    run.scenario("twice with seed, other listing order", lambda S: stable(S, 3))
    for ks in (["a", "A", "B", "b"], ["10", "9", "1", "09"], ["a", "\u00e4", "a\u0308", "A"], [" x", "x", "x "], ["aa", "b", "a", "bb"]):
        for seed in (None, 3):
            run.scenario("twice the keys %s, seed %s" % (ks, seed), lambda S, ks=ks, seed=seed: stable(S, seed, ks))

    def bad_even(S):
        w = M.world
        store("/s/in.zip", dict(zip(KEYS, VALS)))
        base = {"input": {"type": "zip", "path": "/s/in.zip"}, "num_slices": 2, "output_dir": "/o/out"}
        Err = api("vistautils.parameters", "ParameterError")
        for ch in ({"num_slices": 0}, {"num_slices": -1}, {"num_slices": "x"}, {"output_dir": None}, {"num_slices": None},
                   {"explicit_split": {"a": {}}}):
            q = {k: v for k, v in {**base, **ch}.items() if v is not None}
            S.expect(attempt(split, params(q)), Err, "bad-parameters-refused", split)
            S.require(not w.leaked(), "everything-closed", "", split)
            S.require(not any(k.endswith(".zip") and k.startswith("/o") for k in w.nodes), "refusals-write-nothing", "", split)

    run.scenario("bad parameters", bad_even)

    def explicit(S, n, parts, flag, where, extra=""):
        w = M.world
        m = dict(n) if isinstance(n, dict) else dict(zip(KEYS[:n], VALS)) if isinstance(n, int) else {k: VALS[i % len(VALS)] for i, k in enumerate(n)}
        store("/s/in.zip", m)
        ns = {}
        for i, ks in enumerate(parts):
            if len(parts) > 1:
                store("/o/p%d.zip" % i, {"stale": b"stale"})
            w.add_file("/s/keys%d" % i, "\n".join(ks) + extra if ks else extra)
            ns["part%d" % i] = {"keys_file": "/s/keys%d" % i, "output_file": "/o/p%d.zip" % i}
        p = {"input": {"type": "zip", "path": "/s/in.zip"}, "explicit_split": ns}
        if flag is not None:
            (p if where == "top" else ns)["must_be_exhaustive"] = flag
            if where == "both":
                p["must_be_exhaustive"] = not flag
        before = w.snapshot()
        o = attempt(split, params(p))
        missing = any(k not in m for ks in parts for k in ks)
        covered = {k for ks in parts for k in ks} >= set(m)
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), split)
        untouched(S, before, ["/o"], split)
        if missing:
            S.expect(o, Exception, "unknown-key-refused", split)
        elif not covered and flag is not False:
            S.expect(o, Exception, "incomplete-split-refused", split)
        elif S.expect(o, lambda r: r is None, "split-works", split):
            for i, ks in enumerate(parts):
                S.expect(attempt(read_store, "/o/p%d.zip" % i), {k: m[k] for k in ks}, "part-holds-its-keys", split)

    subsets = [(), (KEYS[0],), (KEYS[1],), (KEYS[0], KEYS[1]), (KEYS[1], KEYS[2], KEYS[0]), ("nope",), (KEYS[0], "nope")]
    for n in (0, 1, 3):
        for parts in itertools.chain([()], [(s,) for s in subsets], itertools.product(subsets, repeat=2)):
            if not parts:
                continue
            for flag, where in ((None, ""), (True, "ns"), (False, "ns"), (False, "top"), (True, "both"), (False, "both")):
                run.scenario(lambda n=n, parts=parts, flag=flag, where=where: "%d keys split into %s, exhaustive %s %s" % (
                    n, list(parts), flag, where),
                    lambda S, n=n, parts=parts, flag=flag, where=where: explicit(S, n, parts, flag, where,
                                                                                 "\n" if len(parts) == 1 else ""))

    for i in range(0, len(AWK), 20):
        ks = [k for k in AWK[i:i + 20] if "\r" not in k]  # key files are read with universal newlines
        for parts in ([ks], [ks[:7], ks[7:]], [ks[::2], ks[1::2], []], [ks[:7], ks[8:]]):
            run.scenario("awkward keys %d split into %s" % (i, [len(x) for x in parts]), lambda S, ks=ks, parts=parts: explicit(
                S, ks, parts, None, "", "\n"))

    def joined(S, maps, fault=False, out="zip"):
        w = M.world
        for i, m in enumerate(maps):
            store("/s/%d.zip" % i, m)
        w.add_file("/s/list", "".join("/s/%d.zip\n" % i for i in range(len(maps))))
        w.add_dir("/o" if out == "zip" else "/o/dir")
        before = w.snapshot()
        p = params({"input_store_list_file": "/s/list", "output": {"type": out, "path": "/o/out.zip" if out == "zip" else "/o/dir"}})
        if fault:
            w.faults = lambda op, path: True
        o = attempt(join, p)
        w.faults = None
        keys = [k for m in maps for k in m]
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), join)
        untouched(S, before, ["/o"], join)
        if len(set(keys)) < len(keys):
            S.expect(o, Exception, "duplicate-key-refused", join)
        elif w.fault_used:
            S.expect(o, Exception, "failures-reported", join)
        elif S.expect(o, lambda r: r is None, "join-works", join):
            want = {k: v for m in maps for k, v in m.items()}
            if out == "zip":
                S.expect(attempt(read_store, "/o/out.zip"), want, "union-of-all-inputs", join)
            else:
                have = {k[len("/o/dir/"):]: w.content(k) for k in w.nodes if k.startswith("/o/dir/") and w.isfile(k)}
                index = have.pop("_index", b"").decode("utf-8")
                S.require(have == want and sorted(index.splitlines(True)) == sorted("%s\t/o/dir/%s\n" % (k, k) for k in keys), "union-of-all-inputs",
                          lambda: "%r, index %r" % (have, index), join)

    pieces = [{}, {KEYS[0]: VALS[0]}, {KEYS[1]: VALS[1], KEYS[2]: VALS[2]}, {KEYS[0]: VALS[3]}, {"k": VALS[1], KEYS[1]: VALS[0]}]
    for k in (0, 1, 2, 3):
        for maps in itertools.product(pieces, repeat=k):
            for out in ("zip", "file-map"):
                run.scenario(lambda maps=maps, out=out: "join of %s into %s" % ([sorted(m) for m in maps], out),
                             lambda S, maps=maps, out=out: joined(S, maps, False, out))
    for i in range(0, len(AWK), 20):
        ms = [{k: VALS[j % len(VALS)] for j, k in enumerate(AWK[i + a:i + a + 10])} for a in (0, 10)]
        run.scenario("join of awkward keys %d" % i, lambda S, ms=ms: joined(S, ms))
    for name, cm in CONCRETE.items():
        ms = [{k: v.encode("utf-8") for j, (k, v) in enumerate(cm.items()) if j % 3 == i} for i in range(3)]
        for out in ("zip",):
            run.scenario("join of %s" % name, lambda S, ms=ms, out=out: joined(S, ms, False, out), budget=20000000)
        run.scenario("explicit split of %s" % name, lambda S, ms=ms, cm=cm: explicit(
            S, {k: v.encode("utf-8") for k, v in cm.items()}, [list(m) for m in ms], None, "", "\n"), budget=20000000)
        run.scenario("incomplete explicit split of %s" % name, lambda S, ms=ms, cm=cm: explicit(
            S, {k: v.encode("utf-8") for k, v in cm.items()}, [list(m) for m in ms[:2]] + [list(ms[2])[:-1]], None, "", "\n"), budget=20000000)
    run.scenario("join of many stores", lambda S: joined(S, [{"k%d" % i: b"%d" % i} for i in range(30)]))
    run.scenario("join of many stores, last duplicate", lambda S: joined(S, [{"k%d" % (i % 29): b"%d" % i} for i in range(30)]))

    def same_twice(S, m, names):
        w = M.world
        store("/s/0.zip", m)
        w.add_file("/s/list", "".join("%s\n" % n for n in names))
        before = w.snapshot()
        o = attempt(join, params({"input_store_list_file": "/s/list", "output": {"type": "zip", "path": "/o/out.zip"}}))
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), join)
        untouched(S, before, ["/o"], join)
        if m:
            S.expect(o, Exception, "duplicate-key-refused", join)
        elif S.expect(o, lambda r: r is None, "join-works", join):
            S.expect(attempt(read_store, "/o/out.zip"), {}, "union-of-all-inputs", join)

    for m in ({}, {KEYS[0]: b""}, {KEYS[0]: VALS[0], KEYS[1]: VALS[1]}):
        for names in (["/s/0.zip", "/s/0.zip"], ["/s/0.zip", "/s/../s/0.zip"]):
            run.scenario("join of %d keys, store named twice: %s" % (len(m), names), lambda S, m=m, names=names: same_twice(S, m, names))
    def overlisted(S, good):
        w = M.world
        w.add_file("/s/0.zip", make_zip_bytes([("__keys", listing(["k"])), ("k", b"1")]))
        w.add_file("/s/1.zip", make_zip_bytes([("__keys", listing(["gone", "m"])), ("m", b"2")]))
        w.add_file("/s/list", "/s/0.zip\n/s/1.zip\n" if good else "/s/1.zip\n")
        o = attempt(join, params({"input_store_list_file": "/s/list", "output": {"type": "zip", "path": "/o/out.zip"}}))
        S.expect(o, Exception, "damaged-store-refused", join)
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), join)

    for good in (False, True):
        run.scenario("join of a store which lists a key it lacks, %s" % good, lambda S, good=good: overlisted(S, good))
    run.scenario("join with one failure", lambda S: joined(S, pieces[1:3], True))


# --------------------------------------------------------------------------- C40
META["C40"] = dict(
    min_obligations=300, workers=2,
    explanation="Downsampling and copying of directories are evaluated on stores and directories of up to four opaque entries "
                "for all sizes and shuffles, and printing of text at offsets on a text with characters of every byte length.")


def c40(run):
    down = api(SC + "downsample_key_value_store", "main")
    copy = api(SC + "directory_to_key_value_store", "main")
    Err = api("vistautils.parameters", "ParameterError")
    run.anchor(down, copy)

    def sample(S, n, k, seed, twice=False):
        w = M.world
        m = n if isinstance(n, dict) else dict(zip(KEYS[:n], VALS))
        store("/s/in.zip", m)
        p = {"input": {"type": "zip", "path": "/s/in.zip"}, "num_to_sample": k}
        if seed is not None:
            p["random_seed"] = seed
        got = []
        for out in ("/o/a.zip", "/o/b.zip") if twice else ("/o/a.zip",):
            before = w.snapshot()
            if not S.expect(attempt(down, params({**p, "output_zip_path": out})), lambda r: r is None, "sampling-works", down):
                return
            S.require(not w.leaked(), "everything-closed", "", down)
            untouched(S, before, [out], down)
            o = attempt(read_store, out)
            if not S.expect(o, lambda d: len(d) == min(len(m), k), "size-of-the-sample", down):
                return
            S.require(all(m.get(x) == v for x, v in o.value.items()), "sample-of-the-input", lambda: "%r" % o, down)
            got.append([x for x in read_zip_bytes(w.content(out)) if x[0] != "__keys"])  # contents and their order
            env.STUBS["random"].shuffle([1, 2, 3])
            w.set_order = 1 - w.set_order  # another process may list every set in another order
        S.require(got[0] == got[-1], "sample-is-reproducible", lambda: "%r" % got, down)

    for n in range(5):
        for k in (1, 2, 3, 9):
            for seed in (None, 0, 5):
                run.scenario("%d of %d, seed %s" % (k, n, seed), lambda S, n=n, k=k, seed=seed: sample(S, n, k, seed))
    from specs.kvspec import CONCRETE
    for name, cm in CONCRETE.items():
        cm = {k: v.encode("utf-8") for k, v in cm.items()}
        for k in (1, 20, 1200, 5000):
            for seed in (None, 4):
                run.scenario("%d of %s, seed %s" % (k, name, seed), lambda S, cm=cm, k=k, seed=seed: sample(S, cm, k, seed, seed == 4 and k == 20),
                             budget=20000000)
    for n in (2, 3, 4):
        for seed in (None, 4, 0):
            for k in (1, 2, 3):
                run.scenario("twice %d of %d, seed %s" % (k, n, seed), lambda S, n=n, seed=seed, k=k: sample(S, n, k, seed, True))

    def bad(S):
        w = M.world
        store("/s/in.zip", dict(zip(KEYS, VALS)))
        base = {"input": {"type": "zip", "path": "/s/in.zip"}, "num_to_sample": 1, "output_zip_path": "/o/a.zip"}
        for ch in ({"num_to_sample": 0}, {"num_to_sample": -2}, {"num_to_sample": "1x"}, {"num_to_sample": None},
                   {"output_zip_path": None}, {"random_seed": "x"}):
            q = {k: v for k, v in {**base, **ch}.items() if v is not None}
            S.expect(attempt(down, params(q)), Err, "bad-parameters-refused", down)
            S.require(not w.leaked(), "everything-closed", "", down)
            S.require(not w.exists("/o/a.zip"), "refusals-write-nothing", "", down)

    run.scenario("bad parameters", bad)

    names = [tok(1), tok(2) + ".txt", "a.b.c", ".hidden", "a"]

    def stem(n):
        i = n.rfind(".")
        return n[:i] if 0 < i < len(n) - 1 else n

    def directory(S, files, fn, relative):
        w = M.world
        w.add_dir("/w/in")
        for i, f in enumerate(files):
            w.add_file("/w/in/" + f, VALS[i])
        w.add_dir("/o")
        p = {"input_directory": "in" if relative else "/w/in", "output": {"type": "zip", "path": "/o/out.zip"}}
        if fn:
            p["key_function"] = fn
        want = {}
        dup = False
        for i, f in enumerate(files):
            k = stem(f) if fn == "strip_one_extension" else f
            dup = dup or k in want
            want[k] = VALS[i]
        before = w.snapshot()
        o = attempt(copy, params(p))
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), copy)
        untouched(S, before, ["/o"], copy)
        if dup:
            S.expect(o, Exception, "colliding-keys-refused", copy)
        elif S.expect(o, lambda r: r is None, "copying-works", copy):
            S.expect(attempt(read_store, "/o/out.zip"), want, "every-file-copied", copy)

    for k in range(4):
        for files in itertools.combinations(names, k):
            for fn in (None, "identity", "strip_one_extension"):
                run.scenario(lambda files=files, fn=fn: "directory of %s, keys %s" % (list(files), fn),
                             lambda S, files=files, fn=fn: directory(S, files, fn, len(files) == 2))
    odd = [" x", "x ", "x\t", ".x.y", "a..b", "\u00e4", "a\u0308", "A", "__init__.py", "a.b ", " .c", "%s", "~", "-f", "*", "b.txt.txt", "1.1",
           "v.1.1", "c.atc.at", "tt.t"]
    for files in [tuple(odd[i:i + 4]) for i in range(0, len(odd), 4)] + list(itertools.combinations(odd, 2)):
        for fn in (None, "strip_one_extension"):
            run.scenario("directory of %s, keys %s" % (list(files), fn), lambda S, files=files, fn=fn: directory(S, files, fn, False))

    def linked(S, fn):
        """Links to files are files; a link to a directory is no file."""
        w = M.world
        w.add_dir("/w/in")
        w.add_file("/w/in/real.txt", b"real")
        w.add_file("/elsewhere/far.txt", b"far")
        w.add_link("/w/in/near.lnk", "/w/in/real.txt")
        w.add_link("/w/in/away.lnk", "/elsewhere/far.txt")
        w.add_dir("/o")
        p = {"input_directory": "/w/in", "output": {"type": "zip", "path": "/o/out.zip"}}
        if fn:
            p["key_function"] = fn
        before = w.snapshot()
        o = attempt(copy, params(p))
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), copy)
        untouched(S, before, ["/o"], copy)
        if S.expect(o, lambda r: r is None, "copying-works", copy):
            want = {"real.txt": b"real", "near.lnk": b"real", "away.lnk": b"far"}
            if fn == "strip_one_extension":
                want = {k.split(".")[0]: v for k, v in want.items()}
            S.expect(attempt(read_store, "/o/out.zip"), want, "every-file-copied", copy)

    for fn in (None, "identity", "strip_one_extension"):
        run.scenario("links in the directory, keys %s" % fn, lambda S, fn=fn: linked(S, fn))
    run.scenario("colliding keys", lambda S: directory(S, ["x.a", "x.b"], "strip_one_extension", False))

    def badc(S):
        w = M.world
        w.add_file("/s/in/f", b"x")
        base = {"input_directory": "/s/in", "output": {"type": "zip", "path": "/o/out.zip"}}
        for ch in ({"key_function": "other"}, {"input_directory": "/s/none"}, {"input_directory": "/s/in/f"},
                   {"input_directory": None}):
            q = {k: v for k, v in {**base, **ch}.items() if v is not None}
            S.expect(attempt(copy, params(q)), Err, "bad-parameters-refused", copy)
            S.require(not w.leaked(), "everything-closed", "", copy)

    run.scenario("bad parameters of copying", badc)

    text_at = api(SC + "text_at_offsets", "main")
    TEXT = "a\u00e9\n\u4e2d\U0001f600\r\nz"

    def offsets(S, TEXT):
        w = M.world
        w.add_file("/s/t", TEXT.encode("utf-8"))
        for a in range(len(TEXT)):
            for b in range(a + 1, len(TEXT) + 1):
                w.argv = ["prog", "/s/t", str(a), str(b)]
                w.stdout = type(w.stdout)(newline="")
                before = w.snapshot()
                S.expect(attempt(text_at), lambda r: r is None, "offsets-work", text_at)
                S.require(w.stdout.getvalue() == TEXT[a:b] + "\n", "characters-between-the-offsets",
                          lambda: "%r for [%d:%d)" % (w.stdout.getvalue(), a, b), text_at)
                S.require(before == w.snapshot() and not w.leaked(), "nothing-else-touched", "", text_at)
        for a, b in ((-1, 2), (len(TEXT), len(TEXT) + 1), (2, 2), (3, 1), (0, len(TEXT) + 1)):
            w.argv = ["prog", "/s/t", "--", str(a), str(b)]
            w.stdout = type(w.stdout)(newline="")
            o = attempt(text_at)
            S.require(not o.ok or "out-of-bounds" in w.stdout.getvalue() or "bounds" in w.stdout.getvalue(),
                      "bad-offsets-reported", lambda: "%r" % w.stdout.getvalue(), text_at)
        w.argv = ["prog", "/s/none", "0", "1"]
        S.expect(attempt(text_at), OSError, "missing-file-refused", text_at)

    def long_text(S):
        t = "".join(chr(0x20 + i % 3000) for i in range(300000)).replace("\x7f", "\n")
        M.world.add_file("/s/t", t.encode("utf-8"))
        for a, b in ((0, len(t)), (70000, 70003), (len(t) - 1, len(t)), (8190, 140000)):
            M.world.argv = ["prog", "/s/t", str(a), str(b)]
            M.world.stdout = type(M.world.stdout)(newline="")
            S.expect(attempt(text_at), lambda r: r is None, "offsets-work", text_at)
            S.require(M.world.stdout.getvalue() == t[a:b] + "\n", "characters-between-the-offsets", "[%d:%d) of a long text" % (a, b), text_at)

    run.scenario("text at offsets of a long text", long_text)

    for t in (TEXT, "\ufeffab", "\ufeff\ufeffx\n", "\r\r\na\r", "\x00\x1a\x0c\x85\u2028z", " \n\n", "e\u0301\u200d\U0001f469\U0001f3fd"):
        run.scenario("text at offsets of %r" % t, lambda S, t=t: offsets(S, t))


# --------------------------------------------------------------------------- C41
META["C41"] = dict(
    min_obligations=300, workers=2,
    explanation="Conversion of tar archives to zip is evaluated on archives of up to three members of every kind, compressed or "
                "not, in every combination of options; the zip must hold exactly the selected regular files, and unpacked files "
                "must be gone afterwards.")


def c41(run):
    conv = api(SC + "tar_gz_to_zip", "main")
    run.anchor(conv)
    pool = [("f", "file", b"123"), ("d", "dir", None), ("d/g", "file", b""), (tok(5) + ".txt", "file", b"1234567890"),
            ("d/" + tok(6), "file", b"12345")]
    odd = [("./a", "file", b"1"), (".b", "file", b"2"), ("a a", "file", b""), ("__keys", "file", b"k"), ("x\u00e9", "file", b"\xff"),
           ("c.d/e", "file", b"0" * 105), ("a", "file", b"1" * 100)]

    def go(S, members, ext, opts, cutoff, existing, at="/w"):
        w = M.world
        w.add_file("/w/keep", b"k")
        w.add_file("/w/sub/keep", b"k")
        mode = "w" if ext == ".tar" else "w:gz"
        src = zname = at + "/in" + ext
        w.add_file(src, make_tgz_bytes(members, mode))
        for e in (".tar", ".tgz", ".tar.gz"):
            if ext.endswith(e):
                zname = zname[:-len(e)]
                break
        zname += ".zip"
        if existing:
            w.add_file(zname, b"garbage" if existing == "garbage" else make_zip_bytes([("old", b"o")]))
        w.argv = ["prog", "in" + ext if cutoff is None and at == "/w" else src] + opts
        if cutoff is not None:
            w.argv += ["--large-file-cutoff", cutoff]
        before = w.snapshot()
        o = attempt(conv)
        if not S.expect(o, lambda r: r is None, "conversion-works", conv):
            return
        limit = 2e9 if cutoff is None else float(cutoff) * 1e9
        want = {n: d for n, k, d in members if k == "file" and not ("--omit-large-files" in opts and len(d) > limit)}
        if "--dont-stream" in opts:  # unpacked files are added under their normalised name
            want = {os.path.normpath(n): d for n, d in want.items()}
        S.expect(attempt(lambda: read_zip_bytes(w.content(zname))),
                 lambda r: dict(r) == want and len(r) == len(want), "zip-holds-exactly-the-files", conv)
        S.require(not w.leaked(), "everything-closed", lambda: "%r" % w.leaked(), conv)
        after = {k: v for k, v in w.snapshot().items() if k != zname and v[0] != "dir"}
        S.require(after == {k: v for k, v in before.items() if k != zname and v[0] != "dir"}, "nothing-else-touched",
                  lambda: "%r" % (set(after) ^ set(before)), conv)
        if "--dont-stream" not in opts:
            S.require(not any(e[0] == "tar-extract" for e in w.events), "streaming-unpacks-nothing", "", conv)

    for ext in ["".join(x) for k in (1, 2, 3) for x in itertools.product((".tar", ".tgz", ".gz", ".zip", "tar", ".TGZ", ".x"), repeat=k)]:
        run.scenario("archive in%s" % ext, lambda S, ext=ext: go(S, pool[:3], ext, [], None, None))

    for k in range(4):
        for members in itertools.combinations(pool, k):
            for j, ext in enumerate((".tar", ".tar.gz", ".tgz", "")):
                for opts in ([], ["--dont-stream"], ["--omit-large-files"], ["--dont-stream", "--omit-large-files"]):
                    for cutoff in (None, "0.000000004"):
                        ex = (None, "zip", "garbage")[(k + j) % 3]
                        run.scenario(lambda members=members, ext=ext, opts=opts, cutoff=cutoff: "members %s in in%s, %s %s" % (
                            [m[0] for m in members], ext, opts, cutoff),
                            lambda S, members=members, ext=ext, opts=opts, cutoff=cutoff, ex=ex: go(
                                S, list(members), ext, opts, cutoff, ex))

    for opts in ([], ["--dont-stream"], ["--omit-large-files"], ["--dont-stream", "--omit-large-files"]):
        for cutoff in (None, "0", "0.0000001", "1e-9", "0.000000105", "0.0000001049"):
            for ms in (pool, odd[1:], odd[:1], odd[:3]):
                run.scenario("members %s, %s, cutoff %s" % ([m[0] for m in ms], opts, cutoff),
                             lambda S, opts=opts, cutoff=cutoff, ms=ms: go(S, ms, ".tgz", opts, cutoff, "zip"))

    def repeated(S):
        """A member which was added to the archive again: the later content is the one unpacking the archive gives."""
        w = M.world
        w.add_file("/w/in.tar", make_tgz_bytes([("f", "file", b"old"), ("g", "file", b"g"), ("f", "file", b"new")], "w"))
        w.argv = ["prog", "in.tar"]
        if S.expect(attempt(conv), lambda r: r is None, "conversion-works", conv):
            S.expect(attempt(lambda: dict(read_zip_bytes(w.content("/w/in.zip")))), {"f": b"new", "g": b"g"},
                     "zip-holds-exactly-the-files", conv)

    run.scenario("a member added again", repeated)
    big = [("f%03d" % i, "file", b"%d" % i) for i in range(150)] + [("big", "file", bytes(range(251)) * 5000)]
    for opts in ([], ["--dont-stream"]):
        run.scenario("many and large members, %s" % opts, lambda S, opts=opts: go(S, big, ".tgz", opts, None, None))

    linked = [("f", "file", b"123"), ("l", "link", "f"), ("m", "link", "/nowhere"), ("d", "dir", None), ("d/l", "link", "../f"),
              ("g", "file", b"")]
    for k in range(1, 7):
        for ms in itertools.combinations(linked, k):
            for opts in ([], ["--omit-large-files"], ["--dont-stream"]):
                run.scenario("links among members %s, %s" % ([m[0] for m in ms], opts),
                             lambda S, opts=opts, ms=ms: go(S, list(ms), ".tgz", opts, None, None))

    for at in ("/x/arch.tar.d", "/x/a b", "/w/sub", "/x.tar", "/"):
        for opts in ([], ["--dont-stream"]):
            for ext in (".tar", ".tgz", ""):
                for ex in (None, "zip"):
                    run.scenario("archive %s/in%s, %s, %s" % (at, ext, opts, ex), lambda S, at=at, opts=opts, ext=ext, ex=ex: go(
                        S, pool[:4], ext, opts, None, ex, at))

    def bad(S):
        w = M.world
        w.argv = ["prog", "none.tgz"]
        S.expect(attempt(conv), OSError, "missing-archive-refused", conv)
        w.argv = ["prog"]
        S.expect(attempt(conv), SystemExit, "missing-argument-refused", conv)
        w.add_file("/w/bad.tgz", b"no archive")
        w.argv = ["prog", "bad.tgz"]
        S.expect(attempt(conv), Exception, "bad-archive-refused", conv)
        S.require(not w.leaked(), "everything-closed", "", conv)
        S.require(w.content("/w/bad.tgz") == b"no archive", "nothing-else-touched", "", conv)

    run.scenario("bad archives", bad)


# --------------------------------------------------------------------------- C37
META["C37"] = dict(
    min_obligations=300, workers=2,
    explanation="The parameters-only entry point is evaluated for every combination of parameter file, explicit parameters and "
                "command-line overrides, and logging configuration for every level and configuration form; what main receives, "
                "how often and when, and the resulting logger state must follow the documentation.")


def c37(run):
    real, entry = api("vistautils.parameters_only_entrypoint", "_real_parameters_only_entry_point", "parameters_only_entry_point")
    conf = api("vistautils.logging_utils", "configure_logging_from")
    Params, Err = api("vistautils.parameters", "Parameters", "ParameterError")
    run.anchor(real, entry, conf)
    FILE = {"a": "1", "ns": {"b": tok(1), "c": 2}, "z": 0}
    YAML = "a: '1'\nns:\n  b: %s\n  c: 2\nz: 0\n" % tok(1)
    overrides = [[], [("a", "2"), ("a", "3")], [("a", "3"), ("a", "2")], [("z", "1"), ("a", "b"), ("ns.c", "z"), ("ns.c", "a")],
                 [("ns.d.y", "1"), ("ns.d.x", "2"), ("ns.d.y", "0")], [("ns.b", "3"), ("new", "0"), ("ns.b", "4")], [("a", " x "), ("ns.b", "%a%"), ("n", "null")],
                 [("a", "007"), ("n.o", "true"), ("n.p", "1e3"), ("ns.q", "[1]")], [("a", "2")], [("ns.b", "3")], [("new", tok(2))], [("x.y.z", "q")], [("a", "2"), ("ns.c", "9")], [("a", "")]]

    def merged(base, ov):
        out = {k: dict(v) if isinstance(v, dict) else v for k, v in base.items()}
        for k, v in ov:
            d = out
            parts = k.split(".")
            for p in parts[:-1]:
                d = d.setdefault(p, {})
            d[parts[-1]] = v
        return out

    def go(S, form, ov, via_argv, level=None):
        w = M.world
        extra = "" if level is None else "logging:\n  root_level: %s\n" % level
        base = dict(FILE)
        if level is not None:
            base["logging"] = {"root_level": level}
        if form == "file":
            w.add_file("/s/p.params", YAML + extra)
            given, args = None, ["/s/p.params"]
        elif form == "explicit":
            given, args = Params.from_mapping(base), []
        else:
            base = {}
            given, args = Params.empty(), []
        flags = [["-p", k, v] for k, v in ov]
        cut = len(flags) // 2 + (form == "file" and level is None)
        args = sum(flags[:cut], []) + args + sum(flags[cut:], [])
        calls = []

        def main(p):
            calls.append((p, w.logging.get("root", {}).get("level"), len(w.logging.get("root", {}).get("handlers", []))))
            return None

        before = w.snapshot()
        kept = given.as_nested_dicts() if given is not None else None
        if via_argv:
            w.argv = ["prog"] + args
            o = attempt(entry, main, "usage", parameters=given, program_name="prog")
        else:
            o = attempt(real, main, "usage", parameters=given, program_name="prog", args=args)
        if not S.expect(o, lambda r: True, "entry-point-works", real):
            return
        S.require(len(calls) == 1, "main-runs-once", lambda: "%d calls" % len(calls), real)
        if calls:
            want = merged(base, ov)
            S.require(isinstance(calls[0][0], Params) and calls[0][0].as_nested_dicts() == want, "main-gets-the-parameters",
                      lambda: "%r instead of %r" % (calls[0][0].as_nested_dicts(), want), real)
            num = {"DEBUG": 10, "WARNING": 30, None: 20}[level]
            S.require(calls[0][1] == num and calls[0][2] >= 1, "logging-is-configured-before-main", lambda: "%r" % (calls[0],), real)
        S.require(before == w.snapshot() and not w.leaked(), "nothing-else-touched", "", real)
        if kept is not None:
            S.require(given.as_nested_dicts() == kept, "given-parameters-unchanged", "", real)

    lots = [("q%d.r%d" % (i % 7, i), "v%d" % i) for i in range(60)] + [("q%d.r%d" % (i % 7, i), "w" * 3000) for i in range(0, 60, 5)]
    for form in ("file", "explicit", "empty"):
        for via in (False, True):
            run.scenario("%s parameters, 72 overrides" % form, lambda S, form=form, via=via: go(S, form, lots, via), budget=20000000)
        for ov in overrides:
            if form == "empty" and any(k in ("ns.b", "ns.c") for k, _ in ov):
                pass
            for via in (False, True):
                for level in (None, "DEBUG", "WARNING"):
                    if form == "empty" and level:
                        continue
                    run.scenario(lambda form=form, ov=ov, via=via, level=level: "%s parameters, overrides %s%s, level %s" % (
                        form, ov, ", from the command line" if via else "", level),
                        lambda S, form=form, ov=ov, via=via, level=level: go(S, form, ov, via, level))

    def bad(S):
        w = M.world
        w.add_file("/s/p.params", YAML)
        calls = []
        for given, args, exc in (
                (None, [], SystemExit), (Params.from_mapping(FILE), ["/s/p.params"], SystemExit),
                (None, ["/s/none.params"], Exception), (None, ["/s/p.params", "-p", "a"], SystemExit),
                (None, ["/s/p.params", "-p", "a.b", "1"], (Err, IOError)), (None, ["/s/p.params", "more"], SystemExit),
                (None, ["/s/p.params", "--zzz", "1"], SystemExit)):
            S.expect(attempt(real, calls.append, "usage", parameters=given, program_name="p", args=args), exc,
                     "bad-arguments-refused", real)
        S.require(not calls, "main-does-not-run", "", real)

        def boom(p):
            raise Stop()

        S.expect(attempt(real, boom, program_name="p", args=["/s/p.params"]), Stop, "errors-of-main-pass-through", real)
        for exc in (SystemExit(0), SystemExit(None), SystemExit(3), SystemExit("x"), KeyboardInterrupt(), Err("e"), OSError("o"),
                    StopIteration(), GeneratorExit(), BaseException(), KeyError("k"), AssertionError()):
            def boom2(p):
                raise exc

            o = attempt(real, boom2, program_name="p", args=["/s/p.params"])
            S.require(o.kind == "exc" and o.value is exc, "errors-of-main-pass-through", lambda: "%r became %r" % (exc, o), real)
        w.add_file("/w/-odd.params", YAML)
        del calls[:]
        S.expect(attempt(real, calls.append, program_name="p", args=["-p", "a", "1", "--", "-odd.params"]), lambda r: True,
                 "entry-point-works", real)
        S.require(len(calls) == 1, "main-runs-once", "", real)
        del calls[:]
        main = env.stub("__main__")
        main.__file__ = "/x/tool.py"
        w.modules["__main__"] = main
        S.expect(attempt(real, calls.append, args=["/s/p.params"]), lambda r: True, "entry-point-works", real)
        S.require(len(calls) == 1 and calls[0].as_nested_dicts() == FILE, "main-gets-the-parameters", "", real)

    run.scenario("bad arguments", bad)

    LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10}

    def levels(S, name):
        w = M.world
        p = Params.from_mapping({"logging": {"root_level": name}} if name is not None else {"x": 1})
        o = attempt(conf, p)
        root = w.logging.get("root", {"level": 30, "handlers": []})
        if name is not None and name not in LEVELS:
            S.expect(o, Err, "unknown-level-refused", conf)
            S.require(not root["handlers"] and root["level"] == 30, "refusals-change-nothing", "", conf)
            return
        if not S.expect(o, lambda r: r is None, "configures", conf):
            return
        want = LEVELS[name] if name is not None else 20
        S.require(root["level"] == want, "root-level", lambda: "%r" % root, conf)
        S.require(len(root["handlers"]) == 1 and root["handlers"][0].level in (0, want), "one-console-handler", lambda: "%r" % [
            h.level for h in root["handlers"]], conf)
        if root["handlers"]:
            S.require(root["handlers"][0].stream is w.stdout and root["handlers"][0].formatter is not None, "console-handler", "", conf)
        S.require(not any(e[0] == "log" for e in w.events), "parameters-logged-only-if-asked", "", conf)

    for name in [None, "", "info", "TRACE", tok(3)] + sorted(LEVELS):
        run.scenario("level %r" % (name,), lambda S, name=name: levels(S, name))

    def config_file(S):
        w = M.world
        w.add_file("/s/log.cfg", b"[loggers]\n")
        for extra in ({}, {"root_level": "DEBUG"}, {"root_level": "nonsense"}):
            w.events.clear()
            w.logging.clear()
            p = Params.from_mapping({"logging": {"config_file": "/s/log.cfg", **extra}})
            S.expect(attempt(conf, p), lambda r: r is None, "configures", conf)
            ev = [e for e in w.events if e[0] == "fileConfig"]
            S.require(len(ev) == 1 and str(ev[0][1][0]) == "/s/log.cfg", "configuration-file-used", lambda: "%r" % ev, conf)
            root = w.logging.get("root", {"level": 30, "handlers": []})
            S.require(not root["handlers"] and root["level"] == 30, "configuration-file-wins", "", conf)
        p = Params.from_mapping({"logging": {"config_file": "/s/none.cfg"}})
        w.events.clear()
        S.expect(attempt(conf, p), Err, "missing-configuration-refused", conf)
        S.require(not any(e[0] == "fileConfig" for e in w.events), "missing-configuration-refused", "", conf)

    run.scenario("configuration file", config_file)

    def foreign(S):
        w = M.world
        log = env.STUBS["logging"]
        h = log.StreamHandler(stream=w.stderr)
        log.getLogger().addHandler(h)
        S.expect(attempt(conf, Params.from_mapping({"logging": {"root_level": "ERROR"}})), lambda r: r is None, "configures", conf)
        hs = w.logging["root"]["handlers"]
        S.require(len(hs) == 2 and h in hs and all(x.stream is w.stdout and x.level in (0, 40) for x in hs if x is not h) and
                  w.logging["root"]["level"] == 40, "one-console-handler", lambda: "%r" % hs, conf)

    run.scenario("another handler present", foreign)

    def logs(S):
        w = M.world
        p = Params.from_mapping({"k": "needle"})
        S.expect(attempt(conf, p, log_params=True), lambda r: r is None, "configures", conf)
        S.require(any(e[0] == "log" and "needle" in e[1][1] for e in w.events), "parameters-logged-if-asked", "", conf)

    run.scenario("parameters logged", logs)


# --------------------------------------------------------------------------- C23
META["C23"] = dict(
    min_obligations=200, workers=4,
    explanation="Two rules. (1) Over the syntax tree of every module: no call which opens a text file (open, Path.open, read_text, "
                "write_text, io.TextIOWrapper, codecs and gzip in text mode) leaves the encoding to the platform. (2) Over all "
                "abstract paths of the file-handling operations (those analysed for C18, C20, C21, C24, C25, C28, C37, C43): no "
                "text handle is opened in the locale's encoding, however the call is written.")


class _Enc(check.Run):
    """Explores another specification's scenarios; judges nothing but the encoding of text handles."""

    def __init__(self, parent):
        super().__init__(parent.pid, parent.tier, parent.worker, parent.workers)
        self.parent = parent

    def scenario(self, name, fn, **kw):
        def wrapped(S):
            try:
                fn(S)
            finally:
                self.texts = [e for e in M.world.events if e[0] in ("text-open", "text-wrap")]
                bad = [e for e in M.world.events if e[0] == "locale-encoding"]
                if self.texts or bad:
                    self.parent.current = self.current
                    self.parent.require(not bad, "explicit-encoding", lambda: "text opened in the locale's encoding at %s" % sorted(
                        {"%s:%s in %s" % (e[2][0], e[2][1], e[1][0]) for e in bad if e[2]}))

        super().scenario(name, wrapped, **kw)

    def require(self, cond, rule, detail="", at=None):
        return bool(cond)

    def fail(self, *a, **kw):
        pass


TEXT_MODES = {"r", "w", "a", "x"}


def _mode(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value and set(node.value) <= set("rwxabt+"):
        return node.value
    return None


def _unencoded(call):
    """The reason why this call definitely opens text in the locale's encoding, or None."""
    f = call.func
    kws = {k.arg: k.value for k in call.keywords}
    if None in kws or any(isinstance(a, ast.Starred) for a in call.args):
        return None

    def none(n):
        return n is None or (isinstance(n, ast.Constant) and n.value is None)

    def arg(i, name):
        return call.args[i] if len(call.args) > i else kws.get(name)

    name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
    owner = f.value.id if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else None
    if name == "open" and (isinstance(f, ast.Name) or owner == "io"):
        m = arg(1, "mode")
        mode = "r" if m is None else _mode(m)
        if mode and "b" not in mode and none(arg(3, "encoding")):
            return "open() in text mode without encoding"
    elif name == "open" and owner == "gzip":
        mode = _mode(arg(1, "mode")) if arg(1, "mode") is not None else "rb"
        if mode and "t" in mode and none(arg(3, "encoding")):
            return "gzip.open() in text mode without encoding"
    elif name == "open" and owner == "codecs":
        mode = _mode(arg(1, "mode")) if arg(1, "mode") is not None else "r"
        if mode and "b" not in mode and none(arg(2, "encoding")):
            return None
    elif name in ("getpreferredencoding", "getdefaultlocale", "getfilesystemencoding") or (
            owner == "locale" and name in ("getencoding", "getlocale", "nl_langinfo")) or (owner == "os" and name == "device_encoding"):
        return "%s() asks for the platform's encoding" % name
    elif name == "fdopen" and owner == "os":
        m = arg(1, "mode")
        mode = "r" if m is None else _mode(m)
        if mode and "b" not in mode and none(arg(3, "encoding")):
            return "os.fdopen() in text mode without encoding"
    elif name in ("NamedTemporaryFile", "TemporaryFile", "SpooledTemporaryFile"):
        mode = _mode(kws["mode"]) if "mode" in kws else None
        if mode is None and name != "SpooledTemporaryFile" and call.args:
            mode = _mode(call.args[0])
        if mode and "b" not in mode and none(kws.get("encoding")):
            return "%s in text mode without encoding" % name
    elif name == "open" and isinstance(f, ast.Attribute) and (call.args or "mode" in kws) and owner not in (
            "tarfile", "os", "zipfile"):
        mode = _mode(arg(0, "mode"))
        if mode and "b" not in mode and set(mode) & TEXT_MODES and none(arg(2, "encoding")) and len(call.args) < 3:
            return "Path.open() in text mode without encoding"
    elif name == "read_text" and isinstance(f, ast.Attribute) and none(arg(0, "encoding")):
        return "read_text() without encoding"
    elif name == "write_text" and isinstance(f, ast.Attribute) and none(arg(1, "encoding")):
        return "write_text() without encoding"
    elif name == "TextIOWrapper" and none(arg(1, "encoding")):
        return "TextIOWrapper without encoding"
    return None


def _untouched(call, parents):
    """Is the file only opened (and closed), as for creating it, so that no text passes through it?"""
    up = parents.get(call)
    if isinstance(up, ast.withitem):
        return up.context_expr is call and up.optional_vars is None
    return isinstance(up, ast.Attribute) and up.attr == "close"


def c23(run):
    root = os.path.join(env.REPO, "vistautils")
    files = []
    for d, dirs, names in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        files += [os.path.join(d, n) for n in sorted(names) if n.endswith(".py")]
    if not files:
        raise AnchorMissing("no modules in %s" % root)

    def lint(S, path):
        with open(path, "rb") as f:
            src = f.read()
        rel = os.path.relpath(path, env.REPO)
        tree = ast.parse(src)
        owner = {}
        parents = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(fn):
                    owner[x] = fn.name
        for call in ast.walk(tree):
            if isinstance(call, ast.Call):
                f = call.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
                if nm in ("open", "read_text", "write_text", "TextIOWrapper", "fdopen", "NamedTemporaryFile", "TemporaryFile",
                          "SpooledTemporaryFile", "getpreferredencoding", "getdefaultlocale", "getfilesystemencoding",
                          "getencoding", "getlocale", "nl_langinfo", "device_encoding"):
                    why = None if _untouched(call, parents) else _unencoded(call)
                    S.require(why is None, "explicit-encoding-at-call-site", "%s:%d in %s: %s" % (
                        rel, call.lineno, owner.get(call, "<module>"), why))
        S.require(True, "module-scanned")

    for p in files:
        run.scenario("call sites of %s" % os.path.relpath(p, env.REPO), lambda S, p=p: lint(S, p))
    import importlib
    for mod, fns in (("specs.iospec", ("c24", "c25", "c43")), ("specs.kvspec", ("c28", "c31")),
                     ("specs.params", ("c18", "c20", "c21")), ("specs.scriptspec", ("c32", "c37", "c40", "c41"))):
        m = importlib.import_module(mod)
        for fn in fns:
            sub = _Enc(run)
            getattr(m, fn)(sub)
            run.scenarios += sub.scenarios
            run.paths += sub.paths
            run.steps += sub.steps
            run.nontrivial += sub.nontrivial
