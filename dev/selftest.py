"""Development aid (no check runs this): fidelity of the evaluator.  The repository's own tests are
evaluated by the abstract machine and must give the same verdicts as CPython."""
import glob, os, sys, traceback, unittest
sys.path.insert(0, "/verif")
from absint import core, env, world, interp
from absint.core import M, PathState
import pytest

env.STUBS["unittest"] = unittest
import unittest.mock
env.STUBS["unittest.mock"] = unittest.mock
env.STUBS["pytest"] = pytest
sys.setrecursionlimit(20000)
only = sys.argv[1:]
ok = bad = 0
M.world = world.World()
for p in sorted(glob.glob("/repo/tests/**/*.py", recursive=True)):
    n = os.path.relpath(p, "/repo")[:-3].replace("/", ".")
    if n.endswith("__init__") or n.endswith("conftest"):
        continue
    if only and not any(o in n for o in only):
        continue
    M.path = PathState()
    M.world = world.World()
    try:
        env.LOADER.modules.setdefault("tests", __import__("types").ModuleType("tests"))
        mod = env.LOADER.source(open(p).read(), n, os.path.relpath(p, "/repo"))
    except BaseException as e:
        print("LOAD", n, type(e).__name__, e)
        continue

    def run(name, fn):
        global ok, bad
        M.path = PathState()
        M.world = world.World()
        world_files = getattr(mod, "__file__")
        try:
            fn()
            ok += 1
        except BaseException as e:
            bad += 1
            print("FAIL", n, name, type(e).__name__, str(e)[:300])
            if "-v" in sys.argv: traceback.print_exc()

    for k, v in list(vars(mod).items()):
        if isinstance(v, type) and issubclass(v, unittest.TestCase):
            for m in dir(v):
                if m.startswith("test"):
                    inst = v(m)
                    def go(inst=inst, m=m):
                        inst.setUp()
                        getattr(inst, m)()
                    run(k + "." + m, go)
        elif k.startswith("test") and callable(v):
            params = v.__iargs__[0] if hasattr(v, "__iargs__") else ()
            marks = [m for m in getattr(v, "pytestmark", []) if m.name == "parametrize"]
            cases = [{}]
            for mk in marks:
                names = [x.strip() for x in mk.args[0].split(",")] if isinstance(mk.args[0], str) else mk.args[0]
                cases = [dict(c, **dict(zip(names, vals if len(names) > 1 else [vals]))) for c in cases for vals in mk.args[1]]
            for c in cases:
                def go(c=c):
                    kw = dict(c)
                    for prm in params:
                        if prm == "tmp_path":
                            M.world.add_dir("/tmp/t"); kw[prm] = world.APath("/tmp/t")
                        elif prm == "tmpdir":
                            M.world.add_dir("/tmp/t"); kw[prm] = "/tmp/t"
                    v(**kw)
                run(k, go)
print("ok", ok, "bad", bad)
