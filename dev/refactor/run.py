"""Applies a set of behaviour-preserving rewrites to a scratch copy of the repository and reports the checks which are not quiet.

usage: run.py rN [--all-at-once] [check ids...]"""
import concurrent.futures
import importlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
from specs.table import TABLE  # noqa: E402

mod = importlib.import_module(sys.argv[1])
ids = sys.argv[2:] or list(TABLE)
d = tempfile.mkdtemp(prefix="refactor")
try:
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    for f, edits in mod.FILES.items():
        p = os.path.join(d, "repo", f)
        s = open(p).read()
        for old, new in edits:
            # blank lines are not significant when looking for the text to replace
            if old in s:
                s = s.replace(old, new, 1)
                continue
            lines = [x for x in old.split("\n") if x.strip()]
            m = re.search(r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in lines) + "(?:\n|$)", s)
            if not m:
                sys.exit("C?? NOT FOUND in %s:\n%s" % (f, old))
            s = s[:m.start()] + new.rstrip("\n") + "\n" + s[m.end():]
        open(p, "w").write(s)
    r = subprocess.run([os.environ.get("VPY", "/opt/venv/bin/python"), "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                       cwd=d + "/repo", env=dict(os.environ, PYTHONPATH=d + "/repo"), capture_output=True, text=True)
    print("\n".join(x[:200] for x in r.stdout.split("\n") if x.startswith("FAILED") or " passed" in x))

    if os.environ.get("KEEP"):
        shutil.rmtree(os.environ["KEEP"], ignore_errors=True)
        shutil.copytree(d + "/repo", os.environ["KEEP"])

    def one(c):
        e = dict(os.environ, ABSINT_REPO=d + "/repo", ABSINT_OUT=d + "/" + c)
        os.makedirs(d + "/" + c)
        return c, subprocess.run([sys.executable, VERIF + "/check.py", c], env=e, capture_output=True, text=True)

    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for c, r in ex.map(one, ids):
            if r.returncode or "inconclusive: " in r.stdout:
                print(c, r.returncode, "\n".join(x[:400] for x in r.stdout.split("\n")[:int(os.environ.get("N", "5"))]), r.stderr[-600:])
finally:
    shutil.rmtree(d)
