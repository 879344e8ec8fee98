"""Usage: python3 check.py <PROPERTY-ID> [--thorough]   |   python3 check.py --setup"""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    exe = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execv(exe, [exe] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for stream in (sys.stdout, sys.stderr):
    # reports quote the scenario's texts, which may hold anything: keep the output plain
    stream.reconfigure(encoding="ascii", errors="backslashreplace")
table = importlib.import_module("specs.table").TABLE
if sys.argv[1:] == ["--setup"]:
    from absint import check, env, interp, world  # noqa: F401
    for t in table.values():
        importlib.import_module("specs." + t.split(":")[0])
    print("setup ok: %d specifications" % len(table))
    sys.exit(0)
from absint import check  # noqa: E402

pid = sys.argv[1]
modname, fname = table[pid].split(":")
mod = importlib.import_module("specs." + modname)
sys.exit(check.main(pid, getattr(mod, fname), mod.META[pid]))
