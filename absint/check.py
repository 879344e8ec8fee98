"""Property runner: explores the scenarios of one specification and reports."""
import fnmatch
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

from . import env, interp, world
from .core import AnchorMissing, Budget, EngineError, M, PathState, Unmodelled

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("ABSINT_OUT", VERIF)
warnings.simplefilter("ignore")
sys.setrecursionlimit(30000)


class Outcome:
    """Result of one abstract evaluation: a returned value or the class of the exception raised."""

    def __init__(self, kind, value, site):
        self.kind, self.value, self.site = kind, value, site

    @property
    def ok(self):
        return self.kind == "ret"

    def raised(self, *classes):
        return self.kind == "exc" and isinstance(self.value, classes)

    def __repr__(self):
        if self.ok:
            return "returns %s" % short(self.value)
        s = self.site
        return "raises %s(%s)%s" % (type(self.value).__name__, short(str(self.value), 120),
                                    " at %s:%s" % (s[0], s[1]) if s else "")


def short(x, n=200):
    try:
        r = x if isinstance(x, str) else repr(x)
    except EngineError:
        r = "<unprintable>"
    except Exception:
        r = object.__repr__(x)
    return r if len(r) <= n else r[: n - 3] + "..."


def attempt(fn, *a, **kw):
    try:
        return Outcome("ret", fn(*a, **kw), M.path.site)
    except EngineError:
        raise
    except BaseException as e:
        return Outcome("exc", e, M.path.site)


def api(module, *names):
    """Resolve public names; a vanished one is an analysis error, not a pass."""
    try:
        mod = env.LOADER.load(module)
    except ModuleNotFoundError as e:
        raise AnchorMissing("module %s: %s" % (module, e)) from None
    out = []
    for n in names:
        o = mod
        for part in n.split("."):
            if not hasattr(o, part):
                raise AnchorMissing("%s.%s has vanished" % (module, n))
            o = getattr(o, part)
        out.append(o)
    return out[0] if len(out) == 1 else out


def where(fn):
    f = getattr(fn, "__func__", fn)
    for _ in range(5):
        if hasattr(f, "__interp__"):
            return "%s:%d (%s)" % f.__interp__
        f = getattr(f, "__wrapped__", getattr(f, "fget", None))
        if f is None:
            break
    return None


class Run:
    """Statistics and findings of one property (one worker's share)."""

    def __init__(self, pid, tier, worker=0, workers=1):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.worker, self.workers = worker, workers
        self.index = 0
        self.scenarios = 0
        self.paths = 0
        self.obligations = {}
        self.inconclusive = {}
        self.violations = []
        self.samples = []
        self.vkeys = set()
        self.nontrivial = 0
        self.notes = {}
        self.current = None
        self.anchors = set()
        self.steps = 0

    # -- used by specifications
    def scenario(self, name, fn, max_paths=4096, budget=400000):
        global IN_SCENARIO
        i = self.index
        self.index += 1
        if i % self.workers != self.worker:
            return
        if len(self.violations) >= 60:
            return
        if DEADLINE and time.time() > DEADLINE:
            self.inconclusive.setdefault("time limit reached", [0, str(i)])[0] += 1
            return
        self.scenarios += 1
        decisions = []
        n = 0
        nm = name if isinstance(name, str) else name()
        while True:
            M.path = PathState(decisions)
            M.world = world.World()
            M.depth = 0
            M.budget = budget
            self.current = nm
            self.paths += 1
            n += 1
            before = sum(self.obligations.values())
            try:
                IN_SCENARIO = True
                try:
                    fn(self)
                finally:
                    IN_SCENARIO = False
            except AnchorMissing:
                raise
            except Unmodelled as e:
                self.inconclusive.setdefault(short(str(e), 160), [0, nm])[0] += 1
            except Budget as e:
                self.fail("terminates", str(e))
            except RecursionError as e:
                self.fail("terminates", "unbounded recursion: %s" % short(str(e)))
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                if any(fr.filename.endswith("absint/interp.py") for fr in tb):
                    self.fail("no-unexpected-exception", "raises %s: %s" % (type(e).__name__, short(str(e))))
                elif isinstance(e, (AttributeError, ImportError, NameError)):
                    raise  # a name the specification relies on: no verdict
                else:
                    # e.g. a value which lost its hash, order or length
                    self.fail("usable-result", "using a result raises %s: %s" % (type(e).__name__, short(str(e))))
            if sum(self.obligations.values()) > before:
                self.nontrivial += 1
            if len(self.samples) < 4:
                self.samples.append("%s | branches %s | steps %d" % (
                    nm, [l for l in M.path.labels][:6], M.path.steps))
            self.steps += M.path.steps
            p = M.path
            # next decision vector (depth first)
            d = p.decisions[: len(p.arity)]
            while d and d[-1] + 1 >= p.arity[len(d) - 1]:
                d.pop()
            if not d:
                return
            d[-1] += 1
            decisions = d
            if DEADLINE and time.time() > DEADLINE:
                self.inconclusive.setdefault("time limit reached", [0, nm])[0] += 1
                return
            if n >= max_paths:
                self.inconclusive.setdefault("path bound reached", [0, nm])[0] += 1
                return

    def anchor(self, *fns):
        for fn in fns:
            w = where(fn)
            if w:
                self.anchors.add(w)

    def require(self, cond, rule, detail="", at=None):
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        if not cond:
            self.fail(rule, detail() if callable(detail) else detail, at, counted=True)
        return bool(cond)

    def fail(self, rule, detail, at=None, counted=False):
        if not counted:
            self.obligations[rule] = self.obligations.get(rule, 0) + 1
        key = "%s::%s" % (rule, self.current)
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        p = M.path
        tr = []
        for t in p.trace[-400:]:
            s = "%s:%d %s" % (t[0], t[1], "then" if t[2] else "else")
            if not tr or tr[-1] != s:
                tr.append(s)
        loc = where(at) if at is not None else None
        self.violations.append({
            "key": key, "rule": rule, "scenario": self.current, "detail": short(detail, 900),
            "entry": loc, "raise_site": "%s:%d in %s" % p.raise_site if p.raise_site else None,
            "last_site": "%s:%d" % p.site if p.site else None,
            "branches": tr[-40:], "choices": list(zip(p.labels, p.decisions)),
        })

    def expect(self, out, want, rule, at=None):
        """want: an exception class (or tuple), or a predicate over the returned value, or a plain value."""
        if isinstance(want, type) and issubclass(want, BaseException) or (
                isinstance(want, tuple) and want and all(isinstance(w, type) and issubclass(w, BaseException) for w in want)):
            names = want.__name__ if isinstance(want, type) else "/".join(w.__name__ for w in want)
            return self.require(out.kind == "exc" and isinstance(out.value, want), rule,
                                lambda: "expected %s, but it %r" % (names, out), at)
        if not out.ok:
            return self.require(False, rule, lambda: "expected a result (%s), but it %r" % (short(want), out), at)
        good = want(out.value) if callable(want) and not isinstance(want, type) else out.value == want
        return self.require(good, rule, lambda: "expected %s, but it %r" % (
            "the specified value" if callable(want) else short(want), out), at)

    def merge(self, o):
        self.scenarios += o["scenarios"]
        self.paths += o["paths"]
        self.nontrivial += o["nontrivial"]
        self.steps += o["steps"]
        for k, v in o["obligations"].items():
            self.obligations[k] = self.obligations.get(k, 0) + v
        for k, v in o["inconclusive"].items():
            self.inconclusive.setdefault(k, [0, v[1]])[0] += v[0]
        self.violations += o["violations"]
        self.samples = (self.samples + o["samples"])[:6]
        self.anchors |= set(o["anchors"])

    def export(self):
        return {k: getattr(self, k) for k in (
            "scenarios", "paths", "nontrivial", "steps", "obligations", "inconclusive", "violations", "samples")} | {
            "anchors": sorted(self.anchors), "functions": sorted(M.functions), "sites": sorted(M.sites),
            "files": M.files}


DEADLINE = None
TIME_LIMIT = float(os.environ.get("ABSINT_TIME_LIMIT", "780"))  # seconds; what has not been explored by then is inconclusive


IN_SCENARIO = False


def _late(signum, frame):
    if IN_SCENARIO:
        raise Unmodelled("time limit reached")


def start_clock():
    global DEADLINE
    DEADLINE = time.time() + TIME_LIMIT
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, TIME_LIMIT, 10)


def stop_clock():
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_workers(spec, pid, tier, workers):
    """Explore the scenarios in `workers` forked processes; each takes every k-th scenario."""
    total = Run(pid, tier)
    if workers == 1:
        r = Run(pid, tier)
        start_clock()
        spec(r)
        stop_clock()
        exports = [r.export()]
    else:
        env_load()
        pipes = []
        for k in range(workers):
            rd, wr = os.pipe()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(rd)
                try:
                    r = Run(pid, tier, k, workers)
                    start_clock()
                    spec(r)
                    stop_clock()
                    data = pickle.dumps(("ok", r.export()))
                except BaseException as e:
                    data = pickle.dumps(("err", type(e).__name__ + ": " + str(e) + "\n" + traceback.format_exc()))
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(wr)
            pipes.append((pid_, rd))
        exports = []
        errs = []
        for pid_, rd in pipes:
            with os.fdopen(rd, "rb") as f:
                data = f.read()
            os.waitpid(pid_, 0)
            if not data:
                errs.append("worker died")
                continue
            st, x = pickle.loads(data)
            if st == "ok":
                exports.append(x)
            else:
                errs.append(x)
        if errs:
            raise AnchorMissing(errs[0])
    funcs, sites, files = set(), set(), {}
    for x in exports:
        total.merge(x)
        funcs |= {tuple(f) for f in x["functions"]}
        sites |= {tuple(s) for s in x["sites"]}
        files.update(x["files"])
    return total, funcs, sites, files


def env_load():
    for m in ("range", "span", "parameters", "io_utils", "key_value", "preconditions", "iter_utils"):
        try:
            env.LOADER.load("vistautils." + m)
        except EngineError:
            pass
        except Exception:
            pass


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(pid, spec, meta):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    M.world = world.World()
    workers = int(os.environ.get("ABSINT_WORKERS", str(meta.get("workers", 1))))
    try:
        total, funcs, sites, files = run_workers(spec, pid, tier, workers)
    except AnchorMissing as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    nob = sum(total.obligations.values())
    floor = meta.get("min_obligations", 1)
    known = [k for k in load_known() if k["property"] == pid and k["status"] == "finding"]
    new, hit = [], {}
    for v in total.violations:
        for k in known:
            if fnmatch.fnmatchcase(v["key"], k["key"]):
                hit[k["key"]] = k
                break
        else:
            new.append(v)
    inc = sum(v[0] for v in total.inconclusive.values())
    cov = {
        "explanation": meta["explanation"],
        "scenarios": total.scenarios, "abstract_paths": total.paths, "paths_with_obligations": total.nontrivial,
        "abstract_steps": total.steps,
        "obligations": nob, "obligations_by_rule": total.obligations,
        "inconclusive_paths": inc, "inconclusive_reasons": {k: v[0] for k, v in total.inconclusive.items()},
        "functions_analysed": sorted("%s::%s" % f for f in funcs if f[0].startswith("vistautils")),
        "statements_analysed": len([s for s in sites if s[0].startswith("vistautils")]),
        "files_analysed": files, "entry_points": sorted(total.anchors),
        "samples": total.samples, "rules": meta.get("rules", sorted(total.obligations)),
        "exhaustive": bool(meta.get("exhaustive", False)) and inc == 0,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
                   "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 3),
                   "violations": len(new)}, f, indent=1)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: scenarios=%d paths=%d obligations=%d inconclusive=%d violations=%d known=%d wall=%.1fs" % (
        pid, tier, total.scenarios, total.paths, nob, inc, len(new), len(hit), time.time() - t0))
    for k, v in sorted(total.inconclusive.items()):
        print("  inconclusive: %s (%d, e.g. %s)" % (k, v[0], v[1]))
    if new:
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        rp = os.path.join(OUT, "replay", pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "violations": new}, f, indent=1)
        for v in new[:5]:
            print("  rule %s broken in scenario %s" % (v["rule"], v["scenario"]))
            print("    %s" % v["detail"])
            if v["entry"]:
                print("    entry point %s" % v["entry"])
            if v["raise_site"]:
                print("    last raise at %s" % v["raise_site"])
            if v["branches"]:
                print("    path: %s" % " -> ".join(v["branches"][-8:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if nob - inc < floor and inc == 0 and nob < floor:
        print("ANALYSIS-BROKEN property=%s only %d obligations were generated (expected at least %d)" % (pid, nob, floor))
        return 2
    return 0
