"""Shared harness: seeded, sharded Hypothesis campaigns over JSON cases with an explicit oracle.

A check module defines ID, LEVEL, RULE, and CAMPAIGNS: a list of Campaign objects.
Campaign.evaluate(case) raises Violation when the property is broken and otherwise returns a dict
  {"nontrivial": bool, "labels": [...]}  (None = trivial).
"""
import hashlib
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Violation(Exception):
    """The property is broken on this case."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    """The harness itself failed; never a violation."""


def crash_of_code(e):
    """An exception raised by the code under test itself, as opposed to the harness: its description, or None."""
    where = None
    for f, line in traceback.walk_tb(e.__traceback__):
        name = f.f_code.co_filename
        if name.startswith(REPO + "/"):
            where = (name, line)
        elif name.startswith(VERIF + "/"):
            where = None
    if where is None:
        return None
    return "the code failed with %s: %s (%s)" % (type(e).__name__, str(e)[:500], os.path.relpath(where[0], REPO))


class Campaign:
    def __init__(self, name, strategy, evaluate, quick, thorough=None, shards=8,
                 shrink_evals=300, shrink_seconds=45, confirm=2, budget=None, enum=None):
        self.name = name
        self.strategy = strategy          # zero-argument callable returning a strategy
        self.evaluate = evaluate
        self.quick = quick                # total number of cases over all shards
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.shrink_evals = shrink_evals
        self.shrink_seconds = shrink_seconds
        self.confirm = confirm
        self.budget = budget or {"quick": 400, "thorough": 2400}   # seconds; then inconclusive
        self.enum = enum                  # callable -> list of cases: exhaustive enumeration


_scratch_root = None


def scratch_root():
    """A private directory of this process, removed at the end of the run."""
    global _scratch_root
    if _scratch_root is None or not _scratch_root[1] == os.getpid():
        base = os.environ.get("VH_SCRATCH")
        if not base:
            raise HarnessError("no scratch root")
        d = os.path.join(base, "p%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        _scratch_root = (d, os.getpid())
    return _scratch_root[0]


def fresh_dir(name="case"):
    d = os.path.join(scratch_root(), name)
    if os.path.lexists(d):
        rmtree(d)
    os.makedirs(d)
    return d


def rmtree(d):
    def fix(fn, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o700)
            os.chmod(path, 0o700)
            fn(path)
        except OSError:
            pass
    shutil.rmtree(d, onerror=fix)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:16]


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


class _Stats:
    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.excluded = 0
        self.unreproduced = 0
        self.budget_hit = False

    def add(self, case, info):
        self.evals += 1
        info = info or {}
        for l in info.get("labels", ()):
            self.labels[l] = self.labels.get(l, 0) + 1
        if info.get("nontrivial"):
            k = hashlib.sha1(canon(info.get("key", case)).encode()).digest()[:10]
            if k not in self.nontrivial:
                self.nontrivial.add(k)
                n = len(self.nontrivial)
                if len(self.samples) < 2 or (n & (n - 1)) == 0 and len(self.samples) < 8:
                    s = canon(case)
                    self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000] + "...")


def _run_shard(mod, camp, shard, total, outfile, stopfile):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    stats = _Stats()
    result = {"stats": stats, "failure": None, "error": None}
    findings = [f for f in load_findings()
                if f["property"] == mod.ID and f.get("campaign") in (None, camp.name)]
    t0 = time.time()
    state = {"fail": None, "fail_evals": 0, "t_fail": None, "cache": {}}

    def judge(case):
        """Evaluate with known findings filtered out."""
        try:
            try:
                return camp.evaluate(case)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                msg = crash_of_code(e)
                if msg is None:
                    raise
                raise Violation("%s\n%s" % (msg, canon(case)[:3000])) from e
        except Violation as v:
            for f in findings:
                if v.sig is not None and f.get("sig") == v.sig:
                    stats.excluded += 1
                    return {"nontrivial": False, "labels": ["excluded:" + f["id"]]}
            raise

    def body(case):
        key = canon(case)
        if state["fail"] is not None:
            if key in state["cache"]:
                r = state["cache"][key]
                if r is not None:
                    raise Violation(r)
                return
            state["fail_evals"] += 1
            if (state["fail_evals"] > camp.shrink_evals
                    or time.time() - state["t_fail"] > camp.shrink_seconds):
                return
        else:
            if time.time() - t0 > camp.budget[TIER] or os.path.exists(stopfile):
                stats.budget_hit = True
                return
        try:
            info = judge(case)
        except Violation as v:
            if state["fail"] is None:
                state["t_fail"] = time.time()
            state["cache"][key] = str(v)
            best = state["fail"]
            if best is None or len(key) <= len(canon(best[0])):
                state["fail"] = (case, str(v))
            raise
        except Exception:
            state.setdefault("crash", traceback.format_exc() + "case: " + key[:4000] + "\n")
            raise
        if state["fail"] is not None:
            state["cache"][key] = None
        else:
            stats.add(case, info)

    try:
        if camp.enum is not None:
            cases = camp.enum()
            mine = cases[shard::total]
            for c in mine:
                try:
                    body(c)
                except Violation:
                    break
        else:
            n = getattr(camp, TIER)
            n = n // total + (1 if shard < n % total else 0)
            if n:
                t = given(camp.strategy())(body)
                t = settings(max_examples=n, database=None, deadline=None,
                             phases=[Phase.generate, Phase.shrink],
                             report_multiple_bugs=False, print_blob=False,
                             verbosity=Verbosity.quiet, derandomize=False,
                             suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                    HealthCheck.large_base_example,
                                                    HealthCheck.function_scoped_fixture,
                                                    HealthCheck.differing_executors])(t)
                t = hypothesis.seed(derive_seed(SEED, mod.ID, camp.name, shard))(t)
                try:
                    t()
                except BaseException:
                    if state["fail"] is None:
                        raise
    except BaseException:
        result["error"] = state.get("crash") or traceback.format_exc()
    if state["fail"] is not None and result["error"] is None:
        case, msg = state["fail"]
        ok = camp.confirm == 0
        for _ in range(camp.confirm + 2):
            if ok:
                break
            try:
                judge(case)
            except Violation as v:
                msg = str(v)
                ok = True
            except BaseException:
                result["error"] = traceback.format_exc()
                break
        if ok:
            result["failure"] = (case, msg)
            with open(stopfile, "w") as f:
                f.write("x")
        else:
            stats.unreproduced += 1
            sys.stderr.write("note: a failure did not reproduce: %s\n%s\n" % (msg, canon(case)[:2000]))
    with open(outfile, "wb") as f:
        pickle.dump(result, f)


def _shard_main(*a):
    try:
        _run_shard(*a)
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def run_campaign(mod, camp, base):
    outs, procs = [], []
    stopfile = os.path.join(base, "stop-" + camp.name)
    total = camp.shards
    if camp.enum is None:
        total = max(1, min(total, getattr(camp, TIER)))
    for s in range(total):
        out = os.path.join(base, "%s-%d.pkl" % (camp.name, s))
        outs.append(out)
        pr = multiprocessing.get_context("fork").Process(
            target=_shard_main, args=(mod, camp, s, total, out, stopfile))
        pr.start()
        procs.append(pr)
    for pr in procs:
        pr.join()
    res = []
    for out in outs:
        if not os.path.exists(out):
            raise HarnessError("shard died without a result (%s)" % camp.name)
        with open(out, "rb") as f:
            res.append(pickle.load(f))
    return res


def main(mod, argv):
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="vh-", dir=os.environ.get("VH_TMP") or
                            ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None))
    os.environ["VH_SCRATCH"] = base
    me = os.getpid()
    try:
        return _main(mod, argv, base, t0)
    finally:
        if os.getpid() == me:
            if hasattr(mod, "teardown"):
                mod.teardown()
            rmtree(base)


def _main(mod, argv, base, t0):
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    if hasattr(mod, "setup"):
        mod.setup()
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            r = json.load(f)
        camp = next(c for c in mod.CAMPAIGNS if c.name == r["campaign"])
        try:
            info = camp.evaluate(r["case"])
        except Exception as v:
            if not isinstance(v, Violation) and crash_of_code(v) is None:
                raise
            print("VIOLATION property=%s replay=%s" % (mod.ID, argv[1]))
            print(v)
            return 1
        print("held", info)
        return 0
    only = None
    if argv and argv[0] == "--only":
        only = argv[1]
    # known findings: show they still fail
    for f in load_findings():
        if f["property"] != mod.ID:
            continue
        camp = next((c for c in mod.CAMPAIGNS if c.name == f["campaign"]), None)
        if camp is None:
            continue
        try:
            camp.evaluate(f["case"])
        except Violation:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, f["what"]))
    total = _Stats()
    camps = {}
    failures = []
    for camp in mod.CAMPAIGNS:
        if only and camp.name != only:
            continue
        c0 = time.time()
        res = run_campaign(mod, camp, base)
        keys = set()
        ev = 0
        for r in res:
            if r["error"] and r["failure"] is None:
                sys.stderr.write(r["error"])
                raise HarnessError("campaign %s failed" % camp.name)
            s = r["stats"]
            ev += s.evals
            keys |= s.nontrivial
            total.excluded += s.excluded
            total.unreproduced += s.unreproduced
            total.budget_hit |= s.budget_hit
            for k, v in s.labels.items():
                k = camp.name + ":" + k
                total.labels[k] = total.labels.get(k, 0) + v
            if r["failure"]:
                failures.append((camp, r["failure"]))
        for i in range(2):
            for r in res:
                if len(r["stats"].samples) > i and len(total.samples) < 12:
                    total.samples.append({"campaign": camp.name, "case": r["stats"].samples[-1 - i]})
                    break
        total.evals += ev
        total.nontrivial |= {camp.name.encode() + k for k in keys}
        camps[camp.name] = {"evaluations": ev, "distinct_nontrivial": len(keys),
                            "seconds": round(time.time() - c0, 1)}
        if failures:
            break
    ev = {"property": mod.ID, "tier": TIER, "seed": SEED, "level": mod.LEVEL,
          "coverage": {"evaluations": total.evals, "distinct_nontrivial": len(total.nontrivial),
                       "rule": mod.RULE, "samples": total.samples, "campaigns": camps,
                       "labels": dict(sorted(total.labels.items())),
                       "excluded_known_findings": total.excluded,
                       "unreproduced_failures": total.unreproduced,
                       "budget_hit": total.budget_hit},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
    with open(os.path.join(evdir, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if failures:
        failures.sort(key=lambda x: len(canon(x[1][0])))
        camp, (case, msg) = failures[0]
        path = os.path.join(evdir, "replay", "%s-%s.json" % (mod.ID, digest(case)))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "campaign": camp.name, "case": case, "message": msg},
                      f, indent=1)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        print(msg[:4000])
        return 1
    print("%s: held on %d cases (%d distinct non-trivial) in %.1fs" %
          (mod.ID, total.evals, len(total.nontrivial), time.time() - t0))
    return 0
