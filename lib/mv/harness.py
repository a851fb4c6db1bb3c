"""Runs the cases of one check in parallel, keeps the books, writes evidence and replays."""
import collections
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("MV_REPO", "/repo")
EVIDENCE = os.environ.get("MV_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAY = os.environ.get("MV_REPLAY", os.path.join(VERIF, "replay"))
WORKERS = int(os.environ.get("MV_WORKERS", "8"))


class Stuck(BaseException):
    """A case used up its budget of loop iterations inside the code under test."""


class Skip(Exception):
    """The generated case is outside the domain (counted, never judged)."""


# ---------------------------------------------------------------------------------------------
# monitor inside the code under test: functions reached, loop iterations (for termination)


class Probe:
    TOOL = 4

    def __init__(self):
        self.functions = set()
        self.jumps = 0
        self.limit = None
        self.on = False
        self.loops = False  # counting loop iterations costs; only where a check asks for it

    def install(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "mv")
        except ValueError:
            return
        prefix = REPO + "/mygrations/"

        def start(code, off):
            if code.co_filename.startswith(prefix):
                self.functions.add("%s:%s" % (code.co_filename[len(prefix):], code.co_qualname))
                if self.loops:
                    m.set_local_events(self.TOOL, code, m.events.JUMP)
            return m.DISABLE

        def jump(code, src, dst):
            if dst < src:
                self.jumps += 1
                if self.limit is not None and self.jumps > self.limit:
                    self.limit += 1000
                    raise Stuck("more than the allowed number of loop iterations, in %s" % code.co_qualname)

        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.register_callback(self.TOOL, m.events.JUMP, jump)
        m.set_events(self.TOOL, m.events.PY_START)
        self.on = True

    def budget(self, n):
        self.jumps = 0
        self.limit = n

    def count_loops(self):
        """From now on loop iterations are counted, whatever the check asked for."""
        if not self.loops:
            self.loops = True
            sys.monitoring.restart_events()


probe = Probe()


class Case:
    """What one case observed."""

    def __init__(self, prop, seed, index, tier):
        self.prop = prop
        self.seed = seed
        self.index = index
        self.tier = tier
        self.rng = random.Random("%s/%s/%s" % (prop, seed, index))
        self.counters = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.violations = []
        self.known = collections.Counter()
        self.fingerprint = None
        self.nontrivial = False
        self.sample = None
        self.context = {}
        self.evals = 1

    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, name, value):
        self.sets[name].add(str(value)[:120])

    def violation(self, what, key=None, **data):
        """Records a violation.  key identifies the mechanism for the known-findings file."""
        if key is not None and (self.prop, key) in KNOWN:
            self.known[key] += 1
            return
        self.violations.append({"what": what, "key": key, "data": {k: jsonable(v) for k, v in data.items()}})


def jsonable(v):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return repr(v)


KNOWN = {}
FIXED = []


def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        if line.startswith("fixed:"):
            FIXED.append(line)
            continue
        if not line.startswith("finding:"):
            continue
        parts = line[len("finding:"):].strip().split(None, 2)
        prop = parts[0].split("=", 1)[1]
        key = parts[1].split("=", 1)[1]
        KNOWN[(prop, key)] = parts[2]


LOOPS = 60000000  # loop iterations inside the code under test; a whole case normally needs less than a hundredth


def inside_tool(tb):
    """Does the traceback pass through the code under test, and where does it end there?"""
    last = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + "/mygrations/"):
            last = f
    return last


def run_one(check, prop, seed, index, tier, budget=None):
    c = Case(prop, seed, index, tier)
    limit = getattr(check, "CASE_SECONDS", 100)
    signal.setitimer(signal.ITIMER_REAL, limit if budget is None else 150)
    probe.limit = None
    if budget is not None:
        probe.count_loops()
        probe.budget(budget)
    try:
        check.case(c)
    except Skip as e:
        c.count("skipped")
        c.seen("skip_reasons", e)
        c.skipped = True
    except Stuck as e:
        c.violation("the code under test does not come to an end: %s" % e, **c.context)
    except Exception as e:
        f = inside_tool(e.__traceback__)
        if f is None:
            raise
        c.violation("%r raised by %s (in %s) on input the property covers" % (e, f.name, os.path.basename(f.filename)),
                    trace=traceback.format_exc(), **c.context)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        probe.limit = None
    return c


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def worker(check, prop, seed, tier, lo, hi, k, n, deadline, q):
    signal.signal(signal.SIGALRM, _alarm)
    probe.install()
    agg = {"counters": collections.Counter(), "sets": collections.defaultdict(set), "violations": [], "known": collections.Counter(),
           "fps": set(), "evals": 0, "cases": 0, "samples": [], "errors": [], "slow": [], "cut": False, "jumps": 0}
    stuck = False
    for i in range(lo + k, hi, n):
        if time.time() > deadline:
            agg["cut"] = True
            break
        try:
            c = run_one(check, prop, seed, i, tier)
        except CaseTimeout:
            # too slow is no verdict; again, counting loop iterations
            try:
                c = run_one(check, prop, seed, i, tier, LOOPS)
            except BaseException as e:
                c = None
            if c is None or not c.violations:
                # a busy machine: no verdict on this case
                agg["slow"].append(i)
                continue
            stuck = True
        except Exception:
            agg["errors"].append("case %d: %s" % (i, traceback.format_exc()))
            if len(agg["errors"]) > 5:
                break
            continue
        agg["cases"] += 1
        agg["counters"].update(c.counters)
        agg["known"].update(c.known)
        for s, v in c.sets.items():
            agg["sets"][s] |= v
        if not getattr(c, "skipped", False):
            agg["evals"] += c.evals
            if c.nontrivial:
                for f in (c.fingerprint if isinstance(c.fingerprint, (list, set)) else [c.fingerprint]):
                    agg["fps"].add(hash(f) if not isinstance(f, int) else f)
            if c.sample is not None and len(agg["samples"]) < 2:
                agg["samples"].append(c.sample)
        for v in c.violations:
            v["index"] = i
            agg["violations"].append(v)
        if len(agg["violations"]) >= 5 or stuck:
            break
    agg["functions"] = probe.functions
    agg["counters"] = dict(agg["counters"])
    agg["known"] = dict(agg["known"])
    agg["sets"] = dict(agg["sets"])
    q.put(agg)


def main(check, argv):
    prop = check.PROPERTY
    probe.loops = getattr(check, "LOOP_BUDGET", False)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    load_known()
    t0 = time.time()
    if len(argv) > 1 and argv[0] == "--replay":
        return replay(check, prop, argv[1])
    total = check.CASES[tier]
    if os.environ.get("MV_CASES"):
        total = int(os.environ["MV_CASES"])
    cap = {"quick": 500, "thorough": 720}[tier]
    deadline = t0 + cap
    # one process per worker, forked before any case has run
    ctx = multiprocessing.get_context("fork")
    q = ctx.SimpleQueue()
    procs = [ctx.Process(target=worker, args=(check, prop, seed, tier, 0, total, k, WORKERS, deadline, q)) for k in range(WORKERS)]
    for p in procs:
        p.start()
    results = []
    import threading

    def collect():
        for _ in procs:
            results.append(q.get())

    th = threading.Thread(target=collect, daemon=True)
    th.start()
    hard = deadline + 130
    died = []
    while th.is_alive() and time.time() < hard:
        th.join(0.2)
        dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
        if dead:
            th.join(2)
            died = dead
            break
    for p in procs:
        if p.is_alive() and (time.time() >= hard or died):
            p.kill()
        p.join(5)
    out = {"counters": collections.Counter(), "sets": collections.defaultdict(set), "known": collections.Counter()}
    fps, violations, errors, samples, functions, slow = set(), [], [], [], set(), []
    evals = cases = 0
    cut = False
    for a in results:
        out["counters"].update(a["counters"])
        out["known"].update(a["known"])
        for s, v in a["sets"].items():
            out["sets"][s] |= v
        fps |= a["fps"]
        violations += a["violations"]
        errors += a["errors"]
        slow += a["slow"]
        samples += a["samples"]
        functions |= a["functions"]
        evals += a["evals"]
        cases += a["cases"]
        cut |= a["cut"]
    if len(slow) > max(3, cases // 50):
        errors.append("no answer within the time limit in cases %s" % sorted(slow)[:20])
    if died:
        errors.append("%d worker(s) died" % len(died))
    if len(results) < len(procs):
        errors.append("%d worker(s) gave no result" % (len(procs) - len(results)))

    # single pass extras (command line, fixed probes) run in this process
    final = Case(prop, seed, "final", tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 200)
    try:
        if hasattr(check, "final"):
            check.final(final)
    except (Exception, CaseTimeout) as e:
        f = inside_tool(e.__traceback__)
        if f is None or isinstance(e, CaseTimeout):
            errors.append("final: %s" % traceback.format_exc())
        else:
            final.violation("%r raised by %s on input the property covers" % (e, f.name), trace=traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["counters"].update(final.counters)
    out["known"].update(final.known)
    for s, v in final.sets.items():
        out["sets"][s] |= v
    for v in final.violations:
        v["index"] = "final"
        violations.append(v)

    findings = []
    signal.setitimer(signal.ITIMER_REAL, 100)
    try:
        for key, fn in getattr(check, "FINDINGS", {}).items():
            if (prop, key) in KNOWN and fn():
                findings.append((key, KNOWN[(prop, key)]))
    except (Exception, CaseTimeout):
        errors.append("findings: %s" % traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

    need = check.MINIMUM.get(tier, {}) if hasattr(check, "MINIMUM") else {}
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": len(fps),
        "rule": check.RULE,
        "samples": samples[:3],
        "cases_generated": cases,
        "observed": dict(sorted(out["counters"].items())),
        "distinct_observed": {k: len(v) for k, v in sorted(out["sets"].items())},
        "distinct_values": {k: sorted(v)[:25] for k, v in sorted(out["sets"].items())},
        "functions_of_repo_reached": len(functions),
        "known_findings_hit": dict(out["known"]),
        "stopped_at_time_cap": cut,
        "cases_without_answer_in_time": sorted(slow),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check.LEVEL, "coverage": coverage,
        "assumptions": check.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
    os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % prop))

    for key, text in findings:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, text))
    if violations:
        os.makedirs(REPLAY, exist_ok=True)
        violations.sort(key=lambda v: (v["index"] == "final", v["index"] if v["index"] != "final" else 0))
        for n, v in enumerate(violations[:5]):
            path = os.path.join(REPLAY, "%s-%s-%s-%d.json" % (prop, seed, v["index"], n))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, **v}, f, indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s" % v["what"])
        return 1
    if errors:
        for e in errors[:5]:
            print("CHECK-ERROR: %s" % e, file=sys.stderr)
        return 2
    if cut:
        # a slow machine: less is observed
        need = {k: n // 4 for k, n in need.items()}
    short = {k: (out["counters"].get(k, 0), n) for k, n in need.items() if out["counters"].get(k, 0) < n}
    if evals == 0 or (short and not os.environ.get("MV_CASES")):
        print("INCONCLUSIVE: too little observed: %s" % (short or "nothing evaluated"), file=sys.stderr)
        return 3
    print("%s: held on %d executions (%d distinct non-trivial), %.1f s; %s" % (
        prop, evals, len(fps), time.time() - t0, ", ".join("%s %d" % kv for kv in sorted(out["counters"].items())[:14])))
    return 0


def replay(check, prop, path):
    d = json.load(open(path))
    signal.signal(signal.SIGALRM, _alarm)
    probe.install()
    if d["index"] == "final":
        c = Case(prop, d["seed"], "final", d["tier"])
        check.final(c)
    else:
        c = run_one(check, prop, d["seed"], d["index"], d["tier"])
    for v in c.violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(json.dumps(v, indent=1, ensure_ascii=False))
    return 1 if c.violations else 0
