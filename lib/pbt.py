"""Small driver around Hypothesis.

A check is a list of clauses.  A clause is a strategy producing JSON-able cases, a list of
explicit cases, and a function that raises Violation for a case that breaks the property, and
otherwise returns a label for a non-trivial case or None for a trivial one.

Every random choice is Hypothesis's, seeded from (VERIF_SEED, clause, shard); shards run in
forked processes, so the set of cases explored is a function of the code and VERIF_SEED.
Exit status 0: held; 1: VIOLATION printed, replay file written; 2: the harness itself failed.
"""
import collections
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "verif-hypothesis-unused"))
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import hypothesis.internal.conjecture.engine as _engine

_engine.MAX_SHRINKING_SECONDS = 20

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_SECONDS = 120


class Violation(Exception):
    pass


class _Hang(BaseException):
    pass


def fail(msg):
    raise Violation(msg)


def call(desc, f, *args, **kw):
    """A call into pysolar that the property says must succeed."""
    try:
        return f(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (desc, type(e).__name__, e)) from None


class Clause:
    def __init__(self, name, strategy, fn, quick, thorough=None, examples=(), nontrivial="", setup=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 40
        self.examples = list(examples)
        self.nontrivial = nontrivial
        self.setup = setup


# multiplies the cases of the quick tier, not those of the thorough one
BOOST = {"C01": 3, "C02": 2, "C04": 1.5, "C06": 3, "C07": 3, "C08": 2, "C09": 1.5, "C10": 1.5, "C11": 2, "C21": 1.5, "C22": 2, "C25": 2, "C26": 2, "C28": 2}


class Check:
    def __init__(self, pid, clauses, rule, assumptions=(), summary=None):
        self.pid, self.clauses, self.rule = pid, clauses, rule
        self.boost = BOOST.get(pid, 1)
        self.assumptions = list(assumptions)


# ---------------------------------------------------------------- known findings
class Known:
    """known_findings.txt: `known: property=C01 key=sidereal what` / `fixed: ...` (suppresses nothing)"""

    def __init__(self, pid):
        self.keys = {}
        self.observed = {}
        path = os.path.join(VERIF, "known_findings.txt")
        for line in open(path, encoding="utf-8"):
            if line.startswith("known:"):
                words = line.split(None, 3)
                if words[1] == "property=" + pid:
                    self.keys[words[2].partition("=")[2]] = words[3].strip()

    def listed(self, key):
        return key in self.keys

    def seen(self, key):
        if key not in self.keys:
            raise Violation("deviation %r is not a listed known finding" % key)
        self.observed[key] = self.observed.get(key, 0) + 1


KNOWN = None


def known(pid):
    global KNOWN
    if KNOWN is None:
        KNOWN = Known(pid)
    return KNOWN


# ---------------------------------------------------------------- one shard
def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _alarm(signum, frame):
    raise _Hang()


def undigested(x):
    """an exception nobody expected, out of the code under test or out of an oracle that its result does not fit:
    on the unchanged tree there is none"""
    tb = traceback.extract_tb(x.__traceback__)
    place = tb[-1]
    own = [f for f in tb if "/pysolar/" in f.filename]
    return "%s: %s, at %s:%d%s" % (type(x).__name__, x, os.path.basename(place.filename), place.lineno,
                                   ", below %s:%d" % (os.path.basename(own[-1].filename), own[-1].lineno) if own and own[-1] is not place else "")


class _Shard:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = {}
        self.violation = None       # (case, message)
        self.error = None
        self.history = collections.deque(maxlen=40)

    def one(self, clause, case, count=True):
        if count:
            self.evaluations += 1
        signal.alarm(HANG_SECONDS)
        try:
            label = clause.fn(case)
        except _Hang:
            raise Violation("no answer within %d s" % HANG_SECONDS) from None
        except (Violation, hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.HypothesisException, MemoryError):
            raise
        except Exception as x:
            if os.environ.get("VERIF_DEBUG"):
                raise
            raise Violation(undigested(x)) from x
        finally:
            signal.alarm(0)
        if count:
            if label is not None:
                self.nontrivial.add(zlib.crc32(canon(case).encode()) | zlib.adler32(canon(case).encode()) << 32)
                self.labels[label] += 1
                if label not in self.samples and len(self.samples) < 6:
                    self.samples[label] = case
            else:
                self.labels["(trivial)"] += 1
            self.history.append(case)

    def result(self):
        return dict(evaluations=self.evaluations, nontrivial=self.nontrivial, labels=dict(self.labels),
                    samples=self.samples, violation=self.violation, error=self.error,
                    known=dict(KNOWN.observed) if KNOWN else {})


def run_shard(clause, n, seed, with_examples):
    s = _Shard()
    signal.signal(signal.SIGALRM, _alarm)
    if KNOWN:
        KNOWN.observed.clear()
    try:
        if clause.setup:
            clause.setup()
        if with_examples:
            for case in clause.examples:
                case = json.loads(canon(case))
                try:
                    s.one(clause, case)
                except Violation as v:
                    s.violation = (case, str(v))
                    return s.result()
        if clause.strategy is None or n <= 0:
            return s.result()

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)
        @given(clause.strategy)
        def test(case):
            try:
                s.one(clause, case, count=s.violation is None)
            except Violation as v:
                s.violation = (case, str(v))
                raise

        try:
            test()
        except Violation:
            pass
        except BaseException:
            # e.g. Hypothesis's Flaky: a violation was seen that did not come back; it is still one
            if s.violation is None:
                raise
    except Violation as v:
        s.violation = (None, str(v))
    except BaseException:
        s.error = traceback.format_exc()
    if s.violation is not None and s.violation[0] is not None:
        case, msg = s.violation
        if not _reproduces(clause, [case]):
            hist = list(s.history)
            s.violation = (case, msg + " (only after earlier calls, kept in 'before')", hist)
    return s.result()


def _reproduces(clause, cases):
    """in a fresh child process"""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(HANG_SECONDS)
            for c in cases:
                clause.fn(c)
        except (Violation, _Hang):
            code = 1
        except BaseException:
            code = 1
        os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status) != 0


_CHECK = None


def _task(args):
    ci, n, seed, ex = args
    warnings.simplefilter("ignore")
    return run_shard(_CHECK.clauses[ci], n, seed, ex)


# ---------------------------------------------------------------- whole check
SHARD = 400


def run(check, tier, seed, jobs=None, only=None, scale=1.0):
    global _CHECK
    t0 = time.time()
    _CHECK = check
    kn = known(check.pid)
    tasks = []
    for ci, c in enumerate(check.clauses):
        if only and c.name not in only:
            continue
        n = int((c.quick * check.boost if tier == "quick" else c.thorough) * scale)
        size = max(SHARD, n // 64)
        shards = max(1, -(-n // size)) if c.strategy is not None else 1
        if shards < 8 and n >= 64:
            shards = 8
        for k in range(shards):
            share = n * (k + 1) // shards - n * k // shards
            sd = zlib.crc32(("%s|%s|%d|%d" % (check.pid, c.name, seed, k)).encode())
            tasks.append((ci, share, sd, k == 0))
    # explicit cases first, then round robin over the clauses
    tasks_sorted = sorted(range(len(tasks)), key=lambda i: (not tasks[i][3], i))
    jobs = jobs or min(8, os.cpu_count() or 1)
    results = {}
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(jobs, maxtasksperchild=4)
    bad = None
    try:
        for i, r in zip(tasks_sorted, pool.imap(_task, [tasks[i] for i in tasks_sorted], chunksize=1)):
            results[i] = r
            if r["error"]:
                sys.stderr.write(r["error"])
                print("harness error in clause %s" % check.clauses[tasks[i][0]].name)
                return 2
            if r["violation"]:
                bad = i
                break
    finally:
        pool.terminate()
        pool.join()

    per = {}
    observed = {}
    for i, r in results.items():
        c = check.clauses[tasks[i][0]]
        d = per.setdefault(c.name, dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples={}))
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] |= r["nontrivial"]
        d["labels"].update(r["labels"])
        for k, v in r["samples"].items():
            d["samples"].setdefault(k, v)
        for k, v in r["known"].items():
            observed[k] = observed.get(k, 0) + v

    rc = 0
    if bad is not None:
        rc = 1
        c = check.clauses[tasks[bad][0]]
        v = results[bad]["violation"]
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (check.pid, c.name))
        doc = {"property": check.pid, "clause": c.name, "seed": seed, "case": v[0], "message": v[1]}
        if len(v) > 2:
            doc["before"] = v[2]
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
            f.write("\n")
        print("clause %s, case %s" % (c.name, canon(v[0])[:2000]))
        print("  " + v[1])
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
    else:
        for k, what in kn.keys.items():
            if observed.get(k):
                print("KNOWN-FINDING: property=%s key=%s %s" % (check.pid, k, what))

    evidence(check, tier, seed, per, time.time() - t0, 1 if rc else 0, observed, tasks)
    total = sum(d["evaluations"] for d in per.values())
    print("%s %s seed=%d: %d cases in %d clauses, %.1f s%s" % (
        check.pid, tier, seed, total, len(per), time.time() - t0, "" if rc == 0 else ", VIOLATED"))
    return rc


def _clip(x, n=700):
    s = canon(x)
    return x if len(s) <= n else s[:n] + "..."


def evidence(check, tier, seed, per, wall, violations, observed, tasks):
    samples = []
    for name, d in per.items():
        for lab, case in list(d["samples"].items())[:3]:
            samples.append({"clause": name, "class": lab, "case": _clip(case)})
    doc = {
        "property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": sum(len(d["nontrivial"]) for d in per.values()),
            "rule": check.rule,
            "samples": samples[:60],
            "clauses": {name: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nontrivial"]),
                               "classes": dict(d["labels"].most_common(40)),
                               "nontrivial_when": next(c.nontrivial for c in check.clauses if c.name == name)}
                        for name, d in per.items()},
            "known_findings_observed": observed,
            "generator": "hypothesis %s, %d shards" % (hypothesis.__version__, len(tasks)),
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def replay(check, path):
    doc = json.load(open(path))
    known(check.pid)
    clause = next(c for c in check.clauses if c.name == doc["clause"])
    warnings.simplefilter("ignore")
    if clause.setup:
        clause.setup()
    signal.signal(signal.SIGALRM, _alarm)
    s = _Shard()
    try:
        for case in doc.get("before", []) + [doc["case"]]:
            s.one(clause, case)
    except Violation as v:
        print("  %s" % v)
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        return 1
    print("replay passes")
    return 0
