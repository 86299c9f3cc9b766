import copy
import inspect
import pickle

from api import *
from decimal import Decimal

preload("numpy", "math")
CHECKED = TIMED + LOCAL
NAMES = [e[1] for e in CHECKED]


def bind(e, o, d, npos, order, drop=()):
    """split the arguments: first `npos` positional, the others by keyword in an order given by `order`"""
    params = [p for p in e[2] + e[3] if p not in drop]
    vals = {p: (d if p == "when" else o[SHORT[p]]) for p in params}
    full = e[2] + e[3]
    pos = []
    for p in full[:npos]:
        if p in drop:
            break
        pos.append(vals[p])
    kw = [p for p in full[len(pos):] if p in vals]
    kw = sorted(kw, key=lambda p: (hash_order(p, order), p))
    return pos, {p: vals[p] for p in kw}


def hash_order(p, order):
    return (sum(map(ord, p)) * (2 * order + 1)) % 31


def split():
    return dict(npos=gen.integers(0, 9), order=gen.integers(0, 15), drop=gen.integers(0, 63))


def optional_drop(e, mask):
    return [p for i, p in enumerate(e[3]) if mask >> i & 1]


class Moment(dt.datetime):
    """somebody's own kind of datetime"""

    def __str__(self):
        return "a moment"

    def __repr__(self):
        return "a moment"


def moment(d):
    return Moment(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)


class NoOffset(dt.tzinfo):
    """Python counts a datetime whose timezone gives no UTC offset as naive"""

    def utcoffset(self, d):
        return None

    def dst(self, d):
        return None

    def tzname(self, d):
        return None


NO_OFFSET = NoOffset()


class Sometimes(NoOffset):
    """a timezone that knows the UTC offset of all times but one"""

    def __init__(self, but):
        self.but = but

    def utcoffset(self, d):
        return None if d.replace(tzinfo=None, fold=0) == self.but else dt.timedelta(hours=2)


def naive(case):
    """a datetime without timezone"""
    L = lib.get(case["backend"])
    e = entry(case["f"])
    d = dt.datetime.fromisoformat(case["t"]).replace(fold=case["fold"], tzinfo=NO_OFFSET if case["nooffset"] else None)
    if case.get("sub"):
        d = moment(d)
    if case.get("but"):
        d = d.replace(tzinfo=Sometimes(d.replace(tzinfo=None, fold=0)))
        pos, kw = bind(e, case["o"], d + dt.timedelta(hours=12 if d.year < 5000 else -12), case["npos"], case["order"], optional_drop(e, case["drop"]))
        try:
            func(L, e)(*pos, **kw)
        except (ValueError, ArithmeticError):          # polar night
            pass
    pos, kw = bind(e, case["o"], d, case["npos"], case["order"], optional_drop(e, case["drop"]))
    how = "%s(%s)" % (e[1], ", ".join([repr(x) for x in pos] + ["%s=%r" % i for i in kw.items()]))
    want = L.tzinfo_check.NoTimeZoneInfoError
    try:
        r = func(L, e)(*pos, **kw)
    except want as x:
        if not isinstance(x, ValueError):
            fail("NoTimeZoneInfoError is no ValueError")
        if getattr(x, "argname", None) != "when" or getattr(x, "dt", None) is not d and getattr(x, "dt", None) != d:
            fail("%s: the error names argument %r, value %r" % (how, getattr(x, "argname", None), getattr(x, "dt", None)))
        if "when" not in str(x) or str(d) not in str(x):
            fail("%s: message %r does not tell argument and value" % (how, str(x)))
        return "when by keyword" if "when" in kw else "when positional"
    except Exception as x:
        fail("%s raised %s: %s, not NoTimeZoneInfoError" % (how, type(x).__name__, x))
    fail("%s returned %r for a datetime without timezone" % (how, r))


JUNK = {"none": None, "int": 5, "float": 1.5, "str": "2020-01-01T00:00:00+00:00", "date": dt.date(2020, 1, 1), "bytes": b"x", "list": [],
        "tuple": (2020, 1, 1), "dict": {}, "timedelta": dt.timedelta(1), "object": object(), "class": dt.timedelta, "bool": True, "decimal": Decimal(1),
        "time": dt.time(12, tzinfo=dt.timezone.utc), "naive time": dt.time(12), "the class": dt.datetime, "zone": dt.timezone.utc}


def pickled(x):
    return pickle.loads(pickle.dumps(x))


def travelling(case):
    """the error keeps type, message and what it names when it is copied or sent to another process"""
    L = lib.get("numpy")
    e = entry(case["f"])
    d = dt.datetime.fromisoformat(case["t"])
    pos, kw = bind(e, case["o"], d, case["npos"], case["order"], optional_drop(e, case["drop"]))
    try:
        func(L, e)(*pos, **kw)
    except L.tzinfo_check.NoTimeZoneInfoError as err:
        x = err
    else:
        fail("%s takes a datetime without timezone" % e[1])
    for how, f in (("copied", copy.copy), ("deep-copied", copy.deepcopy), ("pickled", pickled)):
        with L.active():
            try:
                y = f(x)
            except Exception as err:
                fail("the error of %s cannot be %s: %s: %s" % (e[1], how, type(err).__name__, err))
        if type(y) is not type(x) or str(y) != str(x) or y.argname != x.argname or y.dt != x.dt:
            fail("the error of %s, %s, is %r: %s; it was %r: %s" % (e[1], how, y, y, x, x))
    return e[1]


def junk(case):
    """something that is no datetime"""
    L = lib.get(case["backend"])
    e = entry(case["f"])
    v = JUNK[case["junk"]]
    pos, kw = bind(e, case["o"], v, case["npos"], case["order"], optional_drop(e, case["drop"]))
    try:
        r = func(L, e)(*pos, **kw)
    except ValueError:
        return case["junk"]
    except Exception as x:
        fail("%s with when=%r raised %s: %s, not ValueError" % (e[1], v, type(x).__name__, x))
    fail("%s returned %r for when=%r" % (e[1], r, v))


def outcome(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as x:
        return x


def agree(how, name, a, b):
    if isinstance(a, Exception) or isinstance(b, Exception):
        if type(a) is not type(b):
            fail("%s: %r and %r" % (how, a, b))
        return
    if name in [e[1] for e in LOCAL]:
        if a != b:
            fail("%s: %r and %r" % (how, a, b))
        return
    same_result(how, name, a, b, 1e-12)


def styles(case):
    """all ways of passing the same arguments agree, with all optional arguments given"""
    L = lib.get(case["backend"])
    e = entry(case["f"])
    d = when(case["t"])
    o = case["o"]
    f = func(L, e)
    base = outcome(f, *values(e, o, d))
    pos, kw = bind(e, o, d, case["npos"], case["order"])
    if isinstance(base, TypeError):
        fail("%s%r raised %r" % (e[1], tuple(values(e, o, d)), base))
    r = outcome(f, *pos, **kw)
    agree("%s with %d positional arguments, then %s" % (e[1], len(pos), list(kw)), e[1], r, base)
    # an instance of a subclass is a datetime
    sub = list(values(e, o, moment(d)))
    agree("%s of a datetime's subclass" % e[1], e[1], outcome(f, *sub), base)
    # leaving optional arguments out is passing their declared defaults
    drop = optional_drop(e, case["drop"])
    if drop:
        sig = {p.name: p.default for p in inspect.signature(f).parameters.values()}
        for p in drop:
            if sig.get(p, inspect.Parameter.empty) is inspect.Parameter.empty:
                fail("the signature of %s shows no default for %s: %s" % (e[1], p, inspect.signature(f)))
        pos, kw = bind(e, o, d, case["npos"], case["order"], drop)
        r = outcome(f, *pos, **kw)
        full = [d if p == "when" else (sig[p] if p in drop else o[SHORT[p]]) for p in e[2] + e[3]]
        agree("%s without %s" % (e[1], drop), e[1], r, outcome(f, *full))
    return "%d of %d by keyword" % (len(e[2] + e[3]) - min(case["npos"], len(e[2] + e[3])), len(e[2] + e[3]))


def wrong(case):
    """missing, unknown, duplicate or surplus arguments are TypeErrors"""
    L = lib.get(case["backend"])
    e = entry(case["f"])
    d = when(case["t"])
    pos, kw = bind(e, case["o"], d, case["npos"], case["order"])
    kind = case["kind"]
    if kind == "missing":
        gone = e[2][case["drop"] % len(e[2])]
        pos, kw = bind(e, case["o"], d, case["npos"], case["order"], [gone])
    elif kind == "unknown":
        kw["no_such_argument"] = 1.0
    elif kind == "surplus":
        pos, kw = bind(e, case["o"], d, 99, 0)
        pos.append(1.0)
    else:
        if not pos:
            return None
        names = (e[2] + e[3])[:len(pos)]
        gone = names[case["drop"] % len(names)]
        kw[gone] = d if gone == "when" else case["o"][SHORT[gone]]
    try:
        r = func(L, e)(*pos, **kw)
    except TypeError:
        return kind + (" when" if kind in ("missing", "duplicate") and gone == "when" else "")
    except Exception as x:
        fail("%s with a %s argument raised %s: %s, not TypeError" % (e[1], kind, type(x).__name__, x))
    fail("%s with a %s argument returned %r" % (e[1], kind, r))


def simulation(case):
    """the generator form: the error comes when it is iterated"""
    L = lib.get(case["backend"])
    d = dt.datetime.fromisoformat(case["t"])
    try:
        rows = list(L.simulate.simulate_span(10.0, 20.0, list(range(361)), d, d + dt.timedelta(hours=case["h"]), 30))
    except L.tzinfo_check.NoTimeZoneInfoError:
        return "naive span"
    except Exception as x:
        fail("simulate_span from naive %s raised %s: %s" % (d, type(x).__name__, x))
    fail("simulate_span from naive %s gave %d rows" % (d, len(rows)))


def decorator(case):
    """check_aware_dt on generated functions: any parameter names and kinds, any subset checked"""
    L = lib.get("numpy")
    deco = getattr(L.tzinfo_check, "check_aware_dt", None)
    if deco is None:
        return None
    n, kinds = len(case["kinds"]), case["kinds"]
    names = ["p%d" % i for i in range(n)]
    pos = [p for p, k in zip(names, kinds) if k == 0]
    kwo = [p for p, k in zip(names, kinds) if k == 1]
    src = "def f(%s):\n    'doc'\n    return (%s,)" % (", ".join(pos + (["*"] + kwo if kwo else [])), ", ".join(names))
    ns = {}
    exec(src, ns)
    checked = [p for p, c in zip(names, case["checked"]) if c]
    g = deco(*(checked + ["not_a_parameter"]))(ns["f"])
    aware = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)
    plain = dt.datetime(2020, 1, 1)
    vals = {p: (plain if v else aware) for p, v in zip(names, case["naive"])}
    k = min(case["npos"], len(pos))
    args, kw = [vals[p] for p in pos[:k]], {p: vals[p] for p in names if p not in pos[:k]}
    want = [p for p in checked if vals[p] is plain]
    try:
        r = g(*args, **kw)
    except L.tzinfo_check.NoTimeZoneInfoError as x:
        if not want:
            fail("check_aware_dt rejected aware arguments of %s" % src)
        if x.argname not in want:
            fail("check_aware_dt blames %r, naive and checked are %r" % (x.argname, want))
        return "rejected"
    except Exception as x:
        fail("a function decorated with check_aware_dt raised %s: %s" % (type(x).__name__, x))
    if want:
        fail("check_aware_dt%r let naive %r pass in %s" % (tuple(checked), want, src))
    if r != tuple(vals[p] for p in names):
        fail("a function decorated with check_aware_dt returned %r" % (r,))
    if g.__name__ != "f" or g.__doc__ != "doc":
        fail("check_aware_dt changes name or documentation")
    return "passed"


def naive_iso():
    return gen.utcs().map(lambda s: s[:-6])


BACK = gen.sampled(["numpy", "math"])
O = dict(lat=10.0, lon=20.0, el=0.0, T=288.0, P=1e5, TL=2.0, AM=2.0, TY=365, SC=1367.0, ghi=500.0, alt=30.0)
CHECK = Check("C04", [
    Clause("naive", fd(f=gen.sampled(NAMES), t=naive_iso(), fold=gen.sampled([0, 0, 1]), nooffset=gen.sampled([False, False, True]), sub=gen.sampled([False, False, False, True]), but=gen.sampled([False, False, False, True]), o=others(), backend=BACK, **split()), naive, 8000,
           examples=[dict(f=n, t="2020-06-01T12:00:00", fold=0, nooffset=z, o=O, backend=b, npos=p, order=1, drop=63) for n in NAMES for b in ("numpy", "math") for p in (0, 1, 2, 9) for z in (False, True)],
           nontrivial="all; class: how the date-time was passed"),
    Clause("travelling", fd(f=gen.sampled(NAMES), t=naive_iso(), o=others(), **split()), travelling, 600, nontrivial="all; class: function"),
    Clause("not_a_datetime", fd(f=gen.sampled(NAMES), junk=gen.sampled(sorted(JUNK)), o=others(), backend=BACK, **split()), junk, 6000,
           examples=[dict(f=n, junk=j, o=O, backend="numpy", npos=p, order=1, drop=63) for n in NAMES for j in sorted(JUNK) for p in (0, 9)],
           nontrivial="all; class: what was passed"),
    Clause("styles", fd(f=gen.sampled(NAMES), t=gen.whens(), o=others(), backend=BACK, **split()), styles, 5000, nontrivial="all; class: arguments by keyword"),
    Clause("wrong_calls", fd(f=gen.sampled(NAMES), kind=gen.sampled(["missing", "unknown", "duplicate", "surplus"]), t=gen.whens(), o=others(), backend=BACK, **split()),
           wrong, 5000, examples=[dict(f=n, kind="missing", t="2020-06-01T12:00:00+00:00", o=O, backend="numpy", npos=p, order=0, drop=k) for n in NAMES for p in (0, 9) for k in (0, 1, 2)],
           nontrivial="a wrong call could be built"),
    Clause("simulation", fd(t=naive_iso(), h=gen.integers(1, 50), backend=BACK), simulation, 300, nontrivial="all"),
    Clause("decorator", fd(kinds=gen.st.lists(gen.sampled([0, 0, 1]), min_size=4, max_size=4), checked=gen.st.lists(gen.st.booleans(), min_size=4, max_size=4),
                           naive=gen.st.lists(gen.st.booleans(), min_size=4, max_size=4), npos=gen.integers(0, 4)), decorator, 1500, nontrivial="all; class: rejected or passed"),
], rule="function, split of its arguments into positional and keyword ones, optional arguments left out, and the date-time argument drawn independently",
    assumptions=["datetime_range only adds to its date-times and is not required to check them"])
