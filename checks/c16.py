import fractions
import numpy as np
from common import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])


def grid(start, end, step):
    """the exact expected times; step a Fraction of a minute"""
    span = end - start
    whole = span.days * 86400 + span.seconds
    n = whole // (step * 60)
    us = step * 60 * 10 ** 6
    if us.denominator != 1:
        raise AssertionError("step not in whole microseconds")
    return start, int(us), max(0, int(n))


def ends(case):
    """start, end (same instant arithmetic whatever the offsets) and the step"""
    s = when(case["t"])
    if case["naive"]:
        s = s.replace(tzinfo=None)
    step = fractions.Fraction(case["step"][0], case["step"][1])
    span = case["span"]
    if isinstance(span, list):      # a number of steps, and something more or less
        span = int(step * 60 * 10 ** 6) * span[0] + span[1]
    e = s + dt.timedelta(microseconds=span)
    if not case["naive"]:
        e = gen.in_offset(e, case["off2"])
    return s, e, step, (float(step) if case["float"] or step.denominator != 1 else int(step))


def ranges(case):
    L = lib.get(case["backend"])
    s, e, step, arg = ends(case)
    start, us, n = grid(s, e, step)
    got = []
    it = call("datetime_range", L.simulate.datetime_range, s, e, arg)
    it = iter(it)
    want = min(n, 400)
    while len(got) <= want:
        try:
            got.append(call("next of datetime_range(%s, %s, %r)" % (s, e, arg), next, it, None))
        except Violation:
            raise
        if got[-1] is None:
            got.pop()
            break
    if n <= 400 and len(got) != n or n > 400 and len(got) < 400:
        fail("datetime_range(%s, %s, %r) yields %d times, expected %d" % (s, e, arg, len(got), n))
    for k, t in enumerate(got[:400]):
        w = start + dt.timedelta(microseconds=us) * k
        if t != w or t.utcoffset() != s.utcoffset():
            fail("time %d of datetime_range(%s, %s, %r) is %s, expected %s" % (k, s, e, arg, t, w))
        if not t < e:
            fail("time %d of datetime_range(%s, %s, %r), %s, is not before the end" % (k, s, e, arg, t))
    if n == 0:
        return "empty" if e > s else None
    return "%s step, %s" % ("fractional" if step.denominator != 1 else "whole", "remainder left" if (s + dt.timedelta(microseconds=us) * n) != e else "exact fit")


Violation = pbt.Violation


def zones(case):
    """even steps of elapsed time, across changes of the UTC offset too, told in the zone of the start"""
    L = lib.get(case["backend"])
    z = gen.zone(case["zone"])
    a = when(case["t"])
    if isinstance(z, gen.Rule):         # near a switch of the zone
        u = z._switches(a.year)[case["which"] % 2].replace(tzinfo=gen.UTC)
        a = u + dt.timedelta(microseconds=case["before"])
    b = a + dt.timedelta(minutes=case["step"] * case["n"], microseconds=case["rest"])
    s = a.astimezone(z)
    e = b.astimezone(z if case["same"] else gen.UTC if case["off2"] == 0 else dt.timezone(dt.timedelta(seconds=case["off2"])))
    desc = "datetime_range(%s, %s, %r) in %r" % (s, e, case["step"], z)
    whole = ((b - a).days * 86400 + (b - a).seconds) // (60 * case["step"])
    got = call(desc, lambda: list(itertools.islice(L.simulate.datetime_range(s, e, case["step"]), case["n"] + 3)))
    if len(got) != max(0, whole):
        fail("%s yields %d times, expected %d" % (desc, len(got), whole))
    offsets = set()
    for k, t in enumerate(got):
        w = a + dt.timedelta(minutes=case["step"]) * k
        l = w.astimezone(z)
        if not (t.astimezone(gen.UTC) == w and t.utcoffset() == l.utcoffset() and t.replace(tzinfo=None) == l.replace(tzinfo=None)):
            fail("time %d of %s is %s, expected %s" % (k, desc, t, l))
        offsets.add(t.utcoffset())
    if case["rows"] and got:
        rows = call("simulate_span over " + desc, lambda: list(itertools.islice(L.simulate.simulate_span(40.0, 10.0, [2.0] * 361, s, e, case["step"]), 4)))
        for k, (r, t) in enumerate(zip(rows, got)):
            if r[0].astimezone(gen.UTC) != t.astimezone(gen.UTC):
                fail("time of row %d of simulate_span over %s is %s, expected %s" % (k, desc, r[0], t))
    return None if not got else "offset changes" if len(offsets) > 1 else "one offset"


def odd(case):
    """steps that are no whole number of microseconds"""
    L = lib.get(case["backend"])
    s = when(case["t"])
    step = fractions.Fraction(case["step"][0], case["step"][1])
    if (step * 60 * 10 ** 6).denominator == 1:
        return None
    span = int(step * 60 * 10 ** 6 * case["n"]) + case["more"]
    e = s + dt.timedelta(microseconds=span)
    arg = float(step)
    desc = "datetime_range(%s, %s, %r)" % (s, e, arg)
    whole = (span // 10 ** 6) / (step * 60)
    lo, hi = (max(0, int(whole * (1 + sign * fractions.Fraction(1, 10 ** 12)))) for sign in (-1, 1))
    got = call(desc, lambda: list(itertools.islice(L.simulate.datetime_range(s, e, arg), hi + 2)))
    if not lo <= len(got) <= hi:
        fail("%s yields %d times, expected %d" % (desc, len(got), lo))
    for k, t in enumerate(got):
        off = (t - s) // dt.timedelta(microseconds=1) - step * 60 * 10 ** 6 * k
        if abs(off) > fractions.Fraction(6 * k, 10) + 1:
            fail("time %d of %s is %s, %g microseconds off" % (k, desc, t, float(off)))
        if not t < e:
            fail("time %d of %s, %s, is not before the end" % (k, desc, t))
    return None if not got else "%d or more" % (100 if len(got) >= 100 else 1)


class Counting:
    """a horizon that counts how often it is read"""

    def __init__(self, values):
        self.values, self.reads = values, 0

    def __getitem__(self, k):
        self.reads += 1
        return self.values[k]

    def __len__(self):
        return len(self.values)


def due(L, lat, lon, t, target):
    """a longitude from which the sun stands about in the given direction, if there is one"""
    for _ in range(12):
        a = float(L.solar.get_azimuth(lat, lon, t))
        d = ref.wrap180(target - a)
        if abs(d) < 0.02:
            break
        g = ref.wrap180(float(L.solar.get_azimuth(lat, lon + 0.01, t)) - a) / 0.01
        lon += max(-60.0, min(60.0, d / g if abs(g) > 0.05 else 5.0))
        lon = (lon + 540.0) % 360.0 - 180.0
    return lon


def spans(case):
    L = lib.get(case["backend"])
    s, e, step, arg = ends(case)
    start, us, n = grid(s, e, step)
    n = min(n, 6)
    times = [start + dt.timedelta(microseconds=us) * k for k in range(n)]
    lat, lon = case["lat"], case["lon"]
    if case["aim"] is not None and times:
        lon = due(L, lat, lon, times[case["at"] % len(times)], case["aim"])
    kw = {}
    el, T, P = case["el"], case["T"], case["P"]
    names = [("elevation", el), ("temperature", T), ("pressure", P)]
    extra = case["extra"]
    pos = [v for _, v in names[:extra]]
    kw = {k: v for i, (k, v) in enumerate(names) if i >= extra and case["kw"] >> i & 1}
    amb = {"elevation": 0.0, "temperature": 288.15, "pressure": 101325.0}
    amb.update(dict(names[:extra]))
    amb.update(kw)
    pts = []
    values = [case["fill"] + (k in (0, 180)) + 2 * (k == 359) + 3 * (k == 360) for k in range(361)]
    for k, t in enumerate(times):
        alt = num("altitude", call("get_altitude", L.solar.get_altitude, lat, lon, t, amb["elevation"], amb["temperature"], amb["pressure"]))
        azi = num("azimuth", call("get_azimuth", L.solar.get_azimuth, lat, lon, t, amb["elevation"]))
        x = 380 * math.sin(math.radians(alt))
        clear = abs(azi % 1 - 0.5) > 1e-7 and abs(x % 1 - 0.5) > 1e-7
        thr = 380 - round(x)
        if clear:
            values[round(azi)] = thr + case["delta"][k]
        pts.append((t, alt, azi, thr, clear))
    kind = case["horizon"]
    hz = {"list": lambda: list(values), "tuple": lambda: tuple(values), "array": lambda: np.array(values), "dict": lambda: dict(enumerate(values)),
          "counting": lambda: Counting(list(values))}[kind]()
    before = list(values)
    it = iter(call("simulate_span", L.simulate.simulate_span, lat, lon, hz, s, e, arg, *pos, **kw))
    hidden = lit = 0
    for k in range(n):
        r = call("row %d of simulate_span" % k, next, it, None)
        if r is None:
            fail("simulate_span yields %d rows, expected at least %d" % (k, n))
        r = tuple(r)
        if len(r) != 5:
            fail("row %d of simulate_span is %r" % (k, r))
        t, alt, azi, thr, clear = pts[k]
        if kind == "counting" and hz.reads > 2 * (k + 2):
            fail("after %d rows simulate_span has looked at the horizon %d times" % (k + 1, hz.reads))
        if r[0] != t or r[0].utcoffset() != t.utcoffset():
            fail("time of row %d is %s, expected %s" % (k, r[0], t))
        c = max(1e-6, math.cos(math.radians(min(90.0, abs(alt)))))
        near("altitude of row %d" % k, r[1], alt, 1e-9 / c)
        near_angle("azimuth of row %d" % k, r[2], azi, 1e-9 / c)
        if not clear:
            continue
        shade = values[round(azi)]
        if num("horizon of row %d" % k, r[4]) != shade:
            fail("horizon of row %d, azimuth %r, is %r, expected %r" % (k, azi, r[4], shade))
        want = float(call("get_radiation_direct", L.radiation.get_radiation_direct, t, alt)) if shade >= thr else 0.0
        near("radiation of row %d (altitude %r, horizon %r, threshold %r)" % (k, alt, shade, thr), r[3], want, 1e-7)
        if alt > 0:
            hidden += shade < thr
            lit += shade >= thr
    if n < 6:
        if call("next of simulate_span", next, it, None) is not None:
            fail("simulate_span yields more than %d rows" % n)
    after = [hz[k] for k in range(361)]
    if after != before or len(hz) != 361:
        fail("simulate_span changed the horizon")
    if not n:
        return None
    return "%s%s" % ("lit and hidden" if hidden and lit else "hidden" if hidden else "lit" if lit else "night", " ambient" if extra or kw else "")


def lazily(case):
    """a simulation over centuries starts at once, and two of them run side by side"""
    L = lib.get("math")
    s = when(case["t"])
    e = s + dt.timedelta(days=300000)
    h = [500] * 361
    a = iter(call("simulate_span", L.simulate.simulate_span, case["lat"], case["lon"], h, s, e, 0.5))
    b = iter(call("simulate_span", L.simulate.simulate_span, -case["lat"], case["lon"] + 90, h, s, e, 30))
    for k in range(3):
        for it, lat, lon, step in ((a, case["lat"], case["lon"], 0.5), (b, -case["lat"], case["lon"] + 90, 30)):
            r = call("next of simulate_span", next, it)
            t = s + dt.timedelta(minutes=step * k)
            if r[0] != t:
                fail("time %d is %s, expected %s" % (k, r[0], t))
            near("altitude", r[1], float(L.solar.get_altitude(lat, lon, t)), 1e-9)
    return "all"


def long(case):
    """thousands of steps: all the times, and a sample of the rows"""
    L = lib.get("math")
    s = when(case["t"])
    us = case["us"]
    n = case["n"]
    e = s + dt.timedelta(microseconds=us) * n + dt.timedelta(microseconds=case["more"] % us)
    step = us / (60 * 10 ** 6)
    times = call("datetime_range", lambda: list(L.simulate.datetime_range(s, e, step)))
    if len(times) != n:
        fail("datetime_range(%s, %s, %r) yields %d times, expected %d" % (s, e, step, len(times), n))
    for k, t in enumerate(times):
        if t != s + dt.timedelta(microseconds=us) * k:
            fail("time %d of datetime_range(%s, %s, %r) is %s" % (k, s, e, step, t))
    m = min(n, 1500)
    e = s + dt.timedelta(microseconds=us) * m
    lat, lon = case["lat"], case["lon"]
    hz = [case["fill"] + (k * 37) % 200 for k in range(361)]
    rows = call("simulate_span", lambda: list(L.simulate.simulate_span(lat, lon, hz, s, e, step)))
    if len(rows) != m:
        fail("simulate_span(%s, %s, %r) yields %d rows, expected %d" % (s, e, step, len(rows), m))
    for k, r in enumerate(rows):
        if r[0] != times[k]:
            fail("time of row %d is %s, expected %s" % (k, r[0], times[k]))
    for k in sorted({0, 1, m - 1, m - 2} | {(case["pick"] * (j + 1) * 7919) % m for j in range(10)} | {j for j in (127, 128, 255, 256, 511, 512, 999, 1000, 1023, 1024, 1439, 1440) if j < m}):
        t, alt, azi, rad, shade = rows[k]
        a = float(L.solar.get_altitude(lat, lon, t))
        z = float(L.solar.get_azimuth(lat, lon, t))
        near("altitude of row %d" % k, alt, a, 1e-9)
        near_angle("azimuth of row %d" % k, azi, z, 1e-9)
        x = 380 * math.sin(math.radians(a))
        if abs(z % 1 - 0.5) < 1e-7 or abs(x % 1 - 0.5) < 1e-7:
            continue
        if shade != hz[round(z)]:
            fail("horizon of row %d is %r, expected %r" % (k, shade, hz[round(z)]))
        near("radiation of row %d" % k, rad, float(L.radiation.get_radiation_direct(t, a)) if shade >= 380 - round(x) else 0.0, 1e-7)
    return "over 1000 rows" if m > 1000 else "up to 1000 rows"


STEP = gen.one_of(gen.integers(1, 180).map(lambda k: [k, 1]), gen.integers(1, 64 * 90).map(lambda k: [k, 64]), gen.sampled([[1, 1], [60, 1], [1440, 1], [1, 2], [15, 2], [1, 4], [5, 1], [30, 1], [10, 1], [15, 1]]))
SPAN = gen.one_of(gen.integers(0, 86400).map(lambda k: k * 10 ** 6), gen.integers(-10 ** 10, 5 * 86400 * 10 ** 6), gen.integers(0, 400).map(lambda k: k * 3600 * 10 ** 6),
                  gen.integers(0, 3000).map(lambda k: k * 60 * 10 ** 6), gen.integers(-3, 3), gen.integers(0, 60).map(lambda k: k * 86400 * 10 ** 6),
                  gen.st.tuples(gen.integers(0, 60), gen.one_of(gen.integers(-3, 3), gen.integers(-10 ** 6, 10 ** 6), gen.sampled([-10 ** 6, 0, 10 ** 6]))).map(list))
# far from the first and last year
T = gen.whens()
COMMON = dict(t=T, span=SPAN, off2=gen.offsets(), step=STEP, float=gen.st.booleans(), backend=BACK)
AWARE = dict(COMMON, naive=gen.just(False))
CHECK = Check("C16", [
    Clause("range", fd(naive=gen.sampled([False, False, True]), **COMMON), ranges, 9000,
           nontrivial="the range has a time or a positive span; class: step, whether the last step ends at the end",
           examples=[dict(t="2021-01-01T00:00:00+00:00", span=86400 * 10 ** 6 * k, off2=0, step=[30, 1], float=False, naive=False, backend="numpy") for k in (0, 1, 2)]),
    Clause("span", fd(lat=gen.lats(), lon=gen.lons(), el=gen.elevations(), T=gen.temperatures(True), P=gen.pressures(True), extra=gen.integers(0, 3), kw=gen.integers(0, 7),
                      aim=gen.one_of(gen.just(None), gen.just(None), gen.integers(35900, 36100).map(lambda k: k % 36000 / 100.0), gen.integers(0, 719).map(lambda k: k / 2.0 + 0.01)), at=gen.integers(0, 5),
                      fill=gen.integers(0, 400), delta=gen.st.lists(gen.one_of(gen.integers(-3, 3), gen.integers(-400, 400), gen.integers(-20, 20).map(lambda k: k / 4.0)), min_size=6, max_size=6),
                      horizon=gen.sampled(["list", "tuple", "array", "dict", "counting"]), **AWARE), spans, 3500,
           nontrivial="at least one row; class: whether the sun is up, seen or hidden, whether atmosphere or elevation is given"),
    Clause("long", fd(t=gen.whens("modern"), lat=gen.lats(), lon=gen.lons(), n=gen.one_of(gen.integers(100, 1500), gen.integers(1500, 12000), gen.sampled([1440, 1441, 8760, 2000])),
                      us=gen.one_of(gen.sampled([1, 5, 10, 15, 30, 60]).map(lambda k: k * 60 * 10 ** 6), gen.integers(1, 240).map(lambda k: k * 15 * 10 ** 6)), more=gen.integers(0, 10 ** 9),
                      fill=gen.integers(0, 250), pick=gen.integers(1, 1000)), long, 90, nontrivial="all; class: number of rows"),
    Clause("zones", fd(t=gen.whens("modern"), zone=gen.zone_specs(), which=gen.integers(0, 1), before=gen.one_of(gen.integers(-86400, 3600).map(lambda k: k * 10 ** 6), gen.integers(-48, 4).map(lambda k: k * 900 * 10 ** 6)),
                       step=gen.one_of(gen.sampled([30, 60, 15, 1440, 720, 10080]), gen.integers(1, 3000)), n=gen.integers(0, 60), rest=gen.one_of(gen.just(0), gen.integers(0, 59 * 10 ** 6)),
                       same=gen.st.booleans(), off2=gen.offsets(), rows=gen.sampled([False, False, False, True]), backend=BACK), zones, 6000, nontrivial="the range has a time; class: whether the UTC offset changes in it",
           examples=[dict(t="2021-%s:00:00+00:00" % t, zone="Europe/Berlin", which=0, before=0, step=60, n=8, rest=0, same=same, off2=0, rows=True, backend="numpy") for t in ("03-27T23", "10-30T22") for same in (True, False)]),
    Clause("odd", fd(t=gen.whens("modern"), step=gen.st.tuples(gen.integers(1, 900), gen.sampled([3, 7, 9, 11, 13, 7, 17, 101, 999])).map(list), n=gen.one_of(gen.integers(0, 40), gen.integers(0, 2000)),
                     more=gen.one_of(gen.integers(0, 10 ** 6), gen.integers(0, 5 * 10 ** 7)), backend=BACK), odd, 1500, nontrivial="the step is no whole number of microseconds and there is a time; class: number of times"),
    Clause("lazy", fd(t=gen.whens("modern"), lat=gen.lats(), lon=gen.lons()), lazily, 300, nontrivial="all"),
], rule="random spans (with fractions of seconds, negative ones, two zones), whole and fractional steps, horizons set a few units around the altitude of the sun at each row; "
        "exact grid arithmetic and the pointwise functions as oracle",
    assumptions=["steps are exact in microseconds, so that the number of steps is not a matter of rounding"])
