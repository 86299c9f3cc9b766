import os
import time

from api import *

preload("numpy", "math", "blocked")
# functions whose value near the zenith, nadir or an asin edge is ill-conditioned get a wider tolerance there
SYSTEM_TZ = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "XXX11:30", "AAA-13"]


def equal(name, desc, x, y, o):
    if name in ("get_leap_seconds", "get_delta_t"):
        if x != y:
            fail("%s: %r and %r" % (desc, x, y))
        return
    if name in ("get_azimuth", "get_azimuth_fast"):
        # weigh by the horizontal component: the azimuth of a sun in the zenith means nothing
        return same_result(desc, name, x, y, o["weight"])
    same_result(desc, name, x, y, 1e-6 if name in ("get_altitude_fast",) else 2e-7)


def run(case):
    L = lib.get(case["backend"])
    u = when(case["t"])
    zs = [gen.zone(z) for z in case["zones"]]
    ds = [u] + [u.astimezone(z) for z in zs]
    if case.get("sub"):
        ds[1:] = [gen.moment(d) for d in ds[1:]]
    o = dict(case["o"])
    e = entry(case["f"])
    f = func(L, e)
    o["weight"] = 2e-7
    if case["f"] in ("get_azimuth", "get_azimuth_fast"):
        alt = ref.fast_horizontal(o["lat"], o["lon"], u)[1] if case["f"] == "get_azimuth_fast" else call(
            "get_altitude", L.solar.get_altitude, o["lat"], o["lon"], u, pressure=0)
        c = math.cos(math.radians(alt))
        o["weight"] = 2e-7 / max(c, 1e-6) if case["f"] == "get_azimuth" else 1e-6 / max(c * c, 1e-6)
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = case["tz"]
        time.tzset()
        res = []
        for d in ds:
            try:
                res.append(f(*values(e, o, d)))
            except Exception as x:      # whether it may raise is the business of other checks
                res.append(x)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    for d, r in zip(ds[1:], res[1:]):
        if isinstance(r, Exception) or isinstance(res[0], Exception):
            if type(r) is not type(res[0]):
                fail("%s at %s (%r) gives %r, and at %s %r" % (case["f"], d.isoformat(), d.tzinfo, r, u.isoformat(), res[0]))
            continue
        equal(case["f"], "%s at %s (%r) and at %s" % (case["f"], d.isoformat(), d.tzinfo, u.isoformat()), r, res[0], o)
    kinds = set()
    for d in ds[1:]:
        n, m = d.replace(tzinfo=None), u.replace(tzinfo=None)
        if n.date() != m.date():
            kinds.add("other year" if n.year != m.year else "other month" if n.month != m.month else "other date")
        if d.fold:
            kinds.add("repeated hour")
        if d.utcoffset().total_seconds() % 60:
            kinds.add("offset with seconds")
    if all(d.utcoffset() == dt.timedelta(0) for d in ds[1:]):
        return None
    for k in ("repeated hour", "other year", "other month", "other date", "offset with seconds"):
        if k in kinds:
            return k
    return "same date"


def switches(case):
    """within hours of a daylight-saving change of a rule zone, where local times repeat or are skipped"""
    z = gen.zone(case["rule"])
    a, b = z._switches(case["year"])
    u = (a, b)[case["which"]].replace(tzinfo=dt.timezone.utc) + dt.timedelta(seconds=case["s"])
    c = dict(t=u.isoformat(), zones=[case["rule"], case["off"]], o=case["o"], f=case["f"], backend=case["backend"], tz=case["tz"])
    return run(c)


def simulated(case):
    """a simulation over the same span in another zone gives the same rows"""
    L = lib.get(case["backend"])
    u = when(case["t"])
    e = u + dt.timedelta(minutes=case["minutes"])
    z = gen.zone(case["zone"])
    o = case["o"]
    hor = list(range(361))
    args = (o["el"], o["T"], o["P"])
    a = call("simulate_span", lambda: list(L.simulate.simulate_span(o["lat"], o["lon"], hor, u, e, case["step"], *args)))
    off = dt.timezone(u.astimezone(z).utcoffset())
    b = call("simulate_span", lambda: list(L.simulate.simulate_span(o["lat"], o["lon"], hor, u.astimezone(off), e.astimezone(off), case["step"], *args)))
    if len(a) != len(b):
        fail("simulation has %d rows in UTC and %d in %r" % (len(a), len(b), off))
    for x, y in zip(a, b):
        if x[0] != y[0]:
            fail("simulated times %s and %s differ" % (x[0], y[0]))
        same_result("altitude at %s" % y[0], "get_altitude", x[1], y[1], 2e-7)
        same_result("azimuth at %s" % y[0], "get_azimuth", x[2], y[2], 2e-7 / max(1e-6, math.cos(math.radians(min(90, float(x[1]))))))
        if x[4] == y[4]:
            same_result("radiation at %s" % y[0], "", x[3], y[3], 1e-6)
    return "rows %d" % min(len(a), 3) if off != dt.timezone.utc else None


names = [e[1] for e in TIMED]
WEIGHTED = names + ["get_altitude_fast", "get_azimuth_fast", "get_hour_angle", "get_solar_time", "get_position"]
BACK = gen.sampled(["numpy", "math", "numpy", "blocked"])
NT = "the argument is not in UTC; class: what differs between the local and the UTC calendar"
CHECK = Check("C03", [
    Clause("functions", fd(t=gen.one_of(gen.utcs(), gen.boundary_utcs()), zones=gen.st.lists(gen.zone_specs(), min_size=1, max_size=3), o=others(),
                           f=gen.sampled(WEIGHTED), backend=BACK, tz=gen.sampled(SYSTEM_TZ), sub=gen.sampled([0, 0, 1])), run, 16000, nontrivial=NT,
           examples=[dict(t="2020-12-31T23:59:30+00:00", zones=[53, -17762, 86399, -86399], o=dict(lat=10.0, lon=20.0, el=0.0, T=288.0, P=1e5, TL=2.0, AM=2.0, TY=365,
                                                                                           SC=1367.0, ghi=500.0, alt=30.0), f=n, backend=b, tz="UTC0")
                     for n in names for b in ("numpy", "math", "blocked")]),
    Clause("daylight_saving", fd(rule=gen.zone_specs().filter(lambda z: isinstance(z, list) and len(z) == 7), year=gen.one_of(gen.integers(1950, 2050), gen.integers(3, 9997)),
                                 which=gen.sampled([0, 1]), s=gen.integers(-10800, 10800), off=gen.offsets(), o=others(), f=gen.sampled(WEIGHTED), backend=BACK,
                                 tz=gen.sampled(SYSTEM_TZ)), switches, 5000, nontrivial=NT),
    Clause("simulation", fd(t=gen.utcs(), minutes=gen.integers(30, 3000), step=gen.sampled([10, 30, 60, 17, 45, 400]), zone=gen.zone_specs(), o=others(),
                            backend=gen.sampled(["numpy", "math"])), simulated, 700, nontrivial="the other zone is not UTC"),
], rule="one instant expressed in up to four zones (fixed offsets incl. seconds and +-23:59:59, named zones, generated daylight-saving rules), system time "
        "zone varied; results compared with those of the UTC expression",
    assumptions=["the generated zones obey the tzinfo contract (PEP 495)"])
