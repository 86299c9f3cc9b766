from common import *

preload("numpy", "math", "blocked")
defects()
BACK = gen.sampled(["numpy", "math", "blocked"])


def clock(case):
    L = lib.get(case["backend"])
    d = when(case["t"])
    lon = case["lon"]
    st = num("solar time", call("get_solar_time", L.solar.get_solar_time, lon, d))
    ha = num("hour angle", call("get_hour_angle", L.solar.get_hour_angle, d, lon))
    near("solar time at longitude %r, %s" % (lon, case["t"]), st, ref.solar_time(lon, d), 1e-9)
    near("hour angle against solar time", ha, 15.0 * (st - 12.0), 1e-8)
    u = ref.utc(d)
    day = ref.yday(d)
    return "day %s%s" % (day if day in (1, 59, 60, 61, 365, 366) else "other", " other local date" if u.date() != d.date() else "")


def shift(case):
    """four minutes per degree, a minute per minute, nothing per second"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    st = num("solar time", call("get_solar_time", L.solar.get_solar_time, case["lon"], d))
    st2 = num("solar time", call("get_solar_time", L.solar.get_solar_time, case["lon"] + case["dlon"], d))
    near("solar time %r degrees further east" % case["dlon"], st2 - st, case["dlon"] / 15.0, 1e-9)
    e = d + dt.timedelta(minutes=case["m"])
    st3 = num("solar time", call("get_solar_time", L.solar.get_solar_time, case["lon"], e))
    if ref.yday(d) == ref.yday(e) and abs(case["m"]) < 1440:
        near("solar time %d minutes later" % case["m"], st3 - st, case["m"] / 60.0, 1e-9)
        return "same day"
    # across midnight the clock restarts and the equation of time changes by less than a minute
    dd = st3 - st - case["m"] / 60.0
    if abs((dd + 12) % 24 - 12) > 1.5 / 60 * (1 + abs(case["m"]) / 1440):
        fail("solar time moves %r hours in %d minutes" % (st3 - st, case["m"]))
    return "across midnight"


def series(case):
    L = lib.get(case["backend"])
    day = case["day"]
    e = near("equation of time of day %r" % day, call("equation_of_time", L.solar.equation_of_time, day), ref.equation_of_time(day), 1e-9)
    c = near("declination of day %r" % day, call("get_declination", L.solar.get_declination, day), ref.fast_declination(day), 1e-9)
    if abs(e) > 17.0 or abs(c) > 23.45 + 1e-9:
        fail("equation of time %r or declination %r out of range on day %r" % (e, c, day))
    return "day" if day == int(day) else "fraction of a day"


def truth(case):
    """against the true hour angle of the reference sun"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    s = ref.Sun(d)
    true = s.gst + case["lon"] - s.ra
    ha = num("hour angle", call("get_hour_angle", L.solar.get_hour_angle, d, case["lon"]))
    secs = ref.utc(d).second + ref.utc(d).microsecond / 1e6
    diff = ref.wrap180(true - ha)
    if not -0.8 <= diff - secs * 15 / 3600 <= 0.8:
        fail("hour angle %r, true %r" % (ha, ref.wrap180(true)))
    return "month %d" % ref.utc(d).month


CHECK = Check("C10", [
    Clause("clock", fd(t=gen.one_of(gen.zoned(), gen.boundary_utcs()), lon=gen.lons(), backend=BACK), clock, 16000, nontrivial="all; class: day of the year and whether the local date differs",
           examples=[dict(t="%04d-12-31T23:%02d:59.999+00:00" % (y, m), lon=lo, backend=b) for y in (2000, 2001, 1900, 2004) for m in (0, 59) for lo in (180.0, -180.0, 0.0) for b in ("numpy", "math", "blocked")]),
    Clause("shift", fd(t=gen.whens(), lon=gen.lons(), dlon=gen.one_of(gen.integers(-360, 360).map(float), gen.integers(-3000, 3000).map(lambda k: k / 100.0)), m=gen.integers(-1500, 1500), backend=BACK), shift, 8000,
           nontrivial="all; class: within a day or across midnight"),
    Clause("day_series", fd(day=gen.one_of(gen.integers(1, 366), gen.integers(10, 3660).map(lambda k: k / 10.0)), backend=BACK), series, 3000, nontrivial="all",
           examples=[dict(day=k, backend=b) for k in range(1, 367) for b in ("numpy", "math", "blocked")]),
    Clause("true_hour_angle", fd(t=gen.zoned("modern"), lon=gen.lons(), backend=BACK), truth, 5000, nontrivial="all; class: month"),
], rule="instants weighted to day, month and year boundaries in random zones, all day numbers; compared with the published series and the true hour angle",
    assumptions=["seconds are truncated: 'accurate only to the nearest minute'"])
