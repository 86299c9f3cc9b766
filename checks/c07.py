from common import *

preload("numpy", "math")
BACK = gen.sampled(["numpy", "math"])
RATE = 360.98564736629 / 86400.0      # degrees of sidereal time per second
SUN = 0.9856 / 86400.0                # mean degrees of right ascension per second


def time_steps(a, b):
    """jumps of the tabulated UT1 between two instants, seconds"""
    ua = ref.leap_seconds(a) - ref.delta_t(a)
    ub = ref.leap_seconds(b) - ref.delta_t(b)
    return ub - ua


def topo(L, d, lat, lon, el):
    dec, ha = call("get_topocentric_position at %s" % d.isoformat(), L.solar.get_topocentric_position, lat, lon, d, el)
    return num("declination", dec), num("hour angle", ha)


def motion(case):
    """hour angle advances with the clock; declination hardly moves; the reported position follows"""
    L = lib.get(case["backend"])
    a = when(case["t"])
    b = gen.in_offset(a + dt.timedelta(microseconds=case["us"]), case["off"])
    (lat, lon), el = aimed(case.get("aim"), a, case["lat"], case["lon"]), case["el"]
    secs = case["us"] / 1e6
    step = time_steps(a, b)
    da, ha = topo(L, a, lat, lon, el)
    db, hb = topo(L, b, lat, lon, el)
    # right ascension moves 0.9 .. 1.12 degrees a day; nutation and parallax add at most a few 1e-6 per second
    moved = ref.wrap180(hb - ha)
    want = RATE * (secs + step) - SUN * (secs + ref.leap_seconds(b) - ref.leap_seconds(a))
    tol = 0.0012 * RATE * secs + 2.5e-6 * min(secs, 60.0) + 2e-6
    if abs(moved - want) > tol:
        fail("hour angle moves %.8f degree in %.6f s from %s (rotation: %.8f, allowed +-%.2g)" % (moved, secs, a.isoformat(), want, tol))
    rate = 0.42 / 86400.0
    if abs(db - da) > rate * secs + 3e-6 * min(secs, 1800.0) / 10 + 2e-6:
        fail("declination moves %.8f degree in %.6f s from %s" % (db - da, secs, a.isoformat()))
    pa = call("get_position", L.solar.get_position, lat, lon, a, el, pressure=0.0)
    pb = call("get_position", L.solar.get_position, lat, lon, b, el, pressure=0.0)
    s = ref.separation(float(pa[0]), float(pa[1]), float(pb[0]), float(pb[1]))
    c = abs(moved) * math.cos(math.radians(da))
    if abs(s - c) > 0.01 * c + rate * secs + 1e-5:
        fail("position moves %.8f degree in %.6f s from %s, hour angle and declination say %.8f" % (s, secs, a.isoformat(), c))
    u = ref.utc(a)
    v = ref.utc(b)
    cross = "year" if u.year != v.year else "month" if u.month != v.month else "day" if u.day != v.day else "hour" if u.hour != v.hour else \
        "minute" if u.minute != v.minute else "second" if u.second != v.second else "within a second"
    return cross + (" and table step" if step else "")


def altitude_path(case):
    """three or more equally spaced instants: altitude and azimuth have no kinks (second differences)"""
    L = lib.get(case["backend"])
    a = when(case["t"])
    h = case["us"] / 1e6
    ts = [a + dt.timedelta(microseconds=case["us"] * k) for k in range(5)]
    if any(time_steps(x, y) for x, y in zip(ts, ts[1:])):
        return None
    lat, lon = aimed(case.get("aim"), ts[2], case["lat"], case["lon"])
    pts = [call("get_position", L.solar.get_position, lat, lon, t, case["el"], pressure=0.0) for t in ts]
    us = [ref.unit(float(az), float(alt)) for az, alt in pts]
    w = math.radians(RATE * h)
    for k in range(1, 4):
        d2 = math.sqrt(sum((us[k - 1][i] - 2 * us[k][i] + us[k + 1][i]) ** 2 for i in range(3)))
        if d2 > 1.1 * w * w + 3e-7:
            fail("the path of the sun has a kink near %s: second difference %.3g, smooth motion has %.3g" % (ts[k].isoformat(), d2, w * w))
    return "rows at %d s" % (10 ** int(math.log10(max(1.0, h))))


def refracted_order(case):
    """above the refraction cut-off a rising sun keeps rising in the reported altitude too"""
    L = lib.get(case["backend"])
    a = when(case["t"])
    b = a + dt.timedelta(microseconds=case["us"])
    args = aimed(case.get("aim"), a, case["lat"], case["lon"])
    T, P = case["T"], case["P"]
    ga, gb = (num("geometric", call("get_altitude", L.solar.get_altitude, *args, d, case["el"], T, 0.0)) for d in (a, b))
    ra, rb = (num("altitude", call("get_altitude", L.solar.get_altitude, *args, d, case["el"], T, P)) for d in (a, b))
    if min(ga, gb) < -0.8333 or abs(ga - gb) < 1e-6:
        return None
    # refraction changes by at most 1/3 degree per degree (at the horizon, dense air: 0.45)
    if (rb - ra) * (gb - ga) <= 0 and 101325.0 * T / (288.15 * max(P, 1.0)) > 0.85:
        fail("from %s to %s the sun goes from %r to %r but is reported from %r to %r" % (a, b, ga, gb, ra, rb))
    if abs((rb - ra) - (gb - ga)) > 0.6 * abs(gb - ga) * max(1.0, P / T / (101325.0 / 288.15)) + 1e-6:
        fail("refraction jumps from %r to %r between geometric altitudes %r and %r" % (ra - ga, rb - gb, ga, gb))
    return "low" if ga < 5 else "high"


US = gen.one_of(gen.integers(1000, 10 ** 6), gen.integers(1, 1800).map(lambda s: s * 10 ** 6), gen.integers(1000, 1800 * 10 ** 6), gen.sampled([1000, 10 ** 6, 60 * 10 ** 6, 1800 * 10 ** 6]))
WHEN = gen.one_of(gen.boundary_utcs(), gen.whens(), gen.boundary_utcs())
PL = dict(aim=gen.aims(2), lat=gen.lats(), lon=gen.lons(), el=gen.elevations(), backend=BACK)
CHECK = Check("C07", [
    Clause("motion", fd(t=WHEN, us=US, off=gen.offsets(), **PL), motion, 9000, nontrivial="all; class: the calendar boundary crossed",
           examples=[dict(t=t, us=2 * 10 ** 6, off=0, aim=None, lat=10.0, lon=20.0, el=0.0, backend=b) for t in
                     ("2016-12-31T23:59:59+00:00", "2012-06-30T23:59:59+00:00", "2000-02-28T23:59:59+00:00", "2000-12-31T23:59:59+00:00", "2014-04-30T23:59:59+00:00",
                      "1999-12-31T23:59:59+00:00", "1969-12-31T23:59:59+00:00", "1899-12-31T23:59:59+00:00") for b in ("numpy", "math")]),
    Clause("smooth_path", fd(t=WHEN, us=gen.one_of(gen.integers(1000, 10 ** 6), gen.integers(1, 600).map(lambda s: s * 10 ** 6)), **PL), altitude_path, 2000, nontrivial="no table step in between"),
    Clause("refracted_order", fd(t=WHEN, us=gen.integers(10 ** 6, 1800 * 10 ** 6), T=gen.temperatures(), P=gen.pressures(), **PL), refracted_order, 3000,
           nontrivial="the sun is above the refraction cut-off both times"),
], rule="pairs and runs of instants 1 ms to 30 min apart, weighted to second, hour, day, month, year and leap-second boundaries",
    assumptions=["a leap second shows as a step of the sun because POSIX timestamps skip it; the tabulated TT-UT1 steps monthly; both are allowed for exactly"])
