from common import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])
HOUR = dt.timedelta(hours=1)
WRAPPERS = [("get_sunrise_sunset", (0, 1)), ("get_sunrise_time", 0), ("get_sunset_time", 1), ("get_transit_time", 2)]


def model(lat, lon, date):
    """the three instants of the day-number model for a local date, UTC; None when there is none; distance from the polar boundary"""
    _, eot, half, margin = ref.rise_set_model(lat, lon, (date - dt.date(date.year, 1, 1)).days + 1)
    mid = dt.datetime(date.year, date.month, date.day, 12, tzinfo=gen.UTC)
    noon = mid + HOUR * (-lon / 15.0 - eot)
    if half is None:
        return None, margin
    return (noon - HOUR * half, noon + HOUR * half, noon), margin


def decode(case):
    d = when(case["t"])
    if "zone" in case:
        z = gen.zone(case["zone"])
        d = d.replace(tzinfo=None).replace(tzinfo=z, fold=case["fold"])
    return d


def seconds(a, b):
    return abs((a.astimezone(gen.UTC) - b.astimezone(gen.UTC)).total_seconds())


def get(L, lat, lon, d):
    r = call("get_sunrise_sunset_transit(%r, %r, %s)" % (lat, lon, d), L.util.get_sunrise_sunset_transit, lat, lon, d)
    if len(r) != 3 or not all(isinstance(t, dt.datetime) and t.tzinfo is not None for t in r):
        fail("get_sunrise_sunset_transit returns %r" % (r,))
    return r


def published(case):
    L = lib.get(case["backend"])
    d = decode(case)
    lat, lon = case["lat"], case["lon"]
    want, margin = model(lat, lon, d.date())
    if abs(margin) < 1e-6:
        return None
    if want is None:
        for name in ["get_sunrise_sunset_transit"] + [w[0] for w in WRAPPERS]:
            try:
                r = getattr(L.util, name)(lat, lon, d)
            except ValueError:
                continue
            except Exception as e:
                fail("%s raised %s in the polar day or night" % (name, type(e).__name__))
            fail("%s(%r, %r, %s) returned %r where the sun does not rise and set" % (name, lat, lon, d, r))
        return "polar"
    r = get(L, lat, lon, d)
    slack = 0.01 if abs(margin) > 1e-3 else 0.2
    for n, got, w, s in zip(("sunrise", "sunset", "transit"), r, want, (slack, slack, 0.01)):
        if seconds(got, w) > s:
            fail("%s at %r, %r on %s is %s, by the model %s" % (n, lat, lon, d, got, w))
    sr, ss, tr = r
    if not sr < tr < ss and abs(margin) > 1e-3:
        fail("order: %s, %s, %s" % (sr, tr, ss))
    for name, ix in WRAPPERS:
        g = call(name, getattr(L.util, name), lat, lon, d)
        w = r[ix] if isinstance(ix, int) else tuple(r[i] for i in ix)
        if isinstance(ix, tuple):
            g = tuple(g)
        if g != w:
            fail("%s returns %r, get_sunrise_sunset_transit %r" % (name, g, w))
    return "%s %s" % ("N" if lat > 0 else "S", "long day" if seconds(sr, ss) > 12.5 * 3600 else "short day" if seconds(sr, ss) < 11.5 * 3600 else "equal day")


def true_sun(case):
    """where the true sun is at the returned times"""
    L = lib.get(case["backend"])
    d = decode(case)
    lat, lon = case["lat"], case["lon"]
    want, margin = model(lat, lon, d.date())
    if want is None:
        return None
    sr, ss, tr = get(L, lat, lon, d)
    for n, t in (("sunrise", sr), ("sunset", ss)):
        sun = ref.Sun(t)
        _, alt, _ = sun.horizontal(lat, lon, 0.0)
        near("true altitude at the %s (%s)" % (n, t), alt, -0.833, 0.8)
        _, ha = sun.local(lat, lon, 0.0)
        ha = ref.wrap180(ha)
        if 3 < abs(ha) < 177 and (ha < 0) != (n == "sunrise"):
            fail("the sun is %s at the %s %s" % ("rising" if ha < 0 else "setting", n, t))
    _, ha = ref.Sun(tr).local(lat, lon, 0.0)
    near("true hour angle at the transit %s" % tr, ref.wrap180(ha), 0.0, 0.2)
    return "|latitude| %d.." % (abs(int(lat)) // 20 * 20)


def sweep(case):
    """every day of one year at one place: times move slowly from day to day"""
    L = lib.get(case["backend"])
    lat, lon, y = case["lat"], case["lon"], case["year"]
    prev = None
    days = 366 if y % 4 == 0 else 365
    polar = 0
    for k in range(case["k"], days, 7):
        day = dt.datetime(y, 1, 1, 12, tzinfo=gen.UTC) + dt.timedelta(days=k)
        want, margin = model(lat, lon, day.date())
        try:
            r = L.util.get_sunrise_sunset_transit(lat, lon, day)
        except ValueError:
            r = None
        except Exception as e:
            fail("%s on %s" % (type(e).__name__, day))
        if abs(margin) < 1e-6:
            continue
        if (r is None) != (want is None):
            fail("on %s at %r, %r: %r, by the model %r" % (day.date(), lat, lon, r, want))
        if r is None:
            polar += 1
            continue
        for n, got, w, s in zip(("sunrise", "sunset", "transit"), r, want, (1.0, 1.0, 0.01)):
            if seconds(got, w) > (0.01 if abs(margin) > 1e-3 else s):
                fail("%s on %s at %r, %r is %s, by the model %s" % (n, day.date(), lat, lon, got, w))
    return "partly polar" if polar else "no polar days"


ZONED = dict(t=gen.whens(off=gen.just(0)), zone=gen.zone_specs(), fold=gen.sampled([0, 0, 1]))
CHECK = Check("C14", [
    Clause("model", gen.one_of(fd(t=gen.zoned(), lat=gen.lats(), lon=gen.lons(), backend=BACK),
                               fd(lat=gen.lats(-75, 75), lon=gen.lons(), backend=BACK, **ZONED)), published, 24000,
           nontrivial="the date is not on the boundary of the polar day or night; class: hemisphere, day length",
           examples=[dict(t="2021-%02d-%02dT12:00:00+00:00" % (m, dd), lat=lat, lon=10.0, backend="math")
                     for m in (1, 3, 6, 9, 12) for dd in (1, 20) for lat in (0.0, 50.0, -50.0, 67.0, -67.0, 90.0, -90.0)]),
    Clause("true_sun", fd(t=gen.zoned("modern"), lat=gen.lats(-70, 70), lon=gen.lons(-180, 180, wide=False), backend=BACK), true_sun, 9000,
           nontrivial="the model has a sunrise; class: latitude"),
    Clause("year_sweep", fd(lat=gen.lats(), lon=gen.lons(), year=gen.integers(1950, 2050), k=gen.integers(0, 6), backend=BACK), sweep, 500,
           nontrivial="all; class: whether some days are polar"),
], rule="places, dates and zones against the published day-number model, and the position of the sun by the SPA reference model at the returned instants",
    assumptions=["the model's declination and equation of time are good to 0.8 degree of altitude and 0.2 degree of hour angle (measured over 1950-2050)"])
