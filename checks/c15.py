from common import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])
WAY = gen.sampled(["get_sunrise_sunset_transit", "get_sunrise_sunset_transit", "get_sunrise_sunset", "single"])
NAMES = ("sunrise", "sunset", "transit")


def get(L, lat, lon, d, way="get_sunrise_sunset_transit"):
    """the three datetimes, or None where the sun does not rise and set; `way` names the functions to ask"""
    try:
        if way == "single":
            r = (L.util.get_sunrise_time(lat, lon, d), L.util.get_sunset_time(lat, lon, d), L.util.get_transit_time(lat, lon, d))
        elif way == "get_sunrise_sunset":
            r = tuple(L.util.get_sunrise_sunset(lat, lon, d)) + (L.util.get_transit_time(lat, lon, d),)
        else:
            r = L.util.get_sunrise_sunset_transit(lat, lon, d)
    except ValueError:
        return None
    except Exception as e:
        fail("%s(%r, %r, %r) raised %s: %s" % (way, lat, lon, d, type(e).__name__, e))
    if len(r) != 3 or not all(isinstance(t, dt.datetime) and t.tzinfo is not None for t in r):
        fail("%s returns %r" % (way, r))
    return r


def same(desc, a, b):
    if (a is None) != (b is None):
        fail("%s: %r and %r" % (desc, a, b))
    if a is None:
        return
    for n, x, y in zip(NAMES, a, b):
        d = abs((x.astimezone(gen.UTC) - y.astimezone(gen.UTC)).total_seconds())
        if d > 0.001:
            fail("%s: %s is %s and %s (%.3f s apart)" % (desc, n, x, y, d))


def expressed(d, r):
    """the wall clock readings are those of the argument's zone at these instants"""
    if r is None:
        return
    for n, x in zip(NAMES, r):
        inst = x.astimezone(gen.UTC)
        own = inst.astimezone(d.tzinfo)
        if x.replace(tzinfo=None) != own.replace(tzinfo=None):
            fail("the %s %s is not expressed in %s, where it is %s" % (n, x, d.tzinfo, own))
        if x.utcoffset() != own.utcoffset():
            fail("the %s %s has UTC offset %s, the zone has %s" % (n, x, x.utcoffset(), own.utcoffset()))


def local(date, us, z, fold=0):
    n = dt.datetime.fromisoformat(date) + dt.timedelta(microseconds=us)
    return n.replace(tzinfo=z, fold=fold)


def changes(date, z):
    a = local(date, 0, z).utcoffset()
    b = local(date, 86399999999, z).utcoffset()
    c = local(date, 43200 * 10 ** 6, z).utcoffset()
    return not a == b == c


def whole_day(case):
    L = lib.get(case["backend"])
    z = gen.zone(case["zone"])
    lat, lon = case["lat"], case["lon"]
    d1, d2 = local(case["date"], case["us"], z, case["fold"]), local(case["date"], case["us2"], z, case["fold2"])
    if case["sub"]:
        d1 = gen.moment(d1)
    a, b = get(L, lat, lon, d1, case["way"]), get(L, lat, lon, d2, case["way2"])
    same("at %s and at %s of one local day" % (d1, d2), a, b)
    expressed(d1, a)
    expressed(d2, b)
    if a is not None:
        lag = d1.utcoffset().total_seconds() / 3600 - lon / 15.0
        if abs(lag) <= 2 and a[2].date() != d1.date() and abs((a[2].utcoffset() - d1.utcoffset()).total_seconds()) <= 7200:
            fail("the transit %s does not fall on %s" % (a[2], d1.date()))
    if a is None:
        return None
    return "day of an offset change" if changes(case["date"], z) else "ordinary day"


def any_zone(case):
    """two zones, both arguments on one local date"""
    L = lib.get(case["backend"])
    z, z2 = gen.zone(case["zone"]), gen.zone(case["zone2"])
    lat, lon = case["lat"], case["lon"]
    d1, d2 = local(case["date"], case["us"], z), local(case["date"], case["us2"], z2)
    if case["sub"]:
        d1 = gen.moment(d1)
    a, b = get(L, lat, lon, d1, case["way"]), get(L, lat, lon, d2, case["way2"])
    same("on local date %s in %s and %s" % (case["date"], z, z2), a, b)
    expressed(d2, b)
    if a is None:
        return None
    return "zones %s" % ("differ in date" if d1.astimezone(gen.UTC).date() != d2.astimezone(gen.UTC).date() else "agree in UTC date")


def next_day(case):
    """the answer moves by a day, less or more a few minutes, from one local date to the next, midnight being the border"""
    L = lib.get(case["backend"])
    z = gen.zone(case["zone"])
    lat, lon = case["lat"], case["lon"]
    day = dt.date.fromisoformat(case["date"])
    d1 = local(case["date"], 86399999999, z)
    d2 = local((day + dt.timedelta(days=1)).isoformat(), 0, z)
    if (day + dt.timedelta(days=1)).year != day.year:
        return None
    a, b = get(L, lat, lon, d1, case["way"]), get(L, lat, lon, d2, case["way"])
    if a is None or b is None:
        return None
    step = (b[2].astimezone(gen.UTC) - a[2].astimezone(gen.UTC)).total_seconds()
    if abs(step - 86400) > 60:
        fail("the transits of %s and the next day are %.1f s apart" % (day, step))
    return "new UTC day" if d1.astimezone(gen.UTC).date() != d2.astimezone(gen.UTC).date() else "same UTC day"


# dates on which zones change: the rule zones' own, and the weekends of the real ones
@gen.st.composite
def zoned(draw):
    z = draw(gen.zone_specs())
    y = draw(gen.integers(1972, 2037))
    date = draw(gen.dates().map(dt.date.isoformat))
    if isinstance(z, list) and len(z) == 7 and draw(gen.integers(0, 3)):
        m, d = draw(gen.sampled([(z[2], z[3]), (z[4], z[5])]))
        date = (dt.date(y, m, d) + dt.timedelta(days=draw(gen.sampled([0, 0, 0, -1, 1])))).isoformat()
    elif isinstance(z, str) and draw(gen.integers(0, 3)):
        # search the year for a change
        zz = gen.zone(z)
        hits = [dt.date(y, 1, 1) + dt.timedelta(days=k) for k in range(365) if changes((dt.date(y, 1, 1) + dt.timedelta(days=k)).isoformat(), zz)]
        if hits:
            date = draw(gen.sampled(hits)).isoformat()
    return dict(zone=z, date=date, us=draw(gen.tods()), us2=draw(gen.tods()), fold=draw(gen.sampled([0, 1])), fold2=draw(gen.sampled([0, 1])),
                lat=draw(gen.lats(-70, 70)), lon=draw(gen.lons()), backend=draw(BACK), way=draw(WAY), way2=draw(WAY), sub=draw(gen.sampled([0, 0, 1])))


@gen.st.composite
def fitting(draw):
    """a zone that suits the longitude"""
    c = draw(zoned())
    z = c["zone"]
    if not isinstance(z, str):
        std = z if isinstance(z, (int, float)) else z[0]
        lon = std / 240.0 + draw(gen.integers(-300, 300)) / 10.0
        c["lon"] = lon
    return c


CHECK = Check("C15", [
    Clause("time_of_day", gen.one_of(zoned(), fitting()), whole_day, 12000,
           nontrivial="the sun rises and sets that day; class: whether the UTC offset changes on that local day",
           examples=[dict(zone=z, date=day, us=3600 * 10 ** 6 * h, us2=12 * 3600 * 10 ** 6, fold=0, fold2=0, lat=48.0, lon=9.0, backend="numpy", way=way, way2="get_sunrise_sunset_transit", sub=0)
                     for way in ("get_sunrise_sunset_transit", "get_sunrise_sunset", "single") for z, day in (("Europe/Berlin", "2021-03-28"), ("Europe/Berlin", "2021-10-31"), ("America/New_York", "2021-11-07"),
                                    ("Australia/Lord_Howe", "2021-04-04")) for h in (0, 1, 3, 23)]),
    Clause("any_zone", fd(zone=gen.zone_specs(), zone2=gen.zone_specs(), date=gen.dates().map(dt.date.isoformat), us=gen.tods(), us2=gen.tods(),
                          lat=gen.lats(-70, 70), lon=gen.lons(), backend=BACK, way=WAY, way2=WAY, sub=gen.sampled([0, 0, 1])), any_zone, 10000,
           nontrivial="the sun rises and sets; class: whether the two arguments have the same UTC date"),
    Clause("next_day", fd(zone=gen.zone_specs(), date=gen.dates().map(dt.date.isoformat), lat=gen.lats(-66, 66), lon=gen.lons(), backend=BACK, way=WAY), next_day, 6000,
           nontrivial="two consecutive dates of one year; class: whether the border is also one of UTC"),
], rule="local dates in fixed offsets, daylight-saving rules and real zones, aimed at days when the offset changes, at two times of one day and in two zones")
