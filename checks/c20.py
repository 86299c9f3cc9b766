import numpy as np
from common import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])
TIME = gen.one_of(gen.zoned(), gen.boundary_utcs(), gen.zoned("modern"))
SC = gen.one_of(gen.just(None), gen.integers(13000, 14200).map(lambda k: k / 10.0), gen.integers(0, 5000).map(float))


def zero_ok(sc, lat, lon, d):
    """right at sunrise and sunset rounding decides"""
    return 1e-9 * max(1.0, sc)


def irradiance(case):
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat, lon, sc = case["lat"], case["lon"], case["SC"]
    U = L.util
    if sc is None:
        sc = 1367.0
        e = call("extraterrestrial_irrad", U.extraterrestrial_irrad, lat, lon, d)
    elif case["kw"]:
        e = call("extraterrestrial_irrad", U.extraterrestrial_irrad, lat, lon, d, SC=sc)
    else:
        e = call("extraterrestrial_irrad", U.extraterrestrial_irrad, lat, lon, d, sc)
    e = num("extraterrestrial irradiance", e)
    want = ref.extraterrestrial(lat, lon, d, sc)
    if e < 0:
        fail("extraterrestrial irradiance %r" % e)
    near("extraterrestrial irradiance at %r, %r" % (lat, lon), e, want, zero_ok(sc, lat, lon, d))
    # proportional to the solar constant
    e2 = num("extraterrestrial irradiance", call("extraterrestrial_irrad", U.extraterrestrial_irrad, lat, lon, d, 2 * sc))
    near("irradiance for twice the solar constant", e2, 2 * e, 1e-9 * max(1.0, e2))
    alt = ref.fast_horizontal(lat, lon, d)[1]
    if alt < -1e-6 and e != 0:
        fail("extraterrestrial irradiance is %r with the sun at %.4f" % (e, alt))
    other = " other date" if ref.utc(d).date() != d.date() else ""
    return ("up" if alt > 0 else "down") + other


def index(case):
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat, lon, ghi = case["lat"], case["lon"], case["ghi"]
    e = ref.extraterrestrial(lat, lon, d)
    if e < 1e-3:
        return None
    vals = [ghi, ghi / 2, 0.0, -ghi / 100]        # pyranometers read a little below zero
    for g in vals:
        k = call("clear_index", L.util.clear_index, g, lat, lon, d)
        near("clear index of %r" % g, k, g / e, 1e-6 * abs(g / e) + 1e-9)
    if case["backend"] == "numpy" and case["vec"]:
        a = np.array(vals)
        k = call("clear_index", L.util.clear_index, a, lat, lon, d)
        if np.shape(k) != (4,) or not np.array_equal(a, np.array(vals)):
            fail("clear_index of an array: %r" % (k,))
        for x, g in zip(k, vals):
            near("clear index of element %r" % g, x, g / e, 1e-6 * abs(g / e) + 1e-9)
    return "sun at %s" % ("grazing" if e < 100 else "day")


def day_models(case):
    L = lib.get(case["backend"])
    d = when(case["t"])
    n = ref.yday(d)
    near("mean_earth_sun_distance on day %d" % n, call("mean_earth_sun_distance", L.util.mean_earth_sun_distance, d), 1 - 0.0335 * math.sin(2 * math.pi * (n - 94) / 365.0), 1e-12)
    ty = case["TY"]
    near("declination_degree on day %d" % n, call("declination_degree", L.util.declination_degree, d), 23.45 * math.sin(2 * math.pi * (n - 81) / 365.0), 1e-9)
    want = 23.45 * math.sin(2 * math.pi * (n - 81) / ty)
    near("declination_degree with a year of %r days" % ty, call("declination_degree", L.util.declination_degree, d, ty), want, 1e-9)
    near("declination_degree with a year of %r days" % ty, call("declination_degree", L.util.declination_degree, d, TY=ty), want, 1e-9)
    near("declination_degree and get_declination", call("get_declination", L.solar.get_declination, n), 23.45 * math.sin(2 * math.pi * (n - 81) / 365.0), 1e-9)
    a, b = case["a"], case["b"]
    near("diffuse ratio", call("diffuse_ratio", L.util.diffuse_ratio, a, b), a / b, 1e-12 * max(1, a / b))
    x, y = np.array([a, b, 1.0]), np.array([b, a + 1.0, 4.0])
    r = call("diffuse_ratio", L.util.diffuse_ratio, x, y)
    if np.shape(r) != (3,) or not np.allclose(r, [a / b, b / (a + 1.0), 0.25], rtol=1e-12):
        fail("diffuse_ratio of arrays: %r" % (r,))
    return "other date" if ref.utc(d).date() != d.date() else "same date"


def ratios(case):
    """numbers of any kind: integers, numpy scalars, lists of integers as arrays"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    a, b = case["a"], case["b"]
    kinds = [int, float] + ([np.int64, np.float64, np.float32, np.int16] if case["backend"] == "numpy" else [])
    k, m = kinds[case["k"] % len(kinds)], kinds[case["m"] % len(kinds)]
    tol = 1e-6 if np.float32 in (k, m) or np.int16 in (k, m) else 1e-12
    near("diffuse ratio of %s %r and %s %r" % (k.__name__, a, m.__name__, b), call("diffuse_ratio", L.util.diffuse_ratio, k(a), m(b)), a / b, tol * max(1, a / b))
    e = ref.extraterrestrial(case["lat"], case["lon"], d)
    if e > 1e-3:
        near("clear index of %s %r" % (k.__name__, a), call("clear_index", L.util.clear_index, k(a), case["lat"], case["lon"], d), a / e, 1e-6 * max(1.0, a / e))
    sc = call("extraterrestrial_irrad", L.util.extraterrestrial_irrad, case["lat"], case["lon"], d, k(abs(a)))
    w = ref.extraterrestrial(case["lat"], case["lon"], d, abs(a))
    near("extraterrestrial irradiance for the solar constant %s %r" % (k.__name__, a), sc, w, max(tol, 1e-9) * max(1.0, w))
    if case["backend"] == "numpy":
        x, y = np.array([a, 3, 7]).astype(k), np.array([b, 2, 4]).astype(m)
        r = call("diffuse_ratio", L.util.diffuse_ratio, x, y)
        if np.shape(r) != (3,) or not np.allclose(r, [a / b, 1.5, 1.75], rtol=max(tol, 1e-12)):
            fail("diffuse_ratio of %r and %r: %r" % (x, y, r))
    return "%s/%s" % (k.__name__, m.__name__)


def year(case):
    """the sun is brightest around 3 January; the mean over a year is the solar constant"""
    L = lib.get(case["backend"])
    f, y, sc = L.util.extraterrestrial_irrad, case["year"], 1000.0
    vals = []
    for k in range(0, 365, 5):
        d = dt.datetime(y, 1, 1, 12, tzinfo=gen.UTC) + dt.timedelta(days=k)
        # normal incidence: overhead place of the model
        lat, lon = ref.fast_declination(k + 1), -ref.fast_hour_angle(0.0, d)
        vals.append(num("extraterrestrial irradiance", call("extraterrestrial_irrad", f, lat, lon, d, sc)))
    if not 1.0 / 1.035 < sum(vals) / len(vals) / sc < 1.035 or abs(sum(vals) / len(vals) / sc - 1.0001) > 0.002:
        fail("mean extraterrestrial irradiance of a year is %r times the solar constant" % (sum(vals) / len(vals) / sc))
    top, low = vals.index(max(vals)) * 5, vals.index(min(vals)) * 5
    if not (top <= 15 or top >= 355) or abs(low - 182) > 20 or max(vals) / sc > 1.036 or min(vals) / sc < 0.965:
        fail("extraterrestrial irradiance peaks on day %d (%r) and is least on day %d (%r)" % (top, max(vals), low, min(vals)))
    return "all"


CHECK = Check("C20", [
    Clause("irradiance", fd(t=TIME, lat=gen.lats(), lon=gen.lons(), SC=SC, kw=gen.st.booleans(), backend=BACK), irradiance, 24000, nontrivial="all; class: sun up or down, UTC date differs from the local one"),
    Clause("clear_index", fd(t=TIME, lat=gen.lats(), lon=gen.lons(), ghi=gen.integers(0, 14000).map(lambda k: k / 10.0), vec=gen.st.booleans(), backend=BACK), index, 9000, nontrivial="the sun is up"),
    Clause("day_models", fd(t=TIME, TY=gen.sampled([365, 366, 365.25, 360, 364]), a=gen.integers(0, 10000).map(lambda k: k / 10.0), b=gen.integers(1, 10000).map(lambda k: k / 10.0), backend=BACK), day_models, 12000,
           nontrivial="all; class: UTC date differs from the local one"),
    Clause("ratios", fd(t=TIME, lat=gen.lats(), lon=gen.lons(), a=gen.one_of(gen.integers(0, 1500), gen.integers(-20, 20)), b=gen.integers(1, 1500), k=gen.integers(0, 59), m=gen.integers(0, 59), backend=BACK), ratios, 6000,
           nontrivial="all; class: kinds of the two numbers"),
    Clause("year", fd(year=gen.integers(1950, 2050), backend=BACK), year, 150, nontrivial="all"),
], rule="places, instants around day and year boundaries in random zones, solar constants and measurements, against the published formulas; the mean and the extremes over a year")
