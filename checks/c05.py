import warnings

import numpy as np
from api import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])


def check_sky(L, d, lat, lon, el, T, P, what):
    s = L.solar
    az, alt = call(what + " get_position", s.get_position, lat, lon, d, el, T, P)
    alt2 = call(what + " get_altitude", s.get_altitude, lat, lon, d, el, T, P)
    az2 = call(what + " get_azimuth", s.get_azimuth, lat, lon, d, el)
    geo = call(what + " get_altitude", s.get_altitude, lat, lon, d, el, T, 0.0)
    dec, ha = call(what + " get_topocentric_position", s.get_topocentric_position, lat, lon, d, el)
    for n, v in (("azimuth", az), ("azimuth", az2)):
        v = num(what + " " + n, v)
        if not 0.0 <= v <= 360.0:
            fail("%s %s is %r" % (what, n, v))
    if not -90.0 <= num(what + " geometric altitude", geo) <= 90.0:
        fail("%s geometric altitude is %r" % (what, geo))
    # refraction at the standard atmosphere is at most 0.6 degree; it scales with density
    slack = 0.6 * (P / 101325.0) * (288.15 / T) * 1.05
    for v in (alt, alt2):
        v = num(what + " altitude", v)
        if not -90.0 <= v <= 90.0 + slack or v > geo + slack + 1e-9 or v < geo - 0.01 * slack - 1e-9:
            fail("%s altitude is %r, geometric %r" % (what, v, geo))
    if not -24.0 <= num(what + " declination", dec) <= 24.0 and 1000 < ref.utc(d).year < 3000:
        fail("%s declination is %r" % (what, dec))
    if not abs(num(what + " hour angle", ha)) <= 361.0:
        fail("%s hour angle is %r" % (what, ha))
    return float(geo)


def check_fast(L, d, lat, lon, what):
    s = L.solar
    alt = num(what + " fast altitude", call(what + " get_altitude_fast", s.get_altitude_fast, lat, lon, d))
    az = num(what + " fast azimuth", call(what + " get_azimuth_fast", s.get_azimuth_fast, lat, lon, d))
    if not -90.0 <= alt <= 90.0:
        fail("%s fast altitude is %r" % (what, alt))
    if not 0.0 <= az <= 360.0 + 1e-9:
        fail("%s fast azimuth is %r" % (what, az))
    num(what + " hour angle", call("get_hour_angle", s.get_hour_angle, d, lon))
    num(what + " solar time", call("get_solar_time", s.get_solar_time, lon, d))
    return alt


def check_radiation(L, d, alt, what):
    r = num(what + " radiation", call(what + " get_radiation_direct at altitude %r" % (alt,), L.radiation.get_radiation_direct, d, alt))
    if r < 0 or r > 1240:
        fail("%s radiation at altitude %r is %r" % (what, alt, r))
    return r


def everywhere(case):
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat, lon = case["lat"], case["lon"]
    h = check_sky(L, d, lat, lon, case["el"], case["T"], case["P"], case["backend"])
    f = check_fast(L, d, lat, lon, case["backend"])
    check_radiation(L, d, h, case["backend"])
    check_radiation(L, d, f, case["backend"])
    return sky_class(h, lat, d)


def singular(case):
    """the sun overhead, underfoot, on the meridian, due east or on the horizon, exactly as far as floats go"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    kind, fast = case["kind"], case["fast"]
    nudge = case["n"] * 10.0 ** -case["e"]
    if fast:
        dec = ref.fast_declination(ref.yday(d))
        noon = -ref.fast_hour_angle(0.0, d)      # longitude of hour angle 0
    else:
        s = ref.Sun(d, defects())
        dec, noon = s.dec, s.ra - s.gst
    if kind == "sub":
        lat, lon = dec, noon
    elif kind == "anti":
        lat, lon = -dec, noon + 180
    elif kind == "meridian":
        lat, lon = case["lat"], noon
    elif kind == "antimeridian":
        lat, lon = case["lat"], noon + 180
    elif kind == "pole":
        lat, lon = math.copysign(90.0, case["lat"]), case["lon"]
    elif kind == "six":
        lat, lon = case["lat"], noon + 90.0 * (1 if case["lon"] > 0 else -1)
    elif kind == "circle":                        # sun grazing the horizon at midnight or noon
        lat, lon = math.copysign(90.0 - abs(dec), case["lat"]), noon + (180 if case["lon"] > 0 else 0)
    else:                                         # equator
        lat, lon = 0.0, case["lon"]
    lon += nudge if "meridian" in kind else 0.0
    lon = ref.wrap180(lon) if case["wrap"] else lon
    lat = max(-90.0, min(90.0, lat + (nudge if kind not in ("pole", "equator") else 0.0)))
    what = "%s, %s point" % (case["backend"], kind)
    h = check_sky(L, d, lat, lon, case["el"], case["T"], case["P"], what)
    f = check_fast(L, d, lat, lon, what)
    for a in (h, f):
        check_radiation(L, d, a, what)
    return "%s %s" % (kind, "fast" if fast else "precise")


def refraction(case):
    L = lib.get(case["backend"])
    e = case["e0"]
    r = num("refraction at %r" % e, call("get_refraction_correction at %r" % e, L.solar.get_refraction_correction, case["P"], case["T"], e))
    if not -0.05 <= r <= 3.0:
        fail("refraction at altitude %r is %r" % (e, r))
    z = num("zenith", call("get_topocentric_zenith_angle", L.solar.get_topocentric_zenith_angle, case["lat"], case["dec"], case["ha"], case["P"], case["T"]))
    if not -3.0 <= z <= 180.0:
        fail("zenith angle is %r" % z)
    v = call("get_radiation_direct at %r" % e, L.radiation.get_radiation_direct, when(case["t"]), e)
    check_radiation(L, when(case["t"]), e, case["backend"])
    return "pole" if abs(e + 5.11) < 1e-3 else "cut-off" if abs(e - ref.REFRACTION_CUTOFF) < 1e-2 else "horizon" if abs(e) < 0.1 else None


def incidence(case):
    """panels facing the sun, exactly opposed to it, or anywhere"""
    L = lib.get(case["backend"])
    z, az = case["z"], case["az"]
    if case["kind"] == "facing":
        slope, orient = z, ref.wrap180(az - 180.0)
    elif case["kind"] == "opposed":
        slope, orient = 180.0 - z, az
    else:
        slope, orient = case["slope"], case["orient"]
    r = num("incidence", call("get_incidence_angle(%r, %r, %r, %r)" % (z, slope, orient, az), L.solar.get_incidence_angle, z, slope, orient, az))
    if not 0.0 <= r <= 180.0:
        fail("incidence angle is %r" % r)
    return case["kind"]


def all_functions(case):
    """every other function with a date-time: some number, no error"""
    L = lib.get(case["backend"])
    e = entry(case["f"])
    d = when(case["t"])
    o = case["o"]
    try:
        r = func(L, e)(*values(e, o, d))
    except OverflowError:
        if e[1] in ("direct_underclear", "global_irradiance_clear"):
            return None       # the exponential of a recorded finding of C21
        raise Violation_(e, o, d)
    except ZeroDivisionError:
        if e[1] == "clear_index":
            return None       # no extraterrestrial irradiance: the index has no value
        raise Violation_(e, o, d)
    except Exception as x:
        fail("%s%r raised %s: %s" % (e[1], tuple(values(e, o, d)), type(x).__name__, x))
    for v in flat(r):
        if not math.isfinite(v) and e[1] not in ("direct_underclear", "global_irradiance_clear", "clear_index"):
            fail("%s%r is %r" % (e[1], tuple(values(e, o, d)), r))
    return e[1]


def Violation_(e, o, d):
    return pbt.Violation("%s%r raised an arithmetic error" % (e[1], tuple(values(e, o, d))))


def quiet(case):
    """a process that takes floating point warnings for errors; arrays with the sun up, down and on the horizon"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat, lon = case["lat"], case["lon"]
    alts = [a for a in case["alts"] if a == 0 or abs(a) > 1e-300]       # (below that, radians underflow)
    T, P = case["T"], case["P"]
    with warnings.catch_warnings(), np.errstate(divide="raise", over="raise", invalid="raise"):
        warnings.simplefilter("error")
        warnings.filterwarnings("ignore", message="Leap seconds")
        h = check_sky(L, d, lat, lon, case["el"], T, P, case["backend"])
        f = check_fast(L, d, lat, lon, case["backend"])
        for a in alts + [h, f]:
            check_radiation(L, d, a, case["backend"])
            num("refraction", call("get_refraction_correction(%r, %r, %r)" % (P, T, a), L.solar.get_refraction_correction, P, T, a))
        if case["backend"] != "numpy":
            return "scalars"
        x = np.array(alts)
        for name, f, args in (("get_radiation_direct", L.radiation.get_radiation_direct, (d, x)),
                              ("get_refraction_correction", L.solar.get_refraction_correction, (P, T, x)),
                              ("get_altitude", L.solar.get_altitude, (x, lon, d, case["el"], T, P)),
                              ("get_azimuth", L.solar.get_azimuth, (x, lon, d, case["el"])),
                              ("get_altitude_fast", L.solar.get_altitude_fast, (x, lon, d)),
                              ("get_azimuth_fast", L.solar.get_azimuth_fast, (x, lon, d)),
                              ("get_position", L.solar.get_position, (lat, x, d, case["el"], T, P))):
            r = np.asarray(call("%s of %r" % (name, alts), f, *args), dtype=float)
            if not np.all(np.isfinite(r)):
                fail("%s of %r is %r" % (name, alts, r))
    return "arrays"


ALTS = gen.one_of(gen.integers(-90000, 90000).map(lambda k: k / 1000.0), gen.sampled([-5.11, -0.83337, -0.8333, 0.0, -0.0, 90.0, -90.0, 1e-12, -1e-12, -0.01, 0.01, -5.0, -5.2]),
                  gen.integers(-2000, 2000).map(lambda k: -5.11 + k / 1e6), gen.integers(-2000, 2000).map(lambda k: -0.83337 + k / 1e6),
                  gen.st.builds(lambda s, e: s * 10.0 ** -e, gen.sampled([-1, 1]), gen.integers(0, 320)))
ATM = dict(el=gen.elevations(), T=gen.temperatures(), P=gen.pressures())
CHECK = Check("C05", [
    Clause("everywhere", fd(t=gen.zoned(), lat=gen.lats(), lon=gen.lons(), backend=BACK, **ATM), everywhere, 5000, nontrivial="all; class: height of the sun, hemisphere, era"),
    Clause("singular_points", fd(t=gen.zoned(), kind=gen.sampled(["sub", "anti", "meridian", "antimeridian", "pole", "six", "circle", "equator"]), fast=gen.st.booleans(),
                                 lat=gen.lats(), lon=gen.lons(), wrap=gen.st.booleans(), n=gen.integers(-3, 3), e=gen.integers(1, 16), backend=BACK, **ATM), singular, 7000,
           nontrivial="all, singular by construction",
           examples=[dict(t="2007-03-22T%02d:07:00+00:00" % h, kind=k, fast=f, lat=s, lon=s, wrap=True, n=0, e=9, backend=b, el=0.0, T=288.15, P=101325.0)
                     for h in (0, 6, 12, 18) for k in ("sub", "anti", "equator", "six", "pole") for f in (True, False) for s in (-30.0, 30.0) for b in ("numpy", "math")]),
    Clause("refraction_and_radiation", fd(e0=ALTS, T=gen.temperatures(), P=gen.pressures(), lat=gen.lats(), dec=gen.integers(-23, 23).map(float), ha=gen.integers(0, 360).map(float),
                                          t=gen.utcs(), backend=BACK), refraction, 8000, nontrivial="altitude near the horizon, the cut-off or the pole of the refraction formula",
           examples=[dict(e0=e, T=288.15, P=101325.0, lat=0.0, dec=0.0, ha=0.0, t="2000-06-01T00:00:00+00:00", backend=b) for e in (-5.11, -0.01, -1e-300, 0.0, 1e-300, 5e-324, -90.0, 90.0, 0.0001, -0.0001)
                     for b in ("numpy", "math", "blocked")]),
    Clause("quiet", fd(t=gen.zoned(), lat=gen.lats(), lon=gen.lons(), alts=gen.st.lists(gen.one_of(ALTS, gen.lats()), min_size=1, max_size=6), backend=BACK, **ATM), quiet, 3000,
           nontrivial="all; class: scalars or arrays, under np.errstate(divide, over, invalid='raise') and warnings as errors",
           examples=[dict(t="2007-03-22T12:07:00+00:00", lat=s, lon=s, alts=[s, -5.11, 0.0, -0.0, 90.0, -90.0, 1e-300], backend=b, el=0.0, T=288.15, P=101325.0) for s in (0.0, 90.0, -90.0) for b in ("numpy", "math")]),
    Clause("incidence", fd(z=gen.one_of(gen.integers(0, 180).map(float), gen.integers(0, 180000).map(lambda k: k / 1000.0)), az=gen.one_of(gen.integers(0, 360).map(float), gen.integers(0, 360000).map(lambda k: k / 1000.0)),
                           kind=gen.sampled(["facing", "opposed", "any"]), slope=gen.integers(0, 180).map(float), orient=gen.integers(-180, 180).map(float), backend=BACK), incidence, 8000,
           nontrivial="all; class: facing, opposed or any panel",
           examples=[dict(z=float(z), az=180.0, kind=k, slope=0.0, orient=0.0, backend="math") for z in range(0, 181) for k in ("facing", "opposed")]),
    Clause("every_function", fd(f=gen.sampled([e[1] for e in TIMED]), t=gen.zoned(), o=others(), backend=BACK), all_functions, 5000, nontrivial="the function returned; class: function"),
], rule="inputs concentrated on singular configurations, found with the reference model: subsolar and antisolar points, meridian, poles, grazing sun, refraction pole",
    assumptions=["direct_underclear and global_irradiance_clear may overflow (known finding of C21)"])
