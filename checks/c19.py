from math import sin, cos, tan, radians, degrees, atan2, hypot, asin

from common import *

preload("numpy", "math", "blocked")
known = pbt.known("C19")
BACK = gen.sampled(["numpy", "math", "blocked"])
MILLI = lambda lo, hi: gen.integers(int(lo * 1000), int(hi * 1000)).map(lambda k: k / 1000.0)
MICRO = lambda lo, hi: gen.integers(int(lo * 10 ** 6), int(hi * 10 ** 6)).map(lambda k: k / 1e6)
JME = gen.one_of(MICRO(-0.2, 0.2), MICRO(-2, 8), MICRO(-4, 8), gen.sampled([0.0, 0.003792779869191517, 1.0, -1.0, -2.0, 8.0]))
JCE = gen.one_of(MICRO(-2, 2), MICRO(-40, 80), gen.sampled([0.0, 0.03792779869191517, 1.0, -1.0, 10.0]))
JD = gen.one_of(gen.integers(2400000 * 1000, 2500000 * 1000).map(lambda k: k / 1000.0), gen.integers(1721426, 5373484).map(lambda k: k + 0.5),
                gen.integers(1721426 * 100, 5373484 * 100).map(lambda k: k / 100.0), gen.integers(9 * 10 ** 7, 54 * 10 ** 7).map(lambda k: k / 100.0), gen.sampled([2451545.0, 2452930.312847, 2444239.5]))
ANY = gen.one_of(MILLI(0, 360), MILLI(-720, 1080), gen.integers(-4, 8).map(lambda k: 90.0 * k), MICRO(0, 360))
LAT = gen.lats()
EPS = gen.one_of(MICRO(22, 25), MICRO(0, 60), gen.just(23.440465))
BETA = gen.one_of(MICRO(-0.001, 0.001), MICRO(-1, 1), MILLI(-80, 80))
DIST = gen.one_of(MICRO(0.98, 1.02), MILLI(0.3, 40), gen.just(1.0))
XI = gen.one_of(MICRO(0.0023, 0.0026), MICRO(0, 1), MILLI(0, 3))
DEC = gen.one_of(MICRO(-24, 24), MILLI(-85, 85), gen.just(0.0))
RHO = gen.one_of(MICRO(0, 1.01), MICRO(0, 1.1), gen.just(0.0))
PHI = gen.one_of(MICRO(-1, 1), MICRO(-1.1, 1.1))
SMALL = gen.one_of(MICRO(-0.006, 0.006), MICRO(-1, 1))
NUT = fd(longitude=SMALL, obliquity=SMALL)


def angle_in_turn(v):
    return 0.0 <= v <= 360.0


def eps_of(jme, n):
    return ref.obliquity(jme, n["obliquity"])


def ra(lam, eps, beta):
    l, e, b = radians(lam), radians(eps), radians(beta)
    return degrees(atan2(cos(b) * sin(l) * cos(e) - sin(b) * sin(e), cos(b) * cos(l))) % 360.0


def dec(lam, eps, beta):
    l, e, b = radians(lam), radians(eps), radians(beta)
    x, y, z = cos(b) * cos(l), cos(b) * sin(l), sin(b)
    y, z = y * cos(e) - z * sin(e), y * sin(e) + z * cos(e)
    return degrees(atan2(z, hypot(x, y)))


def parallax_ra(rho, xi, h, d):
    """the apparent shift of the hour angle: subtract the observer from the direction"""
    s = sin(radians(xi))
    return degrees(atan2(-rho * s * sin(radians(h)), cos(radians(d)) - rho * s * cos(radians(h))))


def aber(x, name):
    c = {"ArgumentOfLatitudeOfMoon": (93.27191, 483202.017538, -0.0036825, 327270.0), "LongitudeOfAscendingNode": (125.04452, -1934.136261, 0.0020708, 450000.0),
         "MeanElongationOfMoon": (297.85036, 445267.111480, -0.0019142, 189474.0), "MeanAnomalyOfMoon": (134.96298, 477198.867398, 0.0086972, 56250.0),
         "MeanAnomalyOfSun": (357.52772, 35999.050340, -0.0001603, -300000.0)}[name]
    return c[0] + c[1] * x + c[2] * x * x + x ** 3 / c[3]


class S:
    """a stage: argument generators, reference, kind ('n'umber, 'a'ngle modulo 360, 't'urn: angle declared reduced), tolerance"""

    def __init__(self, gens, want, kind="n", tol=1e-9, rel=1e-12, deviant=None, mod="solar", weight=None):
        self.gens, self.want, self.kind, self.tol, self.rel = gens, want, kind, tol, rel
        self.deviant, self.mod, self.weight = deviant, mod, weight


def coeffs():
    return gen.st.lists(gen.st.lists(gen.st.tuples(MILLI(-1000, 1000), MILLI(0, 7), MILLI(0, 7000)).map(list), min_size=1, max_size=4), min_size=1, max_size=6)


STAGES = {
    "get_heliocentric_longitude": S((JME,), ref.helio_longitude, "t", 1e-8),
    "get_heliocentric_latitude": S((JME,), ref.helio_latitude, "n", 1e-9),
    "get_sun_earth_distance": S((JME,), ref.sun_distance, "n", 1e-11),
    "get_geocentric_longitude": S((JME,), lambda j: ref.helio_longitude(j) + 180.0, "t", 1e-8),
    "get_geocentric_latitude": S((JME,), lambda j: -ref.helio_latitude(j), "n", 1e-9),
    "get_coeff": S((JME, coeffs()), lambda j, t: ref.poly_series(t, j), "n", 1e-8, 1e-10),
    "get_true_ecliptic_obliquity": S((JME, NUT), eps_of, "n", 1e-9, 1e-11),
    "get_aberration_correction": S((DIST,), ref.aberration, "n", 1e-13),
    "get_apparent_sun_longitude": S((ANY, NUT, SMALL), lambda l, n, a: l + n["longitude"] + a, "a", 1e-9),
    "get_mean_sidereal_time": S((JD,), lambda jd: ref.mean_sidereal(jd - 2451545.0), "t", 2e-6),
    "get_apparent_sidereal_time": S((JD, JME, NUT), lambda jd, jme, n: ref.mean_sidereal(jd - 2451545.0) + n["longitude"] * cos(radians(eps_of(jme, n))), "a", 2e-6,
                                    deviant=("sidereal", lambda jd, jme, n: ref.mean_sidereal(jd - 2451545.0) + n["longitude"] * cos(eps_of(jme, n)))),
    "get_geocentric_sun_right_ascension": S((ANY, EPS, BETA), ra, "t", 1e-9, weight=lambda v, a: max(1e-3, cos(radians(dec(*a))) * 1e-1)),
    "get_geocentric_sun_declination": S((ANY, EPS, BETA), dec, "n", 1e-9, weight=lambda v, a: max(1e-3, cos(radians(v)) * 1e-1)),
    "get_local_hour_angle": S((ANY, gen.lons(), ANY), lambda s, l, r: s + l - r, "t", 1e-9),
    "get_equatorial_horizontal_parallax": S((DIST,), ref.parallax, "n", 1e-13, deviant=("parallax", lambda r: 8.794 * r / 3600.0)),
    "get_flattened_latitude": S((gen.lats(),), lambda p: degrees(atan2(0.99664719 * sin(radians(p)), cos(radians(p)))), "n", 1e-9),
    "get_projected_radial_distance": S((gen.elevations(), gen.lats()), lambda e, p: ref.observer(p, e)[0], "n", 1e-10),
    "get_projected_axial_distance": S((gen.elevations(), gen.lats()), lambda e, p: ref.observer(p, e)[1], "n", 1e-10),
    "get_parallax_sun_right_ascension": S((RHO, XI, ANY, DEC), parallax_ra, "n", 1e-9),
    "get_topocentric_local_hour_angle": S((ANY, SMALL), lambda h, p: h - p, "a", 1e-9),
    "get_topocentric_sun_right_ascension": S((RHO, XI, ANY, ANY, EPS, MICRO(-1, 1)), lambda rho, xi, h, lam, eps, beta: ra(lam, eps, beta) + parallax_ra(rho, xi, h, dec(lam, eps, beta)), "a", 1e-7),
    "get_topocentric_elevation_angle": S((LAT, DEC, ANY), lambda p, d, h: ref.horizon_frame(p, d, h)[1], "n", 1e-9, weight=lambda v, a: max(1e-3, cos(radians(v)) * 1e-1)),
    "get_topocentric_azimuth_angle": S((ANY, LAT, DEC), lambda h, p, d: ref.horizon_frame(p, d, h)[0], "t", 1e-9, weight=lambda v, a: max(1e-7, ref.horizon_frame(a[1], a[2], a[0])[2] * 0.1)),
    "get_topocentric_zenith_angle": S((LAT, DEC, ANY, gen.pressures(True), gen.temperatures(True)),
                                      lambda p, d, h, P, T: 90 - ref.horizon_frame(p, d, h)[1] - ref.refraction(P, T, ref.horizon_frame(p, d, h)[1]), "n", 1e-8,
                                      weight=lambda v, a: max(1e-3, sin(radians(min(179.9, max(0.1, v)))) * 1e-1)),
    "get_julian_century": S((JD,), lambda jd: (jd - 2451545.0) / 36525.0, mod="solartime", tol=1e-13),
    "get_julian_ephemeris_century": S((JD,), lambda jd: (jd - 2451545.0) / 36525.0, mod="solartime", tol=1e-13),
    "get_julian_ephemeris_millennium": S((JCE,), lambda c: c / 10.0, mod="solartime", tol=1e-14),
}


def stage(case):
    name = case["f"]
    s = STAGES[name]
    L = lib.get(case["backend"])
    args = case["a"]
    got = num(name, call("%s%r" % (name, tuple(args)), getattr(getattr(L, s.mod), name), *args))
    if name == "get_topocentric_zenith_angle":
        e = ref.horizon_frame(*args[:3])[1]
        if abs(e - ref.REFRACTION_CUTOFF) < 1e-6:
            return None
        if args[4] < 150:
            return None
    if name == "get_topocentric_azimuth_angle" and ref.horizon_frame(args[1], args[2], args[0])[2] < 1e-7:
        return None         # overhead: any azimuth
    want = s.want(*args)
    tol = s.tol + s.rel * abs(want)
    if s.weight:
        tol /= s.weight(want, args)
        tol = min(tol, 1e-5 if name != "get_topocentric_azimuth_angle" else 10.0)
    if name == "get_coeff":
        tol += 1e-10 * sum(abs(x[0]) * abs(args[0]) ** k for k, g in enumerate(args[1]) for x in g)
    if name == "get_topocentric_zenith_angle":
        tol += 1e-7 * abs(want - (90 - e))
    if s.kind == "t" and not angle_in_turn(got):
        fail("%s%r is %r, not reduced to a turn" % (name, tuple(args), got))
    diff = (lambda a, b: abs(a - b)) if s.kind == "n" else ref.angdiff
    if diff(got, want) <= tol:
        return name
    if s.deviant:
        key, f = s.deviant
        if diff(got, f(*args)) <= tol:
            known.seen(key)
            return name
    fail("%s%r is %.12g, expected %.12g%s" % (name, tuple(args), got, want, "" if s.kind == "n" else " modulo 360"))


def nutation(case):
    L = lib.get(case["backend"])
    j = case["jce"]
    n = call("get_nutation(%r)" % j, L.solar.get_nutation, j)
    dpsi, deps = ref.nutation(j)
    near("nutation in longitude at %r" % j, n["longitude"], dpsi, 1e-10 + 1e-9 * abs(dpsi))
    near("nutation in obliquity at %r" % j, n["obliquity"], deps, 1e-10 + 1e-9 * abs(deps))
    p = call("get_aberration_coeffs", L.constants.get_aberration_coeffs)
    for name in ("ArgumentOfLatitudeOfMoon", "LongitudeOfAscendingNode", "MeanElongationOfMoon", "MeanAnomalyOfMoon", "MeanAnomalyOfSun"):
        if name not in p:
            fail("get_aberration_coeffs() has no %s" % name)
        w = aber(j, name)
        near(name, call(name, p[name], j), w, 1e-9 + 1e-12 * abs(w))
    return "|jce| %s" % ("< 1" if abs(j) < 1 else "< 10" if abs(j) < 10 else ">= 10")


def declination(case):
    """topocentric declination for an observer at a latitude and elevation, and arguments of any size"""
    L = lib.get(case["backend"])
    f = L.solar.get_topocentric_sun_declination
    rho, ax = ref.observer(case["lat"], case["el"])
    d, xi, h = case["d"], case["xi"], case["h"]
    psra = parallax_ra(rho, xi, h, d)
    got = num("get_topocentric_sun_declination", call("get_topocentric_sun_declination", f, d, ax, xi, psra, h))
    s = sin(radians(xi))
    want = degrees(atan2(sin(radians(d)) - ax * s, hypot(cos(radians(d)) - rho * s * cos(radians(h)), rho * s * sin(radians(h)))))
    dev = degrees(atan2((sin(radians(d)) - ax * s) * cos(radians(psra)), cos(radians(d)) - ax * s * cos(radians(h))))
    if abs(got - want) > 1e-9:
        if abs(got - dev) > 1e-9:
            fail("topocentric declination for %r is %.12g, expected %.12g" % (case, got, want))
        known.seen("declination")
    # any arguments
    a = (case["d"], case["phi"], xi, case["p"], h)
    got = num("get_topocentric_sun_declination", call("get_topocentric_sun_declination", f, *a))
    dev = degrees(atan2((sin(radians(d)) - case["phi"] * s) * cos(radians(case["p"])), cos(radians(d)) - case["phi"] * s * cos(radians(h))))
    if known.listed("declination"):
        near("get_topocentric_sun_declination%r" % (a,), got, dev, 1e-9)
    return "natural parallax" if xi < 0.003 else "large parallax"


@gen.st.composite
def stage_case(draw):
    n = draw(gen.sampled(sorted(STAGES)))
    a = [draw(g) for g in STAGES[n].gens]
    if n == "get_local_hour_angle" and draw(gen.integers(0, 2)) == 0:       # close to the meridian
        a[0] = (a[2] - a[1]) % 360.0 + draw(gen.sampled([-1, 0, 1])) * 10.0 ** -draw(gen.integers(0, 12))
    return {"f": n, "a": a, "backend": draw(BACK)}


CHECK = Check("C19", [
    Clause("stages", stage_case(), stage, 40000, nontrivial="the function is away from the refraction cut-off; class: function",
           examples=[dict(f="get_heliocentric_longitude", a=[0.003792779869191517], backend=b) for b in ("numpy", "math", "blocked")]),
    Clause("nutation", fd(jce=JCE, backend=BACK), nutation, 5000, nontrivial="all; class: epoch"),
    Clause("topocentric_declination", fd(lat=LAT, el=gen.elevations(), d=DEC, xi=XI, h=ANY, phi=PHI, p=SMALL, backend=BACK), declination, 8000, nontrivial="all; class: size of the parallax"),
], rule="every published stage with arguments of its own over its whole domain, against formulas written from the publication (geometry by rotation and subtraction of vectors)",
    assumptions=["the recorded deviations are accepted in exactly their recorded form"])
