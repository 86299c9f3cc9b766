from common import *

preload("numpy", "math")
BACK = gen.sampled(["numpy", "math"])
ATM = dict(el=gen.elevations(), T=gen.temperatures(True), P=gen.pressures(True))
EARTH = 6378140.0


def slack():
    """relative room: distance of the sun, and the recorded deviation of the declination formula"""
    return 1.4 if "declination" in defects() else 1.04


def parallax_bound(el):
    """the largest possible shift of the sun by the observer's place, degrees"""
    return slack() * 8.794 / 3600.0 * (1.0 + abs(el) / EARTH)


def equatorial(lat, lon, az, alt):
    """(direction in an earth-fixed frame: x to the Greenwich meridian, z to the pole)"""
    a, h, la = math.radians(az), math.radians(alt), math.radians(lat)
    n, e, u = math.cos(h) * math.cos(a), math.cos(h) * math.sin(a), math.sin(h)
    z = u * math.sin(la) + n * math.cos(la)
    m = u * math.cos(la) - n * math.sin(la)      # towards the meridian of the place
    lo = math.radians(lon)
    return (m * math.cos(lo) - e * math.sin(lo), m * math.sin(lo) + e * math.cos(lo), z)


def globe(lat, lon, el):
    """the place on the ellipsoid, in earth radii, in the frame of equatorial()"""
    la, lo = math.radians(lat), math.radians(lon)
    u = math.atan2(0.99664719 * math.sin(la), math.cos(la))
    r = math.cos(u) + el / EARTH * math.cos(la)
    return (r * math.cos(lo), r * math.sin(lo), 0.99664719 * math.sin(u) + el / EARTH * math.sin(la))


def sep(u, v):
    d = math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
    return math.degrees(2 * math.asin(min(1.0, d / 2)))


def pos(L, case, lat, lon, el=None, P=0.0, T=288.15):
    az, alt = call("get_position(%r, %r, %s)" % (lat, lon, case["t"]), L.solar.get_position, lat, lon, when(case["t"]),
                   case["el"] if el is None else el, T, P)
    return num("azimuth", az), num("altitude", alt)


def two_places(case):
    L = lib.get(case["backend"])
    a = (case["lat"], case["lon"])
    b = aimed(case.get("aim"), when(case["t"]), case["lat2"], case["lon2"])
    pa, pb = pos(L, case, *a), pos(L, case, *b)
    ua, ub = equatorial(*a, *pa), equatorial(*b, *pb)
    s = sep(ua, ub)
    if s > 2 * parallax_bound(case["el"]) + 0.0005:
        fail("seen from %r and %r the sun is in directions %.5f degree apart" % (a, b, s))
    # what the places on the ellipsoid make of it: direction a plus place a, less place b
    p = math.radians(8.794 / 3600.0)
    v = [x + p * (y - z) for x, y, z in zip(ua, globe(*a, case["el"]), globe(*b, case["el"]))]
    n = math.sqrt(sum(x * x for x in v))
    s = sep([x / n for x in v], ub)
    tol = (1.15 if "declination" in defects() else 0.06) * 8.794 / 3600.0 * (1.0 + abs(case["el"]) / EARTH) + 1e-5
    if s > tol:
        fail("seen from %r and %r the sun is in directions %.5f degree from each other's parallax (allowed %.5f)" % (a, b, s, tol))
    day = (pa[1] > 0) + (pb[1] > 0)
    return "%s, %s" % (("night and night", "day and night", "day and day")[day], "two hemispheres" if a[0] * b[0] < 0 else "one hemisphere")


def whole_turns(case):
    L = lib.get(case["backend"])
    p = pos(L, case, case["lat"], case["lon"], P=case["P"], T=case["T"])
    for k in case["turns"]:
        q = pos(L, case, case["lat"], case["lon"] + 360.0 * k, P=case["P"], T=case["T"])
        if abs(q[1] - p[1]) > 1e-6 or ref.angdiff(q[0], p[0]) * math.cos(math.radians(min(90, p[1]))) > 1e-6:
            fail("longitude %r: position %r, %d turns on: %r" % (case["lon"], p, k, q))
    return "above" if p[1] > 0 else "below"


def pole_longitude(case):
    """at a pole the altitude does not depend on longitude and is the declination"""
    L = lib.get(case["backend"])
    lat = 90.0 if case["lat"] >= 0 else -90.0
    p, q = pos(L, case, lat, case["lon"]), pos(L, case, lat, case["lon2"])
    # the recorded deviation of the declination formula depends on the hour angle even at a pole
    tol = parallax_bound(case["el"]) if "declination" in defects() else 1e-6
    if abs(p[1] - q[1]) > tol:
        fail("at latitude %r altitude is %r at longitude %r and %r at %r" % (lat, p[1], case["lon"], q[1], case["lon2"]))
    if ref.angdiff(p[0] - q[0], math.copysign(1.0, lat) * (case["lon"] - case["lon2"])) > 1e-5:
        fail("at latitude %r azimuths %r and %r do not differ like longitudes %r and %r" % (lat, p[0], q[0], case["lon"], case["lon2"]) )
    return "N" if lat > 0 else "S"


def combined(case):
    """get_position is azimuth and altitude; altitude is geometric altitude plus refraction"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat, lon, el, T, P = case["lat"], case["lon"], case["el"], case["T"], case["P"]
    if case["due"] is not None:     # close to the meridian: the sun due north or south
        m = ref.Sun(d, defects())
        lon = ref.wrap180(m.ra - m.gst + case["due"])
    s = L.solar
    lat, lon = aimed(case.get("aim"), d, lat, lon)
    az, alt = pos(L, case, lat, lon, P=P, T=T)
    near("get_altitude against get_position", call("get_altitude", s.get_altitude, lat, lon, d, el, T, P), alt, 1e-9)
    az1 = call("get_azimuth", s.get_azimuth, lat, lon, d, el)
    near_angle("get_azimuth against get_position", az1, az, 1e-9)
    for name, a in (("get_azimuth", az1), ("get_position", az)):
        if not 0.0 <= float(a) <= 360.0:
            fail("azimuth of %s at %r, %r is %r" % (name, lat, lon, a))
    dec, ha = call("get_topocentric_position", s.get_topocentric_position, lat, lon, d, el)
    geo = num("geometric", call("get_altitude", s.get_altitude, lat, lon, d, el, T, 0.0))
    near("altitude at zero pressure against get_topocentric_elevation_angle", geo,
         num("elevation angle", call("get_topocentric_elevation_angle", s.get_topocentric_elevation_angle, lat, dec, ha)), 1e-9)
    r = num("refraction", call("get_refraction_correction", s.get_refraction_correction, P, T, geo))
    near("altitude minus geometric altitude against the refraction", alt - geo, r, 1e-9)
    near("zenith angle against altitude", call("get_topocentric_zenith_angle", s.get_topocentric_zenith_angle, lat, dec, ha, P, T), 90.0 - alt, 1e-9)
    ea, eh, hor = ref.horizon_frame(lat, float(dec), float(ha))
    if ref.angdiff(az, ea) * hor > 1e-6 or abs(geo - eh) > 2e-6:
        fail("horizontal coordinates %r of declination %r, hour angle %r; by rotation %r" % ((az, geo), dec, ha, (ea, eh)))
    az2, alt2 = pos(L, case, lat, lon, P=0.0, T=T)
    near_angle("azimuth at zero pressure", az2, az, 1e-9)
    # back from the horizon to declination and hour angle
    u = equatorial(lat, 0.0, az, geo)
    near("declination back from the position", math.degrees(math.atan2(u[2], math.hypot(u[0], u[1]))), float(dec), 2e-5)
    if math.hypot(u[0], u[1]) > 0.1 and ref.angdiff(-math.degrees(math.atan2(u[1], u[0])), float(ha)) > 2e-5:
        fail("hour angle back from the position is %r, get_topocentric_position has %r" % (-math.degrees(math.atan2(u[1], u[0])), ha))
    return "refracted" if r else ("below" if geo < -0.83 else None)


def raised(case):
    """a higher observer sees the sun where the parallax puts it, not further"""
    L = lib.get(case["backend"])
    lat, lon = case["lat"], case["lon"]
    p, q = pos(L, case, lat, lon, el=case["el"]), pos(L, case, lat, lon, el=case["el"] + case["rise"])
    s = ref.separation(*p, *q)
    bound = slack() * 8.794 / 3600.0 * abs(case["rise"]) / EARTH + 2e-6
    if s > bound:
        fail("raising the observer from %r by %r m moves the sun %.3g degree, parallax allows %.3g" % (case["el"], case["rise"], s, bound))
    return "up to 1 km" if case["rise"] < 1000 else "up to 100 km" if case["rise"] < 1e5 else "above"


PL = dict(t=gen.zoned(), lat=gen.lats(), lon=gen.lons(), backend=BACK)
CHECK = Check("C06", [
    Clause("two_places", fd(aim=gen.aims(), lat2=gen.lats(), lon2=gen.lons(), **PL, **ATM), two_places, 5000, nontrivial="all; class: day or night, same or other hemisphere"),
    Clause("whole_turns", fd(turns=gen.st.lists(gen.sampled([-3, -2, -1, 1, 2, 3]), min_size=1, max_size=2, unique=True), **PL, **ATM), whole_turns, 3000, nontrivial="all"),
    Clause("poles", fd(lon2=gen.lons(), **PL, **ATM), pole_longitude, 1500, nontrivial="all"),
    Clause("combined", fd(aim=gen.aims(), due=gen.one_of(gen.just(None), gen.just(None), gen.st.builds(lambda h, s, e: h + s * 10.0 ** -e, gen.sampled([0.0, 180.0]), gen.sampled([-1, 0, 1]), gen.integers(0, 13))), **PL, **ATM), combined, 4000, nontrivial="refraction applies, or the sun is below the cut-off"),
    Clause("raised_observer", fd(rise=gen.one_of(gen.integers(1, 9000).map(float), gen.sampled([1e5, 1e6]), gen.integers(1, 100000).map(float)), **PL, **ATM), raised, 3000, nontrivial="all"),
], rule="pairs of places at one instant, whole turns of longitude, the poles, and the three position functions against each other",
    assumptions=["parallax of at most 1.04 x 8.794 arc seconds per earth radius, 1.4 x with the recorded deviation of the declination formula (C01)"])
