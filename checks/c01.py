from common import *

known = pbt.known("C01")
TOL = 2e-6


def place():
    return fd(t=gen.zoned(), lat=gen.lats(), lon=gen.lons(), el=gen.elevations(), T=gen.temperatures(True), P=gen.pressures(True))


def compare(case, az, alt, model, what):
    d = when(case["t"])
    ea, eh, hor = model.horizontal(case["lat"], case["lon"], case["el"])
    if az is not None:
        num(what + " azimuth", az)
        if ref.angdiff(az, ea) * hor > TOL:
            fail("%s azimuth %.9f, SPA %.9f (%.3g degree on the sky)" % (what, az, ea, ref.angdiff(az, ea) * hor))
    if alt is not None:
        num(what + " altitude", alt)
        want = eh + ref.refraction(case["P"], case["T"], eh)
        if abs(alt - want) > TOL + 1e-5 * abs(want - eh):
            if abs(eh - ref.REFRACTION_CUTOFF) < 1e-5 and (abs(alt - eh) < TOL or abs(
                    alt - eh - ref.refraction(case["P"], case["T"], ref.REFRACTION_CUTOFF + 1e-9)) < 1e-4):
                return eh
            fail("%s altitude %.9f, SPA %.9f (difference %.3g)" % (what, alt, want, alt - want))
    return eh


def note_known(d):
    sub = defects()
    for k in sub:
        known.seen(k)
    return sub


def separate(backend):
    def fn(case):
        L = lib.get(backend)
        d = when(case["t"])
        a = (case["lat"], case["lon"], d)
        model = ref.Sun(d, note_known(d))
        az = call("get_azimuth", L.solar.get_azimuth, *a, elevation=case["el"])
        alt = call("get_altitude", L.solar.get_altitude, *a, elevation=case["el"], temperature=case["T"], pressure=case["P"])
        h = compare(case, az, alt, model, backend)
        return sky_class(h, case["lat"], d)
    return fn


def position(backend):
    def fn(case):
        L = lib.get(backend)
        d = when(case["t"])
        model = ref.Sun(d, note_known(d))
        p = call("get_position", L.solar.get_position, case["lat"], case["lon"], d, case["el"], case["T"], case["P"])
        try:
            az, alt = p
        except Exception:
            fail("get_position returned %r" % (p,))
        h = compare(case, az, alt, model, backend + " get_position")
        return sky_class(h, case["lat"], d)
    return fn


def horizon_case():
    """places where the sun is within a degree or two of the horizon: lon such that ..."""
    return fd(t=gen.zoned(), lat=gen.lats(-89, 89), h=gen.integers(-300, 200), side=gen.sampled([-1, 1]), el=gen.elevations(),
              T=gen.temperatures(True), P=gen.pressures(True))


def at_altitude(d, lat, h, side):
    """a longitude where the geocentric altitude of the sun at latitude `lat` is `h` degrees, if any"""
    s = ref.Sun(d)
    c = (math.sin(math.radians(h)) - math.sin(math.radians(lat)) * math.sin(math.radians(s.dec))) / (
        math.cos(math.radians(lat)) * math.cos(math.radians(s.dec)))
    c = max(-1.0, min(1.0, c))
    ha = side * math.degrees(math.acos(c))
    return round(ref.wrap180(ha + s.ra - s.gst), 6)


def near_horizon(case):
    d = when(case["t"])
    c = dict(case, lon=at_altitude(d, case["lat"], case["h"] / 100.0, case["side"]))
    L = lib.get("numpy")
    model = ref.Sun(d, note_known(d))
    az, alt = call("get_position", L.solar.get_position, c["lat"], c["lon"], d, c["el"], c["T"], c["P"])
    h = compare(c, az, alt, model, "get_position")
    return "refracted" if h >= ref.REFRACTION_CUTOFF else "below cut-off"


def defaults(case):
    """omitted arguments: sea level, standard temperature and pressure"""
    d = when(case["t"])
    L = lib.get(case["backend"])
    full = dict(case, el=0.0, T=288.15, P=101325.0)
    model = ref.Sun(d, note_known(d))
    az, alt = call("get_position", L.solar.get_position, case["lat"], case["lon"], d)
    compare(full, az, alt, model, "get_position, default atmosphere")
    alt = call("get_altitude", L.solar.get_altitude, case["lat"], case["lon"], d)
    h = compare(full, None, alt, model, "get_altitude, default atmosphere")
    az = call("get_azimuth", L.solar.get_azimuth, case["lat"], case["lon"], d)
    compare(full, az, None, model, "get_azimuth, default atmosphere")
    return sky_class(h, case["lat"], d)


EX = [dict(t="2003-10-17T12:30:30-07:00", lat=39.742476, lon=-105.1786, el=1830.14, T=284.15, P=82000.0),
      dict(t="2000-02-29T23:59:59.999999+00:00", lat=0.0, lon=180.0, el=0.0, T=288.15, P=101325.0),
      dict(t="2016-12-31T23:59:59+00:00", lat=90.0, lon=0.0, el=0.0, T=288.15, P=101325.0),
      dict(t="2017-01-01T00:00:00+00:00", lat=-90.0, lon=0.0, el=0.0, T=288.15, P=101325.0)]

NT = "the case is a full comparison with the reference (all are); class: height of the sun, hemisphere, era"
CHECK = Check("C01", [
    Clause("azimuth_altitude", place(), separate("numpy"), 4000, examples=EX, nontrivial=NT),
    Clause("position", place(), position("numpy"), 4000, examples=EX, nontrivial=NT),
    Clause("azimuth_altitude_math", place(), separate("math"), 3000, examples=EX, nontrivial=NT),
    Clause("position_math", place(), position("math"), 3000, examples=EX, nontrivial=NT),
    Clause("near_horizon", horizon_case(), near_horizon, 3000, nontrivial="sun within 3 degrees of the horizon by construction"),
    Clause("default_atmosphere", fd(t=gen.zoned(), lat=gen.lats(), lon=gen.lons(), backend=gen.sampled(["numpy", "math"])), defaults, 1200,
           nontrivial=NT),
], rule="(instant in a random zone, place, elevation, temperature, pressure) compared with an independent implementation of the NREL "
        "SPA; every compared case is non-trivial, classes give height of the sun, hemisphere and era",
    assumptions=["reference tables and formulas in lib/ are a correct copy of the SPA publication; checked in setup against 1044 USNO positions",
                 "the recorded deviations are modelled exactly, as listed in known_findings.txt"])
