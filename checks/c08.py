import numpy as np
from common import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])
CUT = ref.REFRACTION_CUTOFF
ALT = gen.one_of(gen.integers(-90000, 90000).map(lambda k: k / 1000.0), gen.integers(-2000, 90000).map(lambda k: k / 1000.0), gen.integers(-9000, 20000).map(lambda k: k / 10000.0),
                 gen.integers(-1000, 1000).map(lambda k: CUT + k / 1e5), gen.integers(-1000, 1000).map(lambda k: -5.11 + k / 1e5),
                 gen.sampled([0.0, 90.0, -90.0, 5.0, 10.0, 45.0, -0.8, -0.833, -0.5667, -0.26667, -5.11, 89.9, 15.0, -1.0, 85.0, 0.5]))
PRESS = gen.pressures(True)
TEMP = gen.temperatures(True)


def refr(L, P, T, e):
    return num("refraction", call("get_refraction_correction(%r, %r, %r)" % (P, T, e), L.solar.get_refraction_correction, P, T, e))


def formula(case):
    L = lib.get(case["backend"])
    e, P, T = case["e"], case["P"], case["T"]
    r = refr(L, P, T, e)
    if abs(e - CUT) < 1e-9:
        return None
    want = ref.refraction(P, T, e)
    if want == 0.0 and r != 0.0:
        fail("refraction at altitude %r, below the horizon or without air, is %r" % (e, r))
    near("refraction at altitude %r, %r Pa, %r K" % (e, P, T), r, want, 1e-9 + 1e-7 * abs(want))
    return "below" if e < CUT else "horizon" if e < 1 else "low" if e < 15 else "high"


def scaling(case):
    L = lib.get(case["backend"])
    e, P, T = case["e"], case["P"], case["T"]
    r = refr(L, P, T, e)
    near("refraction at %r times the pressure" % case["k"], refr(L, P * case["k"], T, e), r * case["k"], 1e-9 + 1e-9 * abs(r * case["k"]))
    near("refraction at %r times the temperature" % case["k"], refr(L, P, T * case["k"], e), r / case["k"], 1e-9 + 1e-9 * abs(r / case["k"]))
    return "refracted" if r else None


def order(case):
    """the higher sun appears higher, and lies within the refraction at the horizon of where it is"""
    L = lib.get(case["backend"])
    a, b = sorted((case["e"], case["e2"]))
    P, T = case["P"], case["T"]
    if P / T > 1.2 * 101325.0 / 288.15:
        P = 1.2 * 101325.0 / 288.15 * T       # far denser air than the formula is for bends it over
    ra, rb = refr(L, P, T, a), refr(L, P, T, b)
    if b - a > 1e-9 and (a >= CUT + 1e-9 or b < CUT - 1e-9) and not a + ra < b + rb:
        fail("geometric altitudes %r < %r appear at %r, %r" % (a, b, a + ra, b + rb))
    if 85.0 > a >= CUT + 1e-9 and b < 85.0 and rb > ra + 1e-12 and a > -0.5:
        fail("refraction grows from %r to %r with altitude %r to %r" % (ra, rb, a, b))
    if a + ra > b + rb + 1.0:
        fail("order of %r and %r lost" % (a, b))
    return "above" if a >= CUT else "across" if b >= CUT else None


def arrays(case):
    L = lib.get("numpy")
    e = np.array(case["es"])
    P = np.array(case["Ps"][:len(e)]) if case["vec"] & 1 else case["P"]
    T = np.array(case["Ts"][:len(e)]) if case["vec"] & 2 else case["T"]
    r = call("get_refraction_correction of an array", L.solar.get_refraction_correction, P, T, e)
    if np.shape(r) != e.shape:
        fail("refraction of shape %r has shape %r" % (e.shape, np.shape(r)))
    for i in range(len(e)):
        if abs(case["es"][i] - CUT) < 1e-9:
            continue
        p, t = (case["Ps"][i] if case["vec"] & 1 else P), (case["Ts"][i] if case["vec"] & 2 else T)
        want = ref.refraction(p, t, case["es"][i])
        near("refraction of %r in an array" % case["es"][i], r[i], want, 1e-9 + 1e-7 * abs(want))
    below = sum(v < CUT for v in case["es"])
    return "mixed" if 0 < below < len(e) else None


def applied_once(case):
    """altitude = geometric altitude + refraction of the geometric altitude, for all three functions"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    s, P, T = L.solar, case["P"], case["T"]
    # a longitude that puts the sun near the wanted altitude
    m = ref.Sun(d)
    c = (math.sin(math.radians(case["h"])) - math.sin(math.radians(case["lat"])) * math.sin(math.radians(m.dec))) / (
        math.cos(math.radians(case["lat"])) * math.cos(math.radians(m.dec)))
    lon = round(ref.wrap180(case["side"] * math.degrees(math.acos(max(-1.0, min(1.0, c)))) + m.ra - m.gst), 6)
    geo = num("geometric altitude", call("get_altitude", s.get_altitude, case["lat"], lon, d, 0, T, 0.0))
    if abs(geo - CUT) < 1e-7:
        return None
    want = geo + ref.refraction(P, T, geo)
    near("get_altitude at geometric altitude %r" % geo, call("get_altitude", s.get_altitude, case["lat"], lon, d, 0, T, P), want, 1e-8)
    near("get_position at geometric altitude %r" % geo, call("get_position", s.get_position, case["lat"], lon, d, 0, T, P)[1], want, 1e-8)
    dec, ha = call("get_topocentric_position", s.get_topocentric_position, case["lat"], lon, d, 0)
    near("get_topocentric_zenith_angle at geometric altitude %r" % geo, call("zenith", s.get_topocentric_zenith_angle, case["lat"], dec, ha, P, T), 90 - want, 1e-8)
    return "below" if geo < CUT else "refracted"


def zenith(case):
    """the zenith angle of any declination and hour angle is 90 degrees less altitude and its refraction"""
    L = lib.get(case["backend"])
    lat, dec, ha, P, T = case["lat"], case["dec"], case["ha"], case["P"], case["T"]
    geo = ref.horizon_frame(lat, dec, ha)[1]
    if abs(geo - CUT) < 1e-5:
        return None
    z = call("get_topocentric_zenith_angle", L.solar.get_topocentric_zenith_angle, lat, dec, ha, P, T)
    near("zenith angle at latitude %r, declination %r, hour angle %r, %r Pa, %r K" % (lat, dec, ha, P, T), z, 90.0 - geo - ref.refraction(P, T, geo), 1e-5)
    return "below" if geo < CUT else "refracted"


CHECK = Check("C08", [
    Clause("formula", fd(e=ALT, P=PRESS, T=TEMP, backend=BACK), formula, 14000, nontrivial="not within 1e-9 of the cut-off; class: altitude",
           examples=[dict(e=e, P=P, T=T, backend=b) for e in (-5.11, -0.8333, -0.8334, 0.0, 90.0, -90.0, 45.0) for P in (0.0, 82000.0, 101325.0) for T in (250.0, 288.15) for b in ("numpy", "math", "blocked")]),
    Clause("scaling", fd(e=ALT, P=PRESS, T=TEMP, k=gen.sampled([0.5, 2.0, 1.1, 0.9, 1.01]), backend=BACK), scaling, 5000, nontrivial="refraction is not zero"),
    Clause("order", fd(e=ALT, e2=ALT, P=PRESS, T=TEMP, backend=BACK), order, 8000, nontrivial="at least one altitude above the cut-off"),
    Clause("near_order", fd(e=ALT, d=gen.integers(1, 1000), P=PRESS, T=TEMP, backend=BACK).map(lambda c: dict(c, e2=min(90.0, c["e"] + c.pop("d") / 1e5))), order, 5000, nontrivial="at least one altitude above the cut-off"),
    Clause("arrays", fd(es=gen.st.lists(ALT, min_size=1, max_size=6), Ps=gen.st.lists(PRESS, min_size=6, max_size=6), Ts=gen.st.lists(TEMP, min_size=6, max_size=6), P=PRESS, T=TEMP, vec=gen.integers(0, 3)),
           arrays, 3000, nontrivial="altitudes on both sides of the cut-off"),
    Clause("applied_once", fd(t=gen.zoned(), lat=gen.one_of(gen.lats(-89, 89), gen.lats(-89, 89), gen.integers(-1000, 1000).map(lambda k: math.copysign(90 - abs(k) / 1e4, k))), h=gen.one_of(gen.integers(-200, 300).map(lambda k: k / 100.0), gen.integers(-90, 90).map(float)), side=gen.sampled([-1, 1]), P=PRESS, T=TEMP, backend=BACK),
           applied_once, 4000, nontrivial="not at the cut-off; class: side of the cut-off"),
    Clause("zenith", fd(lat=gen.lats(), dec=gen.integers(-24000, 24000).map(lambda k: k / 1000.0), ha=gen.one_of(gen.lons(), gen.integers(0, 360).map(float), gen.lons()), P=PRESS, T=TEMP, backend=BACK),
           zenith, 5000, nontrivial="not at the cut-off; class: side of the cut-off"),
], rule="altitudes weighted to the horizon, the cut-off and the pole of the formula, times pressure and temperature; compared with the SPA formula",
    assumptions=["monotonicity is required for air up to 1.2 times the standard density"])
