from common import *

preload("numpy", "math", "blocked")
known = pbt.known("C21")
defects()
BACK = gen.sampled(["numpy", "math", "blocked"])
PARAMS = ("elevation", "temperature", "pressure", "TL", "TY", "AM")
DEFAULT = dict(elevation=0.0, temperature=288.15, pressure=101325.0, TL=1.0, TY=365, AM=2.0)
ORDER = {
    "solarelevation_function_clear": ("temperature", "pressure", "elevation"),
    "solarelevation_function_overcast": ("elevation", "temperature", "pressure"),
    "diffuse_underclear": ("elevation", "temperature", "pressure", "TL"),
    "diffuse_underovercast": ("elevation", "temperature", "pressure", "TL"),
    "direct_underclear": ("TY", "AM", "TL", "elevation", "temperature", "pressure"),
    "global_irradiance_clear": ("TY", "AM", "TL", "elevation", "temperature", "pressure"),
    "global_irradiance_overcast": ("elevation", "temperature", "pressure"),
}


def clear(h):
    s = math.sin(math.radians(h))
    return 0.038175 + 1.5458 * s - 0.5998 * s * s


def overcast(h):
    s = math.sin(math.radians(h))
    return -0.0067133 + 0.786 * s + 0.22401 * s * s


def dt_of(tl):
    return -21.657 + 41.752 * tl + 0.51905 * tl * tl


def kd(d):
    return 1 - 0.0335 * math.sin(2 * math.pi * (ref.yday(d) - 94) / 365.0)


def air_depth(m):
    """Kasten's Rayleigh optical depth of the clean dry air for air mass m, which the ESRA formula of the direct irradiance has in the exponent"""
    if m <= 20:
        return 1 / (6.6296 + 1.7513 * m - 0.1202 * m ** 2 + 0.0065 * m ** 3 - 0.00013 * m ** 4)
    return 1 / (10.4 + 0.718 * m)


def expo(x):
    return math.exp(x) if x < 700 else math.inf


def direct(d, h, p):
    """(published, recorded deviation)"""
    b = 1367 * kd(d) * math.sin(math.radians(h))
    dec = 23.45 * math.sin(2 * math.pi * (ref.yday(d) - 81) / p["TY"])
    dev = expo(-0.8662 * p["AM"] * p["TL"] * dec)
    return b * expo(-0.8662 * p["AM"] * p["TL"] * air_depth(p["AM"])), (b * dev if b else 0.0)


def diffuse(d, h, p, f):
    k = kd(d) * dt_of(p["TL"])
    return k * f(h), k * h


def altitude(L, case, d, p):
    """the library's own altitude for these arguments (property C01 is about it), cross-checked here"""
    h = num("altitude", call("get_altitude", L.solar.get_altitude, case["lat"], case["lon"], d, p["elevation"], p["temperature"], p["pressure"]))
    g = ref.Sun(d).horizontal(case["lat"], case["lon"], p["elevation"])[1]
    w = g + ref.refraction(p["pressure"], p["temperature"], g)
    if abs(h - w) > 0.01 + 0.02 * abs(w - g) and abs(g - ref.REFRACTION_CUTOFF) > 0.01:
        fail("altitude for the given elevation, temperature and pressure is %r, by the SPA %r" % (h, w))
    return h


def close(got, want, scale):
    if math.isinf(want) or math.isnan(want):
        return math.isinf(got) or math.isnan(got) or abs(got) > 1e300
    return abs(got - want) <= 1e-7 * max(abs(want), scale)


def expect(desc, got, want, dev, key, scale):
    """published value or the recorded deviation"""
    try:
        g = float(got)
    except Exception:
        fail("%s is %r" % (desc, got))
    if close(g, want, scale):
        return
    if close(g, dev, scale):
        known.seen(key)
        return
    fail("%s is %.12g, published formula %.12g, with the recorded deviation %.12g" % (desc, g, want, dev))


def formulas(case):
    L = lib.get(case["backend"])
    U = L.util
    d = when(case["t"])
    name = case["f"]
    names = ORDER[name]
    npos = min(case["pos"], len(names))
    p = dict(DEFAULT)
    given = dict((k, case["v"][k]) for i, k in enumerate(names) if i < npos or case["mask"] >> i & 1)
    p.update(given)
    args = [p[k] for k in names[:npos]]
    kw = {k: v for k, v in given.items() if k not in names[:npos]}
    f = getattr(U, name)
    desc = "%s(%r, %r, %s, %s)" % (name, case["lat"], case["lon"], case["t"], given)
    h = altitude(L, case, d, p)
    overflow = False
    try:
        import numpy as np
        with np.errstate(all="ignore"):
            got = f(case["lat"], case["lon"], d, *args, **kw)
    except OverflowError:
        # the recorded deviation of the direct irradiance in the southern summer
        if name in ("direct_underclear", "global_irradiance_clear") and math.isinf(direct(d, 1.0, p)[1]):
            known.seen("direct")
            overflow = True
        else:
            fail("%s raised OverflowError" % desc)
    except Exception as e:
        fail("%s raised %s: %s" % (desc, type(e).__name__, e))
    if overflow:
        return "overflow " + name
    if name == "solarelevation_function_clear":
        near(desc, got, clear(h), 1e-9)
    elif name == "solarelevation_function_overcast":
        near(desc, got, overcast(h), 1e-9)
    elif name == "diffuse_underclear":
        w, v = diffuse(d, h, p, clear)
        expect(desc, got, w, v, "diffuse", 1e-3)
    elif name == "diffuse_underovercast":
        w, v = diffuse(d, h, p, overcast)
        expect(desc, got, w, v, "diffuse", 1e-3)
    elif name == "direct_underclear":
        w, v = direct(d, h, p)
        expect(desc, got, w, v, "direct", 1e-3)
    elif name == "global_irradiance_overcast":
        expect(desc, got, 572 * overcast(h), 572 * h, "overcast", 1e-3)
    else:
        dw, dv = direct(d, h, p)
        fw, fv = diffuse(d, h, p, clear)
        g = float(got)
        if not any(close(g, x + y, 1.0) for x in (dw, dv) for y in (fw, fv)):
            fail("%s is %.12g, direct plus diffuse %.12g (with the recorded deviations %.12g)" % (desc, g, dw + fw, dv + fv))
        # the sum for the same arguments
        part = {k: p[k] for k in ("elevation", "temperature", "pressure", "TL")}
        try:
            import numpy as np
            with np.errstate(all="ignore"):
                s = float(U.direct_underclear(case["lat"], case["lon"], d, p["TY"], p["AM"], p["TL"], p["elevation"], p["temperature"], p["pressure"])) + float(U.diffuse_underclear(case["lat"], case["lon"], d, **part))
        except OverflowError:
            s = math.inf
        if not close(g, s, 1.0):
            fail("%s is %.12g, direct_underclear() + diffuse_underclear() %.12g" % (desc, g, s))
    return "%s %s" % (name, "up" if h > 0 else "down")


def transmittance(case):
    L = lib.get(case["backend"])
    tl = case["TL"]
    near("diffuse_transmittance(%r)" % tl, call("diffuse_transmittance", L.util.diffuse_transmittance, tl), dt_of(tl), 1e-9)
    near("diffuse_transmittance(TL=%r)" % tl, call("diffuse_transmittance", L.util.diffuse_transmittance, TL=tl), dt_of(tl), 1e-9)
    near("diffuse_transmittance()", call("diffuse_transmittance", L.util.diffuse_transmittance), dt_of(1.0), 1e-9)
    return "all"


TLS = gen.one_of(gen.integers(10, 80).map(lambda k: k / 10.0), gen.integers(1, 400).map(lambda k: k / 10.0), gen.integers(10, 80).map(lambda k: k / 10.0), gen.just(1.0), gen.integers(0, 10).map(lambda k: k / 10.0))
# small products keep the deviant exponential finite most of the time
V = fd(elevation=gen.elevations(), temperature=gen.temperatures(True), pressure=gen.pressures(True), TL=TLS, TY=gen.sampled([365, 366, 365.25, 360]),
       AM=gen.one_of(gen.integers(10, 100).map(lambda k: k / 10.0), gen.integers(0, 10).map(lambda k: k / 10.0)))
CHECK = Check("C21", [
    Clause("formulas", fd(f=gen.sampled(sorted(ORDER)), t=gen.one_of(gen.zoned(), gen.boundary_utcs()), lat=gen.lats(), lon=gen.lons(), v=V, pos=gen.sampled([0, 0, 0, 1, 2, 3, 6]), mask=gen.integers(0, 63), backend=BACK),
           formulas, 15000, nontrivial="all; class: function, sun up or down"),
    Clause("transmittance", fd(TL=TLS, backend=BACK), transmittance, 2000, nontrivial="all"),
], rule="any subset of the atmosphere's parameters by position or keyword, against the published formulas for the altitude of those arguments; the three recorded deviations are accepted in exactly their recorded form",
    assumptions=["the optical depth of the air in the published direct irradiance is Kasten's (the deviant form is what the delivered code computes)"])
