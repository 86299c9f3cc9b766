import numpy as np
import rest_ref as R
from common import *

preload("numpy", "math", "blocked")
known = pbt.known("C22")
BACK = gen.sampled(["numpy", "math", "blocked"])
BAND = gen.sampled(list(R.BANDS))
ALT = gen.one_of(gen.integers(0, 90000).map(lambda k: k / 1000.0), gen.integers(0, 90).map(float), gen.integers(0, 5000).map(lambda k: k / 1000.0), gen.sampled([90.0, 0.0, 30.0, 89.999, 90, 45]), gen.integers(-2500, 0).map(lambda k: k / 1000.0))
M = gen.one_of(gen.integers(100, 4000).map(lambda k: k / 100.0), gen.integers(10, 30).map(lambda k: k / 10.0))
PRES = gen.one_of(gen.just(1013.25), gen.integers(300, 1100).map(float), gen.integers(0, 300).map(float))
OZ = gen.one_of(gen.just(0.35), gen.integers(0, 60).map(lambda k: k / 100.0), gen.integers(60, 120).map(lambda k: k / 100.0))
NI = gen.one_of(gen.just(0.0002), gen.integers(0, 300).map(lambda k: k / 10000.0))
WA = gen.one_of(gen.just(5.0), gen.integers(0, 100).map(lambda k: k / 10.0), gen.integers(100, 250).map(lambda k: k / 10.0))
AL = gen.one_of(gen.just(1.3), gen.integers(0, 25).map(lambda k: k / 10.0))
BE = gen.one_of(gen.just(0.6), gen.integers(0, 110).map(lambda k: k / 100.0), gen.integers(110, 200).map(lambda k: k / 100.0))
TAU = gen.integers(0, 200).map(lambda k: k / 100.0)
NAMES = ("pressure_millibars", "ozone_atm_cm", "nitrogen_atm_cm", "precipitable_water_cm", "turbidity_alpha", "turbidity_beta")
DEFAULT = dict(zip(NAMES, (1013.25, 0.35, 0.0002, 5.0, 1.3, 0.6)))


def wl(band, m, a, b):
    return R.wavelength(band, m, a, b)


PARTS = {
    "get_optical_mass_rayleigh": ((ALT, PRES), lambda h, p: R.mass("rayleigh", h) * p / 1013.25),
    "get_optical_mass_ozone": ((ALT,), lambda h: R.mass("ozone", h)),
    "get_optical_mass_water": ((ALT,), lambda h: R.mass("water", h)),
    "get_optical_mass_aerosol": ((ALT,), lambda h: R.mass("aerosol", h)),
    "get_rayleigh_transmittance": ((BAND, M), R.rayleigh),
    "get_gas_transmittance": ((BAND, M), R.gas),
    "get_ozone_transmittance": ((BAND, M, OZ), R.ozone),
    "get_nitrogen_transmittance": ((BAND, M, NI), R.nitrogen),
    "get_water_vapor_transmittance": ((BAND, M, WA), R.water),
    "get_effective_aerosol_wavelength": ((BAND, M, AL, BE), R.wavelength),
    "get_aerosol_optical_depth": ((BE, gen.integers(1, 300).map(lambda k: k / 100.0), AL), R.aerosol_depth),
    "get_aerosol_transmittance": ((BAND, M, TAU), lambda b, m, t: math.exp(-m * t)),
    "get_aerosol_scattering_transmittance": ((BAND, M, TAU), lambda b, m, t: math.exp(-m * R.ALBEDO[b] * t)),
    "get_aerosol_forward_scatterance_factor": ((ALT,), R.forward_scatter),
    "get_aerosol_scattering_correction_factor": ((BAND, M, TAU), R.scatter_correction),
    "get_rayleigh_extinction_forward_scattering_fraction": ((BAND, M), R.rayleigh_forward),
    "get_sky_albedo": ((BAND, AL, BE), R.sky_albedo),
    "get_ground_albedo": ((BAND,), lambda b: 0.15),
    "get_backscattered_diffuse_irradiance_by_band": ((BAND, TAU, TAU, AL, BE), lambda b, e, f, a, be: 0.15 * R.sky_albedo(b, a, be) * (e + f) / (1 - 0.15 * R.sky_albedo(b, a, be))),
}


def part(case):
    name = case["f"]
    L = lib.get(case["backend"])
    args = case["a"]
    try:
        want = PARTS[name][1](*args)
    except ZeroDivisionError:
        return None
    got = call("%s%r" % (name, tuple(args)), getattr(L.rest, name), *args)
    near("%s%r" % (name, tuple(args)), got, want, 1e-9 * max(1.0, abs(want)))
    if name == "get_water_vapor_transmittance":
        c = call("get_water_vapor_transmittance_coefficients", L.rest.get_water_vapor_transmittance_coefficients, args[0], args[2])
        for i, w in enumerate(R.water_coeffs(args[0], args[2])):
            near("coefficient %d of water vapour" % (i + 1), c[i + 1], w, 1e-9 * max(1.0, abs(w)))
    return name


def beam(case):
    L = lib.get(case["backend"])
    h, band = case["h"], case["band"]
    p = dict(DEFAULT)
    npos = case["pos"]
    given = {k: case["v"][k] for i, k in enumerate(NAMES) if i < npos or case["mask"] >> i & 1}
    p.update(given)
    args = [p[k] for k in NAMES[:npos]]
    kw = {k: v for k, v in given.items() if k not in NAMES[:npos]}
    want = {b: R.direct_normal(b, h, *[p[k] for k in NAMES]) for b in R.BANDS}
    if None in want.values():
        return None
    s = math.sin(math.radians(h))
    tot = sum(want.values())
    desc = "(altitude %r, %r)" % (h, given)
    for name, a, w in (("get_direct_normal_irradiance_by_band", (band, h), want[band]), ("get_beam_irradiance_by_band", (band, h), want[band] * s),
                       ("get_broadband_direct_normal_irradiance", (h,), tot), ("get_beam_broadband_irradiance", (h,), tot * s)):
        with np.errstate(all="ignore"):
            got = call(name + desc, getattr(L.rest, name), *a, *args, **kw)
        near(name + desc, got, w, 1e-8 * abs(w) + 1e-11)
    return "%s sun, %s" % ("set" if h < 0 else "low" if h < 10 else "high", "defaults" if not given else "%d given" % len(given))


def laws(case):
    """masses near 1 at the zenith and growing downwards; less beam through more of anything"""
    L = lib.get(case["backend"])
    a, b = sorted((max(0.0, min(case["h"], 75.0)), max(0.0, min(case["h2"], 75.0))))     # the published masses dip below 1 near the zenith
    for n in ("ozone", "water", "aerosol"):
        f = getattr(L.rest, "get_optical_mass_" + n)
        near("optical mass (%s) at the zenith" % n, call("optical mass", f, 90.0), 1.0, 2e-3)
        if b - a > 1e-3 and not call("optical mass", f, a) > call("optical mass", f, b):
            fail("optical mass (%s) at %r is not more than at %r" % (n, a, b))
    f = L.rest.get_optical_mass_rayleigh
    near("molecular optical mass at the zenith", call("optical mass", f, 90.0, 1013.25), 1.0, 2e-3)
    near("molecular optical mass for half the pressure", call("optical mass", f, a, 506.625), call("optical mass", f, a, 1013.25) / 2, 1e-9)
    clean = L.rest.get_broadband_direct_normal_irradiance
    w = [R.direct_normal(x, h, *(1013.25, 0.35, 0.0002, 1.5, 1.3, 0.05)) for x in R.BANDS for h in (a, b)]
    if None in w or a < 2 or case["band"] != R.BANDS[0]:
        return "masses"
    kw = dict(precipitable_water_cm=1.5, turbidity_beta=0.05)
    base = num("irradiance", call("irradiance", clean, b, **kw))
    if not 0 < base < 1345.1:
        fail("direct normal irradiance %r" % base)
    for k, v in (("ozone_atm_cm", 0.5), ("precipitable_water_cm", 3.0), ("turbidity_beta", 0.1)):
        r = num("irradiance", call("irradiance", clean, b, **dict(kw, **{k: v})))
        if not r < base:
            fail("direct normal irradiance at altitude %r with %s=%r is %r, %r with less" % (b, k, v, r, base))
    if b - a > 0.5 and not num("irradiance", call("irradiance", clean, a, **kw)) < base:
        fail("direct normal irradiance at altitude %r is not below that at %r" % (a, b))
    return "masses and beam"


UNFINISHED = {"get_diffuse_broadband_irradiance": (), "get_diffuse_irradiance_by_band": (BAND,), "get_backscattered_diffuse_broadband_irradiance": (BAND,), "get_global_broadband_irradiance": (ALT,)}


def unfinished(case):
    L = lib.get(case["backend"])
    f = getattr(L.rest, case["f"])
    try:
        r = f(*case["a"])
    except (NameError, TypeError):
        known.seen("diffuse")
        return case["f"]
    except Exception as e:
        fail("%s raised %s: %s" % (case["f"], type(e).__name__, e))
    num(case["f"], r)
    return case["f"]


@gen.st.composite
def of(draw, table):
    n = draw(gen.sampled(sorted(table)))
    g = table[n][0] if table is PARTS else table[n]
    return {"f": n, "a": [draw(x) for x in g], "backend": draw(BACK)}


V = fd(pressure_millibars=PRES, ozone_atm_cm=OZ, nitrogen_atm_cm=NI, precipitable_water_cm=WA, turbidity_alpha=AL, turbidity_beta=BE)
CHECK = Check("C22", [
    Clause("parts", of(PARTS), part, 24000, nontrivial="the published function has no pole there; class: function"),
    Clause("beam", fd(h=ALT, band=BAND, v=V, pos=gen.sampled([0, 0, 0, 1, 2, 6]), mask=gen.integers(0, 63), backend=BACK), beam, 12000,
           nontrivial="the published effective wavelength is positive; class: height of the sun, number of parameters given",
           examples=[dict(h=h, band=b, v=dict(DEFAULT), pos=0, mask=0, backend=k) for h in (90.0, 30.0, 5.0) for b in R.BANDS for k in ("numpy", "math", "blocked")]),
    Clause("laws", fd(h=ALT, h2=ALT, band=BAND, backend=BACK), laws, 6000, nontrivial="all; class: what is compared"),
    Clause("unfinished", of(UNFINISHED), unfinished, 200, nontrivial="all"),
], rule="altitudes, bands, pressures and absorber amounts, any subset of them by position or keyword, against the published functions in another form; monotonicity of masses and beam",
    assumptions=["coefficients in lib/rest_ref.py are a correct copy of the publication", "cases whose published effective wavelength is not positive are not decided"])
