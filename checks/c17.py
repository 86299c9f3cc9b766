import warnings

from common import *

preload("numpy", "math")
BACK = gen.sampled(["numpy", "math"])
PN = ["Ps", "Ts", "Tl", "Hb", "R", "g", "M"]
DEF = dict(Ps=101325.0, Ts=288.15, Tl=-0.0065, Hb=0.0, R=8.31432, g=9.80665, M=0.0289644)


def loud(f, *a, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = call(getattr(f, "__name__", "call"), f, *a, **kw)
    return r, [x for x in w if "elevation" in str(x.message).lower() or "11" in str(x.message)]


def pressure(case):
    L = lib.get(case["backend"])
    h = case["h"]
    p = {k: case["v"][k] for k in case["given"]}
    full = dict(DEF, **p)
    T = full["Ts"] + full["Tl"] * (h - full["Hb"])
    if T < 20.0:
        return None
    n = case["pos"]
    args, kw = [], dict(p)
    for k in PN[:n]:            # the first n positionally
        args.append(full[k])
        kw.pop(k, None)
    r, w = loud(L.elevation.get_pressure_with_elevation, h, *args, **kw)
    want = ref.pressure_at(h, **full)
    near("pressure at %r m with %r" % (h, p), r, want, 1e-9 * max(1.0, abs(want)))
    if h > 11000 and not w:
        fail("no warning at %r m" % h)
    if h <= 11000 and w:
        fail("warning at %r m: %s" % (h, w[0].message))
    return "%s, %s" % ("above 11 km" if h > 11000 else "below base" if h < full["Hb"] else "layer", "defaults" if not (p or n) else "%d given" % len(set(p) | set(PN[:n])))


def temperature(case):
    L = lib.get(case["backend"])
    h = case["h"]
    p = {k: case["v"][k] for k in case["given"] if k in ("Ts", "Tl")}
    full = dict(DEF, **p)
    args, kw = [], dict(p)
    for k in ("Ts", "Tl")[:case["pos"]]:
        args.append(full[k])
        kw.pop(k, None)
    r = call("get_temperature_with_elevation", L.elevation.get_temperature_with_elevation, h, *args, **kw)
    near("temperature at %r m with %r" % (h, p), r, full["Ts"] + full["Tl"] * h, 1e-9)
    return "%d given" % len(p)


def laws(case):
    L = lib.get(case["backend"])
    P, T = L.elevation.get_pressure_with_elevation, L.elevation.get_temperature_with_elevation
    a, b = sorted((case["h"], case["h2"]))
    k = case["k"]
    pa, pb = call("pressure", P, a), call("pressure", P, b)
    if b - a > 1e-6 and not pa > pb:
        fail("pressure %r at %r m, %r at %r m" % (pa, a, pb, b))
    near("pressure at the base height", call("pressure", P, 0.0), 101325.0, 1e-6)
    near("pressure at its base height %r" % a, call("pressure", P, a, Hb=a), 101325.0, 1e-6)
    near("temperature at sea level", call("temperature", T, 0), 288.15, 1e-9)
    near("pressure for %r times the base pressure" % k, call("pressure", P, b, Ps=101325.0 * k), pb * k, 1e-9 * pb * k)
    # two layers: up to a, then with a's values from a to b, is the same as straight to b
    ta = call("temperature", T, a)
    near("pressure in two layers", call("pressure", P, b, pa, ta, Hb=a), pb, 1e-8 * pb)
    # hydrostatic equilibrium: dp = - rho g dh
    m = (a + b) / 2
    dp = (call("pressure", P, m + 1.0) - call("pressure", P, m - 1.0)) / 2.0
    rho = call("pressure", P, m) * DEF["M"] / (DEF["R"] * call("temperature", T, m))
    near("pressure gradient at %r m" % m, dp, -rho * DEF["g"], 1e-4 * abs(dp))
    return None if a == b else "below sea level" if a < 0 else "above"


H = gen.one_of(gen.integers(-430, 11000).map(float), gen.integers(-4300, 110000).map(lambda k: k / 10.0), gen.integers(-430, 25000), gen.integers(10990, 11010),
               gen.sampled([0, 0.0, 11000, 11000.0, 11000.1, 10999.9, -430, 8848, 1000, 5000]))
INSIDE = gen.one_of(gen.integers(-430, 11000).map(float), gen.integers(-4300, 110000).map(lambda k: k / 10.0))
V = fd(Ps=gen.one_of(gen.integers(10000, 120000).map(float), gen.integers(10000, 120000).map(float), gen.sampled([1.0, 29.92, 760.0, 1013.25, 1000.0, 101.325, 200000.0, 0.5, 0.0])), Ts=gen.integers(2000, 3300).map(lambda k: k / 10.0),
       Tl=gen.one_of(gen.integers(-95, -5), gen.integers(5, 60)).map(lambda k: k / 10000.0), Hb=gen.integers(-430, 9000).map(float),
       R=gen.integers(80, 90).map(lambda k: k / 10.0), g=gen.integers(90, 105).map(lambda k: k / 10.0), M=gen.integers(20, 45).map(lambda k: k / 1000.0))
CELSIUS = gen.one_of(gen.just(None), gen.just(None), gen.integers(-60, 60), gen.integers(-600, 600).map(lambda k: k / 10.0), gen.sampled([0, 0.0]))      # the lapse rate is the same in Celsius
GIVEN = gen.st.lists(gen.sampled(PN), unique=True, max_size=4).map(sorted)
CHECK = Check("C17", [
    Clause("pressure", fd(h=H, v=V, given=GIVEN, pos=gen.sampled([0, 0, 1, 2, 3, 7]), backend=BACK), pressure, 26000,
           nontrivial="the layer's temperature is above 20 K there; class: height, number of parameters given",
           examples=[dict(h=h, v=dict(DEF), given=[], pos=0, backend="math") for h in (0, 11000, 11000.5, -430, 20000)]),
    Clause("temperature", fd(h=H, v=V.flatmap(lambda v: CELSIUS.map(lambda c: v if c is None else dict(v, Ts=c))), given=GIVEN, pos=gen.sampled([0, 0, 1, 2]), backend=BACK), temperature, 10000, nontrivial="all; class: parameters given"),
    Clause("laws", fd(h=INSIDE, h2=INSIDE, k=gen.integers(1, 40).map(lambda k: k / 16.0), backend=BACK), laws, 8000, nontrivial="two different heights"),
], rule="heights from the Dead Sea to above 11 km, any subset of the parameters given by position or keyword; the barometric formula in another form, splitting a layer in two, "
        "and hydrostatic equilibrium as oracles")
