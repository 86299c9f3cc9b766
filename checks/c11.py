from api import *
import c19
import c22

preload("numpy", "math", "blocked")
TIMED_NAMES = [e[1] for e in TIMED]
LOCAL_NAMES = [e[1] for e in LOCAL]
NUMPY, MATH, BLOCKED = lib.get("numpy"), lib.get("math"), lib.get("blocked")

# further functions of numbers: module, name, argument generators
D = gen.integers(1, 366)
DEG = gen.one_of(gen.integers(-90, 90).map(float), gen.integers(-90000, 90000).map(lambda k: k / 1000.0))
ANG = gen.one_of(gen.integers(0, 360).map(float), gen.integers(0, 360000).map(lambda k: k / 1000.0))
POS = gen.integers(1, 4000).map(lambda k: k / 1000.0)
BAND = gen.sampled(["high-frequency", "low-frequency"])
ALT0 = gen.one_of(gen.integers(0, 90).map(float), gen.integers(1, 90000).map(lambda k: k / 1000.0))
PLAIN = {
    "equation_of_time": ("solar", (D,)), "get_declination": ("solar", (D,)),
    "get_refraction_correction": ("solar", (gen.pressures(True), gen.temperatures(True), gen.one_of(DEG, gen.integers(-2000, 2000).map(lambda k: k / 1000.0)))),
    "get_incidence_angle": ("solar", (ANG, DEG, ANG, ANG)),
    "get_flattened_latitude": ("solar", (DEG,)),
    "get_topocentric_elevation_angle": ("solar", (DEG, DEG, ANG)),
    "get_topocentric_azimuth_angle": ("solar", (ANG, DEG, gen.integers(-89000, 89000).map(lambda k: k / 1000.0))),
    "get_projected_axial_distance": ("solar", (gen.elevations(), DEG)), "get_projected_radial_distance": ("solar", (gen.elevations(), DEG)),
    "get_air_mass_ratio": ("radiation", (DEG,)), "get_optical_depth": ("radiation", (D,)), "get_apparent_extraterrestrial_flux": ("radiation", (D,)),
    "get_pressure_with_elevation": ("elevation", (gen.integers(-400, 20000).map(float),)), "get_temperature_with_elevation": ("elevation", (gen.integers(-400, 20000).map(float),)),
    "get_broadband_direct_normal_irradiance": ("rest", (ALT0,)), "get_direct_normal_irradiance_by_band": ("rest", (BAND, ALT0)),
    "get_beam_broadband_irradiance": ("rest", (ALT0,)), "get_optical_mass_ozone": ("rest", (ALT0,)),
    "get_aerosol_transmittance": ("rest", (BAND, POS, POS)), "get_sky_albedo": ("rest", (BAND, POS, POS)),
    "get_aerosol_forward_scatterance_factor": ("rest", (ALT0,)),
}
# the stages of the algorithm and the parts of the REST2 model, with the generators of their own checks
for _n, _s in c19.STAGES.items():
    PLAIN.setdefault(_n, (_s.mod, _s.gens))
for _n, _p in c22.PARTS.items():
    PLAIN.setdefault(_n, ("rest", _p[0]))
PLAIN["get_nutation"] = ("solar", (c19.JCE,))
PLAIN["get_water_vapor_transmittance_coefficients"] = ("rest", (BAND, POS))
PLAIN["diffuse_transmittance"] = ("util", (POS,))
PLAIN["diffuse_ratio"] = ("util", (POS, POS))
PLAIN_NAMES = sorted(PLAIN)


def op_call():
    timed = gen.st.tuples(gen.just("t"), gen.sampled(TIMED_NAMES + LOCAL_NAMES + ["get_position", "get_altitude", "get_azimuth_fast", "get_altitude_fast", "get_radiation_direct"] * 2),
                          gen.whens(), others())
    plain = gen.sampled(PLAIN_NAMES).flatmap(lambda n: gen.st.tuples(gen.just("p"), gen.just(n), gen.st.tuples(*PLAIN[n][1])))
    return gen.one_of(timed, timed, plain)


def evaluate(L, op):
    """result or exception class"""
    with L.active():
        return evaluate_in(L, op)


def evaluate_in(L, op):
    try:
        if op[0] == "t":
            e = entry(op[1])
            d = when(op[2])
            return func(L, e)(*values(e, op[3], d))
        return getattr(getattr(L, PLAIN[op[1]][0]), op[1])(*op[2])
    except (ArithmeticError, ValueError) as x:
        return x
    except Exception as x:
        fail("%s raised %s: %s" % (op[1], type(x).__name__, x))


def numbers(v):
    """result as a list of numbers, date-times as seconds"""
    if isinstance(v, dt.datetime):
        return [v.timestamp(), v.utcoffset().total_seconds()]
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in numbers(v[k])]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in numbers(y)]
    return flat(v)


def compare(desc, op, a, b, tol):
    ea, eb = isinstance(a, Exception), isinstance(b, Exception)
    if ea or eb:
        # math raises where numpy returns inf or nan
        if ea and eb:
            return
        v = b if ea else a
        if not all(math.isfinite(x) for x in numbers(v)):
            return
        fail("%s: %r and %r" % (desc, a, b))
    fa, fb = numbers(a), numbers(b)
    st = c19.STAGES.get(op[1]) if op[0] == "p" else None
    if st and op[1] != "get_topocentric_azimuth_angle":
        x, y = fa[0], fb[0]
        t = tol * max(1.0, abs(x), abs(y)) if st.kind == "n" else tol
        if st.weight:
            t = max(t, min(1e-5, 1e-9 / st.weight(st.want(*op[2]), op[2])))
        if op[1] == "get_coeff":
            t += 1e-10 * sum(abs(q[0]) * abs(op[2][0]) ** k for k, g in enumerate(op[2][1]) for q in g)
        if op[1] == "get_topocentric_zenith_angle" and abs(ref.horizon_frame(*op[2][:3])[1] - ref.REFRACTION_CUTOFF) < 1e-6:
            return
        if not (abs(x - y) if st.kind == "n" else ref.angdiff(x, y)) <= t:
            fail("%s: %r and %r" % (desc, x, y))
        return
    if op[1] in ("get_azimuth", "get_azimuth_fast", "get_position", "get_topocentric_azimuth_angle"):
        tol = tol_near_zenith(op, tol)
    if op[1] == "get_topocentric_azimuth_angle":
        if ref.angdiff(fa[0], fb[0]) > tol:
            fail("%s: %r and %r" % (desc, a, b))
        return
    if op[1] in GAIN:
        tol = max(tol, 1e-6)
    same_result(desc, op[1], fa, fb, tol)


# these multiply the altitude (good to 1e-9 degree at best, far from the present) by up to some hundred
GAIN = {"diffuse_underclear", "diffuse_underovercast", "direct_underclear", "global_irradiance_clear", "global_irradiance_overcast"}


def tol_near_zenith(op, tol):
    """azimuths lose precision as 1/cos(altitude), the fast one (asin) near due east and west"""
    if op[1] == "get_topocentric_azimuth_angle":
        return 1e-6 if abs(abs(op[2][1]) - 90) < 1e-3 else tol * 100
    o = op[3]
    alt = ref.fast_horizontal(o["lat"], o["lon"], when(op[2]))[1]
    c = max(1e-7, math.cos(math.radians(min(90.0, abs(alt) + 2.0))) if abs(alt) < 87.5 else 1e-3)
    return max(tol, 2e-6 / c) if op[1] == "get_azimuth_fast" else tol / c


EDGE = {"get_altitude_fast": 2e-6, "get_altitude": 2e-6, "get_position": 2e-6, "get_topocentric_elevation_angle": 2e-6, "get_incidence_angle": 5e-6}


def edge_tol(op):
    return EDGE.get(op[1], 1e-9)


def history(case):
    """a copy that switches back and forth gives, at each call, what a copy that never switched gives"""
    S = lib.Lib(None)
    mode = "numpy"
    seen = set()
    for op in case["ops"]:
        if op[0] == "numpy":
            call("use_numpy", S.pkg.use_numpy)
            mode = "numpy"
            seen.add("n")
            continue
        if op[0] == "math":
            call("use_math", S.pkg.use_math)
            mode = "math"
            seen.add("m")
            continue
        r = evaluate(S, op)
        if isinstance(r, Exception) or op[0] == "t":
            pass
        pristine = NUMPY if mode == "numpy" else MATH
        w = evaluate(pristine, op)
        if isinstance(r, Exception) != isinstance(w, Exception) or isinstance(r, Exception) and type(r) is not type(w):
            fail("%s%r in %s mode after switching: %r, without: %r" % (op[1], tuple(op[2:]), mode, r, w))
        if not isinstance(r, Exception):
            same_result("%s%r in %s mode after switching" % (op[1], tuple(op[2:]), mode), op[1], numbers(r), numbers(w), 1e-11)
            if mode == "math":
                plain(r, op)
                wb = evaluate(BLOCKED, op)
                if isinstance(wb, Exception):
                    fail("%s%r: %r without numpy installed, %r in math mode" % (op[1], tuple(op[2:]), wb, r))
                same_result("%s%r in math mode and without numpy" % (op[1], tuple(op[2:])), op[1], numbers(r), numbers(wb), 1e-11)
        seen.add("c" + mode)
        cur = getattr(S.numeric, "current_mod", mode)
        if cur != mode:
            fail("numeric.current_mod is %r in %s mode" % (cur, mode))
    if {"n", "m"} <= seen and {"cnumpy", "cmath"} <= seen:
        return "both switched to and both called"
    return None if not seen & {"n", "m"} else "one backend switched to or called"


def plain(r, op):
    vals = r.values() if isinstance(r, dict) else r if isinstance(r, (tuple, list)) else (r,)
    for v in vals:
        if type(v) not in (float, int, bool, dt.datetime):
            fail("%s in math mode returns a %s, not a plain number" % (op[1], type(v).__name__))


def agree(case):
    op = case["op"]
    n, m, b = (evaluate(L, op) for L in (NUMPY, MATH, BLOCKED))
    compare("%s%r with numpy and with math" % (op[1], tuple(op[2:])), op, n, m, edge_tol(op))
    if isinstance(m, Exception) != isinstance(b, Exception):
        fail("%s%r in math mode: %r, without numpy installed: %r" % (op[1], tuple(op[2:]), m, b))
    if isinstance(m, Exception):
        return None
    same_result("%s%r in math mode and without numpy" % (op[1], tuple(op[2:])), op[1], numbers(m), numbers(b), 1e-11)
    plain(m, op)
    return op[1]


def fields(case):
    """the calendar fields each backend extracts"""
    d = when(case["t"])
    u = ref.utc(d)
    for L in (NUMPY, MATH, BLOCKED):
        for name, want in (("tm_yday", ref.yday(d)), ("tm_hour", u.hour), ("tm_min", u.minute)):
            f = getattr(L.numeric, name, None)
            if f is None:
                continue
            v = call("numeric.%s" % name, f, d)
            if int(v) != want:
                fail("numeric.%s(%s) is %r, expected %d" % (name, case["t"], v, want))
    x, y = case.get("xy", (0.0, 1.0))
    for c in (True, False, 1, 0, 0.5, 0.0):
        for L in (NUMPY, MATH, BLOCKED):
            if hasattr(L.numeric, "where"):
                v = call("numeric.where", L.numeric.where, c, x, y)
                if float(v) != (x if c else y):
                    fail("numeric.where(%r, %r, %r) is %r" % (c, x, y, v))
    return "other date" if u.date() != d.date() else "same date"


EXO = dict(lat=40.0, lon=-71.0, el=10.0, T=280.0, P=99000.0, TL=2.0, AM=2.0, TY=365, SC=1367.0, ghi=500.0, alt=-3.0)
SWITCH = gen.one_of(gen.just(["numpy"]), gen.just(["math"]))
EXT = "2016-12-31T23:59:59.5-05:00"
CHECK = Check("C11", [
    Clause("history", fd(ops=gen.st.lists(gen.one_of(SWITCH, op_call(), op_call()), min_size=3, max_size=14)), history, 700,
           nontrivial="the sequence switches to both backends and calls functions under both",
           examples=[dict(ops=[["math"], ["numpy"], ["t", n, EXT, EXO], ["math"], ["t", n, EXT, EXO], ["numpy"], ["t", n, EXT, EXO]]) for n in TIMED_NAMES + LOCAL_NAMES]),
    Clause("agreement", fd(op=op_call()), agree, 12000, nontrivial="both backends give a number; class: function",
           examples=[dict(op=["t", n, EXT, EXO]) for n in TIMED_NAMES + LOCAL_NAMES]),
    Clause("calendar_fields", fd(t=gen.one_of(gen.whens(), gen.boundary_utcs()), xy=gen.st.lists(gen.sampled([0.0, 1.0, -1.0, 90.0, 0.5, 0]), min_size=2, max_size=2)), fields, 8000, nontrivial="all"),
], rule="random sequences of backend switches and calls on a fresh copy, compared call by call with copies that never switched and one loaded without numpy",
    assumptions=["the math backend may raise an arithmetic error where numpy returns inf or nan"])
