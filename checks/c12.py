import numpy as np
from common import *
import c19

preload("numpy")
L = lib.get("numpy")
defects()
SHAPES = SHAPES_ALL = {  # broadcastable groups
    "vector": [(3,), (1,), ()],
    "long": [(17,), ()],
    "matrix": [(2, 3), (3,), (2, 1), (1, 3), ()],
    "outer": [(3, 1), (1, 4), (4,), ()],
    "cube": [(2, 1, 2), (2, 1), (1, 2, 1), (2,), ()],
    "one": [(1,), (1, 1), ()],
    "empty": [(0,), (1,), ()],
    "zero-d": [("0d",), ()],
}
LARGE = {"1009": [(1009,), (1,)], "4099": [(4099,), ()], "16385": [(16385,), ()], "matrix": [(37, 41), (41,), (37, 1)], "tall": [(1025, 3), (3,), (1025, 1)], "deep": [(2,) * 10, (2,)],
         "256": [(256,)], "65": [(65, 1), (1, 64)]}
FACING = {"scalar": [()], "vector": [(24,)], "matrix": [(5, 6)], "cube": [(2, 3, 4)], "deep": [(2, 2, 1, 5)], "zero-d": [("0d",)]}
EPOCH = dt.datetime(1970, 1, 1, tzinfo=gen.UTC)

# name: (module, parameters in order, kinds); 'when' scalar datetime, 'times' datetime64 array or scalar
FUNCS = {
    "get_position": ("solar", ("lat", "lon", "when", "el", "T", "P")),
    "get_altitude": ("solar", ("lat", "lon", "when", "el", "T", "P")),
    "get_azimuth": ("solar", ("lat", "lon", "when", "el")),
    "get_topocentric_position": ("solar", ("lat", "lon", "when", "el")),
    "get_altitude_fast": ("solar", ("lat", "lon", "times")),
    "get_azimuth_fast": ("solar", ("lat", "lon", "times")),
    "get_hour_angle": ("solar", ("times", "lon")),
    "get_solar_time": ("solar", ("lon", "times")),
    "get_radiation_direct": ("radiation", ("times", "alt")),
    "get_air_mass_ratio": ("radiation", ("alt",)),
    "get_refraction_correction": ("solar", ("P", "T", "alt")),
    "get_incidence_angle": ("solar", ("zen", "slope", "az", "az2")),
    "get_flattened_latitude": ("solar", ("lat",)),
    "get_projected_radial_distance": ("solar", ("el", "lat")),
    "get_projected_axial_distance": ("solar", ("el", "lat")),
    "get_topocentric_elevation_angle": ("solar", ("lat", "dec", "az")),
    "get_topocentric_azimuth_angle": ("solar", ("az", "lat", "dec")),
    "get_topocentric_zenith_angle": ("solar", ("lat", "dec", "az", "P", "T")),
    "get_local_hour_angle": ("solar", ("az", "lon", "az2")),
    "get_temperature_with_elevation": ("elevation", ("el",)),
    "solarelevation_function_clear": ("util", ("lat", "lon", "when", "T", "P", "el")),
    "solarelevation_function_overcast": ("util", ("lat", "lon", "when", "el", "T", "P")),
    "diffuse_ratio": ("util", ("pos", "pos2")),
}
# the tests and the documentation promise arrays for the places, and times for the fast functions
MAIN = ["get_position", "get_altitude", "get_azimuth", "get_altitude_fast", "get_azimuth_fast", "get_radiation_direct"]
MILLI = lambda lo, hi: gen.integers(lo * 1000, hi * 1000).map(lambda k: k / 1000.0)
KIND = {
    "lat": gen.lats(), "lon": gen.lons(), "el": gen.elevations(), "T": gen.temperatures(True), "P": gen.pressures(True),
    "alt": gen.one_of(MILLI(-90, 90), gen.sampled([0.0, -0.0, 90.0, -90.0, -5.11, -0.83337, 1e-6, -1e-6, -0.8333, -0.8334]), MILLI(-2, 2)),
    "zen": MILLI(0, 180), "slope": MILLI(0, 180), "az": MILLI(-360, 720), "az2": MILLI(-360, 720), "dec": MILLI(-24, 24),
    "pos": MILLI(1, 1000), "pos2": MILLI(1, 1000),
}
MULTI = {"get_position": 2, "get_topocentric_position": 2}
ANGLES = {("get_position", 0), ("get_azimuth", 0), ("get_azimuth_fast", 0), ("get_topocentric_azimuth_angle", 0), ("get_local_hour_angle", 0)}


def stamp(us, unit):
    """datetime64 of an instant, in some unit of at least a minute's resolution"""
    return np.datetime64(us, "us").astype("datetime64[%s]" % unit)


def make(param, spec):
    """spec: {"shape": [...], "v": [values], "int": bool, "unit": str, "layout": "C"|"F"|"strided"|"ro"}; scalars are plain"""
    vals = spec["v"]
    shape = spec.get("shape")
    if shape is not None and shape != "0d":
        shape = tuple(shape)
    if param == "times":
        us = [ref.micros_j2000(when(v)) + 946728000 * 10 ** 6 for v in vals]
        if shape is None:
            return when(vals[0])
        if shape == "0d":
            return np.array(stamp(us[0], spec["unit"]))
        a = np.array([stamp(u, spec["unit"]) for u in us], dtype="datetime64[%s]" % spec["unit"])
    elif param == "when":
        return when(vals[0])
    else:
        if shape is None:
            return int(round(vals[0])) if spec["int"] else vals[0]
        if shape == "0d":
            return np.array(vals[0])
        a = np.array([round(v) for v in vals], dtype=np.int32 if len(vals) % 2 else np.int64) if spec["int"] else np.array(vals, dtype=float)
    size = int(np.prod(shape)) if shape else 1
    a = np.resize(a, size) if size else a[:0]
    a = a.reshape(shape)
    if spec["layout"] == "F":
        a = np.asfortranarray(a)
    elif spec["layout"] == "strided" and a.ndim:
        b = np.repeat(a, 2, axis=-1)
        a = b[..., ::2]
    elif spec["layout"] == "swapped":       # the other byte order
        a = a.astype(a.dtype.newbyteorder("S"))
    elif spec["layout"] == "reversed" and a.ndim:
        a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    elif spec["layout"] == "overlap" and a.ndim and a.size:    # a view in which all rows share their memory
        a = np.broadcast_to(a[:1], a.shape)
    if spec["layout"] == "ro":
        a.setflags(write=False)
    return a


def scalar_of(param, x):
    """the scalar that element x of an array stands for"""
    if param == "times":
        if isinstance(x, dt.datetime):
            return x
        return EPOCH + dt.timedelta(microseconds=int(x.astype("datetime64[us]").astype(np.int64)))
    if isinstance(x, np.generic):
        return x.item()
    return x


def arrays(case):
    name = case["f"]
    mod, params = FUNCS[name]
    args = [make(p, case["a"][p]) for p in params]
    before = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    desc = "%s(%s)" % (name, ", ".join("%s:%s%s" % (p, getattr(a, "dtype", ""), getattr(a, "shape", "scalar")) for p, a in zip(params, args)))
    f = getattr(getattr(L, mod), name)
    with np.errstate(all="ignore"):
        got = call(desc, f, *args)
    for p, a, b in zip(params, args, before):
        if isinstance(a, np.ndarray) and (a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b)):
            fail("%s changed its argument %s" % (desc, p))
    nd = [a for a in args if isinstance(a, np.ndarray)]
    shape = np.broadcast_shapes(*[a.shape for a in nd]) if nd else ()
    parts = got if name in MULTI else (got,)
    if name in MULTI and len(parts) != 2:
        fail("%s returns %r" % (desc, got))
    # a result that does not depend on an argument need not have its shape
    outs = []
    for i, g in enumerate(parts):
        if shape and not isinstance(g, np.ndarray) and not (name in MULTI or np.ndim(g) == 0):
            fail("%s: the result is a %s, not an array" % (desc, type(g).__name__))
        g = np.asarray(g)
        dep = shape
        if g.shape != dep:
            if name == "get_topocentric_position" or name == "get_position" and i == 0:
                try:        # azimuth does not see pressure and temperature; a declination may not see the longitude
                    if name == "get_position":
                        need = np.broadcast_shapes(*[a.shape for p, a in zip(params, args) if isinstance(a, np.ndarray) and p not in ("T", "P")])
                        if np.broadcast_shapes(g.shape, need) != g.shape:
                            raise ValueError
                    g = np.broadcast_to(g, dep)
                except ValueError:
                    fail("%s: shape %r, expected %r" % (desc, g.shape, dep))
            else:
                fail("%s: shape %r, expected %r" % (desc, g.shape, dep))
        if g.dtype.kind != "f" and g.dtype.kind != "i":
            fail("%s: results of type %s" % (desc, g.dtype))
        outs.append(g)
    if not nd:
        return None
    bs = [np.broadcast_to(a, shape) if isinstance(a, np.ndarray) else None for a in args]
    n = int(np.prod(shape)) if shape else 1
    idx = list(np.ndindex(*shape)) if shape else [()]
    memo = {}
    if n > 6 and not case.get("all"):
        k = case["pick"]
        idx = sorted(set([idx[0], idx[-1]] + [idx[(k * 7 + j * 5) % n] for j in range(4)]))
    for ix in idx:
        sc = [scalar_of(p, b[ix]) if b is not None else a for p, b, a in zip(params, bs, args)]
        key = tuple(map(str, sc))
        if key not in memo:
            with np.errstate(all="ignore"):
                want = call("%s%r" % (name, tuple(sc)), f, *sc)
            memo[key] = (want if name in MULTI else (want,)), [tolerance(name, i, sc, params, want if name in MULTI else (want,)) for i in range(len(outs))]
        want, tols = memo[key]
        for i, w in enumerate(want):
            g = float(outs[i][ix])
            w = float(w)
            if g == w or g != g and w != w:
                continue
            d = ref.angdiff(g, w) if (name, i) in ANGLES else abs(g - w)
            tol = tols[i]
            if not d <= tol * max(1.0, abs(w) if (name, i) not in ANGLES else 1.0):
                fail("%s: element %r is %r, for the scalars %r it is %r" % (desc, ix, g, tuple(map(str, sc)), w))
    kinds = {a.shape for a in nd}
    if n == 0:
        return None
    if not case.get("all"):         # the same bytes in another shape
        with np.errstate(all="ignore"):
            more = call(desc + " with one more dimension", f, *[a[..., None] if isinstance(a, np.ndarray) else a for a in args])
        for i, g in enumerate(more if name in MULTI else (more,)):
            if np.shape(g) != (np.shape(parts[i]) + (1,) if np.ndim(parts[i]) or np.shape(g) else ()):
                fail("%s: with one more dimension the shape is %r instead of %r" % (desc, np.shape(g), np.shape(parts[i]) + (1,)))
            g = np.broadcast_to(g, shape + (1,))
            for ix in idx:
                key = tuple(str(scalar_of(p, b[ix]) if b is not None else a) for p, b, a in zip(params, bs, args))
                w, x = float(memo[key][0][i]), float(g[ix + (0,)])
                d = ref.angdiff(x, w) if (name, i) in ANGLES else abs(x - w)
                if x != w and not (x != x and w != w) and not d <= memo[key][1][i] * max(1.0, abs(w) if (name, i) not in ANGLES else 1.0):
                    fail("%s: with one more dimension, element %r is %r, for the scalars %r it is %r" % (desc, ix, x, key, w))
    return "%s %s" % (name, "broadcast" if len(kinds) > 1 else "one shape" if nd and len(nd) > 1 else "one array")


def tolerance(name, i, sc, params, want):
    """vectorised sines may differ in the last digit; near the zenith that is magnified"""
    if name in ("get_altitude_fast", "get_topocentric_elevation_angle", "get_altitude", "get_incidence_angle", "get_topocentric_zenith_angle") or name == "get_position" and i == 1:
        return 5e-6 if name == "get_incidence_angle" else 2e-6
    if name == "get_position":
        return 1e-9 / max(1e-7, math.cos(math.radians(min(90.0, abs(float(want[1]))))))
    if name == "get_azimuth_fast":
        h = ref.fast_horizontal(sc[0], sc[1], sc[2])[2]
        return 3e-6 / max(h, 1e-6)
    if name == "get_azimuth":
        c = float(L.solar.get_altitude(sc[0], sc[1], sc[2], sc[3], pressure=0.0))
        return 1e-9 / max(1e-7, math.cos(math.radians(min(90.0, abs(c)))))
    if name == "get_topocentric_azimuth_angle":
        _, _, h = ref.horizon_frame(sc[1], sc[2], sc[0])
        return 1e-9 / max(h, 1e-7)
    return 1e-9


def aligned(case):
    """the everyday pipeline: fast altitude of an array of times and places, then radiation, against the scalars one by one"""
    n = len(case["rows"])
    rows = case["rows"]
    t64 = np.array([stamp(ref.micros_j2000(when(r["t"])) + 946728000 * 10 ** 6, "s") for r in rows], dtype="datetime64[s]")
    lat, lon = np.array([r["lat"] for r in rows]), np.array([r["lon"] for r in rows])
    alt = call("get_altitude_fast", L.solar.get_altitude_fast, lat, lon, t64)
    rad = call("get_radiation_direct", L.radiation.get_radiation_direct, t64, alt)
    if np.shape(alt) != (n,) or np.shape(rad) != (n,):
        fail("shapes %r and %r for %d rows" % (np.shape(alt), np.shape(rad), n))
    lit = 0
    for i, r in enumerate(rows):
        d = EPOCH + dt.timedelta(seconds=int(t64[i].astype(np.int64)))
        a = ref.fast_horizontal(r["lat"], r["lon"], d)[1]
        near("fast altitude of row %d" % i, alt[i], a, 3e-6)
        near("radiation of row %d" % i, rad[i], ref.radiation_direct(ref.yday(d), float(alt[i])), 1e-7)
        lit += a > 0
    return "day and night" if 0 < lit < n else "day" if lit else "night"


SIZES = [65536, 65537, 99991, 131073, 250007]
RANGE = {"lat": (-90, 90), "lon": (-360, 360), "el": (-430, 9000), "T": (200, 320), "P": (0, 105000), "alt": (-90, 90), "zen": (0, 180), "slope": (0, 180), "az": (-360, 720), "az2": (-360, 720),
         "dec": (-24, 24), "pos": (1, 1000), "pos2": (1, 1000)}


def huge(case):
    """arrays of many thousands of elements: piece by piece the same, and some elements against the scalars"""
    name, n = case["f"], case["n"]
    mod, params = FUNCS[name]
    rng = np.random.default_rng(case["seed"])
    args, many = [], 0
    for k, p in enumerate(params):
        if p == "when" or p == "times" and not case["mask"] >> k & 1:
            args.append(when(case["t"]))
        elif p == "times":
            args.append((np.datetime64("1950-01-01T00:00:00", "s") + rng.integers(0, 3155760000, n).astype("timedelta64[s]")).astype("datetime64[s]"))
            many += 1
        elif case["mask"] >> k & 1 or not many and k == len(params) - 1:
            args.append(rng.uniform(RANGE[p][0], RANGE[p][1], n))
            many += 1
        else:
            args.append(float(rng.uniform(*RANGE[p])))
    if not many:
        return None
    f = getattr(getattr(L, mod), name)
    two = case["two"] and n % 7 == 0
    desc = "%s of %d elements (arguments %s)" % (name, n, [np.shape(a) for a in args])
    whole = [np.reshape(a, (7, n // 7)) if two and isinstance(a, np.ndarray) else a for a in args]
    with np.errstate(all="ignore"):
        got = call(desc, f, *whole)
    got = got if name in MULTI else (got,)
    shape = (7, n // 7) if two else (n,)
    cuts = [0, 1, 4097, n // 3, n - 3, n] if many else []
    pick = sorted({0, 1, 4095, 4096, 32768, 49999, 50000, 65535, n - 65536, n - 4096, n - 2, n - 1} | {int(i) for i in rng.integers(0, n, 4)})
    outs = []
    for i, g in enumerate(got):
        if np.shape(g) != shape and not (name in MULTI and np.size(g) < n):
            fail("%s: a result of shape %r" % (desc, np.shape(g)))
        outs.append(np.broadcast_to(g, shape).reshape(n))
    for a, b in zip(cuts, cuts[1:]):
        with np.errstate(all="ignore"):
            part = call(desc, f, *[x[a:b] if isinstance(x, np.ndarray) else x for x in args])
        for i, (g, w) in enumerate(zip(outs, part if name in MULTI else (part,))):
            w = np.broadcast_to(w, (b - a,))
            d = np.abs(g[a:b] - w)
            if (name, i) in ANGLES:
                d = np.minimum(d, 360 - d)
            d[g[a:b] == w] = 0
            bad = ~(d <= 1e-4 * np.maximum(1, np.abs(w))) & ~(np.isnan(g[a:b]) & np.isnan(w))
            if bad.any() and not (name, i) in ANGLES:
                k = int(np.argmax(bad))
                fail("%s: element %d is %r, and %r in a piece of the array" % (desc, a + k, g[a + k], w[k]))
    for k in pick:
        sc = [scalar_of(p, a[k]) if isinstance(a, np.ndarray) else a for p, a in zip(params, args)]
        with np.errstate(all="ignore"):
            want = call("%s%r" % (name, tuple(sc)), f, *sc)
        want = want if name in MULTI else (want,)
        for i, w in enumerate(want):
            g, w = float(outs[i][k]), float(w)
            d = ref.angdiff(g, w) if (name, i) in ANGLES else abs(g - w)
            if g != w and not (g != g and w != w) and not d <= tolerance(name, i, sc, params, want) * max(1.0, abs(w) if (name, i) not in ANGLES else 1.0):
                fail("%s: element %d is %r, for the scalars %r it is %r" % (desc, k, g, tuple(map(str, sc)), w))
    return name if many else None


DAY = gen.integers(1, 366)
MORE = {     # functions of a day of the year and the like, with the range of each argument
    "get_declination": ("solar", (DAY,)), "equation_of_time": ("solar", (DAY,)), "get_optical_depth": ("radiation", (DAY,)), "get_apparent_extraterrestrial_flux": ("radiation", (DAY,)),
    "get_nutation": ("solar", (c19.JCE,)), "diffuse_transmittance": ("util", (gen.integers(0, 100).map(lambda k: k / 10.0),)),
    "get_topocentric_sun_declination": ("solar", (c19.DEC, c19.PHI, c19.XI, c19.SMALL, c19.ANY)),
}
MORE.update({n: (s.mod, s.gens) for n, s in c19.STAGES.items()})


def element(a, ix):
    return {k: element(v, ix) for k, v in a.items()} if isinstance(a, dict) else float(a[ix]) if a.dtype.kind == "f" else int(a[ix])


def stages(case):
    """the published formulas with arrays of their arguments"""
    name, shape = case["f"], tuple(case["shape"])
    mod, gens = MORE[name]
    f = getattr(getattr(L, mod), name)
    args, full = [], []

    def lay(vals, k):
        """an array (or a plain number) of the values, in a shape that broadcasts to the whole"""
        kind = case["how"][k % len(case["how"])]
        if kind == "scalar":
            v = vals[0]
            return v, np.full(shape, v)
        if kind == "days" and all(v == int(v) for v in vals):
            vals = [int(v) for v in vals]
        own = tuple(1 if case["ones"] >> (k * 3 + j) & 1 and kind == "thin" else n for j, n in enumerate(shape))
        size = int(np.prod(own))
        a = np.resize(np.array(vals), size).reshape(own)
        if kind == "strided":
            a = np.repeat(a, 2, axis=-1)[..., ::2]
        if kind == "ro":
            a.setflags(write=False)
        return a, np.broadcast_to(a, shape)

    for k, vals in enumerate(case["a"]):
        if name == "get_coeff" and k == 1:
            args.append(vals)
            full.append(None)
        elif isinstance(vals[0], dict):
            pair = {q: lay([v[q] for v in vals], k + j) for j, q in enumerate(sorted(vals[0]))}
            args.append({q: p[0] for q, p in pair.items()})
            full.append({q: p[1] for q, p in pair.items()})
        else:
            a, b = lay(vals, k)
            args.append(a)
            full.append(b)
    leaves = [x for a in args for x in (a.values() if isinstance(a, dict) else [a]) if isinstance(x, np.ndarray)]
    if not leaves:
        return None
    out = np.broadcast_shapes(*[x.shape for x in leaves])
    copies = [x.copy() for x in leaves]
    desc = "%s of arrays %r" % (name, case["a"])
    with np.errstate(all="ignore"):
        got = call(desc, f, *args)
    if not all(np.array_equal(x, y) for x, y in zip(leaves, copies)):
        fail("%s changed its arguments" % desc)
    got = got if isinstance(got, dict) else {"result": got}
    stage_ = c19.STAGES.get(name)
    for key, g in got.items():
        # of a pair of nutations, one may not matter
        if np.shape(g) != out and not (any(isinstance(a, dict) for a in args) and np.broadcast_shapes(np.shape(g), out) == out):
            fail("%s: %s has shape %r, expected %r" % (desc, key, np.shape(g), out))
        g = np.broadcast_to(g, shape)
        size = int(np.prod(shape))
        flat_ = range(size) if size <= 12 else sorted({0, 1, 2, 3, size - 1, size - 2, size - 3, size - 4} | {(case["pick"] + j) % size for j in range(4)} | {k * size // 17 + case["pick"] % 5 for k in range(17)
                                                      if size > 1000} | {k for b in (100, 256, 1000, 1024, 4096, 32768, 50000, 65536) for k in (b - 1, b) if size > 1000 and k < size})
        for ix in [tuple(int(j) for j in np.unravel_index(k, shape)) for k in flat_]:
            sc = [case["a"][k] if b is None else element(b, ix) for k, b in enumerate(full)]
            with np.errstate(all="ignore"):
                w = call("%s%r" % (name, tuple(sc)), f, *sc)
            w = float(w[key] if isinstance(w, dict) else w)
            x = float(g[ix])
            tol = 1e-9 + 1e-11 * abs(w)
            if stage_ is not None and stage_.weight:
                tol = min(tol / stage_.weight(w, sc), 1e-5 if name != "get_topocentric_azimuth_angle" else 10.0)
            if name == "get_coeff":
                tol += 1e-10 * sum(abs(t[0]) * abs(sc[0]) ** k for k, q in enumerate(sc[1]) for t in q)
            d = abs(x - w) if stage_ is None or stage_.kind == "n" else ref.angdiff(x, w)
            if x != w and not (x != x and w != w) and not d <= tol:
                fail("%s: element %r of %s is %r, for the scalars %r it is %r" % (desc, ix, key, x, sc, w))
    return name


@gen.st.composite
def stages_case(draw):
    name = draw(gen.sampled(sorted(MORE)))
    lists = [draw(g) if name == "get_coeff" and k == 1 else draw(gen.st.lists(g, min_size=1, max_size=5)) for k, g in enumerate(MORE[name][1])]
    return {"f": name, "a": lists, "shape": list(draw(gen.sampled([(5,), (3,), (2, 3), (1,), (12,), (2, 1, 3), (4, 4), (40,), (1500,), (37, 41), (70001,), (9, 8, 27)]))),
            "how": draw(gen.st.lists(gen.sampled(["array", "array", "days", "scalar", "thin", "strided", "ro"]), min_size=1, max_size=4)), "ones": draw(gen.integers(0, 2 ** 12)), "pick": draw(gen.integers(0, 99))}


UNITS = gen.sampled(["s", "m", "ms", "us", "h", "s", "ns"])
LAYOUT = gen.sampled(["C", "C", "C", "F", "strided", "ro", "swapped", "reversed", "overlap"])


@gen.st.composite
def array_case(draw, groups=SHAPES, names=None, most=6):
    SHAPES = groups
    name = draw(gen.sampled(names) if names else gen.one_of(gen.sampled(MAIN), gen.sampled(sorted(FUNCS))))
    params = FUNCS[name][1]
    group = SHAPES[draw(gen.sampled(sorted(SHAPES)))]
    a = {}
    for p in params:
        if p == "when":
            a[p] = {"v": [draw(gen.whens())]}
            continue
        shape = draw(gen.sampled(group + [None]))
        if shape == () or shape is None:
            shape = None
        elif shape == ("0d",):
            shape = "0d"
        k = 1 if shape is None or shape == "0d" else int(np.prod(shape))
        if p == "times":
            unit = draw(UNITS)
            # datetime64[ns] covers 1678..2262
            el = gen.utcs("modern") if unit == "ns" else gen.utcs()
            v = draw(gen.st.lists(el, min_size=1, max_size=min(k, most) or 1))
            a[p] = {"v": v, "shape": shape, "unit": unit, "layout": draw(LAYOUT)}
        else:
            v = draw(gen.st.lists(KIND[p], min_size=1, max_size=min(k, most) or 1))
            a[p] = {"v": v, "shape": shape, "int": draw(gen.st.booleans()) and draw(gen.st.booleans()), "layout": draw(LAYOUT)}
    if name == "get_incidence_angle" and draw(gen.st.booleans()):    # facing the sun, or turned away from it
        a["slope"] = dict(a["zen"])
        a["az"], a["az2"] = ({"v": [v], "shape": None, "int": False, "layout": "C"} for v in draw(gen.sampled([(0.0, 180.0), (180.0, 0.0), (0.0, 0.0), (30.0, 210.0)])))
    return dict({"f": name, "a": a, "pick": draw(gen.integers(0, 100))}, **({"all": True} if groups is not SHAPES_ALL else {}))


ROW = fd(t=gen.utcs(), lat=gen.lats(), lon=gen.lons())
CHECK = Check("C12", [
    Clause("elementwise", array_case(), arrays, 9000, nontrivial="at least one argument is a non-empty array; class: function, how the shapes combine"),
    Clause("facing", array_case(FACING, ["get_incidence_angle"], 20), arrays, 1500, nontrivial="at least one argument is a non-empty array; half of the cases face the sun or turn away from it exactly; class: how the shapes combine"),
    Clause("large", array_case(LARGE), arrays, 320, nontrivial="at least one argument is a non-empty array; every element is compared; class: function, how the shapes combine"),
    Clause("huge", fd(f=gen.one_of(gen.sampled(MAIN), gen.sampled(sorted(FUNCS))), n=gen.sampled(SIZES + [70000]), seed=gen.integers(0, 10 ** 6), mask=gen.integers(0, 63), t=gen.whens(), two=gen.st.booleans()),
           huge, 160, 1600, examples=[dict(f=f, n=n, seed=7, mask=m, t="2021-06-01T12:00:00+00:00", two=False) for f in MAIN for n in (131073, 99991) for m in (63, 2)],
           nontrivial="an argument is an array; class: function"),
    Clause("stages", stages_case(), stages, 3000, nontrivial="an argument is an array; class: function"),
    Clause("pipeline", fd(rows=gen.st.lists(ROW, min_size=1, max_size=9)), aligned, 3000, nontrivial="all; class: rows by day or night"),
], rule="random shapes, memory layouts, integer and float types and datetime64 units, broadcast together, every element against the scalar call and, for the "
        "pipeline, against the reference models",
    assumptions=["vectorised and scalar sines may differ in the last digit"])
