"""C25: calls the type stubs allow are accepted and give what the stubs declare."""
import ast
import contextlib
import io
import os

import numpy as np
from common import *

MODS = ("constants", "elevation", "radiation", "simulate", "solar", "solartime", "util")


class Param:
    def __init__(self, name, ann, optional, kind):
        self.name, self.ann, self.optional, self.kind = name, ann, optional, kind


def parse(mod):
    path = os.path.join(lib.REPO, "pysolar", mod + ".pyi")
    try:
        tree = ast.parse(open(path, encoding="utf-8").read())
    except (OSError, SyntaxError) as e:
        fail("stub %s: %s" % (path, e))
    funs, consts = {}, {}
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            a = node.args
            pos = a.posonlyargs + a.args
            nreq = len(pos) - len(a.defaults)
            ps = [Param(p.arg, p.annotation, i >= nreq, "pos" if i < len(a.posonlyargs) else "any") for i, p in enumerate(pos)]
            ps += [Param(p.arg, p.annotation, d is not None, "kw") for p, d in zip(a.kwonlyargs, a.kw_defaults)]
            funs.setdefault(node.name, []).append((ps, node.returns))
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
            consts[node.target.id] = node.annotation
    return funs, consts


STUBS = {}


def stubs():
    if not STUBS:
        for m in MODS:
            STUBS[m] = parse(m)
    return STUBS


def name_of(t):
    return t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None


def args_of(t):
    s = t.slice
    return list(s.elts) if isinstance(s, ast.Tuple) else [s]


def text(t):
    return "nothing" if t is None else ast.unparse(t)


def kind_ok(v, t, deep=6):
    """value v is of the declared kind t"""
    if t is None:
        return True
    if isinstance(t, ast.Constant):
        if t.value is None:
            return v is None
        if isinstance(t.value, str):
            return kind_ok(v, ast.parse(t.value, mode="eval").body)
        return True
    if isinstance(t, ast.BinOp):
        return kind_ok(v, t.left) or kind_ok(v, t.right)
    if isinstance(t, ast.Subscript):
        n, a = name_of(t.value), args_of(t)
        if n == "Optional":
            return v is None or kind_ok(v, a[0])
        if n == "Union":
            return any(kind_ok(v, x) for x in a)
        if n in ("Tuple", "tuple"):
            if not isinstance(v, tuple):
                return False
            if len(a) == 2 and isinstance(a[1], ast.Constant) and a[1].value is Ellipsis:
                return all(kind_ok(x, a[0]) for x in v)
            return len(v) == len(a) and all(kind_ok(x, y) for x, y in zip(v, a))
        if n in ("List", "list"):
            return isinstance(v, list) and all(kind_ok(x, a[0]) for x in v)
        if n in ("Sequence", "Iterable"):
            return isinstance(v, (list, tuple, np.ndarray)) and all(kind_ok(x, a[0]) for x in v)
        if n in ("Dict", "dict", "Mapping"):
            return isinstance(v, dict) and all(kind_ok(x, a[0]) and kind_ok(y, a[1]) for x, y in v.items())
        if n in ("Iterator", "Generator", "Iterable"):
            return hasattr(v, "__next__") and all(kind_ok(x, a[0]) for x in itertools.islice(v, 40))
        if n == "Callable":
            if not callable(v):
                return False
            if isinstance(a[0], ast.List) and all(name_of(x) == "float" for x in a[0].elts):
                return kind_ok(v(*[0.17 + k for k in range(len(a[0].elts))]), a[1])
            return True
        return True
    n = name_of(t)
    if n == "float":
        return (isinstance(v, (float, int, np.floating, np.integer)) or isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind in "fi") and not isinstance(v, bool)
    if n == "int":
        return isinstance(v, (int, np.integer)) and not isinstance(v, bool)
    if n == "bool":
        return isinstance(v, (bool, np.bool_))
    if n == "str":
        return isinstance(v, str)
    if n == "datetime":
        return isinstance(v, dt.datetime)
    if n in ("ndarray", "array"):
        return isinstance(v, np.ndarray)
    if n == "generic":
        return isinstance(v, np.generic)
    if n in ("dict", "Dict"):
        return isinstance(v, dict)
    if n in ("list", "List"):
        return isinstance(v, list)
    if n in ("tuple", "Tuple"):
        return isinstance(v, tuple)
    return True


# ---------------------------------------------------------------- argument values
def value(name, ann, ty, r, mod):
    """an argument for a parameter; ty: plain numbers are ints when odd; r: generated numbers by kind"""
    key = name.lower()
    n = name_of(ann) if ann is not None else None
    if isinstance(ann, ast.Subscript):
        u = name_of(ann.value)
        if u == "Dict":
            return {"longitude": r["f"] * 0.004, "obliquity": r["g"] * 0.002}
        if u == "List":
            if "coeff" in key:
                return [[(1.0 + r["f"], 2.0, 3.0), (r["g"], 0.5, 6.0)], [(0.25, r["f"], 1.0)], [(0.125, 1.0, 0.0)]]
            return [k * r["f"] / 20.0 for k in range(361)]
        if u == "Union":
            alts = [name_of(x) for x in args_of(ann)]
            k = alts[r["i"] % len(alts)]
            x = 100.0 + 500 * r["f"] if "ghi" in key else 20.0 + 80 * r["g"]
            return {"ndarray": np.array([x, x + 1.0]), "array": np.array([x]), "generic": np.float64(x), "int": int(x)}.get(k, x)
    if n == "datetime":
        d = when(r["t"])
        if "end" in key:
            return d + dt.timedelta(minutes=r["i"] % 500)
        return d
    if n == "int":
        return 1 + r["i"] % 366
    table = {
        "latitude": 180 * r["f"] - 90, "longitude": 720 * r["g"] - 360, "elevation_angle": 180 * r["f"] - 90, "altitude": 180 * r["f"] - 90, "elevation": 9000 * r["g"],
        "temperature": 200 + 130 * r["f"], "pressure": 110000 * r["g"], "jme": 2 * r["f"] - 1, "jce": 20 * r["f"] - 10, "jd": 2.4e6 + 1e5 * r["f"],
        "julian_day": 2.4e6 + 1e5 * r["f"], "julian_ephemeris_day": 2.4e6 + 1e5 * r["f"], "julian_ephemeris_century": 20 * r["f"] - 10,
        "sun_earth_distance": 0.983 + 0.034 * r["f"], "radial": 0.2 + 0.79 * r["f"], "axial": 0.99 * r["f"], "parallax": 0.00245 * r["g"], "declination": 47 * r["f"] - 23.5,
        "obliquity": 23 + r["g"], "slope_orientation": 360 * r["g"] - 180, "slope": 90 * r["g"], "zenith": 180 * r["f"], "azimuth": 360 * r["g"], "hour_angle": 360 * r["g"], "sidereal": 360 * r["f"],
        "ascension": 360 * r["g"], "step_minutes": 13 + 90 * r["f"], "day": 1 + 365 * r["f"], "h": 30000 * r["f"], "tl": 1 + 5 * r["f"], "am": 1 + 8 * r["g"], "ty": 365 + r["g"],
        "sc": 1300 + 100 * r["g"], "ps": 90000 + 20000 * r["g"], "ts": 250 + 60 * r["f"], "hb": 1000 * r["g"], "r": 8.0 + r["g"], "g": 9.5 + r["f"], "m": 0.02 + 0.02 * r["g"], "ab_correction": -0.006 + 0.001 * r["f"],
    }
    if key == "tl" and mod == "elevation":
        return -0.004 - 0.004 * r["f"]
    if key in table:
        x = table[key]
    else:
        hit = [k for k in sorted(table, key=len, reverse=True) if len(k) > 2 and k in key]
        if "local_hour_angle" in key or "hour_angle" in key:
            hit = ["hour_angle"]
        elif "elevation_angle" in key:
            hit = ["elevation_angle"]
        elif key == "topocentric_zenith_angle":
            hit = ["zenith"]
        elif "parallax_sun_right" in key:
            hit = ["parallax"]
        elif "ascension" in key:
            hit = ["ascension"]
        x = table[hit[0]] if hit else 1.0 + r["f"]
    small = ("radial", "axial", "parallax", "m", "ab_correction", "obliquity", "sun_earth_distance", "jme", "step_minutes", "r", "g", "tl")
    if ty % 3 == 1 and n == "float" and key not in small and abs(x) >= 2 and not any(s in key for s in ("distance", "parallax", "obliquity")):
        return int(x)
    if ty % 3 == 2 and n == "float" and ty % 7 == 2:
        return np.float64(x)
    return float(x)


def near_result(a, b):
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(near_result(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(near_result(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all((a == b) | ((a != a) & (b != b))))
    if callable(a) and callable(b) or hasattr(a, "__next__"):
        return True
    return a == b or (a != a and b != b)


def call_case(case):
    L = lib.get(case["lib"])
    funs = [(m, f, k) for m in MODS for f in sorted(stubs()[m][0]) for k in range(len(stubs()[m][0][f]))]
    m, f, k = funs[case["fn"] % len(funs)]
    ps, ret = stubs()[m][0][f][k]
    g = getattr(getattr(L, m), f, None)
    if g is None:
        fail("the stub declares %s.%s, the module has none" % (m, f))
    vals = {p.name: value(p.name, p.ann, case["ty"] + i if case["ty"] else 0, case["r"], m) for i, p in enumerate(ps)}
    if f.startswith(("get_sunrise", "get_sunset", "get_transit")):       # there must be a sunrise
        vals = {n: v * 0.6 if "latitude" in n else v for n, v in vals.items()}
    # positional prefix, then a subset of the optional ones by keyword, in any order
    npos = case["npos"] % (sum(p.kind != "kw" for p in ps) + 1)
    npos = max(npos, sum(p.kind == "pos" and not p.optional for p in ps))
    pos = [vals[p.name] for p in ps[:npos]]
    rest = [p for i, p in enumerate(ps[npos:]) if not p.optional or (p.kind != "pos" and case["mask"] >> i & 1)]
    given = ps[:npos] + rest
    if case["rev"]:
        rest = rest[::-1]
    kw = {p.name: vals[p.name] for p in rest}
    show = "%s.%s(%s)" % (m, f, ", ".join([repr(v) for v in pos] + ["%s=%r" % i for i in kw.items()]))
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        v = invoke(show, g, pos, kw)
        if not declared(show, v, ret):
            fail("%s gives %r, the stub declares %s" % (show, v, text(ret)))
        # the same arguments, another split
        other = [p for p in given if p.kind != "pos"]
        if f not in ("solar_test", "elevation_test"):
            w = invoke(show + " by keyword", g, [vals[p.name] for p in given if p.kind == "pos"], {p.name: vals[p.name] for p in other})
            if not near_result(v, w):
                fail("%s gives %r, by keyword %r" % (show, v, w))
    return "%s: %s" % (m, "no parameters" if not ps else "all positional" if not kw else "all keywords" if not pos else "mixed")


def declared(show, v, ret):
    try:
        return kind_ok(v, ret)
    except (ZeroDivisionError, OverflowError):
        return True
    except Exception as e:
        fail("using the result of %s raised %s: %s" % (show, type(e).__name__, e))


def invoke(show, g, pos, kw):
    try:
        return g(*pos, **kw)
    except (ZeroDivisionError, OverflowError):
        return float("nan")
    except Exception as e:
        fail("%s raised %s: %s" % (show, type(e).__name__, e))


def const_case(case):
    L = lib.get(case["lib"])
    names = [(m, c) for m in MODS for c in sorted(stubs()[m][1])]
    m, c = names[case["fn"] % len(names)]
    mod = getattr(L, m)
    if not hasattr(mod, c):
        fail("the stub declares %s.%s, the module has none" % (m, c))
    if case["npos"] & 1 and m == "constants":
        mod.get_aberration_coeffs()
    v = getattr(mod, c)
    if not kind_ok(v, stubs()[m][1][c]):
        fail("%s.%s is %.200r, the stub declares %s" % (m, c, v, text(stubs()[m][1][c])))
    return m


def numbers():
    u = gen.one_of(gen.integers(0, 1000).map(lambda k: k / 1000.0), gen.integers(0, 10 ** 6).map(lambda k: k / 1e6))
    return fd(f=u, g=u, i=gen.integers(0, 1000), t=gen.whens(off=gen.one_of(gen.integers(-14, 14).map(lambda h: h * 3600), gen.integers(-48, 56).map(lambda q: q * 900), gen.sampled([53, -53, 20701, -17762, 1, -1]))))


def cases():
    return fd(fn=gen.integers(0, 10 ** 4), lib=gen.sampled(["numpy", "math"]), npos=gen.integers(0, 20), mask=gen.one_of(gen.integers(0, 1023), gen.just(1023), gen.just(0)),
              rev=gen.integers(0, 1), ty=gen.integers(0, 30), r=numbers())


NFUN = sum(len(v) for m in MODS for v in stubs()[m][0].values()) if not STUBS else 0
NCON = sum(len(stubs()[m][1]) for m in MODS)
R0 = {"f": 0.375, "g": 0.625, "i": 60, "t": "2015-03-05T10:20:30+00:00"}
EACH = [{"fn": k, "lib": l, "npos": n, "mask": 1023, "rev": n & 1, "ty": n, "r": R0} for k in range(NFUN) for l in ("numpy", "math") for n in (0, 1, 2, 3, 4, 5, 9)]
CEACH = [{"fn": k, "lib": l, "npos": n, "mask": 0, "rev": 0, "ty": 0, "r": R0} for k in range(NCON) for l in ("numpy", "math") for n in (0, 1)]

CHECK = Check("C25", [
    Clause("calls", cases(), call_case, 16000, nontrivial="all: one declared function called in a generated split", examples=EACH),
    Clause("constants", None, const_case, 0, nontrivial="all", examples=CEACH),
], rule="every case calls a declared function in a way its declaration allows, or reads a declared constant",
    assumptions=["values are drawn from the meaningful range of each parameter, found by its name", "where the formula itself divides by zero (a ratio with a zero denominator) no value is required", "sunrise, sunset and transit are asked for below 60 degrees of latitude"])
preload()
