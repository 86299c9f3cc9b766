"""C26: equal numbers give equal results, whatever kind of number they are."""
import enum

import numpy as np
from api import *
import c11

preload("numpy", "math", "blocked")


class MyFloat(float):
    """a float with a unit"""
    __slots__ = ("unit",)


class MyInt(int):
    pass


class Level(enum.IntEnum):
    ZERO, ONE, TWO, THREE, FOUR, FIVE = range(6)


def small(k):
    return Level(k) if 0 <= k < 6 else MyInt(k)


# kinds of numbers: name, conversion, for whole numbers only, for numpy only
KINDS = [("int", int, True, False), ("subclass of float", MyFloat, False, False), ("float", float, False, False), ("subclass of int", lambda v: MyInt(int(v)), True, False),
         ("int enumeration", lambda v: small(int(v)), True, False), ("numpy.float64", np.float64, False, True), ("numpy.int64", lambda v: np.int64(int(v)), True, True),
         ("numpy.int32", lambda v: np.int32(int(v)), True, True), ("array of no dimension", np.array, False, True), ("integer array of no dimension", lambda v: np.array(int(v)), True, True),
         ("array of one element", lambda v: np.array([v]), False, True), ("numpy.longdouble", np.longdouble, False, True), ("numpy.float32", np.float32, False, True)]
ROUGH = {"numpy.longdouble", "numpy.float32"}         # accepted; their results have another precision
WHOLE = [k for k, x in enumerate(KINDS) if x[2]]
TIMED_NAMES, LOCAL_NAMES, PLAIN = c11.TIMED_NAMES, c11.LOCAL_NAMES, c11.PLAIN
TABLES = {"get_coeff"}        # their arguments are not all numbers
# functions of one place and instant, not of arrays of them
SINGLE = set(LOCAL_NAMES)
# what functions of whole numbers take
NOT_TURNED = {"get_nutation"}


def usable(k, v, backend, name):
    label, f, whole, np_only = KINDS[k]
    if whole and v != int(v):
        return False
    if np_only and backend != "numpy":
        return False
    if "array" in label and (name in SINGLE or name in ONE_NUMBER):
        return False
    if "int32" in label and abs(v) > 2 ** 31 - 1:
        return False
    return True


ONE_NUMBER = set()


def whole(o, on):
    """the case's numbers, rounded to whole ones where that is asked for"""
    return {k: (float(round(v)) if on[i % len(on)] else v) for i, (k, v) in enumerate(sorted(o.items()))}


def turn(v, k, backend, name):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v, None
    if usable(k, v, backend, name):
        return KINDS[k][1](v), KINDS[k][0]
    return v, None


def kinds(case):
    L = lib.get(case["backend"])
    op = case["op"]
    name = op[1]
    with L.active():
        if op[0] == "t":
            e = entry(name)
            o = whole(op[3], case["whole"])
            f = func(L, e)
            args = values(e, o, when(op[2]))
        else:
            f = getattr(getattr(L, PLAIN[name][0]), name)
            args = [float(round(v)) if isinstance(v, float) and case["whole"][i % len(case["whole"])] else v for i, v in enumerate(op[2])]
        base = attempt(f, args)
        if isinstance(base, Exception):
            return None
        new, used = [], set()
        for i, v in enumerate(args):
            w, label = turn(v, case["kinds"][i % len(case["kinds"])], case["backend"], name)
            new.append(w)
            if label and label != "float":
                used.add(label)
        if not used:
            return None
        keep = [x.copy() if isinstance(x, np.ndarray) else x for x in new]
        got = attempt(f, new)
        for a, b in zip(keep, new):
            if isinstance(a, np.ndarray) and not np.array_equal(a, b):
                fail("%s changes its argument %r" % (name, a))
    desc = "%s%r, %s with %s" % (name, tuple(args), case["backend"], ", ".join("%s %r" % (type(w).__name__, w) for w in new))
    if used & ROUGH:
        # in single precision the answer may lie on the other side of a threshold
        if isinstance(got, Exception) and not isinstance(got, (ArithmeticError, ValueError)):
            fail("%s: %s: %s" % (desc, type(got).__name__, got))
        if not isinstance(got, Exception) and len(c11.numbers(one(got))) != len(c11.numbers(one(base))):
            fail("%s is %r, with plain numbers %r" % (desc, got, base))
        return "another precision"
    if isinstance(got, Exception):
        fail("%s: %s: %s" % (desc, type(got).__name__, got))
    x, y = c11.numbers(one(base)), c11.numbers(one(got))
    c11.compare(desc, ["t", name, op[2], o] if op[0] == "t" else ["p", name, args], one(got), one(base), 1e-9)
    return sorted(used)[0] if len(used) == 1 else "%d kinds together" % len(used)


def one(v):
    """a result with arrays of one element as numbers"""
    if isinstance(v, np.ndarray) and v.size == 1:
        return v.reshape(-1)[0]
    if isinstance(v, dict):
        return {k: one(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return tuple(one(x) for x in v)
    return v


def attempt(f, args):
    try:
        return f(*args)
    except Exception as x:
        return x


# functions with their optional parameters
P = lambda lo, hi: gen.one_of(gen.integers(lo, hi).map(float), gen.integers(lo, hi).map(float), gen.integers(8 * lo, 8 * hi).map(lambda k: k / 8.0))
FULL = {
    "get_pressure_with_elevation": ("elevation", (P(300, 11000), P(80000, 110000), P(200, 330), gen.sampled([-0.0065, 1.0, 0.001]), P(0, 300), P(8, 9), P(1, 25), P(1, 2))),
    "get_temperature_with_elevation": ("elevation", (P(-400, 11000), P(200, 330), gen.sampled([-0.0065, -1.0, 0.001]))),
    "get_broadband_direct_normal_irradiance": ("rest", (P(1, 90), P(700, 1100), P(0, 1), P(0, 1), P(0, 8), P(1, 2), P(0, 2))),
    "get_direct_normal_irradiance_by_band": ("rest", (c11.BAND, P(1, 90), P(700, 1100), P(0, 1), P(0, 1), P(0, 8), P(1, 2), P(0, 2))),
    "get_beam_broadband_irradiance": ("rest", (P(1, 90), P(700, 1100), P(0, 1), P(0, 1), P(0, 8), P(1, 2), P(0, 2))),
    "get_beam_irradiance_by_band": ("rest", (c11.BAND, P(1, 90), P(700, 1100), P(0, 1), P(0, 1), P(0, 8), P(1, 2), P(0, 2))),
    "get_optical_mass_rayleigh": ("rest", (P(1, 90), P(700, 1100))),
    "get_incidence_angle": ("solar", (P(0, 180), P(0, 180), P(-360, 360), P(0, 360))),
    "get_refraction_correction": ("solar", (P(0, 120000), P(100, 400), P(-2, 90))),
}
for _n, _p in FULL.items():
    PLAIN.setdefault(_n, _p)
FULLOP = gen.sampled(sorted(FULL)).flatmap(lambda n: gen.st.tuples(gen.just("p"), gen.just(n), gen.st.tuples(*FULL[n][1])))
NUMS = gen.st.lists(gen.st.booleans(), min_size=5, max_size=5)
KINDSG = gen.st.lists(gen.one_of(gen.integers(0, len(KINDS) - 1), gen.sampled(WHOLE)), min_size=1, max_size=6)
CHECK = Check("C26", [
    Clause("kinds", fd(op=gen.one_of(c11.op_call(), c11.op_call(), FULLOP), kinds=KINDSG, whole=gen.one_of(gen.just([True]), NUMS), backend=gen.sampled(["numpy", "numpy", "math", "blocked"])), kinds, 24000,
           nontrivial="at least one number is given as another kind of number; class: the kind"),
], rule="any public function at generated arguments, against the same call with equal numbers of other kinds")
