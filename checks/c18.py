import numpy as np
from common import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])
DEG = lambda lo, hi: gen.one_of(gen.integers(lo * 1000, hi * 1000).map(lambda k: k / 1000.0), gen.integers(lo, hi).map(float), gen.integers(lo // 15, hi // 15).map(lambda k: k * 15.0), gen.integers(lo, hi))


def inc(L, z, s, o, a):
    return num("incidence angle", call("get_incidence_angle(%r, %r, %r, %r)" % (z, s, o, a), L.solar.get_incidence_angle, z, s, o, a))


def tol(x):
    """acos loses half the digits at 0 and 180"""
    s = math.sin(math.radians(x))
    return min(5e-6, 1e-9 + 1e-12 / max(s, 1e-9)) if s > 1e-5 else 5e-6


def vector(case):
    L = lib.get(case["backend"])
    z, s, o, a = case["z"], case["s"], case["o"], case["a"]
    r = inc(L, z, s, o, a)
    if not 0 <= r <= 180:
        fail("incidence angle %r" % r)
    want = ref.incidence(z, s, o, a)
    near("incidence angle of sun (zenith %r, azimuth %r) on panel (slope %r, orientation %r)" % (z, a, s, o), r, want, tol(want))
    return "behind" if want > 90.0001 else "front" if want > 1 else "facing"


def special(case):
    L = lib.get(case["backend"])
    z, s, o, a = case["z"], case["s"], case["o"], case["a"]
    near("incidence on a horizontal panel", inc(L, z, 0, o, a), z, tol(z))
    near("incidence of the overhead sun", inc(L, 0, s, o, a), abs(s), tol(abs(s)))
    near("incidence on a panel facing the sun", inc(L, z, z, a - 180, a), 0.0, 5e-6)
    near("incidence on a panel facing away", inc(L, z, 180 - z, a, a), 180.0, 5e-6)
    r = inc(L, z, s, o, a)
    near("after a turn of the sun", inc(L, z, s, o, a + 360 * case["n"]), r, 2 * tol(r))
    near("after a turn of the panel", inc(L, z, s, o + 360 * case["n"], a), r, 2 * tol(r))
    near("after turning both by %r" % case["n"], inc(L, z, s, o + case["n"], a + case["n"]), r, 2 * tol(r))
    near("seen from the other side", inc(L, z, 180 - s, o + 180, a), 180 - r, 2 * tol(r))
    near("sloping the other way", inc(L, z, -s, o + 180, a), r, 2 * tol(r))
    return "all"


def tracked(case):
    """with the library's own position of the sun"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    az, alt = call("get_position", L.solar.get_position, case["lat"], case["lon"], d)
    az, alt = float(az), float(alt)
    if alt > 90:
        return None
    r = inc(L, 90 - alt, case["s"], case["o"], az)
    want = ref.separation(az, alt, 180 + case["o"], 90 - case["s"])
    near("incidence angle", r, want, 5e-6)
    return "up" if alt > 0 else "down"


def arrays(case):
    """rows of panels and suns, numbers and arrays mixed"""
    L = lib.get("numpy")
    n = len(case["rows"])
    shape = {1: (n,), 2: (n, 1), 3: (1, n, 1), 4: (1, 1, n)}[case["dims"]]
    cols = []
    for k in range(4):
        v = [r[k] for r in case["rows"]]
        cols.append(np.array(v, dtype=None if case["mask"] & 16 else float).reshape(shape) if case["mask"] >> k & 1 else v[0])
    got = call("get_incidence_angle of arrays", L.solar.get_incidence_angle, *cols)
    if not case["mask"] & 15:
        shape = ()
    if np.shape(got) != shape:
        fail("incidence angles of shape %r for arguments of shape %r" % (np.shape(got), shape))
    flat = np.reshape(got, -1)
    for i in range(n if shape else 1):
        z, s, o, a = [float(c.reshape(-1)[i]) if isinstance(c, np.ndarray) else c for c in cols]
        want = ref.incidence(z, s, o, a)
        near("incidence angle %d of sun (zenith %r, azimuth %r) on panel (slope %r, orientation %r), arrays %d" % (i, z, a, s, o, case["mask"]), flat[i], want, tol(want))
    return "%d of 4 arrays" % bin(case["mask"] & 15).count("1") if case["mask"] & 15 else None


PANEL = gen.one_of(gen.st.tuples(DEG(0, 180), gen.one_of(DEG(0, 180), DEG(-180, 0)), DEG(-360, 360), DEG(-360, 720)),
                   gen.st.tuples(DEG(0, 180), gen.integers(-3, 3).map(lambda k: 360.0 * k)).map(lambda t: (t[0], t[0], 0.0, 180.0 + t[1])),
                   gen.st.tuples(DEG(0, 180), gen.integers(-3, 3).map(lambda k: 360.0 * k)).map(lambda t: (t[0], 180 - t[0], t[1], 0.0)))
ARGS = dict(z=DEG(0, 180), s=gen.one_of(DEG(0, 180), DEG(0, 90), DEG(-180, 0)), o=DEG(-360, 360), a=DEG(-360, 720), backend=BACK)
CHECK = Check("C18", [
    Clause("vector", fd(**ARGS), vector, 40000, nontrivial="all; class: side of the panel", examples=[dict(z=8, s=8, o=0, a=180, backend=b) for b in ("numpy", "math", "blocked")]),
    Clause("special", fd(n=gen.integers(-3, 3), **ARGS), special, 16000, nontrivial="all"),
    Clause("arrays", fd(rows=gen.st.lists(PANEL.map(list), min_size=1, max_size=5), dims=gen.integers(1, 4), mask=gen.integers(0, 31)), arrays, 8000, nontrivial="at least one array; class: number of arrays",
           examples=[dict(rows=[[30.0, 30.0, 0.0, 180.0], [40.0, 25.0, -30.0, 100.0]], dims=d, mask=m) for d in (1, 2, 3, 4) for m in (15, 3, 4, 12)]),
    Clause("tracked", fd(t=gen.zoned(), lat=gen.lats(), lon=gen.lons(), s=DEG(0, 180), o=DEG(-180, 180), backend=BACK), tracked, 4000, nontrivial="all; class: sun up or down"),
], rule="sun directions and panels over the sphere against the angle between vectors, and the symmetries of the situation")
