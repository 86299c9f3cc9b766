import numpy as np
from common import *

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])
MILLI = gen.integers(-90000, 90000).map(lambda k: k / 1000.0)
LOW = gen.one_of(gen.integers(-3000, 3000).map(lambda k: k / 1000.0), gen.integers(-1000, 1000).map(lambda k: k / 1e6),
                 gen.sampled([1e-9, -1e-9, 1e-12, -1e-12, 1e-300, -1e-300, 5e-324, 0.0, -0.0, 0.01, -0.01, 0.0134, -0.0134]))
ALT = gen.one_of(MILLI, LOW, gen.integers(-90, 90).map(float), gen.integers(-90, 90), gen.sampled([90.0, -90.0, 90, 0, -90]))
TIME = gen.one_of(gen.zoned(), gen.boundary_utcs())


def value(case):
    L = lib.get(case["backend"])
    d, alt = when(case["t"]), case["alt"]
    rad = num("radiation", call("get_radiation_direct", L.radiation.get_radiation_direct, d, alt))
    day = ref.yday(d)
    want = ref.radiation_direct(day, alt)
    if rad < 0:
        fail("radiation is %r at altitude %r" % (rad, alt))
    if alt <= 0 and rad != 0:
        fail("radiation is %r at altitude %r" % (rad, alt))
    # in proportion: at grazing incidence the flux is tiny, and it counts all the same
    am = 1 / math.sin(math.radians(alt)) if 1e-4 < alt < 180 else 1e7
    near("radiation on day %d at altitude %r" % (day, alt), rad, want, (1e-9 + 1e-15 * am * am) * want + 1e-290)
    f = num("flux", call("get_apparent_extraterrestrial_flux", L.radiation.get_apparent_extraterrestrial_flux, day))
    if rad > f:
        fail("radiation %r is more than the extraterrestrial flux %r" % (rad, f))
    return ("no sun" if alt <= 0 else "grazing" if alt < 1 else "low" if alt < 15 else "high") + (" other date" if ref.utc(d).date() != d.date() else "")


def climbs(case):
    """rising sun, same day"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    d2 = gen.in_offset(ref.utc(d).replace(hour=0, minute=0, second=0, microsecond=0) + dt.timedelta(seconds=case["s"]), 0)
    a, b = sorted((case["alt"], case["alt2"]))
    ra = num("radiation", call("get_radiation_direct", L.radiation.get_radiation_direct, d, a))
    rb = num("radiation", call("get_radiation_direct", L.radiation.get_radiation_direct, d2, b))
    if rb < ra - 1e-9 * ra:
        fail("radiation falls from %r at altitude %r to %r at altitude %r on one day" % (ra, a, rb, b))
    # the same altitude at another time of the UTC day
    rc = num("radiation", call("get_radiation_direct", L.radiation.get_radiation_direct, d2, a))
    near("radiation at another time of the day", rc, ra, 1e-9 * max(1.0, ra))
    return None if a == b or b <= 0 else "across the horizon" if a <= 0 else "both up"


def parts(case):
    L = lib.get(case["backend"])
    day = case["day"]
    near("flux on day %d" % day, call("get_apparent_extraterrestrial_flux", L.radiation.get_apparent_extraterrestrial_flux, day), ref.apparent_flux(day), 1e-9)
    near("optical depth on day %d" % day, call("get_optical_depth", L.radiation.get_optical_depth, day), ref.optical_depth(day), 1e-12)
    a = case["alt"]
    s = math.sin(math.radians(a))
    if s == 0 or abs(s) < 1e-290:
        return None
    with np.errstate(all="ignore"):
        r = float(call("get_air_mass_ratio", L.radiation.get_air_mass_ratio, a))
    if abs(r * s - 1) > 1e-9:
        fail("air mass ratio at %r is %r" % (a, r))
    return "day %s" % ("negative altitude" if a < 0 else "positive altitude")


CHECK = Check("C13", [
    Clause("value", fd(t=TIME, alt=ALT, backend=BACK), value, 40000, nontrivial="all; class: altitude, whether the UTC date differs from the local one",
           examples=[dict(t="2016-12-31T23:30:00-02:00", alt=a, backend=b) for a in (30.0, 0.0, -0.01, 0.01, 90, -90) for b in ("numpy", "math", "blocked")]),
    Clause("climbing", fd(t=TIME, alt=gen.one_of(MILLI, LOW), alt2=gen.one_of(MILLI, LOW), s=gen.integers(0, 86399), backend=BACK), climbs, 20000,
           nontrivial="two different altitudes of which one is above the horizon"),
    Clause("parts", fd(day=gen.integers(1, 366), alt=gen.one_of(MILLI, LOW), backend=BACK), parts, 12000, nontrivial="the altitude has an air mass",
           examples=[dict(day=k, alt=30.0, backend="math") for k in range(1, 367)]),
], rule="instants around day, year and zone boundaries, altitudes over the sphere and concentrated at the horizon, against the published model, and pairs of altitudes "
        "on one day")
