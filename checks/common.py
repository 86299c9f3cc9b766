"""What several checks share."""
import datetime as dt
import functools
import itertools
import math

import gen
import lib
import pbt
import ref
from pbt import Check, Clause, call, fail
from gen import fd, when


def num(desc, v):
    """v as a finite float"""
    try:
        x = float(v)
    except Exception:
        fail("%s is %r, not a number" % (desc, v))
    if not math.isfinite(x):
        fail("%s is %r" % (desc, v))
    return x


def near(desc, got, want, tol):
    g = num(desc, got)
    if not abs(g - want) <= tol:
        fail("%s is %.12g, expected %.12g (off by %.3g, allowed %.3g)" % (desc, g, want, abs(g - want), tol))
    return g


def near_angle(desc, got, want, tol):
    g = num(desc, got)
    if not ref.angdiff(g, want) <= tol:
        fail("%s is %.12g, expected %.12g modulo 360 (off by %.3g, allowed %.3g)" % (desc, g, want, ref.angdiff(g, want), tol))
    return g


SUBSETS = [s for n in range(3, -1, -1) for s in itertools.combinations(ref.DEFECTS, n)]

_PROBES = [("2003-10-17T19:30:30+00:00", 39.742476, -105.1786, 1830.14), ("2016-12-31T03:00:00+00:00", -33.0, 151.0, 0.0),
           ("1995-03-05T11:10:00+00:00", 64.0, 10.0, 100.0), ("2024-01-04T05:00:00+00:00", 5.0, 100.0, 8000.0)]


@functools.lru_cache(None)
def defects():
    """which of the three recorded deviations the tree has: the subset whose model fits best at
    fixed probe points (all of them on the delivered tree, none once they are repaired)"""
    P = lib.get("numpy")
    best = None
    for sub in SUBSETS:
        err = 0.0
        for t, lat, lon, el in _PROBES:
            d = when(t)
            az, alt, hor = ref.Sun(d, sub).horizontal(lat, lon, el)
            try:
                a = float(P.solar.get_azimuth(lat, lon, d, el))
                h = float(P.solar.get_altitude(lat, lon, d, el, pressure=0))
            except Exception:
                return SUBSETS[0]
            err += ref.angdiff(a, az) * hor + abs(h - alt)
        if not err < float("inf"):
            return SUBSETS[0]
        if best is None or err < best[0] - 1e-6:
            best = (err, sub)
    return best[1]


def ambient(case):
    return case["T"], case["P"]


def sky_class(alt, lat, d):
    """a coarse class of a position, for the distribution in the evidence"""
    band = "night" if alt < -18 else "twilight" if alt < -0.9 else "horizon" if alt < 2 else "day" if alt < 80 else "overhead"
    hemi = "pole" if abs(lat) > 89.9 else "N" if lat > 0 else "S" if lat < 0 else "equator"
    era = "ancient" if d.year < 1600 else "early" if d.year < 1972 else "table" if d.year < 2027 else "future"
    return "%s %s %s" % (band, hemi, era)


def preload(*kinds):
    """load the copies once, before the workers fork"""
    for k in kinds or ("numpy", "math"):
        lib.get(k)


def aimed(aim, d, lat, lon):
    """the place, or, with an aim (gen.aims), one with the sun near its meridian or overhead (or underfoot)"""
    if aim is None:
        return lat, lon
    m = ref.Sun(d, defects())
    half, dlon, dlat = aim
    if dlat is not None:
        lat = max(-90.0, min(90.0, (-m.dec if half else m.dec) + dlat))
    return lat, ref.wrap180(m.ra - m.gst + half + dlon)
