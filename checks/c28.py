"""C28: extrapolation is announced by a warning, and nothing else is."""
import threading
import warnings

import numpy as np
from api import *
import c11

preload("numpy", "math", "blocked")
BACK = gen.sampled(["numpy", "math", "blocked"])
# functions that do not need the leap seconds
WITHOUT = {"get_delta_t", "get_hour_angle", "get_solar_time", "get_altitude_fast", "get_azimuth_fast", "get_radiation_direct", "mean_earth_sun_distance", "declination_degree", "extraterrestrial_irrad",
           "clear_index"}
PRECISE = ["get_position", "get_altitude", "get_azimuth", "get_topocentric_position", "get_leap_seconds", "get_julian_ephemeris_day", "get_julian_solar_day"]
NAMES = PRECISE * 2 + sorted(n for n in c11.TIMED_NAMES if n in WITHOUT)


def table_end(L):
    """the instant the leap second table says nothing about any more: the table has an entry for the end of June and of
    December of each year, and none is inserted earlier than June of the first year it lacks"""
    S = L.solartime
    return dt.datetime(S.leap_seconds_base_year + len(S.leap_seconds_adjustments), 7, 1, tzinfo=gen.UTC)


def told(f, *args, **kw):
    """result and the texts of the announcements"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = f(*args, **kw)
        except (ArithmeticError, ValueError) as x:
            r = x
    return r, [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def leap(case):
    L = lib.get(case["backend"])
    end = table_end(L)
    e = entry(case["f"])
    if case["near"] is None:
        d = when(case["t"])
    else:
        d = end + dt.timedelta(microseconds=case["near"][0] * case["near"][1])
        d = gen.in_offset(d, case["off"])
    with L.active():
        for k in range(case["times"]):
            r, texts = told(func(L, e), *values(e, case["o"], d))
    late = d >= end
    desc = "%s(%s) in %s mode" % (case["f"], d.isoformat(), case["backend"])
    if isinstance(r, Exception):
        return None
    if case["f"] in WITHOUT:
        if texts:
            fail("%s warns %r" % (desc, texts))
        return "no leap seconds needed"
    if late and not any("leap second" in t.lower() for t in texts):
        fail("%s, after the leap second table ends on %s, warns %r, call %d" % (desc, end.date(), texts, case["times"]))
    if not late and texts:
        fail("%s, before the leap second table ends on %s, warns %r" % (desc, end.date(), texts))
    # the announcement changes nothing: the same under any filter
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with L.active():
            q = func(L, e)(*values(e, case["o"], d))
    same_result(desc + " with warnings shown and hidden", case["f"], r, q, 0)
    if late:
        # as an error it reaches the caller
        with warnings.catch_warnings():
            warnings.simplefilter("error", UserWarning)
            try:
                with L.active():
                    q = func(L, e)(*values(e, case["o"], d))
            except UserWarning:
                pass
            else:
                fail("%s with warnings as errors gives %r" % (desc, q))
    return "late" if late else "covered"


def height(case):
    L = lib.get(case["backend"])
    h = case["h"]
    f = L.elevation.get_pressure_with_elevation
    for k in range(case["times"]):
        r, texts = told(f, h, *case["more"])
    high = h > 11000
    if isinstance(r, Exception):
        fail("get_pressure_with_elevation(%r) raised %r" % (h, r))
    if high and not any("11,000" in t or "elevation" in t.lower() for t in texts):
        fail("get_pressure_with_elevation(%r) warns %r, call %d" % (h, texts, case["times"]))
    if not high and texts:
        fail("get_pressure_with_elevation(%r) warns %r" % (h, texts))
    t, texts = told(L.elevation.get_temperature_with_elevation, h)
    if texts:
        fail("get_temperature_with_elevation(%r) warns %r" % (h, texts))
    return "above" if high else "within"


def simulated(case):
    """a simulation crossing the end of the table announces it, one that ends before does not"""
    L = lib.get(case["backend"])
    end = table_end(L)
    start = gen.in_offset(end + dt.timedelta(minutes=case["shift"]), case["off"])
    stop = start + dt.timedelta(minutes=case["n"])
    last = start + dt.timedelta(minutes=case["n"] - 1)
    with L.active():
        r, texts = told(lambda: list(L.simulate.simulate_span(40.0, 10.0, [2.0] * 3000, start, stop, 1, 5.0)))
    if isinstance(r, Exception) or len(r) != case["n"]:
        fail("simulate_span from %s to %s gives %r" % (start, stop, r))
    if (last >= end) != bool(texts):
        fail("simulate_span from %s to %s, the leap second table ends at %s: warns %r" % (start, stop, end, texts))
    return "crossing" if start < end <= last else "late" if start >= end else "before"


O = others()
CHECK = Check("C28", [
    Clause("leap_seconds", fd(f=gen.sampled(NAMES), t=gen.one_of(gen.whens(), gen.whens("modern")), o=O, off=gen.offsets(), times=gen.sampled([1, 1, 2, 3]), backend=BACK,
                              near=gen.one_of(gen.just(None), gen.st.tuples(gen.integers(-40, 40), gen.sampled([1, 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6, 30 * 86400 * 10 ** 6])).map(list))),
           leap, 9000, nontrivial="the function gives a number; class: after or before the end of the table"),
    Clause("elevation", fd(h=gen.one_of(gen.elevations(), gen.integers(10990, 11010).map(float), gen.integers(10999000, 11001000).map(lambda k: k / 1000.0), gen.integers(-500, 20000), gen.just(11000.0), gen.just(11000)).filter(lambda h: h < 44000),
                           more=gen.sampled([[], [], [101325.0], [90000.0, 280.0], [101325.0, 288.15, -0.0065, -600.0], [90000.0, 288.15, -0.0065, 1000.0], [22632.0, 216.65, 0.001, 11000.0], [101325.0, 310.0, -0.003, -12000.0]]), times=gen.sampled([1, 1, 2]), backend=BACK), height, 6000, nontrivial="all; class: above 11 km or within"),
    Clause("simulations", fd(shift=gen.integers(-60, 5), n=gen.integers(1, 60), off=gen.offsets(), backend=BACK), simulated, 300, nontrivial="all"),
], rule="instants around and far from the end of the leap second table in random zones, elevations around and far from 11 km: warned or not by the definition, on every call",
    assumptions=["announcements are warnings of the category UserWarning; floating point warnings are C05's"])
