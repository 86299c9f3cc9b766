import warnings
from fractions import Fraction

from common import *
import spa_tables

preload("numpy")
S = lib.get("numpy").solartime
_UTC_EPOCH = dt.datetime(2000, 1, 1, 12, tzinfo=dt.timezone.utc)


def instants():
    return gen.one_of(gen.boundary_utcs(), gen.zoned(), gen.utcs(), gen.boundary_utcs(), leap_neighbours())


def leap_neighbours():
    """within days of a date on which a leap second took effect, in any zone"""
    def build(i, us, off):
        y, m, d = spa_tables.LEAP_DATES[i]
        t = dt.datetime(y, m, d, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=us)
        return gen.in_offset(t, off).isoformat()
    us = gen.one_of(gen.integers(-3, 3), gen.integers(-10 ** 6, 10 ** 6), gen.integers(-86400, 86400).map(lambda s: s * 10 ** 6),
                    gen.integers(-40, 40).map(lambda d: d * 86400 * 10 ** 6))
    return gen.st.builds(build, gen.integers(0, len(spa_tables.LEAP_DATES) - 1), us, gen.offsets())


def era(d):
    u = ref.utc(d)
    k = (u.year, u.month)
    if k < (1972, 7):
        return "before leap seconds"
    if k < (1973, 2):
        return "before TT-UT1 table"
    if k <= (2014, 4):
        return "in both tables"
    return "after TT-UT1 table" if k <= (2017, 1) else "after last leap second"


def table_end():
    """(year, month) from which the leap-second table of the tree cannot know the value"""
    return S.leap_seconds_base_year + len(S.leap_seconds_adjustments), 7


def leap(case):
    d = when(case["t"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = call("get_leap_seconds(%s)" % case["t"], S.get_leap_seconds, d)
    if v != ref.leap_seconds(d):
        fail("get_leap_seconds(%s) is %r, TAI-UTC is %d" % (case["t"], v, ref.leap_seconds(d)))
    u = ref.utc(d)
    late = (u.year, u.month) >= table_end()
    if late != bool(w):
        fail("get_leap_seconds(%s) %s a warning; the installed table ends before %d-%02d" % (
            case["t"], "gives" if w else "does not give", *table_end()))
    return era(d) + (" warned" if w else "")


def deltat(case):
    d = when(case["t"])
    v = num("get_delta_t", call("get_delta_t(%s)" % case["t"], S.get_delta_t, d))
    if v != ref.delta_t(d):
        fail("get_delta_t(%s) is %r, the table has %r for the UTC month" % (case["t"], v, ref.delta_t(d)))
    if (1973, 2) <= (ref.utc(d).year, ref.utc(d).month) <= (2014, 4):
        dut = ref.leap_seconds(d) + ref.TT_TAI - v
        mine = S.get_leap_seconds(d) + S.tt_offset - v
        if not (abs(dut) < 0.9 and abs(mine) < 0.9):
            fail("UT1-UTC would be %.3f s at %s" % (mine, case["t"]))
    return era(d)


def exact_jd(d, extra_s):
    """Julian day of an instant plus extra seconds (decimal), exactly"""
    us = ref.micros_j2000(d)
    return Fraction(2451545) + (Fraction(us, 10 ** 6) + Fraction(repr(extra_s))) / 86400


ULP = 2.0 ** -31   # of numbers around 2.4 million, in days: 40 microseconds


def julian(case):
    d = when(case["t"])
    jd = num("get_julian_solar_day", call("get_julian_solar_day(%s)" % case["t"], S.get_julian_solar_day, d))
    jde = num("get_julian_ephemeris_day", call("get_julian_ephemeris_day(%s)" % case["t"], S.get_julian_ephemeris_day, d))
    tt = round(ref.leap_seconds(d) + ref.TT_TAI, 6)
    ut = round(tt - ref.delta_t(d), 6)
    for name, got, extra in (("ephemeris ", jde, tt), ("", jd, ut)):
        err = abs(Fraction(got) - exact_jd(d, extra))
        if err > 4 * ULP:
            fail("Julian %sday of %s is %.9f, exactly %.9f (%.6f s off)" % (name, case["t"], got, float(exact_jd(d, extra)), float(err) * 86400))
    jce = call("get_julian_ephemeris_century", S.get_julian_ephemeris_century, jde)
    near("Julian ephemeris century", jce, (jde - 2451545.0) / 36525.0, 1e-13)
    near("Julian century", call("get_julian_century", S.get_julian_century, jd), (jd - 2451545.0) / 36525.0, 1e-13)
    near("Julian ephemeris millennium", call("get_julian_ephemeris_millennium", S.get_julian_ephemeris_millennium, jce), (jde - 2451545.0) / 365250.0, 1e-14)
    return era(d) + (" sub-second" if d.microsecond else "")


def monotone(case):
    """two instants of one UTC month: the later one has the later Julian days"""
    a = ref.utc(when(case["t"]))
    nxt = dt.datetime(a.year + a.month // 12, a.month % 12 + 1, 1, tzinfo=dt.timezone.utc)
    room = (nxt - a) // dt.timedelta(microseconds=1) - 1
    b = a + dt.timedelta(microseconds=min(case["us"], room))
    b = gen.in_offset(b, case["off"])
    for f in (S.get_julian_solar_day, S.get_julian_ephemeris_day):
        ja, jb = call(f.__name__, f, a), call(f.__name__, f, b)
        if not jb >= ja:
            fail("%s decreases from %s to %s" % (f.__name__, a, b))
        if (b - a) >= dt.timedelta(milliseconds=1) and not jb > ja:
            fail("%s does not advance from %s to %s" % (f.__name__, a, b))
    if call("get_leap_seconds", S.get_leap_seconds, b) < call("get_leap_seconds", S.get_leap_seconds, a):
        fail("leap seconds decrease from %s to %s" % (a, b))
    return "same second" if b - a < dt.timedelta(seconds=1) else "later"


def every_month(case):
    """the whole table, first and last microsecond of every month"""
    y = case["year"]
    for m in range(1, 13):
        a = dt.datetime(y, m, 1, tzinfo=dt.timezone.utc)
        b = dt.datetime(y + m // 12, m % 12 + 1, 1, tzinfo=dt.timezone.utc) - dt.timedelta(microseconds=1)
        for d in (a, b, gen.in_offset(a, case["off"]), gen.in_offset(b, case["off"])):
            c = {"t": d.isoformat()}
            leap(c), deltat(c), julian(c)
    return "year %d" % y


CHECK = Check("C02", [
    Clause("leap_seconds", fd(t=instants()), leap, 16000, nontrivial="all: compared with the announced list; class: where in the tables, warned or not",
           examples=[{"t": t} for t in ("1972-06-30T23:59:59.999999+00:00", "1972-07-01T00:00:00+00:00", "2016-12-31T23:59:59.999999+00:00",
                                        "2017-01-01T00:00:00+00:00", "2017-01-01T00:30:00+01:00", "1971-12-31T23:00:00-02:00", "1900-01-01T00:00:00+00:00")]),
    Clause("delta_t", fd(t=instants()), deltat, 16000, nontrivial="all: compared with the published monthly table",
           examples=[{"t": t} for t in ("1973-01-31T23:59:59+00:00", "1973-02-01T00:00:00+00:00", "2014-04-30T23:59:59+00:00", "2014-05-01T00:00:00+00:00",
                                        "2015-02-01T00:00:00+00:00", "2026-03-01T00:00:00+00:00", "1972-12-01T00:00:00+00:00")]),
    Clause("julian_days", fd(t=instants()), julian, 16000, nontrivial="all: compared with exact rational arithmetic to 4 units in the last place"),
    Clause("monotone", fd(t=instants(), us=gen.one_of(gen.integers(0, 10 ** 6), gen.integers(0, 3600 * 10 ** 6), gen.integers(0, 31 * 86400 * 10 ** 6)), off=gen.offsets()),
           monotone, 8000, nontrivial="all: ordered pairs within a month"),
    Clause("every_month", None, every_month, 0, examples=[{"year": y, "off": off} for y in range(1965, 2036) for off in (0, -3600 * 5, 20700)],
           nontrivial="every month of 1965..2035, both ends, three zones (enumerated)"),
], rule="instants weighted to month, leap-second and table boundaries in random zones, compared with independent tables and exact rational arithmetic",
    assumptions=["leap seconds and monthly TT-UT1 values in lib/spa_tables.py are the published ones",
                 "no leap second after 2017-01-01 is known to this check"])
