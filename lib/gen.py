"""Generators of cases (JSON-able) and their decoding."""
import datetime as dt
import json
import math

from hypothesis import strategies as st

UTC = dt.timezone.utc
one_of, sampled, integers, just = st.one_of, st.sampled_from, st.integers, st.just


# ---------------------------------------------------------------- places
LAT_SPECIAL = [0.0, 90.0, -90.0, 23.4393, -23.4393, 66.5607, -66.5607, 45.0, -45.0, 89.999, -89.999, 1e-6, -1e-6,
               51.4778, -33.8568, 23.45, -23.45, 60.0, -60.0, 30.0, 89.0, -89.0, 1.0, -1.0]
LON_SPECIAL = [0.0, 180.0, -180.0, 360.0, -360.0, 179.999, -179.999, 90.0, -90.0, 1e-6, -1e-6, 270.0, 359.999,
               -71.1, 151.2, 540.0, -540.0, 15.0, -15.0]


def _milli(lo, hi):
    return integers(lo * 1000, hi * 1000).map(lambda k: k / 1000.0)


def _micro(lo, hi):
    return integers(int(lo * 10 ** 6), int(hi * 10 ** 6)).map(lambda k: k / 1e6)


def lats(lo=-90, hi=90):
    ints = integers(lo, hi).map(float)
    return one_of(_milli(lo, hi), sampled([v for v in LAT_SPECIAL if lo <= v <= hi]), _milli(lo, hi), ints, _micro(lo, hi))


def lons(lo=-180, hi=180, wide=True):
    opts = [_milli(lo, hi), sampled([v for v in LON_SPECIAL if wide or lo <= v <= hi]), _milli(lo, hi),
            integers(lo, hi).map(float), _micro(lo, hi)]
    if wide:
        opts.append(_milli(-720, 720))
    return one_of(*opts)


def aims(lo=3):
    """where to put a place relative to the sun (None: leave it): hour angle 0 or 180 and how far from it, latitude under the sun and how far from it or unchanged"""
    far = st.tuples(sampled([-1, 0, 1, 1, -1]), integers(0, 70)).map(lambda x: x[0] * 10.0 ** (-x[1] / 10.0))
    some = st.tuples(sampled([0.0, 180.0]), far, one_of(just(None), far)).map(list)
    return one_of(*[just(None)] * lo, some)


def elevations():
    return one_of(just(0.0), integers(0, 9000).map(float), sampled([0.0, -430.0, 8848.0, 11000.0, -0.5, 1.0, 5000.0, 1830.14]),
                  integers(-430, 40000).map(float), integers(-4300, 90000).map(lambda k: k / 10.0),
                  sampled([100000.0, 400000.0, -1000.0, -10900.0, 8848.86, 11000.5, 2.0e6]))


def pressures(wide=False):
    if wide:                # also pressures no barometer shows
        return one_of(pressures(), pressures(), pressures(), sampled([1013.25, 1000.0, 29.92, 0.001, 120000.0, 200000.0]), integers(0, 3 * 10 ** 5).map(float))
    return one_of(just(101325.0), integers(0, 110000).map(float), sampled([0.0, 101325.0, 82000.0, 100000.0, 1.0, 101000.0, 50000.0]),
                  integers(300000, 1100000).map(lambda k: k / 10.0))


def temperatures(wide=False):
    if wide:
        return one_of(temperatures(), temperatures(), temperatures(), sampled([1.0, 15.0, 50.0, 77.0, 99.0, 100.0, 173.15, 373.15, 400.0, 1000.0]), integers(1, 600).map(float))
    return one_of(just(288.15), integers(200, 330).map(float), sampled([288.15, 273.15, 284.15, 273.0, 283.0, 200.0, 330.0, 300.0]),
                  integers(20000, 34000).map(lambda k: k / 100.0))


# ---------------------------------------------------------------- instants
_MD_SPECIAL = [(1, 1), (12, 31), (2, 28), (2, 29), (3, 1), (6, 30), (7, 1), (1, 31), (2, 1), (3, 20), (3, 21), (3, 22),
               (6, 21), (9, 22), (9, 23), (12, 21), (12, 22), (4, 30), (5, 1), (3, 31), (4, 1), (8, 31), (10, 31), (12, 30)]
_TOD_SPECIAL = [0, 1, 59999999, 60 * 10 ** 6, 43200 * 10 ** 6, 43199999999, 86399999999, 86399 * 10 ** 6, 86340 * 10 ** 6,
                3600 * 10 ** 6, 3599999999, 82800 * 10 ** 6, 21600 * 10 ** 6, 64800 * 10 ** 6, 999999, 500000]


def years(kind="all"):
    if kind == "modern":
        return one_of(integers(1950, 2049), integers(1972, 2030), sampled([1999, 2000, 2001, 2004, 2012, 1950, 2049, 1970, 1969]))
    return one_of(integers(1972, 2026), integers(1900, 2100), sampled([1972, 1973, 2000, 2014, 2015, 2016, 2017, 2024, 2025, 2026, 1900, 2100, 1970, 1969, 2038]),
                  integers(1600, 2400), integers(2, 9998), sampled([2, 1582, 1600, 1800, 9998, 4, 3000, 1000]))


def _day(y, md):
    m, d = md
    if m == 2 and d == 29 and (y % 4 or (y % 100 == 0 and y % 400)):
        d = 28
    return dt.date(y, m, d)


def dates(kind="all"):
    md = one_of(integers(0, 364), integers(0, 364), sampled(range(len(_MD_SPECIAL))).map(lambda i: -1 - i))

    def build(t):
        y, k = t
        if k >= 0:
            return dt.date(y, 1, 1) + dt.timedelta(days=k)
        return _day(y, _MD_SPECIAL[-1 - k])
    return st.tuples(years(kind), md).map(build)


def tods():
    """time of day in microseconds"""
    return one_of(integers(0, 86399).map(lambda s: s * 10 ** 6), integers(0, 86399999999),
                  integers(0, 1439).map(lambda m: m * 60 * 10 ** 6), sampled(_TOD_SPECIAL),
                  integers(0, 287).map(lambda k: k * 300 * 10 ** 6))


def offsets():
    """UTC offset in seconds"""
    return one_of(just(0), integers(-12, 14).map(lambda h: h * 3600), integers(-48, 56).map(lambda q: q * 900),
                  sampled([0, 20700, 19800, -12600, 34200, 86399, -86399, 86340, -86340, 1172, -17762, 53, -1, 1, 59, -59, 3600, -3600]),
                  integers(-86399, 86399))


def _iso(date, us, off):
    return (dt.datetime(date.year, date.month, date.day) + dt.timedelta(microseconds=us)).isoformat() + _off(off)


def _off(off):
    s = "-" if off < 0 else "+"
    a = abs(off)
    return "%s%02d:%02d%s" % (s, a // 3600, a // 60 % 60, ":%02d" % (a % 60) if a % 60 else "")


def whens(kind="all", off=None):
    """ISO string of an aware local time; the decoded datetime has a fixed offset (utc for +00:00)"""
    return st.builds(_iso, dates(kind), tods(), offsets() if off is None else off)


class Moment(dt.datetime):
    """a datetime of another class"""


def zoned(kind="all"):
    """like whens(), in part in a zone of any sort, also within hours of its changes of offset, or of a subclass of datetime:
    "ISO@zone" or "ISO@zone@sub", to be decoded by when()"""
    def tag(s, z, sub):
        return "%s@%s%s" % (s, json.dumps(z), "@sub" if sub else "")
    sub = sampled([0, 0, 1])
    anywhere = st.builds(tag, whens(kind), zone_specs(), sub)

    def switch(y, which, us, z, sub):
        if isinstance(z, list) and len(z) == 7:
            d = zone(z)._switches(y)[which]
        else:
            z = z if isinstance(z, str) and z[:6] == "Europe" else "Europe/Berlin"
            d = dt.datetime(y, (3, 10)[which], 31, 1)
            d -= dt.timedelta(days=(d.weekday() + 1) % 7)
        return tag((d + dt.timedelta(microseconds=us)).isoformat() + "+00:00", z, sub)
    y = one_of(integers(1981, 2049), integers(1972, 2036)) if kind == "modern" else one_of(integers(1981, 2036), integers(1900, 2100), integers(3, 9997))
    near = st.builds(switch, y, sampled([0, 1]), integers(-10800, 10800).map(lambda k: k * 10 ** 6),
                     zone_specs().filter(lambda z: isinstance(z, str) or isinstance(z, list) and len(z) == 7), sub)
    return one_of(whens(kind), whens(kind), whens(kind), anywhere, near)


def utcs(kind="all"):
    return st.builds(_iso, dates(kind), tods(), just(0))


def boundary_utcs():
    """instants within a second, minute, hour or day of the start of a month"""
    def build(y, m, k, unit):
        t = dt.datetime(y, m, 1) + dt.timedelta(microseconds=k * unit)
        return t.isoformat() + "+00:00"
    y = one_of(integers(1972, 2016), integers(1972, 2030), integers(3, 9997), integers(1900, 2100))
    return st.builds(build, y, one_of(sampled([1, 7]), integers(1, 12)), integers(-3, 3),
                     sampled([1, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6, 7 * 3600 * 10 ** 6]))


def when(s):
    if "@" not in s:
        return dt.datetime.fromisoformat(s)
    iso, z, sub = (s + "@").split("@")[:3]
    d = dt.datetime.fromisoformat(iso).astimezone(zone(json.loads(z)))
    return moment(d) if sub else d


def moment(d):
    return Moment(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)


def in_offset(d, off):
    return d.astimezone(UTC if off == 0 else dt.timezone(dt.timedelta(seconds=off)))


# ---------------------------------------------------------------- time zones
class Rule(dt.tzinfo):
    """a zone with daylight saving `delta` seconds between two local dates, PEP 495 fold"""

    def __init__(self, std, delta, m1, d1, m2, d2, hour):
        self.std, self.delta = dt.timedelta(seconds=std), dt.timedelta(seconds=delta)
        self.on, self.off, self.hour = (m1, d1), (m2, d2), hour
        self.args = (std, delta, m1, d1, m2, d2, hour)

    def _switches(self, y):
        """UTC instants (naive) of the switch on and off in local year y"""
        a = dt.datetime(y, self.on[0], self.on[1], self.hour) - self.std
        b = dt.datetime(y, self.off[0], self.off[1], self.hour) - self.std - self.delta
        return a, b

    def _dst_utc(self, u, y):
        a, b = self._switches(y)
        if a <= b:
            return a <= u < b
        return not (b <= u < a)

    def fromutc(self, d):
        u = d.replace(tzinfo=None)
        y = (u + self.std).year
        on = self._dst_utc(u, y)
        off = self.std + (self.delta if on else dt.timedelta(0))
        loc = u + off
        # second occurrence of a repeated time?
        fold = 0
        prev = u - self.delta
        if self.delta and not on and self._dst_utc(prev, (prev + self.std).year):
            fold = 1
        return loc.replace(tzinfo=self, fold=fold)

    def utcoffset(self, d):
        if d is None:
            return None
        n = d.replace(tzinfo=None, fold=0)
        with_dst = self._dst_utc(n - self.std - self.delta, n.year)
        without = self._dst_utc(n - self.std, n.year)
        if with_dst == without:
            on = with_dst
        elif with_dst:           # both readings possible: repeated time
            on = not d.fold
        else:                    # gap
            on = bool(d.fold)
        return self.std + (self.delta if on else dt.timedelta(0))

    def dst(self, d):
        return None if d is None else self.utcoffset(d) - self.std

    def tzname(self, d):
        return ("RULE", "GMT", "UTC", "CET", "Z")[sum(self.args) // 900 % 5]       # a name that says nothing

    def __repr__(self):
        return "Rule%r" % (self.args,)


ZONES = ["Europe/Berlin", "America/New_York", "America/St_Johns", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Apia",
         "Africa/Casablanca", "America/Sao_Paulo", "Asia/Tehran", "Antarctica/Troll", "Pacific/Kiritimati", "Europe/Dublin",
         "Africa/Monrovia", "Europe/Amsterdam", "Asia/Kolkata", "America/Santiago", "Pacific/Chatham"]


FRACTIONS = [0.5, -0.5, 0.000001, -0.000001, 3599.75, -3600.25, 20700.999999, -86399.5, 59.9, 34200.001]


NAMES = ["UTC", "GMT", "Z", "UTC+00:00", "EST", "CEST", "", "local", "utc", "Etc/UTC"]


def zone_specs():
    """JSON description of a time zone: int (fixed offset), name, list of an offset and any name for it, or longer list (Rule)"""
    def rule(std, delta, m1, d1, m2, d2, hour):
        return [std, delta, m1, d1, m2 if m2 != m1 else m1 % 12 + 1, d2, hour]
    rules = st.builds(rule, integers(-44, 48).map(lambda q: q * 900), sampled([3600, 1800, 7200, -3600]), integers(1, 12), integers(2, 27),
                      integers(1, 12), integers(2, 27), sampled([1, 2, 3]))
    named = st.tuples(offsets(), sampled(NAMES)).map(list)
    return one_of(offsets(), sampled(ZONES), rules, sampled(FRACTIONS), offsets(), sampled(ZONES), rules, named)


_zcache = {}


def zone(spec):
    key = json.dumps(spec)
    if key not in _zcache:
        if isinstance(spec, (int, float)):      # float: an offset with a fraction of a second
            z = UTC if spec == 0 else dt.timezone(dt.timedelta(seconds=spec))
        elif isinstance(spec, str):
            try:
                import zoneinfo
                z = zoneinfo.ZoneInfo(spec)
            except Exception:
                z = Rule(3600, 3600, 3, 28, 10, 27, 2)
        elif len(spec) == 2:
            z = dt.timezone(dt.timedelta(seconds=spec[0]), spec[1])
        else:
            if spec[1] < 0:      # negative saving: same as positive saving the other half of the year
                spec = [spec[0] + spec[1], -spec[1], spec[4], spec[5], spec[2], spec[3], spec[6]]
            z = Rule(*spec)
        if len(_zcache) > 5000:
            _zcache.clear()
        _zcache[key] = z
    return _zcache[key]


def fd(**kw):
    return st.fixed_dictionaries(kw)


def season(d):
    return "%s%s" % ("<1972 " if d.year < 1972 else ">2026 " if d.year > 2026 else "", "")
