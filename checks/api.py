"""The public functions that take a date-time, with generators for their other arguments."""
from common import *

# module, function, required parameters, optional parameters; 'when' is the date-time
TIMED = [
    ("solar", "get_position", ("latitude_deg", "longitude_deg", "when"), ("elevation", "temperature", "pressure")),
    ("solar", "get_altitude", ("latitude_deg", "longitude_deg", "when"), ("elevation", "temperature", "pressure")),
    ("solar", "get_azimuth", ("latitude_deg", "longitude_deg", "when"), ("elevation",)),
    ("solar", "get_topocentric_position", ("latitude_deg", "longitude_deg", "when"), ("elevation",)),
    ("solar", "get_altitude_fast", ("latitude_deg", "longitude_deg", "when"), ()),
    ("solar", "get_azimuth_fast", ("latitude_deg", "longitude_deg", "when"), ()),
    ("solar", "get_hour_angle", ("when", "longitude_deg"), ()),
    ("solar", "get_solar_time", ("longitude_deg", "when"), ()),
    ("solartime", "get_leap_seconds", ("when",), ()),
    ("solartime", "get_delta_t", ("when",), ()),
    ("solartime", "get_julian_solar_day", ("when",), ()),
    ("solartime", "get_julian_ephemeris_day", ("when",), ()),
    ("radiation", "get_radiation_direct", ("when", "altitude_deg"), ()),
    ("util", "mean_earth_sun_distance", ("when",), ()),
    ("util", "extraterrestrial_irrad", ("latitude_deg", "longitude_deg", "when"), ("SC",)),
    ("util", "declination_degree", ("when",), ("TY",)),
    ("util", "solarelevation_function_clear", ("latitude_deg", "longitude_deg", "when"), ("temperature", "pressure", "elevation")),
    ("util", "solarelevation_function_overcast", ("latitude_deg", "longitude_deg", "when"), ("elevation", "temperature", "pressure")),
    ("util", "diffuse_underclear", ("latitude_deg", "longitude_deg", "when"), ("elevation", "temperature", "pressure", "TL")),
    ("util", "diffuse_underovercast", ("latitude_deg", "longitude_deg", "when"), ("elevation", "temperature", "pressure", "TL")),
    ("util", "direct_underclear", ("latitude_deg", "longitude_deg", "when"), ("TY", "AM", "TL", "elevation", "temperature", "pressure")),
    ("util", "global_irradiance_clear", ("latitude_deg", "longitude_deg", "when"), ("TY", "AM", "TL", "elevation", "temperature", "pressure")),
    ("util", "global_irradiance_overcast", ("latitude_deg", "longitude_deg", "when"), ("elevation", "temperature", "pressure")),
    ("util", "clear_index", ("ghi_data", "latitude_deg", "longitude_deg", "when"), ()),
]
LOCAL = [
    ("util", n, ("latitude_deg", "longitude_deg", "when"), ())
    for n in ("get_sunrise_sunset_transit", "get_sunrise_sunset", "get_sunrise_time", "get_sunset_time", "get_transit_time")
]

SHORT = {"latitude_deg": "lat", "longitude_deg": "lon", "elevation": "el", "temperature": "T", "pressure": "P", "TL": "TL", "AM": "AM",
         "TY": "TY", "SC": "SC", "ghi_data": "ghi", "altitude_deg": "alt"}


def others():
    """values for every parameter but the date-time"""
    return fd(lat=gen.lats(), lon=gen.lons(), el=gen.elevations(), T=gen.temperatures(True), P=gen.pressures(True),
              TL=gen.one_of(gen.integers(10, 80).map(lambda k: k / 10.0), gen.just(1.0), gen.integers(0, 250).map(lambda k: k / 10.0)), AM=gen.one_of(gen.integers(10, 100).map(lambda k: k / 10.0), gen.integers(0, 400).map(lambda k: k / 10.0)),
              TY=gen.sampled([365, 366, 365.25, 360]), SC=gen.one_of(gen.just(1367.0), gen.integers(1300, 1420).map(float)),
              ghi=gen.integers(0, 1200).map(float), alt=gen.one_of(gen.integers(-90, 90).map(float), gen.integers(-2000, 2000).map(lambda k: k / 1000.0)))


def values(entry, o, d):
    return [d if p == "when" else o[SHORT[p]] for p in entry[2] + entry[3]]


def func(L, entry):
    m = getattr(L, entry[0])
    f = getattr(m, entry[1], None)
    if f is None:
        fail("%s.%s does not exist" % (entry[0], entry[1]))
    return f


def index(table):
    """a strategy for an entry of the table, by name, precise position functions more often"""
    names = [e[1] for e in table]
    return gen.sampled(names)


def entry(name):
    for e in TIMED + LOCAL:
        if e[1] == name:
            return e
    raise KeyError(name)


def flat(v):
    """result as a list of floats"""
    try:
        if isinstance(v, (tuple, list)):
            return [float(x) for x in v]
        return [float(v)]
    except Exception:
        fail("result %r is not made of numbers" % (v,))


def same_result(desc, name, a, b, tol):
    """two results of function `name` agree; azimuths modulo a turn, weighted when an altitude is known"""
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        fail("%s: %r and %r" % (desc, a, b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y or (math.isnan(x) and math.isnan(y)):
            continue
        t = tol * max(1.0, abs(x), abs(y))
        if name == "get_position" and i == 0:
            d = ref.angdiff(x, y) * math.cos(math.radians(min(90.0, abs(b[1]))))
        elif name in ("get_azimuth", "get_azimuth_fast") or (name == "get_topocentric_position" and i == 1):
            d = ref.angdiff(x, y)
        else:
            d = abs(x - y)
        if not d <= t:
            fail("%s: %r and %r differ by %.3g" % (desc, x, y, d))
