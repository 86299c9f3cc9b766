import numpy as np
from common import *

preload("numpy", "math", "blocked")
defects()
BACK = gen.sampled(["numpy", "math", "blocked"])


def fast(L, lat, lon, d):
    alt = num("fast altitude", call("get_altitude_fast", L.solar.get_altitude_fast, lat, lon, d))
    az = num("fast azimuth", call("get_azimuth_fast", L.solar.get_azimuth_fast, lat, lon, d))
    return az, alt


def season(d, lat, alt, az):
    s = "summer" if (4 <= d.month <= 9) == (lat >= 0) else "winter"
    return "%s %s %s" % (s, "am" if az < 180 else "pm", "day" if alt > 0 else "night")


def close(case):
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat, lon = case["lat"], case["lon"]
    az, alt = fast(L, lat, lon, d)
    paz, palt = call("get_position", L.solar.get_position, lat, lon, d, pressure=0.0)
    s = ref.separation(az, alt, float(paz), float(palt))
    if s > 1.7:
        fail("fast position %r is %.3f degrees from the precise one %r" % ((az, alt), s, (float(paz), float(palt))))
    return season(ref.utc(d), lat, alt, az)


def formula(case):
    """the horizontal coordinates of the published declination and hour angle"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat, lon = case["lat"], case["lon"]
    az, alt = fast(L, lat, lon, d)
    ea, eh, hor = ref.fast_horizontal(lat, lon, d)
    near("fast altitude", alt, eh, 1e-6 / max(hor, 1e-3) + 1e-9)
    # asin near due east or west loses half the digits
    if ref.angdiff(az, ea) * hor > 3e-6 + 1e-9 / max(hor, 1e-9):
        fail("fast azimuth %r, by rotation %r (altitude %r)" % (az, ea, alt))
    L2 = lib.get("numpy")
    dec = float(call("get_declination", L.solar.get_declination, ref.yday(d)))
    ha = float(call("get_hour_angle", L.solar.get_hour_angle, d, lon))
    fa, fh, _ = ref.horizon_frame(lat, dec, ha)
    near("fast altitude from get_declination and get_hour_angle", alt, fh, 1e-6 / max(hor, 1e-3) + 1e-9)
    return season(ref.utc(d), lat, alt, az)


def quadrant(case):
    """sun due north, south, east or west of the place according to the fast model, then a little to either side"""
    L = lib.get(case["backend"])
    d = when(case["t"])
    lat = case["lat"]
    dec = ref.fast_declination(ref.yday(d))
    h0 = ref.fast_hour_angle(0.0, d)
    if case["to"] in (0, 180):
        ha = case["to"]
    else:
        # due east or west: tan dec = tan lat cos H
        x = math.tan(math.radians(dec)) / math.tan(math.radians(lat)) if abs(lat) > 0.5 else 2.0
        if abs(x) > 1:
            return None
        ha = case["to"] / 90.0 * math.degrees(math.acos(x))
    lon = ref.wrap180(ha - h0 + case["n"] / 100.0)
    az, alt = fast(L, lat, lon, d)
    ea, eh, hor = ref.fast_horizontal(lat, lon, d)
    near("fast altitude", alt, eh, 1e-6 / max(hor, 1e-3) + 1e-9)
    if ref.angdiff(az, ea) * hor > 3e-6 + 1e-9 / max(hor, 1e-9):
        fail("fast azimuth %r, by rotation %r (altitude %r)" % (az, ea, alt))
    return "near %d %s" % (round(ea / 90.0) * 90 % 360, "N" if lat > 0 else "S")


PL = dict(lat=gen.lats(), lon=gen.lons(), backend=BACK)
MODERN = gen.one_of(gen.zoned("modern"), gen.whens("modern", off=gen.just(0)))
CHECK = Check("C09", [
    Clause("close_to_precise", fd(t=MODERN, **PL), close, 12000, nontrivial="all; class: season, morning or afternoon, day or night"),
    Clause("formula", fd(t=gen.zoned(), **PL), formula, 14000, nontrivial="all; class as above"),
    Clause("quadrants", fd(t=gen.zoned(), lat=gen.lats(-89, 89), to=gen.sampled([0, 180, 90, -90]), n=gen.integers(-50, 50), backend=BACK), quadrant, 8000,
           nontrivial="the model's sun reaches that direction; class: direction, hemisphere"),
], rule="places and instants over the whole sky, and directions around the four cardinal points; fast position against the precise one and against the rotation "
        "of the published declination and hour angle",
    assumptions=["1.7 degrees covers the error of the day-number model (1.52 measured), including up to a minute of truncated time"])
