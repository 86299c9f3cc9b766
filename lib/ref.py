"""Reference models the checks compare pysolar with.

Written from the publications, not from pysolar's code: plain Python floats, vectors for the
geometry (observer parallax is a vector subtraction, the horizon frame a rotation), integer
microseconds for time.  Nothing here imports pysolar.
"""
import datetime as _dt
import math
from math import sin, cos, tan, asin, acos, atan, atan2, radians, degrees, pi, exp, log, sqrt

from spa_tables import L, B, R, NUTATION, DELTA_T, DELTA_T_FIRST, LEAP_DATES

UTC = _dt.timezone.utc
_J2000 = _dt.datetime(2000, 1, 1, 12, tzinfo=UTC)
US_DAY = 86400 * 10 ** 6
TT_TAI = 32.184
STD_P = 101325.0
STD_T = 288.15
EARTH_RADIUS = 6378140.0


# ---------------------------------------------------------------- time scales
def utc(when):
    return when.astimezone(UTC)


def leap_seconds(when):
    """TAI-UTC at an instant (10 s, the value of 1 Jan 1972, before that date)."""
    u = utc(when)
    key = (u.year, u.month, u.day)
    return 10 + sum(1 for d in LEAP_DATES if d <= key)


def delta_t(when):
    """Tabulated TT-UT1 of the UTC month of the instant, first/last entry outside the table."""
    u = utc(when)
    i = (u.year - DELTA_T_FIRST[0]) * 12 + (u.month - DELTA_T_FIRST[1])
    return DELTA_T[min(max(i, 0), len(DELTA_T) - 1)]


def micros_j2000(when):
    """Integer microseconds of UTC-labelled time since 2000-01-01T12:00."""
    d = utc(when) - _J2000
    return (d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds


def tt_days(when):
    """Days of TT since J2000.0"""
    return micros_j2000(when) / US_DAY + (leap_seconds(when) + TT_TAI) / 86400.0


def ut1_days(when):
    return micros_j2000(when) / US_DAY + (leap_seconds(when) + TT_TAI - delta_t(when)) / 86400.0


def yday(when):
    u = utc(when)
    return (_dt.date(u.year, u.month, u.day) - _dt.date(u.year, 1, 1)).days + 1


def wrap180(x):
    """to [-180, 180)"""
    return (x + 180.0) % 360.0 - 180.0


def angdiff(a, b):
    return abs(wrap180(a - b))


# ---------------------------------------------------------------- ephemeris (SPA)
def poly_series(tab, jme):
    return math.fsum(a * cos(b + c * jme) * jme ** k for k, g in enumerate(tab) for a, b, c in g)


def helio_longitude(jme):
    return degrees(poly_series(L, jme) / 1e8) % 360.0


def helio_latitude(jme):
    return degrees(poly_series(B, jme) / 1e8)


def sun_distance(jme):
    return poly_series(R, jme) / 1e8


def nutation(jce):
    T = jce
    args = (
        297.85036 + 445267.111480 * T - 0.0019142 * T ** 2 + T ** 3 / 189474.0,
        357.52772 + 35999.050340 * T - 0.0001603 * T ** 2 - T ** 3 / 300000.0,
        134.96298 + 477198.867398 * T + 0.0086972 * T ** 2 + T ** 3 / 56250.0,
        93.27191 + 483202.017538 * T - 0.0036825 * T ** 2 + T ** 3 / 327270.0,
        125.04452 - 1934.136261 * T + 0.0020708 * T ** 2 + T ** 3 / 450000.0,
    )
    psi, eps = [], []
    for y, (a, b, c, d) in NUTATION:
        arg = radians(math.fsum(m * v for m, v in zip(y, args)))
        psi.append((a + b * T) * sin(arg))
        eps.append((c + d * T) * cos(arg))
    return math.fsum(psi) / 3.6e7, math.fsum(eps) / 3.6e7


def obliquity(jme, deps):
    u = jme / 10.0
    p = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)
    s = 0.0
    for c in reversed(p):
        s = s * u + c
    return s / 3600.0 + deps


def mean_sidereal(ut1):
    """degrees, ut1 in days since J2000.0"""
    T = ut1 / 36525.0
    return (280.46061837 + 360.98564736629 * ut1 + 0.000387933 * T * T - T ** 3 / 38710000.0) % 360.0


def aberration(r):
    return -20.4898 / (3600.0 * r)


def parallax(r):
    return 8.794 / (3600.0 * r)


DEFECTS = ("sidereal", "parallax", "declination")


class Sun:
    """Everything about the sun that depends on time only.  `defects` switches on the recorded
    known findings one by one (see known_findings.txt), nothing else."""

    def __init__(self, when, defects=()):
        tt, ut1 = tt_days(when), ut1_days(when)
        jce = tt / 36525.0
        jme = jce / 10.0
        self.jme, self.jce, self.ut1 = jme, jce, ut1
        self.r = sun_distance(jme)
        lam = helio_longitude(jme) + 180.0
        beta = -helio_latitude(jme)
        self.geo_lon, self.geo_lat = lam % 360.0, beta
        self.dpsi, self.deps = nutation(jce)
        self.eps = obliquity(jme, self.deps)
        self.app_lon = lam + self.dpsi + aberration(self.r)
        le, be, e = radians(self.app_lon), radians(beta), radians(self.eps)
        # ecliptic -> equatorial by rotation
        x, y, z = cos(be) * cos(le), cos(be) * sin(le), sin(be)
        yq, zq = y * cos(e) - z * sin(e), y * sin(e) + z * cos(e)
        self.ra = degrees(atan2(yq, x)) % 360.0
        self.dec = degrees(atan2(zq, math.hypot(x, yq)))
        self.xi = 8.794 * self.r / 3600.0 if "parallax" in defects else parallax(self.r)
        self.gst = mean_sidereal(ut1) + self.dpsi * (cos(self.eps) if "sidereal" in defects else cos(e))
        self.y_in_dec = "declination" in defects

    def local(self, lat, lon, elev):
        """topocentric (declination, hour angle) in degrees"""
        h = radians(wrap180(self.gst + lon - self.ra))
        d, s = radians(self.dec), sin(radians(self.xi))
        px, py = observer(lat, elev)
        rho = cos(d) - px * s * cos(h)
        trans = px * s * sin(h)
        ht = h + atan2(trans, rho)
        if self.y_in_dec:
            da = atan2(-trans, rho)
            dt_ = atan2((sin(d) - py * s) * cos(da), cos(d) - py * s * cos(h))
        else:
            dt_ = atan2(sin(d) - py * s, math.hypot(rho, trans))
        return degrees(dt_), degrees(ht)

    def horizontal(self, lat, lon, elev):
        """geometric (azimuth, altitude, horizontal vector length) in degrees"""
        dec, h = self.local(lat, lon, elev)
        return horizon_frame(lat, dec, h)


def observer(lat, elev):
    """(distance from axis, distance from equatorial plane) in earth radii"""
    f = 0.99664719
    c, s = cos(radians(lat)), sin(radians(lat))
    n = math.hypot(c, f * s)
    # u = atan(f tan lat)
    return c / n + elev * c / EARTH_RADIUS, f * (f * s / n) + elev * s / EARTH_RADIUS


def horizon_frame(lat, dec, ha):
    """azimuth east of north, altitude and horizontal component of a direction, by rotation"""
    la, d, h = radians(lat), radians(dec), radians(ha)
    # equatorial frame: meridian, west, pole
    m, w, p = cos(d) * cos(h), cos(d) * sin(h), sin(d)
    up = m * cos(la) + p * sin(la)
    north = p * cos(la) - m * sin(la)
    hor = math.hypot(north, w)
    return degrees(atan2(-w, north)) % 360.0, degrees(atan2(up, hor)), hor


def unit(az, alt):
    a, h = radians(az), radians(alt)
    return (cos(h) * cos(a), cos(h) * sin(a), sin(h))


def separation(az1, alt1, az2, alt2):
    """angle between two directions, degrees (well conditioned for small angles)"""
    u, v = unit(az1, alt1), unit(az2, alt2)
    d = sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
    return degrees(2 * asin(min(1.0, d / 2)))


REFRACTION_CUTOFF = -(0.26667 + 0.5667)


def refraction(p_pa, t_k, e0):
    """SPA eq. 42 (P in mbar, T in deg C there); zero when the sun is wholly below the horizon"""
    if e0 < REFRACTION_CUTOFF:
        return 0.0
    return (p_pa / 100.0 / 1010.0) * (283.0 / (273.0 + (t_k - 273.0))) * 1.02 / (
        60.0 * tan(radians(e0 + 10.3 / (e0 + 5.11))))


# ---------------------------------------------------------------- low precision sun, for the oracle itself
def almanac_sun(when):
    """Astronomical Almanac low-precision formulas: (ra, dec, gmst, r), 0.01 deg over 1950..2050"""
    n = tt_days(when)
    l = 280.460 + 0.9856474 * n
    g = radians(357.528 + 0.9856003 * n)
    lam = radians(l + 1.915 * sin(g) + 0.020 * sin(2 * g))
    e = radians(23.439 - 0.0000004 * n)
    ra = degrees(atan2(cos(e) * sin(lam), cos(lam))) % 360
    dec = degrees(asin(sin(e) * sin(lam)))
    gmst = (280.46061837 + 360.98564736629 * ut1_days(when)) % 360
    return ra, dec, gmst, 1.00014 - 0.01671 * cos(g) - 0.00014 * cos(2 * g)


# ---------------------------------------------------------------- day-of-year approximations (Masters)
def fast_declination(day):
    return 23.45 * sin(radians(360.0 / 365.0 * (day - 81)))


def equation_of_time(day):
    b = radians(360.0 / 364.0 * (day - 81))
    return 9.87 * sin(2 * b) - 7.53 * cos(b) - 1.5 * sin(b)


def solar_time(lon, when):
    u = utc(when)
    return (u.hour * 60 + u.minute + 4.0 * lon + equation_of_time(yday(when))) / 60.0


def fast_hour_angle(lon, when):
    return 15.0 * (solar_time(lon, when) - 12.0)


def fast_horizontal(lat, lon, when):
    return horizon_frame(lat, fast_declination(yday(when)), fast_hour_angle(lon, when))


# ---------------------------------------------------------------- radiation
def apparent_flux(day):
    return 1160.0 + 75.0 * sin(2 * pi / 365 * (day - 275))


def optical_depth(day):
    return 0.174 + 0.035 * sin(2 * pi / 365 * (day - 100))


def radiation_direct(day, alt):
    if not alt > 0:
        return 0.0
    s = sin(radians(alt))
    if s <= 0:
        return 0.0
    x = optical_depth(day) / s
    return apparent_flux(day) * (exp(-x) if x < 700 else 0.0)


def extraterrestrial(lat, lon, when, sc=1367.0):
    day = yday(when)
    g = 2 * pi * (day - 1) / 365
    e0 = 1.00010 + 0.034221 * cos(g) + 0.001280 * sin(g) + 0.000719 * cos(2 * g) + 0.000077 * sin(2 * g)
    _, alt, _ = fast_horizontal(lat, lon, when)
    return max(0.0, sc * e0 * sin(radians(alt)))


def pressure_at(h, Ps=STD_P, Ts=STD_T, Tl=-0.0065, Hb=0.0, R=8.31432, g=9.80665, M=0.0289644):
    """ICAO barometric formula with lapse"""
    return Ps * exp(-(g * M) / (R * Tl) * log((Ts + Tl * (h - Hb)) / Ts))


def incidence(zenith, slope, orient, az):
    """angle between the sun (zenith, azimuth from north) and the normal of a panel tilted by
    `slope` whose downhill direction has azimuth 180 + orient; from vectors"""
    s = unit(az, 90.0 - zenith)
    n = unit(180.0 + orient, 90.0 - slope)
    c = sum(a * b for a, b in zip(s, n))
    x = (s[1] * n[2] - s[2] * n[1], s[2] * n[0] - s[0] * n[2], s[0] * n[1] - s[1] * n[0])
    return degrees(atan2(sqrt(sum(v * v for v in x)), c))


# ---------------------------------------------------------------- sunrise / sunset / transit
def rise_set_model(lat, lon, local_day):
    """(solar declination, equation of time in hours, half day length in hours or None) of the
    published day-number model, argument: day number of the local date"""
    w = 2 * pi * local_day / 366
    dec = (0.322003 - 22.971 * cos(w) - 0.357898 * cos(2 * w) - 0.14398 * cos(3 * w)
           + 3.94638 * sin(w) + 0.019334 * sin(2 * w) + 0.05928 * sin(3 * w))
    t = radians(279.134 + 0.985647 * local_day)
    eot = (5.0323 - 100.976 * sin(t) + 595.275 * sin(2 * t) + 3.6858 * sin(3 * t) - 12.47 * sin(4 * t)
           - 430.847 * cos(t) + 12.5024 * cos(2 * t) + 18.25 * cos(3 * t)) / 3600.0
    # zenith 90.833: cos z = sin lat sin dec + cos lat cos dec cos H
    la, d = radians(lat), radians(dec)
    den = cos(la) * cos(d)
    num = cos(radians(90.833)) - sin(la) * sin(d)
    if abs(num) >= abs(den):
        return dec, eot, None, abs(num) - abs(den)
    return dec, eot, degrees(acos(num / den)) / 15.0, abs(num) - abs(den)
