"""Setup: the reference model against the US Naval Observatory's own values and the Astronomical
Almanac's low precision formulas, and the oracles of the driver against seeded faults.
Does not import pysolar."""
import datetime as dt
import os
import random
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, "lib")]
import ref
import gen
import rest_ref


def usno():
    worst, n = 0.0, 0
    for line in open(os.path.join(V, "data", "usno_sample.txt")):
        w = line.split()
        if len(w) != 7:
            continue
        d = dt.datetime.fromisoformat(w[0] + "T" + w[1] + "+00:00")
        lat, lon, el, az, z = map(float, w[2:])
        a, h, _ = ref.Sun(d).horizontal(lat, lon, el)
        worst = max(worst, ref.separation(az, 90 - z, a, h))
        n += 1
    assert n > 900 and worst < 0.0024, (n, worst)
    return "%d USNO rows within %.4f degree" % (n, worst)


def almanac():
    rnd = random.Random(7)
    worst = 0.0
    for _ in range(2000):
        d = dt.datetime(1950, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=rnd.randrange(100 * 365 * 86400))
        ra, dec, gmst, r = ref.almanac_sun(d)
        lat, lon = rnd.uniform(-89, 89), rnd.uniform(-180, 180)
        az, alt, _ = ref.Sun(d).horizontal(lat, lon, 0.0)
        z = ref.horizon_frame(lat, dec, gmst + lon - ra)
        worst = max(worst, ref.separation(az, alt, z[0], z[1]))
    assert worst < 0.02, worst
    return "almanac formulas within %.4f degree" % worst


def zones():
    """the daylight-saving zones of the generators are consistent"""
    rnd = random.Random(3)
    for _ in range(3000):
        z = gen.zone([rnd.randrange(-44, 48) * 900, rnd.choice([3600, 1800, 7200, -3600]), rnd.randrange(1, 7), rnd.randrange(2, 28), rnd.randrange(7, 13), rnd.randrange(2, 28), rnd.randrange(1, 4)])
        u = dt.datetime(2001, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(minutes=rnd.randrange(525600))
        assert u.astimezone(z).astimezone(dt.timezone.utc) == u, (z, u)
    return "zones round trip"


if __name__ == "__main__":
    for f in (usno, almanac, zones):
        print("selftest %s: %s" % (f.__name__, f()))
