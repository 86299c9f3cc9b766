import contextlib
import copy
import io
import itertools
import os
import random
import sys
import threading
import time
import warnings

import numpy as np
from api import *
import c11

ALL = TIMED + LOCAL
NAMES = [e[1] for e in ALL]
HEAVY = ["get_position", "get_altitude", "get_azimuth", "get_altitude_fast", "get_azimuth_fast", "get_radiation_direct", "get_sunrise_sunset_transit", "get_julian_solar_day",
         "get_delta_t", "get_leap_seconds", "global_irradiance_clear", "get_topocentric_position", "extraterrestrial_irrad", "mean_earth_sun_distance", "solarelevation_function_clear"]
US = dt.timedelta(microseconds=1)
SHIFTS = [0, 1, -1, 1000, 10 ** 6, -10 ** 6, 10 ** 6 * 7, 6 * 10 ** 7, 3600 * 10 ** 6, -3600 * 10 ** 6, 43200 * 10 ** 6, 86400 * 10 ** 6, -86400 * 10 ** 6, 365 * 86400 * 10 ** 6, 31 * 86400 * 10 ** 6]
OFFS = [None, None, None, 0, 3600, -3600, 19800, 53]


def same_op():
    timed = gen.st.tuples(gen.just("t"), gen.sampled(NAMES + HEAVY), gen.whens(off=gen.one_of(gen.just(0), gen.integers(-14, 14).map(lambda h: 3600 * h))), others()).map(list)
    plain = gen.sampled(c11.PLAIN_NAMES).flatmap(lambda n: gen.st.tuples(gen.just("p"), gen.just(n), gen.st.tuples(*c11.PLAIN[n][1]))).map(list)
    return gen.one_of(timed, timed, timed, plain)


def plain_op():
    return gen.sampled(c11.PLAIN_NAMES).flatmap(lambda n: gen.st.tuples(gen.just("p"), gen.just(n), gen.st.tuples(*c11.PLAIN[n][1]))).map(list)


# a variation of a call: what to change, by how much
VARY = gen.st.tuples(gen.sampled(["none", "none", "time", "time", "zone", "wall", "fold", "fold", "lat", "lon", "neg", "el", "T", "P", "swap", "TL", "int", "fn", "hash"]),
                     gen.integers(0, 14)).map(list)


FOLDS = [("2021-10-31T00:30:00+00:00", "Europe/Berlin"), ("2020-11-01T05:10:00+00:00", "America/New_York"), ("2017-01-01T23:20:00+00:00", [0, 3600, 6, 10, 1, 2, 1])]


def moment(op):
    d = when(op[2])
    return d if len(op) < 5 else d.astimezone(gen.zone(op[4]))


def nearly(x, by):
    if isinstance(x, dict):
        return {q: nearly(y, by) for q, y in x.items()}
    if isinstance(x, str):
        return {"high-frequency": "low-frequency", "low-frequency": "high-frequency"}.get(x, x)
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return x
    return (int(x) if by == "int" else float(x)) if isinstance(by, str) else x * (1 - by)


def vary(op, v):
    what, k = v
    if what == "none":
        return op
    if op[0] == "p":            # one of the arguments a little nearer to zero, or a whole number, or the other band
        args = list(op[2])
        i = k % len(args)
        args[i] = nearly(args[i], [1e-12, 1e-9, 1e-6, 1e-4, 0.003, 0.02, 0.3, "int", "float"][(k + len(what)) % 9])
        return ["p", op[1], args]
    o = dict(op[3])
    d = when(op[2])
    name = op[1]
    if what == "fold":
        # the two occurrences of one wall clock time, which compare equal, and the same instants in UTC
        t = FOLDS[k % 3]
        d = when(t[0]) + US * ([0, 3600, 0, 3600][k % 4] * 10 ** 6)
        return [op[0], name, d.isoformat(), o] + ([t[1]] if k % 4 < 2 else [])
    if what == "time":
        d = d + US * SHIFTS[k]
    elif what == "zone":
        d = gen.in_offset(d, [0, 3600, -18000, 20700, 53, 86399, -86399][k % 7])
    elif what == "wall":        # same reading of the clock in another zone: another instant
        d = d.replace(tzinfo=dt.timezone(dt.timedelta(seconds=[0, 3600, -18000, 20700, 53, 36000][k % 6])))
    elif what == "lat":
        o["lat"] = max(-90.0, min(90.0, o["lat"] + [1e-9, 1e-6, 1e-4, 0.004, 0.01, 0.4, 1.0][k % 7] * (-1 if o["lat"] > 0 else 1)))
    elif what == "lon":
        o["lon"] = o["lon"] + [1e-9, 1e-6, 1e-4, 0.004, 0.01, 0.4, 1.0, 360.0, 180.0][k % 9]
    elif what == "neg":
        o["lat"] = -o["lat"] if k & 1 else o["lat"]
        o["lon"] = -o["lon"] if k & 2 else o["lon"]
        o["alt"] = -o["alt"] if k & 4 else o["alt"]
    elif what == "el":
        o["el"] = [0.0, 0.3, 100.0, 8000.0][k % 4]
    elif what == "T":
        o["T"] = [288.15, 288.5, 250.0][k % 3]
    elif what == "P":
        o["P"] = [101325.0, 101000.0, 0.0, 50000.0][k % 4]
    elif what == "swap":
        o["T"], o["P"] = 300.0, 90000.0
        o["lat"], o["lon"] = max(-90.0, min(90.0, o["lon"] % 90.0)), o["lat"]
    elif what == "TL":
        o["TL"], o["AM"], o["TY"], o["SC"] = [1.0, 2.5, 3.0][k % 3], [2.0, 1.0][k % 2], [365, 366][k % 2], [1367.0, 1000.0][k % 2]
    elif what == "int":
        o["lat"], o["lon"] = int(o["lat"]), int(o["lon"])
    elif what == "hash":      # numbers with the same hash
        o["lat"], o["lon"] = [(-1.0, -2.0), (-2.0, -1.0), (-1, -2), (-2, -1), (-2.0, 7.5), (-1.0, 7.5), (0.0, -0.0)][k % 7]
        o["alt"] = [-1.0, -2.0][k % 2]
    elif what == "fn":
        name = (NAMES + HEAVY)[k % len(NAMES)]
    return [op[0], name, d.isoformat(), o]


def keywords(op, how):
    """positional arguments, or all by keyword, or only the required ones"""
    e = entry(op[1])
    names = e[2] + e[3]
    vals = values(e, op[3], moment(op))
    if how == 0:
        return vals, {}
    if how == 1:
        return [], dict(zip(names, vals))
    return vals[:len(e[2])], {}


def run_op(L, op, how=0):
    with L.active():
        return run_in(L, op, how)


def run_in(L, op, how):
    try:
        if op[0] == "t":
            a, kw = keywords(op, how)
            r = func(L, entry(op[1]))(*a, **kw)
        else:
            r = getattr(getattr(L, c11.PLAIN[op[1]][0]), op[1])(*op[2])
    except (ArithmeticError, ValueError) as x:
        return type(x).__name__
    except Exception as x:
        fail("%s raised %s: %s" % (op[1], type(x).__name__, x))
    return norm(r)


def norm(r):
    if isinstance(r, (tuple, list)):
        return [norm(x) for x in r]
    if isinstance(r, dict):
        return [norm(r[k]) for k in sorted(r)]
    if isinstance(r, dt.datetime):
        return r.isoformat()
    if isinstance(r, np.ndarray) and r.ndim:
        return [norm(x) for x in r]
    return float(r)


def alike(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-12 * max(1.0, abs(a))
    return a == b


TABLES = [("constants", n) for n in ("earth_radius", "earth_axis_inclination", "seconds_per_day", "standard_pressure", "standard_temperature", "celsius_offset", "earth_temperature_lapse_rate",
                                     "air_gas_constant", "earth_gravity", "earth_atmosphere_molar_mass", "aberration_sin_terms", "nutation_coefficients", "heliocentric_longitude_coeffs",
                                     "heliocentric_latitude_coeffs", "sun_earth_distance_coeffs")] + \
         [("solartime", n) for n in ("julian_day_offset", "gregorian_day_offset", "tt_offset", "leap_seconds_base_year", "leap_seconds_adjustments", "delta_t_base_year", "delta_t_base_month", "delta_t")] + \
         [("util", n) for n in ("AM_default", "TL_default", "SC_default", "TY_default", "elevation_default")] + [("rest", n) for n in ("albedo", "standard_pressure_millibars", "un", "E0n")]


def tables(L):
    return {"%s.%s" % t: repr(getattr(getattr(L, t[0]), t[1])) for t in TABLES if hasattr(getattr(L, t[0]), t[1])}


def world():
    return {"environment": dict(os.environ), "numpy error state": np.geterr(), "random state": hash(random.getstate()), "time zone": time.tzname, "working directory": os.getcwd(),
            "recursion limit": sys.getrecursionlimit(), "print options": repr(np.get_printoptions()), "warning filters": repr(warnings.filters), "warning display": repr(warnings.showwarning),
            "numpy random": hash(np.random.get_state()[1].tobytes())}


BASE = dict(filters=list(warnings.filters), display=warnings.showwarning, err=dict(np.geterr()), cwd=os.getcwd(), env=dict(os.environ), limit=sys.getrecursionlimit(), show=np.get_printoptions(),
            random=random.getstate(), np=np.random.get_state())


def settle():
    """the process as it was at the start, so that every case sees what its calls change"""
    if warnings.filters != BASE["filters"]:
        warnings.filters[:] = BASE["filters"]
        warnings._filters_mutated() if hasattr(warnings, "_filters_mutated") else None
    warnings.showwarning = BASE["display"]
    if np.geterr() != BASE["err"]:
        np.seterr(**BASE["err"])
    if dict(os.environ) != BASE["env"]:
        os.environ.clear()
        os.environ.update(BASE["env"])
        time.tzset()
    if os.getcwd() != BASE["cwd"]:
        os.chdir(BASE["cwd"])
    if sys.getrecursionlimit() != BASE["limit"]:
        sys.setrecursionlimit(BASE["limit"])
    if repr(np.get_printoptions()) != repr(BASE["show"]):
        np.set_printoptions(**{k: v for k, v in BASE["show"].items() if k != "override_repr"})
    random.setstate(BASE["random"])
    np.random.set_state(BASE["np"])


def build(case):
    ops = []
    for i, v, how in case["seq"]:
        ops.append((vary(case["pool"][i % len(case["pool"])], v), how))
    return ops


# all near repeats of a call, those that are most alike next to each other
NEAR = [("none", 0), ("none", 0)] + [("fold", k) for k in (0, 9, 4, 1, 8, 5)] + [("zone", k) for k in range(7)] + [("wall", k) for k in range(6)] + [("lat", k) for k in range(7)] + \
    [("none", 0)] + [("lon", k) for k in range(9)] + [("none", 0)] + [("neg", k) for k in range(8)] + [(w, k) for w in ("el", "T", "P", "TL") for k in range(4)] + [("int", 0), ("none", 0), ("swap", 0)] + \
    [("hash", k) for k in range(7)] + [("time", k) for k in range(len(SHIFTS))]


def history(case):
    """the sequence on one copy; each distinct call alone on a copy of its own (the last distinct ones)"""
    ops = build(case)
    settle()
    A = lib.Lib("math" if case["math"] else None)
    before, w0 = tables(A), world()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = [run_op(A, op, how) for op, how in ops]
        # the same calls in another order on a copy with no past
        order = list(range(len(ops)))
        random.Random(case["shuffle"]).shuffle(order)
        B = lib.Lib("math" if case["math"] else None)
        other = {i: run_op(B, *ops[i]) for i in order}
        # and a few each in a process of their own, so to say
        alone = {i: run_op(lib.Lib("math" if case["math"] else None), *ops[i]) for i in {len(ops) - 1, len(ops) // 2}}
    if out.getvalue():
        fail("output on stdout: %r" % out.getvalue()[:200])
    for i, (op, how) in enumerate(ops):
        if not alike(got[i], other[i]):
            fail("%s%r: %r as call %d of the sequence, %r in another order" % (op[1], tuple(op[2:]), got[i], i, other[i]))
        if i in alone and not alike(got[i], alone[i]):
            fail("%s%r: %r as call %d of the sequence, %r alone" % (op[1], tuple(op[2:]), got[i], i, alone[i]))
    after, w1 = tables(A), world()
    for k in before:
        if after.get(k) != before[k]:
            fail("%s changed" % k)
    for k in w0:
        if w0[k] != w1[k]:
            fail("calls changed the %s of the process" % k)
    near_same = sum(1 for _, v, _ in case["seq"] if v[0] != "none")
    return "repeats and near repeats" if near_same and len(case["seq"]) > len(case["pool"]) else None


def near_repeats(case):
    """one function of numbers, with arguments nearly the same"""
    seq = [[0, [w, k], 0] for w in ("none", "lat", "zone") for k in range(15)]
    seq = [x for y in zip(seq[15:30], seq[:15], seq[30:]) for x in y]
    history(dict(pool=[case["op"]], seq=seq, math=case["math"], shuffle=case["shuffle"]))
    return case["op"][1]


def threads(case):
    """the same calls from several threads on one copy"""
    ops = build(case)
    mode = "math" if case["math"] else None
    want = [run_op(lib.get("math" if case["math"] else "numpy"), *x) for x in ops]
    S = lib.Lib(mode)
    n = case["n"]
    res = [None] * n
    old = sys.getswitchinterval()
    start = threading.Barrier(n)

    def work(k):
        idx = list(range(len(ops)))
        random.Random(case["shuffle"] + k).shuffle(idx)
        try:
            start.wait(20)
            res[k] = {}
            for rep in range(2):
                for i in idx:
                    res[k][i, rep] = run_op(S, *ops[i])
        except pbt.Violation as v:
            res[k] = v
        except BaseException as e:
            res[k] = pbt.Violation("thread: %s: %s" % (type(e).__name__, e))

    sys.setswitchinterval(1e-5)
    S.activate()
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
            if t.is_alive():
                fail("a thread does not end")
    finally:
        sys.setswitchinterval(old)
    for k in range(n):
        if isinstance(res[k], pbt.Violation):
            raise res[k]
        for (i, rep), r in res[k].items():
            if not alike(r, want[i]):
                fail("%s%r: %r in thread %d of %d, %r in a single thread" % (ops[i][0][1], tuple(ops[i][0][2:]), r, k, n, want[i]))
    return "%d threads" % n


def roll_call(case):
    """every function once, in any order: what each leaves behind in the process, and each against itself alone"""
    ops = [["p", n, case["plain"][n]] for n in c11.PLAIN_NAMES] + [["t", n, case["t"], case["o"]] for n in NAMES]
    random.Random(case["shuffle"]).shuffle(ops)
    settle()
    mode = "math" if case["math"] else "numpy"
    A, W = lib.Lib("math" if case["math"] else None), lib.get(mode)
    t0 = tables(A)
    got = []
    for op in ops:
        w0 = world()
        got.append(run_op(A, op))
        w1 = world()
        for k in w0:
            if w0[k] != w1[k]:
                settle()
                fail("%s%r changed the %s of the process" % (op[1], tuple(op[2:]), k))
    t1 = tables(A)
    for k in t0:
        if t1.get(k) != t0[k]:
            fail("%s changed" % k)
    for op, g in zip(ops, got):
        w = run_op(W, op)
        if not alike(g, w):
            fail("%s%r: %r among one call of every function, %r otherwise" % (op[1], tuple(op[2:]), g, w))
    return mode


HERE = os.path.realpath(os.path.join(lib.REPO, "pysolar")) + os.sep


STALLS = []


class Turns:
    """threads that run the library's code one at a time and hand over after a given number of its lines"""

    def __init__(self, n, gaps):
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.gaps = itertools.cycle(gaps)
        self.left = next(self.gaps)
        self.free = False
        self.switches = 0

    def wait(self, k):
        # (a library that takes locks of its own is slow to check in this way, so be impatient after some of these)
        if not self.free and not self.turn[k].acquire(timeout=2.0 if len(STALLS) < 4 else 0.05):
            STALLS.append(k)
            self.free = True            # somebody waits for something else than his turn: let all run
            for s in self.turn:
                s.release()

    def step(self, k):
        if self.free:
            return
        self.left -= 1
        if self.left > 0 or len(self.alive) < 2:
            return
        self.left = next(self.gaps)
        i = self.alive.index(k)
        self.switches += 1
        self.turn[self.alive[(i + 1) % len(self.alive)]].release()
        self.wait(k)

    def done(self, k):
        i = self.alive.index(k)
        nxt = self.alive[(i + 1) % len(self.alive)]
        self.alive.remove(k)
        if self.alive:
            self.turn[nxt].release()

    def tracer(self, k):
        def call_event(frame, event, arg):
            if not os.path.realpath(frame.f_code.co_filename).startswith(HERE):
                return None
            seen = {}

            def line_event(frame, event, arg):
                if event == "line":
                    n = seen[frame.f_lineno] = seen.get(frame.f_lineno, 0) + 1
                    if n <= 2:      # not every turn of a loop
                        self.step(k)
                return line_event
            return line_event
        return call_event


def interleaved(case):
    """calls of one function from several threads, switched at chosen lines of the library"""
    mode = "math" if case["math"] else None
    base = case["op"]
    ops = [base] + [vary(base, v) for v in case["vs"]]
    W = lib.get("math" if case["math"] else "numpy")
    want = [run_op(W, op) for op in ops]
    S = lib.Lib(mode) if case["fresh"] else SHARED[case["math"]]
    n = len(ops)
    res = [None] * n
    T = Turns(n, case["gaps"])

    def work(k):
        T.wait(k)
        sys.settrace(T.tracer(k))
        try:
            res[k] = run_in(S, ops[k], 0)
        except pbt.Violation as v:
            res[k] = v
        except BaseException as e:
            res[k] = pbt.Violation("thread: %s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            T.done(k)

    S.activate()
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    for t in ts:
        t.start()
    T.turn[0].release()
    for t in ts:
        t.join(100)
        if t.is_alive():
            fail("a thread does not end")
    for k in range(n):
        if isinstance(res[k], pbt.Violation):
            raise res[k]
        if not alike(res[k], want[k]):
            fail("%s%r: %r while %d other calls take turns with it, %r in a single thread" % (ops[k][1], tuple(ops[k][2:]), res[k], n - 1, want[k]))
    return "%d threads" % n if T.switches > 1 and any(not alike(want[0], w) for w in want[1:]) else None


def marathon(case):
    """a long past of distinct calls, against the same calls on copies with a short one"""
    mode = "math" if case["math"] else None
    base = case["pool"]
    n = case["n"]
    step, slide = case["step"], case["slide"]

    def op(i):
        b = base[i % len(base)]
        if b[0] == "p":
            return b
        o = dict(b[3])
        o["lat"] = max(-90.0, min(90.0, o["lat"] + slide * i * (-1 if o["lat"] > 0 else 1)))
        o["lon"] = o["lon"] + 2 * slide * i
        d = when(b[2])
        k = step * i
        d = d + dt.timedelta(seconds=k if d.year < 5000 else -k)
        return ["t", b[1], d.isoformat(), o]

    A = lib.Lib(mode)
    before = tables(A)
    got = [run_op(A, op(i)) for i in range(n)]
    for k, v in tables(A).items():
        if before.get(k) != v:
            fail("%s changed" % k)
    rnd = random.Random(case["shuffle"])
    sample = sorted({0, 1, n - 1} | {rnd.randrange(n) for _ in range(30)} | {k for k in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025) if k < n})
    B = lib.Lib(mode)
    for i in reversed(sample):
        x = op(i)
        w = run_op(B, x)
        if not alike(got[i], w):
            fail("%s%r: %r as call %d of %d, %r on its own" % (x[1], tuple(x[2:]), got[i], i, n, w))
    for i in sample:
        x = op(i)
        r = run_op(A, x)
        if not alike(r, got[i]):
            fail("%s%r: %r as call %d, %r after %d calls" % (x[1], tuple(x[2:]), got[i], i, r, n))
    return "over 1000 calls" if n > 1000 else "up to 1000 calls"


def suspended(case):
    """several simulations on one copy advanced in any order, with calls in between"""
    S = lib.Lib("math" if case["math"] else None)
    P = lib.get("math" if case["math"] else "numpy")

    def make(L, s):
        st = when(s["t"])
        h = [s["shade"] + (k * 7 % 50) for k in range(361)]
        return L.simulate.simulate_span(s["lat"], s["lon"], h, st, st + dt.timedelta(minutes=s["step"] * 8 + 1), s["step"], s["el"], s["T"], s["P"])

    want = [[norm(r) for r in call("simulate_span", list, make(P, s))] for s in case["sims"]]
    S.activate()
    its = [iter(make(S, s)) for s in case["sims"]]
    got = [[] for _ in its]
    for k in case["order"]:
        if k < 0:
            op = case["ops"][(-k) % len(case["ops"])]
            r, w = run_op(S, op), run_op(P, op)
            if not alike(r, w):
                fail("%s%r: %r between rows of simulations, %r otherwise" % (op[1], tuple(op[2:]), r, w))
            continue
        i = k % len(its)
        r = call("next of simulate_span", next, its[i], None)
        if r is not None:
            got[i].append(norm(r))
    for i, it in enumerate(its):
        got[i] += [norm(r) for r in call("simulate_span", list, it)]
        if not alike(got[i], want[i]):
            fail("simulation %d of %d, advanced in turns with the others: %r, alone: %r" % (i, len(its), got[i][:3], want[i][:3]))
    return "%d simulations" % len(its)


ARRAYF = ["get_position", "get_altitude", "get_azimuth", "get_altitude_fast", "get_azimuth_fast", "get_topocentric_position", "get_radiation_direct", "get_refraction_correction", "get_incidence_angle",
          "get_temperature_with_elevation", "get_local_hour_angle", "get_flattened_latitude", "get_solar_time", "get_hour_angle", "diffuse_ratio"]


def arr(case):
    lat, lon = np.array(case["lats"]), np.array(case["lons"])
    return lat, lon


def call_array(L, name, lat, lon, d):
    S = L.solar
    with np.errstate(all="ignore"):
        if name in ("get_position", "get_altitude", "get_azimuth", "get_altitude_fast", "get_azimuth_fast", "get_topocentric_position"):
            return getattr(S, name)(lat, lon, d)
        if name == "get_radiation_direct":
            return L.radiation.get_radiation_direct(d, lat)
        if name == "get_refraction_correction":
            return S.get_refraction_correction(lon * 100 + 100000, 280.0, lat)
        if name == "get_incidence_angle":
            return S.get_incidence_angle(lat, lat, lon, lon)
        if name == "get_temperature_with_elevation":
            return L.elevation.get_temperature_with_elevation(lat)
        if name == "get_local_hour_angle":
            return S.get_local_hour_angle(lat, lon, lat)
        if name == "get_flattened_latitude":
            return S.get_flattened_latitude(lat)
        if name == "get_solar_time":
            return S.get_solar_time(lon, d)
        if name == "get_hour_angle":
            return S.get_hour_angle(d, lon)
        return L.util.diffuse_ratio(lat, lon)


def aliasing(case):
    """scribble over results and arguments after the call: neither later nor earlier results notice"""
    L = lib.Lib(None)
    L.activate()
    d = when(case["t"])
    for name in case["fs"]:
        lat, lon = arr(case)
        r1 = call(name, call_array, L, name, lat, lon, d)
        keep = norm(r1)
        if not (np.array_equal(lat, case["lats"]) and np.array_equal(lon, case["lons"])):
            fail("%s changed its arguments" % name)
        lat[:] = 12.5           # the caller reuses his arrays
        lon[:] = -33.0
        if not alike(norm(r1), keep):
            fail("a result of %s changed with the arrays it was computed from" % name)
        for x in (r1 if isinstance(r1, tuple) else (r1,)):
            if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
                x[...] = 1e9
        if not (np.all(lat == 12.5) and np.all(lon == -33.0)):
            fail("writing to a result of %s changed its arguments" % name)
        lat[:], lon[:] = np.array(case["lats"]) * 0.5, np.array(case["lons"]) + 31.25      # the same arrays, other numbers
        r3 = call(name, call_array, L, name, lat, lon, d)
        w3 = call(name, call_array, lib.get("numpy"), name, lat.copy(), lon.copy(), d)
        if not alike(norm(r3), norm(w3)):
            fail("%s gives %r for arrays whose elements were changed since an earlier call, %r for fresh ones" % (name, norm(r3), norm(w3)))
        lat, lon = arr(case)
        r2 = call(name, call_array, L, name, lat, lon, d)
        if not alike(norm(r2), keep):
            fail("%s gives %r after an earlier result was written to, %r before" % (name, norm(r2), keep))
    j = case["jce"]
    n1 = call("get_nutation", L.solar.get_nutation, j)
    k1 = {k: float(v) for k, v in n1.items()}
    n1["longitude"] = 7.0
    n1.pop("obliquity", None)
    n2 = call("get_nutation", L.solar.get_nutation, j)
    if {k: float(v) for k, v in n2.items()} != k1:
        fail("get_nutation gives %r after its earlier result was written to, %r before" % (n2, k1))
    m = {"longitude": 0.5, "obliquity": 0.25}
    call("get_true_ecliptic_obliquity", L.solar.get_true_ecliptic_obliquity, 0.01, m)
    call("get_apparent_sun_longitude", L.solar.get_apparent_sun_longitude, 10.0, m, 0.1)
    call("get_apparent_sidereal_time", L.solar.get_apparent_sidereal_time, 2451545.0, 0.01, m)
    if m != {"longitude": 0.5, "obliquity": 0.25}:
        fail("the nutation dictionary was changed to %r" % m)
    co = [[[1.0, 2.0, 3.0]], [[4.0, 5.0, 6.0]]]
    c0 = copy.deepcopy(co)
    call("get_coeff", L.solar.get_coeff, j, co)
    if co != c0:
        fail("get_coeff changed its table")
    for band in ("high-frequency", "low-frequency"):
        a = call("coefficients", L.rest.get_water_vapor_transmittance_coefficients, band, 2.0)
        k = list(a)[1:]
        a[1] = 99.0
        if list(call("coefficients", L.rest.get_water_vapor_transmittance_coefficients, band, 2.0))[1:] != k:
            fail("get_water_vapor_transmittance_coefficients hands out one list again and again")
    return "all"


POOL = gen.st.lists(same_op(), min_size=1, max_size=3)
SEQ = gen.st.lists(gen.st.tuples(gen.integers(0, 2), VARY, gen.sampled([0, 0, 1, 2])).map(list), min_size=4, max_size=24)
SIM = fd(t=gen.whens(off=gen.just(0)), lat=gen.lats(), lon=gen.lons(), step=gen.sampled([1, 10, 30, 60, 97]), shade=gen.integers(0, 400), el=gen.elevations(), T=gen.temperatures(True), P=gen.pressures(True))
EXAMPLE = dict(lat=40.0, lon=-75.0, el=300.0, T=280.0, P=98000.0, TL=2.0, AM=2.5, TY=365.25, SC=1360.0, ghi=500.0, alt=30.0)
SHARED = (lib.Lib(None), lib.Lib("math"))
CHECK = Check("C23", [
    Clause("history", fd(pool=POOL, seq=SEQ, math=gen.st.booleans(), shuffle=gen.integers(0, 10 ** 6)), history, 900,
           nontrivial="the sequence is longer than its pool of calls and contains near repeats",
           examples=[dict(pool=[["t", f, "2021-06-%02dT10:00:00+00:00" % (1 + i % 28), EXAMPLE]], seq=[[0, list(v), how] for v in NEAR], math=m, shuffle=i) for i, f in enumerate(sorted(set(NAMES))) for m, how in ((False, 0), (True, 0), (i % 2 == 0, 1))]),
    Clause("near_repeats", fd(op=plain_op(), math=gen.st.booleans(), shuffle=gen.integers(0, 10 ** 6)), near_repeats, 600, nontrivial="all; class: function"),
    Clause("threads", fd(pool=POOL, seq=gen.st.lists(gen.st.tuples(gen.integers(0, 2), VARY, gen.sampled([0, 0, 1, 2])).map(list), min_size=3, max_size=10), math=gen.st.booleans(),
                         shuffle=gen.integers(0, 10 ** 6), n=gen.integers(2, 6)), threads, 160, nontrivial="all; class: number of threads"),
    Clause("roll_call", fd(plain=fd(**{n: gen.st.tuples(*c11.PLAIN[n][1]) for n in c11.PLAIN_NAMES}), t=gen.whens(off=gen.just(0)), o=others(), math=gen.st.booleans(), shuffle=gen.integers(0, 10 ** 6)), roll_call, 240,
           nontrivial="all; class: backend"),
    Clause("interleaved", fd(op=same_op(), vs=gen.st.lists(VARY, min_size=1, max_size=2), math=gen.st.booleans(), fresh=gen.sampled([False, False, False, True]),
                             gaps=gen.st.lists(gen.one_of(gen.integers(1, 12), gen.integers(1, 60), gen.integers(1, 400)), min_size=1, max_size=6)), interleaved, 3000,
           nontrivial="the calls have different results and took turns at least twice; class: number of threads",
           examples=[dict(op=["t", f, "2021-06-%02dT10:00:00+00:00" % (1 + i), EXAMPLE], vs=[["lat", 6], [w, k]], math=m, fresh=False, gaps=[g])
                     for i, f in enumerate(sorted(set(NAMES))[:28]) for w, k, g in (("lon", 6, 3), ("time", 9, 7), ("T", 2, 11)) for m in (False, True)]),
    Clause("marathon", fd(pool=POOL, n=gen.one_of(gen.integers(100, 700), gen.integers(700, 2300)), step=gen.sampled([0, 1, 60, 1800, 86400, 0.001, 7777]), slide=gen.sampled([0.0, 0.001, 0.01, 0.25]),
                          math=gen.st.booleans(), shuffle=gen.integers(0, 10 ** 6)), marathon, 96, nontrivial="all; class: length of the history"),
    Clause("suspended", fd(sims=gen.st.lists(SIM, min_size=2, max_size=4), order=gen.st.lists(gen.integers(-3, 11), min_size=4, max_size=30), ops=gen.st.lists(same_op(), min_size=1, max_size=2),
                           math=gen.st.booleans()), suspended, 240, nontrivial="all; class: number of simulations"),
    Clause("aliasing", fd(t=gen.whens(), lats=gen.st.lists(gen.lats(), min_size=3, max_size=3), lons=gen.st.lists(gen.integers(1, 360).map(float), min_size=3, max_size=3),
                          fs=gen.st.lists(gen.sampled(ARRAYF), min_size=1, max_size=5), jce=gen.integers(-1000, 1000).map(lambda k: k / 1000.0)), aliasing, 500, nontrivial="all"),
], rule="sequences of calls drawn from a few base calls and small variations of them, compared with the same calls in another order, alone, in threads, and between rows of suspended simulations; "
        "arguments, results, tables and process state inspected or overwritten in between")
