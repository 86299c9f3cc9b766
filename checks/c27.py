"""C27: the same results in every interpreter configuration, import order and calling context."""
import json
import os
import py_compile
import shutil
import subprocess
import sys
import tempfile
import zipfile

import numpy as np
from api import *
import c11

preload("numpy", "math", "blocked")
NUMPY, MATH, BLOCKED = lib.get("numpy"), lib.get("math"), lib.get("blocked")
WORKER = os.path.join(pbt.VERIF, "lib", "env_worker.py")
MODS = ("constants", "numeric", "tzinfo_check", "solartime", "radiation", "elevation", "solar", "util", "simulate", "rest")
TZS = [None, "UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY+12:30", "CET-1CEST,M3.5.0,M10.5.0/3", ":Asia/Kathmandu", "Australia/Lord_Howe", "nonsense", ""]
LOCALES = [None, "C", "POSIX", "C.UTF-8", "en_US.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8"]
FLAGS = [[], ["-O"], ["-OO"], ["-X", "dev"], ["-bb"], ["-I"], ["-E"], ["-X", "utf8"], ["-S"], ["-s"], ["-W", "always"], ["-W", "error"], ["-X", "int_max_str_digits=640"], ["-X", "faulthandler"]]
OUTLIVE = ("pysolar",)


def program(case, tmp):
    """statements of the program, and for each call the backend in force, its operation"""
    lines, calls, names, loaded = [], [], {}, False
    backend = "numpy"
    if ["-S"] in case["flags"] or case["hide"]:
        lines.append("W.sys.modules['numpy'] = None")
        backend = "blocked"
    can_numpy = backend == "numpy"
    for s in case["steps"]:
        k = s[0]
        if k == "import":
            m, form = s[1], s[2]
            loaded = True
            line = ["import pysolar.%s", "from pysolar import %s", "import pysolar.%s as m_%s", "from pysolar.%s import *", "W.importlib.import_module('pysolar.%s')", "import pysolar; import pysolar.%s"][form]
            lines.append(line % ((m,) * line.count("%s")))
            names[m] = {1: m, 2: "m_" + m}.get(form, "W.sys.modules['pysolar.%s']" % m)
        elif k == "package":
            lines.append(["import pysolar", "from pysolar import *", "import pysolar as sun"][s[1]])
            loaded = True
        elif k in ("math", "numpy"):
            if k == "numpy" and not can_numpy:
                continue
            lines.append(["import pysolar; pysolar.use_%s()", "from pysolar import use_%s; use_%s()", "import pysolar.numeric; pysolar.numeric.use_%s()", "from pysolar import *; use_%s()"][s[1]].replace("%s", k))
            backend = k if can_numpy else backend
        elif k == "tz":
            tz = TZS[s[1] % len(TZS)]
            lines.append("W.os.environ['TZ'] = %r; W.time.tzset()" % (tz or "UTC"))
        elif k == "setting":
            lines.append(SETTINGS[s[1] % len(SETTINGS)])
        elif k == "call":
            op, how, ctx = s[1], s[2], s[3]
            mod, name = place(op)
            if how == 0 and mod in names:
                f = names[mod] + "." + name
            elif how == 1:
                lines.append("from pysolar.%s import %s as f_%d" % (mod, name, len(lines)))
                f = "f_%d" % (len(lines) - 1)
            else:
                lines.append("import pysolar.%s" % mod)
                f = "pysolar.%s.%s" % (mod, name)
                lines.append("import pysolar")
            lines.append("W.run(%s, %d, lambda: %s(%s))" % (json.dumps(CONTEXTS[ctx % len(CONTEXTS)]), len(calls), f, args_text(op)))
            calls.append((backend, op))
            if s[4]:
                lines.append("W.again(%s, %d, lambda: %s(%s))" % (json.dumps(CONTEXTS[s[4] % len(CONTEXTS)]), len(calls) - 1, f, args_text(op)))
    return lines, calls


SETTINGS = ["W.gc.disable()", "W.gc.collect()", "W.sys.setrecursionlimit(600)", "W.decimal.getcontext().prec = 3", "W.random.seed(7)", "W.os.chdir(W.tmp)", "W.sys.setswitchinterval(1e-5)",
            "W.locale_any()", "W.warnings.simplefilter('ignore')", "W.sys.settrace(lambda *a: None)", "W.gc.freeze()", "W.sys.path.reverse()", "W.seterr('ignore')", "W.os.environ.clear()", "W.gone()", "W.silent(None)", "W.sys.argv[:] = ['prog', '-v', '--test']"]
CONTEXTS = ["plain", "thread", "generator", "deep", "async", "traced", "pool", "exec", "except", "fork", "copied context", "handler", "destructor", "callback", "sort"]


def place(op):
    if op[0] == "t":
        e = entry(op[1])
        return e[0], e[1]
    return c11.PLAIN[op[1]][0], op[1]


def args_text(op):
    if op[0] == "t":
        e = entry(op[1])
        return ", ".join("W.datetime.datetime.fromisoformat(%r)" % op[2] if p == "when" else repr(op[3][SHORT[p]]) for p in e[2] + e[3])
    return ", ".join(repr(v) for v in op[2])


LAYOUTS = ["repository", "zip", "compiled", "other name", "link", "read-only"]


def stored(layout, where):
    """the package, stored in another way; what to put on the path"""
    src = os.path.join(lib.REPO, "pysolar")
    if layout == "repository":
        return lib.REPO
    if layout == "zip":
        z = os.path.join(where, "library.zip")
        with zipfile.ZipFile(z, "w") as f:
            for n in sorted(os.listdir(src)):
                if os.path.isfile(os.path.join(src, n)):
                    f.write(os.path.join(src, n), "pysolar/" + n)
        return z
    home = os.path.join(where, "an other name \u00e9\u4e2d 100%s" if layout == "other name" else "home")
    os.mkdir(home)
    dst = os.path.join(home, "pysolar")
    if layout == "link":
        os.symlink(src, dst)
        return home
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__"))
    if layout == "compiled":
        for n in sorted(os.listdir(dst)):
            if n.endswith(".py"):
                py_compile.compile(os.path.join(dst, n), os.path.join(dst, n + "c"), doraise=True)
                os.remove(os.path.join(dst, n))
    if layout == "read-only":
        for n in os.listdir(dst):
            os.chmod(os.path.join(dst, n), 0o444)
    return home


def configured(case):
    tmp = tempfile.mkdtemp(prefix="verif-c27-")
    box = tempfile.mkdtemp(prefix="verif-c27-")
    layout = LAYOUTS[case.get("layout", 0) % len(LAYOUTS)]
    try:
        home = stored(layout, box)
        lines, calls = program(case, tmp)
        if not calls:
            return None
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str(case["hash"]), "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "HOME": tmp, "TMPDIR": tmp}
        for k, v in (("TZ", TZS[case["tz"] % len(TZS)]), ("LC_ALL", LOCALES[case["locale"] % len(LOCALES)])):
            if v is not None:
                env[k] = v
        flags = [x for f in case["flags"] for x in f]
        p = subprocess.run([sys.executable, "-B"] + flags + [WORKER, home, tmp], input="\n".join(lines), capture_output=True, text=True, env=env, cwd=tmp, timeout=110)
        where = "package stored as %s, python %s, %s" % (layout, " ".join(flags), {k: env[k] for k in ("TZ", "LC_ALL", "PYTHONHASHSEED") if k in env})
        if p.returncode:
            fail("%s: the program\n    %s\n  ended with status %d: %s" % (where, "\n    ".join(lines), p.returncode, p.stderr.strip()[-600:]))
        left = os.listdir(tmp)
        if left:
            fail("%s: the program left %r behind" % (where, left))
        got = json.loads(p.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(box, ignore_errors=True)
    if len(got) < len(calls):
        fail("%s: %d results of %d calls" % (where, len(got), len(calls)))
    strict = ["-W", "error"] in case["flags"]
    n = 0
    for i, r, types in got:
        backend, op = calls[i]
        L = {"numpy": NUMPY, "math": MATH, "blocked": BLOCKED}[backend]
        w, wtypes = result(L, op)
        desc = "%s%r in %s mode, %s, after\n    %s\n " % (op[1], tuple(op[2:]), backend, where, "\n    ".join(lines))
        if isinstance(r, str):
            if strict and r.split(":")[0].endswith("Warning") or isinstance(w, str) and w.split(":")[0] == r.split(":")[0]:
                continue
            fail("%s: %s, here: %r" % (desc, r, w))
        if isinstance(w, str):
            fail("%s: %r, here: %s" % (desc, r, w))
        same_result(desc, op[1], r, w, 1e-11)
        if types != wtypes:
            fail("%s: a result of types %r, here: %r" % (desc, types, wtypes))
        n += 1
    kinds = sorted({f[0] for f in case["flags"] if f}) or ["no flags"]
    return None if not n else " ".join(kinds)


def result(L, op):
    with L.active():
        try:
            if op[0] == "t":
                e = entry(op[1])
                v = func(L, e)(*values(e, op[3], when(op[2])))
            else:
                v = getattr(getattr(L, c11.PLAIN[op[1]][0]), op[1])(*op[2])
        except Exception as x:
            return "%s: %s" % (type(x).__name__, x), None
    return c11.numbers(v), types(v)


def types(v):
    return [type(x).__module__ + "." + type(x).__name__ for x in ([v[k] for k in sorted(v)] if isinstance(v, dict) else v if isinstance(v, (tuple, list)) else [v])]


STEP = gen.one_of(
    gen.st.tuples(gen.just("import"), gen.sampled(MODS), gen.integers(0, 5)).map(list),
    gen.st.tuples(gen.just("package"), gen.integers(0, 2)).map(list),
    gen.st.tuples(gen.sampled(["math", "numpy"]), gen.integers(0, 3)).map(list),
    gen.st.tuples(gen.just("tz"), gen.integers(0, len(TZS) - 1)).map(list),
    gen.st.tuples(gen.just("setting"), gen.integers(0, len(SETTINGS) - 1)).map(list))
# sometimes without a time zone: refused in every configuration
OP = gen.st.tuples(c11.op_call(), gen.sampled([0, 0, 0, 0, 0, 0, 1])).map(lambda p: [p[0][0], p[0][1], p[0][2].partition("+")[0][:19], p[0][3]] if p[1] and p[0][0] == "t" else list(p[0]))
CALL = gen.st.tuples(gen.just("call"), OP, gen.integers(0, 2), gen.one_of(gen.just(0), gen.integers(0, len(CONTEXTS) - 1)), gen.one_of(gen.just(0), gen.integers(0, len(CONTEXTS) - 1))).map(list)
O = dict(lat=52.5, lon=13.4, el=40.0, T=283.0, P=101000.0, TL=3.0, AM=2.0, TY=365, SC=1367.0, ghi=500.0, alt=20.0)
EVERY = [["call", ["t", n, t, O], 1, 0, 0] for n in c11.TIMED_NAMES + c11.LOCAL_NAMES for t in ("2012-06-30T23:59:59+05:30", "2013-01-31T22:10:30-07:45")]
ONCE = [["call", ["t", n, "2012-06-30T23:59:59+05:30", O], 1, 0, 0] for n in c11.TIMED_NAMES + c11.LOCAL_NAMES]


BEYOND = [["call", ["t", n, "2040-03-05T10:20:30+00:00", O], 1, 0, 0] for n in ("get_position", "get_leap_seconds", "get_julian_solar_day")] + \
         [["call", ["p", "get_pressure_with_elevation", [12000.0]], 2, 0, 0]]


EDGES = [["call", ["p", n, a], 2, 0, 0] for n, a in (
    ("get_air_mass_ratio", [0.0]), ("get_air_mass_ratio", [-0.0]), ("get_air_mass_ratio", [1e-9]), ("get_air_mass_ratio", [90.0]), ("get_pressure_with_elevation", [11000.0]), ("get_pressure_with_elevation", [0.0]),
    ("get_refraction_correction", [101325.0, 288.15, -0.83337]), ("get_refraction_correction", [0.0, 288.15, 5.0]), ("get_refraction_correction", [101325.0, 288.15, -5.11]), ("diffuse_ratio", [1.0, 1.0]),
    ("get_topocentric_azimuth_angle", [0.0, 90.0, 20.0]), ("get_topocentric_elevation_angle", [90.0, 20.0, 0.0]), ("get_incidence_angle", [30.0, 150.0, 0.0, 0.0]), ("get_flattened_latitude", [90.0]))] + \
    [["call", ["t", "get_radiation_direct", "2020-03-20T12:00:00+00:00", dict(O, alt=a)], 2, 0, 0] for a in (0.0, -0.0, 1e-9, -5.0)] + \
    [["call", ["t", n, "2020-06-20T12:00:00+02:00", dict(O, lat=p, el=0.0)], 2, 0, 0] for p in (90.0, -90.0, 68.0, 0.0) for n in ("get_position", "get_sunrise_sunset_transit", "get_azimuth_fast", "global_irradiance_clear")]


def ex(tz=0, locale=0, hash=0, flags=(), hide=False, steps=(), layout=0):
    return dict(layout=layout, tz=tz, locale=locale, hash=hash, flags=[list(f) for f in flags], hide=hide, steps=list(steps))


CHECK = Check("C27", [
    Clause("configured", fd(tz=gen.integers(0, len(TZS) - 1), locale=gen.integers(0, len(LOCALES) - 1), hash=gen.one_of(gen.just(0), gen.integers(0, 4294967295)),
                            flags=gen.st.lists(gen.sampled(FLAGS), max_size=3, unique_by=tuple), hide=gen.sampled([False, False, False, True]), layout=gen.sampled([0, 0, 0, 0, 1, 2, 3, 4, 5]),
                            steps=gen.st.tuples(gen.st.lists(STEP, max_size=4), gen.st.lists(gen.one_of(CALL, CALL, CALL, STEP), min_size=6, max_size=24)).map(lambda p: p[0] + p[1])),
           configured, 480, 4500, nontrivial="at least one call gives numbers; class: interpreter flags",
           examples=[ex(k, k, 1000 + k, [f], False, EVERY) for k, f in enumerate(FLAGS)] + [ex(k, 0, 0, [], k % 2 == 1, [["math", 0]] * (k % 3) + EVERY) for k in range(1, len(TZS))]
           + [ex(1, 1, 3, [], False, [["import", m, 0], ["math", 0]] + ONCE) for m in MODS]
           + [ex(k, 0, k, [], k % 2 == 1, [["import", MODS[k], 1]] + ONCE, k) for k in range(1, len(LAYOUTS))]
           + [ex(1, 1, 3, [], False, [["setting", k], ["import", "solar", 0]] + ONCE + BEYOND) for k in range(len(SETTINGS))]
           + [ex(k, 0, 5, [], False, [["import", "solar", 1], [b, k % 4]] + [[*c[:3], k, (k + 5) % len(CONTEXTS)] for c in EVERY + EDGES]) for b in ("math", "numpy") for k in range(len(CONTEXTS))]),
], rule="random programs (imports in any order and form, backend switches, changes of the process's settings, calls in any context) in fresh interpreters with random options and environments, against a process that never did that",
    assumptions=["a process without standard streams still reports its results to the check", "-W error turns the library's own announcements of extrapolation into exceptions"])
