"""C24: util/get_delta_t turns any consecutive monthly series into a faithful table."""
import ast
import contextlib
import io
import os
import runpy
import subprocess
import sys
import tempfile
import types
import urllib.request

from common import *

SCRIPT = os.path.join(lib.REPO, "util", "get_delta_t")
NAMES = ("delta_t_base_year", "delta_t_base_month", "delta_t")


class Server:
    """stands in for the naval observatory"""

    def __init__(self, text):
        self.text, self.asked = text, []

    def __call__(self, url, *args, **kw):
        self.asked.append(getattr(url, "full_url", url))
        if self.text is None:
            raise OSError("no network")
        return io.BytesIO(self.text.encode("ascii"))


def run_script(text, sub=False, via="file"):
    """(refused, output) of the script on a file with this text, or on the text served"""
    real = urllib.request.urlopen
    server = urllib.request.urlopen = Server(text if via == "net" else None)
    try:
        r = run_it(text, sub and via == "file", via)
    finally:
        urllib.request.urlopen = real
    if via == "file" and server.asked:
        fail("the script, given a file, asks for %r" % server.asked)
    if via == "net" and not (len(server.asked) == 1 and "deltat.data" in server.asked[0]):
        fail("the script, given no file, asks for %r" % server.asked)
    return r


def run_it(text, sub, via):
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "deltat.data")
        with open(path, "w", newline="") as f:
            f.write(text)
        if sub:
            r = subprocess.run([sys.executable, "-B", SCRIPT, path], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60)
            return r.returncode != 0, r.stdout
        raw = io.BytesIO()
        out = io.TextIOWrapper(raw, encoding="utf-8", newline="")
        argv, sys.argv = sys.argv, [SCRIPT] + ([path] if via == "file" else [])
        refused = False
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(SCRIPT, run_name="__main__")
        except SystemExit as e:
            refused = e.code not in (None, 0)
        except Exception:
            refused = True
        finally:
            sys.argv = argv
        out.flush()
        return refused, raw.getvalue().decode()


def table(text):
    """the three values the printed source assigns, or None when it is not a finished table"""
    try:
        ns = {}
        exec(compile(text, "<table>", "exec"), {"__builtins__": {}}, ns)
        return tuple(ns[n] for n in NAMES)
    except Exception:
        return None


def months(y, m, n):
    out = []
    for _ in range(n):
        out.append((y, m))
        y, m = (y, m + 1) if m < 12 else (y + 1, 1)
    return out


STYLES = ["%d %d %d %s", " %4d %2d  %d  %s", "%04d\t%02d\t%02d\t%s", "   %d   %d   %d   %s  ", "%4d %2d %2d %s"]
SEPS = ["\n", "\n", "\r\n", "\n\n", "\n  \n"]
VALUES = ["%.4f", "%.4f", "%.6f", "%.2f", "%.4e", "%.0f"]


def shown(v, k):
    return VALUES[k] % v


def rows(case):
    """(year, month, day, text of the value) of the series"""
    m = months(case["y"], case["m"], len(case["v"]))
    return [(y, mo, 1, shown(v / 1e5, case["fmt"])) for (y, mo), v in zip(m, case["v"])]


def text_of(case, rs):
    t = case["lead"] + SEPS[case["sep"]].join(STYLES[case["style"]] % r for r in rs)
    return t + ["", "\n", "\n\n\n"][case["end"]]


_tree = {}


def installed(y, m, tab):
    """get_delta_t of solartime.py with the three assignments replaced"""
    L = lib.get("table")
    S = L.solartime
    if "src" not in _tree:
        with open(S.__file__, "rb") as f:
            _tree["src"] = ast.parse(f.read())
        body = _tree["src"].body
        _tree["at"] = {}
        for i, node in enumerate(body):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in NAMES:
                _tree["at"].setdefault(node.targets[0].id, []).append(i)
    at = _tree["at"]
    if all(len(at.get(n, ())) == 1 for n in NAMES):
        new = ast.parse("delta_t_base_year = %r\ndelta_t_base_month = %r\ndelta_t = %r\n" % (y, m, tab))
        body = list(_tree["src"].body)
        for n, node in zip(NAMES, new.body):
            body[at[n][0]] = node
        mod = types.ModuleType(S.__name__)
        mod.__package__, mod.__file__ = S.__package__, S.__file__
        saved = {k: v for k, v in sys.modules.items() if k == "pysolar" or k.startswith("pysolar.")}
        for k in saved:
            del sys.modules[k]
        sys.modules["pysolar"] = L.pkg
        for k in lib.MODULES:
            sys.modules["pysolar." + k] = getattr(L, k)
        try:
            exec(compile(ast.Module(body, []), S.__file__, "exec"), mod.__dict__)
        finally:
            for k in [k for k in sys.modules if k == "pysolar" or k.startswith("pysolar.")]:
                del sys.modules[k]
            sys.modules.update(saved)
        return mod
    S.delta_t_base_year, S.delta_t_base_month, S.delta_t = y, m, tab
    return S


def good(case):
    rs = rows(case)
    text = text_of(case, rs)
    refused, out = run_script(text, case.get("sub", False), case.get("via", "file"))
    if refused:
        fail("the script refuses %d consecutive months from %d-%02d: %s" % (len(rs), rs[0][0], rs[0][1], out[-200:]))
    t = table(out)
    if t is None:
        fail("the output is not the source of a table: %s" % out[:400])
    y, m, tab = t
    if (y, m) != rs[0][:2]:
        fail("the table says it starts %r-%r, the series starts %d-%02d" % (y, m, rs[0][0], rs[0][1]))
    want = {}
    for r in rs:
        want.setdefault(r[0], []).append(float(r[3]))
    if not isinstance(tab, (list, tuple)) or [len(g) for g in tab] != [len(g) for g in want.values()]:
        fail("years of %r entries in the table, %r in the series" % ([len(g) for g in tab], [len(g) for g in want.values()]))
    for g, w, yr in zip(tab, want.values(), want):
        for k, (a, b) in enumerate(zip(g, w)):
            if not abs(a - b) <= 0.5e-4 + 1e-9:
                fail("entry %d of year %d is %r in the table, %r in the series" % (k, yr, a, b))
    # the lookup with the new table
    S = call("solartime with the printed table", installed, y, m, tab)
    sp = [(yr, mo) for yr, mo, _, _ in rs]
    if len(sp) > 40:
        sp = sp[:14] + sp[14:-14:7] + sp[-14:]
    val = {(r[0], r[1]): float(r[3]) for r in rs}
    day, us, off = case["at"]
    for yr, mo in sp:
        d = dt.datetime(yr, mo, 1, tzinfo=dt.timezone.utc) + dt.timedelta(days=day % (28 if day < 28 else 1), microseconds=us)
        if 1 < yr < 9999:
            d = gen.in_offset(d, off)
        v = call("get_delta_t(%s) with the printed table" % d.isoformat(), S.get_delta_t, d)
        if not abs(float(v) - val[yr, mo]) <= 0.5e-4 + 1e-9:
            fail("with the printed table get_delta_t(%s) is %r, the series has %r for %d-%02d" % (d.isoformat(), v, val[yr, mo], yr, mo))
    return "%s, %s" % ("from January" if rs[0][1] == 1 else "from mid-year", "one year" if len(want) == 1 else "ends in December" if rs[-1][1] == 12 else "ends mid-year")


def corrupt(case):
    """a corrupted series, or None when the corruption does not apply"""
    rs = rows(case)
    kind, i, j = case["bad"]
    n = len(rs)
    if kind == "drop":
        if n < 3:
            return None
        del rs[1 + i % (n - 2)]
    elif kind == "droprun":
        if n < 4:
            return None
        a = 1 + i % (n - 2)
        b = min(n - 1, a + 1 + j % 14)
        del rs[a:b]
    elif kind == "endyear":        # the rest of one year missing, the next year there
        ys = [k for k in range(1, n) if rs[k][0] != rs[k - 1][0]]
        if not ys:
            return None
        e = ys[i % len(ys)]
        first = next(k for k in range(n) if rs[k][0] == rs[e - 1][0])
        lo = max(first + 1, 1)
        a = lo + j % (e - lo) if e > lo else None
        if a is None:
            return None
        del rs[a:e]
    elif kind == "startyear":      # a year that starts late
        ys = [k for k in range(1, n) if rs[k][0] != rs[k - 1][0]]
        if not ys:
            return None
        e = ys[i % len(ys)]
        last = max(k for k in range(n) if rs[k][0] == rs[e][0])
        b = min(last, e + 1 + j % 11)
        if b <= e:
            return None
        del rs[e:b]
    elif kind == "wholeyear":
        ys = sorted({r[0] for r in rs})
        mid = [y for y in ys[1:-1]]
        if not mid:
            return None
        rs = [r for r in rs if r[0] != mid[i % len(mid)]]
    elif kind == "swap":
        if n < 2:
            return None
        k = i % (n - 1)
        rs[k], rs[k + 1] = rs[k + 1], rs[k]
    elif kind == "far swap":
        if n < 3:
            return None
        a, b = i % n, j % n
        if a == b:
            return None
        rs[a], rs[b] = rs[b], rs[a]
    elif kind == "twice":
        k = i % n
        rs.insert(k, rs[k])
    elif kind == "day":
        k = i % n
        rs[k] = (rs[k][0], rs[k][1], 2 + j % 27, rs[k][3])
    elif kind == "reverse":
        if n < 2:
            return None
        rs.reverse()
    elif kind == "year off":
        if n < 2:
            return None
        k = 1 + i % (n - 1)
        s = [1, -1, 2, 10, 100][j % 5]
        rs = rs[:k] + [(r[0] + s, r[1], r[2], r[3]) for r in rs[k:]]
    elif kind == "month off":
        if n < 2:
            return None
        k = i % n
        m = (rs[k][1] - 1 + 1 + j % 11) % 12 + 1
        rs[k] = (rs[k][0], m, 1, rs[k][3])
        if n == 2 and k == 0 and rs[1][:2] == months(rs[0][0], rs[0][1], 2)[1]:
            return None
    m = months(rs[0][0], rs[0][1], len(rs))
    if [r[:2] for r in rs] == m and all(r[2] == 1 for r in rs):
        return None
    return rs


KINDS = ["drop", "droprun", "endyear", "startyear", "wholeyear", "swap", "far swap", "twice", "day", "reverse", "year off", "month off"]


def bad(case):
    rs = corrupt(case)
    if rs is None:
        return None
    refused, out = run_script(text_of(case, rs), case.get("sub", False), case.get("via", "file"))
    if table(out) is not None:
        fail("a series with %s is printed as a finished table" % (case["bad"],))
    if not refused:
        fail("the script does not refuse a series with %s" % (case["bad"],))
    return case["bad"][0]


def series():
    years = gen.one_of(gen.integers(1, 9900), gen.integers(1950, 2030), gen.just(1973), gen.sampled([1, 1000, 1999, 2000]))
    v = gen.one_of(gen.integers(-700000, 12000000), gen.integers(4000000, 8000000), gen.just(0))
    n = gen.one_of(gen.integers(1, 30), gen.integers(1, 30), gen.integers(1, 140), gen.sampled([1, 2, 12, 13, 24, 11]))
    return n.flatmap(lambda k: fd(y=years, m=gen.integers(1, 12), v=gen.st.lists(v, min_size=k, max_size=k), style=gen.integers(0, len(STYLES) - 1),
                                  via=gen.sampled(["file", "file", "net"]), sep=gen.integers(0, len(SEPS) - 1), end=gen.integers(0, 2), fmt=gen.integers(0, len(VALUES) - 1),
                                  lead=gen.sampled(["", "", "\n", "  \n\n"]),
                                  at=gen.st.tuples(gen.integers(0, 30), gen.one_of(gen.just(0), gen.integers(0, 86399999999)), gen.offsets()).map(list),
                                  bad=gen.st.tuples(gen.sampled(KINDS), gen.integers(0, 1000), gen.integers(0, 1000)).map(list)))


def example(y, m, n, kind="drop", i=5, sub=True):
    return {"y": y, "m": m, "v": [4300000 + 137 * k for k in range(n)], "style": 1, "sep": 0, "end": 1, "fmt": 0, "lead": "", "at": [0, 0, 0], "bad": [kind, i, 3], "sub": sub}


CHECK = Check("C24", [
    Clause("faithful", series(), good, 2400, nontrivial="all: printed, evaluated, compared and installed",
           examples=[example(1973, 2, 520), example(1999, 12, 1), example(2000, 1, 12), example(2000, 12, 2)]),
    Clause("refused", series(), bad, 3000, nontrivial="the corruption applies to the series",
           examples=[example(1973, 2, 40, k, 5) for k in KINDS]),
], rule="a series is printed and evaluated again (faithful); the corrupted series is not a consecutive monthly one (refused)",
    assumptions=["dates of the series lie in years 1 to 9911", "the server of the downloading branch is a stand-in for urllib.request.urlopen"])
lib.get("numpy")
lib.get("table")
