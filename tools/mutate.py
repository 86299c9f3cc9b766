"""mutate.py OUTDIR [--sample N] [--seed S] [--files F...] [--scale X]: sensitivity audit by small mutations.

Makes one-place changes of the Python sources, keeps those the repository's own tests do not
notice, runs the checks on each in a scratch copy and lists the ones no check notices.
Not part of any registered command."""
import argparse, ast, glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["pysolar/solar.py", "pysolar/util.py", "pysolar/solartime.py", "pysolar/radiation.py", "pysolar/numeric.py", "pysolar/simulate.py",
         "pysolar/elevation.py", "pysolar/tzinfo_check.py", "pysolar/constants.py", "pysolar/rest.py", "pysolar/__init__.py", "util/get_delta_t"]
ORDER = {"solar": "C01 C19 C08 C09 C18 C10 C06 C11 C12 C23 C05", "util": "C14 C15 C20 C21 C04 C25 C12", "solartime": "C02 C01 C03 C04 C19 C23", "radiation": "C13 C12 C11 C05",
         "numeric": "C11 C03 C10 C12 C13", "simulate": "C16 C23", "elevation": "C17 C25 C11", "tzinfo_check": "C04 C25", "constants": "C01 C19 C10", "rest": "C22 C11 C23",
         "__init__": "C11 C25", "get_delta_t": "C24"}
ALL = ["C%02d" % i for i in range(1, 26)]


def mutants(path):
    src = open(os.path.join(REPO, path), newline="", encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    blines = [l.encode() for l in lines]

    def pos(ln, col):
        return starts[ln - 1] + len(blines[ln - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(a, b, new, what):
        if src[a:b] != new:
            out.append((path, a, b, new, what, src.count("\n", 0, a) + 1))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
    SW = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "+")}
    CM = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is"),
          ast.In: ("in", "not in"), ast.NotIn: ("not in", "in")}
    NAMES = {"sin": "cos", "cos": "sin", "tan": "sin", "max": "min", "min": "max", "utctimetuple": "timetuple", "timetuple": "utctimetuple", "tm_yday": "tm_mday", "round": "int", "degrees": "radians",
             "days": "seconds", "total_seconds": None}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in doc:
            a, b = span(n)
            t = src[a:b]
            if isinstance(n.value, bool):
                add(a, b, str(not n.value), "bool")
            elif isinstance(n.value, (int, float)):
                if isinstance(n.value, int):
                    add(a, b, str(n.value + 1), "int+1")
                    add(a, b, str(n.value - 1), "int-1")
                else:
                    m = re.search(r"\d(?=\D*$)|\d(?=[eE])", t)
                    mant = re.match(r"[\d.]+", t).group(0)
                    k = len(mant.rstrip("0.")) - 1
                    if k >= 0:
                        add(a, a + len(mant), mant[:k] + str((int(mant[k]) + 1) % 10) + mant[k + 1:], "last digit")
                    add(a, b, "(%r)" % (n.value * 1.01 if n.value else 0.01), "1%")
            elif isinstance(n.value, str) and len(n.value) > 1:
                add(a, b, repr(n.value + "x"), "str")
        elif isinstance(n, ast.BinOp) and type(n.op) in SW:
            a, b = span(n.left)[1], span(n.right)[0]
            o, w = SW[type(n.op)]
            gap = src[a:b]
            i = gap.find(o)
            if i >= 0 and "#" not in gap[:i]:
                add(a + i, a + i + len(o), w, "op")
            # drop an operand
            la, lb = span(n.left)
            ra, rb = span(n.right)
            A, B = span(n)
            if src.count("(", A, la) == 0 and src.count(")", rb, B) == 0 and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                add(A, B, "(" + src[la:lb] + ")", "drop right")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            add(a, b, "(" + src[slice(*span(n.operand))] + ")", "drop unary")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            o, w = CM[type(n.ops[0])]
            i = src[a:b].find(o)
            if i >= 0:
                add(a + i, a + i + len(o), w, "cmp")
                if w in ("<=", "<", ">", ">="):
                    add(a + i, a + i + len(o), {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[o], "cmp reversed")
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            i = src[a:b].find(o)
            if i >= 0:
                add(a + i, a + i + len(o), w, "bool op")
        elif isinstance(n, ast.Call):
            for x, y in zip(n.args, n.args[1:]):
                (xa, xb), (ya, yb) = span(x), span(y)
                add(xa, yb, src[ya:yb] + src[xb:ya] + src[xa:xb], "swap arguments")
            if len(n.args) > 1:
                add(span(n.args[-2])[1], span(n.args[-1])[1], "", "drop last argument")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and NAMES[n.attr]:
            b = span(n)[1]
            add(b - len(n.attr), b, NAMES[n.attr], "name")
        elif isinstance(n, ast.Name) and n.id in NAMES and NAMES[n.id]:
            a, b = span(n)
            add(a, b, NAMES[n.id], "name")
        elif isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                a, b = span(d)
                add(a - 1, b, "", "drop decorator")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Continue)) and id(n) not in doc:
            a, b = span(n)
            add(a, b, "pass", "drop statement")
        if isinstance(n, ast.If):
            a, b = span(n.test)
            add(a, b, "True", "if True")
            add(a, b, "False", "if False")
    return src, out


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--sample", type=int, default=300)
    p.add_argument("--table", type=int, default=40, help="mutants of the big tables")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--scale", default="0.3")
    p.add_argument("--files", nargs="*", default=FILES)
    p.add_argument("--par", type=int, default=8)
    p.add_argument("--func", help="only lines of functions whose name matches")
    p.add_argument("--keep", action="store_true", help="also mutants the tests notice")
    o = p.parse_args()
    os.makedirs(o.out, exist_ok=True)
    todo, table = [], []
    srcs = {}
    for f in o.files:
        srcs[f], ms = mutants(f)
        for m in ms:
            big = f.endswith("constants.py") and m[5] > 90 or f.endswith("solartime.py") and 38 < m[5] < 685
            (table if big else todo).append(m)
    r = random.Random(o.seed)
    r.shuffle(todo)
    r.shuffle(table)
    print("%d mutants, %d of tables" % (len(todo), len(table)), flush=True)
    todo = todo[:o.sample] + table[:o.table]

    def one(x):
        i, (f, a, b, new, what, ln) = x
        src = srcs[f]
        mut = src[:a] + new + src[b:]
        desc = "%s:%d %s: %r -> %r" % (f, ln, what, src[max(0, a - 25):b + 15].replace("\n", " "), new)
        try:
            compile(mut, f, "exec")
        except SyntaxError:
            return "syntax", desc
        W = "/tmp/mut/w%d_%d" % (os.getpid(), i)
        shutil.copytree(REPO, W, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        try:
            open(os.path.join(W, f), "w", newline="", encoding="utf-8").write(mut)
            t = sh(["bash", "/tmp/tst.sh", W])
            if "90 passed" not in t.stdout or "failed" in t.stdout:
                return "tests", desc
            first = ORDER[os.path.basename(f).replace(".py", "")].split()
            order = first + [c for c in ALL if c not in first]
            for c in order:
                k = sh([VERIF + "/check", c, "--tier", "quick", "--scale", o.scale, "--jobs", "1"], env=dict(os.environ, VERIF_REPO=W))
                if k.returncode == 1 and "VIOLATION" in k.stdout:
                    return "caught by " + c, desc
                if k.returncode != 0:
                    return "HARNESS " + c, desc + "\n" + k.stdout[-300:] + k.stderr[-800:]
            return "SURVIVED", desc
        finally:
            shutil.rmtree(W, ignore_errors=True)

    with ThreadPoolExecutor(o.par) as ex, open(os.path.join(o.out, "result.txt"), "w") as log:
        for st, d in ex.map(one, enumerate(todo)):
            log.write("%s | %s\n" % (st, d))
            log.flush()


main()
