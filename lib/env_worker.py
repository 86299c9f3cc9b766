"""Runs a generated program (statements on standard input) in a fresh interpreter; prints the results of its calls.
usage: env_worker.py REPO TMP"""
import sys

repo, tmp = sys.argv[1:3]
sys.path[:] = [p for p in sys.path if not p.rstrip("/").endswith("/verif/lib")]
del sys.path[:1]
sys.path.insert(0, repo)
lines = sys.stdin.read().splitlines()

import asyncio
import concurrent.futures
import contextvars
import datetime
import decimal
import gc
import importlib
import json
import locale
import os
import random
import signal
import threading
import time
import warnings
import weakref

out = []


def numbers(v):
    if isinstance(v, datetime.datetime):
        return [v.timestamp(), v.utcoffset().total_seconds()]
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in numbers(v[k])]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in numbers(y)]
    return [float(v)]


def types(v):
    return [type(x).__module__ + "." + type(x).__name__ for x in ([v[k] for k in sorted(v)] if isinstance(v, dict) else v if isinstance(v, (tuple, list)) else [v])]


def evaluate(f):
    try:
        v = f()
    except Exception as x:
        return "%s: %s" % (type(x).__name__, x), None
    return numbers(v), types(v)


def in_thread(f):
    box = []
    t = threading.Thread(target=lambda: box.append(f()))
    t.start()
    t.join()
    return box[0]


def in_generator(f):
    def g():
        yield f()
    return next(g())


def deep(f, n=60):
    return f() if n == 0 else deep(f, n - 1)


def in_loop(f):
    async def main():
        await asyncio.sleep(0)
        return f()
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(main())
    finally:
        loop.close()


def traced(f):
    old = sys.gettrace()
    sys.settrace(lambda *a: None)
    try:
        return f()
    finally:
        sys.settrace(old)


def in_pool(f):
    with concurrent.futures.ThreadPoolExecutor(3) as e:
        r = [x.result() for x in [e.submit(f) for _ in range(4)]]
    if any(repr(x) != repr(r[0]) for x in r):
        return "Differs: %r" % (r,), None
    return r[0]


def in_exec(f):
    d = {"f": f}
    exec("r = f()", d)
    return d["r"]


def in_except(f):
    try:
        raise KeyError("when")
    except KeyError:
        try:
            return f()
        finally:
            pass


def in_child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, json.dumps(f()).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as s:
        text = s.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def in_handler(f):
    """the handler of a signal"""
    box = []
    old = signal.signal(signal.SIGUSR1, lambda *a: box.append(f()))
    try:
        signal.raise_signal(signal.SIGUSR1)
        while not box:
            time.sleep(0.001)
    finally:
        signal.signal(signal.SIGUSR1, old)
    return box[0]


def in_destructor(f):
    box = []

    class Last:
        def __del__(self):
            box.append(f())
    x = Last()
    del x
    return box[0]


def in_callback(f):
    """a weak reference's callback, run by the garbage collector"""
    class Node:
        pass
    box = []
    x = Node()
    x.x = x
    ref = weakref.ref(x, lambda r: box.append(f()))
    del x
    gc.collect()
    return box[0] if ref() is None else None


def in_sort(f):
    box = []
    sorted([1, 2], key=lambda k: box.append(f()) or k)
    if repr(box[0]) != repr(box[1]):
        return "Differs: %r" % (box,), None
    return box[0]


CONTEXTS = {"plain": lambda f: f(), "thread": in_thread, "generator": in_generator, "deep": deep, "async": in_loop, "traced": traced, "pool": in_pool, "exec": in_exec,
            "except": in_except, "fork": in_child, "copied context": lambda f: contextvars.copy_context().run(f), "handler": in_handler, "destructor": in_destructor, "callback": in_callback, "sort": in_sort}


def run(context, k, f):
    with warnings.catch_warnings():
        if context == "fork":
            warnings.simplefilter("ignore", DeprecationWarning)
        out.append((k,) + tuple(CONTEXTS[context](lambda: evaluate(f))))


again = run


def locale_any():
    try:
        locale.setlocale(locale.LC_ALL, "")
    except locale.Error:
        pass


def seterr(how):
    if sys.modules.get("numpy"):
        sys.modules["numpy"].seterr(all=how)


def gone():
    """a working directory that no longer exists"""
    d = os.path.join(tmp, "gone")
    os.mkdir(d)
    os.chdir(d)
    os.rmdir(d)


def silent(stream):
    """no standard streams, as under pythonw or in a service"""
    sys.stdin = sys.stdout = sys.stderr = stream


report = sys.stdout
exec(compile("\n".join(lines), "<program>", "exec"), {"W": sys.modules["__main__"], "__name__": "program"})
print(json.dumps(out), file=report)
report.flush()
