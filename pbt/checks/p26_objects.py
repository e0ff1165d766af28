"""P26: sky coordinates, timers, log messages and the example functions."""
import ctypes
import gc
import math
import os
import re
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np
from hypothesis import strategies as st

from ..core import CD, CI, Guard, ccall, ccall_ok, clib, close, require, rng, same, subcheck
from ..gen import choice, fd, fl, seeds, size


def _fn(name, res, *types):
    f = getattr(clib(), name)
    f.restype, f.argtypes = res, list(types)
    return f


P, S, D, I = ctypes.c_void_p, ctypes.c_char_p, ctypes.c_double, ctypes.c_int32

# ------------------------------------------------------------------ coordinates
values = st.one_of(st.floats(allow_nan=True), st.sampled_from(
    [0.0, -0.0, math.pi, 5e-324, 1.7976931348623157e308]), st.integers(-5, 5).map(float))
texts = st.one_of(st.sampled_from(["icrs", "", "altaz", "x" * 300, "xy" * 2500]),
                  st.text(st.characters(min_codepoint=1, max_codepoint=126), max_size=40))
OPS = st.lists(st.one_of(
    st.tuples(st.just("new"), texts, values, values, values),
    st.tuples(st.just("new3"), texts, values, values),
    st.tuples(st.just("copy"), st.integers(0, 9)),
    st.tuples(st.just("epoch"), st.integers(0, 9), values),
    st.tuples(st.just("drop"), st.integers(0, 9)),
    st.tuples(st.just("out"), st.integers(0, 9), st.sampled_from([-1, 3, 4, 1000, -2**31]))),
    min_size=1, max_size=25)


def _eq(a, b):
    return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))


@subcheck("P26", "sky_coord", fd(ops=OPS.map(lambda o: [list(x) for x in o]),
                                 api=choice("py", "c")),
          quick=6000, thorough=100000,
          rule="sequences of create, copy, set epoch, read and drop on up to ten coordinates, "
               "every live object compared with the model after each step; non-trivial: an epoch "
               "was set or a copy made")
def sky_coord(p):
    from ska_sdp_func.utility import SkyCoord
    py = p["api"] == "py"
    create = _fn("sdp_sky_coord_create", P, S, D, D, D)
    free = _fn("sdp_sky_coord_free", None, P)
    get_e = _fn("sdp_sky_coord_epoch", D, P)
    set_e = _fn("sdp_sky_coord_set_epoch", None, P, D)
    get_t = _fn("sdp_sky_coord_type", S, P)
    get_v = _fn("sdp_sky_coord_value", D, P, I)
    live = []  # [object, type, values, epoch]
    deep = False

    def val(o, k):
        return o.value(k) if py else get_v(o, k)

    try:
        for op in p["ops"]:
            k = op[1] % len(live) if live and op[0] not in ("new", "new3") else 0
            if op[0] in ("new", "new3"):
                v = list(op[2:]) + [0.0] * (op[0] == "new3")
                if py:
                    live.append([SkyCoord(op[1], *op[2:]), op[1], v, 2000.0])
                else:
                    b = ctypes.create_string_buffer(op[1].encode())
                    live.append([create(b, *v), op[1], v, 2000.0])
                    ctypes.memset(b, 0x41, len(op[1]))  # the caller's string is not kept
            elif not live:
                continue
            elif op[0] == "copy":
                o, t, v, e = live[k]
                if py:
                    live.append([SkyCoord(o), t, list(v), e])
                    deep = True
            elif op[0] == "epoch":
                (live[k][0].set_epoch if py else lambda e: set_e(live[k][0], e))(op[2])
                live[k][3] = op[2]
                deep = True
            elif op[0] == "drop":
                o = live.pop(k)[0]
                if not py:
                    free(o)
                del o
            elif op[0] == "out":
                require(val(live[k][0], op[2]) == 0.0, f"coordinate {op[2]} is not 0")
            for o, t, v, e in live:
                require((o.type() if py else get_t(o).decode()) == t, "type differs")
                ge = o.epoch() if py else get_e(o)
                require(_eq(ge, e), f"epoch {ge!r} instead of {e!r}")
                for d in range(3):
                    require(_eq(val(o, d), v[d]), f"value {d}: {val(o, d)!r} instead of {v[d]!r}")
    finally:
        if not py:
            for o in live:
                free(o[0])
    return "deep" if deep else "shallow!"


# ------------------------------------------------------------------ single timers
SLACK = 2e-6


@subcheck("P26", "timer", fd(ops=st.lists(st.tuples(
    choice("start", "resume", "pause", "restart", "reset", "elapsed", "elapsed", "wait"),
    st.integers(0, 2), st.integers(0, 1500)).map(list), min_size=3, max_size=30)),
    quick=1500, thorough=30000,
    rule="sequences of timer operations and waits on three timers, each reading compared with the "
         "interval the monotonic clock allows; non-trivial: a running timer was paused or read")
def timer(p):
    new = _fn("sdp_timer_create", P, CI)
    f = {k: _fn("sdp_timer_" + k, D if k == "elapsed" else None, P)
         for k in ("start", "resume", "pause", "restart", "reset", "elapsed", "free")}
    ts = [dict(h=new(0), run=False, lo=0.0, hi=0.0, last=0.0, a=0.0, b=0.0) for _ in range(3)]
    deep = False
    try:
        for op, k, us in p["ops"]:
            t = ts[k]
            if op == "wait":
                end = time.monotonic() + us * 1e-6
                while time.monotonic() < end:
                    pass
                continue
            t0 = time.monotonic()
            v = f[op](t["h"])
            t1 = time.monotonic()
            # time run since the last synchronisation: between a..b and t0..t1
            lo = t["lo"] + (max(0.0, t0 - t["b"]) if t["run"] else 0.0)
            hi = t["hi"] + (t1 - t["a"] if t["run"] else 0.0)
            deep |= t["run"] and op in ("pause", "elapsed")
            if op == "elapsed":
                require(lo - SLACK <= v <= hi + SLACK,
                        f"elapsed {v!r} outside the possible range [{lo!r}, {hi!r}]")
                require(v >= t["last"], "elapsed time decreased")
                if not t["run"] and t["lo"] == t["hi"]:
                    require(v == t["lo"], "a paused timer moved")
                t.update(lo=v, hi=v, a=t0, b=t1, last=v)
            elif op == "pause":
                if t["run"]:
                    t.update(lo=lo, hi=hi)
                t.update(run=False)
            elif op == "resume":
                if not t["run"]:
                    t.update(run=True, a=t0, b=t1)
            elif op == "restart":
                # whether a running timer keeps its running part is not documented
                t.update(run=True, hi=hi, a=t0, b=t1)
            elif op == "start":
                t.update(run=True, lo=0.0, hi=0.0, last=0.0, a=t0, b=t1)
            elif op == "reset":
                t.update(run=False, lo=0.0, hi=0.0, last=0.0)
    finally:
        for t in ts:
            f["free"](t["h"])
    return "ran" if deep else "idle!"


# ------------------------------------------------------------------ timer hierarchy
def _capture(call):
    """Text the library printed to the C standard output during call()."""
    libc = ctypes.CDLL(None)
    libc.fflush(None)
    with tempfile.TemporaryFile() as tmp:
        saved = os.dup(1)
        os.dup2(tmp.fileno(), 1)
        try:
            call()
            libc.fflush(None)
        finally:
            os.dup2(saved, 1)
            os.close(saved)
        tmp.seek(0)
        return tmp.read().decode()


class Node:
    """Model of one named node: a time interval per slot."""

    def __init__(self, parent, slots):
        self.parent, self.kids = parent, {}
        self.lo, self.hi = [0.0] * slots, [0.0] * slots
        self.run = [None] * slots  # (earliest, latest) start

    def resume(self, i, a, b):
        if self.run[i] is None:
            self.run[i] = (a, b)

    def pause(self, i, a, b):
        if self.run[i] is not None:
            self.lo[i] += max(0.0, a - self.run[i][1])
            self.hi[i] += b - self.run[i][0]
            self.run[i] = None

    def at(self, a, b):
        """Intervals of every slot if read between a and b."""
        return [(lo + (max(0.0, a - r[1]) if r else 0.0), hi + (b - r[0] if r else 0.0))
                for lo, hi, r in zip(self.lo, self.hi, self.run)]


LINE = re.compile(r"^1\|[^|]*\|INFO\|\|f\|x.cpp#1\|\| \| ( *)([-+*>]) (.{22,}?): (-?[\d.]+|-?nan|inf) sec"
                  r"(?: \((-?[\d.]+|-?nan|-?inf)%\))?$", re.S)


def _within(v, lo, hi, what):
    require(lo - 6e-4 <= v <= hi + 6e-4, f"{what}: reported {v}, possible {lo:.4f} .. {hi:.4f}")


def _check_report(text, title, root, a, b):
    rows = []
    for ln in text.splitlines():
        m = LINE.match(ln)
        require(m, f"unreadable report line {ln!r}")
        rows.append((len(m[1]), m[2], m[3].rstrip(), float(m[4]), m[5] and float(m[5])))
    it = iter(rows)
    sp, sym, name, v, pc = next(it)
    require((sp, sym, name, pc) == (0, "+", title, None), "wrong title line")
    _within(v, *root.at(a, b)[0], "root")

    def mx(n):
        s = n.at(a, b)
        return max(x[0] for x in s), max(x[1] for x in s)

    def walk(n, depth, row):
        tot = mx(n)
        seen, prev, lo_sum, hi_sum = set(), math.inf, 0.0, 0.0
        sp = 2 * (depth + 1)
        while len(seen) < len(n.kids):
            require(row and row[0] == sp and row[2] in n.kids and row[2] not in seen,
                    f"expected a child line at depth {depth}, got {row}")
            _, sym, name, v, pc = row
            require(sym == "+-*"[depth % 3], "wrong symbol")
            k = n.kids[name]
            seen.add(name)
            lo, hi = mx(k)
            lo_sum, hi_sum = lo_sum + lo, hi_sum + hi
            _within(v, lo, hi, name)
            require(v <= prev + 1.5e-3, f"{name} listed after a shorter sibling")
            prev = v
            if tot[0] > 1e-3:
                require(100 * lo / tot[1] - 0.06 <= pc <= 100 * hi / tot[0] + 0.06,
                        f"{name}: {pc}% of {tot} reported for {lo, hi}")
            row = next(it, None)
            if len(k.lo) > 1:
                s = k.at(a, b)
                los, his = sorted(x[0] for x in s), sorted(x[1] for x in s)
                q = len(s)
                for want, lo, hi in (("Minimum", los[0], his[0]), ("Maximum", los[-1], his[-1]),
                                     ("Median", los[(q - 1) // 2], his[q // 2]),
                                     ("Interquartile range", 0.0, his[-1] - los[0])):
                    require(row and row[0] == sp + 2 and row[1:3] == (">", want),
                            f"expected {want} of {name}, got {row}")
                    _within(row[3], lo, hi, f"{want} of {name}")
                    row = next(it, None)
            if k.kids:
                row = walk(k, depth + 1, row)
        gone = tot[1] - lo_sum
        if row and row[0] == sp and row[2] == "(unaccounted time)":
            _within(row[3], tot[0] - hi_sum, gone, "unaccounted time")
            row = next(it, None)
        else:
            require(tot[0] - hi_sum <= 0.011 * tot[1] + 1e-3,
                    "unaccounted time not reported")
        return row

    rest = walk(root, 0, next(it, None)) if root.kids else next(it, None)
    if not root.kids and rest and rest[2] == "(unaccounted time)":
        rest = next(it, None)
    require(rest is None, f"extra report line {rest}")


NAMES = ["load", "work", "save", "a name that is longer than twenty-two characters"]


@subcheck("P26", "timers", fd(ops=st.lists(st.tuples(
    choice("push", "push", "pop", "pop_push", "wait", "set", "report"),
    st.integers(0, 3), st.integers(1, 5), st.integers(0, 2500)).map(list),
    min_size=3, max_size=25), threads=st.integers(1, 4), title=choice("all", "a b", "")),
    quick=800, thorough=15000, leak=False,
    rule="sequences of push, pop, pop-push and multi-slot timers run by several threads, the "
         "printed report compared line by line with the times the monotonic clock allows; "
         "non-trivial: something is nested under the root")
def timers(p):
    L = clib()
    create = _fn("sdp_timers_create", P, S, CI, CI)
    push = _fn("sdp_timers_push", P, P, S, CI, P)
    pop = _fn("sdp_timers_pop", P, P, CI, P)
    pop_push = _fn("sdp_timers_pop_push", P, P, S, CI, P)
    mkset = _fn("sdp_timers_create_set", P, P, S, CI, P)
    root_of = _fn("sdp_timers_root", P, P)
    report = _fn("sdp_timers_report", None, P, S, S, CI)
    now = time.monotonic
    nth = p["threads"]
    a = now()
    h = create(p["title"].encode(), 0, nth)
    b = now()
    root = cur = Node(None, 1)
    root.resume(0, a, b)
    title = f"{p['title']}, {nth} thread" + "s" * (nth > 1)

    def do_pop(a, b):
        nonlocal cur
        if cur is not root:
            cur.pause(0, a, b)
            cur = cur.parent

    def do_push(name, a, b):
        nonlocal cur
        cur = cur.kids.setdefault(name, Node(cur, 1))
        cur.resume(0, a, b)

    def rep():
        a = now()
        text = _capture(lambda: report(h, b"f", b"x.cpp", 1))
        _check_report(text, title, root, a, now())

    try:
        for op, k, n, us in p["ops"]:
            name = NAMES[k]
            if op == "wait":
                time.sleep(us * 1e-6)
            elif op == "report":
                rep()
            elif op == "set":
                node = mkset(h, name.encode(), n, None)
                m = cur.kids.setdefault(name, Node(cur, n))
                # every slot is timed twice by its own thread
                base = root_of(h) if cur is root else None
                if base is None or len(m.lo) != n:
                    continue
                log = []

                def job(i):
                    for _ in range(2):
                        a = now()
                        q = push(h, name.encode(), i, base)
                        b = now()
                        time.sleep(us * 2e-7 * (i + 1))
                        c = now()
                        back = pop(h, i, q)
                        log.append((i, a, b, c, now(), q == node and back == base))
                th = [threading.Thread(target=job, args=(i,)) for i in range(n)]
                for t in th:
                    t.start()
                for t in th:
                    t.join()
                require(all(x[5] for x in log), "push or pop returned the wrong node")
                for i, a, b, c, d, _ in log:
                    m.resume(i, a, b)
                    m.pause(i, c, d)
            else:
                a = now()
                if op == "push":
                    r = push(h, name.encode(), 0, None)
                elif op == "pop":
                    r = pop(h, 0, None)
                else:
                    r = pop_push(h, name.encode(), 0, None)
                b = now()
                require(not r, "a node was returned although the state is kept internally")
                if op != "push":
                    do_pop(a, b)
                if op != "pop":
                    do_push(name, a, b)
        rep()
    finally:
        L.sdp_timers_free.restype = None
        L.sdp_timers_free(P(h))
    return "nested" if any(k.kids for k in root.kids.values()) else (
        "flat" if root.kids else "empty!")


# ------------------------------------------------------------------ log messages
LEVELS = ["UNDEF", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
PROG = """
import ctypes, sys, json
L = ctypes.CDLL(sys.argv[1])
libc = ctypes.CDLL(None)
out = ctypes.c_void_p.in_dll(libc, "stdout")
for lev, s, n in json.loads(sys.argv[2]):
    L.sdp_log_message(lev, out, b"fn", b"src.c", 7, b"m %s %d", s.encode(), n)
libc.fflush(None)
"""


@subcheck("P26", "log", fd(env=choice(None, "debug", "DEBUG", "info", "INFO", "warn", "WARN",
                                      "warning", "WARNING", "err", "ERROR", "error", "crit",
                                      "CRIT", "CRITICAL"),
                           msgs=st.lists(st.tuples(st.integers(1, 5), texts.map(
                               lambda s: s.replace("\n", " ").replace("\r", " ")),
                               st.integers(-2**31, 2**31 - 1)).map(list),
                               min_size=1, max_size=8)),
          quick=120, thorough=2000, asan=False, leak=False,
          rule="a fresh process per case logs messages of every level with each setting of the "
               "log level variable; messages below the level are dropped and the rest are "
               "printed once, in order, in the SKA format; non-trivial: always")
def log(p):
    env = {k: v for k, v in os.environ.items() if k != "SKA_SDP_FUNC_LOG_LEVEL"}
    if p["env"] is not None:
        env["SKA_SDP_FUNC_LOG_LEVEL"] = p["env"]
    import json
    r = subprocess.run([sys.executable, "-S", "-c", PROG, clib()._name, json.dumps(p["msgs"])],
                       env=env, capture_output=True, timeout=60)
    require(r.returncode == 0, f"logging failed: {r.stderr[-300:]}")
    lim = 2 if p["env"] is None else [x[:3] for x in LEVELS].index(p["env"][:3].upper())
    want = [(LEVELS[m[0]], f"m {m[1]} {m[2]}") for m in p["msgs"] if m[0] >= lim]
    lines = r.stdout.decode().split("\n")
    require(lines[-1] == "" and len(lines) - 1 == len(want),
            f"{len(lines) - 1} messages printed instead of {len(want)}")
    for ln, (lev, text) in zip(lines, want):
        m = re.match(r"^1\|\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{3}Z\|(\w+)\|\|fn\|src\.c#7\|\| (.*)$",
                     ln, re.S)
        require(m and (m[1], m[2]) == (lev, text), f"printed {ln!r} for {lev} {text!r}")
    return "all" if len(want) == len(p["msgs"]) else "filtered"


# ------------------------------------------------------------------ examples
@subcheck("P26", "vector_add", fd(shape=st.lists(st.integers(0, 9), min_size=1, max_size=3),
                                  prec=choice("d", "f"), scale=choice(1.0, 1e30, 1e-30),
                                  alias=choice(0, 0, 1, 2), api=choice("py", "c"), seed=seeds),
          quick=3000, thorough=50000,
          rule="random arrays of one to three dimensions, the output possibly one of the inputs; "
               "exact element-wise sums; non-trivial: at least one element")
def vector_add(p):
    from ska_sdp_func.examples import vector_add as fn
    r = rng(p["seed"])
    dt = "f8" if p["prec"] == "d" else "f4"
    a, b = ((r.standard_normal(p["shape"]) * p["scale"]).astype(dt) for _ in range(2))
    g = Guard()
    x = g.out(a) if p["alias"] == 1 else g.inp(a)
    y = g.out(b) if p["alias"] == 2 else g.inp(b)
    o = [None, x, y][p["alias"]] if p["alias"] else g.out(np.full(a.shape, 3.0, dt))
    if p["api"] == "py":
        fn(x, y, o)
    else:
        ccall_ok("sdp_vector_add", x, y, o)
    g.check()
    same("sum", o, a + b)
    return "some" if a.size else "empty!"


@subcheck("P26", "example_a", fd(a=st.integers(1, 9), b=size(1, 12), c=fl(-4, 4),
                                 runs=st.integers(1, 3), seed=seeds),
          quick=3000, thorough=50000,
          rule="plans of any size run several times on outputs of the plan's size against the "
               "running sums (larger outputs: known finding); non-trivial: at least two elements")
def example_a(p):
    from ska_sdp_func.examples import FunctionExampleA
    fn = FunctionExampleA(p["a"], p["b"], p["c"])
    n = p["a"] * p["b"]
    c = float(np.float32(p["c"]))
    for _ in range(p["runs"]):
        g = Guard()
        out = g.out(np.full(n, -5.0, "f4"))
        fn.exec(out)
        g.check()
        i = np.arange(n)
        close("output", out, c * i * (i - 1) / 2, atol=abs(c) * (i ** 2) * (i + 2) * 6e-8)
    del fn
    gc.collect(0)
    st_, h = ccall("sdp_function_example_a_create_plan", CI(10), CI(p["b"]), ctypes.c_float(1),
                   restype=P)
    require(st_ != 0 and not h, "a plan with a = 10 was created")
    return "some" if n > 1 else "tiny!"


@subcheck("P26", "example_a_larger", None, quick=0, thorough=0, asan=False, leak=False,
          rule="replay only: an output larger than the plan is handled or refused (known finding)")
def example_a_larger(p):
    import subprocess
    import sys
    code = ("import os, numpy as np\nfrom ska_sdp_func.examples import FunctionExampleA\n"
            "from ska_sdp_func.utility import CError\nx = np.full(%d, -5.0, 'f4')\n"
            "try:\n    FunctionExampleA(%d, %d, 1.0).exec(x)\n"
            "except CError:\n    pass\nprint('inside' if (x[%d:] == -5).all() else 'overrun', "
            "flush=True)\nos._exit(0)\n" % (p["n"], p["a"], p["b"], p["a"] * p["b"]))
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=60)
    require(r.returncode == 0 and "inside" in r.stdout,
            f"a plan of {p['a']} x {p['b']} elements processed an output of {p['n']} elements, "
            "overrunning its work area")
    return "larger"
