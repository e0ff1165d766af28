"""P30: a result depends on the arguments of its call alone - not on the calls
other threads make at the same time, nor on the calls made before it.

  callers  valid and invalid calls of any public functions, started at the same
           moment in several threads (native/together.c), against each alone
  whole    complete uses of the library (create, use, free) side by side
  arrays   array objects created, copied and converted side by side
  values   functions of plain values and objects of the callers' own side by side
  history  a call repeated after other calls, failed ones included
  (tsan)   the same in the ThreadSanitizer build: no data race
"""
import ctypes
import threading

import numpy as np
from hypothesis import strategies as st

from .. import build as B
from ..core import (CD, CI, I64, MEM_TYPES, CMem, Guard, ccall, clib, require, rng,
                    set_threads, subcheck)
from ..gen import choice, fd, seeds
from .p02_errors import BUILDERS, A, R, S
from .p04_threads import Scaled, outputs
from .p17_wstack import Case as W17, common, noise

_T = None


def together():
    global _T
    if _T is None:
        _T = ctypes.CDLL(B.build_shim("together.c"))
        _T.pbt_together_arm.restype = None
    return _T


class Ready:
    """A call of one of P02's functions with all its arguments prepared."""

    def __init__(self, f, cor=None, inputs=None):
        self.f, self.cor = f, cor
        who, kind, val = cor or (None, None, None)
        self.g, self.passed, ro = f.prepare(cor)
        self.status0 = val if kind == "status" else 0
        self.mems = {}
        self.args = []
        for a in f.args:
            if isinstance(a, A):
                if inputs and not (a.out or a.rw):
                    self.passed[a.name] = inputs.passed[a.name]
                    m = inputs.mems[a.name]
                else:
                    m = CMem(self.passed[a.name], read_only=a.name == ro or not (a.out or a.rw),
                             location=1 if (a.name == who and kind == "loc") else 0)
                self.mems[a.name] = m
                self.args.append(m.h)
            elif isinstance(a, S):
                self.args.append(a.conv(val if (a.name == who and kind == "bad") else a.value))
            elif hasattr(a, "_obj"):      # a reference to a scalar output: one per caller
                self.args.append(ctypes.byref(type(a._obj)(a._obj.value)))
            else:
                self.args.append(a)
        self.plan = f.plan() if f.plan else None
        if f.plan:
            self.args.insert(0, ctypes.c_void_p(self.plan))

    def call(self, count=None, n=0):
        f, lib = self.f, clib()
        fn = getattr(lib, f.name)
        if count is not None:
            t = together()
            t.pbt_together_arm(ctypes.cast(fn, ctypes.c_void_p), count, CI(n))
            fn = ctypes.CFUNCTYPE(f.restype)(ctypes.cast(t.pbt_together, ctypes.c_void_p).value)
        fn.restype = f.restype
        s = ctypes.c_int(self.status0)
        self.res = res = fn(*self.args, ctypes.byref(s))
        self.status = s.value
        if f.free and res:
            free = getattr(lib, f.free)
            free.restype = None
            free(ctypes.c_void_p(res))
        return self

    def outcome(self):
        self.g.check()
        o = {"status": np.array(self.status)}
        if self.status == 0:
            self.f.res = self.res
            o.update(outputs(self.f, self.passed))
        return o

    def close(self):
        if self.plan:
            free = getattr(clib(), self.f.plan_free)
            free.restype = None
            free(ctypes.c_void_p(self.plan))
            self.plan = None


def at_once(works):
    """Run the functions in threads of their own; re-raises what they raise."""
    err = []

    def run(w):
        try:
            w()
        except BaseException as e:    # noqa
            err.append(e)
    ts = [threading.Thread(target=run, args=(w,)) for w in works]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]


def agree(what, got, ref, exact=True):
    for k, b in ref.items():
        a = np.asarray(got[k])
        if exact or k == "status":
            ok = bool(np.all((a == b) | ((a != a) & (b != b))))
        else:
            small = b.dtype.itemsize <= (8 if b.dtype.kind == "c" else 4) and b.dtype.kind in "fc"
            tol = 2e-5 if small else 1e-11
            with np.errstate(all="ignore"):
                sc = float(np.max(np.abs(b[np.isfinite(b)]), initial=0))
                ok = bool(np.all(np.isclose(a, b, rtol=tol, atol=tol * sc, equal_nan=True)))
        require(ok, f"{what}: {k} is not what the same call gives alone"
                + (f" ({a} instead of {b})" if k == "status" else ""))


NAMES = sorted(BUILDERS)
_valid = {}


def valid(name):
    if name not in _valid:
        _valid[name] = bool(BUILDERS[name](R(rng(1)), "d").cpu)
    return _valid[name]


def draw(r, name=None, bad=False, scale=1):
    """A random call: (function, corruption or None)."""
    if name is None:
        names = [n for n in NAMES if valid(n)]
        name = names[int(r.integers(len(names)))]
    seed, prec = int(r.integers(1 << 40)), "df"[int(r.integers(2))]
    f = BUILDERS[name](Scaled(rng(seed), scale, -1) if scale > 1 else R(rng(seed)), prec)
    for a in f.args:
        if isinstance(a, S) and a.name == "num_threads":
            a.value = 1
    cor = None
    if bad:
        # (layouts other than C are valid for some functions: a result, not an error)
        cs = [c for c in f.corruptions() if c[1] != "layout"]
        cor = cs[int(r.integers(len(cs)))]
    return f, cor


@subcheck("P30", "callers",
          fd(callers=st.integers(2, 6), alike=choice("mixed", "function", "call", "shared"),
             bad=choice(0, 0, 0, 1, 2), scale=choice(1, 1, 2, 4), rounds=st.integers(1, 3),
             threads=choice(1, 1, 1, 2), name=st.integers(0, len(NAMES) - 1), seed=seeds),
          quick=4000, thorough=120000, asan=32, leak=False, tsan=320, isolate=False,
          rule="two to six threads start calls of public functions at the same moment: different "
               "functions, one function with different arguments, with equal arguments, or with the "
               "same (shared) input arrays, some of them invalid; oracle: status and outputs of each "
               "call made alone, bit by bit (to rounding where each caller uses several threads and "
               "contributions are summed); non-trivial: every case")
def callers(p):
    r = rng(p["seed"])
    set_threads(p["threads"])
    names = [n for n in NAMES if valid(n)]
    name = names[p["name"] % len(names)]
    fs = []
    for i in range(p["callers"]):
        if p["alike"] in ("call", "shared") and fs:
            fs.append(fs[0])
        else:
            fs.append(draw(r, None if p["alike"] == "mixed" else name, i < p["bad"], p["scale"]))
    refs = []
    for f, cor in fs:
        q = Ready(f, cor)
        refs.append(q.call().outcome())
        q.close()
    share = p["alike"] == "shared" and fs[0][1] is None
    for _ in range(p["rounds"]):
        qs = []
        for f, cor in fs:
            qs.append(Ready(f, cor, qs[0] if share and qs else None))
        count = (ctypes.c_int * 1)(0)

        def work(q):
            def w():
                set_threads(p["threads"])
                q.call(count, len(qs))
            return w
        at_once([work(q) for q in qs])
        outs = [q.outcome() for q in qs]
        for q in qs:
            q.close()
        for q, o, ref, (f, cor) in zip(qs, outs, refs, fs):
            agree(f"{f.name}{'' if cor is None else ' ' + str(cor)} with {p['callers'] - 1} other "
                  f"callers ({', '.join(sorted({g.name for g, _ in fs}))})", o, ref,
                  p["threads"] == 1)
    set_threads(1)
    return [p["alike"], f"{p['callers']} callers"] + (["with errors"] if p["bad"] else [])


@subcheck("P30", "whole", fd(**{**common, "many": choice(0, 0, 1), "omp": choice(1),
                                "callers": st.integers(2, 4), "alike": choice(0, 1)}),
          quick=64, thorough=2000, asan=8, leak=False, tsan=4,
          rule="two to four threads each predict and image a data set with w-towers and stacks, "
               "different ones or the same; oracle: the same alone, bit by bit; non-trivial: every "
               "case")
def whole(p):
    cs = [W17({**p, "seed": p["seed"] + (0 if p["alike"] else i)}) for i in range(p["callers"])]
    works, refs, outs = [], [], []
    for i, c in enumerate(cs):
        im = np.zeros((c.n, c.n), c.dt_v)
        k = slice(c.n // 2 - c.e, c.n // 2 + c.e + 1)
        im[k, k] = noise(c.r, (2 * c.e + 1,) * 2, c.dt_v)
        v = noise(c.r, (c.nr, c.nc), c.dt_v)

        def use(c=c, im=im, v=v):
            vis, image = np.zeros((c.nr, c.nc), c.dt_v), np.zeros((c.n, c.n), c.dt_v)
            set_threads(1)
            c.degrid(im, vis, threads=1)
            c.grid(v, image, threads=1)
            return {"visibilities": vis, "image": image}
        refs.append(use())
        outs.append(None)

        def w(i=i, use=use):
            outs[i] = use()
        works.append(w)
    at_once(works)
    for i, (o, ref) in enumerate(zip(outs, refs)):
        agree(f"data set {i} of {len(cs)} processed side by side", o, ref)
    return [f"{len(cs)} callers", "same data" if p["alike"] else "different data"]


def _take(h, a):
    fn = clib().sdp_mem_data
    fn.restype = ctypes.c_void_p
    q = fn(ctypes.c_void_p(h))
    b = np.frombuffer((ctypes.c_char * a.nbytes).from_address(q), a.dtype).reshape(a.shape).copy()
    clib().sdp_mem_free(ctypes.c_void_p(h))
    return b


@subcheck("P30", "arrays", fd(callers=st.integers(2, 6), steps=st.integers(1, 12), shared=choice(0, 1),
                              seed=seeds),
          quick=800, thorough=30000, asan=16, leak=False, tsan=64,
          rule="two to six threads each create, copy, convert, clear and scale arrays, starting from "
               "arrays of their own or from a common source; oracle: numpy; non-trivial: every case")
def arrays(p):
    r = rng(p["seed"])
    set_threads(1)
    keys = ["f4", "f8", "c8", "c16"]
    shape = [int(x) for x in r.integers(1, 12, int(r.integers(1, 4)))]
    src = r.integers(-50, 50, shape).astype(keys[int(r.integers(4))])
    common_mem = CMem(src, read_only=True)
    got, want, works = {}, {}, []
    for i in range(p["callers"]):
        own = src if p["shared"] else r.integers(-50, 50, shape).astype(keys[int(r.integers(4))])
        mem = common_mem if p["shared"] else CMem(own.copy(), read_only=True)
        ops = [("copy", "convert", "scale", "clear", "value")[int(k)]
               for k in r.integers(0, 5, p["steps"])]
        want[i] = []
        for o in ops:
            w = {"copy": own, "convert": own.astype({"f4": "f8", "f8": "f4", "c8": "c16",
                                                     "c16": "c8"}[own.dtype.kind + str(own.dtype.itemsize)]),
                 "scale": own * own.dtype.type(2), "clear": own * 0, "value": None}[o]
            want[i].append(np.full(shape, 7, "i4") if w is None else w)

        def w(i=i, mem=mem, ops=ops):
            set_threads(1)
            got[i] = []
            for o, ref in zip(ops, want[i]):
                key = ref.dtype.kind + str(ref.dtype.itemsize)
                if o == "convert":
                    s, h = ccall("sdp_mem_convert_precision", mem, CI(MEM_TYPES[key]),
                                 restype=ctypes.c_void_p)
                elif o == "value":
                    s, h = ccall("sdp_mem_create", CI(MEM_TYPES["i4"]), CI(0), CI(len(shape)),
                                 (I64 * len(shape))(*shape), restype=ctypes.c_void_p)
                else:
                    s, h = ccall("sdp_mem_create_copy", mem, CI(0), restype=ctypes.c_void_p)
                if s == 0 and o in ("scale", "clear", "value"):
                    what = {"scale": "sdp_mem_scale_real", "clear": "sdp_mem_clear_contents",
                            "value": "sdp_mem_set_value"}[o]
                    more = {"scale": [CD(2)], "clear": [], "value": [CI(7)]}[o]
                    s, _ = ccall(what, ctypes.c_void_p(h), *more)
                got[i].append(None if s else _take(h, ref))
        works.append(w)
    at_once(works)
    for i in want:
        for a, b in zip(got[i], want[i]):
            require(a is not None, "an array operation was refused")
            require(np.array_equal(a, b), f"caller {i}: wrong array contents")
    return [f"{p['callers']} callers", "shared source" if p["shared"] else "own source"]


class Gate:
    """Calls C functions; the k-th call of every caller starts together with the others' k-th."""

    def __init__(self, counts=None, n=0):
        self.counts, self.n, self.k = counts, n, 0

    def __call__(self, name, restype, *args):
        fn = getattr(clib(), name)
        if self.counts is not None:
            t = together()
            t.pbt_together_arm(ctypes.cast(fn, ctypes.c_void_p),
                               ctypes.byref(self.counts, 4 * self.k), CI(self.n))
            self.k += 1
            fn = ctypes.cast(t.pbt_together, ctypes.c_void_p).value
        else:
            fn = ctypes.cast(fn, ctypes.c_void_p).value
        return ctypes.CFUNCTYPE(restype)(fn)(*args)


GOOD = "_Z21sdp_good_size_complexi"
PARAMS = "_Z33sdp_calculate_params_from_epsilondiiRiS_RdP9sdp_Error"
NODES = "_Z39sdp_generate_gauss_legendre_conv_kerneliiidPdS_S_S_"
CALLS = ("padded", "w_step", "good", "params", "nodes", "pswf", "point", "sky", "names")


def value(what, q, g):
    """One use of a part of the library that takes and returns plain values.

    Each makes two calls through the gate.
    """
    r = rng(q)
    dbl = ctypes.POINTER(CD)
    if what in ("good", "params", "nodes"):
        sym = {"good": GOOD, "params": PARAMS, "nodes": NODES}[what]
        if not hasattr(clib(), sym):
            what = "padded"
    out = []
    if what == "padded":
        for _ in range(2):
            n = int(np.exp(r.uniform(0, 20 if r.random() < 0.3 else 12)))
            out.append(g("sdp_fft_padded_size", ctypes.c_int, CI(n), CD(r.uniform(1, 1.5))))
    elif what == "w_step":
        for _ in range(2):
            a = [CD(x) for x in (0.4, r.uniform(0.05, 0.3), *r.uniform(-0.2, 0.2, 2), 0.25)]
            out.append(g("sdp_gridder_determine_w_step", CD, *a))
    elif what == "good":
        for _ in range(2):
            out.append(g(GOOD, ctypes.c_int, CI(int(r.integers(1, 400000)))))
    elif what == "params":
        for _ in range(2):
            a, b, c, e = ctypes.c_int(0), ctypes.c_int(0), CD(0), CI(0)
            g(PARAMS, None, CD(10 ** r.uniform(-4, -1)), CI(int(r.integers(1, 20000))),
              CI(int(r.choice([4, 8]))), *(ctypes.byref(x) for x in (a, b, c, e)))
            out += [a.value, b.value, c.value, e.value]
    elif what == "nodes":
        for _ in range(2):
            im, w = int(r.integers(1, 80)), int(r.integers(4, 17))
            v = [np.zeros(int(1.5 * w + 2)) for _ in range(3)] + [np.zeros(im // 2 + 1)]
            g(NODES, None, CI(im), CI(2 * im), CI(w), CD(2.0 * w),
              *(x.ctypes.data_as(dbl) for x in v))
            out += [x.tolist() for x in v]
    elif what in ("pswf", "point"):
        h = clib().sdp_pswf_create
        h.restype = ctypes.c_void_p
        c = r.uniform(0.5, 25)
        if what == "pswf":
            p = g("sdp_pswf_create", ctypes.c_void_p, CI(0), CD(c))
        else:
            p = h(CI(0), CD(c))
            out.append(g("sdp_pswf_evaluate", CD, ctypes.c_void_p(p), CD(r.uniform(-1, 1))))
        n, s = int(r.integers(2, 60)), CI(0)
        g("sdp_pswf_generate", None, ctypes.c_void_p(p), None, CI(n), CI(1), ctypes.byref(s))
        out.append(s.value)
        f = clib().sdp_pswf_evaluate
        f.restype = CD
        out += [f(ctypes.c_void_p(p), CD(x)) for x in (0.0, 0.3, 0.9)]
        f = clib().sdp_pswf_values
        f.restype = ctypes.c_void_p
        v = clib().sdp_mem_data_const
        v.restype = ctypes.c_void_p
        a = v(ctypes.c_void_p(f(ctypes.c_void_p(p), CI(0), ctypes.byref(s))))
        out.append([x for x in (CD * n).from_address(a)])
        clib().sdp_pswf_free.restype = None
        clib().sdp_pswf_free(ctypes.c_void_p(p))
    elif what == "sky":
        ty = ["icrs", "altaz", "galactic", "a" * 20][int(r.integers(4))].encode()
        v = r.uniform(-3, 3, 3)
        p = ctypes.c_void_p(g("sdp_sky_coord_create", ctypes.c_void_p, ctypes.c_char_p(ty),
                              *(CD(x) for x in v)))
        out.append(g("sdp_sky_coord_type", ctypes.c_char_p, p))
        f = clib().sdp_sky_coord_value
        f.restype = CD
        out += [f(p, I64(i)) for i in range(3)]
        clib().sdp_sky_coord_free.restype = None
        clib().sdp_sky_coord_free(p)
    elif what == "names":
        out.append(g("sdp_mem_type_name", ctypes.c_char_p,
                     CI(int(r.choice([1, 2, 4, 8, 36, 40, 64, 999])))))
        out.append(g("sdp_mem_location_name", ctypes.c_char_p, CI(int(r.integers(0, 4)))))
    return out


@subcheck("P30", "values",
          fd(callers=st.integers(2, 6), steps=st.integers(1, 10), alike=choice("mixed", "kind", "same"),
             what=st.integers(0, len(CALLS) - 1), seed=seeds),
          quick=1500, thorough=40000, asan=32, leak=False, tsan=160, isolate=False,
          rule="two to six threads each call functions that take and return plain values (FFT "
               "sizes, gridder parameters, quadrature nodes, w-steps, PSWF and "
               "coordinate objects of their own, names of types), every call starting together "
               "with those of the others; oracle: the values the same calls give one after the "
               "other; non-trivial: every case")
def values(p):
    r = rng(p["seed"])
    set_threads(1)
    jobs = []
    for i in range(p["callers"]):
        if p["alike"] == "same" and jobs:
            jobs.append(jobs[0])
            continue
        js = []
        for _ in range(p["steps"]):
            k = p["what"] if p["alike"] == "kind" else int(r.integers(len(CALLS)))
            js.append((CALLS[k], int(r.integers(1 << 40))))
        jobs.append(js)
    refs = [[value(*j, Gate()) for j in js] for js in jobs]
    counts = (ctypes.c_int * (2 * p["steps"]))()
    got = [None] * len(jobs)

    def work(i):
        def w():
            set_threads(1)
            g = Gate(counts, len(jobs))
            got[i] = [value(*j, g) for j in jobs[i]]
        return w
    at_once([work(i) for i in range(len(jobs))])
    for i, js in enumerate(jobs):
        for j, a, b in zip(js, got[i], refs[i]):
            require(str(a) == str(b), f"{j[0]} called by {len(jobs)} callers: {str(a)[:80]} "
                    f"instead of {str(b)[:80]}")
    return [p["alike"], f"{len(jobs)} callers"]


@subcheck("P30", "history",
          fd(name=st.integers(0, len(NAMES) - 1), before=st.integers(1, 8), alike=choice(0, 0, 1),
             scale=choice(1, 1, 2), seed=seeds),
          quick=4000, thorough=150000, asan=32, leak=False, tsan=0,
          rule="a valid call, then one to eight other calls (a third of them invalid; of the same "
               "function or of any), then the first call again; oracle: identical outputs; "
               "non-trivial: every case")
def history(p):
    r = rng(p["seed"])
    set_threads(1)
    names = [n for n in NAMES if valid(n)]
    name = names[p["name"] % len(names)]
    f, _ = draw(r, name, False, p["scale"])

    def once():
        q = Ready(f)
        o = q.call().outcome()
        q.close()
        return o
    ref = once()
    for _ in range(p["before"]):
        g, cor = draw(r, name if p["alike"] else None, r.integers(3) == 0)
        q = Ready(g, cor)
        q.call()
        q.close()
    agree(f"{f.name} repeated after {p['before']} other calls", once(), ref)
    return "same function" if p["alike"] else "any function"
