"""P04: results do not depend on how many CPU threads are used.

  fn_*     every public function: one valid call (the builders of P02, sizes
           scaled up) with one thread, repeated with other thread counts
  others   the parallel functions at sizes around the division of the work
  (tsan)   all generators of all properties, and these, in a ThreadSanitizer
           build on a small OpenMP run-time of our own (native/ompshim.cpp)
           that hands out work in random order: no data race
"""
import ctypes

import numpy as np
from hypothesis import strategies as st

from ..core import (CD, CI, MEM_TYPES, CMem, Guard, Skip, ccall, clib, close, require, rng, set_threads,
                    subcheck)
from ..gen import choice, fd, seeds
from .p02_errors import BUILDERS, R, S
from .p17_wstack import Case as W17, common, noise

THREADS = choice(2, 3, 4, 5, 7, 8, 16, 33)
# contributions to one element are summed in parallel
SUMMED = {"direct_grid", "wtower_grid", "wstack_grid_all", "sum_diff", "rms_diff", "residual",
          "count_nonzero_pixels"}


# more than one dimension follows from one size
SQUARE = {"hogbom_clean", "ms_clean_cornwell", "fft_convolution", "direct_degrid_correct",
          "direct_grid_correct", "wtower_degrid_correct", "wtower_grid_correct",
          "grid_correct_pswf", "grid_correct_w_stack", "image_to_flmn", "make_kernel",
          "make_pswf_kernel", "make_w_pattern", "rms_diff", "residual", "subgrid_add",
          "subgrid_cut_out", "shift_subgrids", "worst_case_image", "determine_max_w_tower_height"}


class Scaled(R):
    """All sizes up to `scale` times larger, or only one of them much larger."""

    def __init__(self, r, scale, long=-1):
        super().__init__(r)
        self.scale, self.long, self.count = scale, long, 0

    def n(self, lo, hi):
        self.count += 1
        if self.long < 0 or self.long == self.count - 1:
            return int(self.r.integers(lo, hi * self.scale + 1))
        return int(self.r.integers(lo, hi + 1))


def outputs(f, passed):
    o = {a.name: np.array(passed[a.name]) for a in f.arrays() if a.out or a.rw}
    if f.restype and not f.free:
        o["result"] = np.array(f.res)
    if f.name.endswith("wtower_grid_all"):
        # at the edges of the field the grid correction amplifies rounding without limit
        k = o["image"].shape[0] // 4
        o["image"] = o["image"][k:-k, k:-k]
    return o


def compare(what, ref, got, exact):
    for k, b in ref.items():
        a = got[k]
        if exact:
            ok = (a == b) | ((a != a) & (b != b))
        else:
            small = b.dtype.itemsize <= (8 if b.dtype.kind == "c" else 4) and b.dtype.kind in "fc"
            tol = 2e-5 if small else 1e-11
            with np.errstate(all="ignore"):
                sc = float(np.max(np.abs(b[np.isfinite(b)]), initial=0))
                ok = np.isclose(a, b, rtol=tol, atol=tol * sc, equal_nan=True)
        require(bool(np.all(ok)), f"{what}: {k} differs in {int(np.sum(~ok))} of {np.size(ok)} "
                "elements from the result of one thread")


def _function(name, build):
    @subcheck("P04", "fn_" + name,
              fd(scale=choice(1, 2, 4, 8), long=choice(-1, -1, 0, 0, 1, 2, 3), threads=THREADS, more=THREADS, prec=choice("d", "f"),
                 seed=seeds),
              tsan=8, quick=48, thorough=1500, asan=16, leak=False,
              rule="a valid call with arrays up to eight times the usual size, or up to 320 times "
                   "along one dimension; oracle: the outputs "
                   "of the same call with one thread (identical, or equal to rounding where "
                   "contributions to one element are summed); non-trivial: more than one work item")
    def run(p):
        big = p["scale"] * (40 if p["long"] >= 0 and name not in SQUARE else 1)
        for scale, long in ((big, p["long"]), (1, -1)):
            f = build(Scaled(rng(p["seed"]), scale, long), p["prec"])
            if not f.cpu:
                raise Skip()
            set_threads(1)
            nt = [a for a in f.args if isinstance(a, S) and a.name == "num_threads"]
            for a in nt:
                a.value = 1
            stt, g, passed = f.call()
            if stt == 0:
                break
        require(stt == 0, f"{f.name} refused a valid call with status {stt}")
        ref = outputs(f, passed)
        for t in (p["threads"], p["more"]):
            set_threads(t)
            for a in nt:
                a.value = t
            stt, g, passed = f.call()
            set_threads(1)
            require(stt == 0, f"{f.name} refused a valid call with {t} threads, status {stt}")
            g.check()
            compare(f"{f.name} with {t} threads", ref, outputs(f, passed), name not in SUMMED)
        return f"scale {scale}" if long < 0 else f"one dimension, scale {scale}"
    return run


for _n, _b in BUILDERS.items():
    _function(_n, _b)


@subcheck("P04", "wstack", fd(**{**common, "many": choice(1, 1, 1, 0), "omp": choice(1),
                                 "threads": THREADS, "more": THREADS, "spread": choice(0.5, 0.2)}),
          tsan=8, quick=64, thorough=2000, asan=8, leak=False,
          rule="a whole data set predicted and imaged with one thread and with several (so that "
               "sub-grids are divided into chunks of rows that do not divide evenly); oracle: the "
               "results of one thread, to rounding, at every visibility and in the centre of the "
               "image; non-trivial: several sub-grids or chunks, so nearly every case")
def wstack(p):
    c = W17(p)
    # (towards the edge of the grid its correction amplifies rounding without limit)
    k = slice(c.n // 2 - c.e, c.n // 2 + c.e + 1)
    im = np.zeros((c.n, c.n), c.dt_v)
    im[k, k] = noise(c.r, (2 * c.e + 1,) * 2, c.dt_v)
    v = noise(c.r, (c.nr, c.nc), c.dt_v)
    res = []
    for t in (1, p["threads"], p["more"]):
        vis, image = np.zeros((c.nr, c.nc), c.dt_v), np.zeros((c.n, c.n), c.dt_v)
        c.degrid(im, vis, threads=t)
        c.grid(v, image, threads=t)
        res.append((t, {"visibilities": vis, "image": image[k, k]}))
    eps = 3e-6 if c.dt_v == "c8" else 1e-13
    for t, r in res[1:]:
        for key, a, s in (("visibilities", r["visibilities"], np.abs(im).sum()),
                        ("image", r["image"], np.abs(v).sum())):
            close(f"{key} with {t} threads against one thread", a, res[0][1][key], rtol=0, atol=eps * s)
    return c.labels


@subcheck("P04", "array", fd(op=choice("scale", "value", "clear", "convert"), nd=st.integers(1, 4),
                             threads=THREADS, seed=seeds),
          quick=160, thorough=6000, asan=16, leak=False,
          rule="operations on whole arrays of up to 100000 elements; oracle: identical to the "
               "result of one thread; non-trivial: more than one element")
def array(p):
    r = rng(p["seed"])
    n = int(10 ** r.uniform(0, 5))
    shape = []
    for _ in range(p["nd"] - 1):
        shape.append(int(r.integers(1, max(2, int(n ** 0.5)))))
        n = max(1, n // shape[-1])
    shape.append(n)
    r.shuffle(shape)
    a = r.integers(-100, 100, shape).astype(r.choice(
        ["f4", "f8", "c8", "c16"] + (["i4"] if p["op"] == "value" else [])))
    if p["op"] in ("scale", "convert") and a.dtype.kind not in "fc":
        a = a.astype("f8")
    res = []
    for t in (1, p["threads"]):
        set_threads(t)
        g = Guard()
        b = g.out(a)
        m = CMem(b)
        if p["op"] == "scale":
            stt, _ = ccall("sdp_mem_scale_real", m, CD(1.7))
        elif p["op"] == "value":
            stt, _ = ccall("sdp_mem_set_value", m, CI(3))
        elif p["op"] == "clear":
            stt, _ = ccall("sdp_mem_clear_contents", m)
        else:
            to = {"f4": "f8", "f8": "f4", "c8": "c16", "c16": "c8"}[a.dtype.kind + str(a.dtype.itemsize)]
            stt, h = ccall("sdp_mem_convert_precision", m, CI(MEM_TYPES[to]),
                           restype=ctypes.c_void_p)
            if stt == 0:
                fn = clib().sdp_mem_data
                fn.restype = ctypes.c_void_p
                q = fn(ctypes.c_void_p(h))
                b = np.frombuffer((ctypes.c_char * (a.size * np.dtype(to).itemsize)).from_address(q),
                                  to).copy()
                clib().sdp_mem_free(ctypes.c_void_p(h))
        set_threads(1)
        g.check()
        res.append((stt, {p["op"]: np.array(b)}))
    require(res[0][0] == res[1][0], f"{p['op']}: status {res[1][0]} with {t} threads, {res[0][0]} with one")
    compare(f"{p['op']} of {a.shape} {a.dtype} with {t} threads", res[0][1], res[1][1], True)
    return p["op"] + ("" if res[0][0] == 0 else " refused") + ("!" if a.size < 2 else "")
