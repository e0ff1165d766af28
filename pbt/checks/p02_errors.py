"""P02: invalid arguments are reported as errors; an earlier error is preserved.

Each public function has a builder that makes one valid call (sizes and
precision at random).  Every single-argument corruption of that call is then
enumerated from the roles, types and linked dimensions of its arguments:

  type      any other element type or precision
  ndim+/-   a dimension more or fewer
  dim+/-    one linked dimension longer or shorter
  ro        a read-only output
  layout    not C contiguous: refused, or the same result as for contiguous data
  loc       one array claims to be in accelerator memory
  bad       a parameter outside its documented domain
  status    an error is already recorded

and one is drawn per case.
"""
import ctypes

import numpy as np
from hypothesis import strategies as st

from ..core import (CD, CI, I32, I64, CMem, Guard, Violation, ccall, clib, require, rng,
                    set_threads, subcheck)
from ..gen import choice, fd, seeds

KEYS = ("i1", "i4", "f4", "f8", "c8", "c16")
STATUSES = (1, 2, 3, 4, 5, 6, 7, 100, -1)


class A:
    """An array argument.  dims: one token per dimension: a name (linked when it
    occurs elsewhere), "=" (fixed size) or "_" (free); a trailing "+" means more
    is accepted.  skip: corruption kinds that are not errors here."""

    def __init__(self, name, data, dims, out=False, alt=(), nd_ok=(), skip=(),
                 rw=False, dim_ok=()):
        self.dim_ok = dim_ok    # (corruption, dimension) pairs that are not errors
        self.rw = rw      # an input that may not be marked read-only
        self.name, self.data, self.out = name, np.asarray(data), out
        self.dims, self.alt, self.nd_ok, self.skip = dims.split(), alt, nd_ok, skip
        assert len(self.dims) == self.data.ndim, name
        self.key = self.data.dtype.kind + str(self.data.dtype.itemsize)


class S:
    """A scalar argument with values outside its domain."""

    def __init__(self, name, value, conv, bad=()):
        self.name, self.value, self.conv, self.bad = name, value, conv, bad


class Fn:
    def __init__(self, name, args, restype=None, handle=None, free=None, plan=None,
                 plan_free=None, cpu=True):
        """handle: the function returns an object to be freed with `free`.
        plan: zero-argument callable giving the object passed first."""
        self.name, self.args, self.restype = name, args, restype
        self.free, self.plan, self.plan_free = free, plan, plan_free
        self.cpu = cpu      # False: no valid call exists in this build
        self.res = None

    def arrays(self):
        return [a for a in self.args if isinstance(a, A)]

    def corruptions(self):
        links = {}
        for a in self.arrays():
            for d in a.dims:
                d = d.rstrip("+-")
                links[d] = links.get(d, 0) + 1
        cs = []
        for a in self.arrays():
            for k in KEYS:
                if k != a.key and k not in a.alt and "type" not in a.skip:
                    cs.append((a.name, "type", k))
            n = a.data.ndim
            if n + 1 not in a.nd_ok and "ndim+" not in a.skip:
                cs += [(a.name, "ndim+", "front"), (a.name, "ndim+", "back")]
            if n > 1 and n - 1 not in a.nd_ok and "ndim-" not in a.skip:
                cs += [(a.name, "ndim-", "front"), (a.name, "ndim-", "back")]
            for i, d in enumerate(a.dims):
                if d == "_" or (not d.startswith("=") and links[d.rstrip("+-")] < 2):
                    continue
                if not d.endswith("+") and "dim+" not in a.skip and ("dim+", i) not in a.dim_ok:
                    cs += [(a.name, "dim+", i)]
                if not d.endswith("-") and "dim-" not in a.skip and ("dim-", i) not in a.dim_ok:
                    cs += [(a.name, "dim-", i)]
            if a.out and "ro" not in a.skip:
                cs += [(a.name, "ro", 0)]
            if "layout" not in a.skip:
                cs += [(a.name, "layout", "X2")]
                if n > 1:
                    cs += [(a.name, "layout", "F"), (a.name, "layout", "S2")]
            if len(self.arrays()) > 1 and "loc" not in a.skip:
                cs += [(a.name, "loc", 1)]
        for s in self.args:
            if isinstance(s, S):
                cs += [(s.name, "bad", v) for v in s.bad]
        if self.arrays():
            # (there is no accelerator: nothing can be done with such arrays)
            cs += [("*", "loc", 1)]
        cs += [("status", "status", v) for v in STATUSES]
        return cs

    def call(self, cor=None, status=0):
        """Returns (status, guard, {name: array as passed})."""
        who, kind, val = cor or (None, None, None)
        g, passed, ro = self.prepare(cor)
        conv = []
        for a in self.args:
            if isinstance(a, A):
                conv.append(CMem(passed[a.name], read_only=a.name == ro or not (a.out or a.rw),
                                 location=1 if (who in (a.name, "*") and kind == "loc") else 0))
            elif isinstance(a, S):
                conv.append(a.conv(val if (a.name == who and kind == "bad") else a.value))
            else:
                conv.append(a)
        plan = self.plan() if self.plan else None
        try:
            pre = [ctypes.c_void_p(plan)] if self.plan else []
            stt, res = ccall(self.name, *pre, *conv, status=status, restype=self.restype)
            if self.free and res:
                f = getattr(clib(), self.free)
                f.restype = None
                f(ctypes.c_void_p(res))
        finally:
            if self.plan_free and plan:
                f = getattr(clib(), self.plan_free)
                f.restype = None
                f(ctypes.c_void_p(plan))
        self.res = res
        return stt, g, passed

    def prepare(self, cor=None):
        """Copies of the arrays with the corruption applied:
        (guard, {name: array}, name of the array to mark read-only)."""
        who, kind, val = cor or (None, None, None)
        g, passed, ro = Guard(), {}, None
        for a in self.args:
            if isinstance(a, A):
                d, layout = a.data, "C"
                if a.name == who:
                    if kind == "type":
                        with np.errstate(all="ignore"):
                            d = np.nan_to_num(d.real if val[0] != "c" else d).astype(val)
                    elif kind == "ndim+":
                        d = d[None] if val == "front" else d[..., None]
                    elif kind == "ndim-":
                        d = d[0] if val == "front" else d[..., 0]
                    elif kind == "dim+":
                        d = np.concatenate([d, d.take([-1], axis=val)], axis=val)
                    elif kind == "dim-":
                        d = d.take(range(d.shape[val] - 1), axis=val)
                    elif kind == "ro":
                        ro = a.name
                    elif kind == "layout":
                        layout = val
                passed[a.name] = (g.out if a.out else g.inp)(d, layout=layout)
        return g, passed, ro


def _outputs(f, passed):
    return {a.name: np.array(passed[a.name]) for a in f.arrays() if a.out}


def decide(f, p):
    set_threads(1)
    cs = f.corruptions()
    cor = cs[p["k"] % len(cs)]
    who, kind, val = cor
    what = f"{f.name}: {who} {kind} {val}"
    if kind == "status":
        stt, g, _ = f.call(status=val)
        require(stt == val, f"{f.name}: recorded error {val} replaced by {stt}")
        g.check(unchanged_outputs=True)
        return "status"
    ref = None
    if kind == "layout":
        stt, g, passed = f.call()
        require(stt == 0 or not f.cpu, f"{f.name} refused a valid call with status {stt}")
        ref = _outputs(f, passed)
        ref_res = f.res
    stt, g, passed = f.call(cor)
    if kind == "layout" and stt == 0:
        g.check()
        if not f.free and f.restype:
            require(np.isclose(f.res, ref_res, rtol=1e-6, equal_nan=True),
                    f"{what}: result {f.res} != {ref_res}")
        for n, a in _outputs(f, passed).items():
            b = ref[n]
            tol = 1e-4 if b.dtype.itemsize <= (8 if b.dtype.kind == "c" else 4) else 1e-9
            with np.errstate(all="ignore"):
                sc = np.max(np.abs(b[np.isfinite(b)]), initial=0)
                ok = np.isclose(a, b, rtol=tol, atol=tol * float(sc), equal_nan=True)
            require(ok.all(), f"{what}: accepted, but {n} differs from the result for "
                    f"contiguous data in {int((~ok).sum())} of {ok.size} elements")
        return "layout accepted"
    require(stt != 0, f"{what}: accepted without an error")
    g.check(unchanged_outputs=True)
    if f.cpu is False:
        return kind + " (accelerator-only function)"
    # (the message names the wrong argument, so that is what gets reported)
    stt, g, passed = f.call()
    require(stt == 0, f"{f.name} refused a valid call with status {stt}")
    g.check()
    return kind


BUILDERS = {}


def function(name):
    def deco(fn):
        BUILDERS[name] = fn

        @subcheck("P02", name, fd(k=st.integers(0, 9999), prec=choice("d", "f"), seed=seeds),
                  quick=600, thorough=12000, asan=60, leak=True,
                  rule="one valid call of the function with one argument corrupted, or an error "
                       "already recorded (the corruption is drawn from the full enumeration); "
                       "oracle: non-zero status, all arrays byte-identical, then the repaired "
                       "call is accepted; non-trivial: every case")
        def run(p):
            r = rng(p["seed"])
            return decide(fn(R(r), p["prec"]), p)
        return fn
    return deco


class R:
    """Random data helpers."""

    def __init__(self, r):
        self.r = r

    def n(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def c(self, shape, f="d"):
        return (self.r.standard_normal(shape) + 1j * self.r.standard_normal(shape)).astype(
            "c16" if f == "d" else "c8")

    def f(self, shape, f="d", lo=None, hi=None):
        a = (self.r.standard_normal(shape) if lo is None else self.r.uniform(lo, hi, shape))
        return a.astype("f8" if f == "d" else "f4")


def D(name, v, bad=()):
    return S(name, v, lambda x: CD(float(x)), bad)


def N(name, v, bad=()):
    return S(name, v, CI, bad)


def L(name, v, bad=()):
    return S(name, v, I64, bad)


# --------------------------------------------------------------------------
# visibility/
# --------------------------------------------------------------------------
@function("dft_point_v00")
def dft_point_v00(r, prec):
    s, t, b, c, p = r.n(2, 5), r.n(2, 4), r.n(2, 5), r.n(2, 4), 4
    return Fn("sdp_dft_point_v00", [
        A("source_directions", r.f((s, 3), "d", -0.1, 0.1), "s ="),
        A("source_fluxes", r.c((s, c, p)), "s c p"),
        A("uvw_lambda", r.f((t, b, c, 3)), "t b c ="),
        A("vis", r.c((t, b, c, p), prec), "t b c p", out=True, alt=("c8", "c16"))])


@function("dft_point_v01")
def dft_point_v01(r, prec):
    s, t, b, c, p = r.n(2, 5), r.n(2, 4), r.n(2, 5), r.n(2, 4), 4
    return Fn("sdp_dft_point_v01", [
        A("source_directions", r.f((s, 3), "d", -0.1, 0.1), "s =", nd_ok=(3,)),
        A("source_fluxes", r.c((s, c, p)), "s c p"),
        A("uvw", r.f((t, b, 3)), "t b ="),
        D("channel_start_hz", 1e8), D("channel_step_hz", 1e6),
        A("vis", r.c((t, b, c, p), prec), "t b c p", out=True, alt=("c8", "c16"))])


def _coord(ra, dec):
    fn = clib().sdp_sky_coord_create
    fn.restype = ctypes.c_void_p
    return ctypes.c_void_p(fn(b"icrs", CD(ra), CD(dec), CD(0.0)))


_COORDS = []


def coords():
    if not _COORDS:
        _COORDS.extend([_coord(0.1, 0.5), _coord(0.12, 0.48)])
    return _COORDS


@function("phase_rotate_uvw")
def phase_rotate_uvw(r, prec):
    t, b = r.n(2, 4), r.n(2, 5)
    return Fn("sdp_phase_rotate_uvw", [
        *coords(), A("uvw_in", r.f((t, b, 3), prec), "t b ="),
        A("uvw_out", r.f((t, b, 3), prec), "t b =", out=True)])


@function("phase_rotate_vis")
def phase_rotate_vis(r, prec):
    t, b, c, p = r.n(2, 4), r.n(2, 5), r.n(2, 4), 4
    return Fn("sdp_phase_rotate_vis", [
        *coords(), D("channel_start_hz", 1e8), D("channel_step_hz", 1e6),
        A("uvw", r.f((t, b, 3), prec), "t b ="),
        A("vis_in", r.c((t, b, c, p), prec), "t b c p"),
        A("vis_out", r.c((t, b, c, p), prec), "t b c p", out=True)])


def _weighting(r, prec, robust):
    t, b, c, p, gs = r.n(2, 4), r.n(2, 5), r.n(2, 4), r.n(2, 4), 8
    rb = [D("robust_param", 0.5)] if robust else []
    return [
        A("uvw", r.f((t, b, 3), "d"), "t b ="),
        A("freq_hz", r.f((c,), "d", 1e8, 2e8), "c"), D("max_abs_uv", 3.0), *rb,
        A("weight_grid_uv", np.zeros((gs, gs, p), "f8" if prec == "d" else "f4"), "g g p", out=True),
        A("input_weights", r.f((t, b, c, p), prec, 0.5, 1), "t b c p"),
        A("output_weights", r.f((t, b, c, p), prec), "t b c p", out=True)]


@function("weighting_uniform")
def weighting_uniform(r, prec):
    return Fn("sdp_weighting_uniform", _weighting(r, prec, False))


@function("weighting_briggs")
def weighting_briggs(r, prec):
    return Fn("sdp_weighting_briggs", _weighting(r, prec, True))


def _opt(r, prec):
    t, b, c, p = r.n(2, 4), r.n(2, 3), r.n(2, 3), r.n(1, 4)
    m = t * b * c
    kw = dict(skip=("type", "layout", "dim+", "dim-"))   # (status only; refused whatever they are)
    return (A("uvw", r.f((t, b, 3), prec), "t b =", alt=("f4", "f8")),
            A("freqs", r.f(c, prec, 1e8, 2e8), "c", alt=("f4", "f8")),
            A("vis", r.c((t, b, c, p), prec), "t b c p", alt=("c8", "c16")),
            A("weights", r.f((t, b, c, p), prec, 0.5, 1), "t b c p", alt=("f4", "f8")),
            [A(n, r.f(m, prec), "_", **kw) for n in ("sorted_uu", "sorted_vv", "sorted_weight")],
            [A(n, r.r.integers(0, 9, m).astype("i4"), "_", **kw)
             for n in ("sorted_tile", "tile_offsets", "num_points_in_tiles", "sorted_vis_index")],
            A("output_weights", r.f((t, b, c, p), prec), "t b c p", out=True))


@function("optimized_weighting")
def optimized_weighting(r, prec):
    uvw, freqs, vis, weights, (uu, vv, sw), (tile, off, num, _), out = _opt(r, prec)
    return Fn("sdp_optimized_weighting", [
        uvw, freqs, vis, weights, D("robust", 0.5), N("grid_size", 64), L("support", 3),
        uu, vv, sw, tile, off, num, out], cpu=False)


@function("optimised_indexed_weighting")
def optimised_indexed_weighting(r, prec):
    uvw, _, vis, weights, (uu, vv, _), (tile, off, num, idx), out = _opt(r, prec)
    return Fn("sdp_optimised_indexed_weighting", [
        uvw, vis, weights, D("robust", 0.5), N("grid_size", 64), D("cell_size", 1e-3),
        L("support", 3), ctypes.byref(CI(8)), tile, uu, vv, idx, off, num, out], cpu=False)


@function("flagger_dynamic_threshold")
def flagger(r, prec):
    t, b, c, p = r.n(2, 5), r.n(2, 3), r.n(6, 12), r.n(2, 4)
    return Fn("sdp_flagger_dynamic_threshold", [
        A("vis", r.c((t, b, c, p), prec), "t b c p", alt=("c8", "c16")),
        A("flags", r.r.integers(0, 2, (t, b, c, p)).astype("i4"), "t b c p", out=True),
        D("alpha", 0.5), D("threshold_magnitudes", 3.5), D("threshold_variations", 3.5),
        D("threshold_broadband", 3.5), N("sampling_step", 1, (0, -1, c + 1)),
        N("window", 1, (-1,)), N("window_median_history", 3, (0, -2))])


def _tiles(r, prec):
    t, b, c, p = r.n(2, 3), r.n(2, 5), r.n(2, 4), 1
    gs, tu, tv = 32, 8, 8
    uvw = r.f((t, b, 3), prec, -10, 10)
    freq = np.full(c, 299792458.0, "f8" if prec == "d" else "f4")
    vis, wt = r.c((t, b, c, p), prec), r.f((t, b, c, p), prec, 0.5, 1)
    n = (gs // tu) * (gs // tv)
    offs = np.zeros(n + 1, "i4")
    pts = np.zeros(n, "i4")
    skip = np.zeros(1, "i4")
    nv = CI(0)
    stt, _ = ccall("sdp_count_and_prefix_sum", uvw, freq, vis, CI(gs), I64(tu), I64(tv),
                   CD(1 / gs), I64(1), ctypes.byref(nv), offs, pts, skip)
    require(stt == 0, f"count_and_prefix_sum refused valid arguments with {stt}")
    return (t, b, c, p), (gs, tu, tv, 1 / gs, 1), uvw, freq, vis, wt, offs, n, nv.value


def _tile_scalars(a):
    gs, tu, tv, cell, sup = a
    return [N("grid_size", gs, (0, -1)), L("tile_size_u", tu, (0, -1)), L("tile_size_v", tv, (0, -1)),
            D("cell_size_rad", cell), L("support", sup, (-1,))]


@function("count_and_prefix_sum")
def count_and_prefix_sum(r, prec):
    _, a, uvw, freq, vis, wt, offs, n, nv = _tiles(r, prec)
    i = r.r.integers(0, 9, n + 1).astype("i4")
    return Fn("sdp_count_and_prefix_sum", [
        A("uvw", uvw, "t b ="), A("freqs", freq, "c"), A("vis", vis, "t b c p", alt=("c8", "c16")), *_tile_scalars(a),
        ctypes.byref(CI(0)), A("tile_offsets", i, "=", out=True),
        A("num_points_in_tiles", i[1:], "=", out=True), A("num_skipped", i[:1], "=+", out=True)])


@function("bucket_sort")
def bucket_sort(r, prec):
    _, a, uvw, freq, vis, wt, offs, n, nv = _tiles(r, prec)
    m = max(nv, 1)
    ft = "f8" if prec == "d" else "f4"
    return Fn("sdp_bucket_sort", [
        A("uvw", uvw, "t b ="), A("freqs", freq, "c"), A("vis", vis, "t b c p"),
        A("weights", wt, "t b c p"), *_tile_scalars(a),
        A("sorted_uu", np.zeros(m, ft), "n", out=True), A("sorted_vv", np.zeros(m, ft), "n", out=True),
        A("sorted_weight", np.zeros(m, ft), "n", out=True),
        A("sorted_tile", np.zeros(m, "i4"), "n", out=True),
        A("sorted_vis", np.zeros(m, vis.dtype), "n", out=True),
        A("tile_offsets", offs, "=", out=True)])


@function("tiled_indexing")
def tiled_indexing(r, prec):
    (t, b, c, p), a, uvw, freq, vis, wt, offs, n, nv = _tiles(r, prec)
    m = max(nv, 1)
    ft = "f8" if prec == "d" else "f4"
    return Fn("sdp_tiled_indexing", [
        A("uvw", uvw, "t b ="), A("freqs", freq, "="), *_tile_scalars(a),
        L("num_channels", c), L("num_baselines", b), L("num_times", t),
        A("sorted_tile", np.zeros(m, "i4"), "n", out=True),
        A("sorted_uu", np.zeros(m, ft), "n", out=True), A("sorted_vv", np.zeros(m, ft), "n", out=True),
        A("sorted_vis_index", np.zeros(m, "i4"), "n", out=True),
        A("tile_offsets", offs, "=", out=True)])


# --------------------------------------------------------------------------
# clean/, numeric_functions/, examples/
# --------------------------------------------------------------------------
def _clean(r, prec):
    n = r.n(5, 9)
    x = r.f((n, n), prec)
    psf = r.f((2 * n, 2 * n), prec, 0, 0.1)
    psf[n, n] = 1
    return n, A("dirty_img", x, "n n"), A("psf", psf, "= ="), A(
        "cbeam_details", np.array([1.5, 1.2, 0.3, 5], psf.dtype), "="), [
        A(k, r.f((n, n), prec), "n n", out=True) for k in ("clean_model", "residual", "skymodel")]


@function("hogbom_clean")
def hogbom_clean(r, prec):
    n, d, psf, cb, outs = _clean(r, prec)
    return Fn("sdp_hogbom_clean", [
        d, psf, cb, D("loop_gain", 0.1, (0, -0.1)), D("threshold", 0.01),
        N("cycle_limit", 3, (0, -1)), *outs])


@function("ms_clean_cornwell")
def ms_clean_cornwell(r, prec):
    n, d, psf, cb, outs = _clean(r, prec)
    return Fn("sdp_ms_clean_cornwell", [
        d, psf, cb, A("scale_list", np.array([0, 2], "i4"), "_"),
        D("loop_gain", 0.1), D("threshold", 0.01), N("cycle_limit", 3), *outs])


@function("fft_convolution")
def fft_convolution(r, prec):
    n, m = r.n(3, 6), r.n(3, 6)
    return Fn("sdp_fft_convolution", [
        A("in1", r.c((n, n), prec), "n n"), A("in2", r.c((m, m), prec), "m m"),
        A("out", r.c((n, n), prec), "n n", out=True)])


@function("vector_add")
def vector_add(r, prec):
    n = r.n(2, 9)
    return Fn("sdp_vector_add", [
        A("a", r.f(n, prec), "n", nd_ok=(2,), skip=("layout",)),
        A("b", r.f(n, prec), "n", nd_ok=(2,), skip=("layout",)),
        A("out", r.f(n, prec), "n", out=True, nd_ok=(2,), skip=("layout",))])


def _obj(name, free, *args):
    def make():
        stt, h = ccall(name, *args, restype=ctypes.c_void_p)
        require(stt == 0 and h, f"{name} refused valid arguments with status {stt}")
        return h
    return dict(plan=make, plan_free=free)


@function("function_example_a_create")
def example_a_create(r, prec):
    return Fn("sdp_function_example_a_create_plan", [
        N("a", 3, ()), N("b", 4, ()), S("c", 2.0, ctypes.c_float)],
        restype=ctypes.c_void_p, free="sdp_function_example_a_free_plan")


@function("function_example_a_exec")
def example_a_exec(r, prec):
    return Fn("sdp_function_example_a_exec", [
        A("output", r.f(12, "f"), "=", out=True, nd_ok=(2,),
          skip=("layout", "dim+", "ndim+"))],
        **_obj("sdp_function_example_a_create_plan", "sdp_function_example_a_free_plan",
               CI(3), CI(4), ctypes.c_float(2)))


# --------------------------------------------------------------------------
# fourier_transforms/
# --------------------------------------------------------------------------
@function("fft_create")
def fft_create(r, prec):
    nd = r.n(1, 3)
    x = r.c((5, 4, 6)[:nd], prec)
    return Fn("sdp_fft_create", [
        A("input", x, "a b c"[:2 * nd - 1], skip=("type",) if False else ()),
        A("output", r.c(x.shape, prec), "a b c"[:2 * nd - 1], out=True),
        N("num_dims_fft", min(nd, 2), (0, nd + 1, nd - 2, -1, 4) if nd > 1 else (2, 3, -1)),
        N("is_forward", 1)], restype=ctypes.c_void_p, free="sdp_fft_free")


@function("fft_exec")
def fft_exec(r, prec):
    nd = r.n(1, 3)
    x = r.c((5, 4, 6)[:nd], prec)
    y = r.c(x.shape, prec)
    return Fn("sdp_fft_exec", [
        A("input", x, "a b c"[:2 * nd - 1], out=False),
        A("output", y, "a b c"[:2 * nd - 1], out=True)],
        **_obj("sdp_fft_create", "sdp_fft_free", x, y, CI(min(nd, 2)), CI(1)))


@function("fft_exec_shift")
def fft_exec_shift(r, prec):
    x = r.c((6, 4), prec)
    return Fn("sdp_fft_exec_shift", [A("data", x, "= =", out=True), N("norm", 1)],
              **_obj("sdp_fft_create", "sdp_fft_free", x, x, CI(2), CI(1)))


@function("fft_norm")
def fft_norm(r, prec):
    return Fn("sdp_fft_norm", [A("data", r.c((3, 4), prec), "_ _", out=True, alt=("c8", "c16"))])


@function("fft_phase")
def fft_phase(r, prec):
    return Fn("sdp_fft_phase", [A("data", r.c((3, 4), prec), "_ _", out=True, alt=("c8", "c16"),
                                  nd_ok=(1,))])


@function("generate_pswf")
def generate_pswf(r, prec):
    return Fn("sdp_generate_pswf", [
        N("m", 0), D("c", 9.0), A("pswf_out", r.f(r.n(4, 12), prec), "_", out=True, alt=("f4", "f8", "c8", "c16"))])


@function("pswf_generate")
def pswf_generate(r, prec):
    def make():
        fn = clib().sdp_pswf_create
        fn.restype = ctypes.c_void_p
        return fn(CI(0), CD(9.0))
    n = r.n(4, 12)
    return Fn("sdp_pswf_generate", [
        A("out", r.f(n, prec), "_", out=True, alt=("f4", "f8", "c8", "c16")), N("size", 0, (n,)),
        N("end_correction", 1)], plan=make, plan_free="sdp_pswf_free")


@function("swiftly_create")
def swiftly_create(r, prec):
    n, y, bad_y, x, bad_x = [
        (64, 32, (0, -32, 31, 24, 2), 16, (0, -16, 15, 24)),
        (66, 22, (0, -22, 33, 44), 6, (0, -6, 33, 12, 66 * 2)),
        (66, 22, (0, 11, 132), 66, (0, 33, 22 + 6))][r.n(0, 2) % 3]
    return Fn("sdp_swiftly_create", [
        L("image_size", n, (0, -n, n - 1, n - 24)), L("yN_size", y, bad_y),
        L("xM_size", x, bad_x), D("W", 8.0)],
        restype=ctypes.c_void_p, free="sdp_swiftly_free")


SW = dict(img=64, yN=32, xM=16, m=8)


def _swiftly():
    return _obj("sdp_swiftly_create", "sdp_swiftly_free", I64(64), I64(32), I64(16), CD(8.0))


def _sw(name, arrays, offs):
    args = []
    for a in arrays:
        args.append(A(*a[:3], out=a[3], rw=True))
    for k in offs:
        args.append(L(k, 0, ()))
    return Fn("sdp_swiftly_" + name, args, **_swiftly())


@function("swiftly_prepare_facet")
def swiftly_prepare_facet(r, prec):
    k, d = (32, "=-") if r.n(0, 1) else (16, "_")       # as large as possible, or smaller
    return _sw("prepare_facet", [("facet", r.c((3, k)), "a " + d, False),
                                 ("prep_facet_out", r.c((3, 32)), "a =", True)], ["facet_offset"])


@function("swiftly_extract_from_facet")
def swiftly_extract_from_facet(r, prec):
    return _sw("extract_from_facet", [("prep_facet", r.c((3, 32)), "a =", False),
                                      ("contribution_out", r.c((3, 8)), "a =", True)],
               ["subgrid_offset"])


@function("swiftly_add_to_subgrid")
def swiftly_add_to_subgrid(r, prec):
    return _sw("add_to_subgrid", [("contribution", r.c((3, 8)), "a =", False),
                                  ("subgrid_image_inout", r.c((3, 16)), "a =", True)],
               ["facet_offset"])


@function("swiftly_add_to_subgrid_2d")
def swiftly_add_to_subgrid_2d(r, prec):
    return _sw("add_to_subgrid_2d", [("contribution", r.c((8, 8)), "= =", False),
                                     ("subgrid_image_inout", r.c((16, 16)), "= =", True)],
               ["facet_offset0", "facet_offset1"])


@function("swiftly_finish_subgrid_inplace")
def swiftly_finish_subgrid_inplace(r, prec):
    return _sw("finish_subgrid_inplace", [("subgrid_inout", r.c((3, 16)), "_ =", True)],
               ["subgrid_offset"])


@function("swiftly_finish_subgrid")
def swiftly_finish_subgrid(r, prec):
    k, d = (16, "=-") if r.n(0, 1) else (12, "_")
    return _sw("finish_subgrid", [("subgrid_image", r.c((3, 16)), "a =", False),
                                  ("subgrid_out", r.c((3, k)), "a " + d, True)], ["subgrid_offset"])


@function("swiftly_finish_subgrid_inplace_2d")
def swiftly_finish_subgrid_inplace_2d(r, prec):
    return _sw("finish_subgrid_inplace_2d", [("subgrid_inout", r.c((16, 16)), "= =", True)],
               ["subgrid_offset0", "subgrid_offset1"])


@function("swiftly_prepare_subgrid_inplace")
def swiftly_prepare_subgrid_inplace(r, prec):
    return _sw("prepare_subgrid_inplace", [("subgrid_inout", r.c((3, 16)), "_ =", True)],
               ["subgrid_offset"])


@function("swiftly_prepare_subgrid_inplace_2d")
def swiftly_prepare_subgrid_inplace_2d(r, prec):
    return _sw("prepare_subgrid_inplace_2d", [("subgrid_inout", r.c((16, 16)), "= =", True)],
               ["subgrid_offset0", "subgrid_offset1"])


@function("swiftly_extract_from_subgrid")
def swiftly_extract_from_subgrid(r, prec):
    return _sw("extract_from_subgrid", [("subgrid_image", r.c((3, 16)), "a =", False),
                                        ("contribution_out", r.c((3, 8)), "a =", True)],
               ["facet_offset"])


@function("swiftly_extract_from_subgrid_2d")
def swiftly_extract_from_subgrid_2d(r, prec):
    return _sw("extract_from_subgrid_2d", [("subgrid_image", r.c((16, 16)), "= =", False),
                                           ("contribution_out", r.c((8, 8)), "= =", True)],
               ["facet_offset0", "facet_offset1"])


@function("swiftly_add_to_facet")
def swiftly_add_to_facet(r, prec):
    return _sw("add_to_facet", [("contribution", r.c((3, 8)), "a =", False),
                                ("prep_facet_inout", r.c((3, 32)), "a =", True)], ["subgrid_offset"])


@function("swiftly_finish_facet")
def swiftly_finish_facet(r, prec):
    k, d = (32, "=-") if r.n(0, 1) else (16, "_")
    return _sw("finish_facet", [("prep_facet_inout", r.c((3, 32)), "a =", True),
                                ("facet_out", r.c((3, k)), "a " + d, True)], ["facet_offset"])


# --------------------------------------------------------------------------
# station_beam/
# --------------------------------------------------------------------------
@function("element_beam_dipole")
def element_beam_dipole(r, prec):
    n, pol = r.n(3, 6), r.n(0, 1)
    eb = r.c((n, 4) if pol else (n,), prec)
    return Fn("sdp_element_beam_dipole", [
        N("num_points", n, (-1, n + 1)), A("theta_rad", r.f(n, prec, 0, 1.5), "n+", nd_ok=(2,)),
        A("phi_rad", r.f(n, prec, 0, 6), "n+", nd_ok=(2,)), D("freq_hz", 1e8),
        D("dipole_length_m", 1.5), N("stride_element_beam", 4 if pol else 1, (-1, 8)),
        N("index_offset_element_beam", 0, (-1, 4 if pol else 1, 1000)),
        A("element_beam", eb, "n+ _" if pol else "n+", out=True, nd_ok=(1, 2, 3))])


@function("element_beam_spherical_wave_harp")
def element_beam_spherical(r, prec):
    n, lmax, pol = r.n(1, 6), 2, 1
    nc = (lmax + 1) ** 2 - 1
    eb = r.c((n, 4), prec)
    return Fn("sdp_element_beam_spherical_wave_harp", [
        N("num_points", n, (-1, n + 1)), A("theta_rad", r.f(n, prec, 0, 1.5), "n+", nd_ok=(2,)),
        A("phi_x_rad", r.f(n, prec, 0, 6), "n+", nd_ok=(2,)),
        A("phi_y_rad", r.f(n, prec, 0, 6), "n+", nd_ok=(2,)), N("l_max", lmax, (-1, lmax + 1)),
        A("coeffs", r.c((nc, 4), prec), "=+ =+", nd_ok=(1, 3)), N("index_offset_element_beam", 0, (-1, 1, 1000)),
        A("element_beam", eb, "n+ _" if pol else "n+", out=True, nd_ok=(1, 2, 3))])


@function("station_beam_aperture_array")
def station_beam(r, prec):
    e, n, pol = r.n(3, 5), r.n(3, 6), r.n(0, 1)
    k = dict(nd_ok=(2,))
    sfx = ((4,), " =+") if pol else ((), "")
    return Fn("sdp_station_beam_aperture_array", [
        D("wavenumber", 2.0), A("element_weights", r.c(e, prec), "e+", **k),
        A("element_x", r.f(e, prec), "e+", skip=("dim-",), **k), A("element_y", r.f(e, prec), "e+", **k),
        A("element_z", r.f(e, prec), "e+", **k), N("index_offset_points", 0, (-1, 1, 1000)), N("num_points", n, (-1, n + 1)),
        A("point_x", r.f(n, prec), "n+", **k), A("point_y", r.f(n, prec), "n+", **k),
        A("point_z", r.f(n, prec), "n+", **k),
        A("element_beam_index", r.r.integers(0, e, e).astype("i4"), "e+", **k),
        A("element_beam", r.c((e, n) + sfx[0], prec), "_ _" + sfx[1], skip=("dim-",), nd_ok=(1, 2, 3, 4)),
        N("index_offset_station_beam", 0, (-1, 1, 1000)),
        A("station_beam", r.c((n,) + sfx[0], prec), "n+" + (" _" if pol else ""), out=True, nd_ok=(1, 2, 3)),
        N("normalise", 1), N("eval_x", 1), N("eval_y", 1)])


# --------------------------------------------------------------------------
# grid_data/
# --------------------------------------------------------------------------
@function("degrid_uvw_custom")
def degrid_uvw_custom(r, prec):
    t, b, c, p = r.n(2, 3), r.n(2, 4), r.n(2, 3), 4
    return Fn("sdp_degrid_uvw_custom", [
        A("grid", r.c((c, 4, 9, 9, p)), "c _ _ _ p"), A("uvw", r.f((t, b, 3)), "t b ="),
        A("uv_kernel", r.f((5, 4)), "_ _"),
        # as many w-kernel columns as planes: one more is too many
        A("w_kernel", r.f((5, 4)), "_ =", dim_ok=(("dim-", 1),)),
        D("theta", 0.1, ()), D("wstep", 10.0, ()), D("channel_start_hz", 1e8),
        D("channel_step_hz", 1e6), N("conjugate", 0), A("vis", r.c((t, b, c, p)), "t b c p", out=True)])


@function("clamp_channels_single")
def clamp_channels_single(r, prec):
    n = r.n(3, 6)
    return Fn("sdp_gridder_clamp_channels_single", [
        A("uvws", r.f((n, 3), prec, -9, 9), "n+ _", alt=("f4", "f8")), N("dim", 1, (-1, 3)), D("freq0_hz", 1e8),
        D("dfreq_hz", 1e7), A("start_ch_in", np.zeros(n, "i4"), "n+"),
        A("end_ch_in", np.full(n, 9, "i4"), "n+"), D("min_u", 0.0), D("max_u", 3.0),
        A("start_ch_out", np.full(n, 5, "i4"), "n+", out=True),
        A("end_ch_out", np.full(n, 6, "i4"), "n+", out=True),
        L("start_row", 0), L("end_row", n, (n + 1,))])


@function("clamp_channels_uv")
def clamp_channels_uv(r, prec):
    n = r.n(3, 6)
    return Fn("sdp_gridder_clamp_channels_uv", [
        A("uvws", r.f((n, 3), prec, -9, 9), "n+ _", alt=("f4", "f8")), D("freq0_hz", 1e8), D("dfreq_hz", 1e7),
        A("start_ch_in", np.zeros(n, "i4"), "n+"), A("end_ch_in", np.full(n, 9, "i4"), "n+"),
        D("min_u", 0.0), D("max_u", 3.0), D("min_v", 0.0), D("max_v", 3.0),
        A("start_ch_out", np.full(n, 5, "i4"), "n+", out=True),
        A("end_ch_out", np.full(n, 6, "i4"), "n+", out=True),
        L("start_row", 0), L("end_row", n, (n + 1,))])


def _rows(r, uvt="d", vist="d"):
    n, c = r.n(3, 5), r.n(2, 4)
    return n, c, A("uvws", r.f((n, 3), uvt, -3, 3), "n =+", dim_ok=(("dim-", 0),)), A(
        "start_chs", np.zeros(n, "i4"), "n+"), A("end_chs", np.full(n, c, "i4"), "n+")


def _direct():
    return _obj("sdp_gridder_direct_create", "sdp_gridder_direct_free", CI(32), CI(16), CD(0.1),
                CD(10.0), CD(0.0), CD(0.0), CI(4))


def _wtower():
    return _obj("sdp_gridder_wtower_uvw_create", "sdp_gridder_wtower_uvw_free", CI(32), CI(16),
                CD(0.1), CD(10.0), CD(0.0), CD(0.0), CI(4), CI(16), CI(4), CI(16))


OFFS = [N("offset_u", 0), N("offset_v", 0), N("offset_w", 0)]
FREQ = [D("freq0_hz", 1e8), D("dfreq_hz", 1e6)]


@function("direct_create")
def direct_create(r, prec):
    return Fn("sdp_gridder_direct_create", [
        N("image_size", 32, ()), N("subgrid_size", 16, (0, -1)), D("theta", 0.1), D("w_step", 10.0),
        D("shear_u", 0), D("shear_v", 0), N("support", 4)], restype=ctypes.c_void_p,
        free="sdp_gridder_direct_free")


@function("wtower_create")
def wtower_create(r, prec):
    return Fn("sdp_gridder_wtower_uvw_create", [
        N("image_size", 32, ()), N("subgrid_size", 16, (15, 0, -2)), D("theta", 0.1), D("w_step", 10.0),
        D("shear_u", 0), D("shear_v", 0), N("support", 4, (0, -1)), N("oversampling", 16, (-2,)),
        N("w_support", 4, (0, -1)), N("w_oversampling", 16, (-2,))], restype=ctypes.c_void_p,
        free="sdp_gridder_wtower_uvw_free")


@function("direct_degrid")
def direct_degrid(r, prec):
    n, c, uvw, lo, hi = _rows(r)
    return Fn("sdp_gridder_direct_degrid", [
        A("subgrid_image", r.c((16, 16)), "= =", alt=("f8", "f4", "c8")), *OFFS, *FREQ, uvw, lo, hi,
        A("vis", r.c((n, c)), "n+ _", out=True, alt=("c8",))], **_direct())


@function("direct_grid")
def direct_grid(r, prec):
    n, c, uvw, lo, hi = _rows(r)
    return Fn("sdp_gridder_direct_grid", [
        A("vis", r.c((n, c)), "n+ _", alt=("c8",)), uvw, lo, hi, *FREQ,
        A("subgrid_image", r.c((16, 16)), "= =", out=True, alt=("c8",)), *OFFS], **_direct())


@function("wtower_degrid")
def wtower_degrid(r, prec):
    n, c, uvw, lo, hi = _rows(r)
    return Fn("sdp_gridder_wtower_uvw_degrid", [
        A("subgrid_image", r.c((16, 16)), "= =", alt=("f8",)), *OFFS, *FREQ, uvw, lo, hi,
        A("vis", r.c((n, c)), "n+ _", out=True), L("start_row", 0), L("end_row", n, (n + 1,))],
        **_wtower())


@function("wtower_grid")
def wtower_grid(r, prec):
    n, c, uvw, lo, hi = _rows(r)
    return Fn("sdp_gridder_wtower_uvw_grid", [
        A("vis", r.c((n, c)), "n+ _", alt=("c8",)), uvw, lo, hi, *FREQ,
        A("subgrid_image", r.c((16, 16)), "= =", out=True, alt=("f4", "f8", "c8")), *OFFS,
        L("start_row", 0), L("end_row", n, (n + 1,))], **_wtower())


def _correct(name, plan):
    def build(r, prec):
        n = r.n(3, 12)
        return Fn(name, [
            A("facet", r.c((n, n), prec), "_ _", out=True, alt=("f4", "f8", "c8", "c16")),
            N("facet_offset_l", 0, (17, -17, 30)), N("facet_offset_m", 0, (17, -17)),
            N("w_offset", 0)], **plan())
    return build


for _n, _f, _pl in (("direct_degrid_correct", "sdp_gridder_direct_degrid_correct", _direct),
                    ("direct_grid_correct", "sdp_gridder_direct_grid_correct", _direct),
                    ("wtower_degrid_correct", "sdp_gridder_wtower_uvw_degrid_correct", _wtower),
                    ("wtower_grid_correct", "sdp_gridder_wtower_uvw_grid_correct", _wtower)):
    function(_n)(_correct(_f, _pl))


@function("grid_correct_pswf")
def grid_correct_pswf(r, prec):
    n = r.n(3, 12)
    return Fn("sdp_gridder_grid_correct_pswf", [
        N("image_size", 32, ()), D("theta", 0.1), D("w_step", 10.0), D("shear_u", 0), D("shear_v", 0),
        N("support", 4), N("w_support", 4),
        A("facet", r.c((n, n), prec), "_ _", out=True, alt=("f4", "f8", "c8", "c16")),
        N("facet_offset_l", 0, (17, -17)), N("facet_offset_m", 0, (17, -17))])


@function("grid_correct_w_stack")
def grid_correct_w_stack(r, prec):
    n = r.n(3, 12)
    return Fn("sdp_gridder_grid_correct_w_stack", [
        N("image_size", 32, ()), D("theta", 0.1), D("w_step", 10.0), D("shear_u", 0), D("shear_v", 0),
        A("facet", r.c((n, n), prec), "_ _", out=True, alt=("f4", "f8", "c8", "c16")),
        N("facet_offset_l", 0), N("facet_offset_m", 0), N("w_offset", 1), N("inverse", 0)])


def _wstack_args(r, imaging):
    n, c = r.n(3, 6), r.n(2, 4)
    img = A("image", r.f((64, 64)), "g g", out=imaging, alt=("f4", "c8", "c16"))
    vis = A("vis", r.c((n, c)), "n _", out=not imaging, alt=("c8",))
    geo = [N("subgrid_size", 32, (31, 0)), D("theta", 0.1), D("w_step", 50.0), D("shear_u", 0),
           D("shear_v", 0), N("support", 8), N("oversampling", 64), N("w_support", 8),
           N("w_oversampling", 64), D("subgrid_frac", 0.5), D("w_tower_height", 2.0, (0.0,)),
           N("verbosity", 0)]
    uvw = A("uvws", r.f((n, 3), "d", -100, 100), "n =+", alt=("f4",))
    return [vis if imaging else img, *FREQ, uvw, *geo, img if imaging else vis, N("num_threads", 1)]


@function("wstack_degrid_all")
def wstack_degrid_all(r, prec):
    return Fn("sdp_grid_wstack_wtower_degrid_all", _wstack_args(r, False))


@function("wstack_grid_all")
def wstack_grid_all(r, prec):
    return Fn("sdp_grid_wstack_wtower_grid_all", _wstack_args(r, True))


# --- utilities -------------------------------------------------------------
@function("accumulate_scaled_arrays")
def accumulate_scaled_arrays(r, prec):
    a, b = r.n(2, 5), r.n(2, 5)
    return Fn("sdp_gridder_accumulate_scaled_arrays", [
        A("out", r.c((a, b), prec), "a b", out=True, alt=("f4", "f8", "c8", "c16")),
        A("in1", r.c((a, b), prec), "a b", alt=("f4", "f8", "c8", "c16")),
        A("in2", r.c((a, b)), "a b"), N("exponent", 2)])


@function("scale_inv_array")
def scale_inv_array(r, prec):
    a, b = r.n(2, 5), r.n(2, 5)
    return Fn("sdp_gridder_scale_inv_array", [
        A("out", r.c((a, b), prec), "a b", out=True),
        A("in1", r.c((a, b), prec), "a b", alt=("f8" if prec == "d" else "f4",)),
        A("in2", r.c((a, b)), "a b"), N("exponent", 2)])


@function("count_nonzero_pixels")
def count_nonzero_pixels(r, prec):
    return Fn("sdp_gridder_count_nonzero_pixels", [
        A("image", r.c((3, 4), prec), "_ _", alt=("f4", "f8", "c8", "c16"))], restype=ctypes.c_int64)


@function("gridder_dft")
def gridder_dft(r, prec):
    n, c, uvw, lo, hi = _rows(r, prec)
    s = r.n(2, 5)
    return Fn("sdp_gridder_dft", [
        uvw, lo, hi, A("flux", r.c(s), "s", alt=("f8",), dim_ok=(("dim-", 0),)), A("lmn", r.f((s, 3), prec, -0.05, 0.05), "s+ =+"),
        *OFFS, D("theta", 0.1), D("w_step", 10.0), *FREQ,
        A("vis", r.c((n, c), prec), "n+ _", out=True)])


@function("gridder_idft")
def gridder_idft(r, prec):
    n, c, uvw, lo, hi = _rows(r, prec)
    m = r.n(3, 5)
    lmn = r.f((m * m, 3), prec, -0.05, 0.05)
    return Fn("sdp_gridder_idft", [
        uvw, A("vis", r.c((n, c), prec), "n+ _"), lo, hi, A("lmn", lmn, "=+ =+"),
        A("taper", r.f(m, "d", 0.5, 1), "m+"), *OFFS, D("theta", 0.1), D("w_step", 10.0), *FREQ,
        A("image", r.c((m, m), prec), "m m", out=True)])


@function("image_to_flmn")
def image_to_flmn(r, prec):
    m = r.n(3, 5)
    img = r.f((m, m), prec, 0.5, 1)
    return Fn("sdp_gridder_image_to_flmn", [
        A("image", img.astype("c16" if prec == "d" else "c8"), "m m",
          dim_ok=(("dim-", 0), ("dim-", 1))),
        D("theta", 0.1), D("shear_u", 0), D("shear_v", 0),
        A("taper", r.f(m, "d", 0.5, 1), "m+"),
        A("flux", r.c(m * m), "q+", out=True, alt=("f8",)),
        A("lmn", r.f((m * m, 3), prec), "q+ =+", out=True)])


@function("make_kernel")
def make_kernel(r, prec):
    n = 2 * r.n(2, 4)
    return Fn("sdp_gridder_make_kernel", [
        A("window", r.f(n, "d"), "n", alt=("f4",)),
        A("kernel", r.f((5, n), "d"), "_ n", out=True, alt=("f4",))])


@function("make_pswf_kernel")
def make_pswf_kernel(r, prec):
    n = 2 * r.n(2, 4)
    return Fn("sdp_gridder_make_pswf_kernel", [
        N("support", n), A("kernel", r.f((5, n), prec), "_ _", out=True, alt=("f4", "f8"))])


@function("make_w_pattern")
def make_w_pattern(r, prec):
    return Fn("sdp_gridder_make_w_pattern", [
        N("subgrid_size", 8, ()), D("theta", 0.1), D("shear_u", 0), D("shear_v", 0), D("w_step", 10.0),
        A("w_pattern", r.c((8, 8)), "= =", out=True)])


@function("residual")
def residual(r, prec):
    a, b = r.n(2, 4), r.n(2, 4)
    return Fn("sdp_gridder_residual", [
        A("a", r.f((a, b), prec), "a b"), A("b", r.f((a, b), prec), "a b", alt=("f4", "f8")),
        A("out", r.f((a, b), prec), "a b", out=True)])


@function("rms_diff")
def rms_diff(r, prec):
    a, b = r.n(2, 4), r.n(2, 4)
    return Fn("sdp_gridder_rms_diff", [
        A("a", r.c((a, b), prec), "a b", alt=("c8", "c16")), A("b", r.c((a, b), prec), "a b", alt=("c8", "c16"))], restype=ctypes.c_double)


@function("shift_subgrids")
def shift_subgrids(r, prec):
    return Fn("sdp_gridder_shift_subgrids", [
        A("subgrids", r.c((3, 4, 4), prec), "_ _ _", out=True, alt=("c8", "c16"))])


@function("subgrid_add")
def subgrid_add(r, prec):
    return Fn("sdp_gridder_subgrid_add", [
        A("grid", r.c((12, 12), prec), "_ _", out=True), N("offset_u", 1), N("offset_v", -1),
        A("subgrid", r.c((4, 4), prec), "_ _"), D("factor", 2.0)])


@function("subgrid_cut_out")
def subgrid_cut_out(r, prec):
    return Fn("sdp_gridder_subgrid_cut_out", [
        A("grid", r.c((12, 12), prec), "_ _"), N("offset_u", 1), N("offset_v", -1),
        A("subgrid", r.c((4, 4), prec), "_ _", out=True)])


@function("sum_diff")
def sum_diff(r, prec):
    n = r.n(3, 6)
    return Fn("sdp_gridder_sum_diff", [
        A("a", r.r.integers(0, 9, n).astype("i4"), "n+"), A("b", r.r.integers(0, 9, n).astype("i4"), "n+"),
        ctypes.byref(I64(0)), L("start_row", 0), L("end_row", n, (n + 1,))])


@function("uvw_bounds_all")
def uvw_bounds_all(r, prec):
    n, c, uvw, lo, hi = _rows(r, prec)
    uvw.alt = ("f4", "f8")
    return Fn("sdp_gridder_uvw_bounds_all", [
        uvw, *FREQ, lo, hi, (ctypes.c_double * 3)(), (ctypes.c_double * 3)()])


@function("worst_case_image")
def worst_case_image(r, prec):
    return Fn("sdp_gridder_worst_case_image", [
        D("theta", 0.1), D("fov", 0.05, (0.0, 0.2)),
        A("image", r.c((16, 16)), "g g", out=True)])


@function("determine_max_w_tower_height")
def max_w_tower_height(r, prec):
    return Fn("sdp_gridder_determine_max_w_tower_height", [
        N("image_size", 64, ()), N("subgrid_size", 32, (31, 0)), D("theta", 0.1), D("w_step", 50.0),
        D("shear_u", 0), D("shear_v", 0), N("support", 8), N("oversampling", 64), N("w_support", 8),
        N("w_oversampling", 64), D("fov", 0.05, (0.0, 0.2)), D("subgrid_frac", 0.5), N("num_samples", 3),
        D("target_err", 1e-3)], restype=ctypes.c_double)


@function("es_create_plan")
def es_create_plan(r, prec):
    n, c = r.n(3, 5), r.n(2, 4)
    return Fn("sdp_gridder_uvw_es_fft_create_plan", [
        A("uvw", r.f((n, 3), prec), "n =", skip=("loc",)), A("freq_hz", r.f(c, prec, 1e8, 2e8), "c", skip=("loc",)),
        A("vis", r.c((n, c), prec), "n c", skip=("loc",)), A("weight", r.f((n, c), prec), "n c", skip=("loc",)),
        A("dirty_image", r.f((32, 32), prec), "g g", out=True, skip=("loc",)), D("px", 1e-3, (-1.0, 2e-3)), D("py", 1e-3),
        D("epsilon", 1e-4, (1e-20,)), D("min_abs_w", 0.0), D("max_abs_w", 10.0), N("do_wstacking", 1)],
        restype=ctypes.c_void_p, free="sdp_gridder_uvw_es_fft_free_plan", cpu=False)


@subcheck("P02", "example_layout", None, quick=0, thorough=0, asan=False, leak=False,
          rule="replay only: the example functions refuse non-contiguous arrays or treat them as "
               "contiguous ones (known findings)")
def example_layout(p):
    if p["fn"] == "vector_add":
        x = np.arange(20.0)[::2]
        out = np.zeros(10)
        stt, _ = ccall("sdp_vector_add", x, np.zeros(10), out)
        want = x
    else:
        buf = np.zeros(24, "f4")
        out = buf[::2]
        stt, h = ccall("sdp_function_example_a_create_plan", CI(3), CI(4), ctypes.c_float(2),
                       restype=ctypes.c_void_p)
        stt, _ = ccall("sdp_function_example_a_exec", ctypes.c_void_p(h), out)
        i = np.arange(12)
        want = i * (i - 1.0)
    require(stt != 0 or np.allclose(out, want),
            f"{p['fn']} accepted a non-contiguous array and gave a wrong result")
    return p["fn"]
