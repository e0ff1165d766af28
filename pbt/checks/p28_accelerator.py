"""P28: functions given arrays in accelerator memory.

These run against the library built with its CUDA part on native/cuda (see cuda.py), where every
wrapped array lives in emulated device memory; there, the sub-checks of other properties listed
in cuda.py run as well.
"""
import ctypes

import numpy as np
from hypothesis import strategies as st

from ..core import (CD, CI, CMem, Guard, I64, Skip, Violation, ccall, ccall_ok, clib, close,
                    require, rng, same, set_threads, subcheck)
from ..gen import choice, fd, fl, seeds, size
from .. import cuda
from .p02_errors import BUILDERS, R, _outputs

C_0 = 299792458.0


# --------------------------------------------------------------------------
# Valid calls of every function
# --------------------------------------------------------------------------
# (wstack: their images are divided by almost zero at the edges, so rounding is all that is left)
_SKIP = ("wstack_degrid_all", "wstack_grid_all", "es_create_plan", "optimized_weighting", "optimised_indexed_weighting",
         "element_beam_spherical_wave_harp")
_NAMES = sorted(n for n in BUILDERS if n not in _SKIP)


def _compare(what, got, want):
    for n, b in want.items():
        a = got[n]
        tol = 1e-4 if b.dtype.itemsize <= (8 if b.dtype.kind == "c" else 4) else 1e-9
        with np.errstate(all="ignore"):
            sc = np.max(np.abs(b[np.isfinite(b)]), initial=0)
            ok = np.isclose(a, b, rtol=tol, atol=tol * float(sc), equal_nan=True)
        require(ok.all(), f"{what}: {n} differs in {int((~ok).sum())} of {ok.size} elements")


def _places(fn, bits):
    cuda.STATE["lib"].pbt_gpu_place(cuda.U64(bits))


# Functions for arrays in host memory only
_HOST_ONLY = set("""
count_nonzero_pixels direct_degrid direct_grid flagger_dynamic_threshold
function_example_a_exec generate_pswf gridder_dft image_to_flmn make_kernel make_pswf_kernel
make_w_pattern ms_clean_cornwell pswf_generate residual swiftly_add_to_facet
swiftly_add_to_subgrid swiftly_add_to_subgrid_2d swiftly_extract_from_facet
swiftly_extract_from_subgrid swiftly_extract_from_subgrid_2d swiftly_finish_facet
swiftly_finish_subgrid swiftly_finish_subgrid_inplace swiftly_finish_subgrid_inplace_2d
swiftly_prepare_facet swiftly_prepare_subgrid_inplace swiftly_prepare_subgrid_inplace_2d
worst_case_image
""".split())

# Outputs in no particular order
_UNORDERED = {"bucket_sort", "tiled_indexing"}


@subcheck("P28", "calls", fd(fn=st.sampled_from(_NAMES), prec=choice("d", "f"), seed=seeds),
          quick=700, thorough=8000, asan=False, leak=False, tsan=0,
          rule="[cuda] a valid call of any public function with every array in accelerator memory: "
               "refused because of the location if it is one for host memory only, or else the result of the same call in host memory; "
               "non-trivial: not refused, and a kernel ran")
def calls(p):
    f = BUILDERS[p["fn"]](R(rng(p["seed"])), p["prec"])
    _places(f, 0)
    stt, g, passed = f.call()
    require(stt == 0, f"{f.name} refused a valid call with status {stt}")
    want, res = _outputs(f, passed), f.res
    cuda.STATE["retry"] = False
    _places(f, 2 ** 64 - 1)
    stt, g, passed = f.call()
    if stt:
        require(stt in cuda.REFUSED and p["fn"] in _HOST_ONLY,
                f"{f.name} refused arrays in accelerator memory with status {stt}")
        g.check(unchanged_outputs=True)
        return f.name + " refused!"
    g.check()
    if p["fn"] not in _UNORDERED:
        _compare(f.name, _outputs(f, passed), want)
    if not f.free and f.restype:
        require(np.isclose(f.res, res, rtol=1e-6, equal_nan=True),
                f"{f.name}: result {f.res} instead of {res}")
    return [f.name]


# --------------------------------------------------------------------------
# Exponential-of-semicircle gridder (accelerator only)
# --------------------------------------------------------------------------
def _es(p):
    """Input of the gridder, as the gridder sees it."""
    from ska_sdp_func.grid_data import GridderUvwEsFft
    r = rng(p["seed"])
    n, pix = p["n"], p["fov"] / p["n"]
    # (the kernels of visibilities nearer the edge of the grid do not fit)
    umax = (0.5 - 8.5 / (1.33 * n)) / pix
    rd, cd = ("f8", "c16") if p["prec"] == "d" else ("f4", "c8")
    eps = 10.0 ** -p["digits"]
    if p["prec"] == "f":
        eps = max(eps, 2e-5)
    f = 1e8 * (1 + np.arange(p["chans"]) * p["step"]).astype(rd)
    uvw = r.uniform(-1, 1, (p["rows"], 3)) * [umax, umax, p["w"] * umax]
    if p["signs"]:
        uvw[:, 2] = abs(uvw[:, 2]) * p["signs"]
    uvw = (uvw * C_0 / float(f[-1])).astype(rd)
    vis = (r.standard_normal((p["rows"], p["chans"])) + 1j * r.standard_normal(
        (p["rows"], p["chans"]))).astype(cd)
    wt = r.uniform(0.5, 2, vis.shape).astype(rd)
    if p["zero"]:
        wt[r.random(vis.shape) < 0.3] = 0
    img = r.standard_normal((n, n)).astype(rd)
    q = uvw.astype("f8")[:, None, :] * (f.astype("f8") / C_0)[:, None]
    l = (np.arange(n) - n // 2) * pix
    ll, mm = np.meshgrid(l, l, indexing="ij")
    nn = np.sqrt(1 - ll * ll - mm * mm)
    if not p["stack"]:
        q = q * [1, 1, 0]
    ph = np.exp(2j * np.pi * (q[..., 0, None, None] * ll + q[..., 1, None, None] * mm
                              - q[..., 2, None, None] * (nn - 1)))
    if p["stack"]:
        ph = ph / nn
    tol = 12 * eps + (1e-11 if p["prec"] == "d" else 2e-5 + 3e-7 * float(np.abs(q).max()))
    if p["stack"]:
        # (rounding of n - 1 relative to its range)
        tol += (3e-7 if p["prec"] == "f" else 6e-16) / (1 - float(nn.min()))
    return uvw, f, vis, wt, img, ph, pix, eps, tol, GridderUvwEsFft


_ES = fd(rows=size(1, 6, 2), chans=size(1, 4, 2), n=st.integers(12, 32).map(lambda x: 2 * x),
         fov=fl(0.001, 0.25), w=fl(0, 2), signs=choice(0, 1, -1), step=fl(0.0, 0.2),
         digits=st.integers(2, 11), prec=choice("d", "f"), stack=st.booleans(),
         zero=st.booleans(), seed=seeds)


@subcheck("P28", "es_grid", _ES, quick=60, thorough=800, asan=False, leak=False, tsan=0,
          rule="[cuda] the dirty image of the exponential-of-semicircle gridder is the direct sum over "
               "visibilities within the requested accuracy, with and without w-stacking; "
               "non-trivial: more than one visibility")
def es_grid(p):
    uvw, f, vis, wt, img, ph, pix, eps, tol, plan = _es(p)
    want = (vis[..., None, None] * wt[..., None, None] * ph).real.sum((0, 1))
    g = Guard()
    cu, cf, cv, cw = g.inp(uvw), g.inp(f), g.inp(vis), g.inp(wt)
    ci = g.out(np.zeros_like(img))
    x = plan(cu, cf, cv, cw, ci, pix, pix, eps, p["stack"])
    x.grid_uvw_es_fft(cu, cf, cv, cw, ci)
    g.check()
    sc = float(np.sqrt((abs(vis * wt) ** 2).sum())) * (1 / np.abs(ph).min() if p["stack"] else 1)
    e = float(np.sqrt(((ci - want) ** 2).mean()))
    require(e <= tol * sc, f"dirty image: rms error {e:.3g}, allowed {tol * sc:.3g}")
    return ["stack" if p["stack"] else "flat", p["prec"],
            "one!" if vis.size == 1 else "many"]


@subcheck("P28", "es_degrid", _ES, quick=60, thorough=800, asan=False, leak=False, tsan=0,
          rule="[cuda] visibilities from the exponential-of-semicircle gridder are the direct sum over "
               "pixels within the requested accuracy, with and without w-stacking; "
               "non-trivial: more than one visibility")
def es_degrid(p):
    uvw, f, vis, wt, img, ph, pix, eps, tol, plan = _es(p)
    want = (img * ph.conj()).sum((-1, -2))
    g = Guard()
    cu, cf, cw = g.inp(uvw), g.inp(f), g.inp(wt)
    cv = g.out(np.zeros_like(vis))
    ci = g.out(img)
    x = plan(cu, cf, cv, cw, ci, pix, pix, eps, p["stack"])
    x.ifft_grid_uvw_es(cu, cf, cv, cw, ci)
    g.check()
    sc = float(np.sqrt((img ** 2).sum()))
    e = float(np.abs(cv - want).max())
    require(e <= 4 * tol * sc, f"visibilities: error {e:.3g}, allowed {4 * tol * sc:.3g}")
    return ["stack" if p["stack"] else "flat", p["prec"],
            "one!" if vis.size == 1 else "many"]


# --------------------------------------------------------------------------
# Memory
# --------------------------------------------------------------------------
_KEYS = ("i1", "i4", "f4", "f8", "c8", "c16")


@subcheck("P28", "copies", fd(shape=st.lists(st.integers(0, 5), min_size=1, max_size=4),
                              key=st.sampled_from(_KEYS), places=st.integers(0, 3),
                              l1=choice("C", "C", "F", "S1", "S2", "X2"),
                              l2=choice("C", "C", "F", "S1", "S2", "X2"),
                              op=choice("copy", "async", "create", "clear", "portion"), seed=seeds),
          quick=600, thorough=8000, asan=False, leak=False, tsan=0,
          rule="[cuda] copies between and clears of arrays in host and accelerator memory, any layout, "
               "part or whole: exactly the elements asked for; non-trivial: an array in accelerator "
               "memory and more than one element")
def copies(p):
    r = rng(p["seed"])
    shape = tuple(p["shape"])
    if len(shape) == 1 and (p["l1"] in ("F", "S2") or p["l2"] in ("F", "S2")):
        raise Skip()
    d = r.integers(1, 100, shape).astype(p["key"])
    src = r.integers(1, 100, shape).astype(p["key"])
    g = Guard()
    a = g.out(d, layout=p["l1"])
    b = g.inp(src, layout=p["l2"])
    _places(None, p["places"])
    ma, mb = CMem(a), CMem(b)
    n = d.size
    want = d.copy()
    k, i, j = n, 0, 0
    if n and p["op"] in ("copy", "async", "portion"):
        k = int(r.integers(0, n + 1))
        i, j = int(r.integers(0, n - k + 1)), int(r.integers(0, n - k + 1))
    w = want.reshape(-1)
    if p["op"] in ("copy", "async"):
        w[i:i + k] = src.reshape(-1)[j:j + k]
        ccall_ok("sdp_mem_copy_contents" + ("_async" if p["op"] == "async" else ""), ma, mb,
                 I64(i), I64(j), I64(k), *([None] if p["op"] == "async" else []))
    elif p["op"] == "create":
        # there and back
        x, y = ctypes.c_void_p, ctypes.c_void_p()
        hs = [mb]
        for loc in (r.integers(0, 2), r.integers(0, 2), 0):
            stt, h = ccall("sdp_mem_create_copy", hs[-1], CI(int(loc)), restype=ctypes.c_void_p)
            require(stt == 0 and h, f"sdp_mem_create_copy: status {stt}")
            hs.append(ctypes.c_void_p(h))
        f = clib().sdp_mem_data
        f.restype = ctypes.c_void_p
        q = f(hs[-1])
        got = np.zeros(shape, p["key"])
        if n:
            ctypes.memmove(got.ctypes.data, q, got.nbytes)
        for h in hs[1:]:
            clib().sdp_mem_free(h)
        same("copy of a copy", got, src)
    elif p["op"] == "clear":
        w[:] = 0
        ccall_ok("sdp_mem_clear_contents", ma)
    else:
        w[i:i + k] = 0
        ccall_ok("sdp_mem_clear_portion", ma, I64(i), I64(k))
    g.check()
    same(p["op"], a, want)
    return [p["op"], "device" if p["places"] & (1 if p["op"] in ("clear", "portion") else
                                                2 if p["op"] == "create" else 3) else "host!",
            "small!" if n < 2 else "several"]


@subcheck("P28", "opt_weighting", None, quick=0, thorough=0, asan=False, leak=False, tsan=0,
          rule="replay only: Briggs weights of one visibility from the optimised functions (a known "
               "finding)")
def opt_weighting(p):
    gs, tu, tv, cell, sup = 64, 32, 16, 1 / 64, 0
    uvw = np.array([[[p["u"], p["v"], 0.0]]])
    freq, vis, wt = np.array([C_0]), np.ones((1, 1, 1, 1), "c16"), np.full((1, 1, 1, 1), 0.7)
    n = (gs + tu - 1) // tu * ((gs + tv - 1) // tv)
    g = Guard()
    off, pts = g.out(np.zeros(n + 1), "i4"), g.out(np.zeros(n), "i4")
    skip, nv = g.out(np.zeros(1), "i4"), CI(0)
    scal = (CI(gs), I64(tu), I64(tv), CD(cell), I64(sup))
    ccall_ok("sdp_count_and_prefix_sum", uvw, freq, vis, *scal, ctypes.byref(nv), off, pts, skip)
    m = nv.value
    uu, vv, sw = (g.out(np.zeros(m)) for _ in range(3))
    tile, svis = g.out(np.zeros(m), "i4"), g.out(np.zeros(m), "c16")
    off2 = g.out(off, "i4")
    ccall_ok("sdp_bucket_sort", uvw, freq, vis, wt, *scal, uu, vv, sw, tile, svis, off2)
    out = g.out(np.zeros((1, 1, 1, 1)))
    ccall_ok("sdp_optimized_weighting", uvw, freq, vis, wt, CD(p["robust"]), CI(gs), I64(sup),
             uu, vv, sw, tile, off, pts, out)
    close("weight", out, wt / (1 + 25 * 10.0 ** (-2 * p["robust"])), rtol=1e-9)
    return "one"
