"""P20: gridding kernels, grid correction and w-parameters match their definitions."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from .. import wtower_ref as W
from ..core import (CD, CI, CMem, Guard, ccall_ok, clib, close, require, rng, same, subcheck)
from ..gen import choice, fd, fl, seeds, size
from ..oracles import pswf_tol
from .p15_degrid import earlier_calls
from .p19_grid_utils import EPS, arr, layouts

shear = choice(0.0, 0.0, 0.2, -0.13, 0.31)


@subcheck("P20", "kernel", fd(
    support=size(1, 24, 10), os=size(1, 64, 9, rare=400), vr=st.integers(0, 3), dt=choice("f8", "f8", "f4"),
    pswf=st.booleans(), lk=layouts, lw=layouts, seed=seeds), quick=3000, thorough=40000,
    rule="oversampled kernel from random windows and from the generated window, single and double "
         "precision, kernel width equal to or different from the window parameter; non-trivial: "
         "support above 1")
def kernel(p):
    r = rng(p["seed"])
    s, os, dt = p["support"], p["os"], p["dt"]
    g = Guard()
    if p["pswf"]:
        vr = max(1, s + [0, 0, 1, -1][p["vr"]])
        out = g.out(arr(r, (os + 1, vr), dt), layout=p["lk"])
        ccall_ok("sdp_gridder_make_pswf_kernel", CI(s), out)
        want = W.pswf_kernel(s, os, vr)
        tol = pswf_tol(s * np.pi / 2) + EPS[dt] * 4
    else:
        win = arr(r, s, dt)
        out = g.out(arr(r, (os + 1, s), dt), layout=p["lk"])
        ccall_ok("sdp_gridder_make_kernel", g.inp(win, layout=p["lw"] if s > 1 else "C"), out)
        want = W.kernel_table(win.astype("f8"), os)
        tol = EPS[dt] * 2 * max(1, np.abs(win).max()) + 1e-14
    g.check()
    close("kernel", out, want, atol=tol)
    return ["pswf" if p["pswf"] else "window", dt, "support 1!" if s == 1 else "support"]


@subcheck("P20", "pattern", fd(n=size(1, 40, 16, rare=200), theta=fl(0.01, 0.7), hu=shear, hv=shear,
                               w=fl(-500, 500), layout=layouts, seed=seeds),
          quick=2000, thorough=30000,
          rule="w-pattern over sizes odd and even, shears, w-steps of either sign; non-trivial: "
               "more than one pixel")
def pattern(p):
    g = Guard()
    n = p["n"]
    out = g.out(arr(rng(p["seed"]), (n, n), "c16"), layout=p["layout"])
    ccall_ok("sdp_gridder_make_w_pattern", CI(n), p["theta"], p["hu"], p["hv"], p["w"], out)
    nn = W.n_map((n, n), p["theta"], p["hu"], p["hv"], n)
    g.check()
    close("w_pattern", out, np.exp(2j * np.pi * p["w"] * nn), atol=1e-12 + abs(p["w"]) * 4e-15)
    return ["one!" if n == 1 else "map", "shear" if p["hu"] or p["hv"] else "flat"]


def facet_place(p, r):
    n = p["image"]
    shape = (1 + p["fl"] % n, 1 + p["fm"] % n)
    off = []
    for k in shape:
        lo, hi = k // 2 - n // 2, n - n // 2 - (k - k // 2)
        off.append(int(r.integers(lo, hi + 1)) if r.random() < 0.8 else int(r.choice([lo, hi])))
    return shape, off


_facet = dict(image=size(2, 64, 20), fl=st.integers(0, 63), fm=st.integers(0, 63),
              theta=fl(0.02, 0.7), hu=shear, hv=shear, layout=layouts, seed=seeds)


@subcheck("P20", "correct", fd(
    support=size(1, 20, 12), ws=st.integers(0, 10), wstep=choice(0.0, 0.5, 3.0, 25.0, 200.0),
    dt=choice("c16", "c16", "f8", "c8", "f4"), **_facet), quick=3000, thorough=40000,
    rule="division by the window in l, m and n over element types, rectangular facets anywhere in "
         "the image (edges included), shears, w-steps that take the w-window inside and beyond "
         "its domain; non-trivial: more than one pixel")
def correct(p):
    r = rng(p["seed"])
    n = p["image"]
    shape, off = facet_place(p, r)
    f0 = arr(r, shape, p["dt"])
    g = Guard()
    f = g.out(f0, layout=p["layout"])
    ccall_ok("sdp_gridder_grid_correct_pswf", CI(n), p["theta"], p["wstep"], p["hu"], p["hv"],
             CI(p["support"]), CI(p["ws"]), f, CI(off[0]), CI(off[1]))
    g.check()
    c, cw = p["support"] * np.pi / 2, p["ws"] * np.pi / 2
    win = W.pswf_window(c, n, 1e-15)
    il = np.arange(shape[0]) - shape[0] // 2 + off[0] + n // 2
    im = np.arange(shape[1]) - shape[1] // 2 + off[1] + n // 2
    rel = (np.where((il == 0) & (n % 2 == 0), 0, pswf_tol(c) / win[il])[:, None]
           + np.where((im == 0) & (n % 2 == 0), 0, pswf_tol(c) / win[im])[None, :])
    div = win[il][:, None] * win[im][None, :]
    ok = np.ones(shape, bool)
    if p["ws"] > 0:
        x = np.abs(2 * p["wstep"] * W.n_map(shape, p["theta"], p["hu"], p["hv"], n, *off))
        ok = np.abs(x - 1) > 1e-9
        wn = np.where(x < 1, W.pswf(cw, np.minimum(x, 1)), 1.0)
        rel = rel + (pswf_tol(cw) + 1e-13) / wn
        div = div * wn
    if p["dt"] in ("f4", "c8"):  # single-precision results must stay representable
        ok &= (np.abs(f0) / div < 1e37)
    want = np.where(ok, f0 / div, 0)
    got = np.where(ok, f, 0)
    close("corrected facet", got, want, atol=(rel + 6 * EPS[p["dt"]]) * np.abs(want))
    return [p["dt"], "one!" if f0.size == 1 else "facet", "w" if p["ws"] else "no w"]


@subcheck("P20", "wstack", fd(
    wstep=fl(0.0, 60.0), woff=st.integers(-40, 40), inv=st.booleans(), dt=choice("c16", "c8"),
    **_facet), quick=2500, thorough=40000,
    rule="w-offset phase at the true pixel position, rectangular facets, shears, offsets of either "
         "sign, forward then inverse restores the facet; non-trivial: offset not 0")
def wstack(p):
    r = rng(p["seed"])
    n = p["image"]
    shape, off = facet_place(p, r)
    f0 = arr(r, shape, p["dt"])
    g = Guard()
    f = g.out(f0, layout=p["layout"])

    def call(inv):
        ccall_ok("sdp_gridder_grid_correct_w_stack", CI(n), p["theta"], p["wstep"], p["hu"],
                 p["hv"], f, CI(off[0]), CI(off[1]), CI(p["woff"]), CI(inv))
    call(int(p["inv"]))
    nn = W.n_map(shape, p["theta"], p["hu"], p["hv"], n, *off)
    ph = 2 * np.pi * p["wstep"] * p["woff"] * nn
    want = f0 * np.exp((1j if p["inv"] else -1j) * ph)
    tol = (6 * EPS[p["dt"]] + 4e-15 * (1 + np.abs(2 * np.pi * p["wstep"] * p["woff"])))
    close("w-corrected facet", f, want, atol=tol * np.abs(f0))
    call(int(not p["inv"]))
    close("restored facet", f, f0, atol=2 * tol * np.abs(f0))
    g.check()
    return [p["dt"], "zero!" if p["woff"] == 0 else "offset"]


@subcheck("P20", "plan_correct", fd(
    support=choice(4, 8, 10), ws=choice(2, 4, 8), wstep=fl(0.1, 40.0), woff=st.integers(-9, 9),
    dt=choice("c16", "f8", "c8"), grid=st.booleans(), sg=choice(8, 16),
    prior=choice(0, 0, 1, 3),
    **_facet), quick=1500, thorough=20000,
    rule="corrections made through a gridding plan: degridding corrects with the forward offset, "
         "gridding with the inverse one, real facets are only divided by the windows; "
         "non-trivial: more than one pixel")
def plan_correct(p):
    from ska_sdp_func.grid_data import GridderWtowerUVW
    r = rng(p["seed"])
    n = p["image"]
    shape, off = facet_place(p, r)
    f0 = arr(r, shape, p["dt"])
    g = Guard()
    f, f2 = g.out(f0, layout=p["layout"]), g.out(f0)
    k = GridderWtowerUVW(n, p["sg"], p["theta"], p["wstep"], p["hu"], p["hv"], p["support"], 32,
                         p["ws"], 32)
    earlier_calls(k, p["sg"], p["theta"], p["wstep"], n, p["seed"], p.get("prior", 0))
    (k.grid_correct if p["grid"] else k.degrid_correct)(f, off[0], off[1], p["woff"])
    ccall_ok("sdp_gridder_grid_correct_pswf", CI(n), p["theta"], p["wstep"], p["hu"], p["hv"],
             CI(p["support"]), CI(p["ws"]), f2, CI(off[0]), CI(off[1]))
    if p["dt"][0] == "c":
        ccall_ok("sdp_gridder_grid_correct_w_stack", CI(n), p["theta"], p["wstep"], p["hu"],
                 p["hv"], f2, CI(off[0]), CI(off[1]), CI(p["woff"]), CI(int(p["grid"])))
    g.check()
    close("facet", f, f2, rtol=1e-5 if p["dt"] == "c8" else 1e-11)
    for name, want in (("image_size", n), ("subgrid_size", p["sg"]), ("theta", p["theta"]),
                       ("w_step", p["wstep"]), ("shear_u", p["hu"]), ("shear_v", p["hv"]),
                       ("support", p["support"]), ("oversampling", 32), ("w_support", p["ws"]),
                       ("w_oversampling", 32)):
        require(getattr(k, name) == want, f"plan reports {name} {getattr(k, name)}, set {want}")
    return [p["dt"], "one!" if f0.size == 1 else "facet"]


@subcheck("P20", "w_step", fd(theta=fl(0.01, 0.9), ratio=fl(0.01, 1.0), ratio2=fl(0.01, 1.0),
                              hu=shear, hv=shear, x0=choice(0.0, 0.0, 0.5, 0.9), scale=fl(0.1, 0.8)),
          quick=3000, thorough=40000,
          rule="w-step equals x0 over twice the largest |n| at the field corners, and does not "
               "increase with the field size; all cases non-trivial")
def w_step(p):
    from ska_sdp_func.grid_data import determine_w_step
    th = p["theta"] * p["scale"]
    f1, f2 = sorted((th * p["ratio"], th * p["ratio2"]))

    def want(fov):
        c = fov / 2
        nmax = max(-W.lm_to_n(a, b, p["hu"], p["hv"]) for a in (-c, c) for b in (-c, c))
        return (p["x0"] or fov / th) / (2 * nmax)
    x0 = p["x0"] or None
    got = [determine_w_step(th, f, p["hu"], p["hv"], x0) for f in (f1, f2)]
    # n is a difference of numbers near 1 in the library
    for f, s in zip((f1, f2), got):
        require(abs(s - want(f)) <= (1e-12 + 2e-15 / f ** 2) * want(f),
                f"w_step for field {f}: got {s}, expected {want(f)}")
    if f1 < f2 * (1 - 1e-6):
        require(got[1] <= got[0] * (1 + 1e-12 + 4e-15 / f1 ** 2),
                f"w_step grows with the field size: {f1} -> {got[0]}, {f2} -> {got[1]}")
    return ["default x0" if not p["x0"] else "x0"]


@subcheck("P20", "worst_case", fd(n=size(12, 90, 40), theta=fl(0.05, 0.6), ratio=fl(0.3, 0.9),
                                  layout=layouts, seed=seeds), quick=1500, thorough=20000,
          rule="test image: four sources at the corners of the field, off any divisor of the image "
               "size; all cases non-trivial")
def worst_case(p):
    n, th = p["n"], p["theta"]
    fov = th * p["ratio"]
    x = n / th * fov / 2
    e = int(x)
    if abs(x - round(x)) < 1e-9:
        return ["edge!"]
    while e > 0 and n % e == 0:
        e -= 1
    h = n // 2
    if e <= 1 or h - e - 1 < 0 or h + e >= n:
        return ["small!"]
    g = Guard()
    im = g.out(arr(rng(p["seed"]), (n, n), "c16"), layout="C")
    ccall_ok("sdp_gridder_worst_case_image", th, fov, im)
    want = np.zeros((n, n))
    want[h + e, h + e] = 0.3
    want[h - e, h - e] = 0.2
    want[h + e, h - e - 1] = 0.3
    want[h - e - 1, h + e] = 0.2
    g.check()
    same("image", im, want.astype("c16"))
    return ["image"]


def tower_error(ref, fov, frac, ns, w):
    """The documented error estimate: RMS difference at sample points of the worst-case image."""
    n, th = ref.image_size, ref.theta
    e = int(n / th * fov / 2)
    while n % e == 0:
        e -= 1
    h = n // 2
    src = [((h + e, h + e), 0.3), ((h - e, h - e), 0.2), ((h + e, h - e - 1), 0.3),
           ((h - e - 1, h + e), 0.2)]
    im = np.zeros((n, n), complex)
    for ix, v in src:
        im[ix] = v
    im /= ref.correction((n, n))
    full = W.fft2(im)
    o = n // 2 - ref.sg // 2
    sg = W.ifft2(full[o:o + ref.sg, o:o + ref.sg])
    edge = ref.sg * frac / th / 2
    pts = [(u, v, w) for v in np.linspace(-edge, edge, ns) for u in np.linspace(-edge, edge, ns)]
    got = ref.degrid(sg, [(u, v, w / ref.w_step) for u, v, _ in pts])
    pts = np.array(pts)
    want = 0
    for (i, j), v in src:
        l, m = (i - h) * th / n, (j - h) * th / n
        lmn = np.array([l, m, W.lm_to_n(l, m, ref.hu, ref.hv)])
        want = want + v * np.exp(-2j * np.pi * pts @ lmn)
    return np.sqrt(np.mean(np.abs(got - want) ** 2))


@subcheck("P20", "tower", fd(
    sg=choice(32, 48, 64), rel=choice(1.0, 1.5, 2.0), theta=fl(0.02, 0.4), cov=fl(0.55, 0.85),
    support=choice(6, 4, 8), ws=choice(4, 2, 6), os=choice(64, 1024), x0=fl(0.4, 0.95),
    frac=fl(0.2, 0.6), ns=choice(2, 3, 4), target=choice(0.0, 5e-2, 1e-2, 2e-3, 1e-4),
    hu=choice(0.0, 0.1, -0.15), hv=choice(0.0, 0.12), kernel=st.booleans()),
    quick=1600, thorough=30000,
    rule="largest tower height: independent numpy evaluation of the error estimate is below the "
         "target at the height returned and not below it at the next one; default and explicit "
         "targets, plan-based and parameter-based interfaces; non-trivial: height above 0")
def tower(p):
    from ska_sdp_func.grid_data import (
        GridderWtowerUVW, determine_max_w_tower_height, determine_w_step, find_max_w_tower_height)
    n = int(p["sg"] * p["rel"]) // 2 * 2
    th = p["theta"]
    fov = th * p["cov"]
    if int(n / th * fov / 2) < 5:
        return ["small!"]
    ws = determine_w_step(th, fov, p["hu"], p["hv"], p["x0"])
    a = (n, p["sg"], th, ws, p["hu"], p["hv"], p["support"], p["os"], p["ws"], p["os"])
    ref = W.Ref(*a)
    kw = dict(subgrid_frac=p["frac"], num_samples=p["ns"], target_err=p["target"] or None)

    def errs(k):
        """On a w-plane, the plane below and the plane above give equally valid estimates."""
        w = k * ws
        e = [tower_error(ref, fov, p["frac"], p["ns"], w * f) for f in (1 - 1e-13, 1 + 1e-13)]
        ref.wrap = True  # (known finding of P15)
        e.append(tower_error(ref, fov, p["frac"], p["ns"], w * (1 - 1e-13)))
        ref.wrap = False
        return e
    target = p["target"] or 2 * tower_error(ref, fov, p["frac"], p["ns"], 0.0)
    if target > 0.2:
        return ["no target!"]
    if p["kernel"]:
        ret = find_max_w_tower_height(GridderWtowerUVW(*a), fov, **kw)
    else:
        ret = determine_max_w_tower_height(
            p["sg"], th, fov, ws, p["support"], p["os"], p["ws"], p["os"],
            image_size=None if p["rel"] == 2 else n, shear_u=p["hu"], shear_v=p["hv"], **kw)
    k = ret / 2
    require(k == int(k) and k >= 0, f"height {ret} is not an even number of w-steps")
    k = int(k)
    if k >= 1:
        e = min(errs(k))
        require(e < target * 1.02 + 1e-14,
                f"height {ret} returned, but its error {e} is not below the target {target}")
    if k > 2 ** 28:  # every height meets the target: the search stops somewhere
        return ["unlimited", "height"]
    e = max(errs(k + 1))
    require(e > target * 0.98 - 1e-14,
            f"height {ret} returned, but {2 * (k + 1)} also meets the target {target}: {e}")
    return ["zero!" if k == 0 else "height", "default" if not p["target"] else "target"]
