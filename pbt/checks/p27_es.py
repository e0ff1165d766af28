"""P27: parameters of the exponential-of-semicircle gridder."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from ..core import CD, CI, Guard, Skip, api_error, ccall, clib, close, require, rng, subcheck
from ..es_table import TABLE
from ..gen import choice, fd, fl, seeds, size

FLOAT, DOUBLE = 4, 8


def _sym(name):
    """An exported C++ function, by its mangled name (absent after a change of signature)."""
    try:
        return getattr(clib(), name)
    except AttributeError:
        raise Skip()


def _good(n):
    """Smallest size >= n without prime factors above 11."""
    while True:
        m = n
        for q in (2, 3, 5, 7, 11):
            while m % q == 0:
                m //= q
        if m == 1:
            return n
        n += 1


def _params(eps, image, prec):
    f = _sym("_Z33sdp_calculate_params_from_epsilondiiRiS_RdP9sdp_Error")
    f.restype = None
    g, s, b, e = ctypes.c_int(-1), ctypes.c_int(-1), CD(-1), CI(0)
    f(CD(eps), CI(image), CI(prec), ctypes.byref(g), ctypes.byref(s), ctypes.byref(b),
      ctypes.byref(e))
    return g.value, s.value, b.value, e.value


def _nodes(n):
    return np.polynomial.legendre.leggauss(n)


_X, _W = _nodes(80)


def _kernel(t, beta):
    return np.where(np.abs(t) <= 1, np.exp(beta * (np.sqrt(np.maximum(0, 1 - t * t)) - 1)), 0)


def _accuracy(support, beta, ratio):
    """RMS error of gridding with this kernel over the image and all sub-cell positions."""
    l = np.linspace(-0.5, 0.5, 21) / ratio
    k = _kernel(_X, beta)
    corr = (_W * k * np.cos(np.pi * support * np.outer(l, _X))).sum(axis=1) * support / 2
    d = np.arange(0, 1, 0.1)
    t = np.arange(-support, support + 1) - d[:, None]
    g = np.einsum("dj,djl->dl", _kernel(t * 2 / support, beta),
                  np.exp(2j * np.pi * t[:, :, None] * l)) / corr
    return np.sqrt((np.abs(g - 1) ** 2).mean())


@subcheck("P27", "params", fd(
    image=st.one_of(size(1, 4000, 40), st.integers(1, 40000), st.integers(40000, 150000)),
    eps=st.one_of(fl(-12.69, -1.0), st.integers(0, len(TABLE) - 1).map(float)),
    prec=choice("d", "f")), quick=12000, thorough=250000,
    rule="any image size to 150000 and any accuracy down to the documented limit of the "
         "precision, incl. exactly the tabulated ones: the kernel is the table's one with the "
         "smallest grid, the grid is even, has no large factors and is the smallest such size, "
         "the measured gridding error meets the accuracy; non-trivial: more than one kernel "
         "qualifies")
def params(p):
    dbl = p["prec"] == "d"
    lim = 2e-13 if dbl else 1e-5
    eps = TABLE[int(p["eps"])][2] if p["eps"] >= 0 else 10 ** p["eps"]
    eps = max(eps, lim * 1.0001)
    image = p["image"]
    grid, support, beta, err = _params(eps, image, DOUBLE if dbl else FLOAT)
    require(err == 0, f"status {err}")
    # candidates: for each support the smallest oversampling that is good enough
    best = {}
    for w, os, e, b, cr in TABLE:
        if w <= (16 if dbl else 8) and e <= eps and cr <= 10:
            if w not in best or os <= best[w][0]:
                best[w] = (os, b, e)
    # the most accurate kernel of all is always considered
    cand = {(w, b): os for w, (os, b, e) in best.items()}
    cand.setdefault((TABLE[-1][0], TABLE[-1][3]), TABLE[-1][1])
    grids = {k: 2 * _good(int(image * os * 0.5) + 1) for k, os in cand.items()}
    low = min(grids.values())
    require((support, beta) in grids, f"support {support} and shape {beta} are no candidate")
    require(grids[support, beta] == grid, f"grid {grid} instead of {grids[support, beta]}")
    require(grid == low, f"grid {grid} although {low} is possible")
    require(grid % 2 == 0 and grid > image, f"grid {grid} for image {image}")
    rms = _accuracy(support, beta * support, grid / image)
    require(rms <= 4 * eps + 1e-13, f"gridding error {rms:.3g} for accuracy {eps:.3g}")
    return ["many" if len(best) > 1 else "one!", p["prec"], "huge" if image > 50000 else "usual"]


@subcheck("P27", "good_size", fd(n=st.one_of(size(1, 300000, 100), st.integers(1, 2000000))),
          quick=6000, thorough=100000,
          rule="any size up to two million: the smallest size not below it without prime factors "
               "above 11; non-trivial: not such a size itself")
def good_size(p):
    f = _sym("_Z21sdp_good_size_complexi")
    f.restype = ctypes.c_int
    want = _good(p["n"])
    require(f(CI(p["n"])) == want, f"size {f(CI(p['n']))} instead of {want} for {p['n']}")
    return "padded" if want != p["n"] else "kept!"


@subcheck("P27", "quadrature", fd(
    image=size(0, 400, 60), support=st.integers(4, 16), ratio=fl(1.15, 2.6),
    beta=fl(1.3, 2.5)), quick=2500, thorough=50000,
    rule="any support, shape and size: nodes and weights are the positive half of the "
         "Gauss-Legendre rule of twice int(1.5 support + 2) points, the kernel the exponential "
         "of semicircle there, and the correction the normalised Fourier transform of the "
         "kernel at every pixel from the centre to the edge; non-trivial: always")
def quadrature(p):
    f = _sym("_Z39sdp_generate_gauss_legendre_conv_kerneliiidPdS_S_S_")
    f.restype = None
    w, image = p["support"], p["image"]
    grid = int(image * p["ratio"]) + 1
    beta = p["beta"] * w
    n = int(1.5 * w + 2)
    g = Guard()
    k, x, q = (g.out(np.zeros(n)) for _ in range(3))
    c = g.out(np.zeros(image // 2 + 1))
    D = ctypes.POINTER(CD)
    f(CI(image), CI(grid), CI(w), CD(beta), *(a.ctypes.data_as(D) for a in (k, x, q, c)))
    g.check()
    gx, gw = _nodes(2 * n)
    gx, gw = gx[n:][::-1], gw[n:][::-1]
    close("nodes", x, gx, atol=1e-14)
    close("weights", q, gw, atol=1e-13)
    close("kernel", k, np.exp(beta * (np.sqrt(1 - gx * gx) - 1)), rtol=1e-11, atol=1e-30)
    ker = _kernel(_X, beta) * _W
    arg = np.pi * w * np.arange(image // 2 + 1) / grid
    want = (ker * np.cos(np.outer(arg, _X))).sum(axis=1) / ker.sum()
    # the short rule and the long one agree to the accuracy of the short one
    gk = np.exp(beta * (np.sqrt(1 - gx * gx) - 1)) * gw
    own = (gk * np.cos(np.outer(arg, gx))).sum(axis=1) / gk.sum()
    close("correction", c, own, rtol=1e-12, atol=1e-13)
    close("correction and the exact transform", c, want, atol=3e-4)
    return f"support{w}"


@subcheck("P27", "w_range", fd(rows=size(1, 60, 8), chans=size(1, 8), prec=choice("d", "f"),
                               sign=choice(0, 1, -1), seed=seeds), quick=2500, thorough=40000,
          asan=False, leak=False,
          rule="random (u,v,w) of either sign and ascending frequencies against the extremes of "
               "|w| in wavelengths over all visibilities; non-trivial: more than one row")
def w_range(p):
    from ska_sdp_func.grid_data import GridderUvwEsFft
    r = rng(p["seed"])
    dt = "f8" if p["prec"] == "d" else "f4"
    g = Guard()
    uvw = r.standard_normal((p["rows"], 3)) * 1000
    if p["sign"]:
        uvw[:, 2] = p["sign"] * np.abs(uvw[:, 2])
    uvw, freq = g.inp(uvw, dt), g.inp(np.sort(r.uniform(1e8, 2e8, p["chans"])), dt)
    lo, hi = GridderUvwEsFft.get_w_range(uvw, freq)
    g.check()
    w = np.abs(np.outer(uvw[:, 2].astype("f8"), freq.astype("f8"))) / 299792458.0
    rt = 1e-14 if dt == "f8" else 4e-7
    close("smallest |w|", lo, w.min(), rtol=rt)
    close("largest |w|", hi, w.max(), rtol=rt)
    return "many" if p["rows"] > 1 else "one!"


@subcheck("P27", "no_gpu", fd(
    rows=size(1, 20), chans=size(1, 5), image=size(2, 64, 16), prec=choice("d", "f"),
    eps=choice(1e-3, 1e-5, 1e-12), stack=st.booleans(), api=choice("py", "c"), seed=seeds),
    quick=1200, thorough=20000,
    rule="valid arguments in CPU memory: plan creation raises an error, returns no plan and "
         "leaves every array untouched; non-trivial: always")
def no_gpu(p):
    from ska_sdp_func.grid_data import GridderUvwEsFft
    r = rng(p["seed"])
    rt, ct = ("f8", "c16") if p["prec"] == "d" else ("f4", "c8")
    n, c, m = p["rows"], p["chans"], p["image"]
    g = Guard()
    a = [g.inp(r.standard_normal((n, 3)) * 100, rt), g.inp(np.linspace(1e8, 2e8, c), rt),
         g.out(r.standard_normal((n, c)) + 1j, ct), g.inp(r.random((n, c)), rt),
         g.out(r.random((m, m)), rt)]
    if p["api"] == "py":
        try:
            GridderUvwEsFft(*a, 1e-4, 1e-4, p["eps"], p["stack"])
        except (api_error(), RuntimeError):
            pass
        else:
            require(False, "a plan was created without an accelerator")
    else:
        e, h = ccall("sdp_gridder_uvw_es_fft_create_plan", *a, CD(1e-4), CD(1e-4), CD(p["eps"]),
                     CD(0.5), CD(50.0), CI(p["stack"]), restype=ctypes.c_void_p)
        require(e != 0 and not h, f"status {e}, plan {h}")
    g.check(unchanged_outputs=True)
    return "refused"
