"""P05: direct Fourier transform prediction equals its defining sum."""
import numpy as np
from hypothesis import strategies as st

from ..core import Guard, close, rng, subcheck
from ..gen import choice, fd, fl, seeds, size

C0 = 299792458.0


def _case(p):
    r = rng(p["seed"])
    nt, nb, nc, npol, ns = p["nt"], p["nb"], p["nc"], p["np"], p["ns"]
    l = r.uniform(-1, 1, ns) * p["lmax"]
    m = r.uniform(-1, 1, ns) * p["lmax"]
    n = np.sqrt(np.maximum(0, 1 - l * l - m * m)) - p["nsub"]
    dirs = np.stack([l, m, n], 1).reshape(ns, 3)
    flux = (r.standard_normal((ns, nc, npol))
            + 1j * r.standard_normal((ns, nc, npol)))
    if p["style"] == "real":
        flux = flux.real + 0j
    elif p["style"] == "sparse":
        flux = flux * (r.random((ns, nc, npol)) < 0.4)
    flux = flux * 10.0 ** p["logflux"]
    return r, dirs, flux


def _oracle(dirs, uvw_l, flux):
    """dirs [s,3], uvw_l [t,b,c,3] in wavelengths -> vis and error scale."""
    d = dirs.astype(np.longdouble)
    u = uvw_l.astype(np.longdouble)
    turns = np.einsum("tbck,sk->tbcs", u, d)
    ph = (-2 * np.pi) * (turns - np.rint(turns)).astype(np.float64)
    phasor = np.exp(1j * ph)
    vis = np.einsum("tbcs,scp->tbcp", phasor, flux)
    tmax = np.einsum("tbck,sk->tbcs", np.abs(uvw_l), np.abs(dirs))
    per = np.einsum("tbcs,scp->tbcp", tmax, np.abs(flux))
    tot = np.einsum("scp->cp", np.abs(flux))[None, None]
    return vis, per, tot


def _tol(p, per, tot):
    eps = 2.3e-16
    t = 60 * eps * per + eps * (p["ns"] + 20) * tot
    if p["prec"] == "f":
        t = t + 6.0e-8 * (p["ns"] + 6) * tot
    return t + 1e-300


base = dict(
    nt=size(1, 5, rare=40), nb=size(1, 20, rare=150), nc=size(1, 6, rare=80), np=choice(1, 4),
    ns=size(1, 25, rare=200), lmax=choice(0.0, 0.01, 0.3, 0.7), nsub=choice(0, 1),
    style=choice("full", "real", "sparse"), logflux=st.integers(-6, 6),
    prec=choice("d", "f"), seed=seeds, prev=choice(0.0, 1e3))


@subcheck("P05", "wavelengths", fd(logu=fl(-1, 5), **base), quick=2500, thorough=40000,
          rule="random component lists against coordinates in wavelengths per channel; "
               "oracle is the defining sum with extended-precision phases; non-trivial: "
               "some source off centre and some non-zero flux")
def wavelengths(p):
    from ska_sdp_func.visibility import dft_point_v00
    r, dirs, flux = _case(p)
    uvw = r.uniform(-1, 1, (p["nt"], p["nb"], p["nc"], 3)) * 10.0 ** p["logu"]
    want, per, tot = _oracle(dirs, uvw, flux)
    g = Guard()
    a, b, c = g.inp(dirs), g.inp(flux), g.inp(uvw)
    vis = g.out(np.full(want.shape, p["prev"]), "c16" if p["prec"] == "d" else "c8")
    dft_point_v00(a, b, c, vis)
    g.check()
    _cmp(vis, want, _tol(p, per, tot))
    return _label(p)


@subcheck("P05", "metres", fd(
        logu=fl(-1, 4), f0=fl(1e7, 2e9), df=choice(0.0, 1e3, 1e6, -1e5, 1e7), **base),
    quick=3000, thorough=40000,
    rule="random component lists against coordinates in metres with a channel start and "
         "step; oracle is the defining sum with per-channel wavelengths; non-trivial: "
         "some source off centre and some non-zero flux")
def metres(p):
    from ska_sdp_func.visibility import dft_point_v01
    r, dirs, flux = _case(p)
    uvw = r.uniform(-1, 1, (p["nt"], p["nb"], 3)) * 10.0 ** p["logu"]
    freq = p["f0"] + np.arange(p["nc"]).astype(np.longdouble) * p["df"]
    uvl = uvw[:, :, None, :].astype(np.longdouble) * (freq / C0)[None, None, :, None]
    want, per, tot = _oracle(dirs, uvl, flux)
    g = Guard()
    a, b, c = g.inp(dirs), g.inp(flux), g.inp(uvw)
    vis = g.out(np.full(want.shape, p["prev"]), "c16" if p["prec"] == "d" else "c8")
    dft_point_v01(a, b, c, p["f0"], p["df"], vis)
    g.check()
    _cmp(vis, want, _tol(p, per.astype(float), tot))
    return _label(p)


def _cmp(vis, want, tol):
    close("vis", vis, want, atol=tol)


def _label(p):
    out = [p["prec"] + str(p["np"])]
    if p["lmax"] == 0.0:
        out.append("centre-only!")
    return out
