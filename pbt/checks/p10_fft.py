"""P10: the FFT wrapper against the defining DFT; normalisation and shift helpers."""
import ctypes

import numpy as np
import scipy.fft
from hypothesis import strategies as st

from ..core import (CMem, Guard, I32, Skip, ccall, ccall_ok, clib, close, require, rng, same,
                    subcheck)
from ..gen import choice, fd, seeds, size

EPS = {"d": 2.3e-16, "f": 1.2e-7}
CDT = {"d": np.dtype("c16"), "f": np.dtype("c8")}


def _mat(n, sign):
    k = np.arange(n)
    return np.exp(sign * 2j * np.pi * ((k[:, None] * k[None, :]) % n) / n)


def _dft(x, ndim, sign):
    """Defining sum over the last ndim axes (an FFT in extended precision for large sizes)."""
    y = x.astype("c16")
    for ax in range(x.ndim - ndim, x.ndim):
        if x.shape[ax] > 600:
            e = scipy.fft.fft(y.astype(np.clongdouble), axis=ax) if sign < 0 else scipy.fft.ifft(
                y.astype(np.clongdouble), axis=ax, norm="forward")
            y = e.astype("c16")
            continue
        y = np.moveaxis(np.tensordot(_mat(x.shape[ax], sign), y, axes=(1, ax)), 0, ax)
    return y


def _data(r, shape, style, logs):
    x = r.standard_normal(shape) + 1j * r.standard_normal(shape)
    if style == "impulse":
        k = r.integers(0, x.size)
        v = x.reshape(-1)[k]
        x[...] = 0
        x.reshape(-1)[k] = v
    elif style == "real":
        x = x.real + 0j
    elif style == "tone":
        ph = sum(np.arange(n).reshape([-1 if i == j else 1 for j in range(len(shape))])
                 * int(r.integers(0, n)) / n for i, n in enumerate(shape))
        x = np.exp(2j * np.pi * ph) + 0 * x
    return x * 10.0 ** logs


dims = st.lists(st.one_of(size(1, 40, 9, rare=150), choice(1, 2, 3, 4, 8, 16, 27, 31, 32, 49, 64, 97)),
                min_size=1, max_size=2)
RULE = ("random shapes (1 or 2 transform dimensions, with or without a batch dimension), both "
        "directions and precisions, in place and out of place, plan reused on fresh data; oracle "
        "is the defining sum evaluated with exact integer phase reduction; non-trivial: more "
        "than one element in the transform")


@subcheck("P10", "transform", fd(
    dims=dims, batch=st.one_of(st.just(0), size(1, 12, rare=80)), fwd=st.booleans(), prec=choice("d", "f"),
    inplace=st.booleans(), reuse=st.integers(0, 2), style=choice("full", "impulse", "real", "tone"),
    logs=choice(-6, 0, 0, 8), seed=seeds), quick=8000, thorough=100000, rule=RULE,
    examples=[dict(dims=[256, 512], batch=0, fwd=True, prec="d", inplace=False, reuse=1,
                   style="full", logs=0, seed=1),
              dict(dims=[101], batch=40, fwd=False, prec="d", inplace=True, reuse=1,
                   style="full", logs=0, seed=1)])
def transform(p):
    from ska_sdp_func.fourier_transforms import Fft
    r = rng(p["seed"])
    shape = tuple(p["dims"])
    nd = len(shape)
    npt = int(np.prod(shape))
    full = (p["batch"],) + shape if p["batch"] else shape
    dt = CDT[p["prec"]]
    x0 = _data(r, full, p["style"], p["logs"]).astype(dt)
    g = Guard()
    if p["inplace"]:
        a = b = g.out(x0)
    else:
        a = g.out(x0)
        b = g.out(np.full(full, 1e3 + 5j), dt)
    plan = Fft(a, b, nd, p["fwd"])
    same("plan creation leaves input", a, x0)
    back = Fft(b, b, nd, not p["fwd"])
    for k in range(1 + p["reuse"]):
        x = x0 if k == 0 else _data(r, full, "full", p["logs"]).astype(dt)
        a[...] = x
        plan.exec(a, b)
        want = _dft(x, nd, -1 if p["fwd"] else 1)
        norm = np.sqrt((np.abs(x.astype("c16")) ** 2).sum(
            axis=tuple(range(len(full) - nd, len(full))), keepdims=True) * npt)
        tol = EPS[p["prec"]] * (8 + 4 * np.log2(npt + 1)) * norm + 1e-300
        close("transform", b, want, atol=tol)
        if not p["inplace"]:
            same("input of out-of-place transform", a, x)
        back.exec(b, b)
        close("forward then backward", b, x.astype("c16") * npt, atol=2 * tol * np.sqrt(npt))
    # a plan for another shape must be refused, untouched
    g.check()
    return [p["prec"], f"{nd}d", "batch" if p["batch"] else "nobatch",
            "multi" if npt > 1 else "one!"]


def _plan(a, nd, fwd):
    st_, h = ccall("sdp_fft_create", a, a, I32(nd), I32(fwd), restype=ctypes.c_void_p)
    require(st_ == 0, f"sdp_fft_create failed with {st_}")
    return ctypes.c_void_p(h)


@subcheck("P10", "shift_norm", fd(
    nx=size(1, 40, 8), ny=size(1, 40, 8), fwd=st.booleans(), prec=choice("d", "f"),
    norm=st.booleans(), strided=choice("C", "S1", "S3"), seed=seeds),
    quick=6000, thorough=60000,
    rule="sdp_fft_phase, sdp_fft_norm (any strides) and sdp_fft_exec_shift on random 2-D arrays "
         "against the checkerboard, division by the number of elements, and (even sizes) the "
         "transform with its origin at the centre; non-trivial: more than one element")
def shift_norm(p):
    r = rng(p["seed"])
    nx, ny = p["nx"], p["ny"]
    dt = CDT[p["prec"]]
    eps = EPS[p["prec"]]
    x = (r.standard_normal((nx, ny)) + 1j * r.standard_normal((nx, ny))).astype(dt)
    chk = 1.0 - 2.0 * ((np.arange(nx)[:, None] + np.arange(ny)) % 2)
    g = Guard()
    a = g.out(x, layout=p["strided"] if min(nx, ny) > 1 else "C")
    ccall_ok("sdp_fft_phase", a)
    close("phase", a, x * chk, rtol=0, atol=0)
    a[...] = x
    ccall_ok("sdp_fft_norm", a)
    close("norm", a, x.astype("c16") / (nx * ny), rtol=4 * eps)
    b = g.out(x)
    plan = _plan(b, 2, p["fwd"])
    ccall_ok("sdp_fft_exec_shift", plan, CMem(b), I32(p["norm"]))
    sign = -1 if p["fwd"] else 1
    want = _dft(x * chk, 2, sign) * chk
    if p["norm"]:
        want = want / (nx * ny)
    tol = eps * (10 + 4 * np.log2(nx * ny + 1)) * np.sqrt(
        (np.abs(x.astype("c16")) ** 2).sum() * nx * ny) / (nx * ny if p["norm"] else 1)
    close("exec_shift", b, want, atol=tol)
    if nx % 2 == 0 and ny % 2 == 0 and (nx + ny) % 4 == 0:
        kx, ky = np.arange(nx) - nx // 2, np.arange(ny) - ny // 2
        ex = np.exp(sign * 2j * np.pi * ((kx[:, None] * kx) % nx) / nx)
        ey = np.exp(sign * 2j * np.pi * ((ky[:, None] * ky) % ny) / ny)
        cen = ex @ x.astype("c16") @ ey.T
        if p["norm"]:
            cen = cen / (nx * ny)
        close("centred transform", b, cen, atol=2 * tol)
    f = clib().sdp_fft_free
    f.restype = None
    f(plan)
    g.check()
    return [p["prec"], "even" if nx % 2 == 0 and ny % 2 == 0 else "odd",
            "one!" if nx * ny == 1 else "multi"]
