"""P16: gridding is the exact adjoint of degridding, linear and accumulative."""
import numpy as np
from hypothesis import strategies as st

from .. import wtower_ref as W
from ..core import Guard, close, require, rng, same, subcheck
from ..gen import choice, fd, fl, seeds, size
from ..oracles import pswf_tol
from .p15_degrid import C_0, Case, earlier_calls, geometry


def cgauss(r, shape):
    return r.standard_normal(shape) + 1j * r.standard_normal(shape)


@subcheck("P16", "grid", fd(layout=choice("C", "C", "F", "S2"), lv=choice("C", "F", "S1"),
                            py=st.booleans(), **geometry), quick=2500, thorough=40000,
          rule="gridding onto a sub-grid image that already holds data against a numpy evaluation "
               "of the adjoint kernel sum: offsets, shears, precisions, channel ranges, row "
               "windows, visibilities beside w-planes and beyond the sub-grid; non-trivial: some "
               "visibility is gridded")
def grid(p, strict=False):
    c = Case(p)
    v = cgauss(c.r, (c.nr, c.nc))
    # what happens to partly outside groups, and beside rounding decisions, is not judged
    v[~(c.must | c.never)] = 0
    v = v.astype(c.types[2])
    im0 = c.image()
    g = Guard()
    im = g.out(im0, layout=p["layout"])
    lay = p["lv"] if c.nr > 1 and c.nc > 1 else "C"
    a = (g.inp(v, layout=lay), g.inp(c.uvw), g.inp(c.lo), g.inp(c.hi))
    if p["py"]:
        c.kernel.grid_subgrid(*a, c.nc, c.f0, c.df, im, c.off, *c.win)
    else:
        c.kernel.grid(*a, c.f0, c.df, im, *c.off, *c.win)
    g.check()
    todo = np.argwhere(c.must)
    inc = c.ref.grid([c.pts[i, k] for i, k in todo],
                     [complex(v[i, k]) for i, k in todo])
    mag = sum(abs(v[i, k]) * c.scale(i, k) for i, k in todo)
    if any(c.last[i, k] for i, k in todo):
        alt = c.wrapped().grid([c.pts[i, k] for i, k in todo], [complex(v[i, k]) for i, k in todo])
        got = im - im0.astype("c16")
        if not strict and np.abs(got - alt).max() < np.abs(got - inc).max():
            inc = alt
    close("sub-grid image", im, im0.astype("c16") + inc,
          atol=c.tol() * (mag + 1e-3 * (mag > 0)) + 4 * c.eps * np.abs(im0))
    if not c.must.any():
        close("nothing gridded", im, im0, rtol=4 * c.eps)
    return c.labels


@subcheck("P16", "last_row", None, quick=0, thorough=0, asan=False, leak=False,
          rule="replay only: P16.grid that does not allow the kernel of the wrong w-plane just "
               "below a w-plane")
def last_row(p):
    return grid(p, strict=True)


@subcheck("P16", "adjoint", fd(split=st.integers(0, 3), **geometry), quick=2500, thorough=40000,
          rule="inner-product identity <degrid(x), y> = <x, grid(y)> for random images and "
               "visibilities with the library on both sides, and linear combinations gridded in "
               "one or two calls; non-trivial: some visibility takes part")
def adjoint(p):
    c = Case(p)
    sel = c.sel
    r = c.r
    x = c.image()
    y = (cgauss(r, (c.nr, c.nc)) * sel).astype(c.types[2])
    vis = np.zeros((c.nr, c.nc), c.types[2])
    c.kernel.degrid(x, *c.off, c.f0, c.df, c.uvw, c.lo, c.hi, vis, *c.win)

    def grid(v, into=None):
        im = np.zeros((c.sg, c.sg), c.types[0]) if into is None else into
        c.kernel.grid(v, c.uvw, c.lo, c.hi, c.f0, c.df, im, *c.off, *c.win)
        return im
    gy = grid(y)
    lhs = np.vdot(y.astype("c16"), vis.astype("c16"))
    rhs = np.vdot(gy.astype("c16"), x.astype("c16"))
    scale = sum(c.scale(i, k) * abs(y[i, k]) for i, k in np.argwhere(sel))
    tol = c.tol() * scale * np.abs(x).sum()
    require(abs(lhs - rhs) <= tol + 1e-300,
            f"<y, degrid(x)> = {lhs}, <grid(y), x> = {rhs}, allowed {tol:.3g}")
    # linear and accumulative
    a, b = 0.5, -2.0
    y2 = (cgauss(r, (c.nr, c.nc)) * sel).astype(c.types[2])
    one = grid((a * y + b * y2).astype(c.types[2]))
    two = grid((b * y2).astype(y.dtype), grid((a * y).astype(y.dtype)))
    s2 = sum(c.scale(i, k) * (abs(y[i, k]) + 2 * abs(y2[i, k])) for i, k in np.argwhere(sel))
    close("one call or two", two, one, atol=c.tol() * s2)
    part = np.flatnonzero(sel.any(1))
    if p["split"] and len(part) and c.win[0] <= 0 and c.win[1] < 0:
        # row windows add up to the whole
        cut = int(r.integers(0, c.nr + 1))
        im = np.zeros((c.sg, c.sg), c.types[0])
        v2 = np.zeros_like(vis)
        for w in ((0, cut), (cut, c.nr)):
            c.kernel.grid(y, c.uvw, c.lo, c.hi, c.f0, c.df, im, *c.off, *w)
            c.kernel.degrid(x, *c.off, c.f0, c.df, c.uvw, c.lo, c.hi, v2, *w)
        close("row windows gridded in turn", im, gy, atol=c.tol() * scale)
        close("row windows degridded in turn", v2, vis, atol=c.tol() * np.abs(x).sum() * 8)
    return c.labels


@subcheck("P16", "direct", fd(
    sg=size(2, 16, 9, rare=40), theta=fl(0.02, 0.5), support=choice(4, 1, 8, 10), wstep=fl(0, 60),
    hu=choice(0.0, 0.1), hv=choice(0.0, -0.12), ou=st.integers(-50, 50), ov=st.integers(-50, 50),
    ow=st.integers(-6, 6), rows=size(1, 8, 3, rare=60), chans=size(1, 6, 3, rare=40), prec=choice("d", "d", "f"),
    wmag=choice(0.0, 100.0, 3000.0), chmode=st.integers(0, 2),
    prior=choice(0, 0, 1, 3),
    df=choice(1e3, 1e6, 3e7), layout=choice("C", "F"), seed=seeds), quick=1500, thorough=25000,
    rule="exact gridder: gridding equals the tapered conjugate Fourier sum added to the image, and "
         "is the adjoint of its degridding; non-trivial: some visibility selected")
def direct(p):
    from ska_sdp_func.grid_data import GridderDirect
    r = rng(p["seed"])
    n, th = p["sg"], p["theta"]
    rd, cd = ("f8", "c16") if p["prec"] == "d" else ("f4", "c8")
    im0 = cgauss(r, (n, n)).astype(cd)
    nr, nc = p["rows"], p["chans"]
    f0 = 1e8
    uvw = r.uniform(-1, 1, (nr, 3)) * [n / th, n / th, p["wmag"] + 1e-3] * C_0 / f0
    uvw = uvw.astype(rd)
    lo, hi = np.zeros(nr, "i4"), np.full(nr, nc, "i4")
    if p["chmode"]:
        lo = r.integers(0, nc, nr).astype("i4")
        hi = r.integers(0, nc + 1, nr).astype("i4")
    v = cgauss(r, (nr, nc)).astype(cd)
    g = Guard()
    im = g.out(im0, layout=p["layout"])
    k = GridderDirect(2 * n, n, th, p["wstep"], p["hu"], p["hv"], p["support"])
    earlier_calls(k, n, th, p["wstep"], 2 * n, p["seed"], p.get("prior", 0))
    ins = (g.inp(uvw), g.inp(lo), g.inp(hi))
    k.grid_subgrid(g.inp(v), *ins, nc, f0, p["df"], im, (p["ou"], p["ov"], p["ow"]))
    g.check()
    tap = W.pswf_window(p["support"] * np.pi / 2, n, 1e-15)
    l = np.broadcast_to(W.coords(n, th)[:, None], (n, n)).astype(rd).astype("f8")
    m = np.broadcast_to(W.coords(n, th)[None, :], (n, n)).astype(rd).astype("f8")
    nn = W.n_map((n, n), th, p["hu"], p["hv"], n)
    sel = (np.arange(nc) >= lo[:, None]) & (np.arange(nc) < hi[:, None])
    x = uvw.astype("f8")[:, None, :] * ((f0 + p["df"] * np.arange(nc)) / C_0)[None, :, None]
    x = x - [p["ou"] / th, p["ov"] / th, p["ow"] * p["wstep"]]
    inc = np.zeros((n, n), complex)
    for i, c in np.argwhere(sel):
        u, vv, w = x[i, c]
        inc += v[i, c] * np.exp(2j * np.pi * (u * l + vv * m + w * nn))
    inc *= tap[:, None] * tap[None, :]
    want = im0.astype("c16") + inc
    eps = {"d": 1e-15, "f": 1.2e-7}[p["prec"]] + 2 * pswf_tol(p["support"] * np.pi / 2)
    mag = np.abs(x).max() + 1
    ph = 10 * (mag * {"d": 1e-16, "f": 1.2e-7 * np.abs(nn).max()}[p["prec"]])
    tol = (4 * nr * nc) ** 0.5 * eps + 3 * eps + ph
    tot = np.abs(v[sel]).sum() if sel.any() else 0
    close("image", im, want, atol=tol * (tot + np.abs(im0)))
    vis = np.zeros((nr, nc), cd)
    y = cgauss(r, (n, n)).astype(cd)
    k.degrid_subgrid(y, (p["ou"], p["ov"], p["ow"]), nc, f0, p["df"], *ins, vis)
    gv = np.zeros((n, n), cd)
    k.grid_subgrid(v, *ins, nc, f0, p["df"], gv, (p["ou"], p["ov"], p["ow"]))
    lhs = np.vdot((v * sel).astype("c16"), vis.astype("c16"))
    rhs = np.vdot(gv.astype("c16"), y.astype("c16"))
    require(abs(lhs - rhs) <= 2 * tol * tot * np.abs(y).sum() + 1e-300,
            f"<v, degrid(y)> = {lhs}, <grid(v), y> = {rhs}")
    return [p["prec"], "none!" if not sel.any() else "vis"]
