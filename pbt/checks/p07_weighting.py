"""P07: uniform and Briggs weighting against their gridded definition."""
import numpy as np
from hypothesis import strategies as st

from ..core import Guard, Skip, close, rng, same, subcheck
from ..gen import choice, fd, fl, seeds, size

C0 = 299792458.0


def _case(p):
    """uvw in metres, frequencies, max |uv|; cell positions never ambiguous."""
    r = rng(p["seed"])
    nt, nb, nc, gs = p["nt"], p["nb"], p["nc"], p["gs"]
    half = gs // 2
    if p["exact"]:
        # exactly representable coordinates, many exactly on cell borders
        freq = C0 * 2.0 ** r.integers(-1, 3, nc)
        mx = 2.0 ** int(r.integers(0, 12))
        hh = max(half, 1)
        # cell coordinate must be dyadic: only when half is a power of two
        k = r.integers(-8 * hh, 8 * hh + 1, (nt, nb, 3)) / 8.0
        uvw = k * mx / hh
        if half & (half - 1):
            raise Skip()
    else:
        freq = p["f0"] * (1 + p["spread"] * np.sort(r.random(nc)))
        mx = 10.0 ** p["logmax"]
        uvw = (r.uniform(-1, 1, (nt, nb, 3)) * mx * p["over"] / (freq.min() / C0))
        if p["conc"]:
            uvw[...] = uvw[:1, :1] * (1 + 1e-3 * r.random(uvw.shape))
    t = uvw[:, :, None, :2] * (freq / C0)[None, None, :, None] / mx * half
    if not p["exact"]:
        if half and (np.abs(t - np.rint(t)) < 1e-9 * (1 + np.abs(t))).any():
            raise Skip()
    idx = np.floor(t).astype(np.int64) + half
    ok = ((idx >= 0) & (idx < gs)).all(axis=-1)
    w = r.random((nt, nb, nc, p["np"])) * 10.0 ** p["logw"]
    if p["wstyle"] == "ones":
        w[...] = 1.0
    elif p["wstyle"] == "zeros":
        w *= r.random(w.shape) < 0.6
    return uvw, freq, mx, idx, ok, w


def _grid(idx, ok, w, gs):
    g = np.zeros((gs, gs, w.shape[-1]))
    np.add.at(g, (idx[ok][:, 0], idx[ok][:, 1]), w[ok])
    return g


common = dict(nt=size(1, 4, rare=40), nb=size(1, 40, rare=300), nc=size(1, 6, rare=100), np=choice(1, 2, 3, 4),
              gs=st.one_of(size(2, 64, 8), choice(8, 16, 32)), exact=st.booleans(),
              f0=fl(1e7, 2e9), spread=fl(0, 1), logmax=fl(0, 5),
              over=choice(0.3, 0.9, 1.0, 1.5, 4.0), conc=st.booleans(),
              logw=choice(-3, 0, 0, 3), wstyle=choice("any", "ones", "zeros"),
              prec=choice("d", "f"), prev=choice(-7.0, 0.0), seed=seeds)


def _run(p, robust):
    from ska_sdp_func.visibility.weighting import briggs_weights, uniform_weights
    uvw, freq, mx, idx, ok, w = _case(p)
    dt = "f8" if p["prec"] == "d" else "f4"
    w = w.astype(dt)
    want_grid = _grid(idx, ok, w.astype("f8"), p["gs"])
    cell = np.zeros(w.shape)
    cell[ok] = want_grid[idx[ok][:, 0], idx[ok][:, 1]]
    want = np.full(w.shape, p["prev"])
    with np.errstate(all="ignore"):
        if robust is None:
            want[ok] = 1.0 / cell[ok]
        else:
            sw, sw2 = cell[ok].sum(), (cell[ok] ** 2).sum()
            if ok.any() and sw == 0:
                raise Skip()
            if ok.any():
                rb = (5.0 * 10.0 ** -robust) ** 2 / (sw2 / sw)
                want[ok] = w[ok].astype("f8") / (1 + rb * cell[ok])
    g = Guard()
    cu, cf, cw = g.inp(uvw), g.inp(freq), g.inp(w)
    cg = g.out(np.zeros(want_grid.shape), dt)
    co = g.out(np.full(w.shape, p["prev"]), dt)
    if robust is None:
        uniform_weights(cu, cf, mx, cg, cw, co)
    else:
        briggs_weights(cu, cf, mx, robust, cg, cw, co)
    g.check()
    # (sequential sums: the error may grow with the number of terms)
    rt = 1e-12 + 4e-16 * w.size if p["prec"] == "d" else 4e-5 + 1.2e-7 * w.size / p["np"]
    close("weight grid", cg, want_grid, rtol=rt)
    close("output", co, want, rtol=2 * rt)
    if (~ok).any():
        same("output outside the grid", co[~ok], np.full(int((~ok).sum()) * p["np"], p["prev"], dt).reshape(-1, p["np"]))
    n_in = int(ok.sum())
    lab = ["exact" if p["exact"] else "general", p["prec"]]
    lab.append("none-inside!" if n_in == 0 else "some-outside" if n_in < ok.size else "all-inside")
    return lab


RULE = ("random coordinates inside, outside and (exact mode) exactly on cell borders of "
        "odd/even grids, several frequencies; oracle accumulates cells with numpy and applies "
        "the definition; non-trivial: at least one visibility inside the grid")

EX = dict(nt=1, nb=3, nc=1, np=1, gs=8, exact=False, f0=1e8, spread=0.0, logmax=1.0, over=4.0,
          conc=False, logw=0, wstyle="any", prec="d", prev=-7.0, seed=3)


@subcheck("P07", "uniform", fd(**common), quick=8000, thorough=120000, rule=RULE,
          examples=[EX, dict(EX, prec="f", np=4)])
def uniform(p):
    return _run(p, None)


@subcheck("P07", "briggs", fd(robust=choice(-2.0, -0.5, 0.0, 0.5, 1.0, 2.0, 1.37), **common),
          quick=8000, thorough=120000, rule=RULE, examples=[dict(EX, robust=0.5)])
def briggs(p):
    return _run(p, p["robust"])
