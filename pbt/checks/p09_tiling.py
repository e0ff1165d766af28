"""P09: tile counting, bucket sort and tiled indexing against a plain model."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from ..core import Guard, Skip, Violation, close, require, rng, same, subcheck
from ..gen import choice, fd, fl, seeds, size

C0 = 299792458.0
ALL = 32768


def _axis_tiles(g, gs, t, support, ntile):
    """First and one-past-last tile touched by cells g-support..g+support."""
    half = gs // 2
    top = half - (half // t) * t - t // 2
    rel = g - top
    lo = (rel - support) // t
    hi = -((-(rel + support + 1)) // t)
    # the definition uses single-precision reciprocals: skip where that matters
    inv = np.float32(1.0 / t)
    l32 = np.floor((rel - support).astype(np.float32) * inv)
    h32 = np.ceil((rel + support + 1).astype(np.float32) * inv)
    return lo, hi, (l32 == lo) & (h32 == hi)


# ways of rounding a position half-way between two cells
ROUND = (lambda x: np.sign(x) * np.floor(np.abs(x) + 0.5), lambda x: np.floor(x + 0.5), np.rint)


def _model(p, conv=0):
    r = rng(p["seed"], plain=True)
    nt, nb, nc, gs, sup = p["nt"], p["nb"], p["nc"], p["gs"], p["sup"]
    tu, tv = p["tu"], p["tv"]
    dt = np.dtype("f8" if p["prec"] == "d" else "f4")
    freq = (p["f0"] * (1 + p["spread"] * np.sort(r.random(nc)))).astype(dt)
    cell = 10.0 ** p["logcell"]
    # aim positions (in cells) at the lowest frequency
    pos = r.uniform(-0.5, 0.5, (nt, nb, 2)) * gs * p["over"]
    if p["onint"]:
        pos = np.rint(pos) + r.uniform(-0.3, 0.3, pos.shape)
    uvw = np.zeros((nt, nb, 3))
    uvw[..., :2] = pos / (gs * cell) / (float(freq[0]) / C0)
    uvw[..., 2] = r.standard_normal((nt, nb))
    if p.get("half") and p["prec"] == "d":      # exact ties
        gs = 1 << (gs.bit_length() - 1)
        freq = (C0 * 2.0 ** np.sort(r.integers(0, 3, nc))).astype(dt)
        cell = 2.0 ** -int(r.integers(4, 12))
        k = r.integers(-gs, gs + 1, (nt, nb, 2)) * p["over"]
        uvw[..., :2] = np.rint(k) / 2 / (gs * cell)
    uvw = uvw.astype(dt)
    pos = (uvw.astype("f8")[:, :, None, :2] * (freq.astype("f8") / C0)[None, None, :, None]
           * (gs * cell))
    fr = np.abs(pos - np.floor(pos) - 0.5)
    if not (p.get("half") and p["prec"] == "d") and (fr < (1e-9 if p["prec"] == "d" else 1e-5) * (1 + np.abs(pos))).any():
        raise Skip()
    g = ROUND[conv](pos).astype(np.int64) + gs // 2
    inside = ((g + sup < gs) & (g - sup >= 0)).all(axis=-1)
    ntu, ntv = -(-gs // tu), -(-gs // tv)
    lou, hiu, oku = _axis_tiles(g[..., 0], gs, tu, sup, ntu)
    lov, hiv, okv = _axis_tiles(g[..., 1], gs, tv, sup, ntv)
    if not (oku & okv)[inside].all():
        raise Skip()
    beyond = inside & ((lou < 0) | (hiu > ntu) | (lov < 0) | (hiv > ntv))
    if beyond.any() and not p.get("edge"):
        raise Skip()     # see known/findings.txt
    rows = []            # (tile, flat vis index, pu, pv)
    for i in np.argwhere(inside):
        i = tuple(i)
        f = int(np.ravel_multi_index(i, inside.shape))
        for pv in range(lov[i], hiv[i]):
            for pu in range(lou[i], hiu[i]):
                if not (0 <= pu < ntu and 0 <= pv < ntv):
                    continue      # no such tile
                rows.append((pu + pv * ntu, f, pu, pv))
    rows = np.array(sorted(rows), dtype=np.int64).reshape(-1, 4)
    return uvw, freq, cell, pos.reshape(-1, 2), inside, rows, ntu, ntv, gs


common = dict(
    nt=size(1, 3, rare=20), nb=size(1, 12, rare=80), nc=size(1, 5, rare=40), gs=size(8, 200, 24, rare=700),
    tu=st.one_of(choice(2, 4, 8, 16, 32), st.integers(2, 40)),
    tv=st.one_of(choice(2, 4, 8, 16, 32), st.integers(2, 40)),
    sup=st.integers(0, 6), f0=fl(5e7, 1e9), spread=choice(0.0, 0.1, 1.0),
    half=choice(False, False, False, True), logcell=fl(-5, -2), over=choice(0.2, 0.6, 0.9, 1.2, 3.0), onint=st.booleans(),
    prec=choice("d", "d", "f"), seed=seeds)

RULE = ("random grids, tile shapes, supports and channels; oracle lists every (visibility, tile) "
        "pair with integer arithmetic; cases whose rounding is ambiguous are skipped, except exact "
        "ties, where all three functions must round the same way; "
        "non-trivial: at least one visibility inside the grid")

EX = dict(nt=1, nb=6, nc=2, gs=64, tu=8, tv=4, sup=2, f0=1e8, spread=0.1, logcell=-3.0,
          over=0.6, onint=True, prec="d", seed=5)


@subcheck("P09", "tiles", fd(**common), quick=7000, thorough=120000, rule=RULE,
          examples=[EX, dict(EX, tu=32, tv=16, gs=200, sup=4)])
def tiles(p):
    first = None
    for conv in range(3 if p.get("half") and p["prec"] == "d" else 1):
        try:
            return _tiles(p, conv)
        except Violation as e:
            first = first or e
    raise first


def _tiles(p, conv):
    from ska_sdp_func.visibility.tiled_functions import (
        bucket_sort, count_and_prefix_sum, tiled_indexing)
    uvw, freq, cell, pos, inside, rows, ntu, ntv, gs = _model(p, conv)
    nt, nb, nc = inside.shape
    dt = uvw.dtype
    cdt = np.dtype("c16" if p["prec"] == "d" else "c8")
    r = rng(p["seed"] + 1, plain=True)
    npol = p.get("npol", 1)      # more: see known/findings.txt
    vis = (r.standard_normal(inside.shape + (npol,))
           + 1j * r.standard_normal(inside.shape + (npol,))).astype(cdt)
    wt = r.random(vis.shape).astype(dt)
    n = ntu * ntv
    counts = np.bincount(rows[:, 0], minlength=n) if len(rows) else np.zeros(n, int)
    offs = np.concatenate([[0], np.cumsum(counts)])
    total = int(offs[-1])
    args = (gs, p["tu"], p["tv"], cell, p["sup"])

    g = Guard()
    cu, cf, cv, cw = g.inp(uvw), g.inp(freq), g.inp(vis), g.inp(wt)
    to = g.out(np.full(n + 1, 77), "i4")
    pt = g.out(np.full(n, 77), "i4")
    sk = g.out(np.full(1, 77), "i4")
    nv = ctypes.c_int(-3)
    count_and_prefix_sum(cu, cf, cv, *args, nv, to, pt, sk)
    g.check()
    same("number of points in tiles", pt, counts)
    same("number skipped", sk, [int((~inside).sum())])
    same("tile offsets", to, offs)
    require(nv.value == total, f"number of (visibility, tile) pairs: got {nv.value}, expected {total}")

    tile_code = rows[:, 3] * ALL + rows[:, 2]
    wf = wt[..., 0].reshape(-1)[rows[:, 1]]
    rt = 1e-12 if p["prec"] == "d" else 2e-6
    if total == 0:
        return ["none-inside!"]

    def order(tile_of, idx):
        return np.lexsort((idx, tile_of))

    # indices only
    g = Guard()
    cu, cf = g.inp(uvw), g.inp(freq)
    st_ = g.out(np.full(total, -9), "i4")
    su, sv = g.out(np.full(total, -9.0), dt), g.out(np.full(total, -9.0), dt)
    si = g.out(np.full(total, -9), "i4")
    to1 = g.out(offs, "i4")
    tiled_indexing(cu, cf, *args, nc, nb, nt, st_, su, sv, si, to1)
    g.check()
    seg = np.repeat(np.arange(n), counts)
    o = order(seg, si)
    same("index list by tile", si[o], rows[:, 1])
    same("tile code (indexing)", st_[o], tile_code)
    close("sorted u (indexing)", su[o], pos[rows[:, 1], 0], rtol=rt, atol=rt)
    close("sorted v (indexing)", sv[o], pos[rows[:, 1], 1], rtol=rt, atol=rt)

    # values: identify each entry by its (distinct) visibility value
    g = Guard()
    cu, cf, cv, cw = g.inp(uvw), g.inp(freq), g.inp(vis), g.inp(wt)
    su, sv = g.out(np.full(total, -9.0), dt), g.out(np.full(total, -9.0), dt)
    sw = g.out(np.full(total, -9.0), dt)
    st_ = g.out(np.full(total, -9), "i4")
    sx = g.out(np.full(total, -9.0), cdt)
    to2 = g.out(offs, "i4")
    bucket_sort(cu, cf, cv, cw, *args, su, sv, sw, st_, sx, to2)
    g.check()
    flat = vis[..., 0].reshape(-1)
    srt = np.argsort(flat.real, kind="stable")
    k = np.clip(np.searchsorted(flat.real[srt], sx.real), 0, flat.size - 1)
    idx = srt[k]
    same("sorted visibilities are input visibilities", sx, flat[idx])
    o = order(seg, idx)
    same("visibility list by tile", idx[o], rows[:, 1])
    same("tile code (sort)", st_[o], tile_code)
    same("sorted weight", sw[o], wf)
    close("sorted u", su[o], pos[rows[:, 1], 0], rtol=rt, atol=rt)
    close("sorted v", sv[o], pos[rows[:, 1], 1], rtol=rt, atol=rt)
    lab = [p["prec"], "split" if total > inside.sum() else "single-tile"]
    lab.append("some-skipped" if (~inside).any() else "all-inside")
    return lab
