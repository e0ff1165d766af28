"""P19: gridder array utilities compute their documented element-wise definitions."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from ..core import (CD, CI, I64, CMem, Guard, ccall, ccall_ok, close, require, rng, same, subcheck)
from ..gen import choice, fd, seeds, size

C_0 = 299792458.0
EPS = {"f4": 1.2e-7, "c8": 1.2e-7, "f8": 2.3e-16, "c16": 2.3e-16}
layouts = choice("C", "C", "F", "S1", "S3")
NULL = None


def arr(r, shape, dt, logs=0):
    a = r.standard_normal(shape) * 10.0 ** logs
    if dt[0] == "c":
        a = a + 1j * r.standard_normal(shape) * 10.0 ** logs
    return a.astype(dt)


def lm_to_n(l, m, hu, hv):
    """n with (l - hu n, m - hv n, n + 1) on the unit sphere, near the phase centre."""
    a = hu * l + hv * m - 1
    h = hu * hu + hv * hv + 1
    return -(l * l + m * m) / (np.sqrt(a * a - h * (l * l + m * m)) - a)


_ACC = [("c16", "c16"), ("c8", "c8"), ("c16", "c8"), ("c8", "c16"), ("c16", "f8"), ("c8", "f4"),
        ("c16", "f4"), ("c8", "f8"), ("f8", "c16"), ("f4", "c8"), ("f8", "c8"), ("f4", "c16")]


@subcheck("P19", "scaled", fd(
    op=choice("acc", "acc", "inv"), types=st.integers(0, 11), has2=st.booleans(),
    expo=choice(0, 1, 1, 2, -1, -2, 3, 7, -12), n=size(1, 9, 4, rare=70), m=size(1, 9, 4, rare=70),
    unit=st.booleans(), lo=layouts, l1=layouts, l2=layouts, alias=choice(False, False, True),
    seed=seeds), quick=4000, thorough=60000,
    rule="accumulate in1*in2**e and in1/in2**e over every supported type combination, positive, "
         "zero, one and negative exponents, optional second array, strided layouts, in-place "
         "inverse scaling; non-trivial: exponent not 0")
def scaled(p):
    r = rng(p["seed"])
    shape = (p["n"], p["m"])
    e = p["expo"]
    in2 = arr(r, shape, "c16")
    in2 = in2 / np.abs(in2)
    if not p["unit"]:
        in2 = in2 * r.uniform(0.5, 2, shape)
    g = Guard()
    c2 = g.inp(in2, layout=p["l2"])
    if p["op"] == "acc":
        to, t1 = _ACC[p["types"]]
        in1, out0 = arr(r, shape, t1), arr(r, shape, to)
        c1, co = g.inp(in1, layout=p["l1"]), g.out(out0, layout=p["lo"])
        use2 = p["has2"] or e != 0
        m2 = CMem(c2) if p["has2"] else NULL
        ccall_ok("sdp_gridder_accumulate_scaled_arrays", co, c1, m2, CI(e))
        inc = in1.astype("c16") * (in2 ** float(e) if p["has2"] else 1)
        want = out0 + (inc.real if to[0] == "f" else inc)
        mag = np.abs(out0) + np.abs(inc)
        tol = (EPS[to] * 4 + 2.3e-16 * (8 + 8 * abs(e))) * mag
        tri = e == 0 or not (use2 and p["has2"])
    else:
        to, t1 = [("c16", "f8"), ("c8", "f4"), ("c16", "c16"), ("c8", "c8")][p["types"] % 4]
        in1 = arr(r, shape, t1)
        if p["alias"] and to == t1:
            co = g.out(in1, layout=p["lo"])
            c1 = co
        else:
            c1 = g.inp(in1, layout=p["l1"])
            co = g.out(arr(r, shape, to), layout=p["lo"])
        ccall_ok("sdp_gridder_scale_inv_array", co, c1, c2, CI(e))
        want = in1.astype("c16") / in2 ** float(e)
        tol = (EPS[to] * 4 + 2.3e-16 * (8 + 8 * abs(e))) * np.abs(want)
        tri = e == 0
    g.check()
    close(p["op"] + f" {to}<-{t1} exponent {e}", co, want, atol=tol)
    return [p["op"], f"{to}<-{t1}", "e=0!" if tri else "e"]


_DIFF = [("c16", "c16"), ("c8", "c8"), ("c16", "c8"), ("f8", "f8"), ("f4", "f4"), ("f8", "f4")]


@subcheck("P19", "diff", fd(types=st.integers(0, 5), n=size(1, 12, 4, rare=100), m=size(1, 12, 4, rare=100),
                            kind=choice("near", "far", "equal"), lo=layouts, l1=layouts, l2=layouts,
                            seed=seeds), quick=2500, thorough=40000,
          rule="rms(a-b) and a-b for every supported type pair, strided arrays, equal, nearly equal "
               "and unrelated arrays; non-trivial: more than one element and arrays differ")
def diff(p):
    from ska_sdp_func.grid_data import rms_diff
    r = rng(p["seed"])
    ta, tb = _DIFF[p["types"]]
    shape = (p["n"], p["m"])
    a = arr(r, shape, ta)
    if p["kind"] == "far":
        b = arr(r, shape, tb)
    else:
        b = a.astype(tb)
        if p["kind"] == "near":
            i = tuple(int(r.integers(0, s)) for s in shape)
            b[i] += 3
    g = Guard()
    ca, cb = g.inp(a, layout=p["l1"]), g.inp(b, layout=p["l2"])
    co = g.out(arr(r, shape, ta), layout=p["lo"])
    got = rms_diff(ca, cb)
    ccall_ok("sdp_gridder_residual", ca, cb, co)
    g.check()
    d = (a - b.astype(ta))
    same("residual", co, d)
    dd = d.astype("c16")
    want = float(np.sqrt((np.abs(dd) ** 2).sum() / dd.size))
    require(abs(got - want) <= (8 * EPS[ta] + 1e-15 * dd.size) * want + 1e-300,
            f"rms difference {got!r}, expected {want!r} ({ta},{tb})")
    return [ta + tb, p["kind"], "one!" if dd.size == 1 or p["kind"] == "equal" else "many"]


@subcheck("P19", "sumdiff", fd(n=size(1, 40, 6, rare=2000), big=choice(0, 0, 1, 2), window=st.booleans(),
                               seed=seeds), quick=1500, thorough=20000,
          rule="sum of integer differences over all rows or a row window, including totals and "
               "differences beyond 32 bits; non-trivial: more than one row summed")
def sumdiff(p):
    r = rng(p["seed"])
    n = p["n"]
    lim = [50, 2 ** 29, 2 ** 31 - 1][p["big"]]
    a, b = (r.integers(-lim, lim + 1, n).astype("i4") for _ in range(2))
    if p["big"] == 1:
        b -= 2 ** 28
        a += 2 ** 28
    g = Guard()
    ca, cb = g.inp(a), g.inp(b)
    s, e = -1, -1
    if p["window"]:
        s = int(r.integers(0, n + 1))
        e = int(r.integers(s, n + 1))
    res = ctypes.c_int64(12345)
    ccall_ok("sdp_gridder_sum_diff", ca, cb, ctypes.byref(res), I64(s), I64(e))
    g.check()
    s, e = (0, n) if s < 0 else (s, e)
    want = int((a[s:e].astype("i8") - b[s:e].astype("i8")).sum())
    require(res.value == want, f"sum of differences {res.value}, expected {want} (rows {s}:{e})")
    return ["rows" if e - s > 1 else "few!", f"big{p['big']}"]


@subcheck("P19", "shift", fd(k=size(1, 6, 3, rare=40), n=size(1, 8, 3, rare=40), prec=choice("c16", "c8"), lo=layouts,
                             seed=seeds), quick=1000, thorough=20000,
          rule="stack of 1-6 planes shifted by one plane, last plane kept; strided; non-trivial: at "
               "least two planes")
def shift(p):
    r = rng(p["seed"])
    a = arr(r, (p["k"], p["n"], p["n"]), p["prec"])
    g = Guard()
    c = g.out(a, layout=p["lo"])
    ccall_ok("sdp_gridder_shift_subgrids", c)
    g.check()
    same("shifted stack", c[:-1], a[1:])
    same("last plane", c[-1], a[-1])
    return ["k>1" if p["k"] > 1 else "one!"]


@subcheck("P19", "subgrid", fd(
    nu=size(1, 14, 6, rare=80), nv=size(1, 14, 6, rare=80), su=size(1, 16, 5, rare=60), sv=size(1, 16, 5, rare=60),
    prec=choice("c16", "c8", "f8", "f4"), far=choice(False, False, True), lg=layouts, ls=layouts,
    api=choice("py", "c"), factor=choice(1.0, 1.0, -2.5, 0.25), seed=seeds),
    quick=3000, thorough=50000,
    rule="cut-out and addition for grids and sub-grids of any shape (sub-grid smaller or equal)"
         ", any offset within and well beyond the grid, four types; exact oracle with "
         "modular indices, and the adjoint identity; non-trivial: the sub-grid wraps around")
def subgrid(p):
    from ska_sdp_func.grid_data import subgrid_add, subgrid_cut_out
    r = rng(p["seed"])
    nu, nv = p["nu"], p["nv"]
    su, sv = min(p["su"], nu), min(p["sv"], nv)   # a sub-grid is part of the grid
    k = 5 if p["far"] else 1
    ou, ov = int(r.integers(-k * nu, k * nu + 1)), int(r.integers(-k * nv, k * nv + 1))
    grid, sub, prev = arr(r, (nu, nv), p["prec"]), arr(r, (su, sv), p["prec"]), arr(r, (su, sv), p["prec"])
    g = Guard()
    cg, cs = g.inp(grid, layout=p["lg"]), g.out(prev, layout=p["ls"])
    if p["api"] == "py":
        subgrid_cut_out(cg, ou, ov, cs)
    else:
        ccall_ok("sdp_gridder_subgrid_cut_out", cg, CI(ou), CI(ov), cs)
    iu = (np.arange(su) + nu // 2 - su // 2 + ou) % nu
    iv = (np.arange(sv) + nv // 2 - sv // 2 + ov) % nv
    same("cut-out", cs, grid[np.ix_(iu, iv)])
    # addition uses the opposite sign of the offset
    cg2, cs2 = g.out(grid, layout=p["lg"]), g.inp(sub, layout=p["ls"])
    if p["api"] == "py":
        subgrid_add(cg2, ou, ov, cs2, p["factor"])
    else:
        ccall_ok("sdp_gridder_subgrid_add", cg2, CI(ou), CI(ov), cs2, CD(p["factor"]))
    iu2 = (np.arange(su) + nu // 2 - su // 2 - ou) % nu
    iv2 = (np.arange(sv) + nv // 2 - sv // 2 - ov) % nv
    inc = np.zeros((nu, nv), "c16")
    mag = np.zeros((nu, nv))
    np.add.at(inc, np.ix_(iu2, iv2), sub.astype("c16") * p["factor"])
    np.add.at(mag, np.ix_(iu2, iv2), np.abs(sub) * abs(p["factor"]))
    cnt = (su // nu + 2) * (sv // nv + 2)
    want = grid + (inc if p["prec"][0] == "c" else inc.real)
    close("addition", cg2, want, atol=EPS[p["prec"]] * (2 + cnt) * (np.abs(grid) + mag))
    untouched = np.ones((nu, nv), bool)
    untouched[np.ix_(iu2, iv2)] = False
    same("grid outside the sub-grid", cg2[untouched], grid[untouched])
    # adjoint: <cut(G; -o), S> == <G, add(S; o)>
    cs3 = g.out(prev, layout=p["ls"])
    ccall_ok("sdp_gridder_subgrid_cut_out", cg, CI(-ou), CI(-ov), cs3)
    cg3 = g.out(np.zeros((nu, nv)), p["prec"], layout=p["lg"])
    ccall_ok("sdp_gridder_subgrid_add", cg3, CI(ou), CI(ov), cs2, CD(1.0))
    g.check()
    lhs = (cs3.astype("c16").conj() * sub).sum()
    rhs = (grid.astype("c16").conj() * cg3).sum()
    lim = EPS[p["prec"]] * 30 * (1 + np.abs(cs3) * np.abs(sub)).sum() * (cnt + 1)
    require(abs(lhs - rhs) <= lim, f"cut-out is not the adjoint of addition: {lhs} vs {rhs}")
    wrap = (iu[0] > iu[-1]) or (iv[0] > iv[-1]) or su > nu or sv > nv
    return [p["prec"], "wrap" if wrap else "nowrap!"]


@subcheck("P19", "flmn", fd(
    n=size(1, 12, 5, rare=100), m=size(1, 12, 5, rare=100), types=st.integers(0, 4), taper=st.booleans(),
    flux=st.booleans(), sparse=choice(0.0, 0.5, 0.9, 1.0), shear=st.booleans(),
    theta=st.floats(0.01, 0.9), li=layouts, ll=layouts, seed=seeds),
    quick=2500, thorough=40000,
    rule="images of every shape (square when tapered), five type combinations, with and without "
         "flux output and taper; count of non-zero pixels; order of sources; n tested on the unit "
         "sphere; non-trivial: some but not all pixels non-zero")
def flmn(p):
    r = rng(p["seed"])
    n, m = p["n"], p["n"] if p["taper"] else p["m"]
    ti, td = [("f8", "f8"), ("f4", "f4"), ("c16", "f8"), ("c8", "f4"), ("c8", "f8")][p["types"]]
    img = arr(r, (n, m), ti)
    img[r.random((n, m)) < p["sparse"]] = 0
    if ti[0] == "c":
        k = r.random((n, m)) < 0.2
        img[k] = 1j * img[k].imag     # purely imaginary pixels are still non-zero
    theta = float(p["theta"])
    hu, hv = (float(x) for x in (r.uniform(-0.4, 0.4, 2) if p["shear"] else (0, 0)))
    nz = np.argwhere(img != 0)
    g = Guard()
    ci = g.inp(img, layout=p["li"])
    cnt = ccall_ok("sdp_gridder_count_nonzero_pixels", ci, restype=ctypes.c_int64)
    require(cnt == len(nz), f"{cnt} non-zero pixels counted, expected {len(nz)} (shape {img.shape})")
    if p["flux"] and len(nz) == 0:
        return ["empty!"]
    tp = r.uniform(0.2, 1, n)
    ct = g.inp(tp) if p["taper"] else None
    idx = nz if p["flux"] else np.argwhere(np.ones((n, m), bool))
    cl = g.out(np.full((len(idx), 3), 7), td, layout=p["ll"])
    cf = g.out(np.full(len(idx), 7), "f8") if p["flux"] else None
    ccall_ok("sdp_gridder_image_to_flmn", ci, CD(theta), CD(hu), CD(hv),
             CMem(ct) if ct is not None else None, CMem(cf) if cf is not None else None, cl)
    g.check()
    l, mm = (idx[:, 0] - n // 2) * theta / n, (idx[:, 1] - m // 2) * theta / m
    e = EPS[td]
    close("l", cl[:, 0], l, atol=1e-300, rtol=2 * e)
    close("m", cl[:, 1], mm, atol=1e-300, rtol=2 * e)
    nn = lm_to_n(l, mm, hu, hv)
    close("n", cl[:, 2], nn, atol=2e-15, rtol=2 * e)
    x = cl.astype("f8")
    sph = (x[:, 0] - hu * x[:, 2]) ** 2 + (x[:, 1] - hv * x[:, 2]) ** 2 + (x[:, 2] + 1) ** 2
    close("direction on the unit sphere", sph, np.ones(len(idx)), atol=8e-15 + 8 * e)
    if p["flux"]:
        f = img[idx[:, 0], idx[:, 1]].real.astype("f8")
        if p["taper"]:
            f = f * (tp[idx[:, 0]] * tp[idx[:, 1]])
        close("flux", cf, f, rtol=4.6e-16)
    part = 0 < len(nz) < n * m
    return [ti + td, "flux" if p["flux"] else "coords", "partial" if part else "all!"]


def _chs(p, r, n, nc):
    if not p["chs"]:
        return None, None, np.ones((n, nc), bool)
    s = r.integers(0, nc + 1, n).astype("i4")
    e = np.minimum(nc, s + r.integers(0, nc + 1, n)).astype("i4")
    c = np.arange(nc)
    return s, e, (c >= s[:, None]) & (c < e[:, None])


@subcheck("P19", "dft", fd(
    n=size(1, 8, 4, rare=60), nc=size(1, 6, 3, rare=50), ns=size(1, 10, 4, rare=80), size=size(1, 5, 3), f32=st.booleans(),
    chs=st.booleans(), taper=st.booleans(), off=st.booleans(), zero_theta=choice(False, False, True),
    seed=seeds), quick=3000, thorough=40000,
    rule="forward and inverse direct transforms with per-row channel ranges (or none), sub-grid "
         "offsets, taper, both precisions, accumulation onto previous contents, and their adjoint "
         "relation; non-trivial: some visibility selected")
def dft(p):
    r = rng(p["seed"])
    n, nc = p["n"], p["nc"]
    td, tv = ("f4", "c8") if p["f32"] else ("f8", "c16")
    e = EPS[td]
    theta = 0.0 if p["zero_theta"] else float(r.uniform(0.01, 0.3))
    ws = float(r.uniform(1, 50))
    ou, ov, ow = (int(x) for x in (r.integers(-20, 21, 3) if p["off"] else (0, 0, 0)))
    f0, df = float(r.uniform(1e8, 2e8)), float(r.choice([0, 1e5, 1e7, -1e6]))
    uvw = r.uniform(-60, 60, (n, 3)).astype(td)
    s, en, sel = _chs(p, r, n, nc)
    g = Guard()
    cu = g.inp(uvw)
    ms, me = (None, None) if s is None else (CMem(g.inp(s)), CMem(g.inp(en)))
    inv = (f0 + df * np.arange(nc)) / C_0
    o = np.array([ou / theta, ov / theta, ow * ws]) if theta > 0 else np.zeros(3)
    q = uvw.astype("f8")[:, None, :] * inv[None, :, None] - o     # [n,nc,3]
    sh = [CI(ou), CI(ov), CI(ow), CD(theta), CD(ws), CD(f0), CD(df)]

    # forward
    lmn = r.uniform(-0.1, 0.1, (p["ns"], 3)).astype(td)
    flux = arr(r, p["ns"], "f8")
    vis0 = arr(r, (n, nc), tv)
    cv = g.out(vis0)
    ccall_ok("sdp_gridder_dft", cu, ms, me, g.inp(flux), g.inp(lmn), *sh, cv)
    ph = -2 * np.pi * (q @ lmn.astype("f8").T)
    ref = (flux * np.exp(1j * ph)).sum(-1) * sel
    amax = 2 * np.pi * (np.abs(q).sum(-1) * 0.1 + (np.abs(o).sum() + 1) * 0.1) * 1e-15
    tol = (4 * e * (np.abs(flux).sum() * (1 + p["ns"] * 0.5) + np.abs(vis0)) + amax * np.abs(flux).sum())
    close("forward transform", cv, vis0 + ref, atol=tol)
    same("visibilities outside the channel ranges", cv[~sel], vis0[~sel])

    # inverse
    k = p["size"]
    lmn2 = r.uniform(-0.1, 0.1, (k * k, 3)).astype(td)
    tp = r.uniform(0.2, 1, k)
    vis = arr(r, (n, nc), tv)
    vis[~sel] = 1e3     # must not be seen
    img0 = arr(r, (k, k), tv)
    ci = g.out(img0)
    ccall_ok("sdp_gridder_idft", cu, g.inp(vis), ms, me, g.inp(lmn2),
             CMem(g.inp(tp)) if p["taper"] else None, *sh, ci)
    g.check()
    ph = 2 * np.pi * np.tensordot(lmn2.astype("f8"), q, (1, 2))
    v = vis.astype("c16") * sel
    ref = (v * np.exp(1j * ph)).sum((1, 2)).reshape(k, k)
    if p["taper"]:
        ref = ref * tp[:, None] * tp[None, :]
    tot = np.abs(v).sum()
    close("inverse transform", ci, img0 + ref,
          atol=4 * e * (tot * (1 + 0.5 * n * nc) + np.abs(img0)) + amax.max() * tot)
    return [td, "ranges" if p["chs"] else "all", "none!" if not sel.any() else "some"]
