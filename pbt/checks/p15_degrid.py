"""P15: degridding predicts the visibilities of the sky image."""
import numpy as np
from hypothesis import strategies as st

from .. import wtower_ref as W
from ..core import CMem, Guard, Violation, close, require, rng, same, subcheck
from ..gen import choice, fd, fl, seeds, size
from ..oracles import pswf_tol

C_0 = W.C_0
TYPES = {"dd": ("c16", "f8", "c16"), "fd": ("c8", "f8", "c8"), "ff": ("c8", "f4", "c8")}

geometry = dict(
    sg=choice(8, 10, 16, 24, 32), theta=fl(0.02, 0.3), cov=fl(0.3, 0.95),
    support=choice(4, 2, 6, 8, 3, 5), os=choice(16, 1, 7, 64, 1024),
    ws=choice(4, 2, 6, 1, 3, 8), wos=choice(16, 1, 9, 64, 4096),
    hu=choice(0.0, 0.0, 0.15, -0.2), hv=choice(0.0, 0.0, 0.11),
    ou=choice(0, 0, 3, -40, 257), ov=choice(0, 0, -7, 33, -301), ow=choice(0, 0, 2, -5, 2, 30),
    rows=size(1, 14, 5, rare=120), chans=size(1, 9, 3, rare=70), dfreq=choice(0.0, 1e-3, 1e-2, 0.1, -1e-2), wspan=fl(0, 4),
    spread=choice(0.4, 0.8, 1.3), types=choice("dd", "dd", "fd", "ff"), chmode=st.integers(0, 3),
    rowmode=st.integers(0, 3), onplane=choice(False, False, True),
    prior=choice(0, 0, 1, 3), seed=seeds)


def earlier_calls(k, n, theta, wstep, size, seed, count):
    """Unrelated calls of a gridder plan: other data, offsets, precisions and row windows."""
    r = rng(seed + 77)
    for _ in range(count):
        dt_i, dt_u, dt_v = TYPES[("dd", "fd", "ff")[int(r.integers(3))]]
        if not hasattr(k, "degrid") and dt_i != "c16":   # the exact gridder: one precision
            dt_i, dt_u, dt_v = TYPES["ff"]
        nr, nc = (int(x) for x in r.integers(1, 6, 2))
        off = tuple(int(x) for x in r.integers(-9, 10, 3))
        uvw = (np.array([off[0] / theta, off[1] / theta, off[2] * wstep]) + r.uniform(-1, 1, (nr, 3))
               * [n / theta / 3, n / theta / 3, 2 * wstep + 1e-3]) * 3
        im = (r.standard_normal((n, n)) + 1j * r.standard_normal((n, n))).astype(dt_i)
        vis = (r.standard_normal((nr, nc)) + 1j).astype(dt_v)
        lo, hi = np.zeros(nr, "i4"), np.full(nr, nc, "i4")
        win = () if not hasattr(k, "degrid") or r.random() < 0.6 else (
            0, int(r.integers(0, nr + 1)))
        what = r.integers(4)
        if what == 0:
            k.degrid_subgrid(im, off, nc, 1e8, 1e5, uvw.astype(dt_u), lo, hi, vis, *win)
        elif what == 1:
            k.grid_subgrid(vis, uvw.astype(dt_u), lo, hi, nc, 1e8, 1e5, im, off, *win)
        else:
            m = int(r.integers(1, size + 1))
            a, b = (int(x) for x in r.integers(m // 2 - size // 2, (size - m) // 2 + 1, 2))
            facet = np.ones((m, m), dt_i)
            (k.degrid_correct, k.grid_correct)[what - 2](facet, a, b, off[2])

class Case:
    """A gridder plan with visibilities placed around one sub-grid."""

    def __init__(self, p):
        from ska_sdp_func.grid_data import GridderWtowerUVW, determine_w_step
        r = self.r = rng(p["seed"])
        self.sg = p["sg"]
        self.sup = min(p["support"], self.sg)
        self.theta = p["theta"]
        self.wstep = determine_w_step(self.theta, self.theta * p["cov"], p["hu"], p["hv"])
        a = (2 * self.sg, self.sg, self.theta, self.wstep, p["hu"], p["hv"], self.sup, p["os"],
             p["ws"], p["wos"])
        self.kernel, self.ref = GridderWtowerUVW(*a), W.Ref(*a)
        earlier_calls(self.kernel, self.sg, self.theta, self.wstep, 2 * self.sg, p["seed"],
                      p.get("prior", 0))
        self.off = (p["ou"], p["ov"], p["ow"])
        self.nr, self.nc = p["rows"], p["chans"]
        self.f0 = 1e8 * r.uniform(0.5, 3)
        self.df = self.f0 * p["dfreq"]
        self.dfe = self.df or 10
        dt_i, dt_u, dt_v = self.types = TYPES[p["types"]]
        half = (self.sg / 2 - self.sup / 2) / self.theta
        uvl = np.empty((self.nr, 3))
        uvl[:, :2] = (np.array(self.off[:2]) / self.theta
                      + r.uniform(-1, 1, (self.nr, 2)) * half * p["spread"])
        uvl[:, 2] = (self.off[2] + r.uniform(-1, 1, self.nr) * p["wspan"]) * self.wstep
        if p["onplane"]:  # just beside a w-plane
            k = r.random(self.nr) < 0.6
            near = np.round(uvl[:, 2] / self.wstep) + r.choice([-1, 1], self.nr) * 10.0 ** (
                -r.uniform(2, 9, self.nr))
            uvl[k, 2] = near[k] * self.wstep
        self.uvw = (uvl * C_0 / (self.f0 + self.dfe * r.integers(0, self.nc))).astype(dt_u)
        if r.random() < 0.2:
            self.uvw[r.random(self.uvw.shape) < 0.2] = 0
        lo = np.zeros(self.nr, "i4")
        hi = np.full(self.nr, self.nc, "i4")
        if p["chmode"] == 1:
            lo = r.integers(0, self.nc, self.nr).astype("i4")
            hi = np.minimum(self.nc, lo + r.integers(0, self.nc + 1, self.nr)).astype("i4")
        elif p["chmode"] == 2:
            k = r.random(self.nr) < 0.5
            lo[k] = self.nc
            hi[k] = r.integers(0, self.nc + 1, k.sum())
        elif p["chmode"] == 3 and r.random() < 0.4:
            hi[:] = 0
        self.lo, self.hi = lo, hi
        self.win = (-1, -1)
        rows = (0, self.nr)
        if p["rowmode"] == 1:
            rows = self.win = tuple(int(x) for x in np.sort(r.integers(0, self.nr + 1, 2)))
        elif p["rowmode"] == 2:
            self.win = (int(r.integers(-3, self.nr)), -1) if r.random() < 0.5 else (-1, 0)
        sel = np.zeros((self.nr, self.nc), bool)
        for i in range(*rows):
            sel[i, lo[i]:hi[i]] = True
        # local coordinates in wavelengths, as doubles
        inv = (self.f0 + self.dfe * np.arange(self.nc)) / C_0
        u = self.uvw.astype("f8")
        x = u[:, None, :] * inv[None, :, None]
        self.global_w = x[..., 2] / self.wstep
        x = x - np.array([self.off[0] / self.theta, self.off[1] / self.theta,
                          self.off[2] * self.wstep])
        x[..., 2] = self.global_w - self.off[2]
        self.pts = x
        # positions where rounding decides which kernel row or w-plane is meant are not judged
        q = np.stack([x[..., 0] * self.theta * p["os"], x[..., 1] * self.theta * p["os"]], -1)
        amb = (np.abs(np.abs(q - np.floor(q)) - 0.5) < 1e-6).any(-1)
        wq = self.global_w
        qq = (wq - np.floor(wq)) * p["wos"]
        amb |= np.abs(np.abs(qq - np.floor(qq)) - 0.5) < 1e-6 * max(1, np.abs(self.off[2]))
        plane = np.floor(wq)
        nearpl = np.abs(wq - np.round(wq)) < 1e-10 * max(1, np.abs(self.off[2]))
        amb |= nearpl & (wq != 0)
        inside = np.zeros_like(sel)
        for i, c in np.argwhere(sel):
            iu, ku, iv, kv, iw, kw = self.ref.pieces(*x[i, c])
            inside[i, c] = self.ref.inside(iu, iv)
        # a group of channels on one w-plane is processed only if all of it is inside
        full = inside.copy()
        for i in range(self.nr):
            for pl in np.unique(plane[i]):
                g = sel[i] & (plane[i] == pl)
                if g.any() and not inside[i][g].all():
                    full[i][g] = False
        # neighbours of an ambiguous plane edge may be grouped either way
        for i in range(self.nr):
            if amb[i][sel[i]].any() and not inside[i][sel[i]].all():
                amb[i] |= sel[i]
        self.sel, self.inside, self.full, self.amb = sel, inside, full, amb
        # points using the last row of the w-kernel: see known/p15_last_row.json
        self.last = np.vectorize(self.ref.w_row, otypes=[int])(x[..., 2]) == p["wos"]
        self.must = sel & full & ~amb       # contribution decided exactly
        self.never = ~sel | (~inside & ~amb)  # no contribution
        w = self.global_w[sel]
        self.planes = (w.max() - w.min() + np.abs(w).max() if w.size else 0) + p["ws"] + 2
        self.eps = {"c16": 3e-16, "c8": 2.4e-7}[dt_v]
        self.labels = [p["types"], "shear" if p["hu"] or p["hv"] else "flat",
                       "none!" if not self.must.any() else "vis",
                       "offset" if any(self.off) else "centre"]

    def scale(self, i, c):
        _, ku, _, kv, _, kw = self.ref.pieces(*self.pts[i, c])
        return np.abs(ku).sum() * np.abs(kv).sum() * np.abs(kw).sum()

    def wrapped(self):
        self.ref.wrap = True
        return self.ref

    def tol(self):
        """Rounding of the repeated w-pattern products, of the pattern's phase and of the windows."""
        phase = 2 * np.pi * abs(self.wstep) * 3e-15 * self.planes
        win = 4 * (pswf_tol(self.sup * np.pi / 2) + pswf_tol(self.ref.w_support * np.pi / 2))
        return 40 * self.eps * (1 + self.planes) + phase + win

    def image(self):
        dt = self.types[0]
        im = self.r.standard_normal((self.sg, self.sg)) + 1j * self.r.standard_normal(
            (self.sg, self.sg))
        return im.astype(dt)


@subcheck("P15", "degrid", fd(layout=choice("C", "C", "F", "S2"), **geometry), quick=2500,
          thorough=40000,
          rule="visibilities from a random complex sub-grid image against a numpy evaluation of "
               "the separable kernel sum over w-planes: sub-grid offsets, shears, precisions, "
               "channel ranges, row windows, visibilities beside w-planes and beyond the "
               "sub-grid; non-trivial: some visibility is predicted")
def degrid(p, strict=False):
    c = Case(p)
    g = Guard()
    im = c.image()
    v0 = (c.r.standard_normal((c.nr, c.nc)) + 1j * c.r.standard_normal((c.nr, c.nc)))
    vis = g.out(v0.astype(c.types[2]), layout=p["layout"] if c.nr > 1 and c.nc > 1 else "C")
    before = vis.copy()
    c.kernel.degrid(g.inp(im), *c.off, c.f0, c.df, g.inp(c.uvw), g.inp(c.lo), g.inp(c.hi), vis,
                    *c.win)
    g.check()
    same("visibilities outside the selection or the sub-grid",
         np.where(c.never, vis, 0), np.where(c.never, before, 0))
    todo = np.argwhere(c.must)
    want = c.ref.degrid(im.astype("c16"), [c.pts[i, k] for i, k in todo])
    tot = np.abs(im).sum() + 1
    near = [(i, k) for i, k in todo if c.last[i, k] and not strict]
    alt = dict(zip(near, c.wrapped().degrid(im.astype("c16"), [c.pts[q] for q in near])))
    for (i, k), z in zip(todo, want):
        if (i, k) in alt and abs(vis[i, k] - before[i, k] - alt[i, k]) < abs(
                vis[i, k] - before[i, k] - z):
            z = alt[i, k]
        close(f"visibility [{i},{k}]", vis[i, k], before[i, k] + z,
              atol=c.tol() * (tot * c.scale(i, k) + abs(before[i, k])))
    return c.labels


@subcheck("P15", "last_row", None, quick=0, thorough=0, asan=False, leak=False,
          rule="replay only: P15.degrid that does not allow the kernel of the wrong w-plane just "
               "below a w-plane")
def last_row(p):
    return degrid(p, strict=True)


@subcheck("P15", "direct", fd(
    sg=size(2, 20, 9, rare=48), theta=fl(0.02, 0.5), support=choice(4, 1, 8, 10), wstep=fl(0, 60),
    hu=choice(0.0, 0.1), hv=choice(0.0, -0.12), ou=st.integers(-50, 50), ov=st.integers(-50, 50),
    ow=st.integers(-6, 6), rows=size(1, 8, 3, rare=60), chans=size(1, 6, 3, rare=40), prec=choice("d", "d", "f"),
    cplx=st.booleans(), sparse=st.booleans(), wmag=choice(0.0, 100.0, 3000.0),
    chmode=st.integers(0, 2), df=choice(1e3, 1e6, 3e7), layout=choice("C", "F"),
    prior=choice(0, 0, 1, 3), seed=seeds),
    quick=1500, thorough=25000,
    rule="exact gridder: visibilities equal the tapered Fourier sum over the non-zero pixels of "
         "real and complex sub-grid images; non-trivial: some visibility and pixel selected")
def direct(p):
    from ska_sdp_func.grid_data import GridderDirect
    r = rng(p["seed"])
    n, th = p["sg"], p["theta"]
    rd, cd = ("f8", "c16") if p["prec"] == "d" else ("f4", "c8")
    cplx = p["cplx"]
    im = r.standard_normal((n, n)) + (1j * r.standard_normal((n, n)) if cplx else 0)
    if p["sparse"]:
        im = im * (r.random((n, n)) < 0.2)
    im = im.astype(cd if cplx else rd)
    nr, nc = p["rows"], p["chans"]
    f0 = 1e8
    uvw = r.uniform(-1, 1, (nr, 3)) * [n / th, n / th, p["wmag"] + 1e-3] * C_0 / f0
    uvw = uvw.astype(rd)
    lo, hi = np.zeros(nr, "i4"), np.full(nr, nc, "i4")
    if p["chmode"]:
        lo = r.integers(0, nc, nr).astype("i4")
        hi = r.integers(0, nc + 1, nr).astype("i4")
    v0 = (r.standard_normal((nr, nc)) + 1j * r.standard_normal((nr, nc))).astype(cd)
    g = Guard()
    vis = g.out(v0, layout=p["layout"])
    k = GridderDirect(2 * n, n, th, p["wstep"], p["hu"], p["hv"], p["support"])
    earlier_calls(k, n, th, p["wstep"], 2 * n, p["seed"], p.get("prior", 0))
    k.degrid_subgrid(g.inp(im), (p["ou"], p["ov"], p["ow"]), nc, f0, p["df"], g.inp(uvw),
                     g.inp(lo), g.inp(hi), vis)
    g.check()
    tap = W.pswf_window(p["support"] * np.pi / 2, n, 1e-15)
    full = im.astype("c16") * tap[:, None] * tap[None, :]
    l = np.broadcast_to(W.coords(n, th)[:, None], (n, n)).astype(rd).astype("f8")
    m = np.broadcast_to(W.coords(n, th)[None, :], (n, n)).astype(rd).astype("f8")
    nn = W.n_map((n, n), th, p["hu"], p["hv"], n)
    sel = (np.arange(nc) >= lo[:, None]) & (np.arange(nc) < hi[:, None])
    x = uvw.astype("f8")[:, None, :] * ((f0 + p["df"] * np.arange(nc)) / C_0)[None, :, None]
    x = x - [p["ou"] / th, p["ov"] / th, p["ow"] * p["wstep"]]
    want = v0.astype("c16")
    eps = {"d": 1e-15, "f": 1.2e-7}[p["prec"]] + 2 * pswf_tol(p["support"] * np.pi / 2)
    for i, c in np.argwhere(sel):
        u, v, w = x[i, c]
        want[i, c] += (full * np.exp(-2j * np.pi * (u * l + v * m + w * nn))).sum()
    mag = np.abs(x).max() + 1
    ph = 10 * (mag * {"d": 1e-16, "f": 1.2e-7 * np.abs(nn).max()}[p["prec"]])
    close("visibilities", vis, want,
          atol=((4 * n * n) ** 0.5 * eps + 3 * eps + ph) * (np.abs(full).sum() + np.abs(v0)))
    none = not sel.any() or not full.any()
    return [p["prec"], "complex" if cplx else "real", "none!" if none else "vis",
            "odd" if n % 2 else "even"]


@subcheck("P15", "sky", fd(
    n=choice(64, 96, 128), sg=choice(32, 48, 64), theta=fl(0.03, 0.25), cov=fl(0.3, 0.6),
    hu=choice(0.0, 0.0, 0.1, -0.12), hv=choice(0.0, 0.08), nsrc=st.integers(1, 5),
    ou=st.integers(-1, 1), ov=st.integers(-1, 1), ow=choice(0, 0, 3, -4), woff=st.booleans(),
    rows=size(1, 12, 5, rare=60), chans=st.integers(1, 4), dfreq=choice(1e-3, 1e-2), wspan=fl(0, 3),
    kind=choice("wtower", "wtower", "direct"), ret=st.booleans(), seed=seeds), quick=1500, thorough=20000,
    rule="end to end: sources on image pixels, corrected image, Fourier transform, sub-grid cut "
         "out at an offset, degridded and compared with the direct Fourier sum over the sources "
         "to the accuracy of an 8-to-10-wide kernel; non-trivial: at least one visibility")
def sky(p):
    from ska_sdp_func.grid_data import GridderDirect, GridderWtowerUVW, determine_w_step
    r = rng(p["seed"])
    n, sg, th = p["n"], min(p["sg"], p["n"]), p["theta"]
    fov = th * p["cov"]
    ws = determine_w_step(th, fov, p["hu"], p["hv"])
    a = (n, sg, th, ws, p["hu"], p["hv"], 8)
    k = (GridderWtowerUVW(*a, 16384, 8, 16384) if p["kind"] == "wtower" else GridderDirect(*a))
    e = int(fov / 2 / th * n)
    im = np.zeros((n, n), complex)
    src = []
    for _ in range(p["nsrc"]):
        i, j = (int(v) for v in r.integers(-e, e + 1, 2))
        f = r.standard_normal()
        im[n // 2 + i, n // 2 + j] += f
        l, m = i * th / n, j * th / n
        src.append((f, l, m, W.lm_to_n(l, m, p["hu"], p["hv"])))
    # the w-offset may be applied to the image instead of the sub-grid
    ow = p["ow"] if p["woff"] else 0
    wo = ow
    k.degrid_correct(im, 0, 0, wo)
    lim = (n - sg) // 2
    ou, ov = (int(o * r.integers(0, lim + 1)) for o in (p["ou"], p["ov"]))
    full = W.fft2(im)
    o = n // 2 - sg // 2
    cut = np.ascontiguousarray(W.ifft2(full[o + ou:o + ou + sg, o + ov:o + ov + sg]))
    f0 = 1e8
    df = f0 * p["dfreq"]
    nr, nc = p["rows"], p["chans"]
    half = sg / 2 * 0.45 / th
    x = np.empty((nr, 3))
    x[:, :2] = np.array([ou, ov]) / th + r.uniform(-1, 1, (nr, 2)) * half
    # (a small sub-grid has no room for the footprint of a high w-tower)
    x[:, 2] = (ow + r.uniform(-1, 1, nr) * p["wspan"] * (0.4 if sg == 32 else 1)) * ws
    uvw = x * C_0 / f0
    g = Guard()
    vis = g.out(np.zeros((nr, nc)), "c16")
    args = (g.inp(cut), (ou, ov, wo), nc, f0, df, g.inp(uvw), g.inp(np.zeros(nr, "i4")),
            g.inp(np.full(nr, nc, "i4")))
    if p["ret"]:
        vis = k.degrid_subgrid(*args)
    else:
        k.degrid_subgrid(*args, vis)
    g.check()
    x = uvw[:, None, :] * ((f0 + df * np.arange(nc)) / C_0)[None, :, None]
    want = sum(f * np.exp(-2j * np.pi * (x @ [l, m, nn])) for f, l, m, nn in src)
    lo = np.abs(x[..., 0] - ou / th) < half * 1.02
    hi = np.abs(x[..., 1] - ov / th) < half * 1.02
    ok = lo & hi & ~W.last_row(x[..., 2] / ws, 16384)
    tot = sum(abs(s[0]) for s in src)
    tol = {"wtower": 8e-4, "direct": 2e-4}[p["kind"]]
    close("predicted visibilities", np.where(ok, vis, 0), np.where(ok, want, 0), atol=tol * tot)
    return [p["kind"], "offset" if ou or ov else "centre", "w" if ow else "w0",
            "none!" if not ok.any() or tot == 0 else "vis"]
