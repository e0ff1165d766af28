"""P17: whole-image w-stacking prediction and imaging match the Fourier sums."""
import numpy as np
from hypothesis import strategies as st

from .. import wtower_ref as W
from ..core import Guard, close, require, rng, same, set_threads, subcheck
from ..gen import choice, fd, fl, seeds, size

C_0 = W.C_0
TYPES = {"dd": ("f8", "c16"), "fd": ("f8", "c8"), "ff": ("f4", "c8")}

common = dict(
    n=choice(64, 80, 96, 128), sg=choice(32, 40, 48, 64), theta=fl(0.03, 0.25),
    cov=fl(0.3, 0.6), hu=choice(0.0, 0.0, 0.1, -0.12), hv=choice(0.0, 0.08),
    height=choice(1.0, 2.0, 4.0, 3.0, 0.5, 2.5, 6.0), frac=choice(0.5, 0.33, 0.0, 0.25, 0.6),
    wspan=fl(0, 6), many=choice(0, 0, 0, 0, 1), rows=size(1, 40, 8), chans=st.integers(1, 8),
    dfreq=choice(1e-3, 1e-2, 0.0, 0.1, -1e-2), edge=choice(0.0, 0.3), types=choice("dd", "dd", "fd", "ff"),
    threads=choice(1, 2, 3, 4, 5, 0), omp=choice(1, 1, 1, 1, 3), spread=choice(0.5, 0.2, 0.9), seed=seeds)


class Case:
    def __init__(self, p, big=True):
        from ska_sdp_func.grid_data import determine_w_step
        r = self.r = rng(p["seed"])
        set_threads(p["omp"])  # threads of inner loops, when the outer loop has only one
        big &= p["omp"] == 1
        self.n, self.sg, self.theta = p["n"], min(p["sg"], p["n"]), p["theta"]
        self.hu, self.hv = p["hu"], p["hv"]
        self.fov = self.theta * p["cov"]
        self.ws = determine_w_step(self.theta, self.fov, self.hu, self.hv)
        self.height, self.frac = p["height"], p["frac"]
        # room in the sub-grid for the kernel and for the spread of the w-tower's chirp
        e = max(1, int(self.fov / 2 / self.theta * self.n))
        self.e = e
        l = np.arange(-e, e + 1) * self.theta / self.n
        nn = W.lm_to_n(l[:, None], l[None, :], self.hu, self.hv)
        gr = max(np.abs(np.diff(nn, axis=0)).max(), np.abs(np.diff(nn, axis=1)).max())
        self.slope = gr / (self.theta / self.n) * self.ws * self.theta  # pixels per w-step
        while not self.fits(self.height, self.frac, self.sg):
            if self.height > 1:
                self.height = max(1.0, self.height - 1.5)
            elif not 0 < self.frac <= 0.25:
                self.frac = 0.25
            elif self.sg < 64:
                self.sg, self.height = 64, p["height"]
            else:
                self.height, self.frac = 1.0, 0.2
                break
        self.nc = p["chans"]
        many = p["many"] and big
        self.nr = p["rows"] if not many else int(r.integers(300, 1400))
        self.f0 = 1e8 * r.uniform(0.5, 2)
        self.df = self.f0 * p["dfreq"] / max(1, self.nc - 1)
        self.dt_u, self.dt_v = TYPES[p["types"]]
        x = np.empty((self.nr, 3))
        x[:, :2] = r.uniform(-1, 1, (self.nr, 2)) * (self.n / 2 * p["spread"]) / self.theta
        if many and r.random() < 0.7:  # most of them in one sub-grid, so that it is divided
            k = r.random(self.nr) < r.uniform(0.5, 1)
            x[k, :2] *= 0.1
        x[:, 2] = r.uniform(-1, 1, self.nr) * p["wspan"] * self.ws
        # some coordinates exactly where sub-grids and w-planes meet, or zero
        d = int(self.sg * (self.frac or 2 / 3)) / self.theta
        for ax, dist in ((0, d), (1, d), (2, self.height * self.ws)):
            k = r.random(self.nr) < p["edge"]
            x[k, ax] = np.floor(x[k, ax] / dist) * dist + dist / 2
            if ax == 2 and r.random() < 0.7:  # (just beside, so that accuracy can be judged)
                x[k, ax] += r.choice([-1, 1], k.sum()) * 10.0 ** r.uniform(-3.5, -1, k.sum()) * self.ws
            k = r.random(self.nr) < p["edge"] / 5
            x[k, ax] = 0
        self.uvw = (x * C_0 / self.f0).astype(self.dt_u)
        self.pts = self.uvw.astype("f8")[:, None, :] * (
            (self.f0 + self.df * np.arange(self.nc)) / C_0)[None, :, None]
        self.clear = ~W.last_row(self.pts[..., 2] / self.ws, 16384)
        if p["types"] == "ff":
            f = self.pts[..., 2] / self.ws
            f = f - np.floor(f)
            self.clear &= (f > 1e-5) & (f < 1 - 1e-4)
        self.threads = p["threads"]
        self.single = p["types"] != "dd"
        self.labels = [p["types"], "many" if self.nr > 40 else "few",
                       "threads" if self.threads != 1 else "serial"]

    def fits(self, height, frac, sg):
        margin = sg * (1 - (frac or 2 / 3)) / 2 - 4
        return (height / 2 + 4) * self.slope <= margin - 1

    def sources(self, num):
        ij = self.r.integers(-self.e, self.e + 1, (num, 2))
        flux = self.r.standard_normal(num)
        l, m = (ij * self.theta / self.n).T
        return ij, flux, l, m, W.lm_to_n(l, m, self.hu, self.hv)

    def args(self):
        return (self.f0, self.df)

    def pars(self, **kw):
        a = dict(sg=self.sg, frac=self.frac, height=self.height)
        a.update(kw)
        return (a["sg"], self.theta, self.ws, self.hu, self.hv, 8, 16384, 8, 16384, a["frac"],
                a["height"], 0)

    def degrid(self, image, vis, uvw=None, threads=None, **kw):
        from ska_sdp_func.grid_data import GridderWtowerUVW  # noqa: F401
        from ska_sdp_func.grid_data.grid_wstack_wtower import wstack_wtower_degrid_all
        wstack_wtower_degrid_all(image, *self.args(), self.uvw if uvw is None else uvw,
                                 *self.pars(**kw), vis, self.threads if threads is None else threads)

    def grid(self, vis, image, uvw=None, threads=None, **kw):
        from ska_sdp_func.grid_data.grid_wstack_wtower import wstack_wtower_grid_all
        wstack_wtower_grid_all(vis, *self.args(), self.uvw if uvw is None else uvw,
                               *self.pars(**kw), image, self.threads if threads is None else threads)

    def tol(self):
        """Accuracy of an 8-wide kernel (measured: about 3e-4 at worst), and of single precision
        coordinates and pixels."""
        w = np.abs(self.pts[..., 2]).max() / self.ws + 10
        return 8e-4 + (2e-6 * w if self.single else 0)


def noise(r, shape, dt):
    z = r.standard_normal(shape) + 1j * r.standard_normal(shape)
    return (z if np.dtype(dt).kind == "c" else z.real).astype(dt)


@subcheck("P17", "predict", fd(img=choice("same", "real", "real"), lv=choice("C", "F"),
                               li=choice("C", "F"), nsrc=st.integers(1, 4), **common),
          tsan=16, quick=400, thorough=6000,
          rule="whole-image prediction against the direct Fourier sum of a few sources on pixels "
               "to the accuracy of an 8-wide kernel, into an array that held other data: image and "
               "sub-grid sizes, fractions, tower heights, shears, threads, edges between "
               "sub-grids and w-planes; every case is non-trivial")
def predict(p):
    c = Case(p)
    ij, flux, l, m, nn = c.sources(p["nsrc"])
    dt = c.dt_v if p["img"] == "same" else {"c16": "f8", "c8": "f4"}[c.dt_v]
    im = np.zeros((c.n, c.n), dt)
    f = flux if p["img"] == "real" else flux * np.exp(1j * flux)
    for (i, j), z in zip(ij, f):
        im[c.n // 2 + i, c.n // 2 + j] += z
    g = Guard()
    vis = g.out(noise(c.r, (c.nr, c.nc), c.dt_v) * 100,
                layout=p["lv"] if min(c.nr, c.nc) > 1 else "C")
    c.degrid(g.inp(im, layout=p["li"]), vis, uvw=g.inp(c.uvw))
    g.check()
    want = sum(z * np.exp(-2j * np.pi * (c.pts @ [a, b, d]))
               for z, a, b, d in zip(f, l, m, nn))
    close("predicted visibilities", vis * c.clear, want * c.clear, atol=c.tol() * np.abs(f).sum())
    return c.labels


@subcheck("P17", "image", fd(img=choice("same", "real", "real"), li=choice("C", "F"), **common),
          tsan=8, quick=400, thorough=6000,
          rule="whole-image gridding against the direct inverse Fourier sum at every pixel inside "
               "the field of view, into an image that held other data; every case is non-trivial")
def image(p):
    c = Case(p)
    dt = c.dt_v if p["img"] == "same" else {"c16": "f8", "c8": "f4"}[c.dt_v]
    v = noise(c.r, (c.nr, c.nc), c.dt_v) * c.clear
    g = Guard()
    im = g.out(noise(c.r, (c.n, c.n), dt) * 100, layout=p["li"])
    c.grid(g.inp(v), im, uvw=g.inp(c.uvw))
    g.check()
    pix = c.r.integers(-c.e, c.e + 1, (60, 2))
    l, m = (pix * c.theta / c.n).T
    nn = W.lm_to_n(l, m, c.hu, c.hv)
    ph = np.tensordot(c.pts, np.array([l, m, nn]), 1)
    want = (v[..., None] * np.exp(2j * np.pi * ph)).sum((0, 1))
    got = im[c.n // 2 + pix[:, 0], c.n // 2 + pix[:, 1]]
    if p["img"] == "real":
        want = want.real
    close("dirty image", got, want, atol=c.tol() * np.abs(v).sum())
    return c.labels


def inner_tol(c):
    w = np.abs(c.pts[..., 2]).max() / c.ws + 20
    return (1e-6 if c.single else 3e-14) * 10 * w


@subcheck("P17", "adjoint", fd(frac2=choice(0.7, 0.9, 0.5), real=st.booleans(), **common),
          tsan=8, quick=150, thorough=3000,
          rule="inner-product identity between whole-image prediction and imaging, random images "
               "and visibilities, and linearity of both; every case is non-trivial")
def adjoint(p):
    c = Case(p)
    if p["frac2"] < 0.9 or c.sg * 0.1 / 2 >= 5:
        kw = dict(frac=p["frac2"])  # (accuracy is no concern here)
    else:
        kw = {}
    rd = {"c16": "f8", "c8": "f4"}[c.dt_v]
    dt = rd if p["real"] else c.dt_v
    x = np.zeros((c.n, c.n), dt)  # inside the field of view: the correction grows outside
    s = slice(c.n // 2 - c.e, c.n // 2 + c.e + 1)
    x[s, s] = noise(c.r, (2 * c.e + 1,) * 2, dt)
    y = noise(c.r, (c.nr, c.nc), c.dt_v)
    vis = np.full((c.nr, c.nc), np.nan, c.dt_v)
    c.degrid(x, vis, **kw)
    im = np.full((c.n, c.n), np.nan, dt)
    c.grid(y, im, **kw)
    lhs = np.vdot(y.astype("c16"), vis.astype("c16"))
    rhs = np.vdot(im.astype("c16"), x.astype("c16"))
    if p["real"]:
        lhs, rhs = lhs.real, rhs.real
    scale = np.linalg.norm(y) * np.linalg.norm(x) * (c.nr * c.nc) ** 0.5 * (2 * c.e + 1)
    require(abs(lhs - rhs) <= inner_tol(c) * scale,
            f"<y, degrid(x)> = {lhs}, <grid(y), x> = {rhs}, relative {abs(lhs - rhs) / scale:.3g}")
    y2 = noise(c.r, (c.nr, c.nc), c.dt_v)
    ims = []
    for v in (y2, (2 * y - 0.5 * y2).astype(c.dt_v)):
        b = np.full((c.n, c.n), np.nan, dt)
        c.grid(v, b, **kw)
        ims.append(b[s, s])
    close("linear imaging", ims[1], 2 * im[s, s] - 0.5 * ims[0],
          atol=inner_tol(c) * (np.abs(y).sum() * 2 + np.abs(y2).sum()))
    x2 = np.zeros_like(x)
    x2[s, s] = noise(c.r, (2 * c.e + 1,) * 2, dt)
    vs = []
    for b in (x2, (2 * x - 0.5 * x2).astype(dt)):
        v = np.full((c.nr, c.nc), np.nan, c.dt_v)
        c.degrid(b, v, **kw)
        vs.append(v)
    close("linear prediction", vs[1], 2 * vis - 0.5 * vs[0],
          atol=inner_tol(c) * (np.abs(x).sum() * 2 + np.abs(x2).sum()))
    return c.labels


@subcheck("P17", "division", fd(how=choice("threads", "split", "order", "params", "single"),
                                other=st.integers(1, 8), height2=choice(1.0, 2.0, 3.5),
                                frac2=choice(0.25, 0.4, 0.5), **common),
          tsan=8, quick=250, thorough=4000,
          rule="the same data with another number of threads, split into two calls, in another "
               "row order, one row alone (all to rounding), or another tower height, sub-grid "
               "size and fraction (to kernel accuracy); every case is non-trivial")
def division(p):
    c = Case(p)
    dt = c.dt_v
    ij, flux, *_ = c.sources(4)
    x = np.zeros((c.n, c.n), dt)
    x[c.n // 2 + ij[:, 0], c.n // 2 + ij[:, 1]] = flux
    y = noise(c.r, (c.nr, c.nc), dt)
    if p["how"] == "params":
        y *= c.clear
    sl = slice(c.n // 2 - c.e, c.n // 2 + c.e + 1)

    def both(uvw=c.uvw, y=y, threads=1, **kw):
        v = np.full((len(uvw), c.nc), np.nan, dt)
        im = np.full((c.n, c.n), np.nan, dt)
        c.degrid(x, v, uvw=uvw, threads=threads, **kw)
        c.grid(y, im, uvw=uvw, threads=threads, **kw)
        return v, im[sl, sl]
    v0, i0 = both()
    tv, ti = inner_tol(c) * np.abs(flux).sum(), inner_tol(c) * np.abs(y).sum()
    how = p["how"]
    if how == "threads":
        v1, i1 = both(threads=p["other"])
    elif how == "split":
        k = int(c.r.integers(0, c.nr + 1))
        parts = [both(c.uvw[s], y[s]) for s in (slice(0, k), slice(k, None)) if len(c.uvw[s])]
        v1, i1 = np.concatenate([a[0] for a in parts]), sum(a[1] for a in parts)
    elif how == "order":
        k = c.r.permutation(c.nr)
        v1, i1 = both(c.uvw[k], y[k], threads=2)
        v1 = v1[np.argsort(k)]
    elif how == "single":
        k = int(c.r.integers(0, c.nr))
        v1, _ = both(c.uvw[k:k + 1], y[k:k + 1])
        v0, i1 = v0[k:k + 1], i0
    else:
        sg = int(c.r.choice([32, 48, 64]))
        if not c.fits(p["height2"], p["frac2"], sg) or sg > c.n:
            return ["params", "unfit!"]
        v1, i1 = both(sg=sg, frac=p["frac2"], height=p["height2"])
        v0, v1 = v0 * c.clear, v1 * c.clear
        tv, ti = 2 * c.tol() * np.abs(flux).sum(), 2 * c.tol() * np.abs(y).sum()
    close(f"prediction, {how}", v1, v0, atol=tv)
    close(f"imaging, {how}", i1, i0, atol=ti)
    return [how] + c.labels
