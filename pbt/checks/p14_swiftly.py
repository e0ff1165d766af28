"""P14: SwiFTly streaming facet <-> sub-grid transform."""
import numpy as np
from hypothesis import strategies as st

from ..core import Guard, Skip, close, require, rng, subcheck
from ..gen import choice, fd, fl, seeds, size
from ..oracles import pswf_tol, pswf_window

# (N, yN, xM): all sizes that satisfy the documented divisibility rules
SIZES = []
for _n in (16, 24, 32, 36, 40, 48, 60, 64, 72, 80, 90, 96, 100, 108, 120, 128, 144, 150,
           160, 180, 192, 200, 216, 240, 256):
    for _y in range(2, _n + 1, 2):
        for _x in range(2, _n + 1, 2):
            if _n % _y == 0 and _n % _x == 0 and (_x * _y) % _n == 0 and _x * _y // _n >= 2:
                SIZES.append([_n, _y, _x])

_plans = {}


def _window(w, yn):
    """Sampled prolate function as used by the plan (domain edge -> 1e-15)."""
    return pswf_window(w * np.pi / 2, yn, 1e-15)


class Ref:
    """The documented algorithm, one formula per step."""

    def __init__(self, n, yn, xm, w):
        self.n, self.yn, self.xm, self.m = n, yn, xm, xm * yn // n
        pw = _window(w, yn)
        step = n // xm
        self.fn = pw[(yn // 2) % step + step * np.arange(self.m)]
        self.fb = 1 / pw
        self.fb[0] = pw[0]       # kept: the zero sample is not inverted
        self.tiny = np.abs(pw)

    def _fidx(self, k, off):
        """indices of the k facet pixels in the wrapped array of length yN"""
        return np.mod(off - k // 2 + np.arange(k), self.yn)

    def _fbmid(self, k):
        s = self.yn // 2 - k // 2
        return self.fb[s:s + k]

    def prepare_facet(self, a, off):
        o = np.zeros((a.shape[0], self.yn), complex)
        o[:, self._fidx(a.shape[1], off)] = a * self._fbmid(a.shape[1])
        return np.fft.ifft(o, axis=1)

    def _window_idx(self, off):
        g = off // (self.n // self.yn) - self.m // 2 + np.arange(self.m)
        return np.mod(g, self.yn), np.mod(g, self.m)

    def extract_from_facet(self, a, off):
        src, dst = self._window_idx(off)
        o = np.empty((a.shape[0], self.m), complex)
        o[:, dst] = a[:, src]
        return np.fft.fft(o, axis=1)

    def _sub_idx(self, off):
        f = off // (self.n // self.xm)
        j = np.arange(self.m)
        return (np.mod(self.xm // 2 - self.m // 2 + f + j, self.xm),
                np.mod(j + f + self.m // 2, self.m))

    def add_to_subgrid(self, c, off):
        dst, src = self._sub_idx(off)
        o = np.zeros((c.shape[0], self.xm), complex)
        o[:, dst] = self.fn * c[:, src]
        return o

    def finish_subgrid(self, a, off, k):
        b = np.fft.ifft(np.roll(a, self.xm // 2, axis=1), axis=1)
        return b[:, np.mod(off - k // 2 + np.arange(k), self.xm)]

    def prepare_subgrid(self, a, off):
        j = np.mod(off - self.xm // 2 + np.arange(self.xm), self.xm)
        b = np.empty_like(a)
        b[:, j] = a
        return np.roll(np.fft.fft(b, axis=1), self.xm // 2, axis=1)

    def extract_from_subgrid(self, a, off):
        dst, src = self._sub_idx(off)
        o = np.empty((a.shape[0], self.m), complex)
        o[:, src] = self.fn * a[:, dst]
        return np.fft.ifft(o, axis=1)

    def add_to_facet(self, c, off):
        src, dst = self._window_idx(off)
        o = np.zeros((c.shape[0], self.yn), complex)
        o[:, src] = c[:, dst]
        return o

    def finish_facet(self, a, off, k):
        return np.fft.fft(a, axis=1)[:, self._fidx(k, off)] * self._fbmid(k)


def _ramp_tol(xm, so):
    return 2e-15 * (sum(abs(o) for o in so) + 8 * xm)


def _plan(n, yn, xm, w):
    from ska_sdp_func.fourier_transforms.swiftly import Swiftly
    return Swiftly(n, yn, xm, w)


layouts = choice("C", "C", "F", "S1", "S3")
wvals = st.one_of(choice(13.5625, 8.0, 4.0, 10.75), fl(2.0, 16.0))
STEPS = ["prepare_facet", "extract_from_facet", "add_to_subgrid", "finish_subgrid",
         "finish_subgrid_inplace", "prepare_subgrid_inplace", "extract_from_subgrid",
         "add_to_facet", "finish_facet", "add_to_subgrid_2d", "finish_subgrid_inplace_2d",
         "prepare_subgrid_inplace_2d", "extract_from_subgrid_2d"]
offs = st.one_of(*[st.integers(-12, 12), st.integers(-600, 600)] * 4, st.sampled_from(
    [s * v for s in (1, -1) for v in (10 ** 5, 2 ** 24 + 1, 2 ** 31 - 7, 2 ** 33 + 3)]))


@subcheck("P14", "steps", fd(
    sz=choice(*SIZES), w=wvals, step=choice(*STEPS), batch=size(1, 5), o0=offs, o1=offs,
    frac=fl(0.05, 1.0), lin=layouts, lout=layouts, seed=seeds),
    quick=6000, thorough=200000,
    rule="one SwiFTly step on random data for every divisible (image, facet, sub-grid) "
         "size up to 256, valid offsets of either sign up to several images, batches, "
         "strided and transposed layouts, random previous output; oracle is one index "
         "formula per step with numpy FFT and an independent prolate function; steps "
         "documented to accumulate must add to, the others replace, previous contents; "
         "non-trivial: offset not zero",
    examples=[
        {"sz": [16, 8, 8], "w": 4.0, "step": s, "batch": 2, "o0": a, "o1": b, "frac": 0.8,
         "lin": l, "lout": l, "seed": 5}
        for s in STEPS for a, b in ((-3, -7), (1, 2)) for l in ("C", "S1")])
def steps(p):
    n, yn, xm = p["sz"]
    ref = Ref(n, yn, xm, p["w"])
    m = ref.m
    pl = _plan(n, yn, xm, p["w"])
    r = rng(p["seed"])
    s = p["step"]
    nx, ny = n // yn, n // xm
    b = p["batch"]

    def rnd(*shape):
        return r.standard_normal(shape) + 1j * r.standard_normal(shape)
    g = Guard()
    fsize = max(1, min(yn - 1, round(p["frac"] * (yn - 1))))
    asize = max(1, min(xm, round(p["frac"] * xm)))
    fo = [p["o0"] * ny, p["o1"] * ny]     # facet offsets
    so = [p["o0"] * nx, p["o1"] * nx]     # sub-grid offsets
    two = s.endswith("_2d")
    T = np.transpose
    scale = 1.0
    if s == "prepare_facet":
        x = rnd(b, fsize)
        a, o = g.inp(x, layout=p["lin"]), g.out(rnd(b, yn), layout=p["lout"])
        pl.prepare_facet(a, o, fo[0])
        want = ref.prepare_facet(x, fo[0])
        scale = np.abs(x * ref._fbmid(fsize)).max()
    elif s == "extract_from_facet":
        x = rnd(b, yn)
        a, o = g.inp(x, layout=p["lin"]), g.out(rnd(b, m), layout=p["lout"])
        pl.extract_from_facet(a, o, so[0])
        want = ref.extract_from_facet(x, so[0])
        scale = m
    elif s in ("add_to_subgrid", "add_to_subgrid_2d"):
        x = rnd(m, m) if two else rnd(b, m)
        prev = rnd(xm if two else b, xm)
        a, o = g.inp(x, layout=p["lin"]), g.out(prev, layout=p["lout"])
        if two:
            pl.add_to_subgrid_2d(a, o, fo[0], fo[1])
            want = T(ref.add_to_subgrid(T(ref.add_to_subgrid(x, fo[1])), fo[0]))
        else:
            pl.add_to_subgrid(a, o, fo[0])
            want = ref.add_to_subgrid(x, fo[0])
        want = want + prev
    elif s == "finish_subgrid":
        x = rnd(b, xm)
        a, o = g.inp(x, layout=p["lin"]), g.out(rnd(b, asize), layout=p["lout"])
        pl.finish_subgrid(a, o, so[0])
        want = ref.finish_subgrid(x, so[0], asize)
    elif s == "finish_subgrid_inplace":
        x = rnd(b, xm)
        o = g.out(x, layout=p["lout"])
        pl.finish_subgrid_inplace(o, so[0])
        want = ref.finish_subgrid(x, so[0], xm)
    elif s == "finish_subgrid_inplace_2d":
        x = rnd(xm, xm)
        o = g.out(x, layout=p["lout"])
        pl.finish_subgrid_inplace_2d(o, so[0], so[1])
        want = T(ref.finish_subgrid(T(ref.finish_subgrid(x, so[1], xm)), so[0], xm))
    elif s == "prepare_subgrid_inplace":
        x = rnd(b, xm)
        o = g.out(x, layout=p["lout"])
        pl.prepare_subgrid_inplace(o, so[0])
        want = ref.prepare_subgrid(x, so[0])
        scale = xm
    elif s == "prepare_subgrid_inplace_2d":
        x = rnd(xm, xm)
        o = g.out(x, layout=p["lout"])
        pl.prepare_subgrid_inplace_2d(o, so[0], so[1])
        want = T(ref.prepare_subgrid(T(ref.prepare_subgrid(x, so[1])), so[0]))
        scale = xm * xm
    elif s in ("extract_from_subgrid", "extract_from_subgrid_2d"):
        x = rnd(xm, xm) if two else rnd(b, xm)
        a = g.inp(x, layout=p["lin"])
        o = g.out(rnd(m, m) if two else rnd(b, m), layout=p["lout"])
        if two:
            pl.extract_from_subgrid_2d(a, o, fo[0], fo[1])
            want = T(ref.extract_from_subgrid(T(ref.extract_from_subgrid(x, fo[1])), fo[0]))
        else:
            pl.extract_from_subgrid(a, o, fo[0])
            want = ref.extract_from_subgrid(x, fo[0])
    elif s == "add_to_facet":
        x = rnd(b, m)
        prev = rnd(b, yn)
        a, o = g.inp(x, layout=p["lin"]), g.out(prev, layout=p["lout"])
        pl.add_to_facet(a, o, so[0])
        want = ref.add_to_facet(x, so[0]) + prev
    elif s == "finish_facet":
        # the prepared facet is documented as in/out work space
        x = rnd(b, yn)
        a, o = g.out(x, layout=p["lin"]), g.out(rnd(b, fsize), layout=p["lout"])
        pl.finish_facet(a, o, fo[0])
        want = ref.finish_facet(x, fo[0], fsize)
        scale = yn * np.abs(ref._fbmid(fsize)).max()
    g.check()
    tol = 3e-13
    pt = pswf_tol(p["w"] * np.pi / 2)     # the library's expansion
    if s in ("prepare_facet", "finish_facet"):
        tol += pt * np.abs(ref._fbmid(fsize)).max()
    elif s.startswith("add_to_sub") or s.startswith("extract_from_sub"):
        tol += 20 * pt
    elif s.startswith("prepare_sub"):
        tol += _ramp_tol(xm, so)          # accumulated phasors
    close(s, o, want, atol=scale * tol)
    zero = p["o0"] == 0 and (p["o1"] == 0 or not two)
    return [s, "zero-offset!" if zero else ("negative" if min(
        p["o0"], p["o1"] if two else 0) < 0 else "positive")]


E2E = [[256, 128, 64], [256, 128, 128], [192, 96, 64], [240, 120, 80], [256, 64, 128],
       [240, 80, 120], [128, 128, 64], [192, 64, 96], [144, 72, 72], [200, 100, 100]]


def _dft(src, n, k, off):
    u = off - k // 2 + np.arange(k)
    return sum(a * np.exp(2j * np.pi / n * np.mod(np.mod(u, n) * (x % n), n)) for a, x in src) / n


@subcheck("P14", "forward", fd(
    sz=choice(*E2E), w=choice(8.0, 10.75, 13.5625), nsrc=size(1, 5), nfct=choice(1, 2, 3),
    fo=st.lists(offs, min_size=3, max_size=3), so=offs, span=fl(0.2, 1.0),
    xfrac=fl(0.1, 1.0), full=st.booleans(), seed=seeds),
    quick=1500, thorough=60000,
    rule="sources spread over several facets (offsets of either sign, wrapped), all "
         "contributions accumulated onto one sub-grid; oracle is the direct Fourier sum "
         "of all sources over the usable part of the sub-grid, to the accuracy of the "
         "window; the same offsets plus or minus whole images must give the same result; "
         "non-trivial: at least one source off the image centre")
def forward(p):
    n, yn, xm = p["sz"]
    w = p["w"]
    m = xm * yn // n
    xa_max = int(xm - w / yn * n)
    if xa_max < 2 or m < w + 2:
        raise Skip
    yb = max(2, int(0.75 * yn))
    xa = max(1, int(round(p["xfrac"] * xa_max)))
    nx, ny = n // yn, n // xm
    r = rng(p["seed"])
    pl = _plan(n, yn, xm, w)
    so = p["so"] * nx
    acc = np.zeros((1, xm), complex)
    acc2 = np.zeros((1, xm), complex)
    srcs = []
    for k in range(p["nfct"]):
        fo = p["fo"][k] * ny
        fct = np.zeros((1, yb), complex)
        for _ in range(p["nsrc"]):
            i = int(r.integers(0, yb))
            v = r.uniform(-1, 1)
            fct[0, i] += v
            srcs.append((v, i - yb // 2 + fo))
        for a, f, s2 in ((acc, fo, so), (acc2, fo - 2 * n, so + n)):
            pr = np.empty((1, yn), complex)
            c = np.empty((1, m), complex)
            pl.prepare_facet(fct, pr, f)
            pl.extract_from_facet(pr, c, s2)
            pl.add_to_subgrid(c, a, f)
    out = np.empty((1, xa), complex)
    pl.finish_subgrid(acc, out, so)
    out2 = np.empty((1, xa), complex)
    pl.finish_subgrid(acc2, out2, so + n)
    want = _dft(srcs, n, xa, so)
    amp = sum(abs(v) for v, _ in srcs) / n
    tol = {8.0: 2e-3, 10.75: 1e-4, 13.5625: 5e-6}[w]
    close("sub-grid", out[0], want, atol=tol * amp)
    close("sub-grid with wrapped offsets", out2, out, atol=1e-11 * amp)
    return ["nfct%d" % p["nfct"],
            "centre!" if all(x % n == 0 for _, x in srcs) else "general"]


@subcheck("P14", "backward", fd(
    sz=choice([128, 64, 64], [128, 64, 32], [96, 48, 48], [96, 96, 48], [128, 128, 32],
              [144, 72, 72], [120, 60, 60]),
    w=choice(8.0, 10.75), fo=offs, shift=offs, rnd=st.booleans(), seed=seeds),
    quick=600, thorough=20000,
    rule="a random image transformed exactly, its grid cut into sub-grids that tile it "
         "(starting at a random position), every sub-grid prepared, extracted and "
         "accumulated onto one facet; oracle is the image's own pixels on that facet to "
         "the accuracy of the window; non-trivial always")
def backward(p):
    n, yn, xm = p["sz"]
    w = p["w"]
    m = xm * yn // n
    xa_max = int(xm - w / yn * n)
    nx, ny = n // yn, n // xm
    xa = max([k for k in range(nx, xa_max + 1, nx)] or [0])
    if xa < 2 or m < w + 2:
        raise Skip
    yb = max(2, int(0.75 * yn))
    r = rng(p["seed"])
    img = r.standard_normal(n) + 1j * r.standard_normal(n)   # index = pixel mod n
    grid = np.fft.ifft(img)      # sum img exp(+2 pi i u x / n) / n
    pl = _plan(n, yn, xm, w)
    fo = p["fo"] * ny
    acc = np.zeros((1, yn), complex)
    start = p["shift"] * nx
    done = 0
    while done < n:
        k = min(xa, n - done)
        # sub-grid centred at off covers xa samples; the last one is masked
        off = start + done + (xa // 2) // nx * nx
        u = off - xa // 2 + np.arange(xa)
        sg = np.zeros((1, xm), complex)
        mask = (u >= start + done - ((xa // 2) % nx)) \
            & (u < start + done - ((xa // 2) % nx) + k)
        vals = np.where(mask, grid[np.mod(u, n)], 0)
        s = xm // 2 - xa // 2
        sg[0, s:s + xa] = vals
        pl.prepare_subgrid_inplace(sg, off)
        c = np.empty((1, m), complex)
        pl.extract_from_subgrid(sg, c, fo)
        pl.add_to_facet(c, acc, off)
        done += k
    out = np.empty((1, yb), complex)
    pl.finish_facet(acc, out, fo)
    want = img[np.mod(fo - yb // 2 + np.arange(yb), n)]
    tol = {8.0: 2e-3, 10.75: 3e-5}[w]
    close("facet", out[0], want, atol=tol * np.sqrt(n))
    return "tiled"


@subcheck("P14", "inverse", fd(sz=choice(*SIZES), o0=offs, o1=offs, batch=size(1, 4),
                               layout=layouts, seed=seeds),
          quick=1500, thorough=50000,
          rule="preparing then finishing a sub-grid at the same offset (1-D and 2-D, and "
               "1-D along each axis against 2-D) returns it; non-trivial: offset not 0")
def inverse(p):
    n, yn, xm = p["sz"]
    pl = _plan(n, yn, xm, 8.0)
    r = rng(p["seed"])
    nx = n // yn
    s0, s1 = p["o0"] * nx, p["o1"] * nx
    x = r.standard_normal((p["batch"], xm)) + 1j * r.standard_normal((p["batch"], xm))
    g = Guard()
    a = g.out(x, layout=p["layout"])
    pl.prepare_subgrid_inplace(a, s0)
    pl.finish_subgrid_inplace(a, s0)
    rt = 4 * _ramp_tol(xm, (s0, s1))
    close("finish(prepare)", a, x, atol=rt)
    y = r.standard_normal((xm, xm)) + 1j * r.standard_normal((xm, xm))
    b = g.out(y, layout=p["layout"])
    pl.prepare_subgrid_inplace_2d(b, s0, s1)
    c = y.copy()
    pl.prepare_subgrid_inplace(c, s1)
    pl.prepare_subgrid_inplace(c.T, s0)
    close("2-D against two 1-D", b, c, atol=rt * xm)
    pl.finish_subgrid_inplace_2d(b, s0, s1)
    close("finish_2d(prepare_2d)", b, y, atol=rt)
    g.check()
    return "zero!" if not (p["o0"] or p["o1"]) else "offset"
