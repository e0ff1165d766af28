"""P08: dynamic-threshold RFI flagger against a reference model."""
import numpy as np
from hypothesis import strategies as st

from ..core import Guard, Skip, Violation, rng, same, set_threads, subcheck
from ..gen import choice, fd, fl, seeds, size


def _median(v):
    """Middle element (upper middle for even counts) of a sorted copy."""
    return np.sort(v)[len(v) // 2]


class Ambiguous(Exception):
    pass


def model(amp, prev, alpha, tm, tv, tb, step, window, hist, rel):
    """Reference flags for amplitudes [t, b, c, p]; raises Ambiguous when a
    decision is too close to a threshold for the arithmetic used."""
    nt, nb, nc, npol = amp.shape
    flags = prev.copy()
    ns = nc // step
    scale = max(float(amp.max()), 1e-30)

    def z(med, dev, val):
        d = val - med
        near = (np.abs(d) <= rel * scale) & (d != 0)
        if rel and (np.any(near) or 0 < dev <= 1e3 * rel * scale):
            raise Ambiguous
        with np.errstate(all="ignore"):
            return np.where(dev == 0, np.where(d == 0, 0.0, 1e7), 0.6795 * d / (dev or 1))

    def over(zz, thr):
        if np.any(np.abs(np.abs(zz) - thr) <= 1e3 * rel * np.maximum(1, np.abs(zz))):
            raise Ambiguous
        return (zz > thr) | (zz < -thr)

    def spread(mask):
        out = mask.copy()
        for c in np.nonzero(mask)[0]:
            out[max(0, c - window):c + window + 1] = True
        return out

    for b in range(nb):
        for p in range(npol):
            medians = []
            tr = None
            for t in range(nt):
                a = amp[t, b, :, p]
                samp = a[:ns * step:step]
                med = _median(samp)
                dev = _median(np.abs(samp - med))
                medians.append(med)
                h = np.array(medians[max(0, t + 1 - hist):])
                mm = _median(h)
                md = _median(np.abs(h - mm))
                broad = t > 0 and bool(over(z(mm, md, np.float64(med)), tb))
                sel = over(z(med, dev, a), tm) | broad
                flags[t, b, spread(sel), p] = 1
                if t > 0:
                    rate = np.abs(amp[t - 1, b, :, p] - a)
                    tr = rate if t == 1 else alpha * rate + (1 - alpha) * tr
                    ts = tr[:ns * step:step]
                    mv = _median(ts)
                    # the deviation of the variations is taken about the
                    # median amplitude (pinned by the repository's own test)
                    dv = _median(np.abs(ts - med))
                    sv = spread(over(z(mv, dv, tr), tv))
                    flags[t, b, sv, p] = 1
                    flags[t - 1, b, sv, p] = 1
    return flags


TRIPLES = [(0, 0), (1, 0), (3, 4), (0, 2), (5, 12), (-8, 6), (0, -7), (20, 21), (-3, -4), (40, 9)]


def _vis(p):
    r = rng(p["seed"], plain=True)
    shp = (p["nt"], p["nb"], p["nc"], p["np"])
    if p["style"] == "exact":
        k = r.choice(len(TRIPLES), size=shp, p=[.05, .5, .15, .1, .04, .04, .04, .03, .03, .02])
        tab = np.array([complex(*x) for x in TRIPLES])
        v = tab[k]
    elif p["style"] == "const":
        v = np.full(shp, 1 + 0j)
        n = int(r.integers(0, 6))
        for _ in range(n):
            i = tuple(int(r.integers(0, s)) for s in shp)
            v[i] = complex(*TRIPLES[int(r.integers(2, len(TRIPLES)))])
        if p["nt"] > 1 and r.random() < 0.4:
            v[int(r.integers(0, p["nt"])), int(r.integers(0, p["nb"])), :, int(r.integers(0, p["np"]))] = 12 + 5j
    else:
        amp = 10 + r.standard_normal(shp) * p["noise"]
        v = amp * np.exp(2j * np.pi * r.random(shp))
        hot = r.random(shp) < 0.05
        v[hot] *= 5
        if r.random() < 0.3:
            v[int(r.integers(0, p["nt"]))] *= 4
    return v


@subcheck("P08", "dynamic", fd(
    nt=size(1, 12, rare=80), nb=size(1, 5, rare=40), nc=st.one_of(size(1, 8), size(1, 40, rare=200)), np=choice(1, 2, 4),
    style=choice("exact", "const", "noisy", "noisy"), noise=choice(0.01, 0.5, 3.0),
    alpha=choice(0.0, 0.25, 0.5, 1.0, 0.75), tm=choice(0.31, 1.7, 3.51, 20.3),
    tv=choice(0.31, 1.7, 3.51, 20.3), tb=choice(0.31, 1.7, 3.51, 20.3),
    step=st.integers(1, 5), window=choice(0, 0, 1, 2, 3, 50), hist=choice(1, 2, 3, 5, 20),
    prevp=choice(0.0, 0.0, 0.2), prec=choice("d", "f"), seed=seeds),
    quick=8000, thorough=120000,
    rule="amplitudes with exact ties, planted outliers, broadband jumps or noise; odd/even/one "
         "channel and time counts, sampling steps, windows past both band ends; the reference "
         "model decides every flag; cases within rounding of a threshold are skipped; "
         "non-trivial: some but not all samples selected",
    examples=[dict(nt=3, nb=1, nc=5, np=1, style="const", noise=0.5, alpha=0.5, tm=3.51, tv=3.51,
                   tb=3.51, step=1, window=2, hist=3, prevp=0.0, prec="d", seed=s) for s in range(8)])
def dynamic(p):
    from ska_sdp_func.visibility import flagger_dynamic_threshold
    if p["step"] > p["nc"]:
        p = dict(p, step=p["nc"])
    vis = _vis(p).astype("c16" if p["prec"] == "d" else "c8")
    r = rng(p["seed"] + 1, plain=True)
    prev = np.where(r.random(vis.shape) < p["prevp"], 7, 0).astype("i4")
    exact = p["style"] != "noisy"
    amp = np.abs(vis).astype("f8")
    if exact:
        amp = np.rint(amp)
    rel = 0.0 if exact else (1e-12 if p["prec"] == "d" else 1e-6)
    try:
        want = model(amp, prev, p["alpha"], p["tm"], p["tv"], p["tb"], p["step"],
                     p["window"], p["hist"], rel)
    except Ambiguous:
        raise Skip()
    g = Guard()
    cv, cf = g.inp(vis), g.out(prev)
    flagger_dynamic_threshold(cv, cf, p["alpha"], p["tm"], p["tv"], p["tb"],
                              p["step"], p["window"], p["hist"])
    g.check()
    same("flags", cf, want)
    # each baseline and polarisation is judged on its own data alone
    if p["nb"] * p["np"] > 1:
        b, q = int(r.integers(0, p["nb"])), int(r.integers(0, p["np"]))
        one = np.zeros((p["nt"], 1, p["nc"], 1), vis.dtype)
        one[...] = vis[:, b:b + 1, :, q:q + 1]
        f1 = np.zeros(one.shape, "i4")
        f1[...] = prev[:, b:b + 1, :, q:q + 1]
        flagger_dynamic_threshold(one, f1, p["alpha"], p["tm"], p["tv"], p["tb"],
                                  p["step"], p["window"], p["hist"])
        same("flags of one baseline alone", f1[:, 0, :, 0], cf[:, b, :, q])
    n = int((want == 1).sum())
    return [p["style"], "nothing!" if n == 0 else "all!" if n == want.size else "some",
            "odd" if (p["nc"] // p["step"]) % 2 else "even"]
