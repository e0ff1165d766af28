"""P21: degridding with a user-supplied kernel is the separable kernel sum."""
import numpy as np
from hypothesis import strategies as st

from ..core import CD, CI, Guard, ccall_ok, close, require, rng, subcheck
from ..gen import choice, fd, fl, seeds, size

C_0 = 299792458.0


def _near(x):
    return np.floor(x + 0.5) if x >= 0 else -np.floor(0.5 - x)


@subcheck("P21", "degrid", fd(
    times=size(1, 4, 2, rare=30), baselines=size(1, 6, 3, rare=60), chans=size(1, 4, 2, rare=40), pols=choice(1, 4),
    nx=size(4, 24, 14, rare=70), ny=size(4, 24, 14, rare=70), nz=size(1, 6, 4), square=st.booleans(),
    ks=size(1, 8, 4), kw=size(1, 6, 3), osu=choice(1, 2, 5, 16, 63), osw=choice(1, 2, 7, 16),
    wmag=choice(0.0, 0.9, 3.0, 50.0), spread=choice(0.8, 0.4, 1.3, 40.0), exact=st.booleans(),
    df=choice(0.0, 1e6, 2e7, -1e6), conj=st.booleans(), api=choice("py", "c"), seed=seeds),
    quick=15000, thorough=300000,
    rule="random grids (square or not), kernels of any width and oversampling, coordinates on "
         "and between kernel rows, beyond the grid, and many w-steps either way, against the "
         "explicit triple sum; the output held other data first; non-trivial: some visibility is "
         "predicted")
def degrid(p):
    from ska_sdp_func.grid_data import degrid_uvw_custom
    r = rng(p["seed"])
    nt, nb, nc, npol = p["times"], p["baselines"], p["chans"], p["pols"]
    nx, ny = p["nx"], p["nx"] if p["square"] else p["ny"]
    ks, osu, osw = p["ks"], p["osu"], p["osw"]
    kw = p["kw"]
    nz = kw + (p["nz"] - 1 if r.random() < 0.3 else 0)
    z = r.standard_normal((nc, nz, ny, nx, npol)) + 1j * r.standard_normal((nc, nz, ny, nx, npol))
    uvk, wk = r.standard_normal((osu, ks)), r.standard_normal((osw, kw))
    theta = float(10 ** r.uniform(-3, -1))
    wstep = float(10 ** r.uniform(0, 3))
    f0, df = 1e8, p["df"]
    x = r.uniform(-1, 1, (nt, nb, 3)) * [nx / 2 * p["spread"], ny / 2 * p["spread"], p["wmag"]]
    if p["exact"]:
        q = np.array([osu, osu, osw])
        x = (np.floor(x * q) + r.choice([0.0, 0.3, -0.3, 0.01], x.shape)) / q
    uvw = x / [theta, theta, 1 / wstep] * C_0 / (f0 + df * r.integers(0, nc))
    v0 = r.standard_normal((nt, nb, nc, npol)) + 1j
    g = Guard()
    vis = g.out(v0)
    a = [g.inp(z), g.inp(uvw), g.inp(uvk), g.inp(wk)]
    if p["api"] == "py":
        degrid_uvw_custom(*a, theta, wstep, f0, df, p["conj"], vis)
    else:
        ccall_ok("sdp_degrid_uvw_custom", *a, CD(theta), CD(wstep), CD(f0), CD(df),
                 CI(p["conj"]), vis)
    g.check()
    n = 0
    h = ks // 2
    for t in range(nt):
        for b in range(nb):
            for c in range(nc):
                u, v, w = uvw[t, b] * (f0 + df * c) / C_0
                pos = np.array([u * theta * osu, v * theta * osu, (1 + w / wstep) * osw])
                # rounding to the nearest kernel row is only judged where it is not a tie
                if (np.abs(np.abs(pos - np.floor(pos)) - 0.5) < 1e-9 * (1 + np.abs(pos))).any():
                    continue
                q = [int(_near(s)) for s in pos]
                cell = [-(-s // o) for s, o in zip(q, (osu, osu, osw))]
                row = [k * o - s for k, s, o in zip(cell, q, (osu, osu, osw))]
                i, j = nx // 2 + cell[0] - h, ny // 2 + cell[1] - h
                got = vis[t, b, c]
                if i < 0 or j < 0 or i + ks > nx or j + ks > ny:
                    require((got == v0[t, b, c]).all(),
                            f"visibility {t, b, c} does not fit in the grid but was changed")
                    continue
                if not (0 < i and i < nx - 2 * h and 0 < j and j < ny - 2 * h):
                    # the outermost position that would fit is left out by design: either is fine
                    if (got == v0[t, b, c]).all():
                        continue
                k3 = wk[row[2]][:, None, None] * uvk[row[1]][None, :, None] * uvk[row[0]]
                foot = z[c, :kw, j:j + ks, i:i + ks]
                want = np.einsum("zyx,zyxp->p", k3, foot)
                mag = np.einsum("zyx,zyxp->p", np.abs(k3), np.abs(foot))
                if p["conj"]:
                    want = want.conj()
                close(f"visibility {t, b, c}", got, want, atol=1e-14 * (ks + kw) * mag)
                n += 1
    return ["some" if n else "none!", "square" if nx == ny else "rect", p["api"],
            "conj" if p["conj"] else "plain"]
