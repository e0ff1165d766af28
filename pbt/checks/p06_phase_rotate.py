"""P06: phase-centre rotation of coordinates and visibilities."""
import numpy as np
from hypothesis import strategies as st

from ..core import Guard, close, require, rng, subcheck
from ..gen import choice, fd, fl, seeds, size

C0 = 299792458.0


def frame(ra, dec):
    """Rows: u (east), v (north), w (towards the centre) unit vectors."""
    sa, ca, sd, cd = np.sin(ra), np.cos(ra), np.sin(dec), np.cos(dec)
    return np.array([[-sa, ca, 0.0], [-sd * ca, -sd * sa, cd],
                     [cd * ca, cd * sa, sd]])


def rot(o, n):
    return frame(*n) @ frame(*o).T


def two_step(o, n):
    """-delta_ra about v, then delta_dec about u (the documented rotation)."""
    da, dd = -(n[0] - o[0]), n[1] - o[1]
    ry = np.array([[np.cos(da), 0, np.sin(da)], [0, 1, 0], [-np.sin(da), 0, np.cos(da)]])
    rx = np.array([[1, 0, 0], [0, np.cos(dd), -np.sin(dd)], [0, np.sin(dd), np.cos(dd)]])
    return rx @ ry


deg = np.pi / 180
ras = st.one_of(fl(0.0, 360.0), choice(0.0, 90.0, 180.0, 359.9999, 360.0, -10.0, 123.5))
decs = st.one_of(fl(-90.0, 90.0), choice(0.0, 45.0, -45.0, 90.0, -90.0))
near = st.one_of(st.none(), st.tuples(fl(-2.0, 2.0), fl(-2.0, 2.0)).map(list))
common = dict(ra0=ras, dec0=decs, ra1=ras, dec1=decs, near=near,
              prec=choice("d", "f"), nt=size(1, 4, rare=40), nb=size(1, 30, rare=300), seed=seeds,
              mode=choice("separate", "separate", "inplace", "inplace", "same"))


def _centres(p):
    o = (p["ra0"], p["dec0"])
    n = (p["ra1"], p["dec1"])
    if p["near"]:
        n = (o[0] + p["near"][0], float(np.clip(o[1] + p["near"][1], -90, 90)))
    if p["mode"] == "same":
        n = o
    return (o[0] * deg, o[1] * deg), (n[0] * deg, n[1] * deg)


def _sky(c, kind=0):
    from ska_sdp_func.utility import SkyCoord
    return SkyCoord("icrs", c[0], c[1])


@subcheck("P06", "coordinates", fd(logu=fl(-1, 5), axis=choice("", "", "", "", "ra", "dec", "dec0"),
                                  **common), quick=6000, thorough=200000,
          rule="random pairs of phase centres (poles, wrap, tiny and large shifts, one "
               "angle only) and coordinates, in place and not; oracle is the documented "
               "rotation (-delta_ra about v, then delta_dec about u) in the textbook "
               "matrix product form, length preservation, and - where that rotation is "
               "the exact change of tangent frame (one angle changes, or the original "
               "centre is on the equator) - the frame change from spherical "
               "trigonometry and reversal; non-trivial: both angles differ")
def coordinates(p):
    from ska_sdp_func.visibility import phase_rotate_uvw
    o, n = _centres(p)
    ax = p.get("axis", "")
    if ax == "ra":
        n = (n[0], o[1])
    elif ax == "dec":
        n = (o[0], n[1])
    elif ax == "dec0":
        o = (o[0], 0.0)
    r = rng(p["seed"])
    dt = "f8" if p["prec"] == "d" else "f4"
    eps = 2.3e-16 if p["prec"] == "d" else 6e-8
    uvw = (r.uniform(-1, 1, (p["nt"], p["nb"], 3)) * 10.0 ** p["logu"]).astype(dt)
    want = uvw.astype("f8") @ two_step(o, n).T
    scale = np.abs(uvw).max(axis=2, keepdims=True).astype("f8") * np.ones(3)
    g = Guard()
    if p["mode"] == "inplace":
        a = b = g.out(uvw)
    else:
        a, b = g.inp(uvw), g.out(np.full(uvw.shape, 7.0), dt)
    phase_rotate_uvw(_sky(o), _sky(n), a, b)
    g.check()
    tol = 12 * eps * scale + 1e-14 * scale
    close("uvw_out", b, want, atol=tol)
    ln0 = np.linalg.norm(uvw.astype("f8"), axis=2)
    close("length", np.linalg.norm(b.astype("f8"), axis=2), ln0, rtol=12 * eps + 1e-14)
    if o[0] == n[0] or o[1] == 0.0:
        _exact_frame(p, o, n, uvw, b, tol)
    if o[0] == n[0] or o[1] == n[1]:
        return ["axis-aligned", "one-angle!"] if p["mode"] == "same" else "one-angle"
    return [p["prec"], p["mode"]]


def _exact_frame(p, o, n, uvw, b, tol):
    from ska_sdp_func.visibility import phase_rotate_uvw
    close("uvw in the tangent frame of the new centre", b,
          uvw.astype("f8") @ rot(o, n).T, atol=tol)
    if o[0] == n[0] or o[1] == n[1]:
        back = np.zeros_like(b)
        phase_rotate_uvw(_sky(n), _sky(o), b, back)
        close("rotated back", back, uvw, atol=2 * tol)


@subcheck("P06", "frame", None, quick=0, thorough=0, asan=False, leak=False,
          rule="replay only: the exact change of tangent frame for general centres "
               "(known finding)")
def frame_change(p):
    from ska_sdp_func.visibility import phase_rotate_uvw
    o, n = _centres(p)
    uvw = rng(p["seed"]).uniform(-1, 1, (p["nt"], p["nb"], 3))
    b = np.zeros_like(uvw)
    phase_rotate_uvw(_sky(o), _sky(n), uvw, b)
    close("uvw in the tangent frame of the new centre", b, uvw @ rot(o, n).T, atol=1e-13)
    back = np.zeros_like(b)
    phase_rotate_uvw(_sky(n), _sky(o), b, back)
    close("rotated back", back, uvw, atol=1e-13)
    return "frame"


@subcheck("P06", "visibilities", fd(
    logu=fl(-1, 4.5), nc=size(1, 8, rare=200), np=choice(1, 4), f0=fl(1e7, 2e9),
    df=choice(0.0, 1e3, 1e6, -1e5, 1e7), **common),
    quick=6000, thorough=200000,
    rule="as for coordinates with random complex visibilities; oracle is the phase of "
         "the change in w (in wavelengths at that channel) between the two tangent "
         "frames; amplitudes preserved; a unit source at the new centre becomes exactly "
         "1; non-trivial: centres differ")
def visibilities(p):
    from ska_sdp_func.visibility import phase_rotate_vis
    o, n = _centres(p)
    r = rng(p["seed"])
    d = p["prec"] == "d"
    shp = (p["nt"], p["nb"], p["nc"], p["np"])
    uvw = (r.uniform(-1, 1, shp[:2] + (3,)) * 10.0 ** p["logu"]).astype("f8" if d else "f4")
    vis = (r.standard_normal(shp) + 1j * r.standard_normal(shp)).astype("c16" if d else "c8")
    freq = p["f0"] + np.arange(p["nc"]) * p["df"]
    m = rot(o, n)
    u = uvw.astype(np.longdouble)
    dw = u[..., 2] - u @ m[2].astype(np.longdouble)
    turns = dw[:, :, None] * (freq / C0)[None, None, :]
    ph = 2 * np.pi * (turns - np.rint(turns)).astype("f8")
    phasor = np.exp(1j * ph)[..., None]
    scale = (np.abs(uvw).sum(axis=2).astype("f8")[:, :, None]
             * np.abs(freq / C0)[None, None, :] * 2 * np.pi)[..., None]
    eps = 2.3e-16
    # phase rounding: double arithmetic (float coordinates are summed in double)
    tol_ph = 20 * eps * scale + 1e-15
    tol = (tol_ph + (6e-16 if d else 4e-7)) * np.abs(vis)
    g = Guard()
    cu = g.inp(uvw)
    if p["mode"] == "inplace":
        a = b = g.out(vis)
    else:
        a, b = g.inp(vis), g.out(np.full(shp, 3 - 2j), vis.dtype)
    phase_rotate_vis(_sky(o), _sky(n), p["f0"], p["df"], cu, a, b)
    g.check()
    close("vis_out", b, vis * phasor, atol=tol)
    close("amplitude", np.abs(b), np.abs(vis), rtol=1e-6 if not d else 1e-14, atol=1e-30)
    # unit source at the new centre, in the convention of this function
    src = np.empty(shp, vis.dtype)
    src[...] = np.conj(phasor)
    out = np.zeros(shp, vis.dtype)
    phase_rotate_vis(_sky(o), _sky(n), p["f0"], p["df"], uvw, src, out)
    close("source at new centre", out, np.ones(shp), atol=tol_ph + (2e-15 if d else 6e-7))
    return [p["prec"], p["mode"] + ("!" if p["mode"] == "same" else "")]
