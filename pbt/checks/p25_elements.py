"""P25: element beam patterns against their closed-form definitions."""
import numpy as np
from hypothesis import strategies as st

from ..core import CD, CI, Guard, ccall_ok, close, require, rng, same, subcheck
from ..gen import choice, fd, seeds, size

C_0 = 299792458.0
EPS = {"d": 2.3e-16, "f": 1.2e-7}
RT = {"d": "f8", "f": "f4"}
CT = {"d": "c16", "f": "c8"}
L = np.longdouble
PI = L("3.14159265358979323846264338327950288")


def _dipole(kl, theta, phi):
    """Closed form (e_theta, e_phi) of a dipole along x, and distance from its axis."""
    st_, ct = np.sin(theta), np.cos(theta)
    s = np.cos(phi) * st_
    # 1 - s^2, the squared sine of the angle to the dipole, without cancellation
    d2 = ct ** 2 + (np.sin(phi) * st_) ** 2
    # cos(a) - cos(b) = 2 sin((b+a)/2) sin((b-a)/2), with 1-s = d2/(1+s)
    a, one = kl * s, L(1)
    num = 2 * np.sin((kl + a) / 2) * np.sin(np.where(s > 0, kl * d2 / (one + np.abs(s)), kl - a) / 2)
    num = np.where(s < 0, 2 * np.sin(kl * d2 / (one + np.abs(s)) / 2) * np.sin((kl - a) / 2), num)
    with np.errstate(all="ignore"):
        t = np.where(d2 > 0, num / np.where(d2 > 0, d2, 1), 0)
    return -np.cos(phi) * ct * t, np.sin(phi) * t, np.sqrt(d2)


def _angles(p, r, n):
    """Directions: general, on the axes, at zenith and horizon, and close to the dipole."""
    theta = r.uniform(0, np.pi / 2, n)
    phi = r.uniform(-np.pi, 2 * np.pi, n)
    if p["special"]:
        k = r.random(n) < 0.5
        theta[k] = r.choice([0, np.pi / 2, 1e-4, 0.3, np.pi / 2 - 1e-3, 1.0], n)[k]
        k = r.random(n) < 0.5
        phi[k] = r.choice([0, np.pi / 2, np.pi, -np.pi / 2, 1e-3, np.pi / 2 + 1e-4], n)[k]
    return theta, phi


@subcheck("P25", "dipole", fd(
    n=size(0, 200, 12), special=st.booleans(), freq=choice(50e6, 110e6, 350e6, 1e9),
    length=choice(1.5, 0.3, 1.3628, 0.01, 6.0), tail=choice([], [1], [4], [2, 2], [3]),
    stride=size(1, 9, 5), offset=size(0, 6), extra=size(0, 5), prec=choice("d", "f"),
    api=choice("py", "c"), seed=seeds), quick=12000, thorough=250000,
    rule="directions anywhere above the horizon incl. zenith, horizon and on or next to the "
         "dipole axis, any stride and offset into the output, scalar and polarised, against the "
         "closed form in extended precision; slots not addressed keep their contents; "
         "non-trivial: at least one point")
def dipole(p):
    r = rng(p["seed"])
    n, pr = p["n"], p["prec"]
    theta, phi = (a.astype(RT[pr]) for a in _angles(p, r, n))
    tail = tuple(p["tail"])
    four = tail in ((4,), (2, 2))
    stride, off = max(p["stride"], 2 if four else 1), p["offset"]
    need = (n - 1) * stride + off + (2 if four else 1) if n else 0
    rows = -(-(need + p["extra"]) // int(np.prod(tail))) if tail else need + p["extra"]
    rows = max(rows, 1)
    old = (r.standard_normal(rows * int(np.prod(tail))) * (3 + 1j)).astype(CT[pr])
    g = Guard()
    out = g.out(old.reshape((rows,) + tail))
    a = g.inp(theta), g.inp(phi)
    if p["api"] == "py":
        from ska_sdp_func.station_beam import dipole as fn
        fn(*a, p["freq"], p["length"], stride, off, out)
    else:
        ccall_ok("sdp_element_beam_dipole", CI(n), *a, CD(p["freq"]), CD(p["length"]),
                 CI(stride), CI(off), out)
    g.check()
    kl = PI * L(p["freq"]) * L(p["length"]) / L(C_0)
    th, ph = theta.astype(L), phi.astype(L)
    xt, xp, dx = _dipole(kl, th, ph)
    flat, slots = out.reshape(-1), np.arange(n) * stride + off
    k = float(kl)
    eps = EPS[pr]

    def lim(dist):
        return 12 * eps * (1 + k) ** 2 / np.maximum(dist, np.sqrt(eps)).astype("f8")

    if four:
        close("theta component", flat[slots], xt.astype("f8"), atol=lim(dx))
        close("phi component", flat[slots + 1], xp.astype("f8"), atol=lim(dx))
        used = np.concatenate([slots, slots + 1])
    else:
        yt, yp, dy = _dipole(kl, th, ph + PI / 2)
        want = np.sqrt((xt ** 2 + xp ** 2 + yt ** 2 + yp ** 2) / 2).astype("f8")
        close("scalar pattern", flat[slots], want, atol=lim(dx) + lim(dy))
        used = slots
    rest = np.setdiff1d(np.arange(flat.size), used)
    same("slots not addressed", flat[rest], old[rest])
    axis = n and (dx < 1e-3).any()
    return ["empty!" if not n else "axis" if axis else "general", pr, "pol" if four else "scalar"]


def _legendre(lmax, ct, s):
    """P[l][m] with the Condon-Shortley phase, in extended precision."""
    P = {}
    pmm = np.ones_like(ct)
    for m in range(lmax + 2):
        P[m, m] = pmm
        P[m + 1, m] = (2 * m + 1) * ct * pmm
        for l in range(m + 2, lmax + 2):
            P[l, m] = ((2 * l - 1) * ct * P[l - 1, m] - (l + m - 1) * P[l - 2, m]) / (l - m)
        pmm = -(2 * m + 1) * s * pmm
    return P


def _vsh(theta, phi, lmax, coef, eps):
    """(phi, theta) components of one antenna, and their error scale."""
    s, ct = np.sin(theta), np.cos(theta)
    P = _legendre(lmax, ct, s)
    e_t = np.zeros(theta.shape, np.clongdouble)
    e_p, err = e_t.copy(), np.zeros(theta.shape, L)
    fact = [L(1)]
    for i in range(1, 2 * lmax + 2):
        fact.append(fact[-1] * i)
    for l in range(1, lmax + 1):
        for m in range(-l, l + 1):
            a = abs(m)
            te, tm = coef[l * l - 1 + l + m]
            nf = np.sqrt(L(2 * l + 1) / (4 * PI * l * (l + 1)) * fact[l - a] / fact[l + a])
            # dP/dtheta from the neighbouring orders (Condon-Shortley phase)
            up = P[l, a + 1] if a + 1 <= l else np.zeros_like(ct)
            down = P[l, a - 1] if a else -P[l, 1] / L(l * (l + 1))
            dp = -((l + a) * (l - a + 1) * down - up) / 2
            pds = P[l, a] / s if a else np.zeros_like(ct)
            e = nf * np.exp(1j * m * phi.astype(np.clongdouble))
            qq, dd = e * dp, 1j * m * e * pds
            e_p += qq * tm - dd * te
            e_t += dd * tm + qq * te
            big = (np.abs(P[l, a]) * (l + 1) + np.abs(P[l + 1, a]) * (l - a + 1)) / s
            err += nf * (np.abs(tm) + np.abs(te)) * big * (l + 4 + a * np.abs(phi))
    # orders that underflow in the working precision are lost
    tiny = 1e-28 if eps > 1e-10 else 1e-250
    return e_p, e_t, err.astype("f8") * 6 * eps + tiny


@subcheck("P25", "spherical", fd(
    n=size(0, 40, 6, rare=300), lmax=size(1, 24, 5), special=st.booleans(), nan=choice(0, 0, 1, 2),
    sparse=st.booleans(), turn=choice(0.0, np.pi / 2, 0.7), tail=choice([4], [2, 2]),
    before=size(0, 4), after=size(0, 4), prec=choice("d", "f"), api=choice("py", "c"),
    seed=seeds), quick=3000, thorough=60000,
    rule="random TE/TM coefficients (all modes or a single one) of any order up to 24, random "
         "directions incl. zenith, undefined directions, offset into the output, against the "
         "vector spherical harmonics in extended precision; non-trivial: at least one point")
def spherical(p):
    r = rng(p["seed"])
    n, pr, lmax = p["n"], p["prec"], p["lmax"]
    theta, phi = _angles(p, r, n)
    phi2 = phi - p["turn"]
    if n and p["nan"]:
        (phi if p["nan"] == 1 else phi2)[r.integers(0, n)] = np.nan
    theta, phi, phi2 = (a.astype(RT[pr]) for a in (theta, phi, phi2))
    nm = (lmax + 1) ** 2 - 1
    co = r.standard_normal((nm, 4)) + 1j * r.standard_normal((nm, 4))
    if p["sparse"]:
        co *= np.arange(nm)[:, None] == r.integers(0, nm)
    co = co.astype(CT[pr])
    rows = max(1, n + p["before"] + p["after"])
    old = (r.standard_normal((rows, 4)) * (3 + 1j)).astype(CT[pr])
    g = Guard()
    out = g.out(old.reshape((rows,) + tuple(p["tail"])))
    a = g.inp(theta), g.inp(phi), g.inp(phi2)
    c = g.inp(co)
    if p["api"] == "py":
        from ska_sdp_func.station_beam import spherical_wave_harp as fn
        fn(*a, lmax, c, p["before"], out)
    else:
        ccall_ok("sdp_element_beam_spherical_wave_harp", CI(n), *a, CI(lmax), c,
                 CI(p["before"]), out)
    g.check()
    got = out.reshape(rows, 4)
    b = p["before"]
    same("rows not addressed", np.delete(got, slice(b, b + n), axis=0),
         np.delete(old, slice(b, b + n), axis=0))
    th = np.maximum(theta, theta.dtype.type(1e-5)).astype(L)
    co = co.astype(np.clongdouble)
    for k, f in enumerate((phi, phi2)):
        bad = np.isnan(phi) | np.isnan(f)
        require(np.isnan(got[b:b + n, 2 * k:2 * k + 2][bad]).all(),
                "an undefined direction gave a number")
        ep, et, tol = _vsh(th[~bad], f[~bad].astype(L), lmax, co[:, 2 * k:2 * k + 2], EPS[pr])
        close(f"antenna {'xy'[k]}, phi", got[b:b + n, 2 * k][~bad], ep.astype("c16"), atol=tol)
        close(f"antenna {'xy'[k]}, theta", got[b:b + n, 2 * k + 1][~bad], et.astype("c16"),
              atol=tol)
    return ["empty!" if not n else "some", pr, "high" if lmax > 16 else "low",
            "single" if p["sparse"] else "all"]
