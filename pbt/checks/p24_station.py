"""P24: station beams against the weighted sum of element responses."""
import numpy as np
from hypothesis import strategies as st

from ..core import CD, CI, Guard, ccall_ok, close, require, rng, same, subcheck
from ..gen import choice, fd, seeds, size

EPS = {"d": 2.3e-16, "f": 1.2e-7}
RT = {"d": "f8", "f": "f4"}
CT = {"d": "c16", "f": "c8"}


def _case(p):
    """Positions, weights, directions and element data in storage precision."""
    r = rng(p["seed"])
    n, m = p["ne"], p["np"]
    rt, ct = RT[p["prec"]], CT[p["prec"]]
    eshape = (n,) if n % 2 or not p["mesh"] else (2, n // 2)
    xyz = r.uniform(-1, 1, (3, n)) * p["extent"] * np.array([[1], [1], [p["depth"]]])
    w = r.standard_normal(n) + 1j * r.standard_normal(n)
    if p["wstyle"] == "ones":
        w[...] = 1
    elif p["wstyle"] == "zeros":
        w *= r.random(n) < 0.5
    total = m + p["before"] + p["after"]
    d = r.normal(size=(3, total))
    d /= np.sqrt((d ** 2).sum(axis=0))
    if p["horizon"]:
        d[:2] *= 1.3
        with np.errstate(invalid="ignore"):
            d[2] = np.sqrt(1 - d[0] ** 2 - d[1] ** 2)
    xyz, d = xyz.astype(rt), d.astype(rt)
    w = w.astype(ct)
    tail = p["tail"]
    pols = int(np.prod(tail)) if tail else 1
    types = p["types"] if p["index"] else n
    idx = r.integers(0, types, n).astype("i4") if p["index"] else None
    data = None
    if p["data"]:
        data = (r.standard_normal((types, m, pols))
                + 1j * r.standard_normal((types, m, pols))).astype(ct)
    return r, eshape, xyz, w, d, pols, idx, data


def _expected(p, xyz, w, d, pols, idx, data, m):
    """(m, pols) sums and their error scale."""
    k = p["k"] if p["prec"] == "d" else float(np.float32(p["k"]))
    b = p["before"]
    X, D = xyz.astype("f8"), d.astype("f8")[:, b:b + m]
    terms = [np.outer(D[i], X[i]) * k for i in range(3 if p["z"] else 2)]
    phase = sum(terms)
    mag = sum(np.abs(t) for t in terms) + 1
    ph = np.exp(1j * phase) * w.astype("c16")
    if data is None:
        resp = np.ones((len(w), m, pols))
    else:
        resp = data.astype("c16")
        resp = resp[idx] if idx is not None else resp
    norm = 1 / len(w) if p["norm"] else 1
    want = np.einsum("pe,epk->pk", ph, resp) * norm
    scale = np.einsum("pe,epk->pk", np.abs(ph) * (mag + len(w)), np.abs(resp)) * norm
    return want, np.where(np.isnan(scale), 0, scale) * 8 * EPS[p["prec"]]


FIELDS = dict(ne=size(1, 300, 12), np=size(1, 60, 9), mesh=st.booleans(),
              extent=choice(0.0, 0.4, 5.0, 20.0), depth=choice(0.0, 0.1, 1.0),
              k=choice(2.0957, 0.0, 1.0, 6.4, -2.0957), wstyle=choice("any", "ones", "zeros"),
              before=size(0, 3), after=size(0, 3), obefore=size(0, 3), oafter=size(0, 3),
              horizon=st.booleans(), tail=choice([], [1], [4], [2, 2]), types=size(1, 4),
              index=st.booleans(), data=st.booleans(), z=choice(True, True, False),
              norm=st.booleans(), ex=choice(True, True, False), ey=choice(True, True, False),
              prec=choice("d", "f"), api=choice("py", "c", "null"), seed=seeds)


def _run(p, g, eshape, xyz, w, d, pols, idx, data, m):
    """Call the function; returns the output (rows, pols) and its old contents."""
    rt, ct = RT[p["prec"]], CT[p["prec"]]
    tail = tuple(p["tail"])
    rows = m + (0 if p["api"] == "py" else p["obefore"] + p["oafter"])
    old = np.arange(rows * pols).reshape(rows, pols) * (1 - 2j) + 0.5
    out = g.out(old.reshape((rows,) + tail), ct)
    el = [g.inp(w.reshape(eshape), ct)] + [g.inp(c.reshape(eshape), rt) for c in xyz]
    i = None if idx is None else g.inp(idx.reshape(eshape))
    e = None if data is None else g.inp(data.reshape((len(data), m) + tail), ct)
    ob = p["obefore"]
    if p["api"] == "py":
        from ska_sdp_func.station_beam import aperture_array
        b = p["before"]
        pts = [g.inp(c[b:b + m], rt) for c in d]
        if not p["z"]:
            pts[2] = None
        aperture_array(p["k"], *el, *pts, i, e, out, normalise=p["norm"], eval_x=p["ex"],
                       eval_y=p["ey"])
        ob = 0
    else:
        pts = [g.inp(c, rt) for c in d]
        if not p["z"]:
            pts[2] = None
        if p["api"] == "c":
            # "no array" given as an array without elements instead of a null pointer
            none = np.empty((0,), ct)
            e = none if e is None else e
            i = np.empty((0,), "i4") if i is None else i
        ccall_ok("sdp_station_beam_aperture_array", CD(p["k"]), *el, CI(p["before"]), CI(m),
                 *pts, i, e, CI(ob), out, CI(p["norm"]), CI(p["ex"]), CI(p["ey"]))
    return out.reshape(rows, pols), old.astype(ct), ob


RULE = ("random stations (flat, deep, single element), directions with and without z and below "
        "the horizon, shared or own element responses, offsets into the direction and output "
        "arrays, either receptor left out, py and C API, against the explicit sum; rows and "
        "components not asked for keep their contents; non-trivial: some component is evaluated")


@subcheck("P24", "sum", fd(**FIELDS), quick=10000, thorough=200000, rule=RULE)
def station_sum(p):
    r, eshape, xyz, w, d, pols, idx, data = _case(p)
    m = p["np"]
    g = Guard()
    got, old, ob = _run(p, g, eshape, xyz, w, d, pols, idx, data, m)
    g.check()
    want, tol = _expected(p, xyz, w, d, pols, idx, data, m)
    comps = [0] if pols == 1 else [0, 1] * p["ex"] + [2, 3] * p["ey"]
    rest = [k for k in range(pols) if k not in comps]
    if comps:
        close("beam", got[ob:ob + m, comps], want[:, comps], atol=tol[:, comps])
    same("components not asked for", got[ob:ob + m, rest], old[ob:ob + m, rest])
    same("rows before the output offset", got[:ob], old[:ob])
    same("rows after the last point", got[ob + m:], old[ob + m:])
    return ["evaluated" if comps else "none!", f"pol{pols}", p["prec"],
            "data" if data is not None else "isotropic", "index" if idx is not None else "own"]


@subcheck("P24", "steer", fd(**dict(FIELDS, wstyle=choice("any"), norm=choice(True),
                                    horizon=choice(False), index=choice(False),
                                    data=choice(False))),
          quick=5000, thorough=100000,
          rule="weights conjugate to the phases of one of the directions must give a unit "
               "normalised beam there and no more than one anywhere, and the beam of a weighted "
               "sum of two weight sets must be the weighted sum of the two beams; non-trivial: "
               "more than one element")
def station_steer(p):
    r, eshape, xyz, w, d, pols, idx, data = _case(p)
    p = dict(p, before=0, after=0, obefore=0, oafter=0, ex=True, ey=True)
    m = d.shape[1]
    t = int(r.integers(0, m))
    nd = 3 if p["z"] else 2
    k = p["k"] if p["prec"] == "d" else float(np.float32(p["k"]))
    ws = np.exp(-1j * k * (d[:nd, t].astype("f8") @ xyz[:nd].astype("f8"))).astype(w.dtype)
    g = Guard()
    beams = [_run(p, g, eshape, xyz, v.astype(w.dtype), d, pols, None, None, m)[0].astype("c16")
             for v in (ws, w, 0.75 * ws - 0.5 * w)]
    g.check()
    mag = 1 + abs(k) * np.abs(xyz[:nd]).sum(axis=0).max()
    tol = 8 * EPS[p["prec"]] * (mag + len(w)) * (1 + np.abs(w).max())
    close("steered beam in its own direction", beams[0][t], np.ones(pols), atol=tol)
    require((np.abs(beams[0]) <= 1 + tol).all(), "a steered beam exceeds its peak")
    close("beam of combined weights", beams[2], 0.75 * beams[0] - 0.5 * beams[1], atol=4 * tol)
    return "many" if len(w) > 1 else "one!"
