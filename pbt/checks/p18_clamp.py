"""P18: channel clamping selects exactly the channels inside the given range."""
import numpy as np
from hypothesis import strategies as st

from ..core import CD, CI, I64, Guard, ccall_ok, require, rng, same, subcheck
from ..gen import choice, fd, seeds, size

C_0 = 299792458.0
LD = np.longdouble


def _data(p, r):
    """(uvw, f0, df, margin factor): margin 0 means all arithmetic is exact."""
    n = p["rows"]
    if p["exact"]:
        # coordinates are exactly uvw * (1 + c * df/C_0), small dyadic numbers
        f0 = C_0 * float(r.integers(0, 4))
        df = C_0 * 2.0 ** -int(r.integers(0, 5)) * (-1 if p["negdf"] else 1)
        uvw = r.integers(-12, 13, (n, 3)) * 2.0 ** -int(r.integers(0, 3))
    else:
        f0 = float(r.choice([0.0, 1e8, 1.4e9])) * r.uniform(0.5, 2)
        df = float(r.choice([1e3, 1e5, 1e7])) * r.uniform(0.5, 2) * (-1 if p["negdf"] else 1)
        uvw = r.uniform(-1, 1, (n, 3)) * 10.0 ** r.integers(-2, 5)
        uvw[r.random(uvw.shape) < 0.1] = 0
        uvw[r.random(uvw.shape) < 0.05] *= 1e-12
    uvw = uvw.astype(p["prec"])
    return uvw, f0, df, 0.0 if p["exact"] else 1.0


def _ranges(p, r):
    n, m = p["rows"], p["chans"]
    s = r.integers(0, m + 1, n).astype(np.int32)
    e = np.minimum(m, s + r.integers(0, m + 1, n)).astype(np.int32)
    if p["full"]:
        s[:], e[:] = 0, m
    if p["inverted"]:
        k = r.random(n) < 0.3
        s[k], e[k] = e[k] + 1, s[k]
    return s, e


def _status(x, f0, df, lo, hi, chans, exact):
    """For one coordinate: arrays (inside, ambiguous) over channel numbers."""
    a0, da = LD(x) * LD(f0) / LD(C_0), LD(x) * LD(df) / LD(C_0)
    if exact:   # reproduces the exactly representable products
        a0, da = LD(np.float64(a0)), LD(np.float64(da))
    c = np.arange(chans)
    v = a0 + c * da
    eta = max(abs(lo - float(a0)), abs(hi - float(a0))) / 2147483645.0
    if abs(float(da)) <= eta * 1.01:
        inside = (v >= lo) & (v < hi)
        tol = np.abs(c * da) + 1e-14 * (abs(a0) + np.minimum(abs(v - lo), abs(v - hi)))
        if da == 0:
            tol = tol * 0
    elif da > 0:
        inside = (v >= lo) & (v < hi)
        tol = 4e-15 * (abs(a0) + abs(c * da))
    else:       # descending coordinate: the range owns its upper bound instead
        inside = (v > lo) & (v <= hi)
        tol = 4e-15 * (abs(a0) + abs(c * da))
    if exact and (da == 0 or abs(float(da)) > eta * 1.01):
        amb = np.zeros(chans, bool)
    else:
        tol = tol + 4e-15 * (abs(lo) + abs(hi))
        if f0 == 0 and da == 0:
            tol = tol * 0
        amb = (abs(v - lo) <= tol) | (abs(v - hi) <= tol)
    return inside, amb


def _bounds(p, r, uvw, f0, df, dim, nb=2):
    """nb ascending bounds, chosen where they separate some channels."""
    x = uvw[:, dim].astype(float)
    m = p["chans"]
    c = r.integers(0, m, nb)
    i = r.integers(0, len(x), nb)
    b = x[i] * (f0 / C_0) + c * x[i] * (df / C_0)
    if p["exact"]:
        b = b + r.integers(-2, 3, nb) * float(r.choice([0, 0, 0.5, 1]))
    else:
        b = b + r.normal(0, 1, nb) * np.abs(x[i] * df / C_0)
        if p["wide"]:
            b[0] -= 10.0 ** r.integers(0, 5)
            b[-1] += 10.0 ** r.integers(0, 5)
    return np.sort(b)


def _verify(tag, i, s_in, e_in, s, e, inside, amb):
    require(s <= e, f"{tag} row {i}: start {s} > end {e}")
    if s < e:
        require(s >= s_in and e <= e_in,
                f"{tag} row {i}: [{s},{e}) outside the input range [{s_in},{e_in})")
    for c in range(max(0, s_in), e_in):
        if amb[c]:
            continue
        got = s <= c < e
        require(got == bool(inside[c]),
                f"{tag} row {i} channel {c}: {'selected' if got else 'not selected'}, "
                f"but the coordinate is {'inside' if inside[c] else 'outside'} "
                f"(range in [{s_in},{e_in}), out [{s},{e}))")


_base = dict(rows=size(1, 12, 4, rare=150), chans=size(1, 24, 6, rare=300), prec=choice("f8", "f8", "f4"),
             exact=st.booleans(), negdf=choice(False, False, False, True), full=st.booleans(),
             inverted=choice(False, False, True), wide=st.booleans(), seed=seeds)


def _window(p, r):
    """(start_row, end_row, effective rows)."""
    n = p["rows"]
    w = p["window"]
    if w == "all":
        return -1, -1, range(n)
    if w == "neg":
        return (-1, n // 2, range(n)) if r.random() < 0.5 else (n // 2, -1, range(n))
    a = int(r.integers(0, n + 1))
    b = int(r.integers(a, n + 1))
    return a, b, range(a, b)


@subcheck("P18", "clamp", fd(
    kind=choice("single", "uv"), dim=choice(0, 1, 2), window=choice("all", "all", "neg", "part"),
    api=choice("py", "c"), alias=choice(False, False, True), **_base),
    quick=10000, thorough=150000,
    rule="rows with positive, negative, zero and tiny coordinates; bounds placed on or near channel "
         "coordinates (exactly, in dyadic arithmetic, in half the cases); partial, full, empty and "
         "inverted input channel ranges; row windows; oracle tests every channel of every row; "
         "non-trivial: some row keeps some but not all of its channels")
def clamp(p):
    from ska_sdp_func.grid_data import clamp_channels_single, clamp_channels_uv
    r = rng(p["seed"])
    uvw, f0, df, mf = _data(p, r)
    s_in, e_in = _ranges(p, r)
    n, m = p["rows"], p["chans"]
    M = max(m, int(e_in.max()), 1) + 1
    dims = (p["dim"],) if p["kind"] == "single" else (0, 1)
    b = [_bounds(p, r, uvw, f0, df, d) for d in dims]
    s0 = r.integers(-5, 50, n).astype(np.int32)
    e0 = r.integers(-5, 50, n).astype(np.int32)
    a, z, rows = _window(p, r)
    g = Guard()
    cu = g.inp(uvw)
    if p["alias"]:
        s0, e0 = s_in.copy(), e_in.copy()
        so, eo = g.out(s0), g.out(e0)
        ci, ce = so, eo
    else:
        ci, ce = g.inp(s_in), g.inp(e_in)
        so, eo = g.out(s0), g.out(e0)
    bb = [float(v) for q in b for v in q]
    if p["api"] == "py":
        if p["kind"] == "single":
            clamp_channels_single(cu, p["dim"], f0, df, ci, ce, *bb, so, eo, a, z)
        else:
            clamp_channels_uv(cu, f0, df, ci, ce, *bb, so, eo, a, z)
    elif p["kind"] == "single":
        ccall_ok("sdp_gridder_clamp_channels_single", cu, CI(p["dim"]), CD(f0), CD(df), ci, ce,
                 *[CD(v) for v in bb], so, eo, I64(a), I64(z))
    else:
        ccall_ok("sdp_gridder_clamp_channels_uv", cu, CD(f0), CD(df), ci, ce,
                 *[CD(v) for v in bb], so, eo, I64(a), I64(z))
    g.check()
    partial = False
    for i in range(n):
        if i not in rows:
            require(so[i] == s0[i] and eo[i] == e0[i],
                    f"row {i} is outside the row window [{a},{z}) but was changed")
            continue
        inside = np.ones(M, bool)
        amb = np.zeros(M, bool)
        for d, q in zip(dims, b):
            k, w = _status(float(uvw[i, d]), f0, df, q[0], q[1], M, p["exact"])
            amb = (amb & (inside | amb) & (k | w)) | (w & (inside | amb))
            inside = inside & k
        _verify(p["kind"], i, int(s_in[i]), int(e_in[i]), int(so[i]), int(eo[i]), inside, amb)
        partial |= so[i] < eo[i] and (eo[i] - so[i]) < (e_in[i] - s_in[i])
    return [p["kind"], p["prec"], "exact" if p["exact"] else "real", "negdf" if p["negdf"] else "posdf",
            "partial" if partial else "all-or-none!"]


@subcheck("P18", "partition", fd(parts=size(2, 6, 3), dim=choice(0, 1, 2), **_base),
          quick=5000, thorough=80000,
          rule="a chain of 2-6 adjacent ranges; every input channel is selected at most once, and "
               "exactly once when its coordinate lies inside the whole chain; non-trivial: at "
               "least two parts of the chain select something in one row")
def partition(p):
    from ska_sdp_func.grid_data import clamp_channels_single
    r = rng(p["seed"])
    uvw, f0, df, _ = _data(p, r)
    s_in, e_in = _ranges(p, r)
    M = max(p["chans"], int(e_in.max()), 1) + 1
    b = np.unique(_bounds(p, r, uvw, f0, df, p["dim"], p["parts"] + 1))
    if len(b) < 2:
        return ["one-bound!"]
    cover = np.zeros((p["rows"], M), int)
    g = Guard()
    cu, ci, ce = g.inp(uvw), g.inp(s_in), g.inp(e_in)
    nsel = np.zeros(p["rows"], int)
    for lo, hi in zip(b[:-1], b[1:]):
        so, eo = (g.out(np.full(p["rows"], -9), np.int32) for _ in range(2))
        clamp_channels_single(cu, p["dim"], f0, df, ci, ce, float(lo), float(hi), so, eo)
        for i in range(p["rows"]):
            cover[i, so[i]:eo[i]] += 1
            nsel[i] += so[i] < eo[i]
    g.check()
    for i in range(p["rows"]):
        x = float(uvw[i, p["dim"]])
        da = abs(x * df / C_0)
        eta = max(abs(v - x * f0 / C_0) for v in b) / 2147483645.0
        if x != 0 and da <= eta * 1.01:
            continue
        inside, amb = _status(x, f0, df, b[0], b[-1], M, p["exact"])
        for c in range(max(0, s_in[i]), e_in[i]):
            require(cover[i, c] <= 1, f"row {i} channel {c} selected by {cover[i, c]} adjacent ranges")
            if not amb[c]:
                require(cover[i, c] == int(inside[c]),
                        f"row {i} channel {c}: selected by {cover[i, c]} of the adjacent ranges, "
                        f"but it is {'inside' if inside[c] else 'outside'} their union")
        require(cover[i, :max(0, s_in[i])].sum() == 0 and cover[i, max(0, e_in[i]):].sum() == 0,
                f"row {i}: channels outside the input range selected")
    return ["split" if nsel.max(initial=0) > 1 else "whole!", "exact" if p["exact"] else "real"]


@subcheck("P18", "bounds", fd(**_base), quick=5000, thorough=80000,
          rule="bounds over all selected channels against the minimum and maximum over an explicit "
               "list of coordinates (rounding tolerance only); rows with empty ranges ignored; "
               "infinite inverted bounds when nothing is selected; non-trivial: more than one "
               "selected visibility")
def bounds(p):
    from ska_sdp_func.grid_data import uvw_bounds_all
    r = rng(p["seed"])
    uvw, f0, df, _ = _data(p, r)
    if p["inverted"] and p["exact"]:
        df = 0.0
    s, e = _ranges(p, r)
    g = Guard()
    lo, hi = uvw_bounds_all(g.inp(uvw), f0, df, g.inp(s), g.inp(e))
    g.check()
    vals = [[] for _ in range(3)]
    tol = [0.0] * 3
    for i in range(p["rows"]):
        for c in range(s[i], e[i]):
            for j in range(3):
                # the frequency itself may cancel (negative increments)
                tol[j] = max(tol[j], 1e-15 * abs(float(uvw[i, j])) * (abs(f0) + abs(c * df)) / C_0)
                vals[j].append(float(LD(uvw[i, j]) * (LD(f0) + c * LD(df)) / LD(C_0)))
    for j in range(3):
        if not vals[j]:
            same(f"empty bounds[{j}]", np.array([lo[j], hi[j]]), np.array([np.inf, -np.inf]))
            continue
        for nm, got, want in (("minimum", lo[j], min(vals[j])), ("maximum", hi[j], max(vals[j]))):
            require(abs(got - want) <= 8e-15 * abs(want) + tol[j] or got == want,
                    f"{nm} of coordinate {j}: {got!r}, expected {want!r}")
    return ["n>1" if len(vals[0]) > 1 else "few!"]
