"""Large cases of other sub-checks: one dimension far beyond its usual range, the rest small.

Code may take another path above some size (a chunk, a block, a buffer), so each dimension is
also taken to sizes around powers of two and well beyond; the oracle is that of the sub-check.
"""
from hypothesis import strategies as st

from .. import core


def _values(hi):
    lo = max(2, min(64, hi // 8))
    k = [v for b in range(6, 21) for v in (2 ** b - 1, 2 ** b, 2 ** b + 1) if lo <= v <= hi]
    return st.one_of(st.sampled_from(k or [hi]), st.integers(lo, hi), st.integers(hi // 2, hi))


def large(key, dims, cap=(), quick=20, thorough=None, name=None, **fix):
    prop, sub = key.split(".")
    base = core.REGISTRY.get((prop, sub))
    name = name or "large_" + sub
    if base is None:
        return
    cap = {**{d: 3 for d in dims}, **dict(cap)}

    def put(p, d, v):
        p = dict(p, **fix)
        for k, n in cap.items():
            p[k] = min(p[k], n)
        p[d] = v - v % 2 if d == "sg" else v
        if d == "chans" and "dfreq" in p:
            p["dfreq"] *= 8 / v         # (the same band)
        return p

    s = st.tuples(base.strategy, st.sampled_from(sorted(dims)).flatmap(
        lambda d: st.tuples(st.just(d), _values(dims[d])))).map(lambda t: put(t[0], *t[1]))
    core.REGISTRY[(prop, name)] = core.SubCheck(
        prop, name, s, base.run, quick, thorough or quick * 20,
        f"as {key}, with one dimension between 64 and {max(dims.values())}", [],
        2, False, base.isolate, 0)


large("P05.wavelengths", dict(nt=3000, nb=20000, nc=5000, ns=20000))
large("P05.metres", dict(nt=3000, nb=20000, nc=5000, ns=20000))
large("P06.coordinates", dict(nt=70000, nb=70000), quick=60)
large("P06.visibilities", dict(nt=20000, nb=20000, nc=20000), quick=60)
large("P07.uniform", dict(nt=10000, nb=20000, nc=10000, gs=2100), quick=50)
large("P07.briggs", dict(nt=10000, nb=20000, nc=10000, gs=2100), quick=50)
large("P08.dynamic", dict(nt=1000, nb=1000, nc=5000), quick=20)
large("P09.tiles", dict(nt=3000, nb=5000, nc=3000, gs=5000), quick=50)
large("P10.shift_norm", dict(nx=3000, ny=3000), quick=20)
large("P12.convolve", dict(n1=300, n2=300), dict(n1=8, n2=8), quick=30)
large("P13.generate", dict(n=20000, n2=20000), quick=40)
large("P15.degrid", dict(rows=3000, chans=3000, sg=300), dict(sg=14), quick=30)
large("P15.direct", dict(rows=1000, chans=1000, sg=128), dict(sg=8), quick=30)
large("P16.grid", dict(rows=3000, chans=3000, sg=300), dict(sg=14), quick=30)
large("P16.adjoint", dict(rows=3000, chans=3000, sg=300), dict(sg=14), quick=30)
large("P16.direct", dict(rows=1000, chans=1000, sg=128), dict(sg=8), quick=30)
large("P18.clamp", dict(rows=20000, chans=20000), quick=40)
large("P18.partition", dict(rows=5000, chans=5000), quick=30)
large("P18.bounds", dict(rows=20000, chans=20000), quick=40)
large("P19.scaled", dict(n=70000, m=70000), quick=50)
large("P19.diff", dict(n=70000, m=70000), quick=50)
large("P19.sumdiff", dict(n=1200000), quick=30, big=0)
large("P19.shift", dict(k=1000, n=300), quick=20)
large("P19.subgrid", dict(nu=4200, nv=4200, su=4200, sv=4200), quick=50)
large("P19.flmn", dict(n=4200, m=4200), quick=50)
large("P19.dft", dict(n=1000, nc=3000, ns=5000), quick=40)
large("P20.kernel", dict(os=20000, support=64), quick=40)
large("P20.pattern", dict(n=1000), quick=30)
large("P20.correct", dict(image=4200, fl=1100, fm=1100), dict(image=64), quick=40)
large("P20.wstack", dict(image=4200, fl=1100, fm=1100), dict(image=64), quick=40)
large("P21.degrid", dict(times=3000, baselines=3000, chans=2000, nx=1100, ny=1100), dict(nx=24, ny=24), quick=50)
large("P22.clean", dict(n=200), quick=16, limit=20)
large("P22.clean", dict(limit=2000), dict(n=8), quick=30, name="large_limit")
large("P22.clean", dict(limit=70000), dict(n=3), quick=12, name="large_cycles", level="neg")
large("P23.clean", dict(n=40), quick=10, limit=6)
large("P24.sum", dict(ne=20000, np=20000), dict(ne=4, np=4), quick=40)
large("P24.steer", dict(ne=20000, np=20000), dict(ne=4, np=4), quick=40)
large("P25.dipole", dict(n=100000), quick=30)
large("P25.spherical", dict(n=10000), quick=20)


def derived(key, name, change, quick, rule):
    """As large(), with change(draw, case) deciding what is large."""
    prop, sub = key.split(".")
    base = core.REGISTRY.get((prop, sub))
    if base is None:
        return

    @st.composite
    def s(draw):
        return change(draw, dict(draw(base.strategy)))

    core.REGISTRY[(prop, name)] = core.SubCheck(
        prop, name, s(), base.run, quick, quick * 20, f"as {key}, {rule}", [], 2, False,
        base.isolate, 0)


def _fft(draw, p):
    k = draw(st.integers(0, 3))
    if k == 0:
        p["dims"] = [draw(_values(300000))]
    elif k == 1:
        a, b = draw(_values(1500)), draw(st.integers(1, 100))
        p["dims"] = [a, b] if draw(st.booleans()) else [b, a]
    else:
        p["dims"] = [min(x, 8) for x in p["dims"]]
    p["batch"] = draw(_values(4000)) if k == 2 else min(p["batch"], 2)
    return p


def _swiftly(draw, p):
    n = draw(st.sampled_from([384, 512, 768, 1024, 2048, 4096]))
    y, x = draw(st.sampled_from([(y, x) for y in range(2, n + 1, 2) for x in range(2, n + 1, 2)
                                 if n % y == 0 and n % x == 0 and x * y % n == 0 and x * y // n >= 2]))
    p["sz"] = [n, y, x]
    for k in ("o0", "o1"):
        p[k] = draw(st.integers(-2 * n, 2 * n))
    return p


derived("P10.transform", "large_transform", _fft, 40,
        "with up to 300000 elements in one dimension or 4000 in the batch")
derived("P14.steps", "large_steps", _swiftly, 60, "with images of up to 4096 pixels")
derived("P14.inverse", "large_inverse", _swiftly, 20, "with images of up to 4096 pixels")
