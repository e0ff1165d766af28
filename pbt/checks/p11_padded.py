"""P11: padded FFT sizes."""
import math

from hypothesis import strategies as st

from ..core import Skip, require, subcheck
from ..gen import choice, fd, fl


def _good(k):
    for q in (2, 3, 5, 7, 11):
        while k % q == 0:
            k //= q
    return k == 1


def _smooth(limit):
    out = [1]
    for q in (2, 3, 5, 7, 11):
        new = []
        for v in out:
            while v <= limit:
                new.append(v)
                v *= q
        out = new
    return sorted(out)


_TAB = [2 * k for k in _smooth(1_500_000_000 // 2)]


@subcheck("P11", "size", fd(
    n=st.one_of(st.integers(0, 300), st.integers(0, 20000), st.integers(0, 100_000_000),
                st.builds(lambda i, d: max(0, _TAB[i] + d), st.integers(0, 1500), st.integers(-1, 1))),
    f=st.one_of(choice(1.0, 1.0, 1.5, 2.0, 1.25, 1.1, 1.2), fl(1.0, 4.0), fl(0.3, 8.0)),
    dn=st.integers(0, 50), df=fl(0, 0.5)), quick=60000, thorough=1500000,
    rule="image sizes up to 1e8 (biased to and around suitable sizes) and padding factors; oracle "
         "is a table of all even sizes whose half is 11-smooth; monotone in both arguments; "
         "non-trivial: padded request above 2",
    examples=[dict(n=n, f=f, dn=1, df=0.1) for n, f in
              ((1, 1.0), (2, 1.0), (3, 1.0), (100, 1.0), (1024, 2.0), (13, 1.0), (26, 1.0),
               (10**8, 1.0), (1001, 1.25))])
def size_(p):
    import bisect

    from ska_sdp_func.fourier_transforms import padded_fft_size
    n, f = p["n"], p["f"]
    need = math.ceil(n * f)
    if need > 1_200_000_000 or abs(n) * f > 1_200_000_000:
        raise Skip()
    got = padded_fft_size(n, f)
    want = _TAB[bisect.bisect_left(_TAB, max(need, 2))]
    require(got == want, f"padded size of n={n}, factor {f!r} (at least {need}): got {got}, "
            f"expected {want}")
    require(got % 2 == 0 and got >= need and _good(got // 2), "unsuitable size")
    big = padded_fft_size(n + p["dn"], f + p["df"])
    if (n + p["dn"]) * (f + p["df"]) < 1_000_000_000:
        require(big >= got, f"padded size decreases from {got} to {big} when n grows by {p['dn']} "
                f"and the factor by {p['df']!r}")
    return "small!" if need <= 2 else "large" if need > 10000 else "medium"
