"""P12: FFT convolution equals direct linear convolution, cropped to the first image."""
import numpy as np
from hypothesis import strategies as st

from ..core import Guard, close, rng, subcheck
from ..gen import choice, fd, seeds, size


def linear_same(a, b):
    """Direct linear convolution of square images, cropped like mode='same'."""
    n, k = a.shape[0], b.shape[0]
    full = np.zeros((n + k - 1, n + k - 1), complex)
    for i in range(k):
        for j in range(k):
            full[i:i + n, j:j + n] += a * b[i, j]
    s = (k - 1) // 2
    return full[s:s + n, s:s + n]


sizes = st.one_of(size(1, 24, 6, rare=90), choice(1, 2, 4, 8, 16, 31, 32, 33))


@subcheck("P12", "convolve", fd(
    n1=sizes, n2=sizes, prec=choice("d", "f"), style=choice("full", "impulse", "corner", "real"),
    alias=st.booleans(), logs=choice(-5, 0, 0, 5), seed=seeds), quick=9000, thorough=60000,
    rule="square images of every pair of sizes (second larger, smaller or equal; powers of two and "
         "their neighbours), impulses at the edges, output may be the first image itself; oracle is "
         "the direct double sum, plus linearity and the unit impulse; non-trivial: first image "
         "larger than one pixel",
    examples=[dict(n1=a, n2=b, prec="d", style="full", alias=False, logs=0, seed=3)
              for a, b in ((1, 1), (4, 1), (3, 2), (8, 1), (4, 4), (5, 12), (64, 64), (50, 7))])
def convolve(p):
    from ska_sdp_func.numeric_functions import fft_convolution
    r = rng(p["seed"])
    n1, n2 = p["n1"], p["n2"]
    dt = np.dtype("c16" if p["prec"] == "d" else "c8")
    eps = 2.3e-16 if p["prec"] == "d" else 1.2e-7
    a = (r.standard_normal((n1, n1)) + 1j * r.standard_normal((n1, n1))) * 10.0 ** p["logs"]
    b = r.standard_normal((n2, n2)) + 1j * r.standard_normal((n2, n2))
    if p["style"] == "impulse":
        b[...] = 0
        b[(n2 - 1) // 2, (n2 - 1) // 2] = 1
    elif p["style"] == "corner":
        b[...] = 0
        b[r.integers(0, n2), r.integers(0, n2)] = 1
        a *= r.random(a.shape) < 0.3
    elif p["style"] == "real":
        a, b = a.real + 0j, b.real + 0j
    a, b = a.astype(dt), b.astype(dt)
    g = Guard()
    cb = g.inp(b)
    if p["alias"]:
        out = g.out(a)
        fft_convolution(out, cb, out)
    else:
        out = g.out(np.full(a.shape, 7 - 3j), dt)
        fft_convolution(g.inp(a), cb, out)
    g.check()
    want = linear_same(a.astype("c16"), b.astype("c16"))
    tol = eps * 200 * np.sqrt((np.abs(a.astype("c16")) ** 2).sum() * (np.abs(b.astype("c16")) ** 2).sum())
    close("convolution", out, want, atol=tol + 1e-300)
    if p["style"] == "impulse":
        close("convolution with unit impulse", out, a, atol=tol + 1e-300)
    return [p["prec"], "n2>n1" if n2 > n1 else "n2<=n1", "one!" if n1 == 1 else "multi"]
