"""Independent reference computations shared by several checks."""
import functools

import numpy as np
from numpy.polynomial import legendre
from scipy.linalg import eigh_tridiagonal


@functools.lru_cache(maxsize=256)
def _pswf_coeff(c):
    n = int(60 + 2 * c)
    k = 2.0 * np.arange(n)
    d = k * (k + 1) + (2 * k * (k + 1) - 1) / ((2 * k + 3) * (2 * k - 1)) * c * c
    e = (k + 2) * (k + 1) / ((2 * k + 3) * np.sqrt((2 * k + 1) * (2 * k + 5))) * c * c
    _, v = eigh_tridiagonal(d, e[:-1], select="i", select_range=(0, 0))
    co = np.zeros(2 * n)
    co[::2] = v[:, 0] * np.sqrt(k + 0.5)
    return co / legendre.legval(0.0, co)


def pswf(c, x):
    """Order-zero prolate spheroidal angular function, 1 at the centre, from
    the eigenvectors of the differential operator in Legendre polynomials
    (a different method from the library's specfun expansion)."""
    return legendre.legval(np.asarray(x, float), _pswf_coeff(float(c)))


def pswf_tol(c):
    """Absolute accuracy of the library's expansion (grows with c)."""
    return 2e-13 * 10.0 ** (max(0.0, c - 8.0) * 0.24)


def pswf_window(c, size, end=0.0):
    """Window sampled at 2(i - size//2)/size; even sizes start with `end`."""
    i = np.arange(size)
    w = pswf(c, 2.0 * (i - size // 2) / size)
    if size % 2 == 0:
        w[0] = end
    return w
