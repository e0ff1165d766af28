"""Reference (numpy, double precision) for the w-towers gridding kernel.

Everything is written from the definitions: a visibility at (u, v, w) in wavelengths is the sum
over grid points of kernel(u) kernel(v) kernel(w) times the grid, where the grid on w-plane p is
the FFT of the sub-grid image multiplied by exp(-2 pi i w_step n p)."""
import numpy as np

from .oracles import pswf, pswf_window

C_0 = 299792458.0


def lm_to_n(l, m, hu, hv):
    a = hu * l + hv * m - 1
    h = hu * hu + hv * hv + 1
    return -(l * l + m * m) / (np.sqrt(a * a - h * (l * l + m * m)) - a)


def coords(size, theta, offset=0, image_size=None):
    return (np.arange(size) - size // 2 + offset) * theta / (image_size or size)


def n_map(shape, theta, hu, hv, image_size, off_l=0, off_m=0):
    l = coords(shape[0], theta, off_l, image_size)[:, None]
    m = coords(shape[1], theta, off_m, image_size)[None, :]
    return lm_to_n(l, m, hu, hv)


def kernel_table(window, oversampling):
    s = len(window)
    i = np.arange(oversampling + 1)[:, None, None]
    so = np.arange(s)[None, :, None]
    l = (np.arange(s)[None, None, :] - s // 2) / s
    u = so - s // 2 - (i - oversampling) / oversampling
    return (window * np.cos(2 * np.pi * u * l)).sum(-1) / s


def pswf_kernel(support, oversampling, vr_size=None):
    return kernel_table(pswf_window(support * np.pi / 2, vr_size or support, 1e-15), oversampling)


def fft2(a):
    return np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(a)))


def ifft2(a):
    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(a)))


class Ref:
    def __init__(self, image_size, subgrid_size, theta, w_step, hu, hv, support, oversampling,
                 w_support, w_oversampling):
        self.image_size, self.sg, self.theta, self.w_step = image_size, subgrid_size, theta, w_step
        self.hu, self.hv = hu, hv
        self.support, self.os = support, oversampling
        self.w_support, self.w_os = w_support, w_oversampling
        self.win = pswf_window(support * np.pi / 2, support, 1e-15)
        self.wwin = pswf_window(w_support * np.pi / 2, w_support, 1e-15)
        self.n = n_map((subgrid_size, subgrid_size), theta, hu, hv, subgrid_size)

    @staticmethod
    def _row(window, i, os):
        s = len(window)
        l = (np.arange(s) - s // 2) / s
        u = np.arange(s)[:, None] - s // 2 - (i - os) / os
        return (window * np.cos(2 * np.pi * u * l)).sum(-1) / s

    def place(self, x, win, os):
        """First grid point touched (relative to the centre) and its weights, x in pixels."""
        s = len(win)
        q = int(np.floor(x * os + 0.5)) if x >= 0 else -int(np.floor(-x * os + 0.5))
        return q // os - s // 2 + 1, self._row(win, q % os, os)

    wrap = False  # the known defect: row 0 of the w-kernel instead of the last one

    def w_row(self, w):
        return int(np.floor((w - np.floor(w)) * self.w_os + 0.5))

    def pieces(self, u, v, w):
        """Separable footprint of a visibility (u, v in wavelengths from the sub-grid centre,
        w in w-steps)."""
        iu, ku = self.place(u * self.theta, self.win, self.os)
        iv, kv = self.place(v * self.theta, self.win, self.os)
        x = w  # (just below a plane, the last kernel row of the plane beneath)
        p = int(np.floor(x))
        iw = p - self.w_support // 2 + 1
        row = self.w_row(x)
        kw = self._row(self.wwin, row % self.w_os if self.wrap else row, self.w_os)
        return iu + self.sg // 2, ku, iv + self.sg // 2, kv, iw, kw

    def inside(self, iu, iv):
        return (iu >= 0) & (iv >= 0) & (iu + self.support <= self.sg) & (
            iv + self.support <= self.sg)

    def planes(self, image, lo, hi):
        return {p: fft2(image * np.exp(-2j * np.pi * self.w_step * self.n * p))
                for p in range(lo, hi)}

    def degrid(self, image, points):
        """points: list of (u, v, w in w-steps) sub-grid-local; returns visibilities."""
        cache = {}
        out = []
        for u, v, w in points:
            iu, ku, iv, kv, iw, kw = self.pieces(u, v, w)
            acc = 0
            for j, k in enumerate(kw):
                p = iw + j
                if p not in cache:
                    cache.update(self.planes(image, p, p + 1))
                acc += k * (ku @ cache[p][iu:iu + self.support, iv:iv + self.support] @ kv)
            out.append(acc)
        return np.array(out, complex)

    def grid(self, points, vis):
        """Adjoint of degrid: the sub-grid image receiving these visibilities."""
        planes = {}
        for (u, v, w), z in zip(points, vis):
            iu, ku, iv, kv, iw, kw = self.pieces(u, v, w)
            for j, k in enumerate(kw):
                g = planes.setdefault(iw + j, np.zeros((self.sg, self.sg), complex))
                g[iu:iu + self.support, iv:iv + self.support] += z * k * np.outer(ku, kv)
        img = np.zeros((self.sg, self.sg), complex)
        for p, g in planes.items():
            img += ifft2(g) * self.sg ** 2 * np.exp(2j * np.pi * self.w_step * self.n * p)
        return img

    def correction(self, shape, off_l=0, off_m=0):
        return correction(shape, self.image_size, self.theta, self.w_step, self.hu, self.hv,
                          self.support, self.w_support, off_l, off_m)


def correction(shape, image_size, theta, w_step, hu, hv, support, w_support, off_l=0, off_m=0):
    c = support * np.pi / 2
    win = pswf_window(c, image_size, 1e-15)
    il = np.arange(shape[0]) - shape[0] // 2 + off_l + image_size // 2
    im = np.arange(shape[1]) - shape[1] // 2 + off_m + image_size // 2
    out = win[il][:, None] * win[im][None, :]
    if w_support > 0:
        x = np.abs(2 * w_step * n_map(shape, theta, hu, hv, image_size, off_l, off_m))
        cw = w_support * np.pi / 2
        out = out * np.where(x < 1, pswf(cw, np.minimum(x, 1)), 1.0)
    return out


def last_row(w, os):
    """True where w (in w-steps) is so close below a w-plane that the last row of the w-kernel is
    meant (see known/p15_last_row.json), or may be, for coordinates that are not exact."""
    f = w - np.floor(w)
    return (f * os > os - 0.51) | (f < 1e-9 * (1 + np.abs(w)))
