"""P13: prolate spheroidal wave functions, every way the library produces them."""
import ctypes

import numpy as np
import scipy.special
from hypothesis import strategies as st

from ..core import CD, CI, CMem, Guard, I32, ccall_ok, clib, close, require, rng, subcheck
from ..gen import choice, fd, fl, seeds, size
from ..oracles import pswf, pswf_tol, pswf_window

params = st.one_of(st.integers(0, 16).map(lambda s: s * np.pi / 2), fl(0.0, 26.0),
                   choice(0.0, 1e-12, 1e-3, 4.0), fl(0.0, 40.0))
sizes = st.one_of(size(1, 600, 12), choice(1, 2, 3, 4, 5, 255, 256, 257))


class Plan:
    def __init__(self, m, c):
        f = clib().sdp_pswf_create
        f.restype = ctypes.c_void_p
        self.h = ctypes.c_void_p(f(CI(m), CD(c)))

    def eval(self, x):
        f = clib().sdp_pswf_evaluate
        f.restype = ctypes.c_double
        return f(self.h, CD(x))

    def par(self, w):
        f = getattr(clib(), "sdp_pswf_par_" + w)
        f.restype = ctypes.c_double
        return f(self.h)

    def values(self):
        h = ctypes.c_void_p(ccall_ok("sdp_pswf_values", self.h, CI(0), restype=ctypes.c_void_p))
        lib = clib()
        lib.sdp_mem_num_elements.restype = ctypes.c_int64
        lib.sdp_mem_data_const.restype = ctypes.c_void_p
        n = lib.sdp_mem_num_elements(h)
        p = lib.sdp_mem_data_const(h)
        return np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_double)), (n,)).copy()

    def free(self):
        f = clib().sdp_pswf_free
        f.restype = None
        f(self.h)


@subcheck("P13", "generate", fd(
    c=params, n=sizes, n2=sizes, end=st.booleans(), dt=choice("f8", "f4", "c16", "c8"),
    layout=choice("C", "S1"), x=fl(-1.2, 1.2), seed=seeds), quick=8000, thorough=120000,
    rule="random size parameters (0 to 40, including those of every kernel support) and array "
         "sizes odd and even in four element types; oracle is an independent eigenvector solution; "
         "filled arrays, cached values, point evaluation and the stateless generator must agree; "
         "non-trivial: more than two samples",
    examples=[dict(c=8 * np.pi / 2, n=256, n2=257, end=True, dt="f8", layout="C", x=0.3, seed=1)])
def generate(p):
    c, n = p["c"], p["n"]
    tol = pswf_tol(c)
    dt = np.dtype(p["dt"])
    want = pswf_window(c, n, 0.0 if not p["end"] else 1e-15)
    eps = 1.2e-7 if dt in (np.dtype("f4"), np.dtype("c8")) else 4e-16
    g = Guard()
    out = g.out(np.full(n, -5.0), dt, p["layout"] if n > 1 else "C")
    plan = Plan(0, c)
    require(plan.par("c") == c and plan.par("m") == 0, "plan parameters")
    ccall_ok("sdp_pswf_generate", plan.h, CMem(out), CI(0), CI(int(p["end"])))
    close("generated", out, want, rtol=eps, atol=tol)
    if n % 2 == 0 and n > 2 and c > 0:
        require(abs(out[0]) <= 1e-15 * (1 + eps) and (abs(out[0]) > 0) == p["end"],
                f"value at the domain edge: {out[0]!r}")
    # stateless generator: no end correction
    o2 = g.out(np.full(n, -5.0), dt)
    ccall_ok("sdp_generate_pswf", CI(0), CD(c), CMem(o2))
    w2 = out.copy()
    if n % 2 == 0 and n > 1:
        w2[0] = 0
        if n == 2:
            w2[1] = out[1]
    close("stateless generator", o2, w2, rtol=2 * eps, atol=1e-13)
    # cached values, replaced by a second size
    for k in (n, p["n2"]):
        ccall_ok("sdp_pswf_generate", plan.h, None, CI(k), CI(int(p["end"])))
        v = plan.values()
        require(v.size == k, f"cached size {v.size}, asked for {k}")
        close("cached values", v, pswf_window(c, k, 1e-15 if p["end"] else 0.0), atol=tol, rtol=4e-16)
        half = k // 2
        close("even about the centre", v[half + 1:][:half - 1 + k % 2],
              v[:half][::-1][:half - 1 + k % 2], atol=1e-13)
        require(v[half] == 1.0 or abs(v[half] - 1) < tol, "centre value is not 1")
        i = int(rng(p["seed"]).integers(0, k))
        x = 2.0 * (i - half) / k
        if not (i == 0 and k % 2 == 0):
            close("evaluate against array", plan.eval(x), v[i], atol=1e-14)
    x = p["x"]
    close("evaluate", plan.eval(x), float(pswf(c, x)) if abs(x) < 1 else 0.0, atol=tol, rtol=1e-13)
    close("evaluate is even", plan.eval(-x), plan.eval(x))
    plan.free()
    g.check()
    return [p["dt"], "odd" if n % 2 else "even", "tiny!" if n <= 2 else "sampled"]


@subcheck("P13", "modes", fd(m=st.integers(1, 3), c=fl(0.1, 14.0), n=sizes, x=fl(-0.99, 0.99)),
          quick=1500, thorough=20000,
          rule="mode parameters 1 to 3 against scipy's angular functions, arrays and point values; "
               "non-trivial: more than two samples")
def modes(p):
    m, c, n = p["m"], p["c"], p["n"]
    i = np.arange(n)
    x = 2.0 * (i - n // 2) / n
    want = scipy.special.pro_ang1(m, m, c, np.where(x == -1, 0, np.abs(x)))[0]
    if n % 2 == 0:
        want[0] = 0.0
    tol = 1e-9 * max(1.0, np.abs(want).max())
    g = Guard()
    out = g.out(np.full(n, -5.0))
    ccall_ok("sdp_generate_pswf", CI(m), CD(c), CMem(out))
    close("generated", out, want, atol=tol)
    plan = Plan(m, c)
    require(plan.par("m") == m, "mode parameter")
    close("evaluate", plan.eval(p["x"]), scipy.special.pro_ang1(m, m, c, abs(p["x"]))[0], atol=tol)
    plan.free()
    g.check()
    return ["tiny!" if n <= 2 else "sampled"]
