"""Core of the property-based checks: sub-check registry, guarded arrays, API access.

A *sub-check* is one executable property: a Hypothesis strategy that yields a
JSON-able dict (the whole case, including seeds for bulk data) and a `run(p)`
that builds the inputs, calls the code under test and compares against an
oracle.  `run` returns a label string (or list of labels); labels ending in "!"
mark a case as trivial.  It raises Violation when the property is broken.
"""
import ctypes
import os
import weakref

import numpy as np


class Violation(Exception):
    """The property does not hold for this case."""

    kind = "functional"


class GuardViolation(Violation):
    """Memory outside an array, or an input array, was changed."""

    kind = "guard"


class Skip(Exception):
    """Case is outside the domain (counted as trivial)."""


REGISTRY = {}  # (prop, name) -> SubCheck


class SubCheck:
    def __init__(self, prop, name, strategy, run, quick, thorough, rule,
                 examples, asan, leak, isolate, tsan=0):
        self.prop, self.name = prop, name
        self.strategy, self.run = strategy, run
        self.quick, self.thorough = quick, thorough
        self.rule, self.examples = rule, list(examples)
        self.asan, self.leak, self.isolate = asan, leak, isolate
        self.tsan = tsan  # cases of the quick tier run in the thread-checked build (P04)

    @property
    def key(self):
        return f"{self.prop}.{self.name}"


def subcheck(prop, name, strategy, quick=200, thorough=None, rule="",
             examples=(), asan=True, leak=True, isolate=False,
             tsan=16):
    """Register a run function. quick/thorough: number of generated cases.

    asan: fraction of `quick` used when P03 replays the generator under
    AddressSanitizer (True = default share, False = never, int = count).
    """
    def deco(fn):
        REGISTRY[(prop, name)] = SubCheck(
            prop, name, strategy, fn, quick,
            thorough if thorough is not None else quick * 20,
            rule, examples, asan, leak, isolate,
            0 if prop in ("P02", "P29") else tsan)
        return fn
    return deco


# --------------------------------------------------------------------------
# Guarded arrays
# --------------------------------------------------------------------------
PAD = 0 if os.environ.get("PBT_ASAN") else 64  # elements either side

_CANARY = {"i1": 0x5B, "i4": 0x5B5B5B5B}


def _canary(dtype, n):
    dt = np.dtype(dtype)
    if dt.kind in "fc":
        a = np.empty(n, dt)
        a[:] = np.nan if dt.kind == "f" else complex(np.nan, np.nan)
        return a
    return np.full(n, _CANARY.get(dt.kind + str(dt.itemsize), 0x5B), dt)


class Guard:
    """Allocates arrays inside padded buffers and checks nothing strayed."""

    def __init__(self):
        self.items = []

    def _alloc(self, shape, dtype, layout):
        """Return (buffer, view): view of given shape inside a canary buffer.

        layout: "C", "F", or "S<k>" (every stride scaled by k, gaps hold
        canaries), or "P" (random-ish axis permutation: reversed).
        """
        shape = tuple(int(s) for s in shape)
        dt = np.dtype(dtype)
        n = int(np.prod(shape)) if shape else 1
        if layout == "C" or n == 0 or not shape:
            buf = _canary(dt, n + 2 * PAD)
            view = buf[PAD:PAD + n].reshape(shape)
        elif layout == "F":
            buf = _canary(dt, n + 2 * PAD)
            view = buf[PAD:PAD + n].reshape(shape[::-1]).T
        elif layout.startswith("S"):
            k = int(layout[1:])
            # pad inner dimension: the array is a window of a bigger one
            big = tuple(s + k for s in shape)
            nb = int(np.prod(big))
            # drop the tail after the last element so ASan sees its end
            last = sum((s - 1) * st for s, st in zip(
                shape, [int(np.prod(big[i + 1:])) for i in range(len(big))]))
            if PAD == 0:
                buf = _canary(dt, last + 1)
            else:
                buf = _canary(dt, nb + 2 * PAD)
            strides = [int(np.prod(big[i + 1:])) * dt.itemsize
                       for i in range(len(big))]
            view = np.lib.stride_tricks.as_strided(
                buf[PAD:], shape, strides, writeable=True)
        elif layout.startswith("X"):
            # every k-th element of a longer innermost dimension
            k = int(layout[1:])
            inner = shape[-1] * k
            nb = int(np.prod(shape[:-1])) * inner
            buf = _canary(dt, nb + 2 * PAD - (k - 1 if PAD == 0 else 0))
            strides = [int(np.prod(shape[i + 1:-1])) * inner * dt.itemsize
                       for i in range(len(shape) - 1)] + [k * dt.itemsize]
            view = np.lib.stride_tricks.as_strided(
                buf[PAD:], shape, strides, writeable=True)
        else:
            raise ValueError(layout)
        return buf, view

    def _put(self, data, dtype, layout, role):
        data = np.asarray(data, dtype) if dtype is not None else np.asarray(data)
        buf, view = self._alloc(data.shape, data.dtype, layout)
        view[...] = data
        self.items.append((role, buf, view, buf.copy()))
        return view

    def inp(self, data, dtype=None, layout="C"):
        """An input array: must come out byte-for-byte unchanged."""
        return self._put(data, dtype, layout, "in")

    def out(self, data, dtype=None, layout="C"):
        """An output array with the given previous contents."""
        return self._put(data, dtype, layout, "out")

    def check(self, unchanged_outputs=False):
        for i, (role, buf, view, orig) in enumerate(self.items):
            b0 = orig.view(np.uint8)
            b1 = buf.view(np.uint8)
            if role == "in" or unchanged_outputs:
                if not np.array_equal(b0, b1):
                    what = "input" if role == "in" else "output of a refused call"
                    raise GuardViolation(
                        f"array #{i} ({what}, shape {view.shape}, "
                        f"{view.dtype}) or its surroundings modified")
            else:
                # only the view may change: restore it and compare
                saved = view.copy()
                orig_view = self._twin(buf, view, orig)
                view[...] = orig_view
                same = np.array_equal(b0, b1)
                view[...] = saved
                if not same:
                    raise GuardViolation(
                        f"memory outside output array #{i} (shape "
                        f"{view.shape}, {view.dtype}) written")

    @staticmethod
    def _twin(buf, view, orig):
        off = (view.__array_interface__["data"][0]
               - buf.__array_interface__["data"][0])
        if view.size == 0:
            return view
        return np.lib.stride_tricks.as_strided(
            orig[off // buf.dtype.itemsize:], view.shape, view.strides)


# --------------------------------------------------------------------------
# C API access through ctypes
# --------------------------------------------------------------------------
_LIB = None


def clib():
    """The library under test (same object the Python bindings use)."""
    global _LIB
    if _LIB is None:
        from ska_sdp_func.utility import Lib
        _LIB = Lib.handle()
        # a second handle with private function prototypes
        _LIB = ctypes.CDLL(_LIB._name)
    return _LIB


MEM_TYPES = {
    "i1": 1, "i4": 2, "f4": 4, "f8": 8, "c8": 36, "c16": 40,
}
TYPE_TO_NP = {v: np.dtype(k) for k, v in MEM_TYPES.items()}
I64 = ctypes.c_int64


class CMem:
    """Thin owner of an sdp_Mem handle wrapping a numpy array (C API)."""

    def __init__(self, arr, mem_type=None, location=0, read_only=None,
                 shape=None, strides=None, data=None):
        lib = clib()
        key = arr.dtype.kind + str(arr.dtype.itemsize) if arr is not None else None
        t = mem_type if mem_type is not None else MEM_TYPES[key]
        shp = list(arr.shape) if shape is None else list(shape)
        st = list(arr.strides) if strides is None else list(strides)
        nd = len(shp)
        status = ctypes.c_int(0)
        fn = lib.sdp_mem_create_wrapper
        fn.restype = ctypes.c_void_p
        ptr = ctypes.c_void_p(arr.__array_interface__["data"][0]
                              if data is None else data)
        self.arr = arr
        self.h = ctypes.c_void_p(fn(
            ptr, ctypes.c_int(t), ctypes.c_int(location), ctypes.c_int32(nd),
            (I64 * max(nd, 1))(*shp), (I64 * max(nd, 1))(*st),
            ctypes.byref(status)))
        if status.value:
            raise RuntimeError(f"cannot wrap array: {status.value}")
        ro = (not arr.flags.writeable) if read_only is None else read_only
        lib.sdp_mem_set_read_only.restype = None
        lib.sdp_mem_set_read_only(self.h, ctypes.c_int32(int(ro)))
        self._fin = weakref.finalize(self, _free_mem, self.h)

    @property
    def _as_parameter_(self):
        return self.h


def _free_mem(h):
    f = clib().sdp_mem_free
    f.restype = None
    f(h)


def ccall(name, *args, status=0, restype=None):
    """Call a C function whose last argument is sdp_Error*; returns
    (status, result)."""
    fn = getattr(clib(), name)
    fn.restype = restype
    st = ctypes.c_int(status)
    conv = []
    for a in args:
        if isinstance(a, float):
            conv.append(ctypes.c_double(a))
        elif isinstance(a, (CMem,)):
            conv.append(a.h)
        elif isinstance(a, np.ndarray):
            conv.append(CMem(a))
        else:
            conv.append(a)
    keep = conv
    conv = [c.h if isinstance(c, CMem) else c for c in conv]
    res = fn(*conv, ctypes.byref(st))
    del keep
    return st.value, res


def ccall_ok(name, *args, restype=None):
    st, res = ccall(name, *args, restype=restype)
    if st:
        raise Violation(f"{name} refused valid arguments with status {st}")
    return res


I32 = ctypes.c_int32
CI = ctypes.c_int
CD = ctypes.c_double


def set_threads(n):
    g = _gomp()
    g.omp_set_num_threads(ctypes.c_int(n))


_G = None


def _gomp():
    global _G
    if _G is None:
        clib()
        # (the thread-checked build runs on native/ompshim.cpp instead)
        _G = ctypes.CDLL(None if os.environ.get("PBT_TSAN") else "libgomp.so.1")
    return _G


# --------------------------------------------------------------------------
# Comparison
# --------------------------------------------------------------------------
class _Rng(np.random.Generator):
    """A generator whose normal numbers are special in some cases: some zeros, arrays (so, real
    or imaginary parts) of zeros, integers (so, ties and exact sums), constants."""

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.mode = (seed * 2654435761 >> 9) % 16 if seed > 1 else 15

    def standard_normal(self, *args, **kw):
        x = super().standard_normal(*args, **kw)
        if self.mode > 3:
            return x
        y = np.array(x, copy=True)
        if self.mode == 0 and y.size:
            y[super().random(y.shape) < 0.3] = 0
        elif self.mode == 1 and super().random() < 0.5:
            y[...] = 0
        elif self.mode == 2:
            y = np.round(y)
        elif self.mode == 3 and super().random() < 0.5 and y.size:
            y[...] = y.flat[0]
        return y if np.ndim(x) else y[()]


def rng(seed, plain=False):
    r = _Rng(int(seed))
    if plain:
        r.mode = 15
    return r


def close(name, got, want, rtol=0.0, atol=0.0, ctx=""):
    """|got-want| <= atol + rtol*|want| elementwise; NaN in got is a failure
    unless want is NaN as well."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape} != {want.shape} {ctx}")
    if got.size == 0:
        return
    with np.errstate(all="ignore"):
        err = np.abs(got.astype(np.result_type(got, np.float64))
                     - want.astype(np.result_type(want, np.float64)))
        lim = atol + rtol * np.abs(want)
        same = (got == want) | (np.isnan(got) & np.isnan(want))
        bad = ~((err <= lim) | same)
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(
            bad, np.where(np.isnan(err), np.inf, err - lim), -1))), bad.shape)
        i = tuple(int(k) for k in i)
        raise Violation(
            f"{name}{list(i)}: got {got[i]!r}, expected {want[i]!r} "
            f"(error {err[i]:.3g}, allowed {np.broadcast_to(lim, bad.shape)[i]:.3g}; "
            f"{int(bad.sum())}/{bad.size} elements wrong) {ctx}")


def same(name, got, want, ctx=""):
    """Bit-for-bit value equality (NaN equal to NaN)."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape} != {want.shape} {ctx}")
    eq = (got == want)
    if got.dtype.kind in "fc":
        eq |= np.isnan(got) & np.isnan(want)
    if not eq.all():
        i = tuple(int(k) for k in np.argwhere(~eq)[0])
        raise Violation(f"{name}{list(i)}: got {got[i]!r}, expected "
                        f"{want[i]!r} ({int((~eq).sum())}/{eq.size}) {ctx}")


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def api_error():
    from ska_sdp_func.utility import CError
    return CError
