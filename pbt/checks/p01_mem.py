"""P01: array descriptors against an ordinary n-d array model (stateful)."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from ..core import api_error, close, require, rng, same, set_threads, subcheck, clib
from ..gen import choice, fd, seeds

P, I32, I64, D = ctypes.c_void_p, ctypes.c_int32, ctypes.c_int64, ctypes.c_double
ST = ctypes.POINTER(ctypes.c_int)
TYPES = {1: np.int8, 2: np.int32, 4: np.float32, 8: np.float64, 36: np.complex64, 40: np.complex128}
CODE = {np.dtype(v): k for k, v in TYPES.items()}
_sig = {
    "sdp_mem_create": (P, I32, I32, I32, P, ST),
    "sdp_mem_create_wrapper": (P, P, I32, I32, I32, P, P, ST),
    "sdp_mem_create_wrapper_for_slice": (P, P, P, I32, P, ST),
    "sdp_mem_create_alias": (P, P),
    "sdp_mem_create_copy": (P, P, I32, ST),
    "sdp_mem_clear_contents": (None, P, ST),
    "sdp_mem_clear_portion": (None, P, I64, I64, ST),
    "sdp_mem_convert_precision": (P, P, I32, ST),
    "sdp_mem_copy_contents": (None, P, P, I64, I64, I64, ST),
    "sdp_mem_copy_contents_async": (None, P, P, I64, I64, I64, P, ST),
    "sdp_mem_data": (P, P), "sdp_mem_data_const": (P, P),
    "sdp_mem_gpu_buffer": (P, P, ST), "sdp_mem_gpu_buffer_const": (P, P, ST),
    "sdp_mem_free": (None, P), "sdp_mem_ref_dec": (None, P), "sdp_mem_ref_inc": (P, P),
    "sdp_mem_is_c_contiguous": (I32, P), "sdp_mem_is_floating_point": (I32, P),
    "sdp_mem_is_complex": (I32, P), "sdp_mem_is_complex4": (I32, P),
    "sdp_mem_is_double": (I32, P), "sdp_mem_is_matching": (I32, P, P, I32),
    "sdp_mem_is_read_only": (I32, P), "sdp_mem_location": (I32, P),
    "sdp_mem_num_dims": (I32, P), "sdp_mem_num_elements": (I64, P),
    "sdp_mem_random_fill": (None, P, ST), "sdp_mem_scale_real": (None, P, D, ST),
    "sdp_mem_set_read_only": (None, P, I32), "sdp_mem_set_value": (None, P, I32, ST),
    "sdp_mem_shape_dim": (I64, P, I32), "sdp_mem_stride_bytes_dim": (I64, P, I32),
    "sdp_mem_stride_elements_dim": (I64, P, I32), "sdp_mem_type": (I32, P),
    "sdp_mem_type_size": (I64, I32), "sdp_mem_type_name": (ctypes.c_char_p, I32),
    "sdp_mem_location_name": (ctypes.c_char_p, I32),
}
_fns = {}
_LIB = []


def _lib():
    if not _LIB:
        _LIB.append(ctypes.CDLL(clib()._name))
    return _LIB[0]


def F(name):
    if name not in _fns:
        f = _lib()[name]
        f.restype, f.argtypes = _sig[name][0], list(_sig[name][1:])
        _fns[name] = f
    return _fns[name]


def C(name, *args):
    """Call a function whose last argument is the status; return (status, result)."""
    s = ctypes.c_int(0)
    r = F(name)(*args, ctypes.byref(s))
    return s.value, r


def i64s(v):
    return (ctypes.c_int64 * max(1, len(v)))(*v)


class Buf:
    """A block of memory and the model of what it must contain."""

    def __init__(self, real, model, owner):
        self.real, self.model, self.owner = real, model, owner  # uint8 arrays
        self.alive = True


class H:
    """One live handle: model view, backing block, flags and reference count."""

    def __init__(self, ptr, arr, buf, ro=False, owns=False, refs=1, null=False):
        self.ptr, self.arr, self.buf, self.ro, self.owns, self.refs = ptr, arr, buf, ro, owns, refs
        self.null = null  # no memory behind the handle


def _real_view(h):
    """The memory the handle describes, read through what it reports."""
    if h.arr.size == 0 or h.null:
        return np.zeros(h.arr.shape, h.arr.dtype)
    ptr = F("sdp_mem_data")(h.ptr)
    nd = h.arr.ndim
    shape = [F("sdp_mem_shape_dim")(h.ptr, i) for i in range(nd)]
    strides = [F("sdp_mem_stride_bytes_dim")(h.ptr, i) for i in range(nd)]
    lo = sum(min(0, (n - 1) * s) for n, s in zip(shape, strides))
    hi = sum(max(0, (n - 1) * s) for n, s in zip(shape, strides)) + h.arr.itemsize
    raw = np.frombuffer((ctypes.c_char * (hi - lo)).from_address(ptr + lo), np.uint8)
    return np.ndarray(shape, h.arr.dtype, raw.data, -lo, strides)


def _check(h):
    a, nd = h.arr, h.arr.ndim
    q = lambda n, *x: F("sdp_mem_" + n)(h.ptr, *x)
    null = h.null
    require(q("num_dims") == nd, f"number of dimensions {q('num_dims')}, expected {nd}")
    for i in range(nd):
        require(q("shape_dim", i) == a.shape[i], f"shape[{i}] = {q('shape_dim', i)}, expected {a.shape}")
        if a.size and not null:
            require(q("stride_bytes_dim", i) == a.strides[i] or a.shape[i] == 1,
                    f"stride[{i}] = {q('stride_bytes_dim', i)}, expected {a.strides}")
            require(q("stride_elements_dim", i) * a.itemsize == q("stride_bytes_dim", i)
                    or a.strides[i] % a.itemsize, "stride in elements")
    for i in (-1, nd, nd + 3):
        require(q("shape_dim", i) == 0 and q("stride_bytes_dim", i) == 0, "size of a dimension out of range")
    t = CODE[a.dtype]
    require(q("type") == t, f"type {q('type')}, expected {t}")
    require(q("location") == (1 if null == "gpu" else 0), "location")
    n = 0 if null else a.size
    require(q("num_elements") == n, f"element count {q('num_elements')}, expected {n}")
    require((q("data") or 0) == (q("data_const") or 0), "data pointers differ")
    if null:
        require(not q("data"), "data of a handle without memory")
        return
    cplx = a.dtype.kind == "c"
    require(bool(q("is_complex")) == cplx, "is_complex")
    require(bool(q("is_double")) == (t & 8 == 8), "is_double")
    require(bool(q("is_floating_point")) == (a.dtype.kind == "f"), "is_floating_point")
    c4 = cplx and ((nd > 1 and a.shape[-1] == 4) or (nd > 2 and a.shape[-2:] == (2, 2)))
    require(bool(q("is_complex4")) == c4, f"is_complex4 of shape {a.shape}")
    require(bool(q("is_read_only")) == h.ro, f"read-only flag {q('is_read_only')}, expected {h.ro}")
    if 1 not in a.shape and 0 not in a.shape:
        require(bool(q("is_c_contiguous")) == a.flags.c_contiguous,
                f"contiguity of shape {a.shape} strides {a.strides}: {q('is_c_contiguous')}")
    elif not a.flags.c_contiguous:
        require(not q("is_c_contiguous"), "non-contiguous array reported as contiguous")
    s, r = C("sdp_mem_gpu_buffer", h.ptr)
    require(s and not r, "a CPU array was given out as a GPU buffer")
    got = _real_view(h)
    if not np.array_equal(got, a, equal_nan=cplx or a.dtype.kind == "f"):
        k = np.argwhere(~((got == a) | ((got != got) & (a != a))))[0]
        require(False, f"element {k.tolist()} of {a.dtype} array {a.shape}/{a.strides} "
                       f"is {got[tuple(k)]}, expected {a[tuple(k)]}")


def _layout(r, shape, dtype, kind):
    """(flat byte buffer, view with the wanted layout) of random contents."""
    nd = len(shape)
    item = np.dtype(dtype).itemsize
    if kind == "broadcast" and nd and 0 not in shape:
        ax = int(r.integers(nd))
        inner = list(shape)
        inner[ax] = 1
        flat = np.zeros((int(np.prod(inner)) + 4) * item, np.uint8)
        v = flat.view(dtype)[2:2 + int(np.prod(inner))].reshape(inner)
        v = np.lib.stride_tricks.as_strided(v, shape, [0 if i == ax else s for i, s in enumerate(v.strides)])
    else:
        perm = np.arange(nd)
        steps, pads = np.ones(nd, int), np.zeros(nd, int)
        if kind == "F":
            perm = perm[::-1]
        elif kind == "strided":
            perm = r.permutation(nd)
            steps = r.choice([1, 1, 2, 3, -1, -2], nd)
            pads = r.integers(0, 3, nd)
        big = [abs(int(steps[i])) * shape[i] + int(pads[i]) for i in range(nd)]
        order = [big[i] for i in perm]
        n = int(np.prod(order)) if nd else 1
        flat = np.zeros((n + 4) * item, np.uint8)
        base = flat.view(dtype)[2:2 + n].reshape(order).transpose(np.argsort(perm) if nd else ())
        sl = []
        for i in range(nd):
            s, k = int(steps[i]), shape[i]
            if s > 0:
                sl.append(slice(0, s * k, s))
            else:
                first = -s * (k - 1) if k else 0
                stop = first + s * k
                sl.append(slice(first, stop if stop >= 0 else None, s) if k else slice(0, 0))
        v = base[tuple(sl)] if nd else base
    f = flat.view(dtype)
    if np.dtype(dtype).kind in "fc":
        f[:] = r.integers(-999, 999, f.shape) / 8
        if np.dtype(dtype).kind == "c":
            f += 1j * r.integers(-999, 999, f.shape) / 8
        if r.random() < 0.2:
            f *= 1 + 2.0 ** -40
    else:
        f[:] = r.integers(-128, 128, f.shape)
    assert v.shape == tuple(shape)
    return flat, v


def _mirror(flat, view):
    """Copy of the flat buffer and the same view of the copy."""
    m = flat.copy()
    off = view.__array_interface__["data"][0] - flat.__array_interface__["data"][0]
    if view.size == 0:
        return m, np.zeros(view.shape, view.dtype)
    lo = off
    return m, np.ndarray(view.shape, view.dtype, m.data, lo, view.strides)


shapes = st.lists(st.one_of(st.integers(1, 4), st.integers(1, 5), st.integers(1, 7), st.integers(0, 6)),
                  min_size=0, max_size=6)
full = st.lists(st.integers(1, 5), min_size=1, max_size=4)
START = st.one_of(
    st.tuples(st.just("create"), st.sampled_from([2, 4, 8, 36, 40]), full),
    st.tuples(st.just("wrap"), st.sampled_from([1, 2, 4, 8, 36, 40]), full,
              st.sampled_from(["C", "F", "strided", "strided"]), st.integers(0, 1000)))
idx = st.integers(0, 30)
frac = st.integers(-2, 10)
OP = st.one_of(
    st.tuples(st.just("create"), st.sampled_from(list(TYPES)), shapes),
    st.tuples(st.just("wrap"), st.sampled_from(list(TYPES)), shapes,
              st.sampled_from(["C", "F", "strided", "strided", "broadcast", "null-strides"]),
              st.integers(0, 1000)),
    st.tuples(st.just("slice"), idx, st.integers(0, 2**31 - 1), st.sampled_from(["in", "in", "in", "edge", "any"])),
    st.tuples(st.just("alias"), idx),
    st.tuples(st.just("copy"), idx),
    st.tuples(st.just("copyto"), idx, idx, frac, frac, frac, st.booleans()),
    st.tuples(st.just("clear"), idx),
    st.tuples(st.just("clearpart"), idx, frac, frac),
    st.tuples(st.just("set"), idx, st.sampled_from([0, 1, -1, 7, 2**31 - 1, -2**31, 16777217])),
    st.tuples(st.just("scale"), idx, st.sampled_from([0.0, 1.0, -2.5, 1 / 3, 1e-3, 0.1])),
    st.tuples(st.just("convert"), idx, st.sampled_from(list(TYPES))),
    st.tuples(st.just("random"), idx),
    st.tuples(st.just("ro"), idx, st.integers(0, 1)),
    st.tuples(st.just("ref"), idx),
    st.tuples(st.just("free"), idx),
    st.tuples(st.just("free"), idx),
    st.tuples(st.just("match"), idx, idx),
    st.tuples(st.just("bad"), st.sampled_from(["gpu", "negative", "negative2", "type", "location"]), shapes),
)


@subcheck("P01", "history", fd(
    ops=st.tuples(st.lists(START.map(list), min_size=1, max_size=3), st.lists(OP.map(list), min_size=4, max_size=26)).map(
        lambda t: t[0] + t[1]), seed=seeds),
          quick=9000, thorough=200000,
          rule="sequences of descriptor operations on up to 8 live handles, compared after every "
               "step with a model of n-d arrays over the same memory blocks, including the bytes "
               "around them; non-trivial: an array was sliced, aliased, copied or copied into")
def history(p):
    r = rng(p["seed"])
    set_threads(1 + p["seed"] % 3)
    live, bufs, used = [], [], set()

    def drop(h):
        """Forget the handle; if it owned its memory, forget all views of it too."""
        live.remove(h)
        if h.owns:
            h.buf.alive = False
            for o in [o for o in live if o.buf is h.buf]:
                while o.refs:
                    F("sdp_mem_free")(o.ptr)
                    o.refs -= 1
                live.remove(o)

    def owned(ptr, arr_expected, what):
        require(ptr, what + " returned no handle")
        m = np.array(arr_expected, order="C")
        h = H(ptr, m, Buf(None, None, True), owns=True)
        h.null = False if m.size else "empty"
        if m.size:
            s = [F("sdp_mem_stride_bytes_dim")(ptr, i) for i in range(m.ndim)]
            # A copy may have any dense layout.
            if any(n > 1 and x != y for n, x, y in zip(m.shape, s, m.strides)):
                ok = sorted((x, n) for n, x in zip(m.shape, s) if n > 1)
                step = m.itemsize
                for x, n in ok:
                    require(x == step, f"{what}: strides {s} of shape {m.shape} are not dense")
                    step *= n
                k = np.argsort([-x for x in s], kind="stable")
                t = np.ascontiguousarray(m.transpose(k)).transpose(np.argsort(k))
                h.arr = t
        h.buf.model = h.arr
        live.append(h)
        return h

    def pick(i):
        return live[i % len(live)] if live else None

    def check_all():
        for h in live:
            _check(h)
        for b in bufs:
            if not np.array_equal(b.real, b.model):
                k = int(np.flatnonzero(b.real != b.model)[0])
                require(False, f"byte {k} of a wrapped block of {b.real.size} bytes was changed "
                               "by an operation on a view that does not contain it")

    def overlap(a, b):
        return a.buf is b.buf

    for op in p["ops"]:
        k, a = op[0], op[1:]
        if k in ("create", "wrap", "slice", "alias", "copy", "convert") and len(live) >= 8:
            h = pick(int(r.integers(8)))
            while h.refs:
                F("sdp_mem_free")(h.ptr)
                h.refs -= 1
            drop(h)
        if k == "create":
            s, q = C("sdp_mem_create", a[0], 0, len(a[1]), i64s(a[1]))
            require(s == 0, f"creating {a[1]} failed: {s}")
            owned(q, np.zeros(a[1], TYPES[a[0]]), "create")
        elif k == "wrap":
            kind = a[2]
            flat, v = _layout(rng(a[3]), a[1], TYPES[a[0]], "C" if kind == "null-strides" else kind)
            m, mv = _mirror(flat, v)
            b = Buf(flat, m, False)
            s, q = C("sdp_mem_create_wrapper", v.__array_interface__["data"][0], a[0], 0, v.ndim,
                     i64s(v.shape), None if kind == "null-strides" else i64s(v.strides))
            require(s == 0 and q, f"wrapping {v.shape} failed: {s}")
            h = H(q, mv, b, ro=kind == "broadcast")
            if v.size == 0:
                h.arr = np.zeros(v.shape, v.dtype)
                require(F("sdp_mem_num_elements")(q) == 0, "element count of an empty array")
                F("sdp_mem_free")(q)
                continue
            if h.ro:
                F("sdp_mem_set_read_only")(q, 1)
            bufs.append(b)
            live.append(h)
        elif k == "bad":
            want = {"gpu": None, "negative": None, "negative2": None, "type": None, "location": None}
            shape, t, loc = list(a[1]), 8, 0
            if a[0] == "gpu":
                loc = 1
            elif a[0] == "location":
                loc = 7
            elif a[0] == "type":
                t = int(r.choice([3, 5, 16, 32, 33, 34, 64, -1]))
            else:
                shape = shape or [1]
                shape[int(r.integers(len(shape)))] = -2
                if a[0] == "negative2":
                    shape.append(-3)
            if a[0] in ("gpu", "location") and 0 in shape:
                continue
            s, q = C("sdp_mem_create", t, loc, len(shape), i64s(shape))
            require(s != 0, f"creating an impossible array ({a[0]}, shape {shape}, type {t}, location {loc}) succeeded")
            if q:
                require(not F("sdp_mem_data")(q), "memory was allocated despite the error")
                require(F("sdp_mem_num_elements")(q) == 0, "elements reported without memory")
                F("sdp_mem_free")(q)
        elif not live:
            continue
        elif k == "slice":
            h = pick(a[0])
            if h.null:
                continue
            g = rng(a[1])
            nd = h.arr.ndim
            ns = int(g.integers(0, nd + 1))
            off = [int(g.integers(0, n)) if n else 0 for n in h.arr.shape]
            shp = [int(g.integers(0, h.arr.shape[nd - ns + i] - off[nd - ns + i] + 1)) for i in range(ns)]
            shp = [max(1, x) if g.random() < 0.8 else x for x in shp]
            if a[2] == "edge" and nd:
                i = int(g.integers(nd))
                off[i] = int(g.choice([-1, h.arr.shape[i], max(0, h.arr.shape[i] - 1)]))
                if i >= nd - ns:
                    shp[i - nd + ns] = int(g.choice([1, 2, h.arr.shape[i], h.arr.shape[i] + 1]))
            elif a[2] == "any":
                ns = int(g.integers(-1, nd + 2))
                off = [int(x) for x in g.integers(-2, 8, nd)]
                shp = [int(x) for x in g.integers(-1, 8, max(0, ns))]
            inside = 0 <= ns <= nd and all(0 <= o < n for o, n in zip(off, h.arr.shape)) and all(
                0 <= shp[i] <= h.arr.shape[nd - ns + i] - off[nd - ns + i] for i in range(ns))
            s, q = C("sdp_mem_create_wrapper_for_slice", h.ptr, i64s(off), ns, i64s(shp))
            require(inside == (s == 0), f"slice at {off} of shape {shp} of an array of shape "
                                        f"{h.arr.shape} gave status {s}")
            if not inside:
                if q:
                    F("sdp_mem_free")(q)
                continue
            require(q, "no handle for a slice")
            sl = tuple(off[:nd - ns]) + tuple(slice(o, o + n) for o, n in zip(off[nd - ns:], shp))
            v = h.arr[sl + (Ellipsis,)]
            n = H(q, v, h.buf, ro=h.ro)
            if v.size == 0:
                require(F("sdp_mem_num_elements")(q) == 0, "element count of an empty slice")
                F("sdp_mem_free")(q)
                continue
            live.append(n)
            used.add("view")
        elif k == "alias":
            h = pick(a[0])
            q = F("sdp_mem_create_alias")(h.ptr)
            require(q, "no alias")
            live.append(H(q, h.arr, h.buf, ro=h.ro, null=h.null))
            used.add("view")
        elif k == "copy":
            h = pick(a[0])
            s, q = C("sdp_mem_create_copy", h.ptr, 0)
            require(s == 0, f"copying shape {h.arr.shape} failed: {s}")
            owned(q, h.arr, "copy")
            used.add("copy")
        elif k == "convert":
            h = pick(a[0])
            src, dst = h.arr.dtype, np.dtype(TYPES[a[1]])
            cont = F("sdp_mem_is_c_contiguous")(h.ptr)
            s, q = C("sdp_mem_convert_precision", h.ptr, a[1])
            ok = cont and (src == dst or (src.kind == dst.kind and src.kind in "fc"))
            require(ok == (s == 0) if cont or not h.null else True,
                    f"conversion {src} -> {dst} gave status {s} (contiguous: {cont})")
            if s == 0:
                owned(q, h.arr.astype(dst), "conversion")
                used.add("copy")
            elif q:
                F("sdp_mem_free")(q)
        elif k == "copyto":
            d, h = pick(a[0]), pick(a[1])
            if d.ro or d.null or h.null or overlap(d, h):
                continue
            n = max(1, d.arr.size, h.arr.size)
            pos = lambda f, size: f if f < 3 else (size * (f - 3)) // 7
            od, os_ = pos(a[2], d.arr.size), pos(a[3], h.arr.size)
            cnt = min(d.arr.size - od, h.arr.size - os_) + (a[4] - 3) if a[4] < 6 else min(d.arr.size - od, h.arr.size - os_)
            ok = (od >= 0 and os_ >= 0 and cnt >= 0 and od + cnt <= d.arr.size and os_ + cnt <= h.arr.size)
            args = [d.ptr, h.ptr, od, os_, cnt] + ([None] if a[5] else [])
            s, _ = C("sdp_mem_copy_contents" + ("_async" if a[5] else ""), *args)
            if cnt == 0:
                continue
            ok = ok and d.arr.dtype == h.arr.dtype
            require(ok == (s == 0), f"copying {cnt} elements from {os_} of {h.arr.size} {h.arr.dtype} "
                                    f"to {od} of {d.arr.size} {d.arr.dtype} gave status {s}")
            if ok:
                d.arr.flat[od:od + cnt] = h.arr.flat[os_:os_ + cnt]
                used.add("copy")
        elif k == "clear":
            h = pick(a[0])
            if h.ro:
                continue
            s, _ = C("sdp_mem_clear_contents", h.ptr)
            require(s == 0, f"clearing failed: {s}")
            if not h.null:
                h.arr[...] = 0
        elif k == "clearpart":
            h = pick(a[0])
            if h.ro or h.null:
                continue
            n = h.arr.size
            b0 = a[1] if a[1] < 3 else (n * (a[1] - 3)) // 7
            cnt = n - b0 + (a[2] - 3) if a[2] < 6 else (n - b0 + 1) // 2
            if cnt == 0:
                continue
            s, _ = C("sdp_mem_clear_portion", h.ptr, b0, cnt)
            ok = b0 >= 0 and cnt >= 0 and b0 + cnt <= n
            require(ok == (s == 0), f"clearing {cnt} elements from {b0} of {n} gave status {s}")
            if ok:
                h.arr.flat[b0:b0 + cnt] = 0
        elif k == "set":
            h = pick(a[0])
            s, _ = C("sdp_mem_set_value", h.ptr, a[1])
            ok = 1 <= h.arr.ndim <= 3 and h.arr.dtype != np.int8 and not h.ro
            if h.null:
                continue
            require(ok == (s == 0), f"setting values of a {h.arr.ndim}-d {h.arr.dtype} array "
                                    f"(read-only: {h.ro}) gave status {s}")
            if ok:
                h.arr[...] = a[1]
        elif k == "scale":
            h = pick(a[0])
            if h.ro or h.null:
                continue
            cont = F("sdp_mem_is_c_contiguous")(h.ptr)
            s, _ = C("sdp_mem_scale_real", h.ptr, a[1])
            ok = bool(cont) and h.arr.dtype.kind in "fc"
            require(ok == (s == 0), f"scaling a {h.arr.dtype} array (contiguous: {cont}) gave status {s}")
            if ok:
                # Take the values from the implementation where they agree to
                # rounding, so that later steps can be compared exactly.
                want = h.arr * h.arr.real.dtype.type(a[1])
                got = _real_view(h)
                e = np.finfo(h.arr.real.dtype).eps
                require(np.all(np.abs(got - want) <= 2 * e * np.abs(want)), "scaled values")
                h.arr[...] = got
        elif k == "random":
            h = pick(a[0])
            if h.ro or h.null or h.arr.dtype.kind not in "fc":
                continue
            s, _ = C("sdp_mem_random_fill", h.ptr)
            require(s == 0, f"random fill failed: {s}")
            got = _real_view(h)
            for part in (got.real, got.imag) if h.arr.dtype.kind == "c" else (got,):
                require(np.all((part >= 0) & (part <= 1)), "random values outside [0, 1]")
                uniq = all(x != 0 or n == 1 for n, x in zip(h.arr.shape, h.arr.strides))
                if h.arr.size >= 8 and uniq:
                    require(len(np.unique(part)) > h.arr.size // 2, "random values repeat")
            h.arr[...] = got
        elif k == "ro":
            h = pick(a[0])
            if h.null or 0 in h.arr.strides:
                continue
            F("sdp_mem_set_read_only")(h.ptr, a[1])
            h.ro = bool(a[1])
        elif k == "ref":
            h = pick(a[0])
            require(F("sdp_mem_ref_inc")(h.ptr) == h.ptr, "sdp_mem_ref_inc returned another handle")
            h.refs += 1
        elif k == "free":
            h = pick(a[0])
            F("sdp_mem_free" if a[0] % 2 else "sdp_mem_ref_dec")(h.ptr)
            h.refs -= 1
            if h.refs == 0:
                drop(h)
        elif k == "match":
            h, o = pick(a[0]), pick(a[1])
            if h.null or o.null:
                continue
            st_ = lambda x: [F("sdp_mem_stride_bytes_dim")(x.ptr, i) for i in range(x.arr.ndim)]
            want = h.arr.dtype == o.arr.dtype and h.arr.shape == o.arr.shape and st_(h) == st_(o)
            for loc in (0, 1):
                require(bool(F("sdp_mem_is_matching")(h.ptr, o.ptr, loc)) == want,
                        f"is_matching of {h.arr.dtype}{h.arr.shape} and {o.arr.dtype}{o.arr.shape}")
        check_all()
    while live:
        h = live[-1]
        F("sdp_mem_free")(h.ptr)
        h.refs -= 1
        if h.refs == 0:
            drop(h)
    return "+".join(sorted(used)) if used else "basic!"


def _np_arrays():
    dts = ["int8", "int32", "float32", "float64", "complex64", "complex128",
           "uint8", "int16", "uint32", "int64", "float16", "bool", "S4", "O", ">f8"]
    return fd(dtype=choice(*dts), shape=shapes, kind=choice("C", "F", "strided", "broadcast"),
              write=st.booleans(), seed=seeds)


@subcheck("P01", "python_mem", _np_arrays(), quick=6000, thorough=100000,
          rule="ska_sdp_func.utility.Mem built from NumPy arrays of any type, layout and "
               "writability; the handle must describe exactly that array; non-trivial: the type is "
               "supported and the array is not a plain C-ordered one")
def python_mem(p):
    from ska_sdp_func.utility import Mem
    dt = np.dtype(p["dtype"])
    if p["dtype"] in ("int8", "int32", "float32", "float64", "complex64", "complex128"):
        _, v = _layout(rng(p["seed"]), p["shape"], dt, p["kind"])
    else:
        try:
            Mem(np.zeros(p["shape"], dt))
        except TypeError:
            return "refused"
        require(False, f"an array of type {p['dtype']} was accepted")
    if not p["write"]:
        v.flags.writeable = False
    keep = v.copy()
    m = Mem(v)
    ptr = ctypes.cast(m._as_parameter_, P).value
    if v.size:
        h = H(ptr, v, None, ro=not v.flags.writeable)
        _check(h)
        require(F("sdp_mem_data")(ptr) == v.ctypes.data, "the handle points elsewhere")
    else:
        require([F("sdp_mem_shape_dim")(ptr, i) for i in range(v.ndim)] == list(v.shape), "shape")
    del m
    require(np.array_equal(v, keep, equal_nan=True), "the array was changed")
    n = Mem(None)
    q = ctypes.cast(n._as_parameter_, P).value
    require(F("sdp_mem_type")(q) == 0 and F("sdp_mem_num_elements")(q) == 0
            and not F("sdp_mem_data")(q), "Mem(None) is not an empty handle")
    for bad in (3, "x", [1.0], 2.5):
        try:
            Mem(bad)
        except TypeError:
            continue
        require(False, f"Mem({bad!r}) was accepted")
    return "C!" if v.flags.c_contiguous and v.flags.writeable else p["kind"]


S = ctypes.c_char_p
CHK = {
    "writeable": (), "c_contiguity": (), "location": (I32,), "num_dims": (I64,),
    "dim_size": (I32, I64), "shape_dim": (I32, I64), "shape": (I32, P), "type": (I32,),
}


@subcheck("P01", "checks", fd(seed=seeds, shape=shapes, type=choice(*TYPES), kind=choice("C", "F", "strided"),
                              ro=st.booleans(), status=choice(0, 0, 0, 1, 7, 10)),
          quick=5000, thorough=100000,
          rule="every sdp_mem_check_* function and the data-model checks of a random array against "
               "what they are documented to accept; non-trivial: status clear on entry")
def checks(p):
    r = rng(p["seed"])
    _, v = _layout(r, [max(1, x) for x in p["shape"]], TYPES[p["type"]], p["kind"])
    s, q = C("sdp_mem_create_wrapper", v.ctypes.data, p["type"], 0, v.ndim, i64s(v.shape), i64s(v.strides))
    require(s == 0, "wrap")
    F("sdp_mem_set_read_only")(q, int(p["ro"]))
    nd = v.ndim

    def run(name, want, *args):
        f = _lib()[name]
        f.restype = None
        st_ = ctypes.c_int(p["status"])
        f(P(q), *args, ctypes.byref(st_), S(b"mem"), S(b"f"), S(b"file"), I32(1))
        if p["status"]:
            require(st_.value == p["status"], f"{name}: recorded error {p['status']} became {st_.value}")
        else:
            require((st_.value == 0) == bool(want),
                    f"{name}{[getattr(a, 'value', a) for a in args]} of {v.dtype}{v.shape}: status {st_.value}")
    run("sdp_mem_check_writeable_at", not p["ro"])
    if 1 not in v.shape or v.flags.c_contiguous is False:
        run("sdp_mem_check_c_contiguity_at", v.flags.c_contiguous)
    run("sdp_mem_check_location_at", True, I32(0))
    run("sdp_mem_check_location_at", False, I32(1))
    for d in range(-1, 8):
        run("sdp_mem_check_num_dims_at", d == nd, I64(d))
    for t in TYPES:
        run("sdp_mem_check_type_at", t == p["type"], I32(t))
    for i in range(nd):
        for n in {v.shape[i], v.shape[i] + 1, v.shape[i] - 1, v.shape[0]}:
            run("sdp_mem_check_dim_size_at", n == v.shape[i], I32(i), I64(n))
            run("sdp_mem_check_shape_dim_at", n == v.shape[i], I32(i), I64(n))
    run("sdp_mem_check_shape_dim_at", False, I32(nd), I64(1))
    for _ in range(3):
        shp = list(v.shape)
        if shp and r.random() < 0.7:
            shp[int(r.integers(nd))] += int(r.integers(-1, 2))
        if r.random() < 0.2:
            shp = shp[:-1] if r.random() < 0.5 else shp + [1]
        run("sdp_mem_check_shape_at", tuple(shp) == v.shape, I32(len(shp)), i64s(shp))
    # Data-model checks on the same array.
    cont = F("sdp_mem_is_c_contiguous")(q)
    t_any = int(r.choice([0, p["type"], 8, 40]))
    dims = list(v.shape) if r.random() < 0.6 else [int(x) for x in r.integers(1, 4, nd)]
    if r.random() < 0.3 and nd >= 3:
        dims[int(r.integers(nd))] += 1
    tc = t_any in (0, p["type"])
    d4 = (dims + [1] * 4)[:4]
    run("sdp_data_model_check_uvw_at",
        v.dtype.kind == "f" and tc and cont and v.shape == (d4[0], d4[1], 3),
        I32(t_any), I32(0), I64(d4[0]), I64(d4[1]))
    run("sdp_data_model_check_vis_at",
        v.dtype.kind == "c" and tc and cont and v.shape == tuple(d4),
        I32(t_any), I32(0), *[I64(x) for x in d4])
    run("sdp_data_model_check_weights_at",
        v.dtype.kind != "c" and tc and cont and v.shape == tuple(d4),
        I32(t_any), I32(0), *[I64(x) for x in d4])
    for name, nn, ok, skip in (
            ("uvw", 2, v.dtype.kind == "f" and nd == 3 and v.shape[2] == 3, 0),
            ("vis", 4, v.dtype.kind == "c" and nd == 4 and v.shape[3] in (1, 4), 0),
            ("weights", 4, v.dtype.kind != "c" and nd == 4, 0)):
        f = _lib()[f"sdp_data_model_get_{name}_metadata"]
        f.restype = None
        st_, ty, lo = ctypes.c_int(p["status"]), ctypes.c_int(-7), ctypes.c_int(-7)
        out = [ctypes.c_int64(-7) for _ in range(nn)]
        f(P(q), ctypes.byref(ty), ctypes.byref(lo), *[ctypes.byref(o) for o in out], ctypes.byref(st_))
        if p["status"]:
            require(st_.value == p["status"] and ty.value == -7, f"{name} metadata after an earlier error")
        else:
            require((st_.value == 0) == ok, f"{name} metadata of {v.dtype}{v.shape}: status {st_.value}")
            if ok:
                require((ty.value, lo.value) == (p["type"], 0) and
                        [o.value for o in out] == list(v.shape[:nn]), f"{name} metadata of {v.dtype}{v.shape}")
    F("sdp_mem_free")(q)
    require([F("sdp_mem_type_size")(t) for t in TYPES] == [np.dtype(d).itemsize for d in TYPES.values()], "type sizes")
    return "recorded!" if p["status"] else v.dtype.name


@subcheck("P01", "null", fd(d=st.integers(-2, 9)), quick=200, thorough=500, rule="queries of a null handle; none trivial")
def null(p):
    for n, want in (("data", None), ("is_c_contiguous", 0), ("is_floating_point", 0), ("is_complex", 0),
                    ("is_complex4", 0), ("is_double", 0), ("is_read_only", 1), ("location", 0),
                    ("num_dims", 0), ("num_elements", 0), ("type", 0), ("ref_inc", None)):
        require(F("sdp_mem_" + n)(None) == want, f"sdp_mem_{n}(NULL)")
    require(F("sdp_mem_shape_dim")(None, p["d"]) == 0, "shape of null")
    F("sdp_mem_free")(None)
    F("sdp_mem_set_read_only")(None, 1)
    require(C("sdp_mem_clear_contents", None)[0] == 0, "clear of null")
    require(C("sdp_mem_copy_contents", None, None, 0, 0, 1)[0] == 0, "copy of null")
    return "null"
