"""Leak measurement: live allocations made by the library around repeated runs."""
import ctypes
import gc
import os

from . import core

_S = None


def _shim():
    global _S
    if _S is None:
        so = os.environ["LD_PRELOAD"].split()[0]
        s = ctypes.CDLL(so)
        s.leak_count.restype = ctypes.c_size_t
        s.leak_bytes.restype = ctypes.c_size_t
        core.clib()
        lo, hi = None, 0
        with open("/proc/self/maps") as f:
            for line in f:
                if "libska_sdp_func" in line:
                    a, b = line.split()[0].split("-")
                    lo = int(a, 16) if lo is None else min(lo, int(a, 16))
                    hi = max(hi, int(b, 16))
        s.leak_set_range(ctypes.c_size_t(lo), ctypes.c_size_t(hi))
        gc.collect()
        gc.freeze()
        _S = s
    return _S


def _one(run, p):
    try:
        r = run(p)
    except core.Skip:
        r = ["skip!"]
    except Exception:
        r = ["other-property!"]
    if r is None:
        r = ["case"]
    return [r] if isinstance(r, str) else list(r)


def measure(run, p):
    s = _shim()
    counts = []
    byts = []
    labels = None
    for _ in range(5):
        labels = _one(run, p)
        gc.collect()
        counts.append(s.leak_count())
        byts.append(s.leak_bytes())
    # the first two runs may fill caches; growth on each of the last three is a leak
    if counts[2] > counts[1] and counts[3] > counts[2] and counts[4] > counts[3]:
        raise core.GuardViolation(
            f"each run leaves {counts[4] - counts[3]} more live allocation(s) "
            f"({byts[4] - byts[3]} bytes) made by the library: {counts}")
    return labels
