"""Runs checks against the library with its CUDA part on native/cuda: every array in device memory."""
import ctypes
import gc

from . import core

# Functions that take arrays in accelerator memory
MUST = set("""
sdp_bucket_sort sdp_count_and_prefix_sum sdp_degrid_uvw_custom sdp_dft_point_v00
sdp_dft_point_v01 sdp_element_beam_dipole sdp_fft_convolution sdp_fft_create sdp_fft_exec
sdp_fft_exec_shift sdp_fft_norm sdp_fft_phase sdp_function_example_a_create_plan
sdp_gridder_accumulate_scaled_arrays sdp_gridder_clamp_channels_single
sdp_gridder_clamp_channels_uv sdp_gridder_determine_max_w_tower_height
sdp_gridder_direct_create sdp_gridder_direct_degrid_correct sdp_gridder_direct_grid_correct
sdp_gridder_grid_correct_pswf sdp_gridder_grid_correct_w_stack sdp_gridder_idft
sdp_gridder_rms_diff sdp_gridder_scale_inv_array sdp_gridder_shift_subgrids
sdp_gridder_sum_diff
sdp_gridder_uvw_bounds_all sdp_gridder_wtower_uvw_create sdp_gridder_wtower_uvw_degrid
sdp_gridder_wtower_uvw_degrid_correct sdp_gridder_wtower_uvw_grid
sdp_gridder_wtower_uvw_grid_correct sdp_hogbom_clean sdp_phase_rotate_uvw sdp_phase_rotate_vis
sdp_station_beam_aperture_array sdp_swiftly_create sdp_tiled_indexing sdp_vector_add
sdp_weighting_briggs sdp_weighting_uniform
""".split())
# ... with these arguments in host memory
HOST = {"sdp_hogbom_clean": {2}}
U64 = ctypes.c_uint64
REFUSED = (3, 6)        # SDP_ERR_DATA_TYPE, SDP_ERR_MEM_LOCATION
STATE = {"lib": None, "retry": True, "host": set()}


def _status(a):
    """The value behind the last argument of a call, if that is an int*."""
    if not a:
        return None
    x = a[-1]
    x = getattr(x, "_obj", x)
    return x.value if isinstance(x, ctypes.c_int) else None


def _twin(x):
    """The array of a handle in host memory."""
    h = getattr(x, "_as_parameter_", x)
    if not isinstance(h, (ctypes.c_void_p, ctypes._Pointer)):
        return x
    p = ctypes.cast(h, ctypes.c_void_p)
    t = STATE["lib"].pbt_gpu_twin(p) if p.value else None
    if not t:
        return x
    return ctypes.c_void_p(t) if isinstance(h, ctypes.c_void_p) else ctypes.cast(
        ctypes.c_void_p(t), type(h))


def _patch(lib):
    base = lib._FuncPtr

    class Func(base):
        _flags_ = base._flags_
        _restype_ = base._restype_

        def __call__(self, *a):
            name = self.__name__
            sync = STATE["sync"]
            if name in HOST:
                a = tuple(_twin(x) if i in HOST[name] else x for i, x in enumerate(a))
            sync(1)
            r = base.__call__(self, *a)
            sync(0)
            if STATE["retry"] and _status(a) in REFUSED:
                if name in MUST:
                    raise core.Violation(f"{name} refused arrays in accelerator memory")
                # not for the accelerator: give it the arrays in host memory
                b = tuple(_twin(x) for x in a)
                if any(x is not y for x, y in zip(a, b)):
                    STATE["host"].add(name)
                    x = getattr(a[-1], "_obj", a[-1])
                    x.value = 0
                    r = base.__call__(self, *b)
            return r

    lib._FuncPtr = Func
    for n in ("create_wrapper", "free"):
        f = base(("pbt_mem_" + n, lib))
        f.__name__ = "sdp_mem_" + n
        setattr(lib, "sdp_mem_" + n, f)


def install():
    from ska_sdp_func.utility import Lib
    lib = ctypes.CDLL(Lib.handle()._name)
    lib.pbt_gpu_sync.restype = None
    lib.pbt_gpu_twin.restype = ctypes.c_void_p
    lib.pbt_cuda_seed.restype = None
    lib.pbt_cuda_blocks.restype = ctypes.c_long
    lib.pbt_cuda_launches.restype = ctypes.c_long
    STATE["lib"] = lib
    STATE["sync"] = lib.pbt_gpu_sync
    _patch(Lib.handle())
    _patch(core.clib())


def begin(seed):
    lib = STATE["lib"]
    lib.pbt_gpu_reset()
    lib.pbt_gpu_place(U64(2 ** 64 - 1))
    lib.pbt_cuda_seed(U64(seed))
    STATE["host"] = set()
    STATE["retry"] = True
    STATE["before"] = lib.pbt_cuda_launches(), lib.pbt_cuda_blocks()


def end(sc):
    """Labels for a case that has passed, which must have freed its device memory."""
    lib = STATE["lib"]
    lib.pbt_gpu_reset()
    n, blocks = STATE["before"]
    left = lib.pbt_cuda_blocks() - blocks
    if left > 0:
        gc.collect()
        left = lib.pbt_cuda_blocks() - blocks
    core.require(left <= 0, f"{left} block(s) of accelerator memory were not freed")
    return ["on host: " + f for f in sorted(STATE["host"])] + (
        [] if lib.pbt_cuda_launches() > n or sc.name == "copies" else ["no kernel ran!"])


# Sub-checks of other properties that run kernels, with the cases of a quick run
SUBS = {
    "P05": 40, "P06": 40, "P07": 40, "P09": 60,
    "P10": 30, "P12": 30, "P15.degrid": 30, "P15.sky": 30, "P16.grid": 30, "P16.adjoint": 20,
    "P17.predict": 10, "P17.image": 10, "P17.adjoint": 6, "P17.division": 6,
    "P18": 40, "P19.scaled": 40, "P19.sumdiff": 60, "P19.shift": 40, "P19.dft": 30,
    "P19.subgrid": 40, "P19.diff": 40, "P20.correct": 40, "P20.plan_correct": 30, "P20.wstack": 30,
    "P21": 40, "P22": 60, "P24": 60, "P25.dipole": 60, "P26.vector_add": 40,
}


def counts(tier, scale):
    res = {}
    for (prop, name), sc in core.REGISTRY.items():
        n = SUBS.get(sc.key, SUBS.get(prop))
        if prop == "P28":
            n = sc.quick if tier == "quick" else sc.thorough
        elif n:
            n *= ((1 if tier == "quick" else 6) if prop == "P17" else 3 if tier == "quick" else 50)
        if n and sc.strategy is not None and not name.startswith("large_"):
            res[sc.key] = max(1, int(n * scale))
    return res
