"""P29: the Python interface is a faithful wrapper of the C functions.

Each case makes the same call twice on identical copies of the data: once
through the C interface with explicitly ordered arguments, once through the
documented Python function, class or method (by position or by keyword,
optional arguments given or left out).  The call may be valid or have one
argument corrupted.  Oracle: Python raises exactly when C reports an error,
and every array and every returned value is bit-identical.
"""
import ctypes
import gc

import numpy as np
from hypothesis import strategies as st

from ..core import (CD, CI, I64, CMem, Guard, Violation, ccall, clib, require, rng, same,
                    set_threads, subcheck)
from ..gen import choice, fd, fl, seeds, size
from .p02_errors import BUILDERS, A, R, S


def _mod(path):
    import importlib
    m, _, n = path.rpartition(".")
    return getattr(importlib.import_module("ska_sdp_func." + m), n)


def _coords():
    from ska_sdp_func.utility import SkyCoord
    return SkyCoord("icrs", 0.1, 0.5, 0.0), SkyCoord("icrs", 0.12, 0.48, 0.0)


# name -> (Python callable, arguments in the documented order).  An entry is the
# name of an array or scalar of the C call; "py=c" gives a different name.
PLAIN = {
    "dft_point_v00": ("visibility.dft_point_v00", "source_directions source_fluxes uvw_lambda vis"),
    "dft_point_v01": ("visibility.dft_point_v01", "source_directions source_fluxes uvw "
                      "channel_start_hz channel_step_hz vis"),
    "phase_rotate_uvw": ("visibility.phase_rotate_uvw", "phase_centre_orig=@0 phase_centre_new=@1 "
                         "uvw_in uvw_out"),
    "phase_rotate_vis": ("visibility.phase_rotate_vis", "phase_centre_orig=@0 phase_centre_new=@1 "
                         "channel_start_hz channel_step_hz uvw vis_in vis_out"),
    "weighting_uniform": ("visibility.weighting.uniform_weights", "uvw freq_hz max_abs_uv "
                          "grid_uv=weight_grid_uv input_weights output_weights"),
    "weighting_briggs": ("visibility.weighting.briggs_weights", "uvw freq_hz max_abs_uv robust_param "
                         "grid_uv=weight_grid_uv input_weights output_weights"),
    "flagger_dynamic_threshold": (
        "visibility.flagger_dynamic_threshold", "vis flags alpha threshold_magnitudes "
        "threshold_variations threshold_broadband sampling_step window window_median_history"),
    "count_and_prefix_sum": (
        "visibility.tiled_functions.count_and_prefix_sum", "uvw freqs vis grid_size tile_size_u "
        "tile_size_v cell_size_rad support num_visibilities=@n tile_offsets num_points_in_tiles "
        "num_skipped"),
    "bucket_sort": (
        "visibility.tiled_functions.bucket_sort", "uvw freqs vis weights grid_size tile_size_u "
        "tile_size_v cell_size_rad support sorted_uu sorted_vv sorted_weight sorted_tile "
        "sorted_vis tile_offsets"),
    "tiled_indexing": (
        "visibility.tiled_functions.tiled_indexing", "uvw freqs grid_size tile_size_u tile_size_v "
        "cell_size_rad support num_channels num_baselines num_times sorted_tile sorted_uu "
        "sorted_vv sorted_vis_index tile_offsets"),
    "optimized_weighting": (
        "visibility.opt_weighting.optimized_weighting", "uvw freqs vis weights robust_param=robust "
        "grid_size support sorted_uu sorted_vv sorted_weight sorted_tile tile_offsets "
        "num_points_in_tiles output_weights"),
    "optimised_indexed_weighting": (
        "visibility.opt_weighting.optimised_indexed_weighting", "uvw vis weights "
        "robust_param=robust grid_size cell_size_rad=cell_size support num_visibilities=@n "
        "sorted_tile sorted_uu sorted_vv sorted_vis_index tile_offsets num_points_in_tiles "
        "output_weights"),
    "hogbom_clean": ("clean.hogbom_clean", "dirty_img psf cbeam_details loop_gain threshold "
                     "cycle_limit clean_model residual skymodel"),
    "ms_clean_cornwell": ("clean.ms_clean_cornwell", "dirty_img psf cbeam_details scale_list "
                          "loop_gain threshold cycle_limit clean_model residual skymodel"),
    "fft_convolution": ("numeric_functions.fft_convolution.fft_convolution", "in1 in2 out"),
    "vector_add": ("examples.vector_add", "input_a=a input_b=b output=out"),
    "element_beam_dipole": ("station_beam.dipole", "theta_rad phi_rad freq_hz dipole_length_m "
                            "stride_element_beam index_offset_element_beam element_beam"),
    "element_beam_spherical_wave_harp": (
        "station_beam.spherical_wave_harp", "theta_rad phi_x_rad phi_y_rad l_max coeffs "
        "index_offset_element_beam element_beam"),
    "station_beam_aperture_array": (
        "station_beam.aperture_array", "wavenumber element_weights element_x element_y element_z "
        "point_x point_y point_z element_beam_index element_beam station_beam "
        "normalise? eval_x? eval_y?"),
    "degrid_uvw_custom": (
        "grid_data.degrid_uvw_custom", "grid uvw uv_kernel w_kernel theta wstep channel_start_hz "
        "channel_step_hz conjugate vis"),
    "clamp_channels_single": (
        "grid_data.clamp_channels_single", "uvws dim freq0_hz dfreq_hz start_ch_in end_ch_in min_u "
        "max_u start_ch_out end_ch_out start_row? end_row?"),
    "clamp_channels_uv": (
        "grid_data.clamp_channels_uv", "uvws freq0_hz dfreq_hz start_ch_in end_ch_in min_u max_u "
        "min_v max_v start_ch_out end_ch_out start_row? end_row?"),
    "wstack_degrid_all": (
        "grid_data.wstack_wtower_degrid_all", "image freq0_hz dfreq_hz uvw=uvws subgrid_size theta "
        "w_step shear_u shear_v support oversampling w_support w_oversampling subgrid_frac "
        "w_tower_height verbosity vis num_threads"),
    "wstack_grid_all": (
        "grid_data.wstack_wtower_grid_all", "vis freq0_hz dfreq_hz uvw=uvws subgrid_size theta "
        "w_step shear_u shear_v support oversampling w_support w_oversampling subgrid_frac "
        "w_tower_height verbosity image num_threads"),
    "make_kernel": ("grid_data.make_kernel", "window kernel"),
    "make_pswf_kernel": ("grid_data.make_pswf_kernel", "support kernel"),
    "make_w_pattern": ("grid_data.make_w_pattern", "subgrid_size theta shear_u shear_v w_step "
                       "w_pattern"),
    "rms_diff": ("grid_data.rms_diff", "array_a=a array_b=b"),
    "subgrid_add": ("grid_data.subgrid_add", "grid offset_u offset_v subgrid factor?"),
    "subgrid_cut_out": ("grid_data.subgrid_cut_out", "grid offset_u offset_v subgrid"),
    "uvw_bounds_all": ("grid_data.uvw_bounds_all", "uvws freq0_hz dfreq_hz start_ch=start_chs "
                       "end_ch=end_chs"),
    "determine_max_w_tower_height": (
        "grid_data.determine_max_w_tower_height", "subgrid_size theta fov w_step support "
        "oversampling w_support w_oversampling image_size? shear_u? shear_v? subgrid_frac? "
        "num_samples? target_err?"),
}
SWIFTLY = ["prepare_facet", "extract_from_facet", "add_to_subgrid", "add_to_subgrid_2d",
           "finish_subgrid_inplace", "finish_subgrid", "finish_subgrid_inplace_2d",
           "prepare_subgrid_inplace", "prepare_subgrid_inplace_2d", "extract_from_subgrid",
           "extract_from_subgrid_2d", "add_to_facet", "finish_facet"]
# arguments that have another name in Python
SWIFTLY_NAMES = {"add_to_facet": {"prep_facet_inout": "facet_data_inout"},
                 "finish_facet": {"prep_facet_inout": "facet_data"}}
GRIDDERS = {
    # name -> (method, arguments; offset = tuple of the three offsets; ch = channels)
    "direct_degrid": ("degrid_subgrid", "subgrid_image subgrid_offset=@off ch_count=@ch freq0_hz "
                      "dfreq_hz uvws start_chs end_chs vis"),
    "direct_grid": ("grid_subgrid", "vis uvws start_chs end_chs ch_count=@ch freq0_hz dfreq_hz "
                    "subgrid_image subgrid_offset=@off"),
    "direct_degrid_correct": ("degrid_correct", "facet facet_offset_l facet_offset_m w_offset"),
    "direct_grid_correct": ("grid_correct", "facet facet_offset_l facet_offset_m w_offset"),
    "wtower_degrid": ("degrid", "subgrid_image subgrid_offset_u=offset_u subgrid_offset_v=offset_v "
                      "subgrid_offset_w=offset_w freq0_hz dfreq_hz uvws start_chs end_chs vis "
                      "start_row? end_row?"),
    "wtower_grid": ("grid", "vis uvw=uvws start_chs end_chs freq0_hz dfreq_hz subgrid_image "
                    "subgrid_offset_u=offset_u subgrid_offset_v=offset_v subgrid_offset_w=offset_w "
                    "start_row? end_row?"),
    "wtower_degrid_subgrid": ("degrid_subgrid", "subgrid_image subgrid_offset=@off ch_count=@ch "
                              "freq0_hz dfreq_hz uvws start_chs end_chs vis start_row? end_row?"),
    "wtower_grid_subgrid": ("grid_subgrid", "vis uvw=uvws start_chs end_chs ch_count=@ch freq0_hz "
                            "dfreq_hz subgrid_image subgrid_offset=@off start_row? end_row?"),
    "wtower_degrid_correct": ("degrid_correct", "facet facet_offset_l facet_offset_m w_offset"),
    "wtower_grid_correct": ("grid_correct", "facet facet_offset_l facet_offset_m w_offset"),
}
# what the C function computes with when an optional Python argument is left out
DEFAULTS = {"normalise": 1, "eval_x": 1, "eval_y": 1, "start_row": -1, "end_row": -1, "factor": 1.0,
            "shear_u": 0.0, "shear_v": 0.0, "subgrid_frac": 2.0 / 3.0, "num_samples": 3,
            "target_err": 0.0}


def _randomise(name, f, r):
    """Distinct values for scalars that are equal or neutral in the builders, so
    that exchanged or dropped arguments show."""
    u = r.r.uniform
    new = {
        "shear_u": lambda: u(-0.1, 0.1), "shear_v": lambda: u(-0.1, 0.1),
        "freq0_hz": lambda: u(1e8, 2e8), "dfreq_hz": lambda: u(1e5, 1e7),
        "channel_start_hz": lambda: u(1e8, 2e8), "channel_step_hz": lambda: u(1e5, 1e7),
        "offset_u": lambda: r.n(-4, 4), "offset_v": lambda: r.n(-4, 4), "offset_w": lambda: r.n(-4, 4),
        "facet_offset_l": lambda: r.n(-8, 8), "facet_offset_m": lambda: r.n(-8, 8),
        "w_offset": lambda: r.n(-4, 4), "min_u": lambda: u(-3, 0), "max_u": lambda: u(0, 3),
        "min_v": lambda: u(-3, 0), "max_v": lambda: u(0, 3), "dim": lambda: r.n(0, 2),
        "alpha": lambda: u(0, 1), "threshold_magnitudes": lambda: u(1, 5),
        "threshold_variations": lambda: u(1, 5), "threshold_broadband": lambda: u(1, 5),
        "window": lambda: r.n(0, 2), "window_median_history": lambda: r.n(1, 4),
        "loop_gain": lambda: u(0.05, 0.5), "threshold": lambda: u(0.001, 0.5),
        "cycle_limit": lambda: r.n(1, 6), "robust_param": lambda: u(-2, 2),
        "max_abs_uv": lambda: u(1, 5), "freq_hz": lambda: u(5e7, 3e8),
        "dipole_length_m": lambda: u(0.5, 2), "wavenumber": lambda: u(1, 5),
        "normalise": lambda: r.n(0, 1), "eval_x": lambda: r.n(0, 1), "eval_y": lambda: r.n(0, 1),
        "conjugate": lambda: r.n(0, 1), "wstep": lambda: u(5, 20), "factor": lambda: u(-3, 3),
        "subgrid_offset": lambda: 4 * r.n(-2, 2), "facet_offset": lambda: 4 * r.n(-2, 2),
        "subgrid_offset0": lambda: 4 * r.n(-2, 2), "subgrid_offset1": lambda: 4 * r.n(-2, 2),
        "facet_offset0": lambda: 4 * r.n(-2, 2), "facet_offset1": lambda: 4 * r.n(-2, 2),
    }
    for s in f.args:
        if isinstance(s, S) and s.name in new:
            s.value = new[s.name]()
    if name in ("clamp_channels_single", "clamp_channels_uv", "wtower_degrid", "wtower_grid"):
        v = {s.name: s for s in f.args if isinstance(s, S)}
        n = v["end_row"].value
        v["start_row"].value = r.n(0, n - 1)
        v["end_row"].value = r.n(v["start_row"].value, n)
    if name == "make_w_pattern":
        pass


PLAN_ARGS = ["image_size", "subgrid_size", "theta", "w_step", "shear_u", "shear_v", "support"]
WT_ARGS = PLAN_ARGS + ["oversampling", "w_support", "w_oversampling"]


def _plan_values(r, wtower):
    v = dict(image_size=32, subgrid_size=16, theta=r.r.uniform(0.05, 0.15),
             w_step=r.r.uniform(5, 15), shear_u=r.r.uniform(-0.1, 0.1),
             shear_v=r.r.uniform(-0.1, 0.1), support=4)
    if wtower:
        v.update(oversampling=r.n(8, 20), w_support=2 * r.n(1, 3), w_oversampling=r.n(8, 20))
    return v


def _cplan(v, wtower):
    name = "sdp_gridder_wtower_uvw_create" if wtower else "sdp_gridder_direct_create"
    args = [(CD(v[k]) if isinstance(v[k], float) else CI(v[k]))
            for k in (WT_ARGS if wtower else PLAN_ARGS)]
    stt, h = ccall(name, *args, restype=ctypes.c_void_p)
    require(stt == 0 and h, f"{name} refused a valid plan with {stt}")
    return h


def differential(f, r, p, target, argspec, obj=None, c_extra=None):
    """Runs the C call of f and the Python call on copies and compares."""
    set_threads(1)
    cor = None
    if p["corrupt"]:
        cs = [c for c in f.corruptions() if c[1] in ("type", "ndim+", "ndim-", "dim+", "dim-", "ro",
                                                     "layout", "bad")]
        if "@" not in argspec:      # (values that the Python function does not pass on)
            has = {t.rstrip("?").split("=")[-1] for t in argspec.split()}
            cs = [c for c in cs if c[1] != "bad" or c[0] in has]
        if cs:
            cor = cs[p["k"] % len(cs)]
    who, kind, val = cor or (None, None, None)
    specs = []
    for tok in argspec.split():
        opt = tok.endswith("?")
        py, _, c = tok.rstrip("?").partition("=")
        specs.append((py, c or py, opt))
    optional = [s for s in specs if s[2]]
    omit = {s[1] for s in optional[len(optional) - p["omit"] % (len(optional) + 1):]}
    if who in omit:
        omit = set()
    scal = {s.name: (val if s.name == who else s.value) for s in f.args if isinstance(s, S)}
    if "image_size" in omit:
        scal["image_size"] = 2 * scal["subgrid_size"]
    for k in omit:
        if k in DEFAULTS:
            scal[k] = DEFAULTS[k]

    # C side
    gc_, ca, ro = f.prepare(cor)
    if "theta_rad" in ca and "num_points" in scal:
        scal["num_points"] = ca["theta_rad"].size
    if "point_x" in ca and "num_points" in scal:
        scal["num_points"] = ca["point_x"].size
    conv, refs = [], []
    for a in f.args:
        if isinstance(a, A):
            conv.append(CMem(ca[a.name], read_only=a.name == ro))
        elif isinstance(a, S):
            conv.append(a.conv(scal[a.name]))
        else:
            conv.append(a)
            if not isinstance(a, ctypes.c_void_p):
                refs.append(a)
    plan = f.plan() if f.plan else None
    try:
        pre = [ctypes.c_void_p(plan)] if plan else []
        stt, res = ccall(f.name, *pre, *conv, restype=f.restype)
    finally:
        if plan and f.plan_free:
            fn = getattr(clib(), f.plan_free)
            fn.restype = None
            fn(ctypes.c_void_p(plan))
    gc_.check()

    # Python side
    gp, pa, ro = f.prepare(cor)
    if ro:
        pa[ro].flags.writeable = False
    nvis = ctypes.c_int(0)
    vals = {"@n": nvis}
    if "@0" in argspec:
        vals["@0"], vals["@1"] = _coords()
    if "@off" in argspec:
        vals["@off"] = (scal["offset_u"], scal["offset_v"], scal["offset_w"])
    if "@ch" in argspec:
        vals["@ch"] = pa["vis"].shape[1] if pa["vis"].ndim > 1 else 1
    vals.update({k: (bool(v) if k in ("normalise", "eval_x", "eval_y", "conjugate") else v)
                 for k, v in scal.items()})
    vals.update(pa)
    given = [(py, vals[c]) for py, c, _ in specs if c not in omit]
    fn = getattr(obj, target) if obj is not None else _mod(target)
    npos = len(given) if not p["kw"] else p["kw"] % len(given)
    try:
        out = fn(*[v for _, v in given[:npos]], **dict(given[npos:]))
        err = None
    except Exception as e:
        if isinstance(e, Violation):
            raise
        err, out = e, None
    what = f"{target} ({who} {kind} {val})" if cor else target
    if npos < len(given):
        what += f" with keywords from {given[npos][0]}"
    if stt == 0:
        require(err is None, f"{what}: C accepts the call but Python raises "
                f"{type(err).__name__}: {err}")
    else:
        require(err is not None, f"{what}: C reports error {stt} but Python raises nothing")
        require(type(err).__name__ in ("CError", "TypeError", "RuntimeError", "ValueError",
                                       "IndexError"),
                f"{what}: raises {type(err).__name__}: {err}")
        if type(err).__name__ == "CError":
            require(str(err).startswith(f"Error {stt}:"), f"{what}: C error {stt} but '{err}'")
    if ro:
        pa[ro].flags.writeable = True
    gp.check()
    for a in f.arrays():
        same(f"{what}: {a.name}", np.ascontiguousarray(pa[a.name]), np.ascontiguousarray(ca[a.name]))
    if stt == 0:
        if f.name == "sdp_gridder_uvw_bounds_all":
            require([list(x) for x in out] == [list(x) for x in refs],
                    f"{what}: {[list(x) for x in out]} != {[list(x) for x in refs]}")
        elif f.name == "sdp_count_and_prefix_sum":
            require(nvis.value == refs[0]._obj.value, f"{what}: {nvis.value} visibilities")
        elif f.restype:
            require(out == res or (out != out and res != res), f"{what}: returned {out} not {res}")
        elif target.endswith("_correct"):
            require(out is pa["facet"], f"{what}: does not return the facet")
    return (kind or "valid") + (" refused" if stt else "")


def _common(**kw):
    return fd(corrupt=choice(0, 0, 1), k=st.integers(0, 9999), kw=size(0, 20), omit=size(0, 6),
              prec=choice("d", "f"), seed=seeds, **kw)


RULE = ("the same call through the C and the Python interface on copies of the data, by position "
        "or keyword, optional arguments given or omitted, sometimes with one argument corrupted; "
        "oracle: raises exactly when C reports an error, all arrays and results bit-identical; "
        "non-trivial: every case")


def _plain(name, target, argspec):
    @subcheck("P29", name, _common(), quick=120, thorough=3000, asan=False, rule=RULE)
    def run(p):
        r = R(rng(p["seed"]))
        f = BUILDERS[name](r, p["prec"])
        _randomise(name, f, r)
        return differential(f, r, p, target, argspec)


for _k, (_t, _a) in PLAIN.items():
    _plain(_k, _t, _a)


def _swift(meth):
    @subcheck("P29", "swiftly_" + meth, _common(), quick=100, thorough=3000, asan=False, rule=RULE)
    def run(p):
        from ska_sdp_func.fourier_transforms.swiftly import Swiftly
        r = R(rng(p["seed"]))
        f = BUILDERS["swiftly_" + meth](r, p["prec"])
        _randomise(meth, f, r)
        names = SWIFTLY_NAMES.get(meth, {})
        spec = " ".join(f"{names.get(a.name, a.name)}={a.name}" for a in f.args)
        o = Swiftly(64, 32, 16, 8.0)
        return differential(f, r, p, meth, spec, obj=o)


for _m in SWIFTLY:
    _swift(_m)


def _gridder(name, meth, argspec):
    base = name.replace("_subgrid", "")
    wt = name.startswith("wtower")

    @subcheck("P29", "gridder_" + name, _common(), quick=150, thorough=4000, asan=False, rule=RULE)
    def run(p):
        from ska_sdp_func.grid_data import GridderDirect, GridderWtowerUVW
        r = R(rng(p["seed"]))
        f = BUILDERS[base](r, p["prec"])
        v = _plan_values(r, wt)
        _randomise(base, f, r)
        f.plan = lambda: _cplan(v, wt)
        o = (GridderWtowerUVW if wt else GridderDirect)(*[v[k] for k in (WT_ARGS if wt else PLAN_ARGS)])
        for k, want in v.items():
            if hasattr(type(o), k):
                got = getattr(o, k)
                require(got == want, f"{name}: plan property {k} is {got}, created with {want}")
        lab = differential(f, r, p, meth, argspec, obj=o)
        if meth == "degrid_subgrid" and lab == "valid":
            # without an output array, a new one starting from zero is returned
            d = {a.name: a.data for a in f.arrays()}
            s = {a.name: a.value for a in f.args if isinstance(a, S)}
            off = (s["offset_u"], s["offset_v"], s["offset_w"])
            ch = d["vis"].shape[1]
            args = (d["subgrid_image"], off, ch, s["freq0_hz"], s["dfreq_hz"], d["uvws"],
                    d["start_chs"], d["end_chs"])
            z = np.zeros((d["uvws"].shape[0], ch), "c16")
            none = o.degrid_subgrid(*args, z)
            new = o.degrid_subgrid(*args)
            require(none is None, f"{name}: returned {type(none)} although an output was given")
            same(f"{name}: returned visibilities", new, z)
        return lab


for _k, (_m, _a) in GRIDDERS.items():
    _gridder(_k, _m, _a)


@subcheck("P29", "find_max_w_tower_height",
          fd(shear_u=fl(-0.1, 0.1), shear_v=fl(-0.1, 0.1), fov=fl(0.02, 0.06), frac=fl(0.3, 0.7),
             ns=st.integers(2, 4), err=choice(None, 1e-3, 1e-2), omit=st.integers(0, 3), kw=st.booleans()),
          quick=24, thorough=400, asan=False,
          rule="height found for a gridder object against the C function called with the "
               "parameters the object was made with; non-trivial: every case")
def find_height(p):
    from ska_sdp_func.grid_data import GridderWtowerUVW, find_max_w_tower_height
    set_threads(1)
    v = (64, 32, 0.1, 40.0, p["shear_u"], p["shear_v"], 6, 64, 4, 32)
    o = GridderWtowerUVW(*v)
    opts = [("subgrid_frac", p["frac"], 2.0 / 3.0), ("num_samples", p["ns"], 3),
            ("target_err", p["err"], None)]
    use = opts[:3 - p["omit"]]
    if p["kw"]:
        got = find_max_w_tower_height(grid_kernel=o, fov=p["fov"], **{k: x for k, x, _ in use})
    else:
        got = find_max_w_tower_height(o, p["fov"], *[x for _, x, _ in use])
    full = [x for _, x, _ in use] + [d for _, _, d in opts[3 - p["omit"]:]]
    conv = [(CD(x) if isinstance(x, float) else CI(x)) for x in v]
    stt, want = ccall("sdp_gridder_determine_max_w_tower_height", *conv, CD(p["fov"]), CD(full[0]),
                      CI(full[1]), CD(full[2] or 0.0), restype=ctypes.c_double)
    require(stt == 0 and got == want, f"height {got}, C gives {want} (status {stt})")
    return "omitted" if p["omit"] else "all"


@subcheck("P29", "w_step", fd(theta=fl(0.01, 0.3), frac=fl(0.3, 0.95), shear_u=fl(-0.2, 0.2),
                              shear_v=fl(-0.2, 0.2), x0=choice(None, 0.0, 0.5, 1.0), omit=st.integers(0, 3),
                              kw=st.booleans()),
          quick=300, thorough=10000, asan=False,
          rule="Python determine_w_step against the C function; non-trivial: every case")
def w_step(p):
    from ska_sdp_func.grid_data import determine_w_step
    fov = p["theta"] * p["frac"]
    opts = [("shear_u", p["shear_u"], 0.0), ("shear_v", p["shear_v"], 0.0), ("x_0", p["x0"], None)]
    use = opts[:3 - p["omit"]]
    if p["kw"]:
        got = determine_w_step(theta=p["theta"], fov=fov, **{k: x for k, x, _ in use})
    else:
        got = determine_w_step(p["theta"], fov, *[x for _, x, _ in use])
    full = [x for _, x, _ in use] + [d for _, _, d in opts[3 - p["omit"]:]]
    fn = clib().sdp_gridder_determine_w_step
    fn.restype = ctypes.c_double
    want = fn(CD(p["theta"]), CD(fov), CD(full[0]), CD(full[1]), CD(full[2] or 0.0))
    require(got == want and isinstance(got, float), f"w_step {got} != {want}")
    return "omitted" if p["omit"] else "all"


@subcheck("P29", "uv_range", fd(t=size(1, 6), b=size(1, 6), c=size(1, 5), prec=choice("d", "f"), seed=seeds),
          quick=300, thorough=10000, asan=False,
          rule="get_uv_range = largest |u| (in wavelengths at the last channel), get_w_range = "
               "extreme |w| at the first and last channel; inputs unchanged; non-trivial: "
               "more than one baseline and channel")
def uv_range(p):
    from ska_sdp_func.grid_data import GridderUvwEsFft
    from ska_sdp_func.visibility import get_uv_range
    r = rng(p["seed"])
    dt = "f8" if p["prec"] == "d" else "f4"
    uvw = (r.standard_normal((p["t"], p["b"], 3)) * 1000).astype(dt)
    f = np.sort(r.uniform(1e8, 2e8, p["c"])).astype(dt)
    g = Guard()
    uvw, f = g.inp(uvw), g.inp(f)
    tol = 1e-12 if dt == "f8" else 1e-5
    C = 299792458.0
    got = get_uv_range(uvw, f)
    want = max(abs(float(x)) for x in uvw[..., 0].ravel()) * float(f[-1]) / C
    require(abs(got - want) <= tol * want, f"uv range {got} != {want}")
    rows = uvw.reshape(-1, 3)
    lo, hi = GridderUvwEsFft.get_w_range(rows, f)
    w = [abs(float(x)) for x in rows[:, 2]]
    for a, b in ((lo, min(w) * float(f[0]) / C), (hi, max(w) * float(f[-1]) / C)):
        require(abs(a - b) <= tol * b, f"w range {lo, hi}: {a} != {b}")
    g.check()
    return "several" if p["b"] * p["t"] > 1 and p["c"] > 1 else "single!"


@subcheck("P29", "fft_plan", fd(nd=st.integers(1, 3), sizes=st.lists(st.integers(1, 9), min_size=3, max_size=3),
                                fwd=st.booleans(), kw=st.booleans(), prec=choice("d", "f"), seed=seeds),
          quick=300, thorough=10000, asan=False,
          rule="Fft objects made and executed through Python and C; bit-identical; several plans "
               "alive and freed out of order; non-trivial: more than one element")
def fft_plan(p):
    from ska_sdp_func.fourier_transforms import Fft
    set_threads(1)
    r = R(rng(p["seed"]))
    shape = tuple(p["sizes"][:p["nd"]])
    x = r.c(shape, p["prec"])
    k = max(1, p["nd"] - 1)
    want, got = np.zeros_like(x), np.zeros_like(x)
    stt, h = ccall("sdp_fft_create", x, want, CI(k), CI(int(p["fwd"])), restype=ctypes.c_void_p)
    require(stt == 0 and h, f"valid plan refused: {stt}")
    stt, _ = ccall("sdp_fft_exec", ctypes.c_void_p(h), x, want)
    require(stt == 0, f"valid transform refused: {stt}")
    clib().sdp_fft_free.restype = None
    clib().sdp_fft_free(ctypes.c_void_p(h))
    a = Fft(x, got, k, p["fwd"])
    b = Fft(input_data=x, output_data=got, num_dims_fft=k, is_forward=not p["fwd"])
    c = Fft(x, got, k, p["fwd"])
    del a, b
    gc.collect(0)
    if p["kw"]:
        c.exec(input_data=x, output_data=got)
    else:
        c.exec(x, got)
    same("Fft.exec", got, want)
    return "some" if x.size > 1 else "one!"


@subcheck("P29", "unsupported", fd(bad=choice("i8", "i2", "u1", "u4", "?", "f2", "U3", "O", "list", "none",
                                              "scalar", "longdouble"),
                                   fn=choice("dft", "vector", "conv", "clamp", "fft", "rms"),
                                   pos=st.integers(0, 9), seed=seeds),
          quick=300, thorough=5000, asan=False,
          rule="an argument that is not an array of a supported type raises and the other "
               "arrays stay as they were; non-trivial: every case")
def unsupported(p):
    from ska_sdp_func.examples import vector_add
    from ska_sdp_func.fourier_transforms import Fft
    from ska_sdp_func.grid_data import clamp_channels_single, rms_diff
    from ska_sdp_func.numeric_functions.fft_convolution import fft_convolution
    from ska_sdp_func.visibility import dft_point_v00
    r = R(rng(p["seed"]))
    fn, arrs, tail = {
        "dft": (dft_point_v00, [r.f((3, 3)), r.c((3, 2, 4)), r.f((2, 2, 2, 3)), r.c((2, 2, 2, 4))], []),
        "vector": (vector_add, [r.f(4), r.f(4), r.f(4)], []),
        "conv": (fft_convolution, [r.c((4, 4)), r.c((3, 3)), r.c((4, 4))], []),
        "fft": (lambda a, b: Fft(a, b, 1, True), [r.c(8), r.c(8)], []),
        "rms": (rms_diff, [r.c((3, 3)), r.c((3, 3))], []),
        "clamp": (lambda u, a, b, c, d: clamp_channels_single(u, 0, 1e8, 1e6, a, b, 0.0, 1.0, c, d),
                  [r.f((4, 3)), *(np.zeros(4, "i4") for _ in range(4))], []),
    }[p["fn"]]
    i = p["pos"] % len(arrs)
    bad = arrs[i]
    if p["bad"] == "list":
        bad = bad.tolist()
    elif p["bad"] == "none":
        bad = None
    elif p["bad"] == "scalar":
        bad = 3.0
    elif p["bad"] == "longdouble":
        bad = bad.real.astype(np.longdouble)
    else:
        bad = bad.real.astype(p["bad"])
    keep = [a.copy() for a in arrs]
    args = list(arrs)
    args[i] = bad
    try:
        fn(*args)
    except Exception:
        pass
    else:
        raise Violation(f"{p['fn']}: argument {i} of type {p['bad']} was accepted")
    for j, (a, b) in enumerate(zip(arrs, keep)):
        same(f"{p['fn']}: array {j} of a refused call", a, b)
    fn(*arrs)
    return p["bad"]
