"""Recipes on a small simulated observatory: data sets and calibrations on disk, and a reference interpreter.

The reference interpreter is the meaning of a recipe: it calls the documented step functions directly,
one after the other, and saves with the products' own save(). The code under test is corgidrp.walker.
"""
import copy
import importlib
import io
import json
import os

import astropy.io.fits as fits
import numpy as np

from . import csvdb, lab, products
from . import steplib as sl
from .lab import FULL, IM

# step name in a recipe -> function (the documented meaning of the names)
STEP_FN = {
    "prescan_biassub": ("l1_to_l2a", "prescan_biassub"), "detect_cosmic_rays": ("l1_to_l2a", "detect_cosmic_rays"),
    "correct_nonlinearity": ("l1_to_l2a", "correct_nonlinearity"), "update_to_l2a": ("l1_to_l2a", "update_to_l2a"),
    "add_photon_noise": ("l2a_to_l2b", "add_photon_noise"), "dark_subtraction": ("l2a_to_l2b", "dark_subtraction"),
    "flat_division": ("l2a_to_l2b", "flat_division"), "frame_select": ("l2a_to_l2b", "frame_select"),
    "convert_to_electrons": ("l2a_to_l2b", "convert_to_electrons"), "em_gain_division": ("l2a_to_l2b", "em_gain_division"),
    "cti_correction": ("l2a_to_l2b", "cti_correction"), "correct_bad_pixels": ("l2a_to_l2b", "correct_bad_pixels"),
    "desmear": ("l2a_to_l2b", "desmear"), "update_to_l2b": ("l2a_to_l2b", "update_to_l2b"),
    "create_bad_pixel_map": ("bad_pixel_calibration", "create_bad_pixel_map"), "calibrate_darks": ("darks", "calibrate_darks_lsq"),
    "create_onsky_flatfield": ("flat", "create_onsky_flatfield"), "combine_subexposures": ("combine", "combine_subexposures"),
    "build_trad_dark": ("darks", "build_trad_dark"), "sort_pupilimg_frames": ("sorting", "sort_pupilimg_frames"),
    "get_pc_mean": ("photon_counting", "get_pc_mean"), "divide_by_exptime": ("l2b_to_l3", "divide_by_exptime"),
    "northup": ("l3_to_l4", "northup"), "calibrate_fluxcal_aper": ("fluxcal", "calibrate_fluxcal_aper"),
    "update_to_l3": ("l2b_to_l3", "update_to_l3"), "create_wcs": ("l2b_to_l3", "create_wcs"),
    "distortion_correction": ("l3_to_l4", "distortion_correction"), "update_to_l4": ("l3_to_l4", "update_to_l4"),
    "generate_ct_cal": ("corethroughput", "generate_ct_cal"), "calibrate_kgain": ("calibrate_kgain", "calibrate_kgain"),
    "calibrate_nonlin": ("calibrate_nonlin", "calibrate_nonlin"), "calibrate_trap_pump": ("pump_trap_calibration", "tpump_analysis"),
    "boresight_calibration": ("astrom", "boresight_calibration"), "find_star": ("l3_to_l4", "find_star"),
}
CAL_CLASS = {"NDFilterSweetSpot": "NDFilterSweetSpotDataset"}

# ---------------------------------------------------------------- calibrations on disk
KINDS = ["DetectorParams", "KGain", "NonLinearityCalibration", "DetectorNoiseMaps", "Dark", "FlatField", "BadPixelMap", "AstrometricCalibration",
         "FluxcalFactor", "TrapCalibration", "CoreThroughputCalibration"]


def make_cal(data, kind, v, mjd, exptime=60., full=False):
    """A calibration that fits the small detector; `v` varies its values."""
    c = lab.Cals(data, {"mjd": mjd, "pix": v})
    if kind == "DetectorParams":
        o = c.params(ROWREADT=223.5e-6 * (1 + v))
        o.ext_hdr["SCTSRT"] = products.iso(mjd)
    elif kind == "KGain":
        o = c.kgain(8.7 + .5 * v)
    elif kind == "NonLinearityCalibration":
        o = c.nonlin()
        o.data[1:, 1:] *= 1 - .01 * v
    elif kind == "DetectorNoiseMaps":
        o = c.noisemaps()
        o.data[0] += v
        o.ext_hdr["B_O"] = .3 + v
    elif kind == "Dark":
        o = c.dark(lab.FULL if full else IM, exptime=exptime)
        o.data[:] = o.data + v
    elif kind == "FlatField":
        o = c.flat(IM)
        o.data[:] = o.data * (1 + .03 * v)
    elif kind == "BadPixelMap":
        o = c.bpmap(IM)
        o.data[5 + v % 5, 5] = 4
    elif kind == "AstrometricCalibration":
        o = c.astrom()
        o.data[4] = 12. + v
        o.northangle = 12. + v
    elif kind == "FluxcalFactor":
        o = c.fluxcal()
        o.data[:] = 2e-12 * (1 + v)
    elif kind == "TrapCalibration":
        o = c.trap()
    else:
        o = c.ct()
        o.ext_hdr["SCTSRT"] = products.iso(mjd)
    return o


def cal_name(kind, k):
    return "CGI_%02d_%s_%d.fits" % (KINDS.index(kind), kind[:3].upper(), k)


# ---------------------------------------------------------------- data sets on disk
# kind -> (step whose inputs they are, parameters, number of frames)
DATA = {
    "L1": ("prescan_biassub", {}, (1, 3)), "L2a": ("add_photon_noise", {}, (1, 3)), "L2b": ("create_wcs", {}, (1, 4)), "L3": ("distortion_correction", {}, (1, 4)),
    "DARKS": ("build_trad_dark", {}, (2, 3)), "LSQ": ("calibrate_darks_lsq", {"sets": 4}, (2, 2)), "PC": ("get_pc_mean", {"dark": False}, (3, 5)),
    "PCDARK": ("get_pc_mean", {"dark": True}, (3, 5)), "SKY": ("create_onsky_flatfield", {}, (4, 4)), "STAR": ("calibrate_fluxcal_aper", {"level": "L2b"}, (1, 3)),
    "CT": ("generate_ct_cal", {}, (2, 3)), "SORT": ("sort_pupilimg_frames", {"gains": 1}, (1, 1)), "KGAIN": ("calibrate_kgain", {"sets": 0}, (1, 1)),
    "NONLIN": ("calibrate_nonlin", {"gains": 0}, (1, 1)), "PUMP": ("tpump_analysis", {"traps": 1}, (1, 1)), "BORE": ("boresight_calibration", {"stars": 7, "field": 1}, (1, 2)),
    "SPOTS": ("find_star", {}, (2, 4)),
}
LEVEL = {"L1": "L1", "L2a": "L2a", "L2b": "L2b", "L3": "L3", "DARKS": "L2a", "LSQ": "L2a", "PC": "L2a", "PCDARK": "L2a", "SKY": "L2a", "STAR": "L2b", "CT": "L3", "SORT": "L1", "NONE": "", "KGAIN": "L2a",
         "NONLIN": "L2a", "PUMP": "L2a", "BORE": "L2b", "SPOTS": "L3"}
# where the step finds frames of its own geometry
KGAIN_KW = {"n_cal": 3, "n_mean": 3, "min_val": 200, "max_val": 4000, "binwidth": 10, "make_plot": False, "kgain_params": sl.PTCPAR, "detector_regions": sl.PTC}
NONLIN_KW = {"n_cal": 5, "n_mean": 3, "norm_val": 2500, "min_write": 800., "max_write": 9000., "lowess_frac": .5, "make_plot": False, "nonlin_params": sl.NLPAR}
SPOTS_KW = {"offset": {"nSubpixels": 8, "nSteps": 3, "nIter": 1}, "separation": {"nSubpixels": 8, "nSteps": 3, "nIter": 1}}

# shipped templates that make sense for a kind of data at this scale
TEMPLATES = {
    "L1": ["l1_to_l2a_basic.json", "l1_to_l2a_eng.json", "l1_to_l2b.json"], "L2a": ["l2a_to_l2b.json", "bp_map.json"], "L2b": ["l2b_to_l3.json"],
    "L3": ["l3_to_l4_nopsfsub.json"], "DARKS": ["l2a_build_trad_dark_image.json"], "LSQ": ["l2a_to_l2a_noisemap.json"], "PC": ["l2a_to_l2b_pc.json"],
    "PCDARK": ["l2a_to_l2b_pc_dark.json"], "STAR": ["l2b_to_fluxcal_factor.json"], "NONE": ["bp_map.json"], "CT": [], "SKY": [], "SORT": [],
    "KGAIN": [], "NONLIN": [], "PUMP": [], "BORE": [], "SPOTS": [],
}


def A(rng, optional=False):
    """How a recipe names a calibration."""
    u = rng.random()
    if u < .25:
        return "@%d" % rng.randrange(3)
    if optional:
        return rng.choice(["AUTOMATIC, OPTIONAL", "AUTOMATIC,OPTIONAL", "OPTIONAL, AUTOMATIC", "automatic,optional"])
    return rng.choice(["AUTOMATIC", "AUTOMATIC", "AUTOMATIC", "Automatic"])


def _s(name, calibs=None, kw=None, **more):
    d = {"name": name}
    if calibs:
        d["calibs"] = calibs
    if kw:
        d["keywords"] = kw
    d.update(more)
    return d


def steps_for(rng, kind):
    """A seeded list of recipe steps that mostly works on this kind of data."""
    out = []
    lvl = LEVEL[kind]
    if kind == "L1":
        kw = {"return_full_frame": rng.random() < .3} if rng.random() < .8 else {}
        out.append(_s("prescan_biassub", {"DetectorNoiseMaps": A(rng, True)} if rng.random() < .6 else None, kw))
        out.append(_s("detect_cosmic_rays", {"DetectorParams": A(rng), "KGain": A(rng, True)}, {"sat_thresh": rng.choice([.7, .99])} if rng.random() < .4 else None))
        out.append(_s("correct_nonlinearity", {"NonLinearityCalibration": A(rng)}))
        out.append(_s("update_to_l2a"))
        if rng.random() < .5:
            return out
    if kind in ("L1", "L2a"):
        mid = [_s("frame_select", kw={"bpix_frac": rng.choice([1., .9])} if rng.random() < .3 else None), _s("convert_to_electrons", {"KGain": A(rng)}),
               _s("em_gain_division"), _s("add_photon_noise"), _s("desmear", {"DetectorParams": A(rng)}), _s("cti_correction", {"TrapCalibration": A(rng, True)}),
               _s("flat_division", {"FlatField": A(rng)}), _s("correct_bad_pixels", {"BadPixelMap": A(rng)})]
        if rng.random() < .8:
            if rng.random() < .5:
                mid.insert(4, _s("dark_subtraction", {"DetectorNoiseMaps": A(rng)}, {"outputdir": "AUTOMATIC"}))
            else:
                mid.insert(4, _s("dark_subtraction", {"Dark": A(rng)}, rng.choice([{"outputdir": "AUTOMATIC"}, {"outputdir": "Automatic"}, None, {"outputdir": None}])))
        out += [s for s in mid if rng.random() < .7]
        if rng.random() < .2:
            i = rng.randrange(len(out)) if out else 0
            if len(out) > 1:
                j = rng.randrange(len(out))
                out[i], out[j] = out[j], out[i]
        if rng.random() < .3:
            out.append(_s("combine_subexposures", kw={"num_frames_per_group": rng.choice([None, 1]), "collapse": rng.choice(["mean", "median"])}))
        if rng.random() < .7:
            out.append(_s("update_to_l2b"))
            if rng.random() < .4:
                kind = "L2b"
    if kind == "L2b":
        mid = [_s("create_wcs", {"AstrometricCalibration": A(rng)}), _s("divide_by_exptime")]
        if rng.random() < .3:
            mid.reverse()
        out += mid
        if rng.random() < .7:
            out.append(_s("update_to_l3"))
            if rng.random() < .5:
                kind = "L3"
    if kind == "L3":
        mid = [_s("distortion_correction", {"AstrometricCalibration": A(rng)}), _s("northup", kw={"use_wcs": rng.random() < .5} if rng.random() < .5 else None),
               _s("combine_subexposures", kw={"num_frames_scaling": rng.random() < .5})]
        out += [s for s in mid if rng.random() < .7]
        if rng.random() < .8:
            out.append(_s("update_to_l4", {"CoreThroughputCalibration": A(rng, True), "FluxcalFactor": A(rng)}))
    if kind == "DARKS":
        if rng.random() < .5:
            out.append(_s("convert_to_electrons", {"KGain": A(rng)}))
        out.append(_s("build_trad_dark", {"DetectorParams": A(rng)}, {"full_frame": rng.random() < .5} if rng.random() < .5 else None))
    if kind == "LSQ":
        out.append(_s("calibrate_darks", {"DetectorParams": A(rng)}))
    if kind in ("PC", "PCDARK"):
        if rng.random() < .3:
            out.append(_s("frame_select"))
        out.append(_s("get_pc_mean", kw={"inputmode": "darks" if kind == "PCDARK" else "illuminated", "T_factor": 5, "bin_size": rng.choice([None, 2])}))
    if kind == "NONE" or (kind == "L2a" and rng.random() < .1):
        noise = rng.random() < .4
        out.append(_s("create_bad_pixel_map", {"DetectorNoiseMaps" if noise else "Dark": A(rng), "FlatField": A(rng)},
                      {"dark_outputdir": "@out", "dthresh": rng.choice([3., 5.])} if noise else {"dthresh": 3.}))
    if kind == "SKY":
        out.append(_s("create_onsky_flatfield", kw={"planet": "neptune", "band": "1F", "up_radius": 10, "im_size": 60, "planet_rad": 5, "n_pix": 20, "n_pad": 2}))
    if kind == "STAR":
        out.append(_s("divide_by_exptime"))
        out.append(_s("calibrate_fluxcal_aper", kw={"phot_kwargs": {"encircled_radius": rng.choice([4, 5])}}))
    if kind == "CT":
        out.append(_s("generate_ct_cal", kw={"roi_radius": 3}))
    if kind == "KGAIN":
        out.append(_s("calibrate_kgain", kw=dict(copy.deepcopy(KGAIN_KW), binwidth=rng.choice([10, 20]))))
    if kind == "NONLIN":
        out.append(_s("calibrate_nonlin", kw=dict(copy.deepcopy(NONLIN_KW), lowess_frac=rng.choice([.5, .4]))))
    if kind == "PUMP":
        if rng.random() < .5:
            out.append(_s("em_gain_division"))
        out.append(_s("calibrate_trap_pump", kw={"length_lim": 3, "thresh_factor": 1.5, "bins_E": 10, "bins_cs": 5}))
    if kind == "BORE":
        out.append(_s("boresight_calibration", kw={"field_path": "@field", "find_threshold": 7, "comparison_threshold": 5, "fwhm": 5, "center_radius": 1}))
    if kind == "SPOTS":
        out.append(_s("find_star", kw={"satellite_spot_parameters": copy.deepcopy(SPOTS_KW), "drop_satspots_frames": rng.random() < .5}))
        if rng.random() < .5:
            out.append(_s("combine_subexposures", kw={"num_frames_scaling": rng.random() < .5}))
        if rng.random() < .6:
            out.append(_s("update_to_l4", {"CoreThroughputCalibration": A(rng, True), "FluxcalFactor": A(rng)}))
    if kind == "SORT":
        out.append(_s("sort_pupilimg_frames", kw={"cal_type": rng.choice(["k-gain", "non-lin"])}))
    return out


def add_saves(rng, steps, skip=True):
    out = []
    for s in steps:
        if skip and rng.random() < .1:
            s = dict(s, skip=True)
        elif skip and rng.random() < .1:
            s = dict(s, skip=False)
        out.append(s)
        if rng.random() < .15:
            out.append(save_step(rng))
    if not out or out[-1]["name"] != "save" or rng.random() < .2:
        out.append(save_step(rng))
    return out


def save_step(rng):
    u = rng.random()
    if u < .5:
        return {"name": "save"}
    s = {"name": rng.choice(["save", "save", "Save"])}
    s["keywords"] = {"suffix": rng.choice(["x", "_y", "a_b_", "Z9", ""])} if u < .9 else {}
    if rng.random() < .15:
        s["skip"] = rng.random() < .7
    return s


def gen_recipe(rng, kind, drp=True, skip=True):
    r = {"name": rng.choice(["basic", "n1", "my recipe"]), "template": False, "drpconfig": {}, "inputs": [], "outputdir": "", "steps": add_saves(rng, steps_for(rng, kind), skip)}
    if drp:
        if rng.random() < .5:
            r["drpconfig"]["track_individual_errors"] = rng.random() < .5
        if rng.random() < .4:
            r["drpconfig"]["jit_calib_id"] = rng.random() < .6
        if rng.random() < .2:
            r["drpconfig"]["skip_missing_cal_steps"] = rng.random() < .7
    return r


# ---------------------------------------------------------------- names of calibrations
def is_auto(value):
    """Does this entry of a recipe ask for automatic selection?"""
    return isinstance(value, str) and "AUTOMATIC" in [t.strip().upper() for t in value.split(",")]


def is_optional(value):
    return isinstance(value, str) and "OPTIONAL" in [t.strip().upper() for t in value.split(",")]


class Missing(Exception):
    """No calibration qualifies."""


class Ambiguous(Exception):
    """Several calibrations match equally well."""


def best(db, cls, hdr):
    """Reference lookup over a parsed database."""
    from astropy.time import Time
    rows = [r for r in db.values() if r["Type"] == products.LABELS[cls]]
    if hdr is None:
        return max(rows, key=lambda r: r["Date Created"])["Filepath"] if rows else _none(cls)
    if cls == "Dark":
        rows = [r for r in rows if r["EXPTIME"] == float(hdr["EXPTIME"])]
    if not rows:
        _none(cls)
    m = Time(hdr["SCTSRT"]).mjd
    rows = sorted(rows, key=lambda r: abs(r["MJD"] - m))
    if len(rows) > 1 and abs(rows[1]["MJD"] - m) - abs(rows[0]["MJD"] - m) < 1e-9:
        raise Ambiguous(cls)        # equally near: either will do
    return rows[0]["Filepath"]


def _none(cls):
    raise Missing("no %s" % cls)


def resolve_step(step, lookup, skip_missing):
    """Fill in the automatic calibrations of one step. `lookup(cls)` gives a path or raises Missing."""
    for c in step.get("calibs", {}):
        v = step["calibs"][c]
        if not is_auto(v):
            continue
        try:
            step["calibs"][c] = lookup(CAL_CLASS.get(c, c))
        except Missing:
            if is_optional(v):
                step["calibs"][c] = None
            elif skip_missing:
                step["skip"] = True
                step["calibs"][c] = None
            else:
                raise


# ---------------------------------------------------------------- disk pictures
def parse_fits(raw):
    """bytes -> [(name, cards, data)] with time stamps left out."""
    out = []
    with fits.open(io.BytesIO(raw), memmap=False) as h:
        h.verify("exception")
        for x in h:
            d = x.data
            if d is not None:
                d = lab.arr(d) if getattr(d, "dtype", None) is not None and d.dtype.names is None else np.asarray([str(t) for t in d])
            out.append((x.name, lab.cards(x.header, ("DRPCTIME", "RECIPE", "CHECKSUM", "DATASUM")), d))
    return out


def recipe_of(raw):
    with fits.open(io.BytesIO(raw), memmap=False) as h:
        for x in h[1:2]:
            if "RECIPE" in x.header:
                return json.loads(x.header["RECIPE"])
    return None


def complete(raw):
    """Is this a whole readable FITS file?"""
    if not raw or len(raw) % 2880:
        return False
    try:
        parse_fits(raw)
    except Exception:
        return False
    return True


def diff_fits(a, b, recipe=True):
    """None or what differs between two FITS files (bytes)."""
    if a == b:
        return None
    try:
        x, y = parse_fits(a), parse_fits(b)
    except Exception as e:
        return "unreadable: %s" % e
    if not lab.same(x, y):
        return lab.diff(x, y)
    if recipe:
        p, q = recipe_of(a), recipe_of(b)
        if p != q:
            return "RECIPE card: %s" % lab.diff(p, q) if isinstance(p, dict) and isinstance(q, dict) else "RECIPE card: %r / %r" % (str(p)[:60], str(q)[:60])
    return None


def parse_db(raw):
    if raw is None:
        return {}
    return csvdb.parse(raw.decode())


def diff_db(want, got, dates=False):
    w = {k: dict(v) for k, v in want.items()}
    g = {k: dict(v) for k, v in got.items()}
    if not dates:
        for d in (w, g):
            for v in d.values():
                v["Date Created"] = 0.
    return csvdb.diff(g, w)
