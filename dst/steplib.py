"""Every processing step and calibration builder of the pipeline, callable on small simulated data.

A step entry knows how to make inputs it can work on, which keywords it may be given, and what it
promises (appends history, works on pixels, only relabels). Nothing here judges the outcome.
"""
import importlib
import os

import astropy.io.fits as fits
import numpy as np

from . import lab, products
from .lab import FULL, IM

STEPS = {}


class Step:
    def __init__(self, name, mod, fn, level=None, chain=False, hist=True, relabel=None, pixel=False, shape=None, data=None, params=None, pick="any", n=None):
        self.name, self.mod, self.level, self.chain, self.hist, self.relabel, self.pixel = name, mod, level, chain, hist, relabel, pixel
        self.prepare = fn
        self.shape = shape
        self.data = data
        self.params = params or (lambda rng: {})
        self.n = n


def step(name, mod, **kw):
    def deco(fn):
        STEPS[name] = Step(name, mod, fn, **kw)
        return fn
    return deco


class Env:
    """One session: modules of the running incarnation and calibrations shared by its steps."""

    def __init__(self, w, data, outdir=None):
        self.w = w
        self.data = data
        self.c = lab.Cals(data)
        self.cache = {}
        self.outdir = outdir or os.path.join(w.root, "out")
        with w.quiet():
            os.makedirs(self.outdir, exist_ok=True)
        archive(self)

    def mod(self, name):
        return importlib.import_module("corgidrp." + name)

    def cal(self, kind, *a, **k):
        key = (kind, repr(a), repr(sorted(k.items())))
        if key not in self.cache:
            self.cache[key] = getattr(self.c, kind)(*a, **k)
        return self.cache[key]


def _shape(ds):
    return tuple(ds.all_data.shape[-2:])


# ---------------------------------------------------------------- L1 -> L2a
@step("prescan_biassub", "l1_to_l2a", level="L1", shape="full", chain=True, pixel=True,
      params=lambda r: {"full": r.random() < .5, "area": r.random() < .3, "nm": r.random() < .5})
def _(env, ds, p):
    nm = env.cal("noisemaps") if p["nm"] else None
    f = env.mod("l1_to_l2a").prescan_biassub
    return lambda: f(ds, noise_maps=nm, return_full_frame=p["full"], use_imaging_area=p["area"]), {"nm": nm}


@step("detect_cosmic_rays", "l1_to_l2a", level="L1", chain=True, pixel=True,
      params=lambda r: {"kg": r.random() < .5, "mode": r.choice(["image", "full"]), "sat": r.choice([.3, .7, .99])})
def _(env, ds, p):
    dp, kg = env.cal("params"), (env.cal("kgain") if p["kg"] else None)
    f = env.mod("l1_to_l2a").detect_cosmic_rays
    mode = "full" if p["mode"] == "full" and _shape(ds) == FULL else "image"
    return lambda: f(ds, dp, k_gain=kg, sat_thresh=p["sat"], mode=mode), {"dp": dp, "kg": kg}


@step("correct_nonlinearity", "l1_to_l2a", level="L1", chain=True, pixel=True,
      params=lambda r: {"thr": r.choice([None, 250., 310.])})
def _(env, ds, p):
    nl = env.cal("nonlin")
    f = env.mod("l1_to_l2a").correct_nonlinearity
    return lambda: f(ds, nl, threshold=np.inf if p["thr"] is None else p["thr"]), {"nl": nl}


for _n, _m, _a, _b in [("update_to_l2a", "l1_to_l2a", "L1", "L2a"), ("update_to_l2b", "l2a_to_l2b", "L2a", "L2b"), ("update_to_l3", "l2b_to_l3", "L2b", "L3"),
                       ("update_to_tda", "l4_to_tda", "L4", "TDA")]:
    def _mk(n=_n, m=_m):
        def prep(env, ds, p):
            f = getattr(env.mod(m), n)
            return lambda: f(ds), {}
        return prep
    STEPS[_n] = Step(_n, _m, _mk(), level=_a, chain=True, relabel=(_a, _b))


@step("update_to_l4", "l3_to_l4", level="L3", chain=True, relabel=("L3", "L4"), params=lambda r: {"ct": r.random() < .7})
def _(env, ds, p):
    ct, fc = (env.cal("ct") if p["ct"] else None), env.cal("fluxcal")
    f = env.mod("l3_to_l4").update_to_l4
    return lambda: f(ds, ct, fc), {"ct": ct, "fc": fc}


# ---------------------------------------------------------------- L2a -> L2b
@step("add_photon_noise", "l2a_to_l2b", level="L2a", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").add_photon_noise
    return lambda: f(ds), {}


@step("dark_subtraction", "l2a_to_l2b", level="L2a", chain=True, pixel=True, params=lambda r: {"synth": r.random() < .5})
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").dark_subtraction
    h = ds[0].ext_hdr
    if p["synth"]:
        dark = env.cal("noisemaps")
    else:
        dark = env.cal("dark", _shape(ds), exptime=h["EXPTIME"], emgain=h["EMGAIN_C"], kgainpar=h["KGAINPAR"])
    return lambda: f(ds, dark, outputdir=env.outdir), {"dark": dark}


@step("flat_division", "l2a_to_l2b", level="L2a", chain=True, pixel=True, params=lambda r: {"zero": r.random() < .4})
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").flat_division
    fl = env.cal("flat", _shape(ds), zero=p["zero"])
    return lambda: f(ds, fl), {"flat": fl}


@step("frame_select", "l2a_to_l2b", level="L2a", chain=True,
      params=lambda r: {"bpix": r.choice([1., .5, .01]), "allowed": r.choice([0, 4, 255]), "over": r.random() < .5, "tt": r.choice([None, 5.]),
                        "discard": r.random() < .7})
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").frame_select
    return lambda: f(ds, bpix_frac=p["bpix"], allowed_bpix=p["allowed"], overexp=p["over"], tt_rms_thres=p["tt"], tt_bias_thres=p["tt"],
                     discard_bad=p["discard"]), {}


@step("convert_to_electrons", "l2a_to_l2b", level="L2a", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").convert_to_electrons
    kg = env.cal("kgain")
    return lambda: f(ds, kg), {"kg": kg}


@step("em_gain_division", "l2a_to_l2b", level="L2a", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").em_gain_division
    return lambda: f(ds), {}


@step("cti_correction", "l2a_to_l2b", level="L2a", chain=True, hist=False, pixel=True)
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").cti_correction
    t = env.cal("trap")
    return lambda: f(ds, t), {"trap": t}


@step("correct_bad_pixels", "l2a_to_l2b", level="L2a", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").correct_bad_pixels
    bp = env.cal("bpmap", _shape(ds))
    return lambda: f(ds, bp), {"bp": bp}


@step("desmear", "l2a_to_l2b", level="L2a", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l2a_to_l2b").desmear
    dp = env.cal("params")
    return lambda: f(ds, dp), {"dp": dp}


# ---------------------------------------------------------------- L2b -> L3 -> L4 -> TDA
@step("create_wcs", "l2b_to_l3", level="L2b", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l2b_to_l3").create_wcs
    a = env.cal("astrom")
    return lambda: f(ds, a), {"astrom": a}


@step("divide_by_exptime", "l2b_to_l3", level="L2b", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l2b_to_l3").divide_by_exptime
    return lambda: f(ds), {}


@step("distortion_correction", "l3_to_l4", level="L3", chain=True, pixel=True, shape="im")
def _(env, ds, p):
    f = env.mod("l3_to_l4").distortion_correction
    a = env.cal("astrom")
    return lambda: f(ds, a), {"astrom": a}


@step("crop", "l3_to_l4", level="L3", chain=True, pixel=True,
      params=lambda r: {"size": r.choice([6, 8, 10]), "c": r.choice([None, [6.5, 6.5], [5.5, 7.5]])})
def _(env, ds, p):
    f = env.mod("l3_to_l4").crop
    c = None if p["c"] is None else list(p["c"])
    return lambda: f(ds, sizexy=p["size"], centerxy=c), {"center": c}


@step("northup", "l3_to_l4", level="L3", chain=True, pixel=True,
      params=lambda r: {"wcs": r.random() < .5, "cen": r.choice(["im_center", "starloc", (5, 6)])})
def _(env, ds, p):
    f = env.mod("l3_to_l4").northup
    return lambda: f(ds, use_wcs=p["wcs"], rot_center=p["cen"]), {}


@step("convert_to_flux", "l4_to_tda", level="L4", chain=True, pixel=True)
def _(env, ds, p):
    f = env.mod("l4_to_tda").convert_to_flux
    fc = env.cal("fluxcal")
    return lambda: f(ds, fc), {"fc": fc}


@step("nan_flags", "detector", level="L2b", chain=True, hist=False, pixel=True, params=lambda r: {"thr": r.choice([1, 8])})
def _(env, ds, p):
    f = env.mod("detector").nan_flags
    return lambda: f(ds, threshold=p["thr"]), {}


@step("flag_nans", "detector", level="L2b", chain=True, hist=False, pixel=True, params=lambda r: {"v": r.choice([1, 2])})
def _(env, ds, p):
    f = env.mod("detector").flag_nans
    return lambda: f(ds, flag_val=p["v"]), {}


# ---------------------------------------------------------------- stars and photometry
def star_frame(env, spec, k, size=32, level="L3", x=None, y=None):
    fr = lab.make_frame(env.data, dict(spec, mean=0., nan=False), k, level, (size, size))
    yy, xx = np.indices((size, size))
    cx = (size // 2 + .3) if x is None else x
    cy = (size // 2 - .2) if y is None else y
    rs = np.random.RandomState(int(spec.get("pix", 0)) + 7 * k)
    amp = 2000. + 50 * rs.rand()
    fr.data[:] = amp * np.exp(-((xx - cx) ** 2 + (yy - cy) ** 2) / (2 * 1.4 ** 2)) + rs.normal(0, .5, (size, size))
    return fr


def star_ds(env, spec, p, n):
    return env.data.Dataset([star_frame(env, spec, k, level=p.get("level", "L3")) for k in range(n)])


def calspec(env):
    """A made-up standard star; also what the simulated archive serves."""
    path = os.path.join(env.w.root, "star.fits")
    with env.w.quiet():
        if not os.path.exists(path):
            wv = np.linspace(3000., 12000., 400)
            fl = 1e-9 * (5000. / wv) ** 2
            t = fits.BinTableHDU.from_columns([fits.Column("WAVELENGTH", "D", array=wv), fits.Column("FLUX", "D", array=fl)])
            fits.HDUList([fits.PrimaryHDU(), t]).writeto(path)
    return path


def archive(env):
    """Stand-in for the download of standard-star spectra: a local copy of the made-up star."""
    import shutil
    import urllib.request
    src = calspec(env)

    def urlretrieve(url, filename=None, *a, **k):
        shutil.copyfile(src, filename)
        return filename, {}
    urllib.request.urlretrieve = urlretrieve


PHOT = {"encircled_radius": 5, "frac_enc_energy": 1., "method": "subpixel", "subpixels": 5, "background_sub": False, "r_in": 5, "r_out": 10,
        "centering_method": "xy", "centroid_roi_radius": 5}
GAUS = {"fwhm": 3, "fit_shape": 9, "background_sub": False, "r_in": 5, "r_out": 10, "centering_method": "xy", "centroid_roi_radius": 5}


def _phot(p, base):
    if not p.get("kw"):
        return None
    d = dict(base)
    d["background_sub"] = bool(p.get("bg"))
    return d


def _pp(r):
    return {"kw": r.random() < .6, "bg": r.random() < .5, "irr": r.random() < .5, "single": r.random() < .5, "ph": r.choice(["aperture", "2dgauss"])}


@step("calibrate_fluxcal_aper", "fluxcal", level="L3", data=star_ds, params=_pp, n=(1, 3))
def _(env, ds, p):
    f = env.mod("fluxcal").calibrate_fluxcal_aper
    kw = _phot(p, PHOT)
    arg = ds[0] if p["single"] else ds
    return lambda: f(arg, flux_or_irr="irr" if p["irr"] else "flux", phot_kwargs=kw), {"kw": kw}


@step("calibrate_fluxcal_gauss2d", "fluxcal", level="L3", data=star_ds, params=_pp, n=(1, 3))
def _(env, ds, p):
    f = env.mod("fluxcal").calibrate_fluxcal_gauss2d
    kw = _phot(p, GAUS)
    arg = ds[0] if p["single"] else ds
    return lambda: f(arg, flux_or_irr="irr" if p["irr"] else "flux", phot_kwargs=kw), {"kw": kw}


@step("determine_flux", "l4_to_tda", level="L4", data=star_ds, params=_pp, n=(1, 3))
def _(env, ds, p):
    f = env.mod("l4_to_tda").determine_flux
    fc = env.cal("fluxcal")
    kw = _phot(p, PHOT if p["ph"] == "aperture" else GAUS)
    return lambda: f(ds, fc, photo=p["ph"], phot_kwargs=kw), {"fc": fc, "kw": kw}


@step("determine_app_mag", "l4_to_tda", level="L4", data=star_ds, params=_pp, n=(1, 3))
def _(env, ds, p):
    f = env.mod("l4_to_tda").determine_app_mag
    arg = ds[0] if p["single"] else ds
    return lambda: f(arg, "Vega", scale_factor=.5), {}


@step("determine_color_cor", "l4_to_tda", level="L4", data=star_ds, n=(1, 3))
def _(env, ds, p):
    f = env.mod("l4_to_tda").determine_color_cor
    return lambda: f(ds, "Vega", "109 Vir"), {}


@step("find_source", "l4_to_tda", level="L4", data=star_ds, hist=False, n=(1, 2))
def _(env, ds, p):
    f = env.mod("l4_to_tda").find_source
    return lambda: f(ds[0], fwhm=2.8, nsigma_threshold=6.5), {}


def spots_ds(env, spec, p, n):
    """Frames with four satellite spots around the star plus plain ones."""
    size, sep = 45, 14.79
    out = []
    for k in range(max(2, n)):
        sat = k % 2
        fr = lab.make_frame(env.data, dict(spec, mean=0., satspots=sat), k, "L3", (size, size))
        yy, xx = np.indices((size, size))
        d = np.full((size, size), 10.) + fr.data * .0
        rs = np.random.RandomState(int(spec.get("pix", 0)) + k)
        d += rs.rand(size, size) * .01
        if sat:
            for a in range(4):
                ang = np.radians(90 * a)
                d += 50 * np.exp(-((xx - 22 - sep * np.cos(ang)) ** 2 + (yy - 22 - sep * np.sin(ang)) ** 2) / 4.)
        fr.data[:] = d
        out.append(fr)
    return env.data.Dataset(out)


def _fsp(r):
    return {"drop": r.random() < .5, "tune": r.choice([None, {"offset": {"nIter": 1, "nSteps": 3}, "separation": {"nIter": 1, "nSteps": 3}},
                                                        {"offset": {"nIter": 2, "nSteps": 3, "stepSize": .5}, "separation": {"nIter": 1, "nSteps": 5}}])}


@step("find_star", "l3_to_l4", level="L3", data=spots_ds, params=_fsp, n=(2, 4))
def _(env, ds, p):
    sc = env.mod("star_center")
    for b in sc.satellite_spot_parameters_defaults["NFOV"].values():   # keep the default search short
        if b["nSubpixels"] > 8:
            b["nSubpixels"], b["nSteps"], b["nIter"] = 8, 3, 1
    f = env.mod("l3_to_l4").find_star
    kw = None if p["tune"] is None else {k: dict(v) for k, v in p["tune"].items()}
    return lambda: f(ds, satellite_spot_parameters=kw, drop_satspots_frames=p["drop"]), {"kw": kw}


# ---------------------------------------------------------------- calibration builders
@step("build_trad_dark", "darks", level="L2a", shape="full", n=(2, 4), params=lambda r: {"full": r.random() < .5})
def _(env, ds, p):
    f = env.mod("darks").build_trad_dark
    dp = env.cal("params")
    return lambda: f(ds, dp, full_frame=p["full"]), {"dp": dp}


@step("build_synthesized_dark", "darks", level="L2a", params=lambda r: {"full": r.random() < .5})
def _(env, ds, p):
    f = env.mod("darks").build_synthesized_dark
    nm = env.cal("noisemaps")
    return lambda: f(ds, nm, full_frame=p["full"]), {"nm": nm}


def lsq_ds(env, spec, p, n):
    fr = []
    for j, (g, t) in enumerate([(1., 2.), (10., 2.), (10., 80.), (100., 40.), (1., 80.)][:p.get("sets", 4)]):
        for k in range(max(2, min(3, n))):
            f = lab.make_frame(env.data, dict(spec, emgain=g, exptime=t, mean=10. + .1 * g + .01 * g * t), len(fr), "L2a", FULL)
            fr.append(f)
    o = p.get("order")
    if o:
        fr = [fr[i % len(fr)] for i in np.random.RandomState(o).permutation(len(fr))]
    return env.data.Dataset(fr)


@step("calibrate_darks_lsq", "darks", level="L2a", shape="full", data=lsq_ds, n=(2, 3), params=lambda r: {"sets": r.choice([4, 4, 5, 3])})
def _(env, ds, p):
    f = env.mod("darks").calibrate_darks_lsq
    dp = env.cal("params")
    return lambda: f(ds, dp), {"dp": dp}


def pc_ds(env, spec, p, n):
    fr = []
    for k in range(n):
        f = lab.make_frame(env.data, dict(spec, emgain=5000., emgain_a=-1, mean=0., ispc=True, vistype="DARK" if p.get("dark") else "TDEMO"), k, "L2a", IM)
        rs = np.random.RandomState(int(spec.get("pix", 0)) * 5 + k)
        f.data[:] = np.where(rs.rand(*IM) < .05, 4000., 0.) + rs.normal(0, 1, IM)
        f.ext_hdr["RN"] = 100.
        fr.append(f)
    return env.data.Dataset(fr)


def _pcp(r):
    return {"dark": r.random() < .5, "bin": r.choice([None, 2, 3]), "md": r.random() < .4, "safe": r.random() < .8}


@step("get_pc_mean", "photon_counting", level="L2a", shape="im", data=pc_ds, n=(3, 6), params=_pcp)
def _(env, ds, p):
    f = env.mod("photon_counting").get_pc_mean
    md = None
    if p["md"] and not p["dark"]:
        d = pc_ds(env, {"pix": 9}, {"dark": True}, 6)
        key = "pcdark"
        if key not in env.cache:
            env.cache[key] = f(d, inputmode="darks", bin_size=3, T_factor=5)
        md = env.cache[key]
    return lambda: f(ds, pc_master_dark=md, inputmode="darks" if p["dark"] else "illuminated", bin_size=p["bin"], safemode=p["safe"], T_factor=5), {"md": md}


@step("create_flatfield", "flat", level="L2a", n=(2, 4))
def _(env, ds, p):
    f = env.mod("flat").create_flatfield
    return lambda: f(ds), {}


def sky_ds(env, spec, p, n):
    """Frames of a disk moving over the detector."""
    size = 60
    out = []
    for k in range(max(4, n)):
        f = lab.make_frame(env.data, dict(spec, mean=0.), k, "L2a", (size, size))
        rs = np.random.RandomState(int(spec.get("pix", 0)) + k)
        cy, cx = 26 + 3 * (k // 2), 26 + 3 * (k % 2)
        yy, xx = np.indices((size, size))
        f.data[:] = np.where((yy - cy) ** 2 + (xx - cx) ** 2 < 64, 100., 0.) + rs.rand(size, size) * .1 + 3.
        f.pri_hdr["TARGET"] = "Neptune"
        out.append(f)
    return env.data.Dataset(out)


@step("create_onsky_flatfield", "flat", level="L2a", data=sky_ds, n=(4, 4), params=lambda r: {"sky": r.random() < .7})
def _(env, ds, p):
    f = env.mod("flat").create_onsky_flatfield
    kw = {} if p["sky"] else {"sky_annulus_rin": None, "sky_annulus_rout": None}
    return lambda: f(ds, planet="neptune", band="1F", up_radius=10, im_size=60, planet_rad=5, n_pix=20, n_pad=2, **kw), {}


@step("create_bad_pixel_map", "bad_pixel_calibration", level="L2a", shape="im", params=lambda r: {"synth": r.random() < .5})
def _(env, ds, p):
    f = env.mod("bad_pixel_calibration").create_bad_pixel_map
    dark = env.cal("noisemaps") if p["synth"] else env.cal("dark", IM)
    fl = env.cal("flat", IM)
    return lambda: f(ds, dark, fl, dthresh=3., ffrac=.8, fwidth=8, dark_outputdir=env.outdir), {"dark": dark, "flat": fl}


@step("combine_subexposures", "combine", level="L2b", n=(2, 4),
      params=lambda r: {"k": r.choice([None, 1, 2]), "c": r.choice(["mean", "median"]), "s": r.random() < .5})
def _(env, ds, p):
    f = env.mod("combine").combine_subexposures
    return lambda: f(ds, num_frames_per_group=p["k"], collapse=p["c"], num_frames_scaling=p["s"]), {}


@step("split_dataset", "data", level="L2a", hist=False, n=(1, 4), params=lambda r: {"k": r.choice(["EXPTIME", "EMGAIN_C", "both"])})
def _(env, ds, p):
    kw = {"exthdr_keywords": ["EXPTIME", "EMGAIN_C"] if p["k"] == "both" else [p["k"]]}
    if p["k"] == "both":
        kw["prihdr_keywords"] = ["TARGET"]
    return lambda: ds.split_dataset(**kw), {"kw": kw}


def sort_ds(env, spec, p, n):
    """A K-gain / non-linearity observing sequence: mean frames, then exposure-time ramps that repeat their first value."""
    fr = []

    def add(t, g):
        f = lab.make_frame(env.data, dict(spec, exptime=t, emgain=g), len(fr), "L1", (4, 5))
        f.filename = "CGI_0200001001001001001_L1_%04d.fits" % len(fr)
        f.filedir = "/sim"
        fr.append(f)
    for _ in range(7 + int(p.get("extra", 0))):
        add(5., 1.)
    for t in (1., 2., 3., 4.):
        for _ in range(3):
            add(t, 1.)
    for _ in range(3):
        add(1., 1.)
    for g in (10., 20.)[:p.get("gains", 2)]:
        for t in (1., 2., 3., 4., 2.):
            add(t, g)
    return env.data.Dataset(fr)


@step("sort_pupilimg_frames", "sorting", level="L1", data=sort_ds, params=lambda r: {"t": r.choice(["k-gain", "non-lin"]), "extra": r.randrange(3), "gains": r.choice([1, 2])})
def _(env, ds, p):
    f = env.mod("sorting").sort_pupilimg_frames
    return lambda: f(ds, cal_type=p["t"]), {}


def ct_ds(env, spec, p, n):
    out = []
    pupil = lab.make_frame(env.data, dict(spec, mean=20., positive=True), 0, "L3", (41, 41))
    for k, v in (("DPAMNAME", "PUPIL"), ("LSAMNAME", "OPEN"), ("FSAMNAME", "OPEN"), ("FPAMNAME", "OPEN_12")):
        pupil.ext_hdr[k] = v
    out.append(pupil)
    for k in range(max(2, n)):
        f = star_frame(env, spec, k + 1, size=41, x=20. + k, y=18. + 2 * k)
        f.ext_hdr["DPAMNAME"] = "IMAGING"
        out.append(f)
    for f in out:
        f.ext_hdr["FPAM_H"], f.ext_hdr["FPAM_V"], f.ext_hdr["FSAM_H"], f.ext_hdr["FSAM_V"] = 1., 2., 3., 4.
    return env.data.Dataset(out)


@step("generate_ct_cal", "corethroughput", level="L3", data=ct_ds, n=(2, 4))
def _(env, ds, p):
    f = env.mod("corethroughput").generate_ct_cal
    return lambda: f(ds, roi_radius=3), {}


@step("estimate_psf_pix_and_ct", "corethroughput", level="L3", data=ct_ds, n=(2, 4), hist=False)
def _(env, ds, p):
    f = env.mod("corethroughput").estimate_psf_pix_and_ct
    return lambda: f(ds, roi_radius=3), {}


def nd_ds(env, spec, p, n):
    out = []
    for k in range(2 + max(2, n)):
        f = star_frame(env, spec, k, level="L2b", x=15. + (k % 3) * .5, y=15. - (k // 3) * .5)
        f.ext_hdr["FPAMNAME"] = "HOLE" if k < 2 else "ND225"
        f.pri_hdr["TARGET"] = "TYC 4433-1800-1" if k < 2 else "Vega"
        f.ext_hdr["FPAM_H"], f.ext_hdr["FPAM_V"] = 1., 2.
        if k >= 2:
            f.data[:] *= .01
        out.append(f)
    return env.data.Dataset(out)


@step("create_nd_filter_cal", "nd_filter_calibration", level="L2b", data=nd_ds, n=(2, 4), params=lambda r: {"fc": r.random() < .5, "ph": r.choice(["Aperture", "Gaussian"]), "kw": True})
def _(env, ds, p):
    f = env.mod("nd_filter_calibration").create_nd_filter_cal
    fc = env.cal("fluxcal") if p["fc"] else None
    kw = dict(PHOT if p["ph"] == "Aperture" else GAUS)
    return lambda: f(ds, phot_method=p["ph"], phot_kwargs=kw, fluxcal_factor=fc), {"fc": fc, "kw": kw}


FIELD = 101     # pixels across the simulated star field


def field_stars(seed, n):
    """Positions (pixels) and brightness of the stars of a field; the target is the first, in the middle."""
    rs = np.random.RandomState(seed)
    mid = (FIELD - 1) // 2
    out = [(float(mid), float(mid), 1.9)]
    while len(out) < n:
        x, y = rs.uniform(8, FIELD - 9, 2)
        if all((x - a) ** 2 + (y - b) ** 2 > 12. ** 2 for a, b, _ in out):
            out.append((x, y, 2.5 * .93 ** len(out)))
    return out


def field_csv(env, seed, n, ra, dec, north=20., scale=21.8):
    path = os.path.join(env.w.root, "field%d_%d.csv" % (seed, n))
    a = np.radians(north)
    cd = np.array([[-np.cos(a), np.sin(a)], [np.sin(a), np.cos(a)]]) * scale * 1e-3 / 3600.
    with env.w.quiet():
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write("RA,DEC,VMAG\n")
                for x, y, b in field_stars(seed, n):
                    v = cd @ np.array([x - (FIELD - 1) // 2, y - (FIELD - 1) // 2])
                    f.write("%.10f,%.10f,%.4f\n" % (ra + v[0] / np.cos(np.radians(dec)), dec + v[1], 20 - 2.5 * np.log10(b)))
    return path


def field_ds(env, spec, p, n):
    out = []
    for k in range(n):
        f = lab.make_frame(env.data, dict(spec, mean=0., nan=False), k, "L2b", (FIELD, FIELD))
        yy, xx = np.indices((FIELD, FIELD))
        rs = np.random.RandomState(int(spec.get("pix", 0)) + 7 * k)
        f.data[:] = rs.normal(0, .002, (FIELD, FIELD))
        for x, y, b in field_stars(int(p.get("field", 1)), p.get("stars", 8)):
            f.data[:] += b * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 * 1.3 ** 2))
        out.append(f)
    return env.data.Dataset(out)


@step("boresight_calibration", "astrom", level="L2b", data=field_ds, n=(1, 3),
      params=lambda r: {"stars": r.choice([7, 7, 8, 23]), "field": r.randrange(1, 5), "comb": r.choice([None, None, 1, 2])})
def _(env, ds, p):
    f = env.mod("astrom").boresight_calibration
    csv = field_csv(env, p["field"], p["stars"], float(ds[0].pri_hdr["RA"]), float(ds[0].pri_hdr["DEC"]))
    return lambda: f(ds, field_path=csv, find_threshold=p["stars"], comparison_threshold=5, fwhm=5, center_radius=1, frames_to_combine=p["comb"]), {}


# ---------------------------------------------------------------- detector characterisation
PTC = {"SCI": {"frame_rows": 40, "frame_cols": 70, "image": {"rows": 36, "cols": 40, "r0c0": [2, 25]},
               "prescan": {"rows": 40, "cols": 25, "r0c0": [0, 0], "col_start": 4, "col_end": 22},
               "prescan_reliable": {"rows": 40, "cols": 20, "r0c0": [0, 3]}}}
PTCPAR = dict(rowroi1=2, rowroi2=38, colroi1=25, colroi2=65, rn_bins1=-60, rn_bins2=61, max_DN_val=5000, signal_bins_N=20)


def _when(k):
    return "2024-01-01T00:%02d:%02d.000" % divmod(k, 60)


def ptc_ds(env, spec, p, n):
    rs = np.random.RandomState(int(spec.get("pix", 0)))
    prof = np.linspace(.5, 1.5, 36 * 40).reshape(36, 40)
    out = []
    for t, name in [(5.5, "MNFRAME")] * 3 + [(4. * (k + 1), "KGAIN") for k in range(3 + int(p.get("sets", 0))) for _ in range(5)]:
        f = lab.make_frame(env.data, dict(spec, exptime=t, emgain=1., nan=False, cr=False), len(out), "L2a", (40, 70))
        f.data[:] = rs.normal(0, 8, (40, 70))
        f.data[2:38, 25:65] += rs.poisson(prof * 200 * t * 8.7) / 8.7
        f.pri_hdr["OBSNAME"] = name
        f.ext_hdr["DATETIME"] = _when(len(out))
        out.append(f)
    return env.data.Dataset(out)


@step("calibrate_kgain", "calibrate_kgain", level="L2a", data=ptc_ds, n=(1, 1), params=lambda r: {"sets": r.randrange(3)})
def _(env, ds, p):
    f = env.mod("calibrate_kgain").calibrate_kgain
    kp = dict(PTCPAR)
    return lambda: f(ds, n_cal=3, n_mean=3, min_val=200, max_val=4000, binwidth=10, make_plot=False, kgain_params=kp, detector_regions=PTC), {"kp": kp}


NLPAR = dict(rowroi1=8, rowroi2=22, colroi1=8, colroi2=22, rowback11=0, rowback12=6, rowback21=24, rowback22=30, colback11=0, colback12=30, colback21=0,
             colback22=30, min_exp_time=0, num_bins=50, min_bin=200, min_mask_factor=1.1)


def nl_ds(env, spec, p, n):
    rs = np.random.RandomState(int(spec.get("pix", 0)))
    prof = np.linspace(.1, 1., 196).reshape(14, 14)
    seq = [(5., 1., "MNFRAME")] * 3
    for g in (1., 10., 20.)[:1 + int(p.get("gains", 1))]:
        seq += [(t, g, "NONLIN") for t in (1., 2., 3., 4., 6., 8., 10., 12., 14., 2., 2.)]
    out = []
    for t, g, name in seq:
        f = lab.make_frame(env.data, dict(spec, exptime=t, emgain=g, nan=False, cr=False), len(out), "L2a", (30, 30))
        f.data[:] = rs.normal(0, 3, (30, 30))
        f.data[8:22, 8:22] += rs.normal(900 * t * (1 - .002 * t) * prof, 10)
        f.pri_hdr["OBSNAME"] = name
        f.ext_hdr["DATETIME"] = _when(7 * len(out))
        out.append(f)
    return env.data.Dataset(out)


@step("calibrate_nonlin", "calibrate_nonlin", level="L2a", data=nl_ds, n=(1, 1), params=lambda r: {"gains": r.randrange(3)})
def _(env, ds, p):
    f = env.mod("calibrate_nonlin").calibrate_nonlin
    np_ = dict(NLPAR)
    return lambda: f(ds, n_cal=5, n_mean=3, norm_val=2500, min_write=800., max_write=9000., lowess_frac=.5, make_plot=False, nonlin_params=np_), {"np": np_}


def pump_ds(env, spec, p, n):
    """Trap-pumped frames: two temperatures, four schemes, a few phase times, one or two traps."""
    size = 16
    tp = env.mod("pump_trap_calibration")
    rs = np.random.RandomState(int(spec.get("pix", 0)))
    times = np.logspace(-6, -2, 6)
    out = []
    for T in (180., 210.):
        tau = tp.tau_temp(T, .32, 2.)
        for sch in (1, 2, 3, 4):
            for x in times:
                f = lab.make_frame(env.data, dict(spec, mean=0., nan=False, cr=False), len(out), "L2a", (size, size))
                f.data[:] = 2000 + rs.normal(0, 20, (size, size))
                for r, c in ([(3, 4), (7, 7)][:1 + int(p.get("traps", 1))] if sch < 3 else [(12, 3)]):
                    a = tp.P1(np.array([x]), 0, 1e-9, tau, 10000)[0]
                    f.data[r, c] += a
                    f.data[r + 1 if sch % 2 else r - 1, c] -= a
                f.ext_hdr["EXCAMT"], f.ext_hdr["TPTAU"], f.ext_hdr["ARRTYPE"] = T, x * 1e6, "SCI"
                for s in (1, 2, 3, 4):
                    f.ext_hdr["TPSCHEM%d" % s] = 10000 if s == sch else 0
                out.append(f)
    return env.data.Dataset(out)


@step("tpump_analysis", "pump_trap_calibration", level="L2a", data=pump_ds, n=(1, 1), params=lambda r: {"traps": r.randrange(2)})
def _(env, ds, p):
    f = env.mod("pump_trap_calibration").tpump_analysis
    return lambda: f(ds, length_lim=3, thresh_factor=1.5, bins_E=10, bins_cs=5), {}


# ---------------------------------------------------------------- companions and throughput
def comp_ds(env, spec, p, n):
    out = []
    for k in range(n):
        f = star_frame(env, spec, k, level="L4", x=16., y=16.)
        f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"] = 16., 16.
        f.ext_hdr["FPAM_H"], f.ext_hdr["FPAM_V"], f.ext_hdr["FSAM_H"], f.ext_hdr["FSAM_V"] = 1., 2., 3., 4.
        f.pri_hdr["TARGET"] = "Vega"
        f.ext_hdr["CFAMNAME"] = "3C"
        f.ext_hdr["SNYX000"] = "5.0,16,23"
        out.append(f)
    return env.data.Dataset(out)


@step("CreateCTMap", "corethroughput", level="L4", data=comp_ds, n=(1, 2), hist=False, params=lambda r: {"logr": r.random() < .5})
def _(env, ds, p):
    m = env.mod("corethroughput")
    ct, pam = env.cal("ctgrid"), env.cal("pams")
    tp = np.array([[4., 5., -4., 6.], [4., -3., -5., 2.]])
    return lambda: [m.CreateCTMap(ds, pam, ct, target_pix=tp, logr=p["logr"]), m.get_1d_ct(ct, ds[0], [3., 6., 9.]), ct.GetPSF(tp[0], tp[1], ds, pam)], \
        {"ct": ct, "pam": pam, "tp": tp}


@step("inject_psf", "klip_fm", level="L4", data=comp_ds, n=(1, 2), hist=False, params=lambda r: {"sep": r.choice([4., 7.5, 9.]), "pa": r.choice([0., 33., 250.])})
def _(env, ds, p):
    f = env.mod("klip_fm").inject_psf
    ct = env.cal("ctgrid")
    return lambda: f(ds[0], ct, 50., p["sep"], p["pa"]), {"ct": ct}


@step("measure_companions", "measure_companions", level="L4", data=comp_ds, n=(1, 1), hist=False, params=lambda r: {"ph": r.choice(["aperture", "gauss2d"]), "kw": r.random() < .7})
def _(env, ds, p):
    f = env.mod("measure_companions").measure_companions
    ct, pam = env.cal("ctgrid"), env.cal("pams")
    sub = ds[0].copy()
    fin = env.mod("klip_fm").inject_psf(sub, ct, 200., 7., 270.)[0]
    base = fin.data - ds[0].data + np.random.RandomState(3).normal(0, .05, ds[0].data.shape)
    sub = env.data.Image(np.array([base, base * .9]), pri_hdr=sub.pri_hdr.copy(), ext_hdr=sub.ext_hdr.copy(), err=np.ones((1, 2) + base.shape), dq=np.zeros((2,) + base.shape, dtype=np.uint16))
    sub.filename = "psfsub_L4_.fits"
    kw = None if not p["kw"] else ({"encircled_radius": 4, "frac_enc_energy": 1., "subpixels": 5, "background_sub": True, "r_in": 5, "r_out": 7, "centering_method": "xy", "centroid_roi_radius": 3}
                                   if p["ph"] == "aperture" else {"fwhm": 3, "background_sub": True, "r_in": 5, "r_out": 7, "centering_method": "xy", "centroid_roi_radius": 3})
    host = ds[0]
    return lambda: [[str(x) for x in row] for row in f(host, sub, ct, pam, phot_method=p["ph"], photometry_kwargs=kw, thrp_corr="None", verbose=False)], \
        {"ct": ct, "pam": pam, "sub": sub, "kw": kw}


CHAIN = sorted(n for n, s in STEPS.items() if s.chain)
RELABEL = ["update_to_l2a", "update_to_l2b", "update_to_l3", "update_to_l4", "update_to_tda"]
LEVELS = ["L1", "L2a", "L2b", "L3", "L4", "TDA"]


def make_inputs(env, s, spec, p, n, layers=1):
    """A dataset the step can work on."""
    if s.data:
        return s.data(env, spec, p, n)
    shape = FULL if (s.shape == "full" or (s.shape is None and spec.get("full"))) else IM
    return lab.make_dataset(env.data, spec, s.level, shape, n, layers)
