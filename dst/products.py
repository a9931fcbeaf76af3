"""Builds every calibration product class (and plain frames) from a small JSON spec.

Headers are the simulator's own, so the specs stay meaningful if the repository's mock
helpers change.
"""
import numpy as np
import astropy.io.fits as fits
from astropy.time import Time

# class name -> label in the database
LABELS = {
    "Dark": "Dark", "NonLinearityCalibration": "NonLinearityCalibration", "KGain": "KGain",
    "BadPixelMap": "BadPixelMap", "DetectorNoiseMaps": "DetectorNoiseMaps", "FlatField": "FlatField",
    "DetectorParams": "DetectorParams", "AstrometricCalibration": "AstrometricCalibration",
    "TrapCalibration": "TrapCalibration", "FluxcalFactor": "FluxcalFactor", "FpamFsamCal": "FpamFsamCal",
    "CoreThroughputCalibration": "CoreThroughputCalibration",
    "NDFilterSweetSpotDataset": "NDFilterSweetSpot",
}
CLASSES = sorted(LABELS)
SIMPLE = ["Dark", "FlatField", "BadPixelMap", "KGain", "NonLinearityCalibration"]


def iso(mjd):
    return Time(mjd, format="mjd", scale="utc").isot


def headers(spec, level="L1"):
    pri = fits.Header()
    pri["SIMPLE"] = True
    pri["BITPIX"] = 8
    pri["NAXIS"] = 0
    pri["EXTEND"] = True
    pri["TELESCOP"] = "ROMAN"
    pri["INSTRUME"] = "CGI"
    pri["OBSNUM"] = int(spec.get("obsnum", 7))
    pri["VISTYPE"] = spec.get("vistype", "TDEMO")
    pri["VISITID"] = "0200001001001001001"
    pri["TARGET"] = "Vega"
    pri["PSFREF"] = False
    pri["ROLL"] = 0.0
    ext = fits.Header()
    ext["XTENSION"] = "IMAGE"
    ext["DATALVL"] = level
    ext["SCTSRT"] = iso(spec.get("mjd", 61000.0))
    ext["SCTEND"] = iso(spec.get("mjd", 61000.0) + 0.01)
    ext["DATETIME"] = iso(spec.get("mjd", 61000.0))
    ext["FTIMEUTC"] = iso(spec.get("mjd", 61000.0))
    ext["EXPTIME"] = float(spec.get("exptime", 60.0))
    ext["OPMODE"] = spec.get("opmode", "NONE")
    ext["EMGAIN_C"] = float(spec.get("emgain", 1.0))
    ext["EXCAMT"] = float(spec.get("excamt", 40.0))
    ext["KGAINPAR"] = 8.7
    ext["ARRTYPE"] = "SCI"
    ext["CFAMNAME"] = "1F"
    ext["FPAMNAME"] = "HOLE"
    ext["FSAMNAME"] = "OPEN"
    ext["BUNIT"] = "DN"
    ext["ISPC"] = 0
    return pri, ext


def pixels(spec, shape=None):
    n = int(spec.get("n", 4))
    r = np.random.RandomState(int(spec.get("pix", 1)))
    return r.normal(100., 10., shape or (n, n + 1))


def frame(data, spec, name="sci_L1_.fits", level="L1", filedir="."):
    """A plain science frame (corgidrp Image)."""
    pri, ext = headers(spec, level)
    im = data.Image(pixels(spec), pri_hdr=pri, ext_hdr=ext)
    im.filename = name
    im.filedir = filedir
    return im


def parents(data, spec):
    k = int(spec.get("nparents", 2))
    return data.Dataset([frame(data, dict(spec, pix=i + 11), "CGI_%019d_%d_L1_.fits" % (200001, i))
                         for i in range(max(1, k))])


def make(data, cls, spec, filename=None, filedir=None):
    """A calibration product of class `cls` described by `spec`."""
    klass = getattr(data, cls)
    n = int(spec.get("n", 4))
    if cls == "DetectorParams":
        p = klass({"KGAINPAR": 8.7 + 0.01 * (int(spec.get("pix", 1)) % 50)},
                  date_valid=Time(spec.get("mjd", 61000.0), format="mjd", scale="utc"))
        p.ext_hdr["EXPTIME"] = float(spec.get("exptime", 1.0))
    elif cls == "FpamFsamCal":
        p = klass(pixels(spec, (2, 2, 2)), date_valid=Time(spec.get("mjd", 61000.0), format="mjd", scale="utc"))
        p.ext_hdr["EXPTIME"] = float(spec.get("exptime", 1.0))
    else:
        pri, ext = headers(spec, "L2a")
        ds = parents(data, spec)
        if cls in ("Dark",):
            err = np.abs(pixels(spec)) * 0.1
            p = klass(pixels(spec), pri_hdr=pri, ext_hdr=ext, input_dataset=ds, err=err, err_hdr=fits.Header())
        elif cls in ("FlatField", "BadPixelMap"):
            d = pixels(spec) / 100.
            if cls == "BadPixelMap":
                d = (d > 1.05).astype(np.uint8)
            p = klass(d, pri_hdr=pri, ext_hdr=ext, input_dataset=ds)
        elif cls == "NonLinearityCalibration":
            g = np.ones((n + 1, n + 1))
            g[1:, 1:] += 0.001 * pixels(spec, (n, n))
            g[0, 1:] = np.arange(1, n + 1)
            g[1:, 0] = np.arange(1, n + 1) * 100
            g[0, 0] = np.nan
            p = klass(g, pri_hdr=pri, ext_hdr=ext, input_dataset=ds)
        elif cls == "KGain":
            p = klass(pixels(spec, (1, 1)), err=np.array([[0.1]]), ptc=pixels(spec, (n, 2)), pri_hdr=pri, ext_hdr=ext,
                      input_dataset=ds)
        elif cls == "DetectorNoiseMaps":
            ext["B_O"] = 1.5
            ext["B_O_ERR"] = 0.1
            p = klass(pixels(spec, (3, n, n)), pri_hdr=pri, ext_hdr=ext, input_dataset=ds,
                      err=np.abs(pixels(spec, (3, n, n)))[None], dq=np.zeros((3, n, n), dtype=int), err_hdr=fits.Header())
        elif cls == "AstrometricCalibration":
            p = klass(pixels(spec, (37,)), pri_hdr=pri, ext_hdr=ext, input_dataset=ds)
        elif cls == "TrapCalibration":
            p = klass(pixels(spec, (n, 10)), pri_hdr=pri, ext_hdr=ext, input_dataset=ds)
        elif cls == "FluxcalFactor":
            p = klass(pixels(spec, (1, 1)), err=np.array([[[0.1]]]), pri_hdr=pri, ext_hdr=ext, input_dataset=ds)
        elif cls == "CoreThroughputCalibration":
            ext["EXTNAME"] = "PSFCUBE"
            hl = [fits.ImageHDU(data=pixels(spec, (3, n)), name="CTEXCAM"),
                  fits.ImageHDU(data=pixels(spec, (2,)), name="CTFPAM"),
                  fits.ImageHDU(data=pixels(spec, (2,)), name="CTFSAM")]
            p = klass(pixels(spec, (n, 5, 5)), pri_hdr=pri, ext_hdr=ext, input_hdulist=fits.HDUList(hl),
                      input_dataset=ds)
        elif cls == "NDFilterSweetSpotDataset":
            p = klass(pixels(spec, (n, 3)), pri_hdr=pri, ext_hdr=ext, input_dataset=ds)
        else:
            raise KeyError(cls)
    if spec.get("ver"):
        p.ext_hdr["DRPVERSN"] = spec["ver"]      # made by another version of the pipeline
    if filename:
        p.filename = filename
    if filedir:
        p.filedir = filedir
    return p


def expected_row(p, cls, cwd):
    """The database row the property calls for, computed from the product itself."""
    import os
    e, h = p.ext_hdr, p.pri_hdr
    shape = p.data.shape
    return {
        "Filepath": os.path.normpath(os.path.join(cwd, p.filedir, p.filename)),
        "Type": LABELS[cls],
        "MJD": Time(e["SCTSRT"]).mjd,
        "EXPTIME": float(e["EXPTIME"]),
        "Files Used": int(e["DRPNFILE"]) if "DRPNFILE" in e else 0,
        "Date Created": Time(e["DRPCTIME"]).mjd if "DRPCTIME" in e else -1.0,
        "Hash": str(p.get_hash()),
        "DRPVERSN": str(e["DRPVERSN"]) if "DRPVERSN" in e else "",
        "OBSNUM": int(h["OBSNUM"]),
        "NAXIS1": int(shape[-1]),
        "NAXIS2": int(shape[-2]) if len(shape) > 1 else 0,
        "OPMODE": e["OPMODE"],
        "EMGAIN_C": float(e["EMGAIN_C"]),
        "EXCAMT": float(e["EXCAMT"]),
    }
