"""A small detector, frames and calibrations for the step checks, snapshots, and allocation faults."""
import os
import sys

import astropy.io.fits as fits
import numpy as np

from . import products

# the science geometry scaled down; same keys and same layout as corgidrp.detector.detector_areas["SCI"]
GEO = {
    "frame_rows": 20, "frame_cols": 30,
    "image": {"rows": 14, "cols": 14, "r0c0": [3, 12]},
    "prescan": {"rows": 20, "cols": 12, "r0c0": [0, 0], "col_start": 4, "col_end": 10},
    "prescan_reliable": {"rows": 20, "cols": 6, "r0c0": [0, 4]},
    "parallel_overscan": {"rows": 3, "cols": 15, "r0c0": [17, 12]},
    "serial_overscan": {"rows": 20, "cols": 4, "r0c0": [0, 26]},
}
FULL = (20, 30)
IM = (14, 14)
CTIME = ("DRPCTIME",)


def small_detector():
    import copy
    import corgidrp.detector as det
    for k in ("SCI", "ENG"):
        det.detector_areas[k].clear()
        det.detector_areas[k].update(copy.deepcopy(GEO))


def write_config(w, track=False, missing=False, jit=False):
    d = os.path.join(w.home, ".corgidrp")
    os.makedirs(os.path.join(d, "default_calibs"), exist_ok=True)
    with open(os.path.join(d, "corgidrp.cfg"), "w") as f:
        f.write("[PATH]\ncaldb = %s/db.csv\ndefault_calibs = %s/default_calibs\n[DATA]\ntrack_individual_errors = %s\n[WALKER]\n"
                "skip_missing_cal_steps = %s\njit_calib_id = %s\n" % (w.root, d, track, missing, jit))


def frame_headers(spec, level):
    pri, ext = products.headers(spec, level)
    for i, (k, v) in enumerate([("BITPIX", -64), ("NAXIS", 2), ("NAXIS1", IM[1]), ("NAXIS2", IM[0]), ("PCOUNT", 0), ("GCOUNT", 1)]):
        ext.insert(1 + i, (k, v))
    pri["RA"] = 80.5
    pri["DEC"] = 12.25
    pri["ROLL"] = float(spec.get("roll", 0.))
    pri["SATSPOTS"] = int(spec.get("satspots", 0))
    pri["PSFREF"] = bool(spec.get("psfref", False))
    ext["EMGAIN_A"] = float(spec.get("emgain_a", -1.))
    ext["RN"] = 1.0
    ext["RN_ERR"] = 0.1
    ext["OVEREXP"] = bool(spec.get("overexp", False))
    for k in ("Z2VAR", "Z3VAR", "Z2RES", "Z3RES"):
        ext[k] = float(spec.get("tt", 0.))
    ext["LSAMNAME"] = "NFOV"
    ext["FSMPRFL"] = "NFOV"
    ext["PLTSCALE"] = 21.8
    ext["STARLOCX"] = 6.5
    ext["STARLOCY"] = 6.5
    ext["CD1_1"], ext["CD1_2"], ext["CD2_1"], ext["CD2_2"] = -6e-6, 0.0, 0.0, 6e-6
    ext["CRPIX1"], ext["CRPIX2"], ext["CRVAL1"], ext["CRVAL2"] = 6.0, 6.0, 80.5, 12.25
    ext["CTYPE1"], ext["CTYPE2"] = "RA---TAN", "DEC--TAN"
    if spec.get("ispc"):
        ext["ISPC"] = True
    if spec.get("emgain_m"):
        ext["EMGAIN_M"] = float(spec["emgain_m"])
    return pri, ext


def frame_name(k, level="L1"):
    tag = {"L1": "_L1_", "L2a": "_L2a", "L2b": "_L2b", "L3": "_L3_", "L4": "_L4_", "TDA": "_TDA_"}.get(level, "_L1_")
    return "CGI_0200001001001001001_%04d%s.fits" % (k, tag)


def make_frame(data, spec, k=0, level="L1", shape=FULL, layers=1, history=True, dqbits=(1, 4, 8, 32, 64, 128)):
    pri, ext = frame_headers(spec, level)
    rs = np.random.RandomState(int(spec.get("pix", 0)) * 31 + k)
    d = rs.normal(float(spec.get("mean", 300.)), 10., shape)
    if spec.get("positive"):
        d = np.abs(d)
    e = np.abs(rs.normal(3., 1., (layers,) + shape)) if spec.get("err", True) else np.zeros((layers,) + shape)
    dq = np.zeros(shape, dtype=np.uint16)
    for _ in range(int(spec.get("ndq", 0))):
        dq[..., rs.randint(shape[-2]), rs.randint(shape[-1])] |= int(dqbits[rs.randint(len(dqbits))])
    for m in range(int(spec.get("dead", 0))):      # bad in every frame, in each for reasons of its own
        q = np.random.RandomState(int(spec.get("pix", 0)) * 7 + m)
        dq[..., q.randint(shape[-2]), q.randint(shape[-1])] |= int(dqbits[(k + m) % len(dqbits)])
    if spec.get("cr"):
        y = rs.randint(shape[-2])
        d[..., y, shape[-1] // 2:shape[-1] // 2 + 4] = 5e5
    if spec.get("nan"):
        d[..., rs.randint(shape[-2]), rs.randint(shape[-1])] = np.nan
    ehdr = fits.Header()
    ehdr["Layer_1"] = "combined_error"
    for j in range(1, layers):
        ehdr["Layer_%d" % (j + 1)] = "term%d" % j
    im = data.Image(d, pri_hdr=pri, ext_hdr=ext, err=e, dq=dq, err_hdr=ehdr)
    if history:
        im.ext_hdr["HISTORY"] = "made by the simulator"
        for j in range(int(spec.get("past", 0))):
            im.ext_hdr["HISTORY"] = "earlier step %d" % j
    im.ext_hdr["USERKEY"] = ("keep-%d" % k, "a card the user set")
    im.filename = spec.get("pre", "") + frame_name(int(spec.get("first", 0)) + k, level)
    return im


def make_dataset(data, spec, level="L1", shape=FULL, n=2, layers=1):
    per = spec.get("per", {})
    return data.Dataset([make_frame(data, dict(spec, **per.get(str(k), {})), k, level, shape, layers) for k in range(n)])


class Cals:
    """Calibration products that fit the small detector. Everything depends only on (spec, shape)."""

    def __init__(self, data, spec=None):
        self.data = data
        self.spec = dict(spec or {})

    def _par(self):
        return make_dataset(self.data, {"pix": 77}, level="L2a", n=2)

    def _hdr(self, **kw):
        s = dict(self.spec)
        s.update(kw)
        pri, ext = frame_headers(s, "L2a")
        return pri, ext

    def params(self, **kw):
        from astropy.time import Time
        p = dict(TELRSTRT=18, TELREND=20)
        p.update(kw)
        return self.data.DetectorParams(p, date_valid=Time("2023-11-01T00:00:00"))

    def kgain(self, v=8.7):
        pri, ext = self._hdr()
        k = self.data.KGain(np.array([[v]]), err=np.array([[0.5]]), pri_hdr=pri, ext_hdr=ext, input_dataset=self._par())
        k.ext_hdr["RN"] = 100.
        k.ext_hdr["RN_ERR"] = 2.
        return k

    def nonlin(self):
        pri, ext = self._hdr()
        g = np.ones((5, 4))
        g[0, 0] = np.nan
        g[0, 1:] = [1, 50, 5000]
        g[1:, 0] = [-1000, 100, 1000, 10000]
        g[1:, 1:] = np.array([[1.02, 1.03, 1.04], [1.0, 1.0, 1.0], [.99, .98, .97], [.95, .94, .93]])
        return self.data.NonLinearityCalibration(g, pri_hdr=pri, ext_hdr=ext, input_dataset=self._par())

    def noisemaps(self):
        pri, ext = self._hdr()
        ext["NAXIS"] = 3
        ext["NAXIS1"], ext["NAXIS2"] = FULL[1], FULL[0]
        ext.insert("NAXIS2", ("NAXIS3", 3), after=True)
        ext["B_O"] = 0.3
        ext["B_O_ERR"] = 0.1
        rs = np.random.RandomState(5)
        m = np.abs(rs.normal(1., .1, (3,) + FULL))
        dq = np.zeros((3,) + FULL, dtype=int)
        dq[0, 5, 15] = 256
        return self.data.DetectorNoiseMaps(m, pri_hdr=pri, ext_hdr=ext, input_dataset=self._par(),
                                           err=np.abs(rs.normal(.1, .01, (1, 3) + FULL)), dq=dq, err_hdr=fits.Header())

    def dark(self, shape, exptime=60., emgain=1., kgainpar=8.7, bits=(1, 256)):
        pri, ext = self._hdr(exptime=exptime, emgain=emgain)
        ext["KGAINPAR"] = kgainpar
        ext["PC_STAT"] = "analog master dark"
        rs = np.random.RandomState(6)
        dq = np.zeros(shape, dtype=int)
        for j, b in enumerate(bits):
            dq[..., 2 + j, 3 + j] = b
        d = self.data.Dark(rs.normal(5., 1., shape), pri_hdr=pri, ext_hdr=ext, input_dataset=self._par(),
                           err=np.abs(rs.normal(1., .1, (1,) + shape)), dq=dq, err_hdr=fits.Header())
        return d

    def flat(self, shape, zero=False):
        pri, ext = self._hdr()
        rs = np.random.RandomState(7)
        a = rs.normal(1., .02, shape)
        if zero:
            a[4, 4] = 0.
        f = self.data.FlatField(a, pri_hdr=pri, ext_hdr=ext, input_dataset=self._par())
        f.err = np.abs(rs.normal(.01, .001, (1,) + shape))
        return f

    def bpmap(self, shape):
        pri, ext = self._hdr()
        m = np.zeros(shape, dtype=np.uint8)
        m[3, 3] = 4
        m[-2, 4] = 8
        return self.data.BadPixelMap(m, pri_hdr=pri, ext_hdr=ext, input_dataset=self._par())

    def astrom(self):
        pri, ext = self._hdr()
        coeff = np.zeros(9)
        coeff[:4] = [0., 0., 500., 0.]
        coeff[4:8] = [0., 500., 0., 0.]
        coeff[8] = 1
        return self.data.AstrometricCalibration(np.concatenate([[80.5, 12.25], [21.8, 21.8], [12.], [0., 0.], coeff]), pri_hdr=pri,
                                                ext_hdr=ext, input_dataset=self._par())

    def fluxcal(self):
        pri, ext = self._hdr()
        return self.data.FluxcalFactor(np.array([[2e-12]]), err=np.array([[[1e-14]]]), pri_hdr=pri, ext_hdr=ext, input_dataset=self._par())

    def trap(self):
        pri, ext = self._hdr()
        return self.data.TrapCalibration(np.zeros((2, 10)), pri_hdr=pri, ext_hdr=ext, input_dataset=self._par())

    def ct(self):
        return products.make(self.data, "CoreThroughputCalibration", {"pix": 3})

    def ctgrid(self, cen=16.):
        """Off-axis PSFs on two rings around the star, with their throughputs."""
        pri, ext = self._hdr()
        yy, xx = np.indices((15, 15))
        psf = np.exp(-((xx - 7) ** 2 + (yy - 7) ** 2) / (2 * 1.4 ** 2))
        pos = [(r, a) for r in (3., 7., 11.) for a in (0., 50., 100., 150., 200., 250., 300., 350.)]
        ex = np.array([[cen + .5 + r * np.cos(np.radians(a)) for r, a in pos], [cen + .5 + r * np.sin(np.radians(a)) for r, a in pos],
                       [.1 + .02 * r + .0001 * a for r, a in pos]])
        ext["EXTNAME"] = "PSFCUBE"
        hl = [fits.ImageHDU(data=ex, name="CTEXCAM"), fits.ImageHDU(data=np.array([1., 2.]), name="CTFPAM"), fits.ImageHDU(data=np.array([3., 4.]), name="CTFSAM")]
        cube = np.array([psf * (1 + .05 * k) for k in range(len(pos))])
        return self.data.CoreThroughputCalibration(cube, pri_hdr=pri, ext_hdr=ext, input_hdulist=fits.HDUList(hl), input_dataset=self._par())

    def pams(self):
        from astropy.time import Time
        return self.data.FpamFsamCal(np.array([[[.1, .02], [.03, .12]], [[.2, .01], [.02, .21]]]), date_valid=Time("2023-11-01T00:00:00"))

    def nd(self):
        pri, ext = self._hdr()
        a = np.array([[x, y, 2.0 + .01 * x] for x in (0., 7., 13.) for y in (0., 7., 13.)])
        return self.data.NDFilterSweetSpotDataset(a, pri_hdr=pri, ext_hdr=ext, input_dataset=self._par())


# ---------------------------------------------------------------- snapshots
def cards(h, drop=()):
    return [(c.keyword, "" if isinstance(c.value, fits.card.Undefined) else str(c.value), c.comment) for c in h.cards if c.keyword not in drop]


def arr(a):
    a = np.asarray(a)
    return np.array(a, dtype=a.dtype.newbyteorder("="), copy=True)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


def snap(obj, drop=(), links=True):
    """A deep, comparable picture of datasets, images, headers, arrays and plain values."""
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return [snap(x, drop, links) for x in obj.ravel()]
        return arr(obj)
    if isinstance(obj, fits.Header):
        return cards(obj, drop)
    if isinstance(obj, fits.HDUList) or (isinstance(obj, list) and obj and isinstance(obj[0], (fits.ImageHDU, fits.PrimaryHDU))):
        return [(h.name, None if h.data is None else snap(h.data), cards(h.header, drop)) for h in obj]
    cls = type(obj).__name__
    if cls == "Dataset":
        out = {"frames": [snap(f, drop, links) for f in obj.frames]}
        for n in ("all_data", "all_err", "all_dq"):
            v = getattr(obj, n)
            out[n] = None if v is None else arr(v)
        if links:
            out["links"] = linked(obj)
        return out
    if hasattr(obj, "ext_hdr") and hasattr(obj, "pri_hdr"):
        out = {"class": cls}
        for k, v in vars(obj).items():
            if isinstance(v, (np.ndarray, fits.Header, fits.HDUList, str, int, float, bool, dict, list, tuple, type(None), np.generic)):
                out[k] = snap(v, drop, links)
        return out
    if isinstance(obj, dict):
        return {str(k): snap(v, drop, links) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [snap(v, drop, links) for v in obj]
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, (str, int, float, bool, type(None))):
        return obj
    return repr(type(obj))


def linked(ds):
    """For every frame: does it see writes to the stacked arrays?"""
    return [[bool(np.shares_memory(getattr(f, n), getattr(ds, "all_" + n))) for n in ("data", "err", "dq")] for f in ds.frames]


def diff(a, b, path=""):
    """A short description of the first difference between two snapshots."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            if not same(a[k], b[k]):
                return diff(a[k], b[k], "%s.%s" % (path, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            extra = [x for x in b if x not in a][:2] if len(b) < 400 and not any(isinstance(x, (np.ndarray, dict)) for x in list(a) + list(b)) else ""
            return "%s length %d -> %d %s" % (path, len(a), len(b), str(extra)[:200])
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, "%s[%d]" % (path, i))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return "%s %s %s -> %s %s" % (path, a.shape, a.dtype, b.shape, b.dtype)
        d = ~((a == b) | ((a != a) & (b != b)))
        w = np.argwhere(d)
        return "%s differs at %d places, first %s: %r -> %r" % (path, len(w), list(w[0]), a[tuple(w[0])], b[tuple(w[0])])
    return "%s: %s -> %s" % (path, str(a)[:120], str(b)[:120])


# ---------------------------------------------------------------- allocation faults
LIBS = ("/numpy/", "/scipy/", "/astropy/", "/photutils/", "/pyklip/", "/pandas/")


class AllocFault:
    """The `at`-th library call made directly by corgidrp code fails with MemoryError."""

    def __init__(self, at, repo):
        self.at = at
        self.n = 0
        self.fired = None
        self.pre = os.path.realpath(os.path.join(repo, "corgidrp")) + os.sep
        self._in = {}

    def sut(self, code):
        f = code.co_filename
        v = self._in.get(f)
        if v is None:
            v = self._in[f] = os.path.realpath(f).startswith(self.pre)
        return v

    def hit(self, what):
        self.n += 1
        if self.at is not None and self.n == self.at + 1:
            self.fired = what
            raise MemoryError("simulated allocation failure")

    def prof(self, frame, event, arg):
        if event == "c_call":
            if self.sut(frame.f_code):
                m = getattr(arg, "__module__", None) or type(getattr(arg, "__self__", None)).__module__
                if m and m.split(".")[0] in ("numpy", "_copy"):
                    self.hit(getattr(arg, "__name__", "?"))
        elif event == "call":
            b = frame.f_back
            if b is not None and self.sut(b.f_code):
                f = frame.f_code.co_filename
                if any(x in f for x in LIBS) or f.endswith("/copy.py"):
                    self.hit(frame.f_code.co_name)

    def __enter__(self):
        sys.setprofile(self.prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        return False
