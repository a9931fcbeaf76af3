"""C17: PSF subtraction on a simulated process pool: worker counts, task orders, storage faults, earlier runs."""
import os

import numpy as np

from .. import faults, lab, simpool
from ..harness import REPO, Check, Run
from ..world import World
from . import steps as st

TIMES = ("DRPCTIME", "DATE")
SIZE = 44


def frames(env_data, spec, nsci, nref):
    """Science and reference frames of a star with a companion, at different rolls."""
    out = []
    yy, xx = np.indices((SIZE, SIZE))
    for k in range(nsci + nref):
        ref = k >= nsci
        roll = float(spec["rolls"][k % len(spec["rolls"])])
        f = lab.make_frame(env_data, dict(spec, mean=0., roll=roll, psfref=ref, nan=False), k, "L3", (SIZE, SIZE))
        rs = np.random.RandomState(spec["pix"] * 17 + k)
        cx, cy = spec["cen"][0], spec["cen"][1]
        rr = (xx - cx) ** 2 + (yy - cy) ** 2
        d = 100. * np.exp(-rr / (2 * (1.1 + .02 * k) ** 2)) + rs.normal(0, 1., (SIZE, SIZE))
        d += 3. * np.cos(np.sqrt(rr) + .1 * k)
        if not ref:
            a = np.radians(roll)
            d += 8. * np.exp(-((xx - cx - 9 * np.sin(a)) ** 2 + (yy - cy - 9 * np.cos(a)) ** 2) / 2.4)
        f.data[:] = d
        if spec.get("nan"):
            f.data[rs.randint(SIZE), rs.randint(SIZE)] = np.nan
        f.dq[:] = 0
        for _ in range(spec.get("bad", 0)):
            f.dq[rs.randint(SIZE), rs.randint(SIZE)] = 4
        f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"] = cx, cy
        f.ext_hdr["FPAMNAME"] = "HLC12_C2R1"
        f.ext_hdr["CFAMNAME"] = "1F"
        f.ext_hdr["CDELT1"] = f.ext_hdr["CDELT2"] = 6e-6
        out.append(f)
    return out


def ct_cal(data, c):
    """Core throughput product with a PSF every few pixels."""
    import astropy.io.fits as fits
    pri, ext = c._hdr()
    ext["EXTNAME"] = "PSFCUBE"
    pts = [(x, y) for x in range(4, SIZE, 9) for y in range(4, SIZE, 9)]
    yy, xx = np.indices((9, 9)) - 4.
    cube = np.array([np.exp(-(xx ** 2 + yy ** 2) / (2 * (1.1 + .003 * k) ** 2)) for k in range(len(pts))])
    ex = np.array([[p[0] + .5 for p in pts], [p[1] + .5 for p in pts], [.3 + .01 * k for k in range(len(pts))]])
    hdus = []
    for name, d in (("CTEXCAM", ex), ("CTFPAM", np.array([1., 2.])), ("CTFSAM", np.array([3., 4.]))):
        h = fits.Header()
        h["EXTNAME"] = name
        hdus.append(fits.ImageHDU(data=d, header=h))
    return data.CoreThroughputCalibration(cube, pri_hdr=pri, ext_hdr=ext, input_hdulist=fits.HDUList(hdus), err=np.zeros((1,) + cube.shape),
                                          dq=np.zeros(cube.shape, dtype=np.uint16), input_dataset=c._par())


class C17(Check):
    id = "C17"
    rule = ("seeded sessions of PSF subtractions on a simulated process pool: worker count, core count, task pick-up and completion order, storage errors while results "
            "are written and read, output folders left over from earlier or failed runs; non-trivial: at least two tasks of one pool ran out of submission order or with several workers")
    real = ["corgidrp.l3_to_l4.do_psf_subtraction", "corgidrp.klip_fm", "corgidrp.data.PyKLIPDataset", "pyklip.parallelized (numerics and task split)"]
    stub = ["multiprocessing pool, shared arrays and core count", "file-system calls", "clock"]
    preload = st.PRELOAD + ("corgidrp.klip_fm",)
    seeds = {"quick": 240, "thorough": 30000}
    assumptions = ["tasks of one pool are atomic with respect to each other: they write to disjoint parts of the shared output", "a chunked task split may change the last bits of single-precision results"]

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            mode = rng.choice(["ADI", "RDI", "ADI+RDI", None])
            nref = rng.randint(1, 2) if mode in ("RDI", "ADI+RDI") or (mode is None and rng.random() < .6) else 0
            thr = rng.random() < .2
            op = {"mode": mode, "nsci": rng.choice([1, 2, 2, 3, 5]), "nref": nref, "sep": rng.random() < .5,
                  "spec": {"pix": rng.randrange(1000), "rolls": rng.choice([[0., 30.], [13., -13., 60.], [0., 90., 180., 45.]]), "cen": rng.choice([[21.5, 21.5], [22.5, 20.5], [21.2, 22.1]]),
                           "nan": rng.random() < .2, "bad": rng.choice([0, 0, 5]), "history": True},
                  "kw": {"annuli": rng.choice([1, 1, 2, 3]), "subsections": rng.choice([1, 1, 2, 4]), "movement": rng.choice([1, 1, 2]),
                         "numbasis": rng.choice([1, [1], [1, 2], [1, 2, 4], [2, 1]]), "do_crop": rng.random() < .6, "fileprefix": rng.choice(["", "", "p"])},
                  "out": rng.choice(["o1", "o1", "o2", None]), "thr": thr, "ct1d": thr or rng.random() < .3,
                  "np": rng.choice([None, 1, 2, 3, 8]), "np2": rng.choice([None, 1, 2, 5]), "cpu": rng.choice([1, 2, 8, 64]), "cpu2": rng.choice([1, 4]), "order": rng.choice(["random", "random", "lifo", "fifo"]), "sched": rng.randrange(10 ** 6),
                  "junk": rng.random() < .3}
            if op["mode"] == "ADI" and op["nsci"] == 1:
                op["nsci"] = 2
            if thr:
                op["kw"]["numbasis"] = rng.choice([1, [1, 2]])
                op["kt"] = rng.choice([None, [[7.], [0., 180.]]])
                op["cand"] = rng.choice([[], [[9., 0.]]])
            if rng.random() < .3:
                op["fault"] = faults.gen_fault(rng, 20, ["err", "full", "crash"])
            ops.append(op)
        return {"cfg": {"clock": 1.9e9 + rng.randrange(10 ** 6)}, "ops": ops}

    def simpler(self, op):
        out = super().simpler(op)
        for k, v in (("thr", False), ("ct1d", False), ("junk", False), ("order", "fifo"), ("np", 1), ("np2", 1), ("cpu", 1)):
            if op.get(k) != v:
                out.append(dict(op, **{k: v}))
        for k, v in (("annuli", 1), ("subsections", 1), ("movement", 1), ("numbasis", 1), ("fileprefix", ""), ("do_crop", False)):
            if op["kw"][k] != v:
                out.append(dict(op, kw=dict(op["kw"], **{k: v})))
        for k in ("nsci", "nref"):
            if op[k] > 1:
                out.append(dict(op, **{k: op[k] - 1}))
        return out

    def run(self, trace):
        import pyklip.parallelized as par
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        r = Run()
        w = World(clock_start=trace["cfg"]["clock"])
        real = par.mp, par.trange
        par.trange = range
        try:
            with w:
                self.boot(w)
                for j, op in enumerate(trace["ops"]):
                    self.op(r, w, par, op, j)
                    if r.violations:
                        break
                r.take_world(w)
        finally:
            par.mp, par.trange = real
        return r

    def boot(self, w):
        with w.quiet():
            lab.write_config(w)
        (self.data,) = w.start("corgidrp.data")
        import corgidrp.l3_to_l4 as m
        self.m = m
        self.ct = ct_cal(self.data, lab.Cals(self.data))

    def inputs(self, op):
        fr = frames(self.data, op["spec"], op["nsci"], op["nref"])
        if op["sep"] and op["nref"]:
            return self.data.Dataset(fr[:op["nsci"]]), self.data.Dataset(fr[op["nsci"]:])
        return self.data.Dataset(fr), None

    def kwargs(self, op, out, np_):
        kw = dict(op["kw"])
        nb = kw["numbasis"]
        kw["numbasis"] = list(nb) if isinstance(nb, list) else nb
        if kw["do_crop"]:
            kw["crop_sizexy"] = 36
        kw.update(mode=op["mode"], outdir=out, num_processes=np_, measure_klip_thrupt=op["thr"], measure_1d_core_thrupt=op["ct1d"])
        if op["thr"] or op["ct1d"]:
            kw["ct_calibration"] = self.ct
        if op["thr"]:
            if op.get("kt"):
                kw["kt_seps"], kw["kt_pas"] = np.array(op["kt"][0]), np.array(op["kt"][1])
            kw["cand_locs"] = [tuple(c) for c in op["cand"]]
        return kw

    def go(self, w, par, op, out, np_, mp, plan=None):
        ds, ref = self.inputs(op)
        kw = self.kwargs(op, out, np_)
        if ref is not None:
            kw["reference_star_dataset"] = ref
        before = lab.snap(ds), lab.snap({k: v for k, v in kw.items()})
        par.mp = mp
        np.random.seed(3)
        st_, v = w.call(lambda: self.m.do_psf_subtraction(ds, **kw), plan)
        ch = None
        after = lab.snap(ds), lab.snap({k: v for k, v in kw.items()})
        for a, b, what in ((before[0], after[0], "input dataset"), (before[1], after[1], "references, calibration or arguments")):
            if not lab.same(a, b):
                ch = "%s: %s" % (what, lab.diff(a, b))
        return st_, v, ch

    @staticmethod
    def picture(st_, v):
        return ("ok", lab.snap(v, TIMES, links=False)) if st_ == "ok" else ("error", type(v).__name__)

    def compare(self, a, b):
        """None, or how two pictures differ beyond single-precision rounding."""
        if a[0] != b[0] or a[0] != "ok":
            return None if a == b else "%s / %s" % (a[:1] if a[0] == "ok" else a, b[:1] if b[0] == "ok" else b)
        if lab.same(a[1], b[1]):
            return None
        return lab.diff(a[1], b[1])

    def op(self, r, w, par, op, j):
        # what one worker, first come first served, into an empty folder makes of it
        one = simpool.SimMP(0, 1, "fifo")
        st0, v0, ch = self.go(w, par, op, os.path.join(w.root, "ref%d" % j), 1, one)
        want = self.picture(st0, v0)
        r.c["op.subtract" if st0 == "ok" else "op.refused"] += 1
        r.note("ref", st0 if st0 == "ok" else "%s %s" % (type(v0).__name__, v0), one.tasks)
        if ch:
            return r.bad("input-changed", "PSF subtraction changed its %s" % ch, "input")
        out = None if op["out"] is None else os.path.join(w.root, op["out"])
        if op["junk"] and out:
            with w.quiet():
                d = os.path.join(out, op["mode"] or "ADI")
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, op["kw"]["fileprefix"] + "-KLmodes-all.fits"), "wb") as f:
                    f.write(b"left over")
        if op.get("fault"):
            mp = simpool.SimMP(op["sched"] + 1, op["cpu"], op["order"])
            st1, v1, ch = self.go(w, par, op, out, op["np2"], mp, [dict(op["fault"])])
            fired = w.last_fired
            r.note("fault", fired, st1)
            if ch and st1 != "crash":
                return r.bad("input-changed", "PSF subtraction stopped by a storage error changed its %s" % ch, "input-fault")
            if fired and st1 == "ok":
                d = self.compare(want, self.picture(st1, v1))
                if d:
                    return r.bad("error-swallowed", "storage error %s while subtracting, and the result differs: %s" % (fired[0], d), "swallowed")
            if st1 == "crash":
                w.after_crash()
                self.boot(w)
            if fired:
                r.c["probe.after_fault"] += 1
        for k, (np_, cpu, order) in enumerate(((op["np"], op["cpu"], op["order"]), (op["np2"], op["cpu2"], "random"))):
            mp = simpool.SimMP(op["sched"] + 7 * k, cpu, order)
            w.clock.advance(500. + op["sched"] % 1000)
            st2, v2, ch = self.go(w, par, op, out, np_, mp)
            if ch:
                return r.bad("input-changed", "PSF subtraction changed its %s" % ch, "input")
            r.note("run", np_, cpu, order, mp.log, st2)
            d = self.compare(want, self.picture(st2, v2))
            if d:
                return r.bad("schedule-dependent", "%s worker(s) of %s cores, order %s, folder %s: differs from one worker: %s" % (np_, cpu, order, op["out"], d), "schedule")
            r.c["probe.compared"] += 1
            r.c["probe.tasks"] += mp.tasks
            r.state((mp.log, np_, cpu))
            if any(not x.endswith("/0") for x in mp.log) or (len(mp.log) > 3 and np_ != 1):
                r.nontrivial = True
