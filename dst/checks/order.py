"""C19: frames arriving in any order, in any batches, after interrupted attempts: the same product."""
import os

import numpy as np

from .. import faults, lab
from .. import recipelab as rl
from .. import steplib as sl
from ..harness import Check, Run
from ..world import World
from . import steps as st
from .environ import outputs, record

DROP = ("DRPCTIME", "DATE", "HISTORY", "DRPNFILE", "FILENAME", "COMMENT")

# builders of one product from a set of exposures
SETS = ["build_trad_dark", "build_trad_dark", "calibrate_darks_lsq", "create_flatfield", "create_flatfield", "combine_subexposures", "combine_subexposures", "combine_subexposures", "get_pc_mean", "get_pc_mean",
        "sort_pupilimg_frames", "split_dataset", "generate_ct_cal", "create_nd_filter_cal", "create_onsky_flatfield", "boresight_calibration", "tpump_analysis"]
# steps that treat every frame by itself
FRAMES = ["prescan_biassub", "detect_cosmic_rays", "correct_nonlinearity", "add_photon_noise", "dark_subtraction", "flat_division", "frame_select", "convert_to_electrons", "em_gain_division", "cti_correction",
          "correct_bad_pixels", "desmear", "create_wcs", "divide_by_exptime", "distortion_correction", "northup", "convert_to_flux", "nan_flags", "flag_nans", "determine_flux",
          "update_to_l2a", "update_to_l2b", "update_to_l3", "update_to_tda", "crop"]
GAINS = ["detect_cosmic_rays", "correct_nonlinearity", "add_photon_noise", "em_gain_division"]

# ... but with a result that depends on which other frames there are
WHOLE = ["frame_select", "determine_flux"]


def values(hdr, names):
    return {c.keyword: c.value for c in hdr.cards if c.keyword in names}


class Sess:
    """The files of one observation on a simulated disk, and processes that reduce them."""

    def __init__(self, r, w, op, j):
        self.r, self.w, self.op = r, w, op
        self.s = sl.STEPS[op["step"]]
        self.folder = os.path.join(w.root, "obs%d" % j)
        self.boot()
        with w.quiet():
            os.makedirs(self.folder)
            ds = sl.make_inputs(self.env, self.s, op["spec"], op["p"], op["n"])
            self.names = [f.filename for f in ds.frames]
            for f in ds.frames:
                f.save(filedir=self.folder, filename=f.filename)
            self.made = self.common(ds)

    def boot(self):
        w = self.w
        with w.quiet():
            lab.write_config(w)
        (self.data,) = w.start("corgidrp.data")
        lab.small_detector()
        self.env = sl.Env(w, self.data)
        np.random.seed(1)

    def common(self, ds):
        """Cards that say the same in all inputs, or that no input has, can be compared between orders."""
        seen = {}
        for f in ds.frames:
            for h in (f.pri_hdr, f.ext_hdr):
                for c in h.cards:
                    seen.setdefault(c.keyword, []).append(str(c.value))
        n = len(ds.frames)
        return {k for k, v in seen.items() if len(set(v)) > 1 or len(v) % n}

    def order(self, o):
        if o == "listing":
            have = os.listdir(self.folder)
            return [f for f in have if f in self.names]
        if o == "reverse":
            return self.names[::-1]
        if isinstance(o, int):
            p = np.random.RandomState(o).permutation(len(self.names))
            return [self.names[i] for i in p]
        return list(self.names)

    def load(self, names):
        return self.data.Dataset([os.path.join(self.folder, n) for n in names])

    def reduce(self, o):
        ds = self.load(self.order(o))
        call, _ = self.s.prepare(self.env, ds, self.op["p"])
        return call()

    def batches(self, o, cuts):
        """Frame-by-frame work, done on one batch after the other."""
        names = self.order(o)
        out, a = [], 0
        for b in sorted(c % (len(names) + 1) for c in cuts) + [len(names)]:
            if b > a:
                ds = self.load(names[a:b])
                call, _ = self.s.prepare(self.env, ds, self.op["p"])
                out += outputs(call())
                a = b
        return out

    # ------------------------------------------------------------ pictures
    def product(self, v):
        """What may be compared between two orders."""
        name = self.op["step"]
        out = []
        if name == "split_dataset":
            for d, key in zip(*v):
                out.append((str(key), sorted(f.filename for f in d.frames)))
            return sorted(out)
        if name == "sort_pupilimg_frames":
            return sorted((f.filename, f.pri_hdr.get("OBSNAME"), f.ext_hdr["EXPTIME"], f.ext_hdr["EMGAIN_C"]) for f in v.frames)
        for f in outputs(v):
            d = {"class": type(f).__name__, "record": sorted(map(str, record(f.ext_hdr) or [])), "err": lab.arr(f.err), "dq": lab.arr(f.dq), "data": lab.arr(f.data),
                 "err_layers": [str(x) for x in f.err_hdr.values()] if f.err.shape[0] > 1 else None}
            if name == "generate_ct_cal":
                # one row per off-axis position, in the order the frames came
                k = np.lexsort(np.round(f.ct_excam[:2], 6))
                d["data"], d["dq"], d["err"] = d["data"][k], d["dq"][k], d["err"][..., k, :, :] if d["err"].ndim == 4 else d["err"]
                d["rows"] = lab.arr(f.ct_excam[:, k])
            elif name == "create_nd_filter_cal":
                d["data"] = d["data"][np.lexsort(np.round(d["data"].T, 6))]
                d["err"] = d["dq"] = None
            elif name == "tpump_analysis":      # one row per trap
                d["data"] = d["data"][np.lexsort(np.round(d["data"].T, 6))]
            elif name == "boresight_calibration":
                d["data"] = d["data"][2:]       # the pointing of the first frame leads
            cards = {}
            for h, tag in ((f.pri_hdr, "p"), (f.ext_hdr, "e")):
                for c in h.cards:
                    if c.keyword in DROP or c.keyword in self.made or c.keyword.startswith("FILE") or c.keyword[1:2].isdigit() or c.keyword.startswith("STAR"):
                        continue
                    if c.keyword in ("B_O", "B_O_ERR"):
                        cards[tag + c.keyword] = round(float(c.value), 9) + 0.      # a difference of large numbers
                        continue
                    cards[tag + c.keyword] = c.value if isinstance(c.value, (int, float, str, bool)) else str(type(c.value))
            d["cards"] = cards
            out.append(d)
        return out

    def frames(self, fr):
        """File name -> picture of one frame."""
        out = {}
        for f in fr:
            d = {"data": lab.arr(f.data), "err": lab.arr(f.err), "dq": lab.arr(f.dq)}
            for tag, h in (("p", f.pri_hdr), ("e", f.ext_hdr), ("r", f.err_hdr), ("q", f.dq_hdr)):
                d[tag] = [(c.keyword, c.value if isinstance(c.value, float) else str(c.value)) for c in h.cards if c.keyword not in DROP]
            d["class"] = type(f).__name__
            out.setdefault(f.filename, []).append(d)
        return out


def close(a, b, tol=1e-9):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if lab.same(a, b):
            return True
        if a.shape != b.shape or a.dtype.kind != "f" or b.dtype.kind != "f":
            return False
        s = np.nanmax(np.abs(a[np.isfinite(a)])) if np.isfinite(a).any() else 0.
        return bool(np.allclose(a, b, rtol=tol, atol=tol * s, equal_nan=True))
    if isinstance(a, float) and isinstance(b, float):
        return lab.same(a, b) or abs(a - b) <= tol * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return lab.same(a, b)


def first(a, b, tol=1e-9, path=""):
    """Where two pictures differ beyond rounding."""
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if not close(a[k], b[k], tol):
                return first(a[k], b[k], tol, path + "." + str(k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not close(x, y, tol):
                return first(x, y, tol, "%s[%d]" % (path, i))
    return lab.diff(a, b, path)


class C19(Check):
    id = "C19"
    rule = ("seeded observations on a simulated disk reduced by a fresh process in file-name order, then again in seeded permutations, in directory-listing order and in batches, with storage faults, "
            "crashes and retries in another order; non-trivial: at least one product or frame set was compared between two different orders")
    real = ["corgidrp builders: darks, flat, combine, photon_counting, sorting, corethroughput, nd_filter_calibration, astrom", "corgidrp.data", "all frame-by-frame steps"]
    stub = rl_stub = ["file-system calls", "clock", "detector geometry scaled to 20x30 pixels", "standard-star archive download"]
    preload = st.PRELOAD
    seeds = {"quick": 400, "thorough": 40000}
    assumptions = ["headers of a combined product come from one representative frame by design; only cards common to all inputs are compared", "floating-point summation order may change results by 1e-9 relative"]

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 2])):
            kind = "set" if rng.random() < .6 else "frames"
            name = rng.choice(SETS if kind == "set" else FRAMES)
            s = sl.STEPS[name]
            spec = st.gen_spec(rng)
            lo, hi = s.n or (1, 3)
            n = rng.randint(max(2, lo), max(hi, 2))
            p = s.params(rng)
            if kind == "set":
                spec["nan"] = spec["nan"] and name == "combine_subexposures"
                if name != "split_dataset":
                    spec.pop("per", None)
                if name in ("build_trad_dark", "create_flatfield", "combine_subexposures", "split_dataset"):
                    n = rng.randint(2, 7)
                    spec["dead"] = rng.choice([0, 0, 1, 3])
                if name == "combine_subexposures":
                    p["k"] = None
                if name == "get_pc_mean":
                    p["bin"] = None
                    n = rng.randint(3, 8)
                if name in ("generate_ct_cal", "create_nd_filter_cal"):
                    n = rng.randint(3, 6)
                if name == "create_onsky_flatfield":
                    n = rng.randint(4, 6)
                if name == "boresight_calibration":
                    p["comb"] = None
                    p["stars"] = rng.choice([7, 8])
                    n = rng.randint(2, 3)
                if name in ("sort_pupilimg_frames", "tpump_analysis"):
                    n = 1
                if name == "tpump_analysis":
                    p["traps"] = 1
            else:
                n = rng.randint(2, 5)
                if name in GAINS and rng.random() < .7:      # a frame with a measured gain among others without
                    n = 2
                    spec.pop("emgain_m", None)
                    spec["per"] = {str(rng.randrange(n)): {"emgain_m": rng.choice([1.1, 50.])}}
                if "c" in p:
                    p["c"] = rng.choice([None, [6.5, 6.5]])
            orders = [rng.choice(["reverse", "listing", rng.randrange(10 ** 6), rng.randrange(10 ** 6)]) for _ in range(rng.choice([1, 2, 3]))]
            if name == "tpump_analysis":
                orders = orders[:1]
            op = {"op": kind, "step": name, "p": p, "spec": spec, "n": n, "orders": orders,
                  "cuts": [sorted(rng.randrange(6) for _ in range(rng.randint(0, 3))) for _ in orders]}
            if rng.random() < .4:
                op["fault"] = faults.gen_fault(rng, 25, ["err", "crash"])
                op["forder"] = rng.choice(["listing", rng.randrange(10 ** 6)])
            ops.append(op)
        return {"cfg": {"listing": rng.randrange(1000), "clock": 1.9e9 + rng.randrange(10 ** 6)}, "ops": ops}

    def simpler(self, op):
        out = super().simpler(op)
        if len(op["orders"]) > 1:
            for i in range(len(op["orders"])):
                out.append(dict(op, orders=[op["orders"][i]], cuts=[op["cuts"][i]]))
        if op["n"] > 2:
            out.append(dict(op, n=op["n"] - 1))
        for k, v in (("ndq", 0), ("dead", 0), ("nan", False), ("cr", False), ("err", True)):
            if op["spec"].get(k) not in (v, None):
                out.append(dict(op, spec=dict(op["spec"], **{k: v})))
        if "per" in op["spec"]:
            out.append(dict(op, spec={k: v for k, v in op["spec"].items() if k != "per"}))
        return out

    def run(self, trace):
        r = Run()
        w = World(listing_seed=trace["cfg"]["listing"], clock_start=trace["cfg"]["clock"])
        with w:
            for j, op in enumerate(trace["ops"]):
                s = Sess(r, w, op, j)
                self.one(r, w, s, op)
                if r.violations:
                    break
            r.take_world(w)
        return r

    def one(self, r, w, s, op):
        name = op["step"]
        sets = op["op"] == "set"
        s.boot()
        st0, v0 = w.call(lambda: s.reduce("names"))
        r.c["op.%s%s" % (op["op"], "" if st0 == "ok" else "_refused")] += 1
        r.note(name, st0, type(v0).__name__)
        want = None
        if st0 == "ok":
            want = s.product(v0) if sets else s.frames(outputs(v0))
        if op.get("fault"):
            # an attempt that runs into trouble, in some other order
            st1, v1 = w.call(lambda: s.reduce(op["forder"]), [dict(op["fault"])])
            r.note("fault", w.last_fired, st1)
            if w.last_fired:
                r.c["probe.after_fault"] += 1
            if st1 == "crash":
                w.after_crash()
            elif w.last_fired and st1 == "ok" and st0 == "ok":
                d = self.compare(s, op, want, s.product(v1) if sets else s.frames(outputs(v1)))
                if d:
                    return r.bad("error-swallowed", "%s: storage error %s while reading, and a different result: %s" % (name, w.last_fired[0], d), "swallowed:" + name)
        for o, cuts in zip(op["orders"], op["cuts"]):
            w.clock.advance(100.)
            s.boot()
            names = s.order(o)
            if sets or not cuts or name in WHOLE:
                st2, v2 = w.call(lambda: s.reduce(o if o != "listing" else "listing"))
                got = None if st2 != "ok" else (s.product(v2) if sets else s.frames(outputs(v2)))
                how = "in order %s" % o
            else:
                st2, v2 = w.call(lambda: s.batches(o, cuts))
                got = None if st2 != "ok" else s.frames(v2)
                how = "in order %s in batches" % o
                r.c["probe.batches"] += 1
            if st2 != st0:
                if st0 != "ok" and how.endswith("batches"):
                    continue        # a data set may be refused as a whole for one of its frames
                return r.bad("order-outcome", "%s: frames %s: %s, by name: %s" % (name, how, self.show(st2, v2), self.show(st0, v0)), "outcome:" + name)
            if st0 != "ok":
                continue
            d = self.compare(s, op, want, got)
            if d:
                return r.bad("order-dependent", "%s: %d frames %s give another result than by name: %s" % (name, len(s.names), how, d), "order:" + name)
            r.state((name, o if isinstance(o, str) else tuple(names), cuts))
            if names != s.names or cuts:
                r.nontrivial = True
                r.c["probe.compared"] += 1

    def show(self, st_, v):
        return st_ if st_ == "ok" else "%s %s" % (type(v).__name__, str(v)[:80])

    def compare(self, s, op, a, b):
        if close(a, b):
            return None
        if isinstance(a, dict) and a.keys() != b.keys():
            return "frames %s / %s" % (sorted(a), sorted(b))
        return first(a, b)
