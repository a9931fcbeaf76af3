"""C09, C11, C12: the processing steps as operations of a session on shared datasets and calibrations."""
import os

import astropy.io.fits as fits
import numpy as np

from .. import faults, lab
from .. import steplib as sl
from ..harness import REPO, Check, Run
from ..world import World

MODS = ("caldb", "walker", "l1_to_l2a", "l2a_to_l2b", "l2b_to_l3", "l3_to_l4", "l4_to_tda", "nd_filter_calibration", "corethroughput", "combine", "darks",
        "bad_pixel_calibration", "sorting", "flat", "photon_counting", "fluxcal", "calibrate_kgain", "calibrate_nonlin", "pump_trap_calibration", "klip_fm", "measure_companions")
PRELOAD = tuple("corgidrp." + m for m in MODS)
TIMES = ("DRPCTIME",)
# results that are views of their input by definition
VIEWS = ("split_dataset",)


def gen_spec(rng):
    spec = {"pix": rng.randrange(1000), "ndq": rng.choice([0, 1, 3, 20]), "full": rng.random() < .4, "exptime": rng.choice([1., 60., 5.5]),
            "emgain": rng.choice([1., 1., 20., 1000.]), "emgain_a": rng.choice([-1., 1.5]), "nan": rng.random() < .15, "cr": rng.random() < .3,
            "roll": rng.choice([0., 13., -40.]), "err": rng.random() < .85, "positive": rng.random() < .3}
    if rng.random() < .1:
        spec["emgain_m"] = rng.choice([1.1, 21.5])
    if rng.random() < .3:
        spec["per"] = {str(rng.randrange(3)): {rng.choice(["exptime", "emgain", "tt", "roll", "emgain_m"]): rng.choice([2., 10., 90.]), "overexp": rng.random() < .5}}
    return spec


def session(w, track):
    """Start a process with a small detector; returns corgidrp.data."""
    with w.quiet():
        lab.write_config(w, track=track)
    (data,) = w.start("corgidrp.data")
    lab.small_detector()
    return data


def headers_of(x, out=None):
    """Every header object reachable from a result."""
    out = [] if out is None else out
    if isinstance(x, fits.Header):
        out.append(x)
    elif type(x).__name__ == "Dataset":
        for f in x.frames:
            headers_of(f, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            headers_of(y, out)
    elif hasattr(x, "ext_hdr") and hasattr(x, "pri_hdr"):
        for v in vars(x).values():
            if isinstance(v, fits.Header):
                out.append(v)
            elif isinstance(v, (fits.HDUList, list)):
                out.extend(h.header for h in v if hasattr(h, "header"))
    return out


def arrays_of(x, out=None):
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif type(x).__name__ == "Dataset":
        for n in ("all_data", "all_err", "all_dq"):
            out.append(getattr(x, n))
        for f in x.frames:
            arrays_of(f, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            arrays_of(y, out)
    elif hasattr(x, "ext_hdr") and hasattr(x, "pri_hdr"):
        for v in vars(x).values():
            if isinstance(v, np.ndarray):
                out.append(v)
    return [a for a in out if isinstance(a, np.ndarray) and a.dtype.kind in "fiu" and a.flags.writeable and a.size]


def show(st, v):
    return "%s: %s" % (type(v).__name__, str(v)[:160]) if st == "error" else st


class C09(Check):
    id = "C09"
    rule = "seeded sessions of processing steps and calibration builders over shared calibrations; each step is run, aborted at a random library call by a failed allocation or a storage error, run again later with another random state, and once more at the end of the session; non-trivial: at least 3 steps completed and one aborted or repeated"
    real = ["all corgidrp processing steps and calibration builders", "corgidrp.data", "numpy/scipy/photutils/pyklip numerics"]
    stub = ["file-system calls", "clock", "allocation failures (library calls made by corgidrp code)", "standard-star archive download", "detector geometry scaled to 20x30 pixels"]
    preload = PRELOAD
    seeds = {"quick": 480, "thorough": 60000}
    assumptions = ["level updates share pixels (not headers) with their input by design; split datasets are views of the one split"]

    def gen(self, rng, i, tier):
        names = sorted(sl.STEPS)
        ops = []
        for _ in range(rng.choice([2, 4, 6, 9])):
            s = sl.STEPS[rng.choice(names)]
            lo, hi = s.n or (1, 3)
            op = {"step": s.name, "spec": gen_spec(rng), "p": s.params(rng), "n": rng.randint(lo, hi), "layers": rng.choice([1, 1, 3]),
                  "fail": rng.randrange(400) if rng.random() < .5 else None, "hash": rng.randrange(100), "share": rng.random() < .3}
            if rng.random() < .25:
                op["fault"] = faults.gen_fault(rng, 8, ["err", "full"])
            ops.append(op)
        return {"cfg": {"clock": 1.9e9 + rng.random() * 1e6, "track": rng.random() < .4}, "ops": ops}

    def simpler(self, op):
        out = super().simpler(op)
        for k, v in (("fail", None), ("layers", 1), ("share", False)):
            if op.get(k) != v:
                out.append(dict(op, **{k: v}))
        if op.get("n", 1) > 1:
            out.append(dict(op, n=op["n"] - 1))
        for k in list(op["spec"]):
            if k not in ("pix",):
                sp = dict(op["spec"])
                sp.pop(k)
                out.append(dict(op, spec=sp))
        return out

    def run(self, trace):
        r = Run()
        cfg = trace["cfg"]
        w = World(clock_start=cfg["clock"])
        with w:
            data = session(w, cfg["track"])
            env = sl.Env(w, data)
            first = {}
            last_ds = None
            for j, op in enumerate(trace["ops"]):
                ds, res = self.one(r, w, env, cfg, op, first, j, last_ds)
                if r.violations:
                    break
                if ds is not None:
                    last_ds = (op["step"], ds)
            else:
                # what a step does must not depend on what ran before it in this session
                for j, op in enumerate(trace["ops"]):
                    if j in first and not op.get("share"):
                        ds = sl.make_inputs(env, sl.STEPS[op["step"]], op["spec"], op["p"], op["n"], op["layers"] if cfg["track"] else 1)
                        call, extra = sl.STEPS[op["step"]].prepare(env, ds, op["p"])
                        np.random.seed(op["hash"] + 5)
                        st, v = w.call(call)
                        if not self.equal(first[j], self.outcome(st, v)):
                            r.bad("not-repeatable", "%s on the same inputs at the end of the session: %s" % (op["step"], self.delta(first[j], self.outcome(st, v))),
                                  "session:%s" % op["step"])
                            break
                        r.c["probe.session_repeat"] += 1
            r.nontrivial = r.c["op.done"] >= 3 and (r.c["fault.alloc"] + r.c["probe.repeat"]) > 0
            r.take_world(w)
        return r

    @staticmethod
    def outcome(st, v):
        if st == "ok":
            return ("ok", lab.snap(v, TIMES, links=False))
        return (st, type(v).__name__)

    @staticmethod
    def equal(a, b):
        return a[0] == b[0] and lab.same(a[1], b[1])

    @staticmethod
    def delta(a, b):
        return "%s then %s" % (a[:1] + a[1:] if a[0] != "ok" else "ok", b[:1] + b[1:] if b[0] != "ok" else "ok") if a[0] != b[0] or a[0] != "ok" else lab.diff(a[1], b[1])

    def one(self, r, w, env, cfg, op, first, j, last_ds):
        s = sl.STEPS[op["step"]]
        layers = op["layers"] if cfg["track"] else 1
        if op.get("share") and last_ds is not None and last_ds[0] == op["step"]:
            ds = last_ds[1]
        else:
            ds = sl.make_inputs(env, s, op["spec"], op["p"], op["n"], layers)
        call, extra = s.prepare(env, ds, op["p"])
        before = lab.snap(ds), lab.snap(extra)

        def unchanged(when):
            now = lab.snap(ds), lab.snap(extra)
            if not lab.same(before[0], now[0]):
                r.bad("input-changed", "%s changed its input dataset (%s): %s" % (s.name, when, lab.diff(before[0], now[0])), "input:%s" % s.name)
            elif not lab.same(before[1], now[1]):
                r.bad("calibration-changed", "%s changed a calibration or argument (%s): %s" % (s.name, when, lab.diff(before[1], now[1])), "cal:%s" % s.name)
            return not r.violations

        np.random.seed(op["hash"])
        n = None
        if op["fail"] is not None:
            af = lab.AllocFault(None, REPO)
            with af:
                st, v = w.call(call)
            n = af.n
        else:
            st, v = w.call(call)
        res = self.outcome(st, v)
        r.c["op.%s" % s.name] += 1
        r.c["op.done" if st == "ok" else "op.refused"] += 1
        r.note(s.name, st if st == "ok" else show(st, v), n)
        if not unchanged("run to the end" if st == "ok" else "refused with %s" % show(st, v)):
            return None, None
        if op["fail"] is not None and n:
            af = lab.AllocFault(op["fail"] % n, REPO)
            with af:
                st2, v2 = w.call(call)
            if af.fired:
                r.c["fault.alloc"] += 1
                r.state((s.name, "abort", af.fired, op["fail"] % n))
            r.note("abort", af.fired, st2)
            if not unchanged("aborted by a failed allocation in %s" % af.fired):
                return None, None
        if op.get("fault"):
            st2, v2 = w.call(call, [dict(op["fault"])])
            r.note("io", w.last_fired, st2)
            if not unchanged("storage error"):
                return None, None
        w.clock.advance(100. + op["hash"])
        np.random.seed(op["hash"] + 1000)
        st3, v3 = w.call(call)
        r.c["probe.repeat"] += 1
        if not self.equal(res, self.outcome(st3, v3)):
            r.bad("not-repeatable", "%s twice on the same inputs: %s" % (s.name, self.delta(res, self.outcome(st3, v3))), "repeat:%s" % s.name)
            return None, None
        if not unchanged("repeated"):
            return None, None
        first[j] = res
        r.state((s.name, st, sorted(op["p"].items(), key=str), cfg["track"], layers))
        if st3 == "ok":
            # a user edits the result
            for h in headers_of(v3):
                h["ZEDIT"] = 1
                h["HISTORY"] = "edited"
            if s.name not in VIEWS and not unchanged("later edit of the result's headers"):
                return None, None
            if s.name in VIEWS:
                return None, None
            shared = s.relabel is not None
            for a in arrays_of(v3):
                if shared and any(np.shares_memory(a, b) for b in arrays_of(ds)):
                    continue
                a[...] = a + 1
            if not unchanged("later edit of the result's pixels"):
                return None, None
            r.c["probe.edit_result"] += 1
        return ds, res


# ---------------------------------------------------------------- C11
class Item:
    def __init__(self, ds, shape):
        self.ds = ds
        self.shape = shape
        self.levels = [f.ext_hdr["DATALVL"] for f in ds.frames]
        self.hist = [history(f) for f in ds.frames]
        self.names = [f.filename for f in ds.frames]


def history(f):
    return [str(x) for x in f.ext_hdr["HISTORY"]] if "HISTORY" in f.ext_hdr else []


TAGS = {"L1": "_L1_", "L2a": "_L2a", "L2b": "_L2b", "L3": "_L3_", "L4": "_L4_", "TDA": "_TDA_"}
ORDER = sl.LEVELS


class C11(Check):
    id = "C11"
    rule = "seeded walks of steps and level updates, in and out of order, with aborted and retried steps, saves and reloads, over datasets of equal and mixed levels; non-trivial: at least one accepted and one refused level update"
    real = ["all corgidrp step functions working on whole datasets", "corgidrp.data"]
    stub = ["file-system calls", "clock", "allocation failures (library calls made by corgidrp code)", "detector geometry scaled to 20x30 pixels"]
    preload = PRELOAD
    seeds = {"quick": 800, "thorough": 80000}
    assumptions = ["file names carry their level in the pipeline's own naming pattern"]

    def gen(self, rng, i, tier):
        ops = []
        n = rng.choice([4, 8, 12])
        for _ in range(rng.randint(1, 3)):
            ops.append({"op": "new", "level": rng.choice(ORDER[:2] + ORDER), "full": rng.random() < .4, "n": rng.randint(1, 3),
                        "spec": dict(gen_spec(rng), past=rng.choice([0, 0, 3, 90]), pre=rng.choice(["", "", "L1-L2aL2bL3L4TDA_"]))})
        for _ in range(n):
            u = rng.random()
            if u < .4:
                ops.append({"op": "step", "step": rng.choice(sl.RELABEL), "p": {"ct": rng.random() < .5}, "d": rng.randrange(4),
                            "next": rng.random() < .6, "fail": rng.randrange(100) if rng.random() < .2 else None})
            elif u < .82:
                s = sl.STEPS[rng.choice([c for c in sl.CHAIN if c not in sl.RELABEL] + ["combine_subexposures"] * 2)]
                ops.append({"op": "step", "step": s.name, "p": s.params(rng), "d": rng.randrange(4), "fail": rng.randrange(300) if rng.random() < .2 else None})
            elif u < .9:
                ops.append({"op": "mix", "d": rng.randrange(4), "e": rng.randrange(4), "k": rng.randrange(8)})
            else:
                ops.append({"op": "save", "d": rng.randrange(4)})
        return {"cfg": {"clock": 1.9e9, "track": rng.random() < .3}, "ops": ops}

    def run(self, trace):
        r = Run()
        cfg = trace["cfg"]
        w = World(clock_start=cfg["clock"])
        with w:
            data = session(w, cfg["track"])
            env = sl.Env(w, data)
            pool = []
            for j, op in enumerate(trace["ops"]):
                k = op["op"]
                if k == "new":
                    shape = lab.FULL if op["full"] else lab.IM
                    sp = dict(op["spec"], first=10 * j)
                    pool.append(Item(lab.make_dataset(data, sp, op["level"], shape, op["n"]), shape))
                    continue
                if not pool:
                    continue
                it = pool[op["d"] % len(pool)]
                if k == "step":
                    self.step(r, w, env, pool, it, op)
                elif k == "mix":
                    o = pool[op["e"] % len(pool)]
                    if o.ds.all_data.shape[1:] == it.ds.all_data.shape[1:] and o.ds.all_err.shape[1:] == it.ds.all_err.shape[1:] and len(it.names) + len(o.names) < 8:
                        fr = [f.copy() for f in (list(it.ds.frames) + list(o.ds.frames))]
                        if op["k"] % 2:
                            fr = fr[::-1]
                        pool.append(Item(data.Dataset(fr), it.shape))
                        r.c["op.mix"] += 1
                elif k == "save":
                    d = os.path.join(w.root, "o%d" % j)
                    with w.quiet():
                        os.makedirs(d)
                    if len(set(it.names)) == len(it.names):
                        st, v = w.call(lambda: it.ds.save(filedir=d))
                        st, v = w.call(lambda: data.Dataset([os.path.join(d, x) for x in it.names]))
                        if st != "ok":
                            r.bad("reload", "a saved dataset does not reload: %s" % show(st, v))
                            break
                        new = Item(v, it.shape)
                        if new.levels != it.levels or new.hist != it.hist or new.names != it.names:
                            r.bad("reload", "level, history or name changed on disk: %s" % lab.diff([it.levels, it.hist, it.names], [new.levels, new.hist, new.names]))
                            break
                        pool[pool.index(it)] = new
                        r.c["op.save"] += 1
                if r.violations:
                    break
                for o in pool:
                    now = Item(o.ds, o.shape)
                    if (now.levels, now.hist, now.names) != (o.levels, o.hist, o.names):
                        r.bad("level-changed-elsewhere", "%s: level, history or name of a dataset changed behind its back: %s" % (
                            k, lab.diff([o.levels, o.hist, o.names], [now.levels, now.hist, now.names])))
                r.state([(p.levels, [len(h) for h in p.hist]) for p in pool])
                if r.violations:
                    break
            r.nontrivial = r.c["op.accepted"] > 0 and r.c["op.refused"] > 0
            r.take_world(w)
        return r

    def step(self, r, w, env, pool, it, op):
        name = op["step"]
        if name in sl.RELABEL and op.get("next"):
            m = {sl.STEPS[x].relabel[0]: x for x in sl.RELABEL}
            name = m.get(it.levels[0], name)
        s = sl.STEPS[name]
        p = dict(op["p"])
        for k, v in s.params(__import__("random").Random(1)).items():
            p.setdefault(k, v)
        call, extra = s.prepare(env, it.ds, p)
        content = lab.snap(it.ds)
        if op.get("fail") is not None:
            af = lab.AllocFault(op["fail"] % 40, REPO)
            with af:
                w.call(call)
            if af.fired:
                r.c["fault.alloc"] += 1
            if not lab.same(content, lab.snap(it.ds)):
                return r.bad("aborted-step-changed", "%s aborted in %s: %s" % (name, af.fired, lab.diff(content, lab.snap(it.ds))), "abort:%s" % name)
        st, v = w.call(call)
        r.note(name, it.levels, st)
        if s.relabel:
            a, b = s.relabel
            ok = all(x == a for x in it.levels)
            r.c["op.accepted" if st == "ok" else "op.refused"] += 1
            if ok and st != "ok":
                return r.bad("update-refused", "%s refuses %s data: %s" % (name, a, show(st, v)), "refused:%s" % name)
            if not ok and st == "ok":
                return r.bad("update-accepted", "%s accepts a dataset of levels %s" % (name, it.levels), "accepted:%s" % name)
            if not ok and not lab.same(content, lab.snap(it.ds)):
                return r.bad("refused-changed", "%s refused but changed: %s" % (name, lab.diff(content, lab.snap(it.ds))), "refchange:%s" % name)
            want = [b] * len(it.levels)
        else:
            want = it.levels
            r.c["op.%s" % ("done" if st == "ok" else "not_done")] += 1
        if st != "ok":
            return
        new = Item(v, it.shape)
        if name == "combine_subexposures":
            g = p["k"] or len(it.names)
            if len(new.names) != len(it.names) // g:
                return r.bad("identity", "%s: %d frames from %d" % (name, len(new.names), len(it.names)), "identity:%s" % name)
            for k in range(len(new.names)):
                q = range(k * g, k * g + g)
                if new.names[k] not in [it.names[j] for j in q] or new.levels[k] not in [it.levels[j] for j in q]:
                    return r.bad("identity", "%s: group of %s at %s gives %s at %s" % (name, [it.names[j] for j in q], [it.levels[j] for j in q], new.names[k], new.levels[k]), "identity:%s" % name)
                if not any(new.hist[k][:len(it.hist[j])] == it.hist[j] and len(new.hist[k]) > len(it.hist[j]) for j in q):
                    return r.bad("history-rewritten", "%s: the history of the result continues that of none of its frames" % name, "history:%s" % name)
            r.c["op.step_%s" % name] += 1
            pool[pool.index(it)] = new
            return
        drops = name == "frame_select" and op["p"].get("discard", True)
        if drops:
            # a subset of the frames, in order
            pos, k = [], 0
            for nm, h in zip(new.names, new.hist):
                while k < len(it.names) and not (it.names[k] == nm and h[:len(it.hist[k])] == it.hist[k]):
                    k += 1
                pos.append(k)
                k += 1
            if any(x >= len(it.names) for x in pos):
                return r.bad("identity", "%s: frames %s from %s" % (name, new.names, it.names), "identity:%s" % name)
            src = pos
        else:
            src = list(range(len(it.names)))
            if len(new.names) != len(it.names):
                return r.bad("identity", "%s: %d frames from %d" % (name, len(new.names), len(it.names)), "identity:%s" % name)
        for k, q in enumerate(src):
            if new.levels[k] != want[q]:
                return r.bad("level", "%s: level %s -> %s" % (name, it.levels[q], new.levels[k]), "level:%s" % name)
            nm = it.names[q].replace(TAGS[s.relabel[0]], TAGS[s.relabel[1]], 1) if s.relabel else it.names[q]
            if new.names[k] != nm:
                return r.bad("identity", "%s: file name %s -> %s, not %s" % (name, it.names[q], new.names[k], nm), "identity:%s" % name)
            old = it.hist[q]
            if new.hist[k][:len(old)] != old:
                return r.bad("history-rewritten", "%s: %s" % (name, lab.diff(old, new.hist[k][:len(old)])), "history:%s" % name)
            if s.hist and len(new.hist[k]) <= len(old):
                return r.bad("history-missing", "%s added no history" % name, "nohistory:%s" % name)
        r.c["op.step_%s" % name] += 1
        pool[pool.index(it)] = new


# ---------------------------------------------------------------- C12
EXACT = ("detect_cosmic_rays", "correct_nonlinearity", "frame_select", "correct_bad_pixels", "desmear", "cti_correction", "create_wcs", "flag_nans") + tuple(sl.RELABEL)
ADDS = {"prescan_biassub": "prescan_bias_sub", "add_photon_noise": "photnoise_error", "dark_subtraction": "dark_error", "flat_division": "FlatField_error",
        "convert_to_flux": "fluxcal_error", "nan_flags": "DQ flagged"}
RESAMPLE = ("northup", "distortion_correction")


class C12(Check):
    id = "C12"
    rule = "seeded sequences of pixel-level steps on frames with arbitrary flags and uncertainty layers, with error tracking on or off, saves, reloads and restarts in between; non-trivial: at least 4 completed steps and a non-empty flag map"
    real = ["pixel-level corgidrp step functions", "corgidrp.data", "astropy.io.fits"]
    stub = ["file-system calls", "clock", "detector geometry scaled to 20x30 pixels"]
    preload = PRELOAD
    seeds = {"quick": 1000, "thorough": 100000}
    assumptions = ["combining exposures clears flags by its documentation and is left out; rotation and distortion move pixels, so only the layer structure is judged there"]

    def gen(self, rng, i, tier):
        full = rng.random() < .5
        lvl = rng.choice(["L1", "L1", "L2a", "L2b", "L3"]) if full else rng.choice(["L2a", "L2b", "L3", "L4"])
        ops = []
        pool = [c for c in sl.CHAIN if c not in sl.RELABEL] + ["correct_bad_pixels", "convert_to_electrons", "flag_nans", "dark_subtraction"]
        for _ in range(rng.choice([3, 6, 10])):
            if rng.random() < .15:
                ops.append({"op": "save", "restart": rng.random() < .5})
                continue
            s = sl.STEPS[rng.choice(pool)]
            p = s.params(rng)
            p.pop("area", None)
            ops.append({"op": "step", "step": s.name, "p": p, "u": rng.random() < .25})
        spec = gen_spec(rng)
        spec["bits"] = rng.choice([[1, 4, 8, 32, 64, 128], [1 << b for b in range(16)], [256, 512, 1024, 32768]])
        spec["emgain"] = rng.choice([1., 20.])
        return {"cfg": {"clock": 1.9e9, "track": rng.random() < .6, "layers": rng.choice([1, 2, 4]), "n": rng.randint(1, 3), "full": full, "level": lvl, "spec": spec}, "ops": ops}

    def run(self, trace):
        r = Run()
        cfg = trace["cfg"]
        w = World(clock_start=cfg["clock"])
        with w:
            data = session(w, cfg["track"])
            env = sl.Env(w, data)
            spec = cfg["spec"]
            shape = lab.FULL if cfg["full"] else lab.IM
            layers = cfg["layers"] if cfg["track"] else 1
            fr = [lab.make_frame(data, spec, k, cfg["level"], shape, layers) for k in range(cfg["n"])]
            rs = np.random.RandomState(spec["pix"])
            for f in fr:
                for _ in range(spec.get("ndq", 0)):
                    f.dq[rs.randint(shape[0]), rs.randint(shape[1])] |= spec["bits"][rs.randint(len(spec["bits"]))]
            ds = data.Dataset(fr)
            for j, op in enumerate(trace["ops"]):
                if op["op"] == "save":
                    d = os.path.join(w.root, "o%d" % j)
                    with w.quiet():
                        os.makedirs(d)
                    want = lab.snap([[f.err, f.dq, self.names(f)] for f in ds.frames])
                    st, v = w.call(lambda: ds.save(filedir=d))
                    names = [f.filename for f in ds.frames]
                    if op["restart"] and st == "ok":
                        data = session(w, cfg["track"])
                        env = sl.Env(w, data)
                    if st == "ok":
                        st, v = w.call(lambda: data.Dataset([os.path.join(d, x) for x in names]))
                    if st != "ok":
                        r.bad("reload", "a saved dataset does not reload: %s" % show(st, v))
                        break
                    got = lab.snap([[f.err, f.dq, self.names(f)] for f in v.frames])
                    if not lab.same(want, got):
                        r.bad("lost-on-disk", "flags, uncertainties or layer names changed by save and reload: %s" % lab.diff(want, got), "disk")
                        break
                    ds = v
                    r.c["op.save"] += 1
                    continue
                ds = self.step(r, w, env, ds, op, cfg) or ds
                if r.violations:
                    break
                r.state([(f.dq.tobytes(), f.err.shape, self.names(f)) for f in ds.frames])
            r.nontrivial = sum(v for k, v in r.c.items() if k.startswith("op.")) >= 4 and bool(ds.all_dq.any())
            r.take_world(w)
        return r

    @staticmethod
    def names(f):
        return [str(f.err_hdr.get("Layer_%d" % (k + 1))) for k in range(f.err.shape[0])]

    def step(self, r, w, env, ds, op, cfg):
        s = sl.STEPS[op["step"]]
        p = dict({"area": False}, **op["p"])
        old = [(np.array(f.data), np.array(f.err), np.array(f.dq), self.names(f), f.filename, dict(f.ext_hdr)) for f in ds.frames]
        call, extra = s.prepare(env, ds, p)
        st, v = w.call(call)
        r.note(s.name, st if st == "ok" else show(st, v))
        if st != "ok":
            r.c["refused"] += 1
            return None
        r.c["op.%s" % s.name] += 1
        track = cfg["track"]
        if s.name == "frame_select":
            keep = {n: o for n, o in zip([o[4] for o in old], old)}
            old = [keep[f.filename] for f in v.frames if f.filename in keep]
        if len(old) != len(v.frames):
            r.bad("frames", "%s: %d frames became %d" % (s.name, len(old), len(v.frames)))
            return None
        for k, f in enumerate(v.frames):
            d0, e0, q0, n0 = old[k][:4]
            box = self.box(s.name, p, d0.shape, f, old[k][5])
            # structure of the layers
            if f.err.ndim != 3 or f.err.shape[1:] != f.data.shape or f.dq.shape != f.data.shape:
                return r.bad("shapes", "%s: data %s err %s dq %s" % (s.name, f.data.shape, f.err.shape, f.dq.shape), "shape:%s" % s.name)
            if not (v.all_err.shape[1:] == f.err.shape and np.array_equal(v.all_err[k], f.err, equal_nan=True) and np.array_equal(v.all_dq[k], f.dq)):
                return r.bad("stack", "%s: stacked uncertainties or flags differ from the frames'" % s.name, "stack:%s" % s.name)
            n1 = self.names(f)
            new = [ADDS[s.name]] if s.name in ADDS else []
            if not track:
                if f.err.shape[0] != 1:
                    return r.bad("layers-kept", "%s: tracking is off but there are %d layers" % (s.name, f.err.shape[0]), "off:%s" % s.name)
            else:
                if n1[1:] != n0[1:] + new or len(n1) != len(n0) + len(new):
                    return r.bad("layer-lost", "%s: layers %s -> %s" % (s.name, n0, n1), "layers:%s" % s.name)
                if "Layer_%d" % (len(n1) + 1) in f.err_hdr:
                    return r.bad("layer-lost", "%s: the header names %d layers, the data has %d" % (s.name, len(n1) + 1, len(n1)), "layers:%s" % s.name)
            if new and n1[0] != "combined_error":
                return r.bad("combined-first", "%s: first layer is called %s" % (s.name, n1[0]), "first:%s" % s.name)
            if s.name in RESAMPLE:
                if s.name == "northup" and track:
                    for m in range(1, len(n0)):
                        if np.nansum(np.abs(e0[m])) > 0 and not np.isnan(f.err[m]).any() and not np.abs(f.err[m]).sum() > 0:
                            return r.bad("layer-lost", "%s: layer %s became empty" % (s.name, n0[m]), "layers:%s" % s.name)
                continue
            if box is None:
                continue
            d0, e0, q0 = d0[box], e0[(slice(None),) + box], q0[box]
            if q0.shape != f.dq.shape:
                return r.bad("shapes", "%s: expected shape %s, got %s" % (s.name, q0.shape, f.dq.shape), "shape:%s" % s.name)
            lost = q0.astype(np.int64) & ~f.dq.astype(np.int64)
            if lost.any():
                y, x = np.argwhere(lost)[0]
                return r.bad("flag-lost", "%s: flags %d of pixel (%d,%d) became %d" % (s.name, q0[y, x], y, x, f.dq[y, x]), "dq:%s" % s.name)
            scale = self.scale(s.name, env, ds, p, f, old[k][5])
            if scale is None:
                continue
            tol = 1e-6 * np.abs(e0[0] * scale) + 1e-9 * np.abs(scale)
            want = np.abs(e0[0] * scale)
            with np.errstate(invalid="ignore"):
                low = np.abs(f.err[0]) < want - tol
            if s.name == "add_photon_noise":
                low &= d0 >= 0
            if low.any():
                y, x = np.argwhere(low)[0]
                return r.bad("uncertainty-lowered", "%s: combined uncertainty of pixel (%d,%d) %r, at least %r expected" % (s.name, y, x, f.err[0][y, x], want[y, x]),
                             "err:%s" % s.name)
            lost = np.isnan(e0[0]) & ~np.isnan(f.err[0])
            if lost.any():
                return r.bad("uncertainty-lowered", "%s: an unknown uncertainty became %r" % (s.name, f.err[0][tuple(np.argwhere(lost)[0])]), "err:%s" % s.name)
            # a NaN where there was a number hides the uncertainty
            gone = np.isnan(f.err[0]) & ~np.isnan(e0[0])
            if s.name in ("nan_flags",):
                gone &= q0 < op["p"].get("thr", 1)
            if s.name in ("add_photon_noise",):
                gone &= d0 >= 0
            if s.name == "prescan_biassub":        # one unknown pixel makes the bias of its row unknown
                gone &= np.isfinite(old[k][0]).all(axis=1)[box[0]][:, None]
            gone &= np.isfinite(d0) & np.isfinite(e0[0]) & np.isfinite(np.broadcast_to(np.asarray(scale, float), d0.shape))
            if gone.any():
                y, x = np.argwhere(gone)[0]
                return r.bad("uncertainty-lost", "%s: combined uncertainty of pixel (%d,%d) became NaN" % (s.name, y, x), "nan:%s" % s.name)
            if s.name in EXACT and not np.array_equal(f.err[0], e0[0], equal_nan=True):
                return r.bad("uncertainty-changed", "%s: %s" % (s.name, lab.diff(e0[0], f.err[0])), "err:%s" % s.name)
            if track:
                for m in range(1, len(n0)):
                    want = e0[m] * scale
                    ok = np.isclose(f.err[m], want, rtol=1e-6, atol=1e-12, equal_nan=True) | ~np.isfinite(want)
                    if not ok.all():
                        y, x = np.argwhere(~ok)[0]
                        return r.bad("layer-changed", "%s: layer %s at (%d,%d): %r, expected %r" % (s.name, n0[m], y, x, f.err[m][y, x], want[y, x]), "layers:%s" % s.name)
        return v

    def box(self, name, p, shape, f, h0):
        """Where in the input the output pixels come from."""
        whole = (slice(0, shape[0]), slice(0, shape[1]))
        if name == "prescan_biassub" and not p["full"]:
            g = lab.GEO["image"]
            y, x = g["r0c0"]
            return (slice(y, y + g["rows"]), slice(x, x + g["cols"]))
        if name == "crop":
            # the step records where in the detector image the cut-out starts
            x = f.ext_hdr["DETPIX0X"] - h0.get("DETPIX0X", 0)
            y = f.ext_hdr["DETPIX0Y"] - h0.get("DETPIX0Y", 0)
            return (slice(y, y + p["size"]), slice(x, x + p["size"]))
        return whole

    def scale(self, name, env, ds, p, f, h0):
        """The factor between input and output uncertainties; None where it is not defined here."""
        if name == "convert_to_electrons":
            return 8.7
        if name == "em_gain_division":
            if "EMGAIN_M" in h0:
                return 1. / h0["EMGAIN_M"]
            return 1. / (h0["EMGAIN_A"] if h0["EMGAIN_A"] > 0 else h0["EMGAIN_C"])
        if name == "divide_by_exptime":
            return 1. / h0["EXPTIME"]
        if name == "convert_to_flux":
            return 2e-12
        if name == "flat_division":
            with np.errstate(divide="ignore"):
                return 1. / np.asarray(env.cal("flat", f.data.shape, zero=p["zero"]).data)
        return 1.
