"""C16: the same session in two environments (hash seed, time zone, clock, listing order, folder, restarts, retries)."""
import json
import os

import numpy as np

from .. import csvdb, envpeer, faults, lab, products
from .. import recipelab as rl
from .. import steplib as sl
from ..harness import Check, Run
from . import recipes as rc
from . import steps as st

BUILD = ["build_trad_dark", "build_trad_dark", "build_synthesized_dark", "calibrate_darks_lsq", "get_pc_mean", "get_pc_mean", "create_flatfield", "create_flatfield", "create_onsky_flatfield",
         "create_bad_pixel_map", "combine_subexposures", "combine_subexposures", "combine_subexposures", "generate_ct_cal", "create_nd_filter_cal", "calibrate_fluxcal_aper",
         "calibrate_fluxcal_gauss2d", "boresight_calibration", "sort_pupilimg_frames", "split_dataset"]
OTHER = ["prescan_biassub", "dark_subtraction", "flat_division", "correct_bad_pixels", "create_wcs", "northup", "find_star", "determine_flux", "determine_color_cor", "find_source",
         "detect_cosmic_rays", "frame_select"]
STAMPS = ("DRPCTIME", "DATE")
CWD = ["cwd", ".", "out", "raw", "home"]
TZS = ["Asia/Tokyo", "America/Los_Angeles"]


# ---------------------------------------------------------------- one session in one environment
def norm(x, root):
    """The same thing with the name of the simulated machine's root left out."""
    if isinstance(x, str):
        return x.replace(root, "$ROOT")
    if isinstance(x, dict):
        return {norm(k, root): norm(v, root) for k, v in x.items() if k != "filedir"}
    if isinstance(x, (list, tuple)):
        return [norm(v, root) for v in x]
    return x


def record(hdr):
    """The provenance list of a product."""
    n = hdr.get("DRPNFILE")
    if not isinstance(n, (int, np.integer)) or isinstance(n, bool):
        return None
    return [hdr.get("FILE%d" % i) for i in range(n)]


def outputs(v):
    if type(v).__name__ == "Dataset":
        return list(v.frames)
    if hasattr(v, "ext_hdr"):
        return [v]
    if isinstance(v, tuple) and v and isinstance(v[0], list):
        return [f for d in v[0] if type(d).__name__ == "Dataset" for f in d.frames]
    return []


class Play:
    def __init__(self, trace, env):
        self.t, self.env = trace, env
        self.e = rc.Engine(dict(trace, cfg=dict(trace["cfg"], listing=env["listing"], clock=env["clock"])))
        self.w = self.e.w

    def boot(self):
        self.e.boot()
        np.random.seed(self.env["rng"])
        with self.w.quiet():
            d = os.path.join(self.w.root, self.env["cwd"])
            os.makedirs(d, exist_ok=True)
            os.chdir(d)

    def go(self):
        out = []
        w = self.w
        with w:
            self.e.setup()
            self.boot()
            for j, op in enumerate(self.t["ops"]):
                w.clock.advance(self.env["step"])
                if j in self.env["boots"]:
                    self.boot()
                self.k = j
                plan = self.env["faults"].get(str(j))
                if plan and op["op"] == "build":
                    s, v = w.call(lambda: self.build(op), [dict(plan)])
                    self.fired = self.fired + list(w.last_fired) if hasattr(self, "fired") else list(w.last_fired)
                    if s == "crash":
                        w.after_crash()
                    self.boot()
                s, v = w.call(lambda: getattr(self, op["op"])(op))
                if s != "ok":
                    v = {"error": type(v).__name__, "text": str(v)[:200]}
                out.append(norm(v, w.root))
            disk = self.e.disk()
            pic = {"ops": out, "files": {}, "recipes": [], "hash": {}}
            for p, raw in disk.items():
                b = os.path.basename(p)
                if b.startswith(".") or ".tmp" in b or p.startswith("home"):
                    continue
                if p.endswith("_recipe.json"):
                    pic["recipes"].append((os.path.dirname(p), norm(json.loads(raw), w.root)))
                elif p.endswith(".fits"):
                    try:
                        x = [h for h in rl.parse_fits(raw)]
                        pic["files"][p] = norm([[n, [c for c in cs if c[0] not in STAMPS], d] for n, cs, d in x], w.root), norm(rl.recipe_of(raw), w.root)
                    except Exception as ex:
                        pic["files"][p] = "unreadable", str(ex)[:80]
                elif p == "db.csv":
                    pic["db"] = norm(rl.parse_db(raw), w.root)
                    for row in pic["db"].values():
                        row["Date Created"] = 0.
                else:
                    pic["files"][p] = len(raw), None
            pic["recipes"].sort(key=lambda x: json.dumps(x, sort_keys=True))
            pic["db"] = pic.get("db", {})
            run = Run()
            run.take_world(w)
            pic["io"] = dict(run.c), run.sim_time, run.log
            pic["fired"] = [str(f) for f in getattr(self, "fired", [])]
        return pic

    # ------------------------------------------------------------ operations
    def path(self, p):
        return os.path.relpath(p) if self.env["rel"] else p

    def build(self, op):
        w, data = self.w, self.e.data
        env = self.e.env
        s = sl.STEPS[op["step"]]
        folder = os.path.join(w.root, "in%d" % self.k)
        with w.quiet():
            if not os.path.isdir(folder):
                os.makedirs(folder)
                ds = sl.make_inputs(env, s, op["spec"], op["p"], op["n"])
                frames = list(ds.frames)
                for i in op["pre"]:
                    # this input is itself the combination of two exposures
                    i %= len(frames)
                    f = frames[i]
                    a, b = f.copy(), f.copy()
                    a.filename = "CGI_0200001001001001001_%04d%s.fits" % (9000 + 10 * self.k + i, {"L1": "_L1_"}.get(f.ext_hdr["DATALVL"], "_" + f.ext_hdr["DATALVL"]))
                    b.filename = f.filename
                    c = env.mod("combine").combine_subexposures(data.Dataset([a, b]), num_frames_scaling=False)[0]
                    frames[i] = c
                    if op.get("both") and op["step"] in ("combine_subexposures", "create_flatfield", "build_trad_dark"):
                        frames.append(a)
                for f in frames:
                    f.save(filedir=folder, filename=f.filename)
                self.order = [f.filename for f in frames]
                with open(os.path.join(folder, "order.json"), "w") as h:
                    json.dump(self.order, h)
            with open(os.path.join(folder, "order.json")) as h:
                names = json.load(h)
            os.makedirs(os.path.join(w.root, "out"), exist_ok=True)
        ds = data.Dataset([self.path(os.path.join(folder, n)) for n in names])
        used = [(f.filename, record(f.ext_hdr) or []) for f in ds.frames]
        t0 = w.clock.t
        call, _ = s.prepare(env, ds, op["p"])
        v = call()
        t1 = w.clock.t
        res = {"value": lab.snap(v, STAMPS, links=False), "used": used, "out": []}
        for i, f in enumerate(outputs(v)):
            cls = type(f).__name__
            o = {"class": cls, "name": f.filename, "record": record(f.ext_hdr), "hash": str(f.get_hash()), "made": None}
            if cls in products.LABELS and "DRPCTIME" in f.ext_hdr:
                from astropy.time import Time
                o["made"] = t0 - 1 <= Time(f.ext_hdr["DRPCTIME"], scale="utc").unix <= t1 + 1
            res["out"].append(o)
        if op["save"]:
            v2 = v if not isinstance(v, tuple) else None
            if type(v2).__name__ == "Dataset":
                v2.save(filedir=self.path(os.path.join(w.root, "out")), filenames=["d%d_%d.fits" % (self.k, i) for i in range(len(v2))] if op["step"] != "combine_subexposures" else None)
            elif hasattr(v2, "ext_hdr"):
                v2.save(filedir=self.path(os.path.join(w.root, "out")))
                if type(v2).__name__ in products.LABELS:
                    db = self.e.caldb.CalDB()
                    db.create_entry(v2)
                    again = getattr(data, type(v2).__name__)(self.path(os.path.join(w.root, "out", v2.filename)))
                    res["reloaded"] = str(again.get_hash())
        return res

    def recipe(self, op):
        e = self.e
        t = e.fill(op["recipe"])
        t.update(template=True, inputs=[], outputdir="")
        files = list(e.inputs[op["ds"] % len(e.inputs)])
        with self.w.quiet():
            os.makedirs(e.outdir(op["out"]), exist_ok=True)
        e.walker.walk_corgidrp(files, "", e.outdir(op["out"]), template=t)
        return {"done": True}

    def scan(self, op):
        db = self.e.caldb.CalDB()
        db.scan_dir_for_new_entries(self.path(os.path.join(self.w.root, op["dir"])))
        return {"done": True}

    def lookup(self, op):
        data = self.e.data
        files = self.e.inputs[op["ds"] % len(self.e.inputs)]
        frame = data.Image(self.path(files[0])) if files and not op["none"] else None
        c = self.e.caldb.CalDB().get_calib(frame, getattr(data, op["cls"]))
        return {"path": os.path.abspath(c.filepath), "hash": str(c.get_hash()), "name": c.filename}


def play(trace, env):
    return Play(trace, env).go()


# ---------------------------------------------------------------- comparison
def close(a, b, st_):
    """lab.same, with floating-point pixels allowed to differ in the last bits (counted)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if lab.same(a, b):
            return True
        if a.shape == b.shape and a.dtype.kind == "f" and b.dtype.kind == "f" and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True):
            st_["rounding"] = st_.get("rounding", 0) + 1
            return True
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], st_) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, st_) for x, y in zip(a, b))
    return lab.same(a, b)


ALL = {"build_trad_dark", "calibrate_darks_lsq", "create_flatfield", "create_onsky_flatfield", "generate_ct_cal", "create_nd_filter_cal"}


def expected_record(op, used, k):
    """(contract, the files output number k was made from), or None when the step has no such contract."""
    def union(part):
        s = set()
        for name, par in part:
            s.add(name)
            s.update(par)
        return s
    name, p = op["step"], op["p"]
    if name in ALL:
        return "==", union(used)
    if name == "boresight_calibration":
        return ">=", union(used)
    if name == "combine_subexposures":
        n = p["k"] or len(used)
        return "==", union(used[n * k:n * (k + 1)])
    if name == "get_pc_mean":
        n = p["bin"] or len(used)
        if p["dark"]:
            return "==", union(used[:n * (len(used) // n)])
        return "==", union(used[n * k:n * (k + 1)])
    return None


class C16(Check):
    id = "C16"
    rule = ("seeded sessions of product builders, processing steps, recipes, folder scans and look-ups, each played twice: in this interpreter and in a second one with another hash seed and time "
            "zone, another clock and clock speed, directory listing order, working folder, relative paths, restarts between operations and storage faults followed by a retry; "
            "non-trivial: at least one product was built in both")
    real = rc.REAL + ["two real interpreters with different hash seeds"]
    stub = rc.STUB
    preload = st.PRELOAD + ("corgidrp.walker",)
    seeds = {"quick": 300, "thorough": 30000}
    assumptions = ["both interpreters run on the same machine with the same libraries", "floating-point pixels may differ in the last bits between processes (relative 1e-9)"]

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2])
        data = rc.gen_data(rng, n)
        ops = []
        for j in range(rng.choice([1, 2, 2, 3])):
            u = rng.random()
            if u < .6:
                name = rng.choice(BUILD if rng.random() < .85 else OTHER)
                s = sl.STEPS[name]
                spec = st.gen_spec(rng)
                spec["nan"] = False
                spec["first"] = 20 * j
                if rng.random() < .7 or name in ("combine_subexposures",):
                    spec.pop("per", None)
                lo, hi = s.n or (1, 3)
                p = s.params(rng)
                cnt = rng.randint(lo, hi)
                if name == "get_pc_mean":
                    cnt = rng.randint(4, 9)
                if name == "combine_subexposures" and rng.random() < .5:
                    cnt = rng.choice([4, 6])
                pre = sorted(rng.sample(range(4), rng.choice([1, 2]))) if rng.random() < .4 and name not in ("sort_pupilimg_frames", "split_dataset") else []
                ops.append({"op": "build", "step": name, "p": p, "spec": spec, "n": cnt, "pre": pre, "both": rng.random() < .5, "save": rng.random() < .8})
            elif u < .85:
                k = rng.randrange(n)
                ops.append({"op": "recipe", "ds": k, "out": rng.randrange(3), "recipe": rl.gen_recipe(rng, data[k]["kind"])})
            elif u < .93:
                ops.append({"op": "scan", "dir": rng.choice(["cals", "out", "."])})
            else:
                ops.append({"op": "lookup", "ds": rng.randrange(n), "cls": rng.choice(rl.KINDS), "none": rng.random() < .2})
        cfg = rc.gen_cfg(rng)
        for c in cfg["cals"]:
            if rng.random() < .3:
                c["unregistered"] = True
        envs = []
        for q in range(2):
            envs.append({"listing": rng.randrange(1000), "clock": rng.choice([1.9e9, 1.1e9, 3.9e9]) + rng.random() * 1e7, "step": rng.choice([2., 500., 86400. * 40]), "rng": rng.randrange(10 ** 6),
                         "cwd": rng.choice(CWD), "rel": rng.random() < .5, "boots": [j for j in range(len(ops)) if rng.random() < .4],
                         "faults": {str(j): faults.gen_fault(rng, 40, ["err", "full", "crash"]) for j, o in enumerate(ops) if q == 1 and rng.random() < .25}})
        tz = rng.randrange(2)
        return {"cfg": cfg, "data": data, "ops": ops, "envs": envs, "peer": [["777", "31337"][tz], TZS[tz]]}

    def run(self, trace):
        r = Run()
        peer = envpeer.start(self.preload, *trace["peer"])
        envpeer.ask(peer, "dst.checks.environ", "play", trace, trace["envs"][1])
        try:
            a = play(trace, trace["envs"][0])
        finally:
            b = envpeer.answer(peer)
        for x in (a, b):
            c, t, log = x["io"]
            r.c.update(c)
            r.sim_time += t
            r.log.extend(log)
        r.note(trace["peer"], a["fired"], b["fired"])
        self.compare(r, trace, a, b)
        return r

    def compare(self, r, trace, a, b):
        stt = {}
        for j, op in enumerate(trace["ops"]):
            x, y = a["ops"][j], b["ops"][j]
            what = op.get("step") or op["op"]
            r.note(what, sorted(x))
            r.c["op.%s%s" % (op["op"], "" if "error" not in x else "_refused")] += 1
            r.state((what, sorted(x), [o["record"] for o in x.get("out", [])], trace["envs"][0]["cwd"], trace["envs"][1]["cwd"]))
            if ("error" in x) != ("error" in y) or x.get("error") != y.get("error"):
                return r.bad("outcome-depends", "%s: %s in one environment, %s in the other" % (what, x.get("error", "done") + " " + x.get("text", ""), y.get("error", "done") + " " + y.get("text", "")), "outcome:" + what)
            if "error" in x:
                continue
            if op["op"] == "lookup" and x != y:
                return r.bad("lookup-depends", "look-up of %s: %s / %s" % (op["cls"], x, y), "lookup")
            if op["op"] != "build":
                continue
            r.nontrivial = True
            before = stt.get("rounding", 0)
            if not close(x["value"], y["value"], stt):
                return r.bad("product-depends", "%s gives a different result in another environment: %s" % (what, lab.diff(x["value"], y["value"])), "product:" + what)
            for k, (o, q) in enumerate(zip(x["out"], y["out"])):
                if o["name"] != q["name"]:
                    return r.bad("name-depends", "%s names its product %s / %s" % (what, o["name"], q["name"]), "name:" + what)
                if o["record"] != q["record"]:
                    return r.bad("provenance-depends", "%s records %s / %s" % (what, o["record"], q["record"]), "prov-dep:" + what)
                if stt.get("rounding", 0) == before and o["hash"] != q["hash"]:
                    return r.bad("hash-depends", "%s: content hash %s / %s for the same content" % (what, o["hash"], q["hash"]), "hash:" + what)
                if (o["made"] is False) or (q["made"] is False):
                    return r.bad("stamp", "%s: creation time stamp is not the time it was made" % what, "stamp:" + what)
                if o["record"] is not None:
                    if len(set(o["record"])) != len(o["record"]) or None in o["record"]:
                        return r.bad("provenance", "%s: provenance list %s" % (what, o["record"]), "prov-dup:" + what)
                want = expected_record(op, x["used"], k)
                if want:
                    got = set(o["record"] or [])
                    if (got != want[1]) if want[0] == "==" else not (got >= want[1]):
                        return r.bad("provenance", "%s output %d: made from %s, provenance lists %s" % (what, k, sorted(want[1]), sorted(map(str, got))), "prov:" + what)
                    r.c["probe.provenance"] += 1
            if "reloaded" in x:
                r.c["probe.registered"] += 1
                if x["reloaded"] != y["reloaded"] and stt.get("rounding", 0) == before:
                    return r.bad("hash-depends", "%s: content hash of the saved product %s / %s" % (what, x["reloaded"], y["reloaded"]), "rehash:" + what)
        for p in sorted(set(a["files"]) | set(b["files"])):
            if p not in a["files"] or p not in b["files"]:
                return r.bad("files-depend", "%s exists in one environment only" % p, "files")
            if not close(a["files"][p], b["files"][p], stt):
                return r.bad("file-depends", "%s: %s" % (p, lab.diff(a["files"][p], b["files"][p])), "file")
        if not close(a["recipes"], b["recipes"], stt):
            return r.bad("recipe-depends", lab.diff(a["recipes"], b["recipes"]), "recipes")
        if stt.get("rounding"):
            r.c["probe.rounding"] += stt["rounding"]
            for d in (a["db"], b["db"]):
                for row in d.values():
                    row["Hash"] = ""
        d = csvdb.diff(a["db"], b["db"])
        if d:
            return r.bad("db-depends", d, "db")
        r.c["probe.files"] += len(a["files"])
