"""C13, C14, C15, C18: recipe runs of the walker against a reference interpreter, faults, sessions and lookups."""
import copy
import importlib
import json
import os
import shutil

import numpy as np

from .. import faults, lab, products
from .. import recipelab as rl
from .. import steplib as sl
from ..harness import REPO, Check, Run
from ..world import World
from .steps import PRELOAD, gen_spec

OUT = ["out", "out b", "o'ut"]


def gen_cfg(rng):
    cals = []
    for k, kind in enumerate(rl.KINDS):
        u = rng.random()
        n = 0 if u < .08 else rng.choice([1, 1, 2, 3])
        for j in range(n):
            c = {"kind": kind, "k": j, "v": rng.randrange(4), "mjd": 61000. + rng.randrange(-400, 400) / 7.3}
            if kind == "Dark" and rng.random() < .3:
                c["exptime"] = rng.choice([1., 60.0000001, 5.5])
            cals.append(c)
    return {"clock": 1.9e9 + rng.random() * 1e7, "cals": cals, "listing": rng.randrange(1000),
            "track": rng.random() < .3, "jit": rng.random() < .3, "missing": rng.random() < .3}


def gen_data(rng, n, kinds=None):
    out = []
    for k in range(n):
        kind = rng.choice(kinds or ["L1", "L1", "L1", "L2a", "L2a", "L2a", "L2b", "L2b", "L3", "L3", "DARKS", "LSQ", "PC", "PCDARK", "SKY", "STAR", "CT", "SORT", "NONE", "KGAIN", "NONLIN", "BORE", "SPOTS"] + ["PUMP"] * (rng.random() < .3))
        spec = gen_spec(rng)
        spec.pop("per", None)
        spec.update(full=False, nan=False, exptime=rng.choice([60., 60., 60., 1., 5.5]), emgain=rng.choice([1., 1., 1., 20.]), emgain_a=-1., mjd=61000. + rng.randrange(-300, 300) / 9.1,
                    first=10 * k)
        lo, hi = rl.DATA[kind][2] if kind != "NONE" else (0, 0)
        out.append({"kind": kind, "spec": spec, "n": rng.randint(lo, hi), "old": rng.random() < .3, "pre": rng.choice(["", "", "", "x.fits_"])})
    return out


class Engine:
    """One simulated observatory: disk, database, data sets, and processes that run recipes on them."""

    def __init__(self, trace):
        self.t = trace
        self.cfg = trace["cfg"]
        self.r = Run()
        self.w = World(listing_seed=self.cfg["listing"], clock_start=self.cfg["clock"])
        self.db = os.path.join(self.w.root, "db.csv")
        self.field = ""

    # ------------------------------------------------------------ processes
    def boot(self, **cfg):
        c = {"track": self.cfg["track"], "missing": self.cfg["missing"], "jit": self.cfg["jit"]}
        c.update(cfg)
        with self.w.quiet():
            lab.write_config(self.w, **c)
        self.data, self.caldb, self.walker = self.w.start("corgidrp.data", "corgidrp.caldb", "corgidrp.walker")
        self.top = importlib.import_module("corgidrp")
        lab.small_detector()
        self.env = sl.Env(self.w, self.data)
        np.random.seed(1)

    def setup(self):
        self.boot()
        w, data = self.w, self.data
        with w.quiet():
            for d in ["cals", "raw"] + OUT:
                os.makedirs(os.path.join(w.root, d), exist_ok=True)
            self.calfiles = {}
            db = self.caldb.CalDB()
            for c in self.cfg["cals"]:
                o = rl.make_cal(data, c["kind"], c["v"], c["mjd"], c.get("exptime", 60.), c.get("full", False))
                name = rl.cal_name(c["kind"], c["k"])
                o.save(filedir=os.path.join(w.root, "cals"), filename=name)
                self.calfiles.setdefault(c["kind"], []).append(o.filepath)
                if not c.get("unregistered"):
                    db.create_entry(o)
                w.clock.advance(10)
            self.inputs = []
            for k, d in enumerate(self.t["data"]):
                if d["kind"] == "NONE":
                    self.inputs.append([])
                    continue
                step, p, _ = rl.DATA[d["kind"]]
                ds = sl.make_inputs(self.env, sl.STEPS[step], d["spec"], dict(p), d["n"])
                out = os.path.join(w.root, "raw", "d%d" % k)
                os.makedirs(out, exist_ok=True)
                paths = []
                for j, f in enumerate(ds.frames):
                    f.ext_hdr["SCTSRT"] = products.iso(d["spec"]["mjd"] + j * 1e-3)
                    name = d.get("pre", "") + f.filename
                    if d.get("old"):        # the product of an earlier run
                        f.ext_hdr["RECIPE"] = '{"name": "earlier", "steps": []}'
                    f.save(filedir=out, filename=name)
                    paths.append(f.filepath)
                self.inputs.append(paths)
            if any(d["kind"] == "BORE" for d in self.t["data"]):
                lab_hdr = lab.frame_headers({}, "L2b")[0]
                self.field = sl.field_csv(self.env, 1, 7, float(lab_hdr["RA"]), float(lab_hdr["DEC"]))

    # ------------------------------------------------------------ disk pictures
    def disk(self):
        out = {}
        with self.w.quiet():
            for base, dirs, files in os.walk(self.w.root):
                rel = os.path.relpath(base, self.w.root)
                if rel.startswith("home"):
                    dirs[:] = []
                    continue
                for f in files:
                    p = os.path.join(base, f)
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, self.w.root)] = h.read()
        return out

    def restore(self, disk):
        with self.w.quiet():
            now = self.disk()
            for p in now:
                if p not in disk:
                    os.remove(os.path.join(self.w.root, p))
            for p, raw in disk.items():
                if now.get(p) != raw:
                    q = os.path.join(self.w.root, p)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "wb") as h:
                        h.write(raw)

    def rows(self, disk):
        return rl.parse_db(disk.get("db.csv"))

    # ------------------------------------------------------------ recipes
    def outdir(self, k):
        return os.path.join(self.w.root, OUT[k % len(OUT)])

    def calpath(self, kind, token):
        have = self.calfiles.get(kind, [])
        if not have:
            return os.path.join(self.w.root, "cals", "none.fits")
        return have[int(token[1:]) % len(have)]

    def fill(self, recipe, ds=None, out=None):
        """Turn the tokens of a generated recipe into paths."""
        r = copy.deepcopy(recipe)
        if ds is not None:
            r["inputs"] = list(self.inputs[ds % len(self.inputs)])
            r["outputdir"] = self.outdir(out)
        for s in r["steps"]:
            for c, v in s.get("calibs", {}).items():
                if isinstance(v, str) and v.startswith("@"):
                    s["calibs"][c] = self.calpath(c, v)
            if s.get("keywords", {}).get("dark_outputdir") == "@out":
                s["keywords"]["dark_outputdir"] = self.outdir(0)
            if ds is not None and str(s.get("keywords", {}).get("outputdir")).upper() == "AUTOMATIC":
                s["keywords"]["outputdir"] = r["outputdir"]
            if s.get("keywords", {}).get("field_path") == "@field":
                s["keywords"]["field_path"] = self.field
        return r

    def jit(self, recipe):
        v = recipe["drpconfig"].get("jit_calib_id")
        return self.cfg["jit"] if v is None else v

    def lookup(self, hdr):
        rows = self.rows(self.disk())

        def look(cls):
            p = rl.best(rows, cls, hdr)
            if not os.path.exists(p):
                raise FileNotFoundError(p)
            return p
        return look

    def resolve(self, recipe):
        """Reference: fill in the automatic calibrations as the generation of a recipe would."""
        if self.jit(recipe):
            return
        hdr = None
        if recipe["inputs"]:
            with self.w.quiet():
                hdr = self.header(recipe["inputs"][0])
        for s in recipe["steps"]:
            rl.resolve_step(s, self.lookup(hdr), self.cfg["missing"])

    def header(self, path):
        import astropy.io.fits as fits
        with fits.open(path) as h:
            return dict(EXPTIME=h[1].header["EXPTIME"], SCTSRT=h[1].header["SCTSRT"])

    def reference(self, recipe):
        """Execute a recipe by calling the steps directly. Returns (status, error type, names saved)."""
        data = self.data
        recipe = copy.deepcopy(recipe)
        saved = []
        keep = {k: getattr(self.top, k) for k in recipe["drpconfig"]}
        missing = recipe["drpconfig"].get("skip_missing_cal_steps", self.cfg["missing"])
        try:
            for k, v in recipe["drpconfig"].items():
                setattr(self.top, k, v)
            ds = data.Dataset(list(recipe["inputs"])) if recipe["inputs"] else []
            for f in ds:
                f.ext_hdr["RECIPE"] = json.dumps(recipe)
            for s in recipe["steps"]:
                if s.get("skip"):
                    continue
                images = list(ds) if isinstance(ds, (data.Dataset, list)) else [ds]
                if s["name"].lower() == "save":
                    if isinstance(ds, list):
                        raise AttributeError("nothing to save")
                    suffix = s.get("keywords", {}).get("suffix", "").strip("_")
                    for f in images:
                        f.ext_hdr["RECIPE"] = json.dumps(recipe)
                        name = f.filename
                        if suffix:
                            name = name[:-len(".fits")] + "_" + suffix + ".fits"
                        f.save(filedir=recipe["outputdir"], filename=name)
                        saved.append(name)
                    for f in images:
                        if type(f).__name__ in products.LABELS:
                            self.caldb.CalDB().create_entry(f)
                    continue
                args = []
                if "calibs" in s:
                    if self.jit(recipe):
                        h = images[0].ext_hdr if images else None
                        rl.resolve_step(s, self.lookup(h and dict(EXPTIME=h["EXPTIME"], SCTSRT=h["SCTSRT"])), missing)
                        for f in images:
                            f.ext_hdr["RECIPE"] = json.dumps(recipe)
                        if s.get("skip"):
                            continue
                    for c, v in s["calibs"].items():
                        args.append(None if v is None else getattr(data, rl.CAL_CLASS.get(c, c))(v))
                mod, fn = rl.STEP_FN[s["name"]]
                ds = getattr(importlib.import_module("corgidrp." + mod), fn)(ds, *args, **s.get("keywords", {}))
            return "ok", None, saved
        except rl.Ambiguous:
            raise
        except Exception as e:
            return "error", e, saved
        finally:
            for k, v in keep.items():
                setattr(self.top, k, v)

    # ------------------------------------------------------------ comparison
    def compare(self, what, base, want, got, submitted=None, saved=(), json_extra=False):
        """Two disks after the same run. Reports the first difference."""
        r = self.r
        wj = {p for p in want if p.endswith("_recipe.json")}
        gj = {p for p in got if p.endswith("_recipe.json")}
        for p in sorted(set(want) | set(got)):
            if p == "db.csv" or p in wj or p in gj or os.path.basename(p).startswith(".") or ".tmp" in p:
                continue
            if p not in got:
                return r.bad("output-missing", "%s: %s was not written" % (what, p), "missing")
            if p not in want:
                return r.bad("output-extra", "%s: %s should not exist" % (what, p), "extra")
            if not p.startswith(tuple(OUT)):
                if want[p] != got[p] and p != "cwd/r.json":
                    return r.bad("input-file-changed", "%s: %s changed" % (what, p), "input-file")
                continue
            if p.endswith(".fits"):
                d = rl.diff_fits(want[p], got[p])
                if d:
                    return r.bad("output-differs", "%s: %s: %s" % (what, p, d), "recipe-card" if d.startswith("RECIPE") else "differs")
        d = rl.diff_db(self.rows(want), self.rows(got))
        if d:
            return r.bad("db-differs", "%s: %s" % (what, d), "db")
        if submitted is not None:
            new = sorted(p for p in gj if p not in base)
            if len(new) != 1:
                return r.bad("recipe-file", "%s: %d recipe files written" % (what, len(new)), "recipe-file")
            if os.path.dirname(new[0]) != os.path.relpath(submitted["outputdir"], self.w.root):
                return r.bad("recipe-file", "%s: recipe file %s is not in the output folder" % (what, new[0]), "recipe-file")
            try:
                j = json.loads(got[new[0]].decode())
            except ValueError as e:
                return r.bad("recipe-file", "%s: recipe file is not readable: %s" % (what, e), "recipe-file")
            if j != submitted:
                return r.bad("recipe-file", "%s: recipe file: %s" % (what, lab.diff(submitted, j)), "recipe-file")
            for n in saved:
                p = os.path.join(os.path.relpath(submitted["outputdir"], self.w.root), n)
                if p in got and rl.recipe_of(got[p]) is None:
                    return r.bad("recipe-not-recorded", "%s: %s carries no RECIPE" % (what, n), "recipe-card")


def submit(e, op, recipe):
    """How the user hands over a recipe."""
    if op["how"] == "file":
        p = os.path.join(e.w.root, "cwd", "r.json")
        with e.w.quiet():
            with open(p, "w") as f:
                json.dump(recipe, f)
        return p
    return copy.deepcopy(recipe)


BASIC_RULE = "seeded recipes (steps, order, keywords, skips, saves, settings, calibration choices) and shipped templates on seeded data sets and databases"
REAL = ["corgidrp.walker", "corgidrp.caldb", "corgidrp.data", "all step functions a recipe names"]
STUB = ["file-system calls", "clock", "standard-star archive download", "detector geometry scaled to 20x30 pixels"]


class Base(Check):
    real = REAL
    stub = STUB
    preload = PRELOAD + ("corgidrp.walker",)

    def simpler(self, op):
        out = super().simpler(op)
        rec = op.get("recipe")
        if rec:
            for i in range(len(rec["steps"])):
                if len(rec["steps"]) > 1:
                    q = copy.deepcopy(op)
                    del q["recipe"]["steps"][i]
                    out.append(q)
            for k in list(rec["drpconfig"]):
                q = copy.deepcopy(op)
                del q["recipe"]["drpconfig"][k]
                out.append(q)
            for i, s in enumerate(rec["steps"]):
                if "keywords" in s:
                    q = copy.deepcopy(op)
                    del q["recipe"]["steps"][i]["keywords"]
                    out.append(q)
        return out


# ---------------------------------------------------------------- C13
class C13(Base):
    id = "C13"
    rule = BASIC_RULE + ", each run by the walker and by the reference interpreter in separate processes on the same disk, and the recorded recipe run again; non-trivial: at least one recipe completed and wrote a product"
    seeds = {"quick": 300, "thorough": 40000}

    def gen(self, rng, i, tier):
        n = rng.choice([1, 1, 2])
        data = gen_data(rng, n)
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(n)
            kind = data[k]["kind"]
            op = {"op": "run", "ds": k, "out": rng.randrange(3), "how": rng.choice(["dict", "dict", "file", "walk"]), "resolve": rng.random() < .9,
                  "rerun": rng.choice([None, "header", "file", "file"])}
            t = rl.TEMPLATES[kind]
            if t and rng.random() < .3:
                op["template"] = rng.choice(t)
                op["how"] = "walk"
            else:
                op["recipe"] = rl.gen_recipe(rng, kind)
            ops.append(op)
        return {"cfg": gen_cfg(rng), "data": data, "ops": ops}

    def run(self, trace):
        e = Engine(trace)
        r = e.r
        with e.w:
            e.setup()
            for op in trace["ops"]:
                try:
                    self.one(e, r, op)
                except rl.Ambiguous:
                    r.c["probe.tie"] += 1
                    break
                if r.violations:
                    break
            r.nontrivial = r.c["probe.completed"] > 0
            r.take_world(e.w)
        return r

    def one(self, e, r, op):
        w = e.w
        if op.get("template"):
            with w.quiet():
                raw = json.load(open(os.path.join(REPO, "corgidrp", "recipe_templates", op["template"])))
            tmpl = raw
        else:
            tmpl = copy.deepcopy(op["recipe"])
        walk = op["how"] == "walk"
        if walk:
            tmpl["template"] = True
            tmpl["inputs"], tmpl["outputdir"] = [], ""
        # the recipe this should be
        recipe = e.fill(tmpl, op["ds"], op["out"])
        recipe["template"] = False
        gen = "ok"
        e.boot()
        if walk or op["resolve"]:
            try:
                with w.quiet():
                    e.resolve(recipe)
            except (rl.Missing, FileNotFoundError) as ex:
                gen = "error"
        base = e.disk()
        st, err, saved = "error", None, []
        if gen == "ok":
            e.boot()
            st, v = w.call(lambda: e.reference(recipe))
            if isinstance(v, rl.Ambiguous):
                raise v
            st, err, saved = v
        elif not walk:
            return
        want = e.disk()
        e.restore(base)
        w.clock.advance(500.)
        e.boot()
        if walk:
            t2 = e.fill(tmpl)
            arg = copy.deepcopy(t2)
            files = list(e.inputs[op["ds"] % len(e.inputs)])
            st2, v2 = w.call(lambda: e.walker.walk_corgidrp(files, "", e.outdir(op["out"]), template=arg))
        else:
            arg = submit(e, op, recipe)
            if op["how"] == "file":
                base["cwd/r.json"] = want["cwd/r.json"] = e.disk()["cwd/r.json"]
            st2, v2 = w.call(lambda: e.walker.run_recipe(arg))
        got = e.disk()
        what = "%s of %s" % (op["how"], "+".join(s["name"] for s in recipe["steps"]))
        r.note(what, st, st2, type(err).__name__, sorted(saved))
        r.c["op.run_" + op["how"]] += 1
        r.state((trace_kind(e, op), [s["name"] for s in recipe["steps"]], st, op["how"]))
        if st != st2:
            return r.bad("run-outcome", "%s: %s, called directly: %s" % (what, show(st2, v2), show(st, err)), "outcome")
        if st == "error" and gen == "ok" and type(err).__name__ != type(v2).__name__ and not isinstance(err, rl.Missing):
            r.c["probe.other_error"] += 1
        e.compare(what, base, want, got, recipe if gen == "ok" else None, saved)
        if r.violations:
            return
        for p in got:
            if p.startswith("home") or p.startswith("cwd"):
                if p not in base:
                    return r.bad("output-extra", "%s: wrote %s" % (what, p), "extra")
        if st == "ok":
            r.c["probe.completed"] += 1
            r.c["probe.files"] += len(saved)
            r.c["probe.registered"] += len(e.rows(got)) - len(e.rows(base))
        if st == "ok" and op["rerun"] and saved and not dangling(e, recipe):
            # run what was recorded, in a new process, on the disk as it was
            if op["rerun"] == "file":
                new = [p for p in got if p.endswith("_recipe.json") and p not in base]
                rec = json.loads(got[new[0]].decode())
            else:
                out = os.path.relpath(recipe["outputdir"], w.root)
                # the last file written holds the recipe as it was then
                rec = rl.recipe_of(got[os.path.join(out, saved[-1])])
            e.restore(base)
            w.clock.advance(5000.)
            e.boot()
            st3, v3 = w.call(lambda: e.walker.run_recipe(copy.deepcopy(rec)))
            r.c["probe.rerun"] += 1
            if st3 != "ok":
                return r.bad("rerun-fails", "%s: running the recorded recipe (%s): %s" % (what, op["rerun"], show(st3, v3)), "rerun")
            after = e.disk()
            if op["rerun"] == "header":
                drop_recipe(want)
                drop_recipe(after)
                e.compare("rerun of recorded " + what, base, want, after)
            else:
                e.compare("rerun of recorded " + what, base, got, after)


def drop_recipe(disk):
    """Recipes recorded at different moments of a run differ in what was still open."""
    import io

    import astropy.io.fits as fits
    for p in list(disk):
        if p.startswith(tuple(OUT)) and p.endswith(".fits"):
            with fits.open(io.BytesIO(disk[p]), memmap=False) as h:
                for x in h:
                    x.header.remove("RECIPE", ignore_missing=True)
                b = io.BytesIO()
                h.writeto(b, output_verify="silentfix")
                disk[p] = b.getvalue()


def dangling(e, recipe):
    return False


def trace_kind(e, op):
    return e.t["data"][op["ds"] % len(e.t["data"])]["kind"]


def show(st, v):
    return "%s: %s" % (type(v).__name__, str(v)[:200]) if isinstance(v, BaseException) else st


# ---------------------------------------------------------------- C14
def produced(recipe):
    """Classes a recipe may register itself."""
    names = {s["name"] for s in recipe["steps"]}
    out = set()
    for step, cls in (("build_trad_dark", "Dark"), ("get_pc_mean", "Dark"), ("calibrate_darks", "DetectorNoiseMaps"), ("create_onsky_flatfield", "FlatField"),
                      ("create_bad_pixel_map", "BadPixelMap"), ("calibrate_fluxcal_aper", "FluxcalFactor"), ("generate_ct_cal", "CoreThroughputCalibration"),
                      ("calibrate_kgain", "KGain"), ("calibrate_nonlin", "NonLinearityCalibration"), ("calibrate_trap_pump", "TrapCalibration"),
                      ("boresight_calibration", "AstrometricCalibration")):
        if step in names:
            out.add(cls)
    return out


class C14(Base):
    id = "C14"
    rule = BASIC_RULE + ", each run interrupted up to three times at seeded points (process death with torn or unsynced writes, I/O errors, full disk, failed allocations, a missing calibration file) and then rerun; non-trivial: at least one fault fired and one rerun completed"
    seeds = {"quick": 320, "thorough": 40000}

    def gen(self, rng, i, tier):
        n = rng.choice([1, 1, 2])
        data = gen_data(rng, n)
        ops = []
        for _ in range(rng.choice([1, 2])):
            k = rng.randrange(n)
            fl = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                u = rng.random()
                if u < .12:
                    fl.append({"alloc": rng.random()})
                elif u < .2:
                    fl.append({"gone": rng.random()})
                else:
                    f = faults.gen_fault(rng, 100, ["crash", "crash", "crash", "error", "full", "stat"])
                    f.pop("at")
                    f["pos"] = rng.random() if rng.random() < .5 else .5 + .5 * rng.random()
                    fl.append({"io": f})
            ops.append({"op": "run", "ds": k, "out": rng.randrange(3), "how": rng.choice(["dict", "file", "walk"]), "faults": fl, "same": rng.random() < .5,
                        "recipe": rl.gen_recipe(rng, data[k]["kind"])})
        cfg = gen_cfg(rng)
        return {"cfg": cfg, "data": data, "ops": ops}

    def simpler(self, op):
        out = super().simpler(op)
        if len(op["faults"]) > 1:
            for i in range(len(op["faults"])):
                out.append(dict(op, faults=op["faults"][:i] + op["faults"][i + 1:]))
        return out

    def run(self, trace):
        e = Engine(trace)
        r = e.r
        with e.w:
            e.setup()
            for op in trace["ops"]:
                self.one(e, r, op)
                if r.violations:
                    break
            r.nontrivial = r.c["probe.fired"] > 0 and r.c["probe.rerun_ok"] > 0
            r.take_world(e.w)
        return r

    def start(self, e, op, recipe, tmpl):
        """The call that runs the recipe, in the current process."""
        if op["how"] == "walk":
            files = list(e.inputs[op["ds"] % len(e.inputs)])
            t = e.fill(tmpl)
            t["inputs"] = []
            return lambda: e.walker.walk_corgidrp(files, "", e.outdir(op["out"]), template=copy.deepcopy(t))
        arg = submit(e, op, recipe)
        return lambda: e.walker.run_recipe(arg)

    def one(self, e, r, op):
        w = e.w
        tmpl = copy.deepcopy(op["recipe"])
        recipe = e.fill(tmpl, op["ds"], op["out"])
        e.boot()
        # with calibrations picked while running, what an interrupted run registered may become the best match:
        # such recipes are not the same recipe the second time
        own = produced(recipe)
        for s in recipe["steps"] + tmpl["steps"]:
            for c, v in s.get("calibs", {}).items():
                if c in own and rl.is_auto(v):
                    s["calibs"][c] = e.calpath(c, "@0")
        if op["how"] != "walk":
            try:
                with w.quiet():
                    e.resolve(recipe)
            except (rl.Missing, rl.Ambiguous, FileNotFoundError):
                return
        base = e.disk()
        e.boot()
        self.versions = {}
        w.fs.observer = lambda: self.watch(e)
        st, v = w.call(self.start(e, op, recipe, tmpl))
        w.fs.observer = None
        events = max(1, w.last_events)
        want = e.disk()
        what = "%s of %s" % (op["how"], "+".join(s["name"] for s in recipe["steps"]))
        r.note(what, st, events)
        r.c["op.run_" + st] += 1
        if st != "ok":
            return
        e.restore(base)
        fresh = True
        for f in op["faults"]:
            if fresh or not op["same"]:
                e.boot()
            w.clock.advance(300.)
            fired = self.fault(e, r, op, recipe, tmpl, f, events)
            if fired is None:
                return
            st2, v2 = fired
            r.state((trace_kind(e, op), sorted(f)[0], st2, len(e.disk())))
            fresh = st2 == "crash"
            if st2 == "crash":
                w.after_crash()
            self.damage(e, r, base, want, "%s after %s" % (what, self.desc(f, st2, v2)))
            if r.violations:
                return
        if fresh or not op["same"]:
            e.boot()
        w.clock.advance(3000.)
        st3, v3 = w.call(self.start(e, op, recipe, tmpl))
        if st3 != "ok":
            return r.bad("rerun-fails", "%s: rerun after faults: %s" % (what, show(st3, v3)), "rerun-fails")
        r.c["probe.rerun_ok"] += 1
        e.compare("rerun after faults of " + what, base, want, e.disk())

    @staticmethod
    def desc(f, st, v):
        return "%s -> %s" % (json.dumps(f, sort_keys=True)[:120], show(st, v)[:120])

    def fault(self, e, r, op, recipe, tmpl, f, events):
        w = e.w
        call = self.start(e, op, recipe, tmpl)
        if "io" in f:
            g = dict(f["io"], at=int(f["io"]["pos"] ** 2 * 60 if f["io"]["kind"] == "stat" else f["io"]["pos"] * events))
            st, v = w.call(call, [g])
            if w.last_fired:
                r.c["probe.fired"] += 1
            if w.last_fired and st == "ok" and g["kind"] != "crash":
                r.c["probe.tolerated"] += 1
            return st, v
        if "alloc" in f:
            af = lab.AllocFault(int(f["alloc"] * 400), REPO)
            with af:
                st, v = w.call(call)
            if af.fired:
                r.c["fault.alloc"] += 1
                r.c["probe.fired"] += 1
            return st, v
        # a calibration file is out of reach for a while
        with w.quiet():
            names = sorted(os.listdir(os.path.join(w.root, "cals")))
            if not names:
                return w.call(call)
            p = os.path.join(w.root, "cals", names[int(f["gone"] * len(names))])
            os.rename(p, p + ".away")
        st, v = w.call(call)
        with w.quiet():
            os.rename(p + ".away", p)
        r.c["fault.calibration_away"] += 1
        if st != "ok":
            r.c["probe.fired"] += 1
        return st, v

    def watch(self, e):
        """Every complete version a product goes through in the run without faults."""
        for d in OUT:
            base = os.path.join(e.w.root, d)
            for n in os.listdir(base):
                if n.endswith(".fits") and not n.startswith("."):
                    p = os.path.join(base, n)
                    st = os.stat(p)
                    v = self.versions.setdefault(os.path.join(d, n), {})
                    key = (st.st_ino, st.st_size, st.st_mtime_ns)
                    if key not in v:
                        with open(p, "rb") as f:
                            raw = f.read()
                        if rl.complete(raw):
                            v[key] = raw

    def damage(self, e, r, base, want, what):
        now = e.disk()
        for p in sorted(base):
            if p == "db.csv":
                continue
            if p not in now:
                return r.bad("file-lost", "%s: %s is gone" % (what, p), "file-lost")
            if not p.startswith(tuple(OUT) + ("cwd",)) and now[p] != base[p]:
                return r.bad("input-file-changed", "%s: %s changed" % (what, p), "input-file")
        for p in sorted(now):
            if not p.endswith(".fits") or not p.startswith(tuple(OUT)) or base.get(p) == now[p]:
                continue
            if os.path.basename(p).startswith(".") or ".tmp" in p:
                continue
            if not rl.complete(now[p]):
                return r.bad("torn-product", "%s: %s is not a complete file" % (what, p), "torn-product")
            if p not in want:
                return r.bad("output-extra", "%s: %s should not exist" % (what, p), "extra")
            d = rl.diff_fits(want[p], now[p], recipe=False)
            if d and not any(rl.diff_fits(x, now[p], recipe=False) is None for x in self.versions.get(p, {}).values()):
                return r.bad("output-differs", "%s: %s: %s" % (what, p, d), "differs")
        try:
            rows = e.rows(now)
        except Exception as x:
            return r.bad("db-damaged", "%s: %s" % (what, x), "db-damaged")
        old, new = e.rows(base), e.rows(want)
        for k, row in old.items():
            if k not in rows:
                return r.bad("db-lost", "%s: row for %s is gone" % (what, os.path.basename(k)), "db-lost")
        for k, row in rows.items():
            if not any(x.get(k) is not None and rl.diff_db({k: x[k]}, {k: row}) is None for x in (old, new)):
                return r.bad("db-row", "%s: row for %s is neither the old nor the new one" % (what, os.path.basename(k)), "db-row")
            p = os.path.relpath(k, e.w.root)
            if not p.startswith("home") and not (p in now and rl.complete(now[p])):
                return r.bad("db-dangling", "%s: %s is registered but not complete on disk" % (what, p), "db-dangling")


# ---------------------------------------------------------------- C15
class C15(Base):
    id = "C15"
    rule = BASIC_RULE + ", generated and run one after the other in one session (with failures, conflicting settings and shared templates); every run and every generated recipe is compared with the same one alone in a new process on the disk as it was; non-trivial: at least two runs in one session compared"
    seeds = {"quick": 260, "thorough": 40000}

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2, 3])
        data = gen_data(rng, n)
        ops = []
        tmpls = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            k = rng.randrange(n)
            op = {"ds": k, "out": rng.randrange(3), "how": "dict"}
            u = rng.random()
            if u < .45:
                op.update(op="run", recipe=rl.gen_recipe(rng, data[k]["kind"]), resolve=rng.random() < .7, fail=rng.random() if rng.random() < .2 else None)
                op["how"] = rng.choice(["dict", "file"])
            elif u < .9:
                if not tmpls or rng.random() < .5:
                    tmpls.append(rl.gen_recipe(rng, data[k]["kind"]))
                op.update(op="walk" if rng.random() < .6 else "generate", template=rng.randrange(len(tmpls)), mode=rng.choice(["shared", "shared", "file"]))
            else:
                op.update(op="reregister", cal=rng.randrange(100))
            ops.append(op)
            if "recipe" in op or "template" in op:
                kinds = sorted({rl.CAL_CLASS.get(c, c) for s in op.get("recipe", tmpls[op.get("template", 0)] if tmpls else {"steps": []})["steps"] for c, v in s.get("calibs", {}).items() if v is not None})
                if kinds and rng.random() < .3:
                    # products of one kind are made again under the same names, and the work is repeated
                    ops.append({"op": "remake", "kind": rng.choice(kinds), "dv": rng.choice([1, 2, 3]), "ds": 0, "out": 0, "how": "dict"})
                    ops.append(dict(copy.deepcopy(op), fail=None) if op["op"] == "run" else copy.deepcopy(op))
        return {"cfg": gen_cfg(rng), "data": data, "ops": ops, "templates": tmpls}

    def run(self, trace):
        e = Engine(trace)
        r = e.r
        with e.w:
            e.setup()
            done = []
            tm = []
            with e.w.quiet():
                for k, t in enumerate(trace.get("templates", [])):
                    t = e.fill(t)
                    t["template"] = True
                    tm.append(t)
                    with open(os.path.join(e.w.root, "cwd", "t%d.json" % k), "w") as f:
                        json.dump(t, f)
            given = copy.deepcopy(tm)
            e.boot()
            for j, op in enumerate(trace["ops"]):
                before = e.disk()
                t0 = e.w.clock.t
                st, v, rec = self.do(e, r, op, given)
                after = e.disk()
                r.note(op["op"], st if st != "error" else type(v).__name__)
                r.c["op." + op["op"]] += 1
                r.c["op." + st] += 1
                if given != tm:
                    k = [a == b for a, b in zip(given, tm)].index(False)
                    r.bad("template-changed", "%s number %d changed the template it was given: %s" % (op["op"], j, lab.diff(tm[k], given[k])), "template")
                    break
                done.append((op, before, after, st, v, rec, t0))
                if op["op"] not in ("reregister", "remake"):
                    for k in ("track_individual_errors", "skip_missing_cal_steps", "jit_calib_id"):
                        want = {"track_individual_errors": e.cfg["track"], "skip_missing_cal_steps": e.cfg["missing"], "jit_calib_id": e.cfg["jit"]}[k]
                        if getattr(e.top, k) != want:
                            r.c["probe.setting_left"] += 1
            if not r.violations:
                for j, (op, before, after, st, v, rec, t0) in enumerate(done):
                    if op["op"] in ("reregister", "remake") or (op.get("fail") is not None):
                        continue
                    e.restore(before)
                    e.w.clock.t = t0 + 7777.
                    e.boot()
                    st2, v2, rec2 = self.do(e, r, op, copy.deepcopy(tm), alone=True)
                    r.c["probe.compared"] += 1
                    what = "%s number %d of the session" % (op["op"], j)
                    if st != st2:
                        r.bad("session-outcome", "%s: %s; alone: %s" % (what, show(st, v), show(st2, v2)), "session-outcome")
                    elif rec != rec2:
                        r.bad("session-recipe", "%s: recipe differs from the one generated alone: %s" % (what, lab.diff(rec2, rec)), "session-recipe")
                    else:
                        e.compare(what, before, e.disk(), after)
                    if r.violations:
                        break
                    r.state((j, op["op"], st, [x[0]["op"] for x in done[:j]]))
            r.nontrivial = r.c["probe.compared"] >= 2
            r.take_world(e.w)
        return r

    def do(self, e, r, op, tmpls, alone=False):
        """One operation of the user in the current process. Returns status, value, recipe."""
        w = e.w
        np.random.seed(3)
        if op["op"] == "reregister":
            have = sorted(p for v in e.calfiles.values() for p in v)
            if not have:
                return "ok", None, None
            p = have[op["cal"] % len(have)]
            st, v = w.call(lambda: e.caldb.CalDB().create_entry(importlib.import_module("corgidrp.data").autoload(p)))
            return st, None, None
        if op["op"] == "remake":
            with w.quiet():
                db = e.caldb.CalDB()
                for c in e.cfg["cals"]:
                    if c["kind"] == op["kind"]:
                        o = rl.make_cal(e.data, c["kind"], c["v"] + op["dv"], c["mjd"], c.get("exptime", 60.), c.get("full", False))
                        o.save(filedir=os.path.join(w.root, "cals"), filename=rl.cal_name(c["kind"], c["k"]))
                        if not c.get("unregistered"):
                            db.create_entry(o)
            return "ok", None, None
        if op["op"] == "run":
            recipe = e.fill(op["recipe"], op["ds"], op["out"])
            if op["resolve"]:
                try:
                    with w.quiet():
                        e.resolve(recipe)
                except (rl.Missing, rl.Ambiguous, FileNotFoundError):
                    pass
            arg = submit(e, op, recipe)
            fn = lambda: e.walker.run_recipe(arg)
            if op.get("fail") is not None and not alone:
                af = lab.AllocFault(int(op["fail"] * 300), REPO)
                with af:
                    st, v = w.call(fn)
                if af.fired:
                    r.c["fault.alloc"] += 1
                return st, v, None
            st, v = w.call(fn)
            return st, v, None
        files = list(e.inputs[op["ds"] % len(e.inputs)])
        k = op["template"] % len(tmpls)
        t = tmpls[k]
        if op["mode"] == "file":
            path = os.path.join(w.root, "cwd", "t%d.json" % k)
            if op["op"] == "walk":
                t = path
            else:
                with w.quiet():
                    t = json.load(open(path))
        if op["op"] == "walk":
            st, v = w.call(lambda: e.walker.walk_corgidrp(files, "", e.outdir(op["out"]), template=t))
        else:
            st, v = w.call(lambda: e.walker.autogen_recipe(files, e.outdir(op["out"]), template=t))
        return st, v, (copy.deepcopy(v) if st == "ok" else None)


# ---------------------------------------------------------------- C18
class C18(Base):
    id = "C18"
    rule = BASIC_RULE + ": recipes are generated, the database changes (registrations, removals, deleted files), and then they run; settings for just-in-time resolution and skipping come from the configuration or the recipe; generated recipes and runs are compared with a reference resolution over the raw database file; non-trivial: at least two calibrations resolved and one run compared"
    seeds = {"quick": 300, "thorough": 40000}

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2])
        data = gen_data(rng, n, ["L1", "L1", "L2a", "L2a", "L2b", "L3", "DARKS", "DARKS", "DARKS", "LSQ", "PC", "PCDARK", "SKY", "STAR", "CT", "NONE", "SPOTS"])
        cfg = gen_cfg(rng)
        cfg["jit"] = rng.random() < .5
        for c in cfg["cals"]:
            if rng.random() < .15:
                c["unregistered"] = True
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            u = rng.random()
            k = rng.randrange(n)
            if u < .6:
                rec = rl.gen_recipe(rng, data[k]["kind"])
                if rng.random() < .35:
                    rec = self.two_part(rng, data[k]["kind"]) or rec
                    if rec["steps"][0]["name"] == "dark_subtraction" and rec["name"] == "two":
                        self.old_darks(rng, cfg, data[k]["spec"])
                op = {"op": "go", "ds": k, "out": rng.randrange(3), "recipe": rec, "mode": rng.choice(["generate", "generate+run", "generate+change+run", "generate+change+run"]),
                      "change": self.change(rng)}
                t = rl.TEMPLATES[data[k]["kind"]]
                if t and rng.random() < .2:
                    op["shipped"] = rng.choice(t)
            else:
                op = dict(self.change(rng), op="change")
            ops.append(op)
        return {"cfg": cfg, "data": data, "ops": ops}

    def two_part(self, rng, kind):
        """Recipes that produce a calibration and use one of that kind later in the same run."""
        if kind in ("L2a", "SKY"):
            steps = [rl._s("create_onsky_flatfield", kw={"planet": "neptune", "band": "1F", "up_radius": 10, "im_size": 60, "planet_rad": 5, "n_pix": 14, "n_pad": 0}),
                     {"name": "save"}] if kind == "SKY" else []
            steps += [rl._s("create_bad_pixel_map", {"Dark": "AUTOMATIC", "FlatField": "AUTOMATIC"}, {"dthresh": 3.}), {"name": "save"}]
        elif kind == "DARKS":
            steps = [rl._s("build_trad_dark", {"DetectorParams": rl.A(rng)}), {"name": "save"},
                     rl._s("create_bad_pixel_map", {"Dark": "AUTOMATIC", "FlatField": "AUTOMATIC"}, {"dthresh": 3.}), {"name": "save"}]
            if rng.random() < .7:
                steps.insert(0, rl._s("dark_subtraction", {"Dark": "AUTOMATIC"}))
        elif kind == "PCDARK":
            steps = [rl._s("get_pc_mean", kw={"inputmode": "darks", "T_factor": 5, "bin_size": None}), {"name": "save"},
                     rl._s("create_bad_pixel_map", {"Dark": "AUTOMATIC", "FlatField": "AUTOMATIC"}, {"dthresh": 3.}), {"name": "save"}]
        else:
            return None
        return {"name": "two", "template": False, "drpconfig": {"jit_calib_id": True} if rng.random() < .7 else {}, "inputs": [], "outputdir": "", "steps": steps}

    @staticmethod
    def old_darks(rng, cfg, spec):
        """Earlier darks that can be subtracted from the frames a new one is made from, and a flat."""
        spec["emgain"] = 1.
        cfg["jit"] = True
        cfg["cals"] = [c for c in cfg["cals"] if c["kind"] != "Dark"] + [
            {"kind": "Dark", "k": j, "v": rng.randrange(4), "mjd": 61000. + rng.randrange(-400, 400) / 7.3, "exptime": spec["exptime"], "full": True} for j in range(2)]
        for c in cfg["cals"]:
            if c["kind"] == "FlatField":
                c.pop("unregistered", None)

    @staticmethod
    def change(rng):
        return {"what": rng.choice(["register", "register", "remove", "remove", "touch", "delete"]), "kind": rng.choice(rl.KINDS), "k": rng.randrange(6),
                "mjd": 61000. + rng.randrange(-400, 400) / 7.7, "v": rng.randrange(4), "exptime": rng.choice([60., 60., 1., 5.5])}

    def apply(self, e, r, ch):
        """Change the database through the public interface, in its own process."""
        w = e.w
        e.boot()
        kind = ch["kind"]
        have = e.calfiles.setdefault(kind, [])
        r.c["op.change_" + ch["what"]] += 1
        with w.quiet():
            db = e.caldb.CalDB()
            if ch["what"] == "register" or not have:
                o = rl.make_cal(e.data, kind, ch["v"], ch["mjd"], ch["exptime"])
                o.save(filedir=os.path.join(w.root, "cals"), filename="x_" + rl.cal_name(kind, ch["k"]))
                db.create_entry(o)
                if o.filepath not in have:
                    have.append(o.filepath)
                return
            p = have[ch["k"] % len(have)]
            if ch["what"] == "delete":
                if os.path.exists(p):
                    os.remove(p)
                have.remove(p)
                return
            o = getattr(e.data, kind)(p)
            if ch["what"] == "remove":
                try:
                    db.remove_entry(o)
                except ValueError:
                    pass
            else:
                o.ext_hdr["SCTSRT"] = products.iso(ch["mjd"])
                o.save()
                db.create_entry(o)

    def run(self, trace):
        e = Engine(trace)
        r = e.r
        with e.w:
            e.setup()
            for op in trace["ops"]:
                if op["op"] == "change":
                    self.apply(e, r, op)
                else:
                    try:
                        self.one(e, r, op)
                    except rl.Ambiguous:
                        r.c["probe.tie"] += 1
                        break
                if r.violations:
                    break
            r.nontrivial = r.c["probe.resolved"] >= 2 and r.c["probe.runs"] >= 1
            r.take_world(e.w)
        return r

    def one(self, e, r, op):
        w = e.w
        if op.get("shipped"):
            with w.quiet():
                tmpl = json.load(open(os.path.join(REPO, "corgidrp", "recipe_templates", op["shipped"])))
        else:
            tmpl = copy.deepcopy(op["recipe"])
            tmpl["template"] = True
        want = e.fill(tmpl, op["ds"], op["out"])
        want["template"] = False
        e.boot()
        gen, why = "ok", None
        open_before = sum(rl.is_auto(v) for s in want["steps"] for v in s.get("calibs", {}).values())
        try:
            with w.quiet():
                e.resolve(want)
        except (rl.Missing, FileNotFoundError) as ex:
            gen, why = "error", ex
        e.boot()
        files = list(e.inputs[op["ds"] % len(e.inputs)])
        t = e.fill(tmpl)
        before = e.disk()
        st, v = w.call(lambda: e.walker.autogen_recipe(files, e.outdir(op["out"]), template=t))
        what = "generating %s" % "+".join(s["name"] for s in want["steps"])
        r.note(what, gen, st)
        r.c["op.generate"] += 1
        r.c["probe.jit" if e.jit(want) else "probe.resolved"] += open_before
        r.state((trace_kind(e, op), gen, e.jit(want), e.cfg["missing"], [s.get("skip", False) for s in want["steps"]]))
        if st != gen:
            return r.bad("resolution-outcome", "%s: %s, expected %s" % (what, show(st, v), show(gen, why)), "gen-outcome")
        if e.disk() != before:
            return r.bad("generation-writes", "%s changed the disk" % what, "gen-writes")
        if st == "error":
            if isinstance(why, rl.Missing) and not isinstance(v, ValueError):
                r.bad("resolution-error", "%s: %s for a missing calibration" % (what, show(st, v)), "gen-error")
            return
        if v != want:
            return r.bad("resolution", "%s: %s (expected -> got)" % (what, lab.diff(want, v)), "resolution")
        if op["mode"] == "generate":
            return
        recipe = copy.deepcopy(v)
        if "change" in op["mode"]:
            self.apply(e, r, op["change"])
        # the run: reference and walker, in their own processes
        e.boot()
        base = e.disk()
        rst, v = w.call(lambda: e.reference(recipe))
        if isinstance(v, rl.Ambiguous):
            raise v
        st1, err, saved = v
        after = e.disk()
        e.restore(base)
        w.clock.advance(900.)
        e.boot()
        arg = copy.deepcopy(recipe)
        st2, v2 = w.call(lambda: e.walker.run_recipe(arg))
        got = e.disk()
        what = "running %s" % "+".join(s["name"] for s in want["steps"])
        r.note(what, st1, st2)
        r.c["probe.runs"] += 1
        if e.jit(recipe):
            r.c["probe.resolved"] += open_before
        if st1 != st2:
            return r.bad("run-outcome", "%s: %s, reference: %s" % (what, show(st2, v2), show(st1, err)), "run-outcome")
        if isinstance(err, rl.Missing) and not isinstance(v2, ValueError):
            return r.bad("resolution-error", "%s: %s for a missing calibration" % (what, show(st2, v2)), "run-error")
        e.compare(what, base, after, got, recipe, saved)
