"""C07 (configuration) and C08 (default calibrations): start-ups killed or failing at any storage call."""
import configparser
import csv
import os

from .. import csvdb, products
from ..faults import gen_fault
from ..harness import Check, Run
from ..world import World

DEFAULTS = {"DetectorParams": "DetectorParams_2023-11-01T00:00:00.000.fits", "FpamFsamCal": "FpamFsamCal_2024-02-10T00:00:00.000.fits"}


class Engine:
    def __init__(self, trace, pid):
        self.t, self.pid, self.r = trace, pid, Run()
        self.w = World(listing_seed=trace["cfg"]["listing"], clock_start=trace["cfg"]["clock"], home=trace["cfg"].get("home", "home"))
        self.folder = os.path.join(self.w.home, ".corgidrp")
        self.cfgfile = os.path.join(self.folder, "corgidrp.cfg")
        self.want = {"caldb": os.path.join(self.folder, "corgidrp_caldb.csv"), "default_calibs": os.path.join(self.folder, "default_calibs"),
                     "track": False, "skip": False, "jit": False}
        self.edited = None          # exact bytes of a configuration the user wrote
        self.rows = {}              # db path -> {filepath: row} the user registered
        self.files = {}             # user's product files -> bytes
        self.booted = False
        self.legacy_pending = False
        self.defaults_at = set()

    def bad(self, kind, msg):
        self.r.bad(kind, msg)

    def write(self, path, txt):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(txt)

    def user_config(self, s):
        """A configuration file as the user left it; returns the settings it calls for."""
        db = os.path.join(self.w.root, s["db"]) if s["db"] else self.want["caldb"]
        dc = os.path.join(self.w.root, s["dc"]) if s["dc"] else self.want["default_calibs"]
        os.makedirs(os.path.dirname(db), exist_ok=True)
        os.makedirs(dc, exist_ok=True)
        lines = ["# my settings", "[PATH]", "caldb = %s" % db.replace("%", "%%"), "default_calibs = %s" % dc.replace("%", "%%")]
        w = dict(self.want, caldb=db, default_calibs=dc)
        if not s["old"]:
            lines += ["[DATA]", "track_individual_errors = %s" % s["track"], "[WALKER]", "skip_missing_cal_steps = %s" % s["skip"],
                      "jit_calib_id = %s" % s["jit"]]
            w.update(track=s["track"].lower() == "true", skip=s["skip"].lower() == "true", jit=s["jit"].lower() == "true")
        else:
            w.update(track=False, skip=False, jit=False)
        txt = "\n".join(lines) + "\n"
        self.write(self.cfgfile, txt)
        self.edited = txt.encode()
        self.want = w

    def setup(self):
        c = self.t["cfg"]
        kind = c["start"]
        with self.w.quiet():
            if kind == "legacy":
                db = os.path.join(self.w.root, c.get("olddb", "my dbs/legacy.csv"))
                os.makedirs(os.path.dirname(db))
                self.want["caldb"] = db
                self.write(self.folder, "[PATH]\ncaldb = %s\n" % db.replace("%", "%%"))
                self.legacy_pending = True
            elif kind == "folder":
                os.makedirs(self.folder)
            elif kind == "config":
                os.makedirs(self.folder)
                self.user_config(c["edit"])
            elif kind == "olddb":
                os.makedirs(self.folder)
        self.kind = kind

    # ---------------------------------------------------------- operations
    def op_boot(self, op):
        w, r = self.w, self.r
        mods = ["corgidrp.caldb", "corgidrp.data"] if op["full"] else ["corgidrp"]
        st, v = w.call(lambda: w.start(*mods), op.get("fault"))
        fired = list(w.last_fired)
        r.c["op.boot_full" if op["full"] else "op.boot_config"] += 1
        r.note("boot", op["full"], st, w.last_events)
        if st == "crash":
            r.c["probe.crash_in_startup"] += 1
            w.after_crash()
            self.check_user("after a killed start-up")
            return
        if st == "error":
            if not fired:
                return self.bad("startup-fails", "start-up without any fault raised %r" % (v,))
            r.c["probe.error_in_startup"] += 1
            self.check_user("after a failed start-up")
            return
        if fired:
            r.c["probe.fault_absorbed"] += 1
        self.booted = True
        import corgidrp
        got = {"caldb": corgidrp.caldb_filepath, "default_calibs": corgidrp.default_cal_dir, "track": corgidrp.track_individual_errors,
               "skip": corgidrp.skip_missing_cal_steps, "jit": corgidrp.jit_calib_id}
        if self.pid == "C07":
            for k, x in self.want.items():
                if got[k] != x:
                    return self.bad("settings-wrong", "a completed start-up uses %s = %r, expected %r" % (k, got[k], x))
            with w.quiet():
                if not os.path.isfile(self.cfgfile):
                    return self.bad("no-config", "a completed start-up left no configuration file")
                raw = open(self.cfgfile, "rb").read()
                cp = configparser.ConfigParser()
                try:
                    cp.read_string(raw.decode())
                except Exception as e:
                    return self.bad("bad-config", "configuration unreadable: %r" % (e,))
                if self.edited is None:
                    for sec, key in (("PATH", "caldb"), ("PATH", "default_calibs"), ("DATA", "track_individual_errors"),
                                     ("WALKER", "skip_missing_cal_steps"), ("WALKER", "jit_calib_id")):
                        if not cp.has_option(sec, key):
                            return self.bad("incomplete-config", "configuration lacks %s/%s" % (sec, key))
                if not os.path.isdir(self.want["default_calibs"]):
                    return self.bad("no-default-folder", "the default calibration folder does not exist")
        self.check_user("after a start-up")
        if r.violations:
            return
        if self.pid == "C08" and op["full"]:
            self.check_defaults("after a start-up")

    def check_user(self, where):
        """What the user had must be there, untouched."""
        with self.w.quiet():
            if self.edited is not None:
                if not os.path.exists(self.cfgfile) or open(self.cfgfile, "rb").read() != self.edited:
                    if self.pid == "C07":
                        return self.bad("user-config-changed", "%s: the user's configuration was changed" % where)
            if self.pid != "C08":
                return
            for p, b in self.files.items():
                if not os.path.exists(p):
                    return self.bad("user-file-lost", "%s: %s vanished" % (where, os.path.basename(p)))
                if open(p, "rb").read() != b:
                    return self.bad("user-file-changed", "%s: %s changed" % (where, os.path.basename(p)))
            for db, rows in self.rows.items():
                try:
                    got = csvdb.read(db)
                except csvdb.BadDB as e:
                    return self.bad("db-unreadable", "%s: %s" % (where, e))
                if got is None:
                    return self.bad("db-lost", "%s: the database vanished" % where)
                for p, row in rows.items():
                    if p not in got:
                        return self.bad("user-row-lost", "%s: the entry of %s vanished" % (where, os.path.basename(p)))
                    c = csvdb.same_row(got[p], row)
                    if c:
                        return self.bad("user-row-changed", "%s: %s of the entry of %s is %r, was %r" % (where, c, os.path.basename(p), got[p][c], row[c]))

    def check_defaults(self, where):
        import corgidrp.data as data
        import corgidrp.caldb as caldb
        w = self.w
        db = self.want["caldb"]
        with w.quiet():
            try:
                got = csvdb.read(db)
            except csvdb.BadDB as e:
                return self.bad("db-unreadable", "%s: %s" % (where, e))
            if got is None:
                return self.bad("no-db", "%s: there is no database" % where)
            for cls, name in DEFAULTS.items():
                p = os.path.join(self.want["default_calibs"], name)
                if not os.path.exists(p):
                    return self.bad("default-missing", "%s: default %s does not exist" % (where, cls))
                try:
                    o = getattr(data, cls)(p)
                    if cls == "DetectorParams" and p not in self.files:
                        vals = dict(o.params)
                        if vals != o.default_values:
                            return self.bad("default-wrong", "%s: default detector parameters are %r" % (where, vals))
                except Exception as e:
                    return self.bad("default-unreadable", "%s: default %s: %r" % (where, cls, e))
                if p not in got:
                    return self.bad("default-unregistered", "%s: default %s is not in the database" % (where, cls))
                if got[p]["Type"] != cls:
                    return self.bad("default-mistyped", "%s: default %s is registered as %s" % (where, cls, got[p]["Type"]))
        for cls in DEFAULTS:
            st, v = w.call(lambda: caldb.CalDB().get_calib(None, getattr(data, cls)))
            if st != "ok" or type(v).__name__ != cls:
                return self.bad("default-lookup", "%s: looking up %s: %r" % (where, cls, v))

    def op_edit(self, op):
        if not self.booted or self.legacy_pending and not self.booted:
            return
        with self.w.quiet():
            self.user_config(op["edit"])
        self.r.c["op.edit"] += 1

    def op_product(self, op):
        """The user saves and registers a product of their own."""
        if not self.booted:
            return
        w = self.w
        st, v = w.call(lambda: w.start("corgidrp.caldb", "corgidrp.data"))
        if st != "ok":
            return self.bad("startup-fails", "start-up without any fault raised %r" % (v,))
        caldb, data = v
        where = [os.path.join(w.root, "mine"), self.want["default_calibs"]][op["place"] % 2]
        name = "user%d_%s.fits" % (op["slot"], op["cls"])
        if op["place"] == 2 and op["cls"] in DEFAULTS:
            name = DEFAULTS[op["cls"]]      # a copy of their own
        with w.quiet():
            os.makedirs(where, exist_ok=True)
        p = products.make(data, op["cls"], op["spec"], filename=name, filedir=where)

        def fn():
            p.save()
            caldb.CalDB().create_entry(p)
        st, v = w.call(fn)
        if st != "ok":
            return self.bad("register-fails", "registering a %s: %r" % (op["cls"], v))
        row = products.expected_row(p, op["cls"], os.getcwd())
        self.rows.setdefault(self.want["caldb"], {})[row["Filepath"]] = row
        with w.quiet():
            self.files[row["Filepath"]] = open(row["Filepath"], "rb").read()
        for db in self.rows:        # other databases listing the same path now hold an older registration
            if db != self.want["caldb"]:
                self.rows[db].pop(row["Filepath"], None)
        self.r.c["op.product"] += 1

    def op_delete(self, op):
        """The user deletes a default product or the whole database."""
        if not self.booted:
            return
        with self.w.quiet():
            if op["what"] == 2:
                if os.path.exists(self.want["caldb"]):
                    os.remove(self.want["caldb"])
                self.rows.pop(self.want["caldb"], None)
            else:
                p = os.path.join(self.want["default_calibs"], sorted(DEFAULTS.values())[op["what"]])
                if os.path.exists(p):
                    os.remove(p)
        self.r.c["op.delete"] += 1

    def op_away(self, op):
        """A disk holding one of the user's products is unmounted, or comes back; its registration is still theirs."""
        if not self.booted:
            return
        with self.w.quiet():
            away = sorted(getattr(self, "away", {}))
            if away and op["pick"] % 2:
                p = away[op["pick"] % len(away)]
                self.write(p, "")
                with open(p, "wb") as f:
                    f.write(self.away.pop(p))
                self.files[p] = open(p, "rb").read()
                self.r.c["op.remount"] += 1
                return
            mine = sorted(p for p in self.files if not any(p.endswith("_%s.fits" % c) or os.path.basename(p) == DEFAULTS[c] for c in DEFAULTS))
            if mine:
                p = mine[op["pick"] % len(mine)]
                self.away = getattr(self, "away", {})
                self.away[p] = self.files.pop(p)
                os.remove(p)
                self.r.c["op.unmount"] += 1

    def op_foreign(self, op):
        """The user goes on with a database of their own, in which the defaults are not listed."""
        if not self.booted:
            return
        with self.w.quiet():
            old = self.want["caldb"]
            if not os.path.exists(old):
                return
            with open(old, newline="") as f:
                table = list(csv.reader(f))
            table = table[:1] + [x for x in table[1:] if x[0] in self.rows.get(old, {})]
            self.user_config(op["edit"])
            db = self.want["caldb"]
            if db == old:
                return
            with open(db, "w", newline="") as f:
                csv.writer(f).writerows(table)
            self.rows[db] = dict(self.rows.get(old, {}))
        self.r.c["op.foreign"] += 1

    def op_clock(self, op):
        self.w.clock.advance(op["dt"])

    def run(self):
        with self.w:
            self.setup()
            ops = list(self.t["ops"]) + [{"op": "boot", "full": True}]
            for op in ops:
                getattr(self, "op_" + op["op"])(op)
                if self.r.violations:
                    break
                with self.w.quiet():
                    self.r.state(sorted(os.path.relpath(os.path.join(d, f), self.w.root) for d, _, fs in os.walk(self.w.root) for f in fs))
            self.r.nontrivial = self.r.c["probe.crash_in_startup"] + self.r.c["probe.error_in_startup"] > 0
            self.r.take_world(self.w)
        return self.r


class _Base(Check):
    real = ["corgidrp start-up (import of corgidrp and corgidrp.caldb)", "corgidrp.caldb.initialize", "corgidrp.atomic", "configparser", "astropy.io.fits", "pandas"]
    stub = ["file-system calls (interposed, real scratch files below)", "home directory", "clock", "process death (module purge and re-import)"]
    assumptions = ["a rename is atomic; file data not yet synced may be lost at power failure", "start-ups are sequential"]
    rule = "seeded sequences of start-ups killed or failing at any storage call, from empty, legacy, partial and edited homes, with user edits, products and deletions in between; non-trivial: at least one start-up was interrupted"
    seeds = {"quick": 900, "thorough": 40000}
    mix = (8, 1.2, 1, 1, 0.5, 0, .4)

    def edit(self, rng):
        return {"db": rng.choice(["", "", "elsewhere/my db.csv", "elsewhere/b.csv", "Else $HOME/100%.csv"]), "dc": rng.choice(["", "", "", "calibs dir", "Cals %x"]),
                "old": rng.random() < 0.2, "track": rng.choice(["True", "False", "TRUE", "true"]), "skip": rng.choice(["True", "False", "true"]),
                "jit": rng.choice(["True", "False", "false"])}

    def gen(self, rng, i, tier):
        n = rng.choice([2, 4, 7, 12])
        ops = []
        for _ in range(n):
            k = rng.choices(["boot", "edit", "product", "delete", "clock", "away", "foreign"], self.mix)[0]
            op = {"op": k}
            if k == "boot":
                op["full"] = rng.random() < 0.8
                if rng.random() < 0.75:
                    op["fault"] = [gen_fault(rng, rng.choice([6, 6, 14, 24, 40]), ("crash", "crash", "crash", "full", "error", "stat"))]
            elif k in ("edit", "foreign"):
                op["edit"] = self.edit(rng)
            elif k == "product":
                op.update(cls=rng.choice(products.CLASSES), spec={"pix": rng.randrange(30), "n": 3, "mjd": 61000.0 + rng.randrange(9)},
                          slot=rng.randrange(3), place=rng.randrange(3))
                if op["place"] == 2 and rng.random() < .6:
                    op["cls"] = rng.choice(sorted(DEFAULTS))
            elif k == "delete":
                op["what"] = rng.randrange(3)
            elif k == "away":
                op["pick"] = rng.randrange(6)
            else:
                op["dt"] = rng.choice([5.0, 86400.0, -3600.0])
            ops.append(op)
        return {"cfg": {"listing": rng.randrange(1 << 30), "clock": 1.9e9 + rng.randrange(10 ** 7),
                        "home": rng.choice(["home", "home", "My Home", "100% é #1;x"]), "olddb": rng.choice(["my dbs/legacy.csv", "My DBs/Legacy $HOME.csv", "5%/l.csv"]), "start": rng.choice(["none", "none", "legacy", "legacy", "folder", "config"]), "edit": self.edit(rng)}, "ops": ops}

    def run(self, trace):
        return Engine(trace, self.id).run()


class C07(_Base):
    id = "C07"


class C08(_Base):
    id = "C08"
    mix = (8, 0.8, 2.4, 1.4, 0.5, 1.2, .8)
