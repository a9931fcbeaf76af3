"""C01-C04: the calibration database against a reference map, under histories, restarts and faults."""
import os

from .. import csvdb, products
from ..faults import gen_fault
from ..harness import Check, Run
from ..world import World

NSLOT = 10
DIRS = ["cals", "cals/sub one", "cals/b,c/.old/x.fits", "other"]
# rough number of storage events per operation
EST = {"reg": 8, "remove": 8, "save": 6, "scan": 40, "open": 6, "lookup": 4}


def slot_place(s):
    """Slots share a few directories and awkward but legal names."""
    names = ["a.fits", "b.fits", "A.fits", "a b.fits", "x,y.fits", "q\",z.fits", "_dark_L1_.fits", "k.fits", "é.fits", ".a_CAL.fits"]
    # (slots 0 and 1, 3 and 4, 6 and 7 share a file name in different folders)
    return DIRS[s % 3], names[(s - (s % 3 == 1)) % len(names)]


def gen_spec(rng):
    return {"mjd": rng.choice([61000.0, 61000.5, 61001.0, 61003.25, 61010.0, 60000.0, 62000.125]) + rng.choice([0, 0, 1e-4, 0.01, 3e-6]),
            "exptime": rng.choice([1.0, 60.0, 60.0, 100.0, 100.0000001, 0.1]), "obsnum": rng.choice([0, 7, 12345]),
            "opmode": rng.choice(["NONE", "EXCAM,IMG", "0", "a b"]), "emgain": rng.choice([1.0, 1000.123, 5000.0]),
            "ver": rng.choice([None, None, None, "1.1.2", "2.1"]), "excamt": rng.choice([40.0, -105.25]), "pix": rng.randrange(1, 40), "nparents": rng.randrange(1, 4), "n": rng.choice([3, 4, 6])}


class Engine:
    def __init__(self, trace, pid):
        self.t = trace
        self.pid = pid
        self.r = Run()
        self.w = World(listing_seed=trace["cfg"]["listing"], clock_start=trace["cfg"]["clock"])
        self.disk = {}          # db index -> model dict or None (file absent)
        self.handles = []       # dicts: obj, db, view (model) or None when unknown
        self.files = {}         # abs path -> (cls, row as of last save) for files present on disk
        self.dead_end = False

    # ------------------------------------------------------------ plumbing
    def dbpath(self, k):
        return [os.path.join(self.w.root, "db0.csv"), os.path.join(self.w.root, "dbs", "my,db.csv"),
                self.default_db][k % 3 if self.t["cfg"]["dbs"] > 2 else k % self.t["cfg"]["dbs"]]

    def boot(self):
        self.caldb, self.data = self.w.start("corgidrp.caldb", "corgidrp.data")
        import corgidrp
        self.corgidrp = corgidrp
        self.default_db = corgidrp.caldb_filepath
        self.handles = []

    def read_db(self, k):
        with self.w.quiet():
            return csvdb.read(self.dbpath(k))

    def nd(self, k):
        n = self.t["cfg"]["dbs"]
        return k % n

    def bad(self, kind, msg, sig=None):
        self.r.bad(kind, msg, sig)
        self.dead_end = True

    def setup(self):
        w = self.w
        for d in DIRS + ["dbs", "empty"]:
            os.makedirs(os.path.join(w.root, d), exist_ok=True)
        self.boot()
        for k in range(self.t["cfg"]["dbs"]):
            self.disk[k] = self.read_db(k)
        w.fs.n = 0

    def handle(self, i):
        if not self.handles:
            self.op_open({"db": i})
        if not self.handles:
            return None
        return self.handles[i % len(self.handles)]

    def product(self, s, cls, spec):
        d, name = slot_place(s)
        path = os.path.join(self.w.root, d)
        if spec.get("rel"):
            path = os.path.relpath(path, os.getcwd())
        return products.make(self.data, cls, spec, filename=name, filedir=path)

    # ------------------------------------------------------------ the oracle
    def check_disk(self, where):
        for k in range(self.t["cfg"]["dbs"]):
            try:
                got = self.read_db(k)
            except csvdb.BadDB as e:
                return self.bad("db-unreadable", "%s: %s" % (where, e))
            want = self.disk[k]
            if (got is None) != (want is None):
                return self.bad("db-existence", "%s: database file %s" % (where, "missing" if got is None else "appeared"))
            if want is None:
                continue
            d = csvdb.diff(got, want)
            if d:
                return self.bad("db-content", "%s: %s" % (where, d))

    def check_view(self, h, where):
        if h is None or h["view"] is None:
            return
        try:
            got = csvdb.from_frame(h["obj"]._db) if hasattr(h["obj"], "_db") else None
        except csvdb.BadDB as e:
            return self.bad("view-content", "%s: %s" % (where, e))
        if got is None:
            return
        d = csvdb.diff(got, h["view"])
        if d:
            self.bad("view-content", "%s: in-memory table: %s" % (where, d))

    def mutate(self, op, h, k, fn, after, allowed, retry, view_after=None, to_disk=True, noop_error=None):
        """Run fn as one operation on database k.

        after: model content of the database when fn succeeds
        allowed(got): is `got` an acceptable content when the operation was interrupted?
        noop_error: exception class expected (fn must refuse)"""
        w, r = self.w, self.r
        name = op["op"]
        before = self.disk[k]
        plan = op.get("fault")
        torn = []
        if plan:
            path = self.dbpath(k)

            def observer():
                try:
                    got = csvdb.read(path)
                except csvdb.BadDB as e:
                    torn.append(str(e))
                    return
                if not (self.ok_state(got, before, after, allowed)):
                    torn.append("neither the old nor the new content")
            w.fs.observer = observer
        st, v = w.call(fn, plan)
        w.fs.observer = None
        r.c["op." + name] += 1
        fired = w.last_fired
        r.note(name, "->", st, "events", w.last_events, type(v).__name__ if st == "error" else "")
        if torn and self.pid == "C03":
            return self.bad("partial-visible", "%s: a concurrent reader saw %s" % (name, torn[0]))
        if st == "crash":
            r.c["probe.crash_during_" + name] += 1
            if fired and fired[0].get("when") == "torn":
                r.c["probe.torn_write_crash"] += 1
            w.after_crash()
            try:
                got = self.read_db(k)
            except csvdb.BadDB as e:
                return self.bad("crash-corrupts-db", "%s interrupted by process death: %s" % (name, e))
            if not self.ok_state(got, before, after, allowed):
                return self.bad("crash-loses-entries", "%s interrupted by process death: %s" % (
                    name, "database file vanished" if got is None else csvdb.diff(got, before or {})))
            self.disk[k] = got
            r.c["probe.crash_state_%s" % ("new" if got is not None and not csvdb.diff(got, after or {}) else "old")] += 1
            st2, v2 = w.call(self.boot)
            if st2 != "ok":
                return self.bad("restart-fails", "start-up after a crash in %s: %r" % (name, v2))
            if got is not None:
                st3, v3 = w.call(lambda: self.caldb.CalDB(self.dbpath(k)))
                if st3 != "ok":
                    return self.bad("reopen-fails", "opening the database after a crash in %s: %r" % (name, v3))
                d = csvdb.diff(csvdb.from_frame(v3._db), got) if hasattr(v3, "_db") else None
                if d:
                    return self.bad("reopen-content", "after a crash in %s: %s" % (name, d))
            return None
        if st == "error":
            if fired:
                r.c["probe.error_during_" + name] += 1
                try:
                    got = self.read_db(k)
                except csvdb.BadDB as e:
                    return self.bad("error-corrupts-db", "%s failed with %r and left: %s" % (name, v, e))
                if not self.ok_state(got, before, after, allowed):
                    return self.bad("error-loses-entries", "%s failed with %r: %s" % (
                        name, v, "database file vanished" if got is None else csvdb.diff(got, before or {})))
                self.disk[k] = got
                # the fault is gone: the same operation gives the fault-free result
                st2, v2 = w.call(retry)
                if st2 == "error" and noop_error is not None and isinstance(v2, noop_error):
                    pass
                elif st2 == "error" and name == "remove" and isinstance(v2, ValueError):
                    pass        # the first attempt had already taken effect
                elif st2 != "ok":
                    return self.bad("retry-fails", "%s repeated after the fault cleared: %r" % (name, v2))
                if noop_error is None:
                    self.disk[k] = after
                if h is not None:
                    h["view"] = view_after if st2 == "ok" else None
                return None
            if noop_error is not None and isinstance(v, noop_error):
                if h is not None:
                    h["view"] = view_after
                return None
            return self.bad("unexpected-error", "%s raised %r" % (name, v))
        if noop_error is not None:
            return self.bad("not-refused", "%s of an unregistered file was not refused" % name)
        self.disk[k] = after
        if h is not None:
            h["view"] = view_after
        if fired:
            r.c["probe.fault_absorbed"] += 1

    @staticmethod
    def ok_state(got, before, after, allowed):
        if got is None:
            return before is None
        for s in (before, after):
            if s is not None and csvdb.diff(got, s) is None:
                return True
        if before is None and not got:
            return True
        return bool(allowed and allowed(got))

    # ------------------------------------------------------------ operations
    def op_open(self, op):
        k = self.nd(op["db"])
        created = {}

        def fn():
            created["h"] = self.caldb.CalDB() if self.dbpath(k) == self.default_db else self.caldb.CalDB(self.dbpath(k))
        before = self.disk[k]
        after = {} if before is None else before
        slot = {"obj": None, "db": k, "view": None}
        self.mutate(dict(op, op="open"), slot, k, fn, after, None, fn, view_after=dict(after))
        if created.get("h") is not None and not self.dead_end and not self.w.fs.dead and slot["view"] is not None:
            slot["obj"] = created["h"]
            if len(self.handles) < 3:
                self.handles.append(slot)
            else:
                self.handles[op.get("h", 0) % 3] = slot

    def save_product(self, p, cls, s):
        d, name = slot_place(s)
        st, v = self.w.call(lambda: p.save())
        if st != "ok":
            self.bad("unexpected-error", "saving a %s: %r" % (cls, v), "save:" + cls)
            return False
        path = os.path.join(self.w.root, d, name)
        self.files[path] = (cls, None)
        return True

    def op_reg(self, op):
        h = self.handle(op["h"])
        if h is None or self.dead_end:
            return
        k = h["db"]
        cls = op["cls"]
        p = self.product(op["slot"], cls, op["spec"])
        if op.get("write", True) and not self.save_product(p, cls, op["slot"]):
            return
        row = products.expected_row(p, cls, os.getcwd())
        self.files[row["Filepath"]] = (cls, row)
        td = op.get("to_disk", True)
        base = self.disk[k] if td else h["view"]
        if base is None:
            if td and self.disk[k] is None:
                return          # database file deleted under us: not part of this property
            if not td:
                return
        new = dict(base)
        if row["Filepath"] in new:
            self.r.c["probe.re_register"] += 1
        new[row["Filepath"]] = row
        if td and h["view"] is not None and csvdb.diff(h["view"], self.disk[k]):
            self.r.c["probe.stale_handle_write"] += 1

        def fn():
            if td:
                h["obj"].create_entry(p)
            else:
                h["obj"].create_entry(p, to_disk=False)
        self.mutate(op, h, k, fn, new if td else self.disk[k], None, fn, view_after=new)

    def op_remove(self, op):
        h = self.handle(op["h"])
        if h is None or self.dead_end or h["view"] is None:
            return
        k = h["db"]
        td = op.get("to_disk", True)
        base = self.disk[k] if td else h["view"]
        paths = sorted(p for p in base if p.startswith(self.w.root) and os.path.dirname(p) != os.path.join(self.w.home, ".corgidrp", "default_calibs"))
        if op["known"] and paths:
            path = paths[op["slot"] % len(paths)]
            cls = {v: c for c, v in products.LABELS.items()}[base[path]["Type"]]
            p = products.make(self.data, cls, op["spec"], filename=os.path.basename(path), filedir=os.path.dirname(path))
            new = dict(base)
            del new[path]

            def fn():
                h["obj"].remove_entry(p) if td else h["obj"].remove_entry(p, to_disk=False)
            self.mutate(op, h, k, fn, new if td else self.disk[k], None, fn, view_after=new)
        else:
            p = products.make(self.data, op["cls"], op["spec"], filename="never_registered.fits",
                              filedir=os.path.join(self.w.root, "other"))
            self.r.c["probe.remove_unregistered"] += 1

            def fn():
                h["obj"].remove_entry(p) if td else h["obj"].remove_entry(p, to_disk=False)
            self.mutate(op, h, k, fn, self.disk[k], None, fn, view_after=dict(base), noop_error=ValueError)

    def op_load(self, op):
        h = self.handle(op["h"])
        if h is None or self.dead_end or self.disk[h["db"]] is None:
            return
        if h["view"] is not None and csvdb.diff(h["view"], self.disk[h["db"]]):
            self.r.c["probe.load_discards"] += 1
        self.mutate(op, h, h["db"], h["obj"].load, self.disk[h["db"]], None, h["obj"].load, view_after=dict(self.disk[h["db"]]))

    def op_save(self, op):
        h = self.handle(op["h"])
        if h is None or self.dead_end or h["view"] is None:
            return
        self.mutate(op, h, h["db"], h["obj"].save, dict(h["view"]), None, h["obj"].save, view_after=h["view"])

    def op_restart(self, op):
        self.r.c["op.restart"] += 1
        st, v = self.w.call(self.boot)
        self.r.note("restart", st)
        if st != "ok":
            self.bad("restart-fails", "start-up: %r" % (v,))

    def op_clock(self, op):
        self.w.clock.advance(op["dt"])
        self.r.c["op.clock"] += 1
        if op["dt"] < 0:
            self.r.c["probe.clock_backwards"] += 1

    def op_chdir(self, op):
        os.chdir(os.path.join(self.w.root, DIRS[op["d"] % len(DIRS)]))
        self.r.c["op.chdir"] += 1

    def op_lose(self, op):
        """A product's file disappears; its entry stays."""
        paths = sorted(p for p in self.files if os.path.exists(p))
        if not paths:
            return
        path = paths[op["slot"] % len(paths)]
        with self.w.quiet():
            os.remove(path)
        del self.files[path]
        self.r.c["op.lose"] += 1
        self.r.note("lose", os.path.basename(path))

    def op_put(self, op):
        """A product or other file appears on disk without being registered."""
        kind = op["kind"]
        d, name = slot_place(op["slot"])
        base = os.path.join(self.w.root, d)
        if kind == "cal":
            p = self.product(op["slot"], op["cls"], op["spec"])
            if not self.save_product(p, op["cls"], op["slot"]):
                return
            row = products.expected_row(p, op["cls"], os.getcwd())
            self.files[row["Filepath"]] = (op["cls"], row)
        elif kind == "sci":
            p = products.frame(self.data, op["spec"], name="sci%d.fits" % op["slot"], filedir=base)
            st, v = self.w.call(lambda: p.save())
            if st != "ok":
                return self.bad("unexpected-error", "saving a frame: %r" % (v,))
        else:
            with self.w.quiet():
                fn = {"txt": "notes%d.txt", "csv": "t%d.csv", "tmp": "p%d.fits.tmp", "up": "x%d.FITS.bak"}[kind] % op["slot"]
                with open(os.path.join(base, fn), "w") as f:
                    f.write("not a product\n")
        self.r.c["op.put_" + kind] += 1
        self.r.note("put", kind, d)

    def op_scan(self, op):
        h = self.handle(op["h"])
        if h is None or self.dead_end:
            return
        k = h["db"]
        if self.disk[k] is None or h["view"] is None:
            return
        td = op.get("to_disk", True)
        sub = op.get("sub", True)
        d = op["dir"]
        folder = os.path.join(self.w.root, d) if d != "default" else os.path.dirname(self.default_db) + "/default_calibs"
        given = os.path.relpath(folder, os.getcwd()) if op.get("rel") else folder
        found = {}
        with self.w.quiet():
            for path in sorted(self.files):
                inside = path.startswith(folder + os.sep) if sub else os.path.dirname(path) == folder
                if inside and os.path.exists(path):
                    cls, row = self.files[path]
                    p = getattr(self.data, cls)(path)
                    found[path] = products.expected_row(p, cls, os.getcwd())
        if d == "default":
            found = {p: row for p, row in (self.disk[k] or {}).items() if os.path.dirname(p) == folder}
        base = self.disk[k] if td else h["view"]
        new = dict(base)
        new.update(found)
        before = self.disk[k]
        if len(found) >= 3:
            self.r.c["probe.scan_many"] += 1
        if any(p in base for p in found):
            self.r.c["probe.scan_already_registered"] += 1
        if d == "default" and k != 2:
            return

        def allowed(got):
            for p in set(got) | set(before):
                opts = [x for x in (before.get(p), new.get(p)) if x is not None]
                if p in before and p not in got:
                    return False
                if p in got and not any(csvdb.same_row(got[p], o) is None for o in opts):
                    return False
            return True

        def fn():
            kw = {}
            if not sub:
                kw["look_in_subfolders"] = False
            if not td:
                kw["to_disk"] = False
            h["obj"].scan_dir_for_new_entries(given, **kw)
        self.mutate(op, h, k, fn, new if td else self.disk[k], allowed, fn, view_after=new if (td or True) else None)
        if td and not self.dead_end and h["view"] is not None and not found:
            # a scan that registers nothing need not refresh the handle
            h["view"] = None
            st, v = self.w.call(h["obj"].load)
            if st == "ok" and self.disk[k] is not None:
                h["view"] = dict(self.disk[k])

    def op_lookup(self, op):
        h = self.handle(op["h"])
        if h is None or self.dead_end or h["view"] is None or self.disk[h["db"]] is None:
            return
        k = h["db"]
        td = op.get("to_disk", True)
        base = self.disk[k] if td else h["view"]
        cls = op["cls"]
        klass = getattr(self.data, cls)
        if op.get("none"):
            fr = None
        else:
            fr = products.frame(self.data, op["spec"], filedir=self.w.root)
        got = {}

        def fn():
            if td:
                got["v"] = h["obj"].get_calib(fr, klass)
            else:
                got["v"] = h["obj"].get_calib(fr, klass, to_disk=False)
        if cls == "Image":
            cand = {}
        else:
            cand = {p: row for p, row in base.items() if row["Type"] == products.LABELS[cls]}
        if fr is not None and cls == "Dark":
            cand = {p: row for p, row in cand.items() if row["EXPTIME"] == float(op["spec"]["exptime"])}
        if td and h["view"] is not None and csvdb.diff(h["view"], self.disk[k]):
            self.r.c["probe.lookup_via_stale_handle"] += 1
        with self.w.quiet():
            missing = [p for p in cand if not os.path.exists(p)]
        st, v = self.w.call(fn, op.get("fault"))
        self.r.c["op.lookup"] += 1
        self.r.note("lookup", cls, st, len(cand))
        if td:
            h["view"] = dict(self.disk[k])
            if st != "ok":      # a refused lookup need not have refreshed the handle
                self.w.call(h["obj"].load)
        if self.pid != "C02":
            if st == "ok" and td:
                return
            if not td:
                return
            h["view"] = None
            st2, _ = self.w.call(h["obj"].load)
            if st2 == "ok":
                h["view"] = dict(self.disk[k])
            return
        if not cand:
            self.r.c["probe.lookup_no_candidate"] += 1
            if st == "ok":
                return self.bad("lookup-not-refused", "looking up %s with no qualifying product returned %s" % (
                    cls, os.path.basename(str(getattr(v or got.get("v"), "filepath", "?")))))
            if not isinstance(v, ValueError):
                return self.bad("lookup-wrong-error", "looking up %s with no qualifying product raised %r" % (cls, v))
            return
        if fr is None:
            key = {p: -row["Date Created"] for p, row in cand.items()}
            tol = 1e-8
        else:
            from astropy.time import Time
            m = Time(fr.ext_hdr["SCTSRT"]).mjd
            key = {p: abs(row["MJD"] - m) for p, row in cand.items()}
            tol = 1e-9
        best = min(key.values())
        ok = {p for p, x in key.items() if x <= best + tol}
        self.r.c["probe.lookup_%s" % ("many" if len(cand) > 2 else "few")] += 1
        if len(ok) > 1:
            self.r.c["probe.lookup_tie"] += 1
        if st != "ok":
            if set(missing) & ok:
                return
            if any(self.files[p][0] != cls for p in ok if p in self.files):
                self.r.c["probe.lookup_file_replaced"] += 1     # another class was saved over the registered path
                return
            return self.bad("lookup-error", "looking up %s raised %r although %d products qualify" % (cls, v, len(cand)))
        o = got["v"]
        if type(o).__name__ != cls:
            return self.bad("lookup-type", "asked for %s, got %s" % (cls, type(o).__name__))
        path = os.path.abspath(o.filepath)
        if path not in cand:
            return self.bad("lookup-unqualified", "looking up %s returned %s, which does not qualify" % (cls, os.path.basename(path)))
        if path not in ok:
            return self.bad("lookup-not-best", "looking up %s (%s) returned a worse match by %.6f days" % (
                cls, "latest" if fr is None else "frame", key[path] - best))

    # ------------------------------------------------------------ main loop
    def run(self):
        r = self.r
        with self.w:
            self.setup()
            for j, op in enumerate(self.t["ops"]):
                self.w.clock.advance(37.0)
                getattr(self, "op_" + op["op"])(op)
                if self.dead_end:
                    break
                self.check_disk("after %s" % op["op"])
                if self.dead_end:
                    break
                for h in self.handles:
                    self.check_view(h, "after %s" % op["op"])
                    if self.dead_end:
                        break
                if self.dead_end:
                    break
                r.state([sorted((os.path.basename(p), v["Type"], v["MJD"], v["EXPTIME"]) for p, v in (self.disk[k] or {}).items())
                         for k in sorted(self.disk)])
            r.nontrivial = sum(v for k, v in r.c.items() if k.startswith("op.")) >= 5
            r.take_world(self.w)
        return r


class _Base(Check):
    real = ["corgidrp.caldb", "corgidrp.data", "corgidrp start-up", "pandas CSV reader/writer", "astropy.io.fits"]
    stub = ["file-system calls (interposed, real scratch files below)", "clock", "directory listing order", "process death (module purge and re-import)"]
    assumptions = ["operations of different processes interleave at operation granularity (the database documents that it is not parallelism-safe)",
                   "a rename is atomic; file data not yet synced may be lost at power failure"]
    mix = {}
    fault_p = 0.0
    kinds = ("crash", "crash", "full", "error", "stat")

    def gen(self, rng, i, tier):
        n = rng.choice([6, 10, 16, 24, 34]) if tier == "quick" else rng.choice([6, 12, 20, 40, 80])
        mix = {k: v * rng.choice([0.3, 1, 1, 2]) for k, v in self.mix.items()}
        names, wts = list(mix), list(mix.values())
        classes = rng.sample(products.CLASSES, rng.choice([1, 2, 3, 5, 13]))
        faults = self.fault_p * rng.choice([0, 1, 1, 2])
        twins = rng.choice([0, 0.15, 0.4])      # copies of a product: the same content under another name
        made = []
        ops = []
        for _ in range(n):
            o = {"op": rng.choices(names, wts)[0]}
            k = o["op"]
            o["h"] = rng.randrange(3)
            if k == "open":
                o["db"] = rng.randrange(3)
            if k in ("reg", "remove", "put", "lose"):
                o["slot"] = rng.randrange(NSLOT)
                o["cls"] = rng.choice(classes)
                o["spec"] = gen_spec(rng)
                if made and rng.random() < twins:
                    slot, o["cls"], spec = rng.choice(made)
                    o["spec"] = dict(spec)
                    if rng.random() < 0.3:      # the same file, one thing about it changed
                        o["slot"] = slot
                        key = rng.choice(["mjd", "exptime", "obsnum", "opmode", "emgain", "excamt", "nparents"])
                        o["spec"][key] = gen_spec(rng)[key]
                made.append((o["slot"], o["cls"], dict(o["spec"])))
                if rng.random() < 0.2:
                    o["spec"]["rel"] = True
            if k in ("reg", "remove", "scan", "lookup"):
                o["to_disk"] = rng.random() > 0.2
            if k == "remove":
                o["known"] = rng.random() < 0.75
            if k == "put":
                o["kind"] = rng.choice(["cal", "cal", "cal", "sci", "txt", "csv", "tmp", "up"])
            if k == "scan":
                o["dir"] = rng.choice(["cals", "cals", "cals/sub one", "cals/b,c", "cals/b,c/.old", "other", "empty", "default"])
                o["sub"] = rng.random() < 0.7
                o["rel"] = rng.random() < 0.2
            if k == "lookup":
                o["cls"] = rng.choice(classes + (["Image"] if rng.random() < 0.1 else []))
                o["none"] = rng.random() < 0.3
                o["spec"] = gen_spec(rng)
            if k == "clock":
                o["dt"] = rng.choice([1.0, 3600.0, 86400.0, 1e7, -30.0, -7200.0])
            if k == "chdir":
                o["d"] = rng.randrange(len(DIRS))
            if k in EST and k != "lookup" and rng.random() < faults:
                o["fault"] = [gen_fault(rng, EST[k], self.kinds)]
            ops.append(o)
        return {"cfg": {"listing": rng.randrange(1 << 30), "clock": 1_900_000_000.0 + rng.randrange(10 ** 7), "dbs": rng.choice([1, 1, 2, 3])},
                "ops": ops}

    def run(self, trace):
        return Engine(trace, self.id).run()

    def simpler(self, op):
        out = super().simpler(op)
        if op.get("spec"):
            base = {"ver": None, "mjd": 61000.0, "exptime": 60.0, "obsnum": 0, "opmode": "NONE", "emgain": 1.0, "excamt": 40.0, "pix": 1, "nparents": 1, "n": 3}
            for k, v in base.items():
                if op["spec"].get(k) != v:
                    out.append(dict(op, spec=dict(op["spec"], **{k: v})))
        if op.get("h"):
            out.append(dict(op, h=0))
        return out


class C01(_Base):
    id = "C01"
    rule = "seeded histories of open/register/re-register/remove/load/save/scan/restart/clock/chdir over up to 3 handles and 3 database files; non-trivial: at least 5 operations executed"
    mix = {"reg": 10, "remove": 4, "load": 1, "save": 1.5, "open": 2, "scan": 1.5, "restart": 1, "clock": 1, "chdir": 0.5, "lookup": 1, "put": 1, "lose": 0.5}


class C02(_Base):
    id = "C02"
    rule = "seeded histories of registration, removal and clock steps through several handles with interleaved lookups for random reference frames; non-trivial: at least 5 operations executed"
    mix = {"reg": 9, "remove": 2, "open": 1, "restart": 0.5, "clock": 2, "lookup": 12, "load": 0.5, "save": 0.5, "lose": 0.7}


class C03(_Base):
    id = "C03"
    rule = "C01 histories with process death, torn writes, power loss, disk-full and I/O errors placed inside database operations; non-trivial: at least 5 operations executed"
    mix = {"reg": 10, "remove": 3, "save": 1, "open": 1.5, "scan": 1.5, "restart": 0.5, "clock": 0.5, "put": 1}
    fault_p = 0.25


class C04(_Base):
    id = "C04"
    rule = "seeded directory trees of all product classes, science frames and foreign files scanned in seeded listing orders, with interruptions; non-trivial: at least 5 operations executed"
    mix = {"put": 12, "scan": 7, "reg": 2, "remove": 1, "open": 0.7, "restart": 0.5, "clock": 0.5, "chdir": 0.5, "lose": 0.5}
    fault_p = 0.08
