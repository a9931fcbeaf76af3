"""C05 (saving is all-or-nothing) and C06 (round trip and content hash)."""
import os

import numpy as np
import astropy.io.fits as fits

from .. import peer, products
from ..faults import gen_fault
from ..harness import Check, Run
from ..world import World

ALL = products.CLASSES + ["Image"]
DIRS = ["out", "out/sub dir", "o,ther"]
NAMES = ["a_L2a_.fits", "b c.fits", "d_CAL.fits", "e_L1_.fits"]


def build(data, cls, spec, name=None, d=None):
    if cls == "Image":
        return products.frame(data, spec, name=name or "x_L1_.fits", filedir=d or ".")
    return products.make(data, cls, spec, filename=name, filedir=d)


def gen_spec(rng):
    return {"pix": rng.randrange(1, 60), "n": rng.choice([3, 4, 6, 20]), "mjd": 61000.0 + rng.randrange(40) / 4, "nparents": rng.randrange(1, 4),
            "exptime": rng.choice([1.0, 60.0])}


# ====================================================================== C05
class C05(Check):
    id = "C05"
    rule = "seeded sequences of saves (new, overwriting, re-saving a loaded product, whole datasets) of every product class with process death, torn writes, power loss, disk-full and I/O errors at any storage call; non-trivial: a fault fired during a save"
    real = ["corgidrp.data (every product class)", "corgidrp.atomic", "astropy.io.fits writer and reader"]
    stub = ["file-system calls (interposed, real scratch files below)", "clock", "process death (module purge and re-import)"]
    assumptions = ["a rename is atomic; file data not yet synced may be lost at power failure", "storage faults hit calls made from Python"]
    preload = ("corgidrp.caldb",)

    def gen(self, rng, i, tier):
        n = rng.choice([4, 8, 14])
        classes = rng.sample(ALL, rng.choice([1, 2, 4, 14]))
        ops = []
        for _ in range(n):
            op = {"op": rng.choices(["save", "resave", "dataset", "put"], [7, 3, 2, 1])[0], "cls": rng.choice(classes),
                  "slot": rng.randrange(len(NAMES)), "dir": rng.randrange(3), "spec": gen_spec(rng), "args": rng.random() < 0.5,
                  "nfr": rng.randrange(1, 4)}
            if op["op"] != "put" and rng.random() < 0.6:
                op["fault"] = [gen_fault(rng, 8, ("crash", "crash", "full", "error", "error", "stat"))]
            ops.append(op)
        return {"cfg": {"listing": rng.randrange(1 << 30), "clock": 1.9e9 + rng.randrange(10 ** 7)}, "ops": ops}

    def run(self, trace):
        r = Run()
        w = World(listing_seed=trace["cfg"]["listing"], clock_start=trace["cfg"]["clock"])
        with w:
            for d in DIRS + ["ref"]:
                os.makedirs(os.path.join(w.root, d), exist_ok=True)
            (data,) = w.start("corgidrp.data")
            content = {}        # path -> bytes of every finished file
            fired_in_save = 0

            def snapshot():
                out = {}
                with w.quiet():
                    for d in DIRS:
                        p = os.path.join(w.root, d)
                        for n in sorted(os.listdir(p)):
                            f = os.path.join(p, n)
                            if os.path.isfile(f):
                                with open(f, "rb") as fh:
                                    out[f] = fh.read()
                return out

            def check_all(what, new):
                """every finished file intact; targets old or new; nothing else that looks like a product"""
                snap = snapshot()
                for p in sorted(set(content) | set(new) | {q for q in snap if q.endswith(".fits")}):
                    got = snap.get(p)
                    name = os.path.basename(p)
                    if p in new:
                        if got == new[p] or got == content.get(p):
                            continue
                        if got is None:
                            r.bad("product-lost", "%s: the previous version of %s is gone" % (what, name))
                        else:
                            r.bad("product-partial", "%s: %s holds %d bytes that are neither the old nor the new product" % (what, name, len(got)))
                        return None
                    if got is None:
                        r.bad("other-file-lost", "%s: %s vanished" % (what, name))
                        return None
                    if p not in content:
                        r.bad("stray-product", "%s: unexpected product file %s" % (what, name))
                        return None
                    if got != content[p]:
                        r.bad("other-file-changed", "%s: %s changed" % (what, name))
                        return None
                return snap

            for op in trace["ops"]:
                w.clock.advance(11.0)
                kind = op["op"]
                d = os.path.join(w.root, DIRS[op["dir"]])
                if kind == "put":
                    with w.quiet():
                        p = os.path.join(d, "notes%d.txt" % op["slot"])
                        with open(p, "wb") as f:
                            f.write(b"user file %d" % op["slot"])
                        content[p] = b"user file %d" % op["slot"]
                    continue
                if kind == "dataset":
                    frames = [build(data, "Image", dict(op["spec"], pix=op["spec"]["pix"] + k), "ds%d_%d_L1_.fits" % (op["slot"], k), d)
                              for k in range(op["nfr"])]
                    objs = frames
                    ds = data.Dataset(frames)

                    def fn():
                        ds.save(filedir=d) if op["args"] else ds.save()
                elif kind == "resave":
                    mine = sorted(p for p in content if p.endswith(".fits"))
                    if not mine:
                        continue
                    p = mine[op["slot"] % len(mine)]
                    st, o = w.call(lambda: data.autoload(p))
                    if st != "ok":
                        r.bad("unreadable", "%s cannot be read back: %r" % (os.path.basename(p), o))
                        break
                    o.ext_hdr["RESAVED"] = op["spec"]["pix"]
                    o.data = np.array(o.data)
                    if type(o).__name__ not in ("NonLinearityCalibration",):
                        o.data.flat[0] = op["spec"]["pix"] % 100
                    objs = [o]

                    def fn():
                        o.save()
                else:
                    o = build(data, op["cls"], op["spec"], NAMES[op["slot"]], d)
                    objs = [o]

                    def fn():
                        o.save(filedir=d, filename=NAMES[op["slot"]]) if op["args"] else o.save()
                # what a fault-free save writes
                new = {}
                with w.quiet():
                    for o_ in objs:
                        c = o_.copy()
                        c.ext_hdr["DRPCTIME"] = o_.ext_hdr["DRPCTIME"]
                        c.save(filedir=os.path.join(w.root, "ref"), filename="ref.fits")
                        with open(os.path.join(w.root, "ref", "ref.fits"), "rb") as f:
                            new[os.path.join(o_.filedir, o_.filename)] = f.read()
                        os.remove(os.path.join(w.root, "ref", "ref.fits"))
                st, v = w.call(fn, op.get("fault"))
                r.c["op." + kind] += 1
                r.note(kind, op["cls"], st, w.last_events)
                fired = bool(w.last_fired)
                if fired:
                    fired_in_save += 1
                if st == "crash":
                    r.c["probe.crash_in_" + kind] += 1
                    w.after_crash()
                snap = check_all("%s of a %s -> %s" % (kind, op["cls"] if kind == "save" else type(objs[0]).__name__, st), new)
                if snap is None:
                    break
                if st == "error" and not fired:
                    r.bad("unexpected-error", "saving a %s raised %r" % (type(objs[0]).__name__, v))
                    break
                if st == "ok":
                    if fired:
                        r.c["probe.fault_absorbed"] += 1
                    miss = [p for p in new if snap.get(p) != new[p]]
                    if miss:
                        r.bad("save-not-done", "%s returned although %s was not written" % (kind, os.path.basename(miss[0])))
                        break
                if st == "error":
                    r.c["probe.error_in_" + kind] += 1
                    st2, v2 = w.call(fn)
                    if st2 != "ok":
                        r.bad("retry-fails", "repeating the save: %r" % (v2,))
                        break
                    snap = check_all("repeated save", new)
                    if snap is None:
                        break
                    miss = [p for p in new if snap.get(p) != new[p]]
                    if miss:
                        r.bad("retry-wrong", "the repeated save did not write %s" % os.path.basename(miss[0]))
                        break
                for p in new:
                    if snap.get(p) is not None:
                        content[p] = snap[p]
                if st == "crash":
                    (data,) = w.start("corgidrp.data")
                    for p in new:
                        if p in content:
                            st3, v3 = w.call(lambda: data.autoload(p))
                            if st3 != "ok":
                                r.bad("unreadable", "%s cannot be read after the crash: %r" % (os.path.basename(p), v3))
                                break
                r.state(sorted((os.path.basename(p), len(b)) for p, b in content.items()))
                if r.violations:
                    break
            r.nontrivial = fired_in_save > 0
            r.take_world(w)
        return r


# ====================================================================== C06
STRUCT = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4", "EXTEND", "XTENSION", "PCOUNT", "GCOUNT", "EXTNAME",
          "BSCALE", "BZERO", "CHECKSUM", "DATASUM", "TRK_ERRS", ""}
# cards the pipeline fills in on load when a product lacks them
DEFAULTED = {"ORIGIN", "DESMEAR", "CTI_CORR", "IS_BAD", "RN", "RN_ERR", "PC_STAT"}
HDRS = ["pri_hdr", "ext_hdr", "err_hdr", "dq_hdr"]


def cards(h):
    """(plain cards, history lines)"""
    vals = {}
    for c in h.cards:
        k = c.keyword
        if k in STRUCT or k in ("COMMENT", "HISTORY"):
            continue
        vals[k] = c.value
    return vals, [str(x) for x in h["HISTORY"]] if "HISTORY" in h else []


def same_val(a, b):
    if isinstance(a, fits.card.Undefined) or a is None:
        return b is None or isinstance(b, fits.card.Undefined)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) and isinstance(b, (bool, np.bool_))
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b or abs(a - b) <= 1e-12 * abs(a)      # a FITS card holds a number in 20 characters
    return str(a) == str(b)


def same_arr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        if a.size != b.size or a.shape != b.shape[1:]:
            return False
        b = b.reshape(a.shape)
    return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def near(v, old):
    """The value an edit gives a pixel; "ulp": the next number after the one it has."""
    return float(np.nextafter(old, np.inf)) if v == "ulp" else float(v)


def ext_data(hdu):
    return None if hdu.data is None else np.array(hdu.data)


class Mirror:
    """Independent record of what a product holds."""

    def __init__(self, o, kgain, params):
        self.cls = type(o).__name__
        self.kgain = kgain
        self.snap(o)

    def snap(self, o):
        self.data, self.err, self.dq = np.array(o.data), np.array(o.err), np.array(o.dq)
        self.h = {n: cards(getattr(o, n)) for n in HDRS}
        self.ext = {h.name: (ext_data(h), cards(h.header)[0]) for h in o.hdu_list if h.name not in ("PTC",)}     # in order
        self.ptc = np.array(o.ptc) if self.kgain else None

    def diff(self, o, loose_time=False):
        if type(o).__name__ != self.cls:
            return "class is %s, was %s" % (type(o).__name__, self.cls)
        if not same_arr(self.data, o.data):
            return "data differ"
        if not same_arr(self.err, o.err):
            return "uncertainties differ (shape %s -> %s)" % (self.err.shape, np.shape(o.err))
        if not self.kgain and not same_arr(self.dq, o.dq):
            return "data-quality flags differ"
        if self.kgain and not same_arr(self.ptc, o.ptc):
            return "photon transfer curve differs"
        for n in HDRS:
            if self.kgain and n == "dq_hdr":
                continue
            want, hist = self.h[n]
            got, ghist = cards(getattr(o, n))
            for k in sorted(set(want) | set(got)):
                if k == "DRPCTIME" and loose_time:
                    continue
                if k not in got:
                    return "%s card %s is lost" % (n, k)
                if k not in want:
                    if k in DEFAULTED:
                        continue
                    return "%s has a new card %s" % (n, k)
                if not same_val(want[k], got[k]):
                    return "%s card %s is %r, was %r" % (n, k, got[k], want[k])
            if "".join(hist) != "".join(ghist):
                return "%s history differs (%d -> %d lines)" % (n, len(hist), len(ghist))
        if not self.kgain:
            got = {h.name: (ext_data(h), cards(h.header)[0]) for h in o.hdu_list}
            if list(got) != list(self.ext) or len(o.hdu_list) != len(got):
                return "extensions %s, were %s" % ([h.name for h in o.hdu_list], list(self.ext))
            for k in self.ext:
                if (self.ext[k][0] is None) != (got[k][0] is None) or self.ext[k][0] is not None and not same_arr(self.ext[k][0], got[k][0]):
                    return "extension %s differs" % k
                for c, x in self.ext[k][1].items():
                    if c not in got[k][1] or not same_val(x, got[k][1][c]):
                        return "extension %s card %s is lost" % (k, c)
        return None


class C06(Check):
    id = "C06"
    rule = "seeded histories of edits, error terms, extensions, copies, saves, reloads (own class / automatic, same or restarted process) of every product class; hash cross-checked by a second interpreter with another hash seed; non-trivial: at least one reload"
    real = ["corgidrp.data (every product class)", "astropy.io.fits"]
    stub = ["file-system calls", "clock", "process restart (module purge and re-import)"]
    seeds = {"quick": 480, "thorough": 20000}

    def gen(self, rng, i, tier):
        n = rng.choice([5, 8, 12, 20])
        names = ["pix", "err", "dq", "hdr", "hist", "ext", "addterm", "copy", "copyhdr", "save", "reload", "reload", "peer", "rescale"]
        mix = [rng.choice([0.3, 1, 2]) for _ in names]
        ops = []
        for _ in range(n):
            ops.append({"op": rng.choices(names, mix)[0], "i": rng.randrange(1000), "v": rng.choice([0.0, 1.0, -3.5, 1e-12, 7.0, 65535.0, 2.0 ** 40, "nan", "ulp"]),
                        "q": rng.choice([1, 2, 4, 128, 200]), "s": rng.choice(["plain", "it's 'quoted'", "x" * 60, "y" * 130, "a/b", "007", "T", " lead", "é"][:8]),
                        "t": rng.choice(["int", "float", "bool", "str", "neg"]), "auto": rng.random() < 0.5, "restart": rng.random() < 0.5,
                        "name": rng.randrange(4), "same": rng.random() < 0.3})
        return {"cfg": {"listing": 1, "clock": 1.9e9 + rng.randrange(10 ** 7), "cls": ALL[i // 8 % len(ALL)] if rng.random() < .8 else rng.choice(ALL),
                        "spec": gen_spec(rng), "track": rng.random() < 0.5}, "ops": ops}

    def run(self, trace):
        peer.start()
        r = Run()
        cfg = trace["cfg"]
        cls = cfg["cls"]
        w = World(listing_seed=1, clock_start=cfg["clock"])
        with w:
            with w.quiet():
                os.makedirs(os.path.join(w.home, ".corgidrp", "default_calibs"))
                with open(os.path.join(w.home, ".corgidrp", "corgidrp.cfg"), "w") as f:
                    f.write("[PATH]\ncaldb = %s/db.csv\ndefault_calibs = %s/.corgidrp/default_calibs\n[DATA]\ntrack_individual_errors = %s\n" % (
                        w.root, w.home, cfg["track"]))
            (data,) = w.start("corgidrp.data")
            d = os.path.join(w.root, "out")
            os.makedirs(d)
            o = build(data, cls, cfg["spec"], "prod.fits", d)
            kg, pa = cls == "KGain", cls == "DetectorParams"
            m = Mirror(o, kg, pa)
            h0 = str(o.get_hash())
            saves = reloads = nsave = 0

            def value(op):
                return {"int": 41 + op["i"], "float": 0.1 * op["i"], "bool": op["i"] % 2 == 0, "str": op["s"], "neg": -1.5e-7 * (op["i"] + 1)}[op["t"]]

            for op in trace["ops"]:
                w.clock.advance(5.0)
                k = op["op"]
                changed = False
                before = (m.data.copy(), m.err.copy(), m.dq.copy())
                if k == "pix":
                    if cls == "NonLinearityCalibration" and op["i"] % m.data.size == 0:
                        continue
                    if cls == "BadPixelMap":
                        v = op["q"] % 2
                    else:
                        v = near(op["v"], m.data.flat[op["i"] % m.data.size])
                    o.data = o.data if o.data.flags.writeable else np.array(o.data)
                    o.data.flat[op["i"] % m.data.size] = v
                    m.data.flat[op["i"] % m.data.size] = v
                elif k == "err":
                    v = abs(near(op["v"], m.err.flat[op["i"] % m.err.size]))
                    o.err.flat[op["i"] % m.err.size] = v
                    m.err.flat[op["i"] % m.err.size] = v
                elif k == "dq":
                    if kg:
                        continue
                    o.dq.flat[op["i"] % m.dq.size] = op["q"]
                    m.dq.flat[op["i"] % m.dq.size] = op["q"]
                elif k == "hdr":
                    hn = HDRS[op["i"] % 4]
                    if kg and hn == "dq_hdr":
                        continue
                    key = ["USERKEY", "MY_VAL", "ABC", "HIERARCH long user key"][op["name"]]
                    getattr(o, hn)[key] = value(op)
                    m.h[hn][0][key.replace("HIERARCH ", "")] = value(op)
                    if key.startswith("HIERARCH"):
                        m.h[hn] = cards(getattr(o, hn))
                elif k == "hist":
                    hn = HDRS[op["name"]] if op["auto"] else "ext_hdr"
                    if kg and hn == "dq_hdr":
                        continue
                    getattr(o, hn)["HISTORY"] = "user note %d %s" % (op["i"], op["s"].strip() if op["s"] != "é" else "")
                    m.h[hn] = cards(getattr(o, hn))
                    if not any("user note %d" % op["i"] in x for x in m.h[hn][1]):
                        r.bad("history-lost", "a history entry vanished in memory")
                        break
                elif k == "ext":
                    if kg:
                        continue
                    name = "UEXT%d" % op["name"]
                    if name in m.ext:
                        st, v = w.call(lambda: o.add_extension_hdu(name, data=np.zeros(3)))
                        if st == "ok":
                            r.bad("duplicate-extension", "a second extension %s was accepted" % name)
                            break
                        continue
                    arr = np.arange(1.0 + op["i"] % 7) * 0.5
                    if op["t"] == "int":
                        arr = np.arange(6, dtype=np.int16).reshape(2, 3)
                    elif op["t"] == "bool":
                        arr = None      # nothing but a header
                    hh = fits.Header()
                    hh["EXTVAL"] = op["i"]
                    o.add_extension_hdu(name, data=None if arr is None else arr.copy(), header=hh)
                    m.ext[name] = (arr, {"EXTVAL": op["i"]})
                elif k in ("addterm", "rescale"):
                    if m.data.ndim not in (2, 3) or m.err.ndim != m.data.ndim + 1 or (k == "rescale" and m.data.ndim != 2):
                        continue
                    a = np.full(m.data.shape, 0.25 + op["i"] % 5)
                    hdr0 = m.h["err_hdr"]
                    if k == "addterm":
                        if cls == "DetectorNoiseMaps" and cfg["track"]:
                            continue    # this class requires exactly one layer
                        o.add_error_term(a, "term%d" % op["i"])
                        m.err = m.err.copy()
                        m.err[0] = np.sqrt(m.err[0] ** 2 + a ** 2)
                        if cfg["track"]:
                            m.err = np.concatenate([m.err, a[None]])
                    else:
                        o.rescale_error(a, "f%d" % op["i"])
                        m.err = m.err * a
                    m.h["err_hdr"] = cards(o.err_hdr)
                    lost = [c for c, v in hdr0[0].items() if c in ("USERKEY", "MY_VAL", "ABC", "BUNIT") and m.h["err_hdr"][0].get(c) != v]
                    if lost or m.h["err_hdr"][1][:len(hdr0[1])] != hdr0[1]:
                        r.bad("memory-differs", "%s on a %s changed what the error header said before (%s)" % (k, cls, lost or "history"), "memory-differs:" + cls)
                        break
                elif k in ("copy", "copyhdr"):
                    old = o
                    o = o.copy() if k == "copy" else o.copy(copy_data=False)
                    x = m.diff(o, loose_time=True)
                    if x:
                        r.bad("copy-differs", "%s(%s): %s" % (k, cls, x), "copy-differs:" + cls)
                        break
                    if k == "copyhdr" and op["auto"]:
                        o.data, o.err, o.dq = np.array(o.data), np.array(o.err), np.array(o.dq)
                    m.h["ext_hdr"][0]["DRPCTIME"] = o.ext_hdr["DRPCTIME"]
                    m.h["ext_hdr"][0]["DRPVERSN"] = o.ext_hdr["DRPVERSN"]
                    # the old object's headers are its own
                    old.ext_hdr["STALE"] = op["i"]
                    old.err_hdr["STALE"] = op["i"]
                    old.pri_hdr["STALE"] = op["i"]
                    if k == "copy":
                        old.data = np.array(old.data)
                    r.c["probe." + k] += 1
                elif k == "save" or k == "reload" or k == "peer":
                    if k != "save" and nsave and op["same"]:
                        pass
                    name = "prod%d.fits" % op["name"]
                    st, v = w.call(lambda: o.save(filedir=d, filename=name) if not op["same"] else o.save())
                    if st != "ok":
                        r.bad("save-fails", "saving a %s: %r" % (cls, v), "save-fails:" + cls)
                        break
                    nsave += 1
                    path = os.path.join(o.filedir, o.filename)
                    hm = str(o.get_hash())
                    x = m.diff(o)
                    if x:
                        r.bad("save-alters", "saving altered the %s in memory: %s" % (cls, x), "save-alters:" + cls)
                        break
                    if k == "reload":
                        reloads += 1
                        if op["restart"]:
                            (data,) = w.start("corgidrp.data")
                            r.c["probe.reload_other_process"] += 1
                        st, v = w.call(lambda: data.autoload(path) if op["auto"] else getattr(data, cls)(path))
                        if st != "ok":
                            r.bad("reload-fails", "reloading a %s: %r" % (cls, v), "reload-fails:" + cls)
                            break
                        x = m.diff(v)
                        if x:
                            r.bad("reload-differs", "reloaded %s (%s): %s" % (cls, "automatic type" if op["auto"] else "own class", x),
                                  "reload-differs:%s" % cls)
                            break
                        if (v.filename, os.path.abspath(v.filedir)) != (o.filename, os.path.abspath(o.filedir)):
                            r.bad("reload-path", "reloaded %s calls itself %s" % (cls, v.filepath))
                            break
                        if str(v.get_hash()) != hm:
                            r.bad("hash-reload", "the hash of a %s changes when it is reloaded" % cls, "hash-reload:" + cls)
                            break
                        o = v
                        m.h = {n: cards(getattr(o, n)) for n in HDRS}
                        o.err = np.array(o.err)
                        o.dq = np.array(o.dq)
                        if not kg:
                            o.data = np.array(o.data)
                        r.c["probe.reload_%s" % ("auto" if op["auto"] else "class")] += 1
                    elif k == "peer":
                        a = peer.ask(cmd="hash", path=path, cls=cls, track=cfg["track"])
                        if a.get("hash") != hm:
                            r.bad("hash-process", "the hash of a %s in another process is %s, here %s" % (cls, a, hm), "hash-process:" + cls)
                            break
                        r.c["probe.hash_other_process"] += 1
                r.c["op." + k] += 1
                x = m.diff(o)
                if x:
                    r.bad("memory-differs", "after %s on a %s: %s" % (k, cls, x), "memory-differs:" + cls)
                    break
                h1 = str(o.get_hash())
                if not pa:
                    diff = not (same_arr(before[0], m.data) and same_arr(before[1], m.err) and same_arr(before[2], m.dq))
                    if diff and h1 == h0:
                        r.bad("hash-insensitive", "the hash of a %s did not change with %s" % (cls, k))
                        break
                    if not diff and h1 != h0 and np.array_equal(np.asarray(before[0]).view(np.uint8), np.asarray(m.data).view(np.uint8)):
                        r.bad("hash-unstable", "the hash of a %s changed by %s" % (cls, k))
                        break
                h0 = h1
                r.note(k, cls)
                r.state((cls, m.data.tobytes(), m.err.shape, sorted(m.ext)))
            r.nontrivial = reloads > 0
            r.take_world(w)
        return r
