"""C10: stacked arrays and frames of a dataset, copies and subsets, against an array model."""
import os
import random

import astropy.io.fits as fits
import numpy as np

from .. import lab, products
from .. import steplib as sl
from ..harness import Check, Run
from ..world import World
from . import steps as st_

ARR = ("data", "err", "dq")


class DS:
    """A dataset under test with its model: one array triple and one header dictionary per frame."""

    def __init__(self, ds, group):
        self.ds = ds
        self.group = group          # datasets of one group may share pixels
        self.resync()

    def resync(self):
        self.data = np.array(self.ds.all_data)
        self.err = np.array(self.ds.all_err)
        self.dq = np.array(self.ds.all_dq)


def all_headers(f):
    d = {n: getattr(f, n) for n in ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr")}
    d.update(("extension " + h.name, h.header) for h in f.hdu_list)
    return d


# steps that return datasets
GIVES = sorted(n for n, s in sl.STEPS.items() if s.chain or n in ("split_dataset", "combine_subexposures", "sort_pupilimg_frames", "find_star", "get_pc_mean", "determine_flux"))


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def other(a):
    """A value different from a, of the same kind."""
    return np.where(np.isfinite(a) & (np.abs(a.astype(float)) < 1e12), a + 1, 1).astype(a.dtype)


class C10(Check):
    id = "C10"
    rule = "seeded histories of in-place edits through the stack or the frames, processing updates, error terms, rescalings, sub-setting, splitting, copies, saves and reloads over a pool of datasets; non-trivial: at least 5 operations on at least 2 datasets"
    real = ["corgidrp.data.Dataset", "corgidrp.data.Image", "astropy.io.fits", "every processing step (as source of datasets)"]
    stub = ["file-system calls", "clock", "allocation failures (numpy allocators called by corgidrp.data)", "detector geometry scaled to 20x30 pixels (sessions with processing steps)"]
    preload = st_.PRELOAD
    seeds = {"quick": 1600, "thorough": 80000}
    assumptions = ["a dataset built from the frames of another one, other than by indexing, splitting or copying, takes those frames over"]

    def gen(self, rng, i, tier):
        n = rng.choice([4, 8, 14, 25])
        names = ["edit", "edit", "update", "addterm", "rescale", "subset", "split", "copy", "copyhdr", "save", "hdr", "imgcopy"]
        mix = [rng.choice([0.3, 1, 2]) for _ in names]
        ops = []
        for _ in range(n):
            ops.append({"op": rng.choices(names, mix)[0], "d": rng.randrange(6), "f": rng.randrange(6), "y": rng.randrange(9), "x": rng.randrange(9),
                        "v": rng.choice([0.0, 5.0, -2.5, 1e6, 3.0]), "which": rng.choice(ARR), "via": rng.choice(["stack", "frame"]),
                        "new": rng.randrange(1, 8), "layers": rng.choice([1, 1, 2, 3]), "dim": rng.choice(["frame", "stack"]),
                        "idx": rng.choice(["list", "slice", "mask", "array", "npint", "mixed", "mixed", "step", "neg"]), "k": rng.randrange(64), "full": rng.random() < 0.5,
                        "key": rng.choice(["EXPTIME", "OBSNUM", "EMGAIN_C", "both"]), "restart": rng.random() < 0.3,
                        "fail": rng.randrange(12) if rng.random() < 0.12 else None, "slab": rng.random() < 0.3})
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2, 3])):
                s = sl.STEPS[rng.choice(GIVES)]
                lo, hi = s.n or (1, 4)
                ops.insert(rng.randrange(len(ops) + 1), {"op": "pipe", "step": s.name, "spec": st_.gen_spec(rng), "p": s.params(rng), "n": rng.randint(lo, hi),
                                                         "layers": rng.choice([1, 1, 3]), "d": 0, "hash": rng.randrange(99), "k": rng.randrange(64)})
        return {"cfg": {"clock": 1.9e9, "n": rng.choice([1, 2, 3, 5, 6]), "h": rng.choice([2, 4]), "track": rng.random() < 0.5, "cube": rng.random() < 0.2, "ext": rng.random() < .6,
                        "pix": rng.randrange(99)}, "ops": ops}

    def run(self, trace):
        r = Run()
        cfg = trace["cfg"]
        w = World(clock_start=cfg["clock"])
        with w:
            with w.quiet():
                os.makedirs(os.path.join(w.home, ".corgidrp", "default_calibs"))
                with open(os.path.join(w.home, ".corgidrp", "corgidrp.cfg"), "w") as f:
                    f.write("[PATH]\ncaldb = %s/db.csv\ndefault_calibs = %s/.corgidrp/default_calibs\n[DATA]\ntrack_individual_errors = %s\n" % (
                        w.root, w.home, cfg["track"]))
            (data,) = w.start("corgidrp.data")
            self.data = data
            env = None
            if any(op["op"] == "pipe" for op in trace["ops"]):
                lab.small_detector()
                env = sl.Env(w, data)
            frames = []
            for k in range(cfg["n"]):
                spec = {"pix": cfg["pix"] + k, "n": cfg["h"], "exptime": [1.0, 60.0][k % 2], "obsnum": k // 2, "emgain": [1.0, 1.0, 9.0][k % 3]}
                pri, ext = products.headers(spec)
                shape = (3, cfg["h"], cfg["h"] + 1) if cfg["cube"] else (cfg["h"], cfg["h"] + 1)
                im = data.Image(products.pixels(spec, shape), pri_hdr=pri, ext_hdr=ext, dq=np.zeros(shape, dtype=np.uint16),
                                err=np.abs(products.pixels(spec, shape)) * .01)
                im.filename = "f%d_L1_.fits" % k
                if cfg.get("ext"):
                    im.add_extension_hdu("MORE", data=np.arange(3.) + k, header=fits.Header({"MOREKEY": k}))
                frames.append(im)
            pool = [DS(data.Dataset(frames), 0)]
            groups = 1
            self.headers = {}
            used = set()
            for op in trace["ops"]:
                w.clock.advance(3.0)
                m = pool[op["d"] % len(pool)]
                used.add(op["d"] % len(pool))
                ds = m.ds
                n = len(ds)
                k = op["op"]
                r.c["op." + k] += 1
                new = None
                if k == "pipe":
                    s = sl.STEPS[op["step"]]
                    src = sl.make_inputs(env, s, op["spec"], op["p"], op["n"], op["layers"] if cfg["track"] else 1)
                    call, _ = s.prepare(env, src, op["p"])
                    np.random.seed(op["hash"])
                    st, v = w.call(call)
                    r.note(op["step"], st)
                    if st == "ok":
                        r.c["probe.step_results"] += 1
                        groups += 1
                        for d in self.datasets(v)[:3]:
                            if len(pool) < 6:
                                pool.append(DS(d, groups - 1))
                            else:
                                pool[1 + op["k"] % 5] = DS(d, groups - 1)
                elif k == "edit":
                    arr = getattr(m, op["which"])
                    i = op["f"] % n
                    pos = (op["y"] % arr.shape[-2], op["x"] % arr.shape[-1])
                    val = abs(int(op["v"])) % 256 if op["which"] == "dq" else op["v"]
                    tgt = getattr(ds, "all_" + op["which"])[i] if op["via"] == "stack" else getattr(ds.frames[i], op["which"])
                    if op["slab"]:
                        tgt[...] = tgt + 1
                        arr[i] = arr[i] + 1
                    else:
                        tgt[(Ellipsis,) + pos] = val
                        arr[i][(Ellipsis,) + pos] = val
                    r.c["probe.edit_via_" + op["via"]] += 1
                elif k == "update":
                    kw = {}
                    if op["new"] & 1:
                        kw["new_all_data"] = m.data * 2 + op["v"]
                    if op["new"] & 2:
                        L = op["layers"] if cfg["track"] else 1
                        e = np.abs(np.arange(float(n * L * m.data[0].size))).reshape((n, L) + m.data.shape[1:]) + op["k"]
                        kw["new_all_err"] = e
                    if op["new"] & 4:
                        kw["new_all_dq"] = (m.dq | (1 << (op["k"] % 8))).astype(m.dq.dtype)
                    if op["k"] % 5 == 0:
                        # wrong shapes must be refused without changing anything
                        bad = dict(kw)
                        what = ["new_all_data", "new_all_err", "new_all_dq"][op["k"] % 3]
                        bad[what] = np.zeros(m.data.shape[:-1] + (m.data.shape[-1] + 1,))
                        only = {what: bad[what]}
                        st, v = w.call(lambda: ds.update_after_processing_step("bad", **only))
                        if st != "error" or not isinstance(v, ValueError):
                            r.bad("bad-shape-accepted", "%s of a wrong shape gave %s" % (what, st))
                            break
                        r.c["probe.bad_shape"] += 1
                    hdr = {"USERK": op["k"]} if op["k"] % 2 else None
                    ds.update_after_processing_step("step %d" % op["k"], header_entries=hdr, **kw)
                    if "new_all_data" in kw:
                        m.data = np.array(kw["new_all_data"])
                    if "new_all_err" in kw:
                        m.err = np.array(kw["new_all_err"])
                    if "new_all_dq" in kw:
                        m.dq = np.array(kw["new_all_dq"])
                    for f in ds.frames:
                        if "step %d" % op["k"] not in str(f.ext_hdr["HISTORY"]).split("\n")[-1]:
                            r.bad("history-missing", "the processing step is not the last history entry")
                        if hdr and f.ext_hdr["USERK"] != op["k"]:
                            r.bad("header-entry-missing", "header entry not written")
                elif k == "addterm":
                    a = np.full(m.data.shape if op["dim"] == "stack" else m.data.shape[1:], 0.0) + (op["k"] % 7) + 0.5
                    if op["dim"] == "stack":
                        a += np.arange(n).reshape((n,) + (1,) * (m.data.ndim - 1))
                    if m.err.shape[2:] != m.data.shape[1:]:
                        continue
                    ds.add_error_term(a, "t%d" % op["k"])
                    full = np.broadcast_to(a, m.data.shape)
                    m.err = m.err.copy()
                    m.err[:, 0] = np.sqrt(m.err[:, 0] ** 2 + full ** 2)
                    if cfg["track"]:
                        m.err = np.concatenate([m.err, full[:, None]], axis=1)
                elif k == "rescale":
                    if m.data.ndim > 3 or m.err.shape[2:] != m.data.shape[1:]:
                        continue
                    a = np.full(m.data.shape if op["dim"] == "stack" else m.data.shape[1:], 1.0) * (1 + op["k"] % 4)
                    ds.rescale_error(a, "r%d" % op["k"])
                    m.err = m.err * (1 + op["k"] % 4)
                elif k == "hdr":
                    f = ds.frames[op["f"] % n]
                    getattr(f, ["pri_hdr", "ext_hdr", "err_hdr", "dq_hdr"][op["k"] % 4])["EDITED"] = op["k"]
                elif k in ("subset", "split"):
                    if k == "subset":
                        sel = [j for j in range(n) if (op["k"] >> j) & 1] or [op["f"] % n]
                        if op["idx"] == "slice":
                            lo, hi = min(sel), max(sel) + 1
                            idx, sel = slice(lo, hi), list(range(lo, hi))
                        elif op["idx"] == "mask":
                            idx = np.array([j in sel for j in range(n)])
                        elif op["idx"] == "array":
                            idx = np.array(sel[::-1])
                            sel = sel[::-1]
                        elif op["idx"] == "mixed":
                            g = random.Random(op["k"] * 8 + op["f"])
                            if op["k"] % 2 and n > 3:       # nearly all of them, nearly in order
                                sel = list(range(n))[:g.choice([n, n, 4])]
                                a, b = g.randrange(len(sel)), g.randrange(len(sel))
                                sel[a], sel[b] = sel[b], sel[a]
                            else:
                                g.shuffle(sel)
                            idx = np.array(sel)
                        elif op["idx"] == "step":
                            idx = slice(op["f"] % n, None, -1 - op["k"] % 2) if op["k"] % 4 == 1 else slice(op["k"] % 2, None, 1 + op["f"] % 2)
                            sel = list(range(n))[idx]
                            if not sel:
                                continue
                        elif op["idx"] == "neg":
                            idx = slice(-1 - op["f"] % n, None)
                            sel = list(range(n))[idx]
                        else:
                            idx = sel
                        subs = [(ds[idx], sel)]
                        one = ds[op["f"] % n]
                        if not same(one.data, m.data[op["f"] % n]):
                            r.bad("index-wrong", "indexing a single frame returned another one")
                            break
                    else:
                        keys = {"EXPTIME": (None, ["EXPTIME"]), "OBSNUM": (["OBSNUM"], None), "EMGAIN_C": (None, ["EMGAIN_C"]),
                                "both": (["OBSNUM"], ["EXPTIME"])}[op["key"]]
                        if any(q not in f.pri_hdr for f in ds for q in keys[0] or []) or any(q not in f.ext_hdr for f in ds for q in keys[1] or []):
                            continue
                        parts, vals = ds.split_dataset(prihdr_keywords=keys[0], exthdr_keywords=keys[1])
                        want = {}
                        for j, f in enumerate(ds.frames):
                            kk = tuple([f.pri_hdr[q] for q in keys[0] or []] + [f.ext_hdr[q] for q in keys[1] or []])
                            want.setdefault(kk, []).append(j)
                        if len(parts) != len(want) or len(vals) != len(parts):
                            r.bad("split-count", "split into %d parts, expected %d" % (len(parts), len(want)))
                            break
                        subs = []
                        seen = []
                        for p in parts:
                            kk = tuple([p.frames[0].pri_hdr[q] for q in keys[0] or []] + [p.frames[0].ext_hdr[q] for q in keys[1] or []])
                            if kk not in want or kk in seen:
                                r.bad("split-wrong", "unexpected part %r" % (kk,))
                                break
                            seen.append(kk)
                            subs.append((p, want[kk]))
                        if r.violations:
                            break
                    for s, sel in subs:
                        if len(s) != len(sel) or [f.filename for f in s] != [ds.frames[j].filename for j in sel]:
                            r.bad("subset-frames", "%s returned other frames than asked for" % k)
                            break
                        if not all(same(getattr(s, "all_" + a), getattr(m, a)[sel]) for a in ARR):
                            r.bad("subset-pixels", "%s returned other pixels than asked for" % k)
                            break
                    if r.violations:
                        break
                    for s, sel in subs[:2]:
                        new = DS(s, m.group)
                        if len(pool) < 6:
                            pool.append(new)
                        else:
                            pool[1 + op["k"] % 5] = new
                elif k in ("copy", "copyhdr"):
                    c = ds.copy() if k == "copy" else ds.copy(copy_data=False)
                    if not all(same(getattr(c, "all_" + a), getattr(m, a)) for a in ARR):
                        r.bad("copy-pixels", "a copy differs from its original")
                        break
                    if k == "copy":
                        groups += 1
                    new = DS(c, groups - 1 if k == "copy" else m.group)
                    # headers are never shared
                    for i, (a, b) in enumerate(zip(ds.frames, c.frames)):
                        ha, hb = all_headers(a), all_headers(b)
                        if sorted(ha) != sorted(hb):
                            r.bad("copy-extensions", "%s(): the copy has %s, its original %s" % (k, sorted(hb), sorted(ha)))
                            break
                        for hn in ha:
                            hb[hn]["ZCOPY"] = i
                            if "ZCOPY" in ha[hn]:
                                r.bad("header-shared", "%s(): editing the copy's %s changed the original" % (k, hn), "header-shared")
                                break
                            del hb[hn]["ZCOPY"]
                            ha[hn]["ZORIG"] = i
                            if "ZORIG" in hb[hn]:
                                r.bad("header-shared", "%s(): editing the original's %s changed the copy" % (k, hn), "header-shared")
                                break
                            del ha[hn]["ZORIG"]
                        if k == "copy" and "MORE" in [h.name for h in b.hdu_list] and isinstance(b.hdu_list["MORE"].data, np.ndarray):
                            e, o = b.hdu_list["MORE"].data, a.hdu_list["MORE"].data
                            old = e.copy()
                            if not same(e, o):
                                r.bad("copy-pixels", "copy(): extension differs")
                            e[0] = other(old[0])
                            if same(e, a.hdu_list["MORE"].data):
                                r.bad("extension-shared", "copy(): the copy shares an extension with its original")
                            e[0] = old[0]
                        b.ext_hdr["HISTORY"] = "copied"
                        if "HISTORY" in a.ext_hdr and str(a.ext_hdr["HISTORY"]).endswith("copied") and a.ext_hdr["HISTORY"][-1] == "copied" \
                                and len(a.ext_hdr["HISTORY"]) == len(b.ext_hdr["HISTORY"]):
                            r.bad("header-shared", "%s(): history shared" % k, "header-shared")
                    if r.violations:
                        break
                    if len(pool) < 6:
                        pool.append(new)
                    else:
                        pool[1 + op["k"] % 5] = new
                elif k == "imgcopy":
                    f = ds.frames[op["f"] % n]
                    c = f.copy(copy_data=op["full"])
                    pos = (Ellipsis, op["y"] % f.data.shape[-2], op["x"] % f.data.shape[-1])
                    for a in ARR:
                        if not same(getattr(c, a), getattr(f, a)):
                            r.bad("copy-pixels", "a frame copy differs in %s" % a)
                        old = getattr(c, a)[pos].copy()
                        getattr(c, a)[pos] = other(old)
                        seen = not same(getattr(f, a)[pos], old)
                        if seen == op["full"]:
                            r.bad("copy-sharing", "a %s frame copy %s its %s with the original" % (
                                "full" if op["full"] else "headers-only", "shares" if seen else "does not share", a))
                        getattr(c, a)[pos] = old
                    for h in all_headers(c).values():
                        h["ZCOPY"] = 1
                    if any("ZCOPY" in h for h in all_headers(f).values()):
                        r.bad("header-shared", "a frame copy shares headers", "header-shared")
                    if r.violations:
                        break
                    r.c["probe.imgcopy_%s" % ("full" if op["full"] else "headers")] += 1
                elif k == "save":
                    d = os.path.join(w.root, "out")
                    os.makedirs(d, exist_ok=True)
                    names = ["s%d_%s" % (op["k"], f.filename) for f in ds.frames] if op["full"] else None
                    st, v = w.call(lambda: ds.save(filedir=d, filenames=names) if names else ds.save(filedir=d))
                    if st != "ok":
                        r.bad("save-fails", "saving a dataset: %r" % (v,))
                        break
                    paths = [f.filepath for f in ds.frames]
                    st, v = w.call(lambda: data.Dataset(paths))
                    if st != "ok":
                        r.bad("reload-fails", "reloading a dataset: %r" % (v,))
                        break
                    dup = len(set(paths)) < len(paths)
                    if not dup:
                        if not all(same(getattr(v, "all_" + a), getattr(m, a)) for a in ARR):
                            r.bad("reload-pixels", "a reloaded dataset differs")
                            break
                    groups += 1
                    if len(pool) < 6:
                        pool.append(DS(v, groups - 1))
                    else:
                        pool[1 + op["k"] % 5] = DS(v, groups - 1)
                # datasets that may share pixels with the one touched: their values may have moved, their consistency not
                if k in ("edit", "update", "addterm", "rescale"):
                    for o in pool:
                        if o is not m and o.group == m.group:
                            o.resync()
                self.check(pool, r, k)
                r.note(k, n, len(pool))
                if r.violations:
                    break
                r.state([(p.data.tobytes(), p.err.shape, p.group) for p in pool])
            r.nontrivial = sum(v for a, v in r.c.items() if a.startswith("op.")) >= 5 and len(used) > 1
            r.take_world(w)
        return r

    def datasets(self, v):
        if isinstance(v, self.data.Dataset):
            return [v]
        if isinstance(v, (list, tuple)):
            return [d for x in v for d in self.datasets(x)]
        return []

    def check(self, pool, r, k):
        for j, m in enumerate(pool):
            ds = m.ds
            for a in ARR:
                stack = getattr(ds, "all_" + a)
                want = getattr(m, a)
                if not same(stack, want):
                    return r.bad("stack-values", "after %s: all_%s of dataset %d is not what its history gives" % (k, a, j), "stack:%s" % a)
                for i, f in enumerate(ds.frames):
                    v = getattr(f, a)
                    if not same(v, stack[i]):
                        return r.bad("frame-differs", "after %s: frame %d of dataset %d shows other %s than the stack" % (k, i, j, a), "frame:%s" % a)
                    # an edit through one is visible through the other
                    pos = (Ellipsis, 0, 0)
                    old = stack[i][pos].copy()
                    v[pos] = other(old)
                    ok = same(stack[i][pos], other(old))
                    v[pos] = old
                    if not ok:
                        return r.bad("link-lost", "after %s: an edit of frame %d of dataset %d is not visible in all_%s" % (k, i, j, a), "link:%s" % a)
                    stack[i][pos] = other(old)
                    ok = same(v[pos], other(old))
                    stack[i][pos] = old
                    if not ok:
                        return r.bad("link-lost", "after %s: an edit of all_%s is not visible in frame %d of dataset %d" % (k, a, i, j), "link:%s" % a)
