"""Seeds -> traces -> runs: lanes, minimisation, replay files, known findings, evidence."""
import collections
import contextlib
import copy
import faulthandler
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
NLANES = 8
_mono = time.monotonic


# ---------------------------------------------------------------- result of one run
class Run:
    """What one simulated run did."""

    def __init__(self):
        self.violations = []
        self.c = collections.Counter()      # counters: ops, faults, probes
        self.states = set()
        self.log = []
        self.sim_time = 0.0
        self.nontrivial = False

    def bad(self, kind, msg, sig=None):
        self.violations.append({"kind": kind, "msg": str(msg)[:600], "sig": sig or kind})

    def state(self, obj):
        self.states.add(hashlib.sha1(repr(obj).encode()).hexdigest()[:12])

    def note(self, *a):
        self.log.append(" ".join(str(x) for x in a))

    def digest(self):
        return hashlib.sha1("\n".join(self.log).encode()).hexdigest()[:16]

    def take_world(self, w):
        for k, v in w.fs.counts.items():
            self.c["io." + k] += v
        for k, v in w.fs.fault_counts.items():
            self.c["fault." + k] += v
        self.c["boots"] += w.boots
        self.sim_time += w.clock.span
        self.log.extend(w.fs.log)


class Check:
    id = None
    title = ""
    seeds = {"quick": 800, "thorough": 20000}
    budget = {"quick": 36.0, "thorough": 840.0}
    rule = ""
    real = []
    stub = []
    preload = ("corgidrp.caldb",)
    level = "exploration"
    assumptions = []
    min_runs = 1

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, trace):
        raise NotImplementedError

    # optional simplifications of one op (list of alternatives)
    def simpler(self, op):
        out = []
        if op.get("fault"):
            o = dict(op)
            o.pop("fault")
            out.append(o)
        return out


CHECKS = {
    "C01": ("dst.checks.caldb", "C01"), "C02": ("dst.checks.caldb", "C02"),
    "C03": ("dst.checks.caldb", "C03"), "C04": ("dst.checks.caldb", "C04"),
    "C05": ("dst.checks.product", "C05"), "C06": ("dst.checks.product", "C06"),
    "C07": ("dst.checks.startup", "C07"), "C08": ("dst.checks.startup", "C08"),
    "C09": ("dst.checks.steps", "C09"), "C10": ("dst.checks.dataset", "C10"),
    "C11": ("dst.checks.steps", "C11"), "C12": ("dst.checks.steps", "C12"),
    "C13": ("dst.checks.recipes", "C13"), "C14": ("dst.checks.recipes", "C14"),
    "C15": ("dst.checks.recipes", "C15"), "C16": ("dst.checks.environ", "C16"),
    "C17": ("dst.checks.klip", "C17"), "C18": ("dst.checks.recipes", "C18"),
    "C19": ("dst.checks.order", "C19"),
}


def load(pid):
    mod, name = CHECKS[pid]
    return getattr(importlib.import_module(mod), name)()


def trace_for(check, base_seed, i, tier):
    rng = random.Random("%s|%s|%d" % (check.id, base_seed, i))
    t = check.gen(rng, i, tier)
    t["property"] = check.id
    t["seed"] = [base_seed, i]
    return t


def lane_of(i):
    return i % NLANES


def hashseed(lane):
    return str([0, 1, 2, 3, 41, 42, 4242, 99991][lane % NLANES])


def env_for(lane_hashseed, scratch, tag="x"):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "LANG", "LC_ALL", "TMPDIR", "VERIF_SEED", "VERIF_TIER", "DST_REPO")}
    home = os.path.join(scratch, "harness-home-%s" % tag)      # one per process: the preload starts corgidrp in it
    os.makedirs(home, exist_ok=True)
    env.update(HOME=home, PYTHONPATH="%s:%s" % (REPO, VERIF), MPLBACKEND="Agg", MPLCONFIGDIR=home,
               PYTHONDONTWRITEBYTECODE="", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
               TZ="UTC", PYTHONHASHSEED=lane_hashseed, DST_SCRATCH=scratch, PYTHONUNBUFFERED="1",
               XDG_CACHE_HOME=home, XDG_CONFIG_HOME=home, PWD=home)  # PWD: where the user's shell was, not where the program is
    env.pop("PYTHONDONTWRITEBYTECODE")
    return env


@contextlib.contextmanager
def silence():
    """Keep the code under test off our stdout."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def preload(check):
    with silence():
        for m in check.preload:
            try:
                importlib.import_module(m)
            except Exception as e:
                if not from_sut(e.__traceback__):
                    raise
                # the code under test does not start: the runs will tell
    from . import world
    world.purge()


class HarnessError(Exception):
    pass


def from_sut(tb):
    """Does the traceback end inside the code under test (or in a library it called)?"""
    last = None
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(os.path.realpath(REPO) + os.sep):
            last = "sut"
        elif f.startswith(VERIF + os.sep) and os.path.basename(f) not in ("fs.py", "clock.py", "simpool.py"):    # (seams below the code)
            last = "harness"
    return last == "sut"


def execute(check, trace):
    try:
        with silence():
            r = check.run(copy.deepcopy(trace))
    except Exception as e:
        if from_sut(e.__traceback__):
            r = Run()
            where = [fr for fr in traceback.extract_tb(e.__traceback__)
                     if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO))][-1]
            r.bad("unexpected-exception", "%s: %s at %s" % (type(e).__name__, e, where.name),
                  "unexpected-exception:%s:%s" % (type(e).__name__, where.name))
            return r
        raise
    return r


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def match_known(pid, v, known):
    for k in known:
        if k["property"] == pid and v["sig"] in k["signatures"]:
            return k
    return None


# ---------------------------------------------------------------- lanes
def lane_main(pid, lane, base_seed, tier, budget, nseeds, out):
    faulthandler.enable()
    check = load(pid)
    preload(check)
    known = known_findings()
    t0 = _mono()
    res = {"lane": lane, "runs": 0, "violations": [], "known": {}, "counters": {}, "states": [], "digests": [],
           "sim_time": 0.0, "samples": [], "nontrivial": 0, "error": None, "seeds": [], "first": None}
    c = collections.Counter()
    states, digests = set(), []
    try:
        i = lane
        while i < nseeds and _mono() - t0 < budget:
            trace = trace_for(check, base_seed, i, tier)
            r = execute(check, trace)
            res["runs"] += 1
            c.update(r.c)
            res["sim_time"] += r.sim_time
            if len(states) < 200000:
                states |= r.states
            digests.append((i, r.digest()))
            if r.nontrivial:
                res["nontrivial"] += 1
            if len(res["samples"]) < 2 and r.nontrivial:
                res["samples"].append({"seed": [base_seed, i], "trace": compact(trace), "outcome": r.digest()})
            new = []
            for v in r.violations:
                k = match_known(pid, v, known)
                if k:
                    res["known"][k["id"]] = res["known"].get(k["id"], 0) + 1
                else:
                    new.append(v)
            if new:
                res["violations"].append({"i": i, "trace": trace, "v": new[0], "all": new[:5]})
                break
            i += NLANES
    except BaseException:
        res["error"] = traceback.format_exc()
    res["counters"] = dict(c)
    res["states"] = sorted(states)
    res["digests"] = digests
    with open(out, "w") as f:
        json.dump(res, f)


def compact(trace):
    s = json.dumps(trace, default=str)
    return json.loads(s) if len(s) < 3000 else {"ops": len(trace.get("ops", [])), "head": s[:1500]}


# ---------------------------------------------------------------- minimisation and replay
def violates(check, trace, sig, known, tries=1):
    r = execute(check, trace)
    for v in r.violations:
        if match_known(check.id, v, known):
            continue
        if v["kind"] == sig["kind"]:
            return v
    return None


def minimise(check, trace, v, seconds):
    known = known_findings()
    t_end = _mono() + seconds
    best, bv = trace, v
    if "ops" not in trace:
        return best, bv

    def attempt(ops):
        nonlocal best, bv
        if _mono() > t_end:
            return False
        t = dict(best)
        t["ops"] = ops
        try:
            w = violates(check, t, v, known)
        except Exception:
            return False
        if w:
            best, bv = t, w
            return True
        return False

    n = 2
    while len(best["ops"]) > 1 and _mono() < t_end:
        ops = best["ops"]
        size = max(1, len(ops) // n)
        done = False
        for s in range(0, len(ops), size):
            if attempt(ops[:s] + ops[s + size:]):
                done = True
                n = max(2, n - 1)
                break
        if not done:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    changed = True
    while changed and _mono() < t_end:
        changed = False
        for j, op in enumerate(best["ops"]):
            for alt in check.simpler(op):
                if attempt(best["ops"][:j] + [alt] + best["ops"][j + 1:]):
                    changed = True
                    break
    return best, bv


def minimise_main(pid, infile, outfile, seconds):
    check = load(pid)
    preload(check)
    d = json.load(open(infile))
    t, v = minimise(check, d["trace"], d["v"], seconds)
    with open(outfile, "w") as f:
        json.dump({"trace": t, "v": v}, f)


def replay_main(path, quiet=False):
    """Exit 1 and print the violation if the replay file still fails."""
    d = json.load(open(path))
    check = load(d["property"])
    preload(check)
    r = execute(check, d["trace"])
    known = known_findings()
    for v in r.violations:
        if not match_known(check.id, v, known) and (v["kind"] == d["violation"]["kind"] or not quiet):
            print("REPRODUCED property=%s kind=%s: %s" % (d["property"], v["kind"], v["msg"]))
            print("event log digest %s" % r.digest())
            return 1
    print("NOT REPRODUCED")
    return 0


def sub(args, hs, scratch, timeout):
    p = subprocess.run([PY, "-m", "dst"] + args, env=env_for(hs, scratch), cwd=scratch, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p


# ---------------------------------------------------------------- the check command
def check_main(pid, tier, base_seed, budget=None, nseeds=None):
    import tempfile
    t0 = _mono()
    check = load(pid)
    budget = budget or check.budget[tier]
    nseeds = nseeds or check.seeds[tier]
    scratch = tempfile.mkdtemp(prefix="dstv-")
    rc = 2
    try:
        rc = _check(check, pid, tier, base_seed, budget, nseeds, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _check(check, pid, tier, base_seed, budget, nseeds, scratch, t0):
    print("check %s tier=%s VERIF_SEED=%s budget=%.0fs seeds<=%d lanes=%d" % (pid, tier, base_seed, budget, nseeds, NLANES))
    sys.stdout.flush()
    procs = []
    # warm the byte-code cache once so that eight lanes do not race to compile the same files
    for lane in range(NLANES):
        out = os.path.join(scratch, "lane%d.json" % lane)
        err = open(os.path.join(scratch, "lane%d.err" % lane), "w")
        p = subprocess.Popen([PY, "-m", "dst", "lane", pid, str(lane), str(base_seed), tier, str(budget), str(nseeds), out],
                             env=env_for(hashseed(lane), scratch, "lane%d" % lane), cwd=scratch, stdout=err, stderr=err)
        procs.append((lane, p, out))
    hard = _mono() + budget + 240
    lanes, errors = [], []
    for lane, p, out in procs:
        try:
            p.wait(timeout=max(1, hard - _mono()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("lane %d: killed at the wall-clock limit" % lane)
            continue
        if not os.path.exists(out):
            tail = open(os.path.join(scratch, "lane%d.err" % lane)).read()[-1500:]
            errors.append("lane %d: no result (exit %s)\n%s" % (lane, p.returncode, tail))
            continue
        r = json.load(open(out))
        if r["error"]:
            errors.append("lane %d: %s" % (lane, r["error"]))
        lanes.append(r)
    viols = sorted((v for r in lanes for v in r["violations"]), key=lambda v: v["i"])
    known_hits = collections.Counter()
    for r in lanes:
        known_hits.update(r["known"])
    replay = None
    confirmed = None
    if viols:
        replay, confirmed = report(check, pid, viols, scratch)
    write_evidence(check, pid, tier, base_seed, lanes, known_hits, viols, replay, confirmed, _mono() - t0)
    runs = sum(r["runs"] for r in lanes)
    print("runs=%d wall=%.1fs" % (runs, _mono() - t0))
    for k in known_findings():
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s (hit %d times in this run)" % (pid, k["what"], known_hits.get(k["id"], 0)))
    if viols:
        if confirmed:
            print("violation: kind=%s: %s" % (confirmed["kind"], confirmed["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("ERROR: a violation was seen but its replay did not reproduce it: %s" % viols[0]["v"])
        return 2
    if errors:
        print("ERROR: harness failure\n" + "\n".join(e[-1500:] for e in errors[:3]))
        return 2
    if runs < check.min_runs:
        print("ERROR: only %d runs" % runs)
        return 2
    print("OK property=%s held on %d simulated runs" % (pid, runs))
    return 0


def report(check, pid, viols, scratch):
    """Minimise the first violation, write its replay file and confirm it in a fresh process."""
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    fallback = None
    for item in viols[:4]:
        lane = lane_of(item["i"])
        hs = hashseed(lane)
        cands = []
        inf, outf = os.path.join(scratch, "min-in.json"), os.path.join(scratch, "min-out.json")
        json.dump({"trace": item["trace"], "v": item["v"]}, open(inf, "w"))
        try:
            sub(["minimise", pid, inf, outf, "40"], hs, scratch, 150)
            if os.path.exists(outf):
                d = json.load(open(outf))
                cands.append((d["trace"], d["v"]))
                os.remove(outf)
        except subprocess.TimeoutExpired:
            pass
        cands.append((item["trace"], item["v"]))
        for t, v in cands:
            name = "%s-%s-%s.json" % (pid, "-".join(str(x) for x in item["trace"]["seed"]), v["kind"].replace("/", "_")[:40])
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump({"property": pid, "violation": v, "hashseed": hs, "trace": t,
                           "original_ops": len(item["trace"].get("ops", [])), "ops": len(t.get("ops", []))}, f, indent=1)
            fallback = fallback or path
            try:
                p = sub(["replay", path], hs, scratch, 200)
            except subprocess.TimeoutExpired:
                continue
            if p.returncode == 1 and "REPRODUCED" in p.stdout:
                return path, v
    return fallback, None


def write_evidence(check, pid, tier, base_seed, lanes, known_hits, viols, replay, confirmed, wall):
    c = collections.Counter()
    states = set()
    digests = []
    samples = []
    for r in lanes:
        c.update(r["counters"])
        states |= set(r["states"])
        digests += r["digests"]
        samples += r["samples"]
    runs = sum(r["runs"] for r in lanes)
    distinct = len(set(d for _, d in digests))
    nontriv = sum(r["nontrivial"] for r in lanes)
    sim = sum(r["sim_time"] for r in lanes)
    ev = {
        "property": pid, "tier": tier, "seed": int(base_seed), "level": check.level,
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": min(nontriv, distinct),
            "rule": check.rule, "samples": samples[:6] or [{"note": "no non-trivial run completed"}],
            "runs_per_hour": int(runs / max(wall, 1e-9) * 3600), "seeds": runs,
            "simulated_seconds": round(sim, 1),
            "faults_injected": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")},
            "storage_events": {k[3:]: v for k, v in sorted(c.items()) if k.startswith("io.")},
            "operations": {k[3:]: v for k, v in sorted(c.items()) if k.startswith("op.")},
            "probes": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("probe.")},
            "process_incarnations": c.get("boots", 0),
            "distinct_schedules": distinct, "distinct_schedules_measure": "distinct event-log digests of whole runs",
            "distinct_states": len(states), "distinct_states_measure": "distinct hashes of the model/disk state after an operation",
            "known_finding_hits": dict(known_hits),
            "components_real": check.real, "components_stubbed": check.stub,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if confirmed else 0,
    }
    if replay:
        ev["coverage"]["replay"] = replay
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
