"""Development aid: run many seeds of a check without stopping and list every kind of violation. Usage: triage.py C09 [n] [start]"""
import collections, multiprocessing as mp, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lane(pid, lane, n, start, base):
    sys.path[:0] = [V]
    from dst import harness
    check = harness.load(pid)
    harness.preload(check)
    for i in range(start + lane, start + n, int(os.environ.get("LANES", 8))):
        try:
            t = harness.trace_for(check, base, i, "quick")
            r = harness.execute(check, t)
        except BaseException as e:
            import traceback
            print("ERR\t%d\tharness %s\t%s" % (i, type(e).__name__, traceback.format_exc().replace("\n", " | ")[-700:]), flush=True)
            continue
        for v in r.violations[:1]:
            print("V\t%d\t%s\t%s" % (i, v["sig"], v["msg"][:420].replace("\n", " ")), flush=True)
        print("R\t%d\t%s\t" % (i, "nt" if r.nontrivial else "t"), flush=True)


if sys.argv[1] == "--lane":
    lane(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]))
    sys.exit()
sys.path[:0] = [V]
from dst import harness
import tempfile, shutil
pid = sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 200
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
base = int(sys.argv[4]) if len(sys.argv) > 4 else 1
scratch = tempfile.mkdtemp(prefix="tri-")
ps = [subprocess.Popen(["timeout", "800", harness.PY, os.path.abspath(__file__), "--lane", pid, str(l), str(n), str(start), str(base)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=dict(harness.env_for(harness.hashseed(l), scratch, "t%d" % l), LANES=os.environ.get("LANES", "8"))) for l in range(int(os.environ.get("LANES", 8)))]
c = collections.Counter()
ex = {}
runs = nt = 0
for p in ps:
    o, e = p.communicate()
    if p.returncode:
        print("lane rc", p.returncode, e[-500:])
    for l in o.split("\n"):
        if l.count("\t") < 3:
            continue
        k, i, s, m = l.split("\t", 3)
        if k == "R":
            runs += 1
            nt += s == "nt"
        else:
            c[s] += 1
            ex.setdefault(s, (i, m))
shutil.rmtree(scratch, ignore_errors=True)
print("runs", runs, "nontrivial", nt)
for s, k in c.most_common():
    print(k, s, "seed", ex[s][0], ex[s][1])
