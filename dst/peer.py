"""A second real interpreter with another hash seed, used as an independent observer."""
import json
import os
import subprocess
import sys

_peers = {}

CODE = r'''
import sys, json, io
out = sys.stdout
sys.stdout = io.StringIO()
import warnings
warnings.simplefilter("ignore")
import corgidrp.data as data, corgidrp.caldb
out.write("ready\n"); out.flush()
for line in sys.stdin:
    q = json.loads(line)
    try:
        if q["cmd"] == "hash":
            data.corgidrp.track_individual_errors = q["track"]
            o = getattr(data, q["cls"])(q["path"])
            r = {"hash": str(o.get_hash())}
    except Exception as e:
        r = {"error": repr(e)}
    out.write(json.dumps(r) + "\n"); out.flush()
'''


def peer(hashseed):
    p = _peers.get(hashseed)
    if p is None or p.poll() is not None:
        home = os.path.join(os.environ.get("DST_SCRATCH", "/tmp"), "peer-%d-%s" % (os.getpid(), hashseed))
        os.makedirs(home, exist_ok=True)
        env = dict(os.environ, HOME=home, PYTHONHASHSEED=hashseed)
        p = subprocess.Popen([sys.executable, "-c", CODE], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, text=True, bufsize=1)
        if p.stdout.readline().strip() != "ready":
            raise RuntimeError("peer process did not start")
        _peers[hashseed] = p
    return p


def start():
    """Start before a simulated world is entered (it needs the real file system)."""
    return peer("777")


def ask(**q):
    p = peer("777")
    p.stdin.write(json.dumps(q) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())
