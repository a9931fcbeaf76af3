"""A second interpreter that plays the same simulated session in another environment (hash seed, time zone)."""
import base64
import importlib
import io
import json
import os
import pickle
import subprocess
import sys

_peers = {}


def main():
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)                # libraries print straight to file descriptor 1
    sys.stdout = io.StringIO()
    import warnings
    warnings.simplefilter("ignore")
    for m in json.loads(sys.argv[1]):
        importlib.import_module(m)
    from dst import world
    world.purge()
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = getattr(importlib.import_module(q["mod"]), q["fn"])(*q["args"])
            r = ("ok", r)
        except BaseException as e:
            import traceback
            r = ("error", "%r\n%s" % (e, traceback.format_exc()))
        out.write(base64.b64encode(pickle.dumps(r)).decode() + "\n")
        out.flush()
        sys.stdout.seek(0)
        sys.stdout.truncate()


def start(preload, hashseed, tz):
    """The peer for one environment; call it outside a simulated world."""
    key = (tuple(preload), hashseed, tz)
    p = _peers.get(key)
    if p is None or p.poll() is not None:
        home = os.path.join(os.environ.get("DST_SCRATCH", "/tmp"), "peer-%d-%s" % (os.getpid(), hashseed))
        os.makedirs(home, exist_ok=True)
        env = dict(os.environ, HOME=home, PWD=home, PYTHONHASHSEED=hashseed, TZ=tz)
        p = subprocess.Popen([sys.executable, "-c", "from dst.envpeer import main; main()", json.dumps(list(preload))], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, bufsize=1)
        if p.stdout.readline().strip() != "ready":
            raise RuntimeError("peer process did not start")
        _peers[key] = p
    return p


def ask(p, mod, fn, *args):
    p.stdin.write(json.dumps({"mod": mod, "fn": fn, "args": args}) + "\n")
    p.stdin.flush()


def answer(p):
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("peer process ended")
    st, v = pickle.loads(base64.b64decode(line))
    if st != "ok":
        raise RuntimeError("peer process: " + v)
    return v
