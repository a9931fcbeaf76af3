import sys
from . import harness as h

a = sys.argv[1:]
if a[0] == "lane":
    h.lane_main(a[1], int(a[2]), int(a[3]), a[4], float(a[5]), int(a[6]), a[7])
elif a[0] == "minimise":
    h.minimise_main(a[1], a[2], a[3], float(a[4]))
elif a[0] == "replay":
    sys.exit(h.replay_main(a[1]))
elif a[0] == "digests":       # print the event-log digests of seeds lo..hi (determinism proofs)
    check = h.load(a[1])
    h.preload(check)
    for i in range(int(a[3]), int(a[4])):
        t = h.trace_for(check, int(a[2]), i, "quick")
        r = h.execute(check, t)
        print(i, r.digest(), [v["kind"] for v in r.violations])
elif a[0] == "show":
    import json
    check = h.load(a[1])
    h.preload(check)
    t = h.trace_for(check, int(a[2]), int(a[3]), "quick")
    print(json.dumps(t))
    r = h.execute(check, t)
    print("\n".join(r.log))
    print(r.violations, dict(r.c))
