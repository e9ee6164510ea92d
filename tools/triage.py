#!/usr/bin/env python3
"""Developer aid: runs a seed range for several properties, prints violation classes with example seeds."""
import json, os, re, subprocess, sys, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
import build
exe = build.build()
props = sys.argv[1].split(",")
secs = float(sys.argv[2]) if len(sys.argv) > 2 else 10
base = int(sys.argv[3]) if len(sys.argv) > 3 else 1
os.makedirs("/tmp/tri", exist_ok=True)
def one(job):
    prop, w = job
    res, first, left = [], w, secs
    import time
    t0 = time.time()
    while time.time() - t0 < secs:
        r = subprocess.run([exe, "batch", prop, str(base), str(first), "8", str(max(1, secs - (time.time() - t0))), "100000000", "/tmp/tri", "%s%d" % (prop, w)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        res += r.stdout.splitlines()
        m = re.search(r"LSQSIM-FATAL (.*) seed=(\d+) idx=(\d+)", r.stdout)
        if m:
            res.append(json.dumps({"t": "violation", "seed": int(m.group(2)), "cls": "FATAL " + m.group(1), "msg": r.stderr.strip().splitlines()[-1] if r.stderr.strip() else "", "size": 0}))
            first = int(m.group(3)) + 8
            continue
        break
    return prop, res
for p in props:
    with ThreadPoolExecutor(8) as ex:
        allr = list(ex.map(one, [(p, w) for w in range(8)]))
    cls = collections.defaultdict(list)
    runs = nt = 0
    cnt = collections.Counter()
    for prop, res in allr:
        for l in res:
            try: d = json.loads(l)
            except Exception: continue
            if d["t"] == "violation": cls[d["cls"]].append(d)
            if d["t"] == "summary":
                runs += d["runs"]; nt += d["nontrivial"]; cnt.update(d["counters"])
    print("==", p, "runs", runs, "nontrivial", nt)
    if "-c" in sys.argv: print("   ", dict(sorted(cnt.items())))
    for c, ds in sorted(cls.items(), key=lambda x: -len(x[1])):
        print("  %-20s %d" % (c, len(ds)))
        ds.sort(key=lambda d: d["size"])
        for d in ds[:3]: print("       seed", d["seed"], "size", d["size"], d["msg"][:230])
