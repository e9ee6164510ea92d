#!/usr/bin/env python3
"""Developer aid: minimise a scenario for (prop, class prefix) -> prints it. class FATAL = crash."""
import subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
import build
exe = build.build()
prop, cls, seed = sys.argv[1:4]
if os.path.exists(seed): text = open(seed).read()
else: text = subprocess.run([exe, "gen", prop, seed], stdout=subprocess.PIPE, text=True).stdout
n = [0]
def bad(lines):
    n[0] += 1
    f = "/tmp/w/min.%d" % os.getpid()
    open(f, "w").write("\n".join(lines) + "\n")
    r = subprocess.run([exe, "run", f, prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    if cls == "FATAL": return "LSQSIM-FATAL" in r.stdout
    return any(l.startswith("V %s %s" % (prop, cls)) for l in r.stdout.splitlines())
L = text.strip().splitlines()
assert bad(L), "not reproduced"
def fixed(l): return l.startswith(("family", "seed", "opt ", "L "))
ch = True
while ch:
    ch = False
    size = max(1, len(L) // 2)
    while size >= 1:
        i = 0
        while i < len(L):
            seg = L[i:i+size]
            if any(fixed(l) for l in seg):
                if size == 1: i += 1; continue
                keep = [l for l in seg if fixed(l)]
            else: keep = []
            if len(keep) == len(seg): i += size; continue
            c = L[:i] + keep + L[i+size:]
            if bad(c): L = c; ch = True
            else: i += size
        size //= 2
print("\n".join(L))
open("/tmp/w/m", "w").write("\n".join(L) + "\n")
print("--", n[0], "runs")
subprocess.run([exe, "run", "/tmp/w/m", prop])
subprocess.run([exe, "explain", "/tmp/w/m"])
