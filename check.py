#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

  check.py <ID> quick|thorough      search; VERIF_SEED selects the seeds
  check.py <ID> replay <file>       replay a scenario (or history of scenarios)

Exit 0: the property held on everything explored.  Exit 1: `VIOLATION property=<ID> replay=<file>`.
Any other exit is an error of the check itself."""
import collections, glob, hashlib, json, os, re, subprocess, sys, tempfile, shutil, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild
import meta as simmeta

T0 = time.time()
WORKERS = int(os.environ.get("LSQSIM_WORKERS", str(min(8, os.cpu_count() or 1))))
BUDGET = {"quick": float(os.environ.get("LSQSIM_SECS", "45")), "thorough": float(os.environ.get("LSQSIM_SECS", "600"))}
MINIMISE_SECS = 60
FATAL = re.compile(r"LSQSIM-FATAL (.*) seed=(\S+)(?: idx=(\d+))?")


def die(msg, code=3):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def known_findings(prop):
    """known: property=<ID> class=<class> replay=<file> <text>   |   fixed: ... (suppresses nothing)"""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append({"cls": m.group(2), "replay": os.path.join(HERE, m.group(3)), "text": m.group(4)})
    return res


class Sim:
    def __init__(self, exe, prop):
        self.exe, self.prop = exe, prop
        self.tmp = tempfile.mkdtemp(prefix="lsqsim-")
        os.environ["LSQSIM_TMP"] = self.tmp
        self.n = 0
        self.lock = threading.Lock()

    def file(self, text):
        with self.lock:
            self.n += 1
            f = os.path.join(self.tmp, "s%d.scn" % self.n)
        with open(f, "w") as o:
            o.write(text)
        return f

    def run_file(self, f):
        """-> (violations [(prop, cls, msg)], hash, fatal or None)"""
        r = subprocess.run([self.exe, "run", f, self.prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           stdin=subprocess.DEVNULL, timeout=600, cwd=self.tmp)
        out = r.stdout.decode("utf-8", "replace")
        m = FATAL.search(out)
        vs, h = [], None
        for l in out.splitlines():
            if l.startswith("V "):
                w = l.split(" ", 3)
                vs.append((w[1], w[2], w[3]))
            elif l.startswith("HASH "):
                h = l[5:]
        if m:
            return [(self.prop, "fatal:" + m.group(1).strip().replace(" ", "-"), "the process " + m.group(1))], "fatal", m.group(1)
        if h is None:
            if r.returncode < 0:
                return [(self.prop, "fatal:signal%d" % -r.returncode, "the process died")], "fatal", "signal"
            die("simulator gave no result on %s (exit %d): %s" % (f, r.returncode, out[-300:]))
        return vs, h, None

    def run_text(self, text):
        f = self.file(text)
        try:
            return self.run_file(f)
        finally:
            os.unlink(f)

    def gen(self, seed):
        return subprocess.run([self.exe, "gen", self.prop, str(seed)], stdout=subprocess.PIPE, text=True, check=True).stdout

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def classes(prop, vs):
    return {c for p, c, _ in vs if p == prop}


def minimise(sim, text, cls, deadline):
    """Line-level delta debugging: drops scenarios of a history, program lines and faults; keeps options and layout."""
    def bad(blocks):
        vs, _, _ = sim.run_text("\n----\n".join("\n".join(b) for b in blocks) + "\n")
        return cls in classes(sim.prop, vs)
    blocks = [b.strip().splitlines() for b in re.split(r"^----.*$", text, flags=re.M)]
    def removable(l):
        return l.startswith("p ") or l.startswith("fault ")
    runs = 0
    while len(blocks) > 1 and time.time() < deadline:   # shorten the history first
        step = max(1, (len(blocks) - 1) // 2)
        done = False
        while step >= 1 and not done and time.time() < deadline:
            for i in range(0, len(blocks) - 1, step):
                c = blocks[:i] + blocks[min(i + step, len(blocks) - 1):]
                runs += 1
                if bad(c):
                    blocks = c
                    done = True
                    break
            step //= 2
        if not done:
            break
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for bi in range(len(blocks) - 1, -1, -1):
            L = blocks[bi]
            idx = [i for i, l in enumerate(L) if removable(l)]
            size = max(1, len(idx) // 2)
            while size >= 1 and time.time() < deadline:
                k = 0
                while k < len(idx) and time.time() < deadline:
                    drop = set(idx[k:k + size])
                    c = [l for i, l in enumerate(L) if i not in drop]
                    runs += 1
                    if bad(blocks[:bi] + [c] + blocks[bi + 1:]):
                        L = c
                        blocks[bi] = L
                        idx = [i for i, l in enumerate(L) if removable(l)]
                        changed = True
                    else:
                        k += size
                size //= 2
    return "\n----\n".join("\n".join(b) for b in blocks) + "\n", runs


def confirm(sim, text, cls):
    """the violation class shows, with the same event log, in two fresh processes"""
    a, b = sim.run_text(text), sim.run_text(text)
    return cls in classes(sim.prop, a[0]) and cls in classes(sim.prop, b[0]) and a[1] == b[1]


def report(sim, text, cls, msg):
    text, runs = minimise(sim, text, cls, time.time() + MINIMISE_SECS)
    if not confirm(sim, text, cls):
        die("minimised scenario does not replay")
    d = os.path.join(HERE, ".build", "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s.scn" % (sim.prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
    with open(f, "w") as o:
        o.write(text)
    vs, _, _ = sim.run_file(f)
    for p, c, m in vs:
        if p == sim.prop and c == cls:
            msg = m
            break
    seed = re.findall(r"^seed (\d+)", text, flags=re.M)
    print("violation class %s: %s" % (cls, msg))
    print("seed %s; minimised in %d runs to:" % (seed[-1] if seed else "?", runs))
    print("\n".join("    " + l for l in text.splitlines()[:60]))
    print("VIOLATION property=%s replay=%s" % (sim.prop, f), flush=True)
    return f


def worker(sim, base, first, end, known, hits, results, stop, procs):
    """runs batches until the time is used up; a fatal run ends its process, the search goes on behind it"""
    i = first
    while time.time() < end - 0.3 and not stop.is_set():
        tag = "w%d.%d" % (first, i)
        env = dict(os.environ, LSQSIM_KNOWN=",".join(known))
        p = subprocess.Popen([sim.exe, "batch", sim.prop, str(base), str(i), str(WORKERS), "%.1f" % (end - time.time()), "1000000000", sim.tmp, tag],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env, cwd=sim.tmp)
        procs.append(p)
        if stop.is_set():
            p.terminate()
        fatal = None
        for raw in p.stdout:
            l = raw.decode("utf-8", "replace")
            m = FATAL.search(l)
            if m:
                fatal = (m.group(1).strip(), int(m.group(2)), int(m.group(3)))
                hits.append({"seed": fatal[1], "idx": fatal[2], "cls": "fatal:" + fatal[0].replace(" ", "-"), "msg": "the process " + fatal[0], "size": 0, "start": i, "hash": "fatal"})
                stop.set()
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "violation":
                d["start"] = i
                hits.append(d)
                stop.set()
            elif d["t"] in ("summary", "sample"):
                results.append(d)
        p.wait()
        if fatal is None:
            if p.returncode != 0 and not stop.is_set():
                results.append({"t": "broken", "rc": p.returncode})
            return
        i = fatal[2] + WORKERS


def judge(sim, base, hits, known):
    """turn raw hits into one confirmed, minimised violation"""
    hits = [h for h in hits if h["cls"] not in known]
    seen = set()
    unconfirmed = []
    for h in sorted(hits, key=lambda h: (h["size"] == 0, h["size"], h["idx"])):
        if h["cls"] in seen or len(seen) > 8:
            continue
        text = sim.gen(h["seed"])
        if confirm(sim, text, h["cls"]):
            return text, h["cls"], h["msg"]
        seen.add(h["cls"])
        unconfirmed.append(h)
    for h in unconfirmed[:3]:      # needs the history of its process
        k = (h["idx"] - h["start"]) // WORKERS
        for n in sorted({min(k, n) for n in (1, 4, 16, 64, 256, 1024, 4096)}):
            texts = [sim.gen(splitseed(base, h["idx"] - j * WORKERS)) for j in range(n, 0, -1)] + [sim.gen(h["seed"])]
            text = "\n----\n".join(t.strip() for t in texts) + "\n"
            if confirm(sim, text, h["cls"]):
                return text, h["cls"], h["msg"]
    if unconfirmed:
        die("a violation did not replay: " + json.dumps(unconfirmed[0]))
    return None


M64 = (1 << 64) - 1
def mix(a, b):
    z = a ^ ((b + 0x9E3779B97F4A7C15 + ((a << 6) & M64) + (a >> 2)) & M64)
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)
def splitseed(base, i):
    return mix(mix(base, 0x5eed), i) >> 1


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        exe = simbuild.build()
    except Exception as e:
        die("build failed: %s" % e)
    sim = Sim(exe, prop)
    try:
        if tier == "replay":
            vs, h, fatal = sim.run_file(os.path.abspath(sys.argv[3]))
            mine = [(c, m) for p, c, m in vs if p == prop]
            for c, m in mine:
                print("violation class %s: %s" % (c, m))
            print("event log hash", h)
            if mine:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(sys.argv[3])))
            return 1 if mine else 0
        return search(sim, prop, tier)
    finally:
        sim.close()


def search(sim, prop, tier):
    meta = simmeta.meta(prop)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = int.from_bytes(hashlib.sha256(("%s/%s/%d" % (prop, tier, seed)).encode()).digest()[:8], "big")
    known = {}
    for k in known_findings(prop):
        vs, _, _ = sim.run_file(k["replay"])
        if k["cls"] in classes(prop, vs):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]), flush=True)
        known[k["cls"]] = k
    found = None
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.scn")))
    for f in corpus:               # scenarios kept because they reach something rare
        text = open(f).read()
        vs, _, _ = sim.run_text(text)
        bad = sorted(c for c in classes(prop, vs) if c not in known)
        if bad and confirm(sim, text, bad[0]):
            found = (text, bad[0], "")
            break
    hits, results, stop, procs = [], [], threading.Event(), []
    t1 = time.time()
    if not found:
        end = t1 + BUDGET[tier]
        ths = [threading.Thread(target=worker, args=(sim, base, w, end, known, hits, results, stop, procs)) for w in range(WORKERS)]
        for t in ths:
            t.start()
        while any(t.is_alive() for t in ths):
            if stop.is_set():          # the first violation ends the search
                for p in list(procs):
                    if p.poll() is None:
                        p.terminate()
            if time.time() > end + 120:
                for p in list(procs):
                    if p.poll() is None:
                        p.kill()
            for t in ths:
                t.join(0.1)
        found = judge(sim, base, hits, known)
    search_s = time.time() - t1
    broken = [r for r in results if r["t"] == "broken"]
    if broken and not found:
        die("a worker ended abnormally: %s" % broken[0])

    sums = [r for r in results if r["t"] == "summary"]
    counters, fams = collections.Counter(), collections.Counter()
    for r in sums:
        counters.update(r["counters"])
        fams.update(r["families"])
    hashes = set()
    for f in glob.glob(os.path.join(sim.tmp, "*.hashes")):
        b = open(f, "rb").read()
        hashes.update(b[i:i + 8] for i in range(0, len(b) - len(b) % 8, 8))
    bitmap = 0
    for f in glob.glob(os.path.join(sim.tmp, "*.bitmap")):
        bitmap |= int.from_bytes(open(f, "rb").read(), "little")
    states = bitmap.bit_count()
    runs = sum(r["runs"] for r in sums) + len(corpus)
    # determinism: a sample of this run's seeds again, in other processes with another history
    again = [x for r in sums for x in r.get("recheck", [])]
    mism = 0
    if again and not found:
        again = again[:240]
        jobs = [again[i::4] for i in range(4)]
        ps = [subprocess.Popen([sim.exe, "hashes", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=sim.tmp) for _ in jobs]
        for j, p in zip(jobs, ps):
            p.stdin.write(("\n".join(s for s, _ in reversed(j)) + "\n").encode())
            p.stdin.close()
        for j, p in zip(jobs, ps):
            got = dict(l.split() for l in p.stdout.read().decode().splitlines() if len(l.split()) == 2)
            p.wait()
            for s, h in j:
                if got.get(s) != h:
                    mism += 1
                    print("replay mismatch: seed %s" % s)
    violations = 0
    rc = 0
    if found:
        report(sim, *found)
        violations, rc = 1, 1
    elif mism:
        die("%d of %d seeds did not replay to the same event log" % (mism, len(again)))

    samples = [{"seed": r["seed"], "event_log_hash": r["hash"], "scenario": r["text"].splitlines()[:80]} for r in results if r["t"] == "sample"][:3]
    if not samples and found:
        samples = [{"scenario": found[0].splitlines()[:80]}]
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": meta["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"],
            "samples": samples,
            "simulated_runs_per_hour": int(runs / search_s * 3600) if search_s > 0.5 else 0,
            "seeds": {"base": base, "count": runs, "derivation": "splitmix(base, run index)"},
            "simulated_time": {"total": sum(r["sim_time"] for r in sums), "unit": meta["time_unit"]},
            "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault_")},
            "probes": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault_")},
            "distinct_states": {"count": states, "measure": meta["state_measure"] + " (24-bit hash set)"},
            "scenario_families": dict(fams),
            "corpus_scenarios": len(corpus),
            "determinism_recheck": {"seeds": len(again), "mismatches": mism},
            "known_finding_runs": sum(r.get("known", 0) for r in sums),
            "real_components": meta["real"], "simulated_components": meta["stub"],
            "workers": WORKERS,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - T0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")
    if rc == 0:
        print("property=%s held in %d simulated runs (%d distinct non-trivial, %d states) in %.0f s" % (prop, runs, len(hashes), states, time.time() - T0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
