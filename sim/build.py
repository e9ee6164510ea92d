#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (outside /repo, into /verif/.build).

Every translation unit is keyed by the content of itself, of all headers and of the flags, so a
change anywhere in /repo is always picked up."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("LSQSIM_REPO", "/repo")
OUT = os.environ.get("LSQSIM_BUILD", os.path.join(VERIF, ".build"))
FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-DENABLE_BOOST_GRAPH_SEARCH", "-D_GLIBCXX_ASSERTIONS",
         "-ffile-prefix-map=%s=/repo" % REPO]
SKIP = {"src/emscripten_bindings.cpp", "src/lsqecclib_pybind.cpp", "src/lsqecc_slicer_main.cpp"}


def includes():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "shim"), "-I/usr/include/postgresql"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(read(p))
    return h.hexdigest()


def compile_one(job):
    src, obj, extra = job
    if os.path.exists(obj):
        return None
    tmp = "%s.%d.%s" % (obj, os.getpid(), hashlib.md5(src.encode()).hexdigest()[:6])
    cmd = ["g++"] + FLAGS + extra + includes() + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "%s\n%s" % (src, r.stdout[-4000:])
    os.replace(tmp, obj)
    return None


def build(verbose=False):
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)
    hdr = tree_hash(os.path.join(REPO, "include"), (".hpp", ".h", ".inc", ".ipp"))
    hdr_src = tree_hash(os.path.join(REPO, "src"), (".hpp", ".h", ".inc", ".ipp"))
    shim = tree_hash(os.path.join(HERE, "shim"), (".hpp", ".h"))
    sim_hdr = tree_hash(os.path.join(HERE, "src"), (".hpp",))
    jobs, objs = [], []
    base = sha(hdr, hdr_src, shim, " ".join(FLAGS), " ".join(includes()))
    for src in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(src, REPO)
        if rel in SKIP:
            continue
        obj = os.path.join(objdir, sha(base, rel, read(src)) + ".o")
        jobs.append((src, obj, []))
        objs.append(obj)
    for src in sorted(glob.glob(os.path.join(HERE, "src", "*.cpp"))):
        obj = os.path.join(objdir, sha(base, sim_hdr, os.path.basename(src), read(src)) + ".o")
        jobs.append((src, obj, ["-I" + os.path.join(HERE, "src")]))
        objs.append(obj)
    # largest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise RuntimeError("build failed:\n" + "\n".join(errs))
    exe = os.path.join(OUT, "lsqsim-" + sha(*sorted(objs)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-o", tmp] + objs + ["-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("link failed:\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
    prune(objdir, set(objs), exe)
    return exe


def prune(objdir, keep, exe):
    """Keeps the cache small: at most a few hundred objects and a handful of binaries."""
    def old_first(ps):
        return sorted(ps, key=lambda p: os.path.getmtime(p))
    files = [p for p in glob.glob(os.path.join(objdir, "*")) if p not in keep]
    for p in old_first(files)[:max(0, len(files) - 150)]:
        try:
            os.unlink(p)
        except OSError:
            pass
    bins = [p for p in glob.glob(os.path.join(OUT, "lsqsim-*")) if p != exe]
    for p in old_first(bins)[:max(0, len(bins) - 4)]:
        try:
            os.unlink(p)
        except OSError:
            pass


if __name__ == "__main__":
    print(build())
