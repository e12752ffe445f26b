#!/usr/bin/env python3
"""Incremental, content-keyed build of the simulator: /repo's lib_moment (instrumented), the workloads, the runtime.

usage: build.py            prints nothing on success; the simulator is build/simrun
Environment: MOMENT_REPO (default /repo), SIM_BUILD (default <this dir>/build).
Nothing is written outside the build directory.
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MOMENT_REPO", "/repo")
LIB = os.path.join(REPO, "cpp/lib_moment")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
CXX = "g++-12"
BASE = ["-std=c++20", "-g1", "-DNDEBUG", "-DUNIX", "-w", "-fno-omit-frame-pointer", "-pthread", "-fno-pie",
        "-isystem", "/usr/include/eigen3", "-I", SIM, f"-DEIGEN_SPARSEMATRIX_PLUGIN=\"{SIM}/eigen_plugin.h\""]
INSTR = ["-O1", "-fsanitize=thread"]
JOBS = int(os.environ.get("SIM_JOBS", "8"))


def canon(path):
    path = os.path.normpath(path)
    for pre, tag in ((REPO, "@REPO"), (HERE, "@VERIF"), (BUILD, "@BUILD")):
        if path.startswith(pre + "/"):
            return tag + path[len(pre):]
    return path


def uncanon(path):
    for pre, tag in ((REPO, "@REPO"), (HERE, "@VERIF"), (BUILD, "@BUILD")):
        if path.startswith(tag + "/"):
            return pre + path[len(tag):]
    return path


_h = {}


def fhash(path):
    if path not in _h:
        try:
            with open(path, "rb") as f:
                _h[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _h[path] = "-"
    return _h[path]


def flag_id(cmd):
    return hashlib.sha256("\0".join(cmd).replace(REPO, "@REPO").replace(HERE, "@VERIF").replace(BUILD, "@BUILD").encode()).hexdigest()


def parse_deps(dfile):
    with open(dfile) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [d for d in t.split() if not d.startswith("/usr/")]


def fresh(meta, flags):
    try:
        with open(meta) as f:
            m = json.load(f)
    except (OSError, ValueError):
        return False
    return m["flags"] == flags and all(fhash(uncanon(d)) == h for d, h in m["deps"].items())


def compile_one(job):
    """job = (name, source, flags, optional)."""
    name, src, flags, optional = job
    obj, meta, dep = (os.path.join(BUILD, "obj", name + e) for e in (".o", ".json", ".d"))
    cmd = [CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    fid = flag_id(cmd)
    if os.path.exists(obj) and fresh(meta, fid):
        return name, obj, False, None
    if os.path.exists(meta):
        os.unlink(meta)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return name, None, True, r.stderr[-4000:]
    with open(meta, "w") as f:
        json.dump({"flags": fid, "deps": {canon(d): fhash(d) for d in parse_deps(dep)}}, f)
    return name, obj, True, None


def lib_sources():
    with open(os.path.join(LIB, "CMakeLists.txt")) as f:
        t = re.sub(r"#.*", "", f.read())
    out = []
    for s in re.findall(r"[A-Za-z0-9_./-]+\.cpp", t):
        if os.path.exists(os.path.join(LIB, s)) and s not in out:
            out.append(s)
    return out


def main():
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "pch"), exist_ok=True)
    inc = ["-I", LIB]
    # precompiled standard headers
    pch = os.path.join(BUILD, "pch", "pch.h")
    pch_flags = BASE + INSTR
    src = os.path.join(SIM, "pch.h")
    key = flag_id([fhash(src), fhash(os.path.join(SIM, "eigen_plugin.h"))] + pch_flags)
    kf = pch + ".key"
    if not (os.path.exists(pch + ".gch") and os.path.exists(kf) and open(kf).read() == key):
        with open(pch, "w") as f:
            f.write(f'#include "{SIM}/pch.h"\n')
        r = subprocess.run([CXX] + pch_flags + ["-x", "c++-header", pch, "-o", pch + ".gch"], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            return 3
        with open(kf, "w") as f:
            f.write(key)
    instr = BASE + INSTR + ["-include", pch] + inc
    jobs = [("lib__" + s[:-4].replace("/", "__"), os.path.join(LIB, s), instr, False) for s in lib_sources()]
    wdir = os.path.join(SIM, "wl")
    for s in sorted(os.listdir(wdir)) if os.path.isdir(wdir) else []:
        if s.endswith(".cc"):
            jobs.append(("wl__" + s[:-3], os.path.join(wdir, s), instr, False))
    jobs.append(("rt", os.path.join(SIM, "rt.cc"), ["-std=c++20", "-O2", "-g1", "-fno-pie", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-w", "-I", SIM], False))
    jobs.append(("driver", os.path.join(SIM, "driver.cc"), ["-std=c++20", "-O1", "-g1", "-fno-pie", "-w", "-I", SIM], False))
    big = sorted(jobs, key=lambda j: (not j[0].startswith("wl__"), -os.path.getsize(j[1])))
    objs, changed, failed = {}, [], []
    with ThreadPoolExecutor(JOBS) as ex:
        for name, obj, did, err in ex.map(compile_one, big):
            if err is not None:
                failed.append(name)
                sys.stderr.write(f"== {name}\n{err}\n")
            else:
                objs[name] = obj
                if did:
                    changed.append(name)
    if failed:
        return 3
    exe = os.path.join(BUILD, "simrun")
    lkey = hashlib.sha256(json.dumps(sorted((n, fhash(os.path.join(BUILD, "obj", n + ".o"))) for n in objs)).encode()).hexdigest()
    try:
        with open(exe + ".key") as f:
            old = f.read()
    except OSError:
        old = ""
    if old != lkey or not os.path.exists(exe):
        r = subprocess.run([CXX, "-no-pie", "-pthread", "-o", exe + ".tmp"] + [objs[j[0]] for j in jobs] + ["-fuse-ld=bfd"], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-6000:])
            return 3
        os.replace(exe + ".tmp", exe)
        with open(exe + ".key", "w") as f:
            f.write(lkey)
    with open(os.path.join(BUILD, "build.json"), "w") as f:
        json.dump({"seconds": round(time.time() - t0, 1), "recompiled": len(changed), "objects": len(objs), "lib_sources": len(lib_sources())}, f)
    if os.environ.get("SIM_VERBOSE"):
        print(f"build: {len(changed)} of {len(objs)} objects recompiled in {time.time()-t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
