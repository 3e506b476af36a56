#!/usr/bin/env python3
"""Builds the code under test (from /repo's current working tree) and the harnesses.

All output goes to /verif/_b (git-ignored).  The library sources are compiled in a few
"unity" batches through ccache, so that an unchanged tree costs about a second and a
changed file costs one batch.  Nothing of /repo/_build is used.
"""
import os, sys, time, subprocess, glob, hashlib, fcntl, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_b"))
LIBS = [("common", 4), ("hap", 1), ("courtier", 1), ("geneva", 14), ("geneva-individuals", 5)]
BASEFLAGS = ["-std=c++17", "-pthread", "-DDEBUG", "-include", "cstdint", "-w",
             "-fno-unsafe-math-optimizations", "-ftemplate-depth=1024", "-fPIC", "-g0",
             "-fmessage-length=0"]
VARIANTS = {
    "plain": {"cxx": ["-O0"], "ld": []},
    "asan": {"cxx": ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"], "ld": ["-fsanitize=address", "-shared-libasan"]},
}
BOOST = ["serialization", "program_options", "filesystem", "system", "thread", "date_time", "chrono",
         "regex", "log", "iostreams", "random"]

class BuildError(Exception):
    pass

def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)

def gen_defines():
    src = f"{REPO}/include/common/GGlobalDefines.hpp.in"
    vals = {"GENEVA_API_VERSION": "01100", "GENEVA_MIN_BOOST_API_VERSION": "107000", "GENEVA_MIN_BOOST_VERSION": "1.70"}
    with open(src) as f:
        t = f.read()
    t = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), t)
    t = re.sub(r"(?m)^#cmakedefine\s+(\w+).*$", r"/* #undef \1 */", t)
    _write(f"{B}/gen/common/GGlobalDefines.hpp", t)

def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = f"{B}/ccache"
    e["CCACHE_MAXSIZE"] = "8G"
    e["CCACHE_SLOPPINESS"] = "time_macros"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_DEPEND"] = "1"
    e.pop("CCACHE_DISABLE", None)
    return e

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), text=True, errors="replace", **kw)

def cxx(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    t0 = time.time()
    cmd = ["ccache", "clang++"] + BASEFLAGS + flags + [f"-I{B}/gen", f"-I{REPO}/include", f"-I{VERIF}/harness", "-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    r = run(cmd)
    if os.environ.get("BUILD_VERBOSE"):
        print(f"{time.time()-t0:6.1f} {os.path.basename(src)}", file=sys.stderr)
    return r.returncode, r.stdout

def sources(lib):
    out = []
    for f in sorted(glob.glob(f"{REPO}/src/{lib}/*.cpp")):
        n = os.path.basename(f)
        if n.startswith("GMPI"):      # needs an MPI installation
            continue
        out.append(f)
    return out

def batches(lib, n):
    # heavy files first, then fill the lightest batch; the weights are fixed names -> stable assignment
    fs = sources(lib)
    w = {f: os.path.getsize(f) for f in fs}
    heavy = ("Go2.cpp", "GPlotDesigner.cpp", "GPluggable", "ParameterScan.cpp", "_Base.cpp", "MultiConstraint", "Factory.cpp",
             "GFunctionIndividual.cpp", "GExternal", "GNeural", "GFormula", "SwarmAlgorithm.cpp", "Evolutionary", "GParserBuilder")
    def weight(f):
        return (40 if any(h in f for h in heavy) else 8)
    bl = [[0, []] for _ in range(min(n, max(1, len(fs))))]
    for f in sorted(fs, key=lambda f: (-weight(f), f)):
        b = min(bl, key=lambda x: x[0])
        b[0] += weight(f)
        b[1].append(f)
    return [sorted(b[1]) for b in bl if b[1]]

def compile_batch(lib, i, files, variant):
    flags = VARIANTS[variant]["cxx"]
    u = f"{B}/unity/{lib}_{i}.cpp"
    _write(u, "".join(f'#include "{f}"\n' for f in files))
    obj = f"{B}/{variant}/obj/{lib}_{i}.o"
    rc, out = cxx(u, obj, flags)
    if rc == 0:
        return [obj]
    # a name clash inside a unity batch is not the code's fault: compile the files one by one
    objs = []
    with ThreadPoolExecutor(8) as ex:
        jobs = [(f, f"{B}/{variant}/obj/{lib}_{os.path.basename(f)}.o") for f in files]
        for (f, o), (rc, out) in zip(jobs, ex.map(lambda j: cxx(j[0], j[1], flags), jobs)):
            if rc != 0:
                raise BuildError(f"compiling {f} failed:\n{out[-3000:]}")
            objs.append(o)
    return objs

SCOPES = {"all": [l for l, _ in LIBS], "common": ["common", "hap"], "courtier": ["common", "hap", "courtier"]}

def build_lib(variant="plain", scope="all"):
    os.makedirs(B, exist_ok=True)
    gen_defines()
    jobs = []
    for lib, n in LIBS:
        if lib not in SCOPES[scope]:
            continue
        for i, fs in enumerate(batches(lib, n)):
            jobs.append((lib, i, fs))
    jobs.sort(key=lambda j: (j[0] != "geneva", j[0]))
    objs = []
    with ThreadPoolExecutor(9) as ex:
        for r in ex.map(lambda j: compile_batch(*j, variant), jobs):
            objs += r
    h = hashlib.sha256()
    for o in sorted(objs):
        h.update(o.encode())
        with open(o, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    so = f"{B}/{variant}/libgen_{scope}.so"
    stamp = f"{so}.stamp"
    if not (os.path.exists(so) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
        r = run(["clang++", "-shared", "-fuse-ld=lld", "-pthread", "-o", so] + VARIANTS[variant]["ld"] + sorted(objs) + [f"-lboost_{x}" for x in BOOST])
        if r.returncode != 0:
            raise BuildError(f"linking failed:\n{r.stdout[-3000:]}")
        with open(stamp, "w") as f:
            f.write(h.hexdigest())
    return so

def build_harness(name, variant="plain", scope="all"):
    src = f"{VERIF}/harness/{name}.cpp"
    obj = f"{B}/{variant}/h/{name}.o"
    exe = f"{B}/{variant}/h/{name}"
    rc, out = cxx(src, obj, VARIANTS[variant]["cxx"])
    if rc != 0:
        raise BuildError(f"compiling harness {name} failed:\n{out[:2500]}")
    r = run(["clang++", "-fuse-ld=lld", "-pthread", "-o", exe, obj, f"-L{B}/{variant}", f"-lgen_{scope}", f"-Wl,-rpath,{B}/{variant}"] +
            VARIANTS[variant]["ld"] + [f"-lboost_{x}" for x in BOOST])
    if r.returncode != 0:
        raise BuildError(f"linking harness {name} failed:\n{r.stdout[-3000:]}")
    return exe

def build(harnesses, variant="plain", scope="all"):
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_defines()
        with ThreadPoolExecutor(12) as ex:
            fl = ex.submit(build_lib, variant, scope)
            # compile harness objects while the library builds
            def pre(h):
                return cxx(f"{VERIF}/harness/{h}.cpp", f"{B}/{variant}/h/{h}.o", VARIANTS[variant]["cxx"])
            pres = [ex.submit(pre, h) for h in harnesses]
            fl.result()
            for p in pres:
                p.result()
        with ThreadPoolExecutor(8) as ex:
            return dict(zip(harnesses, ex.map(lambda h: build_harness(h, variant, scope), harnesses)))

if __name__ == "__main__":
    # build.py: everything the registered checks need (the setup command)
    from registry import CHECKS, harnesses
    try:
        todo = {}
        for c in CHECKS.values():
            todo.setdefault((c.get("variant", "plain"), c.get("scope", "all")), set()).update(harnesses(c))
        for (v, sc), hs in sorted(todo.items()):
            build(sorted(hs), v, sc)
        print("built", sum(len(x) for x in todo.values()), "harnesses")
    except BuildError as e:
        print(e)
        sys.exit(2)
