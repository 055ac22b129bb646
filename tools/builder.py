"""Builds the simulator binaries from /repo's current working tree; objects are cached by content."""
import os, subprocess, hashlib, fcntl, glob, concurrent.futures as cf, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
class BuildError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])

def incs():
    ds = sorted(glob.glob(f"{REPO}/subprojects/ufjfmltk-*/include")) + [f"{REPO}/include"]
    return [d for d in ds if os.path.isdir(d)]

def files_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def repo_files():
    out = []
    for d in incs() + glob.glob(f"{REPO}/subprojects/ufjfmltk-*/src"):
        for dp, _, fs in os.walk(d):
            out += [os.path.join(dp, f) for f in fs if f.endswith((".h", ".hpp", ".cpp", ".c", ".inl", ".tpp"))]
    return sorted(set(out))

RT_FLAGS = ["-std=c++17", "-O2", "-g", "-fno-threadsafe-statics", "-w"]
def sim_hdrs(): return glob.glob(f"{ROOT}/sim/*.h")

def build(name):
    from groups import GROUPS
    g = GROUPS[name]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        repo = files_hash(repo_files())
        simh = files_hash(glob.glob(f"{ROOT}/sim/*") + glob.glob(f"{ROOT}/checks/*"))
        key = hashlib.sha256((repo + simh + repr(sorted((k, v) for k, v in g.items() if k in ("flags", "link", "sim", "srcs", "repo_srcs"))) + REPO).encode()).hexdigest()[:20]
        d = os.path.join(BUILD, f"{name}-{key}"); exe = os.path.join(d, name)
        if os.path.exists(exe): return exe
        for old in glob.glob(os.path.join(BUILD, f"{name}-*")): shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d); jobs = []
        for s in g["sim"]:
            jobs.append((["g++", *RT_FLAGS, *g.get("simflags", []), "-c", f"{ROOT}/sim/{s}.cpp", "-o", f"{d}/{s}.o"], f"{d}/{s}.o"))
        objs = []
        inc = [f"-I{ROOT}/sim", f"-I{ROOT}/checks"] + [f"-I{i}" for i in incs()]
        for s in g["srcs"]:
            o = f"{d}/c_{os.path.basename(s)}.o"; objs.append(o); jobs.append((["g++", *g["flags"], *inc, "-c", f"{ROOT}/checks/{s}", "-o", o], o))
        for s in g["repo_srcs"]:
            o = f"{d}/r_{os.path.basename(s)}.o"; objs.append(o); jobs.append((["g++", *g["flags"], *inc, "-c", f"{REPO}/{s}", "-o", o], o))
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: sh(j[0]), jobs))
        rt = f"{d}/rt.o"
        sh(["ld", "-r", "--force-group-allocation", *[f"{d}/{s}.o" for s in g["sim"]], "-o", rt])
        # the runtime's own copies of libstdc++ templates must not be the (instrumented) ones of the code under test
        sh(["objcopy", "-w"] + [f"--localize-symbol={p}" for p in ("!_ZNSt13random_device*", "!_ZNSt6thread20hardware*", "!_ZSt21__glibcxx_assert_fail*", "_ZNSt*", "_ZSt*", "_ZNKSt*", "_ZN9__gnu_cxx*")] + [rt])
        sh(["g++", *g["link"], *objs, rt, "-o", exe + ".tmp", "-ldl", "-lpthread"])
        os.rename(exe + ".tmp", exe)
        return exe
