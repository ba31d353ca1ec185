"""Make sure that the C++ simulator used by a check was built from /repo's current sources.

Nothing in /repo is written.  Each translation unit gets a key (hash of itself, of every repository header
it can include and of its compile flags).  lib/objmanifest.json (committed) records, for the tree as first
built, key -> sha256 of the object ninja left in /repo/_skbuild, and combined key -> sha256 of the installed
rpu_base .so.  If the current combined key and the .so's hash are listed, the .so in /repo/src is used as is;
otherwise the changed units are compiled (others are taken from _skbuild when their hash is the recorded one),
everything is linked in a scratch folder and the Python package is used from an overlay copy of /repo/src.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VK_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MANIFEST = os.path.join(HERE, "objmanifest.json")
CACHE = os.path.join(VERIF, ".cache")
SKB = REPO + "/_skbuild/linux-x86_64-3.12/cmake-build"
SO = "rpu_base.cpython-312-x86_64-linux-gnu.so"
SP = "/opt/venv/lib/python3.12/site-packages"

# the flags of the project's build (the order of the include folders matters: torch has its own pybind11)
COMMON = "-DRPU_USE_OPENBLAS -DRPU_USE_WITH_TORCH -D_GLIBCXX_USE_CXX11_ABI=1 -fopenmp -w -O3 -DNDEBUG -ftree-vectorize -std=gnu++17 -fPIC "
TORCH = f"-I{SP}/torch/include -I{SP}/torch/include/torch/csrc/api/include "
FLAGS = {
    "cpu": COMMON + f"-I/opt/venv/include -I/usr/include/python3.12 -I{SP}/pybind11/include {TORCH} -isystem {REPO}/src/rpucuda",
    "bind": COMMON + f"-Drpu_base_EXPORTS -fvisibility=hidden -flto=auto -fno-fat-lto-objects -I/opt/venv/include {TORCH} "
                     f"-isystem /usr/include/python3.12 -isystem {SP}/pybind11/include -isystem {REPO}/src/rpucuda",
}


def sha(data):
    return hashlib.sha256(data).hexdigest()


def fsha(path):
    with open(path, "rb") as f:
        return sha(f.read())


def units():
    """All translation units of rpu_base: (name, source, kind)."""
    res = []
    for p in sorted(glob.glob(REPO + "/src/rpucuda/*.cpp")):
        b = os.path.basename(p)
        if b.endswith("_test.cpp") or b.startswith("test_"):
            continue
        res.append((b, p, "cpu"))
    for p in sorted(glob.glob(REPO + "/src/aihwkit/simulator/rpu_base_src/*.cpp")):
        res.append((os.path.basename(p), p, "bind"))
    return res


_INC = re.compile(rb'^\s*#\s*include\s*[<"]([^>"]+)[>"]', re.M)


def closure(path, memo):
    """Set of repository headers a file can include (transitively; conditionals are ignored)."""
    todo, seen = [path], set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        if p not in memo:
            with open(p, "rb") as f:
                data = f.read()
            deps = []
            for inc in _INC.findall(data):
                name = inc.decode()
                for base in (os.path.dirname(p), REPO + "/src/rpucuda", REPO + "/src/aihwkit/simulator/rpu_base_src"):
                    q = os.path.normpath(os.path.join(base, name))
                    if os.path.isfile(q):
                        deps.append(q)
                        break
            memo[p] = (sha(data), deps)
        todo.extend(memo[p][1])
    return seen


def keys():
    memo = {}
    res = []
    for name, path, kind in units():
        cl = sorted(closure(path, memo))
        h = sha(json.dumps([[os.path.relpath(p, REPO), memo[p][0]] for p in cl] + [kind]).encode())
        res.append((name, path, kind, h))
    return res


def combined(ks):
    return sha(json.dumps([[k[0], k[3]] for k in ks]).encode())


def skb_obj(name, kind):
    if kind == "cpu":
        return f"{SKB}/CMakeFiles/RPU_CPU.dir/src/rpucuda/{name}.o"
    return f"{SKB}/src/aihwkit/simulator/CMakeFiles/rpu_base.dir/rpu_base_src/{name}.o"


def compile_one(path, kind, out):
    tmp = out + f".{os.getpid()}.tmp"
    r = subprocess.run(
        f"/usr/bin/g++ {FLAGS[kind]} -o {tmp} -c {path}", shell=True, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode:
        raise RuntimeError(f"compiling {path} failed:\n{r.stdout[-3000:]}")
    os.replace(tmp, out)


def ensure(log=lambda *a: None):
    """Return the folder to put on PYTHONPATH (the current /repo/src or an overlay of it)."""
    with open(MANIFEST) as f:
        man = json.load(f)
    ks = keys()
    comb = combined(ks)
    so = f"{REPO}/src/aihwkit/simulator/{SO}"
    if os.path.isfile(so) and man["so"].get(comb) == fsha(so):
        return REPO + "/src", None
    os.makedirs(CACHE, exist_ok=True)
    odir = os.path.join(CACHE, "obj")
    os.makedirs(odir, exist_ok=True)
    sofile = os.path.join(CACHE, f"so-{comb[:24]}.so")
    if not os.path.isfile(sofile):
        objs, todo = [], []
        for name, path, kind, h in ks:
            o = skb_obj(name, kind)
            if man["obj"].get(h) and os.path.isfile(o) and fsha(o) == man["obj"][h]:
                objs.append(o)
                continue
            o = os.path.join(odir, f"{h[:32]}.o")
            objs.append(o)
            if not os.path.isfile(o):
                todo.append((path, kind, o))
        log(f"build: compiling {len(todo)} of {len(ks)} units")
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda t: compile_one(*t), todo))
        tmp = sofile + f".{os.getpid()}.tmp"
        r = subprocess.run(
            f"/usr/bin/g++ -fPIC -fopenmp -O3 -DNDEBUG -shared -flto=auto -o {tmp} {' '.join(objs)} "
            f"-L{SP}/torch/lib -Wl,-rpath,/opt/venv/lib:{SP}/torch/lib: -ltorch_python "
            "/usr/lib/x86_64-linux-gnu/libopenblas.so",
            shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode:
            raise RuntimeError(f"link failed:\n{r.stdout[-3000:]}")
        os.replace(tmp, sofile)
    ov = tempfile.mkdtemp(prefix="vk_overlay_")
    shutil.copytree(
        REPO + "/src/aihwkit", ov + "/aihwkit",
        ignore=shutil.ignore_patterns("rpu_base*.so", "__pycache__", "*.cpp", "*.h", "*.cu"),
    )
    shutil.copy(sofile, f"{ov}/aihwkit/simulator/{SO}")
    return ov, ov


def write_manifest():
    """(development only) record the current _skbuild objects and .so, after a build.sh of this tree."""
    man = {"so": {}, "obj": {}}
    if os.path.isfile(MANIFEST):
        with open(MANIFEST) as f:
            man = json.load(f)
    ks = keys()
    for name, _, kind, h in ks:
        o = skb_obj(name, kind)
        man["obj"][h] = fsha(o)
    man["so"][combined(ks)] = fsha(f"{REPO}/src/aihwkit/simulator/{SO}")
    with open(MANIFEST, "w") as f:
        json.dump(man, f, indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1:] == ["manifest"]:
        write_manifest()
    else:
        print(ensure(print))
