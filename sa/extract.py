"""Runs the clang extractor over /repo's sources and merges the dumps into one program database."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "extract")
CACHE = os.path.join(VERIF, "build", "cache")


class AnalysisError(Exception):
    """The analysis could not be carried out (neither pass nor violation): exit status 2."""


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    cxx = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    cxx = [f for f in cxx if not f.startswith("-std=")]
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti"] + cxx + [
        src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor:\n" + r.stderr[-3000:])
    os.replace(tmp, TOOL)


def sources():
    """The translation units of the library: those listed by src/CMakeLists.txt, else every src/*.cpp."""
    cm = os.path.join(REPO, "src", "CMakeLists.txt")
    found = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if os.path.exists(cm):
        txt = re.sub(r"#.*", "", open(cm).read())
        m = re.search(r"set\(\s*SRC\b([^)]*)\)", txt)
        if m:
            listed = [os.path.join(REPO, "src", w) for w in m.group(1).split() if w.endswith(".cpp")]
            if listed and all(os.path.exists(p) for p in listed):
                return sorted(listed)
    return found


def std_flag():
    try:
        m = re.search(r"set\(CMAKE_CXX_STANDARD ([0-9]+)\)", open(os.path.join(REPO, "CMakeLists.txt")).read())
        return "-std=gnu++" + m.group(1)
    except Exception:
        return "-std=gnu++11"


def flags(extra=()):
    return [std_flag(), "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-I" + REPO + "/include",
            "-I" + config_dir(), "-isystem", "/usr/include/eigen3", "-DSTATE_OBSERVATION_EXPORTS",
            "-DBOOST_TIMER_DYN_LINK", "-Wno-everything"] + list(extra)


_cfg = None


def config_dir():
    global _cfg
    if _cfg:
        return _cfg
    d = os.path.join(VERIF, "build", "config")
    p = os.path.join(d, "state-observation")
    os.makedirs(p, exist_ok=True)
    src = os.path.join(REPO, "include", "state-observation", "config.h.in")
    if os.path.exists(src):
        t = open(src).read()
        t = t.replace("$<CONFIG:Release>", "0").replace("$<CONFIG:Debug>", "1").replace("$<CONFIG:RelWithDebInfo>", "0")
        out = os.path.join(p, "config.h")
        if not os.path.exists(out) or open(out).read() != t:
            open(out, "w").write(t)
    _cfg = d
    return d


def headers():
    base = os.path.join(REPO, "include", "state-observation")
    out = []
    for r, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".hpp"):
                out.append(os.path.join(r, f))
    return sorted(out)


def tree_hash(extra=""):
    h = hashlib.sha256()
    h.update(extra.encode())
    h.update(open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    fs = []
    for top in ("src", "include"):
        for r, _, names in os.walk(os.path.join(REPO, top)):
            for n in names:
                fs.append(os.path.join(r, n))
    fs.append(os.path.join(REPO, "CMakeLists.txt"))
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


WITNESS = r"""
// all public headers in one translation unit; explicit instantiations make every member of the
// repository's own class templates a resolved, analysable function.
#include <iostream>
#include <fstream>
#include <sstream>
%s
namespace stateObservation {
template class IndexedMatrixT<Matrix, false>;
template class IndexedMatrixT<Vector, false>;
template class IndexedMatrixArrayT<Matrix>;
template class IndexedMatrixArrayT<Vector>;
}
"""


def _one(args):
    src, out, fl = args
    r = subprocess.run([TOOL, REPO, out, src, "--"] + fl, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        return (src, r.stderr[-4000:])
    return (src, None)


def load_units(extra=()):
    """-> {unit: dump}; cached by the content of the tree."""
    build_tool()
    key = tree_hash(" ".join(extra))
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, key + ".pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    srcs = sources()
    if not srcs:
        raise AnalysisError("no library sources found in %s/src" % REPO)
    with tempfile.TemporaryDirectory(prefix="sa_") as td:
        wit = os.path.join(td, "witness.cpp")
        open(wit, "w").write(WITNESS % "\n".join('#include "%s"' % h for h in headers()))
        jobs = []
        for i, s in enumerate(srcs + [wit]):
            jobs.append((s, os.path.join(td, "u%d.json" % i), flags(extra)))
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(_one, jobs))
        bad = [(s, e) for s, e in res if e]
        if bad:
            raise AnalysisError("clang could not parse: " + "\n".join("%s: %s" % b for b in bad))
        units = {}
        for s, out, _ in jobs:
            with open(out) as f:
                units["witness" if s == wit else os.path.relpath(s, REPO)] = json.load(f)
    tmp = pk + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(units, f, protocol=4)
    os.replace(tmp, pk)
    old = sorted(glob.glob(os.path.join(CACHE, "*.pickle")), key=os.path.getmtime)
    for o in old[:-12]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return units


if __name__ == "__main__":
    u = load_units()
    print(len(u), "units")
