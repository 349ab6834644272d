"""Builds instrumented drivers from /repo's current sources. Objects are cached by content."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, ".build")
CXX = "g++"

COMMON = [
    "-std=gnu++17", "-g1", "-fno-omit-frame-pointer", "-fPIC", "-w", "-pthread",
    "-DCRCPP_BRANCHLESS", "-DCRCPP_USE_CPP11", "-DE57Format_EXPORTS", "-DE57_ENABLE_DIAGNOSTIC_OUTPUT",
    '-DREVISION_ID="E57Format-verif"', "-D_GLIBCXX_ASSERTIONS",
]
ASAN = ["-O1", "-fno-builtin-floor", "-fno-builtin-ceil", "-fno-builtin-nearbyint", "-fno-builtin-round", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
# one sanitizer family per build
VARIANTS = {
    "asan2": ASAN + ["-DE57_VALIDATION_LEVEL=2"],
    "asan1": ASAN + ["-DE57_VALIDATION_LEVEL=1"],
    "asan0": ASAN + ["-DE57_VALIDATION_LEVEL=0"],
    "tsan": ["-O1", "-fsanitize=thread", "-DE57_VALIDATION_LEVEL=1"],
    # plain optimised code, every automatic variable prefilled (differently in the two builds)
    "fill0": ["-O2", "-ftrivial-auto-var-init=zero", "-DE57_VALIDATION_LEVEL=1"],
    "fillp": ["-O2", "-ftrivial-auto-var-init=pattern", "-DE57_VALIDATION_LEVEL=1"],
    "plain": ["-O2", "-DE57_VALIDATION_LEVEL=1"],
}
LINK = {
    "asan2": ["-fsanitize=address,undefined"], "asan1": ["-fsanitize=address,undefined"],
    "asan0": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"],
}
INCLUDES = ["-I" + os.path.join(HARN, "inc"), "-I" + REPO + "/include", "-I" + REPO + "/src",
            "-I" + REPO + "/extern/CRCpp/inc", "-I" + HARN]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def lib_sources():
    # the library's own list: everything its CMake file names, i.e. all of src/*.cpp
    return sorted(glob.glob(REPO + "/src/*.cpp"))


def _headers(*roots):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            for f in fs:
                if f.endswith((".h", ".hpp", ".in")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def _compile(src, flags, key):
    obj = os.path.join(OUT, "obj", key + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d" % os.getpid()
    p = subprocess.run([CXX] + flags + INCLUDES + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def prune(limit=6 << 30):
    """Drop the least recently used build products when they take too much space."""
    fs = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(OUT, d, "*")):
            try:
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if total < limit:
            break
        if time.time() - m < 3600:
            continue
        try:
            os.unlink(p)
            total -= s
        except OSError:
            pass


def build(jobs, workers=8):
    """jobs: list of (variant, [harness sources], [extra link flags]); returns list of binaries."""
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    lib_hdr = _hash(*[p[len(REPO):] + "\0" + _read(p).decode("latin1")
                      for p in _headers(REPO + "/src", REPO + "/include", REPO + "/extern")])
    har_hdr = _hash(*[_read(p) for p in _headers(HARN)])
    srcs = lib_sources()
    if len(srcs) < 20:
        raise BuildError("library sources not found under " + REPO)
    todo = {}
    plans = []
    for variant, hsrc, extra in jobs:
        flags = COMMON + VARIANTS[variant]
        fkey = _hash(" ".join(flags + INCLUDES), _read(os.path.join(HARN, "inc", "E57Export.h")))
        objs = []
        for s in srcs:
            k = _hash("lib", fkey, lib_hdr, s[len(REPO):], _read(s))
            todo[k] = (s, flags)
            objs.append(k)
        for h in hsrc:
            s = os.path.join(HARN, h)
            k = _hash("har", fkey, lib_hdr, har_hdr, h, _read(s))
            todo[k] = (s, flags)
            objs.append(k)
        plans.append((variant, objs, extra))
    with cf.ThreadPoolExecutor(workers) as ex:
        # big harness files first
        order = sorted(todo, key=lambda k: (not todo[k][0].startswith(HARN), -os.path.getsize(todo[k][0])))
        futs = {k: ex.submit(_compile, todo[k][0], todo[k][1], k) for k in order}
        objs = {k: f.result() for k, f in futs.items()}

        def link(plan):
            variant, ks, extra = plan
            b = os.path.join(OUT, "bin", _hash(variant, *(ks + extra)))
            if not os.path.exists(b):
                tmp = b + ".tmp%d" % os.getpid()
                cmd = [CXX, "-pthread", "-rdynamic"] + LINK.get(variant, []) + [objs[k] for k in ks] + extra + \
                      ["-lxerces-c", "-o", tmp]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if p.returncode != 0:
                    raise BuildError("linking failed:\n" + p.stdout[-4000:])
                os.replace(tmp, b)
            else:
                os.utime(b)
            return b
        bins = list(ex.map(link, plans))
    prune()
    return bins


if __name__ == "__main__":
    t = time.time()
    if sys.argv[1] == "--self-test":
        # the toolchain works and the library builds under it
        b = build([("asan2", ["mon.cpp", "c01.cpp"], [])])[0]
        print("built", b, round(time.time() - t, 1))
    else:
        print(build([(sys.argv[1], sys.argv[2:], [])]), round(time.time() - t, 1))
