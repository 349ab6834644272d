#!/usr/bin/env python3
"""Planted bugs: make them from edit descriptions, and confirm them in a scratch copy.

  plant.py make FILE.py      FILE.py defines BUGS: list of dicts id, property, needs, breaks,
                             edits [(file, old, new)], demo (C++ source)
  plant.py try ID... [-c]    confirm (builds, tests pass, demo 0/nonzero); -c also runs the check
"""
import json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
DEMO_SH = """#!/bin/bash
# cwd: the repository, built
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
g++ -std=c++14 -g -fsanitize=address,undefined -Iinclude -I_build "$here/demo.cpp" _build/libE57Format-d.a -lxerces-c -lpthread -o "$dir/demo" || exit 99
export ASAN_OPTIONS=detect_leaks=%d UBSAN_OPTIONS=halt_on_error=1
cd "$dir" && timeout 120 ./demo "$dir"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh():
    if not os.path.isdir(W):
        r = sh(["git", "clone", "-q", "/repo", W])
        assert r.returncode == 0, r.stdout
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    sh(["git", "-C", W, "fetch", "-q", "origin"])
    r = sh(["git", "-C", W, "reset", "-q", "--hard", head])
    assert r.returncode == 0, r.stdout
    sh(["git", "-C", W, "clean", "-fdq", "-e", "_build"])


def build():
    env = dict(os.environ, CC="gcc", CXX="g++")
    r = sh("mkdir -p _build && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DE57_BUILD_TEST=ON -DE57_USE_EXTERNAL_GTEST=ON "
           "-DE57_GIT_SUBMODULE_UPDATE=OFF -DE57_VALIDATION_LEVEL=2 -DE57FORMAT_SANITIZE_ALL=ON -DCCACHE_PROGRAM=OFF && ninja -C _build", cwd=W, env=env)
    return r.returncode == 0, r.stdout[-3000:]


def tests():
    d = W + "/_build/run"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = sh("timeout 300 ../testE57 --gtest_output=xml:out.xml", cwd=d)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if False else None
    try:
        t = ET.parse(d + "/out.xml").getroot()
    except Exception:
        return False, r.stdout[-2000:]
    ok = [c for c in t.iter("testcase") if c.find("failure") is None and c.get("status") == "run"]
    return len(ok) >= 28, "%d passed" % len(ok)


def make(path):
    for b in runpy.run_path(path)["BUGS"]:
        fresh()
        good = True
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit does not apply once:", f, s.count(old), repr(old[:60]))
                good = False
                break
            open(p, "w").write(s.replace(old, new))
        if not good:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh(["git", "-C", W, "diff"]).stdout)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH % (1 if b.get("leaks") else 0))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])


def attempt(i, check):
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    fresh()
    r = sh(["git", "-C", W, "apply", d + "/patch.diff"])
    if r.returncode:
        return "patch does not apply: " + r.stdout
    ok, out = build()
    if not ok:
        return "does not build: " + out
    ok, out = tests()
    if not ok:
        return "tests fail: " + out
    a = sh(["bash", d + "/demo.sh"], cwd="/repo")
    if a.returncode:
        return "demo fails on the unchanged tree: %d %s" % (a.returncode, a.stdout[-1500:])
    b = sh(["bash", d + "/demo.sh"], cwd=W)
    if b.returncode in (0, 99):
        return "demo does not fail with the change: %d %s" % (b.returncode, b.stdout[-1500:])
    res = "counts (demo rc %d)" % b.returncode
    if check:
        props = [prop] if check is True else check
        for p in props:
            c = sh([sys.executable, HERE + "/check.py", p, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=W))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            why = [l for l in c.stdout.splitlines() if "key" in l or "violation" in l.lower()]
            res += "; %s %s" % (p, "CAUGHT" if c.returncode == 1 and v else "missed rc=%d %s" % (c.returncode, c.stdout[-300:]))
            if v and why:
                res += " [" + why[0][:160] + "]"
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        args = [a for a in sys.argv[2:] if not a.startswith("-")]
        chk = "-c" in sys.argv
        for i in args:
            print(i, ":", attempt(i, chk), flush=True)
