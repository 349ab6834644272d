#!/usr/bin/env python3
"""Runs the monitors of one property.

  check.py C01 --tier quick            exit 0: held on everything explored
                                       exit 1: VIOLATION line(s) printed
                                       exit 2: the check itself failed, or observed too little
  check.py --replay replay/x.json      re-executes a recorded violation
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import build as B
from plan import PLAN

VERIF = B.VERIF
NW = 8
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def scratch_base():
    if os.environ.get("VERIF_SCRATCH"):
        return os.environ["VERIF_SCRATCH"]
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > (6 << 30) and os.access("/dev/shm", os.W_OK):
            return "/dev/shm"
    except OSError:
        pass
    return tempfile.gettempdir()


# ------------------------------------------------------------------ reports
def _clean(fn):
    fn = re.sub(r"\(anonymous namespace\)", "anon", fn)
    fn = re.sub(r"\[abi:\w+\]", "", fn)
    # drop template arguments and parameter lists
    out, depth = "", 0
    for ch in fn:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth = max(0, depth - 1)
        elif depth == 0:
            out += ch
    out = out.replace(" const", "").strip()
    return out.split(" ")[-1] if out else fn[:60]


def e57_frame(lines):
    for l in lines:
        m = re.match(r"\s*#\d+\s+(?:0x[0-9a-f]+ in )?(.*)", l)
        if not m:
            continue
        body = m.group(1)
        if B.REPO + "/src" in body or B.REPO + "/include" in body or "e57::" in body.split(" /")[0]:
            f = _clean(re.split(r" (?:/|\()", body)[0] if " /" in body else body)
            if "mon::" in f or "api::" in f:
                continue
            return f
    return "?"


def crash_key(err, rc):
    """One stable name for an abnormal end, from the sanitizer's or runtime's report."""
    lines = err.splitlines()
    for i, l in enumerate(lines):
        m = re.search(r"ERROR: (?:Address|Leak|Thread)Sanitizer:? (.*)", l)
        if m:
            kind = m.group(1)
            kind = re.split(r" on | \(|: |0x", kind)[0].strip().replace(" ", "-")
            if "SEGV" in m.group(1):
                kind = "SEGV"
            if "requested allocation size" in m.group(1):
                kind = "allocation-size-too-big"
            return "asan:%s:%s" % (kind, e57_frame(lines[i:i + 60]))
        m = re.search(r"runtime error: (.*)", l)
        if m:
            msg = re.sub(r"-?(?:\b|(?<=-))(?:0x[0-9a-f]+|\d[\d.e+]*|nan|inf)\b", "N", m.group(1))
            return "ubsan:%s:%s" % (msg[:90], e57_frame(lines[i:i + 40]))
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", l)
        if m:
            blocks, cur = [], []
            for x in lines[i + 1:i + 120]:
                if re.match(r"\s*#\d+", x):
                    cur.append(x)
                elif cur:
                    blocks.append(cur)
                    cur = []
                if x.startswith("SUMMARY"):
                    break
            fr = sorted({e57_frame(b) for b in blocks[:2]})
            return "tsan:%s:%s" % (m.group(1).replace(" ", "-"), "+".join(fr))
        m = re.search(r"Assertion [`'](.*)' failed", l)
        if m:
            where = re.search(r"([\w.]+):\d+: ", l)
            return "assert:%s:%s" % (where.group(1) if where else "?", m.group(1)[:80])
        m = re.search(r"terminate called after throwing an instance of '(.*)'", l)
        if m:
            return "terminate:" + m.group(1)
        if "terminate called" in l:
            return "terminate"
        if "*** buffer overflow detected" in l or "stack smashing" in l:
            return "fortify:" + l.strip("* :")[:60]
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "abnormal-exit:%d" % rc


class Killed(Exception):
    pass


class Runner:
    def __init__(self, prop, tier, seed, deadline):
        self.prop, self.tier, self.seed, self.deadline = prop, tier, seed, deadline
        self.plan = PLAN[prop]
        self.violations = []   # dicts
        self.counts, self.distinct, self.samples = {}, {}, []
        self.cases = 0
        self.planned = 0
        self.incomplete = 0
        self.notes = []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.base = tempfile.mkdtemp(prefix="e57mon-", dir=scratch_base())
        self.digests = {}      # (driver, name, case, what) -> (value, variant)
        self.harness_error = None
        self.known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]

    # -------------------------------------------------------------- matching
    def listed(self, v):
        for k in self.known:
            if k["property"] == self.prop and k["probe"] == v["name"] and k["key"] == v["key"]:
                return k
        return None

    def add_violation(self, v):
        with self.lock:
            self.violations.append(v)
            fresh = [x for x in self.violations if not self.listed(x)]
            if len({x["key"] for x in fresh}) >= 3 or len(fresh) >= 12:
                self.stop.set()

    # ------------------------------------------------------------- processes
    def spawn(self, run, binary, args, wdir, stall):
        """One driver process. Returns (returncode, log lines, stderr, stalled)."""
        os.makedirs(wdir, exist_ok=True)
        logf = os.path.join(wdir, "..", os.path.basename(wdir) + ".log")
        errf = os.path.join(wdir, "..", os.path.basename(wdir) + ".err")
        for f in (logf, errf):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("LC_") or k in ("LANG", "LANGUAGE"):
                del env[k]
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:" \
                              "allocator_may_return_null=0:handle_abort=1:strict_string_checks=1" + run.get("asan", "")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        env["TSAN_OPTIONS"] = "halt_on_error=1:second_deadlock_stack=1:history_size=4"
        env.update(run.get("env", {}))
        cmd = [binary, "--dir", wdir, "--log", logf, "--seed", str(self.seed), "--tier", self.tier] + args
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=env, cwd=wdir,
                                 start_new_session=True)
        last, last_size, stalled = time.time(), -1, False
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                size = os.path.getsize(logf)
            except OSError:
                size = 0
            now = time.time()
            if size != last_size:
                last, last_size = now, size
            if now - last > stall or self.stop.is_set() or now > self.deadline:
                stalled = now - last > stall
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                if not stalled:
                    raise Killed()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        with open(logf, "r", errors="replace") as f:
            lines = f.read().splitlines() if os.path.exists(logf) else []
        with open(errf, "r", errors="replace") as f:
            err = f.read()
            if len(err) > 400000:
                err = err[:200000] + err[-200000:]
        return p.returncode, lines, err, stalled

    def merge(self, lines):
        with self.lock:
            for l in lines:
                if l.startswith("C {"):
                    d = json.loads(l[2:])
                    self.counts[d["k"]] = self.counts.get(d["k"], 0) + d["n"]
                elif l.startswith("D {"):
                    d = json.loads(l[2:])
                    self.distinct.setdefault(d["k"], set()).update(d["v"])
                elif l.startswith("X "):
                    if len(self.samples) < 12:
                        self.samples.append(json.loads(l[2:])[:400])

    def make_violation(self, run, name, case, key, detail, notes, err=""):
        return {"property": self.prop, "variant": run["variant"], "driver": run["src"], "name": name, "case": case,
                "seed": self.seed, "tier": self.tier, "key": key, "detail": detail, "notes": notes, "report": err[:12000]}

    def digest(self, run, name, d):
        """What one build got in a case; every other build must get the same."""
        key = (run["src"], name, d["case"], d["what"])
        with self.lock:
            first = self.digests.setdefault(key, (d["value"], run["variant"]))
            if first[1] != run["variant"]:
                self.counts["results compared between builds"] = self.counts.get("results compared between builds", 0) + 1
        if first[0] != d["value"]:
            v = self.make_violation(run, name, d["case"], "builds-differ:" + re.sub(r"-\d+$", "", d["what"]),
                                    "%s: %s in %s, %s in %s" % (d["what"], first[0], first[1], d["value"], run["variant"]), [])
            v["other"] = first[1]
            self.add_violation(v)

    def scan(self, run, lines, name):
        last = None
        for l in lines:
            if l.startswith("B "):
                last = int(l[2:])
            elif l.startswith("E "):
                last = None
                with self.lock:
                    self.cases += 1
            elif l.startswith("G {"):
                self.digest(run, name, json.loads(l[2:]))
            elif l.startswith("V {"):
                d = json.loads(l[2:])
                if d["key"] == "harness":
                    self.harness_error = "driver reported: " + d["detail"]
                    self.stop.set()
                    continue
                self.add_violation(self.make_violation(run, d["name"], d["case"], d["key"], d["detail"], d["notes"]))
        return last

    def abnormal(self, run, binary, wdir, rc, lines, err, stalled, case, name, args):
        """A process ended abnormally inside a case: decide what it was."""
        key = None
        if rc == 98 or stalled or (rc == -9 and "Sanitizer" not in err):
            # a hang, a stall or an outside kill: once more, alone, with more time
            what = "hang" if rc == 98 else "stall" if stalled else "killed"
            log("%s in %s case %s; running it again alone" % (what, name, case))
            rc2, lines2, err2, st2 = self.spawn(run, binary, args + ["--cpu-scale", "2"], wdir, 240)
            if any(l == "OK" for l in lines2):
                self.scan(run, lines2, name)
                self.merge(lines2)
                with self.lock:
                    self.incomplete += 1
                self.notes.append("%s of case %s not confirmed: inconclusive" % (what, case))
                return
            if rc2 == 98:
                key, err = "hang", err2
            elif st2:
                key, err = "stall", err2
            elif rc2 == -9:
                key, err = "killed", err2
            else:
                rc, err = rc2, err2
        if rc in (96, 97):
            self.harness_error = "driver failed (%d): %s" % (rc, err[-500:])
            self.stop.set()
            return
        key = key or crash_key(err, rc)
        self.add_violation(self.make_violation(run, name, case, key, "process ended with %s" % rc, [], err))

    def worker(self, run, binary, w, n, ri):
        wdir = os.path.join(self.base, "r%dw%d" % (ri, w))
        nxt = w
        stall = run.get("stall", 150)
        try:
            while nxt < n and not self.stop.is_set():
                end = min(n, nxt + NW * run["chunk"]) if "chunk" in run else n
                args = ["--from", str(nxt), "--to", str(end), "--step", str(NW)]
                rc, lines, err, stalled = self.spawn(run, binary, args, wdir, stall)
                last = self.scan(run, lines, "run")
                if lines and lines[-1] == "OK" and rc == 0:
                    self.merge(lines)
                    if end == n:
                        return
                    nxt += NW * run["chunk"]
                    continue
                if lines and lines[-1] == "OK":
                    # finished all cases, then failed on the way out
                    self.merge(lines)
                    self.add_violation(self.make_violation(run, "exit", n, crash_key(err, rc), "at process exit", [], err))
                    return
                if last is None:
                    self.harness_error = "driver ended outside a case (rc %s): %s" % (rc, err[-800:])
                    self.stop.set()
                    return
                shutil.rmtree(wdir, ignore_errors=True)
                self.abnormal(run, binary, wdir, rc, lines, err, stalled, last, "run",
                              ["--from", str(last), "--to", str(last + 1)])
                nxt = last + NW
        except Killed:
            pass
        except Exception as e:  # noqa
            self.harness_error = "worker: %r" % (e,)
            self.stop.set()
        finally:
            shutil.rmtree(wdir, ignore_errors=True)

    def probe(self, run, binary, name, ri):
        wdir = os.path.join(self.base, "p%d-%s" % (ri, name))
        try:
            args = ["--probe", name]
            rc, lines, err, stalled = self.spawn(run, binary, args, wdir, run.get("stall", 150))
            last = self.scan(run, lines, name)
            if lines and lines[-1] == "OK" and rc == 0:
                self.merge(lines)
            elif lines and lines[-1] == "OK":
                self.add_violation(self.make_violation(run, name, 0, crash_key(err, rc), "at process exit", [], err))
            elif last is None:
                self.harness_error = "probe %s failed (rc %s): %s" % (name, rc, err[-800:])
                self.stop.set()
            else:
                self.abnormal(run, binary, wdir, rc, lines, err, stalled, 0, name, args)
        except Killed:
            with self.lock:
                self.incomplete += 1
        except Exception as e:  # noqa
            self.harness_error = "probe: %r" % (e,)
            self.stop.set()
        finally:
            shutil.rmtree(wdir, ignore_errors=True)

    def list_probes(self, run, binary):
        wdir = os.path.join(self.base, "list")
        rc, lines, err, _ = self.spawn(run, binary, ["--probe", "?"], wdir, 60)
        if rc != 0:
            raise RuntimeError("cannot list probes: " + err[-400:])
        return [l[2:] for l in lines if l.startswith("P ")]

    def go(self):
        runs = [dict(r) for r in self.plan["runs"]]
        jobs = [(r["variant"], ["mon.cpp"] + r.get("extra", self.plan.get("extra", [])) + [r["src"]], r.get("link", self.plan.get("link", []))) for r in runs]
        bins = B.build(jobs)
        log("built %d driver(s)" % len(set(bins)))
        probed = set()
        aside = []
        for ri, (run, binary) in enumerate(zip(runs, bins)):
            n = run["quick"] if self.tier == "quick" else run["thorough"]
            n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
            if not run.get("noprobes"):
                names = self.list_probes(run, binary)
                sem = threading.Semaphore(NW)

                def one(nm):
                    with sem:
                        if not self.stop.is_set():
                            self.probe(run, binary, nm, ri)
                ts = [threading.Thread(target=one, args=(nm,)) for nm in names]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                probed.update(names)
                if names:
                    log("%s: %d probes done" % (run["variant"], len(names)))
            with self.lock:
                self.planned += n
            ts = [threading.Thread(target=self.worker, args=(run, binary, w, n, ri)) for w in range(NW)]
            for t in ts:
                t.start()
            if run.get("aside"):
                # few long cases, beside the other runs
                aside += ts
                continue
            for t in ts:
                t.join()
            log("%s %s: %d cases so far" % (run["src"], run["variant"], self.cases))
            if self.stop.is_set() or time.time() > self.deadline:
                break
        for t in aside:
            t.join()
        return probed

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def write_replay(v):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((v["key"] + v["name"]).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (v["property"], h))
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return p


def replay(path):
    v = json.load(open(path))
    r = Runner(v["property"], v["tier"], v["seed"], time.time() + 3000)
    bad = False
    for variant in [v["variant"]] + ([v["other"]] if "other" in v else []):
        run = [x for x in r.plan["runs"] if x["variant"] == variant and x["src"] == v["driver"]][0]
        b = B.build([(run["variant"], ["mon.cpp"] + run.get("extra", r.plan.get("extra", [])) + [run["src"]], run.get("link", r.plan.get("link", [])))])[0]
        args = ["--probe", v["name"]] if v["name"] not in ("run", "end", "exit") else \
            ["--from", str(v["case"]), "--to", str(v["case"] + 1)]
        rc, lines, err, stalled = r.spawn(run, b, args, os.path.join(r.base, "replay"), 600)
        for l in lines:
            print(l[:4000])
        print(err[-8000:])
        r.scan(run, lines, v["name"])
        bad = bad or rc != 0 or bool(r.violations)
    r.close()
    print("replay: %s (rc %s)" % ("violated again" if bad else "did not fail", rc))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    limit = float(os.environ.get("VERIF_DEADLINE", "780" if a.tier == "quick" else "14000"))
    ev_path = os.path.join(VERIF, "evidence", a.property + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    r = Runner(a.property, a.tier, seed, T0 + limit)
    try:
        r.go()
    except B.BuildError as e:
        log("build failed: %s" % e)
        return 2
    finally:
        r.close()
    if r.harness_error:
        log("HARNESS ERROR: " + r.harness_error)
    fresh, known = {}, {}
    for v in r.violations:
        k = r.listed(v)
        if k:
            known[k["id"]] = k
        else:
            fresh.setdefault(v["key"], v)
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s [%s]" % (a.property, k["what"], k["id"]))
    for k in r.known:
        if k["property"] == a.property and k["id"] not in known:
            log("note: known finding %s did not reproduce on this tree" % k["id"])
    for v in list(fresh.values())[:6]:
        p = write_replay(v)
        log("violated: %s\n    case %s/%s seed %s (%s)\n    %s\n    trail: %s" % (
            v["key"], v["name"], v["case"], v["seed"], v["variant"], v["detail"][:1500], " | ".join(v["notes"][-12:])[:3000]))
        if v["report"]:
            print("    " + "\n    ".join(v["report"].splitlines()[:30]))
        print("VIOLATION property=%s replay=%s" % (a.property, p), flush=True)
    ev = {
        "property": a.property, "tier": a.tier, "seed": seed, "level": r.plan["level"],
        "coverage": {
            "evaluations": r.cases,
            "distinct_nontrivial": len(r.distinct.get("case", ())),
            "rule": r.plan["rule"],
            "samples": r.samples[:8],
            "planned_cases": r.planned,
            "observed": dict(sorted(r.counts.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(r.distinct.items())},
            "distinct_values": {k: sorted(v)[:80] for k, v in sorted(r.distinct.items()) if k != "case" and len(v) <= 80},
            "builds": [{"variant": x["variant"], "driver": x["src"]} for x in r.plan["runs"]],
            "inconclusive": r.incomplete, "notes": r.notes[:20],
            "known_findings_reproduced": sorted(known),
        },
        "wall_s": round(time.time() - T0, 1),
        "assumptions": r.plan.get("assumptions", []),
        "violations": [{"key": v["key"], "case": v["case"], "name": v["name"]} for v in list(fresh.values())[:20]],
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        return 1
    if r.harness_error:
        return 2
    need = r.plan.get("need", {})
    short = [k for k, n in need.items() if r.counts.get(k, 0) < n]
    if r.cases < max(1, 0.25 * r.planned) or short or len(r.distinct.get("case", ())) < 2:
        log("observed too little: %d of %d cases, missing %s" % (r.cases, r.planned, short))
        return 2
    log("held on %d cases (%d distinct), %s" % (r.cases, len(r.distinct.get("case", ())),
                                               ", ".join("%s %d" % kv for kv in sorted(r.counts.items()))[:600]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
