#!/usr/bin/env python3
"""Decides one property of qbeon/webwire-go.

usage: run.py PROPERTY quick|thorough
       run.py replay FILE

Builds the harness in gopath/src/wwcheck together with /repo's current working tree, runs it in
several processes whose seeds derive from VERIF_SEED, merges their results into
evidence/PROPERTY.json and exits 0 (held), 1 (VIOLATION) or 2 (error of the check).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WW_REPO", "/repo")
PKG = "github.com/qbeon/webwire-go"
GO = "/opt/veriftools/go1.27.3/bin"
SHARDS = 8
BUDGET = {"quick": 150, "thorough": 1500}
RACE = {"C31"}
# Properties some of whose processes use the race detector as well
MIXED = {"C03", "C26"}
# Properties most of whose processes run a copy of the sources instrumented with synchronisation points
# at which goroutines are held up, see gopath/src/wwinstrument
POINTS = {"C03", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C23",
          "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33"}


def error(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


class BuildFailed(Exception):
    pass


class Build:
    """A build of the harness in a scratch directory"""

    def __init__(self, race, base=None):
        """Builds the sources as they are, or instruments them if there's a build of the sources already"""
        self.dir = tempfile.mkdtemp(prefix="wwbuild")
        self.race = race
        self.bin = os.path.join(self.dir, "check.test")
        src = os.path.join(self.dir, "gopath/src", PKG)
        os.makedirs(os.path.dirname(src))
        cache = os.environ.get("WW_GOCACHE") or (base and base.cache)
        if not cache:
            cache = os.path.join(self.dir, "cache")
            if os.path.isdir("/opt/vp/gocache") and not race:
                # Don't build the standard library again
                shutil.copytree("/opt/vp/gocache", cache)
        self.cache = cache
        self.env = dict(os.environ)
        if os.path.isdir(GO):
            self.env["PATH"] = GO + ":" + self.env.get("PATH", "")
        self.env.update(
            HOME=self.dir, GOENV="off", GO111MODULE="off", GOFLAGS="", GOTOOLCHAIN="local",
            GOPROXY="off", GOWORK="off", GOCACHE=cache, GOTMPDIR=self.dir, TMPDIR=self.dir,
            GOPATH=os.path.join(self.dir, "gopath") + ":" + os.path.join(VERIF, "gopath"),
            CGO_ENABLED="1" if race else "0", GODEBUG="", GORACE="halt_on_error=1 exitcode=66",
        )
        for k in list(self.env):
            if k.startswith("RAPID_"):
                del self.env[k]
        if base:
            self.go("run", "wwinstrument", REPO, src)
        else:
            os.symlink(REPO, src)
        self.go(*(["test", "-vet=off", "-c", "-o", self.bin] + (["-race"] if race else []) + ["wwcheck"]))

    def go(self, *args):
        p = subprocess.run(["go"] + list(args), env=self.env, cwd=self.dir, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            self.close()
            raise BuildFailed(p.stdout)

    def drop_cache(self):
        if not os.environ.get("WW_GOCACHE"):
            shutil.rmtree(self.cache, ignore_errors=True)

    def close(self):
        subprocess.run(["chmod", "-R", "u+w", self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)

    def start(self, name, args, procs):
        out = os.path.join(self.dir, name)
        env = dict(self.env, GOMAXPROCS=str(procs), GOTRACEBACK="all")
        log = open(out + ".log", "wb")
        p = subprocess.Popen(
            [self.bin, "-test.run=^TestProperty$", "-test.timeout=0", "-ww.out=" + out] + args,
            env=env, cwd=self.dir, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        log.close()
        return p, out


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def blame(trace):
    """Tells whether the topmost relevant frame of a stack trace belongs to webwire-go"""
    lines = trace.split("\n")
    start = 0
    for i, l in enumerate(lines):
        if l.startswith(("panic(", "runtime.throw(", "runtime.fatal(")):
            start = i + 1
    if any(l.startswith("wwcheck.deliberately(") for l in lines[start:]):
        # A hook panicked and the panic wasn't contained
        return any(l.startswith((PKG, "created by " + PKG)) for l in lines)
    for l in lines[start:]:
        if l.startswith("\t") or l.startswith("goroutine "):
            continue
        if l.startswith(PKG):
            return True
        if l.startswith("wwcheck."):
            return False
    return False


def crash(output):
    """Returns the text of a crash caused by webwire-go or None"""
    i = output.find("WARNING: DATA RACE")
    if i >= 0:
        report = output[i:].split("==================")[0]
        for s in report.split("\n\n"):
            head = s.replace("WARNING: DATA RACE\n", "").split("\n")
            if "by goroutine" in head[0] or "by main goroutine" in head[0]:
                for l in head[1:]:
                    l = l.strip()
                    if l.startswith(PKG):
                        return report
                    if l.startswith("wwcheck."):
                        break
        return None
    m = re.search(r"^(panic: |fatal error: )", output, re.M)
    if not m:
        return None
    text = output[m.start():]
    t = re.search(r"^goroutine \d+.*\[running.*$", text, re.M)
    if not t:
        # A fatal error such as a deadlock lists the goroutines only
        return None
    trace = text[t.start():].split("\n\n")[0]
    return text[:6000] if blame(trace) else None


def read(path, binary=False):
    with open(path, "rb") as f:
        b = f.read()
    return b if binary else b.decode("utf-8", "replace")


def journal(out):
    """Returns the index and the case a process was working on"""
    try:
        b = read(out + ".journal", True)
        n = int(b[21:41])
        return int(b[:20]), json.loads(b[42:42 + n])
    except (OSError, ValueError):
        return None, None


def seed_of(seed, prop, shard):
    h = hashlib.sha256(("%d/%s/%d" % (seed, prop, shard)).encode()).digest()
    return int.from_bytes(h[:6], "little") + 1


def known_findings():
    """The committed list of findings that aren't reported as violations"""
    path = os.path.join(VERIF, "known-findings.jsonl")
    found = []
    if os.path.exists(path):
        for l in read(path).splitlines():
            if l.strip():
                e = json.loads(l)
                if e.get("status") == "known":
                    found.append(e)
    return found


def violation(prop, case, text, seed, tier):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    js = json.dumps(case, sort_keys=True)
    name = "%s-%s.json" % (prop, hashlib.sha256(js.encode()).hexdigest()[:12])
    path = os.path.join(VERIF, "replays", name)
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "failure": text, "seed": seed, "tier": tier}, f, indent=1)
    print("\n".join("  " + l for l in text.splitlines()[:40]))
    print("  case: " + js[:3000])
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def check(prop, tier):
    began = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    shards = int(os.environ.get("WW_SHARDS", SHARDS))
    budget = int(os.environ.get("WW_BUDGET", BUDGET[tier]))
    build, racing, points = Build(prop in RACE), None, None
    try:
        if prop in POINTS:
            try:
                points = Build(prop in RACE, build)
            except BuildFailed as e:
                # The sources as they are have been built
                print("instrumented sources can't be built, none are used: " + str(e)[:500])
        build.drop_cache()
        if prop in MIXED:
            racing = Build(True)
            racing.drop_cache()
        procs = []
        for i in range(shards):
            args = ["-ww.prop=" + prop, "-ww.tier=" + tier, "-ww.budget=%ds" % budget,
                    "-rapid.seed=%d" % seed_of(seed, prop, i),
                    "-rapid.shrinktime=%s" % ("15s" if tier == "quick" else "60s"),
                    "-ww.scale=" + os.environ.get("WW_SCALE", "1")]
            b = racing if racing and i % 4 == 1 else points if points and i % 4 else build
            procs.append((b.start("s%d" % i, args, 4 if b is racing else [2, 1, 4, 2, 3, 8, 2, 1][i % 8]), args))
        deadline = began + budget + 240
        stats, failures, errors = [], [], []
        for (p, out), args in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                kill(p)
                errors.append("timed out: " + repr(journal(out))[:2000])
                continue
            log = read(out + ".log")
            if p.returncode == 0 and os.path.exists(out):
                s = json.loads(read(out))
                stats.append(s)
                if s.get("failure"):
                    failures.append((s["case"], s["failure"]))
                if s.get("harness"):
                    errors.append("harness error: " + s["harness"][:4000])
                continue
            text = crash(log)
            index, case = journal(out)
            if text is None or case is None:
                errors.append("exit status %s: %s" % (p.returncode, log[-4000:]))
            else:
                failures.append((case, "the process crashed:\n" + text))
                stats.append({"evaluations": index + 1, "nontrivial": 0, "classes": {}, "samples": [case], "inconclusive": 0,
                              "rule": ""})
                # Look for a smaller case, running each one in a process of its own
                if not any(f[1].startswith("minimised") for f in failures) and not build.race and "DATA RACE" not in text:
                    q, mout = (points or build).start("m" + str(len(failures)), args + ["-ww.isolate=%d" % index], 4)
                    try:
                        q.wait(90)
                    except subprocess.TimeoutExpired:
                        kill(q)
                    if os.path.exists(mout):
                        s = json.loads(read(mout))
                        if s.get("failure"):
                            failures.append((s["case"], "minimised: " + s["failure"]))
        known = [k for k in known_findings() if k["property"] == prop]
        reported, listed = [], []
        for case, text in sorted(failures, key=lambda f: (not f[1].startswith("minimised"), len(json.dumps(f[0])))):
            k = next((k for k in known if k["case"] == case), None)
            (listed if k else reported).append((case, text))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

        distinct = set()
        classes, samples, total, nontriv, inconclusive, time_up = {}, [], 0, 0, 0, 0
        rule = ""
        for s in stats:
            rule = rule or s.get("rule", "")
            total += s["evaluations"]
            nontriv += s["nontrivial"]
            inconclusive += s["inconclusive"]
            time_up += 1 if s.get("time_up") else 0
            for k, n in (s["classes"] or {}).items():
                classes[k] = classes.get(k, 0) + n
            samples += s["samples"] or []
            if s.get("hashes") and os.path.exists(s["hashes"]):
                b = read(s["hashes"], True)
                distinct.update(b[i:i + 8] for i in range(0, len(b), 8))
        samples.sort(key=lambda c: len(json.dumps(c)))
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": total, "distinct_nontrivial": len(distinct), "rule": rule,
                "samples": samples[:5], "classes": dict(sorted(classes.items())),
                "inconclusive": inconclusive, "processes": shards, "processes_out_of_time": time_up,
                "processes_instrumented": sum(1 for i in range(shards) if i % 4) if points and not racing else
                sum(1 for i in range(shards) if i % 4 > 1) if points else 0,
            },
            "assumptions": [],
            "wall_s": round(time.time() - began, 2), "violations": len(reported),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        print("%s %s: %d cases (%d distinct non-trivial, %d inconclusive) in %.1f s" % (
            prop, tier, total, len(distinct), inconclusive, time.time() - began))
        if reported:
            violation(prop, reported[0][0], reported[0][1], seed, tier)
            return 1
        if errors:
            print("ERROR: " + "\nERROR: ".join(errors))
            return 2
        if inconclusive > 0:
            print("ERROR: %d cases were inconclusive" % inconclusive)
            return 2
        return 0
    finally:
        for (p, _), _ in procs if "procs" in dir() else []:
            if p.poll() is None:
                kill(p)
        for b in (build, racing, points):
            if b:
                b.close()


def replay(path):
    js = json.loads(read(path))
    prop = js["property"]
    builds = [Build(prop in RACE or "DATA RACE" in js.get("failure", ""))]
    try:
        if prop in POINTS:
            builds.insert(0, Build(builds[0].race, builds[0]))
        for attempt in range(4):
            p, out = builds[attempt % len(builds)].start("r%d" % attempt, [
                "-ww.prop=" + prop, "-ww.replay=" + os.path.abspath(path),
                "-ww.repeat=" + os.environ.get("WW_REPEAT", "200")], [4, 1, 8, 2][attempt])
            try:
                p.wait(300)
            except subprocess.TimeoutExpired:
                kill(p)
                error("timed out")
            text = None
            if p.returncode == 0 and os.path.exists(out):
                s = json.loads(read(out))
                if s.get("harness"):
                    error(s["harness"])
                text = s.get("failure")
            else:
                text = crash(read(out + ".log"))
                if text is None:
                    error(read(out + ".log")[-4000:])
            if text:
                print("\n".join("  " + l for l in text.splitlines()[:60]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
        print("not reproduced: " + path)
        return 0
    finally:
        for b in builds:
            b.close()


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        try:
            sys.exit(replay(sys.argv[2]))
        except BuildFailed as e:
            error("build failed:\n" + str(e))
    if len(sys.argv) != 3 or sys.argv[2] not in BUDGET or not re.match(r"^C\d\d$", sys.argv[1]):
        print(__doc__)
        sys.exit(2)
    try:
        sys.exit(check(sys.argv[1], sys.argv[2]))
    except BuildFailed as e:
        error("build failed:\n" + str(e))
