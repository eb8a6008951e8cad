#!/usr/bin/env python3
"""Runs one check: python3 check.py C01 [--replay FILE] [--seed N] [--tier T]

Runs the monitors of harness/p_<id>.py under Jython against the working tree
of /repo, judges what they recorded, writes evidence/<id>.json.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: no verdict (harness error, monitor never reached, watchdog).
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LEVELS = {}


def clean_caches():
    """What /opt/vp/env.sh does: no bytecode or plugin cache of an earlier
    state of the code (all of it ignored by git)."""
    try:
        os.unlink(os.path.join(REPO, "twisted/plugins/dropin.cache"))
    except OSError:
        pass
    for base in (REPO, "/opt/jy", os.path.join(HERE, "harness")):
        for root, dirs, names in os.walk(base):
            if ".git" in dirs:
                dirs.remove(".git")
            for name in names:
                if name.endswith("$py.class"):
                    try:
                        os.unlink(os.path.join(root, name))
                    except OSError:
                        pass


def environment(scratch):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
        "JYTHONPATH": ":".join([os.path.join(HERE, "harness"),
                                "/opt/jy/compat", REPO, "/opt/jy/lib"]),
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "VERIF_REPO": REPO,
        "TZ": "UTC",
    }
    return env


def java_command(tier):
    cmd = ["java", "-Xmx3g", "-XX:+UseSerialGC", "-XX:-UsePerfData",
           "-Xss4m"]
    if tier == "quick":
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-Dpython.cachedir.skip=true", "-jar",
            "/usr/share/java/jython.jar", "-Dpython.home=/usr/share/jython",
            "-Dpython.executable=/usr/bin/jython"]
    return cmd


class Watchdog(object):
    """Sees a case that does not end: the code under test loops, waits for
    ever, or fills the memory.

    The cases take a few seconds at most, so that one that has used minutes
    of processor time, or was waited for much longer, will not end.  Both are
    counted in steps of this loop: a sandbox that was stopped for a while
    does not count as waiting.
    """

    def __init__(self, proc, path, tier):
        self.proc = proc
        self.path = path
        self.cpu_limit = 150 if tier == "quick" else 300
        self.steps_limit = 400 if tier == "quick" else 800
        self.case = None
        self.steps = 0
        self.cpu = 0.0

    def used(self):
        try:
            with open("/proc/%d/stat" % self.proc.pid) as f:
                fields = f.read().rsplit(")", 1)[1].split()
            return (int(fields[11]) + int(fields[12])) / float(
                os.sysconf("SC_CLK_TCK"))
        except (OSError, ValueError, IndexError):
            return self.cpu

    def step(self):
        """None, or what is wrong."""
        try:
            with open(self.path) as f:
                case = f.readline().strip()
        except OSError:
            case = ""
        if case != self.case:
            self.case, self.steps, self.cpu = case, 0, self.used()
            return None
        self.steps += 1
        if not case or case == "-":
            return None
        used = self.used() - self.cpu
        if used > self.cpu_limit:
            return "did not end within %d s of processor time" % used
        if self.steps > self.steps_limit:
            return "did not end within %d s" % self.steps
        return None


def unended(case, what, tail, tier, seed):
    """What the harness would have written, had the case ended."""
    name, index = case.rsplit(":", 1)
    return {
        "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [],
        "counters": {}, "known": [], "errors": [], "missing": [],
        "truncated": [], "assumptions": [],
        "scenarios": {name: {"cases": int(index) + 1}},
        "violations": [{
            "mechanism": "no-end", "scenario": name, "index": int(index),
            "seed": seed, "tier": tier, "events": [], "traceback": tail,
            "text": "the case " + what}]}


def run_harness(pid, tier, seed, only, timeout):
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
    out = os.path.join(scratch, "result.json")
    errlog = os.path.join(scratch, "stderr")
    timed_out = False
    try:
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        if os.path.exists("/usr/share/java/jython.jar"):
            cmd = java_command(tier)
        else:
            cmd = ["/usr/bin/jython"]
        cmd += [os.path.join(HERE, "harness", "vlib.py"), pid, tier,
                str(seed), out, only or ""]
        with open(errlog, "wb") as err:
            proc = subprocess.Popen(cmd, cwd=work, env=environment(scratch),
                                    stdin=subprocess.DEVNULL, stdout=err,
                                    stderr=subprocess.STDOUT,
                                    start_new_session=True)
            watchdog = Watchdog(proc, out + ".case", tier)
            stuck, end = None, time.time() + timeout
            try:
                while proc.poll() is None and stuck is None:
                    if time.time() > end:
                        timed_out = True
                        break
                    try:
                        proc.wait(timeout=1)
                    except subprocess.TimeoutExpired:
                        stuck = watchdog.step()
                if stuck is not None:
                    # Where it is: Java prints its threads.
                    os.kill(proc.pid, signal.SIGQUIT)
                    time.sleep(2)
            finally:
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except OSError:
                    pass
                proc.wait()
        result = None
        if os.path.exists(out):
            with open(out) as f:
                result = json.load(f)
        with open(errlog, "rb") as f:
            tail = f.read()[-60000:].decode("utf-8", "replace")
        if stuck is not None and result is None:
            result = unended(watchdog.case, stuck, tail, tier, seed)
        elif result is None and "java.lang.OutOfMemoryError" in tail:
            watchdog.step()
            if ":" in (watchdog.case or ""):
                result = unended(watchdog.case, "used all the memory", tail,
                                 tier, seed)
        tail = tail[-4000:]
        return result, tail, timed_out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def self_test():
    """Nothing is built: see that what the checks need is here."""
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        checks = json.load(f)["checks"]
    for check in checks:
        path = "harness/p_%s.py" % check["property"].lower()
        if not os.path.exists(os.path.join(HERE, path)):
            print("missing: " + path)
            return 2
    scratch = tempfile.mkdtemp(prefix="verif-self-test-")
    try:
        cmd = java_command("quick") + [
            "-c", "import twisted, carbon.client; print 'ready'"]
        out = subprocess.run(cmd, cwd=scratch, env=environment(scratch),
                             stdin=subprocess.DEVNULL, timeout=600,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT).stdout
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(out.decode("utf-8", "replace")[-300:].strip())
    return 0 if out.strip().endswith(b"ready") else 2


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {entry["mechanism"]: entry for entry in data["known"]
            if entry["property"] == pid}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("pid", nargs="?")
    parser.add_argument("--self-test", action="store_true")
    parser.add_argument("--replay")
    parser.add_argument("--seed", type=int)
    parser.add_argument("--tier")
    args = parser.parse_args()
    if args.self_test:
        return self_test()
    if not re.match(r"C\d+$", args.pid or ""):
        parser.error("which property?")
    pid = args.pid
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = args.seed if args.seed is not None else int(
            os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = None
    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        seed, tier = rp["seed"], rp["tier"]
        only = "%s:%d" % (rp["scenario"], rp["index"])

    started = time.time()
    clean_caches()
    timeout = 780 if tier == "quick" else 1500
    result, tail, timed_out = run_harness(pid, tier, seed, only, timeout)
    clean_caches()
    wall = round(time.time() - started, 2)

    if result is None:
        print("INCONCLUSIVE property=%s %s" % (
            pid, "watchdog" if timed_out else "the harness died"))
        print(tail)
        return 2

    known = load_known(pid)
    fresh, seen = [], {}
    for v in result["violations"]:
        if v["mechanism"] in known:
            seen[v["mechanism"]] = known[v["mechanism"]]
        else:
            fresh.append(v)
    for mech in result["known"]:
        if mech in known:
            seen[mech] = known[mech]
        else:
            fresh.append({"mechanism": mech, "scenario": "known", "index": 0,
                          "seed": seed, "tier": tier, "events": [],
                          "traceback": "",
                          "text": "mechanism not listed as known: " + mech})

    if only is None:
        write_evidence(pid, tier, seed, result, fresh, seen, wall)

    for mech in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, seen[mech]["what"]))

    if fresh:
        folder = os.path.join(HERE, "replays")
        os.makedirs(folder, exist_ok=True)
        for i, v in enumerate(fresh[:4]):
            path = os.path.join(folder, "%s-%s-%d-%d.json" % (
                pid, tier, seed, i))
            if only is None:
                with open(path, "w") as f:
                    json.dump(dict(v, property=pid), f, indent=1)
            else:
                path = args.replay
            print("  [%s] %s (scenario %s, case %d)" % (
                v["mechanism"], v["text"][:700], v["scenario"], v["index"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1

    if result["errors"]:
        print("ERROR property=%s harness error" % pid)
        for e in result["errors"][:3]:
            print(e)
        return 2
    if result["missing"]:
        print("INCONCLUSIVE property=%s not observed: %s" % (
            pid, "; ".join(result["missing"])))
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (
        pid, result["evaluations"], result["distinct_nontrivial"], wall))
    return 0


def write_evidence(pid, tier, seed, result, fresh, seen, wall):
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    coverage = {
        "evaluations": result["evaluations"],
        "distinct_nontrivial": result["distinct_nontrivial"],
        "rule": result["rule"],
        "samples": result["samples"] or [
            {"scenario": name, "cases": info["cases"]}
            for name, info in sorted(result["scenarios"].items())],
        "observed": result["counters"],
        "scenarios": result["scenarios"],
    }
    if result["truncated"]:
        coverage["stopped_by_time"] = result["truncated"]
    if seen:
        coverage["known_findings_seen"] = sorted(seen)
    if result["errors"] or result["missing"]:
        coverage["no_verdict"] = (result["errors"] + result["missing"])[:5]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": result["assumptions"],
        "wall_s": wall, "violations": len(fresh)}
    path = os.path.join(folder, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
