# -*- coding: utf-8 -*-
"""Monitor runtime shared by every check (runs under Jython 2.7).

A check module defines run(ctx). It drives the real code of /repo through
scenarios; each scenario is a function f(case) called for index 0..n-1 with its
own PRNG, so that one case can be replayed on its own. Oracles call
case.fail(mechanism, text) (or raise Violation). An exception that passed
through a frame of /repo is a violation too; one raised purely in the harness
is an error of the check.
"""
import hashlib
import io
import json
import os
import random
import re
import sys
import time
import tokenize
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")

class Violation(Exception):
    def __init__(self, mech, text):
        Exception.__init__(self, "%s: %s" % (mech, text))
        self.mech = mech
        self.text = text


class HarnessError(Exception):
    pass


def rep(obj, limit=600):
    try:
        s = repr(obj)
    except Exception:
        s = "<unprintable>"
    if len(s) > limit:
        s = s[:limit] + "...(%d chars)" % len(s)
    return s


def safe(text, limit=3000):
    """Text that json can hold whatever bytes it was made of."""
    if isinstance(text, unicode):
        text = text.encode("utf-8", "replace")
    text = str(text)[:limit]
    return "".join(c if 32 <= ord(c) < 127 or c == "\n"
                   else "\\x%02x" % (ord(c) & 0xff) for c in text)


def repo_frames(tb):
    """The frames of a traceback that belong to the code under test."""
    result = []
    for (filename, line, func, text) in traceback.extract_tb(tb):
        if filename is None:
            continue
        path = filename.replace("\\", "/").replace("$py.class", ".py")
        if path.startswith("__pyclasspath__"):
            continue
        if "/txstatsd/tests/" in path:
            continue
        if path.startswith(REPO + "/") or path.startswith("/repo/"):
            result.append("%s:%s in %s" % (path, line, func))
    return result


class Case(object):
    def __init__(self, ctx, scenario, index):
        self.ctx = ctx
        self.scenario = scenario
        self.index = index
        key = "%d/%s/%s/%d" % (ctx.seed, ctx.pid, scenario, index)
        number = int(hashlib.md5(key).hexdigest()[:13], 16)
        self.rng = random.Random(number)
        random.seed(number ^ 0x5bd1e995)
        self.sig = None
        self.trivial = False
        self.log = []

    def note(self, *what):
        """Remember an event of this case, for the witness."""
        if len(self.log) < 4000:
            self.log.append(what)

    def fail(self, mech, text):
        raise Violation(mech, text)

    def check(self, condition, mech, text, *args):
        if not condition:
            raise Violation(mech, text % args if args else text)

    def known(self, mech):
        """A finding listed in known_findings.json was seen again."""
        if mech not in self.ctx.expected:
            self.ctx.expected.append(mech)

    def signature(self, *parts):
        self.sig = rep(parts, 4000)


class Ctx(object):
    def __init__(self, pid, tier, seed, only=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.only = only
        self.started = time.time()
        self.deadline = self.started + (150 if tier == "quick" else 420)
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.mechs = {}
        self.errors = []
        self.requirements = []
        self.scenarios = {}
        self.truncated = []
        self.expected = []
        self.rule = ""
        self.assumptions = []
        self.progress = None

    # -- what was observed
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name, n):
        if n > self.counters.get(name, 0):
            self.counters[name] = n

    def require(self, name, n):
        """Fewer than n observations of name: the run decided nothing."""
        self.requirements.append((name, n))

    def n(self, quick, thorough=None):
        if self.tier == "quick":
            return quick
        return thorough if thorough is not None else quick * 25

    # -- running
    def scenario(self, name, func, n, only_once=False):
        if self.only is not None and self.only[0] != name:
            return
        indexes = range(n)
        if self.only is not None:
            indexes = [self.only[1]]
        done = 0
        t0 = time.time()
        found = 0
        slowest = 0.0
        for index in indexes:
            if time.time() > self.deadline and done > 0:
                self.truncated.append("%s after %d of %d" % (name, done, n))
                break
            case = Case(self, name, index)
            self.at("%s:%d" % (name, index))
            begun = time.time()
            try:
                func(case)
            except Violation, v:
                found += 1
                self.record(case, v.mech, v.text, "")
            except (KeyboardInterrupt, SystemExit):
                raise
            except HarnessError:
                self.errors.append("%s[%d]: %s" % (
                    name, index, safe(traceback.format_exc())))
            except Exception:
                etype, value, tb = sys.exc_info()
                frames = repo_frames(tb)
                text = safe(traceback.format_exc())
                if frames:
                    found += 1
                    self.record(case, "exception-%s" % etype.__name__,
                                "unexpected %s: %s (raised through %s)" % (
                                    etype.__name__, safe(value, 300),
                                    frames[-1]), text)
                elif isinstance(value, (EnvironmentError, ImportError)):
                    self.errors.append("%s[%d]: %s" % (name, index, text))
                else:
                    # What the code answered cannot even be compared.
                    found += 1
                    self.record(case, "unusable-%s" % etype.__name__,
                                "unexpected %s: %s (judging the answers of "
                                "the code)" % (etype.__name__,
                                               safe(value, 300)), text)
            except:
                # A Java throwable.
                etype, value, tb = sys.exc_info()
                frames = repo_frames(tb)
                text = safe(traceback.format_exc())
                if frames or "OutOfMemoryError" in str(etype):
                    found += 1
                    self.record(case, "java-throwable",
                                "unexpected %s (raised through %s)" % (
                                    safe(value, 300),
                                    (frames or ["no frame of the code"])[-1]),
                                text)
                else:
                    self.errors.append("%s[%d]: %s" % (name, index, text))
            self.at("-")
            slowest = max(slowest, time.time() - begun)
            done += 1
            self.evaluations += 1
            sig = case.sig
            if sig is None:
                sig = "%s/%d" % (name, index)
            if not case.trivial:
                self.sigs.add(hashlib.md5(
                    sig if isinstance(sig, str)
                    else sig.encode("utf-8")).hexdigest()[:12])
            if len(self.samples) < 6 and index in (0, 1) and case.log:
                self.samples.append({
                    "scenario": name, "index": index,
                    "events": [safe(rep(e, 200), 300)
                               for e in case.log[:12]]})
            if found >= 2 or len(self.errors) > 3:
                break
        self.scenarios[name] = {"cases": done,
                                "slowest_s": round(slowest, 2),
                                "wall_s": round(time.time() - t0, 2)}

    def at(self, what):
        """Tell the watchdog of check.py which case is running."""
        if self.progress is not None:
            self.progress.seek(0)
            self.progress.write("%-60s\n" % (what,))
            self.progress.flush()

    def record(self, case, mech, text, trace):
        self.mechs[mech] = self.mechs.get(mech, 0) + 1
        self.violations.append({
            "mechanism": mech, "scenario": case.scenario,
            "index": case.index, "seed": self.seed, "tier": self.tier,
            "text": safe(text), "traceback": trace,
            "events": [safe(rep(e, 300), 400) for e in case.log[-60:]]})

    def result(self):
        missing = []
        if not self.violations and self.only is None:
            for name, n in self.requirements:
                if self.counters.get(name, 0) < n:
                    missing.append("%s: %s < %s" % (
                        name, self.counters.get(name, 0), n))
        return {
            "property": self.pid, "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.sigs),
            "rule": self.rule, "samples": self.samples,
            "counters": self.counters, "violations": self.violations,
            "known": self.expected, "errors": self.errors,
            "missing": missing, "scenarios": self.scenarios,
            "truncated": self.truncated, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.started, 2)}


# -- constants of the code under test, as a dictionary for the generators

_CONST = {}


def constants():
    """Integers, floats and strings that appear in the sources of /repo: the
    places where behaviour may change."""
    if _CONST:
        return _CONST
    ints, floats, strings = set(), set(), set()
    files = []
    for base in ("txstatsd", "twisted/plugins"):
        for root, dirs, names in os.walk(os.path.join(REPO, base)):
            if "tests" in dirs:
                dirs.remove("tests")
            files.extend(os.path.join(root, n) for n in sorted(names)
                         if n.endswith(".py"))
    for path in sorted(files):
        try:
            with open(path) as f:
                for tok in tokenize.generate_tokens(f.readline):
                    if tok[0] == tokenize.NUMBER:
                        try:
                            value = eval(tok[1], {"__builtins__": {}})
                        except Exception:
                            continue
                        if isinstance(value, (int, long)):
                            ints.add(int(value))
                        elif isinstance(value, float):
                            floats.add(value)
                    elif tok[0] == tokenize.STRING:
                        if tok[1].lstrip("rRuUbB").startswith(('"""',
                                                               "'''")):
                            continue
                        try:
                            value = eval(tok[1], {"__builtins__": {}})
                        except Exception:
                            continue
                        if isinstance(value, unicode):
                            value = value.encode("utf-8")
                        if isinstance(value, str) and 0 < len(value) < 40:
                            strings.add(value)
        except Exception:
            continue
    _CONST["ints"] = sorted(i for i in ints)
    _CONST["floats"] = sorted(floats)
    _CONST["strings"] = sorted(strings)
    return _CONST


def sizes(low, high):
    """Interesting sizes in [low, high]: harvested integers and neighbours."""
    result = set()
    for i in constants()["ints"] + [2 ** k for k in range(0, 15)]:
        for d in (-1, 0, 1):
            if low <= i + d <= high:
                result.add(i + d)
    return sorted(result)


def words():
    """Strings of the sources that are legal as (parts of) a key."""
    return [s for s in constants()["strings"]
            if re.match(r"^[a-zA-Z_\-0-9.]+$", s)]


class FakeClock(object):
    """Wall time under control of the scenario."""

    def __init__(self, now=1300000000.0):
        self.now = now
        self.calls = 0

    def __call__(self):
        self.calls += 1
        return self.now

    def advance(self, seconds):
        self.now += seconds


def close(a, b, tol=1e-9):
    if a == b:
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except Exception:
        return False


class LogCapture(object):
    """Collects what is logged through twisted.python.log."""

    def __init__(self):
        self.events = []

    def __call__(self, event):
        self.events.append(event)

    def __enter__(self):
        from twisted.python import log
        log.addObserver(self)
        return self

    def __exit__(self, *args):
        from twisted.python import log
        log.removeObserver(self)

    def texts(self):
        result = []
        for e in self.events:
            try:
                result.append(" ".join(str(m) for m in e.get("message", ())))
            except Exception:
                result.append(repr(e.get("message")))
        return result

    def errors(self):
        return [e for e in self.events if e.get("isError")]

    def clear(self):
        del self.events[:]


def main(argv):
    pid, tier, seed, out = argv[1], argv[2], int(argv[3]), argv[4]
    only = None
    if len(argv) > 5 and argv[5]:
        scenario, index = argv[5].rsplit(":", 1)
        only = (scenario, int(index))
    ctx = Ctx(pid, tier, seed, only)
    ctx.progress = open(out + ".case", "wb")
    module = __import__("p_" + pid.lower())
    ctx.rule = " ".join((module.RULE or "").split())
    try:
        module.run(ctx)
    except Exception:
        etype, value, tb = sys.exc_info()
        ctx.errors.append("run: " + safe(traceback.format_exc()))
    result = ctx.result()
    with io.open(out + ".tmp", "w", encoding="utf-8") as f:
        f.write(unicode(json.dumps(result, ensure_ascii=True)))
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    # Threads the scenarios may have left behind do not keep us here.
    os._exit(0)


if __name__ == "__main__":
    sys.modules["vlib"] = sys.modules["__main__"]
    main(sys.argv)
