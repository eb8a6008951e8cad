# -*- coding: utf-8 -*-
import logging
import re
import threading
import time

import vnet
from vlib import rep

RULE = """The reactor inspector in virtual time, its calls to the reactor run
on time, late, in bursts or never, as the scenario decides: what it logs and
the delay gauge it reports in every round compared with when each call was
posted and ran; and as a real thread (also as a service) with a reactor thread
that is blocked for a while. Non-trivial: two kinds of rounds were seen;
distinct by the verdicts and delays."""

LEVELS = {"ok": logging.DEBUG, "late": logging.WARNING,
          "unresponsive": logging.CRITICAL}


LOCK = threading.Lock()


class Metrics(object):
    def __init__(self):
        self.calls = ()

    def gauge(self, name, value, *args, **kwargs):
        with LOCK:
            self.calls += ((name, value),)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def other(*args, **kwargs):
            with LOCK:
                self.calls += ((name,) + args,)
        return other


class Log(object):
    def __init__(self):
        self.lines = ()     # replaced, never changed: threads read it

    def __call__(self, text, **kwargs):
        with LOCK:
            self.lines += ((text, kwargs.get("logLevel")),)

    def verdicts(self, since=0):
        found = []
        for text, level in self.lines[since:]:
            if not text.startswith("ReactorInspector: "):
                continue
            what = text[len("ReactorInspector: "):]
            for word in ("ok", "late", "detected unresponsive"):
                if what.startswith(word):
                    found.append((word.split()[-1], level, float(re.search(
                        r"delay: (-?[0-9]+\.[0-9]+)", what).group(1)), text))
        return found


class Time(object):
    """Virtual time for the module under test."""

    def __init__(self):
        self.now = 1300000000.0
        self.on_sleep = None
        self.saved = []

    def time(self):
        return self.now

    def sleep(self, seconds):
        self.on_sleep(seconds)

    def __enter__(self):
        from txstatsd import report
        for name, value in list(vars(report).items()):
            if value is time:
                fake = self
            elif value == REAL[0]:
                fake = self.time
            elif value == REAL[1]:
                fake = self.sleep
            else:
                continue
            self.saved.append((report, name, value))
            setattr(report, name, fake)

    def __exit__(self, *args):
        for holder, name, value in self.saved:
            setattr(holder, name, value)
        self.saved = []


REAL = (time.time, time.sleep)


def virtual(case):
    from txstatsd.report import ReactorInspector
    rng = case.rng
    ctx = case.ctx
    loop = rng.choice((3, 0.05, 1, 0.5, 10))
    clock = Time()
    log = Log()
    metrics = Metrics()
    posted = []         # (round, when, function)
    results = []        # (posted when, ran when, round)
    kwargs = {"loop_time": loop} if loop != 3 or rng.random() < 0.5 else {}
    inspector = ReactorInspector(
        lambda f: posted.append((len(posted), clock.now, f)), metrics,
        log=log, **kwargs)
    rounds = rng.choice((rng.randrange(3, 40), rng.randrange(3, 40), 150))
    mood = [rng.choice(("fast", "slow", "blocked"))]
    state = {"round": 0, "lines": 0, "gauges": 0, "since": clock.now,
             "run": 0, "last": 0, "frames": 0}
    seen = set()
    dumps = []
    real_dump = inspector.dump_frames

    def dump():
        dumps.append(len(log.lines))
        real_dump()
    inspector.dump_frames = dump

    def judge():
        """The round that ended at the last sleep."""
        verdicts = log.verdicts(state["lines"])
        gauges = metrics.calls[state["gauges"]:]
        text = rep((verdicts, gauges))
        n = state["round"] - 1
        case.check(len(verdicts) == 1, "verdicts", "round %d: %s", n, text)
        verdict, level, delay, line = verdicts[0]
        if results:
            start, ran, which = results[0]
            wanted = "ok" if which == n else "late"
            value = ran - start
        else:
            wanted = "unresponsive"
            value = clock.now - state["since"]
        case.note(n, verdict, value)
        case.check(verdict == wanted, "verdict", "round %d is %s instead of "
                   "%s (%r); results %s", n, verdict, wanted, line,
                   rep(results))
        case.check(level == LEVELS[verdict], "level", "%r logged with level "
                   "%r", line, level)
        case.check(abs(delay - value) <= 0.00051, "logged-delay",
                   "round %d: %r instead of %r", n, line, value)
        case.check(len(gauges) == 1 and gauges[0][0] == "delay" and
                   abs(gauges[0][1] - value) < 1e-6, "gauge",
                   "round %d (%s): reported %s instead of a delay of %r", n,
                   verdict, rep(gauges), value)
        case.check("%d" % n in re.findall("[0-9]+", line), "round-number",
                   "round %d logged as %r", n, line)
        frames = len(dumps) - state["frames"]
        case.check(frames == (wanted == "unresponsive"), "frames",
                   "round %d (%s): frames dumped %d times", n, verdict,
                   frames)
        if results:
            del results[:]
            state["since"] = clock.now
        if wanted == "ok":
            state["last"] = clock.now
        case.check(inspector.last_responsive_ts == state["last"],
                   "responsive", "last responsive at %r instead of %r",
                   inspector.last_responsive_ts, state["last"])
        state.update(lines=len(log.lines), gauges=len(metrics.calls),
                     frames=len(dumps))
        seen.add(wanted)
        ctx.count("rounds_" + wanted)

    def sleep(seconds):
        if seconds != loop:
            # A nap of something else.
            case.fail("loop-time", "slept %r instead of %r" % (seconds, loop))
        if state["round"]:
            judge()
        if state["round"] >= rounds:
            case.fail("stop", "stopped in round %d, goes on" % rounds)
        state["round"] += 1
        case.check(len(posted) == state["round"], "posted",
                   "%d calls posted in %d rounds", len(posted),
                   state["round"])
        case.check(posted[-1][1] == clock.now, "posted-late", "posted at %r, "
                   "now %r", posted[-1][1], clock.now)
        if rng.random() < 0.25:
            mood[0] = rng.choice(("fast", "slow", "blocked", "burst"))
        end = clock.now + loop
        todo = 0
        waiting = len(posted) - state["run"]
        if mood[0] in ("fast", "burst"):
            todo = waiting
        elif mood[0] == "slow":
            todo = rng.randrange(0, waiting + 1)
        while todo:
            todo -= 1
            clock.now = min(end, clock.now + rng.choice(
                (0, 0, 1 / 1024.0, loop / 4.0)))
            n, when, function = posted[state["run"]]
            state["run"] += 1
            results.append((when, clock.now, n))
            function()
        clock.now = end
        if state["round"] == rounds:
            inspector.stop()

    clock.on_sleep = sleep
    inspector.reactor_thread = threading.currentThread().ident
    with clock:
        state["since"] = clock.now
        inspector.run()
    judge()
    case.check(state["round"] == rounds, "stop", "%d rounds, stopped in "
               "round %d", state["round"], rounds)
    texts = [t for t, level in log.lines]
    case.check(texts[0] == "ReactorInspector: started", "started", "%r",
               texts[0])
    case.check(texts.count("ReactorInspector: stopped") == 1, "stopped",
               "stopped logged %d times", texts.count(
                   "ReactorInspector: stopped"))
    case.trivial = len(seen) < 2
    case.signature(case.log)


def wait_for(condition, seconds=20):
    end = REAL[0]() + seconds
    while not condition():
        if REAL[0]() > end:
            return False
        REAL[1](0.002)
    return True


def threads(case):
    """As a thread, with a reactor thread that really blocks."""
    from twisted.python import log as twisted_log
    from txstatsd import report
    rng = case.rng
    ctx = case.ctx
    metrics = Metrics()
    log = Log()
    calls = []
    lock = threading.Lock()
    over = []
    gate = threading.Event()
    gate.set()

    def call(function):
        with lock:
            calls.append(function)

    def blocked_reactor_function():
        gate.wait()

    state = {}
    started = REAL[0]()

    def main():
        """The reactor thread, which starts the inspector."""
        state["start"]()
        while not over:
            blocked_reactor_function()
            with lock:
                todo = calls[:]
                del calls[:]
            for f in todo:
                f()
            REAL[1](0.001)

    service = rng.random() < 0.5
    if service:
        class Reactor(object):
            callFromThread = staticmethod(call)
        it = report.ReactorInspectorService(Reactor(), metrics,
                                            loop_time=0.05)
        inspector = it.inspector
        inspector.log = log
        case.check(not inspector.is_alive(), "early", "runs before the "
                   "service is started")
        state["start"] = it.startService
        stop = it.stopService
    else:
        inspector = report.ReactorInspector(call, metrics, loop_time=0.05,
                                            log=log)
        state["start"] = lambda: (inspector.start(), inspector.start())
        stop = inspector.stop
    case.check(inspector.daemon, "daemon", "the thread keeps the process "
               "from ending")
    idle = threading.Event()
    # The frame wanted may be one of many.
    others = [threading.Thread(target=idle.wait)
              for _ in range(rng.choice((0, 0, 3, 60, 150)))]
    for other in others:
        other.setDaemon(True)
        other.start()
    main_thread = threading.Thread(target=main)
    main_thread.setDaemon(True)
    main_thread.start()
    try:
        def count(word):
            return len([v for v in log.verdicts() if v[0] == word])
        if not wait_for(lambda: count("ok") >= 2):
            case.fail("never-ok", "a reactor that works is not ok: %s" % rep(
                log.lines[-3:]))
        case.check(inspector.last_responsive_ts > 0, "responsive",
                   "not responsive")
        since = len(log.lines)
        gate.clear()
        def three(verdicts):
            return (len(verdicts) >= 3 and
                    set(v[0] for v in verdicts[-3:]) == set(["unresponsive"]))
        if not wait_for(lambda: three(log.verdicts(since))):
            case.fail("never-unresponsive", "a blocked reactor is not "
                      "noticed: %s" % rep(log.lines[-3:]))
        delays = []
        for v in log.verdicts(since):
            # (It may have been late by itself, on a busy machine.)
            delays = delays + [v[2]] if v[0] == "unresponsive" else []
        case.check(all(a < b for a, b in zip(delays, delays[1:])),
                   "growing", "the delay of a blocked reactor goes %s",
                   delays)
        frames = [t for t, level in log.lines[since:]
                  if t.startswith("Dumping Python frame")]
        mains = [t for t in frames if "reactor main thread" in t]
        case.check(any("blocked_reactor_function" in t for t in mains),
                   "main-frame", "no frame of the reactor thread shows where "
                   "it is blocked: %s", rep(mains[:2]))
        case.check(not any("dump_frames" in t for t in frames), "own-frame",
                   "the inspector dumped its own frame")
        before = len(log.lines)
        gate.set()
        if not wait_for(lambda: any(v[0] == "ok"
                                    for v in log.verdicts(before))):
            case.fail("never-ok-again", "a reactor that works again is not "
                      "ok: %s" % rep(log.lines[-3:]))
        late = [v for v in log.verdicts(before) if v[0] == "late"]
        case.check(late, "never-late", "no late answer was noticed: %s",
                   rep(log.verdicts(before)))
        total = REAL[0]() - started
        case.check(late[0][2] <= total + 0.001, "late-delay", "late by %r, "
                   "blocked %r", late[0][2], total)
        case.check(late[0][2] >= delays[1] - delays[0], "late-short",
                   "late by %r, blocked for more than %r", late[0][2],
                   delays[-1])
        ctx.count("blocked")
    finally:
        stop()
        gate.set()
        ended = wait_for(lambda: not inspector.is_alive())
        over.append(1)
        idle.set()
        main_thread.join(10)
        for other in others:
            other.join(10)
    case.check(ended, "stop", "it does not end when stopped")
    n = len(log.verdicts())
    case.check(len(metrics.calls) == n and
               all(c[0] == "delay" for c in metrics.calls), "gauges",
               "%d verdicts, reported %s", n, rep(metrics.calls))
    for (verdict, level, delay, line), (name, value) in zip(
            log.verdicts(), metrics.calls):
        case.check(abs(delay - value) <= 0.00051, "gauge", "%r, reported %r",
                   line, value)
    ctx.count("thread_rounds", n)
    case.note([v[:3] for v in log.verdicts()][:20])


def run(ctx):
    vnet.install()
    ctx.scenario("virtual", virtual, ctx.n(400))
    ctx.scenario("threads", threads, ctx.n(6, 40))
    ctx.require("rounds_ok", 400)
    ctx.require("rounds_late", 100)
    ctx.require("rounds_unresponsive", 200)
    ctx.require("blocked", 3)
