# -*- coding: utf-8 -*-
import math

import vnet
from vlib import LogCapture, rep

RULE = """Reporting services with several functions (plain, deferred, slow,
failing now and then, dead) scheduled before and after the start, in virtual
time, stopped and started again: when each is called and what is reported
compared with a simulation of the schedule. Non-trivial: a function was called
more than once; distinct by the schedule and results."""


class Oops(Exception):
    pass


class Job(object):
    """One scheduled function and what it should have done."""

    def __init__(self, number, rng, clock, prefix, unit=1):
        self.number = number
        self.rng = rng
        self.clock = clock
        self.prefix = prefix
        self.interval = rng.choice((0.5, 1, 2, 5, 10, 60, 0.25, 2.5, 1.5,
                                    12.375)) * unit
        self.style = rng.choice(("plain", "plain", "deferred", "mixed",
                                 "failing", "silent", "refused"))
        self.calls = []             # when it was called
        self.wanted = []            # what it must have reported
        self.reported = []
        self.failures = 0
        self.pending = None
        self.pending_before = None
        self.start = None           # of the present schedule
        self.next = None
        self.dead = False

    def result(self):
        n = len(self.calls)
        names = ["j%d.%s" % (self.number, name) for name in ("a", "b.c", "d")]
        # Names may look like the instance.
        names += [self.prefix + "x", "inst", "inst.y", "a.b"]
        self.rng.shuffle(names)
        names[3:3] = ["j%d.long.dotted.name.of.it" % self.number]
        self.rng.shuffle(names)
        return dict((name, self.rng.choice((n * 10 + i, n * 10 + i, 0, None,
                                            0.0, -n, "", "text", False)))
                    for i, name in enumerate(
                        names[:self.rng.randrange(4)]))

    def owe(self, result):
        if self.style == "refused":
            # Nobody takes the first value.
            self.failures += len(result) > 0
            return
        for name, value in result.items():
            self.wanted.append((self.prefix + name, value))

    def call(self):
        from twisted.internet import defer
        self.calls.append(self.clock.seconds())
        style = self.style
        if style == "mixed":
            style = self.rng.choice(("plain", "deferred", "failing"))
        if style == "silent":
            # Nobody wants its results.
            if self.rng.random() < 0.3:
                self.failures += 1
                if self.rng.random() < 0.5:
                    raise Oops("job %d" % self.number)
                return defer.fail(Oops("job %d" % self.number))
            return self.rng.choice(("anything", None, {"a": 1},
                                    defer.succeed(None)))
        if style == "failing" and self.rng.random() < 0.6:
            self.failures += 1
            if self.rng.random() < 0.5:
                raise Oops("job %d" % self.number)
            return defer.fail(Oops("job %d" % self.number))
        result = self.result()
        if style == "deferred":
            if self.rng.random() < 0.3:
                self.owe(result)
                return defer.succeed(result)
            self.pending = (defer.Deferred(), result)
            return self.pending[0]
        self.owe(result)
        return result

    def report(self, name, value):
        if self.style == "refused":
            raise Oops("not reported")
        self.reported.append((name, value))

    # the schedule it should follow
    def scheduled(self, now, at_once):
        self.start = now
        self.next = now if at_once else now + self.interval

    def after(self, now):
        """The first time of the grid after now."""
        n = math.floor((now - self.start) / self.interval) + 1
        self.next = self.start + n * self.interval


def schedule(case):
    from twisted.internet import task
    from txstatsd.report import ReportingService
    rng = case.rng
    ctx = case.ctx
    name = rng.choice(("", "", "inst", "a.b"))
    given = rng.random() < 0.5
    reactor = vnet.install()
    reactor.reset()
    clock = task.Clock() if given else reactor
    kwargs = {"clock": clock} if given else {}
    if name or rng.random() < 0.5:
        service = ReportingService(name, **kwargs)
    else:
        service = ReportingService(**kwargs)
    prefix = name + "." if name else ""
    jobs = []
    running = False
    # Seconds, minutes, hours.
    unit = rng.choice((1, 1, 1, 60, 3600))

    def add():
        job = Job(len(jobs), rng, clock, prefix, unit)

        def function():
            return job.call()
        jobs.append(job)
        case.note("schedule", job.number, job.style, job.interval)
        # It may be called at once, while running.
        if running:
            job.scheduled(clock.seconds(), True)
        service.schedule(function, job.interval, None if (
            job.style == "silent") else job.report)
        if running:
            case.check(len(job.calls) == 1, "at-once", "job %d, scheduled "
                       "while running, was called %d times at once",
                       job.number, len(job.calls))
            took(job, clock.seconds())

    def took(job, now):
        """A call was made at now."""
        job.after(now)
        ctx.count("calls")

    def step(amount):
        """Advance to the next event at most."""
        amount *= unit
        end = clock.seconds() + amount
        before = dict((j, len(j.calls)) for j in jobs)
        clock.advance(amount)
        for j in jobs:
            new = j.calls[before[j]:]
            due = (running and j.pending_before is None and
                   j.next is not None and j.next <= end)
            case.check(len(new) == (1 if due else 0), "schedule",
                       "job %d (every %r s from %r) was called %d times "
                       "between %r and %r, %s", j.number, j.interval,
                       j.start, len(new), end - amount, end,
                       "due at %r" % j.next if due else "not due")
            if due:
                took(j, end)

    log = LogCapture()
    most = rng.choice((5, 5, 12))
    with log:
        for _ in range(rng.randrange(3 if most == 5 else 10)):
            add()
        for _ in range(rng.randrange(20, 120)):
            r = rng.random()
            if r < 0.04 and len(jobs) < most:
                add()
            elif r < 0.10:
                if running:
                    # What is pending ends before the stop.
                    for j in jobs:
                        if j.pending:
                            d, result = j.pending
                            j.pending = None
                            j.owe(result)
                            j.after(clock.seconds())
                            d.callback(result)
                    service.stopService()
                    case.note("stop")
                    running = False
                else:
                    service.startService()
                    case.note("start")
                    running = True
                    for j in jobs:
                        j.scheduled(clock.seconds(), False)
            elif r < 0.3:
                waiting = [j for j in jobs if j.pending]
                if waiting:
                    # In between the points of the schedules.
                    for j in jobs:
                        j.pending_before = j.pending
                    step(0.0625)
                    j = rng.choice(waiting)
                    d, result = j.pending
                    j.pending = None
                    j.after(clock.seconds())
                    if rng.random() < 0.3:
                        j.failures += 1
                        from twisted.python import failure
                        d.errback(failure.Failure(Oops("late")))
                    else:
                        j.owe(result)
                        d.callback(result)
                    ctx.count("late_results")
                    for j in jobs:
                        j.pending_before = j.pending
                    step(0.0625)
                    ctx.count("steps")
            else:
                for _ in range(rng.choice((1, 2, 10))):
                    for j in jobs:
                        j.pending_before = j.pending
                    step(0.125)
            for j in jobs:
                case.check(sorted(j.reported) == sorted(j.wanted), "report",
                           "job %d reported %s, not %s", j.number,
                           rep(j.reported[-5:]), rep(j.wanted[-5:]))
        if running:
            service.stopService()
            running = False
        before = [len(j.calls) for j in jobs]
        clock.advance(200 * unit)
        case.check([len(j.calls) for j in jobs] == before, "stopped",
                   "called after the stop")
    case.check(not reactor.failures, "exception", "%s",
               rep(reactor.failures[:1], 1500))
    failed = sum(j.failures for j in jobs)
    errors = log.errors()
    case.check(len(errors) == failed, "log", "%d failures were logged, %d "
               "happened: %s", len(errors), failed,
               rep([e.get("failure") for e in errors[:2]], 900))
    ctx.count("failures", failed)
    ctx.count("reports", sum(len(j.wanted) for j in jobs))
    case.trivial = not any(len(j.calls) > 1 for j in jobs)
    case.signature(name, case.log, [j.calls[:20] for j in jobs])


def dead(case):
    """One function that broke for good stops neither the others nor the
    service."""
    from twisted.internet import task
    from txstatsd.report import ReportingService
    rng = case.rng
    clock = task.Clock()
    service = ReportingService(clock=clock)
    calls = {}
    reports = []
    order = ["dead"] + ["live%d" % i for i in range(rng.randrange(1, 4))]
    rng.shuffle(order)

    def make(name):
        def function():
            calls[name] = calls.get(name, 0) + 1
            if name == "dead" and calls[name] >= 2:
                raise Oops("for good")
            return {name: calls[name]}
        return function

    log = LogCapture()
    with log:
        for name in order:
            service.schedule(make(name), 1, None if name == "dead" else
                             lambda k, v: reports.append((k, v)))
        service.startService()
        for _ in range(6):
            clock.advance(1)
        for name in order:
            case.check(calls[name] == 6, "dead", "%s was called %d "
                       "times in 6 s next to one that broke", name,
                       calls[name])
            if name != "dead":
                case.check([v for k, v in reports if k == name] ==
                           range(1, 7), "dead", "%s reported %s", name,
                           rep(reports))
        service.stopService()
        n = dict(calls)
        for _ in range(5):
            clock.advance(1)
        case.check(calls == n, "stopped", "called after the stop")
    case.ctx.count("dead")
    case.signature(order)


def run(ctx):
    vnet.install()
    ctx.scenario("schedule", schedule, ctx.n(480))
    ctx.scenario("dead", dead, ctx.n(10, 50))
    ctx.require("calls", 1500)
    ctx.require("late_results", 60)
    ctx.require("failures", 100)
    ctx.require("reports", 1000)
    ctx.require("dead", 10)
