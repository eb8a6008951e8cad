# -*- coding: utf-8 -*-
import vnet
from vlib import LogCapture, rep, sizes

RULE = """The flushing service over a real processor, in virtual time, with a
carbon client that takes datapoints at once, answers with deferreds fired in
any later order, fails, or never answers; messages arrive all the time, flushes
overlap, the service is stopped and started. What the processor yields is
compared with what the client is handed, and flush times with the interval.
Non-trivial: at least one datapoint was handed over; distinct by the events of
the case."""


class Carbon(object):
    """Stands in for the carbon client manager."""

    def __init__(self, case, reactor, style):
        self.case = case
        self.reactor = reactor
        self.style = style
        self.got = []
        self.waiting = []
        self.errors = 0
        self.broken = None

    def sendDatapoint(self, *args, **kwargs):
        self.case.check(len(args) == 2 and not kwargs and
                        isinstance(args[1], tuple) and len(args[1]) == 2,
                        "carbon-call", "carbon was called with %s",
                        rep((args, kwargs)))
        metric, (timestamp, value) = args
        self.got.append((metric, value, timestamp))
        rng = self.case.rng
        if self.broken is not None and len(self.got) >= self.broken:
            self.broken = None
            self.errors += 1
            if rng.random() < 0.5:
                raise RuntimeError("carbon failed")
            from twisted.internet import defer
            return defer.fail(RuntimeError("carbon failed"))
        if self.style == "now" or (self.style == "mixed" and
                                   rng.random() < 0.8):
            return None
        from twisted.internet import defer
        d = defer.Deferred()
        if rng.random() < 0.3:
            d.callback(None)
        else:
            self.waiting.append(d)
        return d

    def release(self, everything=False):
        rng = self.case.rng
        while self.waiting:
            if not everything and rng.random() < 0.4:
                break
            self.waiting.pop(rng.randrange(len(self.waiting))).callback(None)


class Source(object):
    """A processor that remembers what its flushes yielded, in order."""

    def __init__(self, case, reactor, processor):
        self.case = case
        self.reactor = reactor
        self.processor = processor
        self.flushes = []
        self.yielded = []
        self.finished = 0
        self.broken = None

    def process(self, message):
        self.processor.process(message)

    def flush(self, *args, **kwargs):
        self.flushes.append((self.reactor.seconds(), args, kwargs))
        return self.run(len(self.flushes), args, kwargs)

    def run(self, number, args, kwargs):
        for datapoint in self.processor.flush(*args, **kwargs):
            if self.broken == number:
                self.broken = None
                raise RuntimeError("the flush failed")
            self.yielded.append(datapoint)
            yield datapoint
        self.finished += 1


def make(case, interval, style):
    from txstatsd.service import StatsDService
    reactor = vnet.REACTOR
    reactor.reset()
    base = 1300000000 + case.rng.choice((0, 0.5)) - reactor.seconds()
    now = lambda: base + reactor.seconds()
    if case.rng.random() < 0.5:
        from txstatsd.server.processor import MessageProcessor
        p = MessageProcessor(time_function=now)
    else:
        from txstatsd.server.configurableprocessor import (
            ConfigurableMessageProcessor)
        p = ConfigurableMessageProcessor(time_function=now)
    source = Source(case, reactor, p)
    carbon = Carbon(case, reactor, style)
    service = StatsDService(carbon, source, interval, clock=reactor)
    return reactor, source, carbon, service


INTERVALS = (1000, 10000, 60000, 2000, 500, 250, 1500, 100, 12345, 999, 1001,
             1)


def send(case, source):
    kind = case.rng.choice(("c", "ms", "g", "m"))
    source.process("k%d.%s:%d|%s" % (case.rng.randrange(5), kind,
                                     case.rng.randrange(100), kind))
    case.ctx.count("messages")


def same(case, source, carbon):
    if source.yielded != carbon.got:
        i = 0
        while i < min(len(source.yielded), len(carbon.got)) and (
                source.yielded[i] == carbon.got[i]):
            i += 1
        case.fail("handed-over", "datapoint %d: the flush yielded %s, carbon "
                  "was handed %s (%d yielded, %d handed over)" % (
                      i, rep(source.yielded[i:i + 2]),
                      rep(carbon.got[i:i + 2]), len(source.yielded),
                      len(carbon.got)))


def steady(case):
    """Regular running: every flush on time, everything handed over."""
    rng = case.rng
    interval = rng.choice(INTERVALS)
    style = rng.choice(("now", "mixed", "deferred"))
    reactor, source, carbon, service = make(case, interval, style)
    seconds = interval / 1000.0
    start = reactor.seconds()
    service.startService()
    case.check(not source.flushes, "flush-early", "a flush at the start")
    periods = rng.choice((3, 5, 12))
    step = seconds / rng.choice((1, 2, 4, 8))
    faults = rng.random() < 0.3
    while reactor.seconds() < start + periods * seconds + step / 2:
        if faults and rng.random() < 0.1:
            if rng.random() < 0.5:
                carbon.broken = len(carbon.got) + rng.randrange(1, 10)
            else:
                source.broken = len(source.flushes) + 1
        for _ in range(rng.choice((0, 1, 5))):
            send(case, source)
        if rng.random() < 0.5:
            carbon.release()
        reactor.advance(step)
        # The work of a flush is spread over turns of the reactor.
        for _ in range(rng.choice((1, 1, 3, 10))):
            reactor.advance(1e-7)
        same(case, source, carbon)
    for _ in range(3):
        # A flush that is due takes a turn to begin.
        reactor.advance(1e-7)
    flushes = list(source.flushes)
    elapsed = reactor.seconds() - start
    want = int((elapsed + 1e-9) / seconds)
    case.check(abs(len(flushes) - want) <= 1, "flush-count",
               "%d flushes in %r seconds with an interval of %r ms",
               len(flushes), elapsed, interval)
    case.check(not faults or len(flushes) >= want - 1, "flush-count",
               "the flushes stopped after a failure")
    for i, (when, args, kwargs) in enumerate(flushes):
        case.check(args == (interval,) or kwargs.get("interval") == interval,
                   "flush-interval", "the flush was told %s, the interval is "
                   "%r ms", rep((args, kwargs)), interval)
        # On the grid of the interval, no later than one step.
        late = (when - start) - (i + 1) * seconds
        case.check(-1e-6 <= late <= step + 1e-3 + 1e-6 * (i + 1),
                   "flush-time", "flush %d is %r seconds off with an interval "
                   "of %r ms", i, late, interval)
        case.note("flush", when - start)
    case.ctx.count("flushes", len(flushes))
    service.stopService()
    for _ in range(5):
        reactor.advance(seconds)
    case.check(len(source.flushes) == len(flushes), "flush-after-stop",
               "a flush after the service stopped")
    carbon.style = "now"
    for _ in range(400):
        carbon.release(True)
        reactor.turn()
        if source.finished + carbon.errors >= len(flushes):
            break
    same(case, source, carbon)
    if not faults:
        case.check(source.finished == len(flushes), "flush-unfinished",
                   "%d flushes began, %d came to an end", len(flushes),
                   source.finished)
    case.ctx.count("datapoints", len(carbon.got))
    case.ctx.count("failures_injected", carbon.errors)
    case.trivial = not carbon.got
    case.signature(interval, style, step, faults, case.log[:20],
                   len(carbon.got))


def large(case):
    """A flush of very many datapoints is handed over to the last one."""
    rng = case.rng
    style = ("now", "mixed")[case.index % 2]
    reactor, source, carbon, service = make(case, 60000, style)
    options = sizes(900, 10100 if style == "now" else 2100)
    n = rng.choice(options if case.index > 1 else options[-3:])
    service.startService()
    kind = rng.choice(("g", "m", "ms") if n < 5000 else ("g", "m"))
    for flush in range(2):
        for i in range(n):
            source.process("k%d:%d|%s" % (i, i, kind))
        case.ctx.count("messages", n)
        reactor.advance(60)
        turns = 0
        while source.finished <= flush and turns < 40000:
            carbon.release()
            reactor.advance(1e-7)
            turns += 1
        same(case, source, carbon)
        case.check(source.finished == flush + 1, "flush-unfinished",
                   "a flush of %d %s did not end", n, kind)
    case.check(len(source.yielded) >= 2 * n, "flush-short",
               "%d datapoints of twice %d keys (%s)", len(source.yielded), n,
               kind)
    service.stopService()
    case.ctx.count("datapoints", len(carbon.got))
    case.ctx.maximum("largest_flush", len(carbon.got) // 2)
    case.note(n, kind, style)
    case.signature(n, kind, style)


def stuck(case):
    """A flush carbon does not answer holds back only itself."""
    rng = case.rng
    reactor, source, carbon, service = make(case, 1000, "now")
    for _ in range(10):
        send(case, source)
    service.startService()
    from twisted.internet import defer
    never = defer.Deferred()
    at = rng.randrange(1, 5)
    original = carbon.sendDatapoint

    def blocking(*args, **kwargs):
        result = original(*args, **kwargs)
        if len(carbon.got) == at:
            return never
        return result
    carbon.sendDatapoint = blocking
    for i in range(4):
        for _ in range(3):
            send(case, source)
        reactor.advance(1)
        for _ in range(80):
            reactor.turn()
    case.check(len(source.flushes) >= 3, "flush-count",
               "an unanswered datapoint stops the flushes")
    case.check(source.finished >= len(source.flushes) - 2, "flush-stuck",
               "%d flushes began, %d came to an end while one datapoint is "
               "unanswered", len(source.flushes), source.finished)
    same(case, source, carbon)
    never.callback(None)
    for _ in range(200):
        reactor.turn()
    same(case, source, carbon)
    case.check(source.finished == len(source.flushes), "flush-unfinished",
               "%d flushes began, %d came to an end", len(source.flushes),
               source.finished)
    service.stopService()
    case.ctx.count("flushes", len(source.flushes))
    case.ctx.count("datapoints", len(carbon.got))
    case.signature(at, len(carbon.got))


def restart(case):
    """Stop and start again: the flushes go on at the interval."""
    rng = case.rng
    interval = rng.choice((1000, 250, 10000))
    seconds = interval / 1000.0
    reactor, source, carbon, service = make(case, interval, "now")
    for _ in range(3):
        service.startService()
        before = len(source.flushes)
        for _ in range(3):
            send(case, source)
            reactor.advance(seconds)
            for _ in range(60):
                reactor.advance(1e-7)
        case.check(2 <= len(source.flushes) - before <= 4, "flush-count",
                   "%d flushes in three intervals",
                   len(source.flushes) - before)
        service.stopService()
        before = len(source.flushes)
        reactor.advance(seconds * rng.choice((0.5, 3)))
        case.check(len(source.flushes) == before, "flush-after-stop",
                   "a flush while the service is stopped")
    same(case, source, carbon)
    case.ctx.count("flushes", len(source.flushes))
    case.ctx.count("datapoints", len(carbon.got))
    case.signature(interval, len(carbon.got))


def stopping(case):
    """A stop during a flush: it is handed over before the clients stop."""
    rng = case.rng
    interval = rng.choice((1000, 250, 10000))
    seconds = interval / 1000.0
    style = rng.choice(("now", "now", "mixed", "deferred"))
    reactor, source, carbon, service = make(case, interval, style)
    with LogCapture() as capture:
        for _ in range(rng.randrange(1, 3)):
            service.startService()
            for _ in range(rng.choice((1, 2))):
                for _ in range(rng.randrange(1, 30)):
                    send(case, source)
                reactor.advance(seconds + 1e-6)
            for _ in range(rng.randrange(12)):
                reactor.turn()
                if rng.random() < 0.3:
                    carbon.release()
            begun = len(source.flushes)
            if source.finished < begun:
                case.ctx.count("stopped_during_a_flush")
            service.stopService()
            handed = len(carbon.got)
            for _ in range(60):
                carbon.release(True)
                reactor.turn()
            case.check(len(carbon.got) == handed, "after-stop",
                       "%d datapoints were handed over after the stop, when "
                       "there are no clients left: %s",
                       len(carbon.got) - handed, rep(carbon.got[handed:]))
            case.check(source.finished == len(source.flushes) >= begun,
                       "flush-unfinished", "%d flushes began before the stop, "
                       "%d came to an end", len(source.flushes),
                       source.finished)
            same(case, source, carbon)
    case.check(not capture.errors(), "logged-error", "%s",
               rep(capture.texts(), 1500))
    case.ctx.count("flushes", len(source.flushes))
    case.ctx.count("datapoints", len(carbon.got))
    case.signature(interval, style, len(carbon.got))


def run(ctx):
    vnet.install()
    ctx.scenario("steady", steady, ctx.n(250))
    ctx.scenario("large", large, ctx.n(5))
    ctx.scenario("stuck", stuck, ctx.n(20))
    ctx.scenario("restart", restart, ctx.n(15))
    ctx.scenario("stopping", stopping, ctx.n(60))
    ctx.require("flushes", 500)
    ctx.require("datapoints", 5000)
    ctx.require("failures_injected", 3)
    ctx.require("stopped_during_a_flush", 15)
