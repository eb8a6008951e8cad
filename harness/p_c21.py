# -*- coding: utf-8 -*-
import json
import urllib

import rig
import vnet
from gen import key_pool
from vlib import close, rep

RULE = """The HTTP pages of a daemon asked, over an in-memory network, before,
between and after messages and flushes of every type in both modes, with a
clock that makes processing and flushing take time: the status against the
durations the flush itself reported, the list against the keys sent, a
timer's page against its durations, and pages that do not exist.
Non-trivial: metrics were there; distinct by the history."""


class TickingClock(object):
    """Every look at it takes time."""

    def __init__(self, now, tick):
        self.now = now
        self.tick = tick

    def __call__(self):
        self.now += self.tick
        return self.now


class StatsService(object):
    def __init__(self, interval):
        self.flush_interval = interval


def ask(case, port, path, method="GET"):
    """(code, headers, body) of one request on a connection of its own."""
    reactor = vnet.REACTOR
    transport = port.open(("10.9.8.7", 4242))
    request = "%s %s HTTP/1.0\r\nHost: x\r\n\r\n" % (method, path)
    if case.rng.random() < 0.2:
        for c in request:
            transport.deliver(c)
    else:
        transport.deliver(request)
    for _ in range(4):
        reactor.turn()
    answer = transport.value()
    if transport.connected:
        transport.loseConnection()
        reactor.turn()
    case.check(not reactor.failures, "exception", "%s %s: %s", method, path,
               rep(reactor.failures[:1], 1500))
    head, sep, body = answer.partition("\r\n\r\n")
    lines = head.split("\r\n")
    parts = lines[0].split(" ")
    case.check(sep and len(parts) > 1 and parts[1].isdigit(), "http",
               "%s %s answered %s", method, path, rep(answer))
    case.ctx.count("requests")
    return int(parts[1]), lines, body


def page(case, port, path, code=200):
    got, lines, body = ask(case, port, path)
    case.check(got == code, "code", "%s answered %s, not %s: %s", path, got,
               code, rep(body))
    try:
        return json.loads(body)
    except ValueError:
        case.fail("json", "%s answered %s" % (path, rep(body)))


def serve(case, processor, interval):
    from txstatsd.server import httpinfo
    reactor = vnet.install()
    reactor.reset()
    number = case.rng.randrange(1, 65536)
    service = httpinfo.makeService(
        {"http-port": case.rng.choice((number, str(number)))}, processor,
        StatsService(interval))
    service.startService()
    case.check([p.port for p in reactor.tcp] == [number], "port",
               "listens on %s, not %d", [p.port for p in reactor.tcp],
               number)
    return service, reactor.tcp[0]


def judge_timer(case, name, got, values):
    """The page of a timer that had these durations since the flush."""
    case.check(set(got) == set(("histogram", "min_value", "max_value")),
               "timer", "the page is %s", rep(got))
    low, high = min(values or [0]), max(values or [0])
    case.check(got["min_value"] == low and got["max_value"] == high, "timer",
               "the page of %s is %s, durations since the flush: %s", name,
               rep(got), rep(values))
    # Of many a sample is kept.
    bins = got["histogram"]
    case.check(sum(bins) == min(len(values), 1028) and min(bins) >= 0,
               "timer", "the histogram of %s is %s, durations since the "
               "flush: %s", name, rep(bins), rep(values))
    if len(values) > 1028 or high == low:
        if len(values) > 1028:
            case.ctx.count("sampled_pages")
        return
    # Each bin is an equal part of the range; on a border either is fine.
    total = 0
    for k in range(1, len(bins)):
        total += bins[k - 1]
        border = low + (high - low) * float(k) / len(bins)
        slack = 1e-9 * (high - low)
        least = len([v for v in values if v < border - slack])
        most = len([v for v in values if v <= border + slack])
        case.check(least <= total <= most, "timer", "the histogram of %s is "
                   "%s, durations since the flush: %s", name, rep(bins),
                   rep(sorted(values)))


def history(case):
    rng = case.rng
    ctx = case.ctx
    mode = rng.choice(("statsd", "conf", "conf"))
    clock = TickingClock(1300000000.0,
                         rng.choice((0.0, 0.0, 1e-6, 0.001, 0.01, 0.1)))
    processor = rig.processor(mode, clock, rng.choice(("", "pfx")))
    interval = rng.choice((10000, 1000, 100, 60000, 250))
    service, port = serve(case, processor, interval)
    many = rng.choice((0,) * 12 + (1500,))
    names = dict((kind, [k + "." + kind for k in key_pool(rng, 2)])
                 for kind in ("c", "ms", "g", "m", "sli"))
    if rng.random() < 0.05:
        names["pd"] = ["d.pd"]
    # Keys are listed as the daemon cleans them, whatever is left.
    clean = {"!": "", "a b/c.c": "a_b-c.c", "(x).c": "x.c", "?": ""}
    names["ms"] += rng.sample((".x.ms", "y.", "..", "a..b.ms", "-", "_t-"),
                              rng.choice((0, 0, 1, 2)))
    names["c"] += rng.sample(sorted(clean), rng.choice((0, 0, 1, 2)))
    if rng.random() < 0.3:
        # Keys several types share.
        names[rng.choice("cgm")] += names["ms"]
    seen = set()
    times = {}
    times_seen = set()
    flush_time = process_time = 0

    def look():
        """All pages, in some order."""
        pages = ["status", "list", "metrics", "missing"]
        rng.shuffle(pages)
        for what in pages[:rng.randrange(1, 5)]:
            if what == "status":
                total = flush_time + process_time
                limit = interval * 0.7
                if abs(total - limit) < 1e-6 * max(1, limit):
                    continue
                bad = total > limit
                status = page(case, port, "/status", 500 if bad else 200)
                want = dict(flush_time=flush_time, process_time=process_time,
                            flush_interval=interval,
                            status="ERROR" if bad else "OK")
                case.check(set(status) == set(want), "status",
                           "the status is %s", rep(status))
                for k in want:
                    case.check(status[k] == want[k] or (
                        k != "status" and close(status[k], want[k], 1e-9)),
                        "status", "%s of the status is %r, the last flush "
                        "reported %s", k, status[k], rep(want))
                ctx.count("bad_status" if bad else "good_status")
            elif what == "list":
                got = page(case, port, "/list_metrics")
                case.check(list(got) == ["names"] and
                           sorted(got["names"]) == sorted(seen), "list",
                           "the list is %s, not %s", rep(got),
                           rep(sorted(seen)))
                ctx.count("lists")
            elif what == "metrics":
                kind = rng.choice(("ms", "ms", "ms", "c", "g", "sli"))
                name = rng.choice(names[kind])
                name = clean.get(name, name) or "none"
                path = "/metrics/" + urllib.quote(name)
                if mode == "conf" and name in times_seen:
                    got = page(case, port, path)
                    judge_timer(case, name, got, times.get(name, []))
                    ctx.count("timer_pages")
                else:
                    code = ask(case, port, path)[0]
                    case.check(code == 404, "code", "%s answered %d", path,
                               code)
            else:
                path = rng.choice(("/nothing", "/metrics/none.such",
                                   "/status2", "/metrics/a/b"))
                code = ask(case, port, path)[0]
                case.check(code == 404, "code", "%s answered %d", path, code)
                ctx.count("missing_pages")

    def during_flush(before, after, answers):
        """Between two datapoints the status is that of the flush before
        or of this one, never of a part of one."""
        for name, (code, lines, body) in answers:
            status = json.loads(body)
            got = status["flush_time"], status["process_time"]
            for what, value, old, new in zip(
                    ("flush_time", "process_time"), got, before, after):
                case.check(close(value, old, 1e-9) or close(value, new, 1e-9),
                           "status", "asked after %s, %s of the status is "
                           "%r, %r in the flush before and %r in this one",
                           name, what, value, old, new)
            total = sum(got)
            limit = interval * 0.7
            if abs(total - limit) > 1e-6 * max(1, limit):
                case.check(code == (500 if total > limit else 200), "code",
                           "%d with %s", code, rep(status))
            ctx.count("status_during_a_flush")

    look()
    for i in range(many):
        processor.process("many.%d.c:1|c" % i)
        seen.add("many.%d.c" % i)
    for _ in range(rng.randrange(1, 5)):
        for _ in range(rng.choice((0, 1, 5, 25))):
            kind = rng.choice(sorted(names))
            name = rng.choice(names[kind])
            v = rng.randrange(1, 10000) / 4.0
            processor.process("%s:%s|%s" % (name, v, kind))
            seen.add(clean.get(name, name))
            if kind == "ms":
                times.setdefault(name, []).append(v)
                times_seen.add(name)
            if rng.random() < 0.1:
                processor.process("bad line %d" % rng.randrange(9))
            ctx.count("messages")
        if rng.random() < 0.6:
            look()
        clock.now += 10
        before = flush_time, process_time
        flush_time = process_time = 0
        answers = []
        asking = rng.choice((0, 0, 0.05, 0.3))
        for name, value, ts in processor.flush(interval=interval):
            if name.endswith(".duration"):
                if ".flush." in "." + name:
                    flush_time += value
                elif ".receive." in "." + name:
                    process_time += value
            if asking and len(answers) < 12 and rng.random() < asking * (
                    2 if name.endswith(".duration") else 0.5):
                answers.append((name, ask(case, port, "/status")))
        during_flush(before, (flush_time, process_time), answers)
        times = {}
        case.note("flush", flush_time, process_time)
        look()
    service.stopService()
    vnet.REACTOR.turn()
    case.check(not port.listening, "stop", "still listening after the stop")
    case.trivial = not seen
    case.signature(mode, interval, case.log, sorted(seen))


def many(case):
    """A timer with as many durations as are kept, and with more."""
    rng = case.rng
    clock = TickingClock(1300000000.0, 0.0)
    processor = rig.processor("conf", clock)
    service, port = serve(case, processor, 10000)
    for flush in range(2):
        values = []
        for n in (rng.choice((1, 7, 1000, 1027)), 1, 1, rng.choice((1, 900))):
            base = rng.randrange(1, 5000)
            order = range(n)
            rng.shuffle(order)
            for i in order:
                processor.process("t:%d|ms" % (base + i))
                values.append(base + i)
            judge_timer(case, "t", page(case, port, "/metrics/t"), values)
            case.ctx.count("timer_pages")
            case.ctx.count("messages", n)
        clock.now += 10
        for datapoint in processor.flush(interval=10000):
            pass
    service.stopService()
    vnet.REACTOR.turn()
    case.signature(values)


def edge(case):
    """Exactly 0.7 of the interval is still fine."""
    rng = case.rng
    mode = rng.choice(("statsd", "conf"))
    clock = TickingClock(1300000000.0, rng.choice((0.5, 0.25, 0.125)))
    processor = rig.processor(mode, clock)
    interval = rng.choice((10000, 5000, 20000))
    limit = interval * 0.7
    service, port = serve(case, processor, interval)
    met = 0
    messages = 0
    for _ in range(60):
        for i in range(messages):
            processor.process("k:1|c")
        total = 0
        for name, value, ts in processor.flush(interval=interval):
            if name.endswith(".duration"):
                total += value
        status = page(case, port, "/status", 500 if total > limit else 200)
        case.check(status["status"] == ("ERROR" if total > limit else "OK"),
                   "status", "flush and messages took %r of %r ms, the "
                   "status is %s", total, interval, rep(status))
        case.ctx.count("messages", messages)
        if total == limit:
            case.ctx.count("exactly_at_the_limit")
            met += 1
            break
        if total > limit:
            break
        messages += 1
    service.stopService()
    vnet.REACTOR.turn()
    case.trivial = not met
    case.signature(mode, interval, clock.tick, messages)


def nothing(case):
    """Without a port nothing listens."""
    from txstatsd.server import httpinfo
    reactor = vnet.install()
    reactor.reset()
    service = httpinfo.makeService({"http-port": None}, object(),
                                   StatsService(10))
    service.startService()
    case.check(not reactor.tcp, "port", "listens on %s without a port",
               [p.port for p in reactor.tcp])
    service.stopService()


def plugin(case):
    """A plugin metric may have a page of its own."""
    from twisted.web import resource
    rng = case.rng

    class Page(resource.Resource):
        isLeaf = True

        def __init__(self, metric):
            resource.Resource.__init__(self)
            self.metric = metric

        def render_GET(self, request):
            return json.dumps(dict(total=self.metric.total))

    class Metric(object):
        def __init__(self, page):
            self.total = 0
            if page:
                self.getResource = lambda: Page(self)

        def process(self, fields):
            self.total += float(fields[0])

        def flush(self, interval, timestamp):
            return []

    class Factory(object):
        name = "zz"
        metric_type = "zz"

        def build_metric(self, prefix, name, wall_time_func=None):
            return Metric(name.startswith("with"))

    from txstatsd.server.configurableprocessor import (
        ConfigurableMessageProcessor)
    from txstatsd.server.processor import MessageProcessor
    kind = rng.choice((ConfigurableMessageProcessor, MessageProcessor))
    processor = kind(plugins=[Factory()])
    service, port = serve(case, processor, 1000)
    totals = {}
    for _ in range(rng.randrange(1, 12)):
        name = rng.choice(("with.a", "with.b", "none.a"))
        v = rng.randrange(100)
        if rng.random() < 0.3:
            # Another type's metric of that key has no page.
            processor.process("%s:%d|%s" % (name, v, rng.choice(
                ("c", "g", "m", "ms") if kind is MessageProcessor else
                "cgm")))
        processor.process("%s:%d|zz" % (name, v))
        totals[name] = totals.get(name, 0) + v
        for name in ("with.a", "with.b", "none.a"):
            if name in totals and name.startswith("with"):
                got = page(case, port, "/metrics/" + name)
                case.check(got == {"total": totals[name]}, "plugin-page",
                           "the page of %s is %s, not %r", name, rep(got),
                           totals[name])
                case.ctx.count("plugin_pages")
            else:
                code = ask(case, port, "/metrics/" + name)[0]
                case.check(code == 404, "code", "%s answered %d", name, code)
    service.stopService()
    case.signature(kind.__name__, totals)


def run(ctx):
    vnet.install()
    ctx.scenario("history", history, ctx.n(320))
    ctx.scenario("many", many, ctx.n(20))
    ctx.scenario("edge", edge, ctx.n(24))
    ctx.scenario("nothing", nothing, 1)
    ctx.scenario("plugin", plugin, ctx.n(40))
    ctx.require("requests", 800)
    ctx.require("good_status", 60)
    ctx.require("bad_status", 15)
    ctx.require("timer_pages", 25)
    ctx.require("sampled_pages", 8)
    ctx.require("lists", 100)
    ctx.require("plugin_pages", 40)
    ctx.require("status_during_a_flush", 100)
