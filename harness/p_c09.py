# -*- coding: utf-8 -*-
from gen import dyadic, key_pool
from grammar import classify
from oracle import fmt
from rig import processor, internal_prefix
from vlib import FakeClock, close, rep

RULE = """Histories of messages of every type, plugins included, and of flushes
in both modes, with messages injected between the datapoints of a flush (its
own summary included) and time that passes while messages are processed and
metrics flushed. The accounting datapoints are compared with what was sent and
with the other datapoints of the flush. Non-trivial: at least one message and
one flush; distinct by the events of the case."""

KINDS = {"counter": "c", "timer": "ms", "gauge": "g", "meter": "m"}


class SlowMetric(object):
    """A plugin metric that takes its time, to be seen in the durations."""

    def __init__(self, name, clock, cost):
        self.name = name
        self.clock = clock
        self.cost = cost
        self.seen = 0

    def process(self, fields):
        value = float(fields[0])
        self.clock.advance(self.cost[0])
        self.seen += 1

    def flush(self, interval, timestamp):
        self.clock.advance(self.cost[1])
        return [(self.name + ".slow", self.seen, timestamp)]


class SlowFactory(object):
    name = "slow"

    def __init__(self, metric_type, cost):
        self.metric_type = metric_type
        self.cost = cost

    def build_metric(self, prefix, name, wall_time_func=None):
        return SlowMetric((prefix + "." if prefix else "") + name,
                          wall_time_func, self.cost)

    def configure(self, options):
        pass


class Bench(object):
    def __init__(self, case, mode):
        rng = case.rng
        self.case = case
        self.mode = mode
        self.clock = FakeClock(rng.choice((1300000000, 1300000000,
                                           (1 << 31) - 50)) +
                               rng.choice((0, 0.25, 0.9)))
        self.prefix = "" if mode == "statsd" else rng.choice(("", "p"))
        internal = None if mode == "statsd" else rng.choice((None, "own."))
        self.own = internal_prefix(mode, self.prefix, internal)
        self.costs = {"sl": (rng.choice((0, 0.25, 0.5)),
                             rng.choice((0, 0.125, 1.0))),
                      "sx": (rng.choice((0, 0.125, 2.0)), 0)}
        factories = [SlowFactory(t, cost)
                     for t, cost in sorted(self.costs.items())]
        if mode == "statsd":
            from txstatsd.server.processor import MessageProcessor
            self.p = MessageProcessor(time_function=self.clock,
                                      plugins=factories)
        else:
            from txstatsd.server.configurableprocessor import (
                ConfigurableMessageProcessor)
            kwargs = {}
            if internal:
                kwargs["internal_metrics_prefix"] = internal
            self.p = ConfigurableMessageProcessor(
                time_function=self.clock, message_prefix=self.prefix,
                plugins=factories, **kwargs)
        self.keys = {}
        for kind in ("c", "ms", "g", "m", "sl", "sx"):
            self.keys[kind] = ["%s.%s" % (k, kind) for k in key_pool(
                rng, rng.choice((1, 2, 4)), kind)
                if not k.startswith(("statsd", "own"))] or ["k." + kind]
        # What arrived, by type: (surely counted, maybe counted)
        self.sent = {}
        self.dubious = {}
        self.reported = {}
        self.spent = {}
        self.known = {}
        self.pending = {}

    def send(self):
        rng = self.case.rng
        kind = rng.choice(sorted(self.keys))
        key = rng.choice(self.keys[kind])
        r = rng.random()
        if r < 0.06:
            text = rng.choice(("junk", key + ":1|zz", key + ":1", ":|",
                               key + ":x|" + kind))
        else:
            text = "%s:%s|%s" % (key, fmt(rng, abs(dyadic(rng, kind))), kind)
        verdict = classify(text, self.mode, ("sl", "sx"))
        if kind in ("sl", "sx") and text.endswith("|" + kind):
            verdict = ("bad" if ":x|" in text else "good", kind, key, 1, None)
        self.case.note("recv", text)
        self.p.process(text)
        self.case.ctx.count("messages")
        if verdict[0] == "good":
            self.sent[kind] = self.sent.get(kind, 0) + 1
            self.known.setdefault(kind, {})[key] = True
            self.pending.setdefault(kind, {})[key] = True
            if kind in self.costs:
                self.spent[kind] = (self.spent.get(kind, 0) +
                                    self.costs[kind][0])
        elif verdict[1]:
            self.dubious[kind] = self.dubious.get(kind, 0) + 1

    def flush(self, inject):
        """One flush; inject(name) may send between two datapoints."""
        case = self.case
        began = dict((k, dict(v)) for k, v in self.known.items())
        pending = self.pending
        self.pending = {}
        start = int(self.clock.now)
        rows = []
        before = dict(self.sent), dict(self.dubious), dict(self.spent)
        case.note("flush", self.clock.now)
        for datapoint in self.p.flush(interval=10000):
            case.check(isinstance(datapoint, tuple) and len(datapoint) == 3,
                       "datapoint-shape", "%s", rep(datapoint))
            rows.append(datapoint)
            inject(self, datapoint[0])
        case.ctx.count("flushes")
        own = {}
        names = []
        for name, value, timestamp in rows:
            case.check(timestamp == start and int(timestamp) == timestamp,
                       "timestamp", "%r carries timestamp %r, the flush "
                       "began at %r", name, timestamp, start)
            if name.startswith(self.own):
                short = name[len(self.own):]
                case.check(short not in own, "duplicate-datapoint",
                           "%r twice in a flush", name)
                own[short] = value
            else:
                names.append(name)
        self.judge_flush(own, names, began, pending)
        self.judge_receive(own, before)
        return rows

    def judge_flush(self, own, names, began, pending):
        case = self.case
        case.check("numStats" in own, "missing-datapoint",
                   "no numStats in %s", rep(sorted(own)))
        total = 0
        for kind in ("counter", "timer", "gauge", "meter", "plugin"):
            for suffix in ("count", "duration"):
                case.check("flush.%s.%s" % (kind, suffix) in own,
                           "missing-datapoint", "no flush.%s.%s in %s", kind,
                           suffix, rep(sorted(own)))
            total += own["flush.%s.count" % kind]
            case.check(own["flush.%s.duration" % kind] >= 0,
                       "negative-duration", "flush.%s.duration is %r", kind,
                       own["flush.%s.duration" % kind])
        case.check(own["numStats"] == total, "num-stats",
                   "numStats is %r, the parts add up to %r", own["numStats"],
                   total)
        # How many metrics of each kind the datapoints show.
        shown = {}
        everything = set(names)
        for kind, keys in self.known.items():
            for key in keys:
                if self.sample_name(kind, key) in everything:
                    label = kind if kind not in ("sl", "sx") else "plugin"
                    shown[label] = shown.get(label, 0) + 1
        for label, kind in sorted(KINDS.items()) + [("plugin", "plugin")]:
            count = own["flush.%s.count" % label]
            low = shown.get(kind, 0)
            high = low
            if kind == "m":
                # Known, though nothing to report without elapsed time.
                high = len(self.known.get("m", ()))
            case.check(low <= count <= high, "flush-count",
                       "flush.%s.count is %r, but %r are reported", label,
                       count, low)
        case.ctx.count("flush_counts_checked", 5)

    def sample_name(self, kind, key):
        prefix = self.prefix + "." if self.prefix else ""
        if self.mode == "statsd":
            return {"c": "stats_counts." + key,
                    "ms": "stats.timers.%s.count" % key,
                    "g": "stats.gauge.%s.value" % key,
                    "m": "stats.meter.%s.count" % key}.get(
                        kind, "stats.slow.%s.slow" % key)
        return {"c": prefix + key + ".count", "ms": prefix + key + ".count",
                "g": prefix + key + ".value",
                "m": prefix + key + ".count"}.get(
                    kind, prefix + key + ".slow")

    def judge_receive(self, own, before):
        case = self.case
        for name, value in own.items():
            if not name.startswith("receive."):
                continue
            rest, suffix = name[len("receive."):].rsplit(".", 1)
            case.check(suffix in ("count", "duration"), "receive-name",
                       "%s", name)
            case.check(rest in self.keys, "receive-name",
                       "%s: no such type was received", name)
            if suffix == "count":
                self.reported[rest] = self.reported.get(rest, 0) + value
                case.check("receive.%s.duration" % rest in own,
                           "missing-datapoint", "no duration next to %s",
                           name)
            else:
                case.check(value >= 0, "negative-duration", "%s is %r", name,
                           value)
                self.spent[rest] = self.spent.get(rest, 0) - value / 1000.0
        for kind in self.keys:
            got = self.reported.get(kind, 0)
            low = before[0].get(kind, 0)
            high = self.sent.get(kind, 0) + self.dubious.get(kind, 0)
            case.check(low <= got <= high, "receive-conservation",
                       "%d to %d messages of type %s arrived so far, %r were "
                       "accounted for", low, high, kind, got)
        case.ctx.count("receive_counts_checked", len(self.keys))


def history(mode):
    def scenario(case):
        rng = case.rng
        b = Bench(case, mode)
        probability = rng.choice((0, 0, 0.1, 0.4))
        only_summary = rng.random() < 0.4

        def inject(bench, name):
            if only_summary and not name.startswith(bench.own):
                return
            if probability and rng.random() < probability:
                bench.send()
                case.ctx.count("messages_during_a_flush")

        for _ in range(rng.randrange(2, 9)):
            for _ in range(rng.choice((0, 1, 5, 25))):
                b.send()
            b.clock.advance(rng.choice((0.5, 1, 10)))
            if rng.random() < 0.12:
                # Somebody sets the clock.
                b.clock.now += rng.choice((-3600, -45, 7200, 86400 * 400))
                case.ctx.count("clocks_set")
            b.flush(inject)
        # Once more without traffic: nothing is owed, nothing is repeated.
        b.clock.advance(10)
        b.flush(lambda *a: None)
        for kind in b.keys:
            got = b.reported.get(kind, 0)
            low = b.sent.get(kind, 0)
            case.check(low <= got <= low + b.dubious.get(kind, 0),
                       "receive-conservation", "%d messages of type %s "
                       "arrived, %r were accounted for in the end", low,
                       kind, got)
            if b.dubious.get(kind, 0) == 0 and kind in b.costs:
                case.check(abs(b.spent.get(kind, 0)) < 1e-6,
                           "receive-duration",
                           "the processing times reported for type %s are "
                           "off by %r seconds", kind, b.spent.get(kind))
        b.clock.advance(10)
        rows = b.flush(lambda *a: None)
        idle = [r[0] for r in rows if r[0].startswith(b.own + "receive.") and
                r[0].endswith(".count") and r[1] != 0]
        case.check(not idle, "receive-repeated",
                   "nothing was received, but %s is reported", rep(idle))
        case.ctx.count("histories")
        case.signature(mode, case.log[:60])
    return scenario


def durations(mode):
    """The flush durations, against a clock that only plugins advance."""
    def scenario(case):
        rng = case.rng
        b = Bench(case, mode)
        for _ in range(rng.randrange(1, 5)):
            for _ in range(rng.randrange(1, 20)):
                b.send()
            n = len(b.known.get("sl", ()))
            rows = dict((r[0], r[1]) for r in b.flush(lambda *a: None))
            want = n * b.costs["sl"][1] * 1000
            got = rows[b.own + "flush.plugin.duration"]
            case.check(close(got, want, 1e-6), "flush-duration",
                       "%d plugin metrics take %r ms to flush, "
                       "flush.plugin.duration is %r", n, want, got)
            for kind in ("counter", "timer", "gauge", "meter"):
                got = rows[b.own + "flush.%s.duration" % kind]
                case.check(abs(got) < 1e-6, "flush-duration",
                           "no time passed, flush.%s.duration is %r", kind,
                           got)
            case.ctx.count("flush_durations_checked", 5)
        case.signature(mode, b.costs, case.log[:60])
    return scenario


def run(ctx):
    for mode in ("statsd", "conf"):
        ctx.scenario("history-" + mode, history(mode), ctx.n(150))
        ctx.scenario("durations-" + mode, durations(mode), ctx.n(60))
    ctx.require("messages", 5000)
    ctx.require("messages_during_a_flush", 300)
    ctx.require("flush_counts_checked", 2000)
    ctx.require("receive_counts_checked", 2000)
    ctx.require("clocks_set", 50)
    ctx.require("flush_durations_checked", 200)
