# -*- coding: utf-8 -*-
"""Workload generators shared by the checks of the aggregation."""
from oracle import Model, Session
from vlib import FakeClock, constants, sizes, words

KINDS = ("c", "ms", "g", "m")

# (spelling, value)
RATES = [("0.5", 0.5), ("0.25", 0.25), ("1", 1.0), ("1.0", 1.0),
         ("0.1", 0.1), (".5", 0.5), ("0.125", 0.125), ("0.01", 0.01),
         ("0.3", 0.3), ("0.0078125", 0.0078125), ("2", 2.0), ("0.9", 0.9),
         ("1e-05", 1e-05), ("2.5E-3", 0.0025)]

ENDINGS = (".count", ".rate", ".mean", ".upper", ".lower", ".value", ".min",
           ".max", ".stddev", "percentile", ".error")


def key_pool(rng, n, kind=""):
    """Keys that graphite accepts as they are, some of them provoking."""
    pool = []
    vocabulary = words()
    seen = set()
    while len(pool) < n:
        r = rng.random()
        if r < 0.35:
            key = "%s%d" % (rng.choice(("gorets", "a.b", "x-y", "A_b", "k")),
                            rng.randrange(1000))
        elif r < 0.55:
            key = rng.choice(vocabulary).strip(".") or "w"
        elif r < 0.75:
            key = "%s.%s" % (rng.choice(vocabulary).strip(".") or "w",
                             rng.choice(vocabulary).strip(".") or "w")
        elif r < 0.85:
            key = ".".join("%x" % rng.randrange(16)
                           for _ in range(rng.randrange(1, 12)))
        elif r < 0.9:
            key = "k" * rng.choice((1, 2, 63, 64, 100, 200, 255, 256, 400))
        elif r < 0.95:
            key = "%s" % rng.choice(constants()["ints"])
        else:
            key = rng.choice(("-", "_", "0", "a..b", "stats.x", "statsd.x",
                              "0x1f", "None", "True", "c", "ms", "g", "m"))
        key = key.strip()
        if rng.random() < 0.5:
            key = key + ".%s%d" % (kind or "t", rng.randrange(50))
        if not key or key in seen or key.endswith(ENDINGS) or (
                ".upper_" in key) or not legal(key):
            continue
        seen.add(key)
        pool.append(key)
        if len(pool) < n and rng.random() < 0.1:
            # Two keys with one hash.
            for twin in ("Aa" + key, "BB" + key):
                if twin not in seen:
                    seen.add(twin)
                    pool.append(twin)
        elif len(pool) < n and rng.random() < 0.1:
            # Two keys that look alike.
            twin = rng.choice((key.swapcase(), key.upper(), key.lower(),
                               key.replace(".", "_"), key.replace("_", "-"),
                               key[::-1], "." + key))
            if twin not in seen and not twin.endswith(ENDINGS) and (
                    ".upper_" not in twin):
                seen.add(twin)
                pool.append(twin)
    return pool[:n]


def legal(key):
    for c in key:
        if not (c.isalnum() or c in "_-.") or ord(c) > 126:
            return False
    return True


def dyadic(rng, kind):
    """Numbers whose sums are exact in floating point."""
    r = rng.random()
    if r < 0.35:
        v = float(rng.randrange(0, 100))
    elif r < 0.55:
        v = rng.randrange(0, 1 << 20) / 64.0
    elif r < 0.7:
        v = float(rng.choice(constants()["ints"]) + rng.choice((-1, 0, 1)))
    elif r < 0.75:
        v = 0.0
    elif r < 0.85:
        v = float(rng.randrange(0, 1 << 31))
    elif r < 0.93:
        v = rng.randrange(1, 1 << 12) / 1024.0
    else:
        v = float(rng.choice((1 << 20, 1 << 31, (1 << 31) - 1, 1 << 32, 65536,
                              1 << 40)))
    if abs(v) > 1 << 41:
        v = float(rng.randrange(1000))
    if kind in ("c", "g") and rng.random() < 0.25:
        v = -v
    return v


class Workload(object):
    """One processor with its model and a population of keys."""

    def __init__(self, case, mode, judge, prefix="", router=None, share=True,
                 plugins=None, factory=None, nkeys=None, start=None):
        rng = case.rng
        self.case = case
        self.mode = mode
        self.judge = judge
        # (Times of today, and near the ends of 31 and 32 bits.)
        era = rng.choice((1300000000,) * 12 + (
            1700000000, (1 << 31) - 100000, (1 << 31) - 100050,
            (1 << 32) - 100050))
        self.clock = FakeClock(start if start is not None else
                               era + rng.randrange(100000) +
                               rng.choice((0.0, 0.0, 0.25, 0.5, 0.875)))
        self.prefix = prefix
        if factory is not None:
            self.processor = factory(self.clock)
        elif mode == "statsd":
            from txstatsd.server.processor import MessageProcessor
            self.processor = MessageProcessor(time_function=self.clock,
                                              plugins=plugins)
        else:
            from txstatsd.server.configurableprocessor import (
                ConfigurableMessageProcessor)
            self.processor = ConfigurableMessageProcessor(
                time_function=self.clock, message_prefix=prefix,
                plugins=plugins)
        self.model = Model(mode, judge, prefix)
        self.session = Session(case, self.processor, self.model, self.clock,
                               entry=router(self.processor)
                               if router else None)
        # Everything very small or very large, sums still exact.
        self.scale = 1.0
        if rng.random() < 0.15:
            self.scale = 2.0 ** rng.choice((-20, -40, -60, -200, 20, 60, 200))
            case.ctx.count("scaled_histories")
        self.keys = {}
        if nkeys is None:
            nkeys = rng.choice((1, 1, 2, 3, 5, 8))
        if mode == "statsd" and share and rng.random() < 0.6:
            pool = key_pool(rng, nkeys)
            for kind in KINDS:
                self.keys[kind] = pool
        else:
            seen = set()
            for kind in KINDS:
                pool = [k for k in key_pool(rng, nkeys, kind)]
                pool = ["%s.%s" % (k, kind) if mode == "conf" or k in seen
                        else k for k in pool]
                seen.update(pool)
                self.keys[kind] = pool

    def send(self, kind=None):
        rng = self.case.rng
        if kind is None:
            if rng.random() < 0.7:
                kind = rng.choice(self.judge)
            else:
                kind = rng.choice(KINDS)
        key = rng.choice(self.keys[kind])
        value = dyadic(rng, kind) * self.scale
        rate, extra = None, None
        if kind == "c" and rng.random() < 0.3:
            rate = rng.choice(RATES)
        elif kind == "ms" and rng.random() < 0.15:
            extra = rng.choice(("@0.5", "@1"))
        self.session.message(kind, key, value, rate, extra=extra)

    def inject(self, probability, fresh=0.0):
        rng = self.case.rng

        budget = [40, 6]

        def injector(session):
            if budget[0] > 0 and rng.random() < probability:
                budget[0] -= 1
                if rng.random() < 0.2:
                    self.clock.advance(rng.choice((0.125, 0.25, 1.0)))
                for _ in range(rng.choice((1, 1, 2, 4))):
                    if budget[1] > 0 and len(self.keys[
                            self.judge[0]]) < 40 and rng.random() < fresh:
                        budget[1] -= 1
                        kind = rng.choice(self.judge)
                        key = "fresh%d.%s" % (session.messages, kind)
                        self.keys[kind] = self.keys[kind] + [key]
                        session.message(kind, key,
                                        dyadic(rng, kind) * self.scale)
                    else:
                        self.send()
        return injector


def intervals(rng):
    return rng.choice((1000, 10000, 60000, 10000, 2000, 500, 1500, 250, 30000,
                       12345, rng.choice(sizes(1, 100000)),
                       rng.choice((100001, 123456, 600500, 3600250, 86400000,
                                   rng.randrange(1, 10 ** 7)))))


def random_session(mode, judge, percents=(90,)):
    """Random history: bursts, idle flushes, arrivals during a flush."""
    def scenario(case):
        rng = case.rng
        prefix = "" if mode == "statsd" else rng.choice(
            ("", "pfx", "a.b", "statsd"))
        w = Workload(case, mode, judge, prefix)
        s = w.session
        flushes = rng.randrange(2, 14)
        burst = rng.choice((1, 3, 10, 40))
        probability = rng.choice((0.0, 0.0, 0.1, 0.5))
        fresh = rng.choice((0.0, 0.2))
        interval = intervals(rng)
        for _ in range(flushes):
            if rng.random() < 0.85:
                for _ in range(rng.randrange(burst + 1)):
                    w.send()
                    if rng.random() < 0.1:
                        w.clock.advance(rng.choice((0.001, 0.25, 1)))
            w.clock.advance(rng.choice((0, 0.5, 1, interval / 1000.0,
                                        interval / 1000.0, 10, 60,
                                        rng.choice((interval / 1000.0, 60,
                                                    600, 3601, 86401)))))
            if rng.random() < 0.2:
                interval = intervals(rng)
            s.flush(interval, rng.choice(percents),
                    w.inject(probability, fresh) if probability else None)
        # Everything that arrived last is accounted for by one more flush.
        w.clock.advance(rng.choice((1, 10)))
        s.flush(interval, rng.choice(percents))
        w.clock.advance(10)
        s.flush(interval, rng.choice(percents))
        finish(case, w)
    return scenario


def finish(case, w):
    ctx = case.ctx
    ctx.count("messages", w.session.messages)
    ctx.count("flushes", w.session.flushes)
    ctx.count("datapoints", w.session.datapoints)
    ctx.count("messages_during_a_flush", w.session.injected)
    ctx.count("ledgers_judged", w.model.judged)
    ctx.count("flush_boundary_races", w.model.boundary)
    case.signature(w.mode, case.scenario, w.session.messages,
                   w.session.flushes, w.session.injected, case.log[:40])
    case.trivial = w.session.messages == 0 or w.model.judged == 0


def thinned(options, cases):
    """At most so many of them, spread out; the largest is among them."""
    if cases is None or len(options) <= cases:
        return options
    step = len(options) / float(cases)
    return [options[-1 - int(i * step)] for i in range(cases)]


def sized_window(mode, kind, limit, cases=None, percents=(90,)):
    """A window of an interesting number of messages for one key."""
    options = thinned(sizes(1, limit), cases)

    def scenario(case):
        rng = case.rng
        n = options[case.index % len(options)]
        w = Workload(case, mode, (kind,), "" if mode == "statsd" else "p",
                     nkeys=1)
        s = w.session
        key = w.keys[kind][0]
        quantum = rng.choice((1.0, 0.5, 64.0))
        order = rng.random()
        for i in range(n):
            if order < 0.3:
                v = i * quantum
            elif order < 0.5:
                v = (n - i) * quantum
            elif order < 0.6:
                v = quantum
            else:
                v = rng.randrange(1, 1 << 16) * quantum
            s.message(kind, key, v,
                      text="%s:%r|%s" % (key, v, kind))
        w.clock.advance(10)
        s.flush(10000, rng.choice(percents))
        s.message(kind, key, 3.0)
        w.clock.advance(10)
        s.flush(10000, rng.choice(percents))
        w.clock.advance(10)
        s.flush(10000, rng.choice(percents))
        finish(case, w)
        case.signature(mode, "window", n, order)
        case.ctx.maximum("largest_window", n)
    return scenario, len(options)


def many_keys(mode, kind, limit, cases=None):
    """An interesting number of keys, all of them reported."""
    options = thinned(sizes(1, limit), cases)

    def scenario(case):
        rng = case.rng
        n = options[-1 - (case.index % len(options))]
        w = Workload(case, mode, (kind,), "" if mode == "statsd" else "p",
                     nkeys=1)
        s = w.session
        for i in range(n):
            s.message(kind, "many.k%d" % i, float(i % 97 + 1))
        w.clock.advance(10)
        s.flush(10000)
        for i in range(0, n, max(1, n // 50)):
            s.message(kind, "many.k%d" % i, float(i % 89 + 1))
        w.clock.advance(10)
        s.flush(10000)
        w.clock.advance(10)
        s.flush(10000)
        finish(case, w)
        case.signature(mode, "keys", n)
        case.ctx.maximum("most_keys", n)
    return scenario, len(options)


def long_run(mode, kinds, flushes):
    """Many flushes: idle keys, revived keys, keys that show up late."""
    def scenario(case):
        rng = case.rng
        w = Workload(case, mode, kinds, "" if mode == "statsd" else "p",
                     nkeys=3)
        s = w.session
        for kind in kinds:
            for key in w.keys[kind]:
                s.message(kind, key, dyadic(rng, kind))
        revive = set(rng.sample(range(flushes), max(1, flushes // 12)))
        for i in range(flushes):
            if i in revive:
                w.send()
                w.send()
            w.clock.advance(rng.choice((1, 10, 60)))
            if rng.random() < 0.02:
                w.clock.advance(rng.choice((600, 3600, 86400, 10 ** 6)))
            s.flush(rng.choice((10000, 60000)))
        finish(case, w)
        case.ctx.maximum("longest_history_flushes", flushes)
    return scenario


VALUES = ["0", "-0", "0.0", "-0.0", "1", "-1", "+1", "1.", ".5", "-.5", "1e3",
          "1E3", "1e-3", "1e+2", "00012", "007", "123456789", "2147483647",
          "2147483648", "-2147483648", "4294967296", "9007199254740992",
          "0.1", "0.30000000000000004", "3.141592653589793", "1e15",
          "99999999999", "0.000001", "12.5", " 5", "5 ", "1e0", "100", "1000",
          "1023", "1024", "65535", "65536"]


def spelled_values(mode, kind, negative=True):
    """Every spelling of a number a float parser takes, alone in a window."""
    def scenario(case):
        rng = case.rng
        w = Workload(case, mode, (kind,), "" if mode == "statsd" else "p",
                     nkeys=2)
        s = w.session
        values = VALUES + ["%d" % c for c in constants()["ints"]] + [
            repr(c) for c in constants()["floats"]]
        rng.shuffle(values)
        for text in values[:80]:
            value = float(text)
            if value < 0 and not negative:
                continue
            key = rng.choice(w.keys[kind])
            s.message(kind, key, value, text="%s:%s|%s" % (key, text, kind))
            if rng.random() < 0.7:
                w.clock.advance(rng.choice((1, 10)))
                s.flush(intervals(rng))
        w.clock.advance(10)
        s.flush()
        finish(case, w)
    return scenario
