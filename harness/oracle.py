# -*- coding: utf-8 -*-
"""Reference model of the aggregation, judged at the boundary: messages in,
datapoints out. One ledger per (type, key) holds what arrived, in order; a
datapoint has to account for a run of arrivals that starts where the previous
one ended and covers at least everything that arrived before its flush began
(what arrives while a flush is produced may be in that flush or the next).
"""
import math

from vlib import rep, Violation

EPS = 1e-9


def close(a, b):
    """The same number, but for the last bits; small ones count, too."""
    return a == b or abs(a - b) <= EPS * max(abs(a), abs(b))


def fmt(rng, value):
    """Spell a number the ways clients do."""
    forms = [repr(value)]
    if value == int(value) and abs(value) < 1e15:
        forms += ["%d" % value, "%d" % value, "%.1f" % value]
    if abs(value) < 1e12:
        forms.append("%r" % float(value))
    if value > 0 and rng.random() < 0.1:
        return "+" + forms[0]
    text = rng.choice(forms)
    return text[:-1] if text.endswith("L") else text


class Ledger(object):
    def __init__(self, kind, key, now):
        self.kind = kind
        self.key = key
        self.arrivals = []
        self.created = now
        self.start = 0          # arrivals known when the current flush began
        self.positions = set([0])
        self.last_ts = [now]    # when it can have been polled last
        self.rows = []          # datapoints of the current flush
        self.required = False
        self.emitted = 0


class Model(object):
    """mode: "statsd" or "conf"; judge: the kinds to judge (c ms g m)."""

    def __init__(self, mode, judge, prefix="", fail=None):
        self.mode = mode
        self.judge = judge
        self.prefix = prefix + "." if prefix else ""
        self.ledgers = {}
        self.order = []
        self.flushing = False
        self.judged = 0
        self.boundary = 0
        self.names = {}

    # -- arrivals
    def recv(self, kind, key, value, now, rate=None):
        ledger = self.ledgers.get((kind, key))
        if ledger is None:
            ledger = self.ledgers[(kind, key)] = Ledger(kind, key, now)
            self.order.append(ledger)
            for suffix, name in self.expected_names(kind, key):
                self.names[name] = (ledger, suffix)
        if kind == "c" and self.mode == "statsd" and rate is not None:
            value = value / rate
        ledger.arrivals.append(value)

    def expected_names(self, kind, key, percent=None):
        if self.mode == "statsd":
            if kind == "c":
                return [("rate", "stats." + key),
                        ("count", "stats_counts." + key)]
            if kind == "ms":
                base = "stats.timers." + key
                return [(s, base + "." + s)
                        for s in ("count", "lower", "mean", "upper")]
            if kind == "g":
                return [("value", "stats.gauge." + key + ".value")]
            if kind == "m":
                base = "stats.meter." + key
                return [("count", base + ".count"), ("rate", base + ".rate")]
        base = self.prefix + key
        if kind == "c":
            return [("count", base + ".count")]
        if kind == "ms":
            return [(s, base + "." + s) for s in (
                "min", "max", "mean", "stddev", "99percentile",
                "999percentile", "count", "rate")]
        if kind == "g":
            return [("value", base + ".value")]
        if kind == "m":
            return [("count", base + ".count"), ("rate", base + ".rate")]
        raise AssertionError(kind)

    # -- a flush
    def begin(self, now, interval, percent):
        self.ts = int(now)
        self.interval = interval
        self.percent = percent
        self.unknown = []
        for ledger in self.order:
            ledger.start = len(ledger.arrivals)
            ledger.required = True
            ledger.rows = []
        self.flushing = True

    def fresh(self):
        """Keys that appeared after the flush began."""
        return [l for l in self.order if not l.required]

    def emit(self, datapoint):
        try:
            name, value, timestamp = datapoint
        except (TypeError, ValueError):
            raise Violation("datapoint-shape",
                            "not a (name, value, timestamp): %s" % (
                                rep(datapoint),))
        known = self.names.get(name)
        if known is None and self.mode == "statsd":
            upper = ".upper_%s" % self.percent
            if name.startswith("stats.timers.") and name.endswith(upper):
                key = name[len("stats.timers."):-len(upper)]
                ledger = self.ledgers.get(("ms", key))
                if ledger is not None:
                    known = (ledger, "upper_N")
        if known is None:
            self.unknown.append(datapoint)
            return
        ledger, suffix = known
        if ledger.kind not in self.judge:
            return
        ledger.rows.append((suffix, value, timestamp, len(ledger.arrivals)))

    def end(self):
        self.flushing = False
        for ledger in self.order:
            if ledger.kind in self.judge:
                self.judge_ledger(ledger)
            ledger.required = False

    def violation(self, ledger, mech, text):
        raise Violation(mech, "%s mode, %s %r: %s; datapoints of this flush "
                        "(timestamp %s, interval %s, percent %s): %s; "
                        "arrivals from %s (%d before the flush): %s" % (
                            self.mode, ledger.kind, ledger.key, text,
                            self.ts, self.interval, self.percent,
                            rep([r[:3] for r in ledger.rows]),
                            sorted(ledger.positions)[:5], ledger.start,
                            rep(ledger.arrivals[min(ledger.positions):][:40])))

    def judge_ledger(self, ledger):
        rows = {}
        for suffix, value, timestamp, bound in ledger.rows:
            if suffix in rows:
                self.violation(ledger, "duplicate-datapoint",
                               "%s reported twice in one flush" % suffix)
            if timestamp != self.ts or timestamp != int(timestamp):
                self.violation(ledger, "timestamp",
                               "%s carries timestamp %r" % (
                                   suffix, timestamp))
            rows[suffix] = value
        bound = ledger.rows[-1][3] if ledger.rows else len(ledger.arrivals)
        if bound > ledger.start and ledger.rows:
            self.boundary += 1
        method = getattr(self, "judge_%s_%s" % (self.mode, ledger.kind))
        method(ledger, rows, bound)
        if rows:
            ledger.emitted += 1
        self.judged += 1

    def suffixes(self, ledger, rows, expected):
        if set(rows) != set(expected):
            self.violation(ledger, "missing-datapoint",
                           "reported %s instead of %s" % (
                               sorted(rows), sorted(expected)))

    # counters, StatsD-compliant
    def judge_statsd_c(self, ledger, rows, bound):
        if not rows and not ledger.required:
            return
        self.suffixes(ledger, rows, ("count", "rate"))
        count, rate = rows["count"], rows["rate"]
        seconds = self.interval / 1000.0
        if not close(rate, count / seconds):
            self.violation(ledger, "counter-rate",
                           "rate %r is not count %r / %r seconds" % (
                               rate, count, seconds))
        positions = set()
        for p in ledger.positions:
            total, scale = 0.0, 0.0
            q = p
            if q >= ledger.start and abs(count) == 0:
                positions.add(q)
            for q in range(p, bound):
                total += ledger.arrivals[q]
                scale += abs(ledger.arrivals[q])
                if q + 1 >= ledger.start and (
                        abs(total - count) <= EPS * scale):
                    positions.add(q + 1)
        if not positions:
            self.violation(ledger, "counter-conservation",
                           "count %r is not what arrived" % (count,))
        ledger.positions = positions

    # timers, StatsD-compliant
    def judge_statsd_ms(self, ledger, rows, bound):
        p = min(ledger.positions)
        if not rows:
            if p < ledger.start:
                self.violation(ledger, "timer-lost",
                               "%d durations are not reported" % (
                                   ledger.start - p))
            return
        self.suffixes(ledger, rows,
                      ("count", "lower", "mean", "upper", "upper_N"))
        n = rows["count"]
        if n != int(n) or n <= 0:
            self.violation(ledger, "timer-count", "count %r" % (n,))
        q = p + int(n)
        if q < ledger.start or q > bound:
            self.violation(ledger, "timer-count",
                           "count %r, but %d to %d durations arrived" % (
                               n, ledger.start - p, bound - p))
        window = sorted(ledger.arrivals[p:q])
        n = len(window)
        if rows["lower"] != window[0]:
            self.violation(ledger, "timer-lower", "lower is %r not %r" % (
                rows["lower"], window[0]))
        if rows["upper"] != window[-1]:
            self.violation(ledger, "timer-upper", "upper is %r not %r" % (
                rows["upper"], window[-1]))
        keeps = set()
        exact = ((100 - self.percent) / 100.0) * n
        keeps.add(max(1, n - int(round(exact))))
        other = n * (100 - self.percent) / 100.0
        if abs(exact - math.floor(exact) - 0.5) < 1e-9 and (
                round(exact) != round(other)):
            # Half way, but for the rounding of the product: either.
            keeps.add(max(1, n - int(math.floor(exact))))
            keeps.add(max(1, n - int(math.floor(exact)) - 1))
        fits = False
        for k in keeps:
            kept = window[:k] if n > 1 else window
            mean = math.fsum(kept) / len(kept)
            scale = max(abs(x) for x in kept)
            if rows["upper_N"] == kept[-1] and (
                    abs(rows["mean"] - mean) <= EPS * scale):
                fits = True
        if not fits:
            self.violation(
                ledger, "timer-threshold",
                "upper_%s %r and mean %r do not fit the %s smallest of %d: "
                "%s" % (self.percent, rows["upper_N"], rows["mean"],
                        sorted(keeps), n,
                        [(window[:k][-1], math.fsum(window[:k]) / k)
                         for k in keeps]))
        ledger.positions = set([q])

    # the last value, both modes
    def judge_last(self, ledger, rows, bound, suffix, convert, mech,
                   strict=False):
        if not rows and not ledger.required:
            return
        self.suffixes(ledger, rows, (suffix,))
        value = rows[suffix]
        low = max(min(ledger.positions), ledger.start) - 1
        low = max(low, 0)
        if strict:
            # The value received last before that datapoint.
            low = max(low, bound - 1)
        fits = [q for q in range(low, bound)
                if close(convert(ledger.arrivals[q]), value)]
        if not fits:
            self.violation(ledger, mech,
                           "%r reported, the last value is %r" % (
                               value, ledger.arrivals[
                                   bound - 1 if strict else
                                   max(ledger.start - 1, 0)]))
        ledger.positions = set([q + 1 for q in fits])

    def judge_statsd_g(self, ledger, rows, bound):
        self.judge_last(ledger, rows, bound, "value", float, "gauge-value",
                        True)

    judge_conf_g = judge_statsd_g

    def judge_conf_c(self, ledger, rows, bound):
        self.judge_last(ledger, rows, bound, "count", math.trunc,
                        "counter-value")

    # meters, both modes
    def judge_statsd_m(self, ledger, rows, bound):
        if not rows and not ledger.required:
            # Polled or not, while it was new.
            ledger.last_ts = ledger.last_ts + [self.ts]
            return
        times = ledger.last_ts
        if not rows:
            if not any(self.ts <= t for t in times):
                self.violation(ledger, "meter-missing",
                               "nothing reported after %r seconds" % (
                                   [self.ts - t for t in times],))
            ledger.last_ts = [self.ts]
            return
        self.suffixes(ledger, rows, ("count", "rate"))
        count, rate = rows["count"], rows["rate"]
        positions = set()
        why = "count"
        for p in ledger.positions:
            total = math.fsum(ledger.arrivals[:p])
            marked = 0.0
            for q in range(p, bound + 1):
                if q > p:
                    total += ledger.arrivals[q - 1]
                    marked += ledger.arrivals[q - 1]
                if q < ledger.start:
                    continue
                if abs(total - count) > 1e-6 * max(1.0, abs(total)):
                    continue
                why = "rate"
                for t in times:
                    if self.ts <= t:
                        continue
                    expected = marked / (self.ts - t)
                    if abs(expected - rate) <= 2e-6 * max(1.0, abs(expected)):
                        positions.add(q)
        if not positions:
            self.violation(
                ledger, "meter-" + why,
                "count %r and rate %r after %r seconds (total marked %r)" % (
                    count, rate, [self.ts - t for t in times],
                    math.fsum(ledger.arrivals[:ledger.start])))
        ledger.positions = positions
        ledger.last_ts = [self.ts]

    judge_conf_m = judge_statsd_m

    # timers, configurable mode
    def judge_conf_ms(self, ledger, rows, bound):
        if not rows and not ledger.required:
            return
        self.suffixes(ledger, rows, (
            "min", "max", "mean", "stddev", "99percentile", "999percentile",
            "count", "rate"))
        p = min(ledger.positions)
        q = rows["count"]
        if q != int(q) or q < ledger.start or q > bound or q < p:
            self.violation(ledger, "timer-count",
                           "count %r, but %d to %d durations arrived" % (
                               q, ledger.start, bound))
        q = int(q)
        window = sorted(v for v in ledger.arrivals[p:q] if v >= 0)
        n = len(window)
        if n:
            mean = math.fsum(window) / n
            var = math.fsum((v - mean) ** 2 for v in window)
            std = math.sqrt(var / (n - 1)) if n > 1 else 0.0
            expected = {"min": window[0], "max": window[-1], "mean": mean,
                        "stddev": std}
        else:
            expected = {"min": 0.0, "max": 0.0, "mean": 0.0, "stddev": 0.0}
        if n <= 1028:
            for name, fraction in (("99percentile", 0.99),
                                   ("999percentile", 0.999)):
                expected[name] = percentile(window, fraction)
        for name, value in sorted(expected.items()):
            scale = max(1.0, abs(window[-1]) if n else 0.0)
            if abs(rows[name] - value) > 1e-6 * scale + 1e-6:
                self.violation(ledger, "timer-" + name,
                               "%s is %r, not %r" % (
                                   name, rows[name], value))
        if n > 1028:
            for name in ("99percentile", "999percentile"):
                if not (window[0] - 1e-6 <= rows[name] <= window[-1] + 1e-6):
                    self.violation(ledger, "timer-" + name,
                                   "%s is %r, outside the durations" % (
                                       name, rows[name]))
            if rows["99percentile"] > rows["999percentile"] + 1e-6:
                self.violation(ledger, "timer-percentiles",
                               "percentiles out of order")
        fits = False
        for t in ledger.last_ts:
            dt = self.ts - t
            value = float(n) / dt if dt > 0 else 0.0
            if abs(rows["rate"] - value) <= 2e-6 * max(1.0, value):
                fits = True
        if not fits:
            self.violation(ledger, "timer-rate",
                           "rate is %r for %d durations in %r seconds" % (
                               rows["rate"], n,
                               [self.ts - t for t in ledger.last_ts]))
        ledger.positions = set([q])
        ledger.last_ts = [self.ts]


def percentile(values, fraction):
    if not values:
        return 0.0
    pos = fraction * (len(values) + 1)
    if pos < 1:
        return values[0]
    if pos >= len(values):
        return values[-1]
    lower = values[int(pos) - 1]
    upper = values[int(pos)]
    return lower + (pos - math.floor(pos)) * (upper - lower)


class Session(object):
    """A processor, fed and flushed next to the model."""

    def __init__(self, case, processor, model, clock, entry=None):
        self.case = case
        self.processor = processor
        self.entry = entry or processor
        self.model = model
        self.clock = clock
        self.messages = 0
        self.flushes = 0
        self.injected = 0
        self.datapoints = 0

    def message(self, kind, key, value, rate=None, text=None, extra=None):
        if text is None:
            text = "%s:%s|%s" % (key, fmt(self.case.rng, value), kind)
            if rate is not None:
                text += "|@" + rate[0]
            elif extra is not None:
                text += "|" + extra
        self.case.note("recv", text)
        self.entry.process(text)
        self.model.recv(kind, key, value, self.clock.now,
                        rate[1] if rate is not None else None)
        self.messages += 1

    def flush(self, interval=10000, percent=90, inject=None, flush=None):
        """Drive the flush generator; inject(session) runs where the daemon
        would let the reactor run, between two datapoints."""
        self.case.note("flush", interval, percent, self.clock.now)
        self.model.begin(self.clock.now, interval, percent)
        kwargs = {"interval": interval}
        if percent != 90:
            kwargs["percent"] = percent
        result = []
        for datapoint in (flush or self.entry.flush)(**kwargs):
            self.datapoints += 1
            result.append(datapoint)
            self.model.emit(datapoint)
            if inject is not None:
                before = self.messages
                inject(self)
                self.injected += self.messages - before
        self.model.end()
        self.flushes += 1
        self.last = result
        return result
