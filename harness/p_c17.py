# -*- coding: utf-8 -*-
import copy
import math

import rig
from gen import key_pool
from vlib import FakeClock, rep

RULE = """Distinct counters fed through both processors and directly, with
items new, repeated and come back, at every distance of the three windows,
flushed in between: estimates against the number of items averaged over
counters with their own hashes, exact agreement of each window with a twin
that has the same hashes and only saw what is inside, repetition, order and
growth. Non-trivial: items were counted; distinct by the history."""

WINDOWS = ((".count_1min", 60.0), (".count_1hour", 3600.0),
           (".count_1day", 86400.0))
NAMES = [".count"] + [w[0] for w in WINDOWS]


class Hands(object):
    """The time as the counter sees it. Copies share it."""

    def __init__(self, now):
        self.now = now

    def __call__(self):
        return self.now

    def __deepcopy__(self, memo):
        return self


def items(rng, n):
    kind = rng.randrange(5)
    base = rng.randrange(10 ** 6)
    if kind == 0:
        return ["user%d" % (base + i) for i in range(n)]
    if kind == 1:
        return ["10.%d.%d.%d" % (i >> 8 & 255, i & 255, base % 251)
                for i in range(n)]
    if kind == 2:
        return [str(base + i) for i in range(n)]
    if kind == 3:
        seen = set()
        while len(seen) < n:
            seen.add("%012x" % rng.randrange(1 << 48))
        return sorted(seen)
    return ["s%d@example.com" % (base + 7 * i) for i in range(n)]


def read(case, reporter, name, timestamp=77):
    rows = list(reporter.flush(10, timestamp))
    found = rig.table(rows)
    case.check(sorted(found) == sorted(name + s for s in NAMES), "names",
               "a flush reports %s", rep(sorted(found)))
    values = {}
    for suffix in NAMES:
        value, ts = found[name + suffix]
        case.check(ts == timestamp, "timestamp", "%s at %r, not %r", suffix,
                   ts, timestamp)
        case.check(value == int(value) and value >= 0, "value", "%s is %r",
                   suffix, value)
        values[suffix] = value
    return values


def windows(case):
    """Exactly what a counter that only saw the window would say."""
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter
    rng = case.rng
    ctx = case.ctx
    clock = Hands(rng.choice((1300000000.0, 1300000000.0,
                               float((1 << 31) - 5000))) + rng.randrange(1000))
    prefix = rng.choice(("", "p", "a.b"))
    reporter = DistinctMetricReporter("k", wall_time_func=clock,
                                      prefix=prefix)
    blank = copy.deepcopy(reporter)
    name = prefix + ".k" if prefix else "k"
    pool = items(rng, rng.choice((3, 20, 80)))
    last = {}
    longest = rng.choice((20, 300, 5000, 40000))
    largest = 0
    for step in range(rng.randrange(2, 7)):
        for _ in range(rng.choice((0, 1, 10, 60))):
            item = rng.choice(pool)
            if rng.random() < 0.5:
                reporter.update(item)
            else:
                reporter.process([item, "pd"])
            last[item] = clock.now
            ctx.count("items")
            if rng.random() < 0.2:
                clock.now += rng.random() * longest / 20
        clock.now += rng.choice((0.0, 1.0, 59.5, 60.5, 3599.5, 3600.5,
                                 86399.5, 86400.5, 100.0,
                                 rng.random() * longest))
        got = read(case, reporter, name)
        case.note(clock.now, got)
        for suffix, span in [(".count", clock.now)] + list(WINDOWS):
            near = [i for i, t in last.items()
                    if abs(clock.now - span - t) < 0.01]
            if near and span != clock.now:
                continue
            twin = copy.deepcopy(blank)
            twin_now, clock.now = clock.now, clock.now
            inside = [i for i in last if last[i] > clock.now - span]
            for item in inside:
                twin.update(item)
            want = read(case, twin, name)[".count"]
            ctx.count("windows_compared")
            case.check(got[suffix] == want, "window", "%s is %r, a counter "
                       "of the %d items of the last %s s says %r",
                       suffix, got[suffix], len(inside), span, want)
        case.check(got[".count_1min"] <= got[".count_1hour"] <=
                   got[".count_1day"] <= got[".count"], "nesting",
                   "the windows are %s", got)
        # Reading changes nothing; nor does seeing the same again.
        case.check(read(case, reporter, name) == got, "reading",
                   "a second flush says something else")
        case.check(got[".count"] >= largest, "shrinks",
                   "the total went from %r to %r", largest, got[".count"])
        largest = got[".count"]
        if last:
            for _ in range(5):
                item = rng.choice(sorted(last))
                reporter.update(item)
                last[item] = clock.now
            case.check(read(case, reporter, name)[".count"] == largest,
                       "repeated", "seeing known items again changes the "
                       "total")
    ctx.count("histories")
    case.trivial = not last
    case.signature(case.log)


def accuracy(case):
    """Averaged over counters, the estimate is near the number of items."""
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter
    rng = case.rng
    n = (100, 300, 1000, 2500)[case.index % 4]
    counters = {100: 14, 300: 10, 1000: 6, 2500: 4}[n]
    if case.ctx.tier == "thorough":
        counters *= 3
    mine = items(rng, n)
    clock = Hands(1300000000.0)
    total = 0.0
    seen = []
    for _ in range(counters):
        reporter = DistinctMetricReporter("k", wall_time_func=clock)
        for item in mine:
            reporter.update(item)
        value = read(case, reporter, "k")
        case.check(len(set(value.values())) == 1, "nesting",
                   "items seen now are %s", value)
        seen.append(value[".count"])
        case.ctx.count("items", n)
        case.check(n / 2.6 <= value[".count"] <= n * 2.6, "accuracy",
                   "%d items are estimated as %r", n, value[".count"])
    mean = sum(seen) / float(counters)
    allowed = 0.05 + 5.5 * 0.15 / counters ** 0.5
    case.note(n, counters, mean)
    case.check(abs(mean - n) <= allowed * n, "accuracy",
               "%d items are estimated as %r on average (%s)", n, mean,
               rep(seen))
    case.check(len(set(seen)) > 1, "hashes", "%d counters agree exactly on "
               "%d items: %s", counters, n, rep(seen[:3]))
    case.ctx.count("estimates", counters)
    case.signature(n, mine[0], seen)


def spread(case):
    """Estimates scatter as those of 32 hashes do: by 0.2 of a doubling,
    while those of 8 would by 0.4."""
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter
    rng = case.rng
    n, counters = rng.choice((30, 50)), 120
    mine = ["%07x" % rng.randrange(1 << 28) for _ in range(n)]
    clock = Hands(1300000000.0)
    seen = []
    for _ in range(counters):
        reporter = DistinctMetricReporter("k", wall_time_func=clock)
        for item in mine:
            reporter.update(item)
        seen.append(math.log(read(case, reporter, "k")[".count"] or 1, 2))
        case.ctx.count("items", n)
    mean = sum(seen) / counters
    deviation = (sum((v - mean) ** 2 for v in seen) / (counters - 1)) ** 0.5
    case.note(n, mean, deviation)
    case.check(deviation < 0.285, "spread", "estimates of %d items scatter by "
               "%r of a doubling: %s", n, deviation, rep(sorted(seen)))
    case.check(deviation > 0.09, "spread", "estimates of counters with their "
               "own hashes scatter by no more than %r of a doubling",
               deviation)
    case.ctx.maximum("deviation_thousandths", int(deviation * 1000))
    case.ctx.count("scattered_estimates", counters)
    case.signature(mine, seen)


def lots(case):
    """Windows of very many items are estimated as well as small ones."""
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter
    n, bits = 32000, 18
    if case.ctx.tier == "thorough":
        n, bits = ((32000, 18), (120000, 24), (400000, 24))[case.index % 3]
    start = case.rng.randrange(1 << bits)
    reporter = DistinctMetricReporter("k",
                                      wall_time_func=Hands(1300000000.0))
    alphabet = [chr(48 + i) for i in range(64)]
    for i in range(n):
        # Short ones, in no order.
        number = (start + i * 40503) & ((1 << bits) - 1)
        text = ""
        for _ in range(bits // 6):
            text += alphabet[number & 63]
            number >>= 6
        reporter.update(text)
    value = read(case, reporter, "k")
    case.check(n / 2.4 <= value[".count"] <= n * 2.4, "accuracy", "%d items "
               "are estimated as %r", n, value)
    case.check(len(set(value.values())) == 1, "nesting", "items seen now are "
               "%s", value)
    case.ctx.maximum("items_of_one_window", n)
    case.ctx.count("items", n)
    case.signature(n, start)


def long_items(case):
    """Every character counts, wherever it is."""
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter
    rng = case.rng
    length = rng.choice((30, 70, 140, 300, 600, 1100, 3000))
    processed = rng.random() < 0.6
    n = 40 if length < 500 else 20 if length < 2000 else 8
    where = rng.choice(("start", "middle", "end"))
    fill = rng.choice(("x", "/", "\xc3", "0"))
    mine = []
    for i in range(n):
        text = "%02d" % i
        if where == "start":
            mine.append(text + fill * length)
        elif where == "end":
            mine.append(fill * length + text)
        else:
            mine.append(fill * (length // 2) + text + fill * (length // 2))
    seen = []
    for _ in range(2):
        reporter = DistinctMetricReporter(
            "k", wall_time_func=Hands(1300000000.0))
        for item in mine:
            if processed:
                reporter.process([item, "pd"])
            else:
                reporter.update(item)
        seen.append(read(case, reporter, "k")[".count"])
        case.ctx.count("long_items", n)
    case.check(all(n / 4.0 <= v <= n * 4.0 for v in seen), "long-items",
               "%d items that differ at the %s of %d characters are "
               "estimated as %r", n, where, length, seen)
    case.signature(where, length, fill, seen)


def alike(case):
    """Items that look alike are different items all the same."""
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter
    rng = case.rng
    kind = ("case", "blanks", "numbers", "signs")[case.index % 4]
    if kind == "case":
        word = "abcdef"
        mine = ["".join(c.upper() if n >> i & 1 else c
                        for i, c in enumerate(word)) for n in range(64)]
    elif kind == "blanks":
        around = ("", " ", "  ", "\t", "\t ", "   ", "\x0b")
        mine = [a + "x" + b for a in around for b in around]
    elif kind == "numbers":
        mine = [a + b + c for a in ("1", "01", "001", "+1")
                for b in ("", ".", ".0", ".00") for c in ("", "e0", "e00",
                                                          "E0")]
    else:
        mine = [a + "k" + b for a in ("", "-", "_", ".", "/", "@", "%", "#")
                for b in ("", "-", "_", ".", "/", "@", "%", "#")]
    mine = rng.sample(mine, 40)
    seen = []
    for processed in (0, 1, 1):
        reporter = DistinctMetricReporter(
            "k", wall_time_func=Hands(1300000000.0))
        for item in mine:
            if processed:
                reporter.process([item, "pd"])
            else:
                reporter.update(item)
        seen.append(read(case, reporter, "k")[".count"])
        case.ctx.count("alike_items", len(mine))
    # The hash spreads families like these less well.
    case.check(all(len(mine) / 8.0 <= v <= len(mine) * 2.5 for v in seen),
               "alike", "%d different items (%s) are estimated as %r: %s",
               len(mine), kind, seen, rep(mine[:8]))
    case.signature(kind, mine, seen)


def daemon(case):
    """Through the processors: each key its own counter, named as it is."""
    rng = case.rng
    ctx = case.ctx
    mode = rng.choice(("statsd", "conf"))
    prefix = rng.choice(("", "pfx")) if mode == "conf" else ""
    clock = FakeClock()
    processor = rig.processor(mode, clock, prefix)
    keys = dict((k + ".d", items(rng, rng.choice((1, 30, 200))))
                for k in key_pool(rng, 2))
    base = {"statsd": "stats.pdistinct.",
            "conf": prefix + "." if prefix else ""}[mode]
    for key in keys:
        for item in keys[key]:
            for _ in range(rng.choice((1, 1, 2))):
                processor.process("%s:%s|pd" % (key, item))
                ctx.count("items")
    clock.now += 10
    before = {}
    for quiet in (0, 70, 4000, 90000):
        clock.now += quiet
        found = rig.table(processor.flush(interval=10000))
        for key in keys:
            n = len(keys[key])
            row = {}
            for suffix in NAMES:
                case.check(base + key + suffix in found, "missing",
                           "%s is not reported: %s", base + key + suffix,
                           rep(sorted(found)))
                value, ts = found[base + key + suffix]
                case.check(ts == int(clock.now), "timestamp",
                           "%s at %r, not %r", suffix, ts, int(clock.now))
                row[suffix] = value
            ok = n / 2.6 - 2 <= row[".count"] <= n * 2.6 + 3
            case.check(ok, "accuracy", "%d items of %s are %s", n, key, row)
            past = {0: 0, 70: 1, 4000: 2, 90000: 3}[quiet]
            for i, (suffix, span) in enumerate(WINDOWS):
                if i < past:
                    case.check(row[suffix] <= 1, "window", "%s is %r with "
                               "nothing seen in it", suffix, row[suffix])
                else:
                    case.check(row[suffix] == row[".count"], "window",
                               "%s is %r, not %r", suffix, row[suffix],
                               row[".count"])
            case.check(before.get(key, row[".count"]) == row[".count"],
                       "total", "the total changed without items")
            before[key] = row[".count"]
    case.signature(mode, prefix, sorted((k, len(v))
                                        for k, v in keys.items()))


def run(ctx):
    ctx.scenario("windows", windows, ctx.n(22, 500))
    ctx.scenario("accuracy", accuracy, ctx.n(4, 24))
    ctx.scenario("spread", spread, ctx.n(1, 10))
    ctx.scenario("lots", lots, ctx.n(1, 6))
    ctx.scenario("long", long_items, ctx.n(6, 60))
    ctx.scenario("alike", alike, ctx.n(4, 40))
    ctx.scenario("daemon", daemon, ctx.n(6, 80))
    ctx.require("windows_compared", 200)
    ctx.require("estimates", 20)
    ctx.require("scattered_estimates", 100)
    ctx.require("items", 8000)
    ctx.require("long_items", 150)
    ctx.require("alike_items", 200)
