# -*- coding: utf-8 -*-
import math

from oracle import percentile
from vlib import close, rep, sizes

RULE = """Streams of values of many shapes and lengths around the size of the
reservoir into histograms and both kinds of sample, with clears, pauses across
the rescaling of the decaying one, and repetition enough to measure how often
each part of the stream is kept: statistics against a plain computation over
all values, the sample against the stream, the share of old and new values
against the promised weights. Non-trivial: values were recorded; distinct by
the stream."""


class Clock(object):
    def __init__(self, now=10000.0):
        self.now = now

    def __call__(self):
        return self.now


def stream(rng, n):
    kind = rng.randrange(9)
    if kind == 0:
        return [float(i) for i in range(n)]
    if kind == 1:
        return [float(n - i) for i in range(n)]
    if kind == 2:
        return [rng.choice((3.5, 0.0, 7))] * n
    if kind == 3:
        return [rng.random() * 100 for _ in range(n)]
    if kind == 4:
        return [1e9 + rng.randrange(4) for _ in range(n)]
    if kind == 5:
        return [rng.normalvariate(0, 10) for _ in range(n)]
    if kind == 6:
        return [rng.randrange(-50, 50) for _ in range(n)]
    if kind == 7:
        return ([0.0] * n + [1e6])[-n:] if n else []
    return [-float(rng.randrange(1, 9)) for _ in range(n)]


def length(rng, limit):
    return rng.choice((0, 1, 2, 3, rng.randrange(1, 60),
                       rng.choice(sizes(1, limit))))


def histogram(case):
    from txstatsd.metrics.histogrammetric import HistogramMetricReporter
    rng = case.rng
    ctx = case.ctx
    uniform = rng.random() < 0.6
    if uniform:
        h = HistogramMetricReporter.using_uniform_sample()
    else:
        h = HistogramMetricReporter.using_exponentially_decaying_sample()
    for window in range(rng.randrange(1, 4)):
        n = length(rng, 2100)
        if rng.random() < 0.06:
            n = rng.choice((2500, 5000, 9000))
        values = stream(rng, n)
        for v in values:
            h.update(v)
        ctx.count("values", n)
        text = "%d values %s" % (n, rep(values[:12]))
        kept = list(h.get_values())
        case.check(len(kept) == min(n, 1028), "size", "%d kept of %s",
                   len(kept), text)
        left = {}
        for v in values:
            left[v] = left.get(v, 0) + 1
        for v in kept:
            left[v] = left.get(v, 0) - 1
            case.check(left[v] >= 0, "member", "%r is kept more often than "
                       "it came (%s)", v, text)
        case.check(h.count == n, "count", "count is %r of %s", h.count, text)
        low = min(values) if n else 0.0
        high = max(values) if n else 0.0
        mean = math.fsum(values) / n if n else 0.0
        dev = math.sqrt(math.fsum((v - mean) ** 2 for v in values) /
                        (n - 1)) if n > 1 else 0.0
        scale = max([1.0] + [abs(v) for v in values])
        case.check(h.min() == low and h.max() == high, "extremes",
                   "min %r, max %r of %s", h.min(), h.max(), text)
        case.check(abs(h.mean() - mean) <= 1e-9 * scale, "mean",
                   "mean is %r, not %r of %s", h.mean(), mean, text)
        case.check(abs(h.std_dev() - dev) <= 1e-6 * max(1.0, dev) +
                   1e-9 * scale, "stddev", "standard deviation is %r, not "
                   "%r of %s", h.std_dev(), dev, text)
        ps = [0.5, 0.75, 0.95, 0.98, 0.99, 0.999, rng.random(), 0.0, 1.0]
        got = list(h.percentiles(*ps))
        ordered = sorted(kept)
        case.check(len(got) == len(ps), "percentile", "%d percentiles",
                   len(got))
        for p, g in zip(ps, got):
            want = percentile(ordered, p)
            case.check(abs(g - want) <= 1e-9 * scale, "percentile",
                       "the %r percentile is %r, not %r of %s", p, g, want,
                       text)
        bins = h.histogram()
        if n:
            # Sturges' rule; the sample falls into equal ranges.
            count = int(math.ceil(1 + math.log(n, 2)))
            exact = 1 + math.log(n, 2)
            case.check(len(bins) == count or (
                abs(exact - round(exact)) < 1e-9 and
                len(bins) - round(exact) in (0, 1)), "bins",
                "%d bins for %s", len(bins), text)
            case.check(sum(bins) == len(kept), "histogram",
                       "%r in the bins, %d kept of %s", sum(bins),
                       len(kept), text)
            a, b = float(min(kept)), float(max(kept))
            if b > a:
                want = [0] * len(bins)
                edge = False
                for v in kept:
                    pos = (v - a) / (b - a) * len(bins)
                    if v != b and v != a and (
                            abs(pos - round(pos)) < 1e-9 * len(bins)):
                        edge = True
                    want[min(int(pos), len(bins) - 1)] += 1
                if not edge:
                    case.check([int(x) for x in bins] == want, "histogram",
                               "the histogram is %s, not %s", rep(bins),
                               rep(want))
            else:
                case.check(max(bins) == len(kept), "histogram",
                           "equal values in %s", rep(bins))
        else:
            case.check(not any(bins), "histogram", "%s of no values",
                       rep(bins))
        ctx.count("windows")
        case.note(n, values[:5])
        h.clear()
    case.trivial = False
    case.signature(uniform, case.log)


def reservoir(case):
    """Size and content after every step."""
    from txstatsd.stats.uniformsample import UniformSample
    from txstatsd.stats.exponentiallydecayingsample import (
        ExponentiallyDecayingSample)
    rng = case.rng
    size = rng.choice((1, 2, 3, 10, 50, 100))
    clock = Clock()
    decaying = rng.random() < 0.6
    if decaying:
        sample = ExponentiallyDecayingSample(
            size, rng.choice((0.015, 0.1, 0.5, 0.99, 0.0)),
            wall_time=clock)
    else:
        sample = UniformSample(size)
    for window in range(rng.randrange(1, 4)):
        seen = 0
        for _ in range(rng.randrange(0, 4 * size + 10)):
            # Every value comes once, and none of them is zero.
            seen += 1
            if decaying and rng.random() < 0.2:
                stamp = clock.now - rng.choice((0, 1, 30))
                sample.update(seen, stamp)
            else:
                sample.update(seen)
            if rng.random() < 0.15:
                clock.now += rng.choice((0.1, 1, 100, 599, 600, 601, 5000,
                                         100000))
            kept = list(sample.get_values())
            case.check(len(kept) == min(seen, size) and
                       sample.size() == len(kept), "size",
                       "%d kept (size() %r) of %d, room for %d", len(kept),
                       sample.size(), seen, size)
            case.check(len(set(kept)) == len(kept) and
                       all(1 <= v <= seen for v in kept), "member",
                       "kept %s of 1..%d", rep(kept), seen)
            case.ctx.count("steps")
        sample.clear()
        case.check(sample.size() == 0 and not sample.get_values(), "clear",
                   "%r left after clear", sample.get_values())
    case.signature(decaying, size, seen)


def uniformity(case):
    """Each value of the stream is kept with the same probability, whatever
    its place."""
    from txstatsd.stats.uniformsample import UniformSample
    rng = case.rng
    size, n, times = rng.choice(((10, 50, 500), (1, 10, 2500),
                                 (40, 60, 250), (5, 200, 350),
                                 (20, 1000, 60)))
    parts = 10
    counts = [0] * parts
    for _ in range(times):
        sample = UniformSample(size)
        for i in range(n):
            sample.update(i)
        for v in sample.get_values():
            counts[v * parts // n] += 1
    case.ctx.count("values", n * times)
    total = size * times
    mean = total / float(parts)
    p = size / float(n)
    spread = math.sqrt(times * (n / parts) * p * (1 - p)) + 1
    case.note(size, n, times, counts)
    for i, c in enumerate(counts):
        case.check(abs(c - mean) <= 6 * spread, "uniform", "the tenths of a "
                   "stream of %d into a reservoir of %d are kept %s times, "
                   "each should about %.0f +- %.0f", n, size, counts, mean,
                   spread)
    # and each slot of the result sees old and new alike
    case.signature(size, n, counts)


def decay(case):
    """The share of new values in the sample is what the weights say: newer
    by t seconds weighs exp(alpha * t) times as much."""
    from txstatsd.stats.exponentiallydecayingsample import (
        ExponentiallyDecayingSample)
    rng = case.rng
    alpha = rng.choice((0.015, 0.005, 0.002, 0.0, 0.1))
    target = rng.choice((0.0, 0.7, 1.5))
    pause = target / alpha if alpha else rng.choice((0.0, 100.0, 5000.0))
    if rng.random() < 0.3:
        # The weights survive the rescaling in between.
        alpha = target / 1300.0
        pause = 1300.0
    size, old, new = 40, 400, 400
    times = 25
    share = 0
    for _ in range(times):
        clock = Clock()
        sample = ExponentiallyDecayingSample(size, alpha, wall_time=clock)
        for i in range(old):
            sample.update(1)
        clock.now += pause / 2
        clock.now += pause / 2
        for i in range(new):
            sample.update(2)
        share += sum(1 for v in sample.get_values() if v == 2)
    w = math.exp(alpha * pause)
    want = w * new / (w * new + old)
    got = share / float(size * times)
    spread = math.sqrt(want * (1 - want) / (size * times))
    case.note(alpha, pause, got, want)
    case.ctx.count("values", times * (old + new))
    case.ctx.count("decays")
    case.check(abs(got - want) <= 6 * spread + 0.01, "decay",
               "after a pause of %r s with alpha %r, %.3f of the sample is "
               "new, not %.3f +- %.3f", pause, alpha, got, want, spread)
    case.signature(alpha, pause, got)


def forgetting(case):
    """After a long time only the new matters, however long it was."""
    from txstatsd.stats.exponentiallydecayingsample import (
        ExponentiallyDecayingSample)
    rng = case.rng
    clock = Clock()
    alpha = rng.choice((0.015, 0.1, 0.99))
    size = rng.choice((10, 100))
    sample = ExponentiallyDecayingSample(size, alpha, wall_time=clock)
    value = 0
    for round in range(rng.randrange(2, 6)):
        value += 1
        for _ in range(3 * size):
            sample.update(value)
        kept = sample.get_values()
        case.check(len(kept) == size and set(kept) == set([value]),
                   "forgetting", "%s kept a long time after the older ones "
                   "(alpha %r)", rep(sorted(set(kept))), alpha)
        clock.now += rng.choice((60.0, 700.0, 86400.0, 1e6)) / alpha
    case.ctx.count("pauses", round)
    case.signature(alpha, size, value)


def run(ctx):
    ctx.scenario("histogram", histogram, ctx.n(140))
    ctx.scenario("reservoir", reservoir, ctx.n(160))
    ctx.scenario("uniformity", uniformity, ctx.n(6, 60))
    ctx.scenario("decay", decay, ctx.n(14, 120))
    ctx.scenario("forgetting", forgetting, ctx.n(40))
    ctx.require("values", 100000)
    ctx.require("windows", 80)
    ctx.require("steps", 4000)
    ctx.require("decays", 10)
