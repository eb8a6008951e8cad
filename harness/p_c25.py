# -*- coding: utf-8 -*-
import math

from vlib import close, rep

RULE = """Moving averages (1, 5, 15 minutes and any smoothing constant and
interval) driven by random updates and ticks: the rate after every tick
compared with the weighted sum of all instant rates, computed from the whole
history with compensated sums. Non-trivial: at least two ticks with an update;
distinct by the history."""


def reference(history, alpha):
    """The rate from all instant rates: the first one starts it."""
    n = len(history)
    if not n:
        return 0.0
    terms = [history[0] * (1 - alpha) ** (n - 1)]
    for i in range(1, n):
        terms.append(alpha * history[i] * (1 - alpha) ** (n - 1 - i))
    return math.fsum(terms)


def averages(case):
    from txstatsd.stats.ewma import Ewma
    rng = case.rng
    ctx = case.ctx
    meters = []
    kinds = {"one": 1, "five": 5, "fifteen": 15}
    for name in rng.sample(sorted(kinds), rng.randrange(1, 4)):
        ewma = getattr(Ewma, name + "_minute_ewma")()
        meters.append((name, ewma, 1 - math.exp(-5 / 60.0 / kinds[name]), 5))
    alpha = rng.choice((0.0, 1, 1.0, 0.5, rng.random()))
    interval = rng.choice((1, 5, 60, 0.5, 7))
    meters.append(("%r/%r" % (alpha, interval), Ewma(alpha, interval),
                   float(alpha), interval))
    # Two of a kind share nothing.
    meters.append(("second one", Ewma.one_minute_ewma(),
                   1 - math.exp(-5 / 60.0), 5))
    histories = [[] for _ in meters]
    pending = [0 for _ in meters]
    if rng.random() < 0.5:
        for name, ewma, a, i in meters:
            case.check(ewma.rate == 0, "start", "%s starts at %r", name,
                       ewma.rate)
    ups = 0
    for step in range(rng.choice((3, 20, 100))):
        for i, (name, ewma, a, seconds) in enumerate(meters):
            for _ in range(rng.choice((0, 0, 1, 1, 3))):
                n = rng.choice((0, 1, 3, rng.randrange(10 ** 6),
                                rng.random(), 1e9, -2, -0.5))
                ewma.update(n)
                pending[i] += n
                ups += 1
                if rng.random() < 0.1:
                    before = ewma.rate
                    case.check(close(before, reference(histories[i], a),
                                     1e-6), "update-changes-rate",
                               "%s: %r before the tick", name, before)
        for i, (name, ewma, a, seconds) in enumerate(meters):
            if rng.random() < 0.15:
                continue
            ewma.tick()
            histories[i].append(float(pending[i]) / seconds)
            pending[i] = 0
            wanted = reference(histories[i], a)
            scale = max(abs(h) for h in histories[i])
            case.check(abs(ewma.rate - wanted) <= 1e-9 * scale + 1e-12,
                       "rate", "%s (alpha %r): rate %r after %d ticks, should "
                       "be %r; last instant rates %s", name, a, ewma.rate,
                       len(histories[i]), wanted, rep(histories[i][-8:]))
            ctx.count("ticks")
            if len(histories[i]) > 1:
                low, high = min(histories[i]), max(histories[i])
                case.check(low - 1e-9 * scale <= ewma.rate <=
                           high + 1e-9 * scale, "bounds",
                           "%s: %r is outside of [%r, %r]", name, ewma.rate,
                           low, high)
            case.note(name, ewma.rate)
    ctx.count("updates", ups)
    case.trivial = ups < 2
    case.signature(histories)


def steady(case):
    """A steady rate is reported as it is, then decays as documented."""
    from txstatsd.stats.ewma import Ewma
    rng = case.rng
    for name, minutes in (("one", 1), ("five", 5), ("fifteen", 15)):
        ewma = getattr(Ewma, name + "_minute_ewma")()
        n = rng.randrange(1, 10 ** 6)
        for _ in range(rng.randrange(1, 200)):
            ewma.update(n)
            ewma.tick()
            case.check(close(ewma.rate, n / 5.0), "steady",
                       "%s minutes: %r for %r each 5 s", name, ewma.rate, n)
        # After the time of its name, 1/e is left.
        periods = rng.randrange(1, 4)
        for _ in range(periods * minutes * 12):
            ewma.tick()
        case.check(close(ewma.rate, n / 5.0 * math.exp(-periods), 1e-6),
                   "decay", "%s minutes: %r left of %r after %d minutes",
                   name, ewma.rate, n / 5.0, periods * minutes)
        case.ctx.count("decays")
        case.note(name, n, ewma.rate)
    case.signature(case.log)


def run(ctx):
    ctx.scenario("averages", averages, ctx.n(450))
    ctx.scenario("steady", steady, ctx.n(120))
    ctx.require("ticks", 5000)
    ctx.require("updates", 5000)
    ctx.require("decays", 50)
