from gen import (random_session, sized_window, many_keys, long_run,
                 spelled_values, Workload, finish, dyadic)

RULE = """Histories of duration messages (mixed with the other types) and
flushes of a StatsD-compliant processor under a virtual clock, with messages
injected between the datapoints of a flush; window sizes 1 to 10000 (every
integer of the sources and its neighbours), percentiles 1 to 100. Each window
is recomputed from the arrivals. Non-trivial: at least one message arrived and
one ledger was judged; distinct by the events of the case."""

PERCENTS = (90, 90, 90, 50, 75, 95, 99, 10, 1, 100, 33, 66,
            99.9, 99.5, 12.5)


def overlapping(case):
    """A slow flush is overtaken by the next: no duration is lost or
    reported twice."""
    rng = case.rng
    w = Workload(case, "statsd", ("ms",), nkeys=3)
    arrived, reported = {}, {}

    def send():
        key = rng.choice(w.keys["ms"])
        w.processor.process("%s:%r|ms" % (key, dyadic(rng, "ms")))
        arrived[key] = arrived.get(key, 0) + 1
        case.note("recv", key)
        case.ctx.count("messages")

    def take(generator):
        for name, value, timestamp in generator:
            if name.startswith("stats.timers.") and name.endswith(".count"):
                key = name[len("stats.timers."):-len(".count")]
                reported[key] = reported.get(key, 0) + value
                case.note("emit", name, value)
            return True
        return False

    for _ in range(rng.randrange(1, 20)):
        send()
    live = []
    for _ in range(rng.randrange(10, 60)):
        if rng.random() < 0.2 and len(live) < 3:
            w.clock.advance(1)
            live.append(w.processor.flush())
        if live and rng.random() < 0.7:
            generator = rng.choice(live)
            if not take(generator):
                live.remove(generator)
        else:
            send()
    while live:
        generator = rng.choice(live)
        if not take(generator):
            live.remove(generator)
    last = w.processor.flush()
    while take(last):
        pass
    for key in arrived:
        case.check(arrived[key] == reported.get(key, 0), "timer-count",
                   "%r: %d durations arrived, %r were reported over "
                   "overlapping flushes", key, arrived[key],
                   reported.get(key))
    case.ctx.count("overlapping_histories")
    case.signature(case.log[:60])


def thresholds(case):
    """Small windows at every percentile."""
    rng = case.rng
    w = Workload(case, "statsd", ("ms",), nkeys=1)
    key = w.keys["ms"][0]
    for n in range(1, 31):
        for _ in range(n):
            w.session.message("ms", key, dyadic(rng, "ms"))
        w.clock.advance(1)
        w.session.flush(1000, rng.randrange(1, 101))
    finish(case, w)


def large(case):
    """More durations than any number of the sources."""
    rng = case.rng
    w = Workload(case, "statsd", ("ms",), nkeys=1)
    key = w.keys["ms"][0]
    for i in range(rng.choice((15000, 25000))):
        v = float(rng.randrange(1 << 16))
        w.session.message("ms", key, v, text="%s:%r|ms" % (key, v))
    w.clock.advance(10)
    w.session.flush(10000, rng.choice((90, 90, 80)))
    finish(case, w)


def run(ctx):
    ctx.scenario("random", random_session("statsd", ("ms",)), ctx.n(160))
    ctx.scenario("percents", random_session("statsd", ("ms",), PERCENTS),
                 ctx.n(60))
    ctx.scenario("thresholds", thresholds, ctx.n(12))
    ctx.scenario("overlapping", overlapping, ctx.n(250))
    f, n = sized_window("statsd", "ms", ctx.n(10100, 20000))
    ctx.scenario("window", f, n)
    f, n = sized_window("statsd", "ms", ctx.n(2100, 20000), ctx.n(10, 400),
                        (99.9, 99.5, 99.1, 12.5, 0.5))
    ctx.scenario("fractions", f, n)
    ctx.scenario("large", large, ctx.n(1, 10))
    f, n = many_keys("statsd", "ms", ctx.n(1100, 10100),
            ctx.n(8, 1000))
    ctx.scenario("keys", f, n)
    ctx.scenario("long", long_run("statsd", ("ms",), ctx.n(160, 700)),
                 ctx.n(2, 20))
    ctx.scenario("spellings", spelled_values("statsd", "ms"), ctx.n(4))
    ctx.require("messages", 5000)
    ctx.require("ledgers_judged", 1000)
    ctx.require("messages_during_a_flush", 200)
    ctx.require("overlapping_histories", 5)
