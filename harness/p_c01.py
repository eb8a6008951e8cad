from gen import (random_session, sized_window, many_keys, long_run,
                 spelled_values, Workload, finish, dyadic, RATES)
from vlib import close

RULE = """Histories of counter messages (plain and sampled, mixed with the
other types) and flushes of a StatsD-compliant processor under a virtual
clock, with messages injected between the datapoints of a flush; window sizes,
key counts, values and intervals include every integer of the sources and its
neighbours. A ledger per key accounts for each datapoint. Non-trivial: at
least one message arrived and one ledger was judged; distinct by the events
of the case."""


def overlapping(case):
    """Two flushes in progress at once (a slow one is overtaken): whatever
    the order, the counts still add up."""
    rng = case.rng
    w = Workload(case, "statsd", ("c",), nkeys=4)
    sums, reported = {}, {}
    # Powers of two, so that each count tells which messages it holds.
    bits = rng.random() < 0.6
    sent = {}

    def send():
        key = rng.choice(w.keys["c"])
        value = dyadic(rng, "c")
        if bits:
            if sent.get(key, 0) > 50:
                return
            value = 1 << sent.get(key, 0)
            sent[key] = sent.get(key, 0) + 1
        w.processor.process("%s:%r|c" % (key, value))
        sums[key] = sums.get(key, 0) + value
        case.note("recv", key, value)
        case.ctx.count("messages")

    def take(generator):
        for name, value, timestamp in generator:
            if name.startswith("stats_counts."):
                key = name[len("stats_counts."):]
                before = reported.get(key, 0)
                if bits:
                    case.check(value == int(value) and value >= 0 and
                               not int(value) & int(before) and
                               int(value) | sums.get(key, 0) ==
                               sums.get(key, 0), "counter-once",
                               "%r: %r arrived in powers of two, %r was "
                               "reported in overlapping flushes, now %r",
                               key, sums.get(key), before, value)
                    case.ctx.count("overlapping_counts")
                reported[key] = before + value
                case.note("emit", name, value)
            return True
        return False

    for _ in range(rng.randrange(1, 20)):
        send()
    live = []
    for _ in range(rng.randrange(10, 60)):
        if rng.random() < 0.2 and len(live) < 3:
            w.clock.advance(1)
            live.append(w.processor.flush())
            case.ctx.count("flushes")
        if live and rng.random() < 0.7:
            generator = rng.choice(live)
            if not take(generator):
                live.remove(generator)
        else:
            send()
    while live:
        generator = rng.choice(live)
        if not take(generator):
            live.remove(generator)
    last = w.processor.flush()
    while take(last):
        pass
    for key in sums:
        case.check(close(sums[key], reported.get(key, 0.0)),
                   "counter-conservation",
                   "%r: %r arrived, %r was reported over overlapping flushes"
                   % (key, sums[key], reported.get(key)))
    case.ctx.count("overlapping_histories")
    case.signature(case.log[:60])


def sampled(case):
    """Every spelling of a sample rate scales its own message only."""
    rng = case.rng
    w = Workload(case, "statsd", ("c",), nkeys=2)
    for _ in range(rng.randrange(3, 30)):
        if rng.random() < 0.6:
            digits = rng.randrange(1, 8)
            number = rng.randrange(1, 10 ** digits)
            text = "0." + str(number).zfill(digits)
            rate = (text, float(text))
        else:
            rate = rng.choice(RATES + [None])
        key = rng.choice(w.keys["c"])
        w.session.message("c", key, dyadic(rng, "c"), rate)
        if rng.random() < 0.3:
            w.clock.advance(10)
            w.session.flush(rng.choice((1000, 10000, 60000)))
    w.clock.advance(10)
    w.session.flush()
    finish(case, w)


def run(ctx):
    ctx.scenario("random", random_session("statsd", ("c",)), ctx.n(260))
    ctx.scenario("sampled", sampled, ctx.n(80))
    ctx.scenario("overlapping", overlapping, ctx.n(400))
    f, n = sized_window("statsd", "c", ctx.n(10100, 20000))
    ctx.scenario("window", f, n)
    f, n = many_keys("statsd", "c", ctx.n(2100, 10100),
            ctx.n(25, 1000))
    ctx.scenario("keys", f, n)
    ctx.scenario("long", long_run("statsd", ("c",), ctx.n(160, 700)),
                 ctx.n(3, 20))
    ctx.scenario("spellings", spelled_values("statsd", "c"), ctx.n(4))
    ctx.require("messages", 5000)
    ctx.require("ledgers_judged", 2000)
    ctx.require("messages_during_a_flush", 200)
    ctx.require("overlapping_histories", 5)
    ctx.require("overlapping_counts", 200)
