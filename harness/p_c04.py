from gen import (random_session, sized_window, many_keys, long_run,
                 spelled_values, Workload, finish)

RULE = """Histories of meter messages (mixed with the other types) and flushes
in both modes under a virtual clock that may stand still, advance by a
fraction of a second or by minutes between two flushes, with messages injected
between the datapoints of a flush. A ledger per meter accounts for each count
and rate. Non-trivial: at least one message arrived and one ledger was judged;
distinct by the events of the case."""


def instants(mode):
    """Flushes within one second, in the second of the first mark, and at
    fractions of a second."""
    def scenario(case):
        rng = case.rng
        w = Workload(case, mode, ("m",), "" if mode == "statsd" else "p",
                     nkeys=2, start=1300000000 + rng.choice(
                         (0.0, 0.001, 0.5, 0.999)))
        for _ in range(rng.randrange(5, 25)):
            for _ in range(rng.randrange(4)):
                w.send("m")
            w.clock.advance(rng.choice((0, 0, 0.001, 0.25, 0.5, 0.999, 1,
                                        1.5, 3)))
            w.session.flush(rng.choice((250, 1000)))
        w.clock.advance(2)
        w.session.flush(1000)
        finish(case, w)
    return scenario


def run(ctx):
    for mode in ("statsd", "conf"):
        ctx.scenario("random-" + mode, random_session(mode, ("m",)),
                     ctx.n(110))
        ctx.scenario("instants-" + mode, instants(mode), ctx.n(60))
        f, n = sized_window(mode, "m", ctx.n(1100, 9000),
                ctx.n(20, 1000))
        ctx.scenario("window-" + mode, f, n)
        f, n = many_keys(mode, "m", ctx.n(1100, 10100),
                ctx.n(8, 1000))
        ctx.scenario("keys-" + mode, f, n)
        ctx.scenario("long-" + mode, long_run(mode, ("m",),
                                              ctx.n(160, 700)),
                     ctx.n(2, 20))
        ctx.scenario("spellings-" + mode,
                     spelled_values(mode, "m", negative=False), ctx.n(4))
    ctx.require("messages", 5000)
    ctx.require("ledgers_judged", 2000)
    ctx.require("messages_during_a_flush", 200)
