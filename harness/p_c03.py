from gen import (random_session, sized_window, many_keys, long_run,
                 spelled_values)

RULE = """Histories of gauge messages (mixed with the other types) and flushes
in both modes under a virtual clock, with messages injected between the
datapoints of a flush, up to 2100 gauges and 160 idle flushes. Every flush has
to carry one datapoint per gauge seen so far: its last value. Non-trivial: at
least one message arrived and one ledger was judged; distinct by the events of
the case."""


def run(ctx):
    for mode in ("statsd", "conf"):
        ctx.scenario("random-" + mode, random_session(mode, ("g",)),
                     ctx.n(220))
        f, n = sized_window(mode, "g", ctx.n(1100, 9000),
                ctx.n(30, 1000))
        ctx.scenario("window-" + mode, f, n)
        f, n = many_keys(mode, "g", ctx.n(2100, 10100),
                ctx.n(12, 1000))
        ctx.scenario("keys-" + mode, f, n)
        ctx.scenario("long-" + mode, long_run(mode, ("g",),
                                              ctx.n(160, 700)),
                     ctx.n(2, 20))
        ctx.scenario("spellings-" + mode, spelled_values(mode, "g"),
                     ctx.n(8))
    ctx.require("messages", 5000)
    ctx.require("ledgers_judged", 2000)
    ctx.require("messages_during_a_flush", 200)
