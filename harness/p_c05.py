from gen import (random_session, sized_window, many_keys, long_run,
                 spelled_values, Workload, finish, dyadic, RATES)

RULE = """Histories of counter messages (with and without a sample rate, mixed
with the other types) and flushes of a configurable processor, with messages
injected between the datapoints of a flush. Every flush has to carry one
datapoint per counter seen so far: its last value, truncated. Non-trivial: at
least one message arrived and one ledger was judged; distinct by the events of
the case."""


def truncation(case):
    rng = case.rng
    w = Workload(case, "conf", ("c",), rng.choice(("", "p")), nkeys=2)
    for _ in range(rng.randrange(4, 25)):
        value = rng.choice((
            rng.randrange(-1000, 1000) + rng.choice((0.1, 0.5, 0.9, 0.999)),
            -0.5, 0.5, -0.99, 0.99, -1.5, 1.5, 1e15 + 0.5, -1e15 - 0.5,
            2 ** 31 + 0.5, -(2 ** 31) - 0.5, 2.0 ** 53, 2.0 ** 62, 2.0 ** 70,
            dyadic(rng, "c")))
        w.session.message("c", rng.choice(w.keys["c"]), value,
                          rng.choice((None, None, rng.choice(RATES))))
        w.clock.advance(rng.choice((0, 1, 10)))
        w.session.flush(10000)
    finish(case, w)


def run(ctx):
    ctx.scenario("random", random_session("conf", ("c",)), ctx.n(200))
    ctx.scenario("truncation", truncation, ctx.n(80))
    f, n = sized_window("conf", "c", ctx.n(1100, 9000),
            ctx.n(30, 1000))
    ctx.scenario("window", f, n)
    f, n = many_keys("conf", "c", ctx.n(2100, 10100),
            ctx.n(12, 1000))
    ctx.scenario("keys", f, n)
    ctx.scenario("long", long_run("conf", ("c",), ctx.n(160, 700)),
                 ctx.n(3, 20))
    ctx.scenario("spellings", spelled_values("conf", "c"), ctx.n(5))
    ctx.require("messages", 4000)
    ctx.require("ledgers_judged", 2000)
    ctx.require("messages_during_a_flush", 100)
