from gen import (random_session, sized_window, many_keys, long_run,
                 spelled_values, Workload, finish, dyadic)
from vlib import sizes

RULE = """Histories of duration messages (mixed with the other types) and
flushes of a configurable processor under a virtual clock, with messages
injected between the datapoints of a flush; windows of 0 to 4200 durations.
Each window is recomputed from the arrivals (percentiles up to 1028 of them;
above, the bounds and the order). Non-trivial: at least one message arrived
and one ledger was judged; distinct by the events of the case."""


def shapes(case):
    """Windows of one key, one after the other: sorted, reversed, equal,
    clustered, tiny and huge durations."""
    rng = case.rng
    w = Workload(case, "conf", ("ms",), "p", nkeys=1)
    key = w.keys["ms"][0]
    for _ in range(rng.randrange(3, 12)):
        n = rng.choice((0, 1, 2, 3, 5, 9, 10, 11, 50, 99, 100, 101, 200,
                        rng.choice(sizes(1, 300))))
        shape = rng.randrange(6)
        base = rng.choice((0.0, 1.0, 1000.0, 65536.0))
        for i in range(n):
            v = {0: base + i, 1: base + n - i, 2: base,
                 3: base + rng.choice((0, 0, 0, 500)),
                 4: base + rng.random() * 1000,
                 5: dyadic(rng, "ms")}[shape]
            w.session.message("ms", key, v, text="%s:%r|ms" % (key, v))
        w.clock.advance(rng.choice((0, 0.5, 1, 10, 60)))
        w.session.flush(10000)
    finish(case, w)
    case.trivial = w.session.messages == 0


def run(ctx):
    ctx.scenario("random", random_session("conf", ("ms",)), ctx.n(140))
    ctx.scenario("shapes", shapes, ctx.n(60))
    f, n = sized_window("conf", "ms", ctx.n(2100, 20000))
    ctx.scenario("window", f, n)
    f, n = many_keys("conf", "ms", ctx.n(300, 3000),
            ctx.n(5, 1000))
    ctx.scenario("keys", f, n)
    ctx.scenario("long", long_run("conf", ("ms",), ctx.n(120, 700)),
                 ctx.n(2, 20))
    ctx.scenario("spellings", spelled_values("conf", "ms", negative=False),
                 ctx.n(4))
    ctx.require("messages", 5000)
    ctx.require("ledgers_judged", 1000)
    ctx.require("messages_during_a_flush", 100)
