# -*- coding: utf-8 -*-
import stubs
from vlib import rep

RULE = """Counter readings with keys that appear, disappear, grow, shrink and
readings that fail, wrapped by report_counters; and the statistics of the
carbon clients, incremented at random between reports or by real carbon client
factories that connect, pause, fill up and drop. Each report compared with the
difference of the last two readings (or what was counted since the last
report); sums over a run compared with the totals. Non-trivial: a non-empty
report; distinct by the readings."""


class Oops(Exception):
    pass


def counters(case):
    """report_counters over one source of readings."""
    stubs.install()
    from txstatsd import process
    rng = case.rng
    ctx = case.ctx
    keys = ["k%d" % i for i in range(rng.choice((1, 2, 5, 20)))]
    current = dict((k, rng.choice((0, 0.0, rng.randrange(1000),
                                   rng.random() * 1e6, 2 ** 63)))
                   for k in keys)
    present = set(k for k in keys if rng.random() < 0.7)
    expect_args = rng.choice((((), {}), (("a",), {}), ((), {"prefix": "p"}),
                              ((1, 2), {"x": 3})))
    fail_now = [False]
    seen = []

    def reading(*args, **kwargs):
        "The source."
        case.check((args, kwargs) == expect_args, "arguments",
                   "the function was called with %s instead of %s",
                   rep((args, kwargs)), rep(expect_args))
        seen.append(1)
        if fail_now[0]:
            raise Oops()
        return dict((k, current[k]) for k in present)

    report = process.report_counters(reading, *expect_args[0],
                                     **expect_args[1])
    other_values = [0]
    other = process.report_counters(lambda: {"k0": other_values[0]})
    case.check(report.__name__ == "reading", "name",
               "the wrapper is named %r: the reporting service logs that",
               report.__name__)
    last = None
    other_last = None
    first_of = {}
    total = {}
    for step in range(rng.randrange(3, 40)):
        for k in keys:
            r = rng.random()
            if r < 0.5:
                current[k] += rng.choice((1, 0, 10, rng.random(),
                                          rng.randrange(10 ** 6)))
            elif r < 0.55:
                # A counter that starts again.
                current[k] = rng.choice((0, 0.0, 5))
            elif r < 0.6:
                present.symmetric_difference_update([k])
        if rng.random() < 0.1:
            present.clear()
        fail_now[0] = rng.random() < 0.15
        before = len(seen)
        wanted_reading = dict((k, current[k]) for k in present)
        if rng.random() < 0.3:
            other_values[0] += 7
            got = other()
            wanted = ({} if other_last is None
                      else {"k0": other_values[0] - other_last})
            case.check(got == wanted, "mixed-up", "a second wrapper returned "
                       "%s instead of %s", rep(got), rep(wanted))
            other_last = other_values[0]
        try:
            got = report()
        except Oops:
            case.check(fail_now[0], "raised", "raised without a failure")
            case.note("failed reading")
            ctx.count("failed_readings")
            continue
        case.check(not fail_now[0], "swallowed",
                   "the failure of a reading was swallowed: %s", rep(got))
        case.check(len(seen) == before + 1, "readings",
                   "%d readings for one report", len(seen) - before)
        wanted = {}
        if last is not None:
            for k, v in wanted_reading.items():
                if k in last:
                    wanted[k] = v - last[k]
        case.note("reading", wanted_reading, "reported", got)
        case.check(got == wanted, "difference",
                   "reading %s after %s reported %s instead of %s",
                   rep(wanted_reading), rep(last), rep(got), rep(wanted))
        # What was returned belongs to the caller.
        if rng.random() < 0.3 and got:
            got.clear()
        last = wanted_reading
        ctx.count("reports")
        if wanted:
            ctx.count("nonempty_reports")
    case.trivial = last is None
    case.signature(case.log)


def system_counters(case):
    """The counters the daemon reports, through the service."""
    import vnet
    psutil = stubs.install()
    reactor = vnet.install()
    reactor.reset()
    from txstatsd import process
    from txstatsd.report import ReportingService
    import collections
    rng = case.rng
    ctx = case.ctx
    fields = ("user", "nice", "system", "idle", "iowait", "irq")
    Times = collections.namedtuple("scputimes", fields)
    now = dict((f, rng.randrange(1000) / 8.0) for f in fields)
    psutil.cpu_readings = lambda percpu: Times(**now)
    got = []
    service = ReportingService("host", clock=reactor)
    service.schedule(process.report_counters(process.report_system_stats),
                     60, lambda name, value: got.append((name, value)))
    service.startService()
    started = None
    for _ in range(rng.randrange(2, 12)):
        for f in fields:
            now[f] += rng.choice((0, 0.125, 60, rng.randrange(8000) / 8.0))
        if started is None:
            started = dict(now)
            reactor.advance(60)
            case.check(got == [], "first", "the first reading reported %s",
                       rep(got))
        else:
            reactor.advance(60)
    total = {}
    for name, value in got:
        total[name] = total.get(name, 0) + value
    wanted = dict(("host.sys.cpu." + f, now[f] - started[f]) for f in fields)
    case.check(total == (wanted if got else {}), "sum",
               "the reports add up to %s, the counters grew by %s",
               rep(total), rep(wanted))
    ctx.count("system_reports", len(got))
    case.check(not reactor.failures, "raised", "%s", rep(reactor.failures))
    case.signature(got)
    case.trivial = not got


def stats_random(case):
    """report_client_manager_stats over any content."""
    import vnet
    vnet.install()
    from carbon import instrumentation
    from txstatsd.service import report_client_manager_stats
    rng = case.rng
    ctx = case.ctx
    stats = instrumentation.stats
    stats.clear()
    names = ["destinations.127_0_0_1:%d:%s.%s" % (port, inst, what)
             for port in (2004, 2104)
             for inst in ("None", "a", "b:c")
             for what in ("sent", "attemptedRelays", "fullQueueDrops",
                          "queuedUntilReady")]
    names += ["metricsReceived", "cache.overflow", "a:b", "destination",
              "destinations", "x.destinations.y:1"]
    known = set()
    since = {}
    total = {}
    reported = {}
    for step in range(rng.randrange(2, 25)):
        for _ in range(rng.choice((0, 1, 5, 30))):
            name = rng.choice(names)
            amount = rng.choice((1, 1, 1, 7, 1000))
            if name.endswith("queuedUntilReady") and rng.random() < 0.5:
                # As relayMaxQueueLength: a maximum since the last report.
                instrumentation.max(name, amount)
                if name not in since or since[name] < amount:
                    since[name] = amount
            else:
                instrumentation.increment(name, amount)
                since[name] = since.get(name, 0) + amount
            known.add(name)
        got = report_client_manager_stats()
        wanted = dict((name.replace(":", "_"), since.get(name, 0))
                      for name in known if name.startswith("destinations"))
        case.note("report", got)
        case.check(got == wanted, "report",
                   "reported %s, counted since the last report %s",
                   rep(got), rep(wanted))
        case.check(stats == dict.fromkeys(known, 0), "reset",
                   "after the report the statistics are %s", rep(stats))
        since = dict.fromkeys(known, 0)
        ctx.count("stat_reports")
        ctx.count("stat_values", len(got))
    stats.clear()
    case.signature(case.log)
    case.trivial = not known


def stats_real(case):
    """Real carbon clients: what is reported adds up to what they did."""
    import vnet
    reactor = vnet.install()
    reactor.reset()
    from carbon import instrumentation
    from carbon.conf import settings
    import pickle
    import carbon.client
    # Jython's cPickle takes no keyword arguments.
    carbon.client.pickle = pickle
    from carbon.client import CarbonClientManager
    from carbon.routers import ConsistentHashingRouter
    from txstatsd.service import report_client_manager_stats
    from txstatsd.report import ReportingService
    rng = case.rng
    ctx = case.ctx
    instrumentation.stats.clear()
    old = settings.MAX_QUEUE_SIZE, settings.MAX_DATAPOINTS_PER_MESSAGE
    settings.MAX_QUEUE_SIZE = rng.choice((5, 50, 20000))
    settings.MAX_DATAPOINTS_PER_MESSAGE = rng.choice((1, 7, 1000))
    try:
        manager = CarbonClientManager(ConsistentHashingRouter())
        destinations = [("10.0.0.%d" % (i + 1), 2004 + i,
                         rng.choice((None, "inst%d" % i)))
                        for i in range(rng.randrange(1, 4))]
        for d in destinations:
            manager.startClient(d)
        # Without the signal handler it installs.
        manager.running = 1
        for f in manager.client_factories.values():
            f.startConnecting()
        got = {}
        names = {}
        service = ReportingService("me", clock=reactor)

        def gauge(name, value):
            case.check(":" not in name, "colon", "the name %r would not be "
                       "accepted by the daemon", name)
            if name.endswith("relayMaxQueueLength"):
                got[name] = max(got.get(name, 0), value)
            else:
                got[name] = got.get(name, 0) + value
            names[name] = names.get(name, 0) + 1
        service.schedule(report_client_manager_stats, 10, gauge)
        service.startService()
        attempts = 0
        for step in range(rng.randrange(5, 40)):
            r = rng.random()
            if r < 0.2:
                for c in reactor.connectors:
                    if c.state == "connecting" and rng.random() < 0.7:
                        c.accept()
            elif r < 0.3:
                for c in reactor.connectors:
                    if c.state == "connected" and rng.random() < 0.5:
                        c.factory.connectedProtocol.pauseProducing()
            elif r < 0.4:
                for c in reactor.connectors:
                    if c.state == "connected":
                        c.factory.connectedProtocol.resumeProducing()
            else:
                for _ in range(rng.choice((1, 10, 60))):
                    manager.sendDatapoint("m%d" % rng.randrange(100),
                                          (1.0, attempts))
                    attempts += 1
            reactor.advance(rng.choice((1, 5, 10, 13)))
        reactor.advance(10)
        reactor.advance(10)
        for what in ("attemptedRelays", "sent", "fullQueueDrops"):
            total = sum(v for k, v in got.items() if k.endswith("." + what))
            if what == "attemptedRelays":
                wanted = attempts
            elif what == "fullQueueDrops":
                drops = total
                continue
            else:
                wanted = None
                sent = total
            if wanted is not None:
                case.check(total == wanted, "sum", "%d %s reported of %d",
                           total, what, wanted)
        queued = sum(len(f.queue) for f in manager.client_factories.values())
        case.check(sent + drops + queued == attempts, "conservation",
                   "%d datapoints: %d reported sent, %d dropped, %d queued",
                   attempts, sent, drops, queued)
        prefixes = set("me.destinations." + ("%s:%d:%s" % d).replace(
            ".", "_").replace(":", "_") for d in destinations)
        for name in names:
            case.check(name.rsplit(".", 1)[0] in prefixes, "name",
                       "%r is reported, destinations %s", name,
                       rep(sorted(prefixes)))
        ctx.count("relayed", attempts)
        ctx.count("dropped", drops)
        service.stopService()
        case.signature(sorted(got.items()))
        case.check(not reactor.failures, "raised", "%s",
                   rep(reactor.failures))
    finally:
        (settings.MAX_QUEUE_SIZE, settings.MAX_DATAPOINTS_PER_MESSAGE) = old
        instrumentation.stats.clear()


def run(ctx):
    ctx.assumptions = [
        "psutil is replaced by a stand-in, carbon's clients are real with "
        "their sockets replaced"]
    ctx.scenario("counters", counters, ctx.n(900))
    ctx.scenario("system", system_counters, ctx.n(90))
    ctx.scenario("client-stats", stats_random, ctx.n(225))
    ctx.scenario("carbon-clients", stats_real, ctx.n(90))
    ctx.require("reports", 2000)
    ctx.require("nonempty_reports", 1000)
    ctx.require("failed_readings", 200)
    ctx.require("stat_values", 300)
    ctx.require("relayed", 5000)
    ctx.require("dropped", 20)
