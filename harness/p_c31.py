# -*- coding: utf-8 -*-
import sys
import types
from collections import deque

import vnet
from gen import key_pool, dyadic, RATES
from oracle import fmt
from rig import processor
from vlib import FakeClock, rep

RULE = """The same population of metrics is fed and flushed over and over, in
both modes, plugins and a router with rules included, with malformed messages
and unknown types among them; after warming up, the objects reachable from the
processor are counted and must not become more. The same behind the listeners,
with connections that come and go, and for a client's metrics. Non-trivial: at least two
counts were compared; distinct by the events of the case."""

ATOMS = (int, long, float, complex, str, unicode, bool, type(None),
         types.BuiltinFunctionType, types.ModuleType, type, types.ClassType)


def statics():
    """What the modules and classes of the daemon hold."""
    found = []
    for name, module in sorted(sys.modules.items()):
        if module is None or not name.startswith(("txstatsd.",
                                                  "twisted.plugins.")):
            continue
        if ".tests" in name:
            continue
        for value in list(vars(module).values()):
            if isinstance(value, (type, types.ClassType)):
                if str(value.__module__) == name:
                    found.extend(list(vars(value).values()))
            else:
                found.append(value)
    return [v for v in found if isinstance(v, (
        dict, list, set, deque, types.FunctionType)) or
        type(v).__module__.startswith(("txstatsd.", "twisted.plugins."))]


def census(root, ignore=()):
    """Objects reachable from root, the closures of its functions and the
    state of the daemon's modules and classes included: how many, by type."""
    seen = {}
    keep = []
    counts = {}
    stack = [root] + statics()
    while stack:
        obj = stack.pop()
        if isinstance(obj, ATOMS):
            continue
        if isinstance(obj, types.MethodType):
            stack.append(obj.im_self)
            stack.append(obj.im_func)
            continue
        if isinstance(obj, types.FunctionType) and not (
                obj.__module__ or "").startswith(("txstatsd.",
                                                  "twisted.plugins.")):
            continue
        if id(obj) in seen or any(obj is i for i in ignore):
            continue
        seen[id(obj)] = True
        keep.append(obj)
        name = type(obj).__name__
        size = 1
        if isinstance(obj, dict):
            size = 1 + len(obj)
            for k, v in obj.items():
                stack.append(k)
                stack.append(v)
        elif isinstance(obj, (list, tuple, set, frozenset, deque)):
            size = 1 + len(obj)
            stack.extend(list(obj))
        elif isinstance(obj, types.FunctionType):
            stack.append(obj.func_defaults)
            stack.append(obj.__dict__)
            for cell in obj.func_closure or ():
                try:
                    stack.append(cell.cell_contents)
                except ValueError:
                    pass
        elif hasattr(obj, "__dict__"):
            stack.append(obj.__dict__)
        counts[name] = counts.get(name, 0) + size
    return counts


TYPES = ("c", "ms", "g", "m", "sli")


def traffic(case, entry, keys, n, items):
    rng = case.rng
    for _ in range(n):
        kind = rng.choice(TYPES + ("junk",))
        if kind == "junk":
            entry.process(rng.choice((
                "junk%d" % rng.randrange(1 << 30),
                "bad.%d:x|c" % rng.randrange(1 << 30),
                "bad.%d:x|ms" % rng.randrange(1 << 30),
                "bad.%d:x|g" % rng.randrange(1 << 30),
                "bad.%d:nan|m" % rng.randrange(1 << 30),
                "bad.%d:x|sli" % rng.randrange(1 << 30),
                "bad.%d:y|c|@0" % rng.randrange(1 << 30),
                "t:1|zz%d" % rng.randrange(1 << 30))))
            case.ctx.count("malformed_messages")
            continue
        key = rng.choice(keys[kind])
        if kind == "sli":
            entry.process("%s:%s|sli" % (key, rng.choice(
                (rng.randrange(10), "error", "error|2"))))
        else:
            entry.process("%s:%s|%s" % (key, fmt(rng, dyadic(rng, kind)),
                                        kind))
        case.ctx.count("messages")
    if rng.random() < 0.5 and keys["pd"]:
        entry.process("%s:item%d|pd" % (rng.choice(keys["pd"]),
                                        rng.randrange(1 << 30)))


def bounded(mode, routed):
    def scenario(case):
        rng = case.rng
        clock = FakeClock()
        p = processor(mode, clock, "")
        entry = p
        if routed:
            from txstatsd.server.router import Router
            entry = Router(p, "any => rewrite ^old new\n"
                           "metric_type zz => drop\n"
                           "path_like *dup* => rewrite $ .copy dup\n")
        keys = {}
        for kind in TYPES + ("pd",):
            keys[kind] = ["%s.%s" % (k, kind) for k in key_pool(
                rng, rng.choice((1, 3)), kind)]
        if rng.random() < 0.6:
            keys["pd"] = []
        rounds = rng.choice((4, 8, 30))
        burst = rng.choice((10, 60))

        def settle():
            # Everything idle, then flushed: what stays is per metric.
            for kind in TYPES:
                for key in keys[kind]:
                    entry.process("%s:1|%s" % (key, kind))
            for key in keys["pd"]:
                entry.process("%s:x|pd" % key)
            for _ in range(2):
                clock.advance(10)
                for datapoint in entry.flush(interval=10000):
                    pass
            return census(entry, (clock,))

        def round_():
            for _ in range(rounds):
                traffic(case, entry, keys, burst, None)
                clock.advance(rng.choice((1, 10)))
                for datapoint in entry.flush(interval=10000):
                    pass
                case.ctx.count("flushes")

        round_()
        first = settle()
        for _ in range(2):
            round_()
            later = settle()
            grown = dict((name, (first.get(name, 0), n))
                         for name, n in later.items()
                         if n > first.get(name, 0))
            case.check(sum(later.values()) <= sum(first.values()), "growth",
                       "%s mode: after %d more flushes of the same metrics "
                       "the processor holds more objects: %s", mode, rounds,
                       rep(grown))
            case.ctx.count("censuses_compared")
            case.ctx.maximum("objects_counted", sum(later.values()))
        case.note(mode, routed, rounds, burst, sorted(keys.items()))
        case.signature(mode, routed, rounds, burst, sorted(keys.items()))
    return scenario


def long_window(mode):
    """A window of very many durations leaves as much behind as a small
    one."""
    def scenario(case):
        rng = case.rng
        clock = FakeClock()
        p = processor(mode, clock, "", with_plugins=False)

        def window(n):
            for i in range(n):
                p.process("t:%d|ms" % i)
                if i % 7 == 0:
                    p.process("m:1|m")
                    p.process("g:%d|g" % i)
                    p.process("n:%d|c" % i)
            case.ctx.count("messages", n)
            for _ in range(2):
                clock.advance(10)
                for datapoint in p.flush(interval=10000):
                    pass
            return sum(census(p, (clock,)).values())

        small = window(10)
        big = window(rng.choice((2000, 5000)))
        case.check(big <= small, "growth", "%s mode: %d objects after a small "
                   "window, %d after a large one", mode, small, big)
        case.ctx.count("censuses_compared")
    return scenario


def listening(mode):
    """Connections come and go, datagrams arrive: nothing of them stays."""
    def scenario(case):
        from txstatsd.server.protocol import (
            StatsDServerProtocol, StatsDTCPServerFactory)
        rng = case.rng
        reactor = vnet.install()
        reactor.reset()
        clock = FakeClock()
        p = processor(mode, clock, "")
        udp = StatsDServerProtocol(p, "ping", "pong")
        factory = StatsDTCPServerFactory(p, "ping", "pong")
        uport = reactor.listenUDP(1, udp)
        tport = reactor.listenTCP(1, factory)
        serial = [0]

        def round_(n):
            conns = []
            for _ in range(n):
                serial[0] += 1
                peer = ("10.%d.%d.1" % (serial[0] >> 8, serial[0] & 255),
                        1024 + serial[0])
                uport.deliver(rng.choice(("a:1|c", "b:2|ms", "ping", "junk")),
                              peer)
                conn = tport.open(peer)
                conns.append(conn)
                for _ in range(rng.randrange(3)):
                    conn.deliver(rng.choice((
                        "c:1|c\r\n", "d:3|g\r\ne:x", "ping\r\n", "x:y" * 20,
                        "bad\r\n", "f:1|m\r")))
                if rng.random() < 0.3:
                    reactor.turn()
                if rng.random() < 0.7:
                    conns.pop(rng.randrange(len(conns))).lost(
                        rng.choice(reasons)())
                case.ctx.count("connections")
            for conn in conns:
                conn.lost(rng.choice(reasons)())
            for text in settled:
                p.process(text)
            for _ in range(3):
                reactor.turn()
            uport.sent = []
            for _ in range(2):
                clock.advance(10)
                for datapoint in p.flush(interval=10000):
                    pass
            return census([p, udp, factory], (clock, reactor, uport, tport))

        from twisted.internet import error
        reasons = (error.ConnectionDone, error.ConnectionLost)
        settled = ("a:1|c", "b:1|ms", "c:1|c", "d:1|g", "f:1|m")
        round_(rng.choice((5, 20)))
        first = round_(rng.choice((5, 20)))
        later = round_(rng.choice((50, 150)))
        case.check(sum(later.values()) <= sum(first.values()), "growth",
                   "%s mode: after more connections the listeners hold more "
                   "objects: %s", mode, rep(dict(
                       (name, (first.get(name, 0), n))
                       for name, n in later.items()
                       if n > first.get(name, 0))))
        case.ctx.count("censuses_compared")
        case.note(mode, serial[0], sorted(first.items()))
        case.signature(mode, serial[0])
    return scenario


def sender(case):
    """Nothing of what it sent stays with a Twisted client, whatever became
    of its transports."""
    from twisted.internet import error
    from txstatsd.client import StatsDClientProtocol, TwistedStatsDClient
    rng = case.rng
    reactor = vnet.install()
    reactor.reset()
    named = rng.random() < 0.5
    client = TwistedStatsDClient.create(
        "stats.example" if named else "10.0.0.1", 8125)
    protocol = StatsDClientProtocol(client)
    ports = [reactor.listenUDP(0, protocol)]
    if named:
        for _ in range(5):
            client.write("early:1|c")
        reactor.lookups[0][1].callback("192.0.2.1")
    answers = []

    def round_(n):
        for i in range(n):
            how = rng.randrange(4)
            data = "k%d:%d|c" % (rng.randrange(9), rng.randrange(10 ** 9))
            if how == 0:
                client.write(data)
            elif how == 1:
                client.write(data, answers.append)
            elif how == 2:
                client.write(data, lambda result, i=i: answers.append(i))
            else:
                client.write(data, None)
            case.ctx.count("datagrams_sent")
            if rng.random() < 0.05:
                reactor.turn()
            if rng.random() < 0.02:
                # The transport goes, messages wait for the next.
                for _ in range(2):
                    reactor.turn()
                ports[-1].stopListening()
                reactor.turn()
                for i in range(rng.choice((0, 3))):
                    client.write("waits%d:1|c" % rng.randrange(10 ** 9))
                ports.append(reactor.listenUDP(0, protocol))
        for _ in range(4):
            reactor.turn()
        for port in ports:
            port.sent = []
        del answers[:]
        return census([client, protocol], [reactor, answers] + ports)

    round_(rng.choice((5, 100)))
    first = round_(rng.choice((5, 100)))
    later = round_(rng.choice((300, 900)))
    case.check(sum(later.values()) <= sum(first.values()), "growth",
               "after more messages the client holds more objects: %s",
               rep(dict((name, (first.get(name, 0), n))
                        for name, n in later.items()
                        if n > first.get(name, 0))))
    case.ctx.count("censuses_compared")
    case.note(named, sorted(first.items()))
    case.signature(named, first, later)


def client(extended):
    """What a client of the library keeps depends on the names it uses."""
    def scenario(case):
        from txstatsd.metrics.metrics import Metrics
        from txstatsd.metrics.extendedmetrics import ExtendedMetrics
        rng = case.rng

        class Connection(object):
            def write(self, data):
                pass

        connection = Connection()
        metrics = (ExtendedMetrics if extended else Metrics)(
            connection, rng.choice((None, "ns")))
        names = ["n%d" % i for i in range(rng.choice((1, 4)))]

        def call(name, how):
            if how == "gauge":
                metrics.gauge(name, rng.random())
            elif how == "meter":
                metrics.meter(name, rng.randrange(9))
            elif how == "increment":
                metrics.increment(name, rng.randrange(9))
            elif how == "decrement":
                metrics.decrement(name, rng.randrange(9))
            elif how == "timing":
                metrics.timing(name, rng.random())
            elif how == "reset":
                metrics.reset_timing()
                metrics.timing(name)
            elif how == "sli":
                metrics.sli(name, rng.random(), rng.choice((None, 5)))
            elif how == "sli_error":
                metrics.sli_error(name)
            elif how == "report":
                metrics.report(name, str(rng.random()), "pd")
            case.ctx.count("client_calls")

        ways = ("gauge", "meter", "increment", "decrement", "timing",
                "reset", "sli", "sli_error", "report")
        for name in names:
            for how in ways:
                call(name, how)
        first = sum(census(metrics, (connection,)).values())
        for _ in range(rng.choice((300, 1500))):
            call(rng.choice(names), rng.choice(ways))
        later = sum(census(metrics, (connection,)).values())
        case.check(later <= first, "growth", "the client holds %d objects "
                   "instead of %d after more calls", later, first)
        case.ctx.count("censuses_compared")
        case.note(extended, names)
        case.signature(extended, names, first)
    return scenario


def run(ctx):
    vnet.install()
    for extended in (False, True):
        ctx.scenario("client-%s" % ("extended" if extended else "plain"),
                     client(extended), ctx.n(4))
    ctx.scenario("sender", sender, ctx.n(6))
    for mode in ("statsd", "conf"):
        ctx.scenario("bounded-" + mode, bounded(mode, False), ctx.n(10))
        ctx.scenario("routed-" + mode, bounded(mode, True), ctx.n(8))
        ctx.scenario("listening-" + mode, listening(mode), ctx.n(4))
        ctx.scenario("window-" + mode, long_window(mode), ctx.n(2))
    ctx.require("messages", 5000)
    ctx.require("malformed_messages", 1000)
    ctx.require("connections", 300)
    ctx.require("client_calls", 1500)
    ctx.require("datagrams_sent", 1500)
    ctx.require("censuses_compared", 40)
