# -*- coding: utf-8 -*-
import vnet
from gen import key_pool
from vlib import rep

RULE = """Datagrams from many addresses and TCP byte streams cut at arbitrary
places, in virtual time on an in-memory network, with monitor messages (and
near misses of them), empty, binary and long ones and failing messages among
them; several connections at once, closed by the
other side at the end or not. What the processor gets and what is written
back is compared with what was sent. Non-trivial: at least one message was
processed; distinct by the events of the case."""


class Sink(object):
    def __init__(self, case):
        self.case = case
        self.got = []
        self.fail_on = set()

    def process(self, message):
        self.got.append(message)
        if message in self.fail_on:
            raise RuntimeError("processing failed")


MONITORS = (("txstatsd ping", "txstatsd pong"), ("a", "b"), ("ping:1|c", "x"),
            ("p\xffng", "\x00pong"), ("ping", ""), (None, None),
            ("txstatsd ping", "txstatsd ping"))


def payload(rng, n, monitor, tcp):
    r = rng.random()
    if r < 0.12 and monitor is not None:
        return monitor
    if r < 0.25 and monitor is not None:
        m = rng.choice((monitor + "\n", " " + monitor, monitor + " ",
                        monitor.upper(), monitor[:-1], monitor + monitor,
                        monitor + "x", "x" + monitor, monitor + "\x00",
                        monitor.title()))
        return "" if m == monitor else m
    if r < 0.3:
        return "".join(chr(rng.randrange(256))
                       for _ in range(rng.randrange(60)))
    if r < 0.33:
        return "k%d:1|c" % n + "x" * rng.choice((1000, 8000, 16000))
    if r < 0.36:
        return rng.choice(("", " ", "\n", "\x00", "\r", "None"))
    if r < 0.42:
        return "a%d:1|c\nb%d:2|c\nc:3|ms" % (n, n)
    return "k%d.%d:%d|%s" % (n, rng.randrange(100), n,
                             rng.choice(("c", "ms", "g", "m")))


def drain(reactor):
    for _ in range(6):
        reactor.turn()


def judge(case, sink, groups, replies):
    """groups: per source, the messages in order. The processor gets each
    exactly once, those of one source in order."""
    wanted = sum(len(g) for g in groups)
    case.check(len(sink.got) == wanted, "delivered",
               "%d messages arrived, %d were processed: %s", wanted,
               len(sink.got), rep([m for m in sink.got if not any(
                   m in g for g in groups)][:4]))
    position = {}
    for i, m in enumerate(sink.got):
        position.setdefault(m, []).append(i)
    taken = {}
    for g in groups:
        for m in g:
            taken[m] = taken.get(m, 0) + 1
    for m, n in taken.items():
        case.check(len(position.get(m, ())) == n, "delivered",
                   "%s arrived %d times and was processed %d times", rep(m),
                   n, len(position.get(m, ())))
    for g in groups:
        last = -1
        for m in g:
            later = [i for i in position[m] if i > last]
            case.check(later, "order", "%s was processed before what the "
                       "same source sent earlier", rep(m))
            last = later[0]


def udp(case):
    from txstatsd.server.protocol import StatsDServerProtocol
    rng = case.rng
    reactor = vnet.install()
    reactor.reset()
    sink = Sink(case)
    monitor, response = rng.choice(MONITORS)
    kwargs = {}
    if monitor is not None:
        kwargs = dict(monitor_message=monitor, monitor_response=response)
    port = reactor.listenUDP(8125, StatsDServerProtocol(sink, **kwargs),
                             maxPacketSize=65535)
    order, replies = [], []
    recent = []
    for n in range(rng.randrange(1, 60)):
        data = payload(rng, n, monitor, False)
        addr = ("10.0.%d.%d" % (rng.randrange(3), rng.randrange(5)),
                rng.randrange(1024, 1030))
        if recent and rng.random() < 0.1:
            # Just what came before, from there or from elsewhere.
            data, again = rng.choice(recent[-3:])
            if rng.random() < 0.7:
                addr = again
            case.ctx.count("repeated")
        recent.append((data, addr))
        if rng.random() < 0.05 and data != monitor:
            sink.fail_on.add(data)
        case.note("datagram", data[:80], addr)
        if data == monitor:
            replies.append((response, addr))
            case.ctx.count("monitor_messages")
        else:
            order.append(data)
            case.ctx.count("messages")
        port.deliver(data, addr)
        if rng.random() < 0.3:
            drain(reactor)
        case.check(port.sent == replies, "monitor",
                   "after %s the listener answered %s, not %s", rep(data),
                   rep(port.sent[-3:]), rep(replies[-3:]))
    drain(reactor)
    case.ctx.count("failing_messages", len(sink.fail_on))
    judge(case, sink, [order], replies)
    case.check(port.sent == replies, "monitor", "%s instead of %s",
               rep(port.sent), rep(replies))
    case.trivial = not order
    case.signature("udp", monitor, case.log[:40])


def tcp(case):
    from txstatsd.server.protocol import StatsDTCPServerFactory
    from twisted.internet import error
    rng = case.rng
    reactor = vnet.install()
    reactor.reset()
    sink = Sink(case)
    closed = set()
    monitor, response = rng.choice(MONITORS)
    kwargs = {}
    if monitor is not None:
        kwargs = dict(monitor_message=monitor, monitor_response=response)
    port = reactor.listenTCP(8125, StatsDTCPServerFactory(sink, **kwargs))
    groups, streams, replies, conns = [], [], [], []
    count = rng.choice((1, 1, 2, 4))
    serial = 0
    for c in range(count):
        lines = []
        for _ in range(rng.randrange(1, 40)):
            serial += 1
            line = payload(rng, serial, monitor, True)
            line = line.replace("\r\n", "").rstrip("\r")
            if line.startswith("\n") and lines:
                line = "x" + line
            if lines and rng.random() < 0.05:
                line = lines[-1]
                case.ctx.count("repeated")
            lines.append(line)
            if rng.random() < 0.03 and line != monitor:
                sink.fail_on.add(line)
        groups.append([l for l in lines if l != monitor])
        replies.append(response * lines.count(monitor)
                       if monitor is not None else "")
        case.ctx.count("messages", len(groups[-1]))
        case.ctx.count("monitor_messages", len(lines) - len(groups[-1]))
        tail = rng.choice(("", "", "unfinished:1|c", "x\r"))
        streams.append("".join(l + "\r\n" for l in lines) + tail)
        conns.append(port.open(("10.1.0.%d" % c, 5000 + c)))
        case.note("connection", c, [l[:40] for l in lines[:10]])
    style = rng.choice(("bytes", "small", "large", "all"))
    while any(streams):
        i = rng.choice([k for k in range(count) if streams[k]])
        n = {"bytes": 1, "small": rng.randrange(1, 12),
             "large": rng.randrange(1, 3000),
             "all": len(streams[i])}[style]
        if style == "bytes" and len(streams[i]) > 400:
            n = rng.randrange(1, 300)
        chunk, streams[i] = streams[i][:n], streams[i][n:]
        conns[i].deliver(chunk)
        case.ctx.count("chunks")
        if rng.random() < 0.2:
            reactor.turn()
        if not streams[i] and rng.random() < 0.4:
            # The other side is done; what it did not finish is no message.
            conns[i].lost(rng.choice((error.ConnectionDone,
                                      error.ConnectionLost))())
            case.ctx.count("connections_closed")
            closed.add(i)
    drain(reactor)
    case.ctx.count("failing_messages", len(sink.fail_on))
    for i, conn in enumerate(conns):
        if i in closed:
            case.check(conn.value() == replies[i], "monitor", "connection %d "
                       "was answered %s, not %s", i, rep(conn.value()),
                       rep(replies[i]))
            continue
        case.check(conn.connected and not conn.disconnecting, "dropped",
                   "connection %d was closed", i)
        case.check(conn.value() == replies[i], "monitor",
                   "connection %d was answered %s, not %s", i,
                   rep(conn.value()), rep(replies[i]))
    judge(case, sink, groups, replies)
    case.trivial = not sink.got
    case.signature("tcp", monitor, style, case.log)


def end_to_end(case):
    """A real processor behind the listeners: totals add up."""
    from txstatsd.server.protocol import (
        StatsDServerProtocol, StatsDTCPServerFactory)
    from txstatsd.server.processor import MessageProcessor
    from txstatsd.server.router import Router
    from rig import table
    rng = case.rng
    reactor = vnet.install()
    reactor.reset()
    p = MessageProcessor(time_function=lambda: 1300000000 +
                         reactor.seconds())
    entry = Router(p, "") if rng.random() < 0.5 else p
    uport = reactor.listenUDP(1, StatsDServerProtocol(entry, "ping", "pong"))
    tport = reactor.listenTCP(1, StatsDTCPServerFactory(entry, "ping",
                                                        "pong"))
    conn = tport.open(("10.0.0.3", 7))
    totals = {}
    keys = key_pool(rng, 4)
    for _ in range(rng.randrange(10, 120)):
        key = rng.choice(keys)
        value = rng.randrange(100)
        text = "%s:%d|c" % (key, value)
        r = rng.random()
        if r < 0.1:
            text = rng.choice(("junk", "ping", "\xff:1|c|@", key + ":x|c"))
        else:
            totals[key] = totals.get(key, 0) + value
        if rng.random() < 0.5:
            uport.deliver(text, ("10.0.0.2", 9))
        else:
            conn.deliver(text + "\r\n")
        case.ctx.count("messages")
        if rng.random() < 0.2:
            reactor.turn()
    drain(reactor)
    tab = table(p.flush(interval=1000))
    for key, total in totals.items():
        got = tab.get("stats_counts." + key, (None,))[0]
        case.check(got == total, "total", "%r: %d arrived, %r is reported",
                   key, total, got)
    case.check(not reactor.failures, "exception", "%s",
               rep(reactor.failures[:1], 2000))
    case.signature(sorted(totals.items()))


def run(ctx):
    vnet.install()
    ctx.scenario("udp", udp, ctx.n(600))
    ctx.scenario("tcp", tcp, ctx.n(450))
    ctx.scenario("end-to-end", end_to_end, ctx.n(90))
    ctx.require("messages", 8000)
    ctx.require("monitor_messages", 500)
    ctx.require("failing_messages", 100)
    ctx.require("chunks", 2000)
    ctx.require("repeated", 500)
    ctx.require("connections_closed", 100)
