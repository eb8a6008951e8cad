# -*- coding: utf-8 -*-
import re

import vnet
from gen import key_pool, RATES
from vlib import FakeClock, LogCapture, rep

RULE = """Routers with UDP and TCP redirect rules (behind rewrites, type
changes and conditions, one or several) on an in-memory network in virtual
time: names that resolve late, services started late, refused, lost, paused
and resumed connections, reconnections, stop. What each far end received is
compared with the messages routed while it could be reached. Non-trivial: at
least one message was redirected; distinct by the events of the case."""


class Processor(object):
    """Behind the router: remembers what continues to be processed."""

    def __init__(self):
        self.got = []

    def process(self, message):
        self.got.append(message)

    def process_message(self, message, metric_type, key, fields):
        self.got.append((metric_type, key, list(fields)))

    def flush(self, interval=10000, percent=90):
        return iter(())


def build(case, rules):
    from twisted.application.service import MultiService
    from txstatsd.server.router import Router
    reactor = vnet.install()
    reactor.reset()
    service = MultiService()
    processor = Processor()
    router = Router(processor, "\n".join(rules), service)
    fired = []
    router.ready.addCallback(lambda r: fired.append(r))
    return reactor, service, processor, router, fired


def message(rng, n, kinds=("c", "ms", "g", "m", "x")):
    kind = rng.choice(kinds)
    key = "%s.k%d" % (rng.choice(("a", "b", "web.a")), n)
    if rng.random() < 0.06:
        key += "." + "x" * rng.choice((90, 300, 600, 1100, 1500, 4000, 9000))
    value = rng.choice(("%d" % n, "%d.5" % n, "v%d" % n, ""))
    fields = [value, kind]
    text = "%s:%s|%s" % (key, value, kind)
    if rng.random() < 0.3:
        extra = rng.choice(("@" + rng.choice(RATES)[0], "", "7"))
        fields.append(extra)
        text += "|" + extra
    if text.strip() != text:
        text = text.strip()
    return text, kind, key, fields


def shape(rng):
    """(rules before the redirect, condition, function giving what is sent)"""
    r = rng.randrange(5)
    if r == 0:
        return [], "any", lambda kind, key, fields: (kind, key)
    if r == 1:
        return [], "metric_type c g", lambda kind, key, fields: (
            (kind, key) if kind in ("c", "g") else None)
    if r == 2:
        return (["any => rewrite ^ top."], "path_like top.a*",
                lambda kind, key, fields: (kind, "top." + key)
                if key.startswith("a") else None)
    if r == 3:
        return (["metric_type c => set_metric_type zz"], "any",
                lambda kind, key, fields: (
                    "zz" if kind == "c" else kind, key))
    return ([], "not path_like b.*", lambda kind, key, fields: (
        (kind, key) if not key.startswith("b.") else None))


def line(kind, key, fields):
    return key + ":" + "|".join([fields[0], kind] + fields[2:])


def local(kind, key, sent_as, before):
    """What goes on to the processor: the redirect changes nothing."""
    if before == ["any => rewrite ^ top."]:
        return kind, "top." + key
    if before and kind == "c":
        return "zz", key
    return kind, key


def udp(case):
    rng = case.rng
    host = rng.choice(("127.0.0.1", "10.1.2.3", "stats.example",
                       "other.example"))
    port = rng.randrange(1024, 60000)
    before, condition, wanted = shape(rng)
    rules = before + ["%s => redirect_udp %s %d" % (condition, host, port)]
    case.note(rules)
    reactor, service, processor, router, fired = build(case, rules)
    named = not host[0].isdigit()
    ip = host if not named else "192.0.2.%d" % rng.randrange(250)
    resolved = not named
    started = False
    waiting, delivered = [], []
    big = rng.random() < 0.16
    here = []
    events = ["start"] + (["resolve"] if named else [])
    n = 0

    def check():
        for _ in range(4):
            reactor.turn()
        got = []
        for p in reactor.udp:
            got.extend(p.sent)
        want = [(m, (ip, port)) for m in delivered]
        if got != want:
            i = 0
            while i < min(len(got), len(want)) and got[i] == want[i]:
                i += 1
            case.fail("redirect-udp", "rules %s: datagram %d is %s, not %s "
                      "(%d sent, %d expected)" % (
                          rep(rules), i, rep(got[i:i + 2]),
                          rep(want[i:i + 2]), len(got), len(want)))
        case.check(not reactor.failures, "exception", "%s",
                   rep(reactor.failures[:1], 1500))
        case.check(processor.got == here, "local", "rules %s: the redirect "
                   "changed what is processed here: %s instead of %s",
                   rep(rules), rep(processor.got[-3:]), rep(here[-3:]))
        case.check(len(fired) == (1 if resolved else 0), "ready",
                   "ready fired %d times with the host %s", len(fired),
                   "resolved" if resolved else "not resolved")

    for _ in range(rng.randrange(4, 30)):
        if events and rng.random() < 0.25:
            event = events.pop(rng.randrange(len(events)))
            case.note(event)
            if event == "start":
                service.startService()
                started = True
            else:
                name, d = reactor.lookups[0]
                case.check(name == host, "lookup", "%r was looked up", name)
                resolved = True
                d.callback(ip)
            if started and resolved:
                delivered.extend(waiting)
                waiting = []
        for _ in range(rng.choice((0, 1, 3, 400 if big else 6))):
            n += 1
            text, kind, key, fields = message(rng, n)
            router.process(text)
            case.ctx.count("messages")
            out = wanted(kind, key, fields)
            after = local(kind, key, out, before)
            here.append((after[0], after[1],
                         [fields[0]] + fields[1:]))
            if out is not None:
                case.ctx.count("redirected")
                m = line(out[0], out[1], fields)
                if started and resolved:
                    delivered.append(m)
                elif len(waiting) < 1000:
                    waiting.append(m)
                else:
                    case.ctx.count("overflowed")
        check()
    while events:
        event = events.pop()
        if event == "start":
            service.startService()
        else:
            resolved = True
            reactor.lookups[0][1].callback(ip)
    delivered.extend(waiting)
    check()
    service.stopService()
    case.trivial = not delivered
    case.signature("udp", rules, case.log[:40], n)


def tcp(case):
    rng = case.rng
    host = rng.choice(("127.0.0.1", "stats.example"))
    port = rng.randrange(1024, 60000)
    before, condition, wanted = shape(rng)
    rules = before + ["%s => redirect_tcp %s %d" % (condition, host, port)]
    case.note(rules)
    reactor, service, processor, router, fired = build(case, rules)
    expected = []       # per connection, the lines
    connections = []
    paused = False
    ever = False
    long_pause = rng.random() < 0.15
    here = []
    n = 0
    service.startService()
    case.check([(c.host, c.port) for c in reactor.connectors] ==
               [(host, port)], "connect", "the redirect connects to %s",
               rep([(c.host, c.port) for c in reactor.connectors]))
    connector = reactor.connectors[0]

    def check():
        for _ in range(3):
            reactor.turn()
        for t, lines in zip(connections, expected):
            want = "".join(l + "\r\n" for l in lines)
            case.check(t.value() == want, "redirect-tcp",
                       "rules %s: the connection received %s, not %s",
                       rep(rules), rep(t.value()[-300:]), rep(want[-300:]))
        case.check(not reactor.failures, "exception", "%s",
                   rep(reactor.failures[:1], 1500))
        case.check(processor.got == here, "local", "rules %s: the redirect "
                   "changed what is processed here: %s instead of %s",
                   rep(rules), rep(processor.got[-3:]), rep(here[-3:]))
        case.check(len(fired) == (1 if ever else 0), "ready",
                   "ready fired %d times, connected: %r", len(fired), ever)

    log = LogCapture()
    with log:
        for _ in range(rng.randrange(5, 40) if rng.random() < 0.85
                       else rng.randrange(3)):
            r = rng.random()
            if connector.state == "connecting" and r < 0.5:
                if rng.random() < 0.35:
                    case.note("refuse")
                    connector.refuse()
                    case.ctx.count("refused")
                else:
                    case.note("accept")
                    connections.append(connector.accept())
                    expected.append([])
                    paused = False
                    ever = True
                    case.ctx.count("connections")
            elif connector.state == "connected" and r < 0.12:
                case.note("lost")
                from twisted.internet import error
                connector.transport.lost(error.ConnectionLost())
                case.ctx.count("lost")
            elif connector.state == "connected" and r < 0.4:
                producer = connector.transport.producer
                case.check(producer is not None, "producer",
                           "no producer registered with the transport")
                if paused:
                    case.note("resume")
                    mark = len(log.events)
                    producer.resumeProducing()
                    texts = " ".join(log.texts()[mark:])
                    case.check(re.search(r"(?<![\d-])%d(?!\d)" % missed,
                                         texts), "dropped-number",
                               "%d messages were dropped during the pause, "
                               "the log says %s", missed, rep(texts))
                    case.ctx.count("resumed")
                else:
                    case.note("pause")
                    producer.pauseProducing()
                    missed = 0
                paused = not paused
            elif connector.state == "disconnected":
                attempts = connector.attempts
                case.note("wait")
                for _ in range(9000):
                    reactor.advance(1.0)
                    if connector.attempts > attempts:
                        break
                case.check(connector.attempts == attempts + 1, "reconnect",
                           "%d attempts to connect again within 9000 "
                           "seconds", connector.attempts - attempts)
                case.ctx.count("reconnections")
            burst = rng.choice((0, 1, 4))
            if long_pause and connector.state == "connected" and paused:
                burst, long_pause = rng.choice((1100, 2500)), False
                case.ctx.count("long_pauses")
            for _ in range(burst):
                n += 1
                text, kind, key, fields = message(rng, n)
                case.note("message", text)
                router.process(text)
                case.ctx.count("messages")
                out = wanted(kind, key, fields)
                after = local(kind, key, out, before)
                here.append((after[0], after[1], list(fields)))
                if out is not None:
                    case.ctx.count("redirected")
                    if connector.state == "connected" and not paused:
                        expected[-1].append(line(out[0], out[1], fields))
                    elif connector.state == "connected":
                        missed += 1
                if rng.random() < 0.05:
                    # Straight to the redirect: one line, however it ends.
                    direct = "direct%d:1|c" % n
                    ending = rng.choice(("", "\r", "\r\n"))
                    case.note("direct", ending)
                    connector.factory.write(direct + ending)
                    case.ctx.count("direct")
                    if connector.state == "connected" and not paused:
                        expected[-1].append(direct)
                    elif connector.state == "connected":
                        missed += 1
            check()
        state = connector.state
        attempts = connector.attempts
        service.stopService()
        for _ in range(5):
            reactor.advance(5000)
        case.check(connector.state == "disconnected", "stop",
                   "the connection stays %s after the service stopped",
                   connector.state)
        case.check(connector.attempts == attempts, "stop",
                   "connects again after the service stopped (it was %s)",
                   state)
    case.check(not log.errors(), "log-error", "%s",
               rep([e.get("failure") for e in log.errors()[:2]], 800))
    case.trivial = not any(expected)
    case.signature("tcp", rules, case.log[:60])


def outage(case):
    """However often and long the far end is away, the redirect comes back;
    and soon, once it had worked."""
    rng = case.rng
    reactor, service, processor, router, fired = build(
        case, ["any => redirect_tcp far.example 2003"])
    service.startService()
    connector = reactor.connectors[0]
    from twisted.internet import error
    n = 0

    def attempt(limit, what):
        """Advances until the next attempt to connect."""
        attempts = connector.attempts
        waited = 0.0
        while connector.attempts == attempts and waited < limit:
            step = 0.25 if waited < 60 else 30.0
            reactor.advance(step)
            waited += step
        case.check(connector.attempts == attempts + 1, "reconnect",
                   "%s: %d attempts to connect within %g seconds", what,
                   connector.attempts - attempts, waited)
        case.ctx.count("attempts")

    log = LogCapture()
    with log:
        for round_ in range(rng.randrange(1, 4)):
            refusals = rng.choice((0, 1, 5, 15, 40))
            case.note("refuse", refusals)
            for i in range(refusals):
                connector.refuse()
                case.ctx.count("refused")
                attempt(7200, "after %d refusals in a row" % (i + 1))
            transport = connector.accept()
            case.note("accept")
            case.ctx.count("connections")
            reactor.turn(3)
            case.check(len(fired) == 1, "ready", "ready fired %d times",
                       len(fired))
            want = ""
            for _ in range(rng.randrange(4)):
                n += 1
                router.process("k:%d|c" % n)
                want += "k:%d|c\r\n" % n
                case.ctx.count("messages")
                case.ctx.count("redirected")
            case.check(transport.value() == want, "redirect-tcp",
                       "after %d refusals the connection received %s, not %s",
                       refusals, rep(transport.value()), rep(want))
            transport.lost(rng.choice((error.ConnectionLost,
                                       error.ConnectionDone))())
            case.note("lost")
            attempt(60, "a connection that worked was lost, after %d "
                    "refusals" % refusals)
            case.ctx.count("prompt_reconnections")
        service.stopService()
        attempts = connector.attempts
        for _ in range(5):
            reactor.advance(5000)
        case.check(connector.attempts == attempts, "stop",
                   "connects again after the service stopped")
    case.check(not reactor.failures, "exception", "%s",
               rep(reactor.failures[:1], 1500))
    case.signature("outage", case.log)


def several(case):
    """Several redirects, some to one host: all far ends receive, ready waits
    for all of them."""
    rng = case.rng
    conditions = {"path_like a*": lambda kind, key: key[0] == "a",
                  "path_like c*": lambda kind, key: key[0] == "c",
                  "metric_type g": lambda kind, key: kind == "g",
                  "any": lambda kind, key: True}
    hosts = ["127.0.0.1", "127.0.0.1", "h.example", "h.example"]
    ports = [1111, 3333, 4444]
    first = (rng.choice(sorted(conditions)), rng.choice(hosts),
             rng.choice(ports))
    second = (rng.choice(sorted(conditions)), rng.choice(hosts),
              rng.choice(ports))
    last = (rng.choice(sorted(conditions)), rng.choice(hosts),
            rng.choice(ports))
    # One port of two hosts, two ports of one host, ...
    tcp = [(host, port) for host in ("127.0.0.1", "t.example")
           for port in (2222, 2223)]
    rng.shuffle(tcp)
    tcp = [(rng.choice(("any", "any", "path_like a*", "metric_type g")),
            host, port) for host, port in tcp[:rng.randrange(1, 4)]]
    rules = ["%s => redirect_udp %s %d" % first,
             "%s => redirect_udp %s %d" % second,
             "metric_type c => set_metric_type k"]
    rules += ["%s => redirect_tcp %s %d" % where for where in tcp]
    rules += ["path_like b* => drop", "%s => redirect_udp %s %d" % last]
    case.note(rules)
    reactor, service, processor, router, fired = build(case, rules)
    service.startService()
    reactor.turn(3)
    names = [host for _, host, _ in (first, second, last)
             if host == "h.example"]
    case.check(not fired, "ready", "ready before the redirects are")
    connectors = dict(((c.host, c.port), c) for c in reactor.connectors)
    case.check(sorted((c.host, c.port) for c in reactor.connectors) ==
               sorted(where[1:] for where in tcp), "connect",
               "rules %s: connects to %s", rep(rules),
               rep(sorted(connectors)))
    steps = ["accept %d" % i for i in range(len(tcp))]
    steps += ["resolve"] * bool(names)
    rng.shuffle(steps)
    transports = {}
    for i, step in enumerate(steps):
        if step == "resolve":
            for name, d in list(reactor.lookups):
                case.check(name == "h.example", "lookup",
                           "%r was looked up", name)
                d.callback("192.0.2.7")
        else:
            where = tcp[int(step.split()[1])][1:]
            transports[where] = connectors[where].accept()
        reactor.turn(4)
        case.check(len(fired) == (1 if i == len(steps) - 1 else 0), "ready",
                   "ready fired %d times after %s", len(fired),
                   steps[:i + 1])
    address = {"127.0.0.1": "127.0.0.1", "h.example": "192.0.2.7"}
    wanted, lines, here = {}, {}, []
    for n in range(rng.randrange(5, 30)):
        kind = rng.choice(("c", "g"))
        key = rng.choice("abcd") + str(n)
        text = "%s:%d|%s" % (key, n, kind)
        router.process(text)
        case.ctx.count("messages")
        far = [(first, kind), (second, kind)]
        now = "k" if kind == "c" else kind
        if key[0] != "b":
            far.append((last, now))
            here.append((now, key))
        for (condition, host, port), as_kind in far:
            if conditions[condition](as_kind, key):
                wanted.setdefault((address[host], port), []).append(
                    "%s:%d|%s" % (key, n, as_kind))
        for condition, host, port in tcp:
            if conditions[condition](now, key):
                lines.setdefault((host, port), []).append(
                    "%s:%d|%s" % (key, n, now))
    reactor.turn(4)
    got = {}
    for p in reactor.udp:
        for datagram, where in p.sent:
            got.setdefault(where, []).append(datagram)
    for where in sorted(set(got) | set(wanted)):
        # Two rules may send to one place, each in order.
        mine, want = got.get(where, []), wanted.get(where, [])
        case.check(sorted(mine) == sorted(want), "redirect-udp",
                   "rules %s: %s received %s, not %s", rep(rules), where,
                   rep(mine), rep(want))
        case.ctx.count("far_ends")
    for condition, host, port in tcp:
        want = "".join(l + "\r\n" for l in lines.get((host, port), ()))
        case.check(transports[host, port].value() == want, "redirect-tcp",
                   "rules %s: %s:%d received %s, not %s", rep(rules), host,
                   port, rep(transports[host, port].value()), rep(want))
        case.ctx.count("tcp_far_ends")
    case.check([g[:2] for g in processor.got] == here, "local",
               "%s is processed here, not %s", rep(processor.got), rep(here))
    case.check(not reactor.failures, "exception", "%s",
               rep(reactor.failures[:1], 1500))
    case.ctx.count("redirected", sum(len(l) for l in lines.values()))
    service.stopService()
    case.signature(rules, steps, sorted(lines.items()))


def run(ctx):
    vnet.install()
    ctx.scenario("udp", udp, ctx.n(250))
    ctx.scenario("tcp", tcp, ctx.n(250))
    ctx.scenario("several", several, ctx.n(80))
    ctx.scenario("outage", outage, ctx.n(25))
    ctx.require("messages", 5000)
    ctx.require("redirected", 2000)
    ctx.require("overflowed", 30)
    ctx.require("resumed", 50)
    ctx.require("reconnections", 50)
    ctx.require("refused", 20)
    ctx.require("far_ends", 60)
    ctx.require("tcp_far_ends", 60)
    ctx.require("attempts", 100)
    ctx.require("prompt_reconnections", 20)
