# -*- coding: utf-8 -*-
import socket
import sys
import threading
import time

import vnet
from gen import key_pool
from vlib import LogCapture, rep, sizes

RULE = """Lives of the Twisted client on an in-memory network: messages written
before, between and after the address is known and the transport is there, in
every order of these events, with refused datagrams, lost and new transports,
full queues and writes made from callbacks; and the same with several real
threads writing, their lines interleaved by injected pauses, while the client
gets ready. What left the transport is compared with what was written, in
order and once each. Non-trivial: a message was delivered; distinct by the
events of the case."""


class Model(object):
    """What a client owes for the events it saw."""

    def __init__(self, limit=1000):
        self.limit = limit
        self.resolved = None
        self.transport = False
        self.queue = []
        self.sent = []

    def ready(self):
        return self.resolved is not None and self.transport

    def write(self, item):
        if self.ready():
            self.sent.append(item)
            return "sent"
        if len(self.queue) < self.limit:
            self.queue.append(item)
            return "queued"
        return "dropped"

    def flush(self):
        if self.ready():
            self.sent.extend(self.queue)
            self.queue = []


class FakeError(Exception):
    pass


def life(case):
    from txstatsd.client import StatsDClientProtocol, TwistedStatsDClient
    from twisted.python import failure
    rng = case.rng
    ctx = case.ctx
    reactor = vnet.install()
    reactor.reset()
    named = rng.random() < 0.7
    host = "stats.example" if named else "10.0.0.%d" % rng.randrange(250)
    ip = "192.0.2.%d" % rng.randrange(250) if named else host
    port = rng.randrange(1, 65536)
    connected, gone, unresolved = [], [], []
    own = rng.random() < 0.2        # resolves the host itself
    given = reactor if rng.random() < 0.5 else None
    kwargs = dict(connect_callback=lambda: connected.append(1),
                  disconnect_callback=lambda: gone.append(1), reactor=given)
    if own:
        client = TwistedStatsDClient(host, port, **kwargs)
    else:
        if rng.random() < 0.7:
            kwargs["resolver_errback"] = unresolved.append
        client = TwistedStatsDClient.create(host, port, **kwargs)
    case.check(str(client) == "%s:%d" % (host, port), "name",
               "the client calls itself %r", str(client))
    model = Model()
    if not named:
        model.resolved = ip
    results = []            # (message, result) in the order of the callbacks
    wanted = []             # what they should be
    refused = set()
    faults = [socket.error(11, "full"), socket.gaierror(-2, "x"),
              OverflowError("x"), TypeError("x"), socket.error(),
              socket.error("x"), socket.timeout("timed out"),
              socket.error(-5, "x")]

    def fault(data):
        if data in refused:
            return rng.choice(faults)
        return None

    ports = []
    seen = {0: 0}
    counter = [0]
    losses = 0
    fails = 0

    raised = [0]
    raises = (TypeError, OverflowError, socket.error, ValueError)

    def callback_for(data, again):
        failing = not again and rng.random() < 0.05 and rng.choice(raises)

        def callback(result):
            results.append((data, result))
            if again:
                write(False)
            if failing:
                # A mistake of the user's, which ends here.
                raised[0] += 1
                raise failing("of the callback")
        return callback

    def write(again):
        counter[0] += 1
        data = "k%d:%d|c" % (counter[0], rng.randrange(10 ** 4))
        if rng.random() < 0.08:
            refused.add(data)
            ctx.count("refused")
        elif rng.random() < 0.03:
            data = ""
        with_callback = rng.random() < 0.7
        again = again and with_callback
        if with_callback:
            client.write(data, callback_for(data, again))
        else:
            client.write(data)
        ctx.count(model.write((data, with_callback, again)))

    def settle():
        """Every write made so far reaches the transport; the model follows
        the writes that callbacks make."""
        for _ in range(6):
            reactor.turn()
        sent = [x for p in ports for x in p.sent[seen.get(p, 0):]]
        for p in ports[:-1]:
            late = p.sent[seen.get(p, 0):]
            case.check(not late, "old-transport", "%s went to a transport "
                       "that was replaced", rep(late))
        for p in ports:
            seen[p] = len(p.sent)
        new = model.sent[seen[0]:]
        seen[0] = len(model.sent)
        want = [(d, (ip, port)) for (d, c, a) in new if d not in refused]
        if sent != want:
            i = 0
            while i < min(len(sent), len(want)) and sent[i] == want[i]:
                i += 1
            case.fail("delivery", "datagram %d is %s, not %s (%d sent, %d "
                      "expected; resolved %r, transport %r)" % (
                          i, rep(sent[i:i + 2]), rep(want[i:i + 2]),
                          len(sent), len(want), model.resolved,
                          model.transport))
        expected = [(d, None if d in refused else len(d))
                    for (d, c, a) in new if c]
        case.check(results == expected, "callback",
                   "the callbacks got %s, not %s (%d, %d)",
                   rep(results[-4:]), rep(expected[-4:]), len(results),
                   len(expected))
        del results[:]
        problems = [f for f in reactor.failures
                    if "of the callback" not in f]
        case.check(not problems, "exception", "%s",
                   rep(problems[:1], 1500))
        ctx.count("failing_callbacks", raised[0])
        raised[0] = 0
        case.check(len(connected) == (1 if model.resolved else 0),
                   "connect-callback", "the connect callback ran %d times, "
                   "the address is %r", len(connected), model.resolved)
        case.check(len(gone) == losses, "disconnect-callback",
                   "the disconnect callback ran %d times for %d losses",
                   len(gone), losses)
        case.check(len(unresolved) == (fails if "resolver_errback" in kwargs
                                       else 0), "resolve-errback",
                   "the resolver errback ran %d times for %d failures",
                   len(unresolved), fails)

    big = rng.random() < 0.12
    log = LogCapture()
    with log:
        for _ in range(rng.randrange(4, 30)):
            r = rng.random()
            if r < 0.2:
                if not model.transport:
                    case.note("transport")
                    protocol = StatsDClientProtocol(client)
                    p = reactor.listenUDP(0, protocol)
                    p.fault = fault
                    ports.append(p)
                    model.transport = True
                    model.flush()
                    ctx.count("transports")
                elif rng.random() < 0.4:
                    settle()
                    case.note("transport lost")
                    ports[-1].stopListening()
                    model.transport = False
                    losses += 1
            elif r < 0.4 and model.resolved is None and not fails:
                if own:
                    case.note("resolved by the user")
                    model.resolved = ip
                    model.flush()
                    client.host_resolved(ip)
                elif rng.random() < 0.2:
                    case.note("not resolved")
                    fails = 1
                    reactor.lookups[0][1].errback(
                        failure.Failure(FakeError("no such host")))
                    ctx.count("resolve_failures")
                else:
                    case.note("resolved")
                    model.resolved = ip
                    model.flush()
                    reactor.lookups[0][1].callback(ip)
            if rng.random() < 0.1:
                # As a hashing client does it: nothing new is known.
                case.note("connect")
                client.connect()
                ctx.count("bare_connects")
            n = rng.choice((0, 1, 3, rng.choice((400, 999, 1001))
                            if big else 6))
            case.note("write", n)
            for _ in range(n):
                write(False)
            if rng.random() < 0.5 or model.ready():
                settle()
        settle()
    problems = [e for e in log.errors()]
    if fails and "resolver_errback" not in kwargs:
        case.check(len(problems) == 1, "resolve-errback",
                   "%d errors logged for a host that cannot be resolved",
                   len(problems))
    else:
        case.check(not problems, "log-error", "%s",
                   rep([e.get("failure") for e in problems[:2]], 900))
    if not own and named:
        case.check([l[0] for l in reactor.lookups] == [host], "lookup",
                   "looked up %s", rep([l[0] for l in reactor.lookups]))
    ctx.count("delivered", len(model.sent))
    case.trivial = not model.sent
    case.signature(case.log)


def reentrant(case):
    """The callbacks of the client write to it: nothing is lost, doubled or
    stuck."""
    from txstatsd.client import StatsDClientProtocol, TwistedStatsDClient
    rng = case.rng
    reactor = vnet.install()
    reactor.reset()
    written = []
    box = []

    def write(callback=None):
        data = "k:%d|c" % len(written)
        written.append(data)
        if callback is None:
            box[0].write(data)
        else:
            box[0].write(data, callback)

    depth = rng.randrange(1, 6)

    def chain(left):
        def callback(result):
            if left:
                write(chain(left - 1))
        return callback

    def connected():
        if box:
            write()

    client = TwistedStatsDClient.create(
        "h.example", 8125, connect_callback=connected,
        disconnect_callback=lambda: write(), reactor=reactor)
    box.append(client)
    steps = ["resolve", "transport"]
    rng.shuffle(steps)
    write(chain(depth))
    for step in steps:
        write()
        if step == "resolve":
            reactor.lookups[0][1].callback("192.0.2.1")
        else:
            p = reactor.listenUDP(0, StatsDClientProtocol(client))
        write(chain(depth))
    for _ in range(depth + 6):
        reactor.turn()
    before = len(written)
    p.stopListening()
    p2 = reactor.listenUDP(0, StatsDClientProtocol(client))
    for _ in range(depth + 6):
        reactor.turn()
    got = [d[0] for d in p.sent + p2.sent]
    case.check(sorted(got) == sorted(written), "delivery",
               "%s written from callbacks, %s delivered", rep(written),
               rep(got))
    case.check(len(written) > before, "disconnect-callback",
               "the disconnect callback did not run")
    case.ctx.count("reentrant", len(written))
    case.signature(steps, depth, written)


class Pipe(object):
    """A reactor for many threads: calls queue up, the thread of the scenario
    runs them."""

    def __init__(self):
        from twisted.internet import defer
        self.deferred = defer.Deferred()
        self.lock = threading.Lock()
        self.calls = []
        self.total = 0

    def resolve(self, name, timeout=()):
        return self.deferred

    def callFromThread(self, func, *args, **kwargs):
        with self.lock:
            self.calls.append((func, args, kwargs))
            self.total += 1

    def callLater(self, delay, func, *args, **kwargs):
        self.callFromThread(func, *args, **kwargs)

    def drain(self):
        n = 0
        while True:
            with self.lock:
                if not self.calls:
                    return n
                func, args, kwargs = self.calls.pop(0)
            func(*args, **kwargs)
            n += 1


class Wire(object):
    def __init__(self):
        self.sent = []
        self.threads = set()

    def write(self, data, addr=None):
        self.sent.append((data, addr))
        self.threads.add(threading.currentThread())
        return len(data)


def pauses(seed, share):
    """A trace function that lets other threads run between lines of the
    client."""
    state = [seed & 0x7fffffff or 1]

    def local(frame, event, arg):
        if event == "line":
            # A race on state only makes it more random.
            x = state[0] = (state[0] * 1103515245 + 12345) & 0x7fffffff
            if (x >> 8) % 100 < share:
                time.sleep(0.0003 if (x >> 16) % 4 == 0 else 0.00001)
        return local

    def outer(frame, event, arg):
        name = frame.f_code.co_filename.replace("$py.class", ".py")
        if name.endswith("txstatsd/protocol.py"):
            return local
        return None
    return outer


def threads(case):
    from txstatsd.client import TwistedStatsDClient
    rng = case.rng
    ctx = case.ctx
    reactor = Pipe()
    wire = Wire()
    results = []
    client = TwistedStatsDClient.create(
        "h.example", 8125, connect_callback=lambda: time.sleep(0.0005),
        reactor=reactor)
    writers = rng.choice((2, 3, 4))
    each = rng.choice((10, 20, 40))
    share = rng.choice((5, 20, 50))
    tracer = pauses(rng.randrange(1, 1 << 30), share)
    errors = []
    go = threading.Event()

    def writer(number):
        try:
            go.wait(5)
            for i in range(each):
                data = "t%d:%d|c" % (number, i)
                if i % 3:
                    client.write(data)
                else:
                    client.write(data, lambda n, data=data:
                                 results.append((data, n)))
        except Exception:
            import traceback
            errors.append(traceback.format_exc())

    threading.settrace(tracer)
    pool = [threading.Thread(target=writer, args=(i,))
            for i in range(writers)]
    for t in pool:
        t.setDaemon(True)
        t.start()
    steps = ["resolve", "connect"]
    rng.shuffle(steps)
    if rng.random() < 0.4:
        steps.insert(rng.randrange(1, 3), "nothing")
    if rng.random() < 0.5:
        steps += ["lose", "connect"]
    case.note(writers, each, share, steps)
    sys.settrace(tracer)
    try:
        go.set()
        for step in steps:
            time.sleep(rng.choice((0, 0.0005, 0.002, 0.004)))
            reactor.drain()
            if step == "resolve":
                reactor.deferred.callback("192.0.2.1")
            elif step == "connect":
                client.connect(wire)
            elif step == "lose":
                client.disconnect()
            if rng.random() < 0.5:
                reactor.drain()
    finally:
        sys.settrace(None)
        threading.settrace(None)
    for t in pool:
        t.join(20)
        case.check(not t.isAlive(), "deadlock",
                   "a thread that writes is stuck")
    case.check(not errors, "exception", "%s", rep(errors[:1], 1500))
    # The client is ready: nothing may be waiting any more.
    for _ in range(5):
        reactor.drain()
    got = [d for d, addr in wire.sent]
    want = ["t%d:%d|c" % (n, i) for n in range(writers) for i in range(each)]
    if sorted(got) != sorted(want):
        lost = sorted(set(want) - set(got))
        twice = sorted(set(d for d in got if got.count(d) > 1))
        case.fail("threads", "of %d messages written by %d threads while the "
                  "client became ready (%s), %s were lost and %s delivered "
                  "twice" % (len(want), writers, steps, rep(lost),
                             rep(twice)))
    case.check(set(a for d, a in wire.sent) == set([("192.0.2.1", 8125)]),
               "address", "sent to %s", rep(set(a for d, a in wire.sent)))
    case.check(sorted(results) == sorted(
        (d, len(d)) for d in want if int(d[d.index(":") + 1:-2]) % 3 == 0),
        "callback", "%d callbacks", len(results))
    case.check(len(wire.threads) == 1, "thread", "the transport was used "
               "from %d threads", len(wire.threads))
    ctx.count("threaded_messages", len(want))
    # How the queue and the direct way met: which thread's messages surround
    # each other.
    case.signature(steps, [d.split(":")[0] for d in got])


def run(ctx):
    vnet.install()
    ctx.scenario("life", life, ctx.n(500))
    ctx.scenario("reentrant", reentrant, ctx.n(80))
    ctx.scenario("threads", threads, ctx.n(60, 900))
    ctx.require("bare_connects", 50)
    ctx.require("sent", 1500)
    ctx.require("queued", 1500)
    ctx.require("dropped", 20)
    ctx.require("refused", 100)
    ctx.require("resolve_failures", 10)
    ctx.require("threaded_messages", 2000)
    ctx.require("transports", 100)
