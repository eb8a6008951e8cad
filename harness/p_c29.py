# -*- coding: utf-8 -*-
import os
import pickle
import random
import socket
import struct
import sys
import threading
import time
import traceback

import stubs
import vlib
from vlib import LogCapture, close, rep

RULE = """Whole daemons from random options in real time, with Twisted's own
reactor and real loopback sockets: the client library and raw TCP connections
send in several threads while flushes run every tenth of a second or so, to one
or two carbon daemons that may go away and come back; what the carbon daemons
decode is reconciled with what was sent, by conservation. Non-trivial: messages
were sent; distinct by options and messages."""

PATIENCE = 60.0


def reactor():
    """The real reactor, in a thread of its own."""
    from twisted.internet import reactor
    if not STATE:
        import carbon.client
        # Jython's cPickle takes no keyword arguments; signals are global.
        carbon.client.pickle = pickle
        carbon.client.__dict__.pop("signal", None)
        stubs.install()
        STATE["udp"], STATE["tcp"], STATE["connects"] = [], [], []
        for kind in ("UDP", "TCP"):
            hook(reactor, kind)
        thread = threading.Thread(
            target=reactor.run, kwargs={"installSignalHandlers": False})
        thread.setDaemon(True)
        thread.start()
        wait(lambda: reactor.running)
    return reactor


def hook(reactor, kind):
    real = getattr(reactor, "listen" + kind)

    def listen(*args, **kwargs):
        port = real(*args, **kwargs)
        STATE[kind.lower()].append(port)
        return port
    setattr(reactor, "listen" + kind, listen)


STATE = {}


class Threads(object):
    """Sees which threads use the processor: it is made for one."""

    def __init__(self, case):
        from txstatsd.server.configurableprocessor import (
            ConfigurableMessageProcessor)
        from txstatsd.server.processor import (
            BaseMessageProcessor, MessageProcessor)
        self.case = case
        self.real = []
        self.strangers = []
        self.own = call(lambda: threading.currentThread().ident)
        for cls in (BaseMessageProcessor, MessageProcessor,
                    ConfigurableMessageProcessor):
            for name in ("process", "process_message"):
                if name in cls.__dict__:
                    self.watch(cls, name)

    def watch(self, cls, name):
        real = cls.__dict__[name]

        def watched(this, *args, **kwargs):
            self.case.ctx.count("thread_checks")
            if threading.currentThread().ident != self.own:
                self.strangers.append((
                    name, args[:1], threading.currentThread().getName()))
            return real(this, *args, **kwargs)
        self.real.append((cls, name, real))
        setattr(cls, name, watched)

    def close(self):
        for cls, name, real in self.real:
            setattr(cls, name, real)
        self.case.check(not self.strangers, "thread", "the processor is used "
                        "by other threads than the reactor's: %s",
                        rep(self.strangers[:3]))


def call(function, *args, **kwargs):
    """Call it in the thread of the reactor."""
    from twisted.internet.threads import blockingCallFromThread

    def guarded():
        try:
            return True, function(*args, **kwargs)
        except Exception:
            etype, value, tb = sys.exc_info()
            frames = vlib.repo_frames(tb)
            text = vlib.safe(traceback.format_exc())
            if frames:
                return False, vlib.Violation(
                    "exception-%s" % etype.__name__,
                    "unexpected %s: %s" % (etype.__name__, text))
            return False, vlib.HarnessError(text)
    done, result = blockingCallFromThread(reactor(), guarded)
    if not done:
        raise result
    return result


def wait(condition, seconds=PATIENCE, step=0.02):
    end = time.time() + seconds
    while True:
        if condition():
            return True
        if time.time() > end:
            return condition()
        time.sleep(step)


def peer_class():
    from twisted.internet import protocol

    class Peer(protocol.Protocol):
        """One connection, remembering what came."""

        def connectionMade(self):
            self.open = True
            self.text = ""
            self.factory.peers.append(self)

        def dataReceived(self, data):
            self.text += data
            self.factory.received(self)

        def connectionLost(self, reason):
            self.open = False

    return Peer


class Carbon(object):
    """A carbon daemon that remembers (metric, value, timestamp)."""

    def __init__(self, case):
        self.case = case
        self.points = []
        self.frames = 0
        self.largest = 0
        self.port = 0
        self.broken = []

        from twisted.internet import protocol
        self.factory = protocol.ServerFactory()
        self.factory.noisy = False
        self.factory.protocol = peer_class()
        self.factory.peers = []
        self.factory.received = self.received
        self.up()

    def up(self):
        self.listener = call(reactor().listenTCP, self.port, self.factory,
                             interface="127.0.0.1")
        self.port = self.listener.getHost().port

    def received(self, peer):
        try:
            while len(peer.text) >= 4:
                size = struct.unpack("!I", peer.text[:4])[0]
                if len(peer.text) < 4 + size:
                    return
                points = pickle.loads(peer.text[4:4 + size])
                peer.text = peer.text[4 + size:]
                self.frames += 1
                self.largest = max(self.largest, len(points))
                for metric, (timestamp, value) in points:
                    self.points.append((metric, value, timestamp))
        except Exception, e:
            self.broken.append(repr(e))
            peer.transport.loseConnection()

    def down(self):
        call(self.listener.stopListening)
        call(lambda: [p.transport.loseConnection()
                      for p in self.factory.peers if p.open])
        wait(lambda: not [p for p in self.factory.peers if p.open])


class TCPClient(object):
    """A raw connection to a port, in the reactor."""

    def __init__(self, port):
        from twisted.internet import protocol
        self.factory = protocol.ClientFactory()
        self.factory.noisy = False
        self.factory.protocol = peer_class()
        self.factory.peers = []
        self.factory.received = lambda peer: None
        self.failed = []
        self.factory.clientConnectionFailed = (
            lambda connector, reason: self.failed.append(reason))
        call(reactor().connectTCP, "127.0.0.1", port, self.factory)
        wait(lambda: self.factory.peers or self.failed)

    @property
    def peer(self):
        return self.factory.peers[0]

    def send(self, text):
        reactor().callFromThread(self.peer.transport.write, text)

    def text(self):
        return self.peer.text

    def close(self):
        if self.factory.peers:
            call(self.peer.transport.loseConnection)
            wait(lambda: not self.peer.open)


class Sink(object):
    """Where messages are redirected to."""

    def __init__(self, kind):
        from twisted.internet import protocol
        self.lines = []
        if kind == "udp":
            class Receiver(protocol.DatagramProtocol):
                noisy = False

                def datagramReceived(this, data, address):
                    self.lines.append(data)
            self.listener = call(reactor().listenUDP, 0, Receiver(),
                                 interface="127.0.0.1")
        else:
            self.factory = protocol.ServerFactory()
            self.factory.noisy = False
            self.factory.protocol = peer_class()
            self.factory.peers = []
            self.factory.received = self.received
            self.listener = call(reactor().listenTCP, 0, self.factory,
                                 interface="127.0.0.1")
        self.port = self.listener.getHost().port

    def received(self, peer):
        lines = peer.text.split("\n")
        peer.text = lines.pop()
        self.lines.extend(line.rstrip("\r") for line in lines)

    def close(self):
        call(self.listener.stopListening)


class Recorder(object):
    """The UDP client, counting what could not even be sent."""

    def __init__(self, client):
        self.client = client
        self.unsent = 0

    def write(self, data):
        if self.client.write(data) is None:
            # A full socket buffer, most likely.
            time.sleep(0.05)
            if self.client.write(data) is None:
                self.unsent += 1


class Daemon(object):
    def __init__(self, case, carbons, values, sink=None):
        from carbon import instrumentation
        from twisted.plugins import sli_plugin
        from txstatsd import service
        self.case = case
        reactor()
        instrumentation.stats.clear()
        stubs.renew(sli_plugin.sli_metric_factory)
        args = ["--%s=%s" % item for item in sorted(values.items())]
        for i, carbon in enumerate(carbons):
            # One host takes several daemons if they have names.
            args += ["--carbon-cache-host=127.0.0.1",
                     "--carbon-cache-port=%d" % carbon.port,
                     "--carbon-cache-name=%s" % "abc"[i]]
        options = service.StatsDOptions()
        options.parseOptions(args)
        case.note(args)
        for kind in ("udp", "tcp"):
            del STATE[kind][:]
        self.service = call(service.createService, options)
        call(self.service.startService)
        self.listening = list(STATE["udp"]), list(STATE["tcp"])
        from twisted.web.server import Site
        from txstatsd.server.protocol import StatsDServerProtocol
        # One to redirect by is no port of ours.
        udp = [p.getHost().port for p in self.listening[0]
               if isinstance(p.protocol, StatsDServerProtocol)]
        http = [p.getHost().port for p in self.listening[1]
                if isinstance(p.factory, Site)]
        tcp = [p.getHost().port for p in self.listening[1]
               if not isinstance(p.factory, Site)]
        case.check(len(udp) == 1 and
                   len(tcp) == ("listen-tcp-port" in values) and
                   len(http) == ("http-port" in values), "listen",
                   "listens on %s and %s with %s",
                   [str(p) for p in self.listening[0]],
                   [str(p) for p in self.listening[1]], rep(args))
        self.udp = udp[0]
        self.tcp = tcp[0] if tcp else None
        self.http = http[0] if http else None
        self.message = values.get("monitor-message", "txstatsd ping")
        self.response = values.get("monitor-response", "txstatsd pong")

    def ping(self, sock, tries=40):
        """Everything sent before has been read once it answers."""
        for _ in range(tries):
            sock.sendto(self.message, ("127.0.0.1", self.udp))
            try:
                data, address = sock.recvfrom(1000)
            except (socket.timeout, socket.error):
                continue
            return data
        return None

    def get(self, path):
        client = TCPClient(self.http)
        client.send("GET %s HTTP/1.0\r\n\r\n" % path)
        wait(lambda: not client.peer.open)
        return client.text()

    def stop(self):
        done = []

        def stop():
            from twisted.internet import defer
            d = defer.maybeDeferred(self.service.stopService)
            d.addBoth(done.append)
        call(stop)
        self.case.check(wait(lambda: done), "stop", "the stop does not end")
        self.case.check(done[0] is None or not hasattr(done[0], "getErrorMessage"),
                        "stop", "the stop fails: %s", rep(done))


def drops(port):
    """Datagrams the kernel threw away for this port."""
    count = 0
    for path in ("/proc/net/udp", "/proc/net/udp6"):
        try:
            with open(path) as f:
                for line in f.readlines()[1:]:
                    words = line.split()
                    if int(words[1].rsplit(":", 1)[1], 16) == port:
                        count += int(words[-1])
        except IOError:
            pass
    return count


class Ledger(object):
    """What was sent, and what it should have become."""

    def __init__(self, compliant, prefix):
        self.compliant = compliant
        self.prefix = prefix
        self.lock = threading.Lock()
        self.c, self.ms, self.g, self.m, self.pd = {}, {}, {}, {}, {}
        self.sent = 0

    def plan(self, rng, worker, n, rated=True):
        """Messages of one worker, with what they mean."""
        result = []
        total = {}
        for _ in range(n):
            kind = rng.choice(("c", "c", "ms", "ms", "g", "m", "pd"))
            key = "k%d.%s" % (rng.randrange(3), kind)
            rate = None
            if kind == "g" or (kind == "c" and not self.compliant):
                # Only one worker sends it, so that the last is known.
                key = "w%d.%s" % (worker, key)
            if kind == "pd":
                value = "item%d" % rng.randrange(20)
            elif kind == "c" and not self.compliant:
                value = total[key] = total.get(key, 0) + rng.randrange(9)
            else:
                value = rng.randrange(1, 4000) / 4.0
                if kind == "c" and rated and rng.random() < 0.3:
                    rate = rng.choice((0.5, 0.25))
            result.append((kind, key, value, rate))
        return result

    def add(self, kind, key, value, rate):
        with self.lock:
            self.sent += 1
            if kind == "c" and self.compliant:
                self.c[key] = self.c.get(key, 0) + value / (rate or 1)
            elif kind == "c":
                self.c[key] = value
            elif kind == "ms":
                self.ms.setdefault(key, []).append(value)
            elif kind == "g":
                self.g[key] = value
            elif kind == "m":
                self.m[key] = self.m.get(key, 0) + value
            else:
                self.pd.setdefault(key, set()).add(value)

    def differences(self, rows, interval):
        """What the datapoints, by name, do not agree with."""
        result = []

        def values(name):
            return [value for value, ts in rows.get(name, ())]

        def last(name, want):
            got = values(name)
            if not got or not close(got[-1], want, 1e-9):
                result.append("%s: %s, not %r in the end" % (
                    name, rep(got[-4:]), want))

        def known(name):
            # An estimate, judged elsewhere.
            if not values(name) or values(name)[-1] <= 0:
                result.append("%s: %s" % (name, rep(values(name))))

        def total(name, want):
            got = sum(values(name))
            if not close(got, want, 1e-9):
                result.append("%s: in all %r, not %r" % (name, got, want))

        if self.compliant:
            for key, want in self.c.items():
                total("stats_counts." + key, want)
                total("stats." + key, want / interval)
            for key, want in self.ms.items():
                base = "stats.timers." + key
                total(base + ".count", len(want))
                for name, pick in (("lower", min), ("upper", max)):
                    got = values(base + "." + name)
                    if not got or pick(got) != pick(want):
                        result.append("%s.%s: %s, not %r" % (
                            base, name, rep(got[:4]), pick(want)))
            for key, want in self.g.items():
                last("stats.gauge." + key + ".value", want)
            for key, want in self.m.items():
                last("stats.meter." + key + ".count", want)
            for key, want in self.pd.items():
                known("stats.pdistinct." + key + ".count")
        else:
            for key, want in self.c.items():
                last(self.prefix + key + ".count", want)
            for key, want in self.ms.items():
                last(self.prefix + key + ".count", len(want))
                for name, pick in (("max", max),):
                    got = values(self.prefix + key + "." + name)
                    if not got or pick(got) != pick(want):
                        result.append("%s.%s: %s, not %r" % (
                            key, name, rep(got[:4]), pick(want)))
            for key, want in self.g.items():
                last(self.prefix + key + ".value", want)
            for key, want in self.m.items():
                last(self.prefix + key + ".count", want)
            for key, want in self.pd.items():
                known(self.prefix + key + ".count")
        return result


def rows_of(carbons):
    """name -> [(value, timestamp)], which daemon has it."""
    rows, where = {}, {}
    for i, carbon in enumerate(carbons):
        for name, value, timestamp in list(carbon.points):
            rows.setdefault(name, []).append((value, timestamp))
            where.setdefault(name, set()).add(i)
    return rows, where


def settle(case, carbons, ledger, interval, what, before=None):
    """Waits until the datapoints are those of the ledger, and some more."""
    missing = [None]

    def agreed():
        rows, where = rows_of(carbons)
        missing[0] = ledger.differences(rows, interval)
        return not missing[0]
    case.check(wait(agreed, step=0.1), "lost",
               "%s: after %d s the datapoints are wrong: %s", what, PATIENCE,
               rep(missing[0], 1500))
    n = sum(len(c.points) for c in carbons)
    flushes = numbers(carbons, ledger)
    case.check(wait(lambda: numbers(carbons, ledger) >= flushes + 2, step=0.1),
               "flushes", "%s: no more flushes arrive", what)
    rows, where = rows_of(carbons)
    wrong = ledger.differences(rows, interval)
    case.check(not wrong, "more", "%s: two flushes later the datapoints are "
               "wrong: %s", what, rep(wrong, 1500))
    for name in where:
        case.check(len(where[name]) == 1, "spread", "%s: %s was sent to %d "
                   "carbon daemons", what, name, len(where[name]))
    case.ctx.count("datapoints", sum(len(c.points) for c in carbons))
    return rows


def numbers(carbons, ledger):
    """How many flushes a carbon daemon has seen the end of."""
    name = "numStats"
    return sum(1 for c in carbons for p in list(c.points)
               if p[0].endswith(name))


def udp_worker(case, daemon, ledger, plan, seed, results):
    """Sends by the client library, in a thread."""
    from txstatsd.client import UdpStatsDClient
    from txstatsd.metrics.metrics import Metrics
    rng = random.Random(seed)
    try:
        client = UdpStatsDClient("127.0.0.1", daemon.udp)
        client.connect()
        recorder = Recorder(client)
        metrics = Metrics(recorder)
        sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        sock.settimeout(2)
        try:
            for i, (kind, key, value, rate) in enumerate(plan):
                unsent = recorder.unsent
                if kind == "c" and rate is None:
                    metrics.increment(key, value)
                elif kind == "c":
                    # The client would leave some out.
                    recorder.write("%s:%r|c|@%s" % (key, value, rate))
                elif kind == "ms":
                    # In the unit of the client.
                    recorder.write("%s:%r|ms" % (key, value))
                elif kind == "g":
                    metrics.gauge(key, value)
                elif kind == "m":
                    metrics.meter(key, value)
                else:
                    metrics.report(key, value, "pd")
                if recorder.unsent == unsent:
                    ledger.add(kind, key, value, rate)
                if i % 16 == 15:
                    answer = daemon.ping(sock)
                    if answer != daemon.response:
                        results.append("the ping is answered %r" % answer)
                        return
                    case.ctx.count("pings")
                if rng.random() < 0.05:
                    time.sleep(rng.choice((0.001, 0.01, 0.05)))
            if daemon.ping(sock) != daemon.response:
                results.append("the last ping is not answered")
        finally:
            client.disconnect()
            sock.close()
    except Exception, e:
        results.append("exception %r" % e)


def tcp_worker(case, daemon, ledger, plan, seed, results):
    """Sends over a connection, however the bytes are cut."""
    rng = random.Random(seed)
    try:
        client = TCPClient(daemon.tcp)
        if client.failed:
            results.append("connection refused")
            return
        text = ""
        answers = 0
        for i, (kind, key, value, rate) in enumerate(plan):
            line = "%s:%s|%s" % (key, value if kind == "pd" else repr(value),
                                 kind)
            if rate is not None:
                line += "|@%s" % rate
            text += line + "\r\n"
            ledger.add(kind, key, value, rate)
            if rng.random() < 0.05:
                text += daemon.message + "\r\n"
                answers += 1
            if rng.random() < 0.3:
                at = rng.randrange(len(text) + 1)
                client.send(text[:at])
                text = text[at:]
                if rng.random() < 0.1:
                    time.sleep(rng.choice((0.001, 0.01, 0.05)))
        client.send(text + daemon.message + "\r\n")
        want = daemon.response * (answers + 1)
        if not wait(lambda: len(client.text()) >= len(want)):
            results.append("%d pings over TCP are answered %r" % (
                answers + 1, client.text()))
        elif client.text() != want:
            results.append("answers %r, not %r" % (client.text(), want))
        client.close()
        case.ctx.count("pings", answers + 1)
    except Exception, e:
        results.append("exception %r" % e)


def send_all(case, daemon, ledger, workers, n):
    """All workers at once."""
    rng = case.rng
    threads, results = [], []
    for number in range(workers):
        plan = ledger.plan(rng, number, n)
        target = udp_worker
        if daemon.tcp is not None and rng.random() < 0.5:
            target = tcp_worker
            case.ctx.count("tcp_workers")
        else:
            case.ctx.count("udp_workers")
        thread = threading.Thread(target=target, args=(
            case, daemon, ledger, plan, rng.random(), results))
        thread.setDaemon(True)
        threads.append(thread)
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join(PATIENCE * 2)
    case.check(not results, "sending", "%s", rep(results))
    case.check(not [t for t in threads if t.isAlive()], "sending",
               "a sender does not end")
    lost = drops(daemon.udp)
    if lost:
        # Nothing a daemon can help.
        case.ctx.count("kernel_drops", lost)
        raise Dropped()


class Dropped(Exception):
    pass


class Setup(object):
    def __init__(self, case, carbons=None):
        rng = case.rng
        self.compliant = rng.choice((0, 1, 1))
        self.interval = rng.choice((100, 150, 250))
        values = {"listen-port": 0, "flush-interval": self.interval,
                  "statsd-compliance": self.compliant,
                  "instance-name": "inst"}
        prefix = "statsd."
        if rng.random() < 0.5:
            values["prefix"] = "pfx"
            prefix = "pfx."
        if rng.random() < 0.6:
            values["listen-tcp-port"] = 0
        if rng.random() < 0.5:
            values["http-port"] = 0
        if rng.random() < 0.3:
            values["monitor-message"] = "are you there"
            values["monitor-response"] = "yes"
        if rng.random() < 0.3:
            values["max-datapoints-per-message"] = rng.choice((1, 3, 50))
        if rng.random() < 0.5:
            values["report"] = rng.choice((
                "reactor", "process,reactor", "process", "io,net"))
        self.values = values
        self.sink = None
        if rng.random() < 0.4:
            self.kind = rng.choice(("udp", "tcp"))
            self.sink = Sink(self.kind)
            values["routing"] = "path_like out.* => redirect_%s 127.0.0.1 %d" % (
                self.kind, self.sink.port)
        self.carbons = [Carbon(case) for _ in range(
            carbons or rng.choice((1, 1, 2)))]
        self.ledger = Ledger(self.compliant, prefix)
        self.delay = ("stats.gauge." if self.compliant else
                      prefix) + "delay.value"


def inspectors():
    from txstatsd.report import ReactorInspector
    return [t for t in threading.enumerate()
            if isinstance(t, ReactorInspector)]


def close_all(case, setup, daemon, capture):
    """After the stop nothing of the daemon is left."""
    daemon.stop()
    case.check(wait(lambda: not [p for c in setup.carbons
                                 for p in c.factory.peers if p.open]),
               "stop", "still connected to carbon after the stop")
    wait(lambda: not [p for ports in daemon.listening for p in ports
                      if p.connected])
    if "report" in setup.values:
        rows = rows_of(setup.carbons)[0]
        got = [value for value, ts in rows.get(setup.delay, ())]
        if "reactor" in setup.values["report"]:
            case.check(got and 0 <= min(got) and max(got) < PATIENCE,
                       "delay", "the delay of the reactor is reported as %s",
                       rep(got[:5]))
        else:
            case.check(not got, "delay", "the delay of the reactor is "
                       "reported with --report %s", setup.values["report"])
        case.check(wait(lambda: not inspectors()), "stop",
                   "threads go on after the stop: %s", rep(inspectors()))
        case.ctx.count("inspected")
    still = [str(p) for ports in daemon.listening for p in ports
             if p.connected]
    case.check(not still, "stop", "still listening after the stop: %s",
               rep(still))
    n = sum(len(c.points) for c in setup.carbons)
    time.sleep(setup.interval * 2 / 1000.0)
    case.check(n == sum(len(c.points) for c in setup.carbons), "stop",
               "datapoints arrive after the stop")
    for carbon in setup.carbons:
        case.check(not carbon.broken, "carbon-frame", "%s",
                   rep(carbon.broken))
        limit = setup.values.get("max-datapoints-per-message", 1000)
        case.check(carbon.largest <= limit, "message-size",
                   "%d datapoints in a message, at most %d", carbon.largest,
                   limit)
        carbon.down()
        case.ctx.count("frames", carbon.frames)
    if setup.sink:
        setup.sink.close()
    errors = [e for e in capture.errors()]
    case.check(not errors, "logged-error", "%s", rep(
        [e.get("failure") and e["failure"].getTraceback() for e in errors],
        2500))
    case.ctx.count("daemons")


def pages(case, daemon, ledger):
    import json
    text = daemon.get("/list_metrics")
    head, sep, body = text.partition("\r\n\r\n")
    names = json.loads(body)["names"] if sep else None
    want = set()
    for kind in (ledger.c, ledger.ms, ledger.g, ledger.m, ledger.pd):
        want |= set(kind)
    case.check(sep and "200" in head.split("\r\n")[0] and
               want <= set(names), "page", "/list_metrics answers %s",
               rep(text, 1500))
    text = daemon.get("/status")
    case.check(text[:9] == "HTTP/1.0 " or text[:9] == "HTTP/1.1 ", "page",
               "/status answers %s", rep(text))
    body = text.partition("\r\n\r\n")[2]
    case.check(json.loads(body)["status"] in ("OK", "ERROR"), "page",
               "/status answers %s", rep(text))
    case.ctx.count("pages", 2)


def redirected(case, daemon, setup):
    """What is routed elsewhere arrives there, once and whole."""
    if setup.kind == "tcp":
        case.check(wait(lambda: [p for p in setup.sink.factory.peers
                                 if p.open]), "redirect",
                   "does not connect to where it redirects to")
    want = ["out.%d:%d|c" % (i % 3, i) for i in range(30)]
    sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    sock.settimeout(2)
    for i, line in enumerate(want):
        sock.sendto(line, ("127.0.0.1", daemon.udp))
        if i % 10 == 9:
            daemon.ping(sock)
    sock.close()
    wait(lambda: len(setup.sink.lines) >= len(want), 20)
    time.sleep(0.1)
    case.check(sorted(setup.sink.lines) == sorted(want), "redirect",
               "redirected by %s: %s, not %s", setup.kind,
               rep(setup.sink.lines, 900), rep(want, 300))
    case.ctx.count("redirected", len(want))


def steady(case):
    threads = Threads(case)
    try:
        steady_daemon(case)
    finally:
        threads.close()


def steady_daemon(case):
    with LogCapture() as capture:
        setup = Setup(case)
        daemon = Daemon(case, setup.carbons, setup.values)
        ledger = setup.ledger
        try:
            for _ in range(case.rng.choice((1, 2))):
                send_all(case, daemon, ledger, case.rng.randrange(1, 5),
                         case.rng.choice((20, 60, 150)))
                settle(case, setup.carbons, ledger, setup.interval / 1000.0,
                       "steady")
            if setup.sink:
                redirected(case, daemon, setup)
            if daemon.http:
                pages(case, daemon, ledger)
            bad = [t for t in capture.texts() if t.startswith("Bad line")]
            case.check(not bad, "bad-line", "well-formed messages are bad "
                       "lines: %s", rep(bad))
        except Dropped:
            case.trivial = True
        close_all(case, setup, daemon, capture)
        case.ctx.count("messages", ledger.sent)
        case.signature(setup.values, ledger.c, ledger.ms)


def outage(case):
    """The carbon daemon goes away and comes back: what was received in
    between arrives afterwards."""
    threads = Threads(case)
    try:
        outage_daemon(case)
    finally:
        threads.close()


def outage_daemon(case):
    with LogCapture() as capture:
        setup = Setup(case, 1)
        setup.values["flush-interval"] = setup.interval = 250
        carbon = setup.carbons[0]
        daemon = Daemon(case, setup.carbons, setup.values)
        ledger = setup.ledger
        try:
            send_all(case, daemon, ledger, 2, 40)
            settle(case, setup.carbons, ledger, setup.interval / 1000.0,
                   "before")
            carbon.down()
            # What is written to a connection that was closed is lost; the
            # daemon must have seen it close.
            case.check(wait(lambda: [
                t for t in capture.texts() if "clientConnectionLost" in t
                or "clientConnectionFailed" in t]), "outage",
                "the daemon does not notice")
            send_all(case, daemon, ledger, 3, 40)
            time.sleep(case.rng.choice((0.3, 0.8)))
            carbon.up()
            settle(case, setup.carbons, ledger, setup.interval / 1000.0,
                   "after")
            case.ctx.count("outages")
        except Dropped:
            case.trivial = True
        close_all(case, setup, daemon, capture)
        case.ctx.count("messages", ledger.sent)
        case.signature(setup.values, ledger.c, ledger.ms)


def run(ctx):
    ctx.scenario("steady", steady, ctx.n(7, 70))
    ctx.scenario("outage", outage, ctx.n(2, 16))
    ctx.require("messages", 400)
    ctx.require("datapoints", 1000)
    ctx.require("daemons", 5)
    ctx.require("outages", 1)
    ctx.require("thread_checks", 800)
    ctx.require("inspected", 1)
