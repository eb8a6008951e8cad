# -*- coding: utf-8 -*-
import collections
import json
import pickle
import platform
import struct

import stubs
import vnet
from vlib import LogCapture, close, rep

RULE = """The whole daemon made by createService from random options (command
line or config file), on an in-memory network in virtual time: what listens
where, which carbon daemons it connects to, what the messages sent to its
ports become there (decoded from the bytes on the carbon connections), its own
reports, the pages, dumping, routing, plugins, and what is left after the
stop. Non-trivial: datapoints reached a carbon daemon; distinct by the options
and messages."""

CARBON = {}
SLI = {"rules": "*slow* => bad IF above 5"}


class Process(object):
    memory_info = lambda self: (1, 2)
    cpu_percent = lambda self: 3
    memory_percent = lambda self: 4
    num_threads = lambda self: 5
    cpu_times = lambda self: (6, 7)
    io_counters = lambda self: (8, 9, 10, 11)
    connections = lambda self: [(3, 2, 1, ("a", 1), (), "LISTEN")]


Times = collections.namedtuple("scputimes", "user system idle")


def prepare():
    reactor = vnet.install()
    psutil = stubs.install()
    psutil.make_process = lambda pid: Process()
    psutil.cpu_readings = lambda percpu: Times(1, 2, 3)
    if not CARBON:
        import carbon.client
        # Jython's cPickle takes no keyword arguments; signals are global.
        carbon.client.pickle = pickle
        carbon.client.__dict__.pop("signal", None)
        CARBON["client"] = carbon.client
    from carbon import instrumentation
    instrumentation.stats.clear()
    return reactor


class Setup(object):
    """Random options, in the words of a command line."""

    def __init__(self, rng):
        self.values = values = {}
        self.rng = rng
        n = rng.choice((0, 1, 1, 2, 3))
        self.hosts = [rng.choice(("10.1.0.%d", "carbon%d", "c%d.example.com"))
                      % (i + 1) for i in range(n)]
        self.ports = [rng.choice((2004, 2104, 2003 + i))
                      for i in range(rng.randrange(0, n + 1))]
        self.names = [rng.choice(("a", "b", "inst%d" % i))
                      for i in range(rng.randrange(0, n + 1))]
        if n > 1 and rng.random() < 0.3 and len(self.names) == n:
            # One host, told apart by the names.
            self.hosts = [self.hosts[0]] * n
            self.names = ["n%d" % i for i in range(n)]
        some = lambda p: rng.random() < p
        if some(0.6):
            values["listen-port"] = rng.randrange(1024, 65536)
        if some(0.7):
            values["flush-interval"] = rng.choice((
                1000, 10000, 2500, 500, 60000, 30000, 1234))
        if some(0.5):
            values["prefix"] = rng.choice(("pfx", "a.b", "x-y", ""))
        if some(0.5):
            values["instance-name"] = rng.choice(("inst", "host.a", "h-1",
                                                   "42", "0"))
        values["statsd-compliance"] = rng.choice((0, 1))
        if some(0.4):
            values["monitor-message"] = rng.choice((
                "ping", "are you there", " ping ", "statsd:1|c", "P"))
        if some(0.4):
            values["monitor-response"] = rng.choice((
                "pong", "yes I am", " pong ", "p|o:n@g", "p\tq"))
        if some(0.3):
            values["dump-mode"] = rng.choice((0, 1, 1))
        if some(0.4):
            values["listen-tcp-port"] = rng.randrange(1024, 65536)
        if some(0.3):
            values["http-port"] = rng.randrange(1024, 65536)
        if some(0.3):
            values["max-queue-size"] = rng.choice((3, 10, 100))
        if some(0.3):
            values["max-datapoints-per-message"] = rng.choice((1, 2, 7, 100))
        if some(0.3):
            values["report"] = rng.choice((
                "process", "net", "io", "system", "counter", "process,io",
                "system, process", "nothing", "net ,unknown,io",
                "net, io, process , counter, reactor,  system",
                "counter,reactor,a,b,c,d,process,e,io", "", " , "))
            # Reports are made each minute.
            values["flush-interval"] = rng.choice((30000, 60000))
        if some(0.3):
            values["routing"] = rng.choice((
                "path_like drop.* => drop",
                "path_like old.* => rewrite old\\.(.*) new.\\1",
                "metric_type kg => set_metric_type g",
                "any => redirect_udp 10.7.0.1 7001",
                "path_like out.* => redirect_tcp 10.7.0.2 7002"))
        self.sli = some(0.4)

    def options(self, folder):
        from txstatsd.service import StatsDOptions
        rng = self.rng
        options = StatsDOptions()
        args = []
        shared = {}
        if self.sli or rng.random() < 0.5:
            # Part of it in a file.
            lines = ["[statsd]"]
            for k in sorted(self.values):
                if rng.random() < 0.5 and (
                        str(self.values[k]) == str(self.values[k]).strip()):
                    lines.append("%s: %s" % (k, self.values[k]))
                    shared[k] = 1
            if self.sli:
                lines += ["[plugin_sli]", "rules = " + SLI["rules"]]
            path = folder + "/conf"
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
            args += ["--config", path]
        for k in sorted(self.values):
            if k not in shared:
                if rng.random() < 0.5:
                    args.append("--%s=%s" % (k, self.values[k]))
                else:
                    args += ["--" + k, str(self.values[k])]
        for option, given in (("carbon-cache-host", self.hosts),
                              ("carbon-cache-port", self.ports),
                              ("carbon-cache-name", self.names)):
            for value in given:
                args.append("--%s=%s" % (option, value))
        options.parseOptions(args)
        return options, args

    def get(self, name, default):
        return self.values.get(name, default)

    def destinations(self):
        hosts = self.hosts or ["127.0.0.1"]
        result = []
        for i, host in enumerate(hosts):
            result.append((
                host, self.ports[i] if i < len(self.ports) else 2004,
                self.names[i] if i < len(self.names) else None))
        return result


def decode(case, text, limit):
    """The datapoints of a carbon connection."""
    found = []
    while text:
        case.check(len(text) >= 4, "carbon-frame", "left: %s", rep(text))
        size = struct.unpack("!I", text[:4])[0]
        body, text = text[4:4 + size], text[4 + size:]
        case.check(len(body) == size, "carbon-frame", "cut off: %s",
                   rep(body))
        points = pickle.loads(body)
        case.check(0 < len(points) <= limit, "message-size",
                   "%d datapoints in a message, at most %d", len(points),
                   limit)
        for metric, (timestamp, value) in points:
            found.append((metric, value, timestamp))
    return found


class Daemon(object):
    def __init__(self, case):
        self.reactor = prepare()
        from txstatsd import service, process
        from twisted.python import log
        import os
        import tempfile
        import shutil
        self.case = case
        self.reactor.reset()
        from twisted.plugins import sli_plugin
        stubs.renew(sli_plugin.sli_metric_factory)
        self.setup = Setup(case.rng)
        # So that /proc is what the test says.
        stubs.renew(process.process_report)
        folder = tempfile.mkdtemp()
        try:
            self.options, self.args = self.setup.options(folder)
        finally:
            shutil.rmtree(folder)
        case.note(self.args, self.setup.sli)
        case.note(self.setup.values)
        self.log = log
        self.capture = LogCapture()
        self.capture.__enter__()
        try:
            if case.rng.random() < 0.5:
                # As twistd makes it.
                from twisted.plugins.txstatsd_plugin import serviceMaker
                self.service = serviceMaker.makeService(self.options)
            else:
                self.service = service.createService(self.options)
        except:
            self.close()
            raise
        self.started = self.reactor.seconds()
        self.service.privilegedStartService()
        self.service.startService()
        self.interval = self.setup.get("flush-interval", 60000) / 1000.0
        self.consumed = {}

    def close(self):
        self.capture.__exit__()
        if hasattr(self.log, "info"):
            del self.log.info

    def pass_time(self, seconds):
        """In steps, so that nothing is late."""
        self.until(self.reactor.seconds() + seconds)

    def until(self, end):
        reactor = self.reactor
        while True:
            # From one call to the next.
            due = [c.getTime() for c in reactor.calls
                   if c.getTime() <= end]
            if not due:
                break
            # A little late, as always: a call exactly on time may be made
            # twice by a LoopingCall, after rounding.
            reactor.advance(max(0, min(due) - reactor.seconds()) + 1e-6)
        reactor.advance(max(0, end - reactor.seconds()))
        self.case.check(not self.reactor.failures, "exception", "%s",
                        rep(self.reactor.failures[:1], 1500))

    def carbons(self):
        return [c for c in self.reactor.connectors
                if not (c.port == 7002 and c.host == "10.7.0.2")]

    def received(self):
        """What carbon daemons got since last asked: per connector."""
        result = {}
        limit = self.setup.get("max-datapoints-per-message", 1000)
        for c in self.carbons():
            text = "".join(t.value() for t in c.all_transports)
            done = self.consumed.get(c, 0)
            self.consumed[c] = len(text)
            result[c] = decode(self.case, text[done:], limit)
        return result


def join(*parts):
    return ".".join(parts).lstrip(".")


def accept(connector):
    transport = connector.accept()
    if not hasattr(connector, "all_transports"):
        connector.all_transports = []
    connector.all_transports.append(transport)
    return transport



def daemon(case):
    d = Daemon(case)
    try:
        run_daemon(case, d)
    finally:
        d.close()


def run_daemon(case, d):
    rng = case.rng
    ctx = case.ctx
    setup = d.setup
    reactor = d.reactor
    routing = setup.get("routing", "")

    # What listens.
    wanted = [setup.get("listen-port", 8125)]
    if "redirect_udp" in routing:
        wanted.append(0)
    case.check(sorted(p.port for p in reactor.udp if p.listening) ==
               sorted(wanted), "udp-ports", "listens on UDP %s, not %s",
               [p.port for p in reactor.udp], wanted)
    wanted = [setup.values[n] for n in ("listen-tcp-port", "http-port")
              if n in setup.values]
    case.check(sorted(p.port for p in reactor.tcp if p.listening) ==
               sorted(wanted), "tcp-ports", "listens on TCP %s, not %s",
               [p.port for p in reactor.tcp], wanted)
    case.check(not [p for p in reactor.udp + reactor.tcp if p.listening and
                    p.interface not in ("", "0.0.0.0", "::")], "interface",
               "listens on %s only", rep(
                   [(p.port, p.interface) for p in reactor.udp + reactor.tcp
                    if p.listening]))
    udp = [p for p in reactor.udp
           if p.port == setup.get("listen-port", 8125)][0]
    tcp = [p for p in reactor.tcp
           if p.port == setup.values.get("listen-tcp-port")]
    http = [p for p in reactor.tcp
            if p.port == setup.values.get("http-port")]

    # The carbon daemons.
    carbons = d.carbons()
    destinations = setup.destinations()
    case.check(sorted((c.host, c.port) for c in carbons) ==
               sorted((h, p) for h, p, n in destinations), "carbon",
               "connects to %s instead of %s",
               [(c.host, c.port) for c in carbons], destinations)
    for c in carbons:
        c.all_transports = []
    late = [c for c in carbons if rng.random() < 0.2]
    for c in carbons:
        if c not in late:
            accept(c)
    for c in reactor.connectors:
        if c not in carbons:
            accept(c)

    # Messages.
    peer = ("10.0.0.7", 5555)
    client = tcp[0].open(peer) if tcp else None
    statsd = bool(setup.get("statsd-compliance", 1))
    prefix = setup.get("prefix", "statsd")
    instance = setup.get("instance-name", platform.node())
    counters, gauges, dumped = {}, {}, []
    queue_limit = setup.get("max-queue-size", 20000)

    def send(text):
        if client is not None and rng.random() < 0.4:
            client.deliver(text + "\r\n")
        else:
            udp.deliver(text, peer)
        ctx.count("messages")

    def batch():
        for _ in range(rng.choice((1, 5, 12))):
            n = rng.randrange(100)
            key = "%s.k%d" % (rng.choice(("out", "drop", "old", "a")),
                              rng.randrange(4))
            kind = rng.choice(("c", "c", "g", "g", "kg"))
            value = "%d" % n
            if rng.random() < 0.1:
                # A long message is still one message.
                value = value.zfill(rng.choice((500, 1500, 3000, 8000)))
                ctx.count("long_messages")
            send("%s%s:%s|%s" % (key, kind[-1], value, kind))
            if kind == "kg":
                if "kg" not in routing:
                    continue
                kind = "g"
            key += kind
            if "drop.*" in routing and key.startswith("drop."):
                continue
            if "old.*" in routing and key.startswith("old."):
                key = "new." + key[4:]
            if kind == "c":
                counters[key] = counters.get(key, 0) + n
            else:
                gauges[key] = n
        if rng.random() < 0.5:
            send("slowthing:7|sli")
            plugin["sli"] = plugin.get("sli", 0) + 1
        if rng.random() < 0.2:
            send("things:x%d|pd" % rng.randrange(3))
            plugin["pd"] = 1
        if rng.random() < 0.3:
            udp.deliver(setup.get("monitor-message", "txstatsd ping"), peer)
            expected_pongs.append(1)
        if client is not None and rng.random() < 0.3:
            before = client.value()
            client.deliver(setup.get("monitor-message", "txstatsd ping") +
                           "\r\n")
            case.check(client.value()[len(before):] == setup.get(
                "monitor-response", "txstatsd pong"), "tcp-monitor",
                "%r", client.value()[len(before):])
    plugin = {}
    plugins_seen = set()
    expected_pongs = []
    points = 0
    owner = {}
    for c in late:
        case.note("late", c.host, c.port)
    flushes = rng.randrange(2, 5)
    for flush in range(flushes):
        counters_before = dict((k, 0) for k in counters)
        counters.clear()
        counters.update(counters_before)
        plugin.clear()
        batch()
        d.until(d.started + (flush + 1) * d.interval - 0.02)
        case.check(not sum(map(len, d.received().values())), "early",
                   "datapoints before the flush")
        batch()
        d.until(d.started + (flush + 1) * d.interval + 0.1)
        got = d.received()
        table = {}
        case.note("flush", flush, d.reactor.seconds() - d.started, [(c.host, sorted(f)) for c, f in got.items()])
        for c, found in got.items():
            for name, value, timestamp in found:
                if c not in late:
                    case.check(name not in table, "twice", "%r reached carbon "
                               "twice in one flush", name)
                    table[name] = value
                case.check(owner.setdefault(name, c) is c, "owner",
                           "%r went to another carbon daemon", name)
                points += 1
        if not late:
            judge(case, d, table, flush, statsd, prefix, instance, counters,
                  gauges, plugin, plugins_seen)
    if not late:
        case.check(points > 0, "nothing", "nothing reached carbon")
    case.check(udp.sent == [(setup.get("monitor-response", "txstatsd pong"),
                             peer)] * len(expected_pongs), "udp-monitor",
               "%d pings, answered %s", len(expected_pongs), rep(udp.sent))
    ctx.count("datapoints", points)

    # Late carbon daemons get what was queued for them.
    for c in late:
        accept(c)
        d.pass_time(0.05)  # (not as far as the next flush)
        found = d.received()[c]
        case.check(len(found) <= max(queue_limit, 1), "queue-limit",
                   "%d datapoints were queued, at most %d", len(found),
                   queue_limit)
        if len(carbons) == 1:
            case.check(found, "not-queued", "nothing was queued")
            ctx.count("queued", len(found))
        ctx.count("late")

    # The pages.
    if http:
        def page(path):
            transport = http[0].open(peer)
            transport.deliver("GET %s HTTP/1.0\r\n\r\n" % path)
            for _ in range(4):
                reactor.turn()
            answer = transport.value()
            case.check(not reactor.failures, "exception", "GET %s: %s", path,
                       rep(reactor.failures[:1], 1500))
            try:
                result = json.loads(answer.split("\r\n\r\n", 1)[1])
            except (ValueError, IndexError):
                result = None
            case.check(isinstance(result, dict), "http-page", "%s answered "
                       "%s", path, rep(answer, 900))
            return result

        status = page("/status")
        case.check(status.get("flush_interval") == setup.get(
            "flush-interval", 60000), "http-status", "%s", rep(status))
        names = page("/list_metrics").get("names", ())
        case.check(set(names) >= set(counters) | set(gauges),
                   "http-names", "%s lacks some of %s", rep(names),
                   rep(sorted(set(counters) | set(gauges))))
        ctx.count("pages", 2)

    # Dumping.
    texts = d.capture.texts()
    ins = [t for t in texts if t.startswith("In: ")]
    outs = [t for t in texts if t.startswith("Out: ")]
    if setup.get("dump-mode", 0):
        case.check(len(outs) >= points and ins, "dump", "%d datapoints, %d "
                   "dumped, %d messages dumped", points, len(outs), len(ins))
        ctx.count("dumped", len(outs))
    else:
        case.check(not ins and not outs, "dump", "dumped %s without being "
                   "told to", rep((ins + outs)[:3]))

    # Reports.
    if "report" in setup.values and not late:
        reports(case, d, statsd, prefix, instance)

    # Redirects.
    if "redirect_udp" in routing:
        out = [p for p in reactor.udp if p.port == 0][0]
        case.check(out.sent and set(a for m, a in out.sent) ==
                   set([("10.7.0.1", 7001)]), "redirect-udp", "sent %s",
                   rep(out.sent[:3]))
        ctx.count("redirected", len(out.sent))
    if "redirect_tcp" in routing:
        out = [c for c in reactor.connectors if c.port == 7002][0]
        text = out.all_transports[0].value()
        case.check(all(l.startswith("out.") and l.endswith("\r")
                       for l in text.split("\n")[:-1]), "redirect-tcp",
                   "sent %s", rep(text[:300]))
        ctx.count("redirected", text.count("\n"))

    # The end.
    d.service.stopService()
    d.pass_time(1)
    d.received()
    case.check(not [p for p in reactor.udp + reactor.tcp if p.listening],
               "stop-ports", "still listening")
    before = [len(t.value()) for c in reactor.connectors
              for t in c.all_transports]
    d.pass_time(2 * d.interval)
    after = [len(t.value()) for c in reactor.connectors
             for t in c.all_transports]
    case.check(before == after, "stop-flush", "still flushing")
    case.check(not [c for c in carbons if c.state == "connected"],
               "stop-carbon", "still connected to carbon")
    # (Carbon's handlers of a full queue fail by themselves.)
    errors = [e for e in d.capture.errors()
              if "carbon/events.py" not in str(e.get("failure"))]
    case.check(not errors, "logged-error", "%s", rep(
        [str(e.get("failure") or e.get("message")) for e in errors[:2]]))
    case.signature(case.log, counters, gauges)
    case.trivial = not points
    ctx.count("daemons")


def judge(case, d, table, flush, statsd, prefix, instance, counters, gauges,
          plugin, plugins_seen):
    """The datapoints of one flush, as they reached carbon."""
    ctx = case.ctx
    setup = d.setup
    plain = False

    def want(name, value, what):
        case.check(name in table, "missing", "no %s in flush %d: %s", name,
                   flush, rep(sorted(table)[:40]))
        case.check(close(table[name], value), "value", "%s is %r in flush "
                   "%d, should be %r", name, table[name], flush, value)
        ctx.count("values_checked")

    if statsd and d.setup.get("dump-mode", 0) and not any(
            n.startswith("stats.") for n in table):
        # Dumping replaces the compliant processor, and its names.
        statsd, prefix, plain = False, "", True
    if statsd:
        for key, n in counters.items():
            want("stats_counts." + key, n, "counter")
            want("stats." + key, n / d.interval, "rate")
        for key, n in gauges.items():
            want("stats.gauge.%s.value" % key, n, "gauge")
        base, own = "statsd.", "stats.gauge."
    else:
        for key, n in gauges.items():
            want(join(prefix, key, "value"), n, "gauge")
        for key in counters:
            case.check(join(prefix, key, "count") in table, "missing",
                       "no counter %s", key)
        base = "statsd." if plain else join(prefix, instance, "")
        own = join(prefix, "")
    case.check(base + "numStats" in table, "missing", "no %snumStats: %s",
               base, rep([n for n in table if "numStats" in n]))
    if plugin.get("sli"):
        plugins_seen.add("sli")
        path = "stats.SLI.slowthing" if statsd else join(prefix, "slowthing")
        want(path + ".count", plugin["sli"], "sli")
        if setup.sli:
            want(path + ".count_bad", plugin["sli"], "sli")
    if plugin.get("pd"):
        found = [n for n in table if "things" in n and
                 n.endswith(".count_1hour")]
        case.check(found, "missing", "no distinct count of things: %s",
                   rep([n for n in table if "things" in n]))
    # Its own statistics, from the second flush on.
    if flush >= 1:
        for host, port, name in setup.destinations():
            path = ("%s.destinations.%s_%d_%s" % (
                instance, host.replace(".", "_"), port, name))
            mine = own + path + ".attemptedRelays" + ".value"
            if mine in table:
                ctx.count("own_reports")
        found = [n for n in table if ".destinations." in n]
        case.check(found, "own-reports", "nothing about the carbon clients: "
                   "%s", rep(sorted(table)[:30]))
        paths = ["%s.destinations.%s_%d_%s." % (
            instance, host.replace(".", "_"), port, name)
            for host, port, name in setup.destinations()]
        for n in found:
            case.check(any(n.startswith(own + p) for p in paths),
                       "own-report-name", "%s, carbon daemons %s", n,
                       rep(paths))


WANTED_REPORTS = {
    "process": ("proc.cpu.percent", "proc.memory.percent", "proc.threads"),
    "counter": ("proc.cpu.user", "proc.cpu.system"),
    "io": ("proc.io.read.count", "proc.io.write.bytes"),
    "net": ("proc.net.status.listen",),
    "system": ("sys.mem.MemTotal", "sys.loadavg.oneminute",
               "sys.net.lo.bytes.received", "sys.cpu.idle"),
}


def reports(case, d, statsd, prefix, instance):
    import threading
    from txstatsd.report import ReactorInspector
    d.received()
    names = set()
    # Two minutes for differences of counters, and a flush after them.
    for _ in range(3):
        d.pass_time(60)
    d.pass_time(d.interval + 1)
    for found in d.received().values():
        names.update(n for n, v, t in found)
    base = ("stats.gauge." if statsd else join(prefix, "")) + instance + "."
    if statsd and d.setup.get("dump-mode", 0) and not any(
            n.startswith("stats.") for n in names):
        base = instance + "."
    chosen = [r.strip() for r in d.setup.values["report"].split(",")]
    inspectors = [t for t in threading.enumerate()
                  if isinstance(t, ReactorInspector) and
                  t.ident not in d.reactor.stale]
    case.check(len(inspectors) == chosen.count("reactor"), "inspector",
               "--report %s starts %s", d.setup.values["report"],
               rep(inspectors))
    case.ctx.count("inspectors", len(inspectors))
    wanted = ["reactor.readers", "reactor.writers"]
    for r in chosen:
        wanted += WANTED_REPORTS.get(r, ())
    for name in wanted:
        case.check(base + name + ".value" in names, "report-missing",
                   "--report %s: no %s in %s", d.setup.values["report"],
                   base + name + ".value", rep(sorted(
                       n for n in names if n.startswith(base))))
        case.ctx.count("reported")
    for r in WANTED_REPORTS:
        if r not in chosen:
            for name in WANTED_REPORTS[r]:
                case.check(base + name + ".value" not in names,
                           "report-unasked", "--report %s reports %s",
                           d.setup.values["report"], name)


def run(ctx):
    ctx.assumptions = [
        "the reactor, sockets and psutil are stand-ins; carbon's clients and "
        "Twisted's services are real"]
    ctx.scenario("daemon", daemon, ctx.n(60, 1000))
    ctx.require("daemons", 30)
    ctx.require("datapoints", 2000)
    ctx.require("values_checked", 500)
    ctx.require("own_reports", 20)
    ctx.require("reported", 10)
    ctx.require("dumped", 50)
    ctx.require("late", 3)
