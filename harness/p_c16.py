# -*- coding: utf-8 -*-
import errno
import math
import socket
import sys
import time

import rig
from gen import key_pool
from vlib import FakeClock, close, rep

RULE = """Random calls of the client's metrics (plain and extended), with
namespaces, sample rates, unicode names and numbers of every kind: each
message is taken apart and compared with the call, and everything is also sent
into real processors (directly, and over connections that lose some) whose
flush must report what was measured. UDP clients in every state, with sockets
that fail. Non-trivial: a message was sent; distinct by the calls made."""


class Wire(object):
    def __init__(self, target=None, loss=0.0, rng=None):
        self.got = []
        self.target = target
        self.loss = loss
        self.rng = rng

    def write(self, data):
        if self.loss and self.rng.random() < self.loss:
            return
        self.got.append(data)
        if self.target is not None:
            self.target.write(data)


def number(rng, kind):
    r = rng.random()
    if r < 0.4:
        v = rng.randrange(0, 1000)
    elif r < 0.6:
        v = rng.randrange(0, 1 << 14) / 64.0
    elif r < 0.7:
        v = rng.choice((0, 1, 2 ** 31, 2 ** 40, 10 ** 15, 10 ** 20, 0.5,
                        0.001, 1e-7, 123456.789))
    elif r < 0.8:
        v = rng.random() * 10 ** rng.randrange(-3, 8)
    else:
        v = rng.randrange(1, 10)
    if kind in ("c", "g") and rng.random() < 0.3:
        v = -v
    return v


def split(case, data, call):
    """(name, value, type, extra) of what was sent."""
    case.check(isinstance(data, str), "bytes", "%s sent %r, not bytes",
               call, data)
    name, sep, rest = data.partition(":")
    case.check(sep, "format", "%s sent %r", call, data)
    fields = rest.split("|")
    case.check(2 <= len(fields) <= 3, "format", "%s sent %r", call, data)
    return name, fields[0], fields[1], fields[2] if len(fields) > 2 else None


def same_number(text, value):
    try:
        got = float(text)
    except ValueError:
        return False
    if isinstance(value, (int, long)):
        return text.strip("+") == str(value) or got == value
    return close(got, value, 1e-10)


def qualify(namespace, name):
    full = namespace + "." + name if namespace else name
    return full.encode("utf-8") if isinstance(full, unicode) else full


def wire(case):
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    rng = case.rng
    ctx = case.ctx
    extended = rng.random() < 0.5
    namespace = rng.choice(("", "ns", "a.b.c", None, "x-1", "x."))
    connection = Wire()
    metrics = (ExtendedMetrics if extended else Metrics)(connection,
                                                         namespace)
    # Another one in the same program, with the same names.
    elsewhere = Wire()
    other = (ExtendedMetrics if extended else Metrics)(elsewhere, namespace)
    names = key_pool(rng, rng.randrange(1, 5))
    if rng.random() < 0.3:
        names.append((namespace or "ns") + rng.choice((".", "")) +
                     rng.choice(("", "x", names[0])))
    if rng.random() < 0.4:
        # Names that begin or end with another.
        names.append(rng.choice((names[0] + ".x", names[0] + "x",
                                 "x." + names[0], "x" + names[0])))
    if rng.random() < 0.3:
        names.append(u"caf\xe9.%d" % rng.randrange(9))
    if rng.random() < 0.3:
        names = [unicode(n) if rng.random() < 0.5 else n for n in names]
    rates = dict((n, [rng.choice((1, 1, 1, 2, 1.0, 0.5, 0.1, 0.125, 0.9375,
                                  0.333, 0.999, 0.015625))
                      for _ in range(rng.choice((1, 1, 3)))])
                 for n in names)
    totals, last_rate = {}, {}
    since = None
    sent = 0
    for _ in range(rng.randrange(3, 40)):
        if rng.random() < 0.1:
            rng.choice((other.increment, other.decrement, other.gauge,
                        other.meter, other.timing))(rng.choice(names), 77)
            case.check(len(elsewhere.got) == 1, "sent", "another client sent "
                       "%s", rep(elsewhere.got))
            del elsewhere.got[:]
        if rng.random() < 0.03:
            other.clear(rng.choice(names))
            del elsewhere.got[:]
        name = rng.choice(names)
        rate = rng.choice(rates[name])
        full = qualify(namespace, name)
        kind = rng.choice(("increment", "decrement", "gauge", "meter",
                           "timing", "report", "sli", "sli_error",
                           "distinct", "clear", "elapsed"))
        v = number(rng, {"increment": "c", "decrement": "c",
                         "gauge": "g"}.get(kind, "ms"))
        expect, extra, low_high = None, None, None
        kwargs = {}
        if rate != 1 or rng.random() < 0.3:
            kwargs["sample_rate"] = rate
        sampled = rate < 1
        if kind in ("increment", "decrement"):
            if rng.random() < 0.3:
                v = 1
                getattr(metrics, kind)(name, **kwargs)
            else:
                getattr(metrics, kind)(name, v, **kwargs)
            delta = v if kind == "increment" else -v
            if extended:
                totals[full] = totals.get(full, 0) + delta
                last_rate[full] = rate
                expect = totals[full], "c"
            else:
                expect = delta, "c"
        elif kind == "gauge":
            metrics.gauge(name, v, **kwargs)
            expect = v, "g"
        elif kind == "meter":
            if rng.random() < 0.3:
                v = 1
                metrics.meter(name, **kwargs)
            else:
                metrics.meter(name, v, **kwargs)
            expect = v, "m"
        elif kind == "timing":
            metrics.timing(name, v, **kwargs)
            if since is not None:
                since = since[0], time.time()
            expect = v * 1000, "ms"
        elif kind == "elapsed":
            if since is None or rng.random() < 0.5:
                a0 = time.time()
                metrics.reset_timing()
                a1 = time.time()
            else:
                # Since the last one (or the last timing of any kind).
                a0, a1 = since
                ctx.count("timings_in_a_row")
            time.sleep(rng.choice((0, 0.002, 0.004)))
            if rng.random() < 0.4:
                rng.choice((other.reset_timing, other.calculate_duration))()
            b0 = time.time()
            metrics.timing(name, **kwargs)
            b1 = time.time()
            since = b0, b1
            low_high = (b0 - a1) * 1000 - 0.01, (b1 - a0) * 1000 + 0.01
            expect = None, "ms"
        elif kind == "report":
            mtype = rng.choice(("sli", "pd", "c", "zz"))
            extra = rng.choice((None, "@0.5", 7, 0))
            if extra is None:
                metrics.report(name, v, mtype)
            else:
                metrics.report(name, v, mtype, extra)
            expect, sampled = (v, mtype), False
        elif kind == "sli":
            extra = rng.choice((None, 1, 2.5, 0))
            if extra is None:
                metrics.sli(name, v)
            else:
                metrics.sli(name, v, extra)
            expect, sampled = (v, "sli"), False
        elif kind == "sli_error":
            metrics.sli_error(name)
            expect, sampled = ("error", "sli"), False
        elif kind == "distinct":
            v = rng.choice(("joe", "10.0.0.1", 17, "x y"))
            metrics.distinct(name, v)
            expect, sampled = (str(v), "pd"), False
        else:
            metrics.clear(name)
            if extended and full in totals:
                totals[full] = 0
                expect = 0, "c"
                # At the rate the counter was last used with.
                rate, sampled = last_rate[full], last_rate[full] < 1
        call = "%s(%r, %r, %r, %s) with namespace %r" % (
            kind, name, v, extra, kwargs, namespace)
        case.note(call)
        ctx.count("calls")
        got, connection.got = connection.got, []
        if expect is None:
            case.check(not got, "format", "%s sent %s", call, rep(got))
            continue
        case.check(len(got) == 1 or (sampled and not got), "sent",
                   "%s sent %s", call, rep(got))
        for data in got:
            sent += 1
            gname, gvalue, gtype, gextra = split(case, data, call)
            case.check(gname == full, "name", "%s sent %r, the name is %r",
                       call, data, full)
            case.check(gtype == expect[1], "type", "%s sent %r", call, data)
            if low_high is not None:
                value = float(gvalue)
                case.check(low_high[0] <= value <= low_high[1], "elapsed",
                           "%s sent %r for a time between %r and %r ms",
                           call, data, low_high[0], low_high[1])
            elif isinstance(expect[0], str):
                case.check(gvalue == expect[0], "value", "%s sent %r, not "
                           "%r", call, data, expect[0])
            else:
                case.check(same_number(gvalue, expect[0]), "value",
                           "%s sent %r, the value is %r", call, data,
                           expect[0])
            if sampled:
                case.check(gextra is not None and gextra[:1] == "@" and
                           float(gextra[1:]) == rate, "rate",
                           "%s sent %r, sampled at %r", call, data, rate)
            elif extra is not None:
                case.check(gextra == str(extra), "extra", "%s sent %r",
                           call, data)
            else:
                case.check(gextra is None, "rate", "%s sent %r", call, data)
    ctx.count("messages", sent)
    case.trivial = not sent
    case.signature(case.log)


def sampling(case):
    """As many messages as the rate says, all of them tagged, so that what
    the server scales up is right."""
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.client import InternalClient
    rng = case.rng
    rate = rng.choice((0.1, 0.25, 0.5, 0.75, 0.9, 0.01, 0.0, 1, 1.0, 3, 0.125,
                       0.9375, 0.333, 0.005, 0.0125))
    method = rng.choice(("increment", "decrement", "gauge", "meter",
                         "timing"))
    n = 3000 if rate >= 0.05 or not rate else 20000
    clock = FakeClock()
    processor = rig.processor("statsd", clock)
    connection = Wire(InternalClient(processor))
    metrics = Metrics(connection, "s")
    for i in range(n):
        getattr(metrics, method)("k", 2, sample_rate=rate)
    sent = len(connection.got)
    case.note(method, rate, sent)
    p = min(rate, 1.0)
    spread = 6 * math.sqrt(n * p * (1 - p)) + 1e-9
    case.check(abs(sent - n * p) <= spread + (1 if p == 0 else 0),
               "sampling", "%d of %d %s calls sent at rate %r", sent, n,
               method, rate)
    case.check(len(set(connection.got)) <= 1, "format", "%s",
               rep(set(connection.got)))
    clock.advance(10)
    found = rig.table(processor.flush(interval=10000))
    if method in ("increment", "decrement") and sent:
        sign = 2 if method == "increment" else -2
        count = found["stats_counts.s.k"][0]
        case.check(close(count, sign * sent / p), "scaled",
                   "%d messages at rate %r counted as %r", sent, rate, count)
    case.ctx.count("sampled_calls", n)
    case.signature(method, rate, sent)


def rare(case):
    """Rates so low that they are written with an exponent."""
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.client import InternalClient
    rng = case.rng
    rate = rng.choice((5e-05, 9e-05, 0.00025))
    clock = FakeClock()
    processor = rig.processor("statsd", clock)
    connection = Wire(InternalClient(processor))
    metrics = Metrics(connection, "s")
    calls = 0
    while len(connection.got) < 2 and calls < 20 / rate:
        for _ in range(500):
            metrics.increment("k", 3, sample_rate=rate)
        calls += 500
    sent = len(connection.got)
    case.check(sent > 0, "sampling", "none of %d calls sent at rate %r",
               calls, rate)
    clock.advance(10)
    count = rig.table(processor.flush(interval=10000))["stats_counts.s.k"][0]
    case.check(close(count, 3 * sent / rate), "scaled",
               "%d messages at rate %r (%s) counted as %r", sent, rate,
               rep(connection.got[:1]), count)
    case.ctx.count("rare_messages", sent)
    case.signature(rate, calls)


def trip(case):
    """What is measured arrives in the flush of the daemon."""
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    from txstatsd.client import InternalClient
    rng = case.rng
    ctx = case.ctx
    mode = rng.choice(("statsd", "conf"))
    loss = rng.choice((0.0, 0.0, 0.3)) if mode == "conf" else 0.0
    clock = FakeClock()
    processor = rig.processor(mode, clock, "pfx" if mode == "conf" else "")
    connection = Wire(InternalClient(processor), loss, rng)
    namespace = rng.choice(("", "app.web", "n"))
    metrics = (Metrics if mode == "statsd" else ExtendedMetrics)(
        connection, namespace)
    dot = namespace + "." if namespace else ""
    names = [u"caf\xe9" if rng.random() < 0.05 else "k%d" % i
             for i in range(rng.randrange(1, 4))]
    counters, running, gauges, meters, times, slis = {}, {}, {}, {}, {}, {}
    rounds = rng.randrange(1, 4)
    for r in range(rounds):
        times, slis = {}, {}
        window = {}
        for _ in range(rng.randrange(1, 30)):
            n = rng.choice(names)
            kind = rng.choice(("c", "c", "d", "g", "m", "ms", "sli", "err"))
            v = rng.randrange(0, 1 << 12) / 8.0
            before = len(connection.got)
            key = n + "." + kind.replace("d", "c").replace("err", "sli")
            if kind == "c":
                metrics.increment(key, v)
                running[key] = running.get(key, 0) + v
            elif kind == "d":
                metrics.decrement(key, v)
                running[key] = running.get(key, 0) - v
            elif kind == "g":
                metrics.gauge(key, v)
            elif kind == "m":
                metrics.meter(key, v)
            elif kind == "ms":
                metrics.timing(key, v)
            elif kind == "sli":
                if rng.random() < 0.3:
                    metrics.sli(key, v, 3)
                else:
                    metrics.sli(key, v)
            else:
                metrics.sli_error(key)
            ctx.count("round_trips")
            if len(connection.got) == before:
                continue
            if kind in "cd":
                window[key] = window.get(key, 0) + (v if kind == "c" else -v)
                counters[key] = running[key]
            elif kind == "g":
                gauges[key] = v
            elif kind == "m":
                meters[key] = meters.get(key, 0) + v
            elif kind == "ms":
                times.setdefault(key, []).append(v * 1000)
            else:
                c = slis.setdefault(key, [0, 0])
                c[0] += 1
                c[1] += kind == "err"
        clock.advance(10)
        found = rig.table(processor.flush(interval=10000))
        names_seen = "%s mode, namespace %r, reported %s" % (
            mode, namespace, rep(sorted(found), 1500))

        def get(name):
            if isinstance(name, unicode):
                name = name.encode("utf-8")
            case.check(name in found, "missing", "%r was measured but not "
                       "reported: %s", name, names_seen)
            return found[name][0]

        def want(name, value):
            got = get(name)
            case.check(close(got, value, 1e-6), "round-trip",
                       "%s is %r, %r was measured (%s mode, round %d)",
                       rep(name), got, value, mode, r)

        for key in counters:
            k = ascii(dot + key)
            if mode == "statsd":
                want("stats_counts." + k, window.get(key, 0))
            else:
                want("pfx." + k + ".count", math.trunc(counters[key]))
        for key in gauges:
            k = ascii(dot + key)
            want(("stats.gauge." if mode == "statsd" else "pfx.") + k +
                 ".value", gauges[key])
        for key in meters:
            k = ascii(dot + key)
            want(("stats.meter." if mode == "statsd" else "pfx.") + k +
                 ".count", meters[key])
        for key in times:
            k = ascii(dot + key)
            base = ("stats.timers." if mode == "statsd" else "pfx.") + k
            low, high = (("lower", "upper") if mode == "statsd" else
                         ("min", "max"))
            want(base + "." + low, min(times[key]))
            want(base + "." + high, max(times[key]))
        for key in slis:
            k = ascii(dot + key)
            base = ("stats.SLI." if mode == "statsd" else "pfx.") + k
            want(base + ".count", slis[key][0])
            want(base + ".error", slis[key][1])
    case.signature(mode, namespace, loss, connection.got)
    case.trivial = not connection.got


def ascii(key):
    if isinstance(key, unicode):
        return str(key.replace(u"\xe9", u""))
    return key


def distinct_trip(case):
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.client import InternalClient
    rng = case.rng
    mode = rng.choice(("statsd", "conf"))
    clock = FakeClock()
    processor = rig.processor(mode, clock)
    metrics = Metrics(InternalClient(processor), "ns")
    n = rng.choice((1, 20, 200))
    for i in range(n):
        metrics.distinct("users", "user%d" % i)
    clock.advance(10)
    found = rig.table(processor.flush(interval=10000))
    name = ("stats.pdistinct." if mode == "statsd" else "") + (
        "ns.users.count")
    case.check(name in found, "distinct-type-d", "%d distinct items "
               "measured, no %s reported: %s", n, name,
               rep(sorted(found), 900))
    count = found[name][0]
    case.check(n * 0.3 - 2 <= count <= n * 3 + 3, "distinct",
               "%d distinct items counted as %r", n, count)
    case.ctx.count("distinct_trips")
    case.signature(mode, n)


class FakeSocket(object):
    made = []
    fault = None

    def __init__(self, *args):
        self.args = args
        self.blocking = True
        self.sent = []
        self.closed = False
        FakeSocket.made.append(self)

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, value):
        self.blocking = value != 0

    def sendto(self, data, *rest):
        if self.closed:
            raise socket.error(errno.EBADF, "closed")
        if FakeSocket.fault is not None:
            raise FakeSocket.fault
        self.sent.append((data, rest[-1]))
        return len(data)

    def close(self):
        self.closed = True


def udp(case):
    """The blocking client never raises and never blocks."""
    from txstatsd.client import UdpStatsDClient
    from txstatsd.metrics.metrics import Metrics
    rng = case.rng
    ctx = case.ctx
    real_socket, real_lookup = socket.socket, socket.getaddrinfo
    del FakeSocket.made[:]
    FakeSocket.fault = None
    lookups = []
    problem = rng.choice((None,) * 6 + (
        TypeError("x"), socket.error(1, "x"), socket.gaierror(-2, "x"), []))

    def lookup(host, port, *args):
        lookups.append((host, port))
        if problem is not None and not isinstance(problem, list):
            raise problem
        if problem == []:
            return []
        return [(2, 2, 17, "", ("192.0.2.9", int(port)))]

    host = rng.choice(("stats.example", "localhost", "10.0.0.7", None))
    port = rng.choice((8125, 1, 9, None)) if host else rng.choice((8125, None))
    socket.getaddrinfo = lookup
    try:
        try:
            client = UdpStatsDClient(host, port)
            made = True
        except ValueError:
            made = False
        resolvable = problem is None or host is None or port is None
        case.check(made == resolvable, "resolve", "UdpStatsDClient(%r, %r) "
                   "%s when the lookup gives %r", host, port,
                   "works" if made else "raises", problem)
        if not made:
            ctx.count("unresolvable")
            case.signature(host, port, problem)
            return
        if host and port:
            case.check(str(client) == "%s:%d" % (host, port), "name",
                       "the client calls itself %r", str(client))
        socket.socket = FakeSocket
        connected = False
        metrics = Metrics(client, "ns")
        expected = {}
        key, value = "k", 1
        for i in range(rng.randrange(3, 30)):
            r = rng.random()
            if r < (0.12 if connected else 0.5):
                client.connect()
                connected = True
                case.note("connect")
            elif r < 0.22:
                client.disconnect()
                connected = False
                case.note("disconnect")
                for s in FakeSocket.made[-1:]:
                    case.check(s.closed, "close", "the socket stays open "
                               "after disconnect")
            else:
                FakeSocket.fault = rng.choice((None,) * 3 + (
                    socket.error(errno.EAGAIN, "busy"),
                    socket.error(errno.EMSGSIZE, "long"),
                    socket.gaierror(-3, "x"),
                    socket.error(errno.ECONNREFUSED, "refused"),
                    socket.error(errno.EPERM, "firewall"),
                    socket.error(errno.ENOBUFS, "no room"),
                    socket.error(errno.ENETUNREACH, "no route"),
                    socket.error(errno.EINVAL, "what"),
                    socket.error("of some other kind"),
                    socket.timeout("timed out")))
                if i == 0 or rng.random() < 0.6:
                    # Else the same as before.
                    key = rng.choice(("k%d", "%d" + ".a" * 40, "k" * 300 +
                                      "%d")) % i
                    value = i
                data = "ns.%s:%d|c" % (key, value)
                if rng.random() < 0.5:
                    result = client.write(data)
                else:
                    metrics.increment(key, value)
                    result = "?"
                works = (connected and host is not None and
                         port is not None)
                ok = works and FakeSocket.fault is None
                case.note("write", ok)
                ctx.count("writes")
                if result != "?":
                    case.check(result == (len(data) if ok else None),
                               "result", "write returned %r with the socket "
                               "%s, fault %r", result,
                               "connected" if connected else "closed",
                               FakeSocket.fault)
                if ok:
                    s = FakeSocket.made[-1]
                    expected.setdefault(s, []).append(
                        (data, ("192.0.2.9", port)))
                    case.check(not s.blocking, "blocking",
                               "the socket blocks")
                    ctx.count("written")
                for s in FakeSocket.made:
                    case.check(s.sent == expected.get(s, []), "sent",
                               "sent %s, not %s", rep(s.sent[-2:]),
                               rep(expected.get(s, [])[-2:]))
        if host and port:
            case.check(lookups == [(host, port)], "lookup", "looked up %s",
                       rep(lookups))
    finally:
        socket.socket, socket.getaddrinfo = real_socket, real_lookup
    case.signature(host, port, case.log)


def loopback(case):
    """With real sockets: what is sent arrives, and nothing else happens when
    nobody listens or the datagram is too large."""
    from txstatsd.client import UdpStatsDClient
    rng = case.rng
    server = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    server.bind(("127.0.0.1", 0))
    server.settimeout(5)
    port = server.getsockname()[1]
    client = UdpStatsDClient("127.0.0.1", port)
    try:
        client.write("early:1|c")
        client.connect()
        client.write("x" * 70000)
        want = ["k%d:%d|c" % (i, i) for i in range(rng.randrange(1, 15))]
        for data in want:
            case.check(client.write(data) == len(data), "result",
                       "write did not send")
        got = []
        while len(got) < len(want):
            try:
                got.append(server.recvfrom(65536)[0])
            except socket.timeout:
                break
        case.check(got == want, "loopback", "received %s, not %s", rep(got),
                   rep(want))
        server.close()
        for i in range(3):
            client.write("nobody:1|c")
        client.disconnect()
        client.write("late:1|c")
        client.disconnect()
        client.connect()
        client.write("again:1|c")
        client.disconnect()
        case.ctx.count("datagrams", len(got))
    finally:
        server.close()
    case.signature(want)


class NoTwisted(object):
    """Twisted is not installed, or refuses to be imported."""

    def __init__(self, problem):
        self.problem = problem

    def find_module(self, name, path=None):
        if name == "twisted" or name.startswith("twisted."):
            return self

    def load_module(self, name):
        raise self.problem


def plain(case):
    """The plain client and the metrics where Twisted cannot be used."""
    rng = case.rng
    problem = rng.choice((ImportError("no module named twisted"),
                          IOError("sys.stdout access restricted")))
    saved = dict((name, module) for name, module in sys.modules.items()
                 if name.split(".")[0] in ("twisted", "txstatsd"))
    finder = NoTwisted(problem)
    server = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    server.bind(("127.0.0.1", 0))
    server.settimeout(5)
    for name in saved:
        del sys.modules[name]
    sys.meta_path.insert(0, finder)
    try:
        try:
            from txstatsd.client import (UdpStatsDClient,
                                         ConsistentHashingClient)
            from txstatsd.metrics.metrics import Metrics
            from txstatsd.metrics.extendedmetrics import ExtendedMetrics
        except (ImportError, IOError), e:
            case.fail("no-twisted", "cannot be used without Twisted (%r): %r"
                      % (problem, e))
        client = UdpStatsDClient("127.0.0.1", server.getsockname()[1])
        if rng.random() < 0.5:
            client = ConsistentHashingClient([client])
        client.connect()
        metrics = rng.choice((Metrics, ExtendedMetrics))(client, "ns")
        want = []
        for i in range(rng.randrange(1, 6)):
            getattr(metrics, rng.choice(("increment", "gauge", "meter")))(
                "k%d" % i, 7)
            want.append("ns.k%d:7|" % i)
        got = []
        while len(got) < len(want):
            try:
                got.append(server.recvfrom(65536)[0])
            except socket.timeout:
                break
        case.check([g[:len(w)] for g, w in zip(got, want)] == want,
                   "no-twisted", "received %s, not %s...", rep(got),
                   rep(want))
        client.disconnect()
        case.ctx.count("without_twisted")
    finally:
        server.close()
        sys.meta_path.remove(finder)
        for name in list(sys.modules):
            if name.split(".")[0] in ("twisted", "txstatsd"):
                del sys.modules[name]
        sys.modules.update(saved)
    case.signature(repr(problem), want)


def counter(case):
    """A counter of its own knows what it sent last."""
    from txstatsd.metrics.countermetric import CounterMetric
    rng = case.rng
    connection = Wire()
    metric = CounterMetric(connection, "a")
    total = 0
    for _ in range(rng.randrange(1, 20)):
        v = number(rng, "c")
        kind = rng.choice(("increment", "increment", "decrement", "clear"))
        if kind == "clear":
            metric.clear()
            total = 0
        else:
            getattr(metric, kind)(v)
            total += v if kind == "increment" else -v
        case.check(metric.count() == total, "counter-total",
                   "%s(%r): the count is %r, not %r", kind, v,
                   metric.count(), total)
        case.check(connection.got[-1:] == ["a:%s|c" % total],
                   "counter-total", "%s(%r) sent %s, the total is %r", kind,
                   v, rep(connection.got[-2:]), total)
    case.ctx.count("counter_totals", len(connection.got))
    case.signature(connection.got)


def run(ctx):
    ctx.scenario("wire", wire, ctx.n(600))
    ctx.scenario("sampling", sampling, ctx.n(60))
    ctx.scenario("rare", rare, ctx.n(2, 20))
    ctx.scenario("trip", trip, ctx.n(240))
    ctx.scenario("distinct", distinct_trip, ctx.n(4, 40))
    ctx.scenario("udp", udp, ctx.n(1000))
    ctx.scenario("loopback", loopback, ctx.n(15, 100))
    ctx.scenario("plain", plain, ctx.n(4, 20))
    ctx.scenario("counter", counter, ctx.n(60))
    ctx.require("without_twisted", 4)
    ctx.require("counter_totals", 200)
    ctx.require("timings_in_a_row", 10)
    ctx.require("calls", 3000)
    ctx.require("round_trips", 800)
    ctx.require("rare_messages", 1)
    ctx.require("sampled_calls", 30000)
    ctx.require("written", 180)
    ctx.require("unresolvable", 20)
    ctx.require("distinct_trips", 4)
