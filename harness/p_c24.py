# -*- coding: utf-8 -*-
import collections
import os
import re
import socket
import tempfile

import stubs
from vlib import close, rep

RULE = """Contents of /proc/meminfo, /proc/loadavg and /proc/net/dev in the
formats kernels write (any order, spacing, values, devices, column sets) and
process objects with any readings and missing abilities, through the parsers
and reports: compared with the values they were written from. Non-trivial:
something was reported; distinct by content."""

PMem = collections.namedtuple("pmem", "rss vms")
PCpu = collections.namedtuple("pcputimes", "user system")
PIo = collections.namedtuple("pio", "read_count write_count read_bytes "
                             "write_bytes")
PConn = collections.namedtuple("pconn", "fd family type laddr raddr status")

WANTED = ("MemTotal", "MemFree", "Buffers", "Cached", "SwapCached",
          "SwapTotal", "SwapFree")
OTHERS = ("Active", "Inactive", "Active(anon)", "Inactive(file)", "Dirty",
          "MemAvailable", "Mlocked", "HugePages_Total", "HugePages_Rsvd",
          "Hugepagesize", "VmallocTotal", "DirectMap4k", "SwapTotals",
          "CmaFree", "Unevictable", "Committed_AS")


def number(rng):
    return rng.choice((0, 1, rng.randrange(100), rng.randrange(10 ** 7),
                       rng.randrange(2 ** 40), 2 ** 31, 2 ** 32,
                       rng.randrange(2 ** 63)))


def make_meminfo(rng):
    labels = [l for l in WANTED if rng.random() < 0.85]
    labels += [l for l in OTHERS if rng.random() < 0.5]
    if rng.random() < 0.07:
        labels += ["Zone%d" % i for i in range(rng.choice((50, 200, 800)))]
    if rng.random() < 0.6:
        rng.shuffle(labels)
    lines, wanted = [], {}
    for label in labels:
        value = number(rng)
        unit = ("", 1) if label.startswith("HugePages") else rng.choice(
            (("kB", 1024), ("kB", 1024), ("kB", 1024), ("mB", 1024 ** 2),
             ("", 1)))
        text = str(value)
        if rng.random() < 0.7:
            text = text.rjust(15 - len(label) if len(label) < 14 else 0)
        line = label + ": " + text
        if unit[0]:
            line += " " + unit[0]
        if label in WANTED:
            wanted[label] = value * unit[1]
        lines.append(line)
    return "\n".join(lines) + rng.choice(("\n", "")), wanted


def make_loadavg(rng):
    values = [round(rng.choice((0.0, rng.random(), rng.random() * 2000)), 2)
              for _ in range(3)]
    text = " ".join("%.2f" % v for v in values)
    text += " %d/%d %d" % (rng.randrange(99), rng.randrange(9999),
                           rng.randrange(32768)) + rng.choice(("\n", ""))
    return text, dict(zip(("oneminute", "fiveminutes", "fifthteenminutes"),
                          values))


RECEIVE = ["bytes", "packets", "errs", "drop", "fifo", "frame", "compressed",
           "multicast"]
TRANSMIT = ["bytes", "packets", "errs", "drop", "fifo", "colls", "carrier",
            "compressed"]
DEVICES = ("lo", "eth0", "eth1", "tun0", "wlan0", "br-3f2a", "veth12ab",
           "docker0", "bond0", "eth0.100", "enp3s0")


def make_netdev(rng):
    receive, transmit = list(RECEIVE), list(TRANSMIT)
    if rng.random() < 0.3:
        # Another kernel.
        rng.shuffle(receive)
        rng.shuffle(transmit)
    if rng.random() < 0.2:
        receive.remove("multicast")
        transmit.remove("carrier")
    lines = ["Inter-|   Receive                      |  Transmit",
             " face |" + "    ".join(receive) + "|" + " ".join(transmit)]
    wanted = {}
    devices = rng.sample(DEVICES, rng.randrange(0, len(DEVICES)))
    if rng.random() < 0.07:
        # A host of containers.
        devices += ["veth%x" % i for i in range(rng.choice((30, 100, 300)))]
        rng.shuffle(devices)
    for device in devices:
        r = dict((c, number(rng)) for c in receive)
        t = dict((c, number(rng)) for c in transmit)
        # Old kernels leave no space after the colon.
        line = device.rjust(rng.choice((0, 6))) + ":" + rng.choice(
            ("", " ", "   "))
        line += "  ".join(str(r[c]).rjust(rng.choice((0, 8)))
                          for c in receive)
        line += " " + " ".join(str(t[c]) for c in transmit)
        lines.append(line)
        wanted.update({
            device + ".bytes.received": r["bytes"],
            device + ".bytes.sent": t["bytes"],
            device + ".packets.received": r["packets"],
            device + ".packets.sent": t["packets"]})
    return "\n".join(lines) + rng.choice(("\n", "")), wanted


KINDS = {"meminfo": (make_meminfo, "sys.mem"),
         "loadavg": (make_loadavg, "sys.loadavg"),
         "netdev": (make_netdev, "sys.net")}


def same(got, wanted):
    return (got == wanted and
            all(type(got[k]) in ((int, long) if isinstance(v, (int, long))
                                 else (float,))
                for k, v in wanted.items()))


def parsers(case):
    stubs.install()
    from txstatsd import process
    rng = case.rng
    for kind in sorted(KINDS):
        make, prefix = KINDS[kind]
        text, values = make(rng)
        parse = getattr(process, "parse_" + kind)
        if rng.random() < 0.3:
            prefix = rng.choice(("x", "host.a", "sys.other"))
            got = parse(text, prefix) if rng.random() < 0.5 else parse(
                text, prefix=prefix)
        else:
            got = parse(text)
        wanted = dict((prefix + "." + k, v) for k, v in values.items())
        case.note(kind, text[:200], got)
        case.check(same(got, wanted), "parse-" + kind,
                   "%s parsed as %s, wrong: %s", kind, rep(got), rep(
                       [(k, got.get(k), wanted.get(k))
                        for k in set(got) | set(wanted)
                        if got.get(k) != wanted.get(k)] or wanted))
        case.ctx.count("parsed_" + kind, len(wanted))
    case.signature(case.log)


def files(case):
    """A file that changes is read again for every report."""
    stubs.install()
    from txstatsd import process
    rng = case.rng
    kind = rng.choice(sorted(KINDS))
    make, prefix = KINDS[kind]
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        report = process.report_file_stats(path, getattr(
            process, "parse_" + kind))
        counting = process.report_counters(report)
        last = None
        # Files of /proc have no time of change to go by.
        still = rng.random() < 0.5
        for _ in range(rng.randrange(2, 6)):
            text, values = make(rng)
            with open(path, "w") as f:
                f.write(text)
            if still:
                os.utime(path, (1300000000, 1300000000))
            wanted = dict((prefix + "." + k, v) for k, v in values.items())
            got = report()
            case.check(same(got, wanted), "file", "the report of %s is %s "
                       "instead of %s", kind, rep(got), rep(wanted))
            diff = {}
            if last is not None:
                diff = dict((k, v - last[k]) for k, v in wanted.items()
                            if k in last)
            got = counting()
            case.check(got == diff, "file-counters", "the counters of %s are "
                       "%s instead of %s", kind, rep(got), rep(diff))
            last = wanted
            case.ctx.count("file_reports")
            case.note(kind, got)
        os.unlink(path)
        try:
            report()
        except (IOError, OSError):
            case.ctx.count("missing_files")
        else:
            case.fail("missing-file", "a missing file was reported as read")
    finally:
        if os.path.exists(path):
            os.unlink(path)
    case.signature(case.log)


def this_system(case):
    """What the daemon reports of the system it runs on."""
    psutil = stubs.install()
    Times = collections.namedtuple("scputimes", "user system idle")
    psutil.cpu_readings = lambda percpu: Times(1.0, 2.0, 3.0)
    from txstatsd import process
    names = {}
    before = read_meminfo()
    for report in process.SYSTEM_STATS:
        for _ in range(2):
            names.update(report())
    after = read_meminfo()
    for label in before:
        case.check("sys.mem." + label in names, "system-missing",
                   "no sys.mem.%s in %s", label, rep(sorted(names)))
    case.check(names["sys.mem.MemTotal"] == before["MemTotal"],
               "system-memory", "MemTotal %r reported as %r",
               before["MemTotal"], names["sys.mem.MemTotal"])
    with open("/proc/net/dev") as f:
        devices = re.findall(r"(?m)^ *([^ :|]+):", f.read())
    wanted = set("sys.mem." + l for l in before) | set(
        "sys.loadavg." + l for l in ("oneminute", "fiveminutes",
                                     "fifthteenminutes")) | set(
        "sys.net.%s.%s" % (d, x) for d in devices
        for x in ("bytes.received", "bytes.sent", "packets.received",
                  "packets.sent")) | set(
        "sys.cpu." + f for f in Times._fields)
    case.check(set(names) == wanted, "system-names", "missing %s, extra %s",
               rep(sorted(wanted - set(names))),
               rep(sorted(set(names) - wanted)))
    for field in Times._fields:
        case.check(names["sys.cpu." + field] == 0, "system-cpu", "%s: %r",
                   field, names["sys.cpu." + field])
    case.ctx.count("system_values", len(names))
    case.note(sorted(names)[:20])


def read_meminfo():
    with open("/proc/meminfo") as f:
        found = dict(re.findall(r"(?m)^(\w+): +(\d+) kB$", f.read()))
    return dict((k, int(v) * 1024) for k, v in found.items() if k in WANTED)


class Process(object):
    """psutil.Process, as far as the version has it."""

    def __init__(self, rng):
        self.memory = PMem(number(rng), number(rng))
        self.cpu = PCpu(rng.randrange(10 ** 6) / 100.0,
                        rng.randrange(10 ** 6) / 100.0)
        self.io = PIo(*[number(rng) for _ in range(4)])
        self.percent = rng.randrange(4000) / 10.0
        self.memory_share = rng.random() * 100
        self.threads = rng.randrange(1, 400)
        self.conns = []
        for i in range(rng.choice((0, 1, 5, 30))):
            self.conns.append(PConn(
                i, rng.choice((socket.AF_INET, socket.AF_INET6,
                               1)),
                rng.choice((socket.SOCK_STREAM, socket.SOCK_STREAM,
                            socket.SOCK_DGRAM)),
                ("10.0.0.1", rng.randrange(65536)),
                rng.choice(((), ("10.0.0.2", 80))),
                rng.choice(("ESTABLISHED", "ESTABLISHED", "CLOSING",
                            "SYN_SENT", "LISTEN", "CLOSE_WAIT", "NONE",
                            "TIME_WAIT", "SYN_RECV", "FIN_WAIT1", "FIN_WAIT2",
                            "CLOSE", "LAST_ACK"))))
            while rng.random() < 0.1:
                # Sockets that share an address; the descriptors are not
                # known on every system.
                self.conns[-1] = self.conns[-1]._replace(fd=-1)
                self.conns.append(self.conns[-1])
        self.memory_info = lambda: self.memory
        self.cpu_percent = lambda: self.percent
        self.memory_percent = lambda: self.memory_share
        self.cpu_times = lambda: self.cpu
        self.missing = set()
        for name, value in (("num_threads", lambda: self.threads),
                            ("io_counters", lambda: self.io),
                            ("connections", lambda: self.conns)):
            r = rng.random()
            if r < 0.7:
                setattr(self, name, value)
            else:
                self.missing.add(name)
                if r < 0.85:
                    setattr(self, name, None)


def processes(case):
    psutil = stubs.install()
    from txstatsd import process
    rng = case.rng
    ctx = case.ctx
    p = Process(rng)
    if rng.random() < 0.5:
        report = process.ProcessReport(process=p)
    else:
        # The current process, looked up once.
        report = process.ProcessReport()
        del psutil.processes[:]
        psutil.make_process = lambda pid: p
        report.get_cpu_counters()
        report.get_cpu_counters()
        case.check(psutil.processes == [os.getpid()], "current-process",
                   "the processes looked up were %s, this is %s",
                   rep(psutil.processes), os.getpid())
    args = {}

    def name(default):
        args.clear()
        if rng.random() < 0.4:
            args["prefix"] = rng.choice(("p", "other.x", "daemon"))
        return args.get("prefix", default) + "."

    prefix = name("proc")
    got = report.get_memory_and_cpu(**args)
    wanted = {prefix + "cpu.percent": p.percent,
              prefix + "memory.percent": p.memory_share,
              prefix + "memory.vsize": p.memory.vms,
              prefix + "memory.rss": p.memory.rss}
    if "num_threads" not in p.missing:
        wanted[prefix + "threads"] = p.threads
    if got != wanted:
        swapped = dict(wanted)
        swapped[prefix + "memory.vsize"] = p.memory.rss
        swapped[prefix + "memory.rss"] = p.memory.vms
        case.check(got == swapped, "memory-and-cpu",
                   "reported %s instead of %s", rep(got), rep(wanted))
        case.known("memory-info-order")
    prefix = name("proc")
    got = report.get_cpu_counters(**args)
    wanted = {prefix + "cpu.user": p.cpu.user,
              prefix + "cpu.system": p.cpu.system}
    case.check(got == wanted, "cpu-counters", "reported %s instead of %s",
               rep(got), rep(wanted))
    prefix = name("proc.io")
    got = report.get_io_counters(**args)
    wanted = {}
    if "io_counters" not in p.missing:
        wanted = {prefix + "read.count": p.io.read_count,
                  prefix + "write.count": p.io.write_count,
                  prefix + "read.bytes": p.io.read_bytes,
                  prefix + "write.bytes": p.io.write_bytes}
    case.check(got == wanted, "io-counters", "reported %s instead of %s",
               rep(got), rep(wanted))
    prefix = name("proc.net")
    got = report.get_net_stats(**args)
    wanted = {}
    if "connections" not in p.missing:
        for c in p.conns:
            if c.type == socket.SOCK_STREAM:
                key = prefix + "status." + c.status.lower()
                wanted[key] = wanted.get(key, 0) + 1
    case.check(got == wanted, "net-stats", "reported %s instead of %s for %s",
               rep(got), rep(wanted), rep(p.conns))
    ctx.count("processes")
    ctx.count("tcp_connections", sum(wanted.values()))
    ctx.count("missing_abilities", len(p.missing))
    case.note(p.memory, p.cpu, p.io, sorted(p.missing), wanted)
    case.signature(case.log)


def system(case):
    psutil = stubs.install()
    from txstatsd import process
    rng = case.rng
    fields = rng.choice((
        ("user", "nice", "system", "idle", "iowait", "irq", "softirq",
         "steal", "guest", "guest_nice"), ("user", "system", "idle"),
        ("user", "nice", "system", "idle")))
    Times = collections.namedtuple("scputimes", fields)

    def reading():
        return Times(*[rng.randrange(10 ** 8) / 100.0 for _ in fields])

    for _ in range(5):
        n = rng.choice((1, 2, 8, 12, 130))
        now = {False: reading(), True: [reading() for _ in range(n)]}
        psutil.cpu_readings = lambda percpu: now[bool(percpu)]
        args, prefix = {}, "sys"
        if rng.random() < 0.4:
            args["prefix"] = prefix = rng.choice(("x", "a.b"))
        percpu = rng.random() < 0.5
        if percpu or rng.random() < 0.3:
            args["percpu"] = percpu
        got = process.report_system_stats(**args)
        wanted = {}
        if percpu:
            for i, times in enumerate(now[True]):
                for f in fields:
                    wanted["%s.cpu.%03d.%s" % (prefix, i, f)] = getattr(
                        times, f)
        else:
            for f in fields:
                wanted["%s.cpu.%s" % (prefix, f)] = getattr(now[False], f)
        case.check(got == wanted, "system-stats", "reported %s instead of %s",
                   rep(got), rep(wanted))
        case.ctx.count("cpu_values", len(wanted))
        case.note(percpu, got)
    case.signature(case.log)


class Bag(object):
    pass


def pools(case):
    stubs.install()
    from txstatsd import process
    rng = case.rng
    pool = Bag()
    pool.q = Bag()
    state = {}
    pool.q.qsize = lambda: state["queue"]
    reactor = Bag()
    reactor.getReaders = lambda: [None] * state["readers"]
    reactor.getWriters = lambda: [None] * state["writers"]
    args = {}
    if rng.random() < 0.4:
        args["prefix"] = rng.choice(("p", "a.b"))
    first = process.report_threadpool_stats(pool, **args)
    second = process.report_reactor_stats(reactor, **args)
    case.check(first.__name__ == "report_threadpool_stats" and
               second.__name__ == "report_reactor_stats", "name",
               "named %r and %r: the reporting service logs that",
               first.__name__, second.__name__)
    for _ in range(4):
        for name in ("queue", "readers", "writers", "working", "waiters",
                     "threads"):
            state[name] = rng.randrange(30)
        for name in ("working", "waiters", "threads"):
            # Attributes replaced, not only changed in place.
            setattr(pool, name, [None] * state[name])
        prefix = args.get("prefix", "threadpool")
        got = first()
        wanted = dict((prefix + "." + n, state[n])
                      for n in ("working", "queue", "waiters", "threads"))
        case.check(got == wanted, "threadpool", "reported %s instead of %s",
                   rep(got), rep(wanted))
        prefix = args.get("prefix", "reactor")
        got = second()
        wanted = dict((prefix + "." + n, state[n])
                      for n in ("readers", "writers"))
        case.check(got == wanted, "reactor", "reported %s instead of %s",
                   rep(got), rep(wanted))
        case.ctx.count("pool_reports")
        case.note(dict(state))
    case.signature(case.log)


def sets(case):
    """The sets the report option selects from."""
    psutil = stubs.install()
    from txstatsd import process
    rng = case.rng
    p = Process(rng)
    for name in list(p.missing):
        p.missing.discard(name)
    p.num_threads = lambda: p.threads
    p.io_counters = lambda: p.io
    p.connections = lambda: p.conns
    del psutil.processes[:]
    psutil.make_process = lambda pid: p
    stubs.renew(process.process_report)
    wanted = {"PROCESS": [set(("proc.cpu.percent", "proc.memory.percent",
                               "proc.memory.vsize", "proc.memory.rss",
                               "proc.threads"))],
              "COUNTER": [set(("proc.cpu.user", "proc.cpu.system"))],
              "IO": [set(("proc.io.read.count", "proc.io.write.count",
                          "proc.io.read.bytes", "proc.io.write.bytes"))],
              "NET": [set("proc.net.status." + c.status.lower()
                          for c in p.conns
                          if c.type == socket.SOCK_STREAM)]}
    for name in sorted(wanted):
        reports = getattr(process, name + "_STATS")
        got = []
        for report in reports:
            report()
            p.cpu = PCpu(p.cpu.user + 1.5, p.cpu.system + 0.25)
            p.io = PIo(*[v + i for i, v in enumerate(p.io)])
            got.append(report())
        case.check([set(g) for g in got] == wanted[name], "set",
                   "%s reports %s instead of %s", name, rep(got),
                   rep(wanted[name]))
        if name == "COUNTER":
            case.check(close(got[0]["proc.cpu.user"], 1.5) and
                       close(got[0]["proc.cpu.system"], 0.25), "set-counter",
                       "%s", rep(got))
        if name == "IO":
            case.check(sorted(got[0].values()) == [0, 1, 2, 3], "set-io",
                       "%s", rep(got))
    case.ctx.count("report_sets", len(wanted))
    case.note(sorted(wanted["NET"][0]))
    case.signature(case.log)


def run(ctx):
    ctx.assumptions = [
        "psutil is replaced by a stand-in with the named tuples of psutil "
        "2.0 to 3.4.2, the versions requirements.txt asks for"]
    ctx.scenario("parsers", parsers, ctx.n(800))
    ctx.scenario("files", files, ctx.n(160))
    ctx.scenario("this-system", this_system, 1)
    ctx.scenario("processes", processes, ctx.n(800))
    ctx.scenario("system", system, ctx.n(160))
    ctx.scenario("pools", pools, ctx.n(100))
    ctx.scenario("sets", sets, ctx.n(60))
    ctx.require("parsed_meminfo", 1000)
    ctx.require("parsed_netdev", 1000)
    ctx.require("file_reports", 100)
    ctx.require("processes", 200)
    ctx.require("tcp_connections", 500)
    ctx.require("missing_abilities", 100)
    ctx.require("cpu_values", 1000)
    ctx.require("report_sets", 40)
