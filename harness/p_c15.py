# -*- coding: utf-8 -*-
import bisect
import socket
from hashlib import md5

from gen import key_pool
from vlib import rep, words

RULE = """Rings of one to many servers, built in different orders, grown and
shrunk, and clients that hash over them (recording ones and UDP ones with
real loopback sockets): which server each of thousands of keys goes to, before
and after every change, compared with an independent placement. Non-trivial: a
ring of two or more servers; distinct by the servers and changes."""


def position(text):
    if isinstance(text, unicode):
        text = text.encode("utf-8")
    return int(md5(text).hexdigest()[:8], 16)


# Servers that share a position, and keys right before it.
SHARING = (
    ("10.0.0.12:8125", "10.0.0.33:8125", ("tie.k599115", "tie.k1337750")),
    ("10.0.0.48:8125", "10.0.0.95:8125", ("tie.k570073", "tie.k2503718")),
    ("10.0.0.38:8125", "10.0.0.116:8125", ("tie.k2385093", "tie.k665389")),
    ("10.0.0.47:8125", "stats2.example.com:8125",
     ("tie.k2338043", "tie.k2967363")),
    ("10.0.0.47:8125", "stats3.example.com:8125",
     ("tie.k2065974", "tie.k1169666")),
    ("10.0.0.13:8125", "stats29.example.com:8125",
     ("tie.k1888614", "tie.k1199599")),
    ("stats39.example.com:8125", "stats55.example.com:8125",
     ("tie.k1015735", "tie.k2980500")),
    ("stats59.example.com:8125", "stats65.example.com:8125",
     ("tie.k78290", "tie.k1690580")),
    ("stats71.example.com:8125", "localhost:10012",
     ("tie.k618797", "tie.k834967")),
    ("stats54.example.com:8125", "localhost:10048",
     ("tie.k546744", "tie.k244414")))


class Places(object):
    """Where each key belongs, from the definition of the ring."""

    def __init__(self, names, replicas=1024):
        self.names = list(names)
        taken = {}
        self.tied = {}
        for name in names:
            for i in range(replicas):
                p = position("%s:%d" % (name, i))
                if p in taken and taken[p] != name:
                    self.tied.setdefault(p, set([taken[p]])).add(name)
                taken[p] = name
        self.taken = taken
        self.order = sorted(taken)

    def start(self, key):
        return bisect.bisect_left(self.order, position(key)) % len(self.order)

    def owner(self, key):
        """None when two servers share the position."""
        p = self.order[self.start(key)]
        return None if p in self.tied else self.taken[p]

    def owners(self, key):
        """Those that share the position."""
        p = self.order[self.start(key)]
        return self.tied.get(p, set([self.taken[p]]))

    def walk(self, key):
        start = self.start(key)
        found = []
        for i in range(len(self.order)):
            p = self.order[(start + i) % len(self.order)]
            if p in self.tied:
                return None
            if self.taken[p] not in found:
                found.append(self.taken[p])
                if len(found) == len(self.names):
                    break
        return found


class Recorder(object):
    """A client that keeps what it is given."""

    def __init__(self, host, port):
        self.name = "%s:%d" % (host, port)
        self.got = []
        self.connected = 0
        self.disconnected = 0

    def __str__(self):
        return self.name

    def __repr__(self):
        return "<%s>" % self.name

    def write(self, data):
        self.got.append(data)

    def connect(self):
        self.connected += 1

    def disconnect(self):
        self.disconnected += 1


def names_of(rng, n):
    kind = rng.randrange(3)
    if kind == 0:
        names = ["10.%d.0.%d:8125" % (rng.randrange(256), i)
                 for i in range(n)]
    elif kind == 1:
        names = ["stats%d.example.com:%d" % (i, rng.randrange(1, 65536))
                 for i in range(n)]
    else:
        names = ["localhost:%d" % (10000 + i) for i in range(n)]
    rng.shuffle(names)
    return names


def keys_of(rng, n):
    keys = set(key_pool(rng, 30))
    alphabet = "abcdefghijklmnopqrstuvwxyz0123456789._-"
    while len(keys) < n:
        r = rng.random()
        if r < 0.5:
            keys.add("app.web%d.req%d" % (rng.randrange(40),
                                          rng.randrange(10 ** 6)))
        elif r < 0.9:
            keys.add("".join(rng.choice(alphabet)
                             for _ in range(rng.randrange(1, 30))))
        else:
            keys.add(u"caf\xe9.%d" % rng.randrange(10 ** 6))
    return sorted(keys)


def ring(case):
    from txstatsd.hashing import ConsistentHashRing
    rng = case.rng
    ctx = case.ctx
    names = names_of(rng, rng.choice((1, 2, 3, 3, 4, 5, 8)))
    keys = keys_of(rng, 700)
    shared = rng.random() < 0.4
    if shared:
        one, other, near = rng.choice(SHARING)
        names = [one, other] + [n for n in names[2:] if n not in (one, other)]
        rng.shuffle(names)
        keys = sorted(set(keys) | set(near))
    replicas = 1024 if shared else rng.choice(
        (1024,) * 5 + (1, 1, 2, 3, 10, 100, 1025))
    given = {} if replicas == 1024 else {"replica_count": replicas}
    built = ConsistentHashRing(names, **given)
    if replicas != 1024:
        ctx.count("rings_of_other_sizes")
    current = list(names)
    case.note("ring", names)
    before = None
    spare = ["extra%d:1" % i for i in range(3)]

    def verify():
        places = Places(current, replicas)
        result = {}
        for key in keys:
            got = built.get_node(key)
            owner = places.owner(key)
            case.check(got in current, "member", "%r goes to %r, not in %s",
                       key, got, current)
            if owner is not None:
                case.check(got == owner, "placement",
                           "%r goes to %r, not %r (servers %s)", key, got,
                           owner, current)
            else:
                case.check(got in places.owners(key), "placement",
                           "%r goes to %r, the next position is shared by "
                           "%s (servers %s)", key, got,
                           sorted(places.owners(key)), current)
                ctx.count("shared_positions")
            result[key] = got
        ctx.count("placed", len(keys))
        for key in keys[::29]:
            walk = places.walk(key)
            got = built.get_nodes(key)
            if walk is not None:
                case.check(list(got) == walk, "walk", "the servers of %r are "
                           "%s, not %s", key, rep(got), rep(walk))
            ctx.count("walks")
        return result

    for _ in range(rng.randrange(1, 4)):
        after = verify()
        if before is not None:
            for key in keys:
                if before[key] == after[key]:
                    continue
                case.check(changed in (before[key], after[key]), "disruption",
                           "%s of %r moved %r from %r to %r",
                           "adding" if changed in current else "removing",
                           changed, key, before[key], after[key])
                ctx.count("moved")
        before = after
        # Nothing to remove: nothing moves.
        built.remove_node("absent%d:1" % rng.randrange(9))
        for key in keys[::7]:
            case.check(built.get_node(key) == after[key], "disruption",
                       "removing a server that is not there moved %r", key)
        ctx.count("absent_removed")
        if rng.random() < 0.5 and len(current) > 1:
            changed = rng.choice(current)
            if shared and rng.random() < 0.7:
                # The one that has the keys of the shared position.
                changed = after[near[0]]
            current.remove(changed)
            built.remove_node(changed)
            case.note("remove", changed)
        elif spare:
            changed = spare.pop()
            current.append(changed)
            built.add_node(changed)
            case.note("add", changed)
    verify()
    # The way there does not matter.
    order = list(current)
    rng.shuffle(order)
    fresh = ConsistentHashRing(order, **given)
    for key in keys:
        case.check(fresh.get_node(key) == built.get_node(key), "order",
                   "%r goes to %r or %r depending on how the ring was "
                   "made", key, fresh.get_node(key), built.get_node(key))
    case.trivial = len(names) < 2
    case.signature(names, case.log)


def client(case):
    """Each message to exactly one server, the same for a key whatever else
    the message says."""
    from txstatsd.client import ConsistentHashingClient
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    rng = case.rng
    ctx = case.ctx
    names = names_of(rng, rng.choice((2, 3, 4, 6)))
    shared = rng.random() < 0.4
    if shared:
        one, other, near = rng.choice(SHARING)
        names = [one, other] + [n for n in names[2:] if n not in (one, other)]
        rng.shuffle(names)
    recorders = [Recorder(n.split(":")[0], int(n.split(":")[1]))
                 for n in names]
    hashing = ConsistentHashingClient(recorders)
    hashing.connect()
    for r in recorders:
        case.check((r.connected, r.disconnected) == (1, 0), "connect",
                   "%s connected %d times", r.name, r.connected)
    places = Places(names)
    keys = [k for k in keys_of(rng, 1500)]
    if shared:
        keys += near
    counts = dict.fromkeys(names, 0)
    tied = {}

    def took(data):
        found = [r for r in recorders if r.got]
        case.check(len(found) == 1 and found[0].got == [data], "once",
                   "%r was given to %s", data,
                   [(r.name, r.got) for r in found])
        del found[0].got[:]
        return found[0].name

    for key in keys:
        raw = key.encode("utf-8") if isinstance(key, unicode) else key
        owner = places.owner(raw)
        for _ in range(rng.choice((1, 1, 2))):
            data = raw + ":" + rng.choice(
                ("1|c", "3|ms", "1:2|c", "0.5|g", "7|c|@0.1", "x|sli|2",
                 "caf\xc3\xa9|d", ":|c", ""))
            hashing.write(data)
            name = took(data)
            ctx.count("hashed")
            if owner is not None:
                case.check(name == owner, "placement", "%r went to %s, not "
                           "%s (servers %s)", data, name, owner, names)
            else:
                tied.setdefault(raw, name)
                case.check(name == tied[raw] and name in places.owners(raw),
                           "placement", "%r went to %s, before %r went to "
                           "%s", data, name, raw, tied[raw])
        counts[name] += 1
    for name in names:
        share = counts[name] * len(names) / float(len(keys))
        case.check(0.6 < share < 1.4, "balance", "%s of %d got %d of %d keys",
                   name, len(names), counts[name], len(keys))
    # Clients that were made and given in another order.
    again = [Recorder(*r.name.split(":")[:1] + [int(r.name.split(":")[1])])
             for r in rng.sample(recorders, len(recorders))]
    rng.shuffle(again)
    second = ConsistentHashingClient(again)
    for raw in sorted(tied):
        second.write(raw + ":1|c")
        found = [r for r in again if r.got]
        case.check([r.name for r in found] == [tied[raw]], "order",
                   "%r goes to %s or %s depending on the order of the "
                   "clients", raw, tied[raw], [r.name for r in found])
        del found[0].got[:]
        ctx.count("shared_positions")
    # Through the metrics of the client side.
    metrics = rng.choice((Metrics, ExtendedMetrics))(hashing, "ns")
    for key in keys[:60]:
        if isinstance(key, unicode):
            continue
        owner = places.owner("ns." + key)
        for method, args in (("increment", ()), ("gauge", (3,)),
                             ("meter", ()), ("timing", (0.5,))):
            getattr(metrics, method)(key, *args)
            found = [r for r in recorders if r.got]
            case.check(len(found) == 1 and len(found[0].got) == 1, "once",
                       "%s of %r reached %s", method, key, rep(found))
            del found[0].got[:]
            if owner is not None:
                case.check(found[0].name == owner, "placement",
                           "%s of %r went to %s, not %s", method, key,
                           found[0].name, owner)
            ctx.count("metric_calls")
    hashing.disconnect()
    for r in recorders:
        case.check((r.connected, r.disconnected) == (1, 1), "disconnect",
                   "%s connected %d times, disconnected %d times",
                   r.name, r.connected, r.disconnected)
    case.signature(names, sorted(counts.items()))


def sockets(case):
    """UDP clients: the datagram arrives at the server of its key."""
    from txstatsd.client import ConsistentHashingClient, UdpStatsDClient
    rng = case.rng
    servers = []
    try:
        for _ in range(rng.choice((2, 3, 4))):
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.bind(("127.0.0.1", 0))
            s.settimeout(5)
            servers.append((s, "localhost:%d" % s.getsockname()[1]))
        names = [n for s, n in servers]
        clients = [UdpStatsDClient("localhost", int(n.split(":")[1]))
                   for n in names]
        case.check([str(c) for c in clients] == names, "name",
                   "the clients call themselves %s, not %s",
                   [str(c) for c in clients], names)
        rng.shuffle(clients)
        hashing = ConsistentHashingClient(clients)
        hashing.write("before.connect:1|c")
        hashing.connect()
        places = Places(names)
        want = dict((n, []) for n in names)
        for i in range(rng.randrange(10, 40)):
            data = "%s%d:%d|c" % (rng.choice(("a.", "web.b", "x")), i, i)
            owner = places.owner(data.split(":")[0])
            if owner is None:
                continue
            want[owner].append(data)
            hashing.write(data)
        for s, n in servers:
            got = []
            while len(got) < len(want[n]):
                try:
                    got.append(s.recvfrom(65536)[0])
                except socket.timeout:
                    break
            case.check(got == want[n], "socket", "%s received %s, not %s",
                       n, rep(got), rep(want[n]))
            case.ctx.count("datagrams", len(got))
        hashing.disconnect()
        hashing.write("after.disconnect:1|c")
    finally:
        for s, n in servers:
            s.close()
    case.signature(want)


def run(ctx):
    ctx.scenario("ring", ring, ctx.n(25))
    ctx.scenario("client", client, ctx.n(20))
    ctx.scenario("sockets", sockets, ctx.n(10, 60))
    ctx.require("placed", 20000)
    ctx.require("hashed", 10000)
    ctx.require("moved", 500)
    ctx.require("datagrams", 50)
    ctx.require("rings_of_other_sizes", 3)
    ctx.require("shared_positions", 20)
