# -*- coding: utf-8 -*-
import random

from gen import key_pool, dyadic, RATES
from oracle import fmt
from rig import processor, bag
from vlib import FakeClock, rep

RULE = """Histories over many metrics of every type (plugins included), run
twice: once complete, once reduced to the messages of some of the metrics, with
the flushes at the same times. The datapoints of those metrics have to be the
same both times. Non-trivial: the reduced history lacks at least one message
and keeps at least one; distinct by the events of the case."""

TYPES = ("c", "ms", "g", "m", "sli", "pd")


def projection(mode):
    def scenario(case):
        rng = case.rng
        prefix = "" if mode == "statsd" else rng.choice(("", "p"))
        pools = {}
        for kind in TYPES:
            n = rng.choice((1, 2, 3)) if kind != "pd" else rng.choice((0, 1,
                                                                        2))
            if mode == "statsd" and kind in "cmsg" and rng.random() < 0.5:
                pools[kind] = ["shared%d" % i for i in range(n)]
            else:
                if kind != "pd" and rng.random() < 0.06:
                    n = rng.choice((25, 40))
                pools[kind] = ["%s.%s%s" % (k, rng.choice(("", "slow")), kind)
                               for k in key_pool(rng, max(n, 1), kind)]
            if n == 0:
                pools[kind] = []
        metrics = [(kind, key) for kind in TYPES for key in pools[kind]]
        keep = set(rng.sample(metrics, rng.randrange(1, len(metrics) + 1)))
        # One name for two types; some of their datapoints have one name
        # then.
        meet = []
        for _ in range(rng.choice((0, 1, 3, 8)) if mode == "conf" else 0):
            one, other = rng.sample(("c", "ms", "g", "m", "sli"), 2)
            if set((one, other)) == set(("c", "sli")) or set(
                    (one, other)) == set(("ms", "sli")):
                # The plain names of both would be the same.
                continue
            key = rng.choice(pools[one])
            if (other, key) not in metrics:
                metrics.append((other, key))
                meet.append(key)
                if rng.random() < 0.6:
                    keep.add((one, key))
        # Similar names, the hardest to keep apart.
        if rng.random() < 0.3:
            kind, key = rng.choice([m for m in metrics if m[0] != "pd"])
            for other in (key + "x", key[:-1] + "Q", key + ".x", "x" + key,
                          key.upper(), key.replace(".", "_"), "Aa" + key,
                          "BB" + key):
                if other != key and (kind, other) not in metrics:
                    metrics.append((kind, other))
        script = []
        for _ in range(rng.randrange(2, 7)):
            for _ in range(rng.choice((2, 8, 25))):
                kind, key = rng.choice(metrics)
                if kind == "pd":
                    text = "%s:i%d|pd" % (key, rng.randrange(10))
                elif kind == "sli":
                    text = "%s:%s|sli" % (key, rng.choice(
                        ("error", rng.randrange(9))))
                else:
                    text = "%s:%s|%s" % (key, fmt(rng, dyadic(rng, kind)),
                                         kind)
                    if kind == "c" and rng.random() < 0.2:
                        text += "|@" + rng.choice(RATES)[0]
                script.append(((kind, key), text, rng.randrange(1 << 30)))
            if rng.random() < 0.3:
                script.append((None, "zz" + rng.choice(
                    ("", ":x|c", ":1|q")), 0))
            script.append(("flush", rng.choice((1, 10, 0.5)),
                           rng.choice((1000, 10000))))
        full = play(mode, prefix, script, None)
        part = play(mode, prefix, script, keep)
        dropped = len([s for s in script if isinstance(s[0], tuple) and
                       s[0] not in keep])
        kept = len([s for s in script if s[0] in keep])
        names = owned(part)
        for i, (a, b) in enumerate(zip(full, part)):
            for name in sorted(b):
                if not names(name):
                    continue
                same = a.get(name) == b[name]
                if any(key + "." in name for key in meet):
                    rest = list(a.get(name, ()))
                    same = True
                    for one in b[name]:
                        if one in rest:
                            rest.remove(one)
                        else:
                            same = False
                case.check(same, "interference",
                           "%s mode, flush %d: %r is %s alone and %s next to "
                           "other metrics", mode, i, name, rep(b[name]),
                           rep(a.get(name)))
                case.ctx.count("datapoints_compared")
            case.ctx.count("flushes_compared")
        # And nothing of the kept metrics is reported only next to others.
        every = set(n for b in part for n in b)
        for i, (a, b) in enumerate(zip(full, part)):
            for name in a:
                if name in every and names(name) and not any(
                        key + "." in name for key in meet):
                    case.check(name in b, "interference",
                               "%s mode, flush %d: %r is only reported next "
                               "to other metrics", mode, i, name)
        case.note("kept", kept, "dropped", dropped)
        case.trivial = not kept or not dropped
        case.signature(mode, script[:30], sorted(keep))
    return scenario


def owned(part):
    def belongs(name):
        return not (name.startswith("statsd.") or
                    name.startswith("p.statsd."))
    return belongs


def play(mode, prefix, script, keep):
    clock = FakeClock()
    p = processor(mode, clock, prefix)
    flushes = []
    for what, text, extra in script:
        if what == "flush":
            clock.advance(text)
            flushes.append(bag(p.flush(interval=extra)))
            continue
        if keep is not None and what not in keep:
            continue
        # The hashes of the distinct counter are random; the same for both.
        if what is not None and what[0] == "pd":
            random.seed(sum(ord(c) for c in what[1]))
        p.process(text)
    return flushes


def run(ctx):
    for mode in ("statsd", "conf"):
        ctx.scenario("projection-" + mode, projection(mode), ctx.n(120))
    ctx.require("datapoints_compared", 3000)
    ctx.require("flushes_compared", 300)
