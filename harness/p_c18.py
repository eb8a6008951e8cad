# -*- coding: utf-8 -*-
import rig
from gen import key_pool
from vlib import FakeClock, constants, rep

RULE = """Service level metrics through both processors: random rule sets
(patterns with wildcards, several labels, all conditions, slopes), values at
and around every limit, sizes, errors, several windows, values that arrive
during the flush; each label's count compared with an independent reading of
the rules. And rule sets with a broken line, which must be refused.
Non-trivial: a value was judged; distinct by rules and values."""


def glob(text, pattern):
    """Independent of fnmatch: * any run, ? any one character."""
    table = [[False] * (len(text) + 1) for _ in range(len(pattern) + 1)]
    table[0][0] = True
    for i, p in enumerate(pattern):
        for j in range(len(text) + 1):
            if p == "*":
                table[i + 1][j] = table[i][j] or (j > 0 and
                                                  table[i + 1][j - 1])
            elif j > 0 and (p == "?" or p == text[j - 1]):
                table[i + 1][j] = table[i][j - 1]
    return table[len(pattern)][len(text)]


class Condition(object):
    def __init__(self, rng):
        self.kind = rng.choice(("above", "below", "between"))
        limits = [0.0, 1.0, 5.0, 10.0, 0.5, 100.0, 1000.0, 2.25, -1.0, 256.0]
        self.a = rng.choice(limits)
        if self.kind == "between":
            self.b = self.a + rng.choice((0.0, 1.0, 2.5, 100.0))
        else:
            self.b = rng.choice((None, None, 0.5, 2.0, 0.0, -0.25))

    def text(self, rng):
        def spell(x):
            if x == int(x) and rng.random() < 0.6:
                return "%d" % x
            return repr(x)
        parts = [self.kind, spell(self.a)]
        if self.b is not None:
            parts.append(spell(self.b))
        return " ".join(parts)

    def holds(self, value, size):
        if self.kind == "between":
            return self.a < value and value < self.b
        limit = self.a + (self.b or 0.0) * size
        return value > limit if self.kind == "above" else value < limit

    def edges(self, size):
        if self.kind == "between":
            return [self.a, self.b]
        return [self.a, self.a + (self.b or 0.0) * size]


def rules_for(rng, keys, path):
    """[(pattern, label, condition)]; a label stands in one pattern only, so
    that the order of the patterns does not matter."""
    result = []
    labels = ["fast", "slow", "ok", "x1", "a_b", "n", "response_time_low",
              "response_time_high", "Fast", "fas"]
    rng.shuffle(labels)
    for label in labels[:rng.randrange(1, 6)]:
        key = rng.choice(keys)
        full = path(key)
        r = rng.random()
        if r < 0.3:
            pattern = full
        elif r < 0.5:
            pattern = "*" + key[rng.randrange(len(key)):]
        elif r < 0.65:
            pattern = full[:rng.randrange(1, len(full) + 1)] + "*"
        elif r < 0.75:
            at = rng.randrange(len(full))
            pattern = full[:at] + "?" + full[at + 1:]
        elif r < 0.85:
            at = rng.randrange(len(full))
            pattern = "*" + full[at:at + rng.randrange(1, 4)] + "*"
        elif r < 0.93:
            pattern = "*"
        else:
            pattern = "?" * len(full)
        if rng.random() < 0.12:
            # Upper and lower case are different.
            pattern = pattern.swapcase()
        if result and rng.random() < 0.3:
            pattern = result[-1][0]
        result.append((pattern, label, Condition(rng)))
    return result


def spell(rng, value):
    if value == int(value) and abs(value) < 1e15 and rng.random() < 0.6:
        return "%d" % value
    return repr(value)


def history(case):
    rng = case.rng
    ctx = case.ctx
    mode = rng.choice(("statsd", "conf"))
    prefix = rng.choice(("", "pfx", "a.b")) if mode == "conf" else ""
    start = {"statsd": "stats.SLI.",
             "conf": prefix + "." if prefix else ""}[mode]
    keys = [k + ".s%d" % i
            for i, k in enumerate(key_pool(rng, rng.randrange(1, 5)))]
    rules = rules_for(rng, keys, lambda k: start + k)
    if rng.random() < 0.08:
        rules = []
    text = "\n".join("%s => %s IF %s" % (p, l, c.text(rng))
                     for p, l, c in rules)
    if rules and rng.random() < 0.5:
        text = "\n" + text + "\n   "
    clock = FakeClock()
    processor = rig.processor(mode, clock, prefix, rules=text or None)
    case.note(mode, prefix, text)
    applies = dict((key, [(l, c) for p, l, c in rules
                          if glob(start + key, p)]) for key in keys)
    ctx.count("rules_applied", sum(len(v) for v in applies.values()))
    known = []

    def judged(found, counts):
        for key in known:
            want = {".count": counts[key][0], ".error": counts[key][1]}
            for label, condition in applies[key]:
                want[".count_" + label] = counts[key][2].get(label, 0)
            got = dict((n[len(start + key):], v) for n, (v, t) in
                       found.items() if n.startswith(start + key + ".") and
                       n[len(start + key) + 1:].split("_")[0] in
                       ("count", "error"))
            case.check(got == want, "sli", "%s with rules %s: %s reported, "
                       "not %s", start + key,
                       rep([(l, c.text(rng)) for l, c in applies[key]]),
                       rep(got), rep(want))
            for suffix in want:
                case.check(found[start + key + suffix][1] == int(clock.now),
                           "timestamp", "%s at %r, not %r", key + suffix,
                           found[start + key + suffix][1], int(clock.now))
            ctx.count("reports")

    for window in range(rng.randrange(1, 5)):
        counts = dict((k, [0, 0, {}]) for k in keys)

        def send(key=None, steady=None):
            key = key or rng.choice(keys)
            if key not in known:
                known.append(key)
            size = None
            if rng.random() < 0.3:
                size = rng.choice((0.0, 1.0, 2.0, 10.0, 0.5))
            if rng.random() < 0.12:
                value = "error"
            else:
                edges = [e for l, c in applies[key]
                         for e in c.edges(size if size is not None else 1)]
                edges = edges or [rng.choice((0.0, 5.0))]
                if rng.random() < 0.1:
                    edges = [-5000.0, -1e6, 1e6, 123456789.0, -1e15, 1e18]
                value = rng.choice(edges) + rng.choice(
                    (0.0, 0.0, 0.25, -0.25, 1.0, -1.0, 50.0))
            if steady is not None:
                value, size = steady, None
            message = "%s:%s|sli" % (
                key, value if value == "error" else spell(rng, value))
            if size is not None:
                message += "|" + spell(rng, size)
            processor.process(message)
            case.note("recv", message)
            ctx.count("values")
            slot = counts[key]
            slot[0] += 1
            if value == "error":
                slot[1] += 1
                return
            for label, condition in applies[key]:
                if condition.holds(value, 1 if size is None else size):
                    slot[2][label] = slot[2].get(label, 0) + 1
                    ctx.count("matched")
                else:
                    ctx.count("not_matched")

        if rng.random() < 0.06:
            # One key has a busy time, with the same value again and again
            # or with any.
            busy = max(keys, key=lambda k: len(applies[k]))
            if rng.random() < 0.3:
                busy = rng.choice(keys)
            steady = None
            if rng.random() < 0.6:
                steady = rng.choice([0.0] + [
                    e + d for l, c in applies[busy] for e in c.edges(1)
                    for d in (-1.0, 1.0)])
            for _ in range(rng.choice((130, 300, 1100, 2100))):
                send(busy, steady)
            ctx.count("busy_windows")
        for _ in range(rng.choice((0, 1, 5, 30))):
            send()
        clock.advance(10)
        found = rig.table(processor.flush(interval=10000))
        judged(found, counts)
        if known and rng.random() < 0.08:
            # A long time without any value: still reported, as nothing.
            for _ in range(rng.choice((40, 70, 130))):
                clock.advance(rng.choice((10, 60)))
                found = rig.table(processor.flush(interval=10000))
            ctx.count("long_pauses")
            judged(found, dict((k, [0, 0, {}]) for k in keys))
    case.trivial = not known
    case.signature(mode, text, case.log[:60])


def during(case):
    """Values that arrive while a flush is under way are in that flush or in
    the next one, never in both or in neither."""
    rng = case.rng
    mode = rng.choice(("statsd", "conf"))
    start = "stats.SLI." if mode == "statsd" else ""
    clock = FakeClock()
    processor = rig.processor(
        mode, clock, rules="* => low IF below 5\n* => high IF above 5")
    keys = ["k%d" % i for i in range(rng.randrange(1, 5))]
    sent = dict((k, [0, 0, 0, 0]) for k in keys)
    got = dict((k, [0, 0, 0, 0]) for k in keys)
    suffixes = (".count", ".error", ".count_low", ".count_high")

    def send():
        key = rng.choice(keys)
        value = rng.choice(("error", 1, 9, 5))
        processor.process("%s:%s|sli" % (key, value))
        sent[key][0] += 1
        if value == "error":
            sent[key][1] += 1
        elif value == 1:
            sent[key][2] += 1
        elif value == 9:
            sent[key][3] += 1
        case.ctx.count("values")

    for flush in range(rng.randrange(2, 6)):
        for _ in range(rng.randrange(6)):
            send()
        clock.advance(10)
        budget = 25
        for name, value, ts in processor.flush(interval=10000):
            for key in keys:
                for i, suffix in enumerate(suffixes):
                    if name == start + key + suffix:
                        got[key][i] += value
            if budget and rng.random() < 0.4:
                budget -= 1
                send()
                case.ctx.count("values_during_a_flush")
    clock.advance(10)
    for name, value, ts in processor.flush(interval=10000):
        for key in keys:
            for i, suffix in enumerate(suffixes):
                if name == start + key + suffix:
                    got[key][i] += value
    case.check(got == sent, "conservation", "sent %s, reported %s in all",
               rep(sent), rep(got))
    case.signature(mode, sent)


BROKEN = ("nonsense", "* => x", "* => x IF", "* => x IF nothing 5",
          "x -> y IF above 5", "* => x IF above", "* => x IF above five",
          "* => x IF between 5", "* => x IF below 1 2 3",
          "* IF above 5", "=> x IF above 5", "* => x WHEN above 5",
          "* => x IF between 1 2 3", "* => x IF above 5 z",
          "* => x IF metric 5 6", "* => x IF metric a b", "* => x IF Above 5",
          "* => x IF above  5", "* => x IF above 5,5",
          "# * => x IF above 5")


def refused(case):
    """A rule that cannot be understood is refused, wherever it stands."""
    rng = case.rng
    good = ["a%d => l%d IF %s" % (i, i, Condition(rng).text(rng))
            for i in range(rng.randrange(4))]
    bad = BROKEN[case.index % len(BROKEN)]
    lines = list(good)
    lines.insert(rng.randrange(len(lines) + 1), bad)
    text = "\n".join(lines)
    from twisted.plugins import sli_plugin
    factory = type(sli_plugin.sli_metric_factory)()
    try:
        factory.configure({"plugin_sli": {"rules": text}})
    except (TypeError, ValueError, AttributeError):
        case.ctx.count("refused")
    else:
        case.fail("accepted", "the rules %r are accepted" % text)
    # Without the broken line they are fine.
    factory = type(sli_plugin.sli_metric_factory)()
    form = rng.random() < 0.5
    section = {"rules": "\n".join(good)} if good else {}
    factory.configure({"plugin_sli": section.items() if form else section})
    case.signature(text)


def run(ctx):
    ctx.scenario("history", history, ctx.n(660))
    ctx.scenario("during", during, ctx.n(180))
    ctx.scenario("refused", refused, ctx.n(198))
    ctx.require("values", 3000)
    ctx.require("matched", 800)
    ctx.require("not_matched", 800)
    ctx.require("values_during_a_flush", 200)
    ctx.require("busy_windows", 30)
    ctx.require("refused", 40)
