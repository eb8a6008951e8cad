# -*- coding: utf-8 -*-
import re

from gen import key_pool, dyadic, RATES
from grammar import classify
from oracle import fmt
from rig import processor, bag
from vlib import FakeClock, LogCapture, constants, rep

RULE = """Random rule sets (all conditions, nested negations, rewrites with
groups, duplication, type changes, drops, redirects without a service) applied
to random messages, malformed ones included, next to a reference interpreter of
the rules. What reaches the processor behind the router, and what that
processor reports, is compared. Non-trivial: at least one rule matched at least
one message; distinct by rules and messages."""

TYPES = ("c", "ms", "g", "m", "kk", "ks", "sli", "x")


def glob(pattern, text):
    """fnmatch, written out: * ? [seq] [!seq]."""
    if not pattern:
        return not text
    c = pattern[0]
    if c == "*":
        return any(glob(pattern[1:], text[i:])
                   for i in range(len(text) + 1))
    if c == "[":
        end = pattern.find("]", 2 if pattern[1:2] != "!" else 3)
        if end > 0:
            if not text:
                return False
            body = pattern[1:end]
            negate = body.startswith("!")
            if negate:
                body = body[1:]
            found = False
            i = 0
            while i < len(body):
                if i + 2 < len(body) and body[i + 1] == "-":
                    if body[i] <= text[0] <= body[i + 2]:
                        found = True
                    i += 3
                else:
                    if body[i] == text[0]:
                        found = True
                    i += 1
            return found != negate and glob(pattern[end + 1:], text[1:])
    if not text:
        return False
    if c == "?" or c == text[0]:
        return glob(pattern[1:], text[1:])
    return False


class Reference(object):
    """What the documentation of the rules says."""

    def __init__(self, rules):
        self.rules = rules
        self.matched = 0

    def holds(self, condition, kind, key):
        name = condition[0]
        if name == "any":
            return True
        if name == "metric_type":
            return kind in condition[1:]
        if name == "path_like":
            return glob(condition[1], key)
        if name == "not":
            return not self.holds(condition[1:], kind, key)
        raise AssertionError(name)

    def apply(self, target, kind, key):
        name = target[0]
        if name == "drop":
            return []
        if name == "set_metric_type":
            result = [(kind, key)] if target[2:] == ("dup",) else []
            return result + [(target[1], key)]
        if name == "rewrite":
            result = []
            if target[3:] == ("dup",) and re.match(target[1], key):
                result.append((kind, key))
            return result + [(kind, re.sub(target[1], target[2], key))]
        if name.startswith("redirect"):
            return [(kind, key)]
        raise AssertionError(name)

    def route(self, kind, key):
        live = [(kind, key)]
        for condition, target in self.rules:
            after = []
            for k, p in live:
                if self.holds(condition, k, p):
                    self.matched += 1
                    after.extend(self.apply(target, k, p))
                else:
                    after.append((k, p))
            live = after
        return live


def parts(key):
    return [p for p in re.split(r"[.]", key) if p] or [key]


def make_condition(rng, keys, depth=0):
    r = rng.random()
    if r < 0.2:
        return ("any",)
    if r < 0.45:
        return ("metric_type",) + tuple(
            rng.choice(TYPES) for _ in range(rng.choice((1, 1, 2, 3))))
    if r < 0.62 and depth < 4:
        return ("not",) + make_condition(rng, keys, depth + 1)
    key = rng.choice(keys)
    at = rng.randrange(len(key) + 1)
    return ("path_like", rng.choice((
        "*", key, key[:at] + "*", "*" + key[at:], "*" + parts(key)[0] + "*",
        "?" * len(key), "*.*", key[:-1] + "?", key[:at] + "*" + key[-1:],
        "[a-m]*", "[!a-m]*", "*[0-9]", key.upper() + "*", "a*", "",
        "nothing*"))or "*")


def make_target(rng, keys):
    r = rng.random()
    dup = ("dup",) if rng.random() < 0.4 else rng.choice(
        ((), (), ("no-dup",)))
    if r < 0.15:
        return ("drop",)
    if r < 0.4:
        return ("set_metric_type", rng.choice(TYPES)) + dup
    if r < 0.47:
        return (rng.choice(("redirect_udp", "redirect_tcp")), "127.0.0.1",
                "%d" % rng.randrange(1024, 65000))
    key = rng.choice(keys)
    part = re.escape(rng.choice(parts(key)))
    pattern, repl = rng.choice((
        (part, "new"), ("^", "top."), ("$", ".end"), (r"\.", "-"),
        (r"(\w+)\.(\w+)", r"\2.\1"), (r"^(.*)$", r"\1.copy"),
        ("[0-9]+", "N"), (r"^[^.]*\.", "cut."), ("nomatch", "never"),
        (part + "$", "last"), ("(" + part + ")", r"\1_\1"),
        (".*", "all"), (r"(?P<a>\w+)", r"<\g<a>>"), ("o", "0"),
        (r"^" + part, "first"), (r".+\.(\w+)$", r"\1"),
        # What is left may be nothing.
        ("^" + part + "(.*)$", r"\1"), ("^" + re.escape(key) + "()$", r"\1"),
        (".*?()", r"\1")))
    return ("rewrite", pattern, repl) + dup


def spell(rng, rules):
    """The text of the rules; blanks between the words do not matter."""
    lines = []
    for condition, target in rules:
        gap = rng.choice((" ", " ", "  "))
        line = gap.join(condition) + " => " + gap.join(target)
        if rng.random() < 0.15:
            line = " " + line
        if rng.random() < 0.15:
            line = line + " "
        if rng.random() < 0.1:
            line = line.replace(" => ", rng.choice(("=>", "  =>  ")))
        lines.append(line)
        if rng.random() < 0.1:
            lines.append("")
    text = "\n".join(lines)
    if rng.random() < 0.2:
        text += "\n"
    return text


def probe_class():
    from txstatsd.server.processor import MessageProcessor

    class Probe(MessageProcessor):
        def __init__(self, *args, **kwargs):
            MessageProcessor.__init__(self, *args, **kwargs)
            self.reached = []

        def process_message(self, message, metric_type, key, fields):
            self.reached.append((message, metric_type, key, list(fields)))
            return MessageProcessor.process_message(
                self, message, metric_type, key, fields)
    return Probe


def rebuilt(kind, key, fields):
    return key + ":" + "|".join([fields[0], kind] + fields[2:])


def make_message(rng, keys):
    key = rng.choice(keys)
    kind = rng.choice(TYPES)
    r = rng.random()
    if r < 0.07:
        return rng.choice((key, key + ":1", key + ":|", key + ":1|c|@1|x",
                           "", ":", "|", key + "|c", key + ":1|x|y|z"))
    text = "%s:%s|%s" % (key, fmt(rng, dyadic(rng, kind)), kind)
    if rng.random() < 0.3:
        text += "|" + rng.choice(("@0.5", "@0.1", "2", "", "@1"))
    if rng.random() < 0.1:
        text = rng.choice((" ", "")) + text + rng.choice(("\n", " ", "\r\n"))
    return text


def routing(case):
    from txstatsd.server.router import Router
    rng = case.rng
    clock = FakeClock()
    keys = key_pool(rng, rng.choice((1, 3, 6)))
    keys += [k + ".sub" for k in keys[:1]] + ["glork.new", "xyz.1"]
    rules = [(make_condition(rng, keys), make_target(rng, keys))
             for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 6)))]
    text = spell(rng, rules)
    case.note("rules", text)
    reference = Reference(rules)
    probe = probe_class()(time_function=clock)
    router = Router(probe, text)
    twin = processor("statsd", clock, with_plugins=False)
    n = rng.choice((5, 20))
    for _ in range(n):
        message = make_message(rng, keys)
        case.note("message", message)
        del probe.reached[:]
        router.process(message)
        case.ctx.count("messages")
        want = []
        text_ = message.strip()
        fields = text_.split(":", 1)[1].split("|") if ":" in text_ else []
        if "|" in text_ and ":" in text_ and len(fields) in (2, 3):
            from grammar import normalize
            key = normalize(text_.split(":", 1)[0])
            for kind, path in reference.route(fields[1], key):
                want.append((rebuilt(kind, path, fields), kind, path))
        got = [r[:3] for r in probe.reached]
        case.check(got == want, "routing",
                   "rules %s, message %s: %s reached the processor, the "
                   "rules say %s", rep(text), rep(message), rep(got),
                   rep(want))
        for message_, kind, path, fields_ in probe.reached:
            case.check(fields_[0] == fields[0] and
                       fields_[2:] == fields[2:], "fields",
                       "rules %s, message %s: the fields became %s",
                       rep(text), rep(message), rep(fields_))
        case.ctx.count("routed", len(want))
        if not want and fields:
            case.ctx.count("messages_dropped")
        for message_, kind, path in want:
            twin.process_message(message_, kind, path,
                                 message_.split(":")[-1].split("|"))
    clock.advance(10)
    a, b = bag(router.flush(interval=10000)), bag(twin.flush(interval=10000))
    case.check(a == b, "flush-differs", "rules %s: %s", rep(text),
               rep([(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b))
                    if a.get(k) != b.get(k)][:6]))
    case.ctx.count("rules_matched", reference.matched)
    case.trivial = reference.matched == 0
    case.signature(text, case.log[:30])


def reported(case):
    """What a rewrite or type change means for the datapoints: judged at
    the far end, with a processor of either kind."""
    from txstatsd.server.router import Router
    rng = case.rng
    clock = FakeClock()
    mode = rng.choice(("statsd", "conf"))
    keys = key_pool(rng, 3, "r")
    rules = [(make_condition(rng, keys), make_target(rng, keys))
             for _ in range(rng.choice((1, 2, 3)))]
    text = spell(rng, rules)
    reference = Reference(rules)
    router = Router(processor(mode, clock, with_plugins=False), text)
    twin = processor(mode, clock, with_plugins=False)
    for _ in range(30):
        key = rng.choice(keys)
        kind = rng.choice(("c", "ms", "g", "m"))
        value = rng.randrange(100)
        router.process("%s:%d|%s" % (key, value, kind))
        case.ctx.count("messages")
        for kind_, path in reference.route(kind, key):
            # As is, not normalised again.
            twin.process_message("", kind_, path, ["%d" % value, kind_])
            case.ctx.count("routed")
    clock.advance(10)
    a, b = bag(router.flush(interval=10000)), bag(twin.flush(interval=10000))
    case.check(a == b, "flush-differs", "%s mode, rules %s: %s", mode,
               rep(text), rep([(k, a.get(k), b.get(k))
                               for k in sorted(set(a) | set(b))
                               if a.get(k) != b.get(k)][:6]))
    case.ctx.count("rules_matched", reference.matched)
    case.trivial = reference.matched == 0
    case.signature(mode, text)


def refused(case):
    """Unknown conditions and targets are refused when the router is built."""
    from txstatsd.server.router import Router
    rng = case.rng
    clock = FakeClock()
    good = "any => rewrite a b"
    bad = rng.choice(("anything => drop", "any => dropp", "not foo => drop",
                      "ANY => drop", "any => Drop", "metric_typ c => drop",
                      "path like x => drop", "any => rewrites a b",
                      "any => set_type c", "not not nope => drop",
                      "any => redirect_sctp h 1", "#any => drop",
                      "# nothing => drop", "any => #drop", "-any => drop",
                      "any; => drop"))
    lines = [good] * rng.randrange(3) + [bad] + [good] * rng.randrange(3)
    try:
        Router(processor("statsd", clock, with_plugins=False),
               "\n".join(lines))
    except Exception:
        case.ctx.count("bad_rules_refused")
    else:
        case.fail("bad-rule", "%r was accepted" % bad)
    case.signature(lines)


def run(ctx):
    ctx.scenario("routing", routing, ctx.n(1350))
    ctx.scenario("reported", reported, ctx.n(300))
    ctx.scenario("refused", refused, ctx.n(120))
    ctx.require("messages", 5000)
    ctx.require("routed", 3000)
    ctx.require("rules_matched", 3000)
    ctx.require("messages_dropped", 100)
