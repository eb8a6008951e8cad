# -*- coding: utf-8 -*-
import logging
import random

from gen import KINDS, dyadic, key_pool, RATES
from grammar import classify
from oracle import fmt
from rig import processor, table, bag, internal_prefix
from vlib import FakeClock, LogCapture, constants, rep, safe

RULE = """Streams of well-formed messages of every type (plugins included) with
malformed ones between them: mutations of good messages, bad numbers and sample
rates, wrong separators and types, random bytes, very long ones, and every
string of the sources in every field. A reference reading of the format
decides which are malformed; each has to be logged and to leave no trace
compared with a twin that never received it. Non-trivial: at least one
malformed and one good message; distinct by the malformed messages."""

TYPES = ["c", "ms", "g", "m", "sli", "pd"]

NUMBERS = ["", " ", "x", "1x", "x1", "1..2", "1.2.3", "--1", "+-1", "1e",
           "e5", "0x10", "1_000", "1,5", "nan", "NaN", "-nan", "+nan", "inf",
           "-inf", "+Inf", "Infinity", "-infinity", "1e400", "-1e999", "1L",
           "1j", "None", "True", "\x00", "1\x00", "\xff", "1\xc2\xa02",
           "\xd9\xa1", "1 2", "1:2", ":", "::", ":1", "1:", "()", "[]", "1;2",
           "one", "error", "'1'", '"1"', "'1", "`1`", "$1", "1%", "1ms", "1s",
           "1k", "1K", "1M", "1B", "~1", "<1", "=1", "#1", "1!", "(1)", "[1]",
           "{1}", "1/2", "1*2", "1+1", "1-", "1+", "\\1", "1\\n", "%s", "%d", "%(a)s", "1d", "1f", "0b1", "0o7",
           "9" * 400, "." * 5, "-", "+", ".", "e", "1e1e1", "1e5.5", "1.e5x"]

RATE_TEXTS = ["", "@", "@0", "@0.0", "@.", "@..", "@1.2.3", "0.5", "@-1",
              "@nan", "@inf", "@x", "x@1", " @0.5", "@ 0.5", "@@0.5", "#0.5",
              "@00", "@.0", "@" + "9" * 400, "@1..", "rate", "@0000.000",
              "@\x000.5", "1", "-1", "e", "@+1", "@,5", "@1e-400", "@1e999",
              "@1e-5", "@1E+2", "@0e5", "@1e", "@e5", "@0.5e-", "@.e1",
              "@2e-2", "@1e-320", "@1e-309", "@4e-324",
              "@1e-300", "@." + "0" * 310 + "1"]

ALPHABET = ":|@.0123456789cmsgpdli \t\n\r\x00\xff-eE+naif/_"


def pick(rng):
    """The distinct counter is slow to build: less of it."""
    return "pd" if rng.random() < 0.04 else rng.choice(TYPES[:-1])


def good(rng, keys):
    text = bare(rng, keys)
    if rng.random() < 0.06:
        # As netcat, telnet and scripts send them.
        text = rng.choice(("", "", " ", "\t", "\n")) + text + rng.choice(
            ("\n", "\r\n", " ", "\t", " \t\r\n", "\n\n"))
    return text


def bare(rng, keys):
    kind = pick(rng)
    key = rng.choice(keys[kind])
    if kind == "pd":
        value = "item%d" % rng.randrange(20)
        return "%s:%s|pd" % (key, value)
    if kind == "sli":
        if rng.random() < 0.2:
            return "%s:error|sli" % key
        text = "%s:%s|sli" % (key, fmt(rng, float(rng.randrange(12))))
        if rng.random() < 0.3:
            text += "|%d" % rng.randrange(20)
        return text
    text = "%s:%s|%s" % (key, fmt(rng, dyadic(rng, kind)), kind)
    if kind == "c" and rng.random() < 0.3:
        text += "|@" + rng.choice(RATES)[0]
    return text


def junk(rng, keys):
    r = rng.random()
    kind = pick(rng)
    key = rng.choice(keys[kind] + ["new.key%d" % rng.randrange(50)])
    if r < 0.3:
        text = "%s:%s|%s" % (key, rng.choice(NUMBERS), kind)
        if rng.random() < 0.2:
            text += "|" + rng.choice(RATE_TEXTS + ["@0.5"])
        return text
    if r < 0.45:
        value = fmt(rng, float(rng.randrange(100)))
        kind = rng.choice(["c", "c", kind])
        if kind == "c" and rng.random() < 0.05:
            value = rng.choice(("1e305", "9e250"))
        return "%s:%s|%s|%s" % (key, value, kind, rng.choice(RATE_TEXTS))
    if r < 0.55:
        word = rng.choice(constants()["strings"])
        fields = [key, "1", kind]
        fields[rng.randrange(3)] = word
        return "%s:%s|%s" % tuple(fields)
    if r < 0.62:
        return rng.choice([
            key, key + ":", ":" + key, key + ":1", key + ":1|",
            key + ":|" + kind, key + ":1|" + kind + "|", "|", "||", ":|",
            ":||", "", " ", "\n", ":", ":::", key + "|" + kind,
            key + ":1" + kind, key + ":1||" + kind, key + ":1|%s|@1|x" % kind,
            key + ":1|%s|@1|" % kind, key + ":1|" + kind.upper(),
            key + ":1| " + kind, key + ":1|" + kind + " |@1",
            key + ":1|" + kind + kind, key + " 1|" + kind,
            key + ":1|\x00" + kind, key + ":1|h", key + ":1|s",
            key + ":1|kv", key + ":1|ms2", key + ":1|d"])
    if r < 0.9:
        text = list(good(rng, keys))
        for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
            at = rng.randrange(len(text) + 1)
            op = rng.randrange(4)
            if op == 0 and text:
                del text[at:at + rng.choice((1, 1, 3))]
            elif op == 1:
                text.insert(at, rng.choice(ALPHABET))
            elif op == 2 and text:
                text[at - 1] = rng.choice(ALPHABET)
            else:
                text.insert(at, rng.choice((":", "|", "\n", "\x00", "\xe9")))
        return "".join(text)
    if r < 0.97:
        return "".join(rng.choice(ALPHABET)
                       for _ in range(rng.randrange(0, 40)))
    n = rng.choice((1000, 8192, 65507))
    return rng.choice(("x" * n, "%s:%s|c" % (key, "z" * n), "a:" + "|" * n,
                       ":" * n, "%s:1|%s" % (key, "c" * n),
                       "".join(chr(rng.randrange(256))
                               for _ in range(n % 5000))))


def strip_receive(tab, prefix):
    return dict((name, value) for name, value in tab.items()
                if not name.startswith(prefix + "receive."))


def twin(mode, routed):
    def scenario(case):
        rng = case.rng
        ctx = case.ctx
        clock = FakeClock()
        prefix = "" if mode == "statsd" else rng.choice(("", "pfx"))
        internal = internal_prefix(mode, prefix)
        seed = rng.randrange(1 << 30)
        twins = []
        for _ in range(2):
            p = processor(mode, clock, prefix)
            entry = p
            if routed:
                from txstatsd.server.router import Router
                entry = Router(p, "")
            twins.append((p, entry))
        keys = {}
        for kind in TYPES:
            keys[kind] = ["%s.%s%s" % (k, rng.choice(("slow", "xfer", "")),
                                       kind)
                          for k in key_pool(rng, rng.choice((1, 2, 4)))]
        sent = {}
        dubious = {}
        plugged = {}
        bads = []
        log = LogCapture()
        with log:
            for _ in range(rng.randrange(2, 6)):
                for _ in range(rng.randrange(3, 30)):
                    seed += 1
                    if rng.random() < 0.5:
                        message = good(rng, keys)
                    else:
                        message = junk(rng, keys)
                    verdict = classify(message, mode)
                    if verdict[0] == "either":
                        continue
                    if verdict[1] in ("sli", "pd"):
                        # The plugins share one name space.
                        known = plugged.get(verdict[2], verdict[1])
                        if known != verdict[1]:
                            continue
                        if verdict[0] == "good":
                            plugged[verdict[2]] = known
                    log.clear()
                    random.seed(seed)
                    case.note(verdict[0], message[:200])
                    twins[0][1].process(message)
                    complaints = [
                        e for e in log.events
                        if "Bad line" in " ".join(
                            str(m) for m in e.get("message", ()))]
                    if verdict[0] == "bad":
                        bads.append(message[:60])
                        ctx.count("malformed_messages")
                        if verdict[1]:
                            ctx.count("bad_values_of_known_types")
                            dubious[verdict[1]] = dubious.get(
                                verdict[1], 0) + 1
                        case.check(complaints, "not-logged",
                                   "%s mode: %s is malformed, but not "
                                   "reported in the log", mode,
                                   rep(message))
                        case.check(all(
                            e.get("logLevel") == logging.DEBUG
                            for e in complaints), "log-level",
                            "%s mode: %s is not logged at debug level", mode,
                            rep(message))
                        if not routed:
                            case.check(any(repr(message) in " ".join(
                                str(m) for m in e["message"])
                                for e in complaints), "log-text",
                                "the log entry for %s does not show it",
                                rep(message))
                    else:
                        case.check(not complaints, "good-refused",
                                   "%s mode: %s is well-formed, but was "
                                   "discarded", mode, rep(message))
                        random.seed(seed)
                        twins[1][1].process(message)
                        sent[verdict[1]] = sent.get(verdict[1], 0) + 1
                        ctx.count("good_messages")
                    case.check(not log.errors(), "log-error",
                               "%s: an error was logged", rep(message))
                clock.advance(rng.choice((1, 10)))
                flushed = [bag(t[1].flush(interval=10000)) for t in twins]
                compare(case, mode, flushed, internal, sent, dubious)
                sent, dubious = {}, {}
                names = [sorted(t[0].get_metric_names()) for t in twins]
                case.check(names[0] == names[1], "names-differ",
                           "malformed messages left names behind: %s",
                           rep(sorted(set(names[0]) ^ set(names[1]))))
                ctx.count("flushes_compared")
        case.signature(mode, routed, bads)
        case.trivial = not bads
    return scenario


def compare(case, mode, flushed, internal, sent, dubious):
    left = strip_receive(flushed[0], internal)
    right = strip_receive(flushed[1], internal)
    if left != right:
        names = [n for n in set(left) | set(right)
                 if left.get(n) != right.get(n)]
        names.sort()
        case.fail("trace-left", "%s mode: after malformed messages %s instead "
                  "of %s" % (mode,
                             rep([(n, left.get(n)) for n in names[:6]]),
                             rep([(n, right.get(n)) for n in names[:6]])))
    for name, values in flushed[0].items():
        value = values[0][0]
        if name.startswith(internal + "receive.") and name.endswith(".count"):
            kind = name[len(internal + "receive."):-len(".count")]
            low = sent.get(kind, 0)
            case.check(low <= value <= low + dubious.get(kind, 0),
                       "receive-count", "%s is %r, %d good and %d bad "
                       "arrived", name, value, low, dubious.get(kind, 0))


class Picky(object):
    """A metric type of somebody else: refuses what it cannot use."""
    name = "picky"
    metric_type = "pk"

    def __init__(self):
        self.built = 0

    def configure(self, options):
        pass

    def build_metric(self, prefix, name, wall_time_func=None):
        self.built += 1
        return PickyMetric(prefix + name)


class PickyMetric(object):
    def __init__(self, path):
        self.path = path
        self.values = []

    def process(self, fields):
        if fields[0].startswith("t"):
            len(5)          # TypeError
        self.values.append(int(fields[0]))

    def flush(self, interval, timestamp):
        values, self.values = self.values, []
        return [(self.path + ".sum", sum(values), timestamp),
                (self.path + ".n", len(values), timestamp)]


def picky(mode):
    """Messages a plugin of somebody else refuses, each way it may do so."""
    def scenario(case):
        from txstatsd.server.processor import MessageProcessor
        from txstatsd.server.configurableprocessor import (
            ConfigurableMessageProcessor)
        rng = case.rng
        clock = FakeClock()
        build = (MessageProcessor if mode == "statsd" else
                 ConfigurableMessageProcessor)
        twins = [build(time_function=clock, plugins=[Picky()])
                 for _ in range(2)]
        keys = key_pool(rng, rng.choice((1, 3)))
        log = LogCapture()
        sent = {}
        dubious = {}
        with log:
            for _ in range(rng.randrange(2, 6)):
                for _ in range(rng.randrange(1, 20)):
                    key = rng.choice(keys)
                    bad = rng.random() < 0.5
                    value = rng.choice(("t", "t1", "x", "", "1.5", "two")
                                       if bad else ("1", "20", "-3", "0"))
                    message = "%s:%s|pk%s" % (key, value, rng.choice(
                        ("", "", "|x")))
                    log.clear()
                    try:
                        twins[0].process(message)
                    except Exception as e:
                        case.fail("refusal-raised", "%s mode: %s, which the "
                                  "plugin refuses: %r" % (
                                      mode, rep(message), e))
                    complaints = [t for t in log.texts() if "Bad line" in t]
                    case.check(bool(complaints) == bad, "not-logged",
                               "%s mode: %s (refused by the plugin: %s) "
                               "logged %s", mode, rep(message), bad,
                               rep(log.texts()))
                    case.note(message)
                    if bad:
                        case.ctx.count("refused_by_plugins")
                        dubious["pk"] = dubious.get("pk", 0) + 1
                    else:
                        sent["pk"] = sent.get("pk", 0) + 1
                        twins[1].process(message)
                        case.ctx.count("good_messages")
                clock.advance(rng.choice((1, 10)))
                compare(case, mode,
                        [bag(t.flush(interval=10000)) for t in twins],
                        internal_prefix(mode), sent, dubious)
                sent, dubious = {}, {}
                names = [sorted(t.get_metric_names()) for t in twins]
                case.check(names[0] == names[1], "names-differ",
                           "malformed messages left names behind: %s",
                           rep(sorted(set(names[0]) ^ set(names[1]))))
                case.ctx.count("flushes_compared")
        case.signature(mode, case.log)
    return scenario


def exhaustive_fields(mode):
    """Every bad number and rate for every type, one after the other."""
    def scenario(case):
        rng = case.rng
        clock = FakeClock()
        p = processor(mode, clock, "")
        expected = set()
        n = 0
        for kind in TYPES[:-1]:
            for text in NUMBERS + rng.sample(constants()["strings"], 60):
                for rate in ("", "|" + rng.choice(RATE_TEXTS + ["@0.5"])):
                    n += 1
                    key = "f%d.%s" % (n, kind)
                    message = "%s:%s|%s%s" % (key, text, kind, rate)
                    verdict = classify(message, mode)
                    p.process(message)
                    case.ctx.count("field_combinations")
                    if verdict[0] == "good":
                        expected.add(verdict[2])
                    elif verdict[0] == "either":
                        expected.add((verdict[2],))
        for _ in range(2):
            clock.advance(1)
            for datapoint in p.flush(interval=1000):
                pass
        names = set(p.get_metric_names())
        sure = set(k for k in expected if not isinstance(k, tuple))
        maybe = set(k[0] for k in expected if isinstance(k, tuple))
        case.check(not (sure - names), "good-refused",
                   "%s mode: refused: %s", mode, rep(sorted(sure - names)))
        case.check(not (names - sure - maybe), "trace-left",
                   "%s mode: malformed messages left metrics: %s", mode,
                   rep(sorted(names - sure - maybe)))
    return scenario


def flood(mode):
    """However many malformed messages there are, each is logged."""
    def scenario(case):
        rng = case.rng
        p = processor(mode, FakeClock(), "")
        texts = ["bad", "a:1", "a:x|c", "a:1|c|0.5", "a:|ms", "a:1|zz",
                 "a:nan|g", "a:1|m|@1|x", "a:error|g"]
        texts = [t for t in texts if classify(t, mode)[0] == "bad"]
        same = rng.random() < 0.3
        only = rng.choice(texts)
        log = LogCapture()
        with log:
            for n in range(rng.choice((300, 1200, 3000))):
                message = only if same else rng.choice(texts)
                if not same and rng.random() < 0.5:
                    message = "%d%s" % (n, message)
                log.clear()
                p.process(message)
                case.check(any("Bad line" in str(m) for e in log.events
                               for m in e.get("message", ())), "not-logged",
                           "%s mode: %s is malformed, but not reported in "
                           "the log after %d others", mode, rep(message), n)
                case.ctx.count("malformed_messages")
                case.ctx.count("flood")
        case.check(p.get_metric_names() == [], "trace-left",
                   "left behind: %s", rep(p.get_metric_names()))
        case.signature(mode, same, n)
    return scenario


def huge(mode):
    """Values at the end of the range: the sums may overflow, the flush goes
    on and the other metrics are not touched."""
    def scenario(case):
        rng = case.rng
        clock = FakeClock()
        p = processor(mode, clock, "")
        texts = ["1e308", "-1e308", "1.7e308", "5e-324", "-5e-324", "1e300",
                 "1e-300", "-0.0"]
        for _ in range(3):
            for _ in range(60):
                kind = rng.choice(KINDS)
                p.process("huge%d.%s:%s|%s" % (rng.randrange(3), kind,
                                               rng.choice(texts), kind))
            for kind in KINDS:
                p.process("fine.%s:7|%s" % (kind, kind))
            clock.advance(10)
            tab = table(p.flush(interval=10000))
            for kind in KINDS:
                case.check(any("fine." + kind in name for name in tab),
                           "flush-cut-short", "%s mode: fine.%s is missing "
                           "next to huge values", mode, kind)
            case.ctx.count("flushes_with_huge_values")
    return scenario


def run(ctx):
    for mode in ("statsd", "conf"):
        ctx.scenario("twin-" + mode, twin(mode, False), ctx.n(55))
        ctx.scenario("routed-" + mode, twin(mode, True), ctx.n(15))
        ctx.scenario("fields-" + mode, exhaustive_fields(mode), ctx.n(2, 30))
        ctx.scenario("flood-" + mode, flood(mode), ctx.n(2, 40))
        ctx.scenario("huge-" + mode, huge(mode), ctx.n(6))
        ctx.scenario("picky-" + mode, picky(mode), ctx.n(20))
    ctx.require("malformed_messages", 1500)
    ctx.require("flood", 1000)
    ctx.require("refused_by_plugins", 200)
    ctx.require("good_messages", 2000)
    ctx.require("bad_values_of_known_types", 500)
    ctx.require("flushes_compared", 200)
