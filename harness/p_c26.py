# -*- coding: utf-8 -*-
import itertools

import rig
from gen import key_pool, KINDS
from vlib import FakeClock, LogCapture, rep

RULE = """The same messages (all types, plugins, malformed ones) and flushes
given to a dumping processor and to a plain one, under the same virtual clock,
with loggers that record: every message that reaches the processor is logged
once, in order, before it is counted, every datapoint is logged once as it is
handed out, and what is handed out is what the plain processor hands out.
Non-trivial: something was logged both ways; distinct by the messages."""


class Logger(object):
    def __init__(self):
        self.lines = []
        self.look = None
        self.seen = []

    def info(self, *args, **kwargs):
        self.lines.append((args, kwargs))
        if self.look:
            self.seen.append(self.look())


def same_value(a, b):
    return a == b or (a != a and b != b)


def messages(rng, keys, kinds):
    r = rng.random()
    key = rng.choice(keys)
    if r < 0.75:
        kind = rng.choice(kinds)
        text = "%s.%s:%s|%s" % (key, kind, rng.choice(
            ("1", "0", "3.5", "17", "-2", "1e3")), kind)
        if kind == "c" and rng.random() < 0.3:
            text += "|@0.5"
        return text
    if r < 0.77:
        # Long ones are logged in full.
        return "%s:1|c" % (key + "x" * rng.choice((300, 600, 1100, 5000)))
    if r < 0.79:
        # Not text in any encoding in particular.
        return rng.choice(("%s\xff\xfe:1|c", "caf\xc3\xa9.%s:2|g",
                           "\x80%s:3|ms", "%s:\xb2|c", "%s\xe9 bad")) % key
    if r < 0.86:
        return rng.choice((" %s:1|c\n", "%s /x y:2|ms", "%s:3|g ",
                           "a%%20%s:4|m")) % key
    return rng.choice(("bad", "a:b", "a:1|zz", "a:x|c", "a:1|c|@x", "",
                       "a:1|c|@0.1|x", "%s:1|sli|z", "x:nan|g", "%d:%s|c",
                       "100%:5|c", "%:%|%"))


def dump(case):
    from twisted.python import log
    from txstatsd.server.loggingprocessor import LoggingMessageProcessor
    from txstatsd.server.configurableprocessor import (
        ConfigurableMessageProcessor)
    rng = case.rng
    ctx = case.ctx
    clock = FakeClock(1300000000.0 + rng.choice((0, 0.5)))
    logger = Logger()
    prefix = rng.choice(("", "", "pfx", "a.b"))
    kwargs = {}
    if prefix or rng.random() < 0.5:
        kwargs["message_prefix"] = prefix
    if rng.random() < 0.5:
        kwargs["internal_metrics_prefix"] = "me.host."
    dumping = LoggingMessageProcessor(
        logger, time_function=clock, plugins=rig.plugins(), **kwargs)
    plain = ConfigurableMessageProcessor(
        time_function=clock, plugins=rig.plugins(), **kwargs)
    keys = key_pool(rng, rng.choice((1, 3, 10)))
    kinds = KINDS + ("sli",)
    if rng.random() < 0.25:
        # Slow to flush.
        kinds += ("pd",)
        del keys[3:]
    first = 0
    ins = outs = 0
    for _ in range(rng.randrange(1, 6)):
        for _ in range(rng.choice((0, 1, 5, 40))):
            text = messages(rng, keys, kinds)
            with LogCapture() as capture:
                plain.process(text)
            bad = len([t for t in capture.texts()
                       if t.startswith("Bad line")])
            state = lambda: (sorted(dumping.get_metric_names()),
                             sorted(getattr(dumping, "by_type", {}).items()))
            before = state()
            logger.look = state
            del logger.seen[:]
            with LogCapture() as capture:
                dumping.process(text)
            logger.look = None
            case.check([s for s in logger.seen if s != before] == [],
                       "late", "%r was logged after it had an effect: %s",
                       text, rep((before, logger.seen)))
            again = len([t for t in capture.texts()
                         if t.startswith("Bad line")])
            case.check(bad == again, "bad-line", "%r: %d bad lines logged, "
                       "%d without dumping", text, again, bad)
            new = logger.lines[first:]
            first = len(logger.lines)
            if ":" in text and "|" in text.strip().split(":", 1)[1] and (
                    1 <= text.strip().split(":", 1)[1].count("|") <= 2):
                case.check(new == [(("In: " + text,), {})], "in",
                           "%r was logged as %s", text, rep(new))
                ins += 1
            else:
                # Refused before it is looked at.
                case.check(new == [] or new == [(("In: " + text,), {})],
                           "in-bad", "%r was logged as %s", text, rep(new))
            case.note("in", text)
            if rng.random() < 0.2:
                clock.advance(rng.choice((0.25, 1, 3)))
        clock.advance(rng.choice((1, 10, 10, 60)))
        args = rng.choice(({}, {"interval": 60000}, {"interval": 1500},
                           {"interval": 10000, "percent": 75}))
        case.check(len(logger.lines) == first, "early", "logged %s before "
                   "the flush", rep(logger.lines[first:]))
        wanted, got = [], []
        # Both are consumed alike, messages arrive meanwhile.
        while_flushing = rng.random() < 0.5
        plainly = plain.flush(**args)
        for datapoint in dumping.flush(**args):
            got.append(datapoint)
            wanted.extend(itertools.islice(plainly, 1))
            new = logger.lines[first:]
            first = len(logger.lines)
            case.check(new == [(("Out: %s %s %s" % tuple(datapoint),), {})],
                       "out", "%s was logged as %s", rep(datapoint),
                       rep(new))
            outs += 1
            if while_flushing and rng.random() < 0.1:
                text = "%s.%s:%d|%s" % (rng.choice(keys), "g", rng.randrange(9),
                                        "g")
                for _ in range(rng.choice((1, 2))):
                    plain.process(text)
                    dumping.process(text)
                first = len(logger.lines)
                ctx.count("messages_during_a_flush")
        wanted.extend(plainly)
        case.check(len(logger.lines) == first, "out-extra",
                   "logged %s after the flush", rep(logger.lines[first:]))
        case.check(len(got) == len(wanted), "datapoints",
                   "%d datapoints, %d without dumping: %s, %s", len(got),
                   len(wanted), rep(got), rep(wanted))
        # Dictionaries may be ordered differently.
        for a, b in zip(sorted(got), sorted(wanted)):
            # Estimates of distinct items depend on random seeds.
            parts = zip(a[::2], b[::2]) if ".pd." in a[0] else zip(a, b)
            case.check(len(a) == len(b) and
                       all(same_value(x, y) for x, y in parts),
                       "datapoints", "%s instead of %s", rep(a), rep(b))
        case.note("flush", args, len(got))
    case.check(sorted(dumping.get_metric_names()) ==
               sorted(plain.get_metric_names()), "names",
               "names %s, without dumping %s",
               rep(sorted(dumping.get_metric_names())),
               rep(sorted(plain.get_metric_names())))
    ctx.count("logged_messages", ins)
    ctx.count("logged_datapoints", outs)
    case.trivial = not (ins and outs)
    case.signature(case.log)


def partial(case):
    """A flush that is consumed only in part logs only that part; messages
    may arrive in the middle of it."""
    from txstatsd.server.loggingprocessor import LoggingMessageProcessor
    rng = case.rng
    clock = FakeClock()
    logger = Logger()
    dumping = LoggingMessageProcessor(logger, time_function=clock)
    for i in range(rng.randrange(1, 20)):
        dumping.process("k%d:1|%s" % (i, rng.choice(KINDS)))
    del logger.lines[:]
    clock.advance(10)
    flush = dumping.flush()
    case.check(logger.lines == [], "eager", "logged %s before anything was "
               "asked for", rep(logger.lines))
    expected = []
    for n, datapoint in enumerate(flush):
        expected.append("Out: %s %s %s" % datapoint)
        if rng.random() < 0.2:
            text = "k%d:1|c" % rng.randrange(40)
            dumping.process(text)
            expected.append("In: " + text)
        case.check([a[0] for a, k in logger.lines] == expected, "order",
                   "logged %s instead of %s", rep(logger.lines[-3:]),
                   rep(expected[-3:]))
        if rng.random() < 0.05:
            break
    case.ctx.count("logged_datapoints", len(expected))
    case.note(expected[:20])
    case.signature(expected)


def refused(case):
    """A logger without a callable info is refused."""
    from txstatsd.server.loggingprocessor import LoggingMessageProcessor
    rng = case.rng

    class Some(object):
        pass
    logger = Some()
    how = rng.randrange(5)
    if how == 0:
        logger.info = rng.choice(("text", 1, None, [], {}, 0.5))
    elif how == 1:
        logger.warn = logger.msg = lambda text: None
    elif how == 2:
        logger = rng.choice(("logger", None, 5, [], {}))
    if how in (3, 4):
        if how == 3:
            logger.info = lambda text: None
        else:
            logger = Logger()
        LoggingMessageProcessor(logger)
        case.ctx.count("loggers_accepted")
    else:
        try:
            LoggingMessageProcessor(logger)
        except TypeError:
            case.ctx.count("loggers_refused")
        else:
            case.fail("accepted", "a logger like %s was accepted" % rep(
                getattr(logger, "__dict__", logger)))
    case.note(how)
    case.signature(how, rep(getattr(logger, "__dict__", logger)))


def run(ctx):
    ctx.scenario("dump", dump, ctx.n(225))
    ctx.scenario("partial", partial, ctx.n(90))
    ctx.scenario("refused", refused, ctx.n(60))
    ctx.require("logged_messages", 1000)
    ctx.require("logged_datapoints", 5000)
    ctx.require("messages_during_a_flush", 100)
    ctx.require("loggers_refused", 8)
    ctx.require("loggers_accepted", 4)
