# -*- coding: utf-8 -*-
import os
import sys

from vlib import rep

RULE = """Random command lines (long, short, abbreviated, joined and repeated
options) with random configuration files (settings, several carbon-cache
sections, plugin sections, unknown names), and option classes built at random:
every option compared with what its sources say, the command line before the
file before the default. Non-trivial: two sources name the same option, or a
source is not the default; distinct by the inputs."""

# name, short, default, type
TABLE = [
    ("listen-port", "l", 8125, int), ("flush-interval", "i", 60000, int),
    ("prefix", "x", None, str), ("instance-name", "N", None, str),
    ("report", "r", None, str),
    ("monitor-message", "m", "txstatsd ping", str),
    ("monitor-response", "o", "txstatsd pong", str),
    ("statsd-compliance", "s", 1, int), ("dump-mode", "d", 0, int),
    ("routing", "g", "", str), ("listen-tcp-port", "t", None, int),
    ("max-queue-size", "Q", 20000, int),
    ("max-datapoints-per-message", "M", 1000, int),
    ("http-port", "P", None, int)]
LISTS = [("carbon-cache-host", "h", str), ("carbon-cache-port", "p", int),
         ("carbon-cache-name", "n", str)]
ALL = [(n, s, t) for n, s, d, t in TABLE] + LISTS


def value(rng, name, kind):
    if kind is int:
        if name == "carbon-cache-port":
            return str(rng.choice((2004, 1, 65535, rng.randrange(1, 65536))))
        return str(rng.choice((0, 1, 7, 8125, rng.randrange(100000))))
    return rng.choice(("a", "b.c", "x y", "process", "any => drop", "10.0.0.1",
                       "v%d" % rng.randrange(100), "7", "-1x", "", "",
                       "50%", "a%%b", "%(prefix)s", "x=y", "k:v", "\"q\"",
                       "None", "0", "http://h/?a=b#c"))


def abbreviations(name, names):
    """Prefixes that can only mean this option."""
    result = []
    if name.startswith("carbon-cache-"):
        # These are spelled out (they are defined twice).
        return result
    for i in range(3, len(name)):
        if [n for n in names if n.startswith(name[:i])] == [name]:
            result.append(name[:i])
    return result


def spell(rng, name, short, text, names):
    """One option as command line words."""
    r = rng.random()
    if r < 0.25:
        return ["--" + name, text]
    if r < 0.5:
        return ["--%s=%s" % (name, text)]
    if r < 0.75 and short:
        return ["-" + short, text]
    if r < 0.9 and short and text:
        return ["-" + short + text]
    short_names = abbreviations(name, names)
    if short_names:
        return ["--%s=%s" % (rng.choice(short_names), text)]
    return ["--" + name, text]


def write(case, sections, more=""):
    path = os.path.join(os.getcwd(), "config-%d%s" % (case.index, more))
    with open(path, "w") as f:
        for section, items in sections:
            f.write("[%s]\n" % section)
            for name, text in items:
                f.write("%s%s%s\n" % (name, case.rng.choice(
                    (" = ", "=", ": ")), text.replace("\n", "\n  ")))
            if case.rng.random() < 0.3:
                f.write("# a comment\n\n")
    return path


def daemon(case):
    from txstatsd.service import StatsDOptions
    rng = case.rng
    ctx = case.ctx
    names = [n for n, s, t in ALL] + ["config", "help", "version"]
    cli, words = {}, []
    # Sometimes most of them are there, in both places.
    many = rng.random() < 0.12
    chosen = [o for o in ALL if rng.random() < (
        0.9 if many else rng.choice((0.1, 0.3)))]
    for name, short, kind in chosen:
        for _ in range(rng.choice((1, 1, 1, 2))):
            text = value(rng, name, kind)
            cli.setdefault(name, []).append(kind(text))
            words.append(spell(rng, name, short, text, names))
    # The options of one name stay in their order.
    rng.shuffle(words)
    cli = {}
    for word in words:
        name, text = meaning(word, names)
        kind = [t for n, s, t in ALL if n == name][0]
        cli.setdefault(name, []).append(kind(text))
    filed, sections, plugin = {}, [], {}
    unknown = "unknown"
    if rng.random() < 0.8:
        items = []
        for name, short, kind in ALL:
            if rng.random() < (0.9 if many else 0.3):
                text = value(rng, name, kind)
                if name == "routing" and rng.random() < 0.5:
                    text = "metric_type c => drop\nany => rewrite a b"
                items.append((name, text))
                filed.setdefault(name, []).append(kind(text))
        if rng.random() < 0.3:
            unknown = rng.choice((
                "no-such-option", "unknown", "listen_port", "flush_interval",
                "statsd_compliance", "listen", "flush", "prefi", "prefixes",
                "carbon_cache_host", "carbon-cache", "l", "x", "listenport",
                "--prefix", "max-queue", "plugin_x"))
            items.append((unknown, rng.choice(("1", "no number", ""))))
            ctx.count("unknown_in_the_file")
        rng.shuffle(items)
        sections.append(("statsd", items))
        more = sorted(rng.sample(
            ["carbon-cache" + c for c in ("", "-a", "-b", "-c", "-10", "-9",
                                          "-B", "-a.b")],
            rng.choice((0, 1, 1, 2, 3))))
        for section in more:
            items = []
            for name, short, kind in LISTS:
                text = value(rng, name, kind)
                items.append((name, text))
                filed.setdefault(name, []).append(kind(text))
            sections.append((section, items))
        if rng.random() < 0.4:
            items = [("k%d" % i, rng.choice(("v %d" % i, "", "0", "a  b",
                                             "* => x IF above %d" % i)))
                     for i in range(rng.randrange(4))]
            plugin["plugin_x"] = dict(items)
            sections.append(("plugin_x", items))
        if rng.random() < 0.3:
            sections.append(("other", [("listen-port", "99")]))
        # The carbon-cache sections count in the order of their names.
        first, rest = sections[:1], sections[1:]
        rng.shuffle(rest)
        sections = first + rest
        path = write(case, sections)
        where = rng.choice((0, len(words)))
        if rng.random() < 0.15:
            # Of several files the last one counts.
            where = len(words) + 1
            words.insert(0, ["--config", write(case, [
                ("statsd", [("listen-port", "1"), ("prefix", "not.this"),
                            ("dump-mode", "7"), ("routing", "no"),
                            ("carbon-cache-name", "nobody")]),
                ("plugin_x", [("k0", "not this")])], "-first")])
            ctx.count("replaced_files")
        words.insert(where, rng.choice((["--config", path], ["-c", path],
                                        ["--config=" + path])))
    flat = [w for word in words for w in word]
    case.note(flat, sections)
    options = StatsDOptions()
    if rng.random() < 0.2:
        # Those of the program itself.
        kept = sys.argv
        sys.argv = ["txstatsd"] + flat
        try:
            options.parseOptions()
        finally:
            sys.argv = kept
    else:
        options.parseOptions(flat)
    text = "%s with the file %s" % (rep(flat), rep(sections, 900))
    for name, short, default, kind in TABLE:
        if name in cli:
            want = cli[name][-1]
            ctx.count("from_command_line")
            if name in filed:
                ctx.count("in_both")
        elif name in filed:
            want = filed[name][-1]
            ctx.count("from_file")
        else:
            want = default
        got = options[name]
        case.check(got == want and type(got) is type(want), "option",
                   "%s is %r, not %r: %s", name, got, want, text)
    for name, short, kind in LISTS:
        want = cli.get(name) or filed.get(name) or []
        if name in cli:
            ctx.count("from_command_line")
            if name in filed:
                ctx.count("in_both")
        got = options[name]
        case.check(list(got) == list(want), "option", "%s is %r, not %r: %s",
                   name, got, want, text)
    for name in plugin:
        case.check(dict(options[name]) == plugin[name], "plugin-section",
                   "%s is %r, not %r", name, options[name], plugin[name])
    case.check(unknown not in options or unknown in plugin, "unknown",
               "an unknown setting of the file, %s, becomes an option: %s",
               unknown, text)
    case.trivial = not cli and not filed
    case.signature(flat[:0], sections, sorted(cli.items()))


def meaning(word, names):
    """(name, text) of the words of one option."""
    first = word[0]
    if first.startswith("--"):
        name = first[2:]
        if "=" in name:
            name, text = name.split("=", 1)
        else:
            text = word[1]
        name = [n for n in names if n.startswith(name)] if (
            name not in names) else [name]
        assert len(name) == 1
        return name[0], text
    name = [n for n, s, t in ALL if s == first[1]][0]
    return name, first[2:] if len(first) > 2 else word[1]


def refused(case):
    """A number that is none is refused wherever it comes from."""
    from twisted.python import usage
    from txstatsd.service import StatsDOptions
    rng = case.rng
    name, short, kind = rng.choice([o for o in ALL if o[2] is int])
    text = rng.choice(("x", "1.5", "1e3", "", "12z", "--"))
    filed = rng.random() < 0.5 and text
    if filed:
        words = ["-c", write(case, [("statsd", [(name, text)])])]
    else:
        words = rng.choice((["--%s=%s" % (name, text)], ["-" + short, text]))
    case.note(words, name, text)
    options = StatsDOptions()
    try:
        options.parseOptions(words)
    except (usage.UsageError, ValueError):
        case.ctx.count("refused")
    else:
        case.fail("accepted", "%s with %s = %r is accepted as %r" % (
            rep(words), name, text, options[name]))
    for words in (["--no-such-option=1"], ["-Z", "1"]):
        try:
            StatsDOptions().parseOptions(words)
        except usage.UsageError:
            pass
        else:
            case.fail("accepted", "%s is accepted" % rep(words))
    case.signature(words, name, text)


def classes(case):
    """Option classes made of others, with a section of their own."""
    from txstatsd.service import OptionsGlue
    rng = case.rng
    kinds = (str, int, None, float)
    parameters = []
    for i, short in enumerate("abdefgijk"[:rng.randrange(1, 9)]):
        kind = rng.choice(kinds)
        default = rng.choice((None, 5))
        parameters.append(["opt%d" % i, short if rng.random() < 0.7 else None,
                           default, "help"] + ([kind] if kind else []))
    at = rng.randrange(len(parameters) + 1)

    class Base(OptionsGlue):
        optParameters = parameters[:at]

        def __init__(self):
            self.config_section = "mine"
            super(Base, self).__init__()

    class Derived(Base):
        optParameters = parameters[at:]

    names = [p[0] for p in parameters] + ["config", "help", "version"]
    words, cli, items, filed = [], {}, [], {}
    for p in parameters:
        kind = p[4] if len(p) > 4 else str
        if rng.random() < 0.4:
            text = str(rng.randrange(1000))
            cli[p[0]] = kind(text)
            words += spell(rng, p[0], p[1], text, names)
        if rng.random() < 0.4:
            text = str(rng.randrange(1000))
            filed[p[0]] = kind(text)
            items.append((p[0], text))
    words += ["--config", write(case, [("mine", items),
                                       ("statsd", [("opt0", "77777")])])]
    case.note(words, items)
    options = Derived()
    options.parseOptions(words)
    for p in parameters:
        want = cli.get(p[0], filed.get(p[0], p[2]))
        case.check(options[p[0]] == want and
                   type(options[p[0]]) is type(want), "option",
                   "%s is %r, not %r: %s with the file %s", p[0],
                   options[p[0]], want, rep(words), rep(items))
        case.check(options.overridden_option(p[0]) == (p[0] in cli),
                   "overridden", "overridden_option(%r) with %s", p[0],
                   rep(words))
        if p[0] in cli and p[0] in filed:
            case.ctx.count("in_both")
    for reserved in (["config", None, None, ""], ["other", "c", None, ""]):
        class Bad(OptionsGlue):
            optParameters = [reserved]
            config_section = "x"
        try:
            Bad()
        except ValueError:
            pass
        else:
            case.fail("reserved", "an option %s is accepted" % rep(reserved))
    case.ctx.count("classes")
    case.signature(parameters and [p[:3] for p in parameters], cli, filed)


def run(ctx):
    ctx.scenario("daemon", daemon, ctx.n(1400))
    ctx.scenario("refused", refused, ctx.n(240))
    ctx.scenario("classes", classes, ctx.n(480))
    ctx.require("replaced_files", 15)
    ctx.require("in_both", 200)
    ctx.require("from_file", 800)
    ctx.require("from_command_line", 800)
    ctx.require("refused", 60)
