# -*- coding: utf-8 -*-
from grammar import normalize, WORD
from oracle import Model
from rig import processor, table, internal_prefix
from vlib import FakeClock, constants, rep, words

RULE = """Raw keys of any bytes (runs of blanks and slashes, punctuation,
control and non-ASCII bytes, the strings of the sources, very long ones, every
single byte) sent as every type to both kinds of processor, with several
prefixes. The names of all datapoints of the flush have to be exactly the
documented ones over the normalised keys. Non-trivial: at least one key needs
normalising; distinct by the raw keys."""

PIECES = [" ", "  ", "\t", " \t ", "/", "//", "///", "/ /", " / ", "-", "_",
          ".", "..", "@", "#", "(", ")", "[0]", "{}", "*", "?", "%s", "%d",
          "\\", "\\1", "'", '"', "`", "$", "^", "+", "=", ",", ";", "<", ">",
          "~", "!", "&", "\x00", "\x01", "\x7f", "\x80", "\xa0", "\xff",
          "\xc3\xa9", "\xe2\x82\xac", "\xc2\xa0", "\xe2\x80\x83", "\x0b",
          "\x0c", "\x1c", "\x1f", "\x85", "|", "||", "a|b", "a/b", "a b",
          "A", "Z", "a", "z", "0", "9", "__", "--"]


def raw_key(rng):
    r = rng.random()
    if r < 0.15:
        key = "".join(chr(rng.randrange(256))
                      for _ in range(rng.randrange(1, 30)))
    elif r < 0.3:
        key = rng.choice(constants()["strings"])
    elif r < 0.35:
        key = rng.choice(("ab/c d.", "/ ", "xyz")) * rng.choice((50, 300))
    else:
        key = "".join(rng.choice(PIECES) if rng.random() < 0.6
                      else rng.choice(words())
                      for _ in range(rng.randrange(1, 7)))
    key = key.replace(":", "").lstrip(" \t\n\r\x0b\x0c")
    return key


def expected_names(mode, prefix, kind, key):
    if kind in ("c", "ms", "g", "m"):
        names = set(n for s, n in Model(mode, (), prefix).expected_names(
            kind, key))
        if kind == "ms" and mode == "statsd":
            names.add("stats.timers.%s.upper_90" % key)
        return names
    if mode == "statsd":
        base = {"pd": "stats.pdistinct.", "sli": "stats.SLI."}[kind] + key
    else:
        base = (prefix + "." if prefix else "") + key
    if kind == "pd":
        return set(base + s for s in (".count", ".count_1min", ".count_1hour",
                                      ".count_1day"))
    names = set((base + ".count", base + ".error"))
    if "slow" in key:
        names |= set((base + ".count_bad", base + ".count_good",
                      base + ".count_mid"))
    return names


RULES = """
*slow* => bad IF above 5
*slow* => good IF below 3
*slow* => mid IF between 3 5
"""


def naming(mode):
    def scenario(case):
        rng = case.rng
        clock = FakeClock()
        prefix, internal = "", None
        if mode == "conf":
            prefix = rng.choice(("", "p", "a.b", "pre-fix", "stats"))
            internal = rng.choice((None, None, "own.", "p.host."))
        p = processor(mode, clock, prefix, internal, rules=RULES)
        own = internal_prefix(mode, prefix, internal)
        used = {}
        expected = {}
        needed = 0
        for _ in range(rng.choice((3, 10, 30))):
            raw = raw_key(rng)
            kind = rng.choice(("c", "ms", "g", "m", "m", "sli", "c", "g",
                               "ms", "sli"))
            if rng.random() < 0.02:
                kind = "pd"
            if mode == "conf":
                # Types share names in this mode: keep them apart.
                raw += ".t" + kind
            if rng.random() < 0.04:
                # Nothing is left of the key.
                raw = rng.choice(("$", "!", "(%)", "\xff", "=?"))
            key = normalize(raw)
            if used.get((kind == "pd", key), kind) != kind and (
                    kind in ("pd", "sli") or mode == "conf"):
                continue
            if kind in ("pd", "sli"):
                if used.get(("plugin", key), kind) != kind:
                    continue
                used[("plugin", key)] = kind
            used[(kind == "pd", key)] = kind
            # One datapoint name for two metrics is beside the point here.
            names = expected_names(mode, prefix, kind, key)
            if any(expected.get(n, (kind, key)) != (kind, key)
                   for n in names) or any(n.startswith(own) for n in names):
                continue
            needed += key != raw
            case.note(kind, raw[:80])
            # Whitespace around a message is not part of it.
            around = [rng.choice(("", "", "", " ", "\t", "\r\n", "\n ", "  "))
                      for _ in range(2)]
            p.process("%s%s:1|%s%s" % (around[0], raw, kind, around[1]))
            case.ctx.count("raw_keys")
            for name in names:
                expected[name] = (kind, key)
        clock.advance(10)
        names = set()
        for name in table(p.flush(interval=10000)):
            if name not in expected and name.startswith(own):
                case.ctx.count("internal_names")
                continue
            names.add(name)
        missing = sorted(set(expected) - names)
        extra = sorted(names - set(expected))
        case.check(not missing and not extra, "names",
                   "%s mode, prefix %r: expected names missing %s, "
                   "unexpected %s", mode, prefix, rep(missing[:8]),
                   rep(extra[:8]))
        case.ctx.count("names_compared", len(names))
        keys = set(k for kind, k in expected.values())
        found = set(p.get_metric_names())
        case.check(found == keys, "metric-names",
                   "%s mode: the processor lists %s, not %s", mode,
                   rep(sorted(found - keys)), rep(sorted(keys - found)))
        case.trivial = not needed
        case.signature(mode, prefix, internal, case.log)
    return scenario


def same_metric(mode):
    """Two raw keys feed one metric exactly if they normalise alike."""
    def scenario(case):
        rng = case.rng
        clock = FakeClock()
        p = processor(mode, clock, "", with_plugins=False)
        base = "k%d" % rng.randrange(100)
        if rng.random() < 0.4:
            # Long, as real ones are.
            base = ".".join([base] + [rng.choice(words()).strip(
                " \t\n\r\x0b\x0c").replace(":", "") or "w" for _ in range(
                    rng.choice((1, 3, 8, 20)))] + ["a"])
        variants = [base + " x", base + "\tx", base + " \t x", base + "_x",
                    base + "/x", base + "//x", base + "-x", base + "x",
                    base + "\xe9x", base + "(x)", base + ".x", base + "X",
                    base + "\x00x", base + "$x", base + "/ x", base + " /x",
                    base + "_-x", base + "-_x", base + "__x", base + "--x",
                    base + "_ x", base + "-/x", base + "/-x", base + "\nx",
                    base + "x ", base + "x/", base + "|x", base.upper() + "x",
                    base.lower() + "x", base.swapcase() + "x",
                    base[::-1] + "x", base + "x" + base, base * 2 + "x",
                    base[:-1] + "x", base.replace(".", "/") + "x",
                    base.replace(".", " ") + "x"]
        kind = rng.choice(("g", "c"))
        counts = {}
        last = {}
        for i in range(rng.randrange(10, 60)):
            raw = rng.choice(variants)
            key = normalize(raw)
            counts[key] = counts.get(key, 0) + i
            last[key] = i
            case.note(raw, i)
            p.process("%s:%d|%s" % (raw, i, kind))
            case.ctx.count("raw_keys")
        clock.advance(10)
        tab = table(p.flush(interval=10000))
        for key in counts:
            if kind == "g":
                name = key + ".value"
                if mode == "statsd":
                    name = "stats.gauge." + name
                want = last[key]
            else:
                name = ("stats_counts." + key if mode == "statsd"
                        else key + ".count")
                want = counts[key] if mode == "statsd" else last[key]
            case.check(name in tab and tab[name][0] == want, "shared",
                       "%s mode: %r is %r, the messages whose keys normalise "
                       "to %r make %r", mode, name, tab.get(name), key, want)
            case.ctx.count("shared_metrics")
        case.signature(mode, kind, case.log)
    return scenario


def bytewise(mode):
    """Every byte, at the start, in the middle and at the end of a key."""
    def scenario(case):
        clock = FakeClock()
        p = processor(mode, clock, "", with_plugins=False)
        expected = {}
        for b in range(256):
            c = chr(b)
            if c == ":":
                continue
            for raw in ("m%02x.x%sy" % (b, c), "e%02x.x%s" % (b, c),
                        "%ss%02x" % (c, b), "d%02x.x%s%sy" % (b, c, c)):
                if raw[0] in " \t\n\r\x0b\x0c":
                    raw = "_" + raw
                p.process(raw + ":%d|g" % b)
                expected[normalize(raw)] = b
                case.ctx.count("raw_keys")
        clock.advance(1)
        tab = table(p.flush(interval=1000))
        start = "stats.gauge." if mode == "statsd" else ""
        for key, value in sorted(expected.items()):
            case.check(tab.get(start + key + ".value", (None,))[0] == value,
                       "byte", "byte %r in a key: no datapoint %r", value,
                       start + key + ".value")
        case.check(set(p.get_metric_names()) == set(expected),
                   "metric-names", "%s", rep(sorted(set(
                       p.get_metric_names()) ^ set(expected))))
    return scenario


def run(ctx):
    for mode in ("statsd", "conf"):
        ctx.scenario("shared-" + mode, same_metric(mode), ctx.n(120))
        ctx.scenario("naming-" + mode, naming(mode), ctx.n(260))
        ctx.scenario("bytes-" + mode, bytewise(mode), 1)
    ctx.require("raw_keys", 3000)
    ctx.require("names_compared", 1000)
    ctx.require("shared_metrics", 500)
    ctx.require("internal_names", 100)
