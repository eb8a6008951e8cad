# -*- coding: utf-8 -*-
"""Reference reading of the wire format: key:value|type[|rate], and of the
normalisation of keys. Written byte by byte on purpose (no regular
expressions, nothing shared with the code under test)."""

SPACE = " \t\n\r\x0b\x0c"
WORD = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
        "_-.")


def normalize(key):
    out = []
    i = 0
    while i < len(key):
        c = key[i]
        if c in SPACE:
            while i < len(key) and key[i] in SPACE:
                i += 1
            out.append("_")
            continue
        if c == "/":
            while i < len(key) and key[i] == "/":
                i += 1
            out.append("-")
            continue
        if c in WORD:
            out.append(c)
        i += 1
    return "".join(out)


def number(text):
    """The finite number a text spells, or None."""
    try:
        value = float(text)
    except (TypeError, ValueError):
        return None
    if value != value or value in (float("inf"), float("-inf")):
        return None
    return value


def classify(message, mode, plugins=("sli", "pd")):
    """(verdict, kind, key, value, rate): verdict is "good", "bad" (with the
    kind when only the value is), or "either" where nothing is promised."""
    bad = ("bad", None, None, None, None)
    if ":" not in message:
        return bad
    text = message.strip(SPACE)
    if ":" not in text:
        return bad
    at = text.index(":")
    raw, data = text[:at], text[at + 1:]
    fields = data.split("|")
    if len(fields) not in (2, 3):
        return bad
    key = normalize(raw)
    kind = fields[1]
    if kind not in ("c", "ms", "g", "m") and kind not in plugins:
        return bad
    if not key:
        return ("either", kind, key, None, None)
    if kind == "pd":
        return ("good", kind, key, fields[0], None)
    if kind == "sli":
        size = 1
        if len(fields) == 3:
            try:
                size = float(fields[2])
            except ValueError:
                return ("bad", kind, key, None, None)
        if fields[0] == "error":
            return ("good", kind, key, "error", size)
        try:
            value = float(fields[0])
        except ValueError:
            return ("bad", kind, key, None, None)
        if number(fields[0]) is None or (
                len(fields) == 3 and number(fields[2]) is None):
            return ("either", kind, key, None, None)
        return ("good", kind, key, value, size)
    value = number(fields[0])
    if value is None:
        return ("bad", kind, key, None, None)
    rate = None
    if kind == "c" and mode == "statsd" and len(fields) == 3:
        text = fields[2]
        digits = ""
        if text.startswith("@"):
            for c in text[1:]:
                if c not in "0123456789.":
                    break
                digits += c
        if not digits:
            return ("bad", kind, key, None, None)
        rest = text[1 + len(digits):]
        if rest[:1] in ("e", "E"):
            # An exponent, as small rates are written.
            power = rest[1:]
            if power[:1] in ("+", "-"):
                power = power[1:]
            if power and not power.strip("0123456789"):
                digits += rest
        rate = number(digits)
        if rate is None or rate == 0:
            return ("bad", kind, key, None, None)
        with_rate = value * (1 / rate)
        if with_rate - with_rate != 0:
            # More than a float can hold, or no number at all.
            return ("bad", kind, key, None, None)
        if len(digits) + 1 != len(text):
            return ("either", kind, key, None, None)
    return ("good", kind, key, value, rate)
