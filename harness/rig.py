# -*- coding: utf-8 -*-
"""Builders shared by the checks: processors with plugins, virtual reactor."""
from vlib import FakeClock

SLI_RULES = """
*slow* => bad IF above 5
*slow* => good IF below 3
*slow* => mid IF between 3 5
*xfer* => fast IF below 10 0.5
*xfer* => over IF above 10 0.5
*both* => neg IF below 0
"""


def plugins(rules=SLI_RULES):
    """Fresh factories of the two plugins that come with the daemon."""
    from twisted.plugins import sli_plugin, distinct_plugin
    sli = type(sli_plugin.sli_metric_factory)()
    sli.configure({"plugin_sli": {"rules": rules}} if rules else {})
    return [sli, type(distinct_plugin.distinct_metric_factory)()]


def processor(mode, clock, prefix="", internal=None, rules=SLI_RULES,
              with_plugins=True):
    found = plugins(rules) if with_plugins else None
    if mode == "statsd":
        from txstatsd.server.processor import MessageProcessor
        return MessageProcessor(time_function=clock, plugins=found)
    from txstatsd.server.configurableprocessor import (
        ConfigurableMessageProcessor)
    kwargs = {}
    if internal is not None:
        kwargs["internal_metrics_prefix"] = internal
    return ConfigurableMessageProcessor(
        time_function=clock, message_prefix=prefix, plugins=found, **kwargs)


def internal_prefix(mode, prefix="", internal=None):
    if mode == "statsd":
        return "statsd."
    if internal:
        return internal
    return prefix + ".statsd." if prefix else "statsd."


def table(datapoints):
    """name -> (value, timestamp), refusing duplicates."""
    from vlib import Violation
    result = {}
    for datapoint in datapoints:
        try:
            name, value, timestamp = datapoint
        except (TypeError, ValueError):
            raise Violation("datapoint-shape", "not a datapoint: %r" % (
                datapoint,))
        if name in result:
            raise Violation("duplicate-datapoint",
                            "%r reported twice in one flush" % name)
        result[name] = (value, timestamp)
    return result


def bag(datapoints):
    """name -> sorted values, for when metrics of two types share a name."""
    from vlib import Violation
    result = {}
    for datapoint in datapoints:
        try:
            name, value, timestamp = datapoint
        except (TypeError, ValueError):
            raise Violation("datapoint-shape", "not a datapoint: %r" % (
                datapoint,))
        result.setdefault(name, []).append((value, timestamp))
    for values in result.values():
        values.sort()
    return result
