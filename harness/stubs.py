# -*- coding: utf-8 -*-
"""psutil is not installed here: a stand-in whose readings the scenario sets."""
import sys
import types


class FakePsutil(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "psutil")
        self.cpu_readings = None
        self.calls = []
        self.processes = []
        self.make_process = None

    def cpu_times(self, percpu=False):
        self.calls.append(("cpu_times", percpu))
        return self.cpu_readings(percpu)

    def Process(self, pid=None):
        self.processes.append(pid)
        return self.make_process(pid)


def install():
    if not isinstance(sys.modules.get("psutil"), FakePsutil):
        sys.modules["psutil"] = FakePsutil()
    return sys.modules["psutil"]


def renew(thing):
    """A module's only instance, as it was when the module was loaded."""
    fresh = type(thing)().__dict__
    thing.__dict__.clear()
    thing.__dict__.update(fresh)
