# -*- coding: utf-8 -*-
"""A reactor with virtual time and an in-memory network, installed as the
global one: no socket is opened, every event happens when the scenario says
so. Call install() before anything imports twisted.internet.reactor."""
import threading
import traceback
from collections import deque

import java.lang

REACTOR = None


def install():
    global REACTOR
    if REACTOR is not None:
        return REACTOR
    from twisted.internet import main
    REACTOR = build()
    main.installReactor(REACTOR)
    return REACTOR


def build():
    from twisted.internet import base, task, defer, abstract, error
    from twisted.internet.address import IPv4Address
    from twisted.python import failure, log

    class UDPPort(object):
        """Transport and port of a datagram protocol."""

        def __init__(self, reactor, port, protocol, interface):
            self.reactor = reactor
            self.port = port
            self.protocol = protocol
            self.interface = interface
            self.sent = []
            self.listening = False
            self.maxPacketSize = 8192
            self.fault = None

        def startListening(self):
            self.listening = True
            self.protocol.makeConnection(self)

        def stopListening(self):
            if self.listening:
                self.listening = False
                self.protocol.doStop()
            return defer.succeed(None)

        loseConnection = stopListening

        def getHost(self):
            return IPv4Address("UDP", self.interface or "0.0.0.0", self.port)

        def write(self, data, addr=None):
            if self.fault is not None:
                problem = self.fault(data)
                if problem is not None:
                    raise problem
            self.sent.append((data, addr))
            return len(data)

        def deliver(self, data, addr):
            """A datagram arrives (exceptions end as in udp.Port)."""
            if self.interface.startswith("127.") and (
                    not addr[0].startswith("127.")):
                return
            try:
                self.protocol.datagramReceived(data[:self.maxPacketSize],
                                               addr)
            except Exception:
                self.reactor.failures.append(traceback.format_exc())

    class TCPTransport(object):
        disconnecting = False

        def __init__(self, reactor, connector=None, peer=None):
            self.reactor = reactor
            self.connector = connector
            self.peer = peer or ("10.0.0.9", 999)
            self.written = []
            self.producer = None
            self.connected = True
            self.protocol = None

        def write(self, data):
            if self.connected:
                self.written.append(data)
                if self.producer is not None and not self.streaming:
                    # Everything was sent, so it is asked for more.
                    self.reactor.callLater(0, self.producer.resumeProducing)

        def writeSequence(self, data):
            self.write("".join(data))

        def value(self):
            return "".join(self.written)

        def registerProducer(self, producer, streaming):
            """As abstract.FileDescriptor does."""
            if self.producer is not None:
                raise RuntimeError("a producer is registered already")
            if not self.connected:
                producer.stopProducing()
                return
            self.producer = producer
            self.streaming = streaming
            if not streaming:
                producer.resumeProducing()

        def unregisterProducer(self):
            self.producer = None

        def getPeer(self):
            return IPv4Address("TCP", self.peer[0], self.peer[1])

        def getHost(self):
            return IPv4Address("TCP", "10.0.0.1", 1)

        def loseConnection(self):
            self.disconnecting = True
            if self.connected:
                self.reactor.callLater(0, self.lost, error.ConnectionDone())

        abortConnection = loseConnection

        def pauseProducing(self):
            pass

        def resumeProducing(self):
            pass

        def setTcpNoDelay(self, flag):
            pass

        setTcpKeepAlive = setTcpNoDelay

        def deliver(self, data):
            try:
                why = self.protocol.dataReceived(data)
            except (Exception, java.lang.Exception):
                self.reactor.failures.append(traceback.format_exc())
                why = error.ConnectionLost()
            if why:
                # As in the real reactor, where a result ends the connection.
                self.lost(error.ConnectionLost())

        def lost(self, reason):
            if not self.connected:
                return
            self.connected = False
            if self.producer is not None:
                producer, self.producer = self.producer, None
                producer.stopProducing()
            f = failure.Failure(reason)
            self.protocol.connectionLost(f)
            if self.connector is not None:
                self.connector.state = "disconnected"
                self.connector.factory.clientConnectionLost(
                    self.connector, f)

    class Connector(object):
        def __init__(self, reactor, host, port, factory):
            self.reactor = reactor
            self.host = host
            self.port = port
            self.factory = factory
            self.state = "disconnected"
            self.attempts = 0
            self.transport = None
            self.started = False

        def connect(self):
            self.state = "connecting"
            self.attempts += 1
            if not self.started:
                self.started = True
                self.factory.doStart()
            self.factory.startedConnecting(self)

        def getDestination(self):
            return IPv4Address("TCP", self.host, self.port)

        def stopConnecting(self):
            if self.state == "connecting":
                self.refuse(error.UserError())

        def disconnect(self):
            if self.state == "connecting":
                self.stopConnecting()
            elif self.transport is not None:
                self.transport.loseConnection()

        # the other side
        def accept(self):
            assert self.state == "connecting"
            self.state = "connected"
            self.transport = TCPTransport(self.reactor, self,
                                          (self.host, self.port))
            protocol = self.factory.buildProtocol(self.getDestination())
            self.transport.protocol = protocol
            protocol.makeConnection(self.transport)
            return self.transport

        def refuse(self, reason=None):
            assert self.state == "connecting"
            self.state = "disconnected"
            self.factory.clientConnectionFailed(self, failure.Failure(
                reason or error.ConnectionRefusedError()))

    class TCPPort(object):
        def __init__(self, reactor, port, factory, interface):
            self.reactor = reactor
            self.port = port
            self.factory = factory
            self.interface = interface
            self.listening = False

        def startListening(self):
            self.listening = True
            self.factory.doStart()

        def stopListening(self):
            if self.listening:
                self.listening = False
                self.factory.doStop()
            return defer.succeed(None)

        loseConnection = stopListening

        def getHost(self):
            return IPv4Address("TCP", self.interface or "0.0.0.0", self.port)

        def open(self, peer):
            transport = TCPTransport(self.reactor, None, peer)
            protocol = self.factory.buildProtocol(transport.getPeer())
            transport.protocol = protocol
            protocol.makeConnection(transport)
            return transport

    class Reactor(task.Clock):
        running = True

        def __init__(self):
            task.Clock.__init__(self)
            self.reset()

        def reset(self):
            self.calls = []
            self.udp = []
            self.tcp = []
            self.connectors = []
            self.lookups = []
            self.failures = []
            self.triggers = []
            self.executed = 0
            # Calls other threads asked for. Threads of what ran before (a
            # stopped inspector may be sleeping) have no say any more.
            self.owner = threading.currentThread().ident
            self.foreign = deque()
            self.stale = set(t.ident for t in threading.enumerate())

        # time
        def advance(self, amount):
            """As Clock.advance, with the exceptions ending as in the real
            reactor: reported, and the next call runs."""
            while self.foreign:
                func, args, kwargs = self.foreign.popleft()
                self.callLater(0, func, *args, **kwargs)
            self.rightNow += amount
            self._sortCalls()
            while self.calls and self.calls[0].getTime() <= self.seconds():
                call = self.calls.pop(0)
                call.called = 1
                self.executed += 1
                try:
                    call.func(*call.args, **call.kw)
                except Exception:
                    self.failures.append(traceback.format_exc())

        def turn(self, n=1):
            for _ in range(n):
                self.advance(0.0001)

        def callLater(self, when, what, *a, **kw):
            dc = base.DelayedCall(self.seconds() + when, what, a, kw,
                                  self.calls.remove, lambda c: None,
                                  self.seconds)
            ordered = (not self.calls or
                       self.calls[-1].getTime() <= dc.getTime())
            self.calls.append(dc)
            if not ordered:
                self._sortCalls()
            return dc

        def callFromThread(self, func, *args, **kwargs):
            thread = threading.currentThread().ident
            if thread == self.owner:
                self.callLater(0, func, *args, **kwargs)
            elif thread not in self.stale:
                self.foreign.append((func, args, kwargs))

        def callInThread(self, func, *args, **kwargs):
            func(*args, **kwargs)

        def callWhenRunning(self, func, *args, **kwargs):
            func(*args, **kwargs)

        def addSystemEventTrigger(self, phase, event, func, *args, **kw):
            self.triggers.append((phase, event, func, args, kw))
            return len(self.triggers)

        def removeSystemEventTrigger(self, trigger):
            pass

        def getReaders(self):
            return list(self.udp) + list(self.tcp)

        def getWriters(self):
            return []

        def addReader(self, reader):
            pass

        addWriter = removeReader = removeWriter = addReader

        # names
        def resolve(self, name, timeout=()):
            if abstract.isIPAddress(name):
                return defer.succeed(name)
            d = defer.Deferred()
            self.lookups.append((name, d))
            return d

        # network
        def listenUDP(self, port, protocol, interface="",
                      maxPacketSize=8192):
            p = UDPPort(self, port, protocol, interface)
            p.maxPacketSize = maxPacketSize
            self.udp.append(p)
            p.startListening()
            return p

        def listenTCP(self, port, factory, backlog=50, interface=""):
            p = TCPPort(self, port, factory, interface)
            self.tcp.append(p)
            p.startListening()
            return p

        def connectTCP(self, host, port, factory, timeout=30,
                       bindAddress=None):
            c = Connector(self, host, port, factory)
            self.connectors.append(c)
            c.connect()
            return c

    return Reactor()
