'''
Deterministic simulation core (runs under Jython 2.7): virtual time, per-node clocks and timers,
a simulated Twisted reactor (TCP/SSL/UNIX listeners and connectors), byte-stream connections with
seeded latency, chunking, partitions, resets and stalls, process crash and restart, and file faults.

One World is one simulated execution.  Everything it decides derives from World.seed and from the
fault operations scheduled by the plan; nothing real (clock, socket, entropy) is read.
'''
import hashlib
import heapq
import random as _random
import zlib

EPOCH = 1600000000.0
INF = float('inf')


class NodeExit(BaseException):
    'raised inside a simulated process when it calls os._exit or is no longer running'


class HarnessError(Exception):
    'the simulator itself is at fault: never a VIOLATION'
    raised = []

    def __init__(self, *a):
        Exception.__init__(self, *a)
        # the code under test may swallow it (bare except clauses, Deferreds)
        HarnessError.raised.append(self)


def subseed(*parts):
    return int(hashlib.sha256('|'.join(str(p) for p in parts)).hexdigest()[:12], 16)


class Rng(_random.Random):
    'A seeded PRNG (explicit instance, so nobody else draws from it)'


class Timer(object):
    # the IDelayedCall interface used by twisted.internet.task and protocol
    __slots__ = ('node', 'time', 'seq', 'fn', 'a', 'kw', 'state', 'inc')

    def __init__(self, node, when, seq, fn, a, kw):
        self.node, self.time, self.seq, self.fn, self.a, self.kw = node, when, seq, fn, a, kw
        self.state, self.inc = 'active', node.incarnation

    def __lt__(self, o):
        return (self.time, self.seq) < (o.time, o.seq)

    def __cmp__(self, o):
        return cmp((self.time, self.seq), (o.time, o.seq))

    def active(self):
        return self.state == 'active'

    def getTime(self):
        return self.time

    def cancel(self):
        from twisted.internet import error
        if self.state == 'cancelled':
            raise error.AlreadyCancelled()
        if self.state == 'called':
            raise error.AlreadyCalled()
        self.state = 'cancelled'

    def reset(self, secs):
        self._move(self.node.clock() + secs)

    def delay(self, secs):
        self._move(self.time + secs)

    def _move(self, when):
        from twisted.internet import error
        if self.state == 'cancelled':
            raise error.AlreadyCancelled()
        if self.state == 'called':
            raise error.AlreadyCalled()
        w = self.node.world
        self.state = 'moved'
        w.seq += 1
        # the caller keeps this object: re-arm it in place
        self.state, self.time, self.seq = 'active', when, w.seq
        self.node.timers = [t for t in self.node.timers if t is not self]
        heapq.heapify(self.node.timers)
        heapq.heappush(self.node.timers, self)


class Node(object):
    def __init__(self, world, name, kind):
        self.world, self.name, self.kind = world, name, kind
        self.alive = False
        self.incarnation = 0
        self.offset = 0.0
        self.timers = []
        self.conns = []
        self.listeners = []
        self.app = None
        self.exit_code = None
        self.stalled_until = 0.0
        self.nconn = 0
        self.entropy = None
        self.drawn = 0              # bytes of operating system entropy asked for
        self.fs_faults = []
        self.attempts = {}

    def clock(self):
        return EPOCH + self.world.now + self.offset

    def next_time(self):
        # simulated time at which this node's first timer is due
        ts = self.timers
        while ts and ts[0].state != 'active':
            heapq.heappop(ts)
        if not ts:
            return INF
        return max(ts[0].time - EPOCH - self.offset, self.world.now, self.stalled_until)

    def __repr__(self):
        return self.name


class World(object):
    def __init__(self, seed, rundir, verbose=False):
        self.seed, self.rundir, self.verbose = seed, rundir, verbose
        self.now = 0.0
        self.seq = 0
        self.queue = []
        self.nodes = {}
        self.order = []
        self.current = None
        self.listening = {}
        self.steps = 0
        self.hash = hashlib.sha256()
        self.trace_len = 0
        self.tail = []
        self.stats = {}
        self.conns = []
        self.nconn = 0
        self.blocked = {}       # frozenset(names) -> partitioned until
        self.slow = {}          # frozenset(names) -> (until, extra latency)
        self.latency = (0.002, 0.2)
        self.chunk = 0          # 0: whole writes, n: split into pieces of at most n bytes
        self.watchers = []      # objects with on_wire(conn, end, data), on_exit(node, code), ...
        self.unhandled = []
        self.stopped = False
        self.ended = None
        # nothing simulated should draw from the global generator; if it does, it is reproducible
        _random.seed(seed)
        del HarnessError.raised[:]

    # -- bookkeeping ------------------------------------------------------------------
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def log(self, *fields):
        s = '%.6f %s' % (self.now, ' '.join(str(f) for f in fields))
        self.hash.update(s + '\n')
        self.trace_len += 1
        self.tail.append(s)
        if len(self.tail) > 4000:
            del self.tail[:2000]
        if self.verbose:
            print s

    def emit(self, what, *args):
        for w in self.watchers:
            fn = getattr(w, what, None)
            if fn is not None:
                fn(*args)

    def add_node(self, name, kind):
        n = Node(self, name, kind)
        n.entropy = Rng(subseed(self.seed, 'entropy', name, 0))
        self.nodes[name] = n
        self.order.append(n)
        return n

    # -- scheduling -------------------------------------------------------------------
    def at(self, when, fn, node=None, inc=None):
        'schedule fn at simulated time when, in the context of node (if it still runs)'
        self.seq += 1
        heapq.heappush(self.queue, (max(when, self.now), self.seq, fn, node,
                                    node.incarnation if (node is not None and inc is None) else inc))

    def after(self, delay, fn, node=None):
        self.at(self.now + delay, fn, node)

    def in_node(self, node, fn, *a, **kw):
        'run fn as code of node; returns (ok, result)'
        prev, self.current = self.current, node
        try:
            return True, fn(*a, **kw)
        except NodeExit:
            return False, None
        except HarnessError:
            raise
        except Exception as e:
            import sys, traceback
            tb = traceback.format_exc()
            self.log('UNHANDLED', node, repr(e)[:200])
            self.unhandled.append((self.now, node.name, repr(e), tb))
            self.emit('on_unhandled', node, e, tb)
            if self.verbose:
                print tb
            return False, None
        finally:
            self.current = prev

    def step(self, until):
        # next due: global queue or some node's timer
        tq = self.queue[0][0] if self.queue else INF
        tn, node = INF, None
        for n in self.order:
            if n.alive:
                t = n.next_time()
                if t < tn:
                    tn, node = t, n
        t = min(tq, tn)
        if t > until or t == INF:
            return False
        self.steps += 1
        if tq <= tn:
            when, seq, fn, n, inc = heapq.heappop(self.queue)
            self.now = max(self.now, when)
            if n is not None:
                if not n.alive or n.incarnation != inc:
                    return True
                if n.stalled_until > self.now:
                    self.seq += 1
                    heapq.heappush(self.queue, (n.stalled_until, self.seq, fn, n, inc))
                    return True
                self.in_node(n, fn)
            else:
                fn()
        else:
            self.now = max(self.now, tn)
            timer = heapq.heappop(node.timers)
            timer.state = 'called'
            self.log('timer', node)
            self.in_node(node, timer.fn, *timer.a, **timer.kw)
        if HarnessError.raised:
            e = HarnessError.raised[0]
            del HarnessError.raised[:]
            raise e
        self.emit('on_step')
        return True

    def run(self, until, max_steps=200000):
        start = self.steps
        while not self.stopped and self.step(until):
            if self.steps - start > max_steps:
                self.ended = 'step-limit'
                return
        if not self.stopped:
            self.now = max(self.now, until)

    # -- processes --------------------------------------------------------------------
    def start_node(self, node, make):
        'make(): construct the process; runs in the context of the node'
        if node.alive:
            return
        node.alive = True
        node.exit_code = None
        node.incarnation += 1
        node.entropy = Rng(subseed(self.seed, 'entropy', node.name, node.incarnation))
        node.timers = []
        node.stalled_until = 0.0
        node.attempts = {}
        node.jitter = Rng(subseed(self.seed, 'jitter', node.name, node.incarnation))
        self.log('START-NODE', node, node.incarnation)
        self.emit('on_node_start', node)
        self.in_node(node, make)

    def kill_node(self, node, how, code=None):
        if not node.alive:
            return
        node.alive = False
        node.exit_code = code
        node.timers = []
        self.log('EXIT-NODE', node, how, code)
        self.emit('on_node_exit', node, how, code)
        for addr in node.listeners:
            self.listening.pop(addr, None)
        node.listeners = []
        for conn in list(self.conns):
            for end in conn.ends:
                if end.node is node and not end.closed:
                    end.closed = True
                    end.dead = True
                    peer = conn.peer(end)
                    if how != 'power':
                        # the kernel closes the sockets of a dead process
                        peer.remote_reset(self.now + conn.lat())
                    elif peer.last > self.now:
                        peer.resend(1.0)
                    elif peer.keepalive:
                        peer.resend(KEEPALIVE)
        node.app = None

    def exit_current(self, code):
        node = self.current
        if node is None:
            raise HarnessError('exit outside a node')
        self.kill_node(node, 'exit', code)
        raise NodeExit()

    # -- network conditions -----------------------------------------------------------
    def link_latency(self, a, b, rng):
        lo, hi = self.latency
        lat = lo + (hi - lo) * (rng.random() ** 3)
        key = frozenset((a, b))
        for k in (key, frozenset((a,)), frozenset((b,))):
            s = self.slow.get(k)
            if s is not None and s[0] > self.now:
                lat += s[1] * rng.random()
        return lat

    def blocked_until(self, a, b):
        t = 0.0
        for k in (frozenset((a, b)), frozenset((a,)), frozenset((b,))):
            t = max(t, self.blocked.get(k, 0.0))
        return t

    def partition(self, names, duration):
        k = frozenset(names)
        self.blocked[k] = max(self.blocked.get(k, 0.0), self.now + duration)

    def reset_links(self, a, b=None):
        n = 0
        for c in list(self.conns):
            names = [e.node.name for e in c.ends]
            if a in names and (b is None or b in names) and not c.done():
                for e in c.ends:
                    e.remote_reset(self.now + c.lat() * 0.5)
                n += 1
        return n


# seconds of silence after which the kernel of the simulated hosts probes a connection
KEEPALIVE = 60.0


class Addr(object):
    def __init__(self, kind, host, port):
        self.type, self.host, self.port, self.name = kind, host, port, host

    def __repr__(self):
        return '%s:%s:%s' % (self.type, self.host, self.port)


class End(object):
    'One end of a connection: the ITransport given to the protocol'

    def __init__(self, conn, node, addr, connector=None):
        self.conn, self.node, self.addr, self.connector = conn, node, addr, connector
        self.inc = node.incarnation
        self.protocol = None
        self.disconnecting = False
        self.disconnected = False
        self.connected = 0
        self.closed = False         # no more data leaves this end
        self.dead = False           # the process behind it is gone
        self.lost = False           # connectionLost was delivered
        self.last = 0.0             # time at which the last in-flight piece arrives at the peer
        self.sent = 0
        self.rcvd = 0
        self.inq = []               # pieces held back by a partition
        self.resending = 1e9     # the interval of the probes for a host that is gone
        self.keepalive = False

    # -- ITransport --
    def write(self, data):
        if isinstance(data, unicode):
            raise TypeError('Data must not be unicode')
        if self.closed or self.disconnecting or not data:
            return
        w = self.conn.world
        if not self.node.alive or self.node.incarnation != self.inc:
            raise NodeExit()
        self.sent += len(data)
        w.log('send', self.conn.id, self.node, '%08x' % (zlib.crc32(data) & 0xffffffff), len(data))
        w.emit('on_wire', self.conn, self, data)
        data = self.conn.tamper(self, data)
        peer = self.conn.peer(self)
        if peer.dead:
            self.resend(1.0)
        for piece in self.conn.pieces(data):
            self.transmit(peer, piece)

    def resend(self, wait, again=False):
        'unacknowledged data is sent again until the host on the other side, back from a power loss, answers with a reset'
        w = self.conn.world
        if not again and self.resending <= wait:
            return
        self.resending = wait
        host = self.conn.peer(self).node

        def due():
            if self.lost or self.dead:
                return
            if host.alive:
                w.count('net.rebooted_reset')
                self.remote_reset(w.now + self.conn.lat())
            else:
                self.resend(min(2 * wait, 60.0), True)
        w.at(w.now + wait, due, None)

    def transmit(self, peer, piece):
        w = self.conn.world
        t = max(self.last, w.now + self.conn.lat())
        hold = w.blocked_until(self.node.name, peer.node.name)
        if hold > t:
            t = hold + self.conn.lat()
            w.count('net.held')
        self.last = t
        w.at(t, lambda: peer.deliver(piece), peer.node, peer.inc)

    def writeSequence(self, seq):
        self.write(''.join(seq))

    def deliver(self, piece):
        if self.lost or self.dead or self.protocol is None:
            return
        w = self.conn.world
        if self.inq:
            self.inq.append(piece)
            return
        if w.blocked_until(self.node.name, self.conn.peer(self).node.name) > w.now:
            # partition while in flight: retransmitted after the heal, in order
            w.count('net.held')
            self.inq.append(piece)
            self.drain_later()
            return
        self.accept(piece)

    def drain_later(self):
        w = self.conn.world
        hold = w.blocked_until(self.node.name, self.conn.peer(self).node.name)
        w.at(hold + 0.05, self.drain, None)

    def drain(self):
        w = self.conn.world
        if w.blocked_until(self.node.name, self.conn.peer(self).node.name) > w.now:
            return self.drain_later()
        if self.node.alive and self.node.stalled_until > w.now:
            w.at(self.node.stalled_until, self.drain, None)
            return
        while self.inq:
            piece = self.inq.pop(0)
            if callable(piece):
                piece()
            elif not (self.lost or self.dead) and self.node.alive and self.node.incarnation == self.inc:
                self.accept(piece)

    def accept(self, piece):
        w = self.conn.world
        self.rcvd += len(piece)
        w.log('recv', self.conn.id, self.node, '%08x' % (zlib.crc32(piece) & 0xffffffff), len(piece))
        w.emit('on_recv', self.conn, self, piece)
        n_unhandled = len(w.unhandled)
        ok, _ = w.in_node(self.node, self.protocol.dataReceived, piece)
        w.emit('on_recv_done', self.conn, self, piece)
        if not ok and len(w.unhandled) > n_unhandled:
            # Twisted logs the exception and drops the connection
            self.abort()

    def loseConnection(self, reason=None):
        if self.disconnecting or self.lost:
            return
        w = self.conn.world
        self.disconnecting = True
        w.log('close', self.conn.id, self.node)
        w.emit('on_close', self.conn, self)
        peer = self.conn.peer(self)
        self.closed = True
        t = max(self.last, w.now + self.conn.lat())
        hold = w.blocked_until(self.node.name, peer.node.name)
        if hold > t:
            t = hold + self.conn.lat()
        self.last = t
        # the local side finishes once its buffer is out, the peer when the FIN arrives
        w.at(w.now + 0.0001, lambda: self.lose('done'), self.node, self.inc)
        w.at(t, lambda: peer.lose('done', True), None)

    def abortConnection(self):
        self.abort()

    def abort(self):
        w = self.conn.world
        self.disconnecting = True
        self.closed = True
        w.at(w.now, lambda: self.lose('aborted'), self.node, self.inc)
        self.conn.peer(self).remote_reset(w.now + self.conn.lat())

    def remote_reset(self, when):
        w = self.conn.world
        w.at(when, lambda: self.lose('lost', True), None)

    def lose(self, how, fin=False, drained=False):
        'deliver connectionLost to the protocol'
        if self.lost or self.dead:
            return
        w = self.conn.world
        if fin and how == 'done' and not drained:
            # everything sent before the FIN is delivered first
            src = self.conn.peer(self).node
            if self.inq or w.blocked_until(self.node.name, src.name) > w.now:
                self.inq.append(lambda: self.lose(how, fin, True))
                if len(self.inq) == 1:
                    self.drain_later()
                return
        from twisted.internet import error
        from twisted.python.failure import Failure
        self.lost = True
        self.closed = True
        self.disconnected = True
        self.connected = 0
        if how == 'done':
            reason = Failure(error.ConnectionDone())
        elif how == 'aborted':
            reason = Failure(error.ConnectionAborted())
        else:
            reason = Failure(error.ConnectionLost())
        w.log('lost', self.conn.id, self.node, how)
        w.emit('on_lost', self.conn, self, how)
        if not self.node.alive or self.node.incarnation != self.inc:
            return
        if not fin or how != 'done':
            pass
        else:
            # our side closes as well (half-close is not supported by these protocols)
            peer = self.conn.peer(self)
            if not peer.lost:
                w.at(w.now + self.conn.lat(), lambda: peer.lose('done'), peer.node, peer.inc)
        proto, connector = self.protocol, self.connector

        def tell():
            if proto is not None:
                proto.connectionLost(reason)
        w.in_node(self.node, tell)
        if connector is not None and self.node.alive and self.node.incarnation == self.inc:
            w.in_node(self.node, connector.connectionLost, reason)
        if self.conn.done() and self.conn in w.conns:
            w.conns.remove(self.conn)

    def getPeer(self):
        return self.conn.peer(self).addr

    def getHost(self):
        return self.addr

    def setTcpKeepAlive(self, v):
        'the other host is probed when it has been silent for long'
        self.keepalive = bool(v)
        if self.keepalive and self.conn.peer(self).dead:
            self.resend(KEEPALIVE)

    def setTcpNoDelay(self, v):
        pass

    def pauseProducing(self):
        pass

    def resumeProducing(self):
        pass

    def stopProducing(self):
        self.loseConnection()

    def registerProducer(self, p, s):
        pass

    def unregisterProducer(self):
        pass


class Conn(object):
    def __init__(self, world, client, server, caddr, saddr, connector, n):
        self.world = world
        world.nconn += 1
        self.id = 'c%d' % world.nconn
        # a stable identity: removing a fault elsewhere does not reshuffle this connection
        self.rng = Rng(subseed(world.seed, 'conn', client.name, server.name, client.incarnation, n))
        self.client = End(self, client, caddr, connector)
        self.server = End(self, server, saddr)
        self.ends = (self.client, self.server)
        self.tampers = []
        self.ordinal = n
        world.conns.append(self)

    def peer(self, end):
        return self.server if end is self.client else self.client

    def lat(self):
        return self.world.link_latency(self.client.node.name, self.server.node.name, self.rng)

    def done(self):
        return all(e.lost or e.dead for e in self.ends)

    def pieces(self, data):
        w = self.world
        if self.server.node.kind == 'tor':
            # one control line per delivery at most: what a line was worth is then known exactly
            out = []
            for line in data.splitlines(True):
                out.extend(self.split(line))
            return out
        return self.split(data)

    def split(self, data):
        w = self.world
        if w.chunk <= 0:
            return [data]
        out, i = [], 0
        # big messages arrive in at most about 24 pieces
        size = max(w.chunk, len(data) // 12)
        while i < len(data):
            n = 1 + int(self.rng.random() * size)
            out.append(data[i:i + n])
            i += n
        return out

    def tamper(self, end, data):
        for t in self.tampers:
            data = t(self, end, data)
        return data


class Port(object):
    def __init__(self, world, node, addr, factory):
        self.world, self.node, self.addr, self.factory = world, node, addr, factory

    def stopListening(self):
        if self.world.listening.get(self.addr, (None,))[0] is self.node:
            del self.world.listening[self.addr]
            self.node.listeners = [a for a in self.node.listeners if a != self.addr]
            self.factory.doStop()

    loseConnection = stopListening

    def getHost(self):
        return Addr(self.addr[0].upper(), self.addr[1], self.addr[2])


class Connector(object):
    'Follows twisted.internet.base.BaseConnector'

    def __init__(self, world, node, dest, factory, timeout):
        self.world, self.node, self.dest, self.factory, self.timeout = world, node, dest, factory, timeout
        self.state = 'disconnected'
        self.factoryStarted = 0
        self.attempt = None
        self.transport = None
        self.inc = node.incarnation

    def getDestination(self):
        kind, host, port = self.dest
        return Addr('UNIX' if kind == 'unix' else 'TCP', host, port)

    def connect(self):
        if self.state != 'disconnected':
            raise RuntimeError("can't connect in this state")
        self.state = 'connecting'
        if not self.factoryStarted:
            self.factory.doStart()
            self.factoryStarted = 1
        w = self.world
        attempt = self.attempt = object()
        # one counter per (node, destination): the identity of the connection in the plan
        n = self.node.attempts.get(self.dest, 0)
        self.node.attempts[self.dest] = n + 1
        rng = Rng(subseed(w.seed, 'connect', self.node.name, self.node.incarnation, self.dest, n))
        target = w.listening.get(self.dest)
        tname = target[0].name if target else 'nowhere'
        lat = w.link_latency(self.node.name, tname, rng)
        w.log('connect', self.node, self.dest, n)
        w.emit('on_connect', self.node, self.dest)
        deadline = w.now + (self.timeout or 30)
        self.factory.startedConnecting(self)
        w.at(w.now + lat, lambda: self._arrive(attempt, deadline, n, lat), self.node, self.inc)

    def _arrive(self, attempt, deadline, n, lat):
        from twisted.internet import error
        from twisted.python.failure import Failure
        w = self.world
        if self.attempt is not attempt or self.state != 'connecting':
            return
        target = w.listening.get(self.dest)
        host = w.dest_owner(self.dest) if hasattr(w, 'dest_owner') else None
        tname = target[0].name if target else (host or 'nowhere')
        hold = w.blocked_until(self.node.name, tname)
        if hold > w.now:
            if hold > deadline:
                w.count('net.connect_timeout')
                w.at(deadline, lambda: self._fail(attempt, Failure(error.TimeoutError())), self.node, self.inc)
            else:
                w.at(hold + lat, lambda: self._arrive(attempt, deadline, n, lat), self.node, self.inc)
            return
        if target is None:
            w.count('net.refused')
            self._fail(attempt, Failure(error.ConnectionRefusedError()))
            return
        node, factory = target
        if self.dest[0] == 'unix':
            ca, sa = Addr('UNIX', '', None), Addr('UNIX', self.dest[1], None)
        else:
            ca = Addr('TCP', '10.0.%d.%d' % (self.node.world.order.index(self.node), 1), 40000 + n % 20000)
            sa = Addr('TCP', self.dest[1], self.dest[2])
        conn = Conn(w, self.node, node, ca, sa, self, n)
        w.log('accept', conn.id, self.node, node)
        w.emit('on_accept', conn)
        conn.server.connected = conn.client.connected = 1
        w.after(lat, lambda: self._established(attempt, conn), self.node)
        conn.server.last = w.now + lat      # nothing reaches the client before it knows it is connected
        # the server side accepts first
        def accept():
            conn.server.protocol = factory.buildProtocol(ca)
            if conn.server.protocol is None:
                conn.server.loseConnection()
            else:
                conn.server.protocol.makeConnection(conn.server)
        ok, _ = w.in_node(node, accept)
        if not ok and node.alive:
            conn.server.abort()

    def _established(self, attempt, conn):
        from twisted.internet import protocol
        if self.attempt is not attempt or self.state != 'connecting':
            conn.client.abort()
            return
        end = conn.client
        self.state = 'connected'
        self.transport = end
        end.protocol = self.factory.buildProtocol(conn.server.addr)
        if end.protocol is None:
            end.protocol = protocol.Protocol()
            end.loseConnection()
        else:
            end.protocol.makeConnection(end)

    def _fail(self, attempt, reason):
        if self.attempt is not attempt or self.state != 'connecting':
            return
        self.connectionFailed(reason)

    def connectionFailed(self, reason):
        self.transport = None
        self.state = 'disconnected'
        self.attempt = None
        self.factory.clientConnectionFailed(self, reason)
        if self.state == 'disconnected':
            self.factory.doStop()
            self.factoryStarted = 0

    def connectionLost(self, reason):
        self.state = 'disconnected'
        self.attempt = None
        self.factory.clientConnectionLost(self, reason)
        if self.state == 'disconnected':
            self.factory.doStop()
            self.factoryStarted = 0

    def stopConnecting(self):
        from twisted.internet import error
        from twisted.python.failure import Failure
        if self.state != 'connecting':
            raise error.NotConnectingError("we're not trying to connect")
        self.state = 'disconnected'
        # BaseClient.failIfNotConnected: the failure is delivered at once
        self.connectionFailed(Failure(error.UserError()))

    def disconnect(self):
        if self.state == 'connecting':
            self.stopConnecting()
        elif self.state == 'connected':
            self.transport.loseConnection()


class SimReactor(object):
    'What the modules under test see as twisted.internet.reactor'
    world = None
    running = True

    def _node(self):
        n = self.world.current
        if n is None:
            raise HarnessError('reactor used outside a node')
        if not n.alive:
            raise NodeExit()
        return n

    def seconds(self):
        return self._node().clock()

    def callLater(self, delay, fn, *a, **kw):
        assert callable(fn), '%s is not callable' % (fn,)
        assert delay >= 0, '%s is not greater than or equal to 0 seconds' % (delay,)
        n = self._node()
        w = self.world
        w.seq += 1
        t = Timer(n, n.clock() + delay, w.seq, fn, a, kw)
        heapq.heappush(n.timers, t)
        return t

    def getDelayedCalls(self):
        return [t for t in self._node().timers if t.state == 'active']

    def callWhenRunning(self, fn, *a, **kw):
        self.callLater(0, fn, *a, **kw)

    def addSystemEventTrigger(self, *a, **kw):
        return None

    def removeSystemEventTrigger(self, *a):
        return None

    def run(self, installSignalHandlers=True):
        self._node()

    def stop(self):
        # the process is about to exit: log.stop_reactor calls os._exit next
        self._node()

    def _listen(self, addr, factory):
        from twisted.internet import error
        n, w = self._node(), self.world
        if addr in w.listening:
            raise error.CannotListenError(addr[1], addr[2], 'Address already in use')
        w.listening[addr] = (n, factory)
        n.listeners.append(addr)
        factory.doStart()
        w.log('listen', n, addr)
        return Port(w, n, addr, factory)

    def listenSSL(self, port, factory, contextFactory, backlog=50, interface=''):
        return self._listen(('tcp', 'any', port), factory)

    def listenTCP(self, port, factory, backlog=50, interface=''):
        return self._listen(('tcp', 'any', port), factory)

    def listenUNIX(self, path, factory, backlog=50, mode=0o666, wantPID=0):
        return self._listen(('unix', path, None), factory)

    def _connect(self, dest, factory, timeout):
        c = Connector(self.world, self._node(), dest, factory, timeout)
        c.connect()
        return c

    def connectSSL(self, host, port, factory, contextFactory, timeout=30, bindAddress=None):
        return self._connect(('tcp', 'any', port), factory, timeout)

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        return self._connect(('tcp', 'any', port), factory, timeout)

    def connectUNIX(self, path, factory, timeout=30, checkPID=0):
        return self._connect(('unix', path, None), factory, timeout)
