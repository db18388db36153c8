'''
Reconstructs, from the bytes on the simulated wire, the files written and the exits of processes, what each
participant said and counted.  It uses no internal state of the code under test.
'''
from collections import deque
import hashlib
import json
import os

import yaml
from cryptography.hazmat.primitives import serialization
from cryptography.fernet import Fernet

import boot
import meaning
import ipaddress

MOD = 2 ** 70
DIGESTS, PUBLIC = [], []
for _k in boot.KEYS:
    _pub = serialization.load_pem_private_key(_k).public_key().public_bytes()
    PUBLIC.append(_pub)
    DIGESTS.append(hashlib.sha256(_pub).hexdigest())
PRIV = [serialization.load_pem_private_key(k) for k in boot.KEYS]


def open_share(key, secret):
    '''the blinding values in an encrypted share and the symmetric key that protected them, with this private key:
    RSA-OAEP around a Fernet key, Fernet around base64 JSON'''
    sym = PRIV[key].decrypt(secret['pk_encrypted_secret_key'].decode('base64'), None)
    data = Fernet(sym).decrypt(secret['sym_encrypted_data'].encode('ascii'))
    return json.loads(data.decode('base64')), sym


def seal(key, values):
    'an encrypted share, as a data collector makes it'
    sym = Fernet.generate_key()
    pub = serialization.load_pem_public_key(PUBLIC[key])
    return {'pk_encrypted_secret_key': pub.encrypt(sym, None).encode('base64').replace('\n', ''),
            'sym_encrypted_data': Fernet(sym).encrypt(json.dumps(values).encode('base64').replace('\n', ''))}


def signed(v):
    v %= MOD
    return v - MOD if v >= MOD // 2 else v


# a run is cut short here: two nodes are answering each other as fast as they can
MAX_MSGS = 30000


class Msg(object):
    __slots__ = ('t', 'seq', 'conn', 'src', 'dst', 'inc', 'kind', 'text', 'clock', '_data', 'round', 'got',
                 'got_clock', 'got_inc', 'text_got', 'tick', 'got_tick')

    @property
    def data(self):
        if self._data is None:
            i = self.text.find('{')
            self._data = json.loads(self.text[i:]) if i >= 0 else {}
        return self._data

    @property
    def as_got(self):
        'what the receiver read, which differs from what was sent if somebody altered it'
        i = self.text_got.find('{')
        return json.loads(self.text_got[i:]) if i >= 0 else {}

    def __repr__(self):
        return '%.3f %s->%s %s' % (self.t, self.src, self.dst, self.text[:60])


class Collection(object):
    'one START SUCCESS of a data collector: what it counted until it stopped'

    def __init__(self, dc, inc, t, config):
        self.dc, self.inc, self.t, self.config = dc, inc, t, config
        self.counts = {}            # (counter, bin index) -> total
        self.nevents = 0
        self.lines = []             # (sim time, node clock, line)
        self.shares = None
        self.reported = None        # Counts in STOP SUCCESS
        self.stop_msg = None
        self.start_msg = None
        self.enabled_at = None
        self.fps = []
        self.draws = []             # entropy drawn in single steps since the start
        self.ended = None
        self.model = None
        self.began = self.next_rotation = None      # node clock

    def add_all(self, increments):
        for name, val, inc in increments:
            self.add(name, val, inc)

    def rotate(self, clock):
        'the windows in which clients are counted that ended by now; only the last of several is reported late'
        if self.next_rotation is not None and clock >= self.next_rotation:
            self.add_all(self.model.rotate(clock))
            period = self.model.period
            n = int((clock - self.began) / period)
            self.next_rotation = self.began + (n + 1) * period

    def add(self, name, val, inc):
        bins = self.config['counters'].get(name, {}).get('bins')
        if not bins:
            return
        if len(bins) == 1:
            k = (name, 0)
            self.counts[k] = self.counts.get(k, 0) + inc
            return
        for i in range(len(bins)):
            lo, hi = float(bins[i][0]), float(bins[i][1])
            if lo <= val and (val < hi or hi == float('inf')):
                k = (name, i)
                self.counts[k] = self.counts.get(k, 0) + inc


class TorLink(object):
    'a control connection as seen on the wire'

    def __init__(self, conn):
        self.conn = conn
        self.buf = {}
        self.events = None          # event types the DC asked for, None when disabled
        self.quit = False
        self.log = []               # (tick, time, 'cmd' or 'got', line, secret in the cookie file offered)
        self.cookie_file = None


class Round(object):
    def __init__(self, n, inc, t):
        self.n, self.inc, self.t = n, inc, t
        self.starts = []            # START messages sent by the TS
        self.stops = []
        self.files = {}
        self.end = None
        self.how = None
        self.lists = None


class Recorder(object):
    def __init__(self, cluster):
        self.c = cluster
        self.w = cluster.world
        self.msgs = []
        self.partial = {}
        self.by_conn = {}
        self.links = {}
        self.collections = []       # in order of START SUCCESS
        self.current = {}           # dc name -> Collection being counted
        self.pending = {}           # dc name -> last START received (not answered yet)
        self.rounds = []
        self.round = None
        self.files = []
        self.reads = []
        self.list_reads = {}
        self.exits = []
        self.hooks = []             # functions called with each Msg as it is sent
        self.recv_hooks = []        # functions called with each Msg line as it is delivered
        self.tor_notes = []
        self.inbuf = {}
        self.ticks = {}
        self.tick = 0               # orders sending and reading of messages
        self.closes = {}            # connection -> (time, tick, node, 'close' or 'lost') by each end
        self.flying = {}            # (connection, from its client) -> messages sent and not read yet
        self.starts_got = {}
        self.stop_answers = []      # (round of the STOP answered, message)
        self.last_stop = {}
        self.accepts = []
        self.start_drawn = {}       # node -> entropy drawn when the last START arrived
        self.drawn = {}             # node -> entropy drawn up to the last step

    # -- PrivCount messages -----------------------------------------------------------------------
    def on_accept(self, conn):
        self.accepts.append((self.w.now, conn.client.node.name, conn.server.node.name, conn.id))
        if conn.server.node.kind == 'tor':
            link = self.links[conn.id] = TorLink(conn)
            link.col = self.current.get(conn.client.node.name)
            link.t, link.inc = self.w.now, conn.client.node.incarnation

    def on_close(self, conn, end):
        self.tick += 1
        self.closes.setdefault(conn.id, []).append((self.w.now, self.tick, end.node.name, 'close'))

    def on_lost(self, conn, end, how):
        self.tick += 1
        self.closes.setdefault(conn.id, []).append((self.w.now, self.tick, end.node.name, how))

    def on_wire(self, conn, end, data):
        if conn.id in self.links:
            return self.tor_wire(conn, end, data)
        key = (conn.id, end is conn.client)
        buf = self.partial.get(key, '') + data
        lines = buf.split('\r\n')
        self.partial[key] = lines.pop()
        for l in lines:
            self.message(conn, end, l)

    def message(self, conn, end, line):
        m = Msg()
        m.t, m.seq, m.conn = self.w.now, len(self.msgs), conn.id
        m.src, m.dst = end.node.name, conn.peer(end).node.name
        m.inc = end.node.incarnation
        m.clock = end.node.clock()
        m.text, m._data = line, None
        self.tick += 1
        m.tick = self.tick
        if len(self.msgs) > MAX_MSGS:
            self.w.ended, self.w.stopped = 'flood', True
        m.round = m.got = m.got_clock = m.got_inc = m.text_got = m.got_tick = None
        words = line.split(' ', 2)
        m.kind = words[0]
        if m.kind in ('START', 'STOP', 'CHECKIN') and end is conn.client:
            m.kind = ' '.join(words[:2])
        self.msgs.append(m)
        self.by_conn.setdefault(conn.id, []).append(m)
        self.flying.setdefault((conn.id, end is conn.client), deque()).append(m)
        if end.node.kind == 'ts' and m.kind == 'START':
            if self.round is None:
                self.round = Round(len(self.rounds), m.inc, m.t)
                self.rounds.append(self.round)
                self.round.lists = self.operator_lists()
            self.round.starts.append(m)
            m.round = self.round
        elif end.node.kind == 'ts' and m.kind == 'STOP':
            if self.round is not None:
                self.round.stops.append(m)
                m.round = self.round
        elif m.kind == 'START SUCCESS' and end.node.kind == 'dc':
            cfg, start = self.pending.get(m.src) or ({}, None)
            col = Collection(m.src, m.inc, m.t, cfg)
            col.round = start.round if start is not None else None
            col.start = start
            col.start_msg = m
            col.shares = m.data
            self.model_of(end.node, col)
            col.share_draw = end.node.drawn - self.start_drawn.get(m.src, 0)
            self.drawn[m.src] = end.node.drawn
            self.collections.append(col)
            self.current[m.src] = col
        elif m.kind == 'STOP SUCCESS' and end.node.kind == 'dc':
            col = self.current.pop(m.src, None)
            if col is not None and col.inc == m.inc:
                col.stop_msg = m
                col.rotate(end.node.clock())
                col.ended = m.t
                col.reported = m.data.get('Counts')
                col.draws.append(end.node.drawn - self.drawn.get(m.src, 0))
        if m.kind in ('STOP SUCCESS', 'STOP FAIL'):
            self.stop_answers.append((self.last_stop.get(m.src), m))
        for h in self.hooks:
            h(m)

    def on_recv(self, conn, end, data):
        if conn.id in self.links:
            return self.tor_recv(conn, end, data)
        key = (conn.id, end is conn.client)
        buf = self.inbuf.get(key, '') + data
        lines = buf.split('\r\n')
        self.inbuf[key] = lines.pop()
        for l in lines:
            q = self.flying.get((conn.id, end is not conn.client))
            m = q.popleft() if q else None
            if m is not None:
                m.got, m.got_clock, m.got_inc = self.w.now, end.node.clock(), end.node.incarnation
                m.text_got = l
                self.tick += 1
                m.got_tick = self.tick
                if m.kind == 'STOP':
                    self.last_stop[end.node.name] = m.round
            # what the DC is about to be asked
            if end.node.kind == 'dc' and l.startswith('START '):
                try:
                    cfg = json.loads(l[6:])
                except ValueError:
                    cfg = {}
                self.start_drawn[end.node.name] = end.node.drawn
                self.pending[end.node.name] = (cfg, m if m is not None and m.kind == 'START' else None)
                self.starts_got.setdefault(end.node.name, []).append((self.w.now, end.node.clock(), cfg))
            for h in self.recv_hooks:
                h(conn, end, l)

    # -- Tor control connections ------------------------------------------------------------------------
    def tor_wire(self, conn, end, data):
        link = self.links[conn.id]
        if end is not conn.client:
            return
        buf = link.buf.get('out', '') + data
        lines = buf.split('\r\n')
        link.buf['out'] = lines.pop()
        for l in lines:
            self.tick += 1
            link.log.append((self.tick, self.w.now, 'cmd', l, None))
            if l.startswith('SETEVENTS'):
                ev = set(l.split(' ')[1:]) - set([''])
                link.events = ev or None
                col = self.current.get(conn.client.node.name)
                if link.events and col is not None and col.enabled_at is None:
                    col.enabled_at = self.w.now
            elif l == 'QUIT':
                link.quit = True
                link.events = None

    def tor_recv(self, conn, end, data):
        link = self.links[conn.id]
        if end is not conn.client:
            return
        buf = link.buf.get('in', '') + data
        lines = buf.split('\r\n')
        link.buf['in'] = lines.pop()
        for l in lines:
            self.tick += 1
            secret = None
            l = l.strip()
            if l.startswith('250-AUTH') and 'COOKIEFILE="' in l:
                link.cookie_file = l.partition('COOKIEFILE="')[2].rpartition('"')[0]
            elif l.startswith('250 AUTHCHALLENGE') and link.cookie_file:
                try:
                    with boot.real_open(link.cookie_file) as f:
                        secret = f.read()
                except (IOError, OSError):
                    pass
            link.log.append((self.tick, self.w.now, 'got', l, secret))
            if l.startswith('650 PRIVCOUNT_') and link.events and not link.quit:
                ev = l[4:]
                if ev.split(' ')[0] in link.events and len(ev.split(' ')) > 1:
                    self.count_event(end.node, ev)
            if l.startswith('250-fingerprint='):
                if link.col is not None and link.col.ended is None:
                    link.col.fps.append(l.partition('=')[2])

    def count_event(self, node, line):
        col = self.current.get(node.name)
        if col is None or col.inc != node.incarnation or col.ended is not None:
            self.w.count('events.outside')
            return
        self.w.count('events.counted')
        col.nevents += 1
        col.lines.append((self.w.now, node.clock(), line))
        col.rotate(node.clock())
        col.add_all(col.model.event(line))

    def model_of(self, node, col):
        'the reference model of a collection that begins'
        i = int(node.name[2:])
        got = self.starts_got[node.name][-1]
        period = float(self.c.plan['dcs'][i].get('rotate', 600))
        col.model = meaning.Model(list(col.config.get('counters', {})), self.lists_of(col.config, col.start), period)
        col.model.rotated = got[1]
        col.began = got[1] + float(col.config.get('defer_time', 0.0))
        col.next_rotation = col.began + period

    def lists_of(self, config, start):
        if start is not None and start.round is not None and start.round.lists is not None:
            return start.round.lists
        # no list of its own to compare with: what the tally server sent
        asd = config.get('as_data', {})
        return meaning.Lists(config.get('domain_lists', []), config.get('country_lists', []), asd.get('lists', []),
                             [], config.get('hsdir_store_lists', []), config.get('hsdir_fetch_lists', []),
                             config.get('circuit_failure_lists', []), config.get('onion_address_lists', []))

    def operator_lists(self):
        "the operator's lists, as the tally server last read them"
        files = self.c.plan.get('lists')
        if files is None:
            return None
        conf = yaml.safe_load([r for r in self.reads if r[3] == 'ts.yaml'][-1][4])['tally_server']

        def items(path):
            base = os.path.basename(path)
            return [i for text, i in files[base] if text == self.list_reads[base]][0]

        def of(key):
            return [items(n) for n in conf.get(key, [])]
        nets = []
        for n in conf.get('as_prefix_files', {}).values():
            nets += [(ipaddress.ip_network(unicode(a)), b) for a, b in items(n)]
        return meaning.Lists(of('domain_files'), of('country_files'), of('as_files'), nets, of('hsdir_store_files'),
                             of('hsdir_fetch_files'), of('circuit_failure_files'), of('onion_address_files'))

    def on_tor(self, tor, what, conn, *a):
        self.tor_notes.append((self.w.now, tor.name, what, conn.transport.conn.id if conn.transport else None) + a)

    def on_tor_fault(self, tor, where):
        self.tor_notes.append((self.w.now, tor.name, 'fault', None, where))

    # -- processes and files ---------------------------------------------------------------------------------
    def on_node_exit(self, node, how, code):
        self.exits.append((self.w.now, node.name, node.incarnation, how, code))
        self.current.pop(node.name, None)
        if node.kind == 'ts' and self.round is not None:
            self.round.end, self.round.how = self.w.now, 'exit'
            self.round = None

    def on_file_write(self, node, name):
        base = os.path.basename(name)
        self.tick += 1
        self.ticks['file', node.incarnation, base] = self.tick
        self.files.append((self.w.now, node.name, node.clock(), base, self.round, node.incarnation))
        if node.kind == 'ts' and base.startswith('privcount.') and self.round is not None:
            self.round.files[base.split('.')[1]] = base
            if base.startswith('privcount.outcome'):
                self.round.end, self.round.how = self.w.now, 'outcome'
                self.round = None

    def on_file_read(self, node, name):
        # what a process read, for the files an operator edits
        base = os.path.basename(name)
        if base == node.name + '.yaml' or base in ('sigmas.yaml', 'counters.yaml'):
            with boot.real_open(name) as f:
                self.tick += 1
                self.ticks['read', node.name, node.incarnation, base, node.clock()] = self.tick
                self.reads.append((self.w.now, node.name, node.incarnation, base, f.read(), node.clock()))
        elif base in (self.c.plan.get('lists') or ()):
            with boot.real_open(name) as f:
                self.list_reads[base] = f.read()

    def on_step(self):
        # the most entropy a collector drew in one step of each of its collections: what a single action drew
        for name, col in self.current.items():
            n = self.w.nodes[name]
            if n.alive and col.inc == n.incarnation and n.stalled_until <= self.w.now:
                col.rotate(n.clock())
            d = n.drawn - self.drawn.get(name, 0)
            if d:
                self.drawn[name] = n.drawn
                col.draws.append(d)

    def finish(self):
        pass

    # -- derived facts -------------------------------------------------------------------------------------------
    def decrypted(self, col):
        'the blinding values of a collection: {sk uid: {(counter, bin): value}}'
        if getattr(col, '_dec', None) is None:
            out = {}
            for uid, sh in col.shares.items():
                try:
                    values, sym = open_share(DIGESTS.index(uid), sh['secret'])
                    out[uid] = flat(values)
                except Exception:
                    # not encrypted to the key it names: the confidentiality oracle reports it
                    continue
            col._dec = out
        return col._dec

    def residual(self, col):
        'reported counts minus blinding minus what the model counted: the noise, per bin'
        rep = flat(col.reported)
        dec = self.decrypted(col)
        out = {}
        for k, v in rep.items():
            for sh in dec.values():
                v -= sh.get(k, 0)
            out[k] = signed(v - col.counts.get(k, 0))
        return out


def flat(counts):
    out = {}
    for name in counts:
        bins = counts[name]['bins']
        for i in range(len(bins)):
            out[(name, i)] = int(bins[i][2])
    return out
