'''
One simulated PrivCount deployment: a tally server, share keepers, data collectors and the Tor processes
they count, built from a plan (a JSON object) and run with the faults the plan lists.
'''
import copy
import hashlib
import json
import os

import yaml

import boot
from boot import reactor, KEYS
from simcore import World, NodeExit, HarnessError, Rng, subseed, EPOCH, End
from tor import Tor
from recorder import Recorder
from peer import Rogue, Impostor

from privcount.tally_server import TallyServer
from privcount.share_keeper import ShareKeeper
from privcount.data_collector import DataCollector
from cryptography.hazmat.primitives import serialization

TS_PORT = 20001
DIGESTS = []
for _k in KEYS:
    _pub = serialization.load_pem_private_key(_k).public_key().public_bytes()
    DIGESTS.append(hashlib.sha256(_pub).hexdigest())

INF = float('inf')
SINGLE = [[0.0, INF]]
HIST = [[0.0, 512.0], [512.0, 8192.0], [8192.0, 100000.0], [100000.0, INF]]
COUNTERS = {
    'ExitStreamCount': SINGLE,
    'ExitStreamByteCount': SINGLE,
    'ExitStreamInboundByteCount': SINGLE,
    'ExitWebStreamCount': SINGLE,
    'ExitStreamByteHistogram': HIST,
    'EntryConnectionCount': SINGLE,
    'NonEntryConnectionCount': SINGLE,
    'EntryConnectionByteCount': SINGLE,
    'EntryConnectionByteHistogram': HIST,
    'EntryConnectionCountryMatchCountList': [],
    'EntryClientIPCount': SINGLE,
    'EntryActiveClientIPCount': SINGLE,
    'EntryInactiveClientIPCount': SINGLE,
    'EntryClientIPActiveCircuitHistogram': [[0.0, 1.0], [1.0, 4.0], [4.0, INF]],
    'EntryClientIPInactiveCircuitHistogram': [[0.0, 1.0], [1.0, 4.0], [4.0, INF]],
}


def fingerprint(i):
    return hashlib.sha256('relay%d' % i).hexdigest()[:40].upper()


class PlainDumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def plain(obj):
    'text loaded from JSON is unicode: YAML would tag it'
    if isinstance(obj, dict):
        return dict((plain(k), plain(v)) for k, v in obj.items())
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    if isinstance(obj, unicode):
        return obj.encode('utf-8')
    return obj


def dump(obj):
    return yaml.dump(plain(obj), Dumper=PlainDumper, default_flow_style=None)


class Cluster(object):
    def __init__(self, plan, rundir, verbose=False):
        self.plan = plan = plain(plan)
        self.rundir = rundir
        self.world = World(plan['seed'], rundir, verbose)
        reactor.world = self.world
        w = self.world
        net = plan.get('net', {})
        w.latency = tuple(net.get('lat', (0.002, 0.2)))
        w.chunk = net.get('chunk', 0)
        self.rec = Recorder(self)
        w.watchers.append(self.rec)
        self.violations = []
        self.history = []           # (time, file, content): every version of the config files
        self.cfg = {}
        self.texts = {}
        self.queued = {}
        self.rogue = None
        self.build()

    # -- files -----------------------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.rundir, name)

    def put(self, name, text):
        d = os.path.dirname(self.path(name))
        if not os.path.isdir(d):
            os.makedirs(d)
        with boot.real_open(self.path(name), 'w') as f:
            f.write(text)

    def ts_conf(self):
        'the tally server config as the plan describes it (before any edit)'
        p = self.plan
        c = {'counters': 'counters.yaml', 'sigmas': 'sigmas.yaml',
             'noise_weight': dict((fingerprint(d.get('relay', i)), d.get('weight', 1.0))
                                  for i, d in enumerate(p['dcs'])),
             'listen_port': TS_PORT, 'sk_threshold': len(p['sks']), 'dc_threshold': len(p['dcs']),
             'collect_period': 60, 'event_period': 5, 'checkin_period': 5, 'delay_period': 0,
             'always_delay': False, 'continue': True,
             'key': self.path('ts.key'), 'cert': self.path('ts.cert'),
             'results': self.path('results'),
             'country_files': ['country-a.txt', 'country-b.txt'],
             'reject_overlapping_lists': True}
        c['counters'] = self.path('counters.yaml')
        c['sigmas'] = self.path('sigmas.yaml')
        c.update(copy.deepcopy(p.get('ts', {})))
        for k in c:
            c[k] = self.absolute(k, c[k])
        for k in list(c):
            if c[k] is None:
                del c[k]
        return c

    def absolute(self, key, val):
        'lists of files, in the directory of the run'
        if key == 'as_prefix_files':
            return dict((int(k), self.path(x)) for k, x in val.items())
        if key.endswith('_files'):
            return [self.path(x) for x in val]
        return val

    def sk_conf(self, i):
        c = {'key': self.path('sk%d.key' % i), 'tally_server_info': {'ip': '10.0.0.1', 'port': TS_PORT},
             'delay_period': 0, 'always_delay': False}
        c.update(copy.deepcopy(self.plan['sks'][i].get('conf', {})))
        return c

    def dc_conf(self, i):
        d = self.plan['dcs'][i]
        src = {'unix': self.path('tor%d.sock' % i)} if d.get('unix') else {'port': 9100 + i, 'ip': '127.0.0.1'}
        pw = d.get('dc_password')
        if pw:
            self.put('dc%d.pass' % i, pw)
            src['control_password'] = self.path('dc%d.pass' % i)
        c = {'name': d.get('name', 'DC%d' % i), 'event_source': src,
             'tally_server_info': {'ip': '10.0.0.1', 'port': TS_PORT},
             'share_keepers': [DIGESTS[s['key']] for s in self.plan['sks']],
             'delay_period': 0, 'always_delay': False, 'rotate_period': d.get('rotate', 600),
             'use_setconf': d.get('use_setconf', True)}
        c.update(copy.deepcopy(d.get('conf', {})))
        return c

    def write_node_conf(self, name, conf=None):
        kind = name[:2]
        key = {'ts': 'tally_server', 'sk': 'share_keeper', 'dc': 'data_collector'}[kind]
        if conf is None:
            conf = self.cfg[name]
        self.cfg[name] = conf
        self.history.append((self.world.now, name, copy.deepcopy(conf)))
        doc = {key: conf, 'secret_handshake': self.path(self.plan.get('handshake_of', {}).get(name, 'handshake.yaml'))}
        self.put(name + '.yaml', dump(doc))

    def write_counters(self, sigmas=None):
        p = self.plan
        names = p.get('counters', sorted(COUNTERS))
        sig = dict((n, 0.0) for n in names)
        sig.update(p.get('sigmas', {}))
        sig.update(sigmas or {})
        sig = dict((n, sig[n]) for n in names if sig.get(n) is not None)
        bins = dict((n, (p.get('bins') or {}).get(n, COUNTERS.get(n))) for n in names)
        self.put('counters.yaml', dump({'counters': dict((n, {'bins': bins[n]}) for n in names)}))
        self.put('sigmas.yaml', dump({'counters': dict((n, {'sigma': float(sig[n])}) for n in sig)}))
        self.history.append((self.world.now, 'sigmas', dict((n, float(sig[n])) for n in sig)))

    def build(self):
        p, w = self.plan, self.world
        if not os.path.isdir(self.path('results')):
            os.makedirs(self.path('results'))
        self.put('ts.key', KEYS[-1])
        self.put('ts.cert', 'certificate')
        self.put('country-a.txt', 'us\nde\n')
        self.put('country-b.txt', 'fr\nad\n')
        secret = hashlib.sha256('secret').digest().encode('base64').strip()
        self.put('handshake.yaml', secret)
        self.put('other.yaml', hashlib.sha256('other').digest().encode('base64').strip())
        self.write_counters()
        for name, text in p.get('files', {}).items():
            self.put(name, text)
        ts = w.add_node('ts', 'ts')
        self.cfg['ts'] = self.ts_conf()
        self.write_node_conf('ts')
        self.sks, self.dcs, self.tors = [], [], []
        for i, s in enumerate(p['sks']):
            self.put('sk%d.key' % i, KEYS[s['key']])
            self.cfg['sk%d' % i] = self.sk_conf(i)
            self.write_node_conf('sk%d' % i)
            self.sks.append(w.add_node('sk%d' % i, 'sk'))
        for i, d in enumerate(p['dcs']):
            self.cfg['dc%d' % i] = self.dc_conf(i)
            self.write_node_conf('dc%d' % i)
            self.dcs.append(w.add_node('dc%d' % i, 'dc'))
            n = w.add_node('tor%d' % i, 'tor')
            spec = {'fingerprint': fingerprint(d.get('relay', i)), 'nickname': 'relay%d' % i,
                    'rate': 0.5, 'auth': ['SAFECOOKIE']}
            spec.update(copy.deepcopy(d.get('tor', {})))
            listen = ('unix', self.path('tor%d.sock' % i)) if d.get('unix') else ('tcp', 9100 + i)
            tor = Tor(w, n, spec, listen, self.rundir)
            n.app = tor
            self.tors.append(tor)
        for i in range(p.get('advs', 0)):
            w.add_node('adv%d' % i, 'adv')
        self.boot_at = {}
        for n in w.order:
            t = p.get('boot', {}).get(n.name, 0.0)
            if t is not None:
                w.at(t, lambda n=n: self.start(n.name))
        self.armed = []
        for k, op in enumerate(p.get('ops', [])):
            if 'on' in op:
                # fired by the nth message of a kind: [kind, nth, src or None, dst or None, delay]
                self.armed.append([op, op['on'][1]])
            else:
                w.at(op['t'], lambda op=op: self.do(op))
        if self.armed:
            self.rec.hooks.append(self.trigger)

    def trigger(self, m):
        for a in self.armed:
            op = a[0]
            kind, nth, src, dst, delay = op['on']
            if m.kind == kind and src in (None, m.src) and dst in (None, m.dst):
                a[1] -= 1
                if a[1] == 0:
                    op = copy.deepcopy(op)
                    client = m.dst if m.src == 'ts' else m.src
                    for k in ('node', 'a'):
                        if op.get(k) == '@client':
                            op[k] = client
                    if 'nodes' in op:
                        op['nodes'] = [client if x == '@client' else x for x in op['nodes']]
                    self.world.after(delay, lambda op=op: self.do(op))
        self.armed = [a for a in self.armed if a[1] > 0]

    # -- processes -----------------------------------------------------------------------------
    def start(self, name):
        n = self.world.nodes[name]
        if n.alive:
            return
        if n.kind == 'tor':
            tor = self.tors[int(name[3:])]

            def make():
                n.app = tor
                tor.boot()
        else:
            def make():
                n.app = self.process(name, n.kind)
                n.app.run()
        self.world.start_node(n, make)

    def process(self, name, kind):
        if kind == 'ts' and self.plan.get('rogue') is not None:
            self.rogue = Rogue(self, self.plan['rogue'])
            self.rogue.queue = self.queued
            return self.rogue
        if kind == 'adv':
            return Impostor(self, name)
        return {'ts': TallyServer, 'sk': ShareKeeper, 'dc': DataCollector}[kind](self.path(name + '.yaml'))

    def op_cmd(self, op):
        'the scripted tally server sends a command when the client next reports its status'
        self.queued.setdefault(op['node'], []).append(op)

    def op_attack(self, op):
        n = self.world.nodes[op['node']]
        if not n.alive:
            return False
        self.world.in_node(n, n.app.attack, op['steps'])

    def op_impostor(self, op):
        'another process listens in the place of the tally server for a while'
        w, n = self.world, self.world.nodes[op['node']]
        if not n.alive:
            return False
        self.kill('ts', op.get('how', 'kill'))

        def begin():
            if not self.world.nodes['ts'].alive:
                w.in_node(n, n.app.take_over, op['script'])
                w.after(op['d'], end)

        def end():
            if n.alive:
                w.in_node(n, n.app.give_up)
            w.after(0.2, lambda: self.start('ts'))
        w.after(0.05, begin)

    def kill(self, name, how='kill'):
        self.world.kill_node(self.world.nodes[name], how)

    # -- fault operations --------------------------------------------------------------------------
    def do(self, op):
        w = self.world
        kind = op['op']
        if 'until' in op:
            # faults stop then
            if w.now >= op['until']:
                w.count('late.' + kind)
                return
            for k in ('d', 'down'):
                if op.get(k) is not None:
                    op = dict(op)
                    op[k] = min(op[k], op['until'] - w.now)
        w.log('OP', json.dumps(op, sort_keys=True))
        fired = True
        if kind == 'kill':
            fired = w.nodes[op['node']].alive
            self.kill(op['node'], op.get('how', 'kill'))
            if op.get('down') is not None:
                w.after(op['down'], lambda: self.start(op['node']))
        elif kind == 'start':
            self.start(op['node'])
        elif kind == 'partition':
            w.partition(op['nodes'], op['d'])
        elif kind == 'slow':
            w.slow[frozenset(op['nodes'])] = (w.now + op['d'], op['lat'])
        elif kind == 'reset':
            fired = w.reset_links(op['a'], op.get('b')) > 0
        elif kind == 'stall':
            n = w.nodes[op['node']]
            fired = n.alive
            n.stalled_until = max(n.stalled_until, w.now + op['d'])
        elif kind == 'clock':
            n = w.nodes[op['node']]
            n.offset += op['by']
        elif kind == 'sync':
            # the clocks are set right, forwards
            to = max(n.offset for n in w.nodes.values())
            for name in sorted(w.nodes):
                w.nodes[name].offset = to
        elif kind == 'fs':
            n = w.nodes[op['node']]
            n.fs_faults.append(dict((k, v) for k, v in op.items() if k not in ('op', 't', 'node')
                                    and k != 'fop'))
            n.fs_faults[-1]['op'] = op['fop']
        elif kind == 'conf':
            # an operator edits a config file: keys to set (None removes)
            c = copy.deepcopy(self.cfg[op['node']])
            for k, v in op['set'].items():
                if v is None:
                    c.pop(k, None)
                else:
                    c[k] = self.absolute(k, v) if op['node'] == 'ts' else v
            self.write_node_conf(op['node'], c)
        elif kind == 'raw':
            self.put(op['file'], op['text'])
        elif kind == 'unlink':
            if os.path.exists(self.path(op['file'])):
                os.remove(self.path(op['file']))
        elif kind == 'sigmas':
            self.write_counters(op['sigmas'])
        elif kind == 'tor':
            t = self.tors[int(op['node'][3:])]
            t.spec.update(copy.deepcopy(op['set']))
            for k in ('fingerprint', 'flags', 'in_consensus', 'address', 'nickname'):
                if k in op['set']:
                    setattr(t, k, op['set'][k])
        elif kind == 'reload':
            # SIGHUP to tor
            t = self.tors[int(op['node'][3:])]
            fired = w.nodes[op['node']].alive
            if fired and t.conf['__ReloadTorrcOnSIGHUP'] == '1':
                t.conf['EnablePrivCount'] = '1' if t.spec.get('torrc_enable') else '0'
        else:
            fn = getattr(self, 'op_' + kind, None)
            if fn is None:
                raise HarnessError('unknown operation %s' % kind)
            fired = fn(op)
        w.count(('op.' if fired is not False else 'noop.') + kind)

    def signature(self):
        '''an abstraction of the interleaving: the order of protocol messages, process exits and control
        commands, without times and payloads'''
        h = hashlib.sha256()
        ev = [(m.t, 0, m.seq, '%s>%s %s' % (m.src, m.dst, m.kind)) for m in self.rec.msgs
              if not m.kind.startswith('HANDSHAKE')]
        ev += [(e[0], 1, i, 'exit %s %s' % (e[1], e[3])) for i, e in enumerate(self.rec.exits)]
        for e in sorted(ev):
            h.update(e[3] + '\n')
        return h.hexdigest()[:16]

    def run(self):
        w = self.world
        w.run(self.plan['end'])
        if w.ended:
            # nodes that keep each other busy without end: judged by what happened up to here
            w.count('run.cut_short.' + w.ended)
        self.rec.finish()
        w.log('END', w.steps, len(w.unhandled))
        return self
