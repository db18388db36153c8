'''
Puts the seams in place and imports the code under test from /repo (or $VERIF_REPO).

Every nondeterministic service the code uses is redirected here before privcount is imported:
time.time, os.urandom (and random.SystemRandom), os._exit, the Twisted reactor, the file calls, and the
git revision.  Outside a simulated process (world.current is None) the real services answer.
'''
import __builtin__
import errno
import imp
import logging
import os
import random
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'shims'))
sys.path.insert(0, HERE)

import simcore
from simcore import SimReactor, NodeExit, HarnessError

real_time = time.time
real_gmtime, real_strftime = time.gmtime, time.strftime
real_urandom = os.urandom
real_exit = os._exit
real_open = __builtin__.open
reactor = SimReactor()


def world():
    return reactor.world


def current():
    w = reactor.world
    return w.current if w is not None else None


# -- clock and entropy -----------------------------------------------------------------
def sim_time():
    n = current()
    return n.clock() if n is not None else real_time()


def sim_urandom(k):
    n = current()
    if n is None:
        return real_urandom(k)
    r = n.entropy
    n.world.count('entropy.bytes', k)
    n.drawn += k
    out = []
    while k > 0:
        v = r.getrandbits(48)
        s = ''.join(chr((v >> (8 * i)) & 255) for i in range(min(6, k)))
        out.append(s)
        k -= len(s)
    return ''.join(out)


def sim_exit(code):
    w = world()
    if w is None or w.current is None:
        real_exit(code)
    w.exit_current(code)


def no_sleep(*a):
    raise HarnessError('time.sleep in simulated code')


# Jython's time is a Java class: a plain module takes its place for everything imported from here on
_time = types.ModuleType('time')
for _name in ('asctime', 'ctime', 'localtime', 'mktime', 'strptime', 'struct_time', 'timezone', 'tzname',
              'altzone', 'daylight', 'tzset', 'clock'):
    if hasattr(time, _name):
        setattr(_time, _name, getattr(time, _name))
_time.time = sim_time
_time.sleep = no_sleep
_time.gmtime = lambda secs=None: real_gmtime(sim_time() if secs is None else secs)
_time.strftime = lambda fmt, t=None: real_strftime(fmt, real_gmtime(sim_time()) if t is None else t)
sys.modules['time'] = _time
os.urandom = sim_urandom
random._urandom = sim_urandom
os._exit = sim_exit


# -- files -------------------------------------------------------------------------------
class SimFile(object):
    '''A file opened for writing by a simulated process: what it wrote reaches the scratch directory at
    close (or flush), and a fault may lose it, cut it short or kill the process at that point.'''

    def __init__(self, node, path, mode):
        self.node, self.name, self.mode = node, path, mode
        self.buf, self.closed = [], False
        # truncation happens at open
        real_open(path, mode).close()

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        self.buf.append(s if isinstance(s, str) else s.encode('ascii'))

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        data, self.buf = ''.join(self.buf), []
        if not data:
            return
        f = check_fault(self.node, 'write', self.name)
        if f is not None:
            kind = f['kind']
            n = int(len(data) * f.get('part', 0.5))
            if kind in ('short', 'torn-crash', 'enospc'):
                self._out(data[:n])
            if kind in ('crash', 'torn-crash'):
                self.closed = True
                self.node.world.kill_node(self.node, 'power')
                raise NodeExit()
            raise IOError(errno.ENOSPC if kind == 'enospc' else errno.EIO,
                          'simulated %s' % kind, self.name)
        self._out(data)

    def _out(self, data):
        with real_open(self.name, 'ab') as f:
            f.write(data)

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                self.closed = True

    def fileno(self):
        raise IOError('no descriptor')

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, NodeExit):
            return False
        self.close()
        return False


def check_fault(node, op, path):
    for f in node.fs_faults:
        if f.get('left', 1) > 0 and f['op'] == op and f['match'] in path:
            if f.get('skip', 0) > 0:
                f['skip'] -= 1
                continue
            f['left'] = f.get('left', 1) - 1
            node.world.count('fs.%s.%s' % (op, f['kind']))
            node.world.log('FS-FAULT', node, op, os.path.basename(path), f['kind'])
            return f
    return None


def contained(path):
    'writes of simulated processes stay inside the scratch directory'
    w = world()
    full = os.path.abspath(path)
    if not full.startswith(w.rundir + os.sep):
        raise HarnessError('write outside the scratch directory: %s' % path)


def sim_open(name, mode='r', *a, **kw):
    n = current()
    if n is None or not isinstance(name, basestring) or name.startswith(('/opt/', '/usr/', '/repo/')):
        return real_open(name, mode, *a, **kw)
    if not n.alive:
        raise NodeExit()
    if 'w' in mode or 'a' in mode or '+' in mode:
        contained(name)
        f = check_fault(n, 'open-w', name)
        if f is not None:
            if f['kind'] == 'crash':
                n.world.kill_node(n, 'power')
                raise NodeExit()
            raise IOError(errno.EACCES, 'simulated', name)
        n.world.emit('on_file_write', n, name)
        return SimFile(n, name, mode)
    f = check_fault(n, 'open-r', name)
    if f is not None:
        raise IOError(errno.EIO, 'simulated', name)
    if os.path.exists(name):
        n.world.emit('on_file_read', n, name)
    return real_open(name, mode, *a, **kw)


def fs_call(op, real):
    def call(*a):
        n = current()
        if n is not None:
            if not n.alive:
                raise NodeExit()
            contained(a[-1])
            f = check_fault(n, op, a[-1])
            if f is not None:
                if f['kind'] == 'crash':
                    n.world.kill_node(n, 'power')
                    raise NodeExit()
                raise OSError(errno.EIO, 'simulated', a[-1])
            n.world.emit('on_fs_call', n, op, a)
            if f is None:
                r = real(*a)
                f = check_fault(n, op + '-after', a[-1])
                if f is not None and f['kind'] == 'crash':
                    n.world.kill_node(n, 'power')
                    raise NodeExit()
                return r
        return real(*a)
    return call


__builtin__.open = sim_open
os.rename = fs_call('rename', os.rename)
os.symlink = fs_call('symlink', os.symlink)
os.remove = os.unlink = fs_call('remove', os.remove)

# -- subprocess: the git revision ---------------------------------------------------------
import subprocess
subprocess.check_output = lambda *a, **kw: '0123456789abcdef0123456789abcdef01234567\n'

# -- Twisted -------------------------------------------------------------------------------
import twisted
import twisted.internet
_tp = types.ModuleType('twisted.protocols')
_tp.__path__ = [os.path.join(os.path.dirname(twisted.__file__), 'protocols')]
sys.modules['twisted.protocols'] = _tp
twisted.protocols = _tp

_ssl = types.ModuleType('twisted.internet.ssl')


class ClientContextFactory(object):
    pass


class DefaultOpenSSLContextFactory(object):
    def __init__(self, key, cert, *a, **kw):
        # as OpenSSL does: the files must be there
        for p in (key, cert):
            real_open(p, 'rb').close()


_ssl.ClientContextFactory = ClientContextFactory
_ssl.DefaultOpenSSLContextFactory = DefaultOpenSSLContextFactory
sys.modules['twisted.internet.ssl'] = _ssl
twisted.internet.ssl = _ssl

_re = types.ModuleType('twisted.internet.reactor')
for _name in dir(reactor):
    if not _name.startswith('_') and callable(getattr(reactor, _name)):
        setattr(_re, _name, getattr(reactor, _name))
sys.modules['twisted.internet.reactor'] = _re
twisted.internet.reactor = _re

from twisted.internet import task, defer, protocol, error
from twisted.protocols import basic


class _Jitter(object):
    'the reconnection jitter: one stream per process, so a fault elsewhere does not shift it'

    def normalvariate(self, mu, sigma):
        n = current()
        return n.jitter.normalvariate(mu, sigma) if n is not None else mu


protocol.random = _Jitter()
# Twisted's own log would collect unhandled errors of deferreds: surface them to the harness
import twisted.python.log as _tlog
_tlog.err = lambda *a, **kw: _unhandled_deferred(a)
_tlog.msg = lambda *a, **kw: None
defer.setDebugging(False)


class _DeferLog(object):
    'an error nobody handled in a Deferred: Twisted would only log it (the collector decides when)'

    def critical(self, *a, **kw):
        pass

    def failure(self, *a, **kw):
        pass


defer.log = _DeferLog()


def _unhandled_deferred(a):
    w = world()
    if w is not None:
        w.log('DEFERRED-ERROR', w.current, repr(a)[:200])


# -- YAML: parsing is slow under Jython, the same text gives the same data ------------------
import yaml
import copy
_yaml_load, _yaml_cache = yaml.load, {}


def yaml_load(stream, Loader=None):
    text = stream if isinstance(stream, basestring) else stream.read()
    if text not in _yaml_cache:
        if len(_yaml_cache) > 500:
            _yaml_cache.clear()
        try:
            _yaml_cache[text] = (True, _yaml_load(text, Loader=Loader or yaml.Loader))
        except yaml.YAMLError as e:
            _yaml_cache[text] = (False, e)
    ok, v = _yaml_cache[text]
    if not ok:
        raise v
    return copy.deepcopy(v)


yaml.load = yaml_load

# -- logging ---------------------------------------------------------------------------------
if os.environ.get('SIM_LOG'):
    class _H(logging.Handler):
        def emit(self, rec):
            w = world()
            print '   %10.3f [%s] %s' % (w.now if w else 0, w.current if w else '', self.format(rec)[:4000])
    logging.getLogger().handlers = [_H()]
    logging.getLogger().setLevel(getattr(logging, os.environ['SIM_LOG']))
else:
    logging.disable(logging.CRITICAL)
    # log calls cost nothing else when disabled; raise the level so that lazily formatted text is skipped
    logging.getLogger().setLevel(logging.CRITICAL + 10)
import warnings
warnings.simplefilter('ignore')

if os.environ.get('VERIF_REPO'):
    sys.path = [os.environ['VERIF_REPO'] if p == '/repo' else p for p in sys.path]
# JYTHONPATH already has /repo; the import hook of /opt/jysite compiles privcount.* from source
import privcount.counter
import privcount.connection
import privcount.protocol
import privcount.node
import privcount.tally_server
import privcount.share_keeper
import privcount.data_collector

from cryptography.hazmat.primitives.asymmetric import rsa
KEYDIR = os.path.join(HERE, 'keys')
KEYS = []
for _f in sorted(os.listdir(KEYDIR)):
    with real_open(os.path.join(KEYDIR, _f), 'rb') as _fh:
        KEYS.append(_fh.read())
rsa.POOL = KEYS

# the set of counter names is rebuilt from a constant table on every call (1.5 ms): remember it
_valid = []


def _memo(fn):
    def get_valid_counters():
        if not _valid:
            _valid.append(fn())
        return _valid[0]
    return get_valid_counters


for _m in (privcount.counter, privcount.data_collector):
    if hasattr(_m, 'get_valid_counters'):
        _m.get_valid_counters = _memo(_m.get_valid_counters)
