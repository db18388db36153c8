'How many runs each check makes (quick, thorough), and what its evidence says.'

RUNS = {
    'C01': (110, 6000),
    'C02': (110, 6000),
    'C03': (90, 6000),
    'C04': (100, 5000),
    'C05': (80, 6000),
    'C06': (110, 6000),
    'C07': (75, 4000),
    'C08': (100, 6000),
    'C09': (64, 5000),
    'C10': (64, 6000),
    'C11': (64, 6000),
    'C13': (56, 5000),
    'C14': (110, 6000),
    'C16': (48, 6000),
}

COMPONENTS = {
    'real': ['privcount.tally_server', 'privcount.share_keeper', 'privcount.data_collector', 'privcount.protocol',
             'privcount.node', 'privcount.counter', 'privcount.crypto', 'privcount.config', 'privcount.match',
             'privcount.traffic_model', 'privcount.connection', 'privcount.log', 'twisted LineOnlyReceiver,'
             ' ReconnectingClientFactory, LoopingCall, deferLater'],
    'simulated': ['reactor (clock, timers, TCP, UNIX sockets)', 'operating system entropy', 'process exit',
                  'file writes, renames and links (faults), in a scratch directory'],
    'stub': ['Tor (control port server and event source)', 'TLS (plain byte stream)',
             'the cryptography package (RSA, Fernet stand-in: same interface, real RSA-OAEP and AES)',
             'git revision'],
}

ASSUMPTIONS = ['The simulated network keeps the order of bytes within a connection, as TCP does.',
               'Simulated Tor follows the control protocol documents; one event line is delivered at a time.']

NOTE = ('Seeded search over simulated executions of the real node code; it samples, so a quiet run is evidence and not'
        ' proof. Trusted: the simulator (reactor, network, files), the Tor stub and the oracles.')

META = {
    'C01': {'probe': 'rounds.published',
            'rule': 'Seeded deployments (1-3 share keepers, 1-3 collectors, random counters, latencies, chunking) and'
                    ' seeded fault schedules.',
            'technique': 'tallies against a reference count of the simulated Tor events', 'note': NOTE},
    'C02': {'probe': 'rounds.started',
            'rule': 'As C01 with process crashes, resets and partitions placed around round starts and stops.',
            'technique': 'published rounds against the recorded answers of all participants', 'note': NOTE},
    'C03': {'probe': 'blind.reported',
            'rule': 'Real deployments with crashes and losses, and real clients under a scripted tally server that'
                    ' starts, repeats and stops collections as it likes; counters with up to 30 bins.',
            'technique': 'every byte leaving a node against the blinding values, counts and events it must hide',
            'note': NOTE},
    'C04': {'probe': 'noise.collections',
            'rule': 'Deployments with counters of up to 60 bins, deviations from 0 to 1e9, weights per relay, default'
                    ' weights and relays without any; Tor processes restarting as themselves or as other relays.',
            'technique': 'residual noise of every bin against the deviation and weight in force (statistical tests at'
                         ' 1e-11), fresh operating system entropy per bin', 'note': NOTE},
    'C05': {'probe': 'starts.need_delay',
            'rule': 'Real clients under a scripted tally server that asks for sequences of collections with changing'
                    ' counters and noise, and real deployments whose operator edits noise and delays; clock steps'
                    ' forward, restarts, early and repeated starts and stops.',
            'technique': 'every answered start and every round against an executable model of the delay', 'note': NOTE},
    'C06': {'probe': 'hands.refused',
            'rule': 'Deployments with 20-60 hostile connections to the tally server each (wrong, replayed, reflected, cut'
                    ' short or skipped handshake steps, in one segment or spread out) and impostors in the place of the'
                    ' tally server; crashes, partitions, nodes with another secret, a secret changed by the operator.',
            'technique': 'everything sent on every connection against an independent computation of the proofs seen on'
                         ' it', 'note': NOTE},
    'C07': {'probe': 'strangers.bad_lines',
            'rule': 'Deployments with 10-80 connections of strangers each: garbage, overlong and unfinished lines, floods,'
                    ' silence, handshake messages out of order, any chunking; impostors that send garbage to clients.',
            'technique': 'exits, closed connections, tallies and honest handshakes', 'note': NOTE},
    'C08': {'probe': 'ts.ready',
            'rule': 'Deployments whose nodes come up over time and whose operator edits thresholds, round limits, periods'
                    ' and start times; crashes of all nodes, resets, partitions, slow links, clock steps forward.',
            'technique': 'every round start, stop and idle refresh of the tally server against an executable model fed with'
                         ' the status messages and configuration it read', 'note': NOTE},
    'C09': {'probe': 'recovery.runs',
            'rule': 'Deployments under a storm of 1-14 crashes, power losses, resets, partitions, slow links, stalls and'
                    ' clock steps of all nodes and of Tor that ends at a set time; then clocks agree and all runs.',
            'technique': 'a whole round published within a bounded time of the last fault, no exits', 'note': NOTE},
    'C10': {'probe': 'events.on',
            'rule': 'Deployments and real collectors under a scripted tally server that starts and stops collections at'
                    ' any moment (before, at and after a deferred start); Tor restarting, losing, resetting and'
                    ' refusing connections, answering commands with errors, sending malformed, unwanted and unasked'
                    ' events; sample rates, cell limits, collectors that may not use SETCONF.',
            'technique': 'every command on every control connection and every reported count against an executable model'
                         ' fed with the events delivered', 'note': NOTE},
    'C11': {'probe': 'auth.refused',
            'rule': 'Collectors with all authentication methods, passwords and cookies of all lengths, in front of Tors and'
                    ' impostors that answer each step of authentication wrongly, speak out of turn, or fall silent.',
            'technique': 'every line sent on every control connection against an independent computation of what the peer'
                         ' proved', 'note': NOTE},
    'C13': {'probe': 'ts.expired',
            'rule': 'Deployments with clients silent for 0-14 check-in periods (crash, partition, slow link, stall) and'
                    ' tally servers crashing around starts and stops of rounds.',
            'technique': 'expiry of every client and stop of every stale collection against an executable model fed with the'
                         ' status messages the tally server received', 'note': NOTE},
    'C16': {'probe': 'events.counted',
            'rule': 'Deployments that configure random subsets of the whole counter table with random bins, all kinds of'
                    ' Tor events with random fields (boundary values, ports, flags, host names, addresses, hidden'
                    ' service versions), and random domain, country, AS, onion address, failure and HSDir lists that'
                    ' the operator edits between rounds; crashes, resets and chunking.',
            'technique': 'tallies against an independent reference model of what each event means', 'note': NOTE},
    'C14': {'probe': 'shares.bad',
            'rule': 'Real clients under a scripted tally server that offers wrong, repeated, renamed, missing or extra'
                    ' share keepers and passes on altered shares; real deployments with shares altered on the network'
                    ' and edited share keeper lists.',
            'technique': 'answers to every start against the configured key digests and an independent decryption of'
                         ' the shares', 'note': NOTE},
}
