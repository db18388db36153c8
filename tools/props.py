#!/usr/bin/python3
'Writes properties.jsonl and MANIFEST.json from the table below and budget.py (run it after changing either).'
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from budget import RUNS, META

TS, SK, DC = 'privcount/tally_server.py', 'privcount/share_keeper.py', 'privcount/data_collector.py'
PR, NO, CO, CR = 'privcount/protocol.py', 'privcount/node.py', 'privcount/counter.py', 'privcount/crypto.py'
CN, CF, MA, LO = 'privcount/connection.py', 'privcount/config.py', 'privcount/match.py', 'privcount/log.py'
TM = 'privcount/traffic_model.py'


def P(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                        'observe_at': list(observe), 'hook_needed': None}}


PROPS = [
    P('C01', 'A published tally is exactly the sum of what was counted',
      'Every value in a published tally equals, for its counter and bin, the sum over all data collectors of that'
      ' collection round of the increments called for by the Tor events they received while collecting, plus the noise'
      ' they added: the blinding values cancel completely. With zero noise the tally is exactly the true count,'
      ' whatever connections, processes and clocks did during the round. The counters and bins of the tally are'
      ' exactly those the tally server configured for the round.',
      ['schedules', 'fault_sequences', 'configurations', 'inputs'],
      'All numbers of data collectors and share keepers, counter configurations, event streams, message timings, and'
      ' sequences of disconnections, restarts, stalls and clock steps.',
      'The unit tests add up counters inside one process; none runs the round protocol, and no test has faults.',
      [CO, TS, DC, SK, CR],
      [('blinding and tallying of secure counters', CO + ': SecureCounters'),
       ('event to counter mapping', DC + ': Aggregator.handle_event and the handlers it calls'),
       ('collection of counts', TS + ': CollectionPhase.store_data, write_results')],
      ['results/privcount.tallies.*.json', 'STOP SUCCESS messages', 'events on the Tor control connection']),
    P('C02', 'A round is published whole or not at all',
      'A tally is published for a collection round only if every data collector and every share keeper that was started'
      ' for that round returned its counts for that same round; otherwise the round ends with no tally.'
      ' The counts of a participant are never used in another round than the one they were collected in, and never'
      ' twice.',
      ['schedules', 'crash_points', 'fault_sequences'],
      'Every placement of crashes, restarts, disconnections, delays and duplicate or late answers around the start, the'
      ' middle and the end of a round.',
      'No test runs the tally server through a round with a participant that fails.',
      [TS, PR, SK, DC],
      [('shares and counts still needed', TS + ': CollectionPhase need_shares, need_counts, error_flag'),
       ('decision to publish', TS + ': CollectionPhase.write_results')],
      ['results directory', 'START and STOP messages and their answers']),
    P('C03', 'Counts leave a collector only blinded, and no node learns more than its part',
      'The counts a data collector sends are masked in every bin with one fresh uniformly random value of the full'
      ' blinding range per share keeper, drawn from the operating system\'s entropy, and the values for a share keeper'
      ' leave the collector only encrypted to that share keeper\'s key.'
      ' A share keeper reports only the negated sum of the blinding values it was given; each node reports counts at most'
      ' once per collection, and only in answer to a stop command that asks for them, and any stop command ends the'
      ' collection and discards what is not sent.'
      ' Nothing else about the counted events (addresses, host names, unblinded counts) leaves a data collector.',
      ['schedules', 'fault_sequences', 'configurations', 'inputs'],
      'All rounds, message timings, restarts and event streams; every strict subset of the share keepers.',
      'Tests check that blinding cancels, not that anything is hidden; a tally stays right when blinding is weak.',
      [CO, CR, SK, DC, PR],
      [('blinding values', CO + ': SecureCounters.generate_blinding_shares and its helpers'),
       ('encryption of shares', CO + ': SecureCounters.detach_blinding_shares; ' + CR + ': encrypt'),
       ('release of counts', DC + ': do_stop; ' + SK + ': do_stop')],
      ['every byte a node sends', 'operating system entropy requests']),
    P('C04', 'Noise is added exactly once per collection with the configured deviation',
      'In every collection each data collector adds to each bin, exactly once, fresh Gaussian noise from the operating system\'s entropy whose standard'
      ' deviation is the sigma the tally server configured for the counter times the noise weight it configured for the'
      ' relay of that collector, however often the connection to Tor is lost or the relay identifies itself again.'
      ' A collector whose relay has no noise weight reports no counts.',
      ['schedules', 'fault_sequences', 'configurations'],
      'All noise allocations, weights, restarts of Tor, and placements of the relay\'s identification within the round.',
      'Tests draw noise from the distribution function; none runs the aggregator through Tor reconnections.',
      [DC, CO],
      [('noise generated when the relay is known', DC + ': Aggregator.set_fingerprint, generate_noise'),
       ('noise sampling', CO + ': SecureCounters.generate_noise; ' + 'privcount/counter.py: noise helper')],
      ['counts reported minus blinding minus counted events']),
    P('C05', 'No node collects again early when the privacy budget demands a delay',
      'After a successful collection, each of the tally server, the data collectors and the share keepers, by its own'
      ' configuration, refuses to take part in a new one until its delay period has passed since that collection ended,'
      ' if the new collection has other counters or a noise allocation lower than the last one by more than the'
      ' tolerance, or always when it is told to delay always.'
      ' What a new noise allocation is compared with is the first one of the run of collections that needed no delay, so'
      ' that small steps do not add up.'
      ' A client that keeps running refuses such a start whatever the tally server asks, a refusal or a collection that'
      ' reports no counts leaves its record of the last one unchanged, and a start that needs no delay is not refused'
      ' for one.',
      ['schedules', 'histories', 'configurations', 'fault_sequences'],
      'All sequences of collections, configuration changes, repeated start commands and clock steps forward.',
      'The unit test of the delay calls the comparison functions once with fixed times; none runs nodes over histories.',
      [TS, SK, DC, NO, CO],
      [('collection delay', CO + ': CollectionDelay'),
       ('checks before a start', NO + ': PrivCountClient.check_start_config; ' + TS + ': refresh_loop')],
      ['START messages and answers', 'times of rounds']),
    P('C06', 'Both ends prove the shared secret before any protocol message is accepted',
      'A tally server counts a peer as a client, and sends it anything but its own half of the handshake, only after'
      ' that peer proved on the same connection, with fresh nonces of both ends, that it knows the handshake secret;'
      ' a client likewise obeys nobody who has not proved it.'
      ' This holds whatever an attacker who does not know the secret sends, replays from other connections, reflects,'
      ' reorders or cuts short. (Relaying a live handshake between two honest nodes is not excluded: TLS is for that.)',
      ['schedules', 'inputs', 'fault_sequences'],
      'All attacker strategies built from recorded messages of other connections, reflections, guesses and skipped'
      ' handshake steps, at any time during a deployment\'s life.',
      'The test of the handshake functions checks single right and wrong cookies, not a peer that skips or replays.',
      [PR, NO],
      [('handshake state', PR + ': PrivCountProtocol handshake functions, PrivCountServerProtocol and'
                                ' PrivCountClientProtocol.handle_handshake_event')],
      ['messages after the handshake on attacker connections', 'participants of rounds']),
    P('C07', 'Hostile or broken connections never stop or disturb a node',
      'Whatever unauthenticated peers send (garbage, partial or overlong lines, handshake messages out of order,'
      ' floods of connections, silence), the node they talk to keeps running, closes the connections whose bytes are no'
      ' valid handshake, and its collection is unaffected. Honest nodes that share the secret complete the handshake and exchange messages'
      ' of any size whatever way the network splits the byte stream.',
      ['inputs', 'schedules', 'fault_sequences'],
      'All byte strings before authentication, all chunkings of the stream, all times of attack.',
      'No test opens a connection.',
      [PR, CN],
      [('line and length limits', PR + ': PrivCountProtocol lineReceived, MAX_LENGTH'),
       ('failure handling', PR + ': protocol_failed, handshake failures')],
      ['process exits', 'connections closed', 'tallies of the rounds under attack']),
    P('C08', 'Rounds start only when the deployment is ready, one at a time',
      'The tally server starts a round only while none is in progress, at least the configured numbers of data collectors'
      ' and of share keepers are connected and idle, and any configured start time has passed; it starts no more rounds'
      ' than it was told to continue for. A round runs for its collection period and is then stopped, and a participant'
      ' is never started in two rounds at once.',
      ['schedules', 'histories', 'configurations', 'fault_sequences'],
      'All join and leave orders, thresholds, restarts of the tally server, continue counts and start times.',
      'No test runs the tally server\'s refresh loop.',
      [TS, PR, NO],
      [('round admission', TS + ': TallyServer.refresh_loop, get_idle_*, continue_collecting'),
       ('phase ends', TS + ': CollectionPhase.is_expired, stop')],
      ['START and STOP messages', 'STATUS messages']),
    P('C09', 'After faults stop the deployment recovers and publishes again',
      'Once faults stop and all processes run, every client reconnects, an interrupted round is ended, and within a'
      ' bounded time a whole new round runs and publishes a tally, with no operator action.'
      ' A node stays up through every loss of connection to its peers.',
      ['schedules', 'crash_points', 'fault_sequences'],
      'All fault sequences that end.',
      'Liveness needs running nodes; no test runs any.',
      [TS, SK, DC, PR, NO],
      [('reconnection', DC + ', ' + SK + ': ReconnectingClientFactory; check-in loops'),
       ('dead clients and failed rounds', TS + ': clear_dead_clients, CollectionPhase.stop')],
      ['tallies published after the last fault']),
    P('C10', 'A collector counts Tor\'s events only while collecting, each exactly once',
      'Between the start of a collection and its stop a data collector has Tor\'s PrivCount events switched on for'
      ' exactly the event types its counters need, and counts every event delivered on an authenticated connection'
      ' exactly once; outside collections it has them switched off and counts nothing.'
      ' Losing Tor or its connection never loses, repeats or resets what was counted: the collector reconnects and'
      ' switches events on again by itself. Malformed events count nothing and leave the collection and the'
      ' collector running.',
      ['schedules', 'fault_sequences', 'inputs'],
      'All interleavings of starts, stops, Tor restarts, connection losses and events.',
      'Tests feed event handlers directly; none runs the Tor control protocol.',
      [DC, PR],
      [('Tor control client', PR + ': TorControlClientProtocol'),
       ('aggregator life cycle', DC + ': Aggregator.start, stop, buildProtocol, handle_event')],
      ['commands on the Tor control connection', 'reported counts']),
    P('C11', 'A collector authenticates Tor before trusting or commanding it',
      'Where Tor offers cookie authentication, a data collector sends its own proof only after Tor proved that it knows'
      ' the cookie, and in no case sends configuration commands, accepts events, or asks for events before'
      ' authentication succeeded. The control password or cookie is never sent in clear to a peer that did not first'
      ' ask for that method, and a Tor that fails any of it is disconnected and retried while the collector keeps'
      ' running.',
      ['inputs', 'schedules', 'fault_sequences'],
      'All replies of a Tor or an impostor at each step of authentication, at any time.',
      'No test runs the control protocol; the server stand-in in the tree always answers as expected.',
      [PR, DC, 'privcount/tor_stub'],
      [('authentication states', PR + ': TorControlClientProtocol handle_*_state / line handling')],
      ['commands on the Tor control connection']),
    P('C12', 'Configuration is reloaded whole, only when valid, and never inside a round',
      'A running node that finds its configuration, or a file it refers to, invalid, unreadable or half written goes on'
      ' with the last valid one and keeps running; once the file is valid again the node takes it up whole.'
      ' A change never alters the round in progress: counters, bins, noise and participants stay as they were when it'
      ' started. What is in effect depends only on the current files, not on the edits that led there.',
      ['histories', 'configurations', 'crash_points', 'fault_sequences'],
      'All sequences of edits, torn writes and read errors at any time.',
      'Tests load single valid files.',
      [TS, SK, DC, CF, MA],
      [('reload', TS + ', ' + SK + ', ' + DC + ': refresh_config'),
       ('match lists', MA + ': load_match_config')],
      ['START messages', 'STATUS messages', 'process exits']),
    P('C13', 'Lost and stale clients are noticed and never leak a stale collection',
      'The tally server stops counting on a client that has not checked in for the configured multiple of the check-in'
      ' period, never before, starts no round with it until it is back, and never publishes a round that lost a'
      ' participant without that participant\'s own counts for it.'
      ' A client found collecting for a round the tally server does not run is told to stop and discard its counts.',
      ['schedules', 'fault_sequences', 'histories'],
      'All silences, stalls, restarts of the tally server and late returns of clients.',
      'No test has two nodes.',
      [TS, NO, PR],
      [('client status and expiry', TS + ': set_client_status, clear_dead_clients'),
       ('stop of stale clients', TS + ': get_stop_config, get_clients to stop')],
      ['STOP messages and their answers', 'round ends']),
    P('C14', 'Shares go only to the configured share keepers and only untouched shares count',
      'A data collector takes part in a round only if the share keepers offered to it are exactly the ones in its own'
      ' configuration at that time, by the hash of their public keys, each once. A share keeper takes part only when'
      ' every share it was given decrypts under its own key and covers the counters and bins of the round, and otherwise'
      ' reports no counts; encrypted shares altered on the way never change a published tally.',
      ['inputs', 'configurations', 'fault_sequences'],
      'All sets of share keepers offered, substituted keys, repeated, missing, swapped or corrupted shares.',
      'Tests encrypt and decrypt one string with one key.',
      [DC, SK, CR, TS],
      [('share keeper set check', DC + ': do_start'),
       ('share import', SK + ': do_start; ' + CO + ': SecureCounters.import_blinding_share')],
      ['START answers', 'tallies']),
    P('C15', 'Result files appear whole, in agreement, and without secrets',
      'For every round the tally server writes an outcome, and for a successful one a tally that matches it, in files'
      ' named by the round\'s times; at every crash point and after every disk error the "latest" names refer to nothing'
      ' or to a whole file of one finished round. Neither file contains private key material, secrets, paths of key'
      ' files or the client addresses counted.',
      ['crash_points', 'fault_sequences', 'configurations'],
      'Every crash point and disk error in the writing of results.',
      'Tests write no results.',
      [TS, LO],
      [('writing results', TS + ': CollectionPhase.write_results, ' + TS + ': get_result_context')],
      ['results directory']),
]

NA = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in RUNS:
            m = META[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'deterministic simulation with fault injection: ' + m['technique'],
                           'level': 'exploration', 'level_note': m['note']})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'its check is not built yet')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: every seam is put in place from outside (sim/boot.py).'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
