From 707c2137fde512278a27bf2c6550440cbfb28b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 01/24] fix: don't publish a tally when a client returned no
 counts

---
 privcount/tally_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..b5f05f0 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2201,6 +2201,10 @@ class CollectionPhase(object):
         tally_was_successful = False
         if len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
+        elif self.is_error():
+            # the blinding only cancels out when every client has returned
+            # its counts: a partial sum is nonsense
+            logging.warning("not tallying results, because some clients did not return counts")
         else:
             tallied_counter = SecureCounters(self.counters_config,
                                              self.modulus,
-- 
2.43.0


From 91f389d818eb7035af0097d914057eb8042135a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 02/24] fix: only accept HANDSHAKE4 after a valid HANDSHAKE2

A peer that skipped HANDSHAKE2 and sent HANDSHAKE4 SUCCESS was treated as an
authenticated client, without knowing the handshake secret.
---
 privcount/protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..34c61dd 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,10 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # only accept HANDSHAKE4 from clients that have already proved
+            # that they know the handshake secret, using HANDSHAKE2
+            if (self.client_cookie is not None and
+                self.handshake4_verify(event_line)):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From dbe34025915d1434666cf783e80a05963605a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 03/24] fix: fail the handshake when a cookie or HMAC is not
 base64

The exception terminated the whole process, so any peer could bring down a
node by sending a badly padded cookie or HMAC.
---
 privcount/protocol.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 34c61dd..dd892af 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -377,14 +377,20 @@ class PrivCountProtocol(LineOnlyReceiver):
         If b64_cookie matches the expected format for a base-64 encoded
         privcount cookie, return the decoded cookie.
         Otherwise, return False.
-        Raises an exception if the cookie is not correctly padded base64.
         '''
         if len(b64_cookie) != PrivCountProtocol.COOKIE_B64_BYTES:
             logging.warning("Invalid cookie: wrong encoded length {} expected {}"
                             .format(len(b64_cookie),
                                     PrivCountProtocol.COOKIE_B64_BYTES))
             return False
-        cookie = b64decode(b64_cookie)
+        try:
+            cookie = b64decode(b64_cookie)
+        except TypeError as e:
+            # unauthenticated peers can send anything: this is just an
+            # invalid handshake
+            logging.warning("Invalid cookie: not correctly padded base64: {}"
+                            .format(e))
+            return False
         if len(cookie) != PrivCountProtocol.COOKIE_BYTES:
             logging.warning("Invalid cookie: wrong decoded length {} expected {}"
                             .format(len(cookie),
-- 
2.43.0


From 37b65a8d4a3058e12e569fc3e8af3633666308fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 04/24] fix: fail the handshake when HANDSHAKE3 comes before
 HANDSHAKE1

The client process was terminated by the missing cookies, before the server
had authenticated.
---
 privcount/protocol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index dd892af..4529a06 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1079,10 +1079,13 @@ class PrivCountClientProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE2))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE3:
-            if self.handshake3_verify(event_line,
+            # there are no cookies to verify until we get a valid HANDSHAKE1
+            if (self.server_cookie is not None and
+                self.client_cookie is not None and
+                self.handshake3_verify(event_line,
                                       self.handshake_secret(),
                                       self.server_cookie,
-                                      self.client_cookie):
+                                      self.client_cookie)):
                 self.sendLine(self.handshake4_str())
                 self.handshake_succeeded()
             else:
-- 
2.43.0


From cf337632e2071f9339bc1dc0095b2a9ed9670301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 05/24] fix: don't keep a partial keystore when a share can't
 be imported

A share keeper that failed to start, because of one invalid share, returned
the sum of the shares before it when the round was stopped.
---
 privcount/share_keeper.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..8e9eee8 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -141,8 +141,12 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         else:
             config['counters'] = combined_counters
 
-        self.keystore = SecureCounters(config['counters'], counter_modulus(),
-                                       require_generate_noise=False)
+        # don't keep the blinding values unless every share is imported:
+        # otherwise, we would return incomplete counts at the end of the round
+        del self.keystore
+        self.keystore = None
+        keystore = SecureCounters(config['counters'], counter_modulus(),
+                                  require_generate_noise=False)
         share_list = config['shares']
 
         private_key = load_private_key_file(self.config['key'])
@@ -151,7 +155,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
             secret = decrypt(private_key, encrypted_secret)
             # TODO: secure delete
             share['secret'] = secret
-            blinding_result = self.keystore.import_blinding_share(share)
+            blinding_result = keystore.import_blinding_share(share)
             if not blinding_result:
                 # the structure of the imported share did not match the
                 # configured counters
@@ -167,6 +171,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                      .format(len(share_list), len(config['counters']), count_bins(config['counters'])))
         # TODO: secure delete
         del private_key
+        self.keystore = keystore
         return {}
 
     def do_stop(self, config):
-- 
2.43.0


From efd72e0d065a170a38c53aa9fef23646a199604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 06/24] fix: keep the config of the running collection when a
 start is refused

A data collector that was already collecting refused a second start command,
but only after it had replaced the noise config and start time that it uses
to enforce the delay between rounds.
---
 privcount/data_collector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..a2d5443 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -200,6 +200,12 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first, and we must keep the details of the running collection
+        if self.aggregator is not None:
+            logging.warning("start command from tally server cannot be completed because we are already collecting")
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -214,11 +220,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From 0ffb104e0785b1a8410c3981fb387fcb4e074af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 07/24] fix: refuse unexpected share keeper keys without
 terminating

Removing a missing digest raised KeyError, which terminated the data collector
instead of sending START FAIL.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index a2d5443..39d4b66 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -236,7 +236,7 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
 
-            expected_sk_digests.remove(requested_sk_digest)
+            expected_sk_digests.discard(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From c93632fea18f95b7f2cfab87a3eda140362cee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 08/24] fix: accept keys that are added to a client's config

Logging the change raised KeyError, so no new key was ever taken up until the
client was restarted.
---
 privcount/data_collector.py | 2 +-
 privcount/share_keeper.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 39d4b66..05ae4e8 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -395,7 +395,7 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in dc_conf:
                     if k not in self.config or dc_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], dc_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), dc_conf[k]))
                         self.config[k] = dc_conf[k]
                         changed = True
                 if not changed:
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 8e9eee8..117bd36 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -249,7 +249,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in sk_conf:
                     if k not in self.config or sk_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], sk_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), sk_conf[k]))
                         self.config[k] = sk_conf[k]
                         changed = True
                 if not changed:
-- 
2.43.0


From d5d4c719d31f567028adfce5d8dfa935dde31847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 09/24] fix: don't reset the start time of the round at every
 check-in

Looking up the counters for a log message ran the checks for a new round, so
the start time in the results was the time of the last check-in.
---
 privcount/data_collector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 05ae4e8..dca0a94 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -123,9 +123,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if self.start_config is None:
             return None
         else:
-            # we should have caught unknown counters when we started
-            return self.check_start_config(self.start_config,
-                                           allow_unknown_counters=False)
+            # we caught unknown counters when we started
+            # don't call check_start_config again, because it resets the
+            # start time of the round
+            return combine_counters(self.start_config['counters'],
+                                    self.start_config['noise']['counters'])
 
     def are_dc_events_expected(self):
         '''
-- 
2.43.0


From 7332f70920eb1cecf967f30414bb221a86cc6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 10/24] fix: keep running with the last config when a config
 file can't be read

Only missing keys and failed assertions were handled. Any other error, like a
config file that is empty because it is being saved, terminated the node.
---
 privcount/data_collector.py | 5 +++++
 privcount/share_keeper.py   | 5 +++++
 privcount/tally_server.py   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index dca0a94..311d258 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -409,6 +409,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception as e:
+            # a file is missing, unreadable, not YAML, or has unexpected types:
+            # this can happen while an operator is editing it
+            logging.warning("problem reading config file: {}".format(e))
+            log_error()
 
 class Aggregator(ReconnectingClientFactory):
     '''
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 117bd36..e9781ca 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -261,3 +261,8 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception as e:
+            # a file is missing, unreadable, not YAML, or has unexpected types:
+            # this can happen while an operator is editing it
+            logging.warning("problem reading config file: {}".format(e))
+            log_error()
diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index b5f05f0..a19d719 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1008,6 +1008,11 @@ class TallyServer(ServerFactory, PrivCountServer):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception as e:
+            # a file is missing, unreadable, not YAML, or has unexpected types:
+            # this can happen while an operator is editing it
+            logging.warning("problem reading config file: {}".format(e))
+            log_error()
 
     MIN_SAFE_RTT = 2.0
     TYPICAL_RTT_JITTER = 1.0
-- 
2.43.0


From 6198f06a250b4f809fd1157e85655f47276bcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 11/24] fix: process the match lists again when files are
 removed or reordered

The processed lists of the previous config were used, so the new config never
passed its checks until the tally server was restarted.
---
 privcount/tally_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index a19d719..b914f70 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -434,6 +434,10 @@ class TallyServer(ServerFactory, PrivCountServer):
                 new_config[files_key][i] = file_path
                 if has_list_changed:
                     has_any_previous_list_changed = True
+            # removing or reordering files changes the processed lists, even
+            # if the contents of the remaining files are the same
+            if new_config[files_key] != old_match_files:
+                has_any_previous_list_changed = True
             if not has_any_previous_list_changed:
                 # skip processing the lists into new_processed_config,
                 # because they have not changed
-- 
2.43.0


From d78164355514d9ce5decd3e1d41efdd782436398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 12/24] fix: ignore late responses to commands from another
 collection phase

When a client had a slow connection and a fast one, the shares or counts that
it sent on the slow connection were used in whatever phase was running when
they arrived.
---
 privcount/protocol.py     | 11 +++++++++--
 privcount/tally_server.py | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 4529a06..0d13f88 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -905,6 +905,7 @@ class PrivCountServerProtocol(PrivCountProtocol):
         PrivCountProtocol.clear(self)
         self.last_sent_time = 0.0
         self.client_uid = None
+        self.command_phase = None
 
     def connectionMade(self): # overrides twisted function
         PrivCountProtocol.connectionMade(self)
@@ -1005,6 +1006,8 @@ class PrivCountServerProtocol(PrivCountProtocol):
 
     def send_start_event(self, config):
         assert config is not None
+        # the response belongs to this collection phase
+        self.command_phase = self.factory.get_collection_phase()
         self.sendLine("START {}".format(json_serialise(config)))
 
     def handle_start_event(self, event_type, event_payload):
@@ -1013,7 +1016,8 @@ class PrivCountServerProtocol(PrivCountProtocol):
             result_data = None
             if parts[0] == "SUCCESS" and len(parts) == 2:
                 result_data = json.loads(parts[1])
-            self.factory.set_start_result(self.client_uid, result_data)
+            self.factory.set_start_result(self.client_uid, result_data,
+                                          self.command_phase)
             self.send_status_event()
             return True
         else:
@@ -1021,6 +1025,8 @@ class PrivCountServerProtocol(PrivCountProtocol):
 
     def send_stop_event(self, config):
         assert config is not None
+        # the response belongs to this collection phase
+        self.command_phase = self.factory.get_collection_phase()
         self.sendLine("STOP {}".format(json_serialise(config)))
 
     def handle_stop_event(self, event_type, event_payload):
@@ -1029,7 +1035,8 @@ class PrivCountServerProtocol(PrivCountProtocol):
             result_data = None
             if parts[0] == "SUCCESS" and len(parts) == 2:
                 result_data = json.loads(parts[1])
-            self.factory.set_stop_result(self.client_uid, result_data)
+            self.factory.set_stop_result(self.client_uid, result_data,
+                                         self.command_phase)
             self.send_status_event()
             return True
         else:
diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index b914f70..a7e1916 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1618,11 +1618,35 @@ class TallyServer(ServerFactory, PrivCountServer):
         else:
             return None
 
-    def set_start_result(self, client_uid, result_data):
+    def get_collection_phase(self):
         '''
         called by protocol
+        return the current collection phase, or None if we're not collecting
         '''
-        if self.collection_phase is not None:
+        return self.collection_phase
+
+    def is_current_phase(self, client_uid, phase):
+        '''
+        return True if phase is the current collection phase
+        A slow connection can deliver the response to a command after its
+        phase has ended. These late responses must not be used in any other
+        phase.
+        '''
+        if self.collection_phase is None:
+            return False
+        if self.collection_phase is not phase:
+            logging.warning("ignoring late response from {} to a command from another collection phase"
+                            .format(TallyServer.get_client_display_name(
+                                                                client_uid)))
+            return False
+        return True
+
+    def set_start_result(self, client_uid, result_data, phase):
+        '''
+        called by protocol
+        phase is the collection phase in which the command was sent
+        '''
+        if self.is_current_phase(client_uid, phase):
             self.collection_phase.store_data(client_uid, result_data,
                                              is_start=True)
 
@@ -1639,8 +1663,12 @@ class TallyServer(ServerFactory, PrivCountServer):
         else:
             return None
 
-    def set_stop_result(self, client_uid, result_data): # called by protocol
-        if self.collection_phase is not None:
+    def set_stop_result(self, client_uid, result_data, phase):
+        '''
+        called by protocol
+        phase is the collection phase in which the command was sent
+        '''
+        if self.is_current_phase(client_uid, phase):
             self.collection_phase.store_data(client_uid, result_data,
                                              is_start=False)
 
-- 
2.43.0


From d5bd0da1d6c6d3737774788719b88b61d8003ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 13/24] fix: don't publish a tally when a data collector
 restarts while starting

If the shares it sent before and after the restart arrived over different
connections, the share keepers could get the shares that don't match its
counts.
---
 privcount/tally_server.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index a7e1916..c00d242 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1777,8 +1777,8 @@ class CollectionPhase(object):
             for uid in self.dc_uids+self.sk_uids:
                 self.need_counts.add(uid)
 
-            # when sending STOP, indicate that we need tallies
-            self.error_flag = False
+            # when sending STOP, indicate that we need tallies (unless there
+            # was an error)
             self._change_state('stopping')
 
         elif self.state == 'stopping':
@@ -1841,6 +1841,13 @@ class CollectionPhase(object):
                         self.need_shares.add(sk_uid)
                     if self.state == 'starting_dcs':
                         self._change_state('starting_sks')
+            else:
+                # data collectors that are collecting refuse to start again,
+                # so it has restarted, and it has lost the counts or the
+                # shares that match the shares we have
+                logging.warning("received shares from data collector {} twice, final results will not be available"
+                                .format(cname))
+                self.error_flag = True
 
         elif is_start and client_uid in self.sk_uids:
             # we expect confirmation from the SKs that they started successfully
-- 
2.43.0


From 1dac98660d2a11f37f33de060e3de43949e7dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 14/24] fix: let clients notice that the tally server's host
 has gone away

A client that has connected but not been told to check in yet waits for
the tally server without sending anything. If the tally server's host
loses power then, the client waits forever.
---
 privcount/protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 0d13f88..5b2ea7c 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1056,6 +1056,12 @@ class PrivCountClientProtocol(PrivCountProtocol):
         PrivCountProtocol.__init__(self, factory)
         self.privcount_role = PrivCountProtocol.ROLE_CLIENT
 
+    def connectionMade(self): # overrides twisted function
+        PrivCountProtocol.connectionMade(self)
+        # clients wait for the server to speak first: make sure they find out
+        # when the server's host has gone away, so they can connect again
+        self.transport.setTcpKeepAlive(1)
+
     def handshake_succeeded(self):
         PrivCountProtocol.handshake_succeeded(self)
         # for a reconnecting client, reset the exp backoff delay
-- 
2.43.0


From 63d1a7752b2ea03c34612971c2e8ee640bbf63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 15/24] fix: don't use control port cookies and passwords that
 are too short

readFile logged that authentication failed, but returned the short value:
readCookieFile and getConfiguredPassword say they return None for it, and
control-spec.txt says controllers MUST NOT use a cookie file that is not
32 bytes long.
---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 5b2ea7c..ccfcbe8 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1500,6 +1500,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From e2b8a7f440bb182586ceec5ff8cea3449c105b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 16/24] fix: don't send commands to a Tor that has not accepted
 our authentication

When authentication fails, the client quits the connection, and sent
SETEVENTS, SETCONF, and SET_TMODEL before QUIT. It also went on to the
waiting state when a collection stopped while it was authenticating.
---
 privcount/protocol.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index ccfcbe8..4e81404 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1669,6 +1669,12 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
         '''
         return self.state is not None and self.state != 'disconnected'
 
+    def isAuthenticated(self):
+        '''
+        Is this procotol connected and authenticated?
+        '''
+        return self.state in ['discovering', 'waiting', 'processing']
+
     def startCollection(self, counter_list, event_list=None, traffic_model=None):
         '''
         Enable events for all the events required by counter_list, and all
@@ -1792,8 +1798,8 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
         # try to turn events off regardless of the state, as long as we have
         # connected and authenticated, this will work
         # (and if it doesn't, we haven't lost anything)
-        if not self.isConnected():
-            logging.info('Not disabling events, not connected')
+        if not self.isAuthenticated():
+            logging.info('Not disabling events, not authenticated')
         else:
             if self.active_events is not None:
                 logging.info("Disabled PrivCount events: {}"
@@ -1984,6 +1990,7 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                 self.quit()
                 return
         elif self.state == 'authenticating' and line == "250 OK":
+            self.state = 'discovering'
             # Turn off privcount events, so we don't get spurious responses
             # We can't do this until we've authenticated (and we shouldn't
             # need to - there are no events sent before authentication)
-- 
2.43.0


From e3dbbc604b96ecadef9087b7e3ba1a83e67d78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 17/24] fix: ignore consensus entries from a Tor that is not
 authenticated

---
 privcount/protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 4e81404..04a8a5d 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2136,7 +2136,9 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                 self.handleUnexpectedLine(line)
         # consensus processing: waiting or processing states
         # handle other events interspersed between these lines
-        elif line.startswith("250-ns/id/") or line.startswith('552 Unrecognized key "ns/id/'):
+        elif (self.isAuthenticated() and
+              (line.startswith("250-ns/id/") or
+               line.startswith('552 Unrecognized key "ns/id/'))):
             _, _, fingerprint = line.partition('ns/id/')
             fingerprint, _, _ = fingerprint.partition('=')
             fingerprint, _, _ = fingerprint.partition('"')
@@ -2146,7 +2148,7 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
             self.setDiscoveredValue('set_flag_list',
                                     "",
                                     'our consensus flags')
-        elif line.startswith("250+ns/id/"):
+        elif self.isAuthenticated() and line.startswith("250+ns/id/"):
             # The intro line for our consensus entry
             self.is_processing_ns = True
         elif self.is_processing_ns and line.startswith("s "):
-- 
2.43.0


From 6f1acea07f9756f68fc8321b5f85d8a683ea183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 18/24] fix: don't start a collection early when another one
 was stopped before it

A start, stop, and start command within the deferral time of the first
made the second collection start at the time of the first.
---
 privcount/data_collector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 311d258..d57eefd 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -277,7 +277,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         # sync the time that we start listening for Tor events
         self.is_aggregator_pending = True
         aggregator_deferred = task.deferLater(reactor, defer_time,
-                                              self._start_aggregator_deferred)
+                                              self._start_aggregator_deferred,
+                                              self.aggregator)
         aggregator_deferred.addErrback(errorCallback)
         # return the generated shares now
         shares = self.aggregator.get_shares()
@@ -296,12 +297,14 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                      .format(len(shares), len(dc_counters), count_bins(dc_counters)))
         return shares
 
-    def _start_aggregator_deferred(self):
+    def _start_aggregator_deferred(self, aggregator):
         '''
+        Start aggregator, unless its collection was stopped in the meantime
+        (another one may be pending by now).
         This function is called using deferLater, so any exceptions will be
         handled by errorCallback.
         '''
-        if self.is_aggregator_pending:
+        if self.is_aggregator_pending and self.aggregator is aggregator:
             self.is_aggregator_pending = False
             self.aggregator.start()
             # schedule a once-off check that the aggregator has connected
-- 
2.43.0


From 4a4f2e768a7363ec266a551c9e04ed6396b5b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 19/24] fix: count suffix matches when exact domain matching is
 also on

When both exact and suffix domain counters were configured, an exact
match bin of inf (no list matches) was treated as a match, and suffix
matches were counted as if no list matched.
---
 privcount/data_collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index d57eefd..ad53dbc 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1488,7 +1488,9 @@ class Aggregator(ReconnectingClientFactory):
                 # exact matches match the first bin
                 # suffix matches match an arbitrary bin (which is ok, because
                 # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
+                # (an exact bin of inf means that none of the lists match)
+                if (self.needs_domain_exact_match and
+                    domain_exact_match_bin != float('inf')):
                     domain_suffix_match_bin = domain_exact_match_bin
                 else:
                     # check for a suffix match
-- 
2.43.0


From f1bd64d69f373841560cb9bd82947b04c7d03877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 20/24] fix: use the Tor2Web counter names in the counter table

The data collector incremented Tor2web... counters, which do not exist,
so the Tor2Web counters were always zero.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ad53dbc..8a45ccb 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2727,7 +2727,7 @@ class Aggregator(ReconnectingClientFactory):
             if hs_role is None:
                 hop = None
             elif hs_role == "Client":
-                hop = "Tor2web"
+                hop = "Tor2Web"
             else:
                 hop = "SingleOnion"
         else:
-- 
2.43.0


From 579615e91279c98b1b221625ead73737f78550c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 21/24] fix: put the hidden service version between position
 and role

The data collector incremented IntroClient2... counters, which do not
exist: the counter table has Intro2Client... counters.
---
 privcount/data_collector.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 8a45ccb..640a79b 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2553,7 +2553,8 @@ class Aggregator(ReconnectingClientFactory):
                                            bin=bin,
                                            inc=inc)
 
-    def _increment_circuit_close_hs_status_counters(self, counter_prefix,
+    def _increment_circuit_close_hs_status_counters(self, position,
+                                                    role,
                                                     counter_suffix,
                                                     hs_version,
                                                     is_active,
@@ -2562,17 +2563,20 @@ class Aggregator(ReconnectingClientFactory):
                                                     inc=1):
         '''
         Increment bin by inc for the counter variants starting with
-        counter_prefix and ending in counter_suffix, using hs_version,
-        is_active and is_failure to create counter names.
+        position and role, and ending in counter_suffix, using hs_version,
+        is_active and is_failure to create counter names. (The version is
+        between the position and the role: for example, Intro2Client.)
 
         Unknown counter names are ignored.
         '''
-        assert counter_prefix is not None
+        assert position is not None
+        assert role is not None
         assert counter_suffix is not None
         assert hs_version is None or hs_version == 2 or hs_version == 3
 
         # HSDir/Intro/Rend ...
-        self._increment_circuit_close_status_counters(counter_prefix,
+        self._increment_circuit_close_status_counters('{}{}'
+                                                      .format(position, role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2586,8 +2590,8 @@ class Aggregator(ReconnectingClientFactory):
         else:
             hs_version_name = '{}'.format(hs_version)
 
-        self._increment_circuit_close_status_counters('{}{}'
-                                                      .format(counter_prefix, hs_version_name),
+        self._increment_circuit_close_status_counters('{}{}{}'
+                                                      .format(position, hs_version_name, role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2736,6 +2740,7 @@ class Aggregator(ReconnectingClientFactory):
         # HSDir /2/3 /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
         # Intro/Rend /U/2/3 /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
         self._increment_circuit_close_hs_status_counters(position,
+                                                         "",
                                                          counter_suffix,
                                                          hs_version,
                                                          is_active,
@@ -2746,8 +2751,8 @@ class Aggregator(ReconnectingClientFactory):
         if hs_role is not None:
             # HSDir /2/3 Client/Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 Client/Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}'
-                                                             .format(position, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
+                                                             hs_role,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
@@ -2758,8 +2763,8 @@ class Aggregator(ReconnectingClientFactory):
             assert hop is not None
             # HSDir /2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}{}'
-                                                             .format(position, hop, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
+                                                             hop + hs_role,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
-- 
2.43.0


From 9f3ef54fa4f05bd03c44253008cb98994f948824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 22/24] fix: accept multiple bins for the HSDir UploadDelayTime
 counters

Only the traffic model delay time counters have a single bin. The check
made the tally server reject test/counters.bins.yaml.
---
 privcount/counter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index c6fd576..193fd2e 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -6419,7 +6419,10 @@ def check_bin_count_matches_name(bins):
         # handle template counters by stripping the non-template part
         key_template, _, _ = key.partition("_")
         # the TrafficModel DelayTime counters are single bin
-        if key_template.endswith("Count") or key_template.endswith("DelayTime"):
+        # (but the HSDir UploadDelayTime counters have multiple bins)
+        if (key_template.endswith("Count") or
+            ("TrafficModel" in key_template and
+             key_template.endswith("DelayTime"))):
             if bin_count != 1:
                 logging.warning("counter {} ends in Count, but has {} bins: {}"
                                 .format(key, bin_count, bins[key]))
-- 
2.43.0


From 97821678799392dc3141b3207f328cb6f9171029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 23/24] fix: include the status in active circuit close counter
 names

The format string had three placeholders for four values, so the
ActiveFailure, ActiveSuccess, InactiveFailure and InactiveSuccess
circuit counters were never incremented.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 640a79b..ac99141 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2548,7 +2548,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0


From 846fa10bfe301a64dd0d5a77b6db2ad44f4d6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 24/24] fix: ignore circuit events with invalid position flags

The work around for conflicting flags asserted that the flags are valid
before they were validated, so an invalid flag ended the control
connection, rather than being ignored with a warning.
---
 privcount/data_collector.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ac99141..6ebaf69 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1915,6 +1915,15 @@ class Aggregator(ReconnectingClientFactory):
         if prefix is None:
             prefix = ""
 
+        # If any of these flags are invalid, leave the fields as they are:
+        # are_circuit_common_fields_valid() will reject them
+        for flag in ["IsExitFlag", "IsDirFlag", "IsHSDirFlag", "IsIntroFlag",
+                     "IsRendFlag"]:
+            if not is_flag_valid("{}{}".format(prefix, flag),
+                                 fields, event_desc,
+                                 is_mandatory=False):
+                return
+
         # Extract the flag values
         is_exit = get_flag_value("{}IsExitFlag".format(prefix),
                                 fields, event_desc,
-- 
2.43.0

