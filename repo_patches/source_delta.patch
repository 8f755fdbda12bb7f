From 955ae5fa42d12a28dc7c4dca768a25b97a089abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 001/104] fix: stop the call setup timers when the caller
 CANCELs

A leg in the UAS Trying or Ringing state left its no-progress or expire
timer running when the INVITE was cancelled, so that the timer fired in
the Disconnected state and the controller was told about the disconnect
for the second time.
---
 sippy/UasStateProgressing.py | 1 +
 sippy/UasStateTrying.py      | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/sippy/UasStateProgressing.py b/sippy/UasStateProgressing.py
index bb87150..ab42d56 100644
--- a/sippy/UasStateProgressing.py
+++ b/sippy/UasStateProgressing.py
@@ -79,6 +79,7 @@ class UasStateProgressing(UasStateGeneric):
                 event.reason_rfc3326 = req.getHFBody('reason')
             except:
                 pass
+        self._cancelExpireTimer()
         self.ua.disconnect_ts = rtime
         self.ua.changeState((self.ua.UaStateDisconnected, self.ua.disc_cbs, rtime, self.ua.origin))
         self.ua.emitEvent(event)
diff --git a/sippy/UasStateTrying.py b/sippy/UasStateTrying.py
index b1e92fb..12f0007 100644
--- a/sippy/UasStateTrying.py
+++ b/sippy/UasStateTrying.py
@@ -79,6 +79,10 @@ class UasStateTrying(UasStateProgressing):
         self._cancelNoProgressTimer()
         return result
 
+    def cancel(self, rtime, req):
+        self._cancelNoProgressTimer()
+        super().cancel(rtime, req)
+
     recv_event_handlers = {
       CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-- 
2.43.0


From a29edfbdea8c78cffd46c41ed1f6dadfa447c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 002/104] fix: stop the leg's timers when the peer's SDP cannot
 be handled

When processing of the SDP in a provisional or a positive response fails
the leg goes to the Failed state, but the expire timer or the credit timer
started just before was left running and fired there, producing a second
disconnect.
---
 sippy/UacStateTrying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..d45d94f 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -198,6 +198,10 @@ class UacStateTrying(UaStateGeneric):
                   extra_headers = event.getExtraHeaders())
             elif code >= 200 and code < 300:
                 self.genBYE()
+            if self.ua.expire_timer != None:
+                self.ua.expire_timer.cancel()
+                self.ua.expire_timer = None
+            self.ua.cancelCreditTimer()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
             return (self.ua.UaStateFailed, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
-- 
2.43.0


From e2b5cb425702f2e94be8c7aa325126a8703a6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 003/104] fix: make Ring and Redirect events work in the UAS
 Updating state

The handlers inherited from the generic class return a status code, not a
new state, so that a provisional or redirecting answer to a re-INVITE
resulted in TypeError in changeState() after the response has been sent.
---
 sippy/UasStateUpdating.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..69e6cd8 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -58,6 +58,14 @@ class UasStateUpdating(UasStateGeneric):
       'REFER': _recvRequestRefer,
     }
 
+    def _recvEventRing(self, event, eh):
+        super()._recvEventRing(event, eh)
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     def _recvEventConnect(self, event, eh):
         cdata = self._getConnectData(event)
         if cdata is None:
@@ -81,9 +89,9 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From 9607088679600cd2f90bc1c8b923f62339433f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 004/104] fix: do not answer a challenge to an INVITE of a
 finished call

When 401 or 407 arrived after the leg had been cancelled or disconnected,
the INVITE was re-sent with the credentials, setting up a call nobody is
waiting for.
---
 sippy/UA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 25fc904..091ddcd 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -219,7 +219,8 @@ class UA(object):
         self.update_ua(resp)
         code, reason = resp.getSCode()
         cseq, method = resp.getHFBody('cseq').getCSeq()
-        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
+        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and \
+          self.disconnect_ts is None:
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
                 return None
-- 
2.43.0


From 6fee784ebb93d3a30ac4838e929e6ee1d6e4e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 005/104] fix: catch 200 OK crossing CANCEL caused by an SDP
 error

When SDP in a provisional response cannot be handled the INVITE is
cancelled, but the leg went to the Failed state, where the 200 OK crossing
that CANCEL was ignored and the callee was left in the call.
---
 sippy/UacStateTrying.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index d45d94f..2c36386 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -193,9 +193,12 @@ class UacStateTrying(UaStateGeneric):
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
             event.reason_rfc3326 = ex.getReason()
             code = resp.getSCode()[0]
+            newstate = self.ua.UaStateFailed
             if code < 200:
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
+                # Catch 200 OK that may be already on the way
+                newstate = self.ua.UacStateCancelling
             elif code >= 200 and code < 300:
                 self.genBYE()
             if self.ua.expire_timer != None:
@@ -204,4 +207,4 @@ class UacStateTrying(UaStateGeneric):
             self.ua.cancelCreditTimer()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-            return (self.ua.UaStateFailed, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
+            return (newstate, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
-- 
2.43.0


From 047172b51d80d1ee7bf1c055745b18e4a530e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 006/104] fix: end the dialog when REFER is accepted in the UAS
 Updating state

Just like in the Connected state the leg goes away once the REFER is
accepted, but no BYE was sent to the peer.
---
 sippy/UasStateUpdating.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 69e6cd8..8778e37 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -49,6 +49,7 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
         also = req.getHFBody('refer-to').getCopy()
+        self.ua.newTransaction(self.ua.genRequest('BYE'))
         self.ua.cancelCreditTimer()
         return self._disconnectFromRequest(req, also, copy_reason = False)
 
-- 
2.43.0


From b5efc77720bf77a0f4b9cb2a6f88f8ea776a8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 007/104] fix: do not keep transactions of requests nobody can
 answer

---
 sippy/SipTransactionManager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..c94f80b 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -687,8 +687,9 @@ class SipTransactionManager(object):
             else:
                 if self.req_cb == None:
                     self.l1rcache[checksum] = SipTMRetransmitO()
-                    return
-                rval = self.req_cb(msg, t)
+                    rval = None
+                else:
+                    rval = self.req_cb(msg, t)
             if rval == None:
                 if t.teA != None or t.teD != None or t.teE != None or t.teF != None:
                     return
-- 
2.43.0


From ee905182d544ad7e6ac0aba8b30a195b8b9975c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 008/104] fix: UDP receiver thread died while reporting an
 unexpected socket error

---
 sippy/Udp_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 81a7bd9..5235952 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -34,6 +34,7 @@ except NameError:
 from errno import ECONNRESET, ENOTCONN, ESHUTDOWN, EWOULDBLOCK, ENOBUFS, EAGAIN, \
   EINTR, EBADF, EADDRINUSE
 from datetime import datetime
+from os import getpid
 from time import sleep, time
 from threading import Thread
 from sysconfig import get_platform
@@ -116,10 +117,10 @@ class AsyncReceiver(Thread):
                     break
                 if why.errno in (EINTR,):
                     continue
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())
                 continue
             except Exception:
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())
                 sleep(1)
                 continue
             if self.userv.uopts.family == socket.AF_INET6:
-- 
2.43.0


From 0bdfe0eb4c3f7ddc75167fdeda3f507804135cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 009/104] fix: XMPP_server constructor used an undefined name

---
 sippy/XMPP_server.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sippy/XMPP_server.py b/sippy/XMPP_server.py
index 7cfc5e2..2893efa 100755
--- a/sippy/XMPP_server.py
+++ b/sippy/XMPP_server.py
@@ -205,7 +205,6 @@ class XMPP_server(object):
     def __init__(self, global_config, uopts):
         self.uopts = uopts.getCopy()
         self._shutdown = False
-        self.__data_callback = data_callback
         self._wi_available = threading.Condition()
         self._wi = []
         self.lservers = {}
-- 
2.43.0


From bdd6535dce55b55813659f657f919eaa741a0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 010/104] fix: a malformed request raised TypeError instead of
 being answered 400 or dropped

---
 sippy/SipTransactionManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index c94f80b..6c315d1 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -332,7 +332,7 @@ class SipTransactionManager(object):
                 tids = req.getTIds()
             except Exception as exception:
                 if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
+                    resp = exception.sip_response
                     if resp is not None:
                         self.transmitMsg(server, resp, ra.address, checksum)
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
-- 
2.43.0


From 7e7f7653b6fd184d66670b7d157d0960ba10c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 011/104] fix: the control command disconnecting all calls
 raised

"d *" called a method the command handler does not have; it belongs to the
call map. The connection was closed with no call disconnected.
---
 sippy/B2B/SimpleAPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..3d7e17b 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -104,7 +104,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
-- 
2.43.0


From 98a172047feeafbebee6cea3f8b3938b265beb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 012/104] fix: the control commands listing transactions raised

dict.iteritems() is gone in Python 3.
---
 sippy/B2B/SimpleAPI.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 3d7e17b..a66a382 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -72,10 +72,10 @@ class B2BSimpleAPI(CLIConnectionManager):
             return False
         if cmd == 'lt':
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             clim.send(res)
             return False
@@ -86,13 +86,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
-- 
2.43.0


From 0110f02a6259e5a0a25f1c1a938abb7a3bf809eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 013/104] fix: the control command listing calls raised as soon
 as there was a call

listActiveCalls() yields four values per call: id, state, both legs.
---
 sippy/B2B/SimpleAPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index a66a382..2e89d15 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -54,7 +54,7 @@ class B2BSimpleAPI(CLIConnectionManager):
         if cmd == 'l':
             res = 'In-memory calls:\n'
             total = 0
-            for (cid, sname), uaast, uaost in ccm.listActiveCalls():
+            for cid, sname, uaast, uaost in ccm.listActiveCalls():
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
-- 
2.43.0


From a4861530fe081eac5fc382e0f8fb8741830511ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 014/104] fix: a media timeout command with a non-numeric
 argument got no reply

---
 sippy/B2B/SimpleAPI.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2e89d15..a5fdd49 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -119,8 +119,12 @@ class B2BSimpleAPI(CLIConnectionManager):
             if len(args) not in (1, 2):
                 clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
                 return False
-            idx = int(args[0])
-            media_index = int(args[1]) if len(args) == 2 else 0
+            try:
+                idx = int(args[0])
+                media_index = int(args[1]) if len(args) == 2 else 0
+            except ValueError:
+                clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
+                return False
             dlist = [x for x in ccm.ccmap if x.id == idx]
             if len(dlist) == 0:
                 clim.send('ERROR: no call with id of %d has been found\n' % idx)
-- 
2.43.0


From 2e37e94a7b5ae93c82d336f76d48aa7588b264f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 015/104] fix: a call that failed authorisation was rejected
 with 401 and no challenge

The failure event carries challenges in "challenges"; "extra_header" is not
looked at by anything, so the caller had nothing to answer.
---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e1380d8..20bda3d 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -224,7 +224,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.challenges = (self.challenge,)
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From 4940d679aefd4db0b7e540016b71dfaf800a84c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 016/104] fix: a call routed back to its source could not be
 placed

The sip-ua destination fell through into the branch that looks up an address
info such a route does not have.
---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 20bda3d..b336b1a 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -295,7 +295,7 @@ class CallController(object):
         if oroute.hostport == DST_SIP_UA:
             host = self.source[0]
             nh_address, same_af = self.source, True
-        if oroute.hostport == DST_WSS_UA:
+        elif oroute.hostport == DST_WSS_UA:
             host = self.req_target.host
             (nh_address, nh_transport), same_af = self.req_target.getTAddr(), True
             UA_kwa['nh_transport'] = nh_transport
-- 
2.43.0


From c732dd0e1d9ce5f0e7b648bf04afd968fd427cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 017/104] fix: the expiry of a route group raised

Routes are objects now; the number of a route is its rnum.
---
 sippy/b2bua.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index b336b1a..ea5f476 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -403,17 +403,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto == self.routes[-1].rnum + 1:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while self.routes[0].rnum != skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From 0311597a7eb68a542fe7b5f92e193d67d3275da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 018/104] fix: the credit time granted by the authorisation was
 never applied

A route that sets no credit time of its own is to be limited by the one the
RADIUS server granted for the call; it was stored into the flag instead, so
the call went on without limit.
---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From 36f44bb580adf3ad7c7ac4923e616bf0293a2d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 019/104] fix: the call list showed the caller's address for
 the callee leg

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index ea5f476..15ab8a5 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -603,7 +603,7 @@ class CallMap(object):
             else:
                 r.append(None)
             if cc.uaO != None:
-                (_h, _p), _t = cc.uaA.getRAddr0()
+                (_h, _p), _t = cc.uaO.getRAddr0()
                 r.append((cc.uaO.state.sname, _t, _h, _p,
                          cc.uaO.getCLI(), cc.uaO.getCLD()))
             else:
-- 
2.43.0


From 05fe4258afb0c9bd6689fc1bc1c1486031b50435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 020/104] fix: a call refused for lack of hops stayed in the
 call map for ever

The outgoing leg had been created but was never started, so it never died and
the call was never collected.
---
 sippy/b2bua.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 15ab8a5..01489e4 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -352,6 +352,8 @@ class CallController(object):
         if self.eTry.max_forwards != None:
             event.max_forwards = self.eTry.max_forwards - 1
             if event.max_forwards <= 0:
+                # The outgoing leg never comes to life
+                self.uaO = None
                 self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
                 self.state = CCStateDead
                 return
-- 
2.43.0


From 6d075a32d0d5770121b52e9a5f95cde723b940c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 021/104] fix: interim accounting reported a nonsensical
 session time

The connect time is on the monotonic clock, the current time was taken from the
wall clock.
---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..1b75882 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -26,6 +26,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from time import time, strftime, gmtime
+from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import Timeout
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From 1972753fdb9fc320814a5de314d9303748e9176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 022/104] fix: a 407 response on a leg passing authentication
 through raised

A single header was iterated over, the failure never reached the other leg.
---
 sippy/UacStateTrying.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 2c36386..1fc5769 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -128,7 +128,7 @@ class UacStateTrying(UaStateGeneric):
                 if code == 401 and resp.countHFs('www-authenticate') != 0:
                     event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
                 elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From b9271a70d607e0d502804b1b1aa54990d50d23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 023/104] fix: a challenge following a provisional response
 lost its parameters

On a leg passing authentication through the 401 or 407 was relayed without the
challenge unless it was the first response.
---
 sippy/UacStateRinging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sippy/UacStateRinging.py b/sippy/UacStateRinging.py
index 8534ef7..51ba303 100644
--- a/sippy/UacStateRinging.py
+++ b/sippy/UacStateRinging.py
@@ -107,6 +107,11 @@ class UacStateRinging(UacStateTrying):
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
+            if self.ua.pass_auth:
+                if code == 401 and resp.countHFs('www-authenticate') != 0:
+                    event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
+                elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From 4acca0bff69478f909a4072ec6ee0f6c44efd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 024/104] fix: a challenged keep-alive was never answered

genRequest() takes the challenge together with the quality of protection; the
bare challenge raised and keep-alives stopped.
---
 sippy/UaStateConnected.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..b91d283 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -269,17 +269,21 @@ class UaStateConnected(UaStateGeneric):
         if code == 401 and resp.countHFs('www-authenticate') != 0 and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
             challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
+            supported, qop = challenge.supportedAlgorithm()
+            if supported:
+                req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
+                self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+                self.triedauth = True
+                return
         if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
             challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
+            supported, qop = challenge.supportedAlgorithm()
+            if supported:
+                req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
+                self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+                self.triedauth = True
+                return
         if code < 200:
             return
         self.ka_tr = None
-- 
2.43.0


From 4c891ce1a1cdd0cfcdd2ec332ec6a190f29da568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 025/104] fix: one unusable destination ended an UDP sender
 thread for good

sendto() reports a port that is out of range with OverflowError, which is not
a socket.error: nworkers such packets (the port is taken from what the peer
sends) and nothing was sent any longer.
---
 sippy/Udp_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 5235952..1c2ede0 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -83,6 +83,10 @@ class AsyncSender(Thread):
                         return
                     if why.errno not in (EWOULDBLOCK, ENOBUFS, EAGAIN):
                         break
+                except Exception:
+                    # Destination that cannot be used (i.e. port out of range)
+                    dump_exception('Udp_server[%d]: unhandled exception when sending data to %s' % (getpid(), str(address)))
+                    break
                 sleep(0.01)
         self.userv = None
 
-- 
2.43.0


From 5a6bb072141bbcbc90ad01ebfd08cb14e9470640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 026/104] fix: a temporary accept() error (i.e. EMFILE)
 disabled the command socket for good

---
 sippy/CLIManager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 1f9c47c..be50764 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -31,6 +31,7 @@ from os import remove, chown, chmod, pipe, read, write, close
 import socket
 from errno import EPIPE, ENOTCONN, EBADF, ECONNABORTED
 from select import poll, POLLIN, POLLNVAL
+from time import sleep
 
 from threading import Thread, Condition
 
@@ -83,8 +84,9 @@ class _Acceptor(Thread):
                     continue
                 elif why.errno == EBADF:
                     break
-                else:
-                    raise
+                dump_exception('CLIConnectionManager: unhandled exception accepting incoming connection')
+                sleep(1)
+                continue
             except Exception:
                 dump_exception('CLIConnectionManager: unhandled exception accepting incoming connection')
                 break
-- 
2.43.0


From cc20dc556124bb51316025805785c8d5eb853acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 027/104] fix: a command connection reset by the peer was never
 closed

Both of its threads either died of the exception or waited for ever.
---
 sippy/CLIManager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index be50764..a791e28 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -201,7 +201,7 @@ class _CLIManager_w(Thread):
                     return
                 except socket.error as why:
                     if why.errno != EBADF:
-                        raise
+                        ED2.callFromThread(self.clim.shutdown)
                     self.clim = None
                     return
                 if res == len(wbuffer):
@@ -246,9 +246,9 @@ class _CLIManager_r(Thread):
             try:
                 data = self.clientsock.recv(1024)
             except socket.error as msg:
-                if msg.errno in (EBADF,):
-                    break
-                raise
+                if msg.errno not in (EBADF,):
+                    ED2.callFromThread(self.clim.shutdown)
+                break
             if len(data) == 0:
                 ED2.callFromThread(self.clim.shutdown)
                 break
-- 
2.43.0


From 2993cabd881709591f99bcdc26259fa607c0be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 028/104] fix: a call waiting for RADIUS was never answered if
 the answer was no good

When the helper process dies the answer is empty; the exception meant that
the result callback was not invoked at all.
---
 sippy/Radius_client.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 8c7b4d4..c1b0153 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -26,6 +26,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.External_command import External_command
+from sippy.Core.Exceptions import dump_exception
 
 class Radius_client(External_command):
     global_config = None
@@ -66,6 +67,14 @@ class Radius_client(External_command):
     def process_result(self, result_callback, result, *callback_parameters):
         if result_callback == None:
             return
+        try:
+            results = self._parse_result(result)
+        except Exception:
+            dump_exception('Radius_client: cannot understand the answer of the radius client')
+            results = ((), -1)
+        External_command.process_result(self, result_callback, results, *callback_parameters)
+
+    def _parse_result(self, result):
         nav = []
         for av in result[:-1]:
             a, v = [x.strip() for x in av.decode().split(' = ', 1)]
@@ -77,4 +86,4 @@ class Radius_client(External_command):
             elif v.startswith(a + '='):
                 v = v[len(a) + 1:]
             nav.append((a, v))
-        External_command.process_result(self, result_callback, (tuple(nav), int(result[-1])), *callback_parameters)
+        return (tuple(nav), int(result[-1]))
-- 
2.43.0


From ce5634b1ca156219f7dcc24194db603d5d897793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 029/104] fix: a worker of an external command died with its
 command

No result was delivered then, the work item and, once all workers were gone,
every later one waited for ever. Report an empty result, as is done when
the command exits without an answer, and start the command again.
---
 sippy/External_command.py | 40 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 36d40f1..90a3e66 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -50,8 +50,7 @@ class _Worker(Thread):
         need_close_fds = True
         if platform == 'win32':
             need_close_fds = False
-        pipe = Popen(self.command, shell = False, stdin = PIPE, \
-          stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+        pipe = None
         while True:
             self.master.work_available.acquire()
             while len(self.master.work) == 0:
@@ -69,22 +68,29 @@ class _Worker(Thread):
                 wi.result_callback = None
                 wi.callback_parameters = None
                 continue
-            batch = [x.encode() + b'\n' for x in wi.data]
-            batch.append(b'\n')
-            pipe.stdin.writelines(batch)
-            pipe.stdin.flush()
             result = []
-            while True:
-                try:
-                    line = pipe.stdout.readline().strip()
-                except IOError as e:
-                    # Catch EINTR
-                    if e.args[0] != EINTR:
-                        raise e
-                    continue
-                if len(line) == 0:
-                    break
-                result.append(line)
+            try:
+                if pipe is None or pipe.poll() is not None:
+                    pipe = Popen(self.command, shell = False, stdin = PIPE, \
+                      stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+                batch = [x.encode() + b'\n' for x in wi.data]
+                batch.append(b'\n')
+                pipe.stdin.writelines(batch)
+                pipe.stdin.flush()
+                while True:
+                    try:
+                        line = pipe.stdout.readline().strip()
+                    except IOError as e:
+                        # Catch EINTR
+                        if e.args[0] != EINTR:
+                            raise e
+                        continue
+                    if len(line) == 0:
+                        break
+                    result.append(line)
+            except Exception:
+                dump_exception('External_command: unhandled exception talking to external command')
+                result = []
             ED2.callFromThread(self.master.process_result, wi.result_callback, tuple(result), *wi.callback_parameters)
             wi.data = None
             wi.result_callback = None
-- 
2.43.0


From 93d7f7562b8801debd4b58c974e3a6c569b04f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 030/104] fix: a singleton that failed to initialise left the
 lock of all singletons taken

---
 sippy/Core/EventDispatcher.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sippy/Core/EventDispatcher.py b/sippy/Core/EventDispatcher.py
index 8900445..236825f 100644
--- a/sippy/Core/EventDispatcher.py
+++ b/sippy/Core/EventDispatcher.py
@@ -99,12 +99,11 @@ class Singleton(object):
         True
         '''
         sself = '__self__'
-        cls.__state_lock.acquire()
-        if not hasattr(cls, sself):
-            instance = object.__new__(cls)
-            instance.__sinit__(*args, **kwds)
-            setattr(cls, sself, instance)
-        cls.__state_lock.release()
+        with cls.__state_lock:
+            if not hasattr(cls, sself):
+                instance = object.__new__(cls)
+                instance.__sinit__(*args, **kwds)
+                setattr(cls, sself, instance)
         return getattr(cls, sself)
 
     def __sinit__(self, *args, **kwds):
-- 
2.43.0


From 5f7b84cd96cf7bf1cc5428ed6e5eea6af5e6cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 031/104] fix: starting an RTP writer after end() left its lock
 taken

Everything that was called on it next, ending included, waited for ever.
---
 sippy/Rtp/OutputWorker.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp/OutputWorker.py b/sippy/Rtp/OutputWorker.py
index 502c36d..48a2b27 100644
--- a/sippy/Rtp/OutputWorker.py
+++ b/sippy/Rtp/OutputWorker.py
@@ -53,11 +53,10 @@ class RTPOutputWorker():
         self.pkt_send_f = pkt_send_f
 
     def start(self):
-        self.state_lock.acquire()
-        assert not self.has_started
-        assert not self.has_ended
-        self.has_started = True
-        self.state_lock.release()
+        with self.state_lock:
+            assert not self.has_started
+            assert not self.has_ended
+            self.has_started = True
         self._ensure_proc_channel()
 
     def join(self, timeout=None):
-- 
2.43.0


From 47ef479d12cee1016816ab6dc1016e3cacb42a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 032/104] fix: RTP writer was stopped with the lock its own
 packets need taken

When the endpoint is shut down while its writer is being replaced, join() waits
for a callback of the writer that waits for state_lock in send_pkt().
---
 sippy/Rtp/EPoint.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp/EPoint.py b/sippy/Rtp/EPoint.py
index f8479f1..d3dc137 100644
--- a/sippy/Rtp/EPoint.py
+++ b/sippy/Rtp/EPoint.py
@@ -205,12 +205,13 @@ class RTPEPoint():
                 new_writer.enable_datalog(self.dl_file)
             new_writer.start()
             with self.state_lock:
-                if self.rserv is None or self.rtp_params.rtp_target is None:
-                    # RTP endpoint has been shut down while swapping writer.
-                    new_writer.end()
-                    new_writer.join()
-                else:
+                if self.rserv is not None and self.rtp_params.rtp_target is not None:
                     self.writer = new_writer
+                    new_writer = None
+            if new_writer is not None:
+                # RTP endpoint has been shut down while swapping writer.
+                new_writer.end()
+                new_writer.join()
         self.rsess.stream_update()
 
     def connect(self, ain:callable):
-- 
2.43.0


From 228c1593a2ae4de78a97a622eedc409a17b20865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 033/104] fix: RTP channel leaked when its target was refused
 on a change of address family

---
 sippy/Rtp/EPoint.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp/EPoint.py b/sippy/Rtp/EPoint.py
index d3dc137..0383533 100644
--- a/sippy/Rtp/EPoint.py
+++ b/sippy/Rtp/EPoint.py
@@ -125,8 +125,12 @@ class RTPEPoint():
         preferred_port = old_channel.local_addr[1]
         new_channel = self._bind_channel(rtp_server, rtp_laddr, palloc, preferred_port=preferred_port)
         target = rtp_params.rtp_target
-        if target is not None:
-            new_channel.set_target(target[0], target[1])
+        try:
+            if target is not None:
+                new_channel.set_target(target[0], target[1])
+        except Exception:
+            new_channel.close()
+            raise
         with self.state_lock:
             if self._rtp_server is None or self.rserv is not old_channel:
                 new_channel.close()
-- 
2.43.0


From 5757b33b1e572ece59718a2f784f2cf53fee06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 034/104] fix: a route or credit time that cannot be parsed
 left the caller waiting for good

---
 sippy/b2bua.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 01489e4..f1a04fd 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -254,7 +254,13 @@ class CallController(object):
                 self.caller_name = None
         credit_time = [x for x in results[0] if x[0] == 'h323-credit-time']
         if len(credit_time) > 0:
-            credit_time = int(credit_time[0][1])
+            try:
+                credit_time = int(credit_time[0][1])
+            except ValueError:
+                dump_exception('can\'t parse credit time', extra = credit_time[0][1])
+                self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (4)')))
+                self.state = CCStateDead
+                return
         else:
             credit_time = None
         if not '_static_routes' in self.global_config:
@@ -263,7 +269,7 @@ class CallController(object):
                 self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (2)')))
                 self.state = CCStateDead
                 return
-            routing = [B2BRoute(x[1][8:]) for x in routing]
+            routing = [x[1][8:] for x in routing]
         elif self.req_source == SRC_PROXY and SRC_PROXY in self.global_config['_static_routes']:
             routing = [self.global_config['_static_routes'][SRC_PROXY].getCopy(),]
         else:
@@ -272,8 +278,14 @@ class CallController(object):
         for oroute in routing:
             rnum += 1
             max_credit_time = self.global_config.getdefault('max_credit_time', None)
-            oroute.customize(rnum, self.cld, self.cli, credit_time, self.pass_headers, \
-              max_credit_time)
+            try:
+                if isinstance(oroute, str):
+                    oroute = B2BRoute(oroute)
+                oroute.customize(rnum, self.cld, self.cli, credit_time, self.pass_headers, \
+                  max_credit_time)
+            except Exception:
+                dump_exception('can\'t use route #%d' % rnum)
+                continue
             if oroute.credit_time == 0 or oroute.expires == 0:
                 continue
             self.routes.append(oroute)
-- 
2.43.0


From dffa997e0f5807b706a9655fdd6ebe670429e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 035/104] fix: expiry of a route group failed when the route
 behind it is not in the list

---
 sippy/b2bua.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index f1a04fd..97c390b 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -424,10 +424,10 @@ class CallController(object):
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1].rnum + 1:
+        if skipto > self.routes[-1].rnum:
             self.routes = []
             return
-        while self.routes[0].rnum != skipto:
+        while self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From 57166ccc80fa1f3b810746dd17a29adbafaa7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 036/104] fix: reporting an exception failed when the extra
 information is not a string

---
 sippy/Core/Exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Core/Exceptions.py b/sippy/Core/Exceptions.py
index 6d661e1..7905bfa 100644
--- a/sippy/Core/Exceptions.py
+++ b/sippy/Core/Exceptions.py
@@ -54,7 +54,7 @@ def dump_exception(msg, f = sys.stdout, extra = None):
         print_exception(exc_type, exc_value, exc_traceback, file = f)
     f.write(SEPT)
     if extra != None:
-        f.write(extra)
+        f.write(str(extra))
         f.write(SEPT)
     f.flush()
 
-- 
2.43.0


From 0c403168383e0ca62a3305b16fc2c64f308e86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 037/104] fix: hop limit was reset when an INVITE was repeated
 with credentials

---
 sippy/UA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 091ddcd..ff6e1e5 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -208,7 +208,9 @@ class UA(object):
                 break
         else:
             return False
-        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers)
+        max_forwards = self.reqs[cseq].getHFBody('max-forwards').getNum()
+        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers, \
+          max_forwards = max_forwards)
         self.newUacTransaction(req, req_extra_headers = extra_headers)
         del self.reqs[cseq]
         return True
-- 
2.43.0


From 6148fdd627e993fdaf2caa3f3f6ee7f704c399a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 038/104] fix: an empty command closed the control connection

---
 sippy/B2B/SimpleAPI.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index a5fdd49..c3783f4 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -47,6 +47,9 @@ class B2BSimpleAPI(CLIConnectionManager):
     def recvCommand(self, clim, cmd):
         ccm = self.global_config['_cmap']
         args = cmd.split()
+        if len(args) == 0:
+            clim.send('ERROR: empty command\n')
+            return False
         cmd = args.pop(0).lower()
         if cmd == 'q':
             clim.close()
-- 
2.43.0


From 9c67582df35ba97056d5089bb1d9f22a47442b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 039/104] fix: a non-ASCII number in the call list closed the
 control connection

---
 sippy/CLIManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index a791e28..9fb3404 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -289,7 +289,7 @@ class CLIManager(object):
         if self.wthr is None:
             return
         if not isinstance(data, _uobj):
-            data = data.encode('ascii')
+            data = data.encode('utf-8')
         self.wthr.send(data)
 
     def write(self, data):
-- 
2.43.0


From 58bfc2ab1f17994421dd367945066ab4640483e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 040/104] fix: verifying a digest response raised for an
 incomplete header or an unknown algorithm

---
 sippy/SipAuthorization.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..5ea99da 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -130,13 +130,22 @@ class SipAuthorization(SipGenericHF):
     def verify(self, password, method, body = None):
         if not self.parsed:
             self.parse()
+        if not self.isVerifiable():
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
+    def isVerifiable(self):
+        if self.algorithm not in _HASH_FUNC:
+            return False
+        if self.algorithm is not None and self.algorithm.endswith('-sess') and self.cnonce is None:
+            return False
+        return None not in (self.username, self.realm, self.nonce, self.uri, self.response)
+
     def verifyHA1(self, HA1, method, body):
         if not self.parsed:
             self.parse()
-        if self.algorithm not in _HASH_FUNC:
+        if not self.isVerifiable():
             return False
         if self.qop != None and self.qop not in ('auth', 'auth-int'):
             return False
-- 
2.43.0


From a2e6004c6a8c185c865c428de6db5b18eaf1df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 041/104] fix: the ACK of a failed INVITE left out the Route
 headers of the INVITE

---
 sippy/SipRequest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 8657bc9..1fb1d50 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -137,6 +137,7 @@ class SipRequest(SipMsg):
                           fr0m = self.getHFBCopy('from'), to = to, \
                           via = self.getHFBCopy('via'), callid = self.getHFBCopy('call-id'), \
                           cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \
+                          routes = self.getHFBCopys('route'), target = self.getTarget(), \
                           user_agent = self.user_agent)
 
     def genCANCEL(self):
-- 
2.43.0


From 944e75663837dbe8d07eb51621ce8aedafa0275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 042/104] fix: a copy of a sips: URL became sip: and shared the
 headers with the original

---
 sippy/SipURL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 6c0ecfd..cbdf49f 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -291,9 +291,9 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = None if self.headers is None else dict(self.headers), usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
-          userparams = list(self.userparams), lr = self.lr)
+          userparams = list(self.userparams), lr = self.lr, scheme = self.scheme)
 
     def getHost(self):
         return self.host
-- 
2.43.0


From 5b73cddedb411b5e1c09a2862306cd2a83c8a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 043/104] fix: a copy of an unparsed message body lost its
 content type

---
 sippy/MsgBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MsgBody.py b/sippy/MsgBody.py
index 2f63b3a..90c9ca7 100644
--- a/sippy/MsgBody.py
+++ b/sippy/MsgBody.py
@@ -79,7 +79,7 @@ class MsgBody(object):
 
     def getCopy(self):
         if not self.parsed:
-            return MsgBody(self.content)
+            return MsgBody(self.content, self.mtype.getCopy())
         return MsgBody(cself = self)
 
 if 'MultipartMixBody' not in globals():
-- 
2.43.0


From beba7922f2b1d9baee85c4341a8cc28ea41e4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 044/104] fix: a copy of an unparsed Warning lost its code and
 text

---
 sippy/SipWarning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index c429c78..0a248b2 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -60,4 +60,6 @@ class SipWarning(SipGenericHF):
         return '%d %s "%s"' % (self.code, self.agent, self.text)
 
     def getCopy(self):
+        if not self.parsed:
+            return self.__class__(self.body)
         return self.__class__(cself = self)
-- 
2.43.0


From f48e38c51667e08093d97a47cd9c5c5050fbb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 045/104] fix: a copy of the body of an extension header lost
 the name of the header

---
 sippy/SipGenericHF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/SipGenericHF.py b/sippy/SipGenericHF.py
index 7be1523..a817e67 100644
--- a/sippy/SipGenericHF.py
+++ b/sippy/SipGenericHF.py
@@ -44,7 +44,9 @@ class SipGenericHF(object):
         return self.body
 
     def getCopy(self):
-        return self.__class__(self.body)
+        cself = self.__class__(self.body)
+        cself.hf_names = self.hf_names
+        return cself
 
     def getCanName(self, name, compact = False):
         return name.capitalize()
-- 
2.43.0


From 675196deebcbc444e06688e37934962e0696751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 046/104] fix: a copy of a multipart body had a different
 boundary in its content type

---
 sippy/MultipartMixBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index eb9b0a6..0c79352 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -87,7 +87,7 @@ class MultipartMixBody():
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
-        cself.boundary = self.boundary
+        cself.setBoundary(self.boundary)
         return cself
 
     def getContentType(self):
-- 
2.43.0


From 24b4f6ee86131ee79083664ae230b760b463f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 047/104] fix: the socket flags and the number of workers of a
 UDP server were lost, so that the check for a port in use never worked

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 1c2ede0..b94ae14 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -149,7 +149,7 @@ class Udp_server_opts(Network_server_opts):
     def __init__(self, *args, family = None, o = None):
         super().__init__(*args, o=o)
         if o != None:
-            self.family = o.family
+            self.family, self.flags, self.nworkers = o.family, o.flags, o.nworkers
             return
         if family == None:
             if self.laddress != None and self.laddress[0].startswith('['):
-- 
2.43.0


From 7fd84d1dd3f7a025770ea076bb7870367d9c7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 048/104] fix: a request could not be made with Route headers
 and no explicit target

---
 sippy/SipRoute.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/SipRoute.py b/sippy/SipRoute.py
index 1616f9c..2e4ca01 100644
--- a/sippy/SipRoute.py
+++ b/sippy/SipRoute.py
@@ -39,3 +39,6 @@ class SipRoute(SipFrom):
 
     def getAddr(self):
         return self.address.url.getAddr()
+
+    def getTAddr(self):
+        return self.address.url.getTAddr()
-- 
2.43.0


From f548952dc2fbdcb0e92087eed173ba4db5a9713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 049/104] fix: a request could not be copied

---
 sippy/SipRequest.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 1fb1d50..0e4ef49 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -55,6 +55,9 @@ class SipRequest(SipMsg):
                     print('BUG: Double exception, should not be happening:\n', str(e1))
                 raise e
             return
+        if method == None:
+            # Blank request to be filled by the getCopy()
+            return
         self.method = method
         self.ruri = ruri
         if target == None:
@@ -106,6 +109,14 @@ class SipRequest(SipMsg):
     def setRURI(self, ruri):
         self.ruri = ruri
 
+    def getCopy(self):
+        cself = SipMsg.getCopy(self)
+        cself.method = self.method
+        cself.ruri = self.ruri.getCopy()
+        cself.sipver = self.sipver
+        cself.user_agent = self.user_agent
+        return cself
+
     def genResponse(self, scode, reason, body = None, server = None, ext_reason = None):
         # Should be done at the transaction level
         # to = self.getHF('to').getBody().getCopy()
-- 
2.43.0


From 4a28f8b5b3c2f86faa4009257a6c0911db2b2ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 050/104] fix: credentials with a comma inside a quoted part
 were refused

---
 sippy/SipAuthorization.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index 5ea99da..5bb2757 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -79,7 +79,7 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        for name, value in [x.strip(', ').split('=', 1) for x in SplitUnquoted(self.body.split(' ', 1)[1])]:
             ci_name = name.lower()
             if ci_name == 'username':
                 self.username = value.strip('"')
@@ -159,6 +159,18 @@ class SipAuthorization(SipGenericHF):
     def getCanName(self, name, compact = False):
         return 'Authorization'
 
+def SplitUnquoted(s):
+    # Split comma-separated list, leaving commas inside quotes alone
+    rval = ['']
+    for i, part in enumerate(s.split('"')):
+        if i % 2 != 0:
+            rval[-1] += '"' + part + '"'
+            continue
+        parts = part.split(',')
+        rval[-1] += parts[0]
+        rval.extend(parts[1:])
+    return rval
+
 def IsDigestAlgSupported(algorithm):
     return (algorithm in _HASH_FUNC)
 
-- 
2.43.0


From 6ef84b3ad8f76be39e80297b9cd5d71119518bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 051/104] fix: the compact form of Supported was not understood
 when received

---
 sippy/SipSupported.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipSupported.py b/sippy/SipSupported.py
index 829e95d..ad772b7 100644
--- a/sippy/SipSupported.py
+++ b/sippy/SipSupported.py
@@ -29,7 +29,7 @@ from sippy.SipGenericHF import SipGenericHF
 from functools import reduce
 
 class SipSupported(SipGenericHF):
-    hf_names = ('supported',)
+    hf_names = ('supported', 'k')
     caps = None
 
     def __init__(self, body = None, caps = None):
-- 
2.43.0


From e7408d81bde093a7298af601283abf61751cd13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 052/104] fix: addresses with a sips or tel URI and no brackets
 were refused

---
 sippy/SipAddress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 866f01d..0619d16 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -67,7 +67,7 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith('sip:') and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:', 'tel:')) and address.find('<') == -1:
             parts = address.split(';', 1)
             self.url = SipURL(parts[0], relaxedparser = relaxedparser)
             if len(parts) == 2:
-- 
2.43.0


From 2aacbd2338416f6a5b7615f855aac3ce194c921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 053/104] fix: parameters of an address with spaces around them
 were not found

---
 sippy/SipAddress.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 0619d16..a28377d 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -72,9 +72,9 @@ class SipAddress(object):
             self.url = SipURL(parts[0], relaxedparser = relaxedparser)
             if len(parts) == 2:
                 for l in parts[1].split(';'):
-                    if not l:
+                    if not l.strip():
                         continue
-                    k_v = l.split('=', 1)
+                    k_v = [x.strip() for x in l.split('=', 1)]
                     if len(k_v) == 2:
                         k, v = k_v
                     else:
@@ -113,9 +113,9 @@ class SipAddress(object):
         paramstring = paramstring.strip()
         if paramstring:
             for l in paramstring.split(';'):
-                if not l:
+                if not l.strip():
                     continue
-                k_v = l.split('=', 1)
+                k_v = [x.strip() for x in l.split('=', 1)]
                 if len(k_v) == 2:
                     k, v = k_v
                 else:
-- 
2.43.0


From 4877cc574449275b2aa714de106ca0d6e20ac673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 054/104] fix: the length of a body was counted in characters,
 not bytes

---
 sippy/SipMsg.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..67e3136 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -107,7 +107,8 @@ class SipMsg(object):
             if self.__mbody == None:
                 mblen = 0
             else:
-                mblen = len(self.__mbody)
+                # The length is in bytes, not characters
+                mblen = len(self.__mbody.encode())
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
@@ -141,7 +142,7 @@ class SipMsg(object):
                     # happens with request
                     raise SipParseError('Truncated SIP body, %d bytes expected, %d received' % (blen, mblen))
             elif blen < mblen:
-                self.__mbody = self.__mbody[:blen]
+                self.__mbody = self.__mbody.encode()[:blen].decode(errors = 'replace')
                 mblen = blen
         if self.__mbody != None:
             if self.__content_type != None:
@@ -156,7 +157,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -170,10 +171,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode())
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             if compact:
-- 
2.43.0


From 2a10d0020411eb77b330316470af193a52c6001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 055/104] fix: headers after a comma in a list kept a leading
 space and were misread

---
 sippy/SipMsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 67e3136..7018171 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -82,7 +82,7 @@ class SipMsg(object):
                     header_names.append(header.name)
             except ESipHeaderCSV as einst:
                 for body in einst.bodys:
-                    header = SipHeader(name = einst.name, bodys = body, fixname = True)
+                    header = SipHeader(name = einst.name, bodys = body.strip(), fixname = True)
                     if header.name == 'content-type':
                         self.__content_type = header
                     elif header.name == 'content-length':
-- 
2.43.0


From f40b24ba43faf3da1d2529e1b7fe7892abfb2e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 056/104] fix: other line separators than those of SIP split a
 header

---
 sippy/SipMsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 7018171..ee229d3 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -57,7 +57,7 @@ class SipMsg(object):
                     self.__mbody = None
                 break
         # Split message into lines and put aside start line
-        lines = buf.splitlines()
+        lines = buf.replace('\r\n', '\n').replace('\r', '\n').split('\n')
         self.setSL(lines[0])
         i = 2
         while i < len(lines):
-- 
2.43.0


From 262dbb422c732c692db1e9a2c0e7dca69b24f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 057/104] fix: a negative content length cut the body

---
 sippy/SipMsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index ee229d3..c2b6cfb 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -109,6 +109,8 @@ class SipMsg(object):
             else:
                 # The length is in bytes, not characters
                 mblen = len(self.__mbody.encode())
+            if blen < 0:
+                raise SipParseError('Invalid SIP body length, %d' % blen)
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
-- 
2.43.0


From ae5e518c841a44e7ac71076ebaf838c48d0b9fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 058/104] fix: the default realm of a challenge was written as
 a tuple

---
 sippy/SipWWWAuthenticate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d115dc5..74b0bb8 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -91,9 +91,11 @@ class SipWWWAuthenticate(SipGenericHF):
     def localStr(self, local_addr = None):
         if not self.parsed:
             return self.body
-        if local_addr == None or 'my' not in dir(self.realm):
-            local_addr = self.realm
-        rval = 'Digest realm="%s",nonce="%s"' % (local_addr, self.nonce)
+        if local_addr is None or 'my' not in dir(self.realm):
+            realm = self.realm
+        else:
+            (realm, local_port), local_transport = local_addr
+        rval = 'Digest realm="%s",nonce="%s"' % (realm, self.nonce)
         if self.qop != None:
             sqop = self.qop[0]
             for qop in self.qop[1:]:
-- 
2.43.0


From b9906c536e6fa044c92aaa91592018a24bbab1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 059/104] fix: other line separators than those of SDP split a
 line

---
 sippy/SdpBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 7c3dd32..2338d65 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -71,7 +71,7 @@ class SdpBody(object):
         self.sections = []
         if body is None:
             return
-        avpairs = [x.split('=', 1) for x in body.strip().splitlines() if len(x.strip()) > 0]
+        avpairs = [x.split('=', 1) for x in body.replace('\r', '\n').split('\n') if len(x.strip()) > 0]
         current_snum = 0
         c_header = None
         for name, v in avpairs:
-- 
2.43.0


From 202ef3c40f5c8fa30816ceaac39907c587366595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 060/104] fix: repeated lines of a session description were
 dropped

---
 sippy/SdpBody.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 2338d65..f8d5456 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -53,6 +53,8 @@ class SdpBody(object):
     first_half = ('v', 'o', 's', 'i', 'u', 'e', 'p')
     second_half = ('b', 't', 'r', 'z', 'k')
     all_headers = ('v', 'o', 's', 'i', 'u', 'e', 'p', 'c', 'b', 't', 'r', 'z', 'k')
+    # May appear more than once, all the lines are kept in a single header
+    multi_headers = ('e', 'p', 'b', 't')
     top_hdrs_req = ('v', 'o', 's', 't')
     sect_hdrs_req = ('c', 'm')
     sections = None
@@ -85,8 +87,12 @@ class SdpBody(object):
                 elif name == 'a':
                     self.a_headers.append(a_header(v))
                 else:
+                    if name in self.multi_headers and getattr(self, name + '_header') != None:
+                        v = '%s\r\n%s=%s' % (getattr(self, name + '_header'), name, v)
                     setattr(self, name + '_header', f_types[name](v))
             else:
+                if name == 'b' and self.sections[-1].b_header != None:
+                    v = '%s\r\nb=%s' % (self.sections[-1].b_header, v)
                 self.sections[-1].addHeader(name, v)
         if c_header != None:
             for section in self.sections:
-- 
2.43.0


From 80f475526dd4f568212c81ce25f833f25751e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 061/104] fix: spaces around the parameters of a content type
 became parts of their names

---
 sippy/SipContentType.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/SipContentType.py b/sippy/SipContentType.py
index 9c7bb43..03eb480 100644
--- a/sippy/SipContentType.py
+++ b/sippy/SipContentType.py
@@ -36,11 +36,11 @@ class SipContentType(SipGenericHF):
 
     def parse(self):
         parts = self.body.split(';')
-        self.name = parts.pop(0)
+        self.name = parts.pop(0).strip()
         params = []
         for part in parts:
-            param = part.split('=', 1)
-            params.append(param)
+            name, _, value = part.partition('=')
+            params.append((name.strip(), value.strip()))
         self.params = dict(params)
         self.parsed = True
 
-- 
2.43.0


From d0235a115ddc25f131339022f9ff1456367c44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 062/104] fix: bodies of several parts lost the headers of the
 parts, refused a quoted boundary

---
 sippy/MultipartMixBody.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index 0c79352..60fce98 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -33,6 +33,9 @@ class MultipartMixBody():
     boundary = None
     mtype = SipContentType('multipart/mixed')
     mtype.parse()
+    # The type of a part that does not tell its own
+    part_mtype = SipContentType('text/plain')
+    part_mtype.parse()
 
     def __init__(self, body = None, ctype = None):
         self.parts = []
@@ -40,18 +43,20 @@ class MultipartMixBody():
         if body is None:
             self.setBoundary(token_hex(16))
             return
-        sep = f'--{ctype.params["boundary"]}'
+        boundary = ctype.params["boundary"].strip('"')
+        sep = f'--{boundary}'
         bparts = body.split(sep)
         assert len(bparts) > 2
         assert len(bparts[0]) == 0
         assert bparts[-1].strip() == '--'
-        parts = [p.lstrip() for p in bparts[1:-1]]
-        for sect in parts:
+        for sect in bparts[1:-1]:
             headers = []
-            ct = None
+            ct = self.part_mtype
             headersect, sect = sect.split('\r\n\r\n', 1)
             # parse sub headers
             for hl in headersect.split('\r\n'):
+                if len(hl.strip()) == 0:
+                    continue
                 h = SipHeader(hl)
                 if h.name == "content-type":
                     ct = h.getBody()
@@ -61,7 +66,7 @@ class MultipartMixBody():
             sect = MsgBody(sect, ct)
             self.parts.append(sect)
             self.part_headers.append(headers)
-        self.setBoundary(ctype.params["boundary"])
+        self.setBoundary(boundary)
 
     def setBoundary(self, bnd):
         self.boundary = bnd
@@ -69,24 +74,28 @@ class MultipartMixBody():
         mtype.params["boundary"] = bnd
         self.mtype = mtype
 
-    def __str__(self):
+    def _localStr(self, p2str):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p}' for p in self.parts]
-        s = ''.join(parts)
+        s = ''
+        for i, p in enumerate(self.parts):
+            s += f'{bnd}Content-Type: {p.mtype}\r\n'
+            # parts added one by one may come with no headers of their own
+            for h in self.part_headers[i] if i < len(self.part_headers) else ():
+                s += f'{h}\r\n'
+            s += f'\r\n{p2str(p)}'
         s += f'{bnd[:-2]}--\r\n'
         return s
 
+    def __str__(self):
+        return self._localStr(str)
+
     def localStr(self, local_addr = None):
-        bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
-                 for p in self.parts]
-        s = ''.join(parts)
-        s += f'{bnd[:-2]}--\r\n'
-        return s
+        return self._localStr(lambda p: p.localStr(local_addr))
 
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
+        cself.part_headers = [[h.getCopy() for h in headers] for headers in self.part_headers]
         cself.setBoundary(self.boundary)
         return cself
 
-- 
2.43.0


From ab48d26f3b12e407eff5062532a2cac5ee0d99b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:20 +0000
Subject: [PATCH 063/104] fix: a request whose handling failed left its
 transaction open, unanswered

---
 sippy/Exceptions/SipParseError.py |  2 ++
 sippy/SipTransactionManager.py    | 48 +++++++++++++++----------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/sippy/Exceptions/SipParseError.py b/sippy/Exceptions/SipParseError.py
index 845740b..9529f34 100644
--- a/sippy/Exceptions/SipParseError.py
+++ b/sippy/Exceptions/SipParseError.py
@@ -26,6 +26,8 @@
 from .SipHandlingError import SipHandlingError
 
 class SipParseError(SipHandlingError):
+    code = 400
+    msg = 'Bad Request'
     sip_response = None
 
     def __init__(self, arg, sip_response = None):
diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 6c315d1..e0a0ee7 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -33,6 +33,7 @@ from sippy.SipRequest import SipRequest
 from sippy.SipAddress import SipAddress
 from sippy.SipRoute import SipRoute
 from sippy.SipHeader import SipHeader
+from sippy.Exceptions.SipHandlingError import SipHandlingError
 from sippy.Exceptions.SipParseError import SipParseError
 from sippy.Exceptions.SdpParseError import SdpParseError
 from sippy.Exceptions.RtpProxyError import RtpProxyError
@@ -338,7 +339,6 @@ class SipTransactionManager(object):
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
                 return
-            call_id = tids[0][0]
             req.rtime = rtime
             via0 = req.getHFBody('via')
             ahost, aport = via0.getAddr()
@@ -375,23 +375,13 @@ class SipTransactionManager(object):
                     curl = cbody.getUrl()
                     curl.host = ra.received
             req.setSource(ra)
-            def ex_sendResponse(r):
-                self.transmitMsg(server, r, r.getHFBody('via').getTAddr(), checksum, call_id)
             try:
                 self.incomingRequest(req, checksum, tids, server)
             except RtpProxyError as ex:
-                resp = ex.getResponse(req)
-                self.sendResponse(resp)
                 # Give RTP proxy some time to warm up
                 if monotonic() - self.init_time > 5: raise
-            except SdpParseError as ex:
-                resp = ex.getResponse(req)
-                self.sendResponse(resp)
-            except SipParseError as ex:
-                resp = ex.getResponse(req)
-                if resp is None:
-                    raise ex
-                ex_sendResponse(resp)
+            except (SdpParseError, SipParseError) as ex:
+                dump_exception(f'can\'t process SIP request from {ra}', extra = data)
 
     # 1. Client transaction methods
     def newTransaction(self, msg, resp_cb = None, laddress = None, userv = None, \
@@ -678,18 +668,28 @@ class SipTransactionManager(object):
                 t.needack = False
                 t.branch = None
             self.tserver[t.tid] = t
-            for consumer in self.req_consumers.get(t.tid[0], ()):
-                cobj = consumer.cobj.isYours(msg)
-                if cobj != None:
-                    t.compact = consumer.compact
-                    rval = cobj.recvRequest(msg, t)
-                    break
-            else:
-                if self.req_cb == None:
-                    self.l1rcache[checksum] = SipTMRetransmitO()
-                    rval = None
+            try:
+                for consumer in self.req_consumers.get(t.tid[0], ()):
+                    cobj = consumer.cobj.isYours(msg)
+                    if cobj != None:
+                        t.compact = consumer.compact
+                        rval = cobj.recvRequest(msg, t)
+                        break
                 else:
-                    rval = self.req_cb(msg, t)
+                    if self.req_cb == None:
+                        self.l1rcache[checksum] = SipTMRetransmitO()
+                        rval = None
+                    else:
+                        rval = self.req_cb(msg, t)
+            except Exception as ex:
+                # Don't leave the transaction behind
+                if t.state in (TRYING, RINGING):
+                    if isinstance(ex, SipHandlingError):
+                        resp = ex.getResponse(msg)
+                    else:
+                        resp = msg.genResponse(500, 'Server Internal Error')
+                    self.sendResponse(resp, t)
+                raise
             if rval == None:
                 if t.teA != None or t.teD != None or t.teE != None or t.teF != None:
                     return
-- 
2.43.0


From b2e5d76ede298c601ad4716e643b2f0d23f61b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:20 +0000
Subject: [PATCH 064/104] fix: a failure of the application to take a report
 left the transaction behind

---
 sippy/SipTransactionManager.py | 39 +++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index e0a0ee7..23f0868 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -532,15 +532,16 @@ class SipTransactionManager(object):
                         t.teG = Timeout(self.timerG, 64, 1, t)
                 else:
                     self.l1rcache[checksum] = SipTMRetransmitO()
-                if t.resp_cb != None:
-                    if t.cb_ifver == 1:
-                        t.resp_cb(msg)
-                    else:
-                        t.resp_cb(msg, t)
-                if t.state == UACK:
-                    return
-                del self.tclient[t.tid]
-                t.cleanup()
+                try:
+                    if t.resp_cb != None:
+                        if t.cb_ifver == 1:
+                            t.resp_cb(msg)
+                        else:
+                            t.resp_cb(msg, t)
+                finally:
+                    if t.state != UACK:
+                        del self.tclient[t.tid]
+                        t.cleanup()
 
     def timerA(self, t):
         #print('timerA', t)
@@ -614,10 +615,12 @@ class SipTransactionManager(object):
                 t.teD.cancel()
                 # We have done with the transaction, no need to wait for timeout
                 del self.tserver[t.tid]
-                if t.ack_cb != None:
-                    t.ack_cb(msg)
-                t.cleanup()
-                self.l1rcache[checksum] = SipTMRetransmitO()
+                try:
+                    if t.ack_cb != None:
+                        t.ack_cb(msg)
+                finally:
+                    t.cleanup()
+                    self.l1rcache[checksum] = SipTMRetransmitO()
         elif msg.getMethod() == 'ACK':
             # Some ACK that doesn't match any existing transaction.
             # Drop and forget it - upper layer is unlikely to be interested
@@ -789,10 +792,12 @@ class SipTransactionManager(object):
         if t.teA != None:
             t.teA.cancel()
             t.teA = None
-        if t.noack_cb != None and t.state != CONFIRMED:
-            t.noack_cb()
-        del self.tserver[t.tid]
-        t.cleanup()
+        try:
+            if t.noack_cb != None and t.state != CONFIRMED:
+                t.noack_cb()
+        finally:
+            del self.tserver[t.tid]
+            t.cleanup()
 
     def timerE(self, t):
         #print('timerE')
-- 
2.43.0


From 147422eadf3c6196d2051d72e990d8daadd6f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:20 +0000
Subject: [PATCH 065/104] fix: a response that cannot be acknowledged or acted
 upon broke the transaction

---
 sippy/SipTransactionManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 23f0868..9295154 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -298,6 +298,12 @@ class SipTransactionManager(object):
             try:
                 resp = SipResponse(data)
                 tid = resp.getTId(True, True)
+                resp.getHFBody('to')
+                if 200 <= resp.getSCode()[0] < 400 and resp.getHFBody('cseq').method == 'INVITE':
+                    # Needed to acknowledge the response and to act upon it
+                    if any(c.asterisk for c in resp.getHFBodys('contact')):
+                        raise ValueError('wildcard Contact in the response')
+                    resp.getHFBodys('record-route')
             except Exception as exception:
                 dump_exception(f'can\'t parse SIP response from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
-- 
2.43.0


From af9b772cb965223309205fc096b0242f5888cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:20 +0000
Subject: [PATCH 066/104] fix: a request with an unreadable To header was
 processed half way

---
 sippy/SipTransactionManager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 9295154..9c32739 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -337,6 +337,7 @@ class SipTransactionManager(object):
             try:
                 req = SipRequest(data)
                 tids = req.getTIds()
+                req.getHFBody('to')
             except Exception as exception:
                 if isinstance(exception, SipParseError):
                     resp = exception.sip_response
-- 
2.43.0


From c44409b4b2be668ab1f0aacef4d4f537c52d7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:20 +0000
Subject: [PATCH 067/104] fix: a call that failed to start left its leg and
 controller behind

---
 sippy/UA.py    | 14 +++++++++++++-
 sippy/b2bua.py |  3 +--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index ff6e1e5..c055417 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -186,7 +186,19 @@ class UA(object):
                 self.changeState((UasStateIdle,))
             else:
                 return None
-        newstate = self.state.recvRequest(req)
+        try:
+            newstate = self.state.recvRequest(req)
+        except Exception:
+            if isinstance(self.state, UasStateIdle):
+                # The call has failed to start, don't leave it behind
+                if self.no_progress_timer != None:
+                    self.no_progress_timer.cancel()
+                    self.no_progress_timer = None
+                if self.expire_timer != None:
+                    self.expire_timer.cancel()
+                    self.expire_timer = None
+                self.changeState((self.UaStateFailed, self.fail_cbs, req.rtime, self.origin, 0))
+            raise
         if newstate != None:
             self.changeState(newstate)
         self.emitPendingEvents()
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 97c390b..09ca05a 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -522,9 +522,8 @@ class CallMap(object):
                 self.global_config['_pre_auth_proc'](cc, req)
 
             cc.challenge = challenge
-            rval = cc.uaA.recvRequest(req, sip_t)
             self.ccmap.append(cc)
-            return rval
+            return cc.uaA.recvRequest(req, sip_t)
         if self.proxy != None and req.getMethod() in ('REGISTER', 'SUBSCRIBE'):
             return self.proxy.recvRequest(req)
         if req.getMethod() in ('NOTIFY', 'PING'):
-- 
2.43.0


From 0467be704723f75297afbf0e54193cbaae4e80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:20 +0000
Subject: [PATCH 068/104] fix: an unreadable challenge left the call waiting
 for ever

---
 sippy/UA.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index c055417..8828a3d 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -26,6 +26,7 @@
 
 from secrets import token_hex
 
+from sippy.Core.Exceptions import dump_exception
 from sippy.SipHeader import SipHeader
 from sippy.UasStateIdle import UasStateIdle
 from sippy.UacStateIdle import UacStateIdle
@@ -211,7 +212,12 @@ class UA(object):
         if self.username == None or self.password == None or \
           self.reqs[cseq].countHFs(auth_hfname) != 0:
             return False
-        for challenge in resp.getHFBodys(ch_hfname):
+        try:
+            challenges = resp.getHFBodys(ch_hfname)
+        except Exception:
+            dump_exception('can\'t parse challenge')
+            return False
+        for challenge in challenges:
             #print(self.processChallenge, cseq, challenge, challenge.algorithm)
             if self.auth_enalgs is not None and challenge.algorithm not in self.auth_enalgs:
                 continue
-- 
2.43.0


From 208cdd121f514da363f731fc649b17bfba100e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:21 +0000
Subject: [PATCH 069/104] fix: an unreadable Also or Refer-To header left the
 leg half way

---
 sippy/UaStateConnected.py | 2 +-
 sippy/UaStateGeneric.py   | 6 +++++-
 sippy/UasStateUpdating.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index b91d283..f7a6a0b 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -56,8 +56,8 @@ class UaStateConnected(UaStateGeneric):
         if req.countHFs('refer-to') == 0:
             req.sendResponse(400, 'Bad Request')
             return None
-        req.sendResponse(202, 'Accepted')
         also = req.getHFBody('refer-to').getCopy()
+        req.sendResponse(202, 'Accepted')
         self.ua.equeue.append(CCEventDisconnect(also, rtime = req.rtime, origin = self.ua.origin))
         self.ua.recvEvent(CCEventDisconnect(rtime = req.rtime, origin = self.ua.origin))
         return None
diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 6b553cd..c9ce2f5 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -24,6 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from sippy.Core.Exceptions import dump_exception
 from sippy.CCEvents import CCEventDisconnect
 
 class UaStateGeneric(object):
@@ -54,7 +55,10 @@ class UaStateGeneric(object):
 
     def _getRequestAlso(self, req):
         if req.countHFs('also') > 0:
-            return req.getHFBody('also').getCopy()
+            try:
+                return req.getHFBody('also').getCopy()
+            except Exception:
+                dump_exception('can\'t parse Also header')
         return None
 
     def _disconnectFromRequest(self, req, also = None, copy_reason = True):
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 8778e37..7aa1ad0 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -46,9 +46,9 @@ class UasStateUpdating(UasStateGeneric):
         if req.countHFs('refer-to') == 0:
             req.sendResponse(400, 'Bad Request')
             return None
+        also = req.getHFBody('refer-to').getCopy()
         self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
-        also = req.getHFBody('refer-to').getCopy()
         self.ua.newTransaction(self.ua.genRequest('BYE'))
         self.ua.cancelCreditTimer()
         return self._disconnectFromRequest(req, also, copy_reason = False)
-- 
2.43.0


From 92ddb0b5626352c167856fd57ec64ac3c4f1f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:21 +0000
Subject: [PATCH 070/104] fix: media refused in an ACK left the call without
 its timers

---
 sippy/UaStateConnected.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index f7a6a0b..0564320 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -140,7 +140,12 @@ class UaStateConnected(UaStateGeneric):
             callback(self.ua, req.rtime, self.ua.origin)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors:
+                    # There is no way to refuse an ACK, so that end the call
+                    self.ua.disconnect(rtime = req.rtime)
+                    return None
                 if body is None:
                     return None
             self.ua.rSDP = body.getCopy()
-- 
2.43.0


From ea83bbd90e96a6f5be7aff269023cd94826f7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 071/104] fix: hand back a description with no media the relay
 can carry

---
 sippy/Rtp_proxy/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..618ba50 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -166,10 +166,10 @@ class Rtp_proxy_session(object):
         self.rtpp_seq.delete()
 
     def on_caller_sdp_change(self, sdp_body, result_callback):
-        self.caller._on_sdp_change(self, sdp_body, result_callback)
+        return self.caller._on_sdp_change(self, sdp_body, result_callback)
 
     def on_callee_sdp_change(self, sdp_body, result_callback):
-        self.callee._on_sdp_change(self, sdp_body, result_callback)
+        return self.callee._on_sdp_change(self, sdp_body, result_callback)
 
     def stats(self, result_callback, index = 0, *callback_parameters):
         command = 'Q %s %s %s' % ('%s-%d' % (self.call_id, index), self.from_tag, self.to_tag)
-- 
2.43.0


From 67792add168d947fc93706b584dd49d6b8ee6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 072/104] fix: report an unreadable reply of the relay as a
 failed update

---
 sippy/Rtp_proxy/Session/update.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 078841d..61bcc90 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -47,6 +47,10 @@ class update_params():
         result = result.rstrip()
         t0 = result.split('&&', 1)
         t1 = t0[0].split()
+        if len(t1) == 0:
+            ex = RtpProxyError('RTPProxy errored: empty reply')
+            self.result_callback(None, self.rtpps, ex=ex)
+            return
         if t1[0][0] == 'E':
             ex = RtpProxyError(f'RTPProxy errored: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
@@ -84,8 +88,11 @@ class update_params():
                 subc_ress = subc_ress[len(subc.commands):]
                 if len(subc_ress) == 0:
                     break
-        ur.rtpproxy_port = int(t1[0])
-        if ur.rtpproxy_port == 0:
+        try:
+            ur.rtpproxy_port = int(t1[0])
+        except ValueError:
+            ur.rtpproxy_port = 0
+        if ur.rtpproxy_port <= 0:
             ex = RtpProxyError(f'RTPProxy errored: bad port: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
             return None
-- 
2.43.0


From ec47d7bb7d5caede4acd02cdd0772d8514031689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 073/104] fix: do not fail on a reply with no address that
 comes after the media session is deleted

---
 sippy/Rtp_proxy/Session/update.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 61bcc90..2a67be0 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -102,7 +102,12 @@ class update_params():
             if len(t1) > 2 and t1[2] == '6':
                 ur.family = 'IP6'
         else:
-            ur.rtpproxy_address = self.rtpps.rtp_proxy_client.proxy_address
+            rtp_proxy_client = self.rtpps.rtp_proxy_client
+            if rtp_proxy_client is None:
+                ex = RtpProxyError('RTPProxy errored: the session has been deleted')
+                self.result_callback(None, self.rtpps, ex=ex)
+                return None
+            ur.rtpproxy_address = rtp_proxy_client.proxy_address
         # Old-style request to put session on hold, convert it into
         # a new-style request.
         if self.atype == 'IP4' and self.remote_ip == '0.0.0.0':
-- 
2.43.0


From 8b76b603a85f657837782dc3283d59de884ce4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 074/104] fix: do not fail on DTLS attributes with no value

---
 sippy/Rtp_proxy/Session/subcommand.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/subcommand.py b/sippy/Rtp_proxy/Session/subcommand.py
index 7ba494d..5ced8e5 100644
--- a/sippy/Rtp_proxy/Session/subcommand.py
+++ b/sippy/Rtp_proxy/Session/subcommand.py
@@ -92,6 +92,8 @@ class subcommand_dedtls(subcommand):
             raise SdpParseError('Missing DTLS connection mode parameter')
         if 'fingerprint' not in adict:
             raise SdpParseError('Missing DTLS fingerprint parameter')
+        if adict['fingerprint'] is None:
+            raise SdpParseError('Bad DTLS fingerprint parameter')
         asetup = adict['setup']
         if asetup in ('active', 'actpass'):
             s_dtls = f'{self.i_mod} A'
@@ -100,9 +102,9 @@ class subcommand_dedtls(subcommand):
         else:
             raise SdpParseError(F'Unknown connection mode: "{asetup}"')
         s_dtls += F' {adict["fingerprint"]}'
-        if 'ssrc' in adict:
-            ssrc = adict['ssrc'].split(None, 1)[0]
-            s_dtls += F' {ssrc}'
+        ssrc = (adict.get('ssrc') or '').split(None, 1)
+        if len(ssrc) > 0:
+            s_dtls += F' {ssrc[0]}'
         super().__init__(s_dtls)
 
     def handle_results(self, results, ur):
-- 
2.43.0


From d16a93fa14952c03f890d4b29bc02604b9ffe41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 075/104] fix: skip ICE candidates and sources that are cut
 short

---
 sippy/Rtp_proxy/Session/subcommand_ice.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/subcommand_ice.py b/sippy/Rtp_proxy/Session/subcommand_ice.py
index 025876f..6eb3289 100644
--- a/sippy/Rtp_proxy/Session/subcommand_ice.py
+++ b/sippy/Rtp_proxy/Session/subcommand_ice.py
@@ -73,13 +73,13 @@ class subcommand_deice(subcommand):
         adict = dict([(x.name, x.value) for x in sect.a_headers
                         if x.name in ICE_ATTRS])
         for rattr in ('ice-ufrag', 'ice-pwd'):
-            if rattr not in adict:
+            if adict.get(rattr) is None:
                 raise SdpParseError(f'Missing ICE {rattr} parameter')
         super().__init__(f'{self.i_mod} A {adict["ice-ufrag"]} {adict["ice-pwd"]}')
         for cand in (x.value for x in sect.a_headers
                         if x.name == 'candidate'):
-            pts = cand.split(None, 4)
-            if pts[2].lower() != 'udp':
+            pts = cand.split(None, 4) if cand is not None else ()
+            if len(pts) < 5 or pts[2].lower() != 'udp':
                 continue
             if pts[4].startswith('192.') and not pts[4].startswith('192.168.'):
                 # Carrier-grade NAT garbage
@@ -96,6 +96,6 @@ class subcommand_deice(subcommand):
     def sdp_sect_fin(self, sdp_bc, sect):
         self._sdp_attrs_rm(sdp_bc, sect, ICE_ATTRS_RM)
         for a in [a for a in sect.a_headers if a.name == 'ssrc']:
-            ssrc, attr = a.value.split(None, 1)
-            if not attr.lower().startswith('msid:'): continue
+            pts = a.value.split(None, 1) if a.value is not None else ()
+            if len(pts) < 2 or not pts[1].lower().startswith('msid:'): continue
             sect.a_headers.remove(a)
-- 
2.43.0


From 7bcfc431ddb7575a88f25f282f186a95b2be00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 076/104] fix: set up the missing stream for copying in the
 right media session

---
 sippy/Rtp_proxy/Session/side.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..a55dedc 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -249,7 +249,7 @@ class _rtpps_side(object):
     def _copy(self, rtpps, remote_ip, remote_port, result_callback = None, index = 0):
         if not self.session_exists:
             up = update_params()
-            up.rtpps = self
+            up.rtpps = rtpps
             up.index = index
             up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
             self.update(up)
-- 
2.43.0


From bf18b108635cb880464cc54191ebbaf6ae68e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 077/104] fix: report a failure to set up the stream for
 playing and copying

---
 sippy/Rtp_proxy/Session/side.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index a55dedc..ad8c864 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -118,6 +118,13 @@ class _rtpps_side(object):
         ur = up.process_rtpp_result(result)
         self.rinfo_hst.append(ur)
 
+    def __stream_ready(self, result_callback, next_stage, result, rtpps, ex:Exception = None):
+        if result is None:
+            if result_callback is not None:
+                result_callback(None)
+            return
+        next_stage(result, rtpps)
+
     def __play(self, prompt_name, times, result_callback, index, result, rtpps):
         from_tag, to_tag = self.gettags(rtpps)
         command = 'P%d %s %s %s %s %s' % (times, '%s-%d' % (rtpps.call_id, index), prompt_name, self.codecs, from_tag, to_tag)
@@ -132,7 +139,8 @@ class _rtpps_side(object):
             up = update_params()
             up.rtpps = rtpps
             up.index = index
-            up.result_callback = partial(self.__play, prompt_name, times, result_callback, index)
+            up.result_callback = partial(self.__stream_ready, result_callback,
+              partial(self.__play, prompt_name, times, result_callback, index))
             otherside.update(up)
             return
         self.__play(prompt_name, times, result_callback, index, None, rtpps)
@@ -251,7 +259,8 @@ class _rtpps_side(object):
             up = update_params()
             up.rtpps = rtpps
             up.index = index
-            up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
+            up.result_callback = partial(self.__stream_ready, result_callback,
+              partial(self.__copy, remote_ip, remote_port, result_callback, index))
             self.update(up)
             return
         self.__copy(remote_ip, remote_port, result_callback, index, None, rtpps)
-- 
2.43.0


From 273753132b419403930757bf5e03aefd9f12b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 078/104] fix: do not post a missing callback when there is
 nothing to play to

---
 sippy/Rtp_proxy/Session/side.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index ad8c864..a8b9366 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -132,7 +132,8 @@ class _rtpps_side(object):
 
     def _play(self, rtpps, prompt_name, times = 1, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         otherside = self.getother(rtpps)
         if not otherside.session_exists:
@@ -147,7 +148,8 @@ class _rtpps_side(object):
 
     def _stop_play(self, rtpps, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'S %s %s %s' % ('%s-%d' % (rtpps.call_id, index), from_tag, to_tag)
-- 
2.43.0


From 4f06846e25f3054e29092cac0879a7e9fae97758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 079/104] fix: start recording with no flags and no callback,
 report its failure

---
 sippy/Rtp_proxy/session.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 618ba50..b9951da 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -118,6 +118,8 @@ class Rtp_proxy_session(object):
         return self.callee._copy(self, remote_ip, remote_port, result_callback, index)
 
     def start_recording(self, rname=None, result_callback=None, index=0, rflags=None, only_a=False):
+        if rflags is None:
+            rflags = ''
         def make_command(side):
             t1 = self.from_tag if side == 'a' else self.to_tag
             t2 = self.to_tag if side == 'a' else self.from_tag
@@ -137,15 +139,19 @@ class Rtp_proxy_session(object):
             return
         first_stage(result='dummy', rtpps=None)
 
-    def _start_recording_a(self, make_command, next_stage, result, rtpps):
+    def _start_recording_a(self, make_command, next_stage, result, rtpps, ex=None):
         if result is None:
-            return next_stage(None)
+            if next_stage is not None:
+                next_stage(None)
+            return
         command = make_command('a')
         return self.rtpp_seq.send_command(command, next_stage)
 
     def _start_recording_o(self, make_command, result_callback, result):
         if result is None:
-            return result_callback(None)
+            if result_callback is not None:
+                result_callback(None)
+            return
         command = make_command('o')
         return self.rtpp_seq.send_command(command, result_callback)
 
-- 
2.43.0


From d96ff70b58254c07a34124f76bf324587074a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 080/104] fix: report missing and unreadable statistics of a
 media session

---
 sippy/Rtp_proxy/session.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index b9951da..88aae42 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -182,12 +182,12 @@ class Rtp_proxy_session(object):
         self.rtp_proxy_client.send_command(command, self.stats_result, (result_callback, callback_parameters))
 
     def stats_result(self, result, args, ex=None):
-        t1 = result.split()
         result_callback, callback_parameters = args
-        if len(t1) == 1:
+        try:
+            ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in result.split()]
+        except (AttributeError, ValueError):
             result_callback(None, *callback_parameters)
             return
-        ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in t1]
         result_callback((ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount), *callback_parameters)
 
     def __del__(self):
-- 
2.43.0


From cd866a14a88921cff92dc1d3e5d2462dcfad278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 081/104] fix: do not lose the outcome of a relay command when
 its reply is refused by the clock check

---
 sippy/Rtp_proxy/Client/udp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Client/udp.py b/sippy/Rtp_proxy/Client/udp.py
index 7d690cb..de65b73 100644
--- a/sippy/Rtp_proxy/Client/udp.py
+++ b/sippy/Rtp_proxy/Client/udp.py
@@ -143,10 +143,9 @@ class Rtp_proxy_client_udp(Rtp_proxy_client_net):
             print('Rtp_proxy_client_udp.process_reply(): invalid response from %s: "%s"' % \
               (str(address), data))
             return
-        preq = self.pending_requests.pop(cookie, None)
+        preq = self.pending_requests.get(cookie, None)
         if preq == None:
             return
-        preq.timer.cancel()
         if rtime <= preq.stime:
             # MonoTime as the name suggests is supposed to be monotonic,
             # so if we get response earlier than request went out something
@@ -155,6 +154,8 @@ class Rtp_proxy_client_udp(Rtp_proxy_client_net):
             raise AssertionError('cookie=%s: MonoTime stale/went' \
               ' backwards (%f <= %f, now=%f)' % (cookie, rtime.monot, \
               preq.stime.monot, rtime_fix.monot))
+        del self.pending_requests[cookie]
+        preq.timer.cancel()
         if preq.result_callback != None:
             preq.result_callback(result.strip(), *preq.callback_parameters)
 
-- 
2.43.0


From 114dac023221b63b7f298285ace2e02a9f8d8a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:48 +0000
Subject: [PATCH 082/104] fix: keep checking a relay whose statistics are
 unreadable

---
 sippy/Rtp_proxy/client.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 59c79fd..57fdc9c 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -238,16 +238,20 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
             sessions_created = active_sessions = active_streams = preceived = ptransmitted = 0
             for line in stats.splitlines():
                 line_parts = line.split(':', 1)
-                if line_parts[0] == 'sessions created':
-                    sessions_created = int(line_parts[1])
-                elif line_parts[0] == 'active sessions':
-                    active_sessions = int(line_parts[1])
-                elif line_parts[0] == 'active streams':
-                    active_streams = int(line_parts[1])
-                elif line_parts[0] == 'packets received':
-                    preceived = int(line_parts[1])
-                elif line_parts[0] == 'packets transmitted':
-                    ptransmitted = int(line_parts[1])
+                try:
+                    if line_parts[0] == 'sessions created':
+                        sessions_created = int(line_parts[1])
+                    elif line_parts[0] == 'active sessions':
+                        active_sessions = int(line_parts[1])
+                    elif line_parts[0] == 'active streams':
+                        active_streams = int(line_parts[1])
+                    elif line_parts[0] == 'packets received':
+                        preceived = int(line_parts[1])
+                    elif line_parts[0] == 'packets transmitted':
+                        ptransmitted = int(line_parts[1])
+                except (IndexError, ValueError):
+                    # not a number, leave it out
+                    pass
                 self.update_active(active_sessions, sessions_created, active_streams, preceived, ptransmitted)
         to = TimeoutInact(self.heartbeat, self.hrtb_ival)
         to.spread_runs(0.1)
-- 
2.43.0


From 565d88ad33fdefaf5043aa20b8021e834df48978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:21 +0000
Subject: [PATCH 083/104] fix: keep quotes and line ends of a caller out of the
 requests to the radius client

---
 sippy/Radius_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index c1b0153..f97b9fb 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -36,6 +36,8 @@ class Radius_client(External_command):
       'h323-call-type', 'h323-connect-time', 'h323-disconnect-time', 'h323-disconnect-cause', \
       'h323-voice-quality', 'h323-credit-time', 'h323-return-code', 'h323-redirect-number', \
       'h323-preferred-lang', 'h323-billing-model', 'h323-currency')
+    # The radius client has no way to escape quotes and line ends in a value
+    _unsafe_chars = dict([(x, '%%%02X' % x) for x in (*range(0x20), 0x22, 0x7f)])
 
     def __init__(self, global_config = {}):
         self.global_config = global_config
@@ -55,7 +57,7 @@ class Radius_client(External_command):
                 a = 'Cisco-AVPair'
             elif a in self._cisco_vsa_names:
                 v = '%s=%s' % (str(a), str(v))
-            data.append('%s="%s"' % (str(a), str(v)))
+            data.append('%s="%s"' % (str(a).translate(self._unsafe_chars), str(v).translate(self._unsafe_chars)))
         return data
 
     def do_auth(self, attributes, result_callback, *callback_parameters):
-- 
2.43.0


From 24b7663cc679fe8405337f1b67a97594dcf0959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:21 +0000
Subject: [PATCH 084/104] fix: keep spaces of a Call-ID out of the commands to
 the RTP proxy

---
 sippy/Rtp_proxy/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 88aae42..3d24378 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -76,7 +76,8 @@ class Rtp_proxy_session(object):
                 raise RtpProxyError('No online RTP proxy client has been found')
         self.rtpp_seq = Rtp_proxy_cmd_sequencer(self.rtp_proxy_client)
         if call_id != None:
-            self.call_id = call_id
+            # Space separates the arguments of a command
+            self.call_id = '%20'.join(str(call_id).split())
         else:
             self.call_id = token_hex(16)
         if from_tag != None:
-- 
2.43.0


From 508acc7d5ea4b72914cf175531b365ea349c0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:36 +0000
Subject: [PATCH 085/104] fix: keep attributes of a description from adding
 commands to the RTP proxy

---
 sippy/Rtp_proxy/Session/subcommand.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/subcommand.py b/sippy/Rtp_proxy/Session/subcommand.py
index 5ced8e5..164df82 100644
--- a/sippy/Rtp_proxy/Session/subcommand.py
+++ b/sippy/Rtp_proxy/Session/subcommand.py
@@ -36,9 +36,12 @@ class subcommand():
     mod_2_i_mod = {'dtls_gw':'M4:1', 'ice_lite':'M5:1'}
     commands: list
     def __init__(self, cmd):
-        self.commands = [cmd,]
+        self.commands = []
+        self.append(cmd)
 
     def append(self, command):
+        if '&&' in command.split():
+            raise SdpParseError(f'Bad {self.name} parameters')
         self.commands.append(command)
 
     def handle_results(self, results, ur):
@@ -92,7 +95,7 @@ class subcommand_dedtls(subcommand):
             raise SdpParseError('Missing DTLS connection mode parameter')
         if 'fingerprint' not in adict:
             raise SdpParseError('Missing DTLS fingerprint parameter')
-        if adict['fingerprint'] is None:
+        if adict['fingerprint'] is None or len(adict['fingerprint'].split()) != 2:
             raise SdpParseError('Bad DTLS fingerprint parameter')
         asetup = adict['setup']
         if asetup in ('active', 'actpass'):
-- 
2.43.0


From 48d10cdedf52f49fbcd2383bbba1717955105fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:36 +0000
Subject: [PATCH 086/104] fix: refuse ICE parameters that are not one word

---
 sippy/Rtp_proxy/Session/subcommand_ice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/subcommand_ice.py b/sippy/Rtp_proxy/Session/subcommand_ice.py
index 6eb3289..cdb0efe 100644
--- a/sippy/Rtp_proxy/Session/subcommand_ice.py
+++ b/sippy/Rtp_proxy/Session/subcommand_ice.py
@@ -73,7 +73,7 @@ class subcommand_deice(subcommand):
         adict = dict([(x.name, x.value) for x in sect.a_headers
                         if x.name in ICE_ATTRS])
         for rattr in ('ice-ufrag', 'ice-pwd'):
-            if adict.get(rattr) is None:
+            if adict.get(rattr) is None or len(adict[rattr].split()) != 1:
                 raise SdpParseError(f'Missing ICE {rattr} parameter')
         super().__init__(f'{self.i_mod} A {adict["ice-ufrag"]} {adict["ice-pwd"]}')
         for cand in (x.value for x in sect.a_headers
-- 
2.43.0


From 108440a00ea5fae7b49227cf7bb617caaa4fb9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:36 +0000
Subject: [PATCH 087/104] fix: keep the address of a description from adding a
 command to the RTP proxy

---
 sippy/Rtp_proxy/Session/side.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index a8b9366..c1ee6a0 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -182,6 +182,8 @@ class _rtpps_side(object):
         else:
             options = ''
         otherside = self.getother(rtpps)
+        if '&&' in [sect.c_header.addr for sect in sects]:
+            raise SdpParseError('Bad media address')
         for si, sect in enumerate(sects):
             if sect.c_header.atype == 'IP6':
                 sect_options = '6' + options
-- 
2.43.0


From 1332183ddc72368b4c1998823f87958d9250e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:36 +0000
Subject: [PATCH 088/104] fix: keep line ends in the names of the parties from
 breaking the list of calls

---
 sippy/B2B/SimpleAPI.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index c3783f4..80c1b0f 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -28,6 +28,7 @@ from .States import CCStateConnected, CCStateARComplete
 
 class B2BSimpleAPI(CLIConnectionManager):
     global_config = None
+    _unsafe_chars = dict([(x, '%%%02X' % x) for x in (*range(0x20), 0x7f)])
 
     def __init__(self, global_config):
         cmdfile = global_config['b2bua_socket']
@@ -44,6 +45,9 @@ class B2BSimpleAPI(CLIConnectionManager):
                 cmdfile = cmdfile[5:]
             super().__init__(self.recvCommand, cmdfile)
 
+    def one_line(self, name):
+        return str(name).translate(self._unsafe_chars)
+
     def recvCommand(self, clim, cmd):
         ccm = self.global_config['_cmap']
         args = cmd.split()
@@ -61,12 +65,12 @@ class B2BSimpleAPI(CLIConnectionManager):
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
-                    res += f'{_s} {_t}:{_h}:{_p} {_cld} {_cli} -> '
+                    res += f'{_s} {_t}:{_h}:{_p} {self.one_line(_cld)} {self.one_line(_cli)} -> '
                 else:
                     res += 'N/A -> '
                 if uaost is not None:
                     _s, _t, _h, _p, _cld, _cli = uaost
-                    res += f'{_s} {_t}:{_h}:{_p} {_cld} {_cli})\n'
+                    res += f'{_s} {_t}:{_h}:{_p} {self.one_line(_cld)} {self.one_line(_cli)})\n'
                 else:
                     res += 'N/A)\n'
                 total += 1
-- 
2.43.0


From ffec2938c2b47d4104981bb80f8c167aa9cdd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:26 +0000
Subject: [PATCH 089/104] fix: ignore rtpmap attributes with no usable number
 or name

---
 sippy/SdpMediaDescription.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index d47b4e4..1102f8c 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -115,8 +115,15 @@ class SdpMediaDescription(object):
 
     def getPTbyName(self, name):
         for ah in self.a_headers:
-            if ah.name == 'rtpmap' and ah.value.split(' ', 1)[1] == name:
-                return int(ah.value.split(' ', 1)[0])
+            if ah.name != 'rtpmap' or ah.value is None:
+                continue
+            pt, _, aname = ah.value.partition(' ')
+            if aname != name:
+                continue
+            try:
+                return int(pt)
+            except ValueError:
+                continue
         return None
 
     def optimize_a(self):
-- 
2.43.0


From a09ce8e0a177006c515aa1652d6add28b97a66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:26 +0000
Subject: [PATCH 090/104] fix: keep the description of formats of media other
 than audio and video

---
 sippy/SdpMediaDescription.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index 1102f8c..788314e 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -127,13 +127,14 @@ class SdpMediaDescription(object):
         return None
 
     def optimize_a(self):
+        formats = [str(x) for x in self.m_header.formats]
         for ah in [x for x in self.a_headers if x.name in ('rtpmap', 'fmtp') and \
           x.value is not None]:
             try:
                 pt = int(ah.value.split(' ', 1)[0])
             except ValueError:
                 continue
-            if pt in self.m_header.formats:
+            if str(pt) in formats:
                 continue
             self.a_headers.remove(ah)
 
-- 
2.43.0


From 5dd0f4e98fd501ccecd82afa96bbba784f5bc942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:26 +0000
Subject: [PATCH 091/104] fix: let allowed formats of RTP media other than
 audio and video through

---
 sippy/b2bua.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 09ca05a..1139930 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -155,7 +155,9 @@ class CallController(object):
                 continue
             old_len = len(mbody.formats)
             _allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]
-            mbody.formats = [x for x in mbody.formats if x in _allowed_pts]
+            # Formats are numbers in audio and video only
+            _allowed_pts = [str(x) for x in _allowed_pts if x is not None]
+            mbody.formats = [x for x in mbody.formats if str(x) in _allowed_pts]
             if len(mbody.formats) == 0:
                 raise SdpParseError('offered media prohibited by the policy')
             if old_len > len(mbody.formats):
-- 
2.43.0


From 6077ae3ade8c5d9bcdc6ceb1f43a60ae43ae4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:26 +0000
Subject: [PATCH 092/104] fix: do not fail on a body that is no media
 description when formats are restricted

---
 sippy/b2bua.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 1139930..daa6d3f 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,8 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.SdpBody import SdpBody
+from sippy.MultipartMixBody import MultipartMixBody
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
   CCStateConnected, CCStateDead, CCStateDisconnecting
@@ -149,7 +151,11 @@ class CallController(object):
                 dump_exception('can\'t parse SDP body', extra = body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
         allowed_pts = self.global_config['_allowed_pts']
-        for sect in body.content.sections:
+        if isinstance(body.content, MultipartMixBody):
+            raise SdpParseError('Unsupported media description')
+        # There is nothing to filter in a body of any other type
+        sections = body.content.sections if isinstance(body.content, SdpBody) else ()
+        for sect in sections:
             mbody = sect.m_header
             if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:
                 continue
-- 
2.43.0


From e4e22c655c4605d2c0cd676850bb161af4254914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:26 +0000
Subject: [PATCH 093/104] fix: refuse a body of several parts properly when the
 media are relayed

---
 sippy/Rtp_proxy/Session/side.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index c1ee6a0..72ab736 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -27,6 +27,7 @@
 from functools import partial
 
 from sippy.SdpOrigin import SdpOrigin
+from sippy.MultipartMixBody import MultipartMixBody
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
 from sippy.Exceptions.SdpParseError import SdpParseError
@@ -168,6 +169,8 @@ class _rtpps_side(object):
         if isinstance(sdp_bc, strtypes):
             sdp_body.needs_update = False
             return sdp_body
+        if isinstance(sdp_bc, MultipartMixBody):
+            raise SdpParseError('Unsupported media description')
         for i, sect in enumerate(sdp_bc.sections):
             if sect.m_header.transport.lower() not in rtpps.SUPPORTED_TRTYPES:
                 continue
-- 
2.43.0


From 58b577bfcddd81e4bb037aab40f752b12c80bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:28 +0000
Subject: [PATCH 094/104] fix: configuration file could not be read with Python
 3.12 (readfp is gone)

---
 sippy/MyConfigParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index df9dc61..efd62e4 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -161,7 +161,8 @@ class MyConfigParser(RawConfigParser):
         return tuple([x + '=' for x in SUPPORTED_OPTIONS.keys()])
 
     def read(self, fname):
-        RawConfigParser.readfp(self, open(fname))
+        with open(fname) as f:
+            self.read_file(f)
         for key in tuple(self.options(self._default_section)):
             self.check_and_set(key, RawConfigParser.get(self, \
               self._default_section, key), False)
-- 
2.43.0


From 881c92089c3e60b0f8347063c8ebc47df8500d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 095/104] fix: allow spaces around named formats in
 allowed_pts, as in the other lists

---
 sippy/MyConfigParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index efd62e4..5e5c965 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -207,7 +207,7 @@ class MyConfigParser(RawConfigParser):
                 raise ValueError('max_credit_time should be more than zero')
         elif key == 'allowed_pts':
             self['_allowed_pts'] = [int(x) if not (x.startswith('[') and x.endswith(']')) \
-                                           else x[1:-1] for x in value.split(',')]
+                                           else x[1:-1] for x in [y.strip() for y in value.split(',')]]
         elif key in ('accept_ips', 'rtp_proxy_clients'):
             self['_' + key] = [x.strip() for x in value.split(',')]
         elif key == 'pass_headers':
-- 
2.43.0


From 907841eaae93804d42d76140bc4f1b8de593bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 096/104] fix: headers given with -h are passed whatever their
 case, as with --pass_headers

---
 sippy/MyConfigParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index 5e5c965..cf06ebf 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -184,9 +184,9 @@ class MyConfigParser(RawConfigParser):
             elif key == 'pass_header':
                 # XXX compatibility option
                 if self.has_key('_pass_headers'):
-                    self['_pass_headers'].append(value)
+                    self['_pass_headers'].append(value.lower())
                 else:
-                    self['_pass_headers'] = [value,]
+                    self['_pass_headers'] = [value.lower(),]
                 if self.has_key('pass_headers'):
                     self['pass_headers'] += ',' + value
                 else:
-- 
2.43.0


From ca76f7573b6ca4643e3777896ce9a424bdb4a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 097/104] fix: do not start the UI when it is switched off
 (ui=off)

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index daa6d3f..9067b6f 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -832,7 +832,7 @@ def main_func():
     global_config['_sip_tm'] = stm
     global_config['_sip_tm'].nat_traversal = global_config.getdefault('nat_traversal', False)
 
-    if 'ui' in global_config:
+    if global_config.getdefault('ui', False):
         from sippy.UI.Controller import UIController
         global_config['_ui_controller'] = UIController(global_config)
 
-- 
2.43.0


From 4c32286a4ba9be547476eb51a4de0b6a4affd5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 098/104] fix: do not fail to start the UI when there are no
 parameters for it

---
 sippy/UI/Controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/UI/Controller.py b/sippy/UI/Controller.py
index 9ddeb08..357d7b0 100644
--- a/sippy/UI/Controller.py
+++ b/sippy/UI/Controller.py
@@ -64,8 +64,8 @@ class UIController(Thread):
     app_name:str
     customizer = None
     def __init__(self, global_config, app_name='Sippy B2BUA'):
-        uiparams = global_config['uiparams']
-        uiparams = dict(x.split('=', 1) for x in uiparams.split(';'))
+        uiparams = global_config.getdefault('uiparams', '')
+        uiparams = dict(x.split('=', 1) for x in uiparams.split(';') if x != '')
         if 'ssl_context' in uiparams:
             uiparams['ssl_context'] = tuple(uiparams['ssl_context'].split(','))
         self.global_config = global_config
-- 
2.43.0


From 040755f6c0e6fb179d7497586e33f2366659812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:41 +0000
Subject: [PATCH 099/104] fix: headers asked for by the name in the
 configuration (HDR2Xattrs) are found whatever case it is written in

---
 sippy/SipMsg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index c2b6cfb..9ca1c61 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -192,6 +192,7 @@ class SipMsg(object):
         return self.startline
 
     def getHFs(self, name):
+        name = name.lower()
         return [x for x in self.headers if x.name == name]
 
     def countHFs(self, name):
-- 
2.43.0


From df71d3504bf6211d05c23bd3f60ea7e556c61dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:56 +0000
Subject: [PATCH 100/104] fix: let the UI start where the SIPREC module is not
 there

---
 sippy/UI/Controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/UI/Controller.py b/sippy/UI/Controller.py
index 357d7b0..ef0aed6 100644
--- a/sippy/UI/Controller.py
+++ b/sippy/UI/Controller.py
@@ -33,7 +33,6 @@ from flask import Flask, jsonify, render_template, redirect, url_for, request
 from flask_login import LoginManager, current_user, login_user, login_required, logout_user
 
 from sippy.B2B.States import CCStateConnected
-from sippy.SIPRec.UAC import SIPRecUAC, SRSTarget
 from sippy.Exceptions.RtpProxyError import RtpProxyError
 
 from .SystemConfiguration import SystemConfiguration
@@ -148,6 +147,10 @@ class UIController(Thread):
 
     def startRecording(self, callid):
         print(f"Recording call {callid}")
+        try:
+            from sippy.SIPRec.UAC import SIPRecUAC, SRSTarget
+        except ImportError as e:
+            raise RecordingNotPossible("SIPREC is not available") from e
         dlist = self.getCallsById(callid)
         starget = self.global_config['_siprec_target']
         for cc in dlist:
-- 
2.43.0


From 8c72dd300d14f1585e05842e7faca63594b69a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:40 +0000
Subject: [PATCH 101/104] fix: registrations ask for the time they are to be
 kept for

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..5ee3d5a 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -58,7 +58,7 @@ class SipRegistrationAgent(object):
         fr0m.genTag()
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
-        contact.address.params['expires'] = str(exp)
+        contact.address.setParam('expires', str(exp))
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
-- 
2.43.0


From 7aa7047b76ba1fde45c091ea943ac2aa446dab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:40 +0000
Subject: [PATCH 102/104] fix: answer challenges of proxies to registrations in
 the header for proxies

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 5ee3d5a..319b66f 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -96,7 +96,7 @@ class SipRegistrationAgent(object):
             return
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
-                                 (407, 'proxy-authenticate', 'authorization')):
+                                 (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
                 if resp.countHFs(chn) == 0:
-- 
2.43.0


From 0d0ed86ce36c4a6ccf11275dde8f854c3f52dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:40 +0000
Subject: [PATCH 103/104] fix: keep a registration up whatever time for it the
 answer gives

---
 sippy/SipRegistrationAgent.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 319b66f..fe594a8 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -83,12 +83,14 @@ class SipRegistrationAgent(object):
             contact = None
             if resp.countHFs('contact') > 0:
                 contact = resp.getHFBody('contact')
-            if contact != None and 'expires' in contact.address.params:
-                tout = int(contact.address.params['expires'])
-            elif resp.countHFs('expires') > 0:
-                tout = resp.getHFBody('expires').getNum()
-            else:
-                tout = self.exp
+            tout = self.exp
+            try:
+                if contact != None and 'expires' in contact.address.params:
+                    tout = int(contact.address.params['expires'])
+                elif resp.countHFs('expires') > 0:
+                    tout = resp.getHFBody('expires').getNum()
+            except (TypeError, ValueError):
+                pass
             timer = Timeout(self.doregister, tout)
             if self.rok_cb != None:
                 self.rok_cb(timer.etime.realt, contact, self.cb_arg)
-- 
2.43.0


From dce3bcaf01599a1e0308d53b79f6693049be103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:02 +0000
Subject: [PATCH 104/104] fix: take the time a registration is kept for from
 its own binding

---
 sippy/SipRegistrationAgent.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index fe594a8..588d3c8 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -81,8 +81,16 @@ class SipRegistrationAgent(object):
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
             contact = None
-            if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
+            own = self.rmsg.getHFBody('contact').address.url
+            for c in resp.getHFBodys('contact'):
+                if c.asterisk:
+                    continue
+                url = c.address.url
+                if (url.username, url.host, url.port) == (own.username, own.host, own.port):
+                    contact = c
+                    break
+                if contact == None:
+                    contact = c
             tout = self.exp
             try:
                 if contact != None and 'expires' in contact.address.params:
-- 
2.43.0

