CALL = '''
from demolib import *
from sippy.UA import UA
from sippy.CCEvents import *
from sippy.MsgBody import MsgBody
from sippy.SipCallId import SipCallId
evs = []
def ev(e, ua): evs.append(str(e))
def mkuas(req, sip_t):
    global uas
    uas = UA(r.gc, event_cb = ev, disc_cbs=(dcb,), fail_cbs=(fcb,), conn_cbs=(ccb,))
    return uas.recvRequest(req, sip_t)
cbs = []
def dcb(*a): cbs.append('disc')
def fcb(*a): cbs.append('fail')
def ccb(*a): cbs.append('conn')
r = Rig(mkuas)
def mkuac(**k):
    ua = UA(r.gc, event_cb = ev, nh_address = ('10.0.0.2', 5060), disc_cbs=(dcb,), fail_cbs=(fcb,), conn_cbs=(ccb,), **k)
    ua.recvEvent(CCEventTry((SipCallId(), '100', '200', MsgBody(SDP % 1), None, 'nm')))
    return ua
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
'''
S = [
 ('leg-late-answer-no-bye', 'C02', [('UacStateCancelling.py', "            if resp.countHFs('contact') > 0:\n                self.ua.rTarget", "            if resp.countHFs('contact') == 0:\n                return (self.ua.UaStateDisconnected,)\n            else:\n                self.ua.rTarget")],
  'the call is cancelled while ringing and the peer answers with a 200 without Contact before seeing the CANCEL',
  'the answered dialog is left open on the wire: ACK but no BYE', CALL + '''
ua = mkuac(); o = r.out()[0]
r.rx(reply(o, 180)); ua.recvEvent(CCEventDisconnect()); r.out()
r.rx(reply(o, 200, body = SDP % 2, contact = None))
m = [line(x).split()[0] for x in r.out()]
if 'BYE' not in m: fail(m)
'''),
 ('leg-expire-timer-kept', 'C03', [('UacStateTrying.py', "        if self.ua.expire_timer != None:\n            self.ua.expire_timer.cancel()\n            self.ua.expire_timer = None\n        if code >= 200 and code < 300:\n            self.updateRoutes", "        if self.ua.expire_timer != None and (body is not None or code >= 300):\n            self.ua.expire_timer.cancel()\n            self.ua.expire_timer = None\n        if code >= 200 and code < 300:\n            self.updateRoutes")],
  'the call has an expire time and is answered, without ringing, by a 2xx without session description', 'the setup timer stays armed in an answered call and later cuts it', CALL + '''
ua = mkuac(expire_time = 20); o = r.out()[0]
r.rx(reply(o, 200))
if not ua.isConnected(): fail('not connected', ua.state)
r.out(); r.advance(60)
if not ua.isConnected(): fail('answered call cut by the setup timer', evs)
'''),
 ('leg-stale-event-drain', 'C05', [('UA.py', "                #print('ignoring out-of-order event', event, event.seq, self.elast_seq, self.cId)\n                continue\n", "                #print('ignoring out-of-order event', event, event.seq, self.elast_seq, self.cId)\n                break\n")],
  'a stale event is queued in front of a fresh one when the queue is drained', 'the fresh event is not delivered with its message', CALL + '''
ua = mkuac(); o = r.out()[0]
old = CCEventRing((180, 'X', None), origin = 'c')
ua.emitEvent(CCEventRing((180, 'X', None), origin = 'c'))
new = CCEventConnect((200, 'OK', None), origin = 'c')
del evs[:]
ua.equeue.append(old); ua.equeue.append(new)
ua.emitPendingEvents()
if evs != ['CCEventConnect']: fail(evs)
'''),
 ('leg-update-busy-unanswered', 'C04', [('UasStateUpdating.py', "        req.sendResponse(491, 'Request Pending')\n        return None\n", "        if self.ua.isYours(req) is None:\n            req.sendResponse(491, 'Request Pending')\n        return None\n")],
  'a second re-INVITE arrives inside the call while the first is still being handled', 'it is never answered', CALL + '''
r.rx(request('INVITE', body = SDP % 1)); o = r.out()
uas.recvEvent(CCEventConnect((200, 'OK', MsgBody(SDP % 5))))
ok = [x for x in r.out() if line(x).split()[1] == '200'][0]
tt = hdr(ok, 'To').split('tag=')[1]
r.rx(request('ACK', branch = 'z9hG4bKa', ttag = tt))
r.rx(request('INVITE', branch = 'z9hG4bKx2', ttag = tt, cseq = 2, body = SDP % 2)); r.out()
r.rx(request('INVITE', branch = 'z9hG4bKx3', ttag = tt, cseq = 3, body = SDP % 3))
m = [line(x).split()[1] for x in r.out()]
if '491' not in m: fail(m)
'''),
 ('leg-two-ends', 'C01', [('UacStateRinging.py', "                self.ua.equeue.append(event)\n                self.genBYE()", "                self.ua.equeue.append(event)\n                self.ua.equeue.append(CCEventDisconnect(rtime = resp.rtime, origin = self.ua.origin))\n                self.genBYE()")],
  'the ringing peer answers with a 200 that has no To tag', 'the controller is told twice that the leg has ended', CALL + '''
ua = mkuac(); o = r.out()[0]
r.rx(reply(o, 180)); del evs[:]
r.rx(reply(o, 200, body = SDP % 2, ttag = None))
if len([e for e in evs if e in ('CCEventFail', 'CCEventDisconnect')]) != 1: fail(evs)
'''),
 ('leg-dead-not-released', 'C08', [('UaStateDead.py', "        if ua.cId != None:\n            ua.global", "        if ua.cId != None and ua.connect_ts is not None:\n            ua.global")],
  'a call that was never answered ends and its release time passes', 'the finished leg stays registered for its Call-ID for ever', CALL + '''
ua = mkuac(); o = r.out()[0]
r.rx(reply(o, 486, 'Busy')); r.advance(100)
if str(ua.state) != 'Dead': fail(ua.state)
if len(r.tm.req_consumers) != 0: fail('still registered', r.tm.req_consumers)
'''),
 ('leg-media-refused-silent', 'T07', [('UacStateTrying.py', "from sippy.Exceptions.SdpParseError import SdpHandlingErrors\n", "from sippy.Exceptions.SdpParseError import SdpParseError\n"),
   ('UacStateTrying.py', "        except SdpHandlingErrors as ex:", "        except SdpParseError as ex:")],
  'the media proxy refuses the session description of the answer to an outgoing call', 'the answered call is acknowledged and then left open, the caller never learns', CALL + '''
from sippy.Exceptions.RtpProxyError import RtpProxyError
def refuse(*a, **k): raise RtpProxyError('no ports')
ua = mkuac(); o = r.out()[0]
ua.on_remote_sdp_change = refuse
r.rx(reply(o, 200, body = SDP % 2))
m = [line(x).split()[0] for x in r.out()]
if 'BYE' not in m: fail(m)
if 'CCEventFail' not in evs: fail(evs)
'''),
]
