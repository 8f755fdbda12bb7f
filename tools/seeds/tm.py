B = '''
from demolib import *
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
got = []
def cb(req, t):
    got.append(req.getMethod())
    return (req.genResponse(*CODE), None, None) if CODE else (None, None, None)
CODE = (200, 'OK')
r = Rig(cb)
'''
F = 'SipTransactionManager.py'
S = [
 ('tm-purge-drops-answers', 'T02', [(F, "        self.l2rcache = self.l1rcache\n        self.l1rcache = {}", "        self.l2rcache = dict([(k, v) for k, v in self.l1rcache.items() if v.data is None])\n        self.l1rcache = {}")],
  'the cache is rotated between a non-INVITE request and its retransmission', 'the retransmission is executed again', B + '''
m = request('OPTIONS')
r.rx(m); a = r.out(); r.advance(32.5); r.out(); r.rx(m); b = r.out()
if got != ['OPTIONS'] or a != b: fail(got, a, b)
'''),
 ('tm-cancel-after-provisional', 'T04', [(F, "                if t.state in (TRYING, RINGING):\n                    self.doCancel", "                if t.state == TRYING or (t.state == RINGING and t.teF != None):\n                    self.doCancel")],
  'an INVITE is cancelled after a provisional response went out and provisional retransmission is off', 'the INVITE is not answered 487 and the application not told', B + '''
CODE = (180, 'Ringing')
r.rx(request('INVITE', body = SDP % 1)); r.out()
r.rx(request('CANCEL', cmeth = 'CANCEL'))
m = [line(x) for x in r.out()]
if not [x for x in m if ' 487 ' in x]: fail(m)
'''),
 ('tm-timeout-stays', 'T01', [(F, "        t.teC = Timeout(self.timerC, 32.0, 1, t)\n        if t.resp_cb == None:\n            return\n", "        if t.resp_cb == None:\n            return\n        t.teC = Timeout(self.timerC, 32.0, 1, t)\n")],
  'a request sent without a response callback (a BYE) is never answered', 'its transaction stays in the table for ever', B + '''
from sippy.SipRequest import SipRequest
req = SipRequest(request('BYE').replace('10.0.0.1', '10.0.0.2'))
req.setTarget((('10.0.0.2', 5060), 'udp'))
r.tm.newTransaction(req)
r.advance(200)
if r.tm.tclient: fail(r.tm.tclient)
'''),
 ('tm-ack-same-branch', 'T03', [(F, "                    if fcode >= 200 and fcode < 300:\n                        t.ack.getHFBody('via').genBranch()", "                    if fcode >= 200 and fcode < 300 and len(routes) == 0:\n                        t.ack.getHFBody('via').genBranch()")],
  'the call goes through a record-routing proxy', 'the ACK of a 2xx reuses the branch of the INVITE', B + '''
from sippy.SipRequest import SipRequest
req = SipRequest(request('INVITE', ruri = 'sip:b@10.0.0.2', body = SDP % 1))
req.setTarget((('10.0.0.2', 5060), 'udp'))
r.tm.newTransaction(req, resp_cb = lambda *a: None)
o = r.out()[0]
r.rx(reply(o, 200, body = SDP % 2, extra = 'Record-Route: <sip:10.0.0.9;lr>'))
a = [x for x in r.out() if x.startswith('ACK')][0]
br = lambda x: hdr(x, 'Via').split('branch=')[1].split(';')[0]
if br(a) == br(o): fail('same branch', br(a))
'''),
 ('fault-timeout-report', 'T07', [(F, "        t.teC = Timeout(self.timerC, 32.0, 1, t)\n        if t.resp_cb == None:\n            return\n        t.r408.rtime = MonoTime()\n        if t.cb_ifver == 1:\n            t.resp_cb(t.r408)\n        else:\n            t.resp_cb(t.r408, t)\n", "        if t.resp_cb != None:\n            t.r408.rtime = MonoTime()\n            if t.cb_ifver == 1:\n                t.resp_cb(t.r408)\n            else:\n                t.resp_cb(t.r408, t)\n        t.teC = Timeout(self.timerC, 32.0, 1, t)\n")],
  'a request is never answered and the application fails when it is told', 'the transaction stays in the table for ever', B + '''
from sippy.SipRequest import SipRequest
req = SipRequest(request('BYE').replace('10.0.0.1', '10.0.0.2'))
req.setTarget((('10.0.0.2', 5060), 'udp'))
def told(resp):
    got.append(resp.getSCode()[0])
    raise RuntimeError('cannot')
r.tm.newTransaction(req, resp_cb = told)
for i in range(400):
    try: r.advance(0.5)
    except RuntimeError: pass
if got != [408]: fail(got)
if r.tm.tclient: fail(r.tm.tclient)
'''),
 ('fault-ack-report', 'T07', [(F, "                # We have done with the transaction, no need to wait for timeout\n                del self.tserver[t.tid]\n                try:\n                    if t.ack_cb != None:\n                        t.ack_cb(msg)\n", "                # We have done with the transaction, no need to wait for timeout\n                try:\n                    if t.ack_cb != None:\n                        t.ack_cb(msg)\n                    del self.tserver[t.tid]\n")],
  'the ACK of an answer arrives and the application fails when it is told', 'the transaction stays in the table for ever', B + '''
T = []
def cb2(req, t):
    T.append((req, t))
    return (None, None, None) if req.getMethod() == 'INVITE' else None
r = Rig(cb2)
r.rx(request('INVITE', body = SDP % 1))
def told(req):
    got.append(req.getMethod())
    raise RuntimeError('cannot')
resp = T[0][0].genResponse(200, 'OK')
r.tm.sendResponse(resp, T[0][1], ack_cb = told)
tag = hdr(r.out()[-1], 'To').split('tag=')[1]
try: r.rx(request('ACK', ttag = tag, cmeth = 'ACK'))
except RuntimeError: pass
if got != ['ACK']: fail(got)
if r.tm.tserver: fail(r.tm.tserver)
'''),
 ('fault-cancel-report', 'T07', [(F, "        if t.r487 != None:\n            self.sendResponse(t.r487, t, True)\n        if t.cancel_cb != None:\n            t.cancel_cb(rtime, req)\n", "        if t.cancel_cb != None:\n            t.cancel_cb(rtime, req)\n        if t.r487 != None:\n            self.sendResponse(t.r487, t, True)\n")],
  'an INVITE is cancelled or expires and the application fails when it is told', 'the INVITE is never answered', B + '''
def told(rtime, req):
    got.append('cancel')
    raise RuntimeError('cannot')
def cb2(req, t):
    return (req.genResponse(180, 'Ringing'), told, None)
r = Rig(cb2)
r.rx(request('INVITE', body = SDP % 1)); r.out()
try: r.rx(request('CANCEL', cmeth = 'CANCEL'))
except RuntimeError: pass
m = [line(x) for x in r.out()]
if got != ['cancel']: fail(got)
if len([x for x in m if ' 487 ' in x]) != 1: fail(m)
'''),
]
