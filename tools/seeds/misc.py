import os
_d = {}
exec(open('/verif/tools/seeds/leg.py').read(), _d)
CALL = _d['CALL']
S = [
 ('auth-endless-retry', 'C09', [('UA.py', "          self.reqs[cseq].countHFs(auth_hfname) != 0:", "          (self.reqs[cseq].countHFs(auth_hfname) != 0 and resp.getSCode()[0] == 401):")],
  'the proxy refuses the credentials with a second 407', 'the INVITE is sent again and again', CALL + '''
ua = mkuac(username = 'u', password = 'p'); o = r.out()[0]
n = 0
ch = 'Proxy-Authenticate: Digest realm="x", nonce="n%d"'
for i in range(5):
    r.rx(reply(o, 407, extra = ch % i))
    inv = [x for x in r.out() if x.startswith('INVITE')]
    if not inv: break
    n += 1; o = inv[-1]
if n != 1: fail('retries', n)
if evs != ['CCEventFail']: fail(evs)
'''),
 ('bind-guard-timer-arg', 'I01', [('UacStateCancelling.py', "        self.te = Timeout(self.goIdle, 300.0)\n\n    def goIdle(self):", "        self.te = Timeout(self.goIdle, 300.0, 1, ua)\n\n    def goIdle(self):")],
  'a cancelled call gets no final answer for five minutes', 'the guard timer callback fails and the leg is never released', CALL + '''
ua = mkuac(); o = r.out()[0]
r.rx(reply(o, 180)); ua.recvEvent(CCEventDisconnect())
for i in range(330):
    r.rx(reply(o, 180)); r.advance(1)
r.advance(100)
if str(ua.state) != 'Dead': fail(ua.state)
'''),
]
