REG = '''
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
import sippy.SipRegistrationAgent as m
from sippy.SipURL import SipURL
from sippy.SipResponse import SipResponse
class Due:
    realt = 1.0
class Timer:
    def __init__(self, cb, ival, *a, **kw): self.cb, self.ival, self.etime = cb, ival, Due; due.append(self)
due = []
m.Timeout = Timer
class TM:
    def __init__(self): self.sent = []
    def newTransaction(self, msg, cb, **kw): self.sent.append((str(msg), cb))
def agent(**kw):
    tm = TM()
    log = []
    kw.setdefault('user', 'u'); kw.setdefault('passw', 'p')
    a = m.SipRegistrationAgent({'_sip_tm': tm}, SipURL('sip:me@home.example'), SipURL('sip:me@192.0.2.1:5070'),
        rok_cb = lambda *x: log.append(('ok',) + x), rfail_cb = lambda *x: log.append(('failed',) + x), **kw)
    a.doregister()
    return a, tm, log
def hdr(t, n): return [l.split(':', 1)[1].strip() for l in t.split('\\r\\n') if l.lower().startswith(n.lower() + ':')]
def answer(tm, line, *heads):
    """answer the last request"""
    t, cb = tm.sent[-1]
    keep = [l for l in t.split('\\r\\n') if l.split(':')[0] in ('Via', 'From', 'To', 'Call-ID', 'CSeq')]
    cb(SipResponse('\\r\\n'.join(['SIP/2.0 ' + line] + keep + list(heads) + ['Content-Length: 0', '', ''])))
def chal(realm = 'r', nonce = 'n'): return 'WWW-Authenticate: Digest realm="%s",nonce="%s"' % (realm, nonce)
'''
R = 'SipRegistrationAgent.py'
S = [
    ('reg-tries-kept', 'C10', [(R, "            self.rfail_cb(resp.getSL(), self.cb_arg)\n        Timeout(self.doregister, 60)\n        self.atries = 0\n", "            self.rfail_cb(resp.getSL(), self.cb_arg)\n        Timeout(self.doregister, 60)\n")],
     'three challenges in a row, then a request a minute later that is challenged again', 'credentials are never given again, the registration fails for good', REG + '''
a, tm, log = agent()
for i in range(4): answer(tm, '401 Unauthorized', chal(nonce = 'n%d' % i))
if len(tm.sent) != 4 or len(due) != 1 or log[0][0] != 'failed': fail(len(tm.sent), log)
due[0].cb()
n = len(tm.sent)
answer(tm, '401 Unauthorized', chal(nonce = 'later'))
if len(tm.sent) != n + 1 or 'later' not in hdr(tm.sent[-1][0], 'Authorization')[0]: fail('no credentials later')
'''),
    ('reg-stale-nonce', 'C10', [(R, "                for authorization in self.rmsg.getHFs(rhn):\n                    self.rmsg.removeHeader(authorization)\n                self.rmsg.appendHeader(SipHeader(name = rhn, body = auth))\n", "                if self.rmsg.countHFs(rhn) == 0:\n                    self.rmsg.appendHeader(SipHeader(name = rhn, body = auth))\n")],
     'a second challenge with another nonce', 'the credentials of the first are sent again', REG + '''
a, tm, log = agent()
answer(tm, '401 Unauthorized', chal(nonce = 'first'))
answer(tm, '200 OK')
due[0].cb()
answer(tm, '401 Unauthorized', chal(nonce = 'second'))
h = hdr(tm.sent[-1][0], 'Authorization')
if len(h) != 1 or 'second' not in h[0]: fail(h)
'''),
    ('reg-silent-end', 'C10', [(R, "        if self.rfail_cb != None:\n            self.rfail_cb(resp.getSL(), self.cb_arg)\n        Timeout(self.doregister, 60)\n", "        if self.rfail_cb != None:\n            self.rfail_cb(resp.getSL(), self.cb_arg)\n        if resp.scode not in (401, 407):\n            Timeout(self.doregister, 60)\n")],
     'the password refused', 'there is no later attempt, the registration is lost though the server accepts the password again', REG + '''
a, tm, log = agent()
for i in range(4): answer(tm, '401 Unauthorized', chal())
if len(due) != 1: fail('no later attempt')
'''),
    ('reg-late-stop', 'C10', [(R, "        if self.dead:\n            return\n        if resp.scode < 200:\n            return\n", "        if resp.scode < 200:\n            return\n"), (R, "        if self.dead:\n            return\n        self.global_config['_sip_tm']", "        if self.rmsg is None:\n            return\n        self.global_config['_sip_tm']")],
     'the registration stopped while an answer is outstanding', 'its user is told of a registration that was stopped', REG + '''
a, tm, log = agent()
a.stopregister()
answer(tm, '200 OK')
if log or due: fail('stopped', log, due)
'''),
    ('reg-short', 'C10', [(R, "            timer = Timeout(self.doregister, tout)\n", "            timer = Timeout(self.doregister, max(tout, 60))\n")],
     'a server that keeps bindings for less than a minute', 'the binding is gone for some time before it is asked for again', REG + '''
a, tm, log = agent()
answer(tm, '200 OK', 'Contact: <sip:me@192.0.2.1:5070>;expires=60', 'Expires: 3600')
if len(due) != 1 or due[0].ival > 60: fail(due[0].ival)
due[0].cb()
answer(tm, '200 OK', 'Contact: <sip:me@192.0.2.1:5070>;expires=30')
if len(due) != 2 or due[1].ival > 30: fail(due[1].ival)
'''),
]
