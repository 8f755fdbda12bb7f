PRE = '''
from demolib import *
def fail(*a):
    print('FAIL', *a); sys.exit(1)
'''
S = [
 ('mgmt-reply-interleaved', 'B06', [('CLIManager.py', "                if res > 0:\n                    wbuffer = wbuffer[res:]\n",
    "                if res > 0 and self.close_pendind:\n                    wbuffer = wbuffer[res:]\n                elif res > 0:\n                    # do not insist, let the thread sleep\n                    self.w_available.acquire()\n                    self.wbuffer += wbuffer[res:]\n                    self.w_available.release()\n                    break\n")],
  'a reply is sent in parts (slow reader) and another reply is queued before the last part', 'the second reply is put in the middle of the first one', PRE + '''
from sippy.CLIManager import _CLIManager_w
class W(_CLIManager_w):
    def start(self): pass
class Sock:
    def __init__(self): self.got = b''; self.n = 0
    def send(self, b):
        self.n += 1
        k = 4 if self.n == 1 else len(b)
        self.got += b[:k]
        if self.n == 1 and second: w.send(second)
        if len(self.got) == len(want): w.shutdown()
        return k
class C:
    def shutdown(self): pass
for second in (b'second\\n', b''):
    want = b'first reply\\n' + second
    s = Sock(); w = W(s, C())
    w.send(b'first reply\\n')
    w.run()
    if s.got != want: fail(s.got)
'''),
 ('mgmt-first-only', 'B06', [('B2B/SimpleAPI.py', "            for cc in dlist:\n                cc.disconnect()\n", "            dlist[0].disconnect()\n")],
  'two calls with the same Call-ID are up (an upstream that reuses it)', 'd <call-id> ends only the first one and says OK', PRE + '''
from sippy.B2B.SimpleAPI import B2BSimpleAPI
r = BRig()
r.invite(callid='dup'); r.invite(callid='dup', branch='z9hG4bKx2', ftag='ft2'); r.invite(callid='other', branch='z9hG4bKx3', ftag='ft3')
if len(r.cm.ccmap) != 3: fail('calls')
class Clim:
    def __init__(self): self.out = []
    def send(self, d): self.out.append(d)
api = B2BSimpleAPI.__new__(B2BSimpleAPI); api.global_config = r.gc
c = Clim(); api.recvCommand(c, 'd dup')
if c.out != ['OK\\n']: fail(c.out)
st = [(str(x.cId), str(x.uaA.state)) for x in r.cm.ccmap]
if [s for i, s in st if i == 'dup' and s == 'Trying(UAS)'] or [s for i, s in st if i == 'other' and s != 'Trying(UAS)']: fail(st)
'''),
 ('mgmt-restart-ringing', 'B07', [('b2bua.py', "            if len(self.getActiveCalls()) == 0:\n", "            if len([x for x in self.getActiveCalls() if x.state == CCStateConnected]) == 0:\n")],
  'a restart is requested while the only call is ringing', 'the process is replaced under the call', PRE + '''
r = BRig(_orig_cwd='/', _orig_argv=['x'])
r.invite(); r.grant('10.0.0.3')
rq = [x for x in r.out() if x.startswith('INVITE')][0]
r.rx(reply(rq, 180))
ex = []
r.b2bua.os.execv = lambda *a: ex.append(a)
r.b2bua.os.chdir = lambda *a: None
sh = []
r.gc['_sip_tm'].shutdown = lambda: sh.append(1)
r.cm.safeRestart(27)
r.cm.GClector()
if ex: fail('with a call ringing')
r.cm.discAll()
r.cm.GClector()
if not ex or not sh: fail('never')
'''),
 ('mgmt-restart-debug', 'B07', [('b2bua.py', "        if self.safe_restart:\n            if len(self.getActiveCalls()) == 0:\n", "        if self.safe_restart and not self.debug_mode:\n            if len(self.getActiveCalls()) == 0:\n")],
  'a restart is requested while the extra debug output is switched on', 'the restart never takes place, every call is refused', PRE + '''
r = BRig(_orig_cwd='/', _orig_argv=['x'])
ex = []
r.b2bua.os.execv = lambda *a: ex.append(a)
r.b2bua.os.chdir = lambda *a: None
r.gc['_sip_tm'].shutdown = lambda: None
r.cm.toggleDebug(12)
r.cm.safeRestart(27)
r.cm.GClector(); r.cm.GClector()
if not ex: fail('never')
'''),
]
