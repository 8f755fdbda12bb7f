RLY = '''
from demolib import *
import sippy.Rtp_proxy.Client.udp as ru
from sippy.Rtp_proxy.client import Rtp_proxy_client
from sippy.Rtp_proxy.session import Rtp_proxy_session
from sippy.MsgBody import MsgBody
ru.Udp_server = FakeServer
gc = {'_sip_address': '10.0.0.1', 'my_pid': 1}
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
def advance(dt, step = 0.25):
    end = NOW[0] + dt
    while NOW[0] < end:
        NOW[0] = min(end, NOW[0] + step)
        ED2.last_ts = MonoTime()
        try: ED2.dispatchTimers()
        except ValueError: pass
class Relay:
    def __init__(self, **k):
        self.c = Rtp_proxy_client(gc, spath = 'udp:127.0.0.1:22222', **k)
        gc['rtp_proxy_client'] = self.c
    def out(self):
        w = self.c.worker
        r, w.sent = w.sent, []
        return [d.split(' ', 1) for d, a in r]
    def say(self, cookie, res):
        NOW[0] += 0.01
        ED2.last_ts = MonoTime()
        self.c.process_reply(('%s %s\\n' % (cookie, res)).encode(), ('127.0.0.1', 22222), self.c.worker, MonoTime())
    def serve(self, answer, dt = 5, seen = None):
        """answer what is asked for a while"""
        end = NOW[0] + dt
        while NOW[0] < end:
            for k, cmd in self.out():
                if seen is not None: seen.append(cmd)
                a = answer(cmd)
                if a is not None: self.say(k, a)
            advance(0.25)
def usual(cmd):
    if cmd.startswith('VF'): return '1'
    if cmd.startswith('V'): return '20040107'
    if cmd.startswith('I'): return 'sessions created: 0'
    if cmd.startswith('U'): return '3%s000 10.0.0.9' % cmd.split()[1][-1]
    return '0'
def desc(n, version = 1, sid = 7, port = None, addr = 'IN IP4 10.0.0.2'):
    s = 'v=0\\r\\no=- %d %d IN IP4 10.0.0.2\\r\\ns=-\\r\\nt=0 0\\r\\n' % (sid, version)
    for i in range(n):
        s += 'm=audio %d RTP/AVP 0\\r\\nc=%s\\r\\na=rtpmap:0 PCMU/8000\\r\\n' % (4000 + 2 * i if port is None else port[i], addr)
    b = MsgBody(s)
    b.needs_update = True
    return b
'''
S = [
 ('relay-failed-listener', 'R01', [('Rtp_proxy/Client/udp.py', "            del self.pending_requests[cookie]\n            self.go_offline()\n            if preq.result_callback != None:\n                preq.result_callback(None, *preq.callback_parameters)\n            return",
   "            self.go_offline()\n            if preq.result_callback != None:\n                preq.result_callback(None, *preq.callback_parameters)\n            del self.pending_requests[cookie]\n            return")],
  'the one waiting for a command fails when told that there was no answer, and the answer comes late', 'the outcome of the command is told twice', RLY + '''
R = Relay(no_version_check = True)
told = []
def cb(res, **k):
    told.append(res)
    raise ValueError('app')
R.c.send_command('X', cb)
k = R.out()[0][0]
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    advance(20)
    try: R.say(k, '0')
    except ValueError: pass
if told != [None]: fail(told)
'''),
 ('relay-shutdown-pending', 'R01', [('Rtp_proxy/Client/udp.py', "if preq.triesleft <= 0 or self.worker == None:", "if preq.triesleft <= 0:")],
  'the client is shut down while a command waits for its reply', 'the command never gets an outcome', RLY + '''
R = Relay(no_version_check = True)
told = []
R.c.send_command('X', lambda res, **k: told.append(res))
R.c.shutdown()
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    try: advance(20)
    except Exception: pass
if told != [None]: fail(told)
'''),
 ('media-two-failures', 'R02', [('Rtp_proxy/Session/side.py', "        if ur == None:\n            sdp_body.needs_update = False\n", "        if ur == None:\n")],
  'a description of two media, and the relay refuses both', 'the failure of the update is told twice', RLY + '''
R = Relay(no_version_check = True)
s = Rtp_proxy_session(gc, 'c1', 'f1', 't1')
told = []
s.on_caller_sdp_change(desc(2), lambda b, ex = None: told.append((b, ex)))
R.serve(lambda c: 'E5' if c.startswith('U') else '0', 3)
if len(told) != 1 or told[0][0] is not None: fail(told)
'''),
 ('media-origin-first', 'R02', [('Rtp_proxy/Session/side.py', "            self.oh_remote = sdp_bc.o_header.getCopy()\n", "            if self.oh_remote is None:\n                self.oh_remote = sdp_bc.o_header.getCopy()\n")],
  'three descriptions of one party, the last two of the same version', 'the third is announced as a further version', RLY + '''
R = Relay(no_version_check = True)
s = Rtp_proxy_session(gc, 'c1', 'f1', 't1')
vs = []
for v in (1, 2, 2):
    told = []
    s.on_caller_sdp_change(desc(1, v), lambda b, ex = None: told.append(b))
    R.serve(usual, 1)
    vs.append([l for l in str(told[0]).split('\\r\\n') if l.startswith('o=')][0].split()[2])
if not (int(vs[1]) == int(vs[0]) + 1 and vs[2] == vs[1]): fail(vs)
'''),
 ('media-v6-hold', 'R02', [('Rtp_proxy/Session/update.py', "        elif self.atype == 'IP6' and self.remote_ip == '::':\n            ur.sendonly = True\n        else:", "        else:")],
  'a medium put on hold with the IPv6 address ::', 'the other party is told to send to the relay as if it were not on hold', RLY + '''
R = Relay(no_version_check = True)
s = Rtp_proxy_session(gc, 'c1', 'f1', 't1')
told = []
s.on_caller_sdp_change(desc(1, addr = 'IN IP6 ::'), lambda b, ex = None: told.append(b))
R.serve(lambda c: '35000 2001:db8::9 6' if c.startswith('U') else '0', 2)
t = str(told[0])
if 'a=sendonly' not in t: fail(t)
'''),
 ('media-streams-left', 'R03', [('Rtp_proxy/Session/side.py', "max(up.rtpps.max_index, up.index)", "up.index")],
  'a call that drops from two media to one before it ends', 'the second stream is never deleted on the relay', RLY + '''
R = Relay(no_version_check = True)
s = Rtp_proxy_session(gc, 'c1', 'f1', 't1')
seen = []
for n in (2, 1):
    s.on_caller_sdp_change(desc(n), lambda b, ex = None: None)
    R.serve(usual, 1, seen)
s.delete()
R.serve(usual, 2, seen)
d = sorted(c for c in seen if c.startswith('D'))
if d != ['D c1-0 f1 t1', 'D c1-1 f1 t1']: fail(d)
'''),
 ('media-delete-inflight', 'R03', [('Rtp_proxy/Cmd/sequencer.py', "        if self.inflight is not None:\n            self.deleted = True\n            return\n", "        if self.inflight is not None and len(self.comqueue) == 0:\n            self.deleted = True\n            return\n")],
  'a call that ends while a command waits for the relay', 'the streams are never deleted on the relay', RLY + '''
R = Relay(no_version_check = True)
s = Rtp_proxy_session(gc, 'c1', 'f1', 't1')
seen = []
s.on_caller_sdp_change(desc(2), lambda b, ex = None: None)
s.delete()
R.serve(usual, 3, seen)
d = sorted(c for c in seen if c.startswith('D'))
if d != ['D c1-0 f1 t1', 'D c1-1 f1 t1']: fail(seen)
'''),
 ('relay-version-stuck', 'R04', [('Rtp_proxy/client.py', "        elif self.online:\n            self.go_offline()\n        else:\n", "        elif self.online:\n            self.go_offline()\n        elif version is None:\n")],
  'a relay that tells an unsupported version once, while it is replaced', 'it is never taken into use again', RLY + '''
R = Relay()
R.serve(lambda c: '20030101' if c == 'V' else None, 2)
R.serve(usual, 200)
if not R.c.online: fail('not in use')
'''),
 ('relay-abilities-lost', 'R04', [('Rtp_proxy/client.py', "        self.caps_received += 1\n        vname = CAPSTABLE[vers]\n", "        vname = CAPSTABLE[vers]\n        if result is None:\n            return\n        self.caps_received += 1\n")],
  'a relay that stops answering in the middle of the queries of its abilities', 'it is never taken into use', RLY + '''
R = Relay()
n = [0]
def some(c):
    if c.startswith('VF'):
        n[0] += 1
        return '1' if n[0] < 3 else None
    return usual(c)
R.serve(some, 30)
R.serve(usual, 200)
if not R.c.online: fail('not in use')
'''),
]
HLP = '''
from demolib import *
from sippy.External_command import External_command
from sippy.Radius_client import Radius_client
seen = []
External_command.process_command = lambda self, data, cb, *p: seen.append(list(data))
class GC(dict):
    def getdefault(self, k, d): return 0 if k == 'max_radiusclients' else d
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
r = Radius_client(GC())
'''
S += [
 ('inject-acct', 'S04', [('Radius_client.py', "        External_command.process_command(self, self._prepare_attributes('ACCT', attributes), result_callback, *callback_parameters)\n",
   "        plain = [x for x in attributes if x[0] not in self._avpair_names and x[0] not in self._cisco_vsa_names]\n        data = self._prepare_attributes('ACCT', [x for x in attributes if x not in plain])\n"
   "        data.extend(['%s=\"%s\"' % x for x in plain])\n        External_command.process_command(self, data, result_callback, *callback_parameters)\n")],
  'a caller whose user name holds an escaped line end', 'the accounting request ends in the middle and a second one of the caller follows', HLP + '''
r.do_acct((('User-Name', 'a\\n\\nACCT'), ('call-id', 'x')))
t = ''.join([x + '\\n' for x in seen[0]])
if len(t.split('\\n')) != 4: fail(repr(t))
'''),
 ('inject-candidate', 'S04', [('Rtp_proxy/Session/subcommand_ice.py', "            self.append(f'{self.i_mod} C {cand}')\n", "            self.commands += [f'{self.i_mod} C {cand}']\n")],
  'a browser whose ICE candidate holds a separator and a command', 'the relay carries out the command of the caller', RLY + '''
from sippy.Rtp_proxy.Session.webrtc import Rtp_proxy_session_webrtc2sip
R = Relay(no_version_check = True)
s = Rtp_proxy_session_webrtc2sip(gc, 'c1', 'f1', 't1')
b = MsgBody('\\r\\n'.join(['v=0', 'o=- 1 1 IN IP4 10.0.0.2', 's=-', 't=0 0', 'm=audio 4000 UDP/TLS/RTP/SAVPF 0', 'c=IN IP4 10.0.0.2', 'a=rtpmap:0 PCMU/8000', 'a=setup:actpass',
  'a=fingerprint:sha-256 AA:BB', 'a=ice-ufrag:uf', 'a=ice-pwd:pw', 'a=candidate:1 1 udp 5 10.0.0.2 4000 typ host && D other * *', '']))
try: s.on_caller_sdp_change(b, lambda b, ex = None: None)
except Exception as e: print(type(e))
for ck, c in R.out():
    if 'D other' in c: fail(c)
'''),
]
