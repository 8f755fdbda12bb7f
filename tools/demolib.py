"""Rig for the demonstrations: a transaction manager on a fake socket, a clock
that only moves when told to, and a few canned messages."""
import os, sys
sys.path.insert(0, os.getcwd())
import sippy.Time.MonoTime as _mt
NOW = [1000.0]
def _clk(which):
    return NOW[0] + (1600000000.0 if which == _mt.CLOCK_REALTIME else 0.0)
_mt.clock_getdtime = _clk
_mt.MonoTime.globals.__init__()
from sippy.Core.EventDispatcher import ED2
from sippy.Time.MonoTime import MonoTime
import sippy.SipTransactionManager as _tmm
from sippy.SipTransactionManager import SipTransactionManager
from sippy.Network_server import Remote_address

class Log:
    def write(self, *a, **k): pass

class FakeOpts:
    flags = 0
    def __init__(self, laddress, cb):
        self.laddress = laddress; self.data_callback = cb
    def isWildCard(self): return False

class FakeServer:
    transport = 'udp'
    all = []
    def __init__(self, gc, uopts):
        self.uopts = uopts
        self.sent = []
        FakeServer.all.append(self)
    def getSIPaddr(self): return (self.uopts.laddress, 'udp')
    def addr2str(self, a): return '%s:%s' % a
    def send_to(self, data, address, delayed=False): self.sent.append((data, address))
    def shutdown(self): pass

class Rig:
    def __init__(self, req_cb=None, **gcx):
        self.gc = {'_sip_address': '10.0.0.1', '_sip_port': 5060, '_sip_logger': Log()}
        self.gc.update(gcx)
        SipTransactionManager.model_udp_server = (FakeServer, FakeOpts)
        self.tm = SipTransactionManager(self.gc, req_cb)
        self.gc['_sip_tm'] = self.tm
        self.srv = self.tm.l4r.getServer(('10.0.0.2', 5060))
        self.peer = Remote_address(('10.0.0.2', 5060), 'udp')
    def rx(self, data):
        self.tm.handleIncoming(data.replace('\n', '\r\n').encode() if '\r\n' not in data else data.encode(), self.peer, self.srv, MonoTime())
        ED2.last_ts = MonoTime()
    def out(self):
        """messages sent since the last call"""
        r, self.srv.sent = self.srv.sent, []
        return [d for d, a in r]
    def advance(self, dt, step=0.25):
        end = NOW[0] + dt
        while NOW[0] < end:
            NOW[0] = min(end, NOW[0] + step)
            ED2.last_ts = MonoTime()
            ED2.dispatchTimers()
    def timers(self):
        return [e for e in ED2.tlisteners if e.cb_func is not None and e.cb_func != self.tm.rCachePurge]

SDP = '''v=0
o=- 1 %s IN IP4 10.0.0.2
s=-
c=IN IP4 10.0.0.2
t=0 0
m=audio 4000 RTP/AVP 0
a=rtpmap:0 PCMU/8000
'''
def request(method, ruri='sip:100@10.0.0.1', branch='z9hG4bKx1', ftag='ft1', ttag=None, callid='c1@10.0.0.2', cseq=1, cmeth=None, extra='', body=''):
    body = body.replace('\n', '\r\n')
    return ('%s %s SIP/2.0\nVia: SIP/2.0/UDP 10.0.0.2:5060;branch=%s\nFrom: <sip:a@10.0.0.2>;tag=%s\nTo: <sip:100@10.0.0.1>%s\nCall-ID: %s\nCSeq: %d %s\nMax-Forwards: 70\nContact: <sip:a@10.0.0.2:5060>\n%s%sContent-Length: %d\n\n' % (
        method, ruri, branch, ftag, ';tag=' + ttag if ttag else '', callid, cseq, cmeth or method, extra,
        'Content-Type: application/sdp\n' if body else '', len(body))).replace('\n', '\r\n') + body

def parse(data):
    """first line, list of (name, value)"""
    head, _, body = data.partition('\r\n\r\n')
    ls = head.split('\r\n')
    return ls[0], [tuple(x.split(': ', 1)) for x in ls[1:]], body

def hdr(data, name):
    for n, v in parse(data)[1]:
        if n.lower() == name.lower():
            return v

def reply(req, code, reason='X', ttag='tt1', extra='', body='', contact='<sip:b@10.0.0.2:5060>'):
    """response to a request we have sent"""
    body = body.replace('\n', '\r\n')
    fl, hs, _ = parse(req)
    out = ['SIP/2.0 %d %s' % (code, reason)]
    for n, v in hs:
        if n.lower() in ('via', 'from', 'call-id', 'cseq', 'record-route'):
            out.append('%s: %s' % (n, v))
        elif n.lower() == 'to':
            out.append('%s: %s' % (n, v if 'tag=' in v or ttag is None else v + ';tag=' + ttag))
    if contact: out.append('Contact: ' + contact)
    out += [x for x in extra.split('\n') if x]
    if body: out.append('Content-Type: application/sdp')
    out.append('Content-Length: %d' % len(body))
    return '\r\n'.join(out) + '\r\n\r\n' + body

def line(data): return data.split('\r\n', 1)[0]

class FakeRadius:
    def __init__(self): self.auth = []; self.acct = []
    def do_auth(self, username, caller, callee, sip_cid, remote_ip, res_cb, realm=None, nonce=None, uri=None, response=None, extra_attributes=None):
        self.auth.append((username, callee, response, res_cb))
    def do_acct(self, attributes, cb=None, *a): self.acct.append(list(attributes))

class BRig(Rig):
    """a whole back-to-back agent on the fake socket"""
    def __init__(self, **gcx):
        from sippy.MyConfigParser import MyConfigParser
        import sippy.b2bua as b2bua
        self.b2bua = b2bua
        gc = MyConfigParser()
        base = {'_sip_address': '10.0.0.1', '_sip_port': 5060, '_sip_logger': Log(), 'digest_auth': True, 'start_acct_enable': False,
                'keepalive_ans': 0, 'keepalive_orig': 0, 'auth_enable': True, 'acct_enable': True, '_pass_headers': [], '_uaname': 'B2B',
                '_my_pid': 1, '_radius_client': FakeRadius()}
        base.update(gcx)
        for k, v in base.items():
            if v is not None: gc[k] = v
        self.gc = gc
        self.radius = base['_radius_client']
        FakeServer.all.clear()
        SipTransactionManager.model_udp_server = (FakeServer, FakeOpts)
        gc['_cmap'] = b2bua.CallMap(gc)
        self.cm = gc['_cmap']
        self.tm = SipTransactionManager(gc, self.cm.recvRequest)
        gc['_sip_tm'] = self.tm
        self.tm.handleIncoming  # the manager is up
        self.srv = self.tm.l4r.getServer(('10.0.0.2', 5060))
        self.peer = Remote_address(('10.0.0.2', 5060), 'udp')
    def out(self, dest=None):
        r = [(d, a) for s in FakeServer.all for d, a in s.sent if dest is None or a == dest]
        for s in FakeServer.all:
            s.sent = [x for x in s.sent if dest is not None and x[1] != dest]
        return [d for d, a in r]
    def grant(self, *routes, i=-1, code=0, extra=()):
        self.radius.auth[i][3]((tuple(('h323-ivr-in', 'Routing:' + r) for r in routes) + tuple(extra), code))
    def invite(self, **kw):
        kw.setdefault('body', SDP % 1)
        self.inv = request('INVITE', **kw)
        self.rx(self.inv)
        return self.out()
