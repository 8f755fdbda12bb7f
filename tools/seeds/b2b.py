PRE = '''
from demolib import *
def fail(*a):
    print('FAIL', *a); sys.exit(1)
def types(r): return [(dict(a)['h323-call-origin'], dict(a)['Acct-Status-Type']) for a in r.radius.acct]
'''
S = [
 ('b2b-claimed-user', 'B01', [('RadiusAuthorisation.py', "            attributes = [('User-Name', remote_ip), ('Password', 'cisco')]", "            attributes = [('User-Name', username), ('Password', 'cisco')]")],
  'a caller sends an Authorization header with a user name but without one of realm, nonce, uri or response',
  'the call is authorized as that user with the fixed password, no digest being verified', PRE + '''
from sippy.RadiusAuthorisation import RadiusAuthorisation
class R(RadiusAuthorisation):
    def __init__(self, gc): self.global_config = gc; self.asked = []
    def process_command(self, data, cb, *a): self.asked.append(data)
import sippy.External_command as ec
ec.External_command.process_command = lambda self, data, cb, *a: self.asked.append(list(data))
for extra in ('', 'Authorization: Digest username="boss",realm="x",nonce="n",uri="sip:x"\\n'):
    rad = R({'_sip_logger': Log()})
    r = BRig(_radius_client=rad)
    try:
        r.invite(extra=extra)
    except Exception:
        pass
    for data in rad.asked:
        u = [x for x in data if x.startswith('User-Name=')]
        if u != ['User-Name="10.0.0.2"']: fail(data)
    if not extra and not rad.asked: fail('nobody asked')
rad = R({'_sip_logger': Log()})
rad.do_auth('boss', 'a', 'b', 'cid', '10.9.9.9', None, 'realm', 'nonce', 'uri', None)
if 'User-Name="10.9.9.9"' not in rad.asked[0]: fail(rad.asked)
rad.do_auth('boss', 'a', 'b', 'cid', '10.9.9.9', None, 'realm', 'nonce', 'uri', 'resp')
if 'User-Name="boss"' not in rad.asked[1] or 'Digest-Response="resp"' not in rad.asked[1]: fail(rad.asked)
'''),
 ('b2b-acct-reused', 'B02', [('b2bua.py', "            self.acctO = RadiusAccounting(self.global_config, 'originate', \\\n", "            if self.acctO is None or self.acctO.user_agent is None: self.acctO = RadiusAccounting(self.global_config, 'originate', \\\n")],
  'the first destination identifies itself (Server header) and fails, the next one answers', 'the second attempt has no accounting of its own', PRE + '''
r = BRig()
r.invite(); r.grant('10.0.0.3', '10.0.0.4')
rq = [x for x in r.out() if x.startswith('INVITE')][0]
r.rx(reply(rq, 100, extra='Server: gw', ttag=None)); r.rx(reply(rq, 503, extra='Server: gw')); 
rq = [x for x in r.out() if x.startswith('INVITE')][0]
r.rx(reply(rq, 200, body=SDP % 2)); r.out()
r.cm.discAll(); r.advance(1)
o = r.out()
t = types(r)
if t.count(('originate', 'Stop')) != 2: fail(t)
if t.count(('answer', 'Stop')) != 1: fail(t)
'''),
 ('b2b-early-removal', 'B03', [('b2bua.py', "        if ua == self.uaO and isinstance(self.uaA.state, self.uaA.UaStateDead):", "        if isinstance(self.uaA.state, self.uaA.UaStateDead):")],
  'an attempt that failed is released after the caller leg, while a later attempt still is not', 'the call leaves the call table while a leg is alive, and the release of the last leg fails', PRE + '''
import io, contextlib
from sippy.UA import UA
r = BRig()
r.invite(); cc = r.cm.ccmap[0]
r.grant('10.0.0.3', '10.0.0.4')
legs = [cc.uaO]
rq = [x for x in r.out() if x.startswith('INVITE')][0]
r.rx(reply(rq, 503)); legs.append(cc.uaO)
if legs[0] is legs[1]: fail('no second attempt')
# the caller leg and the first attempt are released first
cc.uaA.disconnect(); 
from sippy.UaStateDead import UaStateDead
def dead(u):
    u.changeState((UaStateDead,))
dead(cc.uaA)
if r.cm.ccmap != [cc]: fail('gone with an attempt alive')
dead(legs[0])
if r.cm.ccmap != [cc]: fail('gone with an attempt alive, 2')
dead(legs[1])
if r.cm.ccmap: fail('stays')
'''),
 ('b2b-group-too-far', 'B03', [('b2bua.py', "        while self.routes[0].rnum < skipto:\n            self.routes.pop(0)\n        self.uaO.disconnect()", "        while self.routes[0].rnum < skipto:\n            self.routes.pop(0)\n        if isinstance(self.uaA.state, self.uaA.UasStateRinging):\n            # somebody is being alerted, do not take the call away\n            return\n        self.uaO.disconnect()")],
  'the timer of a route group expires while the destination of the group is ringing', 'the next group is not tried', PRE + '''
r = BRig()
r.invite(); r.grant('10.0.0.3;gt=5,1', '10.0.0.4')
rq = [x for x in r.out() if x.startswith('INVITE')][0]
r.rx(reply(rq, 180)); r.out()
r.advance(6)
o = [line(x) for x in r.out()]
if 'INVITE sip:100@10.0.0.4 SIP/2.0' not in o: fail(o)
'''),
 ('b2b-hops-eaten', 'B04', [('b2bua.py', "            event.max_forwards = self.eTry.max_forwards - 1\n", "            self.eTry.max_forwards -= 1\n            event.max_forwards = self.eTry.max_forwards\n")],
  'a call with more than one route whose first destination fails', 'every further attempt loses one more hop, the last ones are refused with 483', PRE + '''
r = BRig()
r.invite(); r.grant('10.0.0.3', '10.0.0.4', '10.0.0.5')
for i in range(3):
    rq = [x for x in r.out() if x.startswith('INVITE')][0]
    if hdr(rq, 'max-forwards') != '69': fail(i, hdr(rq, 'max-forwards'))
    r.rx(reply(rq, 503))
'''),
 ('b2b-unlimited-lost', 'B05', [('B2B/Route.py', "        if not self.crt_set:\n", "        if self.credit_time is None:\n")],
  'the routing answer grants a default credit and a route is marked unlimited (credit-time=-1)',
  'the unlimited route is cut at the default credit', PRE + '''
def credit(route, extra):
    r = BRig(); r.invite(); cc = r.cm.ccmap[0]
    r.grant(route, extra=extra)
    return cc.uaO.credit_time
E = (('h323-credit-time', '60'),)
if credit('10.0.0.3', E) != 60: fail('default')
if credit('10.0.0.3;credit-time=30', E) != 30: fail('own')
if credit('10.0.0.3;credit-time=-1', E) is not None: fail('unlimited')
'''),
 ('b2b-hunt-stop-sticks', 'B05', [('b2bua.py', "        self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())", "        self.huntstop_scodes = oroute.params.get('huntstop_scodes', self.huntstop_scodes or ())")],
  'a route with hs_scodes fails with another code, the next route has no hs_scodes and fails with one of them',
  'the search stops although the route that failed does not ask for it', PRE + '''
def tried(*steps):
    r = BRig(); r.invite(); r.grant(*[s[0] for s in steps])
    n = 0
    for route, code in steps:
        q = [x for x in r.out() if x.startswith('INVITE')]
        if not q: break
        n += 1
        r.rx(reply(q[0], code))
    return n
if tried(('10.0.0.3;hs_scodes=486', 486), ('10.0.0.4', 486)) != 1: fail('no stop')
if tried(('10.0.0.3;hs_scodes=486', 503), ('10.0.0.4', 486), ('10.0.0.5', 486)) != 3: fail('stop')
'''),
]
COD = PRE + '''
def sdp(*ms):
    return '\\r\\n'.join(['v=0', 'o=- 1 1 IN IP4 10.0.0.2', 's=-', 't=0 0'] + [x for m in ms for x in m] + [''])
def med(kind, fm, *attrs):
    return ['m=%s 4000 RTP/AVP %s' % (kind, fm), 'c=IN IP4 10.0.0.2'] + ['a=' + x for x in attrs]
def through(body, *allowed):
    """what the called party is offered"""
    r = BRig(_allowed_pts=list(allowed)); r.invite(body=body)
    if not r.radius.auth: return None
    r.grant('10.0.0.3')
    q = [x for x in r.out() if x.startswith('INVITE')]
    return q[0].split('\\r\\n\\r\\n', 1)[1] if q else None
'''
S += [
 ('codec-name-once', 'B08', [('b2bua.py', "            _allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]\n",
   "            allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]\n            _allowed_pts = allowed_pts\n")],
  'two media where the name of an allowed format is that of different numbers', 'the number of the first medium is taken for the second', COD + '''
h, v = 'H264/90000', 'VP8/90000'
t = through(sdp(med('video', '97 98', 'rtpmap:97 ' + h, 'rtpmap:98 ' + v), med('video', '97 98', 'rtpmap:97 ' + v, 'rtpmap:98 ' + h)), h)
ms = [l for l in t.split('\\r\\n') if l.startswith('m=')]
if [m.split()[3:] for m in ms] != [['97'], ['98']]: fail(ms)
'''),
 ('codec-attribute-left', 'B08', [('SdpMediaDescription.py', "        for ah in [x for x in self.a_headers if x.name in ('rtpmap', 'fmtp') and \\\n          x.value is not None]:\n",
   "        for ah in self.a_headers:\n            if ah.name not in ('rtpmap', 'fmtp') or ah.value is None:\n                continue\n")],
  'two attributes of removed formats one after the other', 'the second one stays', COD + '''
t = through(sdp(med('audio', '18 0', 'rtpmap:18 G729/8000', 'fmtp:18 annexb=no', 'rtpmap:0 PCMU/8000')), 0)
if ':18' in t or 'rtpmap:0' not in t: fail(t)
'''),
 ('codec-other-first', 'B08', [('b2bua.py', "            if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:\n                continue\n",
   "            if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:\n                break\n")],
  'a stream that is none of RTP in front of the others', 'the media behind it are not restricted', COD + '''
t = through(sdp(['m=image 4002 udptl t38', 'c=IN IP4 10.0.0.2'], med('audio', '18 0', 'rtpmap:18 G729/8000', 'rtpmap:0 PCMU/8000')), 0)
if 'RTP/AVP 0\\r\\n' not in t: fail(t)
if 'm=image 4002 udptl t38' not in t: fail(t)
'''),
 ('codec-relay-first', 'B08', [('b2bua.py', "        if prev_orc is not None:\n            return prev_orc(body, done_cb)\n        return body\n", "        return body\n"),
   ('b2bua.py', "            is_spe = isinstance(exception, SdpParseError)\n            if not is_spe:\n                dump_exception('can\\'t parse SDP body', extra = body.content)\n            raise SdpParseError(f'{exception}') from exception if not is_spe else exception\n",
    "            is_spe = isinstance(exception, SdpParseError)\n            if not is_spe:\n                dump_exception('can\\'t parse SDP body', extra = body.content)\n            raise SdpParseError(f'{exception}') from exception if not is_spe else exception\n        if prev_orc is not None:\n            body = prev_orc(body, done_cb)\n            if body is None:\n                return None\n")],
  'restricted formats and relayed media', 'the answer of the called party is not restricted', PRE + '''
from sippy.SdpBody import SdpBody
from sippy.MsgBody import MsgBody
r = BRig(_allowed_pts=[0]); r.invite(); cc = r.cm.ccmap[0]
seen = []
class RS:
    def on_callee_sdp_change(self, b, cb): seen.append(str(b))
    def on_caller_sdp_change(self, b, cb): return b
    class caller: raddress = None
    callee = caller
    def __getattr__(self, n): return lambda *a, **k: None
rs = cc.rtp_proxy_session = RS()
r.grant('10.0.0.3')
b = MsgBody('\\r\\n'.join(['v=0', 'o=- 1 1 IN IP4 10.0.0.2', 's=-', 't=0 0', 'm=audio 4000 RTP/AVP 18 0', 'c=IN IP4 10.0.0.2', '']))
cc.uaO.on_remote_sdp_change(b, None)
if len(seen) != 1 or 'RTP/AVP 0\\r\\n' not in seen[0]: fail(seen)
'''),
]
