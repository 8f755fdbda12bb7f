CALL = '''
from demolib import *
from sippy.UA import UA
from sippy.CCEvents import *
from sippy.MsgBody import MsgBody
from sippy.SipCallId import SipCallId
def ev(e, ua): pass
def cb(*a): pass
def mkuas(req, sip_t):
    global uas
    uas = UA(r.gc, event_cb = ev, disc_cbs=(cb,), fail_cbs=(cb,), conn_cbs=(cb,))
    return uas.recvRequest(req, sip_t)
r = Rig(mkuas)
def mkuac(**k):
    ua = UA(r.gc, event_cb = ev, nh_address = ('10.0.0.2', 5060), disc_cbs=(cb,), fail_cbs=(cb,), conn_cbs=(cb,), **k)
    ua.recvEvent(CCEventTry((SipCallId(), '100', '200', MsgBody(SDP % 1), None, 'nm')))
    return ua
def hs(data, name): return [v for n, v in parse(data)[1] if n.lower() == name.lower()]
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
'''
MSG = '''
from demolib import *
from sippy.SipRequest import SipRequest
from sippy.SipRoute import SipRoute
r = Rig(lambda *a: None)
def hs(data, name): return [v for n, v in parse(data)[1] if n.lower() == name.lower()]
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
def place(**k):
    r.out()
    req = SipRequest(request('INVITE', ruri = 'sip:b@10.0.0.2', body = SDP % 1, **k))
    req.setTarget((('10.0.0.7', 5070), 'udp'))
    t = r.tm.newTransaction(req, resp_cb = lambda *a: None)
    return req, t, r.out()[0]
'''
S = [
 ('msg-cancel-elsewhere', 'M04', [('SipRequest.py', "                          cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \\\n                          routes = self.getHFBCopys('route'), target = self.getTarget(), \\\n                          user_agent = self.user_agent)\n\n    def genRequest", "                          cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \\\n                          routes = self.getHFBCopys('route'), \\\n                          user_agent = self.user_agent)\n\n    def genRequest")],
  'a call placed through a next hop other than what its request URI names is cancelled', 'the CANCEL goes to the host of the request URI, the call rings on', MSG + '''
req, t, o = place()
r.rx(reply(o, 180)); r.srv.sent = []
r.tm.cancelTransaction(t)
to = [a for s in FakeServer.all for d, a in s.sent if d.startswith('CANCEL')]
if to != [('10.0.0.7', 5070)]: fail(to)
'''),
 ('msg-ack-route-order', 'M04', [('SipTransactionManager.py', "                        routes = [x.getCopy() for x in msg.getHFBodys('record-route')]\n                        routes.reverse()\n                        if len(routes) > 0:\n", "                        routes = [x.getCopy() for x in msg.getHFBodys('record-route')]\n                        if len(routes) > 0:\n                            routes.append(routes.pop(0))\n")],
  'the answer to a call was record-routed by three proxies', 'the ACK visits them in the wrong order', MSG + '''
for n in (1, 2, 3):
    req, t, o = place(branch = 'z9hG4bKb%d' % n, callid = 'c%d' % n)
    r.rx(reply(o, 200, body = SDP % 2, extra = chr(10).join('Record-Route: <sip:10.0.0.%d;lr>' % (20 + i) for i in range(n))))
    a = [d for s in FakeServer.all for d, _ in s.sent if d.startswith('ACK')][-1]
    want = ['<sip:10.0.0.%d;lr>' % (20 + i) for i in reversed(range(n))]
    if hs(a, 'route') != want: fail(n, hs(a, 'route'))
'''),
 ('msg-response-shares-to', 'M04', [('SipRequest.py', "to = self.getHFBCopy('to'), cseq = self.getHFBCopy('cseq')", "to = self.getHFBody('to'), cseq = self.getHFBCopy('cseq')")],
  'a tag is put into the To of a response while the request is still to be used', 'the request gets the tag too: it looks like one within a dialog', MSG + '''
req = SipRequest(request('INVITE', body = SDP % 1))
p = req.genResponse(180, 'Ringing')
p.getHFBody('to').setTag('mine')
if req.getHFBody('to').getTag() is not None: fail(req.getHFBody('to'))
'''),
 ('dlg-late-bye-no-tag', 'M05', [('UacStateCancelling.py', "            self.ua.rUri.setTag(resp.getHFBody('to').getTag())\n", "            if len(self.ua.routes) == 0:\n                self.ua.rUri.setTag(resp.getHFBody('to').getTag())\n")],
  'a call is cancelled, the answer crosses the CANCEL and came through a record-routing proxy', 'the BYE that ends it carries no To tag and is refused', CALL + '''
for rr in ('', 'Record-Route: <sip:10.0.0.2;lr>'):
    ua = mkuac(); o = [x for x in r.out() if x.startswith('INVITE')][0]
    r.rx(reply(o, 180, ttag = None)); ua.recvEvent(CCEventDisconnect()); r.out()
    r.rx(reply(o, 200, ttag = 'late', extra = rr, body = SDP % 2))
    b = [x for x in r.out() if x.startswith('BYE')]
    if len(b) != 1 or 'tag=late' not in hdr(b[0], 'To'): fail(rr, [hdr(x, 'To') for x in b])
'''),
 ('dlg-strict-address', 'M05', [('UasStateIdle.py', "                self.ua.rTarget = self.ua.routes.pop(0).getUrl()\n                self.ua.rAddr = self.ua.rTarget.getTAddr()", "                self.ua.rAddr = self.ua.rTarget.getTAddr()\n                self.ua.rTarget = self.ua.routes.pop(0).getUrl()")],
  'the call came in through a strict router', 'requests within the call bypass the router', CALL + '''
r.rx(request('INVITE', body = SDP % 1, extra = 'Record-Route: <sip:10.0.0.77:5099>' + chr(10)))
uas.recvEvent(CCEventConnect((200, 'OK', MsgBody(SDP % 9))))
o = [x for x in r.out() if ' 200 ' in line(x)][0]
r.rx(request('ACK', ttag = hdr(o, 'To').split('tag=')[1], branch = 'z9hG4bKack'))
uas.recvEvent(CCEventDisconnect())
b = [(d, a) for s in FakeServer.all for d, a in s.sent if d.startswith('BYE')]
if len(b) != 1 or b[0][1] != ('10.0.0.77', 5099) or line(b[0][0]).split()[1] != 'sip:10.0.0.77:5099': fail([(line(d), a) for d, a in b])
'''),
 ('dlg-cseq-reinvite', 'M05', [('UA.py', "        if method == 'INVITE':\n            self.reqs[self.lCSeq] = req\n        self.lCSeq += 1\n", "        if method == 'INVITE':\n            self.reqs[self.lCSeq] = req\n        if method != 'INFO':\n            self.lCSeq += 1\n")],
  'a call carries two requests of the INFO kind, or one and then another request', 'they have the same CSeq; the second is taken for a retransmission or refused as out of order', CALL + '''
ua = mkuac(); o = r.out()[0]
r.rx(reply(o, 200, body = SDP % 2)); r.out()
ua.recvEvent(CCEventInfo(None)); i = [x for x in r.out() if x.startswith('INFO')]
ua.recvEvent(CCEventDisconnect()); b = [x for x in r.out() if x.startswith('BYE')]
n = [int(hdr(x, 'CSeq').split()[0]) for x in [o] + i + b]
if len(n) != 3 or n[0] + 1 != n[1] or n[1] + 1 != n[2]: fail(n)
'''),
]
S += [
 ('copy-param-order', 'M01', [('SipAddress.py', "params_order = self.params_order[:])", "params_order = self.params_order)")],
  'a parameter is added to the copy of an address, then the original is written out or gets a parameter of that name', 'the original names a parameter it does not have', MSG + '''
from sippy.SipFrom import SipFrom
f = SipFrom('<sip:a@b>;x=1'); f.parse()
before = str(f)
c = f.getCopy()
c.getUri().setParam('tag', 'zz')
c.getUri().setParam('y', '2')
try:
    after = str(f)
except Exception as e:
    fail('writing the original raises', e)
if after != before or str(c) != '<sip:a@b>;x=1;tag=zz;y=2': fail(after, str(c))
'''),
 ('copy-challenge-answer', 'M01', [('SipAuthorization.py', "self.otherparams = cself.otherparams[:]", "self.otherparams = []")],
  'credentials that have parameters besides the standard ones are parsed and then passed on', 'the other parameters (opaque, algorithm variants) are lost', MSG + '''
from sippy.SipAuthorization import SipAuthorization
a = SipAuthorization('Digest username="u",realm="r",nonce="n",uri="sip:x",response="00",opaque="zzz",foo="bar"')
if 'zzz' not in str(a.getCopy()): fail('unparsed')
a.parse()
if str(a.getCopy()) != str(a): fail(str(a), str(a.getCopy()))
'''),
 ('copy-section-shared', 'M01', [('SdpMediaDescription.py', "self.a_headers = [x.getCopy() for x in cself.a_headers]", "self.a_headers = cself.a_headers")],
  'an attribute is added to or removed from the copy of a media description', 'the session description it was copied from changes too', MSG + '''
from sippy.SdpBody import SdpBody
b = SdpBody(SDP.replace(chr(10), chr(13) + chr(10)) % 1)
before = str(b)
c = b.getCopy()
c.sections[0].addHeader('a', 'sendonly')
c.sections[0].insertHeader(0, 'a', 'ptime:20')
if str(b) != before: fail(str(b))
'''),
]
S += [
 ('text-user-percent', 'M02', [('SipURL.py', "USERNAME_SAFE = RFC3261_USER_UNRESERVED + RFC3261_MARK", "USERNAME_SAFE = RFC3261_USER_UNRESERVED + RFC3261_MARK + '%'")],
  'a user name that has a percent sign in it (sent as %25)', 'the percent sign is written unescaped and swallows what follows when read again', MSG + '''
from sippy.SipURL import SipURL
u = SipURL('sip:50%2541x@h.example')
if u.username != '50%41x': fail(u.username)
if SipURL(str(u)).username != u.username: fail(str(u))
'''),
 ('text-replaces-early', 'M02', [('SipReplaces.py', "        if self.early_only:\n", "        if self.early_only and not self.params:\n")],
  'a Replaces header with early-only and a parameter of another kind, parsed and passed on', 'early-only is lost: a call that was answered meanwhile is taken over', MSG + '''
from sippy.SipReplaces import SipReplaces
for t in ('1@h;from-tag=a;to-tag=b;early-only;x=y', '1@h;from-tag=a;to-tag=b;early-only', '1@h;from-tag=a;to-tag=b;x=y'):
    r = SipReplaces(t)
    r.parse()
    if str(r) != t: fail(t, str(r))
'''),
 ('text-name-escaped-quote', 'M02', [('SipAddress.py', r"if pos1 == 0 or s[pos1 - 1] != '\\':", "if True:")],
  'a quoted display name with an escaped quotation mark followed by an angle bracket', 'the name ends early and the address is refused', MSG + r'''
from sippy.SipFrom import SipFrom
for t in ('"a \\"b\\" c" <sip:u@h>;tag=1', '"a\\"<b" <sip:u@h>;tag=1', '"a <b>" <sip:u@h>;tag=1'):
    f = SipFrom(t)
    try:
        f.parse()
    except Exception as e:
        fail(t, type(e), e)
    if str(f) != t or f.getTag() != '1' or f.getUrl().username != 'u': fail(t, str(f))
'''),
 ('text-empty-line-first', 'M03', [('SipMsg.py', "for bdel in ('\\r\\n\\r\\n', '\\r\\r', '\\n\\n'):", "for bdel in ('\\n\\n', '\\r\\r', '\\r\\n\\r\\n'):")],
  'a message with the usual line ends and a text body that has an empty line ended by LF alone', 'the headers are taken to reach into the body, which loses its first part', MSG + r"""
b = 'one\n\ntwo\r\n'
t = request('MESSAGE', body = 'x' * len(b))
h, _, x = t.rpartition('\r\n\r\n')
if x.strip() != 'x' * len(b): fail('setup', repr(t))
q = SipRequest(h + '\r\n\r\n' + b)
q.init_body()
if str(q.body) != b: fail(repr(str(q.body)))
"""),
 ('text-fold-tab', 'M03', [('SipMsg.py', "if len(lines[i]) == 0 or lines[i][0] in (' ', '\\t'):", "if len(lines[i]) == 0 or lines[i][0] == ' ':")],
  'a header folded with a tab', 'the continuation is taken for a header of its own, the message is refused or misread', MSG + r"""
for ws in (' ', '\t', '  '):
    t = request('OPTIONS').replace('Max-Forwards:', 'Subject: one\r\n%stwo: three\r\nMax-Forwards:' % ws)
    if 'one' not in t: t = request('OPTIONS').replace('\r\n\r\n', '\r\nSubject: one\r\n%stwo: three\r\n\r\n' % ws)
    q = SipRequest(t)
    v = [str(h) for h in q.headers if h.name == 'subject']
    if v != ['Subject: one two: three']: fail(repr(ws), v)
"""),
 ('text-zero-length', 'M03', [('SipMsg.py', "                self.__mbody = None\n                mblen = 0\n", "                mblen = 0\n")],
  'a message that announces a body of no bytes and is followed by something in the same datagram', 'what follows is taken for its body', MSG + r"""
for t in ('', 'v=0\r\n', '\r\n\r\n'):
    q = SipRequest(request('OPTIONS') + t)
    q.init_body()
    if q.body is not None: fail(repr(t), repr(str(q.body)))
"""),
 ('sdp-common-connection', 'M06', [('SdpBody.py', "            if optimize_c_headers and section.c_header != None and \\\n              section.c_header.localStr(local_addr) == sections_0_str:", "            if optimize_c_headers and section.c_header != None:")],
  'a description of three media, the first two of which share a connection address', 'the third is sent to the address of the others', MSG + r"""
from sippy.SdpBody import SdpBody
H = 'v=0\r\no=- 1 1 IN IP4 10.0.0.1\r\ns=-\r\nt=0 0\r\n'
for a in (('1', '1'), ('1', '2'), ('1', '1', '2'), ('1', '2', '1'), ('1', '1', '1')):
    b = SdpBody(H + ''.join('m=audio %d RTP/AVP 0\r\nc=IN IP4 10.0.0.%s\r\n' % (4000 + i, x) for i, x in enumerate(a)))
    v = [s.c_header.addr for s in SdpBody(b.localStr((('10.9.9.9', 5060), 'udp'))).sections]
    if v != ['10.0.0.' + x for x in a]: fail(a, v)
"""),
 ('sdp-attribute-colon', 'M06', [('SdpMediaDescription.py', "parts = s.split(':', 1)", "parts = s.split(':')")],
  'an attribute with a colon in its value (fingerprints, candidates, crypto keys)', 'the value is cut at the colon', MSG + r"""
from sippy.SdpMediaDescription import a_header
for t in ('sendrecv', 'rtpmap:0 PCMU/8000', 'fingerprint:sha-256 AA:BB:CC', 'crypto:1 X inline:abc', 'x:'):
    if str(a_header(t)) != t: fail(t, str(a_header(t)))
"""),
 ('body-part-empty-line', 'M06', [('MultipartMixBody.py', "headersect, sect = sect.split('\\r\\n\\r\\n', 1)", "headersect, sect = sect.rsplit('\\r\\n\\r\\n', 1)")],
  'a part of a body that has an empty line in it', 'its beginning is taken for headers', MSG + r"""
from sippy.MsgBody import MsgBody
from sippy.SipContentType import SipContentType
ct = SipContentType('multipart/mixed;boundary=bZ'); ct.parse()
for c in ('one\r\n', 'a: b\r\n\r\nc: d\r\n'):
    b = MsgBody('--bZ\r\nContent-Type: text/plain\r\n\r\n' + c + '--bZ--\r\n', ct)
    b.parse()
    if str(b.content.parts[0]) != c: fail(repr(c), repr(str(b.content.parts[0])))
"""),
]
