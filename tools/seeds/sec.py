PRE = '''
from demolib import *
def fail(*a):
    print('FAIL', *a); sys.exit(1)
'''
S = [
 ('sec-nonce-any-alg', 'S01', [('Security/SipNonce.py', "        for ms in cmask:\n            if (ms & decryptic) == 0:\n                return False\n", "        asked = sum(cmask)\n        if asked != 0 and (asked & decryptic) == 0:\n            return False\n")],
  'a nonce issued for one algorithm is presented where two are asked for', 'it is accepted though one of them was never offered', PRE + '''
import sippy.Security.SipNonce as n
h = n.HashOracle()
c = h.emit_challenge((n.DGST_SHA256,))
if not h.validate_challenge(c, (n.DGST_SHA256,)): fail('own')
if h.validate_challenge(c, (n.DGST_SHA256, n.DGST_MD5)): fail('other')
if not h.validate_challenge(c, ()): fail('none')
'''),
 ('sec-nonce-future', 'S01', [('Security/SipNonce.py', "        if tsdiff < 0 or tsdiff > self.vtime:", "        if abs(tsdiff) > self.vtime:")],
  'the clock reads less than when the nonce was issued', 'a nonce from the future is accepted', PRE + '''
import sippy.Security.SipNonce as n
h = n.HashOracle()
real = n.getntime if hasattr(n, 'getntime') else None
import sippy.Security.SipNonce as m
names = [k for k in dir(m) if 'getntime' in k]
if not names: names = [k for k in dir(m) if callable(getattr(m, k)) and 'time' in k.lower()]
T = [10**12]
for k in names: setattr(m, k, lambda *a: T[0])
c = h.emit_challenge((n.DGST_MD5,))
if not h.validate_challenge(c, (n.DGST_MD5,)): fail('now')
T[0] -= 5 * 10**9
if h.validate_challenge(c, (n.DGST_MD5,)): fail('future')
T[0] += 50 * 10**9
if h.validate_challenge(c, (n.DGST_MD5,)): fail('late')
'''),
 ('sec-int-sess-body', 'S02', [('SipAuthorization.py', "        m1 = hashfunc()\n        m1.update(pszHEntity.encode())", "        m1 = md5()\n        m1.update(pszHEntity.encode())")],
  'a challenge asks for the body to be protected with an algorithm other than MD5', 'the body hash is made with MD5, the answer is refused by the other side', PRE + '''
from hashlib import sha256, md5
from sippy.SipAuthorization import DigestCalcHA1, DigestCalcResponse
for alg, h in (('MD5', md5), ('SHA-256', sha256)):
    H = lambda *a: h(':'.join(a).encode()).hexdigest()
    ha1 = DigestCalcHA1(alg, 'u', 'r', 'p', 'n', 'c')
    r = DigestCalcResponse(alg, ha1, 'n', '00000001', 'c', 'auth-int', 'INVITE', 'sip:x', 'body')
    if r != H(ha1.decode(), 'n', '00000001', 'c', 'auth-int', H('INVITE', 'sip:x', H('body'))): fail(alg)
'''),
 ('sec-answer-opaque', 'S02', [('SipWWWAuthenticate.py', "        if self.opaque != None:\n            auth.otherparams.append(('opaque', f'\"{self.opaque}\"'))\n", "            if self.opaque != None:\n                auth.otherparams.append(('opaque', f'\"{self.opaque}\"'))\n")],
  'a challenge with an opaque value but without quality of protection', 'the answer lacks the opaque value and is challenged again', PRE + '''
from sippy.SipWWWAuthenticate import SipWWWAuthenticate
for q in ('', ', qop="auth"'):
    w = SipWWWAuthenticate('Digest realm="r", nonce="n", opaque="zzz"' + q)
    w.parse()
    a = str(w.genAuthHF('u', 'p', 'INVITE', 'sip:x', qop = 'auth' if q else None))
    if 'opaque="zzz"' not in a: fail(a)
'''),
 ('sec-shared-tag', 'S03', [('SipCallId.py', "    def genCallId(self):\n        self.body = token_hex(16)", "    def genCallId(self, cid = token_hex(16)):\n        self.body = cid")],
  'a second call is placed by the same process', 'it has the Call-ID of the first one', PRE + '''
from sippy.SipCallId import SipCallId
l = [str(SipCallId()) for i in range(3)]
if len(set(l)) != 3 or min(len(x) for x in l) < 16: fail(l)
'''),
 ('sec-guid-half', 'S03', [('SipCiscoGUID.py', "s[i:i + 4]", "s[i & 4:(i & 4) + 4]")],
  'a call GUID is made up', 'its second half repeats the first', PRE + '''
from sippy.SipCiscoGUID import SipCiscoGUID
for i in range(4):
    g = SipCiscoGUID().getCiscoGUID()
    if len(g) != 4 or len(set(g)) != 4: fail(g)
'''),
]
