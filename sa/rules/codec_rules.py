"""B08: where the media formats are restricted, only those allowed pass.

The controller is made and places a call in a world where the legs are objects that keep what they are given;
what they would call with a session description is followed on descriptions with symbols for what varies.
"""
from ..interp import K, S, NONE, TRUE, FALSE, AnchorError, show, is_k, kval, is_none
from ..repo import Ext, ClassInfo
from ..scen import must
from ..text import text_of
from .loop_rules import lines
from .media_rules import CLIENT, O, Judge, Media, MedCfg, MedI, carried, desc, expected, followed, fresh, good, text_want, typed, where, written
from .text_rules import Texts


class CtlCfg(MedCfg):
    """the legs are opaque"""
    opaque = tuple(MedCfg.opaque) + ('sippy.UA.', 'sippy.RadiusAccounting')

    def on_call2(self, interp, st, ev):
        if ev.name == 'WeakMethod':
            o = ('O', WEAK, Ext('weakref.WeakMethod'))
            st.sethp((o, 'target'), ev.args[0])
            return [(st, o)]
        return MedCfg.on_call2(self, interp, st, ev)


class Controller(Media):
    def __init__(self, ctx, allowed, relay):
        Media.__init__(self, ctx)
        self.cfg.__class__ = CtlCfg
        self.I.__class__ = CtlI
        st = self.st
        cfg = {'keepalive_ans': K(0), 'keepalive_orig': K(0), '_uaname': K('ua'), 'acct_enable': FALSE, 'start_acct_enable': FALSE, 'rtp_proxy_client': CLIENT}
        if allowed is not None:
            cfg['_allowed_pts'] = self.I.mklist(st, [K(x) for x in allowed])
        st.sethp((self.gc, 'map'), tuple((K(k), v) for k, v in cfg.items()))
        self.cc = self.one('sippy.b2bua.CallController', [self.val('{w.ip}'), ('T', (self.val('{w.ip}'), K(5060))), K(''), NONE, self.gc, self.I.mklist(st, [])])
        self.relay = None
        if relay:
            self.relay = self.session()
            self.st.sethp((self.cc, 'rtp_proxy_session'), self.relay)

    def one(self, cls, args):
        r = [(s, o) for s, o in self.made(cls, args) if o[0] != 'raised']
        if len(r) != 1:
            raise AnchorError('%s is not made in one way (%d)' % (cls, len(r)))
        self.st = r[0][0].copy()
        self.st.trace = None
        return r[0][1]

    def place(self, rtpp=True):
        """a call placed -> the states there are then"""
        st = self.st.copy()
        rt = ('O', 'route', self.repo.cls('B2BRoute'))
        pm = ('D', 'params')
        st.sethp((pm, 'map'), () if rtpp else ((K('rtpp'), FALSE),))
        for n, v in (('hostport', K('sip-ua')), ('hostonly', K('192.0.2.1')), ('cld', self.val('{w.cld}')), ('cli', self.val('{w.cli}')), ('params', pm), ('rnum', K(1)),
                     ('forward_on_fail', FALSE), ('credit_time', NONE), ('expires', NONE), ('no_progress_expires', NONE), ('no_reply_expires', NONE), ('user', NONE), ('passw', NONE),
                     ('extra_headers', self.I.mklist(st, [])), ('pass_auth', FALSE), ('ainfo', NONE)):
            st.sethp((rt, n), v)
        ev = ('O', 'try', self.repo.cls('CCEventTry'))
        cid = ('O', 'cid', self.repo.cls('SipCallId'))
        st.sethp((cid, 'body'), self.val('{w.cid}'))
        st.sethp((cid, 'parsed'), TRUE)
        st.sethp((ev, 'data'), ('T', (cid, self.val('{w.cli}'), self.val('{w.cld}'), NONE, NONE, NONE)))
        st.sethp((ev, 'max_forwards'), NONE)
        st.sethp((ev, 'reason_rfc3326'), NONE)
        st.sethp((self.cc, 'eTry'), ev)
        st.sethp((self.cc, 'username'), self.val('{w.user}'))
        st.sethp((self.cc, 'caller_name'), NONE)
        acct = ('O', 'acct', Ext('Accounting'))
        st.sethp((self.cc, 'acctA'), acct)
        return [(s, oc) for s, oc in self.I.run(must(self.repo, self.cc[2], 'placeOriginate'), self.cc, [rt], {}, st)]




WEAK = 'weak method'


class CtlI(MedI):
    """a weak reference to a living method gives the method"""
    def call(self, st, fv, recv, name, pos, kw, node, fr):
        if isinstance(fv, tuple) and fv[0] == 'O' and fv[1] == WEAK:
            return [(st, st.heap.get((fv, 'target'), NONE))]
        return MedI.call(self, st, fv, recv, name, pos, kw, node, fr)


def av(fm, attrs=(), i=1, kind='audio', tr='RTP/AVP', port=None):
    return ['m=%s %s %s %s' % (kind, port or '{n.p%d}' % i, tr, fm), 'c=IN IP4 {w.ca%d}' % i] + ['a=' + x for x in attrs]


R0, R8, R18 = 'rtpmap:0 {w.cn0}/{n.rt0}', 'rtpmap:8 {w.cn8}/{n.rt8}', 'rtpmap:18 {w.cn18}/{n.rt18}'
R97, R98 = 'rtpmap:97 H264/90000', 'rtpmap:98 VP8/90000'
T38 = ['m=image {n.p2} udptl t38', 'c=IN IP4 {w.ca2}', 'a=T38FaxVersion:{n.fv}']
NAMED = 'H264/90000'


def cases():
    """(what, allowed, media)"""
    n, m = [0, 8], [8, NAMED, 101]
    yield 'all allowed', n, [av('0 8', (R0, R8, 'ptime:{n.pt}'))]
    yield 'one not allowed', n, [av('0 18 8', (R0, R18, R8, 'fmtp:18 {f.prm}', 'ptime:{n.pt}', 'sendrecv'))]
    yield 'one not allowed, in another order', n, [av('18 8 0', (R18, 'fmtp:18 {f.prm}', 'fmtp:8 {f.prm8}', R8, R0))]
    yield 'two not allowed, one after the other', n, [av('18 3 0', (R18, 'rtpmap:3 {w.cn3}/{n.rt3}', 'fmtp:3 {f.p3}', R0, 'fmtp:0 {f.p0}'))]
    yield 'not allowed, not described', n, [av('18 0 4', ())]
    yield 'one allowed of all there are', [8], [av('0 8', (R0, R8))]
    yield 'none allowed', n, [av('18', (R18,))]
    yield 'none allowed in the second', n, [av('0', (R0,)), av('97', (R97,), 2, 'video')]
    yield 'none allowed in the first', m, [av('0', (R0,)), av('97', (R97,), 2, 'video')]
    yield 'two media, both have to lose', m, [av('8 0 101', (R8, R0, 'rtpmap:101 {w.te}/{n.ter}', 'fmtp:101 {f.ev}')), av('98 97', (R98, 'fmtp:98 {f.a}', R97, 'fmtp:97 {f.b}'), 2, 'video')]
    yield 'allowed by its name', [NAMED], [av('98 97', (R98, R97, 'fmtp:97 {f.b}'), 2, 'video')]
    yield 'allowed by its name, unlike numbers', [NAMED, 0], [av('0 97 98', (R98, R97)), av('97 0 98', ('rtpmap:97 VP8/90000', 'rtpmap:98 ' + NAMED), 2, 'video')]
    yield 'the name is that of none', [NAMED], [av('98', (R98,), 2, 'video')]
    yield 'the name begins alike', ['H264/90000'], [av('97 98', ('rtpmap:97 H264/90000/2', 'rtpmap:98 H264/90000'))]
    yield 'a name nothing in the description has', [0, NAMED], [av('0 18', (R0, R18))]
    yield 'a stream that is none of audio and video', n, [av('18 0', (R18, R0)), T38]
    yield 'only a stream that is none of audio and video', n, [T38]
    yield 'the stream first that is none of audio and video', n, [T38, av('18 0', (R18, R0), 3)]
    yield 'no media', n, []
    yield 'attributes with the text of a name', [NAMED], [av('98 97', ('fmtp:98 H264/90000', 'x-map:98 H264/90000', R98, R97, 'fmtp:97 {f.b}'), 2, 'video')]
    yield 'attributes of no number', n, [av('18 0', ('rtpmap:{w.odd} {w.odd2}', 'fmtp:{w.odd3}', R18, 'sendonly'))]
    for tr in ('RTP/SAVP', 'RTP/SAVPF', 'UDP/TLS/RTP/SAVP', 'UDP/TLS/RTP/SAVPF', 'rtp/avp', 'Rtp/Savpf'):
        yield 'transport ' + tr, n, [av('18 0', (R18, R0), tr=tr)]
        yield 'transport %s, none allowed' % tr, n, [av('18', (R18,), tr=tr)]
    yield 'text', n + [98], [av('98 97', ('rtpmap:98 t140/1000', 'rtpmap:97 red/1000', 'fmtp:97 98/98'), kind='text')]
    yield 'text, none allowed', n, [av('98', ('rtpmap:98 t140/1000',), kind='text')]
    yield 'application, by its name', ['H224/4800'], [av('0 100', ('rtpmap:100 H224/4800', R0), kind='application')]
    for bad in ('rtpmap', 'rtpmap:', 'rtpmap:98', 'rtpmap: {w.x}', 'rtpmap:{w.x}', 'rtpmap:{w.x} ' + NAMED, 'rtpmap: ' + NAMED, 'fmtp', 'fmtp:', 'fmtp:{w.x}'):
        yield 'unusable "%s"' % bad, m, [av('8 0 97', (R8, bad, R97))]
    yield 'nothing allowed by an unusable name', [NAMED], [av('0', ('rtpmap:{w.x} ' + NAMED,))]


AV = ('rtp/avp', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf')


def number(x):
    w = x.split()
    return int(w[0]) if w and w[0].isdigit() else None


def narrowed(ms, allowed):
    """what has to come out, None when the description has to be refused"""
    out = []
    for m in ms:
        ml = m[0].split()
        if ml[2].lower() in AV:
            names = {}
            for l in m:
                if l.startswith('a=rtpmap:'):
                    w = l[9:].split(None, 1)
                    if len(w) == 2 and w[0].isdigit():
                        names.setdefault(w[1], int(w[0]))
            ok = {names.get(x) if isinstance(x, str) else x for x in allowed}
            fm = [x for x in ml[3:] if int(x) in ok]
            if not fm:
                return None
            if len(fm) < len(ml[3:]):
                gone = lambda l: l[:l.find(':')] in ('a=rtpmap', 'a=fmtp') and number(l[l.find(':') + 1:]) is not None and str(number(l[l.find(':') + 1:])) not in fm
                m = [' '.join(ml[:3] + fm)] + [l for l in m[1:] if not gone(l)]
        out.append(m)
    return out


def handlers(p, relay):
    """where the descriptions of either leg go: (whose, with the relay?, state, handler)"""
    h = p.I.peek_attr(p.st, p.I.peek_attr(p.st, p.cc, 'uaA'), 'on_remote_sdp_change')
    yield 'the caller', False, p.st, h
    for on in (True, False) if relay else (False,):
        seen = []
        for st, oc in p.place(on):
            if oc[0] == 'raise':
                raise AnchorError('a call is not placed: %s' % show(oc[1]))
            h = p.I.peek_attr(st, p.I.peek_attr(st, p.cc, 'uaO'), 'on_remote_sdp_change')
            if h not in seen:
                seen.append(h)
                yield 'the callee%s' % (', the media relayed' if on and relay else ''), on and relay, st, h


def handling(p, v):
    return v[0] == 'O' and isinstance(v[2], ClassInfo) and p.repo.cls('SipHandlingError') in v[2].mro()


def b08(ctx):
    ctx.rule = 'where media formats are restricted only those allowed pass'
    w = where(ctx, 'placeOriginate', 'sippy.b2bua.CallController')
    for what, allowed, ms in cases():
        for relay in (False, True):
            p = Controller(ctx, allowed, relay)
            for who, relayed, st, h in handlers(p, relay):
                if relay and who == 'the caller':
                    continue
                one(ctx, p, w, '%s, %s' % (who, what), relayed, st, h, ms, narrowed(ms, allowed), 'unusable' in what)
    others(ctx, w)
    unrestricted(ctx, w)
    ctx.floor('descriptions offered', 100)
    ctx.floor('descriptions compared', 60)
    ctx.floor('descriptions refused', 20)


def one(ctx, p, w, what, relayed, st, h, ms, want, lax):
    ctx.count('descriptions offered')
    J = Judge(ctx, p, 'formats', w)
    if not J(not is_none(h), 'policy', '%s: nothing restricts the formats' % what, st):
        return
    p.st = st.copy()
    p.st.trace = None
    b = p.body(p.t(desc(ms)))
    r = p.I.callv(p.st.copy(), h, [b, S('CB')])
    if not r:
        raise AnchorError('%s: no path' % what)
    for s, oc in r:
        if oc[0] == 'raise':
            J(want is None or lax and handling(p, oc[1]), 'refused wrongly', '%s: it is refused with %s' % (what, show(oc[1])), s)
            J(handling(p, oc[1]), 'refusal', '%s: the refusal is %s, which ends the handling of the message' % (what, show(oc[1])), s)
            J(not p.asked(s) and not p.told(s), 'refused, but', '%s: it is refused, but the relay is asked or the outcome told' % what, s)
            ctx.count('descriptions refused')
            continue
        if not J(want is not None, 'not refused', '%s: a description with a medium of no allowed format is let through' % what, s):
            continue
        n = len(carried(want))
        if not relayed or not n:
            J(not is_none(oc[1]) and not p.told(s) and not p.asked(s), 'result', '%s: the description is not handed back' % what, s)
            if not is_none(oc[1]):
                written(J, p, what, s, oc[1], p.t(desc(want)), p.t(O)[2:])
            continue
        J(is_none(oc[1]), 'result', '%s: the description is handed back, the relay passed by' % what, s)
        for s2, bad in p.play(fresh(s), [p.val(good(i)) for i in range(n)]):
            told = p.told(s2)
            if J(not bad and len(told) == 1 and told[0].args and not is_none(told[0].args[0]), 'told', '%s: the outcome is told %d times' % (what, len(told)), s2):
                written(J, p, what, s2, told[0].args[0], text_want(p, expected(p, want)))


def others(ctx, w):
    """bodies of other kinds, and what cannot be read"""
    bad = av('18 0', (R18, R0))
    part = desc([bad])
    multi = '--{w.bnd}\r\nContent-Type: application/sdp\r\n\r\n%s--{w.bnd}--\r\n' % part
    for what, ct, text in (('a body of another kind', 'application/{w.kind}', '{w.some}'), ('a body of several parts', 'multipart/mixed; boundary={w.bnd}', multi),
                           ('no description', None, '{w.some}'), ('a description with a bad medium', None, desc([['m=audio {w.x} RTP/AVP 0', 'c=IN IP4 {w.ca}']])),
                           ('a description with no formats', None, desc([['m=audio {n.p} RTP/AVP', 'c=IN IP4 {w.ca}']])),
                           ('a description with a short medium', None, desc([['m=audio {n.p}', 'c=IN IP4 {w.ca}']])),
                           ('a description with a bad format', None, desc([['m=audio {n.p} RTP/AVP 0 {w.fm}', 'c=IN IP4 {w.ca}']]))):
        for relay in (False, True):
            p = Controller(ctx, [0, 8], relay)
            for who, relayed, st, h in handlers(p, relay):
                if is_none(h):
                    continue
                ctx.count('descriptions offered')
                J = Judge(ctx, p, 'formats', w)
                p.st = st.copy()
                p.st.trace = None
                b = typed(p, text, ct) if ct else p.body(p.t(text))
                for s, oc in p.I.callv(p.st.copy(), h, [b, S('CB')]):
                    if oc[0] == 'raise':
                        J(handling(p, oc[1]), 'refusal', '%s, %s: the refusal is %s, which ends the handling of the message' % (who, what, show(oc[1])), s)
                        J(what != 'a body of another kind', 'refused wrongly', '%s, %s: it is refused with %s' % (who, what, show(oc[1])), s)
                        ctx.count('descriptions refused')
                        continue
                    if what == 'a body of another kind':
                        for s2, oc2 in p.every(s, oc[1], '__str__') if not is_none(oc[1]) else ():
                            J(oc2 == ('ret', K(p.t(text))), 'other body', '%s, %s: it becomes %s' % (who, what, show(oc2[1])), s2)
                        J(not is_none(oc[1]), 'other body', '%s, %s: it is not handed back' % (who, what), s)
                    elif ct:
                        for s2, oc2 in p.every(s, oc[1], '__str__') if not is_none(oc[1]) else ():
                            t = text_of(oc2[1]) if oc2[0] == 'ret' else ''
                            J(t is not None and p.t(bad[0]) not in t, 'parts', '%s, %s: the formats in it are not restricted' % (who, what), s2)
                    else:
                        J(False, 'unreadable', '%s, %s: it is let through' % (who, what), s)


def unrestricted(ctx, w):
    """no formats are configured: nothing is restricted"""
    for relay in (False, True):
        p = Controller(ctx, None, relay)
        for who, relayed, st, h in handlers(p, relay):
            ms = [av('18 0', (R18, R0))]
            if is_none(h):
                ctx.count('descriptions offered')
                Judge(ctx, p, 'formats', w)(not relayed, 'relay', '%s: the media are not relayed' % who, st)
                continue
            one(ctx, p, w, who + ', nothing restricted', relayed, st, h, ms, ms, False)


RULES = {'B08': followed(b08)}
