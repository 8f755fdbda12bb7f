"""M06: session descriptions and bodies of several parts keep their meaning between reading and writing.

The texts have symbols for everything that varies. What is written is read back here by the rules of the
format (one line a statement, a connection line of the session holds for the media without their own), so that
only the meaning of the text counts and not the way chosen to write it.
"""
import re

from ..interp import K, NONE, TRUE, AnchorError, show
from ..text import text_of
from .text_rules import Texts, FAR
from .loop_rules import lines
from ..scen import must

ORDER = 'vosiuepcbtrzka'
MORDER = 'micbka'
TOKENS = 'omc'


def meaning(text):
    """-> (lines of the session, [(media line, connection, other lines)]), problem"""
    if not text.endswith('\r\n') and not text.endswith('\n'):
        return None, 'its last line is not ended'
    sess, media, conn = [], [], None
    ls = text.replace('\r\n', '\n').split('\n')[:-1]
    for ln in ls:
        if len(ln) < 2 or ln[1] != '=':
            if ln.strip() == '':
                continue
            return None, 'it has a line of no type: %r' % ln
        k, v = ln[0], ln[2:]
        if k in TOKENS:
            v = ' '.join(v.split())
        if k == 'm':
            media.append([v, [], []])
        elif k == 'c' and media:
            media[-1][1].append(v)
        elif k == 'c':
            conn = v
        elif media:
            media[-1][2].append((k, v))
        else:
            sess.append((k, v))
    out = []
    for m, c, rest in media:
        out.append((m, tuple(c or [conn]), tuple(sorted((x for x in rest if x[0] != 'a'), key=lambda x: x[0])), tuple(x[1] for x in rest if x[0] == 'a')))
    s1 = tuple(sorted((x for x in sess if x[0] != 'a'), key=lambda x: x[0]))
    return (s1, tuple(x[1] for x in sess if x[0] == 'a'), conn if not media else None, tuple(out)), None


def ordered(text):
    last, order = -1, ORDER
    for ln in text.split('\r\n'):
        if ln == '':
            continue
        if ln[0] == 'm':
            order, last = MORDER, -1
        i = order.find(ln[0])
        if i < last or i < 0:
            return ln
        last = i
    return None


V, O, S_, T = 'v=0', 'o={w.u} {n.sid} {n.ver} IN IP4 {w.oa}', 's={f.s}', 't={n.t1} {n.t2}'
HEAD = [V, O, S_]
C4, C4b, C6 = 'c=IN IP4 {w.ca}', 'c=IN IP4 {w.cb}', 'c=IN IP6 {w.cc}'
AUDIO = ['m=audio {n.p1} RTP/AVP {n.f1} {n.f2} {n.f3}', 'a=rtpmap:{n.f1} {w.codec}/{n.rate}', 'a=fmtp:{n.f2} {w.fp}={f.fmt}:{f.fm2}=={f.fm3}', 'a=sendrecv', 'a={w.an}:{f.av}']
VIDEO = ['m=video {n.p2} RTP/SAVPF {n.g1} {n.g2}', 'i={f.info}', 'b={f.b1}', 'b={f.b2}', 'k={f.k}', 'a={w.vn}:{f.vv}', 'a=rtcp-fb:* nack']
IMAGE = ['m=image {n.p3} udptl t38', 'a=T38FaxVersion:{n.fv}', 'a={w.flag}']
APPL = ['m=application {n.p4} UDP/DTLS/SCTP webrtc-datachannel', 'a=sctp-port:{n.sp}', 'a=mid:{w.mid}']
REST = ['i={f.i}', 'u={f.u}', 'e={f.e1}', 'e={f.e2}', 'p={f.ph1}', 'p={f.ph2}']
REST2 = ['b=AS:{n.b1}', 'b=TIAS:{n.b2}', T, 'r={f.r}', 'z={f.z}', 'k={f.k}', 'a={w.sa}:{f.sv}', 'a={w.sf}', 'a=group:BUNDLE {w.m1} {w.m2}']


def med(m, c=None, at=1):
    """a medium with its connection line where the format puts it"""
    if c is None:
        return list(m)
    i = 2 if len(m) > 1 and m[1][0] == 'i' else 1
    return m[:i] + [c] + m[i:]


def descriptions():
    tops = [('', HEAD, [T]), ('every line ', HEAD + REST, REST2)]
    for nm, a, b in tops:
        for cs, sc in (('with', C4), ('without', None)):
            top = a + ([sc] if sc else []) + b
            yield '%s%s session connection, no media' % (nm, cs), top
            yield '%s%s session connection, own connection' % (nm, cs), top + med(AUDIO, C4b)
            yield '%s%s session connection, two media of one connection' % (nm, cs), top + med(AUDIO, C4b) + med(VIDEO, C4b)
            yield '%s%s session connection, two media of two connections' % (nm, cs), top + med(AUDIO, C4b) + med(VIDEO, C6)
            yield '%s%s session connection, a connection like the session has' % (nm, cs), top + med(AUDIO, C4b) + med(IMAGE, C4)
            for i, pat in enumerate(((C4, C4, C4b), (C4, C4b, C4), (C4b, C4, C4), (C6, C6, C6), (C4, C4b, C6))):
                yield '%s%s session connection, three media, layout %d' % (nm, cs, i + 1), top + med(AUDIO, pat[0]) + med(IMAGE, pat[1]) + med(APPL, pat[2])
            if sc:
                yield '%sone medium without connection' % nm, top + med(AUDIO)
                yield '%stwo media without connection' % nm, top + med(AUDIO) + med(VIDEO)
                yield '%stwo media, the first without connection' % nm, top + med(AUDIO) + med(VIDEO, C4b)
                yield '%stwo media, the last without connection' % nm, top + med(AUDIO, C6) + med(IMAGE)
                yield '%sfour media, two without connection' % nm, top + med(AUDIO) + med(VIDEO, C4b) + med(IMAGE, C4b) + med(APPL)


def one(ctx, p, what, ls, eol='\r\n', tail=''):
    key = 'description'
    text = p.t(eol.join(ls) + eol) + tail
    want, bad = meaning(text)
    if bad:
        raise AnchorError('%s: %s' % (what, bad))
    n = 0
    f = must(ctx.repo, ctx.repo.cls('SdpBody'), '__init__')
    w = f.where(f.node)
    for s, o in p.made('SdpBody', [K(text)]):
        n += 1
        if o[0] == 'raised':
            ctx.check(False, key + ' refused', w, '%s: reading it fails with %s' % (what, show(o[1])), lines(s))
            continue
        ctx.count('descriptions read')
        objs = [(s, o, '')]
        for s2, oc in p.every(s, o, 'getCopy'):
            if oc[0] == 'raise':
                ctx.check(False, key + ' copy', w, '%s: copying it fails with %s' % (what, show(oc[1])), lines(s2))
            else:
                objs.append((s2, oc[1], 'its copy '))
        for s2, o2, cp in objs:
            for nm, a in (('__str__', ()), ('localStr', (NONE,)), ('localStr', (FAR,))):
                for s3, oc in p.every(s2, o2, nm, a):
                    judge(ctx, p, key, w, '%s, %swritten by %s' % (what, cp, nm), s3, oc, want)
    if not n:
        raise AnchorError('%s is not read on any path' % what)


def judge(ctx, p, key, w, what, s, oc, want):
    ctx.count('descriptions written')
    if oc[0] == 'raise':
        return ctx.check(False, key + ' write', w, '%s: it fails with %s' % (what, show(oc[1])), lines(s))
    t = text_of(oc[1])
    if t is None:
        raise AnchorError('%s: the text is not understood: %s' % (what, show(oc[1])[:200]))
    got, bad = meaning(t)
    ctx.check(bad is None, key + ' form', w, '%s: %s' % (what, bad), lines(s))
    if bad:
        return
    x = ordered(t)
    ctx.check(x is None, key + ' order', w, '%s: the line "%s" is out of order' % (what, p.N.show(x or '')), lines(s))
    if got == want:
        return ctx.check(True, key, w, '')
    for part, a, b in (('lines of the session', got[0], want[0]), ('attributes of the session', got[1], want[1]), ('the connection', got[2], want[2])):
        ctx.check(a == b, key + ' ' + part, w, '%s: %s: %s, should be %s' % (what, part, p.N.show(repr(a)), p.N.show(repr(b))), lines(s))
    ctx.check(len(got[3]) == len(want[3]), key + ' media', w, '%s: %d media, should be %d' % (what, len(got[3]), len(want[3])), lines(s))
    for i, (a, b) in enumerate(zip(got[3], want[3])):
        for part, x, y in zip(('media line', 'media connection', 'lines of a medium', 'attributes of a medium'), a, b):
            ctx.check(x == y, key + ' ' + part, w, '%s: %s %d: %s, should be %s' % (what, part, i + 1, p.N.show(repr(x)), p.N.show(repr(y))), lines(s))


def parts_of_model(p, s, o, pth):
    for s2, v in p.path(s, o, pth):
        yield s2, v


def model(ctx, p):
    """what the program finds in a description it has read"""
    text = p.t('\r\n'.join(HEAD + [C4] + [T] + AUDIO + med(IMAGE, C6)) + '\r\n')
    f = must(ctx.repo, ctx.repo.cls('SdpBody'), '__init__')
    w = f.where(f.node)
    for s, o in p.made('SdpBody', [K(text)]):
        if o[0] == 'raised':
            ctx.check(False, 'description refused', w, 'reading a description fails with %s' % show(o[1]), lines(s))
            continue
        sec = p.I.seq_items(p.I.peek_attr(s, o, 'sections'), s)
        if sec is None or len(sec) != 2:
            ctx.check(False, 'description media', w, 'the media of a description are not found', lines(s))
            continue
        for i, want in ((0, {'m_header.port': '#{n.p1}', 'm_header.transport': 'RTP/AVP', 'm_header.formats': ['#{n.f1}', '#{n.f2}', '#{n.f3}'], 'c_header.addr': '{w.ca}', 'c_header.atype': 'IP4'}),
                        (1, {'m_header.port': '#{n.p3}', 'm_header.transport': 'udptl', 'm_header.formats': ['t38'], 'c_header.addr': '{w.cc}', 'c_header.atype': 'IP6'})):
            for nm, x in want.items():
                for s2, v in p.path(s, sec[i], nm):
                    p.same('description', w, 'the medium %d' % (i + 1), nm, s2, v, p.val(x))
        ah = p.I.seq_items(p.I.peek_attr(s, sec[0], 'a_headers'), s) or ()
        ctx.check(len(ah) == len(AUDIO) - 1, 'description attributes', w, 'a medium has %d attributes, should have %d' % (len(ah), len(AUDIO) - 1), lines(s))
        for x, y in zip(ah, AUDIO[1:]):
            nm, m, v = p.t(y[2:]).partition(':')
            for k, z in (('name', K(nm)), ('value', K(v) if m else NONE)):
                p.same('description', w, 'the attribute ' + y, k, s, p.I.peek_attr(s, x, k), z)
        # what a relay changes is what is written
        for cp in (False, True):
            if cp:
                r = [(s2, oc[1]) for s2, oc in p.every(s, o, 'getCopy') if oc[0] == 'ret']
            else:
                r = [(s.copy(), o)]
            for s2, o2 in r:
                sec2 = p.I.seq_items(p.I.peek_attr(s2, o2, 'sections'), s2)
                m2, c2 = p.I.peek_attr(s2, sec2[0], 'm_header'), p.I.peek_attr(s2, sec2[0], 'c_header')
                s2.sethp((m2, 'port'), ('OP', 'int', K(p.N.num('relay port'))))
                s2.sethp((c2, 'addr'), K(p.N.word('relay')))
                for s3, oc in p.every(s2, sec2[0], 'addHeader', [K('a'), K(p.t('{w.xn}:{f.xv}'))]):
                    if oc[0] == 'raise':
                        ctx.check(False, 'description change', w, 'an attribute cannot be added', lines(s3))
                        continue
                    t2 = p.t('\r\n'.join(HEAD + [T, 'm=audio @P RTP/AVP {n.f1} {n.f2} {n.f3}', 'c=IN IP4 @A'] + AUDIO[1:] + ['a={w.xn}:{f.xv}'] + med(IMAGE, C6)) + '\r\n')
                    t2 = t2.replace('@P', p.N.num('relay port')).replace('@A', p.N.word('relay'))
                    for nm, a in (('__str__', ()), ('localStr', (FAR,))):
                        for s4, oc2 in p.every(s3, o2, nm, a):
                            judge(ctx, p, 'description changed', w, 'a description with the relay put in, written by %s' % nm, s4, oc2, meaning(t2)[0])


def incomplete(ctx, p):
    f = must(ctx.repo, ctx.repo.cls('SdpBody'), '__init__')
    w = f.where(f.node)
    full = HEAD + [T]
    for x in full:
        for rest in ([C4] + AUDIO, med(AUDIO, C4), []):
            ls = [y for y in full if y != x] + rest
            for s, o in p.made('SdpBody', [K(p.t('\r\n'.join(ls) + '\r\n'))]):
                ctx.count('incomplete descriptions')
                ctx.check(o[0] == 'raised', 'description incomplete', w, 'a description without "%s=" line is accepted' % x[0], lines(s))
    for ls in (full + AUDIO, full + med(AUDIO, C4) + VIDEO, full + VIDEO + med(AUDIO, C4)):
        for s, o in p.made('SdpBody', [K(p.t('\r\n'.join(ls) + '\r\n'))]):
            ctx.count('incomplete descriptions')
            ctx.check(o[0] == 'raised', 'description incomplete', w, 'a description with a medium that has no connection is accepted', lines(s))


# ---------------------------------------------------------------- several parts
def mparts(text, bnd):
    """-> [(type, headers, content)], problem"""
    sep = '--' + bnd
    ps = text.split(sep)
    if ps[0].strip() != '':
        return None, 'something precedes the first part'
    if ps[-1].strip() != '--' or not ps[-1].startswith('--'):
        return None, 'the last part is not ended'
    out = []
    for x in ps[1:-1]:
        h, m, c = x.partition('\r\n\r\n')
        if not m or not x.startswith('\r\n'):
            return None, 'a part has no end of headers'
        if not c.endswith('\r\n'):
            return None, 'a part is not ended by a line end'
        hs = [y.split(':', 1) for y in h.split('\r\n') if y.strip()]
        if any(len(y) != 2 for y in hs):
            return None, 'a part has a header of no name'
        hs = [(a.strip().lower(), b.strip()) for a, b in hs]
        ct = [b for a, b in hs if a in ('content-type', 'c')]
        out.append((ct or ['text/plain'], [(a, b) for a, b in hs if a not in ('content-type', 'c')], c))
    return out, None


SDP = '\r\n'.join(HEAD + [C4, T] + AUDIO) + '\r\n'
PART = [
    ('a description', ['Content-Type: application/sdp'], SDP),
    ('a part with headers', ['Content-Disposition: {f.disp}', 'Content-Type: {w.ty}/{w.st}', 'Content-ID: <{w.id}@{w.dom}>', 'X-Ref: {f.hv}'], '{f.c1}\r\n{f.c2}\r\n\r\n{f.c3}\r\n'),
    ('a part without type', ['Content-Transfer-Encoding: binary'], '{f.c4}\r\n'),
    ('a part without headers', [], '{f.c5}\r\n'),
    ('a part with an own parameter', ['Content-Type: {w.ty}/{w.st};charset={w.cs}'], '{f.c6}\r\n--{f.c7}\r\n'),
]


def multipart(ctx, p):
    key = 'parts'
    ci = ctx.repo.cls('MultipartMixBody')
    f = must(ctx.repo, ci, '__init__')
    w = f.where(f.node)
    sets = [[x] for x in PART] + [[PART[0], PART[1]], [PART[1], PART[0]], [PART[2], PART[3], PART[1]], PART]
    for st_ in sets:
        for bnm, q in (('plain', '{w.bnd}'), ('quoted', '"{w.bnd}"')):
            for tnm, ct in (('', 'multipart/mixed;boundary=' + q), (' after a space', 'multipart/mixed; boundary=' + q), (' among others', 'Multipart/Mixed;{w.pn}={w.pv}; boundary=%s' % q)):
                what = '%s, boundary %s%s' % (' and '.join(x[0] for x in st_), bnm, tnm)
                text = p.t(''.join('--{w.bnd}\r\n' + ''.join(h + '\r\n' for h in hs) + '\r\n' + c for _, hs, c in st_) + '--{w.bnd}--\r\n')
                want, bad = mparts(text, p.t('{w.bnd}'))
                if bad:
                    raise AnchorError('%s: %s' % (what, bad))
                base = p.st
                for s0, t in p.made('SipContentType', [K(p.t(ct))]):
                    for s1, oc in p.every(s0, t, 'parse'):
                        p.st = s1
                        for s2, b in p.made('MsgBody', [K(text)], {'mtype': t}):
                            if b[0] == 'raised':
                                ctx.check(False, key + ' refused', w, '%s: it is refused' % what, lines(s2))
                                continue
                            for s3, oc3 in p.every(s2, b, 'parse'):
                                ctx.count('bodies of parts read')
                                if oc3[0] == 'raise':
                                    ctx.check(False, key + ' refused', w, '%s: reading it fails with %s' % (what, show(oc3[1])), lines(s3))
                                    continue
                                body(ctx, p, key, w, what, s3, b, want)
                p.st = base


def body(ctx, p, key, w, what, s, b, want):
    o = p.I.peek_attr(s, b, 'content')
    ps = p.I.seq_items(p.I.peek_attr(s, o, 'parts'), s) if o[0] == 'O' else None
    if ps is None:
        return ctx.check(False, key + ' unread', w, '%s: its parts are not told apart' % what, lines(s))
    ctx.check(len(ps) == len(want), key + ' number', w, '%s: %d parts are found, should be %d' % (what, len(ps), len(want)), lines(s))
    for i, (x, (ct, hs, c)) in enumerate(zip(ps, want)):
        p.same(key, w, what, 'the content of part %d' % (i + 1), s, p.I.peek_attr(s, x, 'content'), K(c))
        for s2, oc in p.every(s, x, 'getType'):
            ctx.check(oc[0] == 'ret', key + ' type', w, '%s: the type of part %d is not known' % (what, i + 1), lines(s2))
            if oc[0] == 'ret' and not re.search('[\ue000-\uf8ff]', ct[0]):
                p.same(key, w, what, 'the type of part %d' % (i + 1), s2, oc[1], K(ct[0].split(';')[0].lower()))
    objs = [(s, b, '')]
    for s2, oc in p.every(s, b, 'getCopy'):
        if oc[0] == 'raise':
            ctx.check(False, key + ' copy', w, '%s: copying it fails with %s' % (what, show(oc[1])), lines(s2))
        else:
            objs.append((s2, oc[1], 'its copy '))
    cur = [s]
    for x in ps:
        cur = [s2 for s1 in cur for s2, oc in p.every(s1, x, 'parse') if oc[0] == 'ret']
    objs += [(s1, b, 'its parts looked into ') for s1 in cur]
    for s2, o2, cp in objs:
        for nm, a in (('__str__', ()), ('localStr', (FAR,))):
            for s3, oc in p.every(s2, o2, nm, a):
                ctx.count('bodies of parts written')
                wh = '%s, %swritten by %s' % (what, cp, nm)
                if oc[0] == 'raise':
                    ctx.check(False, key + ' write', w, '%s: it fails with %s' % (wh, show(oc[1])), lines(s3))
                    continue
                t = text_of(oc[1])
                if t is None:
                    raise AnchorError('%s: the text is not understood: %s' % (wh, show(oc[1])[:200]))
                got, bad = mparts(t, p.t('{w.bnd}'))
                ctx.check(bad is None, key + ' form', w, '%s: %s' % (wh, bad), lines(s3))
                if bad:
                    continue
                ctx.check(len(got) == len(want), key + ' number', w, '%s: %d parts, should be %d' % (wh, len(got), len(want)), lines(s3))
                for i, (a_, b_) in enumerate(zip(got, want)):
                    ctx.check(a_[0] == b_[0], key + ' type', w, '%s: part %d is of type %s, should be %s' % (wh, i + 1, p.N.show(repr(a_[0])), p.N.show(repr(b_[0]))), lines(s3))
                    ctx.check(sorted(a_[1]) == sorted(b_[1]), key + ' headers', w, '%s: part %d has the headers %s, should be %s' % (wh, i + 1, p.N.show(repr(a_[1])), p.N.show(repr(b_[1]))), lines(s3))
                    c1, c2 = a_[2], b_[2]
                    if b_[0][0].lower() == 'application/sdp':
                        ok = meaning(c1) == meaning(c2)
                    else:
                        ok = c1 == c2
                    ctx.check(ok, key + ' content', w, '%s: part %d holds %r, should be %r' % (wh, i + 1, p.N.show(c1), p.N.show(c2)), lines(s3))
        v = p.I.peek_attr(s2, o2, 'mtype')
        for s3, oc in p.every(s2, v, '__str__') if v[0] == 'O' else ():
            t = text_of(oc[1]) if oc[0] == 'ret' else None
            if t is None:
                raise AnchorError('the type of a body is not understood: %s' % show(oc[1])[:200])
            m = re.search(r';\s*boundary="?([^;"]*)', t, re.I)
            ctx.check(t.lower().startswith('multipart/mixed') and m and m.group(1) == p.t('{w.bnd}'), key + ' boundary', w,
                      '%s: %sits type is written as %s' % (what, cp, p.N.show(t)), lines(s3))


# ---------------------------------------------------------------- bodies of other types
def types(ctx, p):
    f = must(ctx.repo, ctx.repo.cls('MsgBody'), 'parse')
    w = f.where(f.node)
    base = p.st
    for ct, cls, text in (('application/sdp', 'SdpBody', SDP), ('Application/SDP', 'SdpBody', SDP), ('application/sdp; {w.p}={w.v}', 'SdpBody', SDP), ('{w.a}/{w.b}', None, '{f.x}\r\n{f.y}'),
                          ('{w.a}/{w.b};{w.p}={w.v}', None, SDP), ('text/plain', None, SDP), ('application/dtmf-relay', None, 'Signal={w.x}\r\nDuration={n.y}\r\n')):
        txt = p.t(text)
        for s0, t in p.made('SipContentType', [K(p.t(ct))]):
            for s1, oc in p.every(s0, t, 'parse'):
                p.st = s1
                for s2, b in p.made('MsgBody', [K(txt)], {'mtype': t}):
                    cur = [s2]
                    for i in range(2):
                        cur = [s4 for s3 in cur for s4, o4 in p.every(s3, b, 'parse') if o4[0] == 'ret' or ctx.check(False, 'body type', w, 'a body of type %s cannot be read' % p.N.show(p.t(ct)), lines(s4))]
                    for s3 in cur:
                        ctx.count('bodies of a type')
                        v = p.I.peek_attr(s3, b, 'content')
                        if cls is None:
                            p.same('body type', w, 'a body of type %s' % ct, 'the content', s3, v, K(txt))
                        else:
                            ctx.check(v[0] == 'O' and v[2].name == cls, 'body type', w, 'a body of type %s is not read as %s' % (ct, cls), lines(s3))
                        for src, s5, o5 in [('', s3, b)] + [('copied ', s5, o5[1]) for s5, o5 in p.every(s3, b, 'getCopy') if o5[0] == 'ret']:
                            for nm, a in (('__str__', ()), ('localStr', (FAR,))):
                                for s6, o6 in p.every(s5, o5, nm, a):
                                    if cls is None:
                                        p.printed('body type', w, 'a %sbody of type %s' % (src, ct), s6, o6, txt)
                                    else:
                                        judge(ctx, p, 'description', w, 'a %sbody of type %s' % (src, ct), s6, o6, meaning(txt)[0])
        p.st = base


def check_M06(ctx):
    ctx.rule = ('session descriptions and bodies of several parts, with symbols for what varies, are read on every path and written again, copied and after changes by a relay; '
                'what is written must mean what was read: the same lines, the same connection for every medium, the same parts with their headers; incomplete descriptions are refused')
    p = Texts(ctx)
    for i, (what, ls) in enumerate(descriptions()):
        one(ctx, p, what, ls)
    for end, eol in (('LF', '\n'), ('CR LF and empty lines', '\r\n')):
        for what, ls in (('one medium, lines ended by ' + end, HEAD + [C4, T] + AUDIO), ('every line, lines ended by ' + end, HEAD + REST + [C4] + REST2 + AUDIO + VIDEO)):
            one(ctx, p, what, ls, eol, eol * 2 if 'empty' in end else '')
    model(ctx, p)
    incomplete(ctx, p)
    multipart(ctx, p)
    types(ctx, p)
    ctx.floor('descriptions read', 30)
    ctx.floor('descriptions written', 200)
    ctx.floor('incomplete descriptions', 14)
    ctx.floor('bodies of parts read', 40)
    ctx.floor('bodies of parts written', 200)
    ctx.floor('bodies of a type', 7)
    for c in ('SdpBody', 'SdpMediaDescription', 'SdpMedia', 'SdpOrigin', 'SdpConnecton', 'SdpGeneric', 'MultipartMixBody', 'MsgBody'):
        ci = ctx.repo.cls(c)
        ctx.visited(list(ci.methods.values()))


RULES = {'M06': check_M06}
