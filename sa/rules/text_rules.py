"""M02, M03, M06: what is written is read back - headers, messages, session
descriptions. Texts hold symbols for their variable parts (sa/text.py); the
reading and writing code is followed on them and every path has to give the
same parts and the same text."""
import re

from ..scen import AnchorError, K, S, NONE, TRUE, FALSE, State, is_k, kval, show, must
from ..repo import ClassInfo
from ..text import FREE, NUM, WORD, Names, TextCfg, TextI, quoted, size_name, symbolic, text_of
from ..wire import Parts, deep, fields, tables
from .loop_rules import lines

KIND = {'w': WORD, 'q': WORD, 'n': NUM, 'f': FREE}


class Texts(Parts):
    def __init__(self, ctx, names=None):
        self.ctx = ctx
        Parts.__init__(self, ctx.repo, TextCfg(ctx.repo))
        self.I = TextI(ctx.repo, self.cfg)
        self.st = tables(ctx.repo, self.I, State(), [ctx.repo.cls('SipHeader').module])
        self.N = names or Names()
        self.seen = set()
        self.cfg.names = self.N

    def t(self, tpl):
        """template -> text: {w.x} word, {n.x} number, {f.x} free text, {q.x} word with its characters quoted"""
        def one(m):
            k, nm = m.group(1), m.group(2)
            c = self.N.new(KIND[k], nm)
            return quoted(c) if k == 'q' else c
        return re.sub(r'\{([wnfq])\.(\w+)\}', one, tpl)

    def val(self, x):
        """expected value from a template"""
        if isinstance(x, str):
            m = re.fullmatch(r'#\{n\.(\w+)\}', x)
            if m:
                return ('OP', 'int', K(self.N.num(m.group(1))))
            return K(self.t(x))
        if isinstance(x, (list, tuple)):
            return ('L',) + tuple(self.val(y) for y in x)
        if isinstance(x, dict):
            return ('D',) + tuple(sorted(((self.val(a), self.val(b)) for a, b in x.items()), key=repr))
        return K(x)

    def show(self, v):
        if v is None:
            return 'nothing known'
        if v[0] == 'K' and isinstance(v[2], str):
            return repr(self.N.show(v[2]))
        if v[0] in ('L', 'T'):
            return '[%s]' % ', '.join(self.show(x) for x in v[1:])
        if v[0] == 'D':
            return '{%s}' % ', '.join('%s: %s' % (self.show(a), self.show(b)) for a, b in v[1:])
        if v[0] == 'OP' and v[1] == 'int' and is_k(v[2]):
            return 'the number ' + self.N.show(str(kval(v[2])))
        return self.N.show(show(v))

    def every(self, st, o, name, args=(), kw=None):
        """all outcomes of a method"""
        r = self.I.run(must(self.repo, o[2], name), o, list(args), kw or {}, st)
        out = []
        for s, oc in r:
            out.append((s, oc))
        return out

    def made(self, cls, args=(), kw=None, tag=None):
        """-> [(state, object | raised value)]"""
        ci = self.repo.cls(cls)
        o = ('O', tag or '%s.%d' % (cls, next(self.n)), ci)
        init = ci.find('__init__')
        if init is None:
            return [(self.st.copy(), o)]
        out = []
        for s, oc in self.I.run(init, o, list(args), kw or {}, self.st):
            out.append((s, o if oc[0] == 'ret' else ('raised', oc[1])))
        return out

    def path(self, st, o, p):
        """follow a dotted path of attributes and calls -> [(state, value | None)]"""
        cur = [(st, o)]
        for seg in p.split('.'):
            nxt = []
            for s, v in cur:
                if v is None:
                    nxt.append((s, None))
                elif seg.endswith(')'):
                    nm, a = re.fullmatch(r'(\w+)\((\w*)\)', seg).groups()
                    if v[0] != 'O' or not isinstance(v[2], ClassInfo):
                        nxt.append((s, None))
                        continue
                    nxt.extend((s2, oc[1] if oc[0] == 'ret' else None) for s2, oc in self.every(s, v, nm, [K(a)] if a else []))
                else:
                    nxt.append((s, self.I.peek_attr(s, v, seg) if v[0] == 'O' else None))
            cur = nxt
        return cur

    def plain(self, st, v):
        v = deep(self.I, st, v)
        return ('L',) + v[1:] if v[0] == 'T' else v

    def same(self, key, where, what, name, st, got, want):
        g = self.plain(st, got) if got is not None else None
        self.ctx.count('parts compared')
        self.ctx.check(g == want, key + ' part', where, '%s: %s is %s, should be %s' % (what, name, self.show(g), self.show(want)))

    def printed(self, key, where, what, st, oc, want, path=()):
        self.ctx.count('texts compared')
        if oc[0] == 'raise':
            return self.ctx.check(False, key + ' fails', where, '%s: writing it fails with %s' % (what, show(oc[1])), path or lines(st))
        t = text_of(oc[1])
        if t is None:
            raise AnchorError('%s: the text written is not understood: %s' % (what, show(oc[1])[:200]))
        self.ctx.check(t == want, key + ' text', where, '%s is written as %r, should be %r' % (what, self.N.show(t), self.N.show(want)), path)


URL = 'getUrl().'
ADDR = [
    # text, as written again (None: the same), parts
    ('<sip:{q.user}@{w.host}:{n.port};transport={w.tr};lr>;tag={w.tag};{w.flag}', None,
     {URL + 'username': '{w.user}', URL + 'host': '{w.host}', URL + 'port': '#{n.port}', URL + 'transport': '{w.tr}', URL + 'lr': True, URL + 'scheme': 'sip',
      'address.getParam(tag)': '{w.tag}', 'address.params': {'tag': '{w.tag}', '{w.flag}': None}, URL + 'usertype': None, URL + 'password': None}),
    ('"{f.name}" <sip:{q.user}@{w.host}>;{w.pn}={w.pv};tag={w.tag}', None,
     {'address.name': '{f.name}', URL + 'port': None, 'address.params': {'{w.pn}': '{w.pv}', 'tag': '{w.tag}'}, URL + 'lr': False}),
    ('"{f.n1}, {f.n2}; {f.n3} <{f.n4}> {f.n5}:{f.n6}" <sip:{q.user}@{w.host}>;tag={w.tag}', None,
     {'address.name': '{f.n1}, {f.n2}; {f.n3} <{f.n4}> {f.n5}:{f.n6}', URL + 'username': '{w.user}', 'address.getParam(tag)': '{w.tag}'}),
    ('"{f.n1} \\"{f.n2}\\" {f.n3}" <sip:{w.host}>', None, {'address.name': '{f.n1} \\"{f.n2}\\" {f.n3}', URL + 'username': None, URL + 'host': '{w.host}'}),
    ('{w.name} <sips:{w.host}:{n.port}>', None, {'address.name': '{w.name}', URL + 'scheme': 'sips', URL + 'host': '{w.host}', URL + 'port': '#{n.port}'}),
    ('{w.n1} {w.n2}   <sip:{q.user}@{w.host}>', '"{w.n1} {w.n2}" <sip:{q.user}@{w.host}>', {'address.name': '{w.n1} {w.n2}'}),
    ('sip:{q.user}@{w.host}:{n.port};tag={w.tag}', None, {URL + 'username': '{w.user}', URL + 'host': '{w.host}', 'address.getParam(tag)': '{w.tag}', URL + 'tag': None}),
    ('sips:{q.user}@{w.host};tag={w.tag}', None, {URL + 'scheme': 'sips', URL + 'host': '{w.host}', 'address.getParam(tag)': '{w.tag}', URL + 'tag': None}),
    ('<sip:{q.user}@[{w.v1}:{w.v2}::{n.v3}]:{n.port};lr>;tag={w.tag}', None,
     {URL + 'host': '[{w.v1}:{w.v2}::{n.v3}]', URL + 'port': '#{n.port}', URL + 'username': '{w.user}', 'address.getParam(tag)': '{w.tag}'}),
    ('<sip:[{w.v1}::{n.v3}]>', None, {URL + 'host': '[{w.v1}::{n.v3}]', URL + 'port': None, URL + 'username': None}),
    ('<sip:{q.user};{w.up}={w.uv};{w.uf}:{w.pw}@{w.host};user={w.ut};ttl={n.ttl};maddr={w.maddr};method={w.m};{w.o}={w.ov};{w.of}>', None,
     {URL + 'username': '{w.user}', URL + 'userparams': ['{w.up}={w.uv}', '{w.uf}'], URL + 'password': '{w.pw}', URL + 'host': '{w.host}', URL + 'usertype': '{w.ut}',
      URL + 'ttl': '#{n.ttl}', URL + 'maddr': '{w.maddr}', URL + 'method': '{w.m}', URL + 'other': ['{w.o}={w.ov}', '{w.of}'], URL + 'lr': False}),
    ('<sip:{q.user}@{w.host};transport={w.tr}?{w.h1}={q.v1}&{w.h2}={q.v2}>', None,
     {URL + 'transport': '{w.tr}', URL + 'headers': {'{w.h1}': '{w.v1}', '{w.h2}': '{w.v2}'}}),
    ('<sip:{q.user}@{w.host}?{w.h1}={q.v1}>;{w.pn}={w.pv}', None, {URL + 'host': '{w.host}', URL + 'headers': {'{w.h1}': '{w.v1}'}, 'address.params': {'{w.pn}': '{w.pv}'}}),
    ('<sip:{q.user}@{w.host}> ; tag={w.tag} ;{w.flag} ; {w.pn} = {w.pv}', '<sip:{q.user}@{w.host}>;tag={w.tag};{w.flag};{w.pn}={w.pv}',
     {'address.getParam(tag)': '{w.tag}', 'address.params': {'tag': '{w.tag}', '{w.flag}': None, '{w.pn}': '{w.pv}'}}),
    ('"{f.n1}\\\"<{f.n2}" <sip:{w.host}>', None, {'address.name': '{f.n1}\\\"<{f.n2}', URL + 'host': '{w.host}'}),
    ('<sip:{q.user}@{w.host}>;tag={w.tag};{w.p}="{f.a}={f.b}, {f.c}"', None, {'address.getParam(tag)': '{w.tag}', 'address.params': {'tag': '{w.tag}', '{w.p}': '"{f.a}={f.b}, {f.c}"'}}),
    ('<sip:{q.user}@{w.host};lr=on>', '<sip:{q.user}@{w.host};lr>', {URL + 'lr': True}),
    ('<SIP:{q.user}@{w.host}>', '<sip:{q.user}@{w.host}>', {URL + 'scheme': 'sip', URL + 'username': '{w.user}'}),
]
DIG = [
    ('Digest realm="{f.realm}",nonce="{w.nonce}",qop="auth,auth-int",algorithm={w.alg},opaque="{w.opq}"', None,
     {'realm': '{f.realm}', 'nonce': '{w.nonce}', 'qop': ['auth', 'auth-int'], 'algorithm': '{w.alg}', 'opaque': '{w.opq}', 'otherparams': []}),
    ('Digest realm="{f.r1}, {f.r2}={f.r3}",nonce="{w.nonce}=="', None, {'realm': '{f.r1}, {f.r2}={f.r3}', 'nonce': '{w.nonce}==', 'qop': None, 'algorithm': None, 'opaque': None}),
    ('Digest nonce="{w.nonce}", algorithm={w.alg}, realm="{f.realm}", qop="auth", opaque=""', 'Digest realm="{f.realm}",nonce="{w.nonce}",qop=auth,algorithm={w.alg},opaque=""',
     {'realm': '{f.realm}', 'nonce': '{w.nonce}', 'qop': ['auth'], 'algorithm': '{w.alg}', 'opaque': ''}),
]
CRED = [
    ('Digest username="{w.user}",realm="{f.realm}",nonce="{w.nonce}",uri="sip:{w.uri};{w.p}={w.v}",response="{w.resp}",algorithm={w.alg},qop=auth,nc={w.nc},cnonce="{w.cn}",opaque="{w.opq}"', None,
     {'username': '{w.user}', 'realm': '{f.realm}', 'nonce': '{w.nonce}', 'uri': 'sip:{w.uri};{w.p}={w.v}', 'response': '{w.resp}', 'algorithm': '{w.alg}', 'qop': 'auth',
      'nc': '{w.nc}', 'cnonce': '{w.cn}'}),
    ('Digest username="{w.user}", realm="{f.r1}, {f.r2}", nonce="{w.nonce}==", uri="sip:{w.u1},{w.u2}", response="{w.resp}"',
     'Digest username="{w.user}",realm="{f.r1}, {f.r2}",nonce="{w.nonce}==",uri="sip:{w.u1},{w.u2}",response="{w.resp}"',
     {'username': '{w.user}', 'realm': '{f.r1}, {f.r2}', 'nonce': '{w.nonce}==', 'uri': 'sip:{w.u1},{w.u2}', 'response': '{w.resp}', 'algorithm': None, 'qop': None}),
    ('Digest USERNAME="{w.user}", Realm="{f.realm}", Nonce="{w.nonce}", URI="sip:{w.uri}", Response="{w.resp}"',
     'Digest username="{w.user}",realm="{f.realm}",nonce="{w.nonce}",uri="sip:{w.uri}",response="{w.resp}"', {'username': '{w.user}', 'realm': '{f.realm}', 'nonce': '{w.nonce}', 'response': '{w.resp}'}),
]
NUMB = [('{n.num}', None, {'number': '#{n.num}'})]
PROD = [('{w.prod}/{w.ver} ({f.note})', None, {'name': '{w.prod}/{w.ver} ({f.note})'})]
LIST = [('{w.a}, {w.b},{w.c}', ['{w.a}, {w.b}, {w.c}', '{w.a},{w.b},{w.c}'], None), ('{w.a}', None, None)]
VIA = [
    ('SIP/2.0/{w.tp} {w.host}:{n.port};branch={w.br};rport;received={w.rc}', None,
     {'sipver': 'SIP/2.0', 'transport': '{w.tp}', 'hostname': '{w.host}', 'port': '#{n.port}', 'getBranch()': '{w.br}', 'params': {'branch': '{w.br}', 'rport': None, 'received': '{w.rc}'}}),
    ('SIP/2.0/UDP {w.host};branch={w.br};rport={n.rport};{w.x}={w.y}', None,
     {'transport': 'UDP', 'hostname': '{w.host}', 'port': None, 'getTAddr()': ['{w.host}', '#{n.rport}'], 'params': {'branch': '{w.br}', 'rport': '{n.rport}', '{w.x}': '{w.y}'}}),
    ('SIP/2.0/TCP [{w.v1}::{w.v2}]:{n.port} ; branch={w.br}', 'SIP/2.0/TCP [{w.v1}::{w.v2}]:{n.port};branch={w.br}', {'hostname': '[{w.v1}::{w.v2}]', 'port': '#{n.port}', 'getBranch()': '{w.br}'}),
    ('SIP/2.0/WSS [{w.v1}::{w.v2}];branch={w.br};received={w.rc}', None, {'hostname': '[{w.v1}::{w.v2}]', 'port': None, 'getTAddr()': ['{w.rc}', 5060], 'getBranch()': '{w.br}'}),
]
# names of the header on the wire, the one it is written with (and in compact form), texts
TABLE = [
    (('From', 'f', 'FROM'), 'From', 'f', ADDR), (('To', 't'), 'To', 't', ADDR), (('Contact', 'm', 'contact'), 'Contact', 'm', ADDR), (('Route',), 'Route', None, ADDR),
    (('Record-Route', 'record-route'), 'Record-Route', None, ADDR), (('Also',), 'Also', None, ADDR), (('Refer-To', 'r'), 'Refer-To', None, ADDR), (('CC-Diversion',), 'CC-Diversion', None, ADDR),
    (('Referred-By',), 'Referred-By', None, ADDR), (('P-Asserted-Identity',), 'P-Asserted-Identity', None, ADDR), (('Diversion',), 'Diversion', None, ADDR), (('Path',), 'Path', None, ADDR),
    (('Contact', 'm'), 'Contact', 'm', [('*', None, {'asterisk': True})]),
    (('Via', 'v'), 'Via', 'v', VIA),
    (('CSeq', 'cseq'), 'CSeq', None, [('{n.seq} {w.M}', None, {'getCSeqNum()': '#{n.seq}', 'getCSeqMethod()': '{w.M}'}), ('{n.seq}   INVITE', '{n.seq} INVITE', {'getCSeq()': ['#{n.seq}', 'INVITE']})]),
    (('Call-ID', 'i', 'CALL-ID'), 'Call-ID', 'i', [('{f.id}@{w.host}', None, {'body': '{f.id}@{w.host}'})]),
    (('Max-Forwards',), 'Max-Forwards', None, NUMB), (('Expires',), 'Expires', None, NUMB), (('RSeq',), 'RSeq', None, NUMB), (('Content-Length', 'l'), 'Content-Length', 'l', NUMB),
    (('RAck',), 'RAck', None, [('{n.rseq} {n.seq} {w.M}', None, {'getRSeq()': ['#{n.rseq}', '#{n.seq}', '{w.M}']})]),
    (('Content-Type', 'c'), 'Content-Type', 'c', [('{w.t}/{w.s}', None, {'name': '{w.t}/{w.s}', 'params': {}}), ('{w.t}/{w.s};{w.p}={w.v}', None, {'name': '{w.t}/{w.s}', 'params': {'{w.p}': '{w.v}'}}),
        ('{w.t}/{w.s}; {w.p} = {w.v} ;{w.p2}="{f.v2}=={f.v3}"', '{w.t}/{w.s};{w.p}={w.v};{w.p2}="{f.v2}=={f.v3}"', {'name': '{w.t}/{w.s}', 'params': {'{w.p}': '{w.v}', '{w.p2}': '"{f.v2}=={f.v3}"'}})]),
    (('Server',), 'Server', None, PROD), (('User-Agent',), 'User-Agent', None, PROD),
    (('cisco-GUID',), 'cisco-GUID', None, [('{n.a}-{n.b}-{n.c}-{n.d}', None, {'getCiscoGUID()': ['#{n.a}', '#{n.b}', '#{n.c}', '#{n.d}']})]),
    (('h323-conf-id',), 'cisco-GUID', None, [('{n.a}-{n.b}-{n.c}-{n.d}', None, {'getCiscoGUID()': ['#{n.a}', '#{n.b}', '#{n.c}', '#{n.d}']})]),
    (('Replaces',), 'Replaces', None, [
        ('{w.id};from-tag={w.ft};to-tag={w.tt}', None, {'call_id': '{w.id}', 'from_tag': '{w.ft}', 'to_tag': '{w.tt}', 'early_only': False, 'params': []}),
        ('{w.id};to-tag={w.tt};from-tag={w.ft};{w.x}={w.y};early-only;{w.z}', '{w.id};from-tag={w.ft};to-tag={w.tt};early-only;{w.x}={w.y};{w.z}',
         {'call_id': '{w.id}', 'from_tag': '{w.ft}', 'to_tag': '{w.tt}', 'early_only': True, 'params': ['{w.x}={w.y}', '{w.z}']})]),
    (('Reason',), 'Reason', None, [
        ('{w.pr}; cause={n.c}; text="{f.a};{f.b}, {f.d}={f.e}"', None, {'protocol': '{w.pr}', 'cause': '#{n.c}', 'reason': '{f.a};{f.b}, {f.d}={f.e}'}),
        ('{w.pr};cause={n.c}', '{w.pr}; cause={n.c}', {'protocol': '{w.pr}', 'cause': '#{n.c}', 'reason': None}),
        ('{w.pr} ;text="{f.a}" ;cause={n.c}', '{w.pr}; cause={n.c}; text="{f.a}"', {'protocol': '{w.pr}', 'cause': '#{n.c}', 'reason': '{f.a}'})]),
    (('Warning',), 'Warning', None, [('{n.c} {w.agent} "{f.text}  {f.more}"', None, {'code': '#{n.c}', 'agent': '{w.agent}', 'text': '{f.text}  {f.more}'})]),
    (('Allow',), 'Allow', None, LIST), (('Supported', 'k'), 'Supported', 'k', LIST),
    (('WWW-Authenticate',), 'WWW-Authenticate', None, DIG), (('Proxy-Authenticate',), 'Proxy-Authenticate', None, DIG),
    (('Authorization',), 'Authorization', None, CRED), (('Proxy-Authorization',), 'Proxy-Authorization', None, CRED),
    (('X-Some-Thing', 'x-some-thing', 'Subject'), None, None, [('{f.text}:{f.more}, {w.x};{w.y}={w.z}', None, {'body': '{f.text}:{f.more}, {w.x};{w.y}={w.z}'})]),
]


def read(ctx, p, key, where, what, line, after):
    """a header line read -> after(state, header)"""
    n = 0
    for s, h in p.made('SipHeader', [K(line)], {'fixname': TRUE}):
        n += 1
        if h[0] == 'raised':
            ctx.check(False, key + ' refused', where, '%s: reading it fails with %s' % (what, show(h[1])), lines(s))
            continue
        after(s, h)
    if not n:
        raise AnchorError('%s is not read on any path' % what)


def header(ctx, p, name, shown, compact, tpl, again, parts, i=0):
    hn = shown or name
    key = 'header %s#%d' % (hn, i)
    line = p.t('%s: %s' % (name, tpl))
    want = [p.t(x) for x in (again if isinstance(again, list) else [again if again is not None else tpl])]
    what = '"%s"' % p.N.show(line)
    kinds = set()

    def name_ok(t, c, form):
        ctx.check(t is not None and (t == c or t.lower() == c.lower()), key + ' name', None, '%s is written with the name %r, should be %r%s' % (what, t, c, form))

    def after(s, h):
        body = p.I.peek_attr(s, h, 'body')
        w = body[2].find('parse')
        w = w.where(w.node) if w is not None else None
        kinds.add(body[2].name)
        ctx.visited([f for f in (body[2].find('parse'), body[2].find('__str__'), body[2].find('localStr')) if f is not None])
        # not looked into
        for s1, oc in p.every(s, h, '__str__'):
            t = text_of(oc[1]) if oc[0] == 'ret' else None
            n, _, b = (t or '').partition(': ')
            name_ok(n, hn, '')
            p.printed(key + ' unparsed', w, '%s, passed on,' % what, s1, oc if oc[0] == 'raise' else ('ret', K(b)), p.t(tpl))
        # looked into
        for s1, oc in p.every(s, h, 'getBody'):
            if oc[0] == 'raise':
                ctx.check(False, key + ' unreadable', w, '%s cannot be parsed: %s' % (what, show(oc[1])), lines(s1))
                continue
            for nm, x in (parts or {}).items():
                for s2, v in p.path(s1, oc[1], nm):
                    p.same(key, w, what, nm.replace('getUrl()', 'the URI').replace('address.', ''), s2, v, p.val(x))
            for m, args in (('__str__', ()), ('localStr', ()), ('localStr', (NONE, TRUE))):
                for s2, o2 in p.every(s1, h, m, args):
                    if o2[0] == 'raise':
                        ctx.check(False, key + ' fails', w, '%s: writing it fails with %s' % (what, show(o2[1])), lines(s2))
                        continue
                    t = text_of(o2[1])
                    if t is None:
                        raise AnchorError('%s: the text written is not understood: %s' % (what, show(o2[1])[:200]))
                    n, _, b = t.partition(': ')
                    name_ok(n, compact if len(args) == 2 and compact else hn, ' in compact form' if len(args) == 2 else '')
                    p.ctx.count('texts compared')
                    ctx.check(b in want, key + ' text', w, '%s is written again as %r, should be %r' % (what, p.N.show(b), p.N.show(want[0])), lines(s2))
    ctx.count('headers read')
    read(ctx, p, key, None, what, line, after)
    return kinds


def check_M02(ctx):
    ctx.rule = ('every kind of header the code knows, in each of its forms and under each of its names, is read from a text whose variable parts are symbols; every path must '
                'find the right parts, and write the text again as it was (or in its plain form)')
    p = Texts(ctx)
    kinds = {}
    base = p.st
    for names, shown, compact, texts in TABLE:
        for i, (tpl, again, parts) in enumerate(texts):
            for name in names if i == 0 else names[:1]:
                ks = header(ctx, p, name, shown, compact, tpl, again, parts, i)
                p.st = base
                for k in ks:
                    kinds.setdefault(name.lower(), set()).add(k)
    # a name and its short form mean the same kind
    for names, shown, compact, texts in TABLE:
        ks = set()
        for n in list(names) + ([compact] if compact else []):
            ks |= kinds.get(n.lower(), set())
        ctx.check(len(ks) == 1, 'header kind', None, 'the names %s stand for one header, they are read as %s' % (', '.join(names), ' and '.join(sorted(ks))))
    ctx.floor('headers read', 150)


# ---------------------------------------------------------------- M03: whole messages
HEAD = [
    # line as received, the headers it holds
    ('Via: SIP/2.0/UDP {w.h1}:{n.p1};branch={w.b1};rport, SIP/2.0/TCP {w.h2};branch={w.b2}', ['Via: SIP/2.0/UDP {w.h1}:{n.p1};branch={w.b1};rport', 'Via: SIP/2.0/TCP {w.h2};branch={w.b2}']),
    ('v: SIP/2.0/UDP {w.h3};branch={w.b3}', ['Via: SIP/2.0/UDP {w.h3};branch={w.b3}']),
    ('Record-Route: <sip:{w.r1};lr>, <sip:{w.r2};lr>,<sip:{w.r3}>', ['Record-Route: <sip:{w.r1};lr>', 'Record-Route: <sip:{w.r2};lr>', 'Record-Route: <sip:{w.r3}>']),
    ('From: "{f.fn}, {f.fm}" <sip:{q.fu}@{w.fh}>;tag={w.ft}', ['From: "{f.fn}, {f.fm}" <sip:{q.fu}@{w.fh}>;tag={w.ft}']),
    ('t: <sip:{q.tu}@{w.th}>', ['To: <sip:{q.tu}@{w.th}>']),
    ('Route: "{f.r4}, {f.r5}" <sip:{w.r4};lr>, "{f.r6}" <sip:{w.r6};lr>', ['Route: "{f.r4}, {f.r5}" <sip:{w.r4};lr>', 'Route: "{f.r6}" <sip:{w.r6};lr>']),
    ('CALL-ID: {w.cid}', ['Call-ID: {w.cid}']),
    ('cseq: {n.cs} {w.M}', ['CSeq: {n.cs} {w.M}']),
    ('Contact: sip:{w.c1}, <sip:{w.c2}>;q={w.q}, sip:{w.c3}', ['Contact: sip:{w.c1}', 'Contact: <sip:{w.c2}>;q={w.q}', 'Contact: sip:{w.c3}']),
    ('X-Thing: {f.x}:{f.y}', ['X-thing: {f.x}:{f.y}']),
    ('Subject:   {f.s1}\n {f.s2}\n\t  {f.s3}  ', ['Subject: {f.s1} {f.s2} {f.s3}']),
    ('Max-Forwards:{n.mf}', ['Max-Forwards: {n.mf}']),
]
SHORT = {'Via': 'v', 'From': 'f', 'To': 't', 'Call-ID': 'i', 'Contact': 'm', 'Content-Type': 'c', 'Content-Length': 'l'}
CTYPE = ('Content-Type: {w.ct}/{w.cst};{w.cp}={w.cv}', '{w.ct}/{w.cst};{w.cp}={w.cv}')
ENDS = {'CR LF': '\r\n', 'LF': '\n', 'CR': '\r'}


def heads(p, drop=()):
    ls = [(a, b) for a, b in HEAD if not any(x.split(':')[0] in drop for x in b)]
    return [p.t(a) for a, b in ls], [p.t(x) for a, b in ls for x in b]


def short(line):
    n, _, b = line.partition(': ')
    return SHORT.get(n, n) + ': ' + b


def full_text(p, sl, lines_, ctype, body, compact=False):
    out = [sl] + [short(x) if compact else x for x in lines_]
    if body is None:
        return '\r\n'.join(out + [short('Content-Length: 0') if compact else 'Content-Length: 0', '', ''])
    out += [short(x) if compact else x for x in ('Content-Type: ' + ctype, 'Content-Length: ' + size_text(p, body))]
    return '\r\n'.join(out + ['', body])


def size_text(p, body):
    return p.N.num(size_name(body, True)) if symbolic(body) else str(len(body.encode()))


FAR = ('T', (('T', (K('192.0.2.1'), K(5070))), K('tcp')))


def message(ctx, p, what, cls, text, sl, want, ctype, body, parts=()):
    """a message read from a text: what it holds, and how it is written"""
    key = 'message'
    n = 0
    for s, m in p.made(cls, [K(text)]):
        n += 1
        w = None
        if m[0] == 'raised':
            ctx.check(False, key + ' refused', w, '%s: reading it fails with %s' % (what, show(m[1])), lines(s))
            continue
        ctx.count('messages read')
        f = m[2].find('__init__')
        w = f.where(f.node)
        for nm, x in parts:
            for s2, v in p.path(s, m, nm):
                p.same(key, w, what, nm, s2, v, p.val(x))
        hs = p.I.seq_items(p.I.peek_attr(s, m, 'headers'), s)
        if hs is None:
            raise AnchorError('%s: the headers are not known' % what)
        ctx.check(len(hs) == len(want), key + ' headers', w, '%s: %d headers are found in it, should be %d' % (what, len(hs), len(want)), lines(s))
        for i, (h, x) in enumerate(zip(hs, want)):
            for s2, oc in p.every(s, h, '__str__'):
                p.printed(key + ' header', w, '%s: header %d' % (what, i + 1), s2, oc, x)
            for s2, oc in p.every(s, h, 'getBody'):
                if oc[0] == 'raise':
                    ctx.check(False, key + ' header unreadable', w, '%s: header %d "%s" cannot be parsed: %s' % (what, i + 1, p.N.show(x), show(oc[1])), lines(s2))
                    continue
                for s3, o3 in p.every(s2, h, '__str__'):
                    p.printed(key + ' header parsed', w, '%s: header %d, parsed,' % (what, i + 1), s3, o3, x)
        b = p.I.peek_attr(s, m, 'body')
        if body is None:
            ctx.check(b == NONE, key + ' body', w, '%s: it has a body %s, should have none' % (what, show(b)), lines(s))
        elif b == NONE:
            ctx.check(False, key + ' body', w, '%s: its body is lost' % what, lines(s))
        else:
            p.same(key + ' body', w, what, 'the body', s, p.I.peek_attr(s, b, 'content'), K(body))
        for nm, args, x in (('__str__', (), full_text(p, sl, want, ctype, body)), ('localStr', (FAR,), full_text(p, sl, want, ctype, body)),
                            ('localStr', (NONE, TRUE), full_text(p, sl, want, ctype, body, True))):
            for s2, oc in p.every(s, m, nm, args):
                p.printed(key + ' text', w, '%s, passed on,' % what, s2, oc, x)
        # headers looked into are written alike
        cur = [s]
        for h in hs:
            cur = [s2 for s1 in cur for s2, oc in p.every(s1, h, 'getBody') if oc[0] == 'ret']
        for s1 in cur:
            for s2, oc in p.every(s1, m, 'localStr', (FAR,)):
                p.printed(key + ' text', w, '%s, parsed and passed on,' % what, s2, oc, full_text(p, sl, want, ctype, body))
    if not n:
        raise AnchorError('%s is not read on any path' % what)


REQ = ('{w.M} sip:{q.ru}@{w.rh}:{n.rp};transport={w.rt} SIP/2.0', [('getMethod()', '{w.M}'), ('getRURI().username', '{w.ru}'), ('getRURI().host', '{w.rh}'), ('getRURI().port', '#{n.rp}')])


def reading(ctx, p):
    body = p.t('{f.line}\r\n\r\n{f.rest}\r\n')
    num = p.t('{n.len}')
    got, want = heads(p)
    kinds = [('a request', 'SipRequest', p.t(REQ[0]), None, REQ[1], True), ('a request with a sips target', 'SipRequest', p.t('{w.M} sips:{w.rh} SIP/2.0'), None, [('getRURI().scheme', 'sips')], True)]
    for code, b in ((180, True), (200, True), (299, True), (302, True), (404, False), (503, False)):
        kinds.append(('a %d response' % code, 'SipResponse', p.t('SIP/2.0 %d {f.reason} {f.more}' % code), None, [('getSCode()', [code, '{f.reason} {f.more}'])], b))
    kinds.append(('a response without reason', 'SipResponse', 'SIP/2.0 200', 'SIP/2.0 200 Unspecified', [('getSCode()', [200, 'Unspecified'])], True))
    for what, cls, sl, sl2, parts, hasbody in kinds:
        first = what in ('a request', 'a 200 response')
        for end, eol in ENDS.items() if first else [('CR LF', '\r\n')]:
            for bd in ('no', 'announced', 'unannounced', 'compact') if first and end == 'CR LF' else ('no', 'announced') if end == 'CR LF' else ('no', 'text'):
                p.cfg.frame = (num, body, 0)
                ls = [x.replace('\n', eol) for x in [sl] + got]
                b, tx = body if hasbody else None, body
                if bd == 'no':
                    b, tx = None, ''
                    ls.append('Content-Length: 0')
                elif bd == 'text':
                    b = tx = p.t('{f.line}')
                    p.cfg.frame = (num, b, 0)
                    ls += [p.t(CTYPE[0]), 'Content-Length: ' + num]
                elif bd == 'announced':
                    ls[3:3] = [p.t(CTYPE[0])]
                    ls.append('Content-Length: ' + num)
                elif bd == 'unannounced':
                    ls.append(p.t(CTYPE[0]))
                else:
                    ls[2:2] = ['l: ' + num, p.t(CTYPE[0]).replace('Content-Type', 'c')]
                message(ctx, p, '%s with %s body, lines ended by %s' % (what, bd, end), cls, eol.join(ls + ['', tx]), sl2 or sl, want, p.t(CTYPE[1]), b, parts)
    # no type given
    p.cfg.frame = (num, body, 0)
    message(ctx, p, 'a request with a body of no given type', 'SipRequest', '\r\n'.join([p.t(REQ[0])] + [x.replace('\n', '\r\n') for x in got] + ['Content-Length: ' + num, '', body]), p.t(REQ[0]), want,
            'application/sdp', body, REQ[1])
    # headers that may not lack
    for nm in ('Via', 'From', 'To', 'CSeq'):
        got2, want2 = heads(p, (nm,))
        for cls, sl in (('SipRequest', p.t(REQ[0])), ('SipResponse', 'SIP/2.0 200 OK')):
            for s, m in p.made(cls, [K('\r\n'.join([sl] + [x.replace('\n', '\r\n') for x in got2] + ['', '']))]):
                ctx.check(m[0] == 'raised', 'message incomplete', None, 'a %s without %s header is accepted' % (cls, nm), lines(s))


def framing(ctx, p):
    """the announced length against the bytes that came"""
    num = p.t('{n.len}')
    got, want = heads(p)
    for cls, sl in (('SipRequest', p.t(REQ[0])), ('SipResponse', 'SIP/2.0 200 OK')):
        w = must(ctx.repo, ctx.repo.cls('SipMsg'), 'init_body')
        w = w.where(w.node)
        base = [sl] + [x.replace('\n', '\r\n') for x in got] + [p.t(CTYPE[0])]
        for body in ('{f.b}', '{f.b}\r\n', '{f.b}\r\n\r\n', '{f.b}\r\n\n', '{f.b}\n', '{f.a}\r\n{f.b}'):
            body = p.t(body)
            for d in (-1, -2, -9, 0, 1, 2, 3, 4, 6, 7, 40):
                p.cfg.frame = (num, body, d)
                what = '%s with %s, %s' % (cls, repr(p.N.show(body)), 'all of it announced' if not d else '%d bytes %s announced' % (abs(d), 'fewer' if d < 0 else 'more'))
                for s, m in p.made(cls, [K('\r\n'.join(base + ['Content-Length: ' + num, '', body]))]):
                    ctx.count('framings')
                    if m[0] == 'raised':
                        ctx.check(d > 0, 'framing refused', w, '%s: refused with %s' % (what, show(m[1])), lines(s))
                        if cls == 'SipRequest':
                            r = p.I.peek_attr(s, m[1], 'sip_response') if m[1][0] == 'O' else None
                            code = p.I.peek_attr(s, r, 'scode') if r is not None and r[0] == 'O' else None
                            ctx.check(code == K(400), 'framing answer', w, '%s: refused without an answer 400 to send' % what, lines(s))
                        continue
                    b = p.I.peek_attr(s, m, 'body')
                    c = p.I.peek_attr(s, b, 'content') if b != NONE else NONE
                    if d == 0:
                        ctx.check(c == K(body), 'framing', w, '%s: the body is %s' % (what, p.show(c)), lines(s))
                    elif d < 0:
                        if len(body) > -d and not symbolic(body[d:]):
                            ok = c == K(body[:d])
                        else:
                            ok = c == K(p.N.free('the first %s bytes of %s' % (p.I.amount(('OP', 'int', K(num))), body)))
                        ctx.check(ok, 'framing', w, '%s: the body is %s, should be the bytes announced' % (what, p.show(c)), lines(s))
                    else:
                        x = kval(c) if is_k(c) else None
                        ctx.check(isinstance(x, str) and body.endswith('\n') and x.rstrip('\r\n') == body.rstrip('\r\n'), 'framing', w,
                                  '%s: it is accepted with the body %s; only lacking line ends may be made up' % (what, p.show(c)), lines(s))
        p.cfg.frame = None
        for length, body in (('0', p.t('{f.b}')), ('5', ''), ('-5', p.t('{f.b}\r\n'))):
            for s, m in p.made(cls, [K('\r\n'.join(base + ['Content-Length: ' + length, '', body]))]):
                what = '%s with Content-Length %s and %s' % (cls, length, 'a body' if body else 'no body')
                if length != '0':
                    ctx.check(m[0] == 'raised', 'framing', w, '%s is accepted' % what, lines(s))
                else:
                    ctx.check(m[0] != 'raised' and p.I.peek_attr(s, m, 'body') == NONE, 'framing', w, '%s: it should have no body' % what, lines(s))
    p.cfg.frame = None


def local(ctx, p):
    """messages with our own address, as written for the socket they leave through"""
    me = p.N.word('local address')
    p.st.sethp((('C', ctx.repo.cls('SipConf')), 'my_uaname'), K(p.t('{w.ua}')))
    st0 = p.st

    def new(cls, *a, **kw):
        return p.new(cls, *[K(p.t(x)) if isinstance(x, str) else x for x in a], **{k: K(p.t(x)) if isinstance(x, str) else x for k, x in kw.items()})
    ruri = new('SipURL', username='{w.ru}', host='{w.rh}', port=NONE)
    fr = new('SipFrom', address=new('SipAddress', name='{f.n}', url=new('SipURL', username='{w.fu}')))
    body = new('MsgBody', '{f.b}')
    req = new('SipRequest', method='INVITE', ruri=ruri, fr0m=fr, contact=new('SipContact'), cseq=K(7), callid=new('SipCallId', '{w.cid}'), body=body,
              routes=('T', (new('SipRoute', address=new('SipAddress', url=new('SipURL', host='{w.oh}', port=K(5060), lr=TRUE))),)), target=('T', (K('192.0.2.9'), K(5060))))
    p.call(req, 'appendHeader', new('SipHeader', name='www-authenticate', body=new('SipWWWAuthenticate', nonce='{w.nonce}')))
    req2 = new('SipRequest', method='OPTIONS', ruri=ruri, fr0m=new('SipFrom', address=new('SipAddress', url=new('SipURL', username='{w.fu}', host='{w.foreign}', port=NONE))), cseq=K(8),
               callid=new('SipCallId', '{w.cid}'), user_agent='{w.ua2}')
    resp = p.call(req2, 'genResponse', K(200), K('OK'), NONE, K(p.t('{w.srv}')))
    f = must(ctx.repo, ctx.repo.cls('SipMsg'), 'localStr')
    w = f.where(f.node)
    for port in (5060, 5070):
        for tr in ('udp', 'tcp', 'wss'):
            plain = tr == 'udp'
            hp = me if plain and port == 5060 else '%s:%d' % (me, port)
            up = hp + ('' if plain else ';transport=' + tr)
            br = {}
            for o in (req, req2):
                v = p.call(o, 'getHFBody', K('via'))
                br[o] = p.call(v, 'getBranch')
            V = 'Via: SIP/2.0/%s %s;rport;branch=%s'
            texts = [(req, 'INVITE', p.t('INVITE sip:{w.ru}@{w.rh} SIP/2.0'), [
                V % (tr.upper(), hp, kval(br[req])), p.t('Route: <sip:{w.oh}:5060;lr>'), 'Max-Forwards: 70', p.t('From: "{f.n}" <sip:{q.fu}@') + up + '>', p.t('To: <sip:{q.ru}@{w.rh}>'),
                p.t('Call-ID: {w.cid}'), 'CSeq: 7 INVITE', 'Contact: Anonymous <sip:' + up + '>', 'Expires: 300', p.t('User-Agent: {w.ua}'),
                'WWW-Authenticate: Digest realm="%s",nonce="%s"' % (me, p.t('{w.nonce}'))], p.t('{f.b}')),
                (req2, 'OPTIONS', p.t('OPTIONS sip:{q.ru}@{w.rh} SIP/2.0'), [
                    V % (tr.upper(), hp, kval(br[req2])), 'Max-Forwards: 70', p.t('From: <sip:{q.fu}@{w.foreign}>'), p.t('To: <sip:{q.ru}@{w.rh}>'), p.t('Call-ID: {w.cid}'), 'CSeq: 8 OPTIONS',
                    p.t('User-Agent: {w.ua2}')], None),
                (resp, 'the response', 'SIP/2.0 200 OK', [
                    V % (tr.upper(), hp, kval(br[req2])), p.t('From: <sip:{q.fu}@{w.foreign}>'), p.t('To: <sip:{q.ru}@{w.rh}>'), p.t('Call-ID: {w.cid}'), 'CSeq: 8 OPTIONS', p.t('Server: {w.srv}')], None)]
            la = ('T', (('T', (K(me), K(port))), K(tr)))
            for o, nm, sl, hs, b in texts:
                for compact in (False, True):
                    for s, oc in p.every(p.st, o, 'localStr', [la, K(compact)]):
                        p.printed('own address', w, '%s made here and sent over %s from port %d%s' % (nm, tr, port, ', compact,' if compact else ''), s, oc,
                                  full_text(p, sl.replace(p.t('{w.ru}'), p.t('{q.ru}')), hs, 'application/sdp', b, compact))
                        ctx.count('messages written')
    p.st = st0


def check_M03(ctx):
    ctx.rule = ('messages are read from texts whose variable parts are symbols, with every line end, folding, list and way of announcing the body; every path must give the start line, '
                'the headers in order and exactly the announced bytes as body, and write the same message again with the length of the body in bytes')
    p = Texts(ctx)
    base = p.st
    reading(ctx, p)
    framing(ctx, p)
    p.st = base
    local(ctx, p)
    ctx.floor('messages read', 25)
    ctx.floor('framings', 120)
    ctx.floor('messages written', 36)
    for c in ('SipMsg', 'SipRequest', 'SipResponse'):
        ci = ctx.repo.cls(c)
        ctx.visited([ci.methods[m] for m in ('__init__', 'init_body', '__str__', 'localStr', 'setSL', 'getSL') if m in ci.methods])


RULES = {'M02': check_M02, 'M03': check_M03}
