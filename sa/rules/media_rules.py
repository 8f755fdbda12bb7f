"""R01-R04: the media relays (RTPproxy).

The code that talks to a relay is followed on its real text: descriptions with symbols for what varies, the
relay replaced by every kind of answer it may give (usable, refused, unreadable, none).
"""
import ast
import re

from ..interp import K, S, NONE, TRUE, FALSE, Ev, AnchorError, show, is_k, kval, is_none
from ..repo import Ext, ClassInfo
from ..scen import must, mkexc, drain
from ..text import TextCfg, TextI, sum_name, text_of, verr
from .text_rules import Texts
from .body_rules import meaning
from .loop_rules import lines

CLIENT = ('O', 'relay', Ext('Relay'))


def unknown_attr(cls, name, memo={}):
    """no object of the class can have the attribute"""
    if (cls, name) not in memo:
        own = [c for c in cls.mro() if isinstance(c, ClassInfo)]
        strange = [c for c in cls.mro() if not isinstance(c, ClassInfo) and getattr(c, 'name', '') not in ('object', 'builtins.object')]
        used = {'setattr', '__getattr__', '__getattribute__', '__dict__', name}
        memo[cls, name] = not strange and cls.find_attr(name) is None and not any(
            isinstance(n, ast.Name) and n.id in used or isinstance(n, ast.Attribute) and (n.attr in used and (n.attr != name or not isinstance(n.ctx, ast.Load))) or isinstance(n, ast.FunctionDef) and n.name in used
            for c in own for n in ast.walk(c.node))
    return memo[cls, name]


class MedI(TextI):
    """calling nothing fails; so does asking an object for what it cannot have"""
    def get_attr(self, st, o, name, e, fr):
        if is_k(o) and isinstance(kval(o), str) and not hasattr(str, name):
            return [(st, verr(e, 'AttributeError'))]
        if o[0] == 'O' and isinstance(o[2], ClassInfo) and (o, name) not in st.heap and not name.startswith('__') and unknown_attr(o[2], name):
            return [(st, verr(e, 'AttributeError'))]
        return TextI.get_attr(self, st, o, name, e, fr)

    def call(self, st, fv, recv, name, pos, kw, node, fr):
        if is_none(fv):
            return [(st, verr(node, 'TypeError'))]
        return TextI.call(self, st, fv, recv, name, pos, kw, node, fr)

    def callv(self, st, fv, args, kw=None):
        if is_none(fv):
            return [(st.copy(), ('raise', ('O', 'TypeError@loop', Ext('builtins.TypeError'))))]
        return TextI.callv(self, st, fv, args, kw)


class MedCfg(TextCfg):
    """the relay keeps what it is asked; the caller of an operation counts what it is told"""
    max_depth = 24

    def on_call2(self, interp, st, ev):
        if ev.recv == CLIENT and ev.name == 'send_command':
            interp.emit(st, ev)
            st.sethp('#asked', st.heap.get('#asked', ()) + ((ev.args[0], ev.args[1] if len(ev.args) > 1 else dict(ev.kw).get('result_callback', NONE), tuple(ev.args[2:])),))
            st.sethp('#maxout', max(st.heap.get('#maxout', 0), len(st.heap['#asked']) - st.heap.get('#replied', 0)))
            return [(st, NONE)]
        if ev.name == 'dump_exception':
            interp.emit(st, ev)
            return [(st, NONE)]
        if ev.name == 'gethostbyname':
            return [(st, K(self.names.word('own host')))]
        return TextCfg.on_call2(self, interp, st, ev)


class Media(Texts):
    def __init__(self, ctx, sbind=False, tnot=False, local=False):
        Texts.__init__(self, ctx)
        self.cfg = MedCfg(ctx.repo, callbacks={'CB': None})
        self.cfg.names = self.N
        self.I = MedI(ctx.repo, self.cfg)
        st = self.st
        for n, v in (('online', TRUE), ('sbind_supported', K(sbind)), ('tnot_supported', K(tnot)), ('is_local', K(local)), ('copy_supported', TRUE),
                     ('notify_socket', self.val('{w.nsock}') if tnot else NONE), ('proxy_address', self.val('{w.defaddr}'))):
            st.sethp((CLIENT, n), v)
        self.gc = ('D', 'gc')
        st.sethp((self.gc, 'map'), ((K('rtp_proxy_client'), CLIENT),))
        so = ctx.repo.cls('SdpOrigin')
        st.sethp((('C', so), '_session_id'), ('OP', 'int', K(self.N.num('first session id'))))
        self.st = st
        ctx.__dict__.setdefault('_made', []).append(self.I)

    def session(self, cls='Rtp_proxy_session', cid='{w.cid}'):
        """a session on the relay -> object"""
        args = [self.gc] + [self.val(x) for x in (cid, '{w.ft}', '{w.tt}', '{w.nt}')]
        r = [(s, o) for s, o in self.made(cls, args) if o[0] != 'raised']
        if len(r) != 1:
            raise AnchorError('a media session is not made in one way (%d)' % len(r))
        self.st = r[0][0].copy()
        self.st.trace = None
        return r[0][1]

    def body(self, text):
        r = [(s, o) for s, o in self.made('MsgBody', [K(text)]) if o[0] != 'raised']
        if len(r) != 1:
            raise AnchorError('a body is not made in one way (%d)' % len(r))
        self.st = r[0][0]
        return r[0][1]

    def asked(self, st):
        return st.heap.get('#asked', ())

    def told(self, st):
        return [e for e in st.events() if e.kind == 'cb' and e.name == 'CB']

    def reply(self, st, result, ex=None):
        """the next command gets its answer -> [(state, outcome)]"""
        i = st.heap.get('#replied', 0)
        cmd, cb, extra = self.asked(st)[i]
        st = st.copy()
        st.sethp('#replied', i + 1)
        if is_none(cb):
            return [(st, ('ret', NONE))]
        kw = {} if ex is None else {'ex': ex}
        return self.I.callv(st, cb, [result] + list(extra), kw)

    def pending(self, st):
        return len(self.asked(st)) - st.heap.get('#replied', 0)

    def posted(self, st):
        return drain(self.I, st)

    def play(self, st, results, limit=12):
        """answer everything asked, result i to command i, the last for the rest -> [(state, [raised values])]"""
        out = []
        todo = [(s, bad) for s, bad in self.settle(st, [])]
        while todo:
            s, bad = todo.pop()
            if not self.pending(s) or s.heap.get('#replied', 0) >= limit:
                out.append((s, bad))
                continue
            i = s.heap.get('#replied', 0)
            r = results[min(i, len(results) - 1)] if not callable(results) else results(i, self.asked(s)[i][0])
            exs = (None,)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == 'with':
                r, exs = r[1], r[1:]
                exs = (S('failure'),)
            for s2, oc in self.reply(s, r, exs[0]):
                todo.extend(self.settle(s2, bad + ([oc[1]] if oc[0] == 'raise' else [])))
        return out

    def settle(self, st, bad):
        return [(s, bad + [o[1] for o in ocs if o[0] == 'raise']) for s, ocs in self.posted(st)]


# ---------------------------------------------------------------- R02: descriptions
V, O, SN, TT = 'v=0', 'o={w.u} {n.sid} {n.ver} IN IP4 {w.oa}', 's={f.s}', 't={n.t1} {n.t2}'


def medium(i, kind='audio', tr='RTP/AVP', port=None, c='IN IP4 {w.ca%d}', extra=(), fm='{n.f%d} {n.g%d}'):
    c = c % i if '%d' in c else c
    fm = fm % ((i,) * fm.count('%d')) if '%d' in fm else fm
    return ['m=%s %s %s %s' % (kind, port or '{n.p%d}' % i, tr, fm), 'c=' + c, 'a=rtpmap:{n.f%d} {w.cn%d}/{n.rt%d}' % (i, i, i)] + list(extra)


def shapes():
    a, v = medium(1), medium(2, 'video', 'RTP/SAVP')
    yield 'one medium', [a]
    yield 'two media', [a, v]
    yield 'three media', [a, v, medium(3, 'image', 'udptl', fm='t38')]
    yield 'a medium the relay cannot carry between two it can', [a, medium(2, 'application', 'UDP/DTLS/SCTP', fm='webrtc-datachannel'), medium(3, 'video', 'RTP/SAVPF')]
    yield 'a refused medium', [a, medium(2, 'video', 'RTP/AVP', port='0')]
    yield 'a medium on hold by its address', [medium(1, c='IN IP4 0.0.0.0', extra=['a=sendrecv', 'a=x:{f.x}']), v]
    yield 'a medium on hold by its IPv6 address', [medium(1, c='IN IP6 ::', extra=['a=sendonly'])]
    yield 'two media on hold by IPv6 address', [medium(1, c='IN IP6 ::'), medium(2, 'video', c='IN IP6 ::', extra=['a=sendrecv'])]
    yield 'IPv6 media', [medium(1, c='IN IP6 {w.c6}'), medium(2, 'video', c='IN IP6 {w.d6}')]
    yield 'a medium with its own control port', [medium(1, extra=['a=rtcp:{n.rp} IN IP4 {w.ra}', 'a=ptime:{n.pt}', 'a=sendrecv'])]
    yield 'other names of transports', [medium(1, tr='udp/tls/rtp/savp'), medium(2, 'video', 'UDP/TLS/RTP/SAVPF'), medium(3, 'application', 'UDP/BFCP')]


def desc(ms, o=O):
    return '\r\n'.join([V, o, SN, TT] + [x for m in ms for x in m]) + '\r\n'


SUP = ('rtp/avp', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf', 'udp', 'udptl', 'udp/bfcp')


def carried(ms):
    return [m for m in ms if m[0].split()[2].lower() in SUP]


def good(i, fam=''):
    return '{n.rp%d} {w.rla%d}%s' % (i, i, fam)


def expected(p, ms, ver6=False, after=(), bare=False):
    """the media of the description that has to come out: the relay in place of the other end"""
    out, j = [], 0
    for m in ms:
        ml, c, rest = m[0].split(), m[1], list(m[2:])
        if ml[2].lower() in SUP:
            hold = m[1] in ('c=IN IP4 0.0.0.0', 'c=IN IP6 ::')
            fam = 'IP6' if ver6 and not bare else 'IP4'
            addr = '{w.defaddr}' if bare else '{w.rla%d}' % j
            if ml[1] != '0':
                ml[1] = '{n.rp%d}' % j
            c = 'c=IN %s %s' % (fam, addr)
            if hold:
                had = 'a=sendonly' in rest
                rest = [x for x in rest if x != 'a=sendrecv']
                if not had:
                    rest.append('a=sendonly')
            rest = ['a=rtcp:<next of {n.rp%d}> IN %s %s' % (j, fam, addr) if x.startswith('a=rtcp:') else x for x in rest]
            j += 1
        out.append([' '.join(ml), c] + rest)
    return out




FAILS = (('no answer', None), ('no answer, the reason given', ('why', None)), ('an error', 'E7'), ('an error with words', 'E8 {w.x}'), ('no port', '0'), ('no port with an address', '0 {w.x}'),
         ('a word for a port', '{w.x}'), ('words', '{w.x} {w.y} {w.z}'), ('an empty answer', ''))


def unwhy(p, x):
    if isinstance(x, tuple):
        return ('with', NONE)
    return NONE if x is None else p.val(x)


def where(ctx, meth, cls='Rtp_proxy_session'):
    f = must(ctx.repo, ctx.repo.cls(cls), meth)
    return f.where(f.node)


class Judge:
    def __init__(self, ctx, p, key, w):
        self.ctx, self.p, self.key, self.w = ctx, p, key, w

    def __call__(self, ok, what, msg, s):
        return self.ctx.check(ok, self.key + ' ' + what, self.w, self.p.N.show(msg), lines(s))


def outcome(J, p, what, s, bad, ret, body, failed):
    """what the caller of an update is told -> True when it is as it has to be"""
    J.ctx.count('updates followed')
    told = p.told(s)
    if not J(not bad, 'raised', '%s: the answer of the relay makes %s' % (what, ', '.join(show(x) for x in bad)), s):
        return False
    if not J(len(told) == 1, 'told', '%s: the outcome is told %d times' % (what, len(told)), s):
        return False
    e = told[0]
    kw = dict(e.kw)
    if failed:
        ex = kw.get('ex', NONE)
        return J(e.args and e.args[0] == NONE and ex[0] == 'O' and isinstance(ex[2], ClassInfo) and p.repo.cls('SipHandlingError') in ex[2].mro(), 'failure',
                 '%s: the failure is told as (%s)' % (what, ', '.join([show(a) for a in e.args] + ['%s=%s' % (k, show(v)) for k, v in kw.items()])), s)
    return J(e.args and e.args[0] == body and is_none(kw.get('ex', NONE)), 'success', '%s: the success is told as (%s)' % (
        what, ', '.join([show(a) for a in e.args] + ['%s=%s' % (k, show(v)) for k, v in kw.items()])), s)


def written(J, p, what, s, body, want, origin=None):
    """the description that comes out, compared by meaning; -> its origin"""
    r = p.every(s, body, '__str__')
    got = []
    for s2, oc in r:
        J.ctx.count('descriptions compared')
        t = text_of(oc[1]) if oc[0] == 'ret' else None
        if t is None:
            if oc[0] == 'raise':
                J(False, 'text', '%s: writing the description fails with %s' % (what, show(oc[1])), s2)
                continue
            raise AnchorError('%s: the text is not understood: %s' % (what, show(oc[1])[:200]))
        m, bad = meaning(t)
        if not J(bad is None, 'text', '%s: the description that comes out: %s' % (what, bad), s2):
            continue
        if origin is not None:
            J([v for k, v in m[0] if k == 'o'] == [origin], 'kept', '%s: its origin becomes %s' % (what, [v for k, v in m[0] if k == 'o']), s2)
        wm, wb = meaning(want)
        if wb:
            raise AnchorError('%s: %s' % (what, wb))
        strip = lambda x: tuple(y for y in x if y[0] != 'o')
        for part, a, b in (('lines of the session', strip(m[0]), strip(wm[0])), ('attributes of the session', m[1], wm[1]), ('media', len(m[3]), len(wm[3]))):
            J(a == b, part, '%s: %s: %r, should be %r' % (what, part, a, b), s2)
        for i, (a, b) in enumerate(zip(m[3], wm[3])):
            for part, x, y in zip(('media line', 'connection', 'other lines', 'attributes'), a, b):
                if part == 'attributes':
                    x, y = tuple(sorted(x)), tuple(sorted(y))
                J(x == y, 'media ' + part, '%s: medium %d: its %s: %r, should be %r' % (what, i + 1, part, x, y), s2)
        got.append([v for k, v in m[0] if k == 'o'])
    return got[0][0] if got and len(got[0]) == 1 else None


def text_want(p, ms, extra=()):
    t = desc(ms)
    t = re.sub(r'<next of \{n\.(\w+)\}>', lambda m: '{n.%s}' % ('next_' + m.group(1)), t)
    for m in set(re.findall(r'\{n\.next_(\w+)\}', t)):
        p.N.names[p.N.num(sum_name({('n', p.N.num(m)): 1, None: 1}))]
        t = t.replace('{n.next_%s}' % m, p.N.num(sum_name({('n', p.N.num(m)): 1, None: 1})))
    return p.t(t)


def commands(J, p, what, s, ms, side, start, other, opts=''):
    """the commands asked since start: one a medium, for the right stream, address and party"""
    cm = carried(ms)
    asked = p.asked(s)[start:]
    J(len(asked) == len(cm), 'commands', '%s: %d commands are sent for %d media' % (what, len(asked), len(cm)), s)
    ft, tt = ('{w.ft}', '{w.tt}') if side == 'caller' else ('{w.tt}', '{w.ft}')
    for i, (a, m) in enumerate(zip(asked, cm)):
        t = text_of(a[0])
        if t is None:
            raise AnchorError('%s: a command is not understood: %s' % (what, show(a[0])[:200]))
        w = t.split(' ')
        net, typ, addr = m[1][2:].split()
        want = [p.t(x) for x in ['{w.cid}-%d' % i, addr, m[0].split()[1], ft] + ([tt] if other else [])]
        J(w[0][:1] == 'U' and w[1:1 + len(want)] == want, 'command', '%s: the command for medium %d is "%s", should be "U... %s"' % (what, i + 1, t, ' '.join(want)), s)
        J(('6' in w[0][1:].split('R')[0]) == (typ == 'IP6'), 'command family', '%s: the command "%s" is for a medium of family %s' % (what, t, typ), s)
        J(all(o in w[0] for o in opts.split()), 'command options', '%s: the command "%s" lacks an option of "%s"' % (what, t, opts), s)
        rest = w[1 + len(want):]
        if p.tnot:
            J(len(rest) >= 2 and rest[0] == p.t('{w.nsock}'), 'command notification', '%s: the command "%s" asks for no notification' % (what, t), s)
        else:
            J(not rest or rest[0] == '&&', 'command end', '%s: the command "%s" has something more' % (what, t), s)


def start(ctx, p, ss, side, ms, o=O, st=None):
    if st is not None:
        p.st = st
    text = p.t(desc(ms, o))
    b = p.body(text)
    return b, text, p.every(p.st.copy(), ss, 'on_%s_sdp_change' % side, [b, S('CB')])


def fresh(s):
    s = s.copy()
    s.trace = None
    return s


def r02(ctx):
    ctx.rule = 'an update of a description completes once, with the relay in place'
    J = None
    for side in ('caller', 'callee'):
        for kw in ({}, {'sbind': True, 'tnot': True}, {'local': True, 'sbind': True}):
            for what, ms in shapes():
                p = Media(ctx, **kw)
                p.tnot = kw.get('tnot', False)
                J = Judge(ctx, p, 'update', where(ctx, 'on_%s_sdp_change' % side))
                ss = p.session()
                n = len(carried(ms))
                b, text, r = start(ctx, p, ss, side, ms)
                if not r:
                    raise AnchorError('%s: no path' % what)
                for s, oc in r:
                    if not J(oc[0] == 'ret', 'raised', '%s: it fails with %s' % (what, show(oc[1])), s):
                        continue
                    first(ctx, J, p, what, s, oc[1], b, text, ms, side, n)
                    if not kw:
                        failing(ctx, J, p, what, s, oc[1], b, n, side == 'caller')
    again(ctx)
    refused(ctx)
    variants(ctx)
    browsers(ctx)
    ctx.floor('updates followed', 300)
    ctx.floor('descriptions compared', 100)


def first(ctx, J, p, what, s, ret, b, text, ms, side, n):
    if n == 0:
        J(ret == b and not p.told(s) and not p.asked(s), 'nothing to do', '%s: the description is not handed back as it is' % what, s)
        return
    J(is_none(ret), 'result', '%s: the description is handed back and the outcome told as well' % what, s)
    ctx.check(not p.told(s), 'update early', J.w, '%s: the outcome is told before the relay has answered' % what)
    for fam, bare in (('', False), (' 6', False), ('', True)):
        res = [p.val(good(i, fam)) if not bare else p.val('{n.rp%d}' % i) for i in range(n)]
        for s2, bad in p.play(fresh(s), res):
            commands(J, p, what, s2, ms, side, 0, False)
            J(s2.heap.get('#maxout', 0) <= 1, 'one at a time', '%s: a command is sent before the one before it has been answered' % what, s2)
            if outcome(J, p, what, s2, bad, ret, b, False):
                o = written(J, p, what, s2, b, text_want(p, expected(p, ms, bool(fam), bare=bare)))
                J(o is not None and o.split()[0] == '-' and o != p.t(O)[2:], 'origin', '%s: the origin of the description is "%s"' % (what, o), s2)


def failing(ctx, J, p, what, s, ret, b, n, full):
    for i in range(n):
        for nm, f in FAILS if full or i == 0 else FAILS[:3]:
            for tail in (('good',) if i == n - 1 or not full else ('good', 'bad')):
                res = [p.val(good(j)) for j in range(i)] + [unwhy(p, f)] + [p.val(good(j)) if tail == 'good' else NONE for j in range(i + 1, n)]
                for s2, bad in p.play(fresh(s), res):
                    outcome(J, p, '%s, the relay gives %s for medium %d' % (what, nm, i + 1), s2, bad, ret, b, True)


def again(ctx):
    """a second and third description of one party, and one of the other"""
    O2, O3, O4 = 'o={w.u} {n.sid} {n.ver2} IN IP4 {w.oa}', 'o={w.u} {n.sid2} {n.ver} IN IP4 {w.oa}', O
    for nxt, kind in ((O4, 'the same'), (O2, 'a new version'), (O3, 'a new session')):
        for n1, n2 in ((1, 1), (2, 1), (1, 2)):
            p = Media(ctx)
            p.tnot = False
            J = Judge(ctx, p, 'update again', where(ctx, 'on_caller_sdp_change'))
            ss = p.session()
            ms1, ms2 = [[medium(i + 1) for i in range(n)] for n in (n1, n2)]
            b1, t1, r1 = start(ctx, p, ss, 'caller', ms1)
            for s1, oc1 in r1:
                for s2, bad in p.play(s1, lambda i, c: p.val(good(i))):
                    if not outcome(J, p, 'the first update', s2, bad, None, b1, False):
                        continue
                    o1 = written(J, p, 'the first update', s2, b1, text_want(p, expected(p, ms1)))
                    if o1 is None:
                        continue
                    s2 = fresh(s2)
                    k = len(p.asked(s2))
                    b2, t2, r2 = start(ctx, p, ss, 'callee', ms2, st=s2)
                    for s3, oc3 in r2:
                        for s4, bad4 in p.play(s3, lambda i, c: p.val(good(i - k))):
                            what = 'the update of the other party'
                            commands(J, p, what, s4, ms2, 'callee', k, True)
                            if not outcome(J, p, what, s4, bad4, None, b2, False):
                                continue
                            o2 = written(J, p, what, s4, b2, text_want(p, expected(p, ms2)))
                            J(o2 is not None and o2.split()[1:2] != o1.split()[1:2], 'origin of the other', '%s: both parties are given the origin "%s"' % (what, o1), s4)
                            s4 = fresh(s4)
                            k2 = len(p.asked(s4))
                            b3, t3, r3 = start(ctx, p, ss, 'caller', ms2, o=nxt, st=s4)
                            for s5, oc5 in r3:
                                for s6, bad6 in p.play(s5, lambda i, c: p.val(good(i - k2))):
                                    what = 'the second update, of %s' % kind
                                    commands(J, p, what, s6, ms2, 'caller', k2, True)
                                    if not outcome(J, p, what, s6, bad6, None, b3, False):
                                        continue
                                    o3 = written(J, p, what, s6, b3, text_want(p, expected(p, ms2)))
                                    if o3 is None:
                                        continue
                                    written(J, p, 'the first description, after a later update,', s6, b1, text_want(p, expected(p, ms1)), o1)
                                    third(ctx, J, p, ss, s6, ms2, nxt, o3, kind)
                                    x, y = o1.split(), o3.split()
                                    if kind == 'the same':
                                        J(x == y, 'origin', '%s: the origin was "%s" and becomes "%s"' % (what, o1, o3), s6)
                                    elif kind == 'a new version':
                                        J(x[1] == y[1] and y[2] == p.N.num(sum_name({('n', x[2]): 1, None: 1})), 'origin', '%s: the origin was "%s" and becomes "%s"' % (what, o1, o3), s6)
                                    else:
                                        J(x[1] != y[1], 'origin', '%s: the origin was "%s" and becomes "%s"' % (what, o1, o3), s6)


def third(ctx, J, p, ss, st, ms, o, was, kind):
    """the same description once more"""
    st = fresh(st)
    k = len(p.asked(st))
    b, t, r = start(ctx, p, ss, 'caller', ms, o=o, st=st)
    for s, oc in r:
        for s2, bad in p.play(s, lambda i, c: p.val(good(i - k))):
            what = 'the second update, of %s, once more' % kind
            if outcome(J, p, what, s2, bad, None, b, False):
                got = written(J, p, what, s2, b, text_want(p, expected(p, ms)))
                J(got == was, 'origin', '%s: the origin was "%s" and becomes "%s"' % (what, was, got), s2)


def refused(ctx):
    """descriptions that are not usable"""
    for what, text in (('a text that is no description', '{w.x} {w.y}'), ('a description without origin', '\r\n'.join([V, SN, TT] + medium(1)) + '\r\n'),
                       ('a description with a port that is no number', desc([medium(1, port='{w.prt}')]))):
        p = Media(ctx)
        J = Judge(ctx, p, 'unusable', where(ctx, 'on_caller_sdp_change'))
        ss = p.session()
        b = p.body(p.t(text))
        n = 0
        for s, oc in p.every(p.st, ss, 'on_caller_sdp_change', [b, S('CB')]):
            n += 1
            ctx.count('unusable descriptions')
            J(oc[0] == 'raise' and oc[1][0] == 'O' and isinstance(oc[1][2], ClassInfo) and p.repo.cls('SipHandlingError') in oc[1][2].mro(), 'refused',
              '%s: the update gives %s' % (what, show(oc[1])), s)
            J(not p.asked(s) and not p.told(s), 'refused quietly', '%s: the relay is asked or the outcome told' % what, s)
        if not n:
            raise AnchorError('%s: no path' % what)
    for what, tr in (('only media the relay cannot carry', 'UDP/DTLS/SCTP'), ('only media of an unknown transport', '{w.tr}')):
        p = Media(ctx)
        J = Judge(ctx, p, 'nothing to carry', where(ctx, 'on_caller_sdp_change'))
        ss = p.session()
        ms = [medium(1, tr=tr)]
        b, text, r = start(ctx, p, ss, 'caller', ms)
        for s, oc in r:
            ctx.count('unusable descriptions')
            J(oc == ('ret', b) and not p.asked(s) and not p.told(s), 'handed back', '%s: the description is not handed back' % what, s)
            if oc[0] == 'ret':
                written(J, p, what, s, b, text)
    multi = '--{w.bnd}\r\nContent-Type: application/sdp\r\n\r\n%s--{w.bnd}--\r\n' % desc([medium(1)])
    for what, ct, text in (('a body of another kind', 'application/{w.kind}', '{w.some}'), ('a body of several parts', 'multipart/mixed; boundary={w.bnd}', multi)):
        p = Media(ctx)
        J = Judge(ctx, p, 'nothing to carry', where(ctx, 'on_caller_sdp_change'))
        ss = p.session()
        b = typed(p, text, ct)
        for s, oc in p.every(p.st, ss, 'on_caller_sdp_change', [b, S('CB')]):
            ctx.count('unusable descriptions')
            J(not p.told(s) or p.asked(s), 'told', '%s: the outcome is told without asking the relay' % what, s)
            if oc[0] == 'raise':
                J(ct[0] == 'm' and oc[1][0] == 'O' and isinstance(oc[1][2], ClassInfo) and p.repo.cls('SipHandlingError') in oc[1][2].mro(), 'another kind', '%s: the update gives %s' % (what, show(oc[1])), s)
            elif ct[0] == 'a':
                J(oc[1] == b and not p.asked(s), 'another kind', '%s: it is not handed back' % what, s)


def typed(p, text, ct):
    """a body of another type"""
    r = [(s, o) for s, o in p.made('SipContentType', [p.val(ct)]) if o[0] != 'raised']
    if len(r) != 1:
        raise AnchorError('a content type is not made in one way (%d)' % len(r))
    p.st, o = r[0]
    r = [s for s, oc in p.every(p.st.copy(), o, 'parse') if oc[0] == 'ret']
    if len(r) != 1:
        raise AnchorError('a content type is not read in one way (%d)' % len(r))
    p.st = r[0]
    r = [(s, x) for s, x in p.made('MsgBody', [K(p.t(text)), o]) if x[0] != 'raised']
    if len(r) != 1:
        raise AnchorError('a body is not made in one way (%d)' % len(r))
    p.st = r[0][0]
    return r[0][1]


def variants(ctx):
    """sessions that ask for more: repacketizing, a mark for the relays behind"""
    for rp in (20, 30):
        for extra in ([], ['a=fmtp:{n.f1} {w.fp}', 'a=x:{w.x}'], ['a=ptime:{n.pt}', 'a=y']):
            p = Media(ctx)
            p.tnot = False
            J = Judge(ctx, p, 'repacketizing', where(ctx, 'on_caller_sdp_change'))
            ss = p.session()
            p.st.sethp((p.I.peek_attr(p.st, ss, 'caller'), 'repacketize'), K(rp))
            ms = [medium(1, extra=extra)]
            b, text, r = start(ctx, p, ss, 'caller', ms)
            for s, oc in r:
                for s2, bad in p.play(s, [p.val(good(0))]):
                    commands(J, p, 'repacketizing', s2, ms, 'caller', 0, False, 'z%d' % rp)
                    if outcome(J, p, 'repacketizing', s2, bad, None, b, False):
                        ex = expected(p, ms)
                        ex[0] = [x for x in ex[0] if not x.startswith('a=ptime')] + ['a=ptime:%d' % rp]
                        written(J, p, 'repacketizing', s2, b, text_want(p, ex))
    p = Media(ctx)
    p.tnot = False
    J = Judge(ctx, p, 'mark', where(ctx, 'on_caller_sdp_change'))
    ss = p.session('Rtp_proxy_session_default')
    ms = [medium(1), medium(2)]
    b, text, r = start(ctx, p, ss, 'caller', ms)
    for s, oc in r:
        for s2, bad in p.play(s, lambda i, c: p.val(good(i))):
            if outcome(J, p, 'the session of a call', s2, bad, None, b, False):
                ex = expected(p, ms)
                ex[-1].append('a=nortpproxy:yes')
                written(J, p, 'the session of a call', s2, b, text_want(p, ex))


# ---------------------------------------------------------------- browsers
WEB = ['a=setup:actpass', 'a=fingerprint:{w.alg} {w.fp}', 'a=ice-ufrag:{w.uf}', 'a=ice-pwd:{w.pw}', 'a=candidate:{w.fnd} 1 udp {n.pri} 10.0.0.1 {n.cp} typ host', 'a=rtcp-mux',
       'a=ssrc:{n.ssrc} cname:{w.cnm}', 'a=ssrc:{n.ssrc} msid:{w.ms}']


def web(drop=(), put=()):
    return medium(1, tr='UDP/TLS/RTP/SAVPF', extra=[x for x in WEB if not any(x.startswith('a=' + d) for d in drop)] + ['a=' + x for x in put])


TO_WEB = '{n.rp0} {w.rla0} && active {w.alg} {w.rfp} && {w.ruf} {w.rpw} {w.c1} {w.c2}'
FROM_WEB = '{n.rp0} {w.rla0} && 0 && 0 && 0'
W_GOOD = {'to': (TO_WEB,), 'from': (FROM_WEB, '{n.rp0} {w.rla0}')}
W_BAD = {'to': ('{n.rp0} {w.rla0} && -1', '{n.rp0} {w.rla0} && active {w.alg} {w.rfp} && -1', '{n.rp0} {w.rla0} && active {w.alg} {w.rfp} && {w.ruf} {w.rpw}',
                '{n.rp0} {w.rla0} && active && {w.ruf} {w.rpw} {w.c1}', '{n.rp0} {w.rla0}', TO_WEB + ' && 0', '{n.rp0} {w.rla0} && active {w.alg} {w.rfp}', 'E3 && 0 && 0',
                '{w.x} && active {w.alg} {w.rfp} && {w.ruf} {w.rpw} {w.c1}'),
         'from': ('{n.rp0} {w.rla0} && -1', '{n.rp0} {w.rla0} && 0 && -1', '{n.rp0} {w.rla0} && 0 && 0 && -1', '{n.rp0} {w.rla0} && 0 && 5 && 0', '{n.rp0} {w.rla0} && 0 && 0 && 0 && 0', 'E9')}


def browsers(ctx):
    plain = medium(1, extra=['a=sendrecv'])
    for cls, side, ms, kind in (('Rtp_proxy_session_sip2webrtc', 'caller', plain, 'to'), ('Rtp_proxy_session_webrtc2sip', 'callee', plain, 'to'),
                                ('Rtp_proxy_session_sip2webrtc', 'callee', web(), 'from'), ('Rtp_proxy_session_webrtc2sip', 'caller', web(), 'from')):
        p = Media(ctx)
        p.tnot = False
        J = Judge(ctx, p, 'browser', where(ctx, 'on_%s_sdp_change' % side))
        ss = p.session(cls)
        what = 'a description %s a browser' % kind
        b, text, r = start(ctx, p, ss, side, [ms])
        n = 0
        for s, oc in r:
            n += 1
            if not J(oc[0] == 'ret' and is_none(oc[1]), 'raised', '%s: it gives %s' % (what, show(oc[1])), s):
                continue
            for res in W_GOOD[kind]:
                for s2, bad in p.play(fresh(s), [p.val(res)]):
                    commands(J, p, what, s2, [ms], side, 0, False)
                    if outcome(J, p, '%s, the relay answers "%s"' % (what, res), s2, bad, None, b, False):
                        webtext(J, p, what, s2, b, kind)
            for res in W_BAD[kind]:
                for s2, bad in p.play(fresh(s), [p.val(res)]):
                    outcome(J, p, '%s, the relay answers "%s"' % (what, res), s2, bad, None, b, True)
        if not n:
            raise AnchorError('%s: no path' % what)
    # what a browser may leave out or write in a way of its own
    for what, ms in (('no fingerprint', web(('fingerprint',))), ('no way to connect', web(('setup',))), ('an unknown way to connect', web(('setup',), ('setup:{w.su}',))),
                     ('a way to connect with no value', web(('setup',), ('setup',))), ('no name for ICE', web(('ice-ufrag',))), ('no password for ICE', web(('ice-pwd',))),
                     ('a candidate with no value', web((), ('candidate',))), ('a candidate cut short', web((), ('candidate:{w.cf} 1',))), ('a candidate without address', web((), ('candidate:{w.cf} 1 udp {n.x}',))),
                     ('a source with no value', web(('ssrc',), ('ssrc',))), ('a source with no attribute', web(('ssrc',), ('ssrc:{n.ssrc}',))), ('no source', web(('ssrc',))), ('no candidates', web(('candidate',))),
                     ('a candidate of TCP', web((), ('candidate:{w.cf} 1 tcp {n.x} 10.0.0.2 9 typ host',)))):
        p = Media(ctx)
        p.tnot = False
        J = Judge(ctx, p, 'browser', where(ctx, 'on_caller_sdp_change'))
        ss = p.session('Rtp_proxy_session_webrtc2sip')
        b, text, r = start(ctx, p, ss, 'caller', [ms])
        for s, oc in r:
            if oc[0] == 'raise':
                J(oc[1][0] == 'O' and isinstance(oc[1][2], ClassInfo) and p.repo.cls('SipHandlingError') in oc[1][2].mro(), 'refused', 'a description from a browser, %s: it gives %s' % (what, show(oc[1])), s)
                J(not p.asked(s) and not p.told(s), 'refused quietly', 'a description from a browser, %s: the relay is asked or the outcome told' % what, s)
                continue
            for s2, bad in p.play(fresh(s), [p.val('{n.rp0} {w.rla0}')]):
                if outcome(J, p, 'a description from a browser, %s' % what, s2, bad, None, b, False):
                    webtext(J, p, what, s2, b, 'from')


def webtext(J, p, what, s, b, kind):
    for s2, oc in p.every(s, b, '__str__'):
        t = text_of(oc[1]) if oc[0] == 'ret' else None
        if t is None:
            raise AnchorError('%s: the text is not understood: %s' % (what, show(oc[1])[:400]))
        m, bad = meaning(t)
        if not J(bad is None and len(m[3]) == 1, 'text', '%s: the description that comes out: %s' % (what, bad), s2):
            continue
        med, conn, rest, at = m[3][0]
        names = [a.split(':')[0] for a in at]
        w = med.split()
        J(conn == (p.t('IN IP4 {w.rla0}'),) and w[1] == p.t('{n.rp0}'), 'relay', '%s: the medium is "%s" at %r' % (what, med, conn), s2)
        if kind == 'to':
            J(w[2] == 'UDP/TLS/RTP/SAVP', 'transport', '%s: the transport is %s' % (what, w[2]), s2)
            for x in ('setup:active', 'fingerprint:{w.alg} {w.rfp}', 'ice-ufrag:{w.ruf}', 'ice-pwd:{w.rpw}', 'rtcp-mux'):
                J(at.count(p.t(x)) == 1, 'attributes', '%s: "%s" is not among the attributes %r' % (what, p.t(x), at), s2)
            J(names.count('candidate') == 2, 'attributes', '%s: there are %d candidates, should be 2' % (what, names.count('candidate')), s2)
        else:
            J(w[2] == 'RTP/AVP', 'transport', '%s: the transport is %s' % (what, w[2]), s2)
            for x in ('setup', 'fingerprint', 'ice-ufrag', 'ice-pwd', 'candidate', 'rtcp-mux'):
                J(x not in names, 'attributes', '%s: "%s" is left among the attributes %r' % (what, x, at), s2)


# ---------------------------------------------------------------- R03: streams, operations
def deletes(p, cmds):
    out = []
    for a in cmds:
        t = text_of(a[0])
        if t is not None and t.split(' ')[0][:1] == 'D':
            out.append(t.split(' '))
    return out


def r03(ctx):
    ctx.rule = 'a session ends with every stream it asked for deleted, its commands sent one by one in order'
    hist = []
    for n1 in (1, 2, 3):
        hist.append((('caller', n1),))
        for n2 in (1, 2, 3):
            hist.append((('caller', n1), ('callee', n2)))
    for h in [()] + hist:
        for mode in ('answered', 'failed', 'unanswered', 'answered late, with no address'):
            for how in ('delete', '__del__'):
                for timeout in (None, 0, 1):
                    if timeout is not None and (mode != 'answered' or how != 'delete' or not h or max(n for _, n in h) <= timeout):
                        continue
                    history(ctx, h, mode, how, timeout)
    operations(ctx)
    choice(ctx)
    ctx.floor('sessions ended', 60)
    ctx.floor('operations followed', 80)


LATE = ('unanswered', 'answered late, with no address')


def history(ctx, h, mode, how, timeout):
    p = Media(ctx)
    p.tnot = False
    J = Judge(ctx, p, 'session end', where(ctx, 'delete'))
    ss = p.session()
    states = [p.st]
    for side, n in h:
        nxt = []
        for st in states:
            b, text, r = start(ctx, p, ss, side, [medium(i + 1) for i in range(n)], st=st)
            for s, oc in r:
                if mode in LATE:
                    nxt.append(fresh(s))
                else:
                    k = len(p.asked(st))
                    nxt.extend(fresh(s2) for s2, bad in p.play(fresh(s), (lambda i, c: p.val(good(i - k))) if mode == 'answered' else (lambda i, c: NONE)))
        states = nxt
    what = 'after %s (%s)' % (', '.join('an update of the %s with %d media' % x for x in h) or 'nothing', mode)
    n = max([n for _, n in h] or [0])
    if not states:
        raise AnchorError('%s: no path' % what)
    for st in states:
        st = st.copy()
        if timeout is not None:
            st.sethp((ss, 'media_timeout_index'), K(timeout))
        seq = p.I.peek_attr(st, ss, 'rtpp_seq')
        for s, oc in p.every(st, ss, how):
            J(oc[0] == 'ret', 'raised', '%s: ending the session fails with %s' % (what, show(oc[1])), s)
            for s1, b1 in p.settle(s, []):
                for s2, oc2 in p.every(s1, ss, 'delete'):
                    J(oc2[0] == 'ret', 'raised', '%s: ending the session once more fails with %s' % (what, show(oc2[1])), s2)
                    for s3, bad in p.play(s2, lambda i, c: p.val('0') if text_of(c)[:1] == 'D' else p.val(good(i) if mode != LATE[1] else '{n.rp0}')):
                        ctx.count('sessions ended')
                        J(not bad, 'raised later', '%s: an answer that comes later makes %s' % (what, ', '.join(show(x) for x in bad)), s3)
                        got = sorted(' '.join(d[1:]) for d in deletes(p, p.asked(s3)))
                        want = sorted(p.t('{w.cid}-%d {w.ft} {w.tt}' % i) for i in range(n) if i != timeout)
                        J(got == want, 'streams', '%s: the streams deleted are %r, should be %r' % (what, got, want), s3)
                        J(p.pending(s3) == 0, 'queue', '%s: commands are left unsent' % what, s3)
                        J(s3.heap.get('#maxout', 0) <= 1, 'one at a time', '%s: a command is sent before the one before it has been answered' % what, s3)
                        kinds = [text_of(a[0])[:1] for a in p.asked(s3)]
                        J('D' not in kinds or 'U' not in kinds[kinds.index('D'):], 'order', '%s: a stream is asked for after the streams were deleted: %s' % (what, ' '.join(kinds)), s3)
                        J(is_none(p.I.peek_attr(s3, seq, 'rtp_proxy_client')), 'let go', '%s: the queue of the session keeps hold of the relay' % what, s3)
                        if mode in LATE:
                            nt = len(p.told(s3))
                            J(nt == len([x for x in h]), 'told', '%s: the outcome of %d updates is told %d times' % (what, len(h), nt), s3)


OPS = (
    # name, arguments, needs a stream of this party / both, command
    ('play_caller', ('{w.prompt}', 2), {'result_callback': 'CB', 'index': 1}, 'caller', 'both', r'P2 {w.cid}-1 {w.prompt} {c} {w.ft} {w.tt}'),
    ('play_callee', ('{w.prompt}', 3), {'result_callback': 'CB'}, 'callee', 'both', r'P3 {w.cid}-0 {w.prompt} {c} {w.tt} {w.ft}'),
    ('stop_play_caller', (), {'result_callback': 'CB', 'index': 1}, 'caller', 'this', r'S {w.cid}-1 {w.ft} {w.tt}'),
    ('stop_play_callee', (), {'result_callback': 'CB'}, 'callee', 'this', r'S {w.cid}-0 {w.tt} {w.ft}'),
    ('copy_caller', ('{w.rip}', 777), {'result_callback': 'CB', 'index': 1}, 'caller', 'makes', r'C {w.cid}-1 udp:{w.rip}:777 {w.ft} {w.tt}'),
    ('copy_callee', ('{w.rip}', 777), {'result_callback': 'CB'}, 'callee', 'makes', r'C {w.cid}-0 udp:{w.rip}:777 {w.tt} {w.ft}'),
    ('start_recording', (), {'result_callback': 'CB', 'index': 1}, 'caller', 'makes', r'R {w.cid}-1 {w.ft} {w.tt}'),
    ('start_recording', ('{w.rname}',), {'result_callback': 'CB'}, 'caller', 'makes', r'C {w.cid}-0 {w.rname}.a {w.ft} {w.tt}|C {w.cid}-0 {w.rname}.o {w.tt} {w.ft}'),
    ('start_recording', ('{w.rname}',), {'result_callback': 'CB', 'only_a': True, 'rflags': 's'}, 'caller', 'makes', r'Cs {w.cid}-0 {w.rname}.a {w.ft} {w.tt}'),
    ('stats', (), {'result_callback': 'CB', 'index': 1}, None, None, r'Q {w.cid}-1 {w.ft} {w.tt}'),
    ('version', (), {'result_callback': 'CB'}, None, None, r'V'),
)


def operations(ctx):
    for name, args, kw, side, need, cmd in OPS:
        for cb in (True, False):
            if not cb and name in ('stats', 'version'):
                continue
            for have in ((), ('caller',), ('callee',), ('caller', 'callee')):
                for res in ('ok', 'fail', 'bad'):
                    if need is None and have and have != ('caller', 'callee'):
                        continue
                    operation(ctx, name, args, kw, side, need, cmd, cb, have, res)


def operation(ctx, name, args, kw, side, need, cmd, cb, have, res):
    p = Media(ctx)
    p.tnot = False
    J = Judge(ctx, p, 'operation', where(ctx, name))
    ss = p.session()
    states = [p.st]
    for sd in have:
        nxt = []
        for st in states:
            k = len(p.asked(st))
            b, text, r = start(ctx, p, ss, sd, [medium(1), medium(2)], st=st)
            nxt.extend(fresh(s2) for s, oc in r for s2, bad in p.play(fresh(s), lambda i, c: p.val(good(i - k))))
        states = nxt
    what = '%s, with streams of %s%s, the relay %s' % (name, ' and '.join(have) or 'nobody', '' if cb else ', nobody to tell', {'ok': 'does it', 'fail': 'does not answer', 'bad': 'refuses'}[res])
    kws = {k: S('CB') if v == 'CB' else p.val(v) for k, v in kw.items() if cb or v != 'CB'}
    for st in states:
        k = len(p.asked(st))
        for s, oc in p.every(st, ss, name, [p.val(a) for a in args], kws):
            if not J(oc[0] == 'ret', 'raised', '%s: it fails with %s' % (what, show(oc[1])), s):
                continue
            answers = {'ok': lambda i, c: p.val('{n.rp0} {w.rla0}') if text_of(c)[:1] == 'U' else p.val('10 1 2 3 4') if text_of(c)[:1] == 'Q' else p.val('0'),
                       'fail': lambda i, c: NONE, 'bad': lambda i, c: p.val('E5')}[res]
            for s2, bad in p.play(s, answers):
                ctx.count('operations followed')
                J(not bad, 'raised', '%s: the answer makes %s' % (what, ', '.join(show(x) for x in bad)), s2)
                told = [e for e in p.told(s2)]
                J(len(told) == (1 if cb else 0), 'told', '%s: the outcome is told %d times' % (what, len(told)), s2)
                if res == 'fail' and cb and len(told) == 1 and told[0].args:
                    J(told[0].args[0] == NONE, 'failure', '%s: the outcome told is %s' % (what, show(told[0].args[0])), s2)
                ms = [text_of(a[0]) for a in p.asked(s2)[k:]]
                ops = [m for m in ms if m[:1] != 'U']
                want = [p.t(x.replace('{c}', '{n.f1},{n.g1}')) for x in cmd.split('|')]
                live = side is None or side in have or need == 'makes'
                if not live:
                    J(not ms, 'nothing to do', '%s: "%s" is sent' % (what, '", "'.join(ms)), s2)
                    continue
                J(all(a == b for a, b in zip(ops, want)) and len(ops) <= len(want), 'command', '%s: sent is "%s", should be "%s"' % (what, '", "'.join(ops), '", "'.join(want)), s2)
                if res == 'ok':
                    J(len(ops) == len(want), 'done', '%s: sent is "%s", should be "%s"' % (what, '", "'.join(ms), '", "'.join(want)), s2)
                us = [m for m in ms if m[:1] == 'U']
                both = need == 'both' and len(have) < 2 or need == 'makes' and side not in have
                J(len(us) == (1 if both else 0), 'stream', '%s: %d streams are asked for' % (what, len(us)), s2)
                J(s2.heap.get('#maxout', 0) <= 1 or need is None, 'one at a time', '%s: a command is sent before the one before it has been answered' % what, s2)


def choice(ctx):
    """a session is only set up on a relay that answers"""
    for what, on in (('one relay', (True,)), ('one relay, away', (False,)), ('several relays, one of them away', (False, True)), ('several relays, one of them away', (True, False)), ('several relays, all away', (False, False))):
        for many in (False, True) if len(on) == 1 else (True,):
            p = Media(ctx)
            J = Judge(ctx, p, 'choice', where(ctx, '__init__'))
            cl = [('O', 'relay%d' % i, Ext('Relay')) for i in range(len(on))]
            for c, o in zip(cl, on):
                p.st.sethp((c, 'online'), K(o))
                p.st.sethp((c, 'notify_socket'), NONE)
            lst = ('L', 'relays')
            p.st.sethp((lst, 'items'), tuple(cl))
            p.st.sethp((p.gc, 'map'), ((K('_rtp_proxy_clients'), lst),) if many else ((K('rtp_proxy_client'), cl[0]),))
            n = 0
            for s, o in p.made('Rtp_proxy_session', [p.gc, p.val('{w.cid}')]):
                n += 1
                ctx.count('choices of a relay')
                if not any(on):
                    J(o[0] == 'raised' and isinstance(o[1][2], ClassInfo) and p.repo.cls('SipHandlingError') in o[1][2].mro(), 'refused', '%s: the session is set up' % what, s)
                    continue
                if not J(o[0] != 'raised', 'raised', '%s: setting up the session fails with %s' % (what, show(o[1])), s):
                    continue
                c = p.I.peek_attr(s, o, 'rtp_proxy_client')
                if c is not None and c[0] == 'OP' and c[1] in ('idx', 'item', 'choice') and c[2][0] in 'LT':
                    # whichever of a list: all of the list have to be on line
                    of = p.I.seq_items(c[2], s)
                else:
                    of = (c,)
                J(of and all(x in cl and on[cl.index(x)] for x in of), 'online', '%s: the session is set up on %s' % (what, show(c)), s)
            if not n:
                raise AnchorError('%s: no path' % what)


def followed(rule):
    """what the analysis went through is told with its result"""
    def f(ctx):
        try:
            rule(ctx)
        finally:
            for I in ctx.__dict__.get('_made', ()):
                ctx.visited(I.visited)
    return f


RULES = {'R02': followed(r02), 'R03': followed(r03)}
