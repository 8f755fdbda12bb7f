"""C10: a registration is kept up until it is stopped.

The registration agent is followed through every sequence of answers of a few steps: real answers, taken apart by the
code that takes messages apart, with symbolic texts in them.
"""
from ..interp import K, S, NONE, TRUE, FALSE, AnchorError, Raise, show, is_k, kval
from ..repo import Ext
from ..scen import must
from ..text import TextCfg, TextI, isnum
from ..wire import TM
from .loop_rules import lines
from .text_rules import Texts

GC = ('D', 'gc')
OK, FAILED = ('O', 'ok', Ext('Callback')), ('O', 'failed', Ext('Callback'))


class RegCfg(TextCfg):
    def on_call2(self, interp, st, ev):
        n, c = ev.name, ev.callee
        if c is not None and c.module.name == 'sippy.Time.Timeout' and n.startswith('Timeout'):
            interp.emit(st, ev)
            a = dict(zip(('timeout_callback', 'ival', 'ticks'), ev.args[:3]))
            a.update(dict(ev.kw))
            i = st.heap.get('#timers', 0)
            o = ('O', 'timer%d' % i, Ext('Timer'))
            st.sethp('#timers', i + 1)
            e = ('O', 'due%d' % i, Ext('Due'))
            st.sethp((o, 'etime'), e)
            st.sethp((e, 'realt'), S('when timer %d is due' % i))
            st.sethp('#due', st.heap.get('#due', ()) + ((n, a.get('timeout_callback', NONE), a.get('ival', NONE), tuple(ev.args[3:]), a.get('ticks', K(1))),))
            return [(st, o)]
        if n == 'genAuthResponse' and c is not None:
            interp.emit(st, ev)
            a = [self.names.show(x) if isinstance(x, str) else x for x in (kval(x) if is_k(x) else show(x) for x in ev.args[:2])]
            st.sethp((ev.recv, 'response'), K(self.names.word('digest of %s for %s' % (a[0], a[1]))))
            return [(st, NONE)]
        if ev.extra in (OK, FAILED):
            interp.emit(st, ev)
            return [(st, NONE)]
        return TextCfg.on_call2(self, interp, st, ev)

    def manager(self, interp, st, ev):
        t = None
        if ev.args and ev.args[0][0] == 'O':
            r = interp.run(must(interp.repo, ev.args[0][2], '__str__'), ev.args[0], [], {}, st.copy())
            if len(r) != 1 or r[0][1][0] != 'ret' or not is_k(r[0][1][1]):
                raise AnchorError('what is sent is not understood: %s' % [show(oc[1])[:900] for s, oc in r][:2])
            t = kval(r[0][1][1])
        st.sethp('#texts', st.heap.get('#texts', ()) + ((ev.name, t, tuple(ev.args), tuple(ev.kw)),))
        return TextCfg.manager(self, interp, st, ev)


class Reg(Texts):
    def __init__(self, ctx):
        Texts.__init__(self, ctx)
        self.cfg = RegCfg(ctx.repo)
        self.cfg.names = self.N
        self.I = TextI(ctx.repo, self.cfg)
        self.ci = ctx.repo.cls('SipRegistrationAgent')
        conf = ctx.repo.cls('SipConf')
        for n, v in (('my_uaname', '{w.agent}'), ('my_address', '{w.laddr}'), ('my_port', '{n.lport}'), ('my_transport', 'udp'), ('default_transport', 'udp')):
            self.st.sethp((('C', conf), n), self.val(v))
        self.st.sethp((GC, 'map'), ((K('_sip_tm'), TM),))

    def url(self, tpl):
        r = [(s, o) for s, o in self.made('SipURL', [self.val(tpl)])]
        if len(r) != 1 or r[0][1][0] == 'raised':
            raise AnchorError('an address is not taken apart in one way')
        self.st = r[0][0]
        return r[0][1]

    def agent(self, **kw):
        aor, contact = self.url('sip:{q.me}@{w.home}'), self.url('sip:{q.me}@{w.here}:5070')
        a = {'user': self.val('{w.user}'), 'passw': self.val('{w.password}'), 'rok_cb': OK, 'rfail_cb': FAILED, 'cb_arg': S('arg')}
        a.update(kw)
        a = {k: v for k, v in a.items() if v is not None}
        r = self.made('SipRegistrationAgent', [GC, aor, contact], a)
        if len(r) != 1 or r[0][1][0] == 'raised':
            raise AnchorError('a registration agent is not made in one way: %s' % [show(o)[:200] for s, o in r])
        return r[0]

    def go(self, st, fv, args=()):
        """-> [(state with only what happens now, outcome)]"""
        st = st.copy()
        for k in ('#texts', '#due', '#sent'):
            st.sethp(k, ())
        st.trace = None
        return list(self.I.callv(st, fv, list(args)))

    def reply(self, st, line, heads=()):
        """-> [(state, response object)]"""
        t = '\r\n'.join([line, 'Via: SIP/2.0/UDP {w.here};branch={w.br}', 'From: <sip:{q.me}@{w.home}>;tag={w.ft}', 'To: <sip:{q.me}@{w.home}>;tag={w.tt}', 'Call-ID: {w.cid}', 'CSeq: 1 REGISTER'] + list(heads) + ['Content-Length: 0', '', ''])
        saved, self.st = self.st, st
        try:
            return [(s, o) for s, o in self.made('SipResponse', [K(self.t(t))]) if o[0] != 'raised']
        finally:
            self.st = saved


def heads(t):
    """-> (start line, [(name, value)])"""
    ls = t.split('\r\n')
    return ls[0], [(x.split(':', 1)[0].lower(), x.split(':', 1)[1].strip()) for x in ls[1:] if ':' in x]


def only(hs, n):
    r = [v for k, v in hs if k == n]
    return r[0] if len(r) == 1 else None


CHAL = {401: ('WWW-Authenticate', 'authorization'), 407: ('Proxy-Authenticate', 'proxy-authorization')}
OKS = [('nothing said', [], 'exp'), ('Expires', ['Expires: 70'], 70), ('a short time', ['Expires: 20'], 20), ('a binding of its own', ['Contact: <sip:{q.me}@{w.here}:5070>;expires=90'], 90), ('both', ['Contact: <sip:{q.me}@{w.here}:5070>;expires=90', 'Expires: 700'], 90),
       ('a binding without time', ['Contact: <sip:{q.me}@{w.here}:5070>', 'Expires: 70'], 70), ('a binding with a time unreadable', ['Contact: <sip:{q.me}@{w.here}:5070>;expires=soon'], 'exp'),
       ('its own binding after another', ['Contact: <sip:{q.me}@{w.there}:5070>;expires=900', 'Contact: <sip:{q.me}@{w.here}:5070>;expires=90'], 90),
       ('its own binding before another', ['Contact: <sip:{q.me}@{w.here}:5070>;expires=90, <sip:{q.me}@{w.there}:5070>;expires=900'], 90),
       ('its own binding at another port', ['Contact: <sip:{q.me}@{w.here}:5072>;expires=900', 'Contact: <sip:{q.me}@{w.here}:5070>;expires=90'], 90),
       ('a time unreadable', ['Expires: soon'], 'exp'),
       ('a binding with no time given', ['Contact: <sip:{q.me}@{w.here}:5070>;expires'], 'exp')]
FAIL = [(c, r) for c, r in ((403, 'Forbidden'), (302, 'Moved'), (404, 'Not Found'), (408, 'Request Timeout'), (423, 'Interval Too Brief'), (500, 'Error'), (503, 'Unavailable'), (600, 'Busy'))]


C1, C7, OKL, BAD = '401 Challenge', '407 Challenge', '200 OK with nothing said', '403 Forbidden'
SCRIPTS = [(C1, C1), (OKL, OKL, C7, OKL), (C1,) * 5 + (OKL,), (C1, C7, C1, C7, C1), (C7,) * 4 + (C1,), (C1, C1, C1, OKL, C1, C1, C1, C1), (C1, C1, BAD, C1, C1, C1, C1), (BAD, BAD, C7, C1, OKL, C1), (C1, C1, OKL, C1, C1, C1, BAD, C7)]


class Hist:
    def __init__(self, ctx, p, w, exp, creds):
        self.ctx, self.p, self.w, self.exp, self.creds = ctx, p, w, exp, creds

    def ck(self, ok, key, msg, s):
        self.ctx.check(ok, key, self.w, msg, lines(s) if not ok else ())

    def request(self, key, what, s, prev, auth):
        """the one request sent; -> (cseq, branch) or None"""
        p, t = self.p, s.heap.get('#texts', ())
        self.ck(len(t) == 1 and t[0][0] == 'newTransaction', key + ':sent', '%s: %d requests are sent, should be one' % (what, len(t)), s)
        if len(t) != 1 or t[0][1] is None:
            return None
        sl, hs = heads(t[0][1])
        self.ctx.count('requests')
        self.ck(sl.startswith(p.t('REGISTER sip:{w.home}')) and sl.endswith(' SIP/2.0'), key + ':line', '%s: the request is %s' % (what, p.N.show(sl)), s)
        self.ck((only(hs, 'contact') or '').endswith(';expires=%d' % self.exp) and p.t('sip:{q.me}@{w.here}:5070') in (only(hs, 'contact') or ''), key + ':contact', '%s: the contact is %s' % (what, p.N.show(str(only(hs, 'contact')))), s)
        cs = (only(hs, 'cseq') or '').split()
        br = (only(hs, 'via') or '').partition('branch=')[2].partition(';')[0]
        self.ck(len(cs) == 2 and cs[0].isdigit() and cs[1] == 'REGISTER', key + ':cseq', '%s: its CSeq is %s' % (what, only(hs, 'cseq')), s)
        cid, ft = only(hs, 'call-id'), only(hs, 'from')
        if len(cs) != 2 or not cs[0].isdigit():
            return None
        if prev is not None:
            self.ck(int(cs[0]) == prev[0] + 1, key + ':cseq', '%s: its CSeq is %s after %d' % (what, cs[0], prev[0]), s)
            self.ck(br != prev[1] and br != '', key + ':branch', '%s: it has the branch of the one before' % what, s)
            self.ck((cid, ft) == prev[2:], key + ':same', '%s: it is not of the same call and party as before' % what, s)
        got = {k: v for k, v in hs if k in ('authorization', 'proxy-authorization')}
        n = len([1 for k, v in hs if k in ('authorization', 'proxy-authorization')])
        if auth is not None:
            self.ck(n == len(auth) and set(got) == set(auth), key + ':auth', '%s: it carries %s' % (what, [k for k, v in hs if 'authorization' in k] or 'no credentials'), s)
            for k, (realm, nonce) in auth.items():
                v = got.get(k, '')
                ok = v.startswith('Digest ') and all(p.t(x) in v for x in ('username="{w.user}"', 'realm="%s"' % realm, 'nonce="%s"' % nonce, 'uri="sip:{w.home}'))
                ok = ok and p.N.word('digest of <password> for REGISTER') in v
                self.ck(ok, key + ':creds', '%s: its credentials are %s' % (what, p.N.show(v)), s)
        return (int(cs[0]), br, cid, ft)

    def timer(self, key, what, s, delay, agent):
        d = s.heap.get('#due', ())
        self.ck(len(d) == 1, key + ':timer', '%s: %d times is a later request due, should be one' % (what, len(d)), s)
        if len(d) != 1:
            return None
        n, cb, iv, rest, ticks = d[0]
        v = kval(iv) if is_k(iv) else None
        self.ck(n == 'Timeout' and isinstance(v, (int, float)) and 0 < v <= delay and v * 2 >= delay and ticks == K(1), key + ':delay', '%s: the next request is due after %s seconds (%s times), should be %s' % (what, show(iv), show(ticks), delay), s)
        return cb, rest

    def told(self, s):
        return [(e.extra[1], e) for e in s.events() if e.kind == 'call' and e.extra in (OK, FAILED)]


def follow(ctx, p, h, s, o, cb, prev, tries, auth, depth, path, n=0, script=None):
    """every answer to a request"""
    got = p.I.peek_attr(s, o, 'gotreply') or ('B', o, must(ctx.repo, p.ci, 'gotreply'))
    C = h.creds
    rows = [('100 Trying', [], 'wait'), ('180 Ringing', [], 'wait')]
    rows += [('200 OK' + (' with ' + t if t else ''), hd, ('ok', h.exp if d == 'exp' else d)) for t, hd, d in (OKS if depth > 1 or n == 0 else OKS[:2])]
    rows += [('%d %s' % x, [], 'fail') for x in (FAIL if n == 0 else FAIL[:1])]
    for code, (ch, ah) in CHAL.items():
        r, nn = '{w.realm%d}' % n, '{w.nonce%d}' % n
        x = 'Digest realm="%s",nonce="%s"' % (r, nn)
        rows.append(('%d Challenge' % code, ['%s: %s' % (ch, x)], ('auth', ah, r, nn) if C and tries < 3 else 'fail'))
        if n == 0:
            rows.append(('%d Challenge with qop' % code, ['%s: %s,qop="auth"' % (ch, x)], ('auth', ah, r, nn) if C and tries < 3 else 'fail'))
            rows.append(('%d Challenge with an unknown algorithm' % code, ['%s: %s,algorithm=X-Y' % (ch, x)], 'fail'))
            rows.append(('%d without a challenge' % code, [], 'fail'))
            rows.append(('%d with the challenge of a %d' % (code, 808 - code), ['%s: %s' % (CHAL[808 - code][0], x)], 'fail'))
    if script is not None:
        if not script:
            return
        rows = [x for x in rows if x[0] == script[0]][:1]
        if not rows:
            raise AnchorError('no answer %s' % script[0])
        depth, script = 1, script[1:]
    for line, hd, want in rows:
        what = ', then '.join(path + [line])
        for s1, resp in p.reply(s, 'SIP/2.0 ' + line, hd):
            for s2, oc in p.go(s1, cb, [resp]):
                ctx.count('answers')
                key = want if isinstance(want, str) else want[0]
                h.ck(oc[0] == 'ret', key + ':raise', '%s: the handling of the answer fails with %s, the registration is not kept up' % (what, show(oc[1])), s2)
                if oc[0] != 'ret':
                    continue
                told = h.told(s2)
                t, d = s2.heap.get('#texts', ()), s2.heap.get('#due', ())
                if want == 'wait':
                    h.ck(not t and not d and not told, 'wait:quiet', '%s: something is done before the final answer' % what, s2)
                    continue
                if key == 'auth':
                    h.ck(not d and not told, 'auth:only', '%s: besides the second request something is done' % what, s2)
                    # credentials for the other kind of challenge may be kept
                    a = dict(auth)
                    a[want[1]] = want[2:]
                    pv = h.request('auth', what, s2, prev, a)
                    if pv and depth:
                        c2 = t[0][2][1] if len(t[0][2]) > 1 else dict(t[0][3]).get('resp_cb')
                        follow(ctx, p, h, s2, o, c2, pv, tries + 1, a, depth - 1, path + [line], n + 1, script)
                    continue
                h.ck(not t, key + ':quiet', '%s: a request is sent at once' % what, s2)
                exp = 60 if want == 'fail' else want[1]
                nx = h.timer(key, what, s2, exp, o)
                who = FAILED if want == 'fail' else OK
                cbs = [e for _, e in told]
                h.ck(len(cbs) == 1 and cbs[0].extra == who and cbs[0].args and cbs[0].args[-1] == S('arg'), key + ':told', '%s: the user of the registration is told %s' % (what, [show(e.extra) for e in cbs] or 'nothing'), s2)
                if cbs and want != 'fail':
                    h.ck(cbs[0].args[0] == S('when timer %d is due' % (s2.heap['#timers'] - 1)), 'ok:when', '%s: the time told is %s, not that of the next request' % (what, show(cbs[0].args[0])), s2)
                if cbs and want == 'fail':
                    h.ck(text(p, cbs[0].args[0]) == 'SIP/2.0 ' + line or text(p, cbs[0].args[0]) == line, 'fail:why', '%s: the failure told is %s' % (what, show(cbs[0].args[0])), s2)
                if nx is None:
                    continue
                for s3, oc3 in p.go(s2, nx[0], nx[1]):
                    h.ck(oc3[0] == 'ret', 'again:raise', '%s: the next request fails with %s' % (what, show(oc3[1])), s3)
                    pv = h.request('again', what + ', then the time of the next request', s3, prev, None)
                    ts = s3.heap.get('#texts', ())
                    if pv and depth and len(ts) == 1:
                        c2 = ts[0][2][1] if len(ts[0][2]) > 1 else dict(ts[0][3]).get('resp_cb')
                        _, hs = heads(ts[0][1])
                        # what is carried over
                        a = {k: auth[k] for k, v in hs if k in auth}
                        follow(ctx, p, h, s3, o, c2, pv, 0, a, depth - 1, path + [line, 'next request'], n + 1, script)
                # stopped meanwhile
                stopped(ctx, p, h, s2, o, nx[0], nx[1], what)
        if want == 'wait' or n:
            continue
        for s1, resp in p.reply(s, 'SIP/2.0 ' + line, hd):
            stopped(ctx, p, h, s1, o, cb, [resp], ', then '.join(path + ['stopped', line]))


def stopped(ctx, p, h, s, o, fv, args, what):
    for s2, oc in p.go(s, ('B', o, must(ctx.repo, p.ci, 'stopregister'))):
        for s3, oc3 in p.go(s2, fv, args):
            ctx.count('stopped')
            h.ck(oc3[0] == 'ret' and not s3.heap.get('#texts') and not s3.heap.get('#due') and not h.told(s3), 'stopped', '%s, stopped before: still %s' % (what, 'fails' if oc3[0] != 'ret' else 'something is done'), s3)


def text(p, v):
    return kval(v) if is_k(v) else None


def c10(ctx):
    for exp, kw in ((180, {}), (600, {'exp': K(600)}), (180, {'user': None, 'passw': None}), (180, {'rok_cb': None, 'rfail_cb': None})):
        p = Reg(ctx)
        w = must(ctx.repo, p.ci, 'gotreply').where()
        creds = 'user' not in kw
        st, o = p.agent(**kw)
        h = Hist(ctx, p, w, exp, creds)
        if 'rok_cb' in kw:
            # nobody to be told
            h.told = lambda s: []
            silent(ctx, p, h, st, o)
            continue
        for s, oc in p.go(st, ('B', o, must(ctx.repo, p.ci, 'doregister'))):
            pv = h.request('first', 'the first request', s, None, {})
            t = s.heap.get('#texts', ())
            if pv is None or not t:
                continue
            cb = t[0][2][1] if len(t[0][2]) > 1 else dict(t[0][3]).get('resp_cb')
            if cb is None:
                raise AnchorError('nothing is told the answer')
            follow(ctx, p, h, s, o, cb, pv, 0, {}, 1, [])
            if exp == 180:
                for sc in (SCRIPTS if creds else SCRIPTS[:2]):
                    follow(ctx, p, h, s, o, cb, pv, 0, {}, 1, [], 0, list(sc))
        ctx.visited(p.I.visited)
    ctx.floor('answers', 200)
    ctx.floor('requests', 100)
    ctx.floor('stopped', 30)


def silent(ctx, p, h, st, o):
    for s, oc in p.go(st, ('B', o, must(ctx.repo, p.ci, 'doregister'))):
        t = s.heap.get('#texts', ())
        for line, d in (('200 OK', 180), ('403 Forbidden', 60)):
            for s1, resp in p.reply(s, 'SIP/2.0 ' + line):
                for s2, oc2 in p.go(s1, t[0][2][1], [resp]):
                    ctx.count('answers')
                    h.ck(oc2[0] == 'ret', 'silent', '%s, with nobody to be told: it fails' % line, s2)
                    if oc2[0] == 'ret':
                        h.timer('silent', line, s2, d, o)


RULES = {'C10': c10}
