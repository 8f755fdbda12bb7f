"""S04: what a caller writes adds nothing to what helpers and operators are told.

Texts a caller controls - with the line ends, quotes, spaces and separators the grammar of its message lets
through - are followed into the requests to the authorization helper, the commands to the media relay and the
list of calls; what comes out has the lines and words it has for plain ones.
"""
from ..interp import K, S, NONE, TRUE, AnchorError, show, is_k, kval, is_none
from ..repo import Ext, ClassInfo
from ..scen import must
from ..text import text_of
from .loop_rules import lines
from .media_rules import Media, Judge, MedCfg, MedI, SUP, WEB, carried, desc, followed, fresh, good, medium, start, web, where
from .text_rules import Texts

# ---------------------------------------------------------------- the helper that asks the RADIUS server
HOSTILE = ['{w.a}\n{w.b}', '{w.a}\n\n{w.b}', '\n', '{w.a}\r\n{w.b}', '{w.a}"{w.b}', '"', '{w.a}", User-Name="{w.b}', '{w.a}"\n\n{w.b}', '\n\n"', '{w.a}\x00{w.b}']
PLAIN = ['{w.a}', '{w.a} {w.b}', "{w.a}'{w.b}", '{w.a}={w.b}', '+{n.a}', '{w.a},{w.b}', '']


class HelpCfg(MedCfg):
    """what is written to the helper is kept"""

    def on_call2(self, interp, st, ev):
        n = ev.name
        r = ev.recv
        if n == 'Popen':
            return [(st, ('O', 'pipe', Ext('Pipe')))]
        if n in ('write', 'writelines') and ev.args and (r is None or r[0] != 'O' or not isinstance(r[2], ClassInfo)):
            if r is not None and r[0] == 'O' and r[2].name == 'Log':
                return [(st, NONE)]
            it = [ev.args[0]] if n == 'write' else interp.seq_items(ev.args[0], st)
            if it is None:
                raise AnchorError('what is written to the helper is not understood: %s' % show(ev.args[0])[:200])
            st.sethp('#written', st.heap.get('#written', ()) + tuple(it))
            return [(st, NONE)]
        if n == 'readline':
            return [(st, K(b''))]
        if n in ('acquire', 'release', 'notify', 'wait', 'flush', '__enter__', '__exit__', 'notify_all') and (r is None or r[0] != 'O' or not isinstance(r[2], ClassInfo)):
            return [(st, TRUE if n == 'acquire' else NONE)]
        if n == 'poll' and ev.callee is None:
            return [(st, NONE)]
        return MedCfg.on_call2(self, interp, st, ev)


class Helper(Texts):
    def __init__(self, ctx, cls='Radius_client'):
        Texts.__init__(self, ctx)
        self.cfg = HelpCfg(ctx.repo, callbacks={'CB': None})
        self.cfg.names = self.N
        self.I = MedI(ctx.repo, self.cfg)
        self.gc = ('D', 'gc')
        self.st.sethp((self.gc, 'map'), ((K('_sip_logger'), ('O', 'log', Ext('Log'))),))
        self.o = ('O', 'helper', self.repo.cls(cls))
        self.st.sethp((self.o, 'global_config'), self.gc)
        self.st.sethp((self.o, 'work_available'), ('O', 'cond', Ext('Lock')))
        self.st.sethp((self.o, 'work'), self.I.mklist(self.st, []))
        ctx.__dict__.setdefault('_made', []).append(self.I)

    def written(self, name, args, kw=None):
        """what the helper reads after an operation -> [(state, text | raised)]"""
        out = []
        for s, oc in self.every(self.st.copy(), self.o, name, args, kw):
            if oc[0] == 'raise':
                out.append((s, oc[1]))
                continue
            wl = self.I.peek_attr(s, self.o, 'work')
            s = s.copy()
            s.sethp((wl, 'items'), tuple(self.I.seq_items(wl, s)) + (NONE,))
            w = ('O', 'worker', self.repo.cls('_Worker'))
            s.sethp((w, 'master'), self.o)
            s.sethp((w, 'command'), S('command'))
            for s2, oc2 in self.I.run(must(self.repo, w[2], 'run'), w, [], {}, s):
                if oc2[0] == 'raise':
                    out.append((s2, oc2[1]))
                    continue
                t = [byt(x) for x in s2.heap.get('#written', ())]
                if None in t:
                    raise AnchorError('what is written to the helper is not understood: %s' % [show(x)[:100] for x in s2.heap['#written']])
                out.append((s2, ''.join(t)))
        return out


def byt(v):
    if v[0] == 'K' and isinstance(v[2], bytes):
        return v[2].decode('latin-1')
    if v[0] == 'OP' and v[1] == 'bytes' and is_k(v[2]):
        return kval(v[2])
    return text_of(v)


NAMES = ('User-Name', 'call-id', 'h323-conf-id')


def requests(ctx):
    for op, word in (('do_auth', 'AUTH'), ('do_acct', 'ACCT')):
        for name in NAMES:
            for h in PLAIN + HOSTILE:
                p = Helper(ctx)
                J = Judge(ctx, p, 'request', where(ctx, op, 'Radius_client'))
                avs = [('T', (K(name), p.val(h))), ('T', (K('Other'), p.val('{w.o}')))]
                args = [p.I.mklist(p.st, avs)] + ([S('CB')] if op == 'do_auth' else [])
                request(ctx, J, p, op, args, word, 2, name, h)
    for h in [h for h in HOSTILE if '=' not in h]:
        p = Helper(ctx)
        J = Judge(ctx, p, 'request', where(ctx, 'do_auth', 'Radius_client'))
        avs = [('T', (p.val('X' + h), p.val('{w.v}'))), ('T', (K('Other'), p.val('{w.o}')))]
        request(ctx, J, p, 'do_auth', [p.I.mklist(p.st, avs), S('CB')], 'AUTH', 2, None, h)
    # the authorization of a call: everything that comes from its INVITE
    base = ['{w.user}', '{w.cli}', '{w.cld}', '{w.cid}', '{w.ip}']
    dig = {'realm': '{w.realm}', 'nonce': '{w.nonce}', 'uri': '{w.uri}', 'response': '{w.resp}'}
    for which in [None, 0, 1, 2, 3] + sorted(dig) + ['extra']:
        for h in HOSTILE if which is not None else ['{w.plain}']:
            p = Helper(ctx, 'RadiusAuthorisation')
            J = Judge(ctx, p, 'request', where(ctx, 'do_auth', 'RadiusAuthorisation'))
            args = [p.val(h if i == which else x) for i, x in enumerate(base)] + [S('CB')]
            kw = {k: p.val(h if k == which else v) for k, v in dig.items()}
            n = 13
            if which == 'extra':
                kw['extra_attributes'] = p.I.mklist(p.st, [('T', (K('X'), p.val(h)))])
                n = 14
            request(ctx, J, p, 'do_auth', args, 'AUTH', n, None, h, kw)


def request(ctx, J, p, op, args, word, n, name, h, kw=None):
    what = 'a request with %r' % p.N.show(p.t(h))
    r = p.written(op, args, kw)
    if not r:
        raise AnchorError('%s: no path' % what)
    for s, t in r:
        ctx.count('requests to the helper')
        if not isinstance(t, str):
            J(False, 'raised', '%s: it fails with %s' % (what, show(t)), s)
            continue
        ls = t.split('\n')
        ok = ls[:1] == [word] and ls[-2:] == ['', ''] and '' not in ls[:-2]
        J(ok and len(ls) == n + 3, 'lines', '%s: %d lines are written for %d attributes: %r' % (what, len(ls) - 3, n, t), s)
        for l in ls[1:-2]:
            a, e, v = l.partition('=')
            J(len(v) > 1 and v[0] == v[-1] == '"' and '"' not in a + v[1:-1] and not any(c < ' ' or c == '\x7f' for c in l), 'line', '%s: the line %r is not one attribute' % (what, l), s)
        if name is not None and h in PLAIN:
            J(len(ls) > 1 and ls[1].endswith(p.t(h) + '"') and (ls[1].partition('=')[2] == '"%s"' % p.t(h) or name != 'User-Name'), 'value', '%s: the line is %r' % (what, ls[1:2]), s)


# ---------------------------------------------------------------- the media relay
BAD_CID = ['{w.a} {w.b}', '{w.a} && D {w.b} {w.c}', '{w.a}\t{w.b}', '&& {w.a}', '{w.a} &&', '{w.a}  {w.b}']
TAILS = [' && D {w.v} {w.x} {w.y}', ' {w.v}', ' &&', '\t&&\t{w.v}']


def relay(ctx):
    for cid in ['{w.cid}'] + BAD_CID:
        for side in ('caller', 'callee'):
            p = Media(ctx)
            p.tnot = False
            J = Judge(ctx, p, 'command', where(ctx, 'on_%s_sdp_change' % side))
            ss = p.session('Rtp_proxy_session', cid)
            ms = [medium(1), medium(2)]
            b, text, r = start(ctx, p, ss, side, ms)
            what = 'a call identified by %r' % p.N.show(p.t(cid))
            for s, oc in r:
                if refused(J, p, what, s, oc, b):
                    continue
                for s2, bad in p.play(fresh(s), lambda i, c: p.val(good(i))):
                    for op, kw, sort, n in (('delete', {}, 'D', 4), ('stats', {'result_callback': S('CB')}, 'Q', 4), ('play_' + side, {'prompt_name': p.val('{w.prompt}')}, 'P1', 6),
                                            ('stop_play_' + side, {}, 'S', 4), ('copy_' + side, {'remote_ip': p.val('{w.ip}'), 'remote_port': p.val('#{n.port}')}, 'C', None),
                                            ('start_recording', {}, 'R', 4)):
                        k = len(p.asked(s2))
                        for s3, oc3 in p.every(fresh(s2), ss, op, [], kw):
                            for s4, bad in p.play(s3, lambda i, c: p.val(good(i)) if text_of(c)[:1] == 'U' else p.val('0')):
                                shape(ctx, J, p, what, s4, [(sort, n)], k)
                shape(ctx, J, p, what, s, [], 0)
    for what, ms in hostile():
        cls = 'Rtp_proxy_session_webrtc2sip' if 'SAVP' in ms[0] else 'Rtp_proxy_session'
        for cl in {cls, 'Rtp_proxy_session'}:
            p = Media(ctx)
            p.tnot = False
            J = Judge(ctx, p, 'command', where(ctx, 'on_caller_sdp_change'))
            ss = p.session(cl)
            b, text, r = start(ctx, p, ss, 'caller', [ms])
            if not r:
                raise AnchorError('%s: no path' % what)
            for s, oc in r:
                if not refused(J, p, what, s, oc, b):
                    for s2, bad in p.play(fresh(s), [p.val('{n.rp0} {w.rla0}')]):
                        shape(ctx, J, p, what, s2, [], 0, len([x for x in ms if x.startswith('a=candidate')]) if cl == cls else 0)


def refused(J, p, what, s, oc, b):
    if oc[0] == 'raise':
        J(not p.asked(s), 'refused quietly', '%s: the description is refused and the relay asked' % what, s)
        return True
    if oc[1] == b:
        J(not p.asked(s), 'handed back quietly', '%s: the description is handed back and the relay asked' % what, s)
        return True
    return False


def hostile():
    yield 'nothing unusual', medium(1)
    for x in ('&&', '{w.a} && D {w.b}', '{w.a} {w.b}'):
        yield 'the address %s' % x, medium(1, c='IN IP4 ' + x)
    for x in ('{n.f1} &&', '&&', '{n.f1} && D {w.b}'):
        yield 'the formats %s' % x, medium(1, fm=x)
    yield 'nothing unusual, from a browser', web()
    for a in WEB:
        k = a[2:].split(':')[0]
        if ':' not in a:
            continue
        for t in TAILS:
            yield 'the attribute %s%s' % (k, t), web((k,), (a[2:] + t,))
        if k != 'setup':
            yield 'the attribute %s:&&' % k, web((k,), (k + ':&&',))
            yield 'the attribute %s:&& {w.a}' % k, web((k,), (k + ':&& {w.a}',))
            yield 'the attribute %s:{w.a} && {w.b}' % k, web((k,), (k + ':{w.a} && {w.b}',))
    yield 'a candidate of many words', web(('candidate',), ('candidate:{w.fnd} 1 udp {n.pri} 10.0.0.1 {n.cp} typ srflx raddr {w.ra} rport {n.rp} && D {w.v}',))


def shape(ctx, J, p, what, st, last, k, cands=0):
    """the commands asked have the words and parts they have for plain texts"""
    ctx.count('commands to the relay')
    names = set()
    for i, a in enumerate(p.asked(st)):
        t = text_of(a[0])
        if t is None:
            raise AnchorError('%s: a command is not understood: %s' % (what, show(a[0])[:200]))
        ps, w = [], []
        for x in t.split():
            if x == '&&':
                ps.append(w)
                w = []
            else:
                w.append(x)
        ps.append(w)
        ok = not any(c < ' ' for c in t) and len(ps[0]) > 1
        if ok and ps[0][0][:1] == 'U':
            ok = len(ps[0]) in (5, 6)
        elif ok and last and i >= k:
            ok = ps[0][0] == last[0][0] and (last[0][1] is None or len(ps[0]) == last[0][1]) and len(ps) == 1
        kinds = []
        for x in ps[1:]:
            kinds.append(' '.join(x[:2]) if len(x) > 1 else '')
            ok = ok and (x[:1] == ['M4:1'] and x[1] in ('A', 'P') and len(x) in (4, 5) or x[:2] == ['M5:1', 'A'] and len(x) == 4 or x[:2] == ['M5:1', 'C'] and len(x) > 6)
        ok = ok and len([x for x in kinds if x[:2] == 'M4']) <= 1 and kinds.count('M5:1 A') <= 1 and kinds.count('M5:1 C') <= cands
        J(ok, 'shape', '%s: the relay is told "%s"' % (what, t), st)
        if ok:
            names.add(ps[0][1].rpartition('-')[0])
    J(len(names) <= 1, 'name', '%s: the relay is told of %d sessions' % (what, len(names)), st)


# ---------------------------------------------------------------- the list of calls
class ListCfg(HelpCfg):
    opaque = tuple(o for o in HelpCfg.opaque if not o.startswith('sippy.CLIManager'))

    def on_call2(self, interp, st, ev):
        if ev.name == 'send' and ev.recv is not None and ev.recv[0] == 'O' and isinstance(ev.recv[2], Ext) and ev.recv[2].name == 'Conn':
            st.sethp('#written', st.heap.get('#written', ()) + (ev.args[0],))
            return [(st, NONE)]
        return HelpCfg.on_call2(self, interp, st, ev)


def calls(ctx):
    api = ctx.repo.cls('B2BSimpleAPI')
    rc = must(ctx.repo, api, 'recvCommand')
    for which in (None, 'cli', 'cld'):
        for h in ['{w.a}', '+{n.a}', '{w.a} {w.b}'] if which is None else ['{w.a}\n{w.b}', '{w.a}\r\n{w.b}', '\n', '{w.a}\x00', '{w.a}\x1b[{w.b}']:
            p = Helper(ctx)
            p.cfg.__class__ = ListCfg
            J = Judge(ctx, p, 'list', rc.where(rc.node))
            st = p.st
            cm, cc = ('O', 'calls', p.repo.cls('sippy.b2bua.CallMap')), ('O', 'cc', p.repo.cls('sippy.b2bua.CallController'))
            o = ('O', 'api', api)
            st.sethp((p.gc, 'map'), st.heap[(p.gc, 'map')] + ((K('_cmap'), cm),))
            st.sethp((o, 'global_config'), p.gc)
            st.sethp((cm, 'ccmap'), p.I.mklist(st, [cc]))
            st.sethp((cc, 'cId'), p.val('{w.cid}'))
            stt = ('O', 'state', Ext('State'))
            st.sethp((stt, 'sname'), p.val('{w.st}'))
            st.sethp((cc, 'state'), stt)
            for ua in ('uaA', 'uaO'):
                u = ('O', ua, p.repo.cls('UA'))
                st.sethp((cc, ua), u)
                st.sethp((u, 'state'), stt)
                st.sethp((u, 'rAddr0'), ('T', (('T', (p.val('{w.h%s}' % ua), p.val('#{n.p%s}' % ua))), p.val('{w.t%s}' % ua))))
                for hf, at in (('SipTo', 'rUri'), ('SipFrom', 'lUri')):
                    f, ad, url = ('O', at + ua, p.repo.cls(hf)), ('O', 'ad' + at + ua, p.repo.cls('SipAddress')), ('O', 'url' + at + ua, p.repo.cls('SipURL'))
                    st.sethp((u, at), f)
                    st.sethp((f, 'parsed'), TRUE)
                    st.sethp((f, 'address'), ad)
                    st.sethp((ad, 'url'), url)
                    st.sethp((url, 'username'), p.val(h if which in (None, 'cld' if at == 'rUri' else 'cli') else '{w.%s}' % at))
            clim = ('O', 'conn', Ext('Conn'))
            what = 'a call with %r' % p.N.show(p.t(h))
            for s, oc in p.I.run(rc, o, [clim, K('l')], {}, st):
                ctx.count('lists of calls')
                if not J(oc[0] == 'ret', 'raised', '%s: the list fails with %s' % (what, show(oc[1])), s):
                    continue
                t = [text_of(x) for x in s.heap.get('#written', ())]
                if None in t or not t:
                    raise AnchorError('the list of calls is not understood: %s' % [p.N.show(show(x))[:300] for x in s.heap.get('#written', ())])
                t = ''.join(t)
                J(t.count('\n') == 3 and t.endswith('\n') and not any(c < ' ' or c == '\x7f' for c in t.replace('\n', '')), 'lines', '%s: the list is %r' % (what, t), s)
                if which is None:
                    J(p.t(' %s %s' % (h, h)) in t, 'names', '%s: the list is %r' % (what, t), s)


def s04(ctx):
    ctx.rule = 'text of a caller adds no line, word or command to what is told'
    requests(ctx)
    relay(ctx)
    calls(ctx)
    ctx.floor('lists of calls', 8)
    ctx.floor('requests to the helper', 150)
    ctx.floor('commands to the relay', 100)


RULES = {'S04': followed(s04)}
