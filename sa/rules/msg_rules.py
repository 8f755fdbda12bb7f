"""M01-M05: messages made from messages."""
import ast
from ..scen import (State, Fact, K, S, NONE, TRUE, FALSE, show, is_k, kval, build, step, must, mkexc, ClassInfo, Ext, AnchorError)
from ..wire import WCfg, TmWire, Parts, deep, fields, hdrs, parts_of, TM
from ..crypto import isop
from .loop_rules import lines

USERV = ('O', 'userv', Ext('Server'))


def obj(p, ci, tag, **attrs):
    o = ('O', tag, ci)
    for k, v in attrs.items():
        p.st.sethp((o, k), v)
    return o


def lst(p, tag, items):
    v = ('L', tag)
    p.st.sethp((v, 'items'), tuple(items))
    return v


def party(p, cls, who, tag=True):
    h = p.addressed(cls, who)
    if tag:
        p.call(h, 'setTag', p.sym(who + '.tag'))
    return h


def request(p, method='INVITE', routes=0, rrs=0, vias=2, contact=False, totag=False, lr=True):
    rt = [p.addressed('SipRecordRoute', 'route%d' % i, lr=lr) for i in range(routes)]
    ct = p.addressed('SipContact', 'contact') if contact else NONE
    fr, to, ru, via = party(p, 'SipFrom', 'caller'), party(p, 'SipTo', 'callee', totag), p.url('ruri'), p.via('via0')
    more = [p.header('via', p.via('via%d' % i)) for i in range(1, vias)]
    more += [p.header('record-route', p.addressed('SipRecordRoute', 'rr%d' % i, lr=True)) for i in range(rrs)]
    cid, mf = p.new('SipCallId', p.sym('callid')), p.new('SipMaxForwards', number=p.sym('hops'))
    cs = p.sym('cseq')
    req = p.new('SipRequest', method=K(method), ruri=ru, to=to, fr0m=fr, via=via, cseq=cs, callid=cid, routes=lst(p, 'routes', rt), maxforwards=mf, contact=ct,
                user_agent=p.sym('agent'))
    if more:
        p.call(req, 'appendHeaders', lst(p, 'more', more))
    return req


def of(d, name):
    return [b for n, b in hdrs(d) if n == name]


def response(p, req, code, rrs=(), contact=True, tag=True):
    """rrs: for each Record-Route, whether it is a loose router"""
    r = p.call(req, 'genResponse', K(code), p.sym('reason'))
    if tag:
        to = p.call(r, 'getHFBody', K('to'))
        p.call(to, 'setTag', p.sym('answer.tag'))
    for i, lr in enumerate(rrs):
        h = p.header('record-route', p.addressed('SipRecordRoute', 'rr%d' % i, lr=lr))
        p.call(r, 'appendHeader', h)
    if contact:
        h = p.header('contact', p.addressed('SipContact', 'target'))
        p.call(r, 'appendHeader', h)
    return r


def plain(d):
    """a header without what tells its kind apart (a route made of a Record-Route is a Route)"""
    return d[2] if d and d[0] == 'O' else d


def uri(d):
    return fields(fields(d).get('address', ('?',))).get('url')


def taddr(u):
    f = fields(u)
    return ('T', (f.get('host', NONE), f.get('port', NONE)))


def differ(a, b):
    """which parts of two flattened things are not the same"""
    if a == b:
        return ''
    if a and b and a[0] == b[0] == 'O' and a[1] == b[1]:
        fa, fb = dict(a[2]), dict(b[2])
        return ', '.join(sorted(str(k) + ('' if k not in fa or k not in fb else ': ' + differ(fa[k], fb[k])) for k in set(fa) | set(fb) if fa.get(k) != fb.get(k)))
    if a and b and a[0] == b[0] and a[0] in ('L', 'T') and len(a) == len(b) and isinstance(a[1], tuple) and isinstance(b[1], tuple):
        return '; '.join(differ(x, y) for x, y in zip(a[1:], b[1:]) if x != y)
    return '%s / %s' % (brief(a), brief(b))


def brief(d):
    if d and d[0] == 'O':
        return d[1]
    return show(d)[:60] if d and isinstance(d[0], str) else str(d)[:60]


class Msgs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.repo = ctx.repo
        self.vis = set()

    def parts(self, cfg=None):
        p = Parts(self.repo, cfg)
        return p

    def runs(self, p, o, name, args=(), st=None, **kw):
        st = (st or p.st).copy()
        st.trace = None
        r = p.I.run(must(self.repo, o[2], name), o, list(args), kw, st)
        self.vis |= p.I.visited
        return r


# ---------------------------------------------------------------- M04
def same(ctx, key, where, what, name, got, want, s):
    ok = len(got) == len(want) and all(a == b for a, b in zip(got, want))
    if ok:
        ctx.check(True, key + ':' + name, where, '')
        return
    if len(got) != len(want):
        msg = '%s has %d %s instead of %d' % (what, len(got), name, len(want))
    elif sorted(map(repr, got)) == sorted(map(repr, want)):
        msg = '%s has its %s in another order' % (what, name)
    else:
        msg = '%s differs in %s (%s)' % (what, name, '; '.join(differ(a, b) for a, b in zip(got, want) if a != b))
    ctx.check(False, key + ':' + name, where, msg, lines(s))


def shared(ctx, key, where, what, I, s, a, b, allow=()):
    sh = parts_of(I, s, a) & parts_of(I, s, b) - set(allow)
    ctx.check(not sh, key + ':shared', where, '%s shares %s with the message it is made from' % (what, ', '.join(sorted(show(x) for x in sh))[:160]), lines(s))


def m04_responses(ctx, M):
    where = must(ctx.repo, ctx.repo.cls('SipRequest'), 'genResponse').where()
    for totag in (False, True):
        for vias, rrs in ((1, 0), (2, 2), (3, 1)):
            for code in (100, 200, 404):
                p = M.parts()
                req = request(p, 'INVITE', vias=vias, rrs=rrs, totag=totag, contact=True, routes=1)
                d = p.deep(req)
                for s, oc in M.runs(p, req, 'genResponse', [K(code), p.sym('reason')]):
                    ctx.count('derived messages')
                    if not ctx.check(oc[0] == 'ret', 'response:raise', where, 'making the response raises', lines(s)):
                        continue
                    r = deep(p.I, s, oc[1])
                    for n in ('via', 'record-route', 'from', 'to', 'call-id', 'cseq'):
                        same(ctx, 'response', where, 'the response to an INVITE with %d Via and %d Record-Route' % (vias, rrs), n, of(r, n), of(d, n), s)
                    for n in ('route', 'contact', 'max-forwards'):
                        ctx.check(not of(r, n), 'response:' + n, where, 'the response carries the %s of the request' % n, lines(s))
                    ctx.check(fields(r).get('scode') == K(code) and fields(r).get('reason') == S('reason'), 'response:status', where, 'the status of the response is not the one asked for', lines(s))
                    ctx.check(deep(p.I, s, req) == d, 'response:source', where, 'making a response changes the request (%s)' % differ(deep(p.I, s, req), d), lines(s))
                    shared(ctx, 'response', where, 'the response', p.I, s, oc[1], req)


def manager(M):
    p = M.parts(TmWire(M.repo))
    gc = ('D', 'gc')
    m = tuple((K(k), p.sym(n)) for k, n in (('_sip_address', 'own.address'), ('_sip_port', 'own.port'), ('_sip_logger', 'logger')))
    p.st.sethp((gc, 'map'), m)
    tm = p.new('SipTransactionManager', gc, S('req_cb'))
    return p, tm


def sent(s, n=0):
    return [(a[2] if isop(a, 'wire') else None, b) for a, b in s.heap.get('#out', ())][n:]


def cleared(s):
    s = s.copy()
    s.trace = None
    s.sethp('#out', ())
    return s


def derived(ctx, key, where, what, d, i, method, s, branch=True, to=None, ruri=None, routes=None):
    """d: the message, i: the INVITE it belongs to"""
    f = fields(d)
    ctx.check(f.get('method') == K(method), key + ':method', where, '%s is no %s' % (what, method), lines(s))
    same(ctx, key, where, what, 'request URI', [f.get('ruri')], [fields(i).get('ruri') if ruri is None else ruri], s)
    if branch:
        same(ctx, key, where, what, 'via', of(d, 'via'), of(i, 'via')[:1], s)
    else:
        v, w = of(d, 'via'), of(i, 'via')[:1]
        br = lambda h: dict(fields(h).get('params', ('D',))[1:]).get(K('branch')) if h else None
        ctx.check(len(v) == 1 and br(v[0]) is not None and br(v[0]) != br(w[0]), key + ':via', where, '%s does not have one Via with a branch of its own' % what, lines(s))
    same(ctx, key, where, what, 'route', [plain(x) for x in of(d, 'route')], [plain(x) for x in (of(i, 'route') if routes is None else routes)], s)
    same(ctx, key, where, what, 'from', of(d, 'from'), of(i, 'from'), s)
    same(ctx, key, where, what, 'to', of(d, 'to'), of(i, 'to') if to is None else [to], s)
    same(ctx, key, where, what, 'call-id', of(d, 'call-id'), of(i, 'call-id'), s)
    num = lambda x: [fields(h).get('cseq') for h in of(x, 'cseq')]
    same(ctx, key, where, what, 'cseq number', num(d), num(i), s)
    ctx.check([fields(h).get('method') for h in of(d, 'cseq')] == [K(method)], key + ':cseq method', where, 'the CSeq of %s does not name %s' % (what, method), lines(s))


def m04_client(ctx, M):
    repo = ctx.repo
    tmc = repo.cls('SipTransactionManager')
    w_new, w_in, w_can = (must(repo, tmc, n).where() for n in ('newTransaction', 'incomingResponse', 'cancelTransaction'))
    cases = [('fail', 486, (), c, nr) for c in (False, True) for nr in (0, 1, 2)] + [('fail', 302, (True,), True, 1), ('fail', 603, (), False, 2)]
    cases += [('ok', 200, rr, c, nr) for c in (True, False) for nr in (0, 2) for rr in ((), (True,), (True, True), (False,), (False, True), (True, False), (False, True, True))]
    cases += [('cancel', 180, (), False, nr) for nr in (0, 1, 2)] + [('early cancel', 180, (), False, nr) for nr in (0, 2)]
    cases = [c + (False,) for c in cases]
    cases += [('ok', 200, rr, True, nr, True) for rr in ((), (True, True), (False, True), (True, False)) for nr in (0, 2)]
    for kind, code, rrs, contact, nroutes, uack in cases:
        p, tm = manager(M)
        req = request(p, 'INVITE', routes=nroutes, vias=1, contact=True)
        if contact or kind == 'early cancel' or nroutes == 1:
            # sent by way of somebody else
            p.call(req, 'setTarget', ('T', (('T', (p.sym('hop.host'), p.sym('hop.port'))), K('udp'))))
        inv = p.deep(req)
        r = M.runs(p, tm, 'newTransaction', [req], resp_cb=S('resp_cb'), userv=USERV)
        ok = [(s, oc[1]) for s, oc in r if oc[0] == 'ret']
        ctx.check(len(ok) == len(r), 'new:raise', w_new, 'sending an INVITE raises')
        for s, t in ok:
            out = sent(s)
            if not ctx.check(len(out) == 1 and out[0][0] is not None, 'new:sent', w_new, 'the INVITE is not sent once', lines(s)):
                continue
            same(ctx, 'new', w_new, 'what is sent', 'headers', hdrs(out[0][0]), hdrs(inv), s)
            first = out[0][1]
            p.st = cleared(s)
            if uack:
                p.st.sethp((t, 'uack'), TRUE)
            resp = response(p, req, code, rrs, contact)
            da = p.deep(resp)
            st = p.st
            if kind == 'early cancel':
                nxt = []
                for s2, oc in M.runs(p, tm, 'cancelTransaction', [t], st=st):
                    ctx.check(oc[0] == 'ret' and not sent(s2), 'cancel:early', w_can, 'a CANCEL goes out before any response', lines(s2))
                    nxt.append(s2)
            else:
                nxt = [st]
            ends = []
            for s1 in nxt:
                for s2, oc in M.runs(p, tm, 'incomingResponse', [resp, t, p.sym('checksum')], st=s1):
                    ctx.check(oc[0] == 'ret', 'response in:raise', w_in, 'the response %d raises' % code, lines(s2))
                    ends.append(s2)
            if uack:
                mid, ends = ends, []
                for s1 in mid:
                    ctx.check(not sent(s1), 'uack:early', w_in, 'the ACK the caller of the transaction is to send is sent at once', lines(s1))
                    for s2, oc in M.runs(p, tm, 'sendACK', [t], st=cleared(s1)):
                        ctx.check(oc[0] == 'ret', 'uack:raise', w_in, 'sending the ACK raises', lines(s2))
                        ends.append(s2)
            if kind == 'cancel':
                mid, ends = ends, []
                for s1 in mid:
                    ctx.check(not sent(s1), 'cancel:unasked', w_in, 'a provisional response is answered', lines(s1))
                    for s2, oc in M.runs(p, tm, 'cancelTransaction', [t], st=cleared(s1)):
                        ctx.check(oc[0] == 'ret', 'cancel:raise', w_can, 'cancelling raises', lines(s2))
                        ends.append(s2)
            for s2 in ends:
                ctx.count('derived messages')
                now = deep(p.I, s2, req)
                ctx.check(now == inv, 'invite:changed', w_in, 'making the %s changes the INVITE (%s)' % ('CANCEL' if 'cancel' in kind else 'ACK', differ(now, inv)), lines(s2))
                out = sent(s2)
                if not ctx.check(len(out) == 1 and out[0][0] is not None, kind + ':sent', w_can if 'cancel' in kind else w_in,
                                 '%s sent (one expected)' % len(out), lines(s2)):
                    continue
                d, addr = out[0]
                if 'cancel' in kind:
                    derived(ctx, 'cancel', w_can, 'the CANCEL of an INVITE with %d Route' % nroutes, d, inv, 'CANCEL', s2)
                    ctx.check(addr == first, 'cancel:address', w_can, 'the CANCEL of an INVITE with %d Route goes to %s, the INVITE went to %s' % (nroutes, show(addr), show(first)), lines(s2))
                    continue
                to = of(da, 'to')[0]
                if kind == 'fail':
                    derived(ctx, 'ack', w_in, 'the ACK of a %d to an INVITE with %d Route' % (code, nroutes), d, inv, 'ACK', s2, to=to)
                    ctx.check(addr == first, 'ack:address', w_in, 'the ACK of a %d goes to %s, the INVITE went to %s' % (code, show(addr), show(first)), lines(s2))
                    continue
                what = 'the ACK of a 200 with %s Record-Route, %s Contact' % (['loose' if x else 'strict' for x in rrs] or 'no', 'a' if contact else 'no')
                set_ = of(da, 'record-route')[::-1]
                if not ctx.check(len(set_) == len(rrs), 'ack200:route set', w_in, what + ': the response shows other Record-Routes', lines(s2)):
                    continue
                tgt = uri(of(da, 'contact')[0]) if contact else None
                ru = tgt if tgt is not None else fields(inv).get('ruri')
                if not contact and set_ and not rrs[-1]:
                    continue        # nothing to put behind a strict router
                if set_ and not rrs[-1]:
                    ru = uri(set_[0])
                    want = [plain(x) for x in set_[1:]] + [tgt]
                    got = [plain(x) for x in of(d, 'route')]
                    got = got[:-1] + [uri(of(d, 'route')[-1])] if got else got
                    same(ctx, 'ack200', w_in, what, 'route', got, want, s2)
                    derived(ctx, 'ack200', w_in, what, d, inv, 'ACK', s2, branch=False, to=to, ruri=ru, routes=of(d, 'route'))
                    dst = taddr(ru)
                else:
                    derived(ctx, 'ack200', w_in, what, d, inv, 'ACK', s2, branch=False, to=to, ruri=ru, routes=set_)
                    dst = taddr(uri(set_[0]) if set_ else tgt) if set_ or tgt is not None else first
                ctx.check(addr == dst, 'ack200:address', w_in, '%s goes to %s instead of %s' % (what, show(addr), show(dst)), lines(s2))


def check_M04(ctx):
    ctx.rule = ('requests made of symbolic parts are given to the code that makes responses, CANCEL and ACK; what comes out is compared header by header '
                'with the request (and with the Contact and Record-Route of the response), and searched for parts shared with it')
    M = Msgs(ctx)
    m04_responses(ctx, M)
    m04_client(ctx, M)
    ctx.visited(M.vis)
    ctx.floor('derived messages', 50)
    ctx.assumptions += ['messages are complete (the parser rejects others); socket and timers replaced by records']


# ---------------------------------------------------------------- M05
def offset(v):
    k = 0
    while isop(v, 'add') and len(v) == 4:
        if is_k(v[3]):
            k, v = k + kval(v[3]), v[2]
        elif is_k(v[2]):
            k, v = k + kval(v[2]), v[3]
        else:
            break
    return v, k


def branch_of(d):
    v = of(d, 'via')
    return dict(fields(v[0]).get('params', ('D',))[1:]).get(K('branch')) if v else None


def tag_of(h):
    return dict(fields(fields(h).get('address', ('?',))).get('params', ('D',))[1:]).get(K('tag'), NONE)


def who(h):
    """name and URI of a party"""
    f = fields(fields(h).get('address', ('?',)))
    return f.get('name', NONE), f.get('url')


class Dialog:
    """what the messages that set a call up say about the requests to come"""
    def __init__(self, callid, mine, mytag, theirs, theirtag, uri_, routes, dst):
        self.__dict__.update(locals())


def requests_of(s, n=0):
    return [(a[0], kw, raw) for name, a, kw, raw in s.heap.get('#sent', ())[n:] if name == 'newTransaction']


def reset(s):
    s = s.copy()
    s.trace = None
    s.sethp('#sent', ())
    return s


def indialog(ctx, key, where, what, d, g, prev, s):
    """d: a request sent in the call g; prev: the one sent before it (None: nothing yet)"""
    ck = lambda ok, k, msg: ctx.check(ok, key + ':' + k, where, '%s: %s' % (what, msg), lines(s))
    ck(of(d, 'call-id') == [g.callid], 'call-id', 'another Call-ID')
    fr, to = of(d, 'from'), of(d, 'to')
    ck(len(fr) == 1 and tag_of(fr[0]) == g.mytag, 'own tag', 'the From tag is not the one of this side')
    ck(len(to) == 1 and tag_of(to[0]) == g.theirtag, 'their tag', 'the To tag is not the one of the other side')
    ck(len(fr) == 1 and who(fr[0]) == g.mine, 'from', 'From names somebody else (%s)' % differ(who(fr[0])[1], g.mine[1]))
    ck(len(to) == 1 and who(to[0]) == g.theirs, 'to', 'To names somebody else (%s)' % differ(who(to[0])[1], g.theirs[1]))
    ck(fields(d).get('ruri') == g.uri_, 'request URI', 'the request URI is not the target of the call (%s)' % differ(fields(d).get('ruri'), g.uri_))
    got = [plain(x) for x in of(d, 'route')]
    want = [plain(x) for x in g.routes]
    bare = lambda x: {k: v for k, v in dict(x).items() if k not in ('parsed', 'body')}
    ck(len(got) == len(want) and all(uri(('O', '', a)) == uri(('O', '', b)) for a, b in zip(got, want)), 'route', 'the Route headers are not the route set (%d, %d expected)' % (len(got), len(want)))
    t = fields(d).get('target', NONE)
    ck(t[0] == 'T' and t[1] == g.dst, 'address', 'it is sent to %s instead of %s' % (str(t[1:2])[:80], str(g.dst)[:80]))
    cs = of(d, 'cseq')
    ck(len(cs) == 1 and fields(cs[0]).get('method') == fields(d).get('method'), 'cseq method', 'the CSeq names another method')
    ck(len(of(d, 'via')) == 1 and branch_of(d) is not None, 'via', 'no single Via with a branch')
    if prev is not None and len(cs) == 1:
        a, b = offset(fields(cs[0])['cseq']), offset(fields(of(prev, 'cseq')[0])['cseq'])
        ck(a[0] == b[0] and a[1] == b[1] + 1, 'cseq', 'the CSeq is not one more than that of the request before')
        ck(branch_of(d) != branch_of(prev), 'branch', 'the branch of the request before is used again')


def T2(a):
    """a flattened (host, port)"""
    return ('T',) + tuple(a[1])


def target(contact, rset):
    """request URI, Route and address from a Contact and a route set"""
    u = uri(contact)
    if rset and fields(uri(rset[0])).get('lr') != TRUE:
        last = ('O', '', (('address', ('O', 'SipAddress', (('url', u),))),))
        return uri(rset[0]), rset[1:] + [last], T2(taddr(uri(rset[0])))
    if rset:
        return u, rset, T2(taddr(uri(rset[0])))
    return u, [], T2(taddr(u))


def leg(M, **kw):
    p = M.parts()
    gc = ('D', 'gc')
    p.st.sethp((gc, 'map'), ((K('_sip_tm'), TM),))
    h = ('T', (p.sym('hop.host'), p.sym('hop.port')))
    ua = p.new('UA', gc, S('event_cb'), nh_address=h, nh_transport=K('udp'), **kw)
    return p, ua


def event(p, cls, data):
    return p.new(cls, data)


def sdp(p, tag):
    b = p.new('SdpBody')
    for n in ('v', 's', 't'):
        p.st.sethp((b, n + '_header'), p.sym('%s.%s' % (tag, n)))
    m = p.new('MsgBody', b)
    return m


def evs(M, p, ua, st, cls, data):
    """hand an event to the leg -> states"""
    p.st = reset(st)
    e = event(p, cls, data(p) if callable(data) else data)
    return M.runs(p, ua, 'recvEvent', [e])


def operations(ctx, M, key, where, what, p, ua, st, g, prev, depth=2):
    """requests the leg sends once the call is up"""
    D = ('T', (NONE,))
    ops = [('BYE', 'CCEventDisconnect', None, None), ('BYE', 'CCEventFail', ('T', (K(500), S('reason'))), None)]
    if depth:
        ops += [('INFO', 'CCEventInfo', lambda p: p.sym('body'), None), ('INVITE', 'CCEventUpdate', lambda p: sdp(p, 'new'), 'answer')]
    for method, cls, data, then in ops:
        for s, oc in evs(M, p, ua, st, cls, data if data is not None else NONE):
            ctx.count('requests in a call')
            w = '%s, %s' % (what, method)
            if not ctx.check(oc[0] == 'ret', key + ':raise', where, w + ': the leg raises', lines(s)):
                continue
            out = requests_of(s)
            if not out and method == 'INVITE':
                continue        # the same description again
            if not ctx.check(len(out) == 1 and fields(out[0][0]).get('method') == K(method), key + ':sent', where, '%s: %s sent' % (w, [show(fields(o[0]).get('method')) for o in out]), lines(s)):
                continue
            d, kw, raw = out[0]
            indialog(ctx, key, where, w, d, g, prev, s)
            if method == 'BYE' or not depth:
                continue
            nxt = [s]
            if then == 'answer':
                nxt = []
                p.st = reset(s)
                resp = response(p, raw[0], 200, (), True, tag=False)
                for s2, oc2 in answer(M, p, ua, resp, s):
                    ctx.check(oc2[0] == 'ret', key + ':raise', where, w + ': the answer raises', lines(s2))
                    nxt.append(s2)
            for s2 in distinct(p, ua, nxt):
                operations(ctx, M, key, where, w + ' then', p, ua, s2, g, d, depth - 1)


def distinct(p, ua, sts):
    """of states in which the leg is the same, one"""
    seen = {}
    for s in sts:
        seen.setdefault(deep(p.I, s, ua), s)
    return list(seen.values())


def answer(M, p, ua, resp, s):
    """deliver a response to the callback of the transaction"""
    tr = None
    n = s.heap.get('#tm', 1)
    tr = ('O', 'trans%d' % (n - 1), Ext('Transaction'))
    st = reset(p.st)
    return M.runs(p, ua, 'recvResponse', [resp, tr], st=st)


def some(p, ua, r):
    bad = [x for x in r if x[1][0] != 'ret']
    return bad + [(s, ('ret', NONE)) for s in distinct(p, ua, [s for s, oc in r if oc[0] == 'ret'])]


def depth(ctx, rrs):
    return 2 if ctx.thorough or len(rrs) == 2 and rrs[0] else 1


def m05_client(ctx, M):
    repo = ctx.repo
    uac = repo.cls('UA')
    where = must(repo, uac, 'genRequest').where()
    for kind in ('answered', 'ringing first', 'cancelled'):
        for rrs in ((), (True,), (True, True), (False,), (False, True)):
            p, ua = leg(M)
            p.st.sethp((ua, 'remote_ua'), p.sym('remote.agent'))
            cid = p.new('SipCallId', p.sym('callid'))
            data = ('T', (cid, p.sym('cli'), p.sym('cld'), sdp(p, 'offer'), NONE, p.sym('caller')))
            for s, oc in evs(M, p, ua, p.st, 'CCEventTry', data):
                ctx.check(oc[0] == 'ret', 'invite:raise', where, 'the INVITE raises', lines(s))
                out = requests_of(s)
                if not ctx.check(len(out) == 1 and fields(out[0][0]).get('method') == K('INVITE'), 'invite:sent', where, 'no INVITE', lines(s)):
                    continue
                inv, kw, raw = out[0]
                fr, to = of(inv, 'from'), of(inv, 'to')
                mytag = tag_of(fr[0])
                ctx.check(mytag != NONE and tag_of(to[0]) == NONE, 'invite:tags', where, 'the INVITE has no From tag or has a To tag', lines(s))
                ctx.check(branch_of(inv) is not None and len(of(inv, 'contact')) == 1 and len(of(inv, 'max-forwards')) == 1, 'invite:headers', where, 'the INVITE has no branch, Contact or Max-Forwards', lines(s))
                sts = [s]
                p.st = s
                if kind == 'ringing first':
                    r180 = response(p, raw[0], 180, (), False)
                    sts = [s2 for s2, oc in answer(M, p, ua, r180, s)]
                elif kind == 'cancelled':
                    sts = [s2 for s2, oc in evs(M, p, ua, s, 'CCEventDisconnect', NONE)]
                for s2 in sts:
                    p.st = reset(s2)
                    resp = response(p, raw[0], 200, rrs, True)
                    p.call(resp, 'setBody', sdp(p, 'answer'))
                    d = p.deep(resp)
                    u, rs, dst = target(of(d, 'contact')[0], of(d, 'record-route')[::-1])
                    g = Dialog(of(inv, 'call-id')[0], who(fr[0]), mytag, who(to[0]), S('answer.tag'), u, rs, dst)
                    what = 'calling side, %s, %s' % (kind, ['loose' if x else 'strict' for x in rrs] or 'no routers')
                    for s3, oc in some(p, ua, answer(M, p, ua, resp, s2)):
                        if not ctx.check(oc[0] == 'ret', 'answer:raise', where, what + ': the answer raises', lines(s3)):
                            continue
                        if kind == 'cancelled':
                            ctx.count('requests in a call')
                            out = requests_of(s3)
                            if ctx.check(len(out) == 1 and fields(out[0][0]).get('method') == K('BYE'), 'late:sent', where, what + ': no BYE', lines(s3)):
                                indialog(ctx, 'late', where, what + ', BYE', out[0][0], g, inv, s3)
                            continue
                        operations(ctx, M, 'client', where, what, p, ua, s3, g, inv, depth(ctx, rrs) if kind == 'answered' else 1 if ctx.thorough else 0)


def m05_server(ctx, M):
    repo = ctx.repo
    where = must(repo, repo.cls('UA'), 'genRequest').where()
    w_rsp = must(repo, repo.cls('UA'), 'sendUasResponse').where()
    for ring in (False, True):
        for rrs in ((), (True,), (True, True), (False,), (False, True)):
            p, ua = leg(M)
            p.st.sethp((ua, 'remote_ua'), p.sym('remote.agent'))
            req = request(p, 'INVITE', vias=1, contact=True)
            for i, lr in enumerate(rrs):
                h = p.header('record-route', p.addressed('SipRecordRoute', 'rr%d' % i, lr=lr))
                p.call(req, 'appendHeader', h)
            p.call(req, 'setBody', sdp(p, 'offer'))
            p.st.sethp((req, 'rtime'), p.sym('rtime'))
            d = p.deep(req)
            tr = ('O', 'server transaction', Ext('Transaction'))
            u, rs, dst = target(of(d, 'contact')[0], of(d, 'record-route'))
            what = 'called side, %s' % (['loose' if x else 'strict' for x in rrs] or 'no routers')
            for s, oc in M.runs(p, ua, 'recvRequest', [req, tr], st=reset(p.st)):
                if not ctx.check(oc[0] == 'ret', 'server:raise', where, what + ': the INVITE raises', lines(s)):
                    continue
                sts = [s]
                tags = []
                if ring:
                    sts = []
                    for s2, oc in evs(M, p, ua, s, 'CCEventRing', ('T', (K(180), S('reason'), NONE))):
                        sts.append(s2)
                        tags.append(s2)
                for s2 in sts:
                    first = s2.heap.get('#sent', ()) if ring else ()
                    for s3, oc in evs(M, p, ua, s2, 'CCEventConnect', lambda p: ('T', (K(200), S('reason'), sdp(p, 'answer')))):
                        if not ctx.check(oc[0] == 'ret', 'server:raise', where, what + ': answering raises', lines(s3)):
                            continue
                        rsp = [a[0] for n, a, kw, raw in first + s3.heap.get('#sent', ()) if n == 'sendResponse']
                        ctx.check(len(rsp) == (2 if ring else 1), 'responses', w_rsp, what + ': %d responses' % len(rsp), lines(s3))
                        if not rsp:
                            continue
                        mytag = tag_of(of(rsp[-1], 'to')[0])
                        ctx.check(mytag != NONE and all(tag_of(of(r, 'to')[0]) == mytag for r in rsp), 'responses:tag', w_rsp, what + ': the responses do not all carry one To tag', lines(s3))
                        ctx.check(len(of(rsp[-1], 'contact')) == 1, 'responses:contact', w_rsp, what + ': the answer has no Contact', lines(s3))
                        for r in rsp:
                            for n in ('via', 'record-route', 'from', 'call-id', 'cseq'):
                                same(ctx, 'responses', w_rsp, what + ': the response', n, of(r, n), of(d, n), s3)
                        g = Dialog(of(d, 'call-id')[0], who(of(d, 'to')[0]), mytag, who(of(d, 'from')[0]), S('caller.tag'), u, rs, dst)
                        operations(ctx, M, 'server', where, what, p, ua, s3, g, None, depth(ctx, rrs) if not ring else 1 if ctx.thorough else 0)


def check_M05(ctx):
    ctx.rule = ('a leg is led through the set-up of a call with messages made of symbolic parts, as caller (answered at once, after ringing, after being '
                'cancelled) and as called party, with no, loose and strict routers; every request it then sends is compared with what those messages fix')
    M = Msgs(ctx)
    m05_client(ctx, M)
    m05_server(ctx, M)
    ctx.visited(M.vis)
    ctx.floor('requests in a call', 100)
    ctx.assumptions += ['no outbound proxy; answers to re-INVITE keep the target (not claimed otherwise); transaction layer replaced by a record']


# ---------------------------------------------------------------- M01
# not part of what a copy stands for
APART = {('SipServer', 'body'): 'the name is what counts', ('SipUserAgent', 'body'): 'the name is what counts',
         ('SipResponse', 'lossemul'): 'a test knob of one transmission', ('SipURL', 'original_uri'): 'the text it was parsed from',
         ('MultipartMixBody', 'part_headers'): 'headers of the parts as received', ('XMPP_server_opts', 'data_callback'): 'no getCopy of its own',
         ('*', 'seq'): 'events are numbered anew', ('SipGenericHF', 'parsed'): 'parsing changes nothing'}


def given(repo):
    if not hasattr(repo, '_given'):
        repo._given = {n.attr for fi in repo.funcs.values() for n in ast.walk(fi.node)
                       if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cself'))}
    return repo._given


def stored(repo, ci):
    """attributes the methods of a class give to its instances, and those which are first given a list or a table"""
    out, kind = set(), {}
    for c in ci.repo_mro():
        # declared here, given by others
        out |= {a for a, v in c.attrs.items() if isinstance(v, ast.Constant) and v.value is None and a in given(repo) and ci.find_attr(a)[2] is v}
        for n in ast.walk(c.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
            ts = [x for t in ts for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
            for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ('self', 'cself', 'copy'):
                    a = t.attr
                    if a.startswith('__') and not a.endswith('__'):
                        continue
                    out.add(a)
                    v = n.value
                    if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list':
                        kind.setdefault(a, 'L')
                    elif isinstance(v, (ast.Dict, ast.DictComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict':
                        kind.setdefault(a, 'D')
        for b in c.node.body:
            if isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name) and t.id in out and isinstance(b.value, (ast.List, ast.Dict)):
                        kind.setdefault(t.id, 'L' if isinstance(b.value, ast.List) else 'D')
    return out, kind


GROW = ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard')


def edited(repo):
    """names of attributes whose list or table is changed in place somewhere, other than where it is being made"""
    out = {}
    for fi in repo.funcs.values():
        if fi.name in ('__init__', 'parse', 'getCopy'):
            continue
        for n in ast.walk(fi.node):
            a = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW:
                a = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                a = n.value
            elif isinstance(n, ast.AugAssign):
                a = n.target
            if isinstance(a, ast.Attribute):
                out.setdefault(a.attr, fi.where(n))
    return out


def is_lazy(ci):
    r = ci.find_attr('parsed')
    return r is not None and r[0] == 'attr' and isinstance(r[2], ast.Constant) and r[2].value is False


def optional(ci):
    """attributes other code of the class finds missing now and then"""
    out = set()
    for c in ci.repo_mro():
        for n in ast.walk(c.node):
            if isinstance(n, ast.FunctionDef) and n.name not in ('__init__', 'getCopy', 'parse'):
                for x in ast.walk(n):
                    if isinstance(x, ast.Compare) and isinstance(x.left, ast.Attribute) and any(isinstance(y, ast.Constant) and y.value is None for y in x.comparators):
                        out.add(x.left.attr)
    return out


class CopyCfg(WCfg):
    opaque = tuple(o for o in WCfg.opaque if o not in ('sippy.Network_server', 'sippy.Udp_server', 'sippy.Time.'))


class Makes:
    """one of each kind of message part, every field told from every other"""
    def __init__(self, M):
        self.M = M
        self.p = M.parts(CopyCfg(M.repo))
        self.n = 0

    def raw(self, ci, skip=(), none=(), **given):
        p = self.p
        self.n += 1
        o = ('O', '%s.%d' % (ci.name, self.n), ci)
        at, kind = stored(p.repo, ci)
        lazy = is_lazy(ci) and ci.name != 'MsgBody'
        for a in sorted(at):
            if a in given or a in skip or lazy and (a == 'hf_names' or a == 'body' and len(at) > 3) or a == 'parsed':
                continue
            r = ci.find_attr(a)
            if r is not None and r[0] != 'attr':
                continue        # a property
            s = '%s.%d.%s' % (ci.name, self.n, a)
            if a in none:
                v = NONE
            elif a in kind:
                v = (kind[a], s)
                if kind[a] == 'L':
                    p.st.sethp((v, 'items'), (p.sym(s + '[0]'), p.sym(s + '[1]')))
                else:
                    p.st.sethp((v, 'map'), ((p.sym(s + '.key'), p.sym(s + '.value')),))
            else:
                v = p.sym(s)
            p.st.sethp((o, a), v)
        for a, v in given.items():
            p.st.sethp((o, a), v)
        return o

    def of(self, ci, none=()):
        p, c = self.p, p_cls(self.p)
        subs = lambda name: any(k.name == name for k in ci.repo_mro())
        g = {}
        if ci.name == 'SipAddress':
            g = {'url': self.of(c('SipURL'))}
        elif subs('SipAddressHF'):
            g = {'parsed': TRUE, 'address': self.of(c('SipAddress')), **({'asterisk': FALSE} if ci.name == 'SipContact' else {})}
        elif ci.name == 'SipHeader':
            g = {'name': K('to'), 'body': self.of(c('SipTo'))}
        elif ci.name == 'MsgBody':
            g = {'parsed': TRUE, 'content': self.of(c('SdpBody')), 'mtype': self.of(c('SipContentType'))}
        elif ci.name == 'MultipartMixBody':
            ty = self.of(c('SipContentType'))
            p.st.sethp((ty, 'parsed'), TRUE)
            p.st.sethp((('C', ci), 'mtype'), ty)
            o = p.new(ci.name)
            p.st.sethp((o, 'parts'), self.some('MsgBody'))
            p.call(o, 'setBoundary', p.sym('boundary'))
            return o
        elif ci.name == 'SdpBody':
            g = {'o_header': self.of(c('SdpOrigin')), 'c_header': self.of(c('SdpConnecton')), 'a_headers': self.some('a_header'), 'sections': self.some('SdpMediaDescription'),
                 **{x + '_header': self.raw(c('SdpGeneric'), body=p.sym('sdp.' + x)) for x in 'vsiuepbtrzk'}}
        elif ci.name == 'SdpMediaDescription':
            g = {'m_header': self.of(c('SdpMedia')), 'c_header': self.of(c('SdpConnecton')), 'a_headers': self.some('a_header'),
                 **{x + '_header': self.raw(c('SdpGeneric'), body=p.sym('sect.' + x)) for x in 'ibk'}}
        elif ci.name == 'SipRequest':
            r = request(p, 'INVITE', routes=1, rrs=1, contact=True)
            p.call(r, 'setBody', self.of(c('MsgBody')))
            for a in ('source', 'nated', 'rtime'):
                p.st.sethp((r, a), p.sym('request.' + a))
            return r
        elif ci.name == 'SipResponse':
            r = response(p, request(p, 'INVITE'), 200, (True, True))
            p.call(r, 'setBody', self.of(c('MsgBody')))
            for a in ('source', 'nated', 'rtime', 'startline', 'target'):
                p.st.sethp((r, a), p.sym('response.' + a))
            return r
        elif subs('CCEventGeneric'):
            g = {'extra_headers': ('T', (self.of(c('SipHeader')), self.of(c('SipHeader')))), 'reason_rfc3326': self.of(c('SipReason'))}
            if ci.name == 'CCEventFail':
                g.update(challenges=self.some('SipHeader'), warning=self.of(c('SipWarning')))
        elif ci.name == 'B2BRoute':
            g = {'extra_headers': ('T', (self.of(c('SipHeader')), self.of(c('SipHeader'))))}
        elif subs('SipGenericHF') and is_lazy(ci):
            g = {'parsed': TRUE}
        given = {a: v for a, v in g.items() if a not in none}
        return self.raw(ci, none=none, **given)

    def some(self, cls):
        return lst(self.p, '%ss.%d' % (cls, self.n), [self.of(self.p.repo.cls(cls)) for i in range(2)])


def p_cls(p):
    return p.repo.cls


def plainer(d):
    """lists and tuples alike, without what a copy need not have"""
    if isinstance(d, tuple):
        if len(d) == 3 and d[0] == 'O' and isinstance(d[2], tuple):
            d = ('O', d[1], tuple((k, x) for k, x in d[2] if (d[1], k) not in APART and ('*', k) not in APART))
        return tuple('L' if i == 0 and x == 'T' else plainer(x) for i, x in enumerate(d))
    return d


def copied(ctx, key, m, ci, o, what, edits):
    p, M = m.p, m.M
    fi = must(ctx.repo, ci, 'getCopy')
    before = p.deep(o)
    for s, oc in M.runs(p, o, 'getCopy'):
        ctx.count('copies')
        if not ctx.check(oc[0] == 'ret', key + ':raise', fi.where(), 'copying %s raises' % what, lines(s)):
            continue
        c = oc[1]
        if not ctx.check(c[0] == 'O' and c[2] is ci, key + ':class', fi.where(), 'the copy of %s is of another kind' % what, lines(s)):
            continue
        if c == o:
            # handed out itself: fine for what nobody changes
            at, kind = stored(ctx.repo, ci)
            ch = [a for a in at for f in ctx.repo.funcs.values() if f.cls is ci and f.name not in ('__init__', 'parse') and writes(f, a)]
            ctx.check(not ch, key + ':itself', fi.where(), 'the copy of %s is the original, whose %s is changed elsewhere' % (what, ', '.join(ch)), lines(s))
            continue
        a, b = fields(plainer(before)), {k: settled(p, s, v) for k, v in fields(plainer(deep(p.I, s, c))).items()}
        if before == p.deep(o):
            a = {k: settled(p, s, v) for k, v in a.items()}
        if 'unparsed' in key and a.get('parsed') == TRUE:
            a.pop('body', None), b.pop('body', None)        # parsed right away
        a, b = ({k: v for k, v in x.items() if not const_default(ci, k, v)} for x in (a, b))
        for k in sorted(set(a) | set(b)):
            ctx.check(a.get(k) == b.get(k), key + ':' + k, fi.where(), 'the copy of %s %s its %s (%s)' % (
                what, 'lacks' if k not in b else 'has another value for', k, differ(a.get(k, NONE), b.get(k, NONE))), lines(s))
        ctx.check(deep(p.I, s, o) == before, key + ':source', fi.where(), 'copying %s changes it' % what, lines(s))
        for x in sorted(parts_of(p.I, s, c) & parts_of(p.I, s, o), key=str):
            at = sorted({k[1] for k, v in s.heap.items() if v == x and isinstance(k, tuple) and isinstance(k[1], str)})
            if x[0] == 'O':
                ok = x[2].name == 'SdpGeneric' or any((x2, 'x') == 0 for x2 in ())
                ctx.check(ok, key + ':shared', fi.where(), 'the copy of %s shares its %s' % (what, ' / '.join(at)), lines(s))
            else:
                hit = [k for k in at if k in edits]
                ctx.check(not hit, key + ':shared', fi.where(), 'the copy of %s shares its %s, which is changed in place at %s' % (what, ' / '.join(hit), edits.get(hit[0]) if hit else ''), lines(s))


def settled(p, s, v):
    if v[0] == 'OP' and v[1] in ('not', 'in', 'eq', 'isinstance'):
        r = {x for st, x in p.I.decide(s, v, None, None)}
        if len(r) == 1:
            return K(r.pop())
    return v


def const_default(ci, k, v):
    r = ci.find_attr(k)
    return r is not None and r[0] == 'attr' and isinstance(r[2], ast.Constant) and K(r[2].value) == v


def writes(fi, a):
    return any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for n in ast.walk(fi.node))


def check_M01(ctx):
    ctx.rule = ('every class that can be copied is copied with all its fields set, with each optional one missing, and not parsed yet; the copy is compared field by '
                'field with the original, and what both refer to is searched for parts that code changes in place')
    M = Msgs(ctx)
    repo = ctx.repo
    edits = edited(repo)
    done = set()
    for ci in repo.classes.values():
        f = ci.find_attr('getCopy')
        if f is None or ci in done or ci.name in ABSTRACT or ('%s' % ci.module.name).startswith('apps'):
            continue
        done.add(ci)
        at, kind = stored(repo, ci)
        lazy = is_lazy(ci)
        opt = [a for a in sorted(at) if ci.find_attr(a) is not None and ci.find_attr(a)[0] == 'attr' and isinstance(ci.find_attr(a)[2], ast.Constant) and ci.find_attr(a)[2].value is None and a not in ('body', 'rtime', 'hadbrace') and a not in kind and a in optional(ci)]
        for none in [()] + ([(a,) for a in opt] if ci.name not in WHOLE else []):
            m = Makes(M)
            o = m.of(ci, none)
            if lazy:
                m.p.st.sethp((o, 'parsed'), TRUE)
            copied(ctx, ci.name, m, ci, o, 'a %s%s' % (ci.name, ' without %s' % none[0] if none else ''), edits)
        if lazy:
            m = Makes(M)
            o = m.p.new(ci.name, K('text'), *([m.of(repo.cls('SipContentType'))] if ci.name == 'MsgBody' else []))
            copied(ctx, ci.name + ' unparsed', m, ci, o, 'a %s that is not parsed yet' % ci.name, edits)
    ctx.visited(M.vis)
    ctx.floor('copies', 100)


WHOLE = ('SipRequest', 'SipResponse', 'MsgBody', 'MultipartMixBody', 'SdpBody')     # nothing optional, or tried with M04
ABSTRACT = ('SipMsg', 'SipAddressHF', 'SipNumericHF', 'CCEventGeneric')

RULES = {'M01': check_M01, 'M04': check_M04, 'M05': check_M05}
