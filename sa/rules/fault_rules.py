"""Fault rules (T07): static fault injection.  Every callback into the
application raises and every header of a message a leg reads may be unreadable
or absent; what is left behind is compared with the same step without fault."""
from ..tm import TmCfg, TCase, TPath, TM, T, TCLIENT, TSERVER, CACHE1, CACHE2, HANDLES
from ..leg import LegRuns, TIMERS, METHODS, OTHER, CODES, UA, phase, JoinCfg
from ..interp import Interp, Fact, K, S, NONE, TRUE, FALSE, Raise, show, is_k, kval
from ..repo import Ext, AnchorError
from .tm_rules import runs, endstate, fin, live

# read when the transaction a message belongs to is looked up
TRANSACTION = tuple(K(x) for x in ('from', 'cseq', 'call-id', 'via'))
READERS = ('getHFBody', 'getHFBodys', 'getHFBCopy', 'getHFBCopys')
EXCS = ('Exception', 'SdpParseError', 'SipParseError', 'RtpProxyError')


def exc_cls(repo, n):
    return Ext('builtins.' + n) if n in ('Exception', 'IndexError') else repo.cls(n)


class RaisingTm(TmCfg):
    """Application callbacks raise, possibly after having answered."""
    method = None      # of the request made from the datagram

    def __init__(self, repo, exc, **kw):
        super().__init__(repo, **kw)
        self.exc = exc

    def inline(self, interp, st, fi, ev):
        if fi.module.name.startswith('sippy.Exceptions'):
            return True
        return super().inline(interp, st, fi, ev)

    def rel_fact(self, v):
        return v[0] == 'OP' and v[1] == 'digest' or v == S('data_in') or super().rel_fact(v)

    def on_call(self, interp, st, ev):
        if ev.name == 'getResponse' and ev.recv is not None and ev.recv[0] == 'O' and str(ev.recv[1]).startswith('exc@app'):
            return None
        if self.method is not None:
            # one datagram that is a request, over a socket of its own
            if ev.name == 'getMethod' and ev.recv is not None and ev.recv[0] == 'O':
                return [(st, self.method)]
            if ev.name in ('isWildCard', 'startswith'):
                return [(st, FALSE)]
            if ev.name in ('check1918', 'check7118'):
                return [(st, FALSE)]
        cb = self.user_cb(ev)
        if cb is None or ev.callee is not None and self.inline(interp, st, ev.callee, ev):
            return super().on_call(interp, st, ev)
        x = ('O', 'exc@app', exc_cls(self.repo, self.exc))
        alts = [st]
        if cb == 'req_cb':
            r = super().on_call(interp, st.copy(), ev)
            if r is not None:
                alts = [s for s, v in r if v == NONE]
        else:
            interp.emit(st, ev)
        if cb == 'req_cb' and alts == [st]:
            interp.emit(st, ev)
        return [(s, Raise(x)) for s in alts]


def outcome(R, p):
    t = R.tobj(p)
    reg, bad = R.registration(p)
    if not reg:
        return ('removed', tuple(sorted(R.armed(p, t))))
    return (endstate(R, p), tuple(sorted(R.armed(p, t))))


def called(p):
    return tuple(n for n, e in p.cbs())


def datagram(R, cfg, kind):
    """A request nobody knows yet, from the datagram on."""
    st = R.mk(kind, None, frozenset())
    for v in ('data_in', 'server', 'ra', 'rtime'):
        st.setfact(S(v), Fact(none=False, truth=True))
    for m in (CACHE1, CACHE2):
        st.sethp((m, '#miss'), TRUE)
    st.setfact(S('data_in'), Fact(none=False, truth=True, inst=frozenset((Ext('builtins.bytes'),))))
    st.sethp((TM, 'nat_traversal'), FALSE)
    st.sethp((S('ra'), 'transport'), K('udp'))
    cfg.method = K('INVITE')
    if not kind.endswith('INVITE'):
        cfg.method = S('method')
        st.setfact(S('method'), Fact(none=False, truth=True, ne=frozenset(K(x) for x in ('INVITE', 'ACK', 'CANCEL'))))
    try:
        return R.case(kind, None, frozenset(), 'new', 'handleIncoming', [S('data_in'), S('ra'), S('server'), S('rtime')], st,
                      lookup=NONE)
    finally:
        cfg.method = None


def part_tm(ctx):
    R = runs(ctx)
    save = R.cfg, dict(R.cases)
    try:
        for exc in EXCS:
            cfg = RaisingTm(ctx.repo, exc)
            cfg.reentrant = R.method('sendResponse')
            R.cfg = cfg
            # a new request
            for kind in ('server/INVITE', 'server/other'):
                c = datagram(R, cfg, kind)
                for p in c.paths:
                    if not p.cbs('req_cb'):
                        continue
                    t = R.tobj(p)
                    reg, bad = R.registration(p)
                    ctx.count('requests whose handling fails')
                    w = '%s/new/%s' % (kind, exc)
                    if reg:
                        ctx.check(endstate(R, p) not in ('TRYING', 'RINGING'), w + '/open', p.where(), 'the handling of the '
                                  'request failed and its transaction stays %s' % endstate(R, p), p.lines())
                        ctx.check(outcome(R, p) in {(s.name, tuple(sorted(a))) for k, s, a in R.nodes if k == kind},
                                  w + '/situation', p.where(), 'the handling of the request failed and its transaction stays '
                                  'in a situation it cannot be in otherwise: %s' % (outcome(R, p),), p.lines())
                    else:
                        left = sorted(R.armed(p, t))
                        ctx.check(not left, w + '/left', p.where(), 'the handling of the request failed and timers %s stay'
                                  % left, p.lines())
                    finals = [m for m in p.msgs() if isinstance(m, tuple) and m[0] == 'resp' and fin(p, m[1]) is not False]
                    ctx.check(len(finals) == 1, w + '/final', p.where(), 'a request whose handling failed gets %d final '
                              'responses' % len(finals), p.lines())
                    rec = [e for e in p.events if e.kind == 'setitem' and e.recv == CACHE1]
                    ctx.check(bool(rec) or bool(reg), w + '/unrecorded', p.where(), 'a retransmission of a request whose '
                              'handling failed is handled again', p.lines())
            # anything else: the outcome is the one without the fault
            if exc not in ('Exception', 'SdpParseError'):
                continue
            for key, c0 in sorted(save[1].items(), key=lambda x: (x[0][0], x[0][1] or '', sorted(x[0][2]), x[0][3])):
                if c0.state is None:
                    continue
                usual = {}
                for p in c0.paths:
                    if p.oc[0] != 'raise' and p.cbs():
                        usual.setdefault(called(p), set()).add(outcome(R, p))
                if not usual:
                    continue
                stim = [s for s in R.stimuli(c0.kind, c0.state, c0.armed) if s[0] == c0.label]
                if len(stim) != 1:
                    raise AnchorError('stimulus %s not found again' % c0.label)
                c = R.run(c0.kind, c0.state, c0.armed, stim[0])
                for p in c.paths:
                    if not p.cbs():
                        continue
                    ctx.count('reports that fail')
                    ok = usual.get(called(p), set())
                    ctx.check(outcome(R, p) in ok, c.name + '/report', p.where(), 'the application failed while being told '
                              '(%s), the transaction is left %s instead of %s' % (', '.join(called(p)), outcome(R, p),
                                                                                  sorted(ok, key=str)), p.lines())
    finally:
        R.cfg = save[0]
        R.cases = save[1]
    ctx.floor('requests whose handling fails', 16)
    ctx.floor('reports that fail', 20)
    return R


def absent(st, h):
    v = st.heap.get((S('#headers'), h))
    return None if v is None else v == FALSE


class FaultLeg(JoinCfg):
    """Any header the leg reads may be unreadable, absent or (Contact) a
    wildcard; the media description may be refused."""
    def may_raise(self, interp, st, ev):
        return False

    def rel_heap(self, key):
        return key[0] == S('#headers') or super().rel_heap(key)

    def on_call(self, interp, st, ev):
        n = ev.name or ''
        hook = ev.extra[1] if isinstance(ev.extra, tuple) and len(ev.extra) > 1 and ev.extra[0] == 'S' and \
            isinstance(ev.extra[1], str) else n
        if hook.endswith('remote_sdp_change'):
            interp.emit(st, ev)
            return [(st.copy(), Raise(('O', 'exc@sdp', exc_cls(self.repo, 'SdpParseError')))),
                    (st.copy(), Raise(('O', 'exc@sdp/unserved', exc_cls(self.repo, 'RtpProxyError')))),
                    (st.copy(), NONE), (st.copy(), S('newbody'))]
        msg = ev.recv in (S('req'), S('resp'))
        msg = msg and bool(ev.args) and ev.args[0] not in TRANSACTION
        if msg and n == 'countHFs' and ev.args and is_k(ev.args[0]):
            h = kval(ev.args[0])
            a = absent(st, h)
            out = []
            for there in (True, False):
                if a is None or a != there:
                    s = st.copy()
                    s.sethp((S('#headers'), h), TRUE if there else FALSE)
                    out.append((s, K(1) if there else K(0)))
            return out
        if msg and n in READERS and ev.args and is_k(ev.args[0]):
            h = kval(ev.args[0])
            a = absent(st, h)
            many = n.endswith('s')
            out = []
            if a is not True:
                for mode in ('unreadable',) + (('wildcard',) if h == 'contact' else ()):
                    s = st.copy()
                    s.sethp((S('#headers'), h), TRUE)
                    s.sethp((S('#fault'), 'h'), K((h, mode)))
                    if mode == 'wildcard' and not many:
                        w = S('wildcard')
                        s.setfact(w, Fact(none=False, truth=True))
                        s.sethp((w, 'asterisk'), TRUE)
                        out.append((s, w))
                    elif 'Copy' not in n:
                        interp.emit(s, ev)
                        out.append((s, Raise(('O', 'exc@%s/%s' % (h, mode), Ext('builtins.Exception')))))
                s = st.copy()
                s.sethp((S('#headers'), h), TRUE)
                r = JoinCfg.on_call(self, interp, s, ev)
                if r is not None:
                    out += r
                else:
                    ev2 = S('%s.%s(%s)' % (show(ev.recv), n, h))
                    s.setfact(ev2, Fact(none=False))
                    out.append((s, ev2))
            if a is not False and h != 'to':
                s = st.copy()
                s.sethp((S('#headers'), h), FALSE)
                if many:
                    out.append((s, interp.mklist(s, [], ev.node)))
                else:
                    s.sethp((S('#fault'), 'h'), K((h, 'absent')))
                    interp.emit(s, ev)
                    out.append((s, Raise(('O', 'exc@%s/absent' % h, Ext('builtins.IndexError')))))
            return out
        if ev.recv == S('wildcard') and n in ('getUrl', 'getUri', 'getCopy'):
            if n == 'getCopy':
                return [(st, ev.recv)]
            interp.emit(st, ev)
            return [(st, Raise(('O', 'exc@contact/wildcard', Ext('builtins.AttributeError'))))]
        return JoinCfg.on_call(self, interp, st, ev)


def part_leg(ctx, R):
    L = LegRuns(ctx)
    cfg = FaultLeg(ctx.repo)
    # what the transaction layer keeps away from the legs
    kept = {}

    def refused(h, mode, stim):
        k = (h, mode, stim[0], stim[1] if stim[0] == 'resp' else None)
        if k not in kept:
            kept[k] = screened(ctx, R, h, mode, stim)
        return kept[k]
    for cls in L.states:
        if phase(cls) in ('ended', 'dead'):
            continue
        stims = [('req', m) for m in METHODS + (OTHER,)] + [('resp', x) for x in CODES]
        if phase(cls) == 'established':
            stims.append(('ack', None))
        if cls.name == 'UasStateIdle':
            stims = stims[:1]
        for s in stims:
            case = L.run(cls, s, frozenset(TIMERS if cls.name != 'UasStateIdle' else ()), cfg=cfg)
            for p in case.paths:
                if p.oc[0] != 'raise':
                    continue
                ctx.count('faults that reach the caller of a leg')
                if phase(p.end_cls()) in ('ended', 'dead'):
                    ctx.count('faults that end the leg')
                    ctx.check(all(p.timer(t) == 'off' for t in TIMERS), '%s/%s/timer' % (cls.name, case.label), p.where(),
                              'a leg that ends by a fault leaves timers running', p.lines())
                    continue
                x = p.oc[1]
                what = x[1][4:] if x[0] == 'O' and str(x[1]).startswith('exc@') else '?'
                h, _, mode = what.partition('/')
                probs = []
                if cls.name == 'UasStateIdle':
                    probs.append('the leg is never released')
                for t in TIMERS:
                    v = p.st.heap.get((UA, t))
                    if v != S('ua.' + t) and v is not None or p.st.heap.get((S('ua.' + t), '#cancelled')) is not None:
                        probs.append('%s is gone or replaced' % t)
                if p.st.heap.get((UA, 'state')) != case.state_obj:
                    probs.append('the state has changed')
                if p.st.heap.get((case.queue, 'items')):
                    probs.append('events stay queued')
                for e in p.wire():
                    if not provisional(p, e):
                        probs.append('something was sent')
                if s[0] == 'resp' and s[1][1] >= 200:
                    probs.append('the final response is lost')
                if not probs or (h not in ('sdp', '?') and refused(h, mode, s)):
                    ctx.count('faults without effect')
                    ctx.check(True, '', '', '')
                    continue
                ctx.check(False, '%s/%s/%s' % (cls.name, case.label, what), p.where(), 'a message with %s %s leaves the leg '
                          'half way: %s' % (mode or 'refused', h, '; '.join(sorted(set(probs)))), p.lines())
    for k in sorted(kept, key=str):
        ctx.sample('kept from the legs by the transaction layer: %s' % (k,) if kept[k] else 'reaches the legs: %s' % (k,))
    ctx.floor('faults that reach the caller of a leg', 3)


def provisional(p, w):
    """100 Trying is no commitment"""
    return w[0] == 'resp' and w[2] is not None and is_k(w[2]) and kval(w[2]) < 200


class ScreenTm(TmCfg):
    """Datagram handling up to the message handlers, one header faulty."""
    join = False

    def __init__(self, repo, h, mode, stim, **kw):
        super().__init__(repo, **kw)
        self.h, self.mode, self.stim = h, mode, stim

    def inline(self, interp, st, fi, ev):
        return fi.name not in ('incomingRequest', 'incomingResponse', 'sendResponse') and super().inline(interp, st, fi, ev)

    def may_raise(self, interp, st, ev):
        return False

    def on_call(self, interp, st, ev):
        n = ev.name
        if n == 'getSCode' and self.stim[0] == 'resp':
            c = S('code')
            st.setfact(c, Fact(none=False, truth=True, lo=(self.stim[1][1], False), hi=(self.stim[1][2], False)))
            return [(st, ('T', (c, S('reason'))))]
        if n == 'getMethod':
            return [(st, K('INVITE'))]
        if n in READERS + ('countHFs',) and ev.args and is_k(ev.args[0]):
            h = kval(ev.args[0])
            if h == 'cseq':
                q = S('cseq')
                st.setfact(q, Fact(none=False, truth=True))
                st.sethp((q, 'method'), K('INVITE'))
                return [(st, q)]
            if h != self.h:
                return super().on_call(interp, st, ev)
            if n == 'countHFs':
                return [(st, K(0) if self.mode == 'absent' else K(1))]
            many = n.endswith('s')
            if self.mode == 'absent':
                if many:
                    return [(st, interp.mklist(st, [], ev.node))]
                return [(st, Raise(('O', 'exc@absent', Ext('builtins.IndexError'))))]
            if 'Copy' in n:
                return super().on_call(interp, st, ev)
            if self.mode == 'unreadable':
                return [(st, Raise(('O', 'exc@bad', Ext('builtins.Exception'))))]
            w = S('wildcard')
            st.setfact(w, Fact(none=False, truth=True))
            st.sethp((w, 'asterisk'), TRUE)
            return [(st, interp.mklist(st, [w], ev.node) if many else w)]
        if n in ('getCSeqMethod', 'getCSeq') and ev.recv == S('cseq'):
            return [(st, K('INVITE') if n == 'getCSeqMethod' else ('T', (S('cseq.n'), K('INVITE'))))]
        if ev.recv == S('wildcard') and n in ('getUrl', 'getUri'):
            return [(st, Raise(('O', 'exc@wildcard', Ext('builtins.AttributeError'))))]
        return super().on_call(interp, st, ev)


def screened(ctx, R, h, mode, stim):
    """Does the datagram handler never pass such a message on?"""
    cfg = ScreenTm(ctx.repo, h, mode, stim)
    fi = R.method('handleIncoming')
    st = R.mk('server/other' if stim[0] != 'resp' else 'client/INVITE', None, frozenset())
    st.setfact(S('data_in'), Fact(none=False, truth=True))
    st.setfact(S('server'), Fact(none=False, truth=True))
    st.sethp((T, 'needack'), TRUE)
    for m in (CACHE1, CACHE2):
        st.sethp((m, '#miss'), TRUE)
    ip = Interp(ctx.repo, cfg)
    want = 'incomingResponse' if stim[0] == 'resp' else 'incomingRequest'
    n = 0
    for s2, oc in ip.run(fi, TM, [S('data_in'), S('ra'), S('server'), S('rtime')], st=st):
        n += 1
        if any(e.kind == 'call' and e.name == want for e in s2.events()):
            return False
    ctx.visited(ip.visited)
    if not n:
        raise AnchorError('no path through the datagram handler')
    return True


def t07(ctx):
    ctx.rule = ('Static fault injection: every call from the transaction layer into the application raises (before, between and '
                'after answers), every header a call leg reads is unreadable, absent or a wildcard, and the media hook refuses. '
                'A failed request has exactly one final response and no open transaction; any other step ends with the table '
                'and timers it has when the callback returns; a leg is unchanged or ended, unless the datagram handler is '
                'shown never to pass such a message on.')
    R = part_tm(ctx)
    part_leg(ctx, R)


RULES = {'T07': t07}
