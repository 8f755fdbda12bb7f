"""Transaction model: one SIP transaction in the transaction manager, every
stimulus it can receive in every state, with the sets of timers that may run
computed as a least fixpoint."""
from .repo import AnchorError, ClassInfo, Ext
from .interp import Interp, Cfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise
from .leg import timer_status

TM = S('tm')
T = S('t')
TCLIENT = S('tm.tclient')
TSERVER = S('tm.tserver')
CACHE1 = S('tm.l1rcache')
CACHE2 = S('tm.l2rcache')
CSUM = S('checksum')
TID = ('T', (S('t.tid0'), S('t.tid1'), S('t.tid2'), S('t.branch')))
HANDLES = ('teA', 'teB', 'teC', 'teD', 'teE', 'teF', 'teG')
USER_CBS = ('resp_cb', 'req_cb', 'ack_cb', 'cancel_cb', 'noack_cb')
KINDS = ('client/INVITE', 'client/other', 'server/INVITE', 'server/other')
RANGES = (('1xx', 100, 199), ('2xx', 200, 299), ('3xx-6xx', 300, 699))

OPAQUE_MODS = ('sippy.Time.', 'sippy.Core.', 'sippy.Udp_server', 'sippy.Network_server', 'sippy.Wss_server',
               'sippy.Exceptions', 'sippy.MsgBody', 'sippy.Sdp')


class TmCfg(Cfg):
    implicit = 'try'
    join = True
    max_depth = 18
    max_states = 200000
    reentrant = None

    def __init__(self, repo, **kw):
        super().__init__(repo, **kw)
        self.tm = repo.cls('SipTransactionManager')
        self.tr = repo.cls('SipTransaction')
        self.mod = self.tm.module
        self.timer_mod = repo.mod('sippy.Time.Timeout')
        self.req = repo.cls('SipRequest')
        self.resp = repo.cls('SipResponse')
        self.path_types = {TM: self.tm, T: self.tr, S('msg'): None}
        self.path_types.pop(S('msg'))
        self.msg_mods = {m for m in repo.modules if m.split('.')[-1].startswith('Sip')} - {self.mod.name}

    def type_of_path(self, v):
        if v[0] == 'OP' and v[1] == 'idx' and v[2] in (TCLIENT, TSERVER):
            return self.tr
        return None

    def inline(self, interp, st, fi, ev):
        if fi.module is self.mod:
            return fi.cls is None or fi.cls.name not in ('local4remote',)
        n = fi.module.name
        return n not in self.msg_mods and not n.startswith(OPAQUE_MODS) and not n.startswith('sippy.Rtp')

    def may_raise(self, interp, st, ev):
        if ev.kind == 'call':
            if ev.name == 'getHFBody':
                return bool(ev.args) and ev.args[0] == K('expires')
            return ev.extra == 'new' and ev.name in ('SipRequest', 'SipResponse')
        return False

    def on_call(self, interp, st, ev):
        n = ev.name
        if n == 'getTId':
            a = tuple(S('%s.tid%d' % (show(ev.recv), i)) for i in range(3))
            if ev.arg(1, 'wBRN') == TRUE:
                a += (S(show(ev.recv) + '.branch'),)
            if ev.arg(2, 'wTTG') == TRUE:
                a += (S(show(ev.recv) + '.to_tag'),)
            if ev.arg(0, 'wCSM') == TRUE:
                a += (S(show(ev.recv) + '.method'),)
            return [(st, ('T', a))]
        if isinstance(ev.extra, tuple) and ev.extra[0] == 'X' and ev.extra[1].startswith('hashlib.'):
            return [(st, ('OP', ev.extra[1], *ev.args))]
        if n in ('digest', 'hexdigest') and ev.recv is not None and ev.recv[0] == 'OP' and str(ev.recv[1]).startswith('hashlib.'):
            v = ('OP', 'digest', ev.recv)
            st.setfact(v, Fact(none=False, truth=True))
            return [(st, v)]
        if n == 'getMethod' and (ev.recv, '#method') in st.heap:
            return [(st, st.heap[(ev.recv, '#method')])]
        if n == 'getSCode' and (ev.recv, '#code') in st.heap:
            return [(st, ('T', (st.heap[(ev.recv, '#code')], S('reason'))))]
        if n in ('genResponse', 'genACK', 'genCANCEL', 'getResponse') and ev.recv is not None:
            cls = self.resp if n in ('genResponse', 'getResponse') else self.req
            r = ('O', n + interp.site(st, ev.node), cls)
            st.sethp((r, '#of'), ev.recv)
            st.sethp((r, '#code'), ev.arg(0, 'scode', S('rcode')))
            st.sethp((r, '#kind'), K(n))
            ev.val = r
            interp.emit(st, ev)
            out = [(st, r)]
            if n == 'getResponse':
                s2 = st.copy()
                out.append((s2, NONE))
            return out
        if ev.callee is not None and ev.callee.module is self.timer_mod and n.startswith('Timeout'):
            t = ('O', 'timer@' + interp.site(st, ev.node), Ext('Timer'))
            ev.val = t
            cb = ev.arg(0, 'timeout_cb', NONE)
            st.sethp((t, '#cb'), cb)
            st.sethp((t, '#ival'), ev.arg(1, 'ival', NONE))
            interp.emit(st, ev)
            return [(st, t)]
        if n == 'cancel' and not ev.args and ev.recv is not None and ev.callee is None:
            st.sethp((ev.recv, '#cancelled'), TRUE)
            interp.emit(st, ev)
            return [(st, NONE)]
        if n == 'isinstance':
            return None
        if n in ('get', 'pop') and ev.recv in (TSERVER, TCLIENT) and ev.callee is None:
            interp.emit(st, ev)
            if n == 'pop':
                ev.kind = 'delitem'
                return [(st, T)]
            return [(st, st.heap.get((ev.recv, '#lookup'), T))]
        if n == 'get' and ev.recv in (CACHE1, CACHE2) and ev.callee is None:
            interp.emit(st, Ev('lookup', None, recv=ev.recv, args=ev.args[:1], node=ev.node, fn=ev.fn, stack=ev.stack))
            if st.heap.get((ev.recv, '#miss')) is not None:
                return [(st, ev.arg(1, 'default', NONE))]
            return [(st, st.heap.get((ev.recv, '#hit'), S(show(ev.recv) + '.found')))]
        if self.reentrant is not None and ev.callee is None and self.user_cb(ev) == 'req_cb' and len(ev.args) > 1:
            # the application may answer before it returns
            interp.emit(st, ev)
            s1 = st.copy()
            r = S('appresp')
            s1.setfact(r, Fact(inst=frozenset((self.resp,))))
            c = S('appcode')
            s1.setfact(c, Fact(none=False, truth=True, lo=(100, False), hi=(699, False)))
            s1.sethp((r, '#code'), c)
            s1.sethp((r, '#kind'), K('genResponse'))
            out = [(st, NONE), (s1, ('T', (r, S('app_cancel_cb'), S('app_noack_cb'))))]
            t = ev.args[1]
            for lab, lo, hi in RANGES[:2]:
                s2 = s1.copy()
                s2.setfact(r, s2.fact(r).but(none=False, truth=True))
                s2.setfact(c, Fact(none=False, truth=True, lo=(lo, False), hi=(hi, False)))
                for s3, oc in interp._enter(s2, self.reentrant, TM, [r, t], {}, ev, None):
                    if oc[0] == 'ret':
                        out.append((s3, NONE))
            return out
        return None

    def item(self, interp, st, o, k, node):
        if o in (CACHE1, CACHE2):
            interp.emit(st, Ev('lookup', None, recv=o, args=(k,), node=node))
            if st.heap.get((o, '#miss')) is not None:
                return Raise(('O', 'KeyError@%d' % getattr(node, 'lineno', 0), Ext('builtins.KeyError')))
            return st.heap.get((o, '#hit'))
        return None

    def member(self, interp, st, a, b):
        if b in (CACHE1, CACHE2):
            interp.emit(st, Ev('lookup', None, recv=b, args=(a,)))
            if st.heap.get((b, '#miss')) is not None:
                return False
            if st.heap.get((b, '#hit')) is not None:
                return True
            return None
        if b in (TSERVER, TCLIENT):
            if is_k(a) and kval(a) is None:
                return False
        return None

    def user_cb(self, ev):
        """Name of the application callback this event calls, or None."""
        if ev.kind != 'call' or ev.extra in ('inlined', 'new'):
            return None
        if ev.name in USER_CBS:
            return ev.name
        if ev.name == 'recvRequest':
            return 'req_cb'
        fv = ev.extra
        if isinstance(fv, tuple) and len(fv) > 1 and fv[0] in ('S', 'OP'):
            last = show(fv).rsplit('.', 1)[-1]
            if last in USER_CBS:
                return last
        return None

    # ---- joining
    def rel_heap(self, key):
        if len(key) != 2:
            return False
        k = key[1]
        return k in HANDLES or k in ('state', 'tid', 'cancelPending', '#cancelled', '#of', '#code', '#kind', 'ack_cb', 'data',
                                     'address', 'userv', 'tout', 'uack', 'needack', 'resp_cb', '#method', 'ack', 'r487',
                                     'cancel_cb', 'noack_cb', 'checksum', '#lookup', '#cb', '#ival', 'ack_checksum', 'ack_rAddr')

    def rel_fact(self, v):
        if v and isinstance(v[0], tuple):
            v = v[0]
        if v[0] == 'S':
            p = v[1]
            if p in ('code', 'msg.code', 'rcode', 'appcode', 'method', 't.method') or p.startswith(('t.', 'exc@')):
                return True
            return p.startswith('tm.') and ('consumer' in p or 'req_cb' in p or 'provisional' in p) or 'req_cb' in p \
                or 'recvRequest' in p
        if v[0] == 'OP' and v[1] == 'in' and v[3] in (TCLIENT, TSERVER):
            return True
        return False

    def relevant(self, ev):
        if ev.kind == 'call':
            if self.user_cb(ev):
                return True
            if ev.extra == 'inlined':
                return ev.name in ('sendResponse', 'newTransaction', 'transmitMsg', 'transmitData', 'doCancel', 'cleanup')
            return ev.name in ('send_to', 'cancel', 'genBranch', 'setRURI', 'setTarget', 'delHFs', 'appendHeaders', 'setTag',
                               'genTag', 'getServer', 'pop', 'req_out_cb', 'res_out_cb', 'localStr') or \
                (ev.callee is not None and ev.callee.module is self.timer_mod)
        if ev.kind in ('setitem', 'delitem'):
            return ev.recv in (TCLIENT, TSERVER, CACHE1)
        if ev.kind == 'set':
            return ev.name in HANDLES or ev.name in ('state', 'tid', 'cancelPending', 'uack')
        return ev.kind in ('raise', 'iraise', 'except')


class TPath:
    def __init__(self, case, st, oc):
        self.case, self.st, self.oc = case, st, oc
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = self.st.events()
        return self._ev

    def lines(self):
        from .core import trace_lines
        return ['%s in %s' % (self.case.label, self.case.node)] + trace_lines(self.events)

    def where(self):
        for e in reversed(self.events):
            if e.fn is not None and e.fn.module is self.case.cfg.mod:
                return e.where()
        return self.case.entry.where()

    def cbs(self, *names):
        return [(self.case.cfg.user_cb(e), e) for e in self.events if self.case.cfg.user_cb(e) in names or
                (not names and self.case.cfg.user_cb(e))]

    def sends(self):
        """Datagrams handed to the network, in order: (data value, address, event)"""
        return [(e.arg(0), e.arg(1), e) for e in self.events if e.kind == 'call' and e.name == 'send_to']

    def msgs(self):
        """What each datagram is: 'stored' for the transaction's stored copy,
        ('resp', code) , 'ack', 'cancel', 'request' or '?'"""
        out = []
        for d, a, e in self.sends():
            out.append(self.what(d, e))
        return out

    def what(self, d, e):
        heap = e.st[0]
        src = self.case.cfg.srcmsg(self, d)
        if src is None:
            if d == S('t.data') or d == self.case.data0:
                return 'stored'
            return '?%s' % show(d)
        k = heap.get((src, '#kind'))
        if k is not None:
            k = kval(k)
            if k in ('genResponse', 'getResponse'):
                return ('resp', heap.get((src, '#code')))
            return {'genACK': 'ack', 'genCANCEL': 'cancel'}[k]
        if src == S('t.ack'):
            return 'ack'
        if src == S('t.cancel'):
            return 'cancel'
        if src == S('t.r487'):
            return ('resp', K(487))
        if src == S('resp'):
            return ('resp', heap.get((src, '#code')))
        return 'request' if src == S('msg') else '?%s' % show(src)

    def tval(self, t):
        return self.st.heap.get((t, 'state'))


def srcmsg(self, path, d):
    """The message object a datagram was serialised from."""
    for e in path.events:
        if e.kind == 'call' and e.name == 'localStr' and e.val == d:
            return e.recv
    return None


TmCfg.srcmsg = srcmsg


class TCase:
    def __init__(self, cfg, kind, state, armed, label):
        self.cfg = cfg
        self.kind = kind
        self.state = state
        self.armed = armed
        self.label = label
        self.paths = []
        self.data0 = S('t.data')
        self.node = '%s transaction in %s with %s' % (kind, state.name if state else 'no state', sorted(armed) or 'no timer')
        self.t = T

    @property
    def name(self):
        return '%s/%s/%s' % (self.kind, self.state.name if self.state else 'new', self.label)


class TmRuns:
    def __init__(self, ctx):
        self.ctx = ctx
        self.repo = ctx.repo
        self.cfg = TmCfg(self.repo)
        self.nodes = {}        # (kind, state, armed) -> set of (label, successor)
        self.cases = {}
        self.mod = self.cfg.mod
        self.cfg.reentrant = self.method('sendResponse')
        base = self.repo.cls('SipTransactionState')
        self.states = {c.name: c for c in base.all_subs()}
        for n in ('TRYING', 'RINGING', 'COMPLETED', 'CONFIRMED', 'TERMINATED', 'UACK'):
            if n not in self.states:
                raise AnchorError('transaction state %s not found' % n)

    def method(self, n):
        f = self.cfg.tm.find(n)
        if f is None:
            raise AnchorError('SipTransactionManager.%s not found' % n)
        return f

    def mk(self, kind, state, armed):
        st = State()
        inv = kind.endswith('INVITE')
        cl = kind.startswith('client')
        st.setfact(TM, Fact(none=False, truth=True))
        st.setfact(T, Fact(none=False, truth=True))
        st.setfact(CSUM, Fact(none=False, truth=True))
        st.setfact(S('t.checksum'), Fact(none=False, truth=True))
        st.sethp((TM, 'tclient'), TCLIENT)
        st.sethp((TM, 'tserver'), TSERVER)
        st.sethp((TM, 'l1rcache'), CACHE1)
        st.sethp((TM, 'l2rcache'), CACHE2)
        st.sethp((TM, 'provisional_retr'), S('tm.provisional_retr'))
        if state is not None:
            st.sethp((T, 'state'), ('C', state))
            st.sethp((T, 'needack'), TRUE if inv else FALSE)
            st.sethp((T, 'method'), K('INVITE') if inv else S('t.method'))
            st.setfact(S('t.method'), Fact(none=False, truth=True, ne=frozenset((K('INVITE'), K('ACK'), K('CANCEL')))))
            st.sethp((T, 'tid'), TID)
            st.sethp((T, 'tout'), K(2.0))
            for h in HANDLES:
                if h in armed:
                    st.sethp((T, h), S('t.' + h))
                    st.setfact(S('t.' + h), Fact(none=False, truth=True))
                else:
                    st.sethp((T, h), NONE)
            if cl:
                if not inv:
                    st.sethp((T, 'cancelPending'), FALSE)
                for a in ('ack', 'cancel'):
                    st.sethp((T, a), S('t.' + a) if inv else NONE)
                    if inv:
                        st.setfact(S('t.' + a), Fact(none=False, truth=True, inst=frozenset((self.cfg.req,))))
                st.setfact(S('t.data'), Fact(none=False, truth=True))
                st.setfact(S('t.r408'), Fact(none=False, truth=True))
            else:
                st.sethp((T, 'r487'), S('t.r487') if inv else NONE)
                if inv:
                    st.setfact(S('t.r487'), Fact(none=False, truth=True, inst=frozenset((self.cfg.resp,))))
                    st.sethp((S('t.r487'), '#code'), K(487))
                if state.name != 'TRYING':
                    st.setfact(S('t.data'), Fact(none=False, truth=True))
        return st

    def msg(self, st, name, code=None, method=None):
        m = S(name)
        st.setfact(m, Fact(none=False, truth=True, inst=frozenset((self.cfg.resp if code else self.cfg.req,))))
        if code:
            c = S('code')
            st.setfact(c, Fact(none=False, truth=True, lo=(code[1], False), hi=(code[2], False)))
            st.sethp((m, '#code'), c)
        if method is not None:
            v = K(method) if not method.startswith('<') else S('method')
            if method.startswith('<'):
                st.setfact(v, Fact(none=False, truth=True, ne=frozenset(K(x) for x in ('INVITE', 'ACK', 'CANCEL'))))
            st.sethp((m, '#method'), v)
        return m

    def case(self, kind, state, armed, label, fname, args, st, arg=None, lookup=None):
        c = TCase(self.cfg, kind, state, armed, label)
        c.entry = self.method(fname) if isinstance(fname, str) else fname
        c.arg = arg
        c.args = args
        if lookup is not None:
            st.sethp((TSERVER, '#lookup'), lookup)
            st.sethp((TCLIENT, '#lookup'), lookup)
        ip = Interp(self.repo, self.cfg)
        for s2, oc in ip.run(c.entry, TM, args, st=st):
            c.paths.append(TPath(c, s2, oc))
        self.ctx.visited(ip.visited)
        self.ctx.count('paths', len(c.paths))
        self.ctx.count('branch decisions', ip.nbranch)
        self.cases[(kind, state.name if state else None, armed, label)] = c
        return c

    def timer_cb(self, h):
        return 'timer' + h[-1]

    # every stimulus of a node
    def stimuli(self, kind, state, armed):
        out = []
        cl = kind.startswith('client')
        for h in sorted(armed):
            cb = self.timercb.get((kind, h))
            if cb is None:
                raise AnchorError('no callback known for timer %s of a %s transaction' % (h, kind))
            for f in cb:
                out.append(('expiry of %s' % f.name, 'timer', (h, f)))
        if cl:
            for r in RANGES:
                out.append(('response ' + r[0], 'resp', r))
            if kind.endswith('INVITE'):
                out.append(('cancellation', 'cancel', None))
                if state.name == 'UACK':
                    out.append(('deferred ACK', 'ack', None))
        else:
            for r in RANGES:
                out.append(('answer ' + r[0], 'answer', r))
            out.append(('retransmission', 'req', 'same'))
            out.append(('CANCEL', 'req', 'CANCEL'))
            if kind.endswith('INVITE'):
                out.append(('ACK', 'req', 'ACK'))
        return out

    def run(self, kind, state, armed, stim):
        label, what, arg = stim
        st = self.mk(kind, state, armed)
        if what == 'timer':
            h, f = arg
            st.sethp((S('t.' + h), '#cancelled'), TRUE)
            return self.case(kind, state, armed, label, f, [T], st, arg)
        if what == 'resp':
            m = self.msg(st, 'msg', code=arg)
            return self.case(kind, state, armed, label, 'incomingResponse', [m, T, CSUM], st, arg)
        if what == 'cancel':
            return self.case(kind, state, armed, label, 'cancelTransaction', [T, S('extra_headers')], st, arg)
        if what == 'ack':
            return self.case(kind, state, armed, label, 'sendACK', [T], st, arg)
        if what == 'answer':
            m = self.msg(st, 'resp', code=arg)
            return self.case(kind, state, armed, label, 'sendResponse', [m, T], st, arg)
        if what == 'req':
            if arg == 'same':
                meth = 'INVITE' if kind.endswith('INVITE') else '<other>'
                m = self.msg(st, 'msg', method=meth)
                if meth != 'INVITE':
                    st.sethp((m, '#method'), S('t.method'))
            else:
                m = self.msg(st, 'msg', method=arg)
            tids = ('T', (S('tid0'),))
            st.setfact(('OP', 'in', S('tid0'), TCLIENT, ('ver', 0)), Fact(truth=False))
            return self.case(kind, state, armed, label, 'incomingRequest', [m, CSUM, tids, S('server')], st, arg, lookup=T)
        raise AssertionError(what)

    def created(self, kind):
        """Paths creating a transaction of the given kind."""
        st = self.mk(kind, None, frozenset())
        meth = 'INVITE' if kind.endswith('INVITE') else '<other>'
        m = self.msg(st, 'msg', method=meth)
        if kind.startswith('client'):
            return self.case(kind, None, frozenset(), 'new', 'newTransaction', [m, S('resp_cb')], st)
        return self.case(kind, None, frozenset(), 'new', 'incomingRequest', [m, CSUM, ('T', (S('tid0'),)), S('server')], st,
                         lookup=NONE)

    def tobj(self, p):
        """The transaction object the path is about."""
        if p.case.state is not None:
            return T
        if p.case.kind.startswith('client') and p.oc[0] == 'ret' and p.oc[1][0] in ('O', 'S'):
            return p.oc[1]
        for e in p.events:
            if e.kind == 'call' and e.extra == 'new' and e.name == self.cfg.tr.name:
                return e.val
        return None

    def registration(self, p):
        """Replays the table operations of a path: keys under which the
        transaction is registered at the end, and bad operations."""
        table = TCLIENT if p.case.kind.startswith('client') else TSERVER
        t = self.tobj(p)
        reg = {TID} if p.case.state is not None else set()
        bad = []
        for e in p.events:
            if e.kind == 'setitem' and e.recv in (TCLIENT, TSERVER):
                if e.val == t:
                    if e.recv != table:
                        bad.append((e, 'registered in the table of the other side'))
                    reg.add(e.args[0])
            elif e.kind == 'delitem' and e.recv in (TCLIENT, TSERVER):
                if e.recv != table or e.args[0] not in reg:
                    bad.append((e, 'removes key %s, the transaction is registered under %s' % (
                        show(e.args[0]), [show(x) for x in reg])))
                reg.discard(e.args[0])
        return reg, bad

    def armed(self, p, t):
        return frozenset(h for h in HANDLES if (t, h) in p.st.heap and timer_status(p.st, t, h) != 'off')

    def note_timers(self, p, t):
        for h in HANDLES:
            v = p.st.heap.get((t, h))
            if v is not None and v[0] == 'O':
                cb = p.st.heap.get((v, '#cb'))
                fi = cb[2] if cb is not None and cb[0] == 'B' else None
                if fi is None:
                    raise AnchorError('timer %s has an unknown callback %s' % (h, show(cb) if cb else None))
                self.timercb.setdefault((p.case.kind, h), [])
                if fi not in self.timercb[(p.case.kind, h)]:
                    self.timercb[(p.case.kind, h)].append(fi)
                    self.redo = True

    def fixpoint(self):
        self.timercb = {}
        self.redo = True
        while self.redo:
            self.redo = False
            self.nodes = {}
            self.cases = {}
            todo = []

            def succ(p):
                if p.oc[0] == 'raise':
                    return None
                t = self.tobj(p)
                if t is None:
                    return None
                self.note_timers(p, t)
                reg, _ = self.registration(p)
                if not reg:
                    return ('removed',)
                sv = p.st.heap.get((t, 'state'))
                if sv is None or sv[0] != 'C':
                    raise AnchorError('transaction state unknown after %s' % p.case.name)
                return (p.case.kind, sv[1], self.armed(p, t))

            def add(n, label, src):
                if n is None:
                    return
                if src is not None:
                    self.nodes[src].add((label, n))
                if n not in self.nodes and n != ('removed',):
                    self.nodes[n] = set()
                    todo.append(n)
            for k in KINDS:
                c = self.created(k)
                for p in c.paths:
                    add(succ(p), 'new', None)
            while todo:
                n = todo.pop()
                for stim in self.stimuli(*n):
                    c = self.run(n[0], n[1], n[2], stim)
                    for p in c.paths:
                        add(succ(p), stim, n)
        self.ctx.count('transaction situations', len(self.nodes))
        self.ctx.count('stimulus cases', len(self.cases))
        return self
