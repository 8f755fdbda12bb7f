"""Call-leg model: which classes are the states of a leg, which stimuli a
state can receive, and an abstract environment for analysing one stimulus."""
import ast

from .repo import AnchorError, ClassInfo, Ext
from .interp import Interp, Cfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, AnalysisLimit

UA = S('ua')
PENDING = S('pendingINVITE')
TM = ('OP', 'idx', S('ua.global_config'), K('_sip_tm'))
OTHER = '<any other method>'

# requests a leg can see; the last one stands for every other method
METHODS = ('INVITE', 'BYE', 'REFER', 'INFO', 'OPTIONS', 'UPDATE')
CODES = (('100', 100, 100), ('101-199', 101, 199), ('200-299', 200, 299),
         ('300-399', 300, 399), ('400-699', 400, 699))
EVENTS = ('CCEventTry', 'CCEventRing', 'CCEventPreConnect', 'CCEventConnect', 'CCEventUpdate', 'CCEventInfo',
          'CCEventDisconnect', 'CCEventFail', 'CCEventRedirect')
TIMERS = ('expire_timer', 'no_progress_timer', 'no_reply_timer', 'credit_timer')


class LegCfg(Cfg):
    implicit = 'try'
    max_depth = 20
    max_states = 400000

    def __init__(self, repo, **kw):
        super().__init__(repo, **kw)
        self.ua_cls = repo.cls('UA')
        self.tm_cls = repo.cls('SipTransactionManager')
        self.state_base = repo.cls('UaStateGeneric')
        self.path_types = dict(self.path_types)
        self.path_types[UA] = self.ua_cls
        self.path_types[TM] = self.tm_cls
        self.attr_types = dict(self.attr_types)
        self.attr_types.setdefault('_sip_tm', self.tm_cls)
        self.event_base = repo.cls('CCEventGeneric')
        self.resp_cls = repo.cls('SipResponse')
        self.req_cls = repo.cls('SipRequest')
        self.opaque = {'update_ua', 'cleanup'}
        self.timer_mod = repo.mod('sippy.Time.Timeout')
        mods = {c.module for c in self.state_base.all_subs()} | {self.state_base.module, self.ua_cls.module,
                                                                   self.event_base.module}
        self.mods = mods
        self.baseline_opaque = ()

    def type_of_path(self, v):
        if v[0] == 'OP' and v[1] == 'idx' and v[3] == K('_sip_tm'):
            return self.tm_cls
        return None

    def inline(self, interp, st, fi, ev):
        if fi.name in self.opaque:
            return False
        if fi.module in self.mods:
            return True
        # anything moved out of the leg modules into a new one
        return fi.module.name not in BASE_MODULES and not fi.module.name.startswith('sippy.Sip')

    def may_raise(self, interp, st, ev):
        # failures of the media-description hooks and header lookups are what
        # the leg code guards against
        if ev.kind == 'call':
            return ev.name in ('on_remote_sdp_change', 'on_local_sdp_change', 'getHFBody', 'min') or \
                (ev.recv is None and ev.extra is not None and isinstance(ev.extra, tuple) and ev.extra[0] == 'S'
                 and ev.extra[1].endswith('_sdp_change'))
        return False

    def on_call(self, interp, st, ev):
        n = ev.name
        if n == 'getExtraHeaders':
            return [(st, S('eh(%s)' % show(ev.recv)))]
        if n == 'getMethod' and (ev.recv, '#method') in st.heap:
            return [(st, st.heap[(ev.recv, '#method')])]
        if n == 'getSCode' and (ev.recv, '#code') in st.heap:
            return [(st, ('T', (st.heap[(ev.recv, '#code')], S('reason'))))]
        if n == 'getCSeq' and ev.recv is not None:
            return [(st, ('T', (S('cseq'), S('cseq_method'))))]
        if n == 'genResponse' and ev.recv is not None:
            r = ('O', 'resp' + interp.site(st, ev.node), self.resp_cls)
            st.sethp((r, '#of'), ev.recv)
            st.sethp((r, '#code'), ev.arg(0, 'scode', S('rcode')))
            st.sethp((r, '#new'), TRUE)
            interp.emit(st, ev)
            return [(st, r)]
        if n == 'getCopy' and (ev.recv, '#of') in st.heap:
            r = ('O', 'rcopy' + interp.site(st, ev.node), self.resp_cls)
            st.sethp((r, '#of'), st.heap[(ev.recv, '#of')])
            if (ev.recv, '#code') in st.heap:
                st.sethp((r, '#code'), st.heap[(ev.recv, '#code')])
            return [(st, r)]
        if n == 'getCopy' and ev.recv is not None and not ev.args:
            c = interp.type_of(st, ev.recv)
            if not (c is not None and c is not self.resp_cls and hasattr(c, 'is_sub') and c.is_sub(self.event_base)):
                return [(st, ('OP', 'deepcopy', ev.recv))]
        if n == 'setSCode' and ev.args:
            st.sethp((ev.recv, '#code'), ev.args[0])
            interp.emit(st, ev)
            return [(st, NONE)]
        if ev.callee is not None and ev.callee.module is self.timer_mod and n.startswith('Timeout'):
            t = ('O', 'timer:' + ev.callee.name + '@' + interp.site(st, ev.node), Ext('Timer'))
            ev.val = t
            st.sethp((t, '#cb'), ev.arg(0, 'timeout_cb', NONE))
            interp.emit(st, ev)
            return [(st, t)]
        if n == 'cancel' and not ev.args and ev.recv is not None and ev.callee is None:
            st.sethp((ev.recv, '#cancelled'), TRUE)
            interp.emit(st, ev)
            return [(st, NONE)]
        return None


BASE_MODULES = set()


def freeze_modules(repo):
    """Modules of the SIP stack proper whose functions stay opaque for the leg
    analysis (message objects, timers, transport)."""
    BASE_MODULES.clear()
    for n in repo.modules:
        if n.split('.')[-1].startswith(('Sip', 'Sdp', 'ESip')) or n.startswith(('sippy.Time', 'sippy.Core', 'sippy.Rtp',
                                                                                'sippy.Security', 'sippy.UI')):
            BASE_MODULES.add(n)
    for n in ('sippy.MsgBody', 'sippy.Udp_server', 'sippy.Network_server', 'sippy.misc'):
        BASE_MODULES.add(n)


def states(repo):
    base = repo.cls('UaStateGeneric')
    subs = base.all_subs()
    # concrete states are the ones the code can actually enter
    conc = []
    for c in subs:
        if c.subclasses and c.name in ('UasStateGeneric', 'UasStateProgressing'):
            continue
        if not any(c.attrs.get(x) is not None for x in ('sname',)):
            continue
        conc.append(c)
    return sorted(conc, key=lambda c: c.name)


def state_timers(cls):
    """Timers a state starts when it is entered and keeps a handle of."""
    out = []
    for c in cls.repo_mro():
        for n in (x for f in c.methods.values() for x in ast.walk(f.node)):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                fn = n.value.func
                name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
                if name.startswith('Timeout'):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            out.append(t.attr)
    return out


def leg_state(repo, cls, cfg, extra=None):
    """Abstract store for a leg in the given state."""
    st = State()
    so = ('O', 'state', cls)
    st.sethp((UA, 'state'), so)
    st.sethp((so, 'ua'), UA)
    for a in state_timers(cls):
        st.sethp((so, a), S('state.' + a))
        st.setfact(S('state.' + a), Fact(none=False, truth=True))
    q = ('L', 'equeue')
    st.sethp((q, 'items'), ())
    st.sethp((UA, 'equeue'), q)
    for a in ('conn_cbs', 'disc_cbs', 'fail_cbs', 'ring_cbs', 'dead_cbs'):
        st.sethp((UA, a), ('T', (S('ua.%s[0]' % a), S('ua.%s[1]' % a))))
    st.sethp((UA, 'elast_seq'), NONE)
    st.sethp((UA, 'useRefer'), S('ua.useRefer'))
    st.setfact(S('ua.event_cb'), Fact(none=False, truth=True))
    st.setfact(S('ua.remote_ua'), Fact(none=False, truth=True))
    st.sethp((UA, 'rCSeq'), NONE)
    if phase(cls) in ('ended', 'dead'):
        st.setfact(S('ua.disconnect_ts'), Fact(none=False, truth=True))
    else:
        st.sethp((UA, 'disconnect_ts'), NONE)
    st.setfact(UA, Fact(none=False, truth=True))
    st.sethp((S('ua.uasResp'), '#of'), PENDING)
    st.sethp((S('ua.uasResp'), '#code'), S('lastcode'))
    return st, so


def mk_event(repo, st, name):
    c = repo.cls(name)
    e = ('O', 'event', c)
    st.sethp((e, 'rtime'), S('event.rtime'))
    st.sethp((e, 'origin'), S('event.origin'))
    st.sethp((e, 'seq'), S('event.seq'))
    st.sethp((e, 'data'), S('event.data'))
    for a in ('reason_rfc3326', 'extra_headers', 'max_forwards', 'challenges', 'warning'):
        st.sethp((e, a), S('event.' + a))
    st.setfact(S('event.rtime'), Fact(none=False, truth=True))
    return e


def mk_req(repo, st, method, name='req'):
    r = S(name)
    st.setfact(r, Fact(none=False, truth=True, inst=frozenset((repo.cls('SipRequest'),))))
    m = K(method) if method != OTHER else S('othermethod')
    if method == OTHER:
        st.setfact(m, Fact(none=False, truth=True, ne=frozenset(K(x) for x in METHODS + ('ACK', 'CANCEL'))))
    st.sethp((r, '#method'), m)
    st.sethp((r, 'rtime'), S(name + '.rtime'))
    st.setfact(S(name + '.rtime'), Fact(none=False, truth=True))
    return r


def mk_resp(repo, st, lo, hi, name='resp'):
    r = S(name)
    st.setfact(r, Fact(none=False, truth=True, inst=frozenset((repo.cls('SipResponse'),))))
    c = S('code') if lo != hi else K(lo)
    if lo != hi:
        st.setfact(c, Fact(none=False, truth=True, lo=(lo, False), hi=(hi, False)))
    st.sethp((r, '#code'), c)
    st.sethp((r, 'rtime'), S(name + '.rtime'))
    st.setfact(S(name + '.rtime'), Fact(none=False, truth=True))
    return r


# attributes of the leg the leg rules look at; states that agree on them (and
# on the effects performed so far) are joined
REL_ATTRS = frozenset(TIMERS + ('state', 'equeue', 'connect_ts', 'disconnect_ts', 'pending_tr', 'rSDP', 'lSDP',
                                'on_remote_sdp_change', 'on_local_sdp_change', 'event_cb', 'elast_seq', 'items',
                                'uack', 'late_media', 'needs_update', 'tr', 'te', 'ka_tr', 'conn_cbs', 'disc_cbs',
                                'fail_cbs', 'ring_cbs', 'dead_cbs', '#of', '#code', '#cancelled', '#cb', '#new', 'uasResp',
                                'reqs', 'reason_rfc3326', 'seq', 'credit_time', 'expire_time',
                                'no_progress_time', 'no_reply_time'))


class JoinCfg(LegCfg):
    join = True

    def rel_heap(self, key):
        return len(key) == 2 and key[1] in REL_ATTRS

    def rel_fact(self, v):
        if v and isinstance(v[0], tuple):
            v = v[0]
        if v[0] == 'S':
            p = v[1]
            if p in ('code', 'othermethod') or p.startswith(('body', 'resp.body')):
                return True
            last = p.rsplit('.', 1)[-1]
            return last in REL_ATTRS or 'genResponse' in p or '_sdp_change(' in p or 'getBody' in p
        return False

    def relevant(self, ev):
        if ev.kind == 'call':
            if ev.extra == 'inlined':
                return False
            return ev.name not in ('getHFBody', 'getHFBodys', 'countHFs', 'getUrl', 'getUri', 'getCopy', 'setTag', 'getTag',
                                   'getTAddr', 'reverse', 'append', 'pop', 'getSCode', 'getBody', 'getExtraHeaders',
                                   'getDomain', 'getOffsetCopy', 'MonoTime', 'write', 'print', 'genRandCSeq',
                                   'countHFs', 'appendHeader', 'update_ua', 'getHFs', 'getHF', 'getNum', 'getData')
        if ev.kind in ('set', 'delattr'):
            return ev.name in REL_ATTRS
        if ev.kind in ('raise', 'iraise', 'except'):
            return True
        return False


# ------------------------------------------------------------------ cases
ENDED = ('UaStateDisconnected', 'UaStateFailed', 'UacStateCancelling')
TERMINAL = ('CCEventDisconnect', 'CCEventFail', 'CCEventRedirect')


def phase(cls):
    """initial / early / established / ended / dead"""
    def flag(n):
        for c in cls.repo_mro():
            if n in c.attrs:
                v = c.attrs[n]
                return getattr(v, 'value', False) is True
        return False
    if flag('dead'):
        return 'dead'
    if cls.name in ENDED:
        return 'ended'
    if flag('connected'):
        return 'established'
    if cls.name.endswith('Idle'):
        return 'initial'
    return 'early'


def side(cls):
    return 'uac' if cls.name.startswith('Uac') else 'uas' if cls.name.startswith('Uas') else 'both'


class Path:
    """One abstract path through the handling of one stimulus."""

    def __init__(self, case, st, oc):
        self.case = case
        self.st = st
        self.oc = oc
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = self.st.events()
        return self._ev

    def end_cls(self):
        v = self.st.heap.get((UA, 'state'))
        return v[2] if v is not None and v[0] == 'O' else None

    def fact(self, v):
        return self.st.fact(v)

    def calls(self, name):
        return [e for e in self.events if e.kind == 'call' and e.name == name]

    def heap_at(self, ev, obj, attr, default=None):
        return ev.st[0].get((obj, attr), default)

    def wire(self):
        """Messages handed to the transaction layer, in order:
        ('resp', of, code, ev) ('req', method, ev) ('cancel', tr, ev) ('ack', tr, ev)"""
        out = []
        cfg = self.case.cfg
        for e in self.events:
            if e.kind != 'call' or e.callee is None or e.callee.cls is not cfg.tm_cls:
                continue
            if e.name == 'sendResponse':
                r = e.arg(0, 'resp')
                out.append(('resp', self.heap_at(e, r, '#of'), self.heap_at(e, r, '#code'), e))
            elif e.name == 'newTransaction':
                r = e.arg(0, 'msg')
                m = self.heap_at(e, r, ('#kw', 'method'))
                if m is None:
                    a = self.heap_at(e, r, '#args')
                    m = a[1][1] if a is not None and len(a[1]) > 1 else None
                out.append(('req', kval(m) if m is not None and is_k(m) else show(m), e))
            elif e.name == 'cancelTransaction':
                out.append(('cancel', e.arg(0, 't'), e))
            elif e.name == 'sendACK':
                out.append(('ack', e.arg(0, 't'), e))
        # an answer returned to the transaction layer by recvRequest
        if self.case.kind == 'req' and self.oc[0] == 'ret' and self.oc[1][0] == 'T' and self.oc[1][1]:
            r = self.oc[1][1][0]
            if not is_k(r):
                out.append(('resp', self.st.heap.get((r, '#of')), self.st.heap.get((r, '#code')), None))
        return out

    def code_is_final(self, code):
        """True/False/None for a response code value on this path"""
        if code is None:
            return None
        if is_k(code):
            return isinstance(kval(code), int) and kval(code) >= 200
        f = self.st.fact(code)
        if f.lo is not None and f.lo[0] >= 200:
            return True
        if f.hi is not None and (f.hi[0] < 200 or (f.hi[0] == 200 and f.hi[1])):
            return False
        return None

    def is_event(self, v):
        return v is not None and v[0] == 'O' and isinstance(v[2], ClassInfo) and v[2].is_sub(self.case.cfg.event_base)

    def reported(self):
        """Events handed to the controller or queued for it, in order,
        without repetition."""
        out = []
        q = self.case.queue
        for e in self.events:
            v = None
            if e.kind == 'call' and e.recv == q and e.name in ('append', 'insert', 'appendleft'):
                v = e.args[-1]
            elif e.kind == 'call' and self.is_delivery(e):
                v = e.args[0] if e.args else None
            if v is not None and v not in [x for x, _ in out]:
                out.append((v, e))
        return out

    def is_delivery(self, e):
        return e.kind == 'call' and isinstance(e.extra, tuple) and e.extra == S('ua.event_cb')

    def delivered(self):
        return [(e.args[0], e) for e in self.events if self.is_delivery(e) and e.args]

    def terminal(self):
        return [(v, e) for v, e in self.reported() if self.is_event(v) and any(
            c.name in TERMINAL for c in v[2].repo_mro())]

    def cb_calls(self, group):
        """Calls of the registered callbacks of a group (conn_cbs...)."""
        out = []
        for e in self.events:
            if e.kind == 'call' and isinstance(e.extra, tuple) and e.extra[0] == 'S' and                     e.extra[1].startswith('ua.%s[' % group):
                out.append(e)
        return out

    def timer(self, attr, obj=UA):
        """'off' | 'armed' | 'maybe' at the end of the path"""
        return timer_status(self.st, obj, attr)

    def where(self):
        for e in reversed(self.events):
            if e.fn is not None and e.kind in ('call', 'set') and (e.fn.cls is not None and e.fn.cls.is_sub(
                    self.case.cfg.state_base)):
                return e.where()
        return self.case.where()

    def lines(self):
        from .core import trace_lines
        return ['stimulus %s in state %s -> %s' % (self.case.label, self.case.cls.name if self.case.cls else '-',
                                                 self.end_cls().name if self.end_cls() else '?')] + trace_lines(self.events)


def timer_status(st, obj, attr):
    v = st.heap.get((obj, attr))
    if v is None:
        v = S('%s.%s' % (show(obj), attr))
    if is_k(v):
        return 'off'
    if st.heap.get((v, '#cancelled')) is not None:
        return 'off'
    f = st.fact(v)
    if f.none is True:
        return 'off'
    if v[0] == 'O':
        return 'armed'
    return 'armed' if f.none is False else 'maybe'


class Case:
    def __init__(self, cfg, cls, kind, label, queue):
        self.cfg = cfg
        self.cls = cls
        self.kind = kind
        self.label = label
        self.paths = []
        self.queue = queue
        self.entry = None

    def where(self):
        return self.entry.where() if self.entry else '?'

    @property
    def name(self):
        return '%s/%s' % (self.cls.name if self.cls else 'None', self.label)


class LegRuns:
    """All stimuli in all leg states, with the set of timers that may be armed
    on entry computed as a fixpoint over the state graph."""

    def __init__(self, ctx, cfg_cls=JoinCfg):
        self.ctx = ctx
        self.repo = ctx.repo
        freeze_modules(self.repo)
        self.cfg = cfg_cls(self.repo)
        self.states = states(self.repo)
        self.ua = self.repo.cls('UA')
        self.may = {c: {frozenset()} for c in self.states}
        self.cases = {}
        need = ('UasStateIdle', 'UacStateIdle', 'UaStateConnected', 'UaStateDead') + ENDED
        names = [c.name for c in self.states]
        for n in need:
            if n not in names:
                raise AnchorError('leg state %s not found' % n)

    def sorted_cases(self):
        return [x for k, x in sorted(self.cases.items(), key=lambda x: (x[0][0].name, x[0][1], sorted(x[0][2])))]

    def method(self, n):
        f = self.ua.find(n)
        if f is None:
            raise AnchorError('UA.%s not found' % n)
        return f

    def may_armed(self, cls):
        return frozenset().union(*self.may[cls])

    def stimuli(self, cls, armed=None):
        out = []
        if armed is None:
            armed = self.may_armed(cls)
        ph = phase(cls)
        for e in EVENTS:
            out.append(('event', e))
        for m in METHODS + (OTHER,):
            out.append(('req', m))
        for c in CODES:
            out.append(('resp', c))
        if ph == 'initial' and side(cls) == 'uas':
            # lives only for the duration of one INVITE
            return [x for x in out if x[0] == 'req']
        if ph != 'dead':
            out.append(('disconnect', None))
            for t in TIMERS:
                if t in armed:
                    out.append(('timer', t))
            out.append(('cancel', None))
            out.append(('noack', None))
            if ph == 'established':
                out.append(('ack', None))
            if ph in ('early', 'established'):
                out.append(('rsdp', False))
                out.append(('rsdp', True))
                out.append(('lsdp', False))
                out.append(('lsdp', True))
        return out

    def run(self, cls, stim, armed=frozenset(), pre_queue=(), seed=None, cfg=None):
        cfg = cfg or self.cfg
        repo = self.repo
        st, so = leg_state(repo, cls, cfg)
        q = st.heap[(UA, 'equeue')]
        if pre_queue:
            st.sethp((q, 'items'), tuple(pre_queue))
        for t in TIMERS:
            if t not in armed:
                st.sethp((UA, t), NONE)
            else:
                st.setfact(S('ua.' + t), Fact(none=False, truth=True))
        if seed is not None:
            seed(st)
        kind, arg = stim
        if kind == 'event':
            label, fi, args = arg, self.method('recvEvent'), [mk_event(repo, st, arg)]
        elif kind == 'req':
            label, fi, args = arg, self.method('recvRequest'), [mk_req(repo, st, arg), S('sip_t')]
            st.setfact(S('sip_t'), Fact(none=False, truth=True))
        elif kind == 'resp':
            label, fi, args = 'response ' + arg[0], self.method('recvResponse'), [mk_resp(repo, st, arg[1], arg[2]), S('tr')]
            st.setfact(S('tr'), Fact(none=False, truth=True))
        elif kind == 'disconnect':
            label, fi, args = 'disconnect()', self.method('disconnect'), []
        elif kind == 'timer':
            label = 'expiry of ' + arg
            args = [S('rtime')] if arg == 'credit_timer' else []
            fi = self.method(TIMER_FN[arg])
            st.setfact(S('ua.' + arg), Fact(none=False, truth=True))
            st.sethp((S('ua.' + arg), '#cancelled'), TRUE)   # it has fired
            st.setfact(S('rtime'), Fact(none=False, truth=True))
        elif kind == 'cancel':
            label = 'CANCEL'
            fi = cls.find('cancel')
            args = [S('rtime'), mk_req(repo, st, 'CANCEL')]
            st.setfact(S('rtime'), Fact(none=False, truth=True))
        elif kind == 'noack':
            label, fi, args = 'no ACK', self.method('disconnect'), []
        elif kind == 'ack':
            label, fi, args = 'ACK', self.method('recvACK'), [mk_req(repo, st, 'ACK')]
        elif kind == 'rsdp':
            label, fi = 'remote media update' + (' failed' if arg else ' done'), self.method('delayed_remote_sdp_update')
            args = [mk_event(repo, st, 'CCEventUpdate' if phase(cls) == 'established' else 'CCEventRing'), S('newbody')]
            if arg:
                args.append(S('ex'))
                st.setfact(S('ex'), Fact(none=False, truth=True))
        elif kind == 'lsdp':
            label, fi = 'local media update' + (' failed' if arg else ' done'), self.method('delayed_local_sdp_update')
            args = [mk_event(repo, st, 'CCEventConnect'), S('newbody')]
            if arg:
                args.append(S('ex'))
                st.setfact(S('ex'), Fact(none=False, truth=True))
        case = Case(cfg, cls, kind, label, q)
        case.arg = arg
        case.entry = fi
        case.state_obj = so
        case.args = args
        ip = Interp(repo, cfg)
        self_v = so if kind == 'cancel' else UA
        for s2, oc in ip.run(fi, self_v, args, st=st):
            case.paths.append(Path(case, s2, oc))
        self.ctx.visited(ip.visited)
        self.ctx.count('paths', len(case.paths))
        self.ctx.count('branch decisions', ip.nbranch)
        return case

    def fixpoint(self):
        """Least fixpoint of the may-armed relation."""
        dirty = [(c, frozenset()) for c in self.states]
        rounds = 0
        while dirty:
            rounds += 1
            if rounds > 40:
                raise AnchorError('timer fixpoint does not converge')
            todo, dirty = dirty, []
            for c, combo in todo:
                for stim in self.stimuli(c, combo):
                    case = self.run(c, stim, combo)
                    case.armed = combo
                    self.cases[(c, case.label, combo)] = case
                    for p in case.paths:
                        e = p.end_cls()
                        if e is None:
                            continue
                        if e not in self.may:
                            raise AnchorError('unknown leg state %s' % e)
                        armed = frozenset(t for t in TIMERS if p.timer(t) != 'off')
                        if phase(e) == 'dead' or p.oc[0] == 'raise':
                            continue
                        if armed not in self.may[e]:
                            self.may[e].add(armed)
                            dirty.append((e, armed))
        self.ctx.count('fixpoint rounds', rounds)
        self.ctx.count('stimulus cases', len(self.cases))
        return self


TIMER_FN = {'expire_timer': 'expires', 'no_progress_timer': 'no_progress_expires',
            'no_reply_timer': 'no_reply_expires', 'credit_timer': 'credit_expires'}
