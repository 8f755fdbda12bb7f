"""Model of the call controller: the real controller code between two legs
that behave as the leg properties say (callbacks on answer, end and release;
events in order), a scripted authorization result and routing list."""
import ast
from .repo import AnchorError, ClassInfo, Ext, FuncInfo
from .interp import State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, is_none, Raise
from .scen import SInterp, ScenCfg, build, step, must, mkexc

APP = ('sippy.b2bua', 'sippy.B2B.', 'sippy.CCEvents', 'sippy.FakeAccounting')
LIVE_A = ('UasStateTrying', 'UasStateRinging', 'UaStateConnected')
ENDED = ('UaStateFailed', 'UaStateDisconnected', 'UacStateCancelling')


def bindargs(fi, args, kw):
    """{parameter: value} of a call, self left out"""
    a = fi.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    if fi.cls is not None and not fi.is_static:
        ps = ps[1:]
    out = dict(zip(ps, args))
    out.update({k: v for k, v in dict(kw).items() if k not in ('*', '**')})
    if len(args) > len(ps) and a.vararg is not None:
        out['*'] = ('T', tuple(args[len(ps):]))
    return out


class BCfg(ScenCfg):
    unroll = 8
    max_depth = 30
    inline_mods = APP
    stub_routes = True
    auth_handle = NONE      # what do_auth returns

    def __init__(self, repo, routes=None, gc=None, **kw):
        super().__init__(repo, **kw)
        self.ua_cls = repo.cls('UA')
        self.rt_cls = repo.cls('B2BRoute')
        self.acct_cls = repo.cls('RadiusAccounting')
        # what an accounting object holds once it has been used
        self.acct_attrs = sorted({t.attr for m in self.acct_cls.methods.values() if m.name != '__init__' for n in ast.walk(m.node)
                                  if isinstance(n, (ast.Assign, ast.AugAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
                                  if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'})
        self.base = set(repo.modules)
        self.gc = gc or {}
        self.cells = routes or {}

    def inline(self, interp, st, fi, ev):
        n = fi.module.name
        if fi.cls is self.ua_cls or fi.cls is self.acct_cls or fi.cls is self.rt_cls and fi.name == 'getNHAddr' and self.stub_routes:
            return False
        return any(n.startswith(o) for o in self.inline_mods)

    # ---- the legs
    def ustate(self, st, u):
        v = st.heap.get((u, 'state'), NONE)
        return v[2].name if v[0] == 'O' else None

    def setstate(self, st, u, name):
        if name is None:
            st.sethp((u, 'state'), NONE)
            return
        st.sethp((u, 'state'), ('O', 'st:%s:%s' % (u[1], name), self.repo.cls(name)))

    def fire(self, interp, st, u, which, args):
        """run the callbacks of a group -> states"""
        cbs = st.heap.get((u, which))
        if cbs is None or is_none(cbs):
            return [st]
        items = interp.seq_items(cbs, st)
        if items is None:
            raise AnchorError('callbacks of a leg are not known')
        cur = [st]
        for cb in items:
            nxt = []
            for s in cur:
                if cb[0] == 'B' and cb[1][0] == 'O' and cb[1][2] is self.acct_cls:
                    s = s.copy()
                    self.acct(interp, s, cb[1], cb[2].name, [u] + list(args))
                    nxt.append(s)
                    continue
                for s2, o in interp.callv(s, cb, [u] + list(args)):
                    if o[0] == 'raise':
                        s2 = s2.copy()
                        s2.sethp('#raised', ('T', (K(which), o[1])))
                    nxt.append(s2)
            cur = nxt
        return cur

    def acct(self, interp, st, a, what, args):
        interp.emit(st, Ev('acct', what, recv=a, args=tuple(args)))
        for n in self.acct_attrs:
            st.sethp((a, n), S('acct.' + n))
        if what in ('conn', 'disc'):
            st.sethp((a, '#' + what), st.heap.get((a, '#' + what), ()) + (args[0] if args else NONE,))

    def emit_event(self, interp, st, u, cls, data=NONE):
        e = ('O', 'ev:' + u[1] + cls, self.repo.cls(cls))
        st = st.copy()
        st.sethp((e, 'data'), data)
        st.sethp((e, 'rtime'), S('rtime'))
        interp.emit(st, Ev('emit', cls, recv=u, args=(e,)))
        cb = st.heap.get((u, 'event_cb'), NONE)
        out = []
        for s, o in interp.callv(st, cb, [e, u]):
            if o[0] == 'raise':
                s = s.copy()
                s.sethp('#raised', ('T', (K('event'), o[1])))
            out.append(s)
        return out

    def end_leg(self, interp, st, u, name, which):
        st = st.copy()
        self.setstate(st, u, name)
        return self.fire(interp, st, u, which, [S('rtime'), S('origin')] + ([S('result')] if which == 'fail_cbs' else []))

    def ua_event(self, interp, st, ev):
        """what a leg does when the controller hands it an event"""
        u, e = ev.recv, ev.args[0]
        kind = e[2].name if e[0] == 'O' and isinstance(e[2], ClassInfo) else None
        if kind is None:
            raise AnchorError('event given to a leg is not known')
        interp.emit(st, ev)
        cur = self.ustate(st, u)
        if cur is None:
            if kind == 'CCEventTry':
                self.setstate(st, u, 'UacStateTrying')
            return [(st, NONE)]
        if cur in ENDED or cur == 'UaStateDead':
            return [(st, NONE)]
        if kind in ('CCEventFail', 'CCEventDisconnect', 'CCEventRedirect'):
            if cur == 'UaStateConnected':
                r = self.end_leg(interp, st, u, 'UaStateDisconnected', 'disc_cbs')
            elif cur.startswith('Uac'):
                r = self.end_leg(interp, st, u, 'UacStateCancelling', 'disc_cbs')
            else:
                r = self.end_leg(interp, st, u, 'UaStateFailed', 'fail_cbs')
            return [(s, NONE) for s in r]
        if kind == 'CCEventConnect' and cur != 'UaStateConnected':
            st = st.copy()
            self.setstate(st, u, 'UaStateConnected')
            return [(s, NONE) for s in self.fire(interp, st, u, 'conn_cbs', [S('rtime'), S('origin')])]
        if kind == 'CCEventRing' and cur == 'UasStateTrying':
            self.setstate(st, u, 'UasStateRinging')
        return [(st, NONE)]

    def leg_disconnect(self, interp, st, u):
        """the leg is told to go: it ends and says so"""
        cur = self.ustate(st, u)
        if cur is None or cur in ENDED or cur == 'UaStateDead':
            return [st]
        if cur == 'UaStateConnected':
            r = self.end_leg(interp, st, u, 'UaStateDisconnected', 'disc_cbs')
        elif cur.startswith('Uac'):
            r = self.end_leg(interp, st, u, 'UacStateCancelling', 'disc_cbs')
        else:
            r = self.end_leg(interp, st, u, 'UaStateFailed', 'fail_cbs')
        out = []
        for s in r:
            out += self.emit_event(interp, s, u, 'CCEventDisconnect')
        return out

    # ---- everything else the controller calls
    def on_call2(self, interp, st, ev):
        n, r = ev.name, ev.recv
        if ev.extra == 'new':
            c = ev.val[2] if ev.val is not None and ev.val[0] == 'O' else r[1] if r is not None and r[0] == 'C' else None
            if c is None:
                for x in (self.ua_cls, self.rt_cls, self.acct_cls):
                    if x.name == n:
                        c = x
            if c is not None and isinstance(c, ClassInfo) and (c is self.ua_cls or c.is_sub(self.ua_cls)):
                o = ('O', 'leg%d' % st.heap.get('#legs', 0), c)
                st.sethp('#legs', st.heap.get('#legs', 0) + 1)
                for k, v in bindargs(self.ua_cls.find('__init__'), ev.args, ev.kw).items():
                    st.sethp((o, k), v)
                st.sethp((o, 'state'), NONE)
                ev.val = o
                interp.emit(st, ev)
                return [(st, o)]
            if c is self.acct_cls:
                o = ('O', 'acct%d' % st.heap.get('#accts', 0), c)
                st.sethp('#accts', st.heap.get('#accts', 0) + 1)
                for k, v in bindargs(self.acct_cls.find('__init__'), ev.args, ev.kw).items():
                    st.sethp((o, '#' + k), v)
                ev.val = o
                interp.emit(st, ev)
                return [(st, o)]
            if c is self.rt_cls and self.stub_routes and ev.args and is_k(ev.args[0]):
                ev.val = None
                interp.emit(st, ev)
                return self.mkroute(interp, st, kval(ev.args[0]))
            if c is not None and isinstance(c, ClassInfo) and c.module.name.startswith('sippy.Rtp_proxy'):
                o = ('O', 'session', c)
                for h in ('callee', 'caller'):
                    st.sethp((o, h), S('session.' + h))
                interp.emit(st, ev)
                return [(st, o)]
        if r is not None and r[0] == 'D' and n == 'getdefault' and len(ev.args) == 2:
            m = st.heap.get((r, 'map'))
            return interp.dict_get(st, m, ev.args[0], ev.args[1], ev.node, None)
        if r is not None and r[0] == 'O' and isinstance(r[2], ClassInfo):
            c = r[2]
            if c is self.ua_cls or c.is_sub(self.ua_cls):
                if n == 'recvEvent':
                    return self.ua_event(interp, st, ev)
                if n == 'disconnect':
                    interp.emit(st, ev)
                    return [(s, NONE) for s in self.leg_disconnect(interp, st, r)]
                if n in ('getRAddr0',):
                    interp.emit(st, ev)
                    return [(st, ('T', (('T', (S('addr_h'), S('addr_p'))), S('addr_t'))))]
            if c is self.rt_cls:
                if n == 'getNHAddr' and self.stub_routes:
                    interp.emit(st, ev)
                    return [(st, ('T', (S('nh:' + r[1]), TRUE)))]
            if c is self.acct_cls:
                b = bindargs(ev.callee, ev.args, ev.kw) if ev.callee is not None else {}
                if n in ('conn', 'disc'):
                    self.acct(interp, st, r, n, ev.args)
                    return [(st, NONE)]
                if n == 'setParams':
                    interp.emit(st, ev)
                    for k, v in b.items():
                        st.sethp((r, '#' + k), v)
                    return [(st, NONE)]
        if n == 'Timeout' and ev.callee is not None:
            t = ('O', 'timer' + interp.site(st, ev.node), Ext('Timer'))
            ev.val = t
            st.sethp('#timers', st.heap.get('#timers', ()) + ((t,) + tuple(ev.args),))
            interp.emit(st, ev)
            return [(st, t)]
        if n == 'do_auth':
            interp.emit(st, ev)
            b = bindargs(self.repo.cls('RadiusAuthorisation').find('do_auth'), ev.args, ev.kw)
            st.sethp('#auth', b.get('res_cb', NONE))
            st.sethp('#authargs', tuple(sorted(b.items())))
            return [(st, self.auth_handle)]
        if n == 'cancel' and r is not None and r == self.auth_handle:
            interp.emit(st, ev)
            st.sethp('#auth', NONE)
            return [(st, NONE)]
        if n == 'MonoTime' and ev.extra == 'new':
            return [(st, S('now'))]
        return None

    def mkroute(self, interp, st, name):
        spec = self.cells.get(name)
        if spec == 'raise':
            return [(st, Raise(mkexc(st, 'builtins.ValueError')))]
        st = st.copy()
        o = ('O', 'route:' + name, self.rt_cls)
        d = dict(hostport=S(name + '.hostport'), hostonly=S(name + '.hostonly'), user=S(name + '.user'), passw=S(name + '.passw'),
                 pass_auth=S(name + '.pass_auth'), credit_time=S(name + '.credit_time'), expires=S(name + '.expires'),
                 no_progress_expires=S(name + '.npe'), no_reply_expires=S(name + '.nre'), forward_on_fail=FALSE,
                 extra_headers=S(name + '.eh'), rnum=NONE, _cli=S(name + '.cli'), _cld=S(name + '.cld'), cli=S(name + '.cli'), cld=S(name + '.cld'))
        params = {}
        for k, v in (spec or {}).items():
            if k == 'params':
                params = v
            else:
                d[k] = v
                if k in ('cli', 'cld'):
                    d['_' + k] = v
        for k, v in d.items():
            st.sethp((o, k), v)
        p = ('D', 'params:' + name)
        st.sethp((p, 'map'), tuple((K(k), v) for k, v in params.items()))
        st.sethp((o, 'params'), p)
        for k in ('credit_time', 'expires'):
            if d[k][0] == 'S':
                st.setfact(d[k], Fact(none=False, truth=True, lo=(1, False)))
        st.setfact(('OP', 'add', S('eh'), S('eh')), Fact())
        return [(st, o)]


GC = dict(auth_enable=TRUE, acct_enable=TRUE, start_acct_enable=FALSE, keepalive_ans=K(0), keepalive_orig=K(0), digest_auth=TRUE,
          _uaname=S('uaname'))


def gconf(st, **kw):
    """the configuration, a complete dictionary"""
    d = ('D', 'config')
    m = dict(GC)
    m.update({k: v for k, v in kw.items() if v is not None})
    m = {k: v for k, v in m.items() if v != 'absent'}
    m.setdefault('_radius_client', ('O', 'radius', Ext('Radius')))
    cm = ('O', 'cmap', Ext('CallMap'))
    m.setdefault('_cmap', cm)
    st.sethp((d, 'map'), tuple((K(k), v) for k, v in m.items()))
    return d


def controller(repo, cfg, challenge=NONE, eargs=None, **gc):
    """A controller whose caller leg exists and waits in the Trying state, its
    call registered; nothing has been handed to it yet."""
    ci = repo.cls('sippy.b2bua.CallController')
    I = SInterp(repo, cfg)
    st = State()
    d = gconf(st, **gc)
    cm = dict((kval(k), v) for k, v in st.heap[(d, 'map')])['_cmap']
    st.sethp((cm, 'debug_mode'), FALSE)
    lst = ('L', 'ccmap')
    init = ci.find('__init__')
    ps = [a.arg for a in init.node.args.args][1:]
    args = []
    for p in ps:
        args.append(eargs[p] if eargs and p in eargs else d if p == 'global_config' else ('T', (K('192.0.2.9'), K(5060))) if p == 'source' else S('arg.' + p))
    st.sethp((lst, 'items'), ())
    st.sethp((cm, 'ccmap'), lst)
    st, cc = build(I, st, ci, args, tag='cc')
    legs = [k[0] for k in st.heap if isinstance(k, tuple) and len(k) == 2 and k[1] == 'event_cb']
    if len(legs) != 1:
        raise AnchorError('the controller does not create exactly one leg of the caller')
    a = legs[0]
    cfg.setstate(st, a, 'UasStateTrying')
    st.sethp((lst, 'items'), (cc,))
    st.sethp((cc, 'challenge'), challenge)
    return I, st, cc, a, lst


def leg_of(st, cc, skip):
    """attribute of the controller that holds the current outgoing leg"""
    for k, v in st.heap.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] == cc and isinstance(v, tuple) and v[0] == 'O' and v != skip and \
                (v, 'event_cb') in st.heap:
            return v
    return None


def legs(st):
    return sorted({k[0] for k in st.heap if isinstance(k, tuple) and len(k) == 2 and k[1] == 'event_cb'}, key=lambda o: o[1])


def try_event(I, st, repo, auth=NONE, cld=S('cld'), mf=None):
    e = ('O', 'try', repo.cls('CCEventTry'))
    st = st.copy()
    st.sethp((e, 'data'), ('T', (S('cId'), S('cli'), cld, S('body'), auth, S('caller_name'))))
    st.sethp((e, 'rtime'), S('rtime'))
    if mf is not None:
        st.sethp((e, 'max_forwards'), mf)
    st.setfact(S('cld'), Fact(none=False, truth=True))
    st.setfact(S('cli'), Fact(none=False, truth=True))
    st.setfact(S('body'), Fact(none=False, truth=True))
    return st, e


def result(*routes, code=0, extra=()):
    pairs = [('T', (K('h323-ivr-in'), K('Routing:' + r))) for r in routes]
    pairs += [('T', (K(a), K(v))) for a, v in extra]
    return ('T', (('T', tuple(pairs)), K(code) if isinstance(code, int) else code))


# ---- the table of calls and the signals the process gets
def sig_hook(repo, interp, st, ev):
    """Signal(number, callback, args...) and Timeout(callback, ival, nticks, args...) are noted"""
    n = ev.name
    if n == 'Signal' and ev.extra == 'new' or n == 'LogSignal':
        a = list(ev.args)[1 if n == 'LogSignal' else 0:]
        st.sethp('#signals', st.heap.get('#signals', ()) + ((a[0][1].split('.')[-1] if a[0][0] == 'X' else show(a[0]), a[1], tuple(a[2:])),))
        interp.emit(st, ev)
        return [(st, ('O', 'signal%d' % len(st.heap['#signals']), Ext('Signal')))]
    if n in ('Timeout', 'TimeoutInact') and ev.callee is not None:
        b = dict(zip(('cb', 'ival', 'nticks'), ev.args))
        b.update({k: v for k, v in ev.kw if k in ('ival', 'nticks')})
        i = len(st.heap.get('#clock', ()))
        t = ('O', 'timer%d' % i, Ext('Timer'))
        st.sethp((t, 'ival'), b['ival'])
        st.sethp((t, 'on'), True)
        st.sethp('#clock', st.heap.get('#clock', ()) + ((t, b['cb'], b['ival'], b.get('nticks', K(1)), tuple(ev.args[3:])),))
        interp.emit(st, ev)
        return [(st, t)]
    r = ev.recv
    if n == 'cancel' and r is not None and r[0] == 'O' and (r, 'on') in st.heap:
        st.sethp((r, 'on'), False)
        interp.emit(st, ev)
        return [(st, NONE)]
    return None


def callmap(repo, I, st, conf):
    """the table of calls, through its constructor"""
    cm = repo.cls('sippy.b2bua.CallMap')
    st, o = build(I, st, cm, [conf], tag='callmap')
    if len(st.heap.get('#signals', ())) < 3:
        raise AnchorError('the table of calls does not register for the signals it handles')
    lst = st.heap.get((o, 'ccmap'), NONE)
    if lst[0] != 'L':
        raise AnchorError('the table of calls is not a list')
    return st, o, lst


def signalled(I, st, name):
    """the process gets a signal -> [(state, outcome)]"""
    h = [x for x in st.heap.get('#signals', ()) if x[0] == name]
    if not h:
        raise AnchorError('nobody handles ' + name)
    return I.callv(st.copy(), h[-1][1], list(h[-1][2]))
