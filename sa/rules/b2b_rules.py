"""B01-B06: admission, accounting, call lifecycle, hop limit, route
parameters and control commands of the back-to-back user agent."""
import re

from ..b2b import (BCfg, APP, ENDED, LIVE_A, bindargs, controller, gconf, legs, try_event, result, GC, sig_hook, callmap, signalled)
from ..scen import (SInterp, ScenCfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise, build, step, drain, must,
                    mkexc, ClassInfo, Ext, FuncInfo, AnchorError)
from .loop_rules import lines

DEAD = 'UaStateDead'
CLD = K('100')


class Ctl:
    """Every history of one call: the caller leg, the attempts, the answer of
    the authorization server, timers and the administrator."""

    cfg_cls = BCfg

    def __init__(self, repo, name, spec, results=(), auth_handle=NONE, mf=None, cld=CLD, tryauth=NONE, challenge=NONE, budget=6000, admin=True, eargs=None, **gc):
        self.repo, self.name = repo, name
        self.spec = spec
        self.results = results
        self.mf = mf
        self.cfg = self.cfg_cls(repo, routes=spec)
        self.cfg.auth_handle = auth_handle
        self.gc = gc
        self.admin = admin
        self.budget = budget
        self.I, st, self.cc, self.a, self.lst = controller(repo, self.cfg, challenge=challenge, eargs=eargs, **self.prep(gc))
        st, self.e = try_event(self.I, st, repo, auth=tryauth, cld=cld, mf=mf)
        self.init = st
        self.seen = {}
        self.steps = 0
        self.states = 0

    def prep(self, gc):
        return gc

    # ---- views
    def us(self, st, u):
        return self.cfg.ustate(st, u)

    def olegs(self, st):
        """attempts that came to life, in order"""
        return [u for u in legs(st) if u != self.a and self.us(st, u) is not None]

    def live(self, st, u):
        s = self.us(st, u)
        return s is not None and s not in ENDED and s != DEAD

    def registered(self, st):
        return [x for x in st.heap.get((self.lst, 'items'), ()) if x == self.cc]

    def accts(self, st):
        return sorted({k[0] for k in st.heap if isinstance(k, tuple) and len(k) == 2 and k[1] == '#origin' and k[0][0] == 'O'},
                      key=lambda o: o[1])

    def key(self, st):
        hs = []
        for k, v in st.heap.items():
            if isinstance(k, tuple) and len(k) == 2:
                o = k[0]
                if o == self.cc and k[1] not in ('cId',) or k[1] in ('state', 'items', '#conn', '#disc') or \
                        o[0] == 'O' and o[1].startswith('route:'):
                    hs.append((show(o), str(k[1]), show(v) if isinstance(v, tuple) and len(v) and isinstance(v[0], str) else repr(v)))
            elif k in ('#auth', '#timers', '#tgone', '#done'):
                hs.append(('', k, repr(v)))
        return tuple(sorted(hs))

    # ---- stimuli
    def stimuli(self, st):
        cfg, I, a = self.cfg, self.I, self.a
        out = []
        if '#try' not in st.heap:
            def f(s):
                s.sethp('#try', True)
                return self.via(I.callv(s, st.heap[(a, 'event_cb')], [self.e, a]))
            return [('the caller calls', f)]
        cb = st.heap.get('#auth', NONE)
        if cb != NONE:
            for nm, res in self.results:
                def f(s, res=res):
                    s.sethp('#auth', NONE)
                    return self.via(I.callv(s, cb, [res]))
                out.append(('authorization answers: ' + nm, f))
        if self.live(st, a):
            out.append(('the caller leaves', lambda s: self.leave(s, a, 'CCEventDisconnect', NONE)))
        for i, u in enumerate(self.olegs(st)):
            if not self.live(st, u):
                continue
            n = 'attempt %d ' % (i + 1)
            cur = self.us(st, u)
            if cur == 'UaStateConnected':
                out.append((n + 'hangs up', lambda s, u=u: self.leave(s, u, 'CCEventDisconnect', NONE)))
                out.append((n + 'updates', lambda s, u=u: cfg.emit_event(I, s, u, 'CCEventUpdate', S('sdp'))))
                if self.us(st, a) == 'UaStateConnected':
                    out.append(('the caller updates', lambda s: cfg.emit_event(I, s, a, 'CCEventUpdate', S('sdp'))))
                continue
            for code in (486, 503):
                out.append((n + 'fails with %d' % code, lambda s, u=u, code=code: self.leave(
                    s, u, 'CCEventFail', ('T', (K(code), S('reason'))))))
            out.append((n + 'redirects', lambda s, u=u: self.leave(s, u, 'CCEventRedirect', ('T', (K(302), S('reason'), NONE, S('url'))))))
            out.append((n + 'expires', lambda s, u=u: self.leave(s, u, 'CCEventDisconnect', NONE)))
            if cur == 'UacStateTrying':
                out.append((n + 'rings', lambda s, u=u: self.progress(s, u)))
            out.append((n + 'answers', lambda s, u=u: self.answer(s, u)))
        for u in legs(st):
            if self.us(st, u) in ENDED:
                who = 'the caller' if u == a else 'attempt %d' % (self.olegs(st).index(u) + 1)
                out.append((who + ' is released', lambda s, u=u: self.release(s, u)))
        tm = st.heap.get('#timers', ())
        gone = st.heap.get('#tgone', ())
        for i, t in enumerate(tm):
            if i in gone:
                continue

            def f(s, t=t, i=i):
                s.sethp('#tgone', gone + (i,))
                args = list(t[4:]) if len(t) > 4 else []
                return self.via(I.callv(s, t[1], args))
            out.append(('the group timer %d expires' % (i + 1), f))
        if self.admin and self.registered(st) and '#admin' not in st.heap:
            def f(s):
                s.sethp('#admin', True)
                return self.via(I.run(must(self.repo, self.cc[2], 'disconnect'), self.cc, [], None, s))
            out.append(('the administrator disconnects the call', f))
        return out

    def via(self, r):
        out = []
        for s, o in r:
            if o[0] == 'raise':
                s = s.copy()
                s.sethp('#raised', ('T', (K('call'), o[1])))
            out.append(s)
        return out

    def leave(self, s, u, cls, data):
        which, name = 'disc_cbs', 'UaStateDisconnected'
        if cls in ('CCEventFail', 'CCEventRedirect'):
            which, name = 'fail_cbs', 'UaStateFailed'
        out = []
        for s2 in self.cfg.end_leg(self.I, s, u, name, which):
            out += self.cfg.emit_event(self.I, s2, u, cls, data)
        return out

    def progress(self, s, u):
        s = s.copy()
        self.cfg.setstate(s, u, 'UacStateRinging')
        return self.cfg.emit_event(self.I, s, u, 'CCEventRing', ('T', (K(180), S('reason'), NONE)))

    def answer(self, s, u):
        s = s.copy()
        self.cfg.setstate(s, u, 'UaStateConnected')
        out = []
        for s2 in self.cfg.fire(self.I, s, u, 'conn_cbs', [S('rtime'), S('origin')]):
            out += self.cfg.emit_event(self.I, s2, u, 'CCEventConnect', ('T', (K(200), S('reason'), S('sdp'))))
        return out

    def release(self, s, u):
        s = s.copy()
        self.cfg.setstate(s, u, DEAD)
        return self.cfg.fire(self.I, s, u, 'dead_cbs', [])

    # ---- exploration
    def explore(self, check):
        todo = [(self.init, ())]
        self.seen[self.key(self.init)] = 1
        while todo:
            st, hist = todo.pop(0)
            self.states += 1
            if self.states > self.budget:
                raise AnchorError('the life of a call has more than %d situations' % self.budget)
            for nm, f in self.stimuli(st):
                pre = st.copy()
                pre.trace = None
                s0 = pre.copy()
                for k in ('#raised',):
                    if k in s0.heap:
                        s0.sethp(k, NONE)
                for s in f(s0):
                    self.steps += 1
                    h = hist + (nm,)
                    check(self, pre, nm, s, h)
                    k = self.key(s)
                    if k not in self.seen:
                        self.seen[k] = 1
                        s = s.copy()
                        s.trace = None
                        todo.append((s, h))


def given(evs, u):
    """events handed to a leg"""
    return [e.args[0] for e in evs if e.kind == 'call' and e.name == 'recvEvent' and e.recv == u]


def kind(e):
    return e[2].name if e[0] == 'O' and isinstance(e[2], ClassInfo) else '?'


R3 = {'r1': {'huntstop': (486,)}, 'r2': {}, 'r3': {}}


def rspec(**d):
    """routes as the parser leaves them"""
    out = {}
    for n, x in d.items():
        if x == 'raise':
            out[n] = x
            continue
        p = {}
        if 'hs' in x:
            p['huntstop_scodes'] = ('T', tuple(K(c) for c in x['hs']))
        if 'gt' in x:
            p['gt'] = K(x['gt'])
        for k in ('bill-to', 'bill-cli', 'bill-cld'):
            if k in x:
                p[k] = x[k]
        r = dict(credit_time=x.get('credit', K(100)), expires=x.get('expires', K(60)), crt_set=TRUE, cld_set=TRUE, cli_set=TRUE,
                 extra_headers=NONE, params=p)
        if x.get('fof'):
            r['forward_on_fail'] = TRUE
        out[n] = r
        r['hostport'] = r['hostonly'] = K(n + '.example.com')
    return out


def worlds(repo, thorough=False):
    """(Ctl, order of routes, hunt-stop codes)"""
    rej = ('refused', result('r1', code=1))
    err = ('no answer', ('T', (('T', ()), K(-1))))
    one = dict(r1={})
    three = dict(r1=dict(hs=(486,)), r2={}, r3={})

    def mk(name, d, extra=(), **kw):
        c = Ctl(repo, name, rspec(**d), **kw)
        names = list(d)
        d = {n: x for n, x in d.items() if x != 'raise'}
        c.hs = {n: x.get('hs', ()) for n, x in d.items()}
        c.fof = {n for n, x in d.items() if x.get('fof')}
        c.numbered = names
        c.order = [n for n in d if d[n].get('expires', 1) != K(0)]
        return c
    rr = lambda *n: result(*n)
    yield mk('three routes', three, results=[('granted', rr('r1', 'r2', 'r3')), rej, err])
    yield mk('one route, cancellable authorization', one, results=[('granted', rr('r1')), rej], auth_handle=('O', 'auth', Ext('Work')))
    yield mk('route groups', dict(r1=dict(gt='10,2'), r2={}, r3={}), results=[('granted', rr('r1', 'r2', 'r3'))])
    yield mk('last route group', dict(r1=dict(gt='10,2'), r2={}), results=[('granted', rr('r1', 'r2'))])
    yield mk('group up to an expired route', dict(r1=dict(gt='10,2'), r2={}, r3=dict(expires=K(0)), r4={}),
             results=[('granted', rr('r1', 'r2', 'r3', 'r4'))])
    yield mk('group beyond the list', dict(r1=dict(gt='10,5'), r2={}), results=[('granted', rr('r1', 'r2'))])
    yield mk('expired routes only', dict(r1=dict(expires=K(0)), r2=dict(credit=K(0))), results=[('granted', rr('r1', 'r2'))])
    yield mk('no route', dict(r1={}), results=[('granted without routes', rr())])
    yield mk('malformed route', dict(bad='raise'), results=[('granted, unusable route', rr('bad'))])
    yield mk('malformed route between good ones', dict(r1={}, bad='raise', r2={}), results=[('granted', rr('r1', 'bad', 'r2'))])
    yield mk('malformed credit time', dict(r1={}), results=[('granted, unusable', result('r1', extra=(('h323-credit-time', 'x'),)))])
    yield mk('no called number', dict(r1={}), results=[('granted', rr('r1'))], cld=NONE)
    yield mk('failed calls billed elsewhere', dict(r1=dict(fof=1), r2={}), results=[('granted', rr('r1', 'r2'))], acct_enable=TRUE)
    yield mk('no accounting', dict(r1={}, r2={}), results=[('granted', rr('r1', 'r2'))], acct_enable=FALSE)


def b03(ctx):
    ctx.rule = '''Every history of one call through the controller, the legs behaving as the leg rules establish: at most one attempt
alive, the next one only after a failure that allows it, everything else passed on to the other leg exactly once, both legs ending
together, the call leaving the call map exactly once when both are released, no exception.'''
    n = 0
    for w in worlds(ctx.repo, ctx.thorough):
        w.explore(lambda *a: b03_step(ctx, *a))
        ctx.count('situations', w.states)
        ctx.count('transitions', w.steps)
        ctx.count('configurations')
        ctx.visited(w.I.visited)
        ctx.sample('%s: %d situations, %d transitions' % (w.name, w.states, w.steps))
    ctx.floor('configurations', 14)
    ctx.floor('transitions', 800)


def b03_step(ctx, w, pre, nm, s, hist):
    evs = s.events()
    a = w.a
    where = w.cc[2].find('recvEvent').where()
    H = ' -> '.join(hist)

    def ck(ok, key, msg):
        ctx.check(ok, 'call:%s:%s' % (w.name.replace(' ', '-'), key), where, '%s [%s; %s]' % (msg, w.name, H), lines(s) if not ok else ())
    r = s.heap.get('#raised', NONE)
    ck(r == NONE, 'exception', 'an exception escapes from the controller: %s' % (show(r) if r != NONE else ''))
    ol = w.olegs(s)
    pl = w.olegs(pre)
    new = [u for u in ol if u not in pl]
    alive = [u for u in ol if w.live(s, u)]
    ck(len(alive) <= 1, 'two-attempts', 'two attempts are alive at the same time')
    ck(len(new) <= 1 or not alive or True, 'x', '')
    # no attempt without a caller who waits
    if new:
        ck(w.us(pre, a) in ('UasStateTrying', 'UasStateRinging'), 'attempt-without-caller', 'an attempt is made although the caller does not wait')
    # one-legged calls
    waiting = s.heap.get('#auth', NONE) != NONE
    if not w.live(s, a) and '#try' in s.heap:
        ck(not alive, 'callee-left-behind', 'the caller leg has ended and the attempt goes on')
    if w.live(s, a) and not waiting:
        ck(bool(alive), 'caller-left-behind', 'the caller leg lives on with nothing under way for it')
    # hunting and relaying
    src = None
    for u in [a] + pl:
        em = [e for e in evs if e.kind == 'emit' and e.recv == u]
        if not em:
            continue
        for x in em:
            ev, k = x.args[0], x.name
            if u == a:
                if k == 'CCEventTry':
                    continue
                for o in pl:
                    if w.live(pre, o):
                        ck(len([g for g in given(evs, o) if g == ev]) == 1, 'relay-to-callee',
                           'what the caller does (%s) is not passed to the attempt exactly once' % k)
                continue
            term = k in ('CCEventFail', 'CCEventDisconnect')
            # routes not yet tried, in order
            if term and w.us(pre, a) in ('UasStateTrying', 'UasStateRinging') and x is em[0]:
                src = (u, ev, k)
                continue
            if w.live(pre, a):
                ck(len([g for g in given(evs, a) if g == ev]) == 1, 'relay-to-caller',
                   'what the attempt does (%s) is not passed to the caller exactly once' % k)
    if src is not None:
        u, ev, k = src
        rnow = route_of(w, pre, u)
        left = [n for n in w.order if n not in [route_of(w, s, x) for x in pl]]
        code = s.heap.get((ev, 'data'), NONE)
        code = kval(code[1][0]) if code[0] == 'T' and is_k(code[1][0]) else None
        stop = code is not None and code in w.hs.get(rnow, ())
        rest = s.heap.get('#skip', None)
        dropped = [n for n in left if n not in remaining(w, pre)]
        hunt = [n for n in left if n not in dropped]
        passed = len([g for g in given(evs, a) if g == ev])
        if hunt and not stop and 'group' not in nm:
            ck(len(new) == 1 and route_of(w, s, new[0]) == hunt[0], 'next-route',
               'the next route in order is not tried after a failure that allows it')
            ck(passed == 0, 'failure-passed-on', 'a failure that leads to another attempt is passed to the caller as well')
        elif 'group' not in nm:
            ck(not new, 'no-more-routes', 'another attempt is made although the failure ends the search')
            ck(passed == 1, 'relay-to-caller', 'the failure that ends the search is not passed to the caller exactly once')
    if nm.startswith('authorization answers: granted') and new:
        ck(route_of(w, s, new[0]) == w.order[0] and remaining(w, s) == w.order[1:], 'route-list',
           'the usable routes of the authorization are not all kept for the call, in order')
    elif 'group timer' not in nm:
        ck(not new or remaining(w, s) == remaining(w, pre)[1:], 'route-lost', 'more than one route is used up by one attempt')
    if 'group timer' in nm:
        group_step(w, ck, pre, s, new)
    # the call map
    reg, preg = len(w.registered(s)), len(w.registered(pre))
    if w.name:
        cur = ol[-1] if ol else None
        over = w.us(s, a) == DEAD and (cur is None or w.us(s, cur) == DEAD)
        if over:
            ck(reg == 0, 'never-unregistered', 'both legs are released and the call stays in the call map')
        else:
            ck(reg == 1, 'unregistered-early', 'the call leaves the call map although a leg is not released')


def route_of(w, st, u):
    """name of the route a leg was made from"""
    x = st.heap.get((u, 'username'), st.heap.get((u, 'user'), NONE))
    v = show(x)
    for n in w.spec:
        if v == n + '.user':
            return n
    return None


def remaining(w, st):
    """routes the controller still holds"""
    out = []
    for k, v in st.heap.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] == w.cc and isinstance(v, tuple) and v[0] == 'L':
            for x in st.heap.get((v, 'items'), ()):
                if isinstance(x, tuple) and x[0] == 'O' and x[2] is w.cfg.rt_cls:
                    out.append(x[1].split(':')[1])
    return out


def group_step(w, ck, pre, s, new):
    """the timer of a group of routes: what is left of the group is skipped;
    the attempt under way makes room for the first route behind the group, or
    goes on as the last one when there is none"""
    a = w.a
    rp, rs = remaining(w, pre), remaining(w, s)
    i = [x for x in s.heap.get('#tgone', ()) if x not in pre.heap.get('#tgone', ())][0]
    t = pre.heap['#timers'][i]
    skipto = [kval(x) for x in t[4:] if is_k(x)]
    if not skipto:
        raise AnchorError('the group timer is not given the route to skip to')
    skipto = skipto[0]
    num = {n: j + 1 for j, n in enumerate(w.numbered)}
    palive = [u for u in w.olegs(pre) if w.live(pre, u)]
    salive = [u for u in w.olegs(s) if w.live(s, u)]
    waits = w.us(pre, a) in ('UasStateTrying', 'UasStateRinging')
    if waits and palive and rp and num[rp[0]] <= skipto:
        beyond = [n for n in rp if num[n] >= skipto]
        if beyond:
            ck(len(new) == 1 and route_of(w, s, new[0]) == beyond[0] and rs == beyond[1:], 'group-next',
               'when a group of routes expires the first route behind it is not tried next')
        else:
            ck(salive == palive and not rs, 'group-last', 'when the last group expires the attempt under way is not left alone as the last one')
    else:
        ck(salive == palive and rs == rp and w.live(s, a) == w.live(pre, a), 'group-over',
           'the timer of a group that is over, or of a call that is answered or gone, changes something')


# ------------------------------------------------------------------ B02
def b02(ctx):
    ctx.rule = """Accounting objects as typestates: every order of answer, end and interim ticks gives one start record at most (when wanted),
interim records only while the call is up, exactly one stop record and no timer left; over every history of a call each authorized
call and each attempt has its own accounting object, told of the answer and of the end of its own leg."""
    acct_records(ctx)
    for w in worlds(ctx.repo, ctx.thorough):
        w.explore(lambda *a: b02_step(ctx, *a))
        ctx.count('situations', w.states)
        ctx.count('configurations')
        ctx.visited(w.I.visited)
    ctx.floor('configurations', 11)
    ctx.floor('sequences', 40)
    ctx.floor('legs ended', 100)


def b02_step(ctx, w, pre, nm, s, hist):
    a = w.a
    where = must(ctx.repo, w.cc[2], 'placeOriginate').where() if w.cc[2].find('placeOriginate') else w.cc[2].find('rDone').where()
    H = ' -> '.join(hist)

    def ck(ok, key, msg):
        ctx.check(ok, 'acct:%s:%s' % (w.name.replace(' ', '-'), key), where, '%s [%s; %s]' % (msg, w.name, H), lines(s) if not ok else ())
    if s.heap.get('#raised', NONE) != NONE:
        if w.gc.get('acct_enable') != FALSE:
            ck(False, 'exception', 'an exception ends the controller in the middle of its accounting: ' + show(s.heap['#raised']))
        return
    off = w.gc.get('acct_enable') == FALSE
    A = w.accts(s)
    if off:
        ck(not A, 'off', 'accounting objects are made although accounting is off')
        return
    org = lambda x: s.heap.get((x, '#origin'))
    calls = [x for x in A if org(x) == K('answer')]
    orig = [x for x in A if org(x) == K('originate')]
    ck(len(calls) + len(orig) == len(A), 'origin', 'an accounting object is neither for the call nor for an attempt')
    who = {u: 'attempt' for u in w.olegs(s)}
    granted = any(h.startswith('authorization answers: granted') for h in hist)
    if granted:
        ck(len(calls) == 1, 'call', 'an authorized call has %d accounting objects' % len(calls))
    else:
        ck(not A, 'refused', 'a call that is not authorized is accounted for')
        return
    for x in A:
        for which in ('#conn', '#disc'):
            for u in s.heap.get((x, which), ()):
                ok = (u == a) if x in calls else (u != a)
                ck(ok, 'whose', 'an accounting object is told about a leg it is not for')
        ck(len(set(s.heap.get((x, '#disc'), ()) + s.heap.get((x, '#conn'), ()))) <= 1, 'shared', 'one accounting object serves two legs')
        ck((x, '#username') in s.heap, 'params', 'an accounting object is used without its parameters')
    if not w.live(s, a):
        ctx.count('legs ended')
        ck(all(a in s.heap.get((x, '#disc'), ()) for x in calls), 'call-stop', 'the call is over and its accounting is not told')
    if w.us(s, a) == 'UaStateConnected':
        ck(all(a in s.heap.get((x, '#conn'), ()) for x in calls), 'call-start', 'the call is answered and its accounting is not told')
    else:
        if w.us(pre, a) in ('UasStateTrying', 'UasStateRinging') and w.live(s, a):
            ck(not any(s.heap.get((x, '#conn')) or s.heap.get((x, '#disc')) for x in calls), 'call-early', 'the accounting of the call is told of something that has not happened')
    for e in s.events():
        if e.kind == 'acct' and e.name == 'disc':
            failed = w.us(s, e.args[0]) == 'UaStateFailed'
            if e.args[1] == S('rtime'):
                ck(e.args[2:3] == (S('origin'),) and (not failed or e.args[3:4] == (S('result'),)), 'stop-args',
                   'the accounting is not told who ended the leg and with which result')
    for u in w.olegs(s):
        fof = route_of(w, s, u) in w.fof
        mine = [x for x in orig if u in s.heap.get((x, '#disc'), ())]
        if not w.live(s, u):
            ctx.count('legs ended')
            ck(len(mine) == (0 if fof else 1), 'attempt-stop', 'an attempt is over and told to %d accounting objects instead of %d' % (len(mine), 0 if fof else 1))
            for x in mine:
                n = route_of(w, s, u)
                ck(s.heap.get((x, '#caller')) == S(n + '.cli') and s.heap.get((x, '#remote_ip')) == K(n + '.example.com'), 'attempt-params',
                   'an attempt is accounted for with the parameters of another')
        elif mine:
            ck(False, 'attempt-early', 'the accounting of an attempt is told that it is over while it is not')
        if w.us(s, u) == 'UaStateConnected' and not fof:
            c = [x for x in orig if u in s.heap.get((x, '#conn'), ())]
            ck(len(c) == 1, 'attempt-start', 'an attempt is answered and told to %d accounting objects' % len(c))


class ACfg(ScenCfg):
    inline_mods = ('sippy.RadiusAccounting',)
    unroll = 24
    codes = {}

    def inline(self, interp, st, fi, ev):
        return fi.cls is self.acls or fi.module is self.acls.module

    def on_call2(self, interp, st, ev):
        n = ev.name
        if n.startswith('Timeout') and ev.callee is not None:
            t = ('O', 'timer' + str(len(st.heap.get('#timers', ()))), Ext('Timer'))
            st.sethp('#timers', st.heap.get('#timers', ()) + ((t,) + tuple(ev.args),))
            interp.emit(st, ev)
            return [(st, t)]
        if n == 'cancel' and ev.recv is not None and ev.recv[0] == 'O' and ev.recv[1].startswith('timer'):
            st.sethp((ev.recv, '#off'), TRUE)
            return [(st, NONE)]
        if n == 'getAcct':
            return [(st, ('T', (S('duration'), S('delay'), TRUE, FALSE)))]
        if n == 'do_acct':
            interp.emit(st, ev)
            x = ev.args[0]
            items = interp.seq_items(x, st)
            if items is None:
                raise AnchorError('the attributes of an accounting record are not known')
            st.sethp('#sent', st.heap.get('#sent', ()) + (tuple(items),))
            return [(st, NONE)]
        if n == 'MonoTime':
            return [(st, S('now'))]
        if n in ('ftime', 'write', 'capitalize', 'round', 'time'):
            return [(st, ('OP', n) + tuple(ev.args)) if n in ('round', 'ftime') else (st, S(n))]
        return None


def attrs(rec):
    out = {}
    for x in rec:
        if x[0] == 'T' and len(x[1]) == 2 and is_k(x[1][0]):
            out.setdefault(kval(x[1][0]), []).append(x[1][1])
    return out


def acct_records(ctx):
    repo = ctx.repo
    ac = repo.cls('RadiusAccounting')
    where = must(repo, ac, 'disc').where()
    for start in (TRUE, FALSE):
        for lp in (NONE, K(30)):
            for origin, src in ((K('caller'), '2'), (K('callee'), '4'), (K('switch'), '8'), (K('media_timeout'), '8')):
                result, cause = {'2': (K(0), '10'), '4': (K(486), '11'), '8': (K(599), '7f')}[src]
                cfg = ACfg(repo)
                cfg.acls = ac
                I = SInterp(repo, cfg)
                st = State()
                gc = ('D', 'gc')
                st.sethp((gc, 'map'), ((K('_sip_logger'), ('O', 'log', Ext('Log'))), (K('_radius_client'), ('O', 'radius', Ext('Radius')))))
                for x in ('user', 'cli', 'cld', 'cid', 'ip'):
                    st.setfact(S(x), Fact(none=False, truth=True))
                st, o = build(I, st, ac, [gc, K('answer')], {'lperiod': lp, 'send_start': start})
                st, _ = step(I, st, ac, o, 'setParams', [S('user'), S('cli'), S('cld'), S('cid'), S('ip')])
                ua = ('O', 'ua', Ext('UA'))
                for k in ('setup_ts', 'connect_ts', 'remote_ua', 'p1xx_ts', 'p100_ts'):
                    st.sethp((ua, k), S('ua.' + k))
                    st.setfact(S('ua.' + k), Fact(none=False, truth=True))
                todo = [(st, '')]
                while todo:
                    s, h = todo.pop(0)
                    acct_check(ctx, s, h, start, lp, src, cause, where)
                    ctx.count('sequences')
                    if len(h) >= 4:
                        continue
                    nx = []
                    if 'd' not in h or h.count('d') < 2:
                        nx.append(('d', must(repo, ac, 'disc'), [ua, S('rtime'), origin, result]))
                    if 'd' not in h and h.count('c') < 2:
                        nx.append(('c', must(repo, ac, 'conn'), [ua, S('ctime'), origin]))
                    for c, fi, args in nx:
                        for s2, oc in I.run(fi, o, args, None, s):
                            if not ctx.check(oc[0] == 'ret', 'record:exception', where, 'an exception escapes from the accounting of %s' % h):
                                continue
                            todo.append((s2, h + c))
                    for t in s.heap.get('#timers', ()):
                        if (t[0], '#off') in s.heap:
                            continue
                        args = list(t[4:])
                        for s2, oc in I.callv(s, t[1], args):
                            ctx.check(oc[0] == 'ret', 'record:exception', where, 'an exception escapes from an interim record')
                            todo.append((s2, h + 't'))
                ctx.visited(I.visited)


def acct_check(ctx, s, h, start, lp, src, cause, where):
    recs = [attrs(r) for r in s.heap.get('#sent', ())]
    key = 'record:%s:%s' % ('start' if start == TRUE else 'nostart', 'interim' if lp != NONE else 'nointerim')

    def ck(ok, k, msg):
        ctx.check(ok, key + ':' + k, where, '%s (history %s)' % (msg, h or 'empty'))
    ty = []
    for r in recs:
        t = r.get('Acct-Status-Type', [])
        ck(len(t) == 1 and is_k(t[0]), 'type', 'a record does not say what it is exactly once')
        ty.append(kval(t[0]) if t and is_k(t[0]) else '?')
        for n, v in (('User-Name', S('user')), ('Calling-Station-Id', S('cli')), ('Called-Station-Id', S('cld')), ('Acct-Session-Id', S('cid')),
                     ('call-id', S('cid')), ('h323-remote-address', S('ip'))):
            ck(r.get(n) == [v], 'attr-' + n, 'a record does not carry %s of the call exactly once' % n)
        if ty[-1] != 'Start':
            ck(len(r.get('Acct-Session-Time', [])) == 1 and len(r.get('h323-disconnect-cause', [])) == 1, 'time', 'a record other than the start has no session time')
        else:
            ck('Acct-Session-Time' not in r, 'time', 'a start record has a session time')
        if ty[-1] == 'Stop':
            ck(r.get('release-source') == [K(src)], 'release', 'a stop record does not say who released the call')
            ck(any(has(v, S('duration')) for v in r.get('Acct-Session-Time', [])), 'duration', 'the session time of a stop record is not the duration of the leg')
            ck(r.get('h323-disconnect-cause') == [K(cause)], 'cause', 'a stop record does not carry the cause of the result')
        else:
            ck('release-source' not in r, 'release', 'a record that is not the last names a release source')
    want_start = 1 if start == TRUE and 'c' in h else 0
    ck(ty.count('Start') == want_start and (not want_start or ty[0] == 'Start'), 'start', '%d start records instead of %d' % (ty.count('Start'), want_start))
    ck(ty.count('Stop') == (1 if 'd' in h else 0), 'stop', '%d stop records' % ty.count('Stop'))
    ck('Stop' not in ty or ty[-1] == 'Stop', 'last', 'a record follows the stop record')
    ck(ty.count('Alive') == h.count('t'), 'interim', 'interim records do not match the ticks of the timer')
    live = [t for t in s.heap.get('#timers', ()) if (t[0], '#off') not in s.heap]
    if 'd' in h:
        ck(not live, 'timer', 'the interim timer goes on after the stop record')
    elif 'c' in h and lp != NONE:
        ck(len(live) == 1, 'timer', '%d interim timers run while the call is up' % len(live))
        for t in live:
            ck(t[2] == lp and t[3] == K(-1), 'period', 'the interim timer does not run periodically with the configured period')
    else:
        ck(not live, 'timer', 'an interim timer runs although none is wanted')


def has(v, x):
    return v == x or isinstance(v, tuple) and any(has(y, x) for y in v)


# ------------------------------------------------------------------ B01
SRC = {'peer': '192.0.2.9', 'wss': '[[WSS]]', 'proxy': '[[PROXY]]'}


class RCfg(ScenCfg):
    """a request given to the dispatcher of new requests"""
    q = None
    unroll = 6

    def inline(self, interp, st, fi, ev):
        return fi.module.name in ('sippy.b2bua', 'sippy.MyConfigParser') and fi.cls is not self.cc_cls or \
            fi.module.name not in self.base and not fi.module.name.startswith('sippy.Sip')

    def body(self, name):
        return ('O', 'hf:' + name, Ext('Header'))

    def on_call2(self, interp, st, ev):
        n, r, q = ev.name, ev.recv, self.q
        h = sig_hook(self.repo, interp, st, ev)
        if h is not None:
            return h
        if r == self.req:
            a0 = kval(ev.args[0]) if ev.args and is_k(ev.args[0]) else None
            num = {'authorization': q['nauth'], 'via': q.get('nvia', 1)}.get(a0, 1)
            if n in ('getHFBody', 'getHF'):
                if num == 0:
                    return [(st, Raise(mkexc(st, 'builtins.IndexError')))]
                return [(st, self.body(a0 + (str(kval(ev.args[1])) if len(ev.args) > 1 else '')))]
            if n in ('getHFs', 'getHFBodys'):
                return [(st, ('T', tuple(self.body('%s%d' % (a0, i)) for i in range(num))))]
            if n == 'countHFs':
                return [(st, K(num))]
            if n == 'getMethod':
                return [(st, K(q['method']))]
            if n == 'isMethod' or n == 'is_method':
                return [(st, K(a0 == q['method']))]
            if n == 'getSource':
                return [(st, self.stran)]
            if n == 'getRURI':
                return [(st, ('O', 'ruri', Ext('URI')))]
            if n == 'genResponse':
                interp.emit(st, ev)
                o = ('O', 'resp%d' % ev.line, Ext('Response'))
                st.sethp((o, 'code'), ev.args[0])
                return [(st, o)]
        if n == 'getTag':
            return [(st, K('totag') if q['tag'] else NONE)]
        if n == 'getTAddr':
            return [(st, ('T', (S('via_host'), K(5060))))]
        if n == 'appendHeader' and r is not None and r[0] == 'O' and r[1].startswith('resp'):
            interp.emit(st, ev)
            st.sethp((r, 'hdrs'), st.heap.get((r, 'hdrs'), ()) + tuple(ev.args))
            return [(st, NONE)]
        if ev.extra == 'new' and n == 'SipHeader':
            o = ('O', 'newhf%d' % ev.line, Ext('SipHeader'))
            st.sethp((o, 'name'), dict(ev.kw).get('name', ev.args[0] if ev.args else NONE))
            st.sethp((o, 'bodyobj'), ('O', 'body%d' % ev.line, Ext('Body')))
            interp.emit(st, ev)
            return [(st, o)]
        if n == 'getBody' and r is not None and (r, 'bodyobj') in st.heap:
            return [(st, st.heap[(r, 'bodyobj')])]
        if ev.extra == 'new' and n == self.cc_cls.name:
            o = ('O', 'call%d' % st.heap.get('#calls', 0), self.cc_cls)
            st.sethp('#calls', st.heap.get('#calls', 0) + 1)
            for k, v in bindargs(self.cc_cls.find('__init__'), ev.args, ev.kw).items():
                st.sethp((o, '#' + k), v)
            st.sethp((o, 'uaA'), ('O', 'leg of ' + o[1], Ext('UA')))
            interp.emit(st, ev)
            return [(st, o)]
        if n == 'recvRequest' and r is not None and r[0] == 'O' and r[1].startswith('leg of'):
            interp.emit(st, ev)
            st.sethp('#legged', st.heap.get('#legged', ()) + ((r, tuple(ev.args)),))
            o = st.heap.get('#calls')
            return [(st, S('rval'))]
        if n == 'recvRequest' and r == ('O', 'proxy', Ext('Proxy')):
            interp.emit(st, ev)
            return [(st, S('proxied'))]
        if r is not None and r[0] == 'D' and n == 'getdefault' and len(ev.args) == 2:
            return interp.dict_get(st, st.heap.get((r, 'map')), ev.args[0], ev.args[1], ev.node, None)
        return None


def admissions(thorough):
    B = (False, True)
    base = dict(tag=False, method='INVITE', restart=False, stop=False, aips=None, src='peer', auth=True, digest=True, only=None, nauth=0,
                proxy=True)
    out = []

    def add(**kw):
        q = dict(base)
        q.update(kw)
        out.append(q)
    for m in ('INVITE', 'BYE', 'REGISTER', 'SUBSCRIBE', 'NOTIFY', 'PING', 'OPTIONS', 'MESSAGE', 'REFER', 'INFO', 'UPDATE'):
        for tag in B:
            for proxy in B:
                for r in B:
                    add(method=m, tag=tag, proxy=proxy, restart=r)
    for r in B:
        for s in B:
            for nauth in (0, 1):
                add(restart=r, stop=s, nauth=nauth)
    for src in SRC:
        for aips in (None, 'in', 'out', 'empty'):
            for auth, digest, only, nauth in ((True, True, None, 0), (True, True, True, 0), (True, True, True, 1), (False, True, True, 0),
                                              (True, False, True, 0), (True, True, False, 0), (True, True, False, 1), (True, True, True, 2)):
                add(src=src, aips=aips, auth=auth, digest=digest, only=only, nauth=nauth)
    for nvia in (1, 2, 3):
        add(nvia=nvia, nauth=1)
        add(nvia=nvia, nauth=1, src='wss')
    return out


def expected(q):
    if q['tag']:
        return 481
    if q['method'] == 'INVITE':
        if q['restart'] or q['stop']:
            return 503
        if q['aips'] in ('out', 'empty'):
            return 403
        if q['auth'] and q['digest'] and q['nauth'] == 0 and q['only']:
            return 401
        return 'call'
    if q['proxy'] and q['method'] in ('REGISTER', 'SUBSCRIBE'):
        return 'proxy'
    if q['method'] in ('NOTIFY', 'PING'):
        return 200
    return 501


def b01(ctx):
    ctx.rule = """Decision table of the dispatcher of out-of-dialog requests over shutdown state, accepted sources, kind of source,
authentication settings and credentials present, method and dialog tag, against the documented outcome: exactly one answer or one
registered call whose caller leg gets the request; then the controller: the call is authorized with the caller's own credentials
before anything is sent for it, and a refusal gives the caller one final answer, a challenge included when one is due."""
    repo = ctx.repo
    cm = repo.cls('sippy.b2bua.CallMap')
    fi = must(repo, cm, 'recvRequest')
    where = fi.where()
    for q in admissions(ctx.thorough):
        cfg = RCfg(repo)
        cfg.cc_cls = repo.cls('sippy.b2bua.CallController')
        cfg.base = BASE(repo)
        cfg.q = q
        cfg.req = ('O', 'req', repo.cls('SipRequest'))
        px = ('T', (('T', (K('192.0.2.77'), K(5060))), K('udp')))
        cfg.stran = {'peer': ('T', (('T', (K(SRC['peer']), K(5060))), K('udp'))), 'wss': ('T', (('T', (K('192.0.2.9'), K(40000))), K('wss'))),
                     'proxy': px}[q['src']]
        I = SInterp(repo, cfg)
        st = State()
        d = ('D', 'gc')
        m = dict(auth_enable=K(q['auth']), digest_auth=K(q['digest']), _pass_headers=('T', ()))
        if q['only'] is not None:
            m['digest_auth_only'] = K(q['only'])
        if q['aips'] is not None:
            m['_accept_ips'] = ('T', {'in': (K('198.51.100.1'), K(SRC[q['src']])), 'out': (K('198.51.100.1'), K('192.0.2.5')), 'empty': ()}[q['aips']])
        st.sethp((d, 'map'), tuple((K(k), v) for k, v in m.items()))
        st, o, lst = callmap(repo, I, st, d)
        for f, nm in (('restart', 'SIGPROF'), ('stop', 'SIGTERM')):
            if q[f]:
                r = [s for s, oc in signalled(I, st, nm) if oc[0] != 'raise']
                if len(r) != 1:
                    raise AnchorError('no single outcome of %s' % nm)
                st = r[0]
        st.trace = None
        proxy = ('O', 'proxy', Ext('Proxy'))
        st.sethp((proxy, 'destination'), px)
        st.sethp((o, 'proxy'), proxy if q['proxy'] or q['src'] == 'proxy' else NONE)
        want = expected(dict(q, proxy=q['proxy'] or q['src'] == 'proxy'))
        lab = ' '.join('%s=%s' % x for x in sorted(q.items()))
        for s, oc in I.run(fi, o, [cfg.req, S('sip_t')], None, st):
            ctx.count('decisions')
            L = lines(s)

            def ck(ok, key, msg):
                ctx.check(ok, 'admit:' + key, where, '%s [%s]' % (msg, lab), L)
            if not ck2(ck, oc[0] == 'ret', 'exception', 'an exception escapes: %s' % show(oc[1])):
                continue
            v = oc[1]
            calls = st_calls(s)
            items = s.heap[(lst, 'items')]
            legged = s.heap.get('#legged', ())
            if want == 'call':
                ck(calls == 1 and len(items) == 1, 'registered', 'a call that is admitted is not registered exactly once')
                ck(v == S('rval'), 'handed', 'the answer of the caller leg is not what the transaction layer gets')
                ck(len(legged) == 1 and legged[0][1][:1] == (cfg.req,) and items and legged[0][0][1] == 'leg of ' + items[0][1], 'leg',
                   'the request does not reach the caller leg of the registered call exactly once')
                if items:
                    c = items[0]
                    chal = s.heap.get((c, 'challenge'), NONE)
                    due = q['auth'] and q['digest'] and q['nauth'] == 0
                    ck((chal != NONE) == due, 'challenge', 'a challenge is %sprepared although it is %sdue' % ('' if chal != NONE else 'not ', '' if due else 'not '))
                    if chal != NONE:
                        ck(s.heap.get((chal, 'name')) == K('www-authenticate'), 'challenge-name', 'the challenge is not a WWW-Authenticate header')
                    # the address the call is authorized by
                    ip = s.heap.get((c, '#remote_ip'))
                    ok = ip == (K('192.0.2.9') if q['src'] == 'wss' else S('via_host'))
                    ck(ok, 'address', 'the call is authorized by another address than the one it came from')
                continue
            ck(calls == 0 and not items and not legged, 'refused-call', 'a call is created for a request that is to be %s' % (
                'refused' if want != 'proxy' else 'proxied'))
            if want == 'proxy':
                ck(v == S('proxied'), 'proxy', 'a request for the proxy is not handed to it')
                continue
            r = v[1][0] if v[0] == 'T' and v[1] else NONE
            ck(v[0] == 'T' and len(v[1]) == 3 and s.heap.get((r, 'code')) == K(want), 'code', 'the request is answered with %s instead of %s' % (
                show(s.heap.get((r, 'code'), NONE)), want))
            if want == 401:
                h = s.heap.get((r, 'hdrs'), ())
                ck(len(h) == 1 and s.heap.get((h[0], 'name')) == K('www-authenticate'), 'no-challenge', 'the 401 carries no challenge')
        ctx.visited(I.visited)
    ctx.floor('decisions', 150)
    b01_auth(ctx)
    b01_radius(ctx)


def ck2(ck, ok, key, msg):
    ck(ok, key, msg)
    return ok


def st_calls(s):
    return s.heap.get('#calls', 0)


_BASE = None


def BASE(repo):
    """modules of the message layer: not followed"""
    return {n for n in repo.modules if n.startswith('sippy.')} - {'sippy.b2bua', 'sippy.MyConfigParser'}


def b01_auth(ctx):
    repo = ctx.repo
    auth = ('O', 'authhf', Ext('Authorization'))
    seen = 0
    for cred in ('none', 'empty', 'full'):
        for on in (TRUE, FALSE):
            for chal in (NONE, ('O', 'challenge', Ext('SipHeader'))):
                a = NONE if cred == 'none' else auth
                w = Ctl(repo, 'auth', rspec(r1={}), results=[('granted', result('r1')), ('refused', result('r1', code=1)), ('no answer', ('T', (('T', ()), K(-1)))),
                        ('garbled', ('T', (('T', ()),)))], tryauth=a, challenge=chal,
                        auth_enable=on, **({'_static_routes': None} if on == TRUE else {}))
                w.order = w.numbered = ['r1']
                w.hs, w.fof = {}, set()
                st = w.init
                for k in ('username', 'realm', 'nonce', 'uri', 'response'):
                    st.sethp((auth, k), S('auth.' + k))
                st.sethp((auth, 'username'), K('') if cred == 'empty' else S('auth.username'))
                st.setfact(S('auth.username'), Fact(none=False, truth=True))
                st.setfact(('OP', 'len', S('auth.username')), Fact(none=False, truth=True, lo=(1, False)))
                if on == FALSE:
                    rt = ('O', 'static', w.cfg.rt_cls)
                    rs = w.cfg.mkroute(w.I, st, 'r1')
                    st, rt = rs[0]
                    d = [k[0] for k in st.heap if isinstance(k, tuple) and k == (('D', 'config'), 'map')][0]
                    sr = ('D', 'static')
                    st.sethp((sr, 'map'), ((K(''), rt),))
                    st.sethp((d, 'map'), st.heap[(d, 'map')] + ((K('_static_routes'), sr),))
                    w.init = st
                fi = must(repo, w.cc[2], 'recvEvent')
                where = fi.where()
                key = 'auth:%s:%s' % (cred, 'on' if on == TRUE else 'off')
                for nm, f in w.stimuli(w.init):
                    for s in f(w.init.copy()):
                        seen += 1
                        L = lines(s)
                        asks = [e for e in s.events() if e.kind == 'call' and e.name == 'do_auth']
                        if on == FALSE:
                            ctx.check(not asks and len(w.olegs(s)) == 1, key + ':static', where, 'with authorization off the call does not go to the static route', L)
                            continue
                        ctx.check(len(asks) == 1 and not w.olegs(s), key + ':first', where,
                                  'the call is not authorized exactly once before anything is sent for it', L)
                        if len(asks) != 1:
                            continue
                        b = dict(s.heap['#authargs'])
                        full = cred == 'full'
                        for k in ('realm', 'nonce', 'uri', 'response'):
                            ctx.check(b.get(k, NONE) == (S('auth.' + k) if full else NONE), key + ':' + k, where,
                                      'the authorization request carries a wrong %s' % k, L)
                        ctx.check(b.get('username') == (S('auth.username') if full else S('arg.remote_ip')), key + ':username', where,
                                  'the authorization request is for another user', L)
                        for k, v in (('caller', S('cli')), ('callee', CLD), ('sip_cid', S('cId')), ('remote_ip', S('arg.remote_ip'))):
                            ctx.check(b.get(k) == v, key + ':' + k, where, 'the authorization request carries a wrong %s' % k, L)
                        for n2, f2 in w.stimuli(s):
                            if not n2.startswith('authorization'):
                                continue
                            x = s.copy()
                            x.trace = None
                            for s2 in f2(x):
                                seen += 1
                                L2 = lines(s2)
                                if 'granted' in n2:
                                    ctx.check(len(w.olegs(s2)) == 1, key + ':granted', where, 'a call that is authorized is not sent on', L2)
                                    continue
                                ctx.check(not w.olegs(s2), key + ':refused', where, 'a call that is not authorized is sent on', L2)
                                g = given(s2.events(), w.a)
                                ctx.check(len(g) == 1 and kind(g[0]) == 'CCEventFail', key + ':told', where,
                                          'the caller does not get exactly one final answer when authorization fails', L2)
                                if len(g) != 1:
                                    continue
                                data = s2.heap.get((g[0], 'data'), NONE)
                                code = kval(data[1][0]) if data[0] == 'T' and is_k(data[1][0]) else None
                                ch = s2.heap.get((g[0], 'challenges'), NONE)
                                items = w.I.seq_items(ch, s2) if ch != NONE else ()
                                if chal != NONE:
                                    ctx.check(code == 401 and tuple(items or ()) == (chal,), key + ':challenged', where,
                                              'a caller who is to be challenged gets no 401 with the challenge', L2)
                                else:
                                    ctx.check(code == 403, key + ':forbidden', where, 'a caller who is not authorized does not get 403', L2)
                ctx.visited(w.I.visited)
    ctx.count('authorization outcomes', seen)
    ctx.floor('authorization outcomes', 20)


class RadCfg(ScenCfg):
    unroll = 24
    inline_mods = ('sippy.RadiusAuthorisation', 'sippy.Radius_client', 'sippy.External_command')

    def inline(self, interp, st, fi, ev):
        return fi.module.name in self.inline_mods or fi.module.name not in self.base

    def on_call2(self, interp, st, ev):
        if ev.name == 'process_command':
            interp.emit(st, ev)
            a = [x for x in ev.args if x != self.obj]
            st.sethp('#asked', st.heap.get('#asked', ()) + ((interp.seq_items(a[0], st), tuple(a[1:])),))
            return [(st, ('O', 'work', Ext('Work_item')))]
        if ev.name in ('time', 'write'):
            return [(st, S(ev.name))]
        return None


def b01_radius(ctx):
    """between the controller and the helper program: the credentials go out as
    they are, the answer comes back as it is"""
    from ..text import TextI, text_of
    repo = ctx.repo
    ci = repo.cls('RadiusAuthorisation')
    fi = must(repo, ci, 'do_auth')
    n = 0
    names = ('realm', 'nonce', 'uri', 'response')
    for missing in (None,) + names + ('all',):
        for extra in (NONE, ('T', (('T', (K('h323-ivr-out'), K('v-extra'))),))):
            cfg = RadCfg(repo)
            cfg.base = BASE(repo)
            I = TextI(repo, cfg)
            o = cfg.obj = ('O', 'radius', ci)
            gc = ('D', 'gc')
            st = State()
            st.sethp((gc, 'map'), ((K('_sip_logger'), ('O', 'log', Ext('Log'))),))
            st.sethp((o, 'global_config'), gc)
            val = {k: NONE if missing in (k, 'all') else K('v-' + k) for k in names}
            kw = dict(username=K('v-username'), caller=K('v-caller'), callee=K('v-callee'), sip_cid=K('v-cid'), remote_ip=K('v-ip'), res_cb=S('res_cb'),
                      extra_attributes=extra, **val)
            for v in kw.values():
                if v[0] == 'S':
                    st.setfact(v, Fact(none=False, truth=True))
            lab = 'all credentials' if missing is None else 'no ' + missing
            for s, oc in I.run(fi, o, [], kw, st):
                n += 1
                L = lines(s)
                asked = s.heap.get('#asked', ())
                if not ctx.check(oc[0] == 'ret' and len(asked) == 1 and asked[0][0] is not None, 'radius:asked', fi.where(),
                                 'the helper is not asked exactly once (%s)' % lab, L):
                    continue
                data, rest = asked[0]
                got = {}
                for x in data[1:]:
                    x = text_of(x)
                    if not ctx.check(x is not None and re.fullmatch(r'[^"]*="[^"]*"', x), 'radius:form', fi.where(), 'an attribute is not of the form name="value": %s' % x, L):
                        continue
                    a, b = x.split('="', 1)
                    got.setdefault(a, []).append(b[:-1])
                ctx.check(data[:1] == (K('AUTH'),), 'radius:kind', fi.where(), 'an authorization is not sent as such', L)
                full = missing is None
                want = {'User-Name': ['v-username' if full else 'v-ip'], 'Calling-Station-Id': ['v-caller'], 'Called-Station-Id': ['v-callee'],
                        'h323-remote-address': ['h323-remote-address=v-ip']}
                if full:
                    want.update({'Digest-Realm': ['v-realm'], 'Digest-Nonce': ['v-nonce'], 'Digest-URI': ['v-uri'],
                                 'Digest-Response': ['v-response'], 'Digest-User-Name': ['v-username'], 'Digest-Method': ['INVITE']})
                else:
                    for k in ('Digest-Response', 'Digest-User-Name'):
                        want[k] = None
                    want['Password'] = ['cisco']
                for k, v in sorted(want.items()):
                    ctx.check(got.get(k) == v, 'radius:' + k, fi.where(), 'the authorization is asked for with a wrong %s (%s)' % (k, lab), L)
                av = got.get('Cisco-AVPair', [])
                ctx.check('call-id=v-cid' in av, 'radius:call-id', fi.where(), 'the authorization is asked for with a wrong call-id', L)
                if extra != NONE:
                    ctx.check('h323-ivr-out=v-extra' in av, 'radius:extra', fi.where(), 'additional attributes are lost', L)
                # the answer
                if not ctx.check(len(rest) >= 1, 'radius:callback', fi.where(), 'nobody is told the answer', L):
                    continue
                pr = must(repo, ci, 'process_result')
                s.trace = None
                T = lambda *x: ('T', x)
                for res, exp in ((T(K(b"h323-ivr-in = 'h323-ivr-in=Routing:a = b'"), K(b"Cisco-AVPair = 'h323-ivr-in=CLI:1'"),
                                    K(b"h323-credit-time = 'h323-credit-time=30'"), K(b'0')),
                                  T(T(T(K('h323-ivr-in'), K('Routing:a = b')), T(K('h323-ivr-in'), K('CLI:1')), T(K('h323-credit-time'), K('30'))), K(0))),
                                 (T(K(b'0')), T(T(), K(0))), (T(K(b'1')), T(T(), K(1))), (T(K(b"Reply-Message = 'no'"), K(b'1')),
                                                                                          T(T(T(K('Reply-Message'), K('no'))), K(1))),
                                 (T(K(b'-1')), T(T(), K(-1))), (T(), None), (T(K(b'garbage'), K(b'0')), None), (T(K(b'garbage')), None)):
                    for s2, oc2 in I.run(pr, o, [rest[0], res] + list(rest[1:]), None, s.copy()):
                        n += 1
                        cb = [e for e in s2.events() if e.kind == 'call' and e.name == 'res_cb']
                        L2 = lines(s2)
                        if not ctx.check(oc2[0] == 'ret' and len(cb) == 1, 'radius:told', pr.where(), 'the answer of the helper (%s) is not passed on exactly once' % show(res), L2):
                            continue
                        v = cb[0].args[0]
                        if exp is not None:
                            ctx.check(deep(I, s2, v) == exp, 'radius:answer', pr.where(), 'the answer %s of the helper is understood as %s' % (show(res), show(v)), L2)
                        else:
                            ok = v[0] == 'T' and len(v[1]) == 2 and is_k(v[1][1]) and kval(v[1][1]) != 0
                            ctx.check(ok, 'radius:garbled', pr.where(), 'an answer of the helper that makes no sense (%s) is taken for an acceptance' % show(res), L2)
            ctx.visited(I.visited)
    ctx.count('helper exchanges', n)
    ctx.floor('helper exchanges', 60)


def deep(I, s, v):
    xs = I.seq_items(v, s) if v[0] in ('T', 'L') else None
    return ('T', tuple(deep(I, s, x) for x in xs)) if xs is not None else v


RULES = {'B01': b01, 'B02': b02, 'B03': b03}


# ------------------------------------------------------------------ B04
def b04(ctx):
    ctx.rule = """The hop limit as a value followed from the request that came in to the request that goes out: the caller leg reports the
number of the header, the controller gives each attempt one less and refuses the call with 483, sending nothing, when nothing is
left; the attempt sends the number it was given, in a repetition with credentials too; the forwarding proxy counts down and
refuses likewise."""
    repo = ctx.repo
    for n in (0, 1, 2, 3, 70, None):
        w = Ctl(repo, 'hops', rspec(r1={}, r2={}), results=[('granted', result('r1', 'r2'))], mf=NONE if n is None else K(n))
        w.order = w.numbered = ['r1', 'r2']
        w.hs, w.fof = {}, set()
        w.explore(lambda *a: b04_step(ctx, n, *a))
        ctx.count('configurations')
        ctx.visited(w.I.visited)
    b04_legs(ctx)
    b04_proxy(ctx)
    ctx.floor('configurations', 6)
    ctx.floor('attempts', 20)


def b04_step(ctx, n, w, pre, nm, s, hist):
    where = w.cc[2].find('recvEvent').where()
    H = ' -> '.join(hist)
    new = [u for u in w.olegs(s) if u not in w.olegs(pre)]
    for u in new:
        ctx.count('attempts')
        g = [e for e in given(s.events(), u) if kind(e) == 'CCEventTry']
        v = s.heap.get((g[0], 'max_forwards'), NONE) if g else NONE
        want = NONE if n is None else K(n - 1)
        ctx.check(len(g) == 1 and v == want, 'hops:value', where, 'an attempt for a call with hop limit %s is given %s [%s]' % (n, show(v), H), lines(s))
        ctx.check(n is None or n > 1, 'hops:sent', where, 'an attempt is made although the hop limit %s is used up [%s]' % (n, H), lines(s))
    if n is not None and n <= 1 and nm.startswith('authorization answers: granted') and w.live(pre, w.a):
        g = [e for e in given(s.events(), w.a)]
        d = s.heap.get((g[0], 'data'), NONE) if g else NONE
        ctx.count('attempts')
        ctx.check(len(g) == 1 and kind(g[0]) == 'CCEventFail' and d[0] == 'T' and d[1][0] == K(483), 'hops:483', where,
                  'a call whose hop limit %s is used up is not refused with 483 [%s]' % (n, H), lines(s))


def req_number(p, e):
    """number given to the Max-Forwards of a request the leg sends"""
    r = e.arg(0, 'msg')
    h = e.st[0]
    v = h.get((r, ('#kw', 'maxforwards')))
    if v is None or v == NONE:
        return v
    n = h.get((v, ('#kw', 'number')))
    if n is None:
        a = h.get((v, '#args'))
        n = a[1][1] if a is not None and len(a[1]) > 1 else None
    return n


def b04_legs(ctx):
    from ..leg import LegRuns, JoinCfg, UA, phase, side
    from ..interp import Fact as F

    class Cfg4(JoinCfg):
        def rel_heap(self, key):
            return JoinCfg.rel_heap(self, key) or (len(key) == 2 and key[1] in ('max_forwards', ('#kw', 'maxforwards'), ('#kw', 'number')))

        def relevant(self, ev):
            return JoinCfg.relevant(self, ev) or ev.kind == 'call' and ev.name in ('getHFBody', 'getNum') or ev.kind == 'set' and ev.name == 'max_forwards'

        def on_call(self, interp, st, ev):
            if ev.name == 'getNum' and ev.recv is not None:
                return [(st, ('OP', 'num', ev.recv))]
            if ev.name == 'getHFBody' and ev.args and is_k(ev.args[0]) and ev.recv is not None:
                interp.emit(st, ev)
                return [(st, ('OP', 'hf', ev.recv, ev.args[0]))]
            return JoinCfg.on_call(self, interp, st, ev)
    L = LegRuns(ctx)
    cfg = Cfg4(L.repo)
    S_ = {c.name: c for c in L.states}
    # what the caller leg reports
    c = S_['UasStateIdle']
    case = L.run(c, ('req', 'INVITE'), cfg=cfg)
    want = ('OP', 'num', ('OP', 'hf', S('req'), K('max-forwards')))
    n = 0
    for p in case.paths:
        for v, e in p.reported():
            if p.is_event(v) and v[2].name == 'CCEventTry':
                n += 1
                x = p.st.heap.get((v, 'max_forwards'), NONE)
                lost = any(y.kind == 'iraise' or y.kind == 'except' for y in p.events)
                ctx.check(x == want or lost and x == NONE, 'leg:reports', case.where(), 'the hop limit of the INVITE is reported as %s' % show(x), p.lines())
    ctx.check(n > 0, 'leg:reported', case.where(), 'an INVITE is never reported to the controller')
    # what an attempt sends
    c = S_['UacStateIdle']

    def num_is(p, e, want, key, msg, where):
        x = req_number(p, e)
        ctx.count('outgoing INVITEs')
        ctx.check(x == want, key, where, msg + ' (%s)' % (show(x) if x is not None else 'nothing'), p.lines())

    def seed_mf(v):
        def f(st):
            st.setfact(S('event.max_forwards'), F(none=False))
        return f
    case = L.run(c, ('event', 'CCEventTry'), cfg=cfg, seed=seed_mf(1))
    n = 0
    for p in case.paths:
        for k, m, e in [x for x in p.wire() if x[0] == 'req']:
            if m == 'INVITE':
                n += 1
                num_is(p, e, S('event.max_forwards'), 'leg:sends', 'an attempt does not send the hop limit it was given', case.where())
    ctx.check(n > 0, 'leg:sent', case.where(), 'an attempt never sends an INVITE')
    # the repetition with credentials
    from .challenge_rules import base

    class Cfg4r(Cfg4):
        def on_call(self, interp, st, ev):
            if ev.name == 'countHFs' and ev.recv is not None:
                interp.emit(st, ev)
                return [(st, K(1) if ev.recv == S('resp') else K(0))]
            if ev.name == 'supportedAlgorithm':
                return [(st, ('T', (TRUE, S('qop'))))]
            return Cfg4.on_call(self, interp, st, ev)
    cfgr = Cfg4r(L.repo)
    old = ('OP', 'idx', S('ua.reqs'), S('cseq'))

    def seed(st):
        base(st)
        st.setfact(('OP', 'num', ('OP', 'hf', old, K('max-forwards'))), F(none=False, truth=True))
    for name in ('UacStateTrying', 'UacStateRinging'):
        for code in (401, 407):
            case = L.run(S_[name], ('resp', (str(code), code, code)), cfg=cfgr, seed=seed)
            n = 0
            for p in case.paths:
                for k, m, e in [x for x in p.wire() if x[0] == 'req']:
                    if m == 'INVITE':
                        n += 1
                        x = req_number(p, e)
                        ok = x is not None and x[0] == 'OP' and x[1] == 'num' and x[2][0] == 'OP' and x[2][1] == 'hf' and x[2][3] == K('max-forwards') \
                            and 'reqs' in show(x[2][2])
                        ctx.count('outgoing INVITEs')
                        ctx.check(ok, 'leg:%s:retry' % name, must(ctx.repo, L.ua, 'recvResponse').where(),
                                  'an INVITE repeated with credentials does not keep the hop limit (%s)' % (show(x) if x is not None else 'a fresh one'), p.lines())
            ctx.check(n > 0, 'leg:%s:retried' % name, case.where(), 'an INVITE is never repeated with credentials')
    ctx.floor('outgoing INVITEs', 4)


class PCfg(ScenCfg):
    num = None

    def inline(self, interp, st, fi, ev):
        return fi.cls is self.pcls or fi.module.name in ('sippy.SipNumericHF', 'sippy.SipMaxForwards') or fi.module is self.pcls.module

    def on_call2(self, interp, st, ev):
        n, r = ev.name, ev.recv
        if r == self.req:
            a0 = kval(ev.args[0]) if ev.args and is_k(ev.args[0]) else None
            if n in ('getHFBody', 'getHF'):
                if a0 == 'max-forwards':
                    if self.num is None:
                        return [(st, Raise(mkexc(st, 'builtins.IndexError')))]
                    return [(st, self.mf)]
                return [(st, ('O', 'hf:' + str(a0), Ext('Header')))]
            if n == 'countHFs':
                return [(st, K(0 if a0 == 'max-forwards' and self.num is None else 1))]
            if n in ('getHFBodys', 'getHFs'):
                return [(st, ('T', () if a0 == 'max-forwards' and self.num is None else (self.mf,) if a0 == 'max-forwards' else (S('h'),)))]
            if n == 'getMethod':
                return [(st, K(self.method))]
            if n == 'genResponse':
                interp.emit(st, ev)
                o = ('O', 'resp', Ext('Response'))
                st.sethp((o, 'code'), ev.args[0])
                return [(st, o)]
            interp.emit(st, ev)
            return [(st, NONE)]
        if n == 'SipHeader':
            interp.emit(st, ev)
            o = ('O', 'newhf%d' % ev.line, Ext('SipHeader'))
            for k, v in ev.kw:
                st.sethp((o, k), v)
            return [(st, o)]
        return None


def b04_proxy(ctx):
    repo = ctx.repo
    pc = repo.cls('StatefulProxy')
    fi = must(repo, pc, 'recvRequest')
    for method in ('REGISTER', 'SUBSCRIBE'):
        for num in (0, 1, 2, 70, None):
            cfg = PCfg(repo)
            cfg.pcls, cfg.num, cfg.method = pc, num, method
            cfg.req = ('O', 'req', Ext('Request'))
            mc = repo.cls('SipMaxForwards')
            cfg.mf = ('O', 'mf', mc)
            I = SInterp(repo, cfg)
            st = State()
            st.sethp((cfg.mf, 'number'), K(num))
            st.sethp((cfg.mf, 'parsed'), TRUE)
            o = ('O', 'proxy', pc)
            st.sethp((o, 'destination'), S('dest'))
            gc = ('D', 'gc')
            st.sethp((gc, 'map'), ((K('_sip_tm'), ('O', 'tm', Ext('TM'))),))
            st.sethp((o, 'global_config'), gc)
            for s, oc in I.run(fi, o, [cfg.req], None, st):
                ctx.count('proxied requests')
                L = lines(s)
                lab = '%s with hop limit %s' % (method, num)
                sent = [e for e in s.events() if e.kind == 'call' and e.name == 'newTransaction']
                left = s.heap.get((cfg.mf, 'number'))
                if not ctx.check(oc[0] == 'ret', 'proxy:exception', fi.where(), 'an exception escapes from the proxy (%s)' % lab, L):
                    continue
                if num is not None and num <= 1:
                    v = oc[1]
                    ok = v[0] == 'T' and v[1] and s.heap.get((v[1][0], 'code')) == K(483)
                    ctx.check(not sent and ok, 'proxy:483', fi.where(), 'a request whose hop limit is used up is not refused with 483 (%s)' % lab, L)
                else:
                    ctx.check(len(sent) == 1, 'proxy:sent', fi.where(), 'a request is not forwarded exactly once (%s)' % lab, L)
                    if num is not None:
                        ctx.check(left == K(num - 1), 'proxy:less', fi.where(), 'the hop limit is not one less (%s)' % lab, L)
                    else:
                        add = [e for e in s.events() if e.kind == 'call' and e.name in ('appendHeader', 'insertHeaderBefore') and e.args
                               and s.heap.get((e.args[-1], 'name')) == K('max-forwards')]
                        ctx.check(len(add) == 1, 'proxy:new', fi.where(), 'a request without hop limit is forwarded without one', L)
            ctx.visited(I.visited)
    ctx.floor('proxied requests', 10)


RULES['B04'] = b04


# ------------------------------------------------------------------ B05
class RtCfg(BCfg):
    """routes parsed from their text; the resolver answers with the address itself"""
    stub_routes = False
    ext_consts = {'socket.AF_INET': 2, 'socket.AF_INET6': 10, 'socket.SOCK_STREAM': 1}

    def on_call2(self, interp, st, ev):
        n = ev.name
        if n == 'getaddrinfo':
            interp.emit(st, ev)
            a = list(ev.args) + [v for k, v in ev.kw]
            h, p = a[0], a[1]
            if not is_k(h):
                raise AnchorError('the resolver is asked for an unknown name')
            t = kval(h)
            four, six = (K(2), S('t'), S('p'), S('c'), ('T', (h, p))), (K(10), S('t'), S('p'), S('c'), ('T', (h, p, K(0), K(0))))
            return [(st, ('T', tuple(('T', x) for x in ((six,) if ':' in t else (four,) if t[0].isdigit() else (six, four)))))]
        if n == 'unquote' and ev.args and is_k(ev.args[0]):
            from urllib.parse import unquote
            return [(st, K(unquote(kval(ev.args[0]))))]
        if n == 'SipHeader' and ev.extra == 'new':
            o = ('O', 'header:%s' % (show(ev.args[0]) if ev.args else '?'), self.repo.cls('SipHeader'))
            st.sethp((o, '#text'), ev.args[0] if ev.args else NONE)
            return [(st, o)]
        if n == 'getCopy' and ev.recv is not None and ev.recv[0] == 'O' and ev.recv[1].startswith('header:'):
            return [(st, ev.recv)]
        if n == 'SipCallId' and ev.extra == 'new' and (ev.args or dict(ev.kw).get('body')):
            return [(st, ev.args[0] if ev.args else dict(ev.kw)['body'])]
        if n in ('md5', 'hexdigest'):
            return [(st, ('OP', n) + tuple(ev.args) + ((ev.recv,) if ev.recv is not None and n == 'hexdigest' else ()))]
        if n == 'getCopy' and ev.recv == S('body'):
            return [(st, S('copy of body'))]
        return BCfg.on_call2(self, interp, st, ev)


class RtCtl(Ctl):
    cfg_cls = RtCfg


HDR = ('O', 'header:passed', Ext('SipHeader'))
SRC4 = ('T', (K('192.0.2.9'), K(5060)))
SRC6 = ('T', (K('[2001:db8::9]'), K(5060)))


def observe(w, s, u):
    """what an attempt is made with"""
    from ..strs import pieces
    I = w.I
    g = lambda k: s.heap.get((u, k), NONE)
    out = {k: dport(g(k)) for k in ('username', 'password', 'nh_address', 'credit_time', 'expire_time', 'no_progress_time', 'no_reply_time', 'outbound_proxy')}
    out['pass_auth'] = g('pass_auth')
    x = g('extra_headers')
    xs = I.seq_items(x, s) if x != NONE else ()
    if xs is None and x[0] == 'OP' and x[1] == 'add':
        a, b = I.seq_items(x[2], s), I.seq_items(x[3], s)
        xs = a + b if a is not None and b is not None else None
    out['extra_headers'] = tuple(show(s.heap.get((h, '#text'), h)) for h in xs) if xs is not None else show(x)
    t = [e for e in given(s.events(), u) if kind(e) == 'CCEventTry']
    d = s.heap.get((t[0], 'data'), NONE) if t else NONE
    names = ('call_id', 'cli', 'cld', 'body', 'auth', 'caller_name')
    d = d[1] if d[0] == 'T' else ()
    for n, v in zip(names, d):
        out[n] = v
    w.callids = w.__dict__.get('callids', {})
    ps = pieces(out.get('call_id', NONE))
    w.callids[u] = ps
    out['call_id'] = ('shown' if any(not isinstance(p, str) and p[1] == S('cId') for p in ps) else 'hidden', 'other than the caller\'s' if len(ps) > 1 or 'OP' in repr(ps) else show(ps[0]))
    out['media'] = g('on_local_sdp_change') != NONE, g('on_remote_sdp_change') != NONE
    told = I.seq_items(g('disc_cbs'), s) or ()
    told = [c[1] for c in told if c[0] == 'B']
    a = [x for x in w.accts(s) if s.heap.get((x, '#origin')) == K('originate') and x in told]
    out['accounted'] = tuple(show(s.heap.get((a[-1], '#' + k), NONE)) for k in ('username', 'caller', 'callee', 'remote_ip')) if a else None
    out['timers'] = tuple(show(t[2]) for t in s.heap.get('#timers', ()))
    # what a failure of the attempt leads to
    for code in (486, 503):
        nx = []
        for s2 in w.leave(cut(s), u, 'CCEventFail', ('T', (K(code), S('reason')))):
            nx.append(len(w.olegs(s2)) - len(w.olegs(s)))
        out['after %d' % code] = tuple(sorted(set(nx)))
    return out


def cut(s):
    s = s.copy()
    s.trace = None
    return s


def dport(v):
    """the default port of SIP, also when the class that holds it may be changed at run time"""
    if v is not None and v[0] == 'T' and len(v[1]) == 2 and v[1][1] == S('SipConf.default_port'):
        return ('T', (v[1][0], K(5060)))
    return v


BASEROUTE = dict(username=NONE, password=NONE, nh_address=('T', (K('10.0.0.3'), K(5060))), credit_time=NONE, expire_time=NONE,
                 no_progress_time=NONE, no_reply_time=NONE, outbound_proxy=NONE, pass_auth=TRUE, extra_headers=('passed',), call_id=('shown', 'other than the caller\'s'),
                 cli=S('cli'), cld=CLD, body=S('body'), auth=S('authhf'), caller_name=S('caller_name'), media=(False, False),
                 accounted=('arg.remote_ip', 'cli', "'100'", "'10.0.0.3'"), timers=())
BASEROUTE['after 486'] = BASEROUTE['after 503'] = (1,)


def routecases():
    """(name, route text, settings, what differs from the plain route); settings: credit, max, media, hide, source"""
    A = lambda a, b, c, d: tuple(repr(x) if x is not None and not x.startswith('<') else (x or 'None').strip('<>') for x in (a, b, c, d))
    P = lambda h, p=None: ('T', (K(h), K(5060) if p is None else K(p)))
    acc = lambda user='<arg.remote_ip>', cli='<cli>', cld='100', ip='10.0.0.3': dict(accounted=A(user, cli, cld, ip))
    R = '10.0.0.3'

    def two(name, params, diff, **kw):
        yield name, R + ''.join(';' + p for p in params), kw, diff
    yield 'plain', R, {}, {}
    yield 'port', R + ':5070', {}, dict(nh_address=P(R, 5070))
    yield 'ipv6', '[2001:db8::1]', {}, dict(nh_address=P('[2001:db8::1]'), **acc(ip='[2001:db8::1]'))
    yield 'ipv6 port', '[2001:db8::1]:5070', {}, dict(nh_address=P('[2001:db8::1]', 5070), **acc(ip='[2001:db8::1]'))
    yield 'name, caller on ipv4', 'gw.example.com', {}, dict(nh_address=P('gw.example.com'), **acc(ip='gw.example.com'))
    yield 'name, caller on ipv6', 'gw.example.com', dict(source=SRC6), dict(nh_address=P('[gw.example.com]'), **acc(ip='gw.example.com'))
    yield 'back to the source', 'sip-ua', {}, dict(nh_address=SRC4, **acc(ip='192.0.2.9'))
    yield 'number', '200@' + R, {}, dict(cld=K('200'), **acc(cld='200'))
    yield 'no number', '@' + R, {}, dict(cld=NONE, **acc(cld=None))
    yield 'number, port', '200@%s:5070' % R, {}, dict(cld=K('200'), nh_address=P(R, 5070), **acc(cld='200'))
    # limits
    yield 'credit', R + ';credit-time=30', {}, dict(credit_time=K(30))
    yield 'credit over default', R + ';credit-time=30', dict(credit=100), dict(credit_time=K(30))
    yield 'default credit', R, dict(credit=100), dict(credit_time=K(100))
    yield 'unlimited credit', R + ';credit-time=-1', dict(credit=100), dict(credit_time=NONE)
    yield 'credit capped', R + ';credit-time=80', dict(max=50), dict(credit_time=K(50))
    yield 'credit below cap', R + ';credit-time=30', dict(max=50), dict(credit_time=K(30))
    yield 'unlimited credit capped', R + ';credit-time=-1', dict(max=50), dict(credit_time=K(50))
    yield 'no credit capped', R, dict(max=50), dict(credit_time=K(50))
    yield 'default credit capped', R, dict(max=50, credit=100), dict(credit_time=K(50))
    yield 'expires', R + ';expires=20', {}, dict(expire_time=K(20))
    yield 'no expires', R + ';expires=-1', {}, dict()
    yield 'np_expires', R + ';np_expires=20', {}, dict(no_progress_time=K(20))
    yield 'no np_expires', R + ';np_expires=-1', {}, dict()
    yield 'nr_expires', R + ';nr_expires=20', {}, dict(no_reply_time=K(20))
    yield 'no nr_expires', R + ';nr_expires=-1', {}, dict()
    # identity
    yield 'auth', R + ';auth=joe:a:b', {}, dict(username=K('joe'), password=K('a:b'), pass_auth=FALSE)
    yield 'auth nopass', R + ';auth=nopass', {}, dict(pass_auth=FALSE)
    yield 'cli', R + ';cli=55', {}, dict(cli=K('55'), **acc(cli='55'))
    yield 'no cli', R + ';cli=', {}, dict(cli=NONE, **acc(cli=None))
    yield 'name of the caller', R + ';cnam=A%20B%3B', {}, dict(caller_name=K('A B;'))
    yield 'no name of the caller', R + ';cnam=', {}, dict(caller_name=NONE)
    yield 'header', R + ';ash=X-Foo%3A%20bar', {}, dict(extra_headers=("'X-Foo: bar'", 'passed'))
    yield 'two headers', R + ';ash=X-Foo%3A%20bar;ash=X-B%3Ac', {}, dict(extra_headers=("'X-Foo: bar'", "'X-B:c'", 'passed'))
    # media
    yield 'media', R, dict(media=1), dict(media=(True, True), body=S('copy of body'))
    yield 'media on', R + ';rtpp=1', dict(media=1), dict(media=(True, True), body=S('copy of body'))
    yield 'media off', R + ';rtpp=0', dict(media=1), {}
    # ways
    yield 'proxy', R + ';op=10.0.0.9', {}, dict(outbound_proxy=('T', (K('10.0.0.9'), K(5060))))
    yield 'proxy port', R + ';op=10.0.0.9:7000', {}, dict(outbound_proxy=('T', (K('10.0.0.9'), K(7000))))
    yield 'proxy is the source', R + ';op=192.0.2.9', {}, {}
    # accounting
    yield 'bill-to', R + ';bill-to=joe', {}, acc(user='joe')
    yield 'bill-cli', R + ';bill-cli=77', {}, acc(cli='77')
    yield 'bill-cld', R + ';bill-cld=88', {}, acc(cld='88')
    yield 'not accounted', R + ';forward_on_fail=1', {}, dict(accounted=None)
    # search
    yield 'hunt stop', R + ';hs_scodes=486,404', {}, {'after 486': (0,)}
    yield 'hunt stop other', R + ';hs_scodes=404', {}, {}
    yield 'no hunt stop', R + ';hs_scodes=', {}, {}
    yield 'group', R + ';gt=10,1', {}, dict(timers=('10',))
    yield 'unknown', R + ';foo=bar', {}, {}
    yield 'equals sign in a value', R + ';foo=a=b;cnam=A=B;auth=joe:a=b', {}, dict(caller_name=K('A=B'), username=K('joe'), password=K('a=b'), pass_auth=FALSE)
    yield 'call id hidden', R, dict(hide=1), dict(call_id=('hidden', 'other than the caller\'s'))
    every = ['credit-time=30', 'expires=20', 'np_expires=21', 'nr_expires=22', 'auth=joe:pw', 'cli=55', 'cnam=N', 'ash=X%3Ay', 'op=10.0.0.9', 'bill-to=t',
             'bill-cli=c', 'bill-cld=d', 'hs_scodes=486', 'gt=10,1', 'rtpp=0', 'foo=bar']
    diff = dict(credit_time=K(30), expire_time=K(20), no_progress_time=K(21), no_reply_time=K(22), username=K('joe'), password=K('pw'), pass_auth=FALSE,
                cli=K('55'), caller_name=K('N'), extra_headers=("'X:y'", 'passed'), outbound_proxy=('T', (K('10.0.0.9'), K(5060))),
                accounted=A('t', 'c', 'd', R), timers=('10',), cld=K('200'), nh_address=P(R, 5070))
    diff['after 486'] = (0,)
    yield 'everything', '200@%s:5070;' % R + ';'.join(every), dict(media=1, credit=100, max=50), diff
    yield 'everything, reversed', '200@%s:5070;' % R + ';'.join(every[::-1]), dict(media=1, credit=100, max=50), diff


BADROUTES = ('10.0.0.3;foo', '10.0.0.3:x', '10.0.0.3;credit-time=x', '10.0.0.3;expires=', '10.0.0.3;auth=u', '10.0.0.3;gt=5', '10.0.0.3;gt=a,b', '10.0.0.3;op=1.2.3.4:x',
             '10.0.0.3;hs_scodes=x', '10.0.0.3;rtpp=x', '[::1]x:y')
SKIPPED = (('10.0.0.3;credit-time=0', {}), ('10.0.0.3;expires=0', {}), ('10.0.0.3', dict(credit=0)))


def rtworld(repo, routes, opt, static=False):
    gc = {}
    if 'max' in opt:
        gc['max_credit_time'] = K(opt['max'])
    if opt.get('media'):
        gc['_rtp_proxy_clients'] = ('T', (S('client'),))
    if opt.get('hide'):
        gc['hide_call_id'] = TRUE
    extra = (('h323-credit-time', str(opt['credit'])),) if 'credit' in opt else ()
    w = RtCtl(repo, 'route', {}, results=[('granted', result(*routes, extra=extra))], tryauth=S('authhf'),
              eargs=dict(pass_headers=('T', (HDR,)), source=opt.get('source', SRC4)), **gc)
    w.init.sethp((HDR, '#text'), S('passed'))
    w.init.setfact(S('body'), Fact(none=False, truth=True))
    # authorized by address
    w.init.setfact(S('authhf'), Fact(none=False, truth=True))
    w.init.sethp((S('authhf'), 'username'), NONE)
    w.order = w.numbered = list(routes)
    w.hs, w.fof = {}, set()
    return w


def placed(w):
    """states after the authorization has been granted"""
    out = []
    for nm, f in w.stimuli(w.init):
        for s in f(w.init.copy()):
            for n2, f2 in w.stimuli(s):
                if n2.startswith('authorization'):
                    out += f2(cut(s))
    return out


def b05(ctx):
    ctx.rule = """Route texts followed from the parser to the attempt made from them: each parameter of the routing syntax has its documented
effect on the attempt and no other, whatever stands beside it; credit times are capped; unusable and exhausted routes are passed
over and the next one is tried; the static route serves any number of calls unchanged."""
    repo = ctx.repo
    rc = repo.cls('B2BRoute')
    where = must(repo, rc, '__init__').where()
    vis = set()
    for name, text, opt, diff in routecases():
        w = rtworld(repo, [text, '10.0.0.77'], opt)
        ss = placed(w)
        ctx.check(bool(ss), 'route:%s' % name, where, 'no outcome for the route %s' % text)
        for s in ss:
            L = lines(s)
            ctx.count('routes')
            ol = w.olegs(s)
            if not ctx.check(len(ol) == 1 and s.heap.get('#raised', NONE) == NONE, 'route:%s:attempt' % name, where, 'the route %s leads to %d attempts' % (text, len(ol)), L):
                continue
            got = observe(w, s, ol[0])
            want = dict(BASEROUTE, **diff)
            for k in sorted(want):
                a, b = got.get(k), want[k]
                ctx.check(a == b, 'route:%s:%s' % (name, k), where, 'the route %s %s: %s is %s instead of %s' % (
                    text, opt or '', k, show(a) if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in ('K', 'S', 'O', 'T', 'OP') else a,
                    show(b) if isinstance(b, tuple) and b and isinstance(b[0], str) and b[0] in ('K', 'S', 'O', 'T', 'OP') else b), L)
        vis |= w.I.visited
    for text, opt in [(t, {}) for t in BADROUTES] + list(SKIPPED):
        alone = rtworld(repo, [text], opt)
        for s in placed(alone):
            ctx.count('routes')
            g = given(s.events(), alone.a)
            d = s.heap.get((g[0], 'data'), NONE) if g else NONE
            ctx.check(not alone.olegs(s) and len(g) == 1 and kind(g[0]) == 'CCEventFail' and d[0] == 'T' and d[1][0] == K(500) and
                      s.heap.get('#raised', NONE) == NONE, 'unusable:alone', where,
                      'the caller does not get one 500 when the only route is %s' % text, lines(s))
        if 'credit' in opt:
            continue
        both = rtworld(repo, [text, '10.0.0.77'], opt)
        for s in placed(both):
            ctx.count('routes')
            ol = both.olegs(s)
            ok = len(ol) == 1 and dport(s.heap.get((ol[0], 'nh_address'))) == ('T', (K('10.0.0.77'), K(5060)))
            ctx.check(ok and s.heap.get('#raised', NONE) == NONE, 'unusable:next', where, 'the route behind the unusable %s is not tried' % text, lines(s))
    b05_static(ctx)
    b05_group(ctx)
    b05_second(ctx)
    ctx.visited(vis)
    ctx.floor('routes', 70)


def b05_second(ctx):
    """what an attempt is made with does not depend on the attempts before it"""
    where = must(ctx.repo, ctx.repo.cls('sippy.b2bua.CallController'), 'placeOriginate').where()
    cases = [c for c in routecases() if not c[2]]
    every = [c for c in cases if c[0] in ('plain', 'hunt stop', 'not accounted')] + [c for c in routecases() if c[0] == 'everything']
    opt = dict(media=1, credit=100, max=50)
    pairs = [(a, b) for a in every for b in cases] + [(a, b) for a in cases for b in every if b[0] != 'everything'] + [(a, b) for a in every for b in every]
    done = {}

    def obs(text, before):
        out = []
        w = rtworld(ctx.repo, before + [text, '10.0.0.77'], opt)
        for s in placed(w):
            cur = [s]
            for i in range(len(before)):
                cur = [s2 for s1 in cur for s2 in w.leave(cut(s1), w.olegs(s1)[-1], 'CCEventFail', ('T', (K(503), S('reason'))))]
            for s2 in cur:
                u = w.olegs(s2)[-1]
                o = observe(w, s2, u)
                o['timers'] = len(s2.heap.get('#timers', ())) - len(s.heap.get('#timers', ())) if before else len(o['timers'])
                ids = [pieces_of_id(w, s2, x) for x in w.olegs(s2)]
                out.append((o, s2, len(w.olegs(s2)), ids))
        ctx.visited(w.I.visited)
        return out
    for a, b in pairs:
        if a[1] == b[1] and a[0] != 'plain':
            continue
        ctx.count('pairs of routes')
        if b[1] not in done:
            done[b[1]] = obs(b[1], [])
            if not done[b[1]]:
                raise AnchorError('no attempt is seen with the route ' + b[1])
        want = done[b[1]][0][0]
        for o, s, n, ids in obs(b[1], [a[1]]):
            if not ctx.check(n == 2 and s.heap.get('#raised', NONE) == NONE, 'second:attempt', where, 'no second attempt with %s after %s' % (b[1], a[1]), lines(s)):
                continue
            for k in sorted(want):
                ctx.check(o.get(k) == want[k], 'second:%s' % k, where, 'the route %s tried after %s has another %s than when it is tried first (%s, not %s)' % (
                    b[1], a[1], k, o.get(k), want[k]), lines(s))
            ctx.check(ids[0] != ids[1], 'second:id', where, 'two attempts of a call have the same Call-ID', lines(s))


def pieces_of_id(w, s, u):
    observe_id = w.__dict__.setdefault('callids', {})
    if u not in observe_id:
        observe(w, s, u)
    return observe_id[u]


def b05_group(ctx):
    """gt=seconds,n: after so many seconds the n routes from here on have had their time"""
    where = must(ctx.repo, ctx.repo.cls('B2BRoute'), 'customize').where()
    for first in (0, 1):
        for n in (1, 2, 3):
            hosts = ['10.0.0.7%d' % i for i in range(first + 4)]
            text = list(hosts)
            text[first] += ';gt=10,%d' % n
            w = rtworld(ctx.repo, text, {})
            cur = placed(w)
            for i in range(first):
                cur = [s2 for s in cur for s2 in w.leave(cut(s), w.olegs(s)[-1], 'CCEventFail', ('T', (K(503), S('reason'))))]
            for s in cur:
                ctx.count('routes')
                t = [(nm, f) for nm, f in w.stimuli(s) if nm.startswith('the group timer')]
                if not ctx.check(len(t) == 1, 'group:timer', where, 'no timer for the group of the route %s' % text[first], lines(s)):
                    continue
                for s2 in t[0][1](cut(s)):
                    at = s2.heap.get((w.olegs(s2)[-1], 'nh_address'), NONE)
                    want = hosts[first + n]
                    ctx.check(s2.heap.get('#raised', NONE) == NONE and at[0] == 'T' and at[1][0] == K(want), 'group:next', where,
                              'when the time of %s is over the route tried is %s instead of %s' % (text, show(at[1][0]) if at[0] == 'T' else at, want), lines(s2))


def b05_static(ctx):
    """authorization off: the static route, again and again"""
    repo = ctx.repo
    rc = repo.cls('B2BRoute')
    where = must(repo, rc, 'getCopy').where()
    texts = ['10.0.0.3', '200@10.0.0.3:5070;credit-time=30;expires=20;np_expires=21;nr_expires=22;auth=joe:pw;cli=55;cnam=N;ash=X%3Ay;op=10.0.0.9;'
             'bill-to=t;bill-cli=c;bill-cld=d;gt=10,1;rtpp=0', '@10.0.0.3;cli=;credit-time=-1;auth=nopass', 'gw.example.com;forward_on_fail=1']
    for text in texts:
        for mx in (None, 50):
            opt = {} if mx is None else dict(max=mx)
            # as a routing answer would have it
            ref = rtworld(repo, [text], opt)
            want = [observe(ref, s, ref.olegs(s)[0]) for s in placed(ref) if ref.olegs(s)]
            w = rtworld(repo, [], opt)
            I = w.I
            st = w.init
            cfgd = ('D', 'config')
            for s0, oc in make(I, st, rc, [K(text)]):
                if oc[0] == 'raise':
                    ctx.check(False, 'static:parse', where, 'the static route %s cannot be parsed' % text, lines(s0))
                    continue
                rt = oc[1]
                sr = ('D', 'static')
                s0 = s0.copy()
                s0.sethp((sr, 'map'), ((K(''), rt),))
                m = tuple((k, v) for k, v in s0.heap[(cfgd, 'map')] if k != K('auth_enable'))
                s0.sethp((cfgd, 'map'), m + ((K('auth_enable'), FALSE), (K('_static_routes'), sr)))
                before = snapshot(I, s0, rt)
                for nm, f in w.stimuli(s0):
                    for s in f(cut(s0)):
                        ctx.count('routes')
                        ol = w.olegs(s)
                        if not ctx.check(len(ol) == 1, 'static:attempt', where, 'the static route %s leads to %d attempts' % (text, len(ol)), lines(s)):
                            continue
                        got = observe(w, s, ol[0])
                        for x in want[:1]:
                            for k in sorted(x):
                                ctx.check(got.get(k) == x[k], 'static:%s' % k, where, 'the static route %s has another %s than the same route in a routing answer (%s, not %s)' % (
                                    text, k, got.get(k), x[k]), lines(s))
                        after = snapshot(I, s, rt)
                        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
                        ctx.check(not ch, 'static:changed', where, 'a call changes the static route %s: %s' % (text, ', '.join(ch)), lines(s))
            ctx.visited(I.visited)


def make(I, st, ci, args):
    """an object built by its constructor -> [(state, outcome)]"""
    o = ('O', 'made:' + ci.name, ci)
    return [(s, ('ret', o) if oc[0] != 'raise' else oc) for s, oc in I.run(must(I.repo, ci, '__init__'), o, args, None, st.copy())]


def snapshot(I, s, o):
    out = {}
    for k, v in s.heap.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] == o:
            if v[0] == 'D':
                v = tuple((a, b) for a, b in s.heap.get((v, 'map'), ()))
            elif v[0] == 'L':
                v = s.heap.get((v, 'items'))
            out[str(k[1])] = v
    return out


RULES['B05'] = b05
