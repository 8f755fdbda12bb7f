"""C09: authentication challenges.  The response handler is analysed under
seeded entry conditions (credentials present or not, credentials already sent,
leg ended, challenge unsupported, ...)."""
from ..leg import LegRuns, JoinCfg, phase, side, UA, S, K, NONE, is_k, kval, leg_state, mk_resp, Path, Case
from ..interp import Interp, Fact, TRUE, FALSE
from ..repo import AnchorError, ClassInfo

HDR = {401: ('www-authenticate', 'authorization'), 407: ('proxy-authenticate', 'proxy-authorization')}


class Cfg9(JoinCfg):
    sent = K(0)         # credentials in the challenged request
    present = K(1)      # challenges in the response
    supported = True

    def relevant(self, ev):
        return JoinCfg.relevant(self, ev) or (ev.kind == 'call' and ev.name in (
            'getHFs', 'getHF', 'getHFBodys', 'countHFs', 'appendHeader', 'genAuthHF')) or (
            ev.kind == 'set' and ev.name in ('challenges', 'triedauth'))

    def rel_heap(self, key):
        return JoinCfg.rel_heap(self, key) or (len(key) == 2 and key[1] in ('challenges', 'triedauth'))

    def on_call(self, interp, st, ev):
        if ev.name == 'countHFs' and ev.recv is not None:
            interp.emit(st, ev)
            return [(st, self.present if ev.recv == S('resp') else self.sent)]
        if ev.name == 'supportedAlgorithm':
            interp.emit(st, ev)
            return [(st, ('T', (TRUE, S('qop')) if self.supported else (FALSE, NONE)))]
        return JoinCfg.on_call(self, interp, st, ev)


def base(st):
    st.sethp((UA, 'username'), S('user'))
    st.sethp((UA, 'password'), S('pass'))
    for n in ('user', 'pass'):
        st.setfact(S(n), Fact(none=False, truth=True))
    st.sethp((UA, 'pass_auth'), FALSE)


def seeds():
    def without(a, v):
        def f(st):
            base(st)
            st.sethp((UA, a), v)
        return f

    def over(st):
        base(st)
        st.heap.pop((UA, 'disconnect_ts'), None)
        st.sethp((UA, 'disconnect_ts'), S('dts'))
        st.setfact(S('dts'), Fact(none=False, truth=True))
    return {'no name': (without('username', NONE), {}), 'no password': (without('password', NONE), {}),
            'pass-through': (without('pass_auth', TRUE), {}), 'ended': (over, {}),
            'credentials already sent': (base, {'sent': K(1)}), 'unsupported challenge': (base, {'supported': False})}


def retries(p):
    return [e for k, m, e in [w for w in p.wire() if w[0] == 'req'] if m == 'INVITE']


def with_credentials(p, e):
    """the request handed over carries a header built by genAuthHF"""
    r = e.arg(0, 'msg')
    apps = [x for x in p.events if x.kind == 'call' and x.name == 'appendHeader' and x.recv == r]
    return [x for x in apps], [x for x in p.events if x.kind == 'call' and x.name == 'genAuthHF']


def c09(ctx):
    ctx.rule = '''The response handler of a leg is analysed, in every state that waits for an answer to an INVITE, for 401 and
407 under seeded entry conditions: with credentials configured and unused there is exactly one retry, built from a challenge
and the configured name and password, and the challenged INVITE is forgotten; without a name or a password, with
authentication passed through, after the end of the leg, with credentials already in the challenged INVITE or only
unsupported challenges there is none. The failure reported by a leg passing authentication through carries every challenge
of the response. The same for the keep-alive of an answered call, with its own used-up mark.'''
    L = LegRuns(ctx)
    waiting = [c for c in L.states if side(c) == 'uac' and phase(c) in ('early', 'established', 'ended')
               or c.name == 'UaStateConnected']
    mk = lambda **kw: mkcfg(L.repo, **kw)
    for c in waiting:
        early = phase(c) == 'early'
        for code, (ch, au) in sorted(HDR.items()):
            stim = ('resp', (str(code), code, code))
            key = '%s/%d' % (c.name, code)
            # (1) the retry
            if early:
                case = L.run(c, stim, seed=base, cfg=mk())
                got = 0
                for p in case.paths:
                    if p.oc[0] != 'ret':
                        continue
                    rs = retries(p)
                    if not rs:
                        continue
                    got += 1
                    ctx.count('retries')
                    ctx.check(len(rs) == 1, key + '/once', p.where(), 'one challenge is answered with %d INVITEs' % len(rs), p.lines())
                    apps, gens = with_credentials(p, rs[0])
                    ctx.check(len(gens) == 1 and bool(apps), key + '/credentials', p.where(),
                              'the INVITE sent in answer to a challenge carries no credentials', p.lines())
                    for g in gens[:1]:
                        ctx.check(g.arg(0, 'username') == S('user') and g.arg(1, 'password') == S('pass'), key + '/whose', p.where(),
                                  'credentials are not computed from the configured name and password', p.lines())
                        src = [x for x in p.events if x.kind == 'call' and x.name in ('getHFBodys', 'getHFs', 'getHFBody', 'getHF')
                               and x.args and x.recv == S('resp') and x.args[0] == K(ch)]
                        ctx.check(bool(src), key + '/which', p.where(), 'the %d challenge is not read from the %s header' % (code, ch), p.lines())
                    seen = [x for x in p.events if x.kind == 'call' and x.name == 'countHFs' and x.recv != S('resp') and x.args and x.args[0] == K(au)]
                    ctx.check(bool(seen), key + '/seen', p.where(),
                              'no look at the %s header of the challenged INVITE before answering the challenge' % au, p.lines())
                    gone = [x for x in p.events if x.kind == 'delitem' or (x.kind == 'call' and x.name == 'pop')]
                    ctx.check(bool(gone), key + '/forget', p.where(), 'the challenged INVITE is not forgotten when it is retried', p.lines())
                    e = p.end_cls()
                    ctx.check(e is c and not p.reported(), key + '/stay', p.where(), 'the leg does not go on waiting after answering a challenge', p.lines())
                ctx.check(got > 0, key + '/answer', c.find('recvResponse').where(), 'a %d challenge is never answered with credentials' % code)
            # (2) no retry
            for name, (seed, kw) in sorted(seeds().items()):
                case = L.run(c, stim, seed=seed, cfg=mk(**kw))
                for p in case.paths:
                    ctx.count('unanswerable challenges')
                    rs = [e for e in retries(p)]
                    ctx.check(not rs, key + '/' + name, p.where(), 'a %d challenge is answered with another INVITE (%s)' % (code, name), p.lines())
            # (3) relay
            if early and not c.name.endswith('Updating'):
                case = L.run(c, stim, seed=seeds()['pass-through'][0], cfg=mk())
                n = 0
                for p in case.paths:
                    if p.oc[0] != 'ret':
                        if p.oc[0] == 'raise':
                            continue
                    fails = [v for v, e in p.reported() if v[0] == 'O' and isinstance(v[2], ClassInfo) and any(x.name == 'CCEventFail' for x in v[2].repo_mro())]
                    for v in fails:
                        n += 1
                        ctx.count('relayed challenges')
                        cv = p.st.heap.get((v, 'challenges'))
                        src = [x for x in p.events if x.kind == 'call' and x.name == 'getHFs' and x.recv == S('resp') and x.args and x.args[0] == K(ch)]
                        ctx.check(cv is not None and not is_k(cv) and bool(src), key + '/relay', p.where(),
                                  'a leg passing authentication through reports %d without the challenges (%s headers) of the response' % (code, ch), p.lines())
                ctx.check(n > 0, key + '/relay-none', c.find('recvResponse').where(), 'no failure is reported for a %d response' % code)
    # (4) keep-alive
    keepalive(ctx, L)
    ctx.floor('retries', 4)
    ctx.floor('relayed challenges', 4)
    ctx.floor('unanswerable challenges', 60)
    ctx.floor('keep-alive paths', 8)


def mkcfg(repo, **kw):
    c = Cfg9(repo)
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def keepalive(ctx, L):
    c = L.repo.cls('UaStateConnected')
    fi = None
    # the response handler registered by the keep-alive timer's request
    ka = c.find('keepAlive')
    if ka is None:
        raise AnchorError('keep-alive of an answered call not found')
    cfg = mkcfg(L.repo)
    st, so = leg_state(L.repo, c, cfg)
    base(st)
    started = 0
    handler = None
    for s2, oc in Interp(L.repo, cfg).run(ka, so, [], st=st):
        for e in s2.events():
            if e.kind == 'call' and e.name == 'newTransaction' and e.callee is not None:
                cb = e.arg(2, 'resp_cb') if e.arg(2, 'resp_cb', None) is not None else e.arg(1, 'resp_cb')
                for x in list(e.args) + [v for k, v in e.kw]:
                    if isinstance(x, tuple) and x and x[0] == 'B':
                        handler = x[2]
                started += 1
                # a fresh keep-alive may use the credentials again
                v = s2.heap.get((so, 'triedauth'))
                ctx.check(v == FALSE, 'keepalive/fresh', ka.where(), 'a new keep-alive does not reset the mark that credentials were used')
    if handler is None:
        raise AnchorError('response handler of the keep-alive not found')
    for code, (ch, au) in sorted(HDR.items()):
        variants = {'': (base, {}, FALSE)}
        for n in ('no name', 'no password', 'unsupported challenge'):
            variants[n] = seeds()[n] + (FALSE,)
        variants['credentials already sent'] = (base, {}, TRUE)
        for name, (seed, kw, tried) in sorted(variants.items()):
            cfg = mkcfg(L.repo, **kw)
            st, so = leg_state(L.repo, c, cfg)
            seed(st)
            st.sethp((so, 'triedauth'), tried)
            r = mk_resp(L.repo, st, code, code)
            n = 0
            for s2, oc in Interp(L.repo, cfg).run(handler, so, [r], st=st):
                ctx.count('keep-alive paths')
                case = Case(cfg, c, 'resp', 'keep-alive %d' % code, st.heap[(UA, 'equeue')])
                case.entry = handler
                p = Path(case, s2, oc)
                rs = retries(p)
                key = 'keepalive/%d' % code
                if name:
                    ctx.check(not rs, key + '/' + name, handler.where(), 'a challenged keep-alive is sent again (%s)' % name, p.lines())
                elif rs:
                    n += 1
                    apps, gens = with_credentials(p, rs[0])
                    ctx.check(len(rs) == 1 and len(gens) == 1 and bool(apps), key + '/credentials', handler.where(),
                              'the keep-alive sent in answer to a challenge carries no credentials', p.lines())
                    ctx.check(s2.heap.get((so, 'triedauth')) == TRUE, key + '/mark', handler.where(),
                              'answering a keep-alive challenge does not mark the credentials as used', p.lines())
                    # the tuple the request builder unpacks
                    for e in p.calls('genRequest'):
                        cq = e.arg(2, 'cqop')
                        ctx.check(cq is None or is_k(cq) or cq[0] == 'T' and len(cq[1]) == 2, key + '/shape', handler.where(),
                                  'the request builder expects the challenge together with the quality of protection', p.lines())
            if not name:
                ctx.check(n > 0, 'keepalive/%d/answer' % code, handler.where(), 'a challenged keep-alive is never answered with credentials')


RULES = {'C09': c09}
