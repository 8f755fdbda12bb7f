"""Transaction-layer rules (T..): typestate + effect analysis of a SIP
transaction over every stimulus in every reachable situation."""
from ..tm import (TmRuns, TmCfg, TCase, TPath, TM, T, TCLIENT, TSERVER, CACHE1, CACHE2, CSUM, TID, HANDLES, KINDS, RANGES)
from ..leg import timer_status
from ..interp import Interp, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval
from ..repo import AnchorError, ClassInfo
from .leg_rules import stopped

_cache = {}


def runs(ctx):
    if id(ctx.repo) not in _cache:
        _cache.clear()
        _cache[id(ctx.repo)] = TmRuns(ctx).fixpoint()
    r = _cache[id(ctx.repo)]
    ctx.sample('reachable situations: %s' % '; '.join(sorted('%s %s %s' % (k, s.name, sorted(a)) for k, s, a in r.nodes)))
    ctx.count('situations', len(r.nodes))
    ctx.floor('situations', 12)
    return r


def cases(ctx):
    R = runs(ctx)
    for k, c in sorted(R.cases.items(), key=lambda x: (x[0][0], x[0][1] or '', sorted(x[0][2]), x[0][3])):
        yield R, c


def live(c):
    return c.state is not None


def fin(p, v):
    """is the response code value final on this path: True/False/None"""
    if v is None:
        return None
    if is_k(v):
        return kval(v) >= 200
    f = p.st.fact(v)
    if f.lo is not None and f.lo[0] >= 200:
        return True
    if f.hi is not None and (f.hi[0] < 200 or f.hi == (200, True)):
        return False
    return None


def endstate(R, p):
    t = R.tobj(p)
    v = p.st.heap.get((t, 'state')) if t is not None else None
    return v[1].name if v is not None and v[0] == 'C' else None


# ------------------------------------------------------------------------ T01
def t01(ctx):
    ctx.rule = ('The situations (state, armed timers) a transaction can be in are computed as a least fixpoint over all stimuli. '
                'On every path no armed timer handle is overwritten or dropped, the transaction is always registered under '
                'exactly its own identifier, leaving the table comes with all timers stopped and all callbacks released, and from '
                'every situation that waits for neither the application nor the controller the armed timers lead to removal.')
    for R, c in cases(ctx):
        for p in c.paths:
            t = R.tobj(p)
            if t is None:
                ctx.check(p.oc[0] == 'raise' or not any(e.kind == 'setitem' and e.recv in (TCLIENT, TSERVER) for e in p.events),
                          c.name + '/object', p.where(), 'something else than a transaction is registered', p.lines())
                continue
            for ev in p.events:
                if ev.kind == 'set' and ev.name in HANDLES and ev.recv == t:
                    old = ev.st[0].get((t, ev.name), NONE)
                    ctx.count('timer stores')
                    ctx.check(stopped(p, ev, old), '%s/lost/%s' % (c.name, ev.name), ev.where(),
                              'timer handle %s is overwritten while the timer may be running' % ev.name, p.lines())
            reg, bad = R.registration(p)
            for e, why in bad:
                ctx.check(False, c.name + '/key', e.where(), why, p.lines())
            if p.oc[0] == 'raise':
                ctx.check(live(c) or not reg, c.name + '/halfmade', p.where(),
                          'the transaction stays registered although its creation failed', p.lines())
                continue
            if not reg:
                if not live(c) and not any(e.kind == 'setitem' and e.recv in (TCLIENT, TSERVER) for e in p.events):
                    ctx.check(not R.armed(p, t), c.name + '/stray', p.where(), 'a transaction never registered has timers '
                              'running', p.lines())
                    continue
                ctx.count('removals')
                left = sorted(R.armed(p, t))
                ctx.check(not left, c.name + '/left', p.where(), 'removed transaction leaves timers %s running' % left, p.lines())
                keep = [a for a in ('resp_cb', 'cancel_cb', 'noack_cb', 'ack_cb', 'req_out_cb', 'res_out_cb')
                        if not is_k(p.st.heap.get((t, a), S('x')))]
                ctx.check(not keep, c.name + '/cleanup', p.where(), 'removed transaction still holds %s' % keep, p.lines())
            else:
                tid = p.st.heap.get((t, 'tid'))
                ctx.check(reg == {tid}, c.name + '/registered', p.where(), 'transaction with identifier %s is registered under %s'
                          % (show(tid) if tid else None, [show(x) for x in reg]), p.lines())
                if c.kind == 'server/other' and not live(c):
                    # nobody was asked to answer it: nothing will ever remove it
                    ctx.check(bool(p.cbs('req_cb')), c.name + '/unclaimed', p.where(), 'a request nobody can answer stays '
                              'registered for ever', p.lines())
    R = runs(ctx)
    # timers lead out of every situation
    good = set()
    for n in R.nodes:
        if n[1].name == 'UACK' or (n[0] == 'server/other' and n[1].name in ('TRYING', 'RINGING')):
            good.add(n)
    changed = True
    while changed:
        changed = False
        for n, ss in R.nodes.items():
            if n in good:
                continue
            for stim, x in ss:
                if stim[1] == 'timer' and (x == ('removed',) or x in good):
                    good.add(n)
                    changed = True
    for n in R.nodes:
        ctx.check(n in good, '%s/%s/stuck' % (n[0], n[1].name), R.mod.path, 'a %s transaction in %s with timers %s is never '
                  'removed' % (n[0], n[1].name, sorted(n[2])))
    ctx.floor('timer stores', 40)
    ctx.floor('removals', 20)


# ------------------------------------------------------------------------ T02
class InCfg(TmCfg):
    join = False

    def inline(self, interp, st, fi, ev):
        return fi.name not in ('incomingRequest', 'incomingResponse', 'sendResponse') and super().inline(interp, st, fi, ev)

    def may_raise(self, interp, st, ev):
        if ev.kind == 'call' and ev.name == 'incomingRequest':
            return True
        return super().may_raise(interp, st, ev)


def t02(ctx):
    ctx.rule = ('Every path of datagram handling: a datagram whose digest is in either generation of the cache only retransmits '
                'the stored reply; on any other path that calls the application, changes a transaction or sends something, the '
                'digest of this very datagram is recorded with exactly what was sent, or the request stays registered as a '
                'transaction which absorbs retransmissions; the cache keeps entries for at least one purge interval of 32 s.')
    R = runs(ctx)
    for R, c in cases(ctx):
        if c.label not in ('new', 'retransmission', 'CANCEL', 'ACK') and not c.label.startswith('response'):
            continue
        if c.kind.startswith('client') and c.label == 'new':
            continue
        for p in c.paths:
            if p.oc[0] == 'raise':
                continue
            t = R.tobj(p)
            up = p.cbs()
            st0 = c.state.name if c.state else None
            est = endstate(R, p)
            reg, _ = R.registration(p)
            effect = bool(up) or bool(p.sends()) or (live(c) and (est != st0 or not reg))
            if not effect:
                ctx.check(True, c.name, '', '')
                continue
            ctx.count('effectful paths')
            rec = [e for e in p.events if e.kind == 'setitem' and e.recv == CACHE1 and e.args[0] == CSUM]
            absorbed = (not live(c) and bool(reg)) or (c.label == 'retransmission' and not up and bool(reg))
            declined = not live(c) and not reg and not p.sends()
            pend = live(c) and est == 'UACK'
            ctx.check(bool(rec) or absorbed or declined, c.name + '/unrecorded', p.where(), 'a retransmission of this datagram '
                      'would be processed again', p.lines())
            if c.label == 'retransmission':
                ctx.check(not up, c.name + '/again', p.where(), 'retransmitted request is given to the application again', p.lines())
                ctx.check(all(m == 'stored' for m in p.msgs()) and len(p.sends()) <= 1, c.name + '/resend', p.where(),
                          'retransmitted request is answered with %s' % p.msgs(), p.lines())
                if st0 != 'TRYING':
                    ctx.check(len(p.sends()) == 1 or p.st.fact(S('t.data')).none is True, c.name + '/noresend', p.where(),
                              'retransmitted request is not answered again', p.lines())
    # replies are recorded under the digest of the request they answer
    for R, c in cases(ctx):
        if not c.label.startswith('answer') and c.label != 'CANCEL':
            continue
        for p in c.paths:
            for d, a, e in p.sends():
                if p.oc[0] == 'raise' or c.label == 'CANCEL':
                    continue
                rec = [x for x in p.events if x.kind == 'setitem' and x.recv == CACHE1 and x.args[0] == S('t.checksum')]
                ok = [x for x in rec if x.val[0] == 'O' and (p.st.heap.get((x.val, 'data')) == d or
                      p.st.heap.get((x.val, '#args'), ('T', ()))[1][1:2] == (d,))]
                ctx.count('replies')
                ctx.check(bool(ok), c.name + '/reply', p.where(), 'the reply is not recorded for retransmissions of the request',
                          p.lines())
    # the entry point
    cfg = InCfg(ctx.repo)
    cfg.reentrant = None
    fi = R.method('handleIncoming')
    digests = set()
    for known in (None, CACHE1, CACHE2):
        st = R.mk('server/other', None, frozenset())
        st.setfact(S('data_in'), Fact(none=False, truth=True))
        hit = S('remembered')
        st.setfact(hit, Fact(none=False, truth=True))
        for m in (CACHE1, CACHE2):
            if m == known:
                st.sethp((m, '#hit'), hit)
            else:
                st.sethp((m, '#miss'), TRUE)
        data, server = S('data_in'), S('server')
        st.setfact(server, Fact(none=False, truth=True))
        ip = Interp(ctx.repo, cfg)
        case = TCase(cfg, 'any', None, frozenset(), 'datagram')
        case.entry = fi
        for s2, oc in ip.run(fi, TM, [data, S('ra'), server, S('rtime')], st=st):
            p = TPath(case, s2, oc)
            ups = [e for e in p.events if e.kind == 'call' and e.name in ('incomingRequest', 'incomingResponse', 'sendResponse')]
            ans = [e for e in ups if e.name == 'sendResponse']
            recs = [e for e in p.events if e.kind == 'setitem' and e.recv == CACHE1]
            hits = [e for e in p.events if e.kind == 'lookup']
            ctx.count('datagram paths')
            if not hits:
                ctx.check(not ups and not p.sends() and not recs, 'handleIncoming/unchecked', p.where(), 'datagram is processed '
                          'without looking for it in the memory', p.lines())
                continue
            keys = {e.args[0] for e in hits}
            digests |= keys
            ctx.check(len(keys) == 1, 'handleIncoming/keys', p.where(), 'the memory generations are asked for different keys',
                      p.lines())
            k = next(iter(keys))
            if known is not None:
                w = 'handleIncoming/known/%s' % ('recent' if known == CACHE1 else 'older')
                ctx.check(oc[0] == 'ret' and not ups and not p.cbs(), w, p.where(), 'a datagram received before is processed again',
                          p.lines())
                snd = p.sends()
                ctx.check(len(snd) <= 1 and all(d == S('remembered.data') and a == S('remembered.address') and e.recv ==
                          S('remembered.userv') for d, a, e in snd), w + '/what', p.where(), 'a datagram received before is '
                          'answered with something else than the first time', p.lines())
                if not snd:
                    ctx.check(p.st.fact(S('remembered.data')).none is True or lossy(p), w + '/silent', p.where(), 'a datagram '
                              'received before is not answered again', p.lines())
                continue
            ctx.check({e.recv for e in hits} == {CACHE1, CACHE2} or not (ups or p.sends()), 'handleIncoming/generations',
                      p.where(), 'only one generation of the memory is asked', p.lines())
            ups = [e for e in ups if e not in ans]
            ctx.check(len(ups) <= 1, 'handleIncoming/twice', p.where(), 'datagram is processed twice', p.lines())
            for e in ups:
                ctx.check(k in e.args or k in dict(e.kw).values(), 'handleIncoming/digest', e.where(), 'the handler records a '
                          'different digest than the one looked up', p.lines())
            for e in recs:
                ctx.check(e.args[0] == k or 'checksum' in show(e.args[0]), 'handleIncoming/record', e.where(), 'a different digest '
                          'is recorded than the one looked up', p.lines())
            if not ups and oc[0] == 'ret' and p.sends():
                ctx.check(bool(recs), 'handleIncoming/unrecorded', p.where(), 'a datagram is answered without recording it',
                          p.lines())
        ctx.visited(ip.visited)
    for k in digests:
        ctx.check('data_in' in show(k), 'handleIncoming/whole', fi.where(), 'the digest does not depend on the datagram: %s'
                  % show(k))
    # life time of the cache
    st = R.mk('server/other', None, frozenset())
    ip = Interp(ctx.repo, R.cfg)
    pf = R.method('rCachePurge')
    l1 = ('D', 'old')
    st.sethp((l1, 'map'), ((K('x'), S('y')),))
    st.sethp((TM, 'l1rcache'), l1)
    for s2, oc in ip.run(pf, TM, [], st=st):
        n1, n2 = s2.heap.get((TM, 'l1rcache')), s2.heap.get((TM, 'l2rcache'))
        ctx.check(n2 == l1 and s2.heap.get((l1, 'map')) == ((K('x'), S('y')),), 'purge/second', pf.where(),
                  'purging forgets the current generation of recorded datagrams')
        ctx.check(n1 is not None and n1 != l1 and n1[0] == 'D' and not s2.heap.get((n1, 'map')), 'purge/first', pf.where(),
                  'purging does not start a new generation')
    ctx.visited(ip.visited)
    init = R.method('__init__')
    ip = Interp(ctx.repo, R.cfg)
    found = False
    for s2, oc in ip.run(init, TM, [S('global_config'), S('req_cb')]):
        for e in s2.events():
            if e.kind == 'call' and e.callee is not None and e.callee.module is R.cfg.timer_mod:
                cb = e.arg(0)
                if cb[0] == 'B' and cb[2] is pf:
                    found = True
                    iv, nt = e.arg(1, 'ival'), e.arg(2, 'nticks')
                    ctx.check(is_k(iv) and kval(iv) >= 32, 'purge/interval', e.where(), 'recorded datagrams are forgotten after '
                              '%s s, before the peer stops retransmitting' % show(iv))
                    ctx.check(nt == K(-1), 'purge/periodic', e.where(), 'the cache is not purged periodically')
    if not found:
        raise AnchorError('the timer purging the cache is not created')
    ctx.floor('effectful paths', 60)
    ctx.floor('replies', 6)
    ctx.floor('datagram paths', 8)


def lossy(p):
    """the reply is dropped on purpose (loss emulation)"""
    for v, f in p.st.facts.items():
        if v and 'lossemul' in show(v):
            return True
    return False


# ------------------------------------------------------------------------ T03
def t03(ctx):
    ctx.rule = ('Client transactions: every path on which a final response arrives at a waiting INVITE sends exactly one '
                'acknowledgment, or keeps it for the controller and sends it exactly once when told; it carries the tag of the '
                'response, a new branch and the target learnt from the response for 2xx and the original ones otherwise; '
                'no other path acknowledges; the response reaches the controller exactly once and nothing does afterwards; a '
                'cancellation is sent exactly once, at once after a provisional response or when the first one arrives, '
                'never after the final one.')
    uack_seen = 0
    for R, c in cases(ctx):
        if not c.kind.startswith('client'):
            continue
        st0 = c.state.name if c.state else None
        inv = c.kind.endswith('INVITE')
        for p in c.paths:
            if p.oc[0] == 'raise':
                ctx.check(c.label == 'new' or not modelled_raise(p), c.name + '/raise', p.where(), 'fails with %s' % show(p.oc[1]),
                          p.lines())
                ctx.check(not p.cbs(), c.name + '/raise', p.where(), 'fails after telling the controller', p.lines())
                continue
            m = p.msgs()
            acks = [i for i, x in enumerate(m) if x == 'ack']
            cancels = [i for i, x in enumerate(m) if x == 'cancel']
            ups = p.cbs('resp_cb')
            est = endstate(R, p)
            reg, _ = R.registration(p)
            ctx.count('client paths')
            key = c.name
            cbnull = p.st.fact(S('t.resp_cb')).none is True
            if c.label == 'new':
                ctx.check(m == ['request'], key + '/sent', p.where(), 'a new transaction sends %s' % m, p.lines())
                continue
            if c.label.startswith('response'):
                final = c.arg[1] >= 200
                waiting = st0 in ('TRYING', 'RINGING')
                if not waiting:
                    ctx.check(not m and not ups, key + '/late', p.where(), 'a response after the final one or the timeout has an '
                              'effect: %s' % (m or 'reported'), p.lines())
                    continue
                ctx.check(len(ups) == 1 or (cbnull and not ups), key + '/reported', p.where(),
                          'response is reported %d times' % len(ups), p.lines())
                for _, e in ups:
                    ctx.check(e.args[:1] == (S('msg'),), key + '/what', e.where(), 'something else than the response is reported',
                              p.lines())
                if final:
                    deferred = est == 'UACK' and reg
                    ctx.check(bool(deferred) or not reg, key + '/done', p.where(), 'transaction goes on after the final response',
                              p.lines())
                    want = 1 if inv and not deferred else 0
                    ctx.check(len(acks) == want, key + '/ack', p.where(), 'final response is acknowledged %d times, expected %d' % (
                        len(acks), want), p.lines())
                    ctx.check(not cancels and len(m) == len(acks), key + '/other', p.where(), 'final response makes us send %s' % m,
                              p.lines())
                    if inv:
                        ack_form(ctx, R, c, p, key)
                    if acks:
                        ctx.count('acknowledgments')
                        d, a, e = p.sends()[acks[0]]
                        ok = a is not None
                        if c.arg[1] >= 300:
                            ctx.check(a == S('t.address'), key + '/ack-to', p.where(), 'negative response is acknowledged to %s '
                                      'instead of where the INVITE went' % show(a), p.lines())
                else:
                    pend = p.st.fact(S('t.cancelPending')).truth
                    want = 1 if (st0 == 'TRYING' and pend is True and inv) else 0
                    ctx.check(not acks, key + '/ack', p.where(), 'provisional response is acknowledged', p.lines())
                    ctx.check(len(cancels) == want and len(m) == want, key + '/deferred-cancel', p.where(), 'provisional response %s'
                              'with a pending cancellation makes us send %s' % ('' if want else 'not ', m), p.lines())
                    ctx.check(est == 'RINGING', key + '/state', p.where(), 'provisional response leads to state %s' % est, p.lines())
                    if want:
                        ctx.check(p.st.heap.get((T, 'cancelPending')) == FALSE, key + '/again', p.where(),
                                  'deferred cancellation stays pending', p.lines())
            elif c.label == 'cancellation':
                if st0 == 'RINGING':
                    ctx.check(m == ['cancel'], key + '/cancel', p.where(), 'cancelling a ringing call sends %s' % m, p.lines())
                else:
                    ctx.check(not m, key + '/early', p.where(), 'cancelling before any response or after the final one sends %s' % m,
                              p.lines())
                    if st0 == 'TRYING':
                        ctx.check(p.st.heap.get((T, 'cancelPending')) == TRUE, key + '/deferred', p.where(),
                                  'a cancellation before the first response is forgotten', p.lines())
                ctx.check(not ups and est == st0, key + '/silent', p.where(), 'cancelling changes or reports something', p.lines())
            elif c.label == 'deferred ACK':
                ctx.check(m == ['ack'], key + '/ack', p.where(), 'telling to acknowledge sends %s' % m, p.lines())
                ctx.check(not reg and not ups, key + '/done', p.where(), 'transaction goes on after the deferred acknowledgment',
                          p.lines())
                if acks:
                    ctx.count('acknowledgments')
                    d, a, e = p.sends()[acks[0]]
                    ctx.check('ack_rAddr' in show(a), key + '/ack-to', p.where(), 'deferred acknowledgment goes to %s' % show(a),
                              p.lines())
            elif c.label.startswith('expiry'):
                ctx.check(not acks and not cancels, key + '/timer', p.where(), 'a timer sends %s' % m, p.lines())
    uack_rule(ctx, runs(ctx))
    ctx.floor('client paths', 60)
    ctx.floor('acknowledgments', 8)


def modelled_raise(p):
    """the exception comes from the code itself, not from a fault the model
    injects into a callee"""
    v = p.oc[1]
    if any(e.kind == 'raise' and e.val == v for e in p.events):
        return False        # refused on purpose
    return not (v[0] == 'S' and v[1].startswith(('exc@', 'lookup@')))


def ack_form(ctx, R, c, p, key):
    ack = S('t.ack')
    def on(v, names):
        return v is not None and show(v).startswith('t.ack') and True
    tags = [e for e in p.events if e.kind == 'call' and e.name == 'setTag' and on(e.recv, 0)]
    br = [e for e in p.events if e.kind == 'call' and e.name == 'genBranch' and on(e.recv, 0)]
    uri = [e for e in p.events if e.kind == 'call' and e.name == 'setRURI' and e.recv == ack]
    rt = [e for e in p.events if e.kind == 'call' and e.name == 'delHFs' and e.recv == ack and K('route') in e.args]
    addr = [e for e in p.events if e.kind == 'call' and e.name == 'appendHeaders' and e.recv == ack]
    tgt = [e for e in p.events if e.kind == 'call' and e.name == 'setTarget' and e.recv == ack]
    snd = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'localStr' and e.recv == ack]
    tagf = [v for v in p.st.facts if v[0] == 'S' and 'getTag()' in v[1] and v[1].startswith('msg.')]
    notag = any(p.st.fact(v).none is True for v in tagf)
    if not notag:
        ctx.check(len(tags) == 1 and 'msg.' in show(tags[0].args[0]), key + '/ack-tag', p.where(), 'the acknowledgment does not '
                  'carry the tag of the response', p.lines())
    two = c.arg[2] < 300
    ctx.check(len(br) == (1 if two else 0), key + '/ack-branch', p.where(), 'the acknowledgment of a %s response %s' % (
        c.arg[0], 'reuses the branch of the INVITE' if two else 'does not use the branch of the INVITE'), p.lines())
    if two:
        ctx.check(bool(rt) and bool(addr) and p.events.index(rt[0]) < p.events.index(addr[0]), key + '/ack-route', p.where(),
                  'the acknowledgment does not take over the route set of the response', p.lines())
    else:
        ctx.check(not uri and not rt and not tgt, key + '/ack-target', p.where(), 'the acknowledgment of a negative response goes '
                  'elsewhere than the INVITE', p.lines())
    # complete before it is serialised
    for i in snd:
        late = [e for e in tags + br + uri + rt + addr if p.events.index(e) > i]
        ctx.check(not late, key + '/ack-late', p.where(), 'the acknowledgment is serialised before it is complete', p.lines())


def uack_rule(ctx, R):
    """Whoever wants to acknowledge itself must say so before the decision is
    taken: the flag is set from the response callback, so the callback has to
    run before the acknowledgment is sent."""
    import ast
    setters = []
    for f in ctx.repo.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'uack' for t in n.targets) and \
                    isinstance(n.value, ast.Constant) and n.value.value is True:
                setters.append((f, n))
    for f, n in setters:
        cbs = [a.arg for a in f.node.args.args]
        in_cb = 'resp' in cbs and 'tr' in cbs
        if not in_cb:
            continue
        ctx.count('deferring callers')
        ok = True
        for k, c in R.cases.items():
            if c.kind != 'client/INVITE' or c.label != 'response 2xx' or c.state.name not in ('TRYING', 'RINGING'):
                continue
            for p in c.paths:
                i_cb = [i for i, e in enumerate(p.events) if R.cfg.user_cb(e) == 'resp_cb']
                i_snd = [i for i, (d, a, e) in enumerate(p.sends())]
                sends = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'send_to']
                if i_cb and sends and sends[0] < i_cb[0]:
                    ok = False
        ctx.check(ok, '%s/deferred-too-late' % (f.cls.name if f.cls is not None else f.short), f.where(n), 'asks to acknowledge the answer itself, but the transaction '
                  'layer has already acknowledged it before calling back')


# ------------------------------------------------------------------------ T04
def t04(ctx):
    ctx.rule = ('Server transactions: a new request reaches exactly one consumer exactly once; a final answer to INVITE is kept '
                'and repeated until acknowledged, the acknowledgment (reported once) or its absence (reported once) ends it; CANCEL '
                'is answered 200 and, while the INVITE is unanswered, 487 is sent and the controller told exactly once, 481 '
                'when there is nothing to cancel; a second final answer is refused before anything is sent; a looping '
                'request is answered 482; nothing else reaches the network or the controller.')
    for R, c in cases(ctx):
        if not c.kind.startswith('server'):
            continue
        st0 = c.state.name if c.state else None
        inv = c.kind.endswith('INVITE')
        for p in c.paths:
            m = p.msgs()
            ups = p.cbs()
            names = [n for n, _ in ups]
            est = endstate(R, p)
            reg, _ = R.registration(p)
            key = c.name
            ctx.count('server paths')
            if c.label == 'new':
                if p.oc[0] == 'raise':
                    continue
                loop = [x for x in m if isinstance(x, tuple) and x[1] == K(482)]
                if loop:
                    ctx.check(m == loop and len(m) == 1 and not ups, key + '/loop', p.where(), 'a looping request also causes %s' %
                              (names or m), p.lines())
                    continue
                nocb = p.st.fact(S('tm.req_cb')).none is True
                ctx.check(names == ['req_cb'] or (nocb and not names), key + '/once', p.where(),
                          'a new request is given to the application %d times' % len(names), p.lines())
                answers = [x for x in m if isinstance(x, tuple) and x[0] == 'resp']
                ctx.check(len(m) <= 1 and len(answers) == len(m), key + '/answer', p.where(), 'a new request causes %s' % m, p.lines())
                continue
            if c.label.startswith('answer'):
                if st0 not in ('TRYING', 'RINGING'):
                    ctx.check(p.oc[0] == 'raise' and not m and not names and not [e for e in p.events if e.kind == 'set' and
                              e.recv == T], key + '/second', p.where(), 'an answer after the final one is not refused', p.lines())
                    continue
                if p.oc[0] == 'raise':
                    ctx.check(not m, key + '/raise', p.where(), 'answer fails after it was sent', p.lines())
                    continue
                loss = p.st.heap.get((p, 'x'))
                ctx.check(m == [('resp', S('code'))] , key + '/sent', p.where(), 'answering sends %s' % m, p.lines())
                final = c.arg[1] >= 200
                ctx.check(not names, key + '/callback', p.where(), 'answering calls %s' % names, p.lines())
                if not final:
                    ctx.check(est == 'RINGING' and reg, key + '/state', p.where(), 'provisional answer ends the transaction', p.lines())
                elif inv:
                    ctx.check(est == 'COMPLETED' and bool(reg) and {'teA', 'teD'} <= R.armed(p, T), key + '/kept', p.where(),
                              'final answer to INVITE is not kept for repetition', p.lines())
                    # what is repeated is what was sent
                    ctx.check(p.st.heap.get((T, 'data')) == p.sends()[0][0] if p.sends() else False, key + '/stored', p.where(),
                              'the stored copy of the answer differs from what was sent', p.lines())
                    ctx.check(bool(reg) and all(k[0] == 'T' and k[1][:3] == TID[1][:3] and len(k[1]) == 4 and
                              mentions(k[1][3], 'getTag') for k in reg),
                              key + '/rekey', p.where(), 'the answered INVITE cannot be matched with its acknowledgment: registered '
                              'under %s' % [show(k) for k in reg], p.lines())
                else:
                    ctx.check(not reg, key + '/done', p.where(), 'answered transaction is kept', p.lines())
                continue
            if p.oc[0] == 'raise':
                ctx.check(False, key + '/raise', p.where(), 'handling fails', p.lines())
                continue
            if c.label == 'retransmission':
                continue    # see T02
            if c.label == 'CANCEL':
                pend = st0 in ('TRYING', 'RINGING') and inv
                want = [K(200)] + ([K(487)] if pend else [])
                got = [x[1] if isinstance(x, tuple) else x for x in m]
                ctx.check(got == want or (pend and sorted(map(repr, got)) == sorted(map(repr, want))), key + '/answers', p.where(),
                          'CANCEL in this situation sends %s' % [show(x) if isinstance(x, tuple) else x for x in got], p.lines())
                told = p.cbs('cancel_cb')
                nocb = p.st.fact(S('t.cancel_cb')).none is True
                if pend:
                    ctx.check(len(told) == 1 or nocb and not told, key + '/told', p.where(), 'the controller is told %d times about '
                              'the CANCEL' % len(told), p.lines())
                    ctx.check(est == 'COMPLETED', key + '/state', p.where(), 'cancelled INVITE is in state %s' % est, p.lines())
                elif inv:
                    ctx.check(not told, key + '/told', p.where(), 'the controller is told about a CANCEL that came too late', p.lines())
                ctx.check(set(names) <= {'cancel_cb'}, key + '/callback', p.where(), 'CANCEL calls %s' % names, p.lines())
            elif c.label == 'ACK':
                ctx.check(not m, key + '/sends', p.where(), 'an acknowledgment is answered with %s' % m, p.lines())
                told = p.cbs('ack_cb')
                if st0 == 'COMPLETED':
                    nocb = p.st.fact(S('t.ack_cb')).none is True
                    ctx.check((len(told) == 1 or nocb and not told) and not reg, key + '/told', p.where(), 'the acknowledgment is '
                              'reported %d times' % len(told), p.lines())
                    for _, e in told:
                        ctx.check(e.args[:1] == (S('msg'),), key + '/what', e.where(), 'something else than the ACK is reported')
                else:
                    ctx.check(not told and reg, key + '/early', p.where(), 'an ACK before the answer has an effect', p.lines())
                ctx.check(set(names) <= {'ack_cb'}, key + '/callback', p.where(), 'ACK calls %s' % names, p.lines())
            elif c.label.startswith('expiry'):
                h = c.arg[0]
                if h == 'teD':
                    nocb = p.st.fact(S('t.noack_cb')).none is True
                    ctx.check(names == ['noack_cb'] or nocb and not names, key + '/noack', p.where(), 'a missing acknowledgment is '
                              'reported as %s' % names, p.lines())
                    ctx.check(not m and not reg, key + '/done', p.where(), 'unacknowledged transaction goes on', p.lines())
                elif h == 'teE':
                    got = [x[1] for x in m if isinstance(x, tuple)]
                    nocb = p.st.fact(S('t.cancel_cb')).none is True
                    ctx.check(got == [K(487)] and len(m) == 1, key + '/expired', p.where(), 'an expired INVITE sends %s' % m, p.lines())
                    ctx.check(names == ['cancel_cb'] or nocb and not names, key + '/told', p.where(), 'the controller is told about '
                              'the expired INVITE as %s' % names, p.lines())
                else:
                    ctx.check(not names, key + '/callback', p.where(), 'a retransmission timer calls %s' % names, p.lines())
    # no transaction to cancel or acknowledge
    R = runs(ctx)
    for meth in ('CANCEL', 'ACK'):
        st = R.mk('server/INVITE', None, frozenset())
        msg = R.msg(st, 'msg', method=meth)
        st.setfact(('OP', 'in', S('tid0'), TCLIENT, ('ver', 0)), Fact(truth=False))
        c = R.case('server/INVITE', None, frozenset(), 'unmatched ' + meth, 'incomingRequest',
                   [msg, CSUM, ('T', (S('tid0'),)), S('server')], st, lookup=NONE)
        for p in c.paths:
            m = [x[1] if isinstance(x, tuple) else x for x in p.msgs()]
            ctx.count('server paths')
            ctx.check(m == ([K(481)] if meth == 'CANCEL' else []) and not p.cbs() and p.oc[0] == 'ret', c.name, p.where(),
                      'an unmatched %s causes %s' % (meth, p.cbs() or m), p.lines())
        del R.cases[('server/INVITE', None, frozenset(), 'unmatched ' + meth)]
    ctx.floor('server paths', 60)


def mentions(v, word):
    if isinstance(v, tuple):
        return any(mentions(x, word) for x in v)
    return isinstance(v, str) and word in v


# ------------------------------------------------------------------------ T05
def t05(ctx):
    ctx.rule = ('Timers of a transaction: creation arms the retransmission timer at 0.5 s and the limit at 32 s; its expiry '
                'sends the stored copy to the stored address exactly once and re-arms at twice the interval; any response stops '
                'it; a provisional response re-arms the limit with the INVITE expiration; when the limit expires the '
                'controller gets exactly one 408 and nothing more; a final answer to INVITE is repeated the same way for 32 s, a '
                'provisional one at the configured interval, until superseded.')
    for R, c in cases(ctx):
        st0 = c.state.name if c.state else None
        inv = c.kind.endswith('INVITE')
        cl = c.kind.startswith('client')
        for p in c.paths:
            if p.oc[0] == 'raise':
                continue
            t = R.tobj(p)
            if t is None:
                continue
            reg, _ = R.registration(p)
            arm = {h: p.st.heap[(t, h)] for h in HANDLES if (t, h) in p.st.heap and timer_status(p.st, t, h) != 'off'}
            iv = {h: p.st.heap.get((v, '#ival')) for h, v in arm.items()}
            key = c.name
            if c.label == 'new' and cl:
                ctx.count('armings')
                ctx.check(iv.get('teA') == K(0.5), key + '/first', p.where(), 'first retransmission after %s' % show(iv.get('teA')),
                          p.lines())
                ctx.check(iv.get('teB') == K(32.0), key + '/limit', p.where(), 'no answer is detected after %s' % show(iv.get('teB')),
                          p.lines())
            elif c.label.startswith('expiry'):
                h = c.arg[0]
                m = p.msgs()
                if h == 'teA':
                    ctx.count('expiries')
                    d = p.sends()
                    ctx.check(len(d) == 1 and d[0][0] == S('t.data') and d[0][1] == S('t.address') and d[0][2].recv == S('t.userv'),
                              key + '/resend', p.where(), 'retransmission timer sends %s' % m, p.lines())
                    w = p.st.heap.get((t, 'tout'))
                    ctx.check('teA' in iv and doubled(iv['teA']), key + '/double', p.where(), 'the retransmission interval becomes '
                              '%s' % (show(iv['teA']) if 'teA' in iv and iv['teA'] else None), p.lines())
                elif h == 'teB':
                    ctx.count('expiries')
                    ups = p.cbs('resp_cb')
                    nocb = p.st.fact(S('t.resp_cb')).none is True
                    ctx.check((len(ups) == 1 and ups[0][1].args[:1] == (S('t.r408'),)) or nocb and not ups, key + '/408', p.where(),
                              'an unanswered request is reported %d times or not as 408' % len(ups), p.lines())
                    ctx.check(not m, key + '/silent', p.where(), 'the limit timer sends %s' % m, p.lines())
                    ctx.check(endstate(R, p) == 'TERMINATED' or not reg, key + '/state', p.where(), 'a request that was reported as '
                              'unanswered still takes responses', p.lines())
                    ctx.check('teA' not in arm, key + '/stop', p.where(), 'retransmissions go on after the timeout', p.lines())
                elif h == 'teF':
                    ctx.count('expiries')
                    if 'teF' in arm or m:
                        d = p.sends()
                        ctx.check(len(d) == 1 and d[0][0] == S('t.data') and d[0][1] == S('t.address'), key + '/resend', p.where(),
                                  'provisional retransmission sends %s' % m, p.lines())
                        ctx.check(iv.get('teF') == S('tm.provisional_retr'), key + '/interval', p.where(), 'provisional answers are '
                                  'repeated after %s' % (show(iv['teF']) if iv.get('teF') else None), p.lines())
                elif h in ('teC', 'teG'):
                    ctx.check(not m and not p.cbs(), key + '/silent', p.where(), '%s does something' % h, p.lines())
            elif c.label.startswith('response') and st0 in ('TRYING', 'RINGING'):
                ctx.check('teA' not in arm, key + '/stop', p.where(), 'the request is still repeated after a response', p.lines())
                if c.arg[2] < 200:
                    ctx.count('armings')
                    ctx.check(iv.get('teB') == S('t.expires'), key + '/limit', p.where(), 'after a provisional response the limit is '
                              '%s' % (show(iv['teB']) if iv.get('teB') else None), p.lines())
            elif c.label.startswith('answer') and st0 in ('TRYING', 'RINGING') and c.arg[1] >= 200 and inv:
                ctx.count('armings')
                ctx.check(iv.get('teA') == K(0.5) and iv.get('teD') == K(32.0), key + '/repeat', p.where(), 'the final answer is '
                          'repeated at %s for %s' % (show(iv.get('teA')), show(iv.get('teD'))), p.lines())
                ctx.check('teF' not in arm and 'teE' not in arm, key + '/superseded', p.where(), 'timers of the unanswered call go on',
                          p.lines())
            elif c.label.startswith('answer') and c.arg[2] < 200 and st0 in ('TRYING', 'RINGING'):
                if 'teF' in arm and arm['teF'][0] == 'O':
                    ctx.check(iv.get('teF') == S('tm.provisional_retr'), key + '/interval', p.where(), 'provisional answers are '
                              'repeated after %s' % show(iv.get('teF')), p.lines())
            elif c.label == 'ACK' and st0 == 'COMPLETED':
                ctx.check('teA' not in arm, key + '/stop', p.where(), 'the answer is still repeated after the ACK', p.lines())
    ctx.floor('armings', 8)
    ctx.floor('expiries', 5)


def doubled(v):
    if v is None:
        return False
    if is_k(v):
        return kval(v) == 4.0
    return False


# ------------------------------------------------------------------------ T06
def t06(ctx):
    ctx.rule = ('Registration of call legs for requests of a call identifier: registering keeps those already registered, '
                'deregistering one removes exactly it and keeps the others, the identifier disappears with the last one, '
                'deregistering an unknown one changes nothing and fails; a request is offered to the registered ones in order and '
                'goes to the first that claims it, else to the default handler.')
    R = runs(ctx)
    RC = ('D', 'consumers')
    cid, cid2 = K('call-1'), K('call-2')
    cons = ctx.repo.cls('SipTransactionConsumer')

    def setup(n):
        st = R.mk('server/other', None, frozenset())
        objs = []
        items = []
        for i in range(n):
            o = ('O', 'cons%d' % i, cons)
            st.sethp((o, 'cobj'), ('O', 'leg%d' % i, cons))
            st.sethp((o, 'compact'), FALSE)
            items.append(o)
            objs.append(('O', 'leg%d' % i, cons))
        l = ('L', 'lst')
        st.sethp((l, 'items'), tuple(items))
        other = ('L', 'other')
        st.sethp((other, 'items'), (S('z'),))
        m = ((cid2, other),)
        if n:
            m = ((cid, l),) + m
        st.sethp((RC, 'map'), m)
        st.sethp((TM, 'req_consumers'), RC)
        return st, items, objs

    def content(st, k):
        m = st.heap.get((st.heap.get((TM, 'req_consumers')), 'map'))
        if m is None:
            raise AnchorError('consumer table not tracked')
        d = dict(m)
        if k not in d:
            return None
        return st.heap.get((d[k], 'items'))
    reg, unreg = R.method('regConsumer'), R.method('unregConsumer')
    for n in range(3):
        st, items, objs = setup(n)
        ip = Interp(ctx.repo, R.cfg)
        for s2, oc in ip.run(reg, TM, [('O', 'newleg', cons), cid], st=st):
            ctx.count('table operations')
            c = content(s2, cid)
            ctx.check(oc[0] == 'ret' and c is not None and len(c) == n + 1 and list(c[:n]) == items and
                      s2.heap.get((c[-1], 'cobj')) == ('O', 'newleg', cons), 'regConsumer/%d' % n, reg.where(),
                      'registering beside %d others leaves %s' % (n, [show(x) for x in c or ()]))
            ctx.check(content(s2, cid2) == (S('z'),), 'regConsumer/other', reg.where(), 'another call is affected')
        ctx.visited(ip.visited)
        for i in range(n):
            st, items, objs = setup(n)
            ip = Interp(ctx.repo, R.cfg)
            rs = ip.run(unreg, TM, [objs[i], cid], st=st)
            for s2, oc in rs:
                ctx.count('table operations')
                c = content(s2, cid)
                want = items[:i] + items[i + 1:]
                ctx.check(oc[0] == 'ret' and (list(c or ()) == want) and (want or c is None), 'unregConsumer/%d/%d' % (i, n),
                          unreg.where(), 'deregistering one of %d leaves %s' % (n, [show(x) for x in c] if c is not None else None))
                ctx.check(content(s2, cid2) == (S('z'),), 'unregConsumer/other', unreg.where(), 'another call is affected')
                ctx.check(is_k(s2.heap.get((items[i], 'cobj'), S('x'))), 'unregConsumer/release', unreg.where(), 'the deregistered '
                          'leg is still referenced')
            ctx.visited(ip.visited)
        st, items, objs = setup(n)
        ip = Interp(ctx.repo, R.cfg)
        for s2, oc in ip.run(unreg, TM, [('O', 'stranger', cons), cid], st=st):
            ctx.count('table operations')
            c = content(s2, cid)
            ctx.check(oc[0] == 'raise' and list(c or ()) == items, 'unregConsumer/unknown', unreg.where(), 'deregistering an unknown '
                      'leg leaves %s' % [show(x) for x in c or ()])
    # dispatch
    c = R.cases.get(('server/other', None, frozenset(), 'new'))
    seen = set()
    for p in c.paths:
        if p.oc[0] == 'raise':
            continue
        asks = [e for e in p.events if e.kind == 'call' and e.name == 'isYours']
        ups = p.cbs('req_cb')
        if not ups:
            continue
        ctx.count('dispatches')
        e = ups[0][1]
        if e.name == 'recvRequest':
            last = asks[-1].val if asks else None
            ok = last is not None and e.recv == last and p.st.fact(last).none is False
            ok = ok and all(p.st.fact(a.val).none is True for a in asks[:-1])
            ctx.check(ok, 'dispatch/owner', e.where(), 'the request is not given to the first leg that claims it', p.lines())
            seen.add('owner')
        else:
            ctx.check(all(p.st.fact(a.val).none is True for a in asks), 'dispatch/default', e.where(), 'a request claimed by a leg is '
                      'given to the default handler', p.lines())
            seen.add('default')
        ctx.check(e.args[:1] == (S('msg'),), 'dispatch/what', e.where(), 'something else than the request is handed over', p.lines())
        for a in asks:
            ctx.check(a.args[:1] == (S('msg'),), 'dispatch/ask', a.where(), 'the leg is asked about something else', p.lines())
    if seen != {'owner', 'default'}:
        raise AnchorError('dispatch paths found: %s' % seen)
    ctx.floor('table operations', 9)
    ctx.floor('dispatches', 6)


RULES = {'T01': t01, 'T02': t02, 'T03': t03, 'T04': t04, 'T05': t05, 'T06': t06}
