"""Call-leg rules (C..): typestate + effect analysis of every stimulus in every
leg state.  See DESIGN.md, section "Call legs"."""
from ..leg import (LegRuns, LegCfg, phase, side, TIMERS, TERMINAL, UA, PENDING, OTHER, S, K, NONE, show, is_k, kval, timer_status, state_timers,
                   mk_event, CODES)
from ..repo import AnchorError, ClassInfo
from ..interp import is_k, Fact

LIVE = ('initial', 'early', 'established')
OVER = ('ended', 'dead')
GROUPS = ('disc_cbs', 'fail_cbs')

_cache = {}


def runs(ctx):
    if id(ctx.repo) not in _cache:
        _cache.clear()
        _cache[id(ctx.repo)] = LegRuns(ctx).fixpoint()
    r = _cache[id(ctx.repo)]
    ctx.floor('stimulus cases', 250) if 'stimulus cases' in ctx.counts else None
    return r


def all_paths(ctx):
    L = runs(ctx)
    for case in L.sorted_cases():
        for p in case.paths:
            yield case, p
    ctx.sample('%d cases over states %s' % (len(L.cases), ', '.join(c.name for c in L.states)))


def transition(case, p):
    e = p.end_cls()
    return phase(case.cls), (phase(e) if e is not None else 'none'), e


def normal(p):
    return p.oc[0] == 'ret'


def elems(p, group):
    """multiset of callbacks of the group invoked on the path"""
    out = {}
    for e in p.cb_calls(group):
        out[e.extra] = out.get(e.extra, 0) + 1
    return out


def evname(v):
    return v[2].name if v[0] == 'O' and isinstance(v[2], ClassInfo) else show(v)


def is_kind(v, *names):
    return v[0] == 'O' and isinstance(v[2], ClassInfo) and any(c.name in names for c in v[2].repo_mro())


# ------------------------------------------------------------------------ C01
def c01(ctx):
    ctx.rule = ('For every leg state and every stimulus, all abstract paths of the handler are enumerated; a path that moves the '
                'leg from a live state to an ended one must report exactly one terminating event (none if the controller asked '
                'for it), call every registered disconnect or failure callback exactly once and stamp the end time; a path '
                'that stays live must not report termination; a path starting in an ended state must report nothing, call no '
                'leg callback and never lead back to a live state.')
    ctx.assumptions.append('callback groups hold two callbacks; event sequence numbers grow with creation order')
    for case, p in all_paths(ctx):
        if not normal(p):
            continue
        ph, eph, e = transition(case, p)
        key = '%s/%s' % (case.cls.name, case.label)
        ename = e.name if e else '?'
        term = p.terminal()
        groups = {g: elems(p, g) for g in GROUPS}
        ncalled = [g for g in GROUPS if groups[g]]
        if ph in LIVE and eph in OVER:
            ctx.count('ending paths')
            full = [g for g in GROUPS if len(groups[g]) == 2 and all(n == 1 for n in groups[g].values())]
            ctx.check(len(full) == 1 and ncalled == full, key + '/callbacks', p.where(),
                      'leg ends (-> %s) with disconnect/failure callbacks called %s, expected each callback of one group once'
                      % (ename, {g: sorted(groups[g].values()) for g in GROUPS}), p.lines())
            ctx.check(not is_k(p.st.heap.get((UA, 'disconnect_ts'), NONE)), key + '/disconnect_ts', p.where(),
                      'leg ends (-> %s) without recording the time it ended' % ename, p.lines())
            updating = case.cls.name.endswith('Updating')
            if case.kind == 'event':
                if ph != 'initial':
                    ctx.check(not term, key + '/echo', p.where(), 'leg ended by its controller reports %s back'
                              % [evname(v) for v, _ in term], p.lines())
            else:
                disc = [v for v, _ in term if is_kind(v, 'CCEventDisconnect')]
                other = [v for v, _ in term if v not in disc]
                if updating:
                    ok = (len(disc) == 1 and len(other) <= 1) or (not disc and len(other) == 1)
                else:
                    ok = len(term) == 1
                ctx.check(ok, key + '/terminal', p.where(), 'leg ends (-> %s) reporting terminating events %s, expected '
                          'exactly one' % (ename, [evname(v) for v, _ in term]), p.lines())
                ctx.check(not term or p_last(p, term), key + '/last', p.where(),
                          'leg reports %s after the terminating event' % [evname(v) for v, _ in p.reported()], p.lines())
        elif ph in LIVE:
            if ph == 'established':
                bad = [v for v, _ in term if is_kind(v, 'CCEventDisconnect')]
            else:
                bad = [v for v, _ in term]
            if case.kind == 'event' and ph == 'initial':
                bad = []
            ctx.check(not bad, key + '/premature', p.where(), 'leg stays in %s but reports %s' % (
                ename, [evname(v) for v in bad]), p.lines())
            ctx.check(is_k(p.st.heap.get((UA, 'disconnect_ts'), NONE)), key + '/premature-ts', p.where(),
                      'leg stays in %s but is recorded as ended' % ename, p.lines())
            ctx.check(not ncalled, key + '/premature-callbacks', p.where(),
                      'leg stays in %s but its %s run' % (ename, ' and '.join(ncalled)), p.lines())
        else:
            ctx.count('paths in ended states')
            ctx.check(eph in OVER, key + '/revival', p.where(), 'ended leg goes back to %s' % ename, p.lines())
            if ph == 'dead':
                ctx.check(eph == 'dead', key + '/undead', p.where(), 'dead leg goes to %s' % ename, p.lines())
            if case.kind in ('event', 'req', 'resp', 'cancel', 'timer'):
                ctx.check(not p.reported(), key + '/after-end', p.where(), 'ended leg reports %s' % [
                    evname(v) for v, _ in p.reported()], p.lines())
            ctx.check(not ncalled and not p.cb_calls('conn_cbs') and not p.cb_calls('ring_cbs'), key + '/after-end-callbacks',
                      p.where(), 'ended leg runs its callbacks again', p.lines())
    ctx.floor('ending paths', 60)
    ctx.floor('paths in ended states', 60)


def p_last(p, term):
    r = p.reported()
    return r and r[-1][0] in [v for v, _ in term]



# ------------------------------------------------------------------------ C02
def c02(ctx):
    ctx.rule = ('For every path that ends a leg, the messages handed to the transaction layer are compared with what the phase '
                'of the leg requires: a final response to the pending INVITE, a CANCEL, a BYE (or REFER), each exactly once and '
                'nothing else; paths that keep the leg alive must not send any of those; a leg that cancelled its INVITE must '
                'be left in a state all of whose 2xx paths send a BYE; ended legs send no further requests.')
    L = runs(ctx)
    catches = {}
    for c in L.states:
        cs = [x for k, x in L.cases.items() if k[:2] == (c, 'response 200-299')]
        if cs:
            ps = [p for x in cs for p in x.paths if normal(p)]
            catches[c] = bool(ps) and all(len([w for w in p.wire() if w[0] == 'req' and w[1] == 'BYE']) == 1 for p in ps)
    for case, p in all_paths(ctx):
        if not normal(p):
            continue
        ph, eph, e = transition(case, p)
        if e is None:
            continue
        key = '%s/%s' % (case.cls.name, case.label)
        w = p.wire()
        fin = [x for x in w if x[0] == 'resp' and x[1] == PENDING and p.code_is_final(x[2]) is not False]
        prov = [x for x in w if x[0] == 'resp' and x[1] == PENDING and p.code_is_final(x[2]) is False]
        surely = [x for x in fin if p.code_is_final(x[2])]
        n = {m: len([x for x in w if x[0] == 'req' and x[1] == m]) for m in ('BYE', 'REFER', 'INVITE')}
        n['CANCEL'] = len([x for x in w if x[0] == 'cancel'])
        n['final'] = len(fin)
        remote = case.kind in ('req', 'resp', 'cancel')
        uas, upd = side(case.cls) == 'uas', case.cls.name.endswith('Updating')

        def expect(what, **kw):
            exp = dict(BYE=0, REFER=0, INVITE=0, CANCEL=0, final=0)
            exp.update(kw)
            bad = {k: (n[k], v) for k, v in exp.items() if (n[k] not in v if isinstance(v, tuple) else n[k] != v)}
            ctx.check(not bad, key + '/wire', p.where(), '%s (-> %s): %s' % (what, e.name, '; '.join(
                '%d %s sent, expected %s' % (a, k, b) for k, (a, b) in sorted(bad.items()))), p.lines())

        if ph in LIVE and eph in OVER:
            ctx.count('ending paths')
            if ph == 'initial':
                expect('leg that never started ends')
            elif ph == 'early' and uas:
                if case.kind == 'cancel':
                    expect('INVITE cancelled by the caller')
                else:
                    expect('unanswered caller-side leg ends', final=1)
                    ctx.check(not fin or not prov or w.index(prov[-1]) < w.index(fin[0]), key + '/order', p.where(),
                              'provisional response after the final one', p.lines())
            elif ph == 'early':
                if case.kind == 'resp' and case.label == 'response 200-299':
                    expect('unusable positive answer', BYE=1)
                elif case.kind == 'resp' and case.arg[1] >= 300:
                    expect('call rejected by the callee')
                else:
                    expect('unanswered callee-side leg ends', CANCEL=1)
                    ctx.check(catches.get(e, False), key + '/crossing', p.where(), 'INVITE is cancelled but a 200 OK '
                              'crossing the CANCEL is not answered with BYE in %s' % e.name, p.lines())
            elif not upd:
                if case.kind == 'req' and case.arg == 'BYE':
                    expect('established leg ended by BYE of the peer')
                else:
                    ctx.check(n['BYE'] + n['REFER'] == 1 and not n['CANCEL'] and not n['INVITE'] and not fin, key + '/wire',
                              p.where(), 'established leg ends (-> %s) with %s' % (e.name, n), p.lines())
            elif uas:
                if case.kind == 'req' and case.arg == 'BYE':
                    expect('updating leg ended by BYE of the peer', final=1)
                elif case.kind == 'cancel':
                    expect('re-INVITE cancelled by the peer', BYE=1)
                else:
                    expect('updating leg ends', final=1, BYE=1)
            else:
                if case.kind == 'req' and case.arg == 'BYE':
                    expect('updating leg ended by BYE of the peer', CANCEL=1)
                elif case.kind == 'resp':
                    expect('updating leg ends because of a response', BYE=1)
                else:
                    expect('updating leg ends', BYE=1, CANCEL=1)
        elif ph in LIVE:
            ctx.check(not n['BYE'] and not n['REFER'] and not n['CANCEL'], key + '/alive-wire', p.where(),
                      'leg stays in %s but sends %s' % (e.name, n), p.lines())
            if uas and ph == 'early' and eph == 'early':
                ctx.check(not surely, key + '/alive-final', p.where(), 'leg stays in %s after sending a final response' % e.name,
                          p.lines())
            if uas and ph == 'early' and eph == 'established':
                expect('leg is answered', final=1)
            if uas and upd and eph == 'established' and e.name == 'UaStateConnected':
                expect('re-INVITE is answered', final=1)
            if e.name in ('UaStateConnected',) and not uas and ph == 'early':
                expect('leg is answered')
        else:
            ctx.count('paths in ended states')
            if case.kind == 'resp' and case.label == 'response 200-299' and catches.get(case.cls):
                expect('positive answer to the cancelled INVITE', BYE=1)
                ctx.check(not catches.get(e, False), key + '/again', p.where(),
                          'leg may send BYE again', p.lines())
            else:
                expect('ended leg')
    ctx.check(any(catches.values()), 'catch', 'sippy/', 'no ended state answers a 200 OK crossing the CANCEL with BYE')
    ctx.floor('ending paths', 60)
    ctx.floor('paths in ended states', 60)


# ------------------------------------------------------------------------ C03
def c03(ctx):
    ctx.rule = ('The set of timers possibly armed in each leg state is computed as a least fixpoint over all transitions; no '
                'handler may store a new timer over one that may still be running; every way into an ended state must leave '
                'all leg timers stopped; a leg waiting for an answer keeps its setup limit armed; the expiry of a timer '
                'ends the leg; the guard timer of a cancelled leg is stopped when its final response arrives.')
    L = runs(ctx)
    ctx.sample('timers possibly armed: %s' % {c.name: [sorted(x) for x in t] for c, t in L.may.items() if len(t) > 1})
    for case, p in all_paths(ctx):
        ph, eph, e = transition(case, p)
        key = '%s/%s' % (case.cls.name, case.label)
        if e is None:
            continue
        # overwrite: replay the stores
        for ev in p.events:
            if ev.kind == 'set' and ev.name in TIMERS and ev.recv == UA:
                ctx.count('timer stores')
                if ev.val[0] != 'O':
                    # forgetting a timer that may be running
                    heap, facts = ev.st
                    old = heap.get((UA, ev.name), S('ua.' + ev.name))
                    if phase(case.cls) == 'dead' or (e is not None and eph == 'dead'):
                        continue
                    ctx.check(stopped(p, ev, old), key + '/forget/' + ev.name, ev.where(),
                              '%s is forgotten while it may be running' % ev.name, p.lines())
                else:
                    heap, facts = ev.st
                    old = heap.get((UA, ev.name), S('ua.' + ev.name))
                    ctx.check(stopped(p, ev, old), key + '/overwrite/' + ev.name, ev.where(),
                              '%s is started while the previous one may be running' % ev.name, p.lines())
        if not normal(p):
            continue
        if ph in LIVE and eph in OVER:
            ctx.count('ending paths')
            left = [t for t in TIMERS if p.timer(t) != 'off']
            ctx.check(not left, key + '/left', p.where(), 'leg ends (-> %s) with %s possibly running' % (
                e.name, ', '.join(left)), p.lines())
        if case.kind == 'timer' and ph in LIVE:
            ctx.count('expiries')
            ctx.check(eph in OVER, key + '/expiry', p.where(), '%s leaves the leg in %s' % (case.label, e.name), p.lines())
        if e is not case.cls and state_timers(case.cls):
            ctx.count('guard timers')
            ctx.check(all(timer_status(p.st, case.state_obj, a) == 'off' for a in state_timers(case.cls)), key + '/guard', p.where(), 'guard timer keeps running after the final response', p.lines())
        # setup limit: something that limited the setup must keep limiting it
        if ph == 'early' and eph == 'early' and case.kind in ('resp', 'event', 'req'):
            was = [t for t in ('expire_timer', 'no_progress_timer', 'no_reply_timer') if any(
                ev.kind == 'set' and ev.recv == UA and ev.name == t and p.st.fact(S('ua.' + t)).none is False
                for ev in p.events)]
            now = [t for t in TIMERS if p.timer(t) != 'off']
            lim = p.st.fact(S('ua.expire_time')).none
            if was == ['no_reply_timer'] and may_be_100(case, p) and p.st.fact(S('ua.no_progress_time')).none is not True:
                lim = False
            if was and not now and lim is not True:
                ctx.check(False, key + '/limit', p.where(), 'the leg is left without a setup limit although one is configured',
                          p.lines())
            elif was:
                ctx.check(True, key + '/limit', '', '')
        if ph == 'initial' and eph == 'early':
            lims = ('expire_time', 'no_progress_time') + (('no_reply_time',) if side(case.cls) == 'uac' else ())
            free = all(is_k(p.st.heap.get((UA, t), S('x'))) or p.st.fact(S('ua.' + t)).none is True for t in lims)
            armed = [t for t in TIMERS if p.timer(t) == 'armed']
            ctx.count('call starts')
            ctx.check(len(armed) == 1 or free and not armed, key + '/start', p.where(),
                      'a leg with %s starts with timers %s' % ('no limits' if free else 'configured limits', armed), p.lines())
    for c in L.states:
        t = L.may_armed(c)
        if phase(c) in OVER:
            ctx.check(not t, c.name + '/armed', c.module.path, 'timers %s may run in %s' % (sorted(t), c.name))
    # the timers run the functions which end the leg
    ctx.floor('guard timers', 3)
    ctx.floor('timer stores', 40)
    ctx.floor('expiries', 5)
    ctx.floor('ending paths', 60)


def may_be_100(case, p):
    if case.kind != 'resp':
        return False
    c = p.st.heap.get((S('resp'), '#code'))
    if c is None:
        return False
    if is_k(c):
        return kval(c) == 100
    f = p.st.fact(c)
    return f.eq == K(100)


def stopped(p, ev, old):
    heap, facts = ev.st
    if is_k(old):
        return True
    if (old, '#cancelled') in heap or (old, '#cancelled') in p.st.heap:
        return True
    f = facts.get(old)
    return f is not None and f.none is True



# ------------------------------------------------------------------------ C04
def c04(ctx):
    ctx.rule = ('For every leg state and request method, all paths of the request handler are enumerated: a request that '
                'changes the state of the leg, is reported or triggers a message must be answered with exactly one final '
                'response or stay pending in a state which answers it; no request gets two final responses, none after the '
                'final one; requests with a stale sequence number are refused with 500 and have no effect; requests inside an '
                'established or just finished call are always answered.')
    L = runs(ctx)
    reqs = [c for c in L.sorted_cases() if c.kind == 'req']
    pending_states = {c.name for c in L.states if side(c) == 'uas' and phase(c) in ('early', 'established')}
    need = {}
    for c in L.states:
        n = c.name
        if n == 'UaStateConnected':
            need[c] = {'BYE': (200,), 'INFO': (200,), 'OPTIONS': (200,), 'REFER': (202, 400), 'INVITE': None}
        elif n.endswith('Updating'):
            need[c] = {'BYE': (200,), 'INVITE': (491,)}
            if side(c) == 'uas':
                need[c]['REFER'] = (202, 400)
        elif n == 'UasStateRinging':
            need[c] = {'BYE': (200,)}
        elif n == 'UaStateDisconnected':
            need[c] = {m: (500, 481) for m in ('INVITE', 'REFER', 'INFO', 'OPTIONS', 'UPDATE', OTHER)}
            need[c]['BYE'] = (200,)
    for case in reqs:
        for p in case.paths:
            if not normal(p):
                continue
            ctx.count('request paths')
            key = '%s/%s' % (case.cls.name, case.label)
            e = p.end_cls()
            mine = [x for x in p.wire() if x[0] == 'resp' and x[1] == S('req')]
            fin = [x for x in mine if p.code_is_final(x[2]) is not False]
            pend = p.st.heap.get((p.st.heap.get((UA, 'uasResp')), '#of')) == S('req')
            ctx.check(len(fin) <= 1, key + '/twice', p.where(), '%s is answered %d times (%s)' % (
                case.label, len(fin), ', '.join(show(x[2]) for x in fin)), p.lines())
            ctx.check(not fin or mine[-1] is fin[-1], key + '/after-final', p.where(),
                      'a provisional response follows the final one', p.lines())
            others = [x for x in p.wire() if x not in mine]
            effect = bool(others or p.reported() or (e is not None and e is not case.cls))
            if fin:
                # an answered INVITE must not wait for another answer
                waiting = case.arg == 'INVITE' and pend and e is not None and e.name in pending_states and e is not case.cls
                ctx.check(not waiting, key + '/answered-waits', p.where(), '%s is answered and then waits for an answer in %s' % (
                    case.label, e.name if e else '?'), p.lines())
                continue_ok = True
            else:
                held = case.arg == 'INVITE' and pend and e is not None and e.name in pending_states
                continue_ok = held or not effect
                if held:
                    ctx.count('requests left pending')
            ctx.check(continue_ok, key + '/unanswered', p.where(), '%s takes effect (-> %s) but is not answered' % (
                case.label, e.name if e else '?'), p.lines())
            if case.cls in need and case.arg in need[case.cls]:
                ctx.count('mandatory answers')
                codes = need[case.cls][case.arg]
                if codes is None:
                    ok = len(fin) == 1 or held_ok(p, pend, e, pending_states)
                    ctx.check(ok, key + '/answer', p.where(), '%s in %s is neither answered nor left pending' % (
                        case.label, case.cls.name), p.lines())
                else:
                    got = [kval(x[2]) if is_k(x[2]) else show(x[2]) for x in fin]
                    ctx.check(len(got) == 1 and (got[0] in codes or (case.cls.name == 'UaStateDisconnected' and len(codes) > 1
                                                                     and isinstance(got[0], int) and got[0] >= 400)),
                              key + '/answer', p.where(), '%s in %s answered with %s, expected one of %s' % (
                                  case.label, case.cls.name, got, codes), p.lines())
    # the held INVITE gets a reply when the update of the media finishes, see C06

    # stale sequence numbers
    def seed(st):
        del st.heap[(UA, 'rCSeq')]
        st.setfact(S('ua.rCSeq'), Fact(none=False))

    for c in L.states:
        if phase(c) == 'dead':
            continue
        for m in ('INVITE', 'BYE', 'REFER', 'INFO'):
            case = L.run(c, ('req', m), seed=seed)
            stale = fresh = 0
            for p in case.paths:
                if not normal(p):
                    continue
                key = '%s/%s/stale' % (c.name, m)
                acc = accepted_newer(p)
                handled = any(e.kind == 'call' and e.name == 'recvRequest' and e.recv == case.state_obj for e in p.events)
                if handled or p.end_cls() is not c or p.reported():
                    fresh += 1
                    ctx.check(acc, key, p.where(), '%s is processed without checking that its sequence number is higher than '
                              'the last one seen' % m, p.lines())
                    ctx.check(not is_k(p.st.heap.get((UA, 'rCSeq'), NONE)) and p.st.heap.get((UA, 'rCSeq')) != S('ua.rCSeq'),
                              key + '/record', p.where(), 'the sequence number of %s is not recorded' % m, p.lines())
                else:
                    stale += 1
                    w = [x for x in p.wire() if x[0] == 'resp']
                    ctx.check(len(w) == 1 and w[0][2] == K(500), key + '/500', p.where(),
                              'stale %s is not refused with 500' % m, p.lines())
            ctx.check(stale >= 1, '%s/%s/stale-none' % (c.name, m), L.method('recvRequest').where(),
                      'no path refuses a stale %s' % m)
            ctx.count('stale paths', stale)
    ctx.floor('request paths', 100)
    ctx.floor('mandatory answers', 30)
    ctx.floor('requests left pending', 2)


def held_ok(p, pend, e, pending_states):
    return pend and e is not None and e.name in pending_states


def accepted_newer(p):
    """the path established rCSeq < sequence number of the request"""
    for v, f in p.st.facts.items():
        if v and v[0] == 'OP' and v[1] == 'lt' and v[2] == S('ua.rCSeq') and 'getCSeqNum' in show(v[3]) and f.truth is True:
            return True
    return False



# ------------------------------------------------------------------------ C05
def seq_of(p, v):
    x = p.st.heap.get((v, 'seq'))
    return x


def c05(ctx):
    ctx.rule = ('The delivery function is analysed with two events queued beforehand and an arbitrary last delivered sequence '
                'number: every event leaves the queue, in order, and is either handed to the controller once, after its '
                'sequence number became the last delivered one, or dropped because a newer one has been delivered; every '
                'handler of every state is analysed to leave no event in the queue, report in queue order, hand over the leg '
                'itself with the event, and produce either no transition or a state class.')
    L = runs(ctx)
    # 1. the handlers
    for case, p in all_paths(ctx):
        key = '%s/%s' % (case.cls.name, case.label)
        ctx.check(p.end_cls() is not None, key + '/transition', p.where(),
                  'the handler of %s in %s yields something that is not a leg state' % (case.label, case.cls.name), p.lines())
        if not normal(p) or p.end_cls() is None:
            continue
        ctx.count('handler paths')
        q = p.st.heap.get((case.queue, 'items'))
        ctx.check(q == () or phase(p.end_cls()) == 'dead', key + '/left', p.where(), 'events %s are left undelivered' % (
            [evname(x) for x in q] if q is not None else '?'), p.lines())
        rep = [v for v, _ in p.reported()]
        dl = [v for v, _ in p.delivered()]
        ctx.check(len(dl) == len(set(dl)), key + '/twice', p.where(), 'an event is delivered twice', p.lines())
        order = [v for v in rep if v in dl]
        ctx.check(order == dl and all(x in rep for x in dl), key + '/order', p.where(), 'events %s delivered as %s' % (
            [evname(x) for x in rep], [evname(x) for x in dl]), p.lines())
        for v, ev in p.delivered():
            ctx.check(len(ev.args) > 1 and ev.args[1] == UA, key + '/leg', ev.where(),
                      'the event is delivered without the leg it belongs to', p.lines())

    # 2. delivery, with events of arbitrary age
    def seed(st):
        del st.heap[(UA, 'elast_seq')]
        q = st.heap[(UA, 'equeue')]
        evs = []
        for i in (1, 2):
            o = ('O', 'queued%d' % i, L.repo.cls('CCEventInfo'))
            st.sethp((o, 'seq'), S('queued%d.seq' % i))
            st.setfact(S('queued%d.seq' % i), Fact(none=False))
            evs.append(o)
        st.sethp((q, 'items'), tuple(evs))
    conn = [c for c in L.states if c.name == 'UaStateConnected'][0]
    cfg = LegCfg(L.repo)
    cfg.unroll = 5
    for stim in (('event', 'CCEventInfo'), ('req', 'INFO'), ('resp', CODES[0]), ('ack', None), ('rsdp', False),
                 ('rsdp', True), ('lsdp', True)):
        case = L.run(conn, stim, seed=seed, cfg=cfg)
        for p in case.paths:
            if not normal(p) or p.end_cls() is None:
                continue
            ctx.count('aged delivery paths')
            key = 'delivery/%s' % case.label
            q = p.st.heap.get((case.queue, 'items'))
            ctx.check(q == (), key + '/left', p.where(), 'events are left undelivered', p.lines())
            dl = p.delivered()
            names = [v[1] for v, _ in dl]
            ctx.check(len(set(names)) == len(names), key + '/twice', p.where(), 'an event is delivered twice: %s' % names,
                      p.lines())
            pos = [names.index(x) for x in ('queued1', 'queued2') if x in names]
            ctx.check(pos == sorted(pos) and (not pos or pos[0] == 0), key + '/order', p.where(),
                      'events are delivered out of order: %s' % names, p.lines())
            for v, ev in dl:
                last = ev.st[0].get((UA, 'elast_seq'))
                mine = ev.st[0].get((v, 'seq'))
                ctx.check(last is not None and last == mine, key + '/mark', ev.where(),
                          'an event is delivered without becoming the last delivered one', p.lines())
            # nothing is delivered after a newer event; nothing dropped unless older
            prev = S('ua.elast_seq')
            for v, ev in dl:
                mine = p.st.heap.get((v, 'seq'))
                ok = newer(p, prev, mine) or (prev == S('ua.elast_seq') and none_fact(p, prev))
                ctx.check(ok, key + '/stale', p.where(), 'an event may be delivered although a newer one already was', p.lines())
                prev = mine
            prev = S('ua.elast_seq')
            for nme in ('queued1', 'queued2'):
                mine = S(nme + '.seq')
                if nme in names:
                    prev = mine
                else:
                    ctx.count('dropped events')
                    ctx.check(older(p, prev, mine), key + '/drop', p.where(),
                              'an event is dropped although nothing newer was delivered', p.lines())

    # 3. events delivered without queueing
    def seed2(st):
        del st.heap[(UA, 'elast_seq')]
    for c in L.states:
        if side(c) != 'uas' or phase(c) not in ('early', 'established'):
            continue
        case = L.run(c, ('cancel', None), seed=seed2, cfg=cfg)
        for p in case.paths:
            if not normal(p) or p.end_cls() is None:
                continue
            ctx.count('direct delivery paths')
            key = 'direct/%s' % c.name
            new = [x.val for x in p.events if x.kind == 'call' and p.is_event(x.val) and x.extra == 'new']
            dl = [v for v, _ in p.delivered()]
            for v, ev in p.delivered():
                mine = p.st.heap.get((v, 'seq'))
                ctx.check(newer(p, S('ua.elast_seq'), mine) or none_fact(p, S('ua.elast_seq')), key + '/stale', p.where(),
                          'an event may be delivered although a newer one already was', p.lines())
                ctx.check(ev.st[0].get((UA, 'elast_seq')) == mine, key + '/mark', ev.where(),
                          'an event is delivered without becoming the last delivered one', p.lines())
            if not dl:
                for v in new:
                    ctx.check(older(p, S('ua.elast_seq'), p.st.heap.get((v, 'seq'))), key + '/drop', p.where(),
                              'the event is not delivered although nothing newer was', p.lines())
    ctx.floor('handler paths', 500)
    ctx.floor('aged delivery paths', 12)
    ctx.floor('dropped events', 4)


def none_fact(p, v):
    return p.st.fact(v).none is True


def newer(p, a, b):
    f = p.st.facts.get(('OP', 'lt', a, b))
    return f is not None and f.truth is True


def older(p, a, b):
    f = p.st.facts.get(('OP', 'lt', a, b))
    return f is not None and f.truth is False


# ------------------------------------------------------------------------ C06
def hook_calls(p):
    out = []
    for e in p.events:
        if e.kind == 'call' and (e.name in ('on_remote_sdp_change', 'on_local_sdp_change') or (
                isinstance(e.extra, tuple) and e.extra[0] == 'S' and e.extra[1].endswith('_sdp_change'))):
            which = 'remote' if 'remote' in (e.name if e.name.endswith('_change') else e.extra[1]) else 'local'
            out.append((which, e))
    return out


def c06(ctx):
    ctx.rule = ('Every call of a media update hook in the leg code is examined on every path: the continuation passed along '
                'must carry the very event being processed; when the hook defers (returns nothing) that event must not be '
                'queued and the stored remote description must not change; when it answers at once the event is queued once '
                'and the description becomes the returned one; an SDP failure turns into exactly one failure report or is '
                'left to the caller; the continuations deliver the event, or the failure, exactly once; finished legs have '
                'their hooks removed.')
    L = runs(ctx)
    for case, p in all_paths(ctx):
        key = '%s/%s' % (case.cls.name, case.label)
        e = p.end_cls()
        if e is None:
            continue
        rep = [v for v, _ in p.reported()]
        hooks = hook_calls(p)
        ctx.check(len(hooks) <= 1, key + '/hooks', p.where(), 'media hook called %d times for one stimulus' % len(hooks), p.lines())
        for which, h in hooks[:1]:
            ctx.count('hook calls')
            cont = h.args[1] if len(h.args) > 1 else None
            want = 'delayed_%s_sdp_update' % which
            okc = cont is not None and cont[0] == 'P' and cont[1][0] == 'B' and cont[1][1] == UA and cont[1][2].name == want
            ctx.check(okc, key + '/continuation', h.where(), 'the hook is given no continuation of the right kind', p.lines())
            if not okc:
                continue
            evt = cont[2][0] if cont[2] else None
            ctx.check(evt is not None and p.is_event(evt), key + '/continuation-event', h.where(),
                      'the continuation carries no event', p.lines())
            failed = [x for x in p.events if x.kind == 'except' and p.events.index(x) > p.events.index(h)]
            if not normal(p):
                continue
            if which == 'local':
                handled = bool(failed)
                if not handled:
                    ctx.check(e is case.cls and not p.wire() and not rep, key + '/defer', h.where(),
                              'the leg goes on (-> %s) before the local media is ready' % e.name, p.lines())
                else:
                    ctx.check(len(rep) == 1 and is_kind(rep[0], 'CCEventFail'), key + '/failure', h.where(),
                              'failure of the media hook is reported as %s' % [evname(v) for v in rep], p.lines())
                continue
            res = h.val
            rf = p.st.fact(res) if res is not None else None
            if failed:
                fails = [v for v in rep if is_kind(v, 'CCEventFail')]
                ctx.check(len(fails) == 1 and evt not in rep, key + '/failure', h.where(),
                          'failure of the media hook is reported as %s' % [evname(v) for v in rep], p.lines())
            elif rf is not None and rf.none is True:
                ctx.count('deferred')
                ctx.check(evt not in rep, key + '/deferred', h.where(),
                          'the event is reported although the media update is still pending', p.lines())
                ctx.check(p.st.heap.get((UA, 'rSDP'), S('ua.rSDP')) == S('ua.rSDP'), key + '/deferred-sdp', h.where(),
                          'the remote description changes although the media update is still pending', p.lines())
            else:
                ctx.count('immediate')
                ctx.check(rep.count(evt) == 1, key + '/immediate', h.where(),
                          'the event is not reported although the media update is complete', p.lines())
                rs = p.st.heap.get((UA, 'rSDP'))
                ctx.check(rs is not None and res is not None and rs in (res, ('OP', 'deepcopy', res)), key + '/immediate-sdp',
                          h.where(), 'the remote description is not the one the media hook returned', p.lines())
        if not normal(p):
            continue
        if phase(e) in OVER:
            for a in ('on_remote_sdp_change', 'on_local_sdp_change'):
                if phase(case.cls) in OVER and e is case.cls:
                    continue
                ctx.check(p.st.heap.get((UA, a)) == NONE, key + '/detach', p.where(),
                          'a finished leg keeps its media hook %s' % a, p.lines())
        if case.kind == 'rsdp':
            evt = case.args[0]
            if not case.arg:
                ctx.count('continuations')
                ctx.check(rep == [evt] and e is case.cls, key + '/resume', p.where(), 'completed media update reports %s'
                          % [evname(v) for v in rep], p.lines())
                rs = p.st.heap.get((UA, 'rSDP'))
                ctx.check(rs in (case.args[1], ('OP', 'deepcopy', case.args[1])), key + '/resume-sdp', p.where(),
                          'completed media update does not store the new remote description', p.lines())
            else:
                ctx.count('continuations')
                ctx.check(len(rep) == 1 and is_kind(rep[0], 'CCEventFail'), key + '/resume-fail', p.where(),
                          'failed media update reports %s' % [evname(v) for v in rep], p.lines())
                same_as_fail(ctx, L, case, p, key)
        if case.kind == 'lsdp':
            ctx.count('continuations')
            if not case.arg:
                calls = [x for x in p.events if x.kind == 'call' and x.name == 'recvEvent' and x.args and x.args[0] == case.args[0]]
                ctx.check(len(calls) >= 1, key + '/resume', p.where(), 'the deferred event is not processed', p.lines())
            else:
                ctx.check(len(rep) == 1 and is_kind(rep[0], 'CCEventFail'), key + '/resume-fail', p.where(),
                          'failed media update reports %s' % [evname(v) for v in rep], p.lines())
                same_as_fail(ctx, L, case, p, key)
    ctx.floor('hook calls', 20)
    ctx.floor('deferred', 5)
    ctx.floor('immediate', 5)
    ctx.floor('continuations', 10)


def same_as_fail(ctx, L, case, p, key):
    """A failed update ends up where a failure reported by the controller does."""
    ref = [c for k, c in L.cases.items() if k[0] is case.cls and k[1] == 'CCEventFail']
    ends = {x.end_cls() for c in ref for x in c.paths if normal(x)}
    ctx.check(p.end_cls() in ends, key + '/resume-end', p.where(), 'failed media update leaves the leg in %s, a failure leaves it '
              'in %s' % (p.end_cls().name, sorted(c.name for c in ends)), p.lines())


# ------------------------------------------------------------------------ C07
def c07(ctx):
    ctx.rule = ('Every path on which a leg becomes answered must record the answer time, start the call duration limit and run '
                'each answer callback exactly once, and no other path may do any of that; every path on which a leg starts '
                'ringing runs each progress callback once; a provisional answer that carries early progress is reported once; '
                'a leg set up with the media offer in the answer counts as answered when the acknowledgment goes out or '
                'comes in.')
    L = runs(ctx)
    for case, p in all_paths(ctx):
        if not normal(p):
            continue
        ph, eph, e = transition(case, p)
        if e is None:
            continue
        key = '%s/%s' % (case.cls.name, case.label)
        conn = elems(p, 'conn_cbs')
        ring = elems(p, 'ring_cbs')
        nconn = sorted(conn.values())
        began = [x for x in p.events if x.kind == 'call' and x.name == 'startCreditTimer']
        ts = (UA, 'connect_ts') in p.st.heap
        pre = False
        acked = [x for x in p.wire() if x[0] == 'ack']
        if ph == 'early' and eph == 'established':
            ctx.count('answers')
            # media offer in the answer: the leg only becomes answered later
            pre = any(is_kind(v, 'CCEventPreConnect') for v, _ in p.reported()) or case.label == 'CCEventPreConnect' or (
                not is_k(p.st.heap.get((UA, 'pending_tr'), NONE)))
            if pre:
                ctx.check(not conn and not began and not ts, key + '/early-answer', p.where(),
                          'a leg waiting for the acknowledgment counts as answered', p.lines())
                if side(case.cls) == 'uac':
                    ctx.check(not is_k(p.st.heap.get((UA, 'pending_tr'), NONE)), key + '/pending', p.where(),
                              'the transaction waiting for the acknowledgment is not kept', p.lines())
                continue
            answered = True
        elif case.kind == 'ack' and case.cls.name == 'UaStateConnected':
            ctx.count('acknowledgments')
            answered = True
        elif eph == 'established' and acked and case.cls.name == 'UaStateConnected' and e is case.cls:
            ctx.count('acknowledgments')
            answered = True
        else:
            answered = False
        if answered:
            ctx.check(nconn == [1, 1], key + '/callbacks', p.where(), 'leg is answered but the answer callbacks run %s times'
                      % nconn, p.lines())
            ctx.check(ts, key + '/connect_ts', p.where(), 'leg is answered without recording the time', p.lines())
            ctx.check(len(began) == 1, key + '/credit', p.where(), 'leg is answered with the call duration limit started %d '
                      'times' % len(began), p.lines())
        elif not (ph == 'early' and eph in OVER):
            ctx.check(not conn and not ts and not began, key + '/unanswered', p.where(),
                      'answer bookkeeping is done although the leg was not answered', p.lines())
        else:
            ctx.check(not conn, key + '/unanswered', p.where(), 'answer callbacks run although the leg ends', p.lines())
        if ph == 'early' and eph == 'early' and e is not case.cls:
            ctx.count('progress')
            ctx.check(sorted(ring.values()) == [1, 1], key + '/ring', p.where(),
                      'progress callbacks run %s times when the leg starts ringing' % sorted(ring.values()), p.lines())
        elif eph in OVER or eph == 'established':
            if case.kind != 'resp' or case.arg[1] >= 200:
                ctx.check(not ring, key + '/ring', p.where(), 'progress callbacks run although the leg is not ringing',
                          p.lines())
    ctx.floor('answers', 20)
    ctx.floor('acknowledgments', 5)
    ctx.floor('progress', 5)


# ------------------------------------------------------------------------ C08
def c08(ctx):
    ctx.rule = ('Every path that brings a leg to an ended state either makes it dead at once or starts a timer whose handler, '
                'analysed in that state, makes it dead on every path; entering the dead state must remove the leg from the '
                'dispatcher if it was registered, run each release callback once, drop the controller and callback references '
                'and detach the leg from its transaction; dead legs stay inert.')
    L = runs(ctx)
    tm = L.repo.cls('SipTransactionManager')
    dead = [c for c in L.states if phase(c) == 'dead']
    for case, p in all_paths(ctx):
        if not normal(p):
            continue
        ph, eph, e = transition(case, p)
        if e is None or e is case.cls:
            continue
        key = '%s/%s' % (case.cls.name, case.label)
        if eph == 'ended':
            ctx.count('ended')
            so = p.st.heap.get((UA, 'state'))
            good = False
            for v in {x.val for x in p.events if x.kind == 'call' and isinstance(x.val, tuple) and x.val[0] == 'O'
                      and isinstance(x.val[1], str) and x.val[1].startswith('timer:')}:
                cb = p.st.heap.get((v, '#cb'))
                if (v, '#cancelled') in p.st.heap or cb is None or cb[0] != 'B' or cb[1] != so:
                    continue
                good = good or kills(ctx, L, e, cb[2])
            ctx.check(good, key + '/release', p.where(), 'leg is left in %s without a timer that releases it' % e.name, p.lines())
        elif eph == 'dead':
            ctx.count('dead')
            unreg = [x for x in p.events if x.kind == 'call' and x.name == 'unregConsumer' and x.args and x.args[0] == UA]
            cid = p.st.heap.get((UA, 'cId'), S('ua.cId'))
            noid = is_k(cid) or p.st.fact(cid).none is True
            ctx.check(len(unreg) == (0 if noid else 1), key + '/unregister', p.where(),
                      'released leg is unregistered %d times' % len(unreg), p.lines())
            dcb = elems(p, 'dead_cbs')
            ctx.check(sorted(dcb.values()) == [1, 1], key + '/callbacks', p.where(), 'release callbacks run %s times' % sorted(
                dcb.values()), p.lines())
            for a in ('event_cb', 'tr', 'on_local_sdp_change', 'on_remote_sdp_change'):
                ctx.check(p.st.heap.get((UA, a)) == NONE, key + '/drop/' + a, p.where(), 'released leg keeps %s' % a, p.lines())
            det = [x for x in p.events if x.kind == 'set' and x.name == 'resp_cb' and x.val == NONE]
            trn = p.st.fact(S('ua.tr')).none is True
            ctx.check(bool(det) or trn or p.st.heap.get((UA, 'tr')) is None or fresh_tr(p), key + '/detach', p.where(),
                      'transaction of the released leg still calls it back', p.lines())
    ctx.floor('ended', 60)
    ctx.floor('dead', 10)


def fresh_tr(p):
    return False


_kills = {}


def kills(ctx, L, cls, fi):
    k = (id(L), cls, fi)
    if k not in _kills:
        from ..interp import Interp
        from ..leg import leg_state, Path
        st, so = leg_state(L.repo, cls, L.cfg)
        ip = Interp(L.repo, L.cfg)
        outs = ip.run(fi, so, [], st=st)
        ctx.visited(ip.visited)
        ok = bool(outs)
        for s2, oc in outs:
            v = s2.heap.get((UA, 'state'))
            if oc[0] != 'ret' or v is None or v[0] != 'O' or phase(v[2]) != 'dead':
                ok = False
        _kills[k] = ok
        ctx.count('release timers')
    return _kills[k]


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08}
