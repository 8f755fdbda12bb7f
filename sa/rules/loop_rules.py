"""E01-E05: the event loop, its timers and signals, and the worker threads
around it."""
import ast

from ..scen import (SInterp, ScenCfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise, build, step, drain, must,
                    mkexc, EOTHER, ClassInfo, Ext, FuncInfo, AnchorError)
from ..core import trace_lines
from ..types import Types, own_nodes


class lines:
    """the path of a state, rendered only when a finding needs it"""

    def __init__(self, st):
        self.st = st

    def __iter__(self):
        return iter(trace_lines([e for e in self.st.events() if e.kind != 'assume' or e.fn is not None]))


def cbs(st, *names):
    return [e for e in st.events() if e.kind == 'cb' and (not names or e.name in names)]


# ------------------------------------------------------------------ the loop
class LoopCfg(ScenCfg):
    """Clock values are symbols, the heap is an ordered list whose head is the
    earliest timer."""
    opaque = ('sippy.Core.Exceptions', 'sippy.Math.', 'sippy.Time.MonoTime', 'sippy.Time.clock_dtime')
    unroll = 7
    head = True
    sort_keeps = True

    def on_call(self, interp, st, ev):
        if ev.name in ('callFromThread', 'callFromThreadSync'):
            return self.cb_only(interp, st, ev)
        return ScenCfg.on_call(self, interp, st, ev)

    def cb_only(self, interp, st, ev):
        return None

    def on_call2(self, interp, st, ev):
        n = ev.name
        fv = ev.extra
        if isinstance(fv, tuple) and fv[0] == 'X' and fv[1].startswith('heapq.') and ev.args and ev.args[0][0] == 'L':
            l = ev.args[0]
            it = st.heap.get((l, 'items')) or ()
            interp.emit(st, ev)
            if len(it) < 2 or n == 'heapify':
                st.sethp((l, '#heap'), TRUE)
            elif (l, '#heap') not in st.heap:
                st.sethp('#unheaped', TRUE)
            if n == 'heappush':
                st.sethp((l, 'items'), it + (ev.args[1],))
                return [(st, NONE)]
            if n == 'heappop':
                if not it:
                    return [(st, Raise(mkexc(st, 'builtins.IndexError')))]
                st.sethp((l, 'items'), it[1:])
                return [(st, it[0])]
            if n == 'heapify':
                return [(st, NONE)]
        if ev.extra == 'new' and n == 'MonoTime':
            interp.emit(st, ev)
            o = self.instant(interp, st, ev, None)
            st.sethp((o, '#t'), S('now' + o[1]))
            return [(st, o)]
        if n in ('getCopy', 'getOffsetCopy', 'offset') and ev.recv is not None and (ev.recv, '#t') in st.heap:
            t = st.heap[(ev.recv, '#t')]
            if n != 'getCopy':
                t = ('OP', 'plus', t, ev.args[0])
            if n == 'offset':
                interp.emit(st, ev)
                st.sethp((ev.recv, '#t'), t)
                return [(st, NONE)]
            return [(st, self.instant(interp, st, ev, t))]
        if n == 'get_ident':
            return [(st, S('ident'))]
        if n == 'call_from_thread':
            interp.emit(st, ev)
            st.sethp('#posted', st.heap.get('#posted', ()) + (tuple(ev.args),))
            return [(st, NONE)]
        if n == 'procrastinate':
            interp.emit(st, ev)
            res = [(st, NONE)]
            if st.heap.get('#posted') and self.deliver:
                res = []
                for s, oc in drain(interp, st):
                    bad = [o for o in oc if o[0] == 'raise']
                    if bad:
                        s.sethp('#escaped', bad[0][1])
                    res.append((s, NONE))
            n = st.heap.get('#rounds', 0) + 1
            for s, v in res:
                s.sethp('#rounds', n)
            if n > self.rounds:
                self.blocked.extend(s for s, v in res)
                return []
            return res
        return None

    def instant(self, interp, st, ev, t):
        o = ('O', 'instant' + interp.site(st, ev.node), self.repo.cls('MonoTime'))
        if t is not None:
            st.sethp((o, '#t'), t)
        return o

    deliver = True
    rounds = 3


class LInterp(SInterp):
    def dec_lt(self, st, a, b, node, fr):
        a, b = st.heap.get((a, '#t'), a), st.heap.get((b, '#t'), b)
        self.emit(st, Ev('cmp', 'lt', recv=('OP', 'lt', a, b), node=node, fn=fr.fi if fr else None))
        if a == b:
            return [(st, False)]
        return SInterp.dec_lt(self, st, a, b, node, fr)


def mkloop(repo, **kw):
    cfg = LoopCfg(repo, **kw)
    I = LInterp(repo, cfg)
    ed = repo.cls('EventDispatcher2')
    st = State()
    # class-level counter of instances is zero: first instance
    st.sethp((('C', ed), 'ed_inum'), K(0))
    o = S(ed.module.name + '.ED2')
    cfg.path_types[o] = ed
    st.setfact(o, Fact(none=False, truth=True))
    for s, oc in I.run(must(repo, ed, '__init__'), o, [], None, st):
        if oc[0] == 'ret':
            # attributes the constructor leaves at their class-level values
            for c in ed.repo_mro():
                for n, v in c.attrs.items():
                    if (o, n) not in s.heap and isinstance(v, ast.Constant):
                        s.sethp((o, n), K(v.value))
            s.trace = None
            return cfg, I, s, o, ed
    raise AnchorError('constructor of the event dispatcher has no usable path')


def add_timer(I, st, ed, o, cb, ival, nticks, *params, abs_=FALSE, inact=False):
    st, t = step(I, st, ed, o, 'regTimer', [S(cb), ival, K(nticks) if not isinstance(nticks, tuple) else nticks, abs_] + list(params))
    st, _ = step(I, st, t[2], t, 'go')
    return st, t


PLAIN = ('builtins.ValueError', 'builtins.OSError', 'app.AnyError')
FAIL = [('ret', NONE)] + [('raise', x) for x in PLAIN]


def when(st, t):
    """the instant a listener is due: the one the heap orders listeners by"""
    lt = t[2].find('__lt__')
    if lt is None:
        raise AnchorError('timers are not ordered')
    for n in ast.walk(lt.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            v = st.heap.get((t, n.attr))
            if v is not None and (v, '#t') in st.heap:
                return st.heap[(v, '#t')]
    raise AnchorError('no instant found in a timer')


def heap_of(st, o, e):
    """does the dispatcher still hold listener e?"""
    for (k, l) in st.heap.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] == o and isinstance(l, tuple) and l[:1] == ('L',):
            v = st.heap.get((l, 'items'), 0)
            if v is None:
                raise AnchorError('contents of a list of the event loop are not known')
            if isinstance(v, tuple) and any(x == e for x in v):
                return True
    return False


def due_decided(st):
    """[(subject pair, truth)] of the comparisons between two instants"""
    out = []
    for e in st.events():
        if e.kind == 'assume' and isinstance(e.recv, tuple) and e.recv[0] == 'OP' and e.recv[1] == 'lt':
            out.append((e.recv[2], e.recv[3], e.extra))
    return out


def is_due(st, et):
    """True / False / None: was the timer whose instant is et found due on
    this path (now >= et)?"""
    for a, b, r in due_decided(st):
        if a == et and b != et:        # et < now
            return True if r else None
        if b == et:                    # now < et
            return not r
    return None


def ed_where(ed):
    return ed.find('loop').where()


def e01(ctx):
    ctx.rule = '''Whatever the application registers with the loop (timer callbacks, signal callbacks, calls posted from other threads,
the data callback of a transport, results of commands, commands of a control connection) is replaced by an opaque callback
that returns or raises (ValueError, OSError, an unknown Exception subclass); on every path the exception must not get past
the loop's boundary, the remaining timers, signals and posted calls are still delivered, a one-shot timer whose callback
failed is gone and a periodic one stays scheduled; an intentional exit (SystemExit) is passed on.'''
    repo = ctx.repo
    # timers
    for first in (1, -1, 2):
        cfg, I, st, o, ed = mkloop(repo, callbacks={'CB1': FAIL, 'CB2': None})
        st, t1 = add_timer(I, st, ed, o, 'CB1', S('ival1'), first, S('p1'))
        st, t2 = add_timer(I, st, ed, o, 'CB2', S('ival2'), 1, S('p2'))
        e1, e2 = when(st, t1), when(st, t2)
        fi = must(repo, ed, 'dispatchTimers')
        for s, oc in I.run(fi, o, [], None, st):
            ctx.count('timer rounds')
            ctx.visited(I.visited)
            d1, d2 = is_due(s, e1), is_due(s, e2)
            failed = any(e.kind == 'except' for e in s.events())
            ctx.check(oc[0] == 'ret', 'timer/escape', fi.where(), 'an exception of a timer callback stops the loop', lines(s))
            if oc[0] == 'ret' and d1 and cbs(s, 'CB1'):
                n2 = len(cbs(s, 'CB2'))
                if d2:
                    ctx.check(n2 == 1, 'timer/next', fi.where(), 'a due timer is not served after the callback of another one %s' %
                              ('failed' if failed else 'ran'), lines(s))
                ctx.check(heap_of(s, o, t1) == (first == -1 or len(cbs(s, 'CB1')) < first), 'timer/%s' % ('once' if first == 1 else 'periodic'), fi.where(),
                          'a timer is %s after its callback %s' % ('still scheduled' if first == 1 else 'no longer scheduled',
                                                                   'failed' if failed else 'ran'), lines(s))
        cfg, I, st, o, ed = mkloop(repo, callbacks={'CB1': [('raise', 'builtins.SystemExit')]})
        st, t1 = add_timer(I, st, ed, o, 'CB1', S('ival1'), first)
        for s, oc in I.run(fi, o, [], None, st):
            if cbs(s, 'CB1'):
                ctx.count('exit requests')
                ctx.check(oc[0] == 'raise', 'timer/exit', fi.where(), 'an intentional exit from a timer callback is swallowed', lines(s))
    # signals
    cfg, I, st, o, ed = mkloop(repo, callbacks={'CB1': FAIL, 'CB2': None, 'CB3': None})
    for cb in ('CB1', 'CB2'):
        st, _ = step(I, st, ed, o, 'regSignal', [S('SIGX'), S(cb), S('par' + cb)])
    st, _ = step(I, st, ed, o, 'regSignal', [('X', 'signal.SIGOTHER'), S('CB3')], pick=None)
    st.setfact(('OP', 'eq', *sorted((S('SIGX'), ('X', 'signal.SIGOTHER')), key=repr), ('ver', 0, 0)), Fact(truth=False))
    st, _ = step(I, st, ed, o, 'signal', [S('SIGX'), S('frame')])
    fi = must(repo, ed, 'dispatchSignals')
    for s, oc in I.run(fi, o, [], None, st):
        ctx.count('signal rounds')
        ctx.visited(I.visited)
        ctx.check(oc[0] == 'ret', 'signal/escape', fi.where(), 'an exception of a signal callback stops the loop', lines(s))
        ctx.check(len(cbs(s, 'CB1')) == 1 and len(cbs(s, 'CB2')) == 1, 'signal/all', fi.where(),
                  'a signal is not delivered once to each of its listeners', lines(s))
        ctx.check(not cbs(s, 'CB3'), 'signal/other', fi.where(), 'a signal is delivered to a listener of another signal', lines(s))
        for e in cbs(s, 'CB1'):
            ctx.check(e.args == (S('parCB1'),), 'signal/params', fi.where(), 'a signal callback is called without its parameters', lines(s))
    # calls posted from other threads, delivered by the loop
    fi = must(repo, ed, 'loop')
    cfg, I, st, o, ed = mkloop(repo, callbacks={'CB1': FAIL, 'CB2': None}, rounds=2)
    for cb in ('CB1', 'CB2'):
        st, _ = step(I, st, ed, o, 'callFromThread', [S(cb), S('a' + cb), S('b' + cb)])
    res = I.run(fi, o, [], None, st)
    for s, oc in res + [(x, ('ret', NONE)) for x in cfg.blocked]:
        ctx.count('posted calls')
        ctx.visited(I.visited)
        ctx.check(oc[0] == 'ret' and '#escaped' not in s.heap, 'posted/escape', fi.where(), 'an exception of a call posted from a thread stops the loop', lines(s))
        for cb in ('CB1', 'CB2'):
            es = cbs(s, cb)
            ctx.check(len(es) == 1 and es[0].args == (S('a' + cb), S('b' + cb)), 'posted/once', fi.where(),
                      'a call posted from a thread is not made exactly once with its arguments', lines(s))
    for x in ('builtins.SystemExit', 'builtins.KeyboardInterrupt'):
        cfg, I, st, o, ed = mkloop(repo, callbacks={'CB1': [('raise', x)]}, rounds=2)
        st, _ = step(I, st, ed, o, 'callFromThread', [S('CB1')])
        res = I.run(fi, o, [], None, st)
        for s, oc in res + [(z, ('ret', NONE)) for z in cfg.blocked]:
            if cbs(s, 'CB1'):
                ctx.count('exit requests')
                ctx.check(oc[0] == 'raise' and isinstance(oc[1][2], Ext) and oc[1][2].name == x, 'posted/exit', fi.where(),
                          'an intentional exit from a posted call does not end the loop', lines(s))
    # synchronous calls: the caller gets the result or the exception, exactly once
    sy = must(repo, ed, 'callFromThreadSync')
    cfg, I, st, o, ed = mkloop(repo, callbacks={'CB1': [('ret', S('the result'))] + [('raise', y) for y in PLAIN + ('builtins.SystemExit',)]})
    cfg.sync = True
    for s, oc in run_sync(I, cfg, sy, o, st):
        ctx.count('synchronous calls')
        ctx.visited(I.visited)
        es = cbs(s, 'CB1')
        ctx.check(len(es) == 1 and es[0].args == (S('arg'),), 'sync/once', sy.where(), 'a synchronous call is not made exactly once with its arguments', lines(s))
        r = [e for e in s.events() if e.kind == 'note' and e.name == 'cbout']
        want = s.heap.get('#cbout')
        ctx.check(want is not None and oc == want, 'sync/result', sy.where(),
                  'a synchronous call does not hand the result or the exception of the callback to its caller', lines(s))
        ctx.check('#escaped' not in s.heap, 'sync/escape', sy.where(), 'an exception of a synchronous call stops the loop', lines(s))
    ctx.count('synchronous calls', -len(cfg.blocked) if cfg.blocked else 0)
    ctx.check(not cfg.blocked, 'sync/hang', sy.where(), 'the caller of a synchronous call waits for ever', lines(cfg.blocked[0]) if cfg.blocked else ())
    # what the rest of the system posts to the loop
    boundary(ctx)
    ctx.floor('timer rounds', 8)
    ctx.floor('signal rounds', 3)
    ctx.floor('posted calls', 4)
    ctx.floor('exit requests', 5)
    ctx.floor('synchronous calls', 2)
    ctx.floor('boundary paths', 6)


def run_sync(I, cfg, fi, o, st):
    """The caller's thread blocks on the queue until the loop has run what was
    posted: posting delivers at once."""
    orig = cfg.on_call2

    def on_call2(interp, st, ev):
        if ev.name == 'call_from_thread':
            interp.emit(st, ev)
            out = []
            f, args = ev.args[0], list(ev.args[1:])
            for s, oc in interp.callv(st, f, args):
                if oc[0] == 'raise':
                    s.sethp('#escaped', oc[1])
                out.append((s, NONE))
            return out
        return orig(interp, st, ev)
    cfg.on_call2 = on_call2
    old = cfg.on_call

    def on_call(interp, st, ev):
        r = old(interp, st, ev)
        if cfg.cbname(ev) is not None and r is not None:
            for s, v in r:
                s.sethp('#cbout', ('raise', v.exc) if isinstance(v, Raise) else ('ret', v))
        return r
    cfg.on_call = on_call
    return I.run(fi, o, [S('CB1'), S('arg')], None, st)


def boundary(ctx):
    """Entry points the loop runs on behalf of others: a failing callback
    leaves the object usable / cleans up."""
    repo = ctx.repo
    # signal objects: chain to the previous handler, callback failures contained by the loop
    sg = repo.cls('Signal')
    for prev in ('PREV', None):
        cfg = ScenCfg(repo, callbacks={'CB1': FAIL, 'PREV': FAIL})
        I = SInterp(repo, cfg)
        st, o = build(I, State(), sg, [S('signum'), S('CB1'), S('p')], tag='sig')
        # what the system returned for the handler installed before
        hs = [e for e in I.visited]
        for k, v in list(st.heap.items()):
            if isinstance(k, tuple) and k[0] == o and v[0] == 'S' and 'signal()' in v[1]:
                st.sethp(k, S('PREV') if prev else ('X', 'signal.SIG_DFL'))
        hf = [f for f in sg.methods.values() if any(isinstance(x, ast.arg) and f.node.args.vararg is not None for x in [f.node.args.vararg]) and f.name != '__init__']
        h = sg.find('signal_handler')
        if h is None:
            raise AnchorError('signal handler method not found')
        for s, oc in I.run(h, o, [S('signum'), S('frame')], None, st):
            ctx.visited(I.visited)
            ctx.check(oc[0] == 'ret', 'signal-object/handler', h.where(), 'an exception of the previous handler escapes the signal handler', lines(s))
            ctx.check(len(cbs(s, 'PREV')) == (1 if prev else 0), 'signal-object/chain', h.where(), 'the handler installed before is not called exactly once', lines(s))
            ctx.check(not cbs(s, 'CB1'), 'signal-object/context', h.where(), 'the callback runs in the signal handler, not in the loop', lines(s))
            for s2, ocs in drain(I, s):
                ctx.count('boundary paths')
                es = cbs(s2, 'CB1')
                ctx.check(len(es) == 1 and es[0].args == (S('p'),), 'signal-object/once', h.where(), 'a signal does not call its callback exactly once with its parameters', lines(s2))
    # transports
    for c in transports(repo):
        h = must(repo, c, 'handle_read')
        cfg = ScenCfg(repo, callbacks={'CB1': FAIL + [('raise', 'builtins.SystemExit')]})
        I = SInterp(repo, cfg)
        o = ('O', 'transport', c)
        st = State()
        st.sethp((o, 'uopts'), S('uopts'))
        st.sethp((S('uopts'), 'data_callback'), S('CB1'))
        for s, oc in I.run(h, o, [S('data'), S('address'), S('rtime')], None, st):
            ctx.visited(I.visited)
            es = cbs(s, 'CB1')
            if not es:
                continue
            ctx.count('boundary paths')
            ex = [e for e in s.events() if e.kind == 'except']
            sysx = oc[0] == 'raise' and isinstance(oc[1][2], Ext) and 'SystemExit' in oc[1][2].name
            ctx.check(oc[0] == 'ret' or sysx, 'transport/escape', h.where(), 'an exception of the data callback escapes the transport', lines(s))
            ctx.check(len(es) == 1 and es[0].args[:2] == (S('data'), S('address')), 'transport/once', h.where(), 'a datagram is not handed over exactly once', lines(s))
    # a command that fails closes its control connection
    cm = repo.cls('CLIManager')
    h = must(repo, cm, 'handle_cmd')
    cfg = ScenCfg(repo, callbacks={'CB1': FAIL})
    I = SInterp(repo, cfg)
    st, o = build(I, State(), cm, [S('sock'), S('CB1')], tag='clim')
    for s, oc in I.run(h, o, [S('cmd')], None, st):
        ctx.count('boundary paths')
        ctx.visited(I.visited)
        ctx.check(oc[0] == 'ret', 'command/escape', h.where(), 'an exception of a command handler escapes the control connection', lines(s))
        es = cbs(s, 'CB1')
        ctx.check(len(es) == 1 and S('cmd') in es[0].args, 'command/once', h.where(), 'a command is not handed over exactly once', lines(s))
        if any(e.kind == 'except' for e in s.events()):
            done = [e for e in s.events() if e.kind == 'call' and e.name in ('notify', 'notify_all', 'close', 'shutdown')]
            ctx.check(bool(done), 'command/close', h.where(), 'the control connection stays open after its command handler failed', lines(s))
    # results of external commands, replies of RTP proxies
    ec = repo.cls('External_command')
    for c in [ec] + ec.all_subs():
        h = must(repo, c, 'process_result')
        cfg = ScenCfg(repo, callbacks={'CB1': FAIL})
        I = SInterp(repo, cfg)
        for s, oc in I.run(h, ('O', 'ec', c), [S('CB1'), ('T', (S('line1'), S('line2'))), S('p')], None, State()):
            ctx.count('boundary paths')
            ctx.visited(I.visited)
            es = cbs(s, 'CB1')
            ctx.check(len(es) == 1 and es[0].args[1:] == (S('p'),), 'result/once', h.where(), 'the callback of an external command is not called exactly once with its parameters', lines(s))


def transports(repo):
    ns = repo.cls('Network_server')
    fs = {}
    for c in [ns] + ns.all_subs():
        m = c.find('handle_read')
        if m is not None and not c.module.name.endswith('XMPP_server'):
            fs[m] = c if c is not ns else repo.cls('Udp_server')
    return list(fs.values())


# ------------------------------------------------------------------ timers
def cancels(t, name):
    def f(interp, st):
        m = must(interp.repo, t[2], 'cancel')
        st = st.copy()
        out = []
        for s, oc in interp._enter(st, m, t, [], {}, Ev('call', 'cancel', recv=t, callee=m, node=m.node, fn=m), None):
            out.append((s, Raise(oc[1]) if oc[0] == 'raise' else NONE))
        return out
    return ('do', f)


def does(o, ci, name, *args):
    def f(interp, st):
        m = must(interp.repo, ci, name)
        out = []
        for s, oc in interp._enter(st.copy(), m, o, list(args), {}, Ev('call', name, recv=o, callee=m, node=m.node, fn=m), None):
            out.append((s, Raise(oc[1]) if oc[0] == 'raise' else NONE))
        return out
    return ('do', f)


def e05(ctx):
    ctx.rule = '''Timers are created through the public functions and the dispatcher and its loop are analysed with a symbolic clock: the
due instant is the instant of creation plus the interval (or the given instant); on every path of a round a timer that was
found due is called once with its parameters and one found not due is neither called nor dropped; after the call a one-shot
timer is gone, a periodic one is due one interval after its last due instant, a counted one stops after its count; a
cancelled timer (before the round, from another callback, from its own callback) is never called again and cancelling
twice is harmless; discarding cancelled timers keeps all others; the clock is read again in every round; a loop told to
stop returns the given value and leaves the remaining timers alone.'''
    repo = ctx.repo
    tm = repo.mod('sippy.Time.Timeout')

    def mk(fn, *args, **kw):
        cfg, I, st, o, ed = mkloop(repo, callbacks={'CB1': None, 'CB2': None, 'CB3': None}, **kw)
        return cfg, I, st, o, ed
    # (a) creation
    f = {n: repo.func('sippy.Time.Timeout.' + n) for n in ('Timeout', 'TimeoutInact', 'TimeoutAbsMono')}
    for n, fi in f.items():
        cfg, I, st, o, ed = mk(n)
        mt = ('O', 'mt', repo.cls('MonoTime'))
        st.sethp((mt, '#t'), S('given'))
        args = [S('CB1'), mt if n == 'TimeoutAbsMono' else S('ival')] + ([] if n == 'TimeoutAbsMono' else [K(1)]) + [S('p1'), S('p2')]
        got = 0
        for s, oc in I.run(fi, None, args, None, st):
            ctx.visited(I.visited)
            if oc[0] != 'ret':
                ctx.check(False, 'create/%s/raise' % n, fi.where(), 'creating a timer raises', lines(s))
                continue
            t = oc[1]
            got += 1
            ctx.count('created timers')
            if n == 'TimeoutInact':
                ctx.check(not heap_of(s, o, t), 'create/inactive', fi.where(), 'an inactive timer is scheduled before it is started', lines(s))
                s.trace = None
                s, _ = step(I, s, t[2], t, 'go')
            ctx.check(heap_of(s, o, t), 'create/%s/scheduled' % n, fi.where(), 'a new timer is not handed to the loop', lines(s))
            w = when(s, t)
            news = [x for k, x in s.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[1] == '#t' and x[0] == 'S']
            if n == 'TimeoutAbsMono':
                ctx.check(w == S('given'), 'create/%s/when' % n, fi.where(), 'a timer for an instant is due at %s' % show(w), lines(s))
            else:
                fresh = [e for e in s.events() if e.kind == 'call' and e.name == 'MonoTime'] or n == 'TimeoutInact'
                ctx.check(w[0] == 'OP' and w[1] == 'plus' and w[2][0] == 'S' and w[3] == S('ival') and bool(fresh), 'create/%s/when' % n, fi.where(),
                          'a timer is due at %s, not the interval after its creation' % show(w), lines(s))
            dt = must(repo, ed, 'dispatchTimers')
            s.trace = None
            for s2, oc2 in I.run(dt, o, [], None, s):
                for e in cbs(s2):
                    ctx.check(e.name == 'CB1' and e.args == (S('p1'), S('p2')), 'create/%s/call' % n, fi.where(),
                              'a timer callback is called without its parameters', lines(s2))
                ctx.check(bool(cbs(s2)) == bool(is_due(s2, w)) or is_due(s2, w) is None, 'create/%s/due' % n, fi.where(), 'a timer is served although it is not due, or the reverse', lines(s2))
                ctx.check(len(cbs(s2)) <= 1, 'create/%s/once' % n, fi.where(), 'a one-shot timer is served twice', lines(s2))
        ctx.check(got > 0, 'create/%s' % n, fi.where(), 'a timer cannot be created')
    # (b) rounds
    dt = repo.method('EventDispatcher2', 'dispatchTimers')
    for nt in (1, 2, 3, -1):
        for ts in (False, True):
            cfg, I, st, o, ed = mk('round')
            st, t1 = add_timer(I, st, ed, o, 'CB1', S('ival1'), nt, S('p1'))
            st, t2 = add_timer(I, st, ed, o, 'CB2', S('ival2'), 1, S('p2'))
            w1, w2 = when(st, t1), when(st, t2)
            now = None
            if ts:
                st.sethp((t1, 'cb_with_ts'), TRUE)
            for s, oc in I.run(dt, o, [], None, st):
                ctx.count('rounds')
                ctx.visited(I.visited)
                n1, n2 = cbs(s, 'CB1'), cbs(s, 'CB2')
                d1, d2 = is_due(s, w1), is_due(s, w2)
                k = 'round/%s' % nt
                ctx.check(oc[0] == 'ret', k + '/raise', dt.where(), 'serving timers raises', lines(s))
                # instants of t1 found due on this path
                served = 0
                w = w1
                while is_due(s, w) is True:
                    served += 1
                    w = ('OP', 'plus', w, S('ival1'))
                    if 0 < nt <= served:
                        break
                ctx.check(len(n1) == served, k + '/due', dt.where(), 'a timer found due %d times is served %d times' % (served, len(n1)), lines(s))
                ctx.check(heap_of(s, o, t1) == (nt == -1 or served < nt), k + '/keep', dt.where(),
                          'a timer is %s' % ('still scheduled after its last tick' if heap_of(s, o, t1) else 'dropped before its last tick'), lines(s))
                if served and heap_of(s, o, t1):
                    ctx.check(when(s, t1) == w, k + '/next', dt.where(), 'a periodic timer is next due at %s, not one interval after its last due instant' % show(when(s, t1)), lines(s))
                ctx.check((len(n2) == 1) == (d2 is True) and len(n2) <= 1, k + '/second', dt.where(), 'a timer is served although it is not due, or the reverse', lines(s))
                ctx.check(heap_of(s, o, t2) != bool(n2), k + '/second-keep', dt.where(), 'a timer not served is dropped (or one served kept)', lines(s))
                for e in n1:
                    ctx.check((e.args[1:] if ts else e.args) == (S('p1'),), k + '/params', dt.where(), 'a timer callback is called with %s' % ', '.join(show(a) for a in e.args), lines(s))
    # (c) cancellation
    for nt in (1, -1):
        for how in ('before', 'by another', 'by itself', 'twice', 'when served'):
            cfg, I, st, o, ed = mk('cancel')
            st, t1 = add_timer(I, st, ed, o, 'CB1', S('ival1'), nt, S('p1'))
            st, t2 = add_timer(I, st, ed, o, 'CB2', S('ival2'), nt, S('p2'))
            st, t3 = add_timer(I, st, ed, o, 'CB3', S('ival3'), 1, S('p3'))
            w = {'CB1': when(st, t1), 'CB2': when(st, t2), 'CB3': when(st, t3)}
            if how in ('before', 'twice'):
                st, _ = step(I, st, t1[2], t1, 'cancel')
                if how == 'twice':
                    st, _ = step(I, st, t1[2], t1, 'cancel')
            if how == 'by another':
                cfg.callbacks['CB1'] = [cancels(t2, 'CB2')]
            if how == 'by itself':
                cfg.callbacks['CB1'] = [cancels(t1, 'CB1')]
            for s, oc in I.run(dt, o, [], None, st):
                ctx.count('cancellations')
                k = 'cancel/%s' % how
                ctx.check(oc[0] == 'ret', k + '/raise', dt.where(), 'cancelling a timer breaks the loop', lines(s))
                ctx.check(len([e for e in s.events() if e.kind == 'except']) == 0, k + '/error', dt.where(), 'cancelling a timer fails', lines(s))
                n1, n2, n3 = cbs(s, 'CB1'), cbs(s, 'CB2'), cbs(s, 'CB3')
                if how in ('before', 'twice'):
                    ctx.check(not n1, k, dt.where(), 'a cancelled timer is served', lines(s))
                if how == 'by another' and n1:
                    i = [j for j, e in enumerate(s.events()) if e.kind == 'cb' and e.name == 'CB1'][0]
                    ctx.check(not [e for e in s.events()[i:] if e.kind == 'cb' and e.name == 'CB2'], k, dt.where(), 'a timer cancelled by the callback of another one is served', lines(s))
                if how == 'by itself':
                    ctx.check(len(n1) <= 1, k, dt.where(), 'a timer cancelled by its own callback is served again', lines(s))
                if how == 'when served' and nt == 1 and n1:
                    m = must(repo, t1[2], 'cancel')
                    s2 = s.copy()
                    s2.trace = None
                    for s3, oc3 in I.run(m, t1, [], None, s2):
                        ctx.check(oc3[0] == 'ret', k + '/late', m.where(), 'cancelling a timer that was already served raises', lines(s3))
                # reaching the last timer means serving it when due
                d3 = is_due(s, w['CB3'])
                ctx.check((len(n3) == 1) == (d3 is True), k + '/others', dt.where(), 'another timer is not served after a cancellation', lines(s))
                ctx.check(heap_of(s, o, t3) != bool(n3), k + '/keep', dt.where(), 'another timer is dropped with a cancelled one', lines(s))
    # (d) the loop: discarding, clock, stop
    lp = repo.method('EventDispatcher2', 'loop')
    for order in ('LC', 'CL', 'LCC', 'CLC', 'LCCC', 'CCLC', 'LMCCCC', 'LCCCM', 'MCCLC', 'CMCCL'):
        cfg, I, st, o, ed = mk('loop', rounds=2)
        cfg.callbacks['CB3'] = None
        ts, keep = [], []
        for c in order:
            n = {'L': '1', 'C': '2', 'M': '3'}[c]
            st, t = add_timer(I, st, ed, o, 'CB' + n, S('ival' + n), 1, S('p' + n))
            (ts if c == 'C' else keep).append((t, 'CB' + n))
        for t, c in ts:
            st, _ = step(I, st, t[2], t, 'cancel')
        res = I.run(lp, o, [], None, st)
        for s in [x for x, oc in res] + cfg.blocked:
            ctx.count('loop runs')
            ctx.visited(I.visited)
            ev = s.events()
            n2 = cbs(s, 'CB2')
            ctx.check('#unheaped' not in s.heap, 'loop/order', lp.where(), 'timers are taken from a list that was not put in order', lines(s))
            ctx.check(not n2, 'loop/cancelled', lp.where(), 'a cancelled timer is served', lines(s))
            for t, c in keep:
                n1, w1 = cbs(s, c), when(st, t)
                dec = [(a, b, r) for a, b, r in due_decided(s) if w1 in (a, b)]
                due = any((b == w1 and not r) or (a == w1 and r) for a, b, r in dec)
                ctx.check(len(n1) == (1 if due else 0), 'loop/served', lp.where(), 'a timer found due is served %d times' % len(n1), lines(s))
                ctx.check(heap_of(s, o, t) == (not n1), 'loop/kept', lp.where(), 'discarding cancelled timers loses (or keeps) another one', lines(s))
            # clock
            rounds = [[]]
            for e in ev:
                if e.kind == 'call' and e.name == 'procrastinate':
                    rounds.append([])
                elif e.kind == 'cmp':
                    rounds[-1].extend(x for x in e.recv[2:4] if x[0] == 'S')
            for a, b in zip(rounds, rounds[1:]):
                ctx.check(not set(a) & set(b), 'loop/clock', lp.where(), 'two rounds of the loop use the same reading of the clock', lines(s))
    cfg, I, st, o, ed = mk('stop', rounds=3)
    cfg.callbacks['CB1'] = [does(o, ed, 'breakLoop', S('rval'))]
    st, t1 = add_timer(I, st, ed, o, 'CB1', S('ival1'), 1, S('p1'))
    st, t2 = add_timer(I, st, ed, o, 'CB2', S('ival2'), 1, S('p2'))
    n = 0
    res = [(s, oc) for s, oc in I.run(lp, o, [], None, st)] + [(s, None) for s in cfg.blocked]
    for s, oc in res:
        ctx.count('loop runs')
        if cbs(s, 'CB1'):
            n += 1
            ctx.check(oc == ('ret', S('rval')), 'stop/value', lp.where(), 'a loop told to stop goes on or returns another value', lines(s))
            ctx.check(not cbs(s, 'CB2') and heap_of(s, o, t2), 'stop/rest', lp.where(), 'a timer is served or lost after the loop was told to stop', lines(s))
        else:
            ctx.check(oc is None, 'stop/early', lp.where(), 'the loop ends although nobody stopped it', lines(s))
    ctx.check(n > 0, 'stop/any', lp.where(), 'the loop cannot be stopped')
    # a new loop() after a stop goes on with what is left
    cfg, I, st, o, ed = mk('timeout', rounds=2)
    for s, oc in I.run(lp, o, [S('tout')], None, st):
        ctx.count('loop runs')
        due = [r for a, b, r in due_decided(s) if (b[0] == 'S' and a[0] == 'OP' and a[1] == 'plus' and a[3] == S('tout'))]
        ctx.check(oc[0] == 'ret' and True in due, 'timeout', lp.where(), 'a loop with a time limit ends before it', lines(s))
    ctx.floor('created timers', 3)
    ctx.floor('rounds', 16)
    ctx.floor('cancellations', 16)
    ctx.floor('loop runs', 6)


RULES = {'E01': e01, 'E05': e05}
