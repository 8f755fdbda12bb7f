"""E02/E03/E04: the worker threads around the event loop."""
import ast

from ..scen import (SInterp, ScenCfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise, build, step, drain, must,
                    mkexc, EOTHER, ClassInfo, Ext, FuncInfo, AnchorError)
from .loop_rules import lines, cbs
from ..types import Types, own_nodes

OSE = ['builtins.OSError']
IO = {
    'send': OSE, 'sendto': OSE + ['builtins.OverflowError'], 'recv': OSE, 'connect': OSE,
    'getaddrinfo': OSE + ['builtins.UnicodeError', 'builtins.OverflowError'], 'readline': OSE, 'write': OSE, 'writelines': OSE,
    'flush': OSE, 'Popen': OSE + ['builtins.ValueError'], 'open': OSE, 'flock': OSE, 'decode': ['builtins.UnicodeDecodeError'],
    'socket': OSE, 'openlog': OSE, 'syslog': OSE + ['builtins.UnicodeError'],
}


class WCfg(ScenCfg):
    join = True

    def relevant(self, ev):
        if ev.kind in ('cb', 'fault', 'except'):
            return ev.kind != 'except'
        if ev.kind != 'call':
            return False
        if ev.name in ('callFromThread', 'callFromThreadSync', 'sendto', 'write', 'syslog', 'send', 'close', 'put', 'append', 'accept'):
            return True
        return ev.callee is not None and (ev.callee.module.name == 'sippy.Time.Timeout' or
                                          ev.callee.module.name.startswith('sippy.Core.EventD') or ev.callee.module.name == 'sippy.Signal')

    def rel_heap(self, key):
        if isinstance(key, str) or key[0] in ('#script',):
            return True
        return len(key) == 2 and (key[1] in ('items', 'map') or isinstance(key[0], tuple) and key[0][0] == 'O' and isinstance(key[0][2], ClassInfo)
                                  and not str(key[1]).startswith('#'))

    def rel_fact(self, v):
        return False


class World:
    """One worker, the objects it works for and the jobs it was given."""

    def __init__(self, repo, name, worker, cfg, I, st, obj, jobs=(), note=''):
        self.repo, self.name, self.worker, self.cfg, self.I, self.st, self.obj, self.jobs = repo, name, worker, cfg, I, st, obj, jobs
        self.fi = must(repo, worker, 'run')

    def run(self, faults=1):
        st = self.st.copy()
        st.sethp('#faults', faults)
        st.trace = None
        self.cfg.blocked = []
        return self.I.run(self.fi, self.obj, [], None, st)


def threads_of(st):
    out = []
    for e in st.events():
        if e.kind == 'call' and e.extra == 'new' and e.val is not None and e.val[0] == 'O' and isinstance(e.val[2], ClassInfo) \
                and any(isinstance(b, Ext) and b.name.endswith('Thread') for b in e.val[2].mro()):
            out.append(e.val)
    return out


def make(I, st, ci, args, kw=None, want=1, pick=None):
    """object + the worker threads its constructor started"""
    o = ('O', ci.name.lower(), ci)
    for s, oc in I.run(must(I.repo, ci, '__init__'), o, list(args), kw, st):
        th = threads_of(s)
        if oc[0] == 'ret' and len(th) >= want and (pick is None or pick(s, o, th)):
            s = s.copy()
            s.trace = None
            return s, o, th
    raise AnchorError('constructor of %s starts no worker' % ci.qual)


def w_external(repo, fault_table=IO):
    ec = repo.cls('External_command')
    for c in [ec]:
        cfg = WCfg(repo, callbacks={'CB1': None, 'CB2': None, 'CBX': None}, fault_table=fault_table, unroll=5)
        I = SInterp(repo, cfg)
        st, o, th = make(I, State(), c, [S('cmd'), K(1)])
        st, j1 = step(I, st, c, o, 'process_command', [('T', (S('d1'),)), S('CB1'), S('p1')])
        st, jx = step(I, st, c, o, 'process_command', [('T', (S('dx'),)), S('CBX'), S('px')])
        st, _ = step(I, st, jx[2], jx, 'cancel')
        st, j2 = step(I, st, c, o, 'process_command', [('T', (S('d2'),)), S('CB2'), S('p2')])
        st, _ = step(I, st, c, o, 'shutdown')
        yield World(repo, 'external command', th[0][2], cfg, I, st, th[0], ('CB1', 'CB2'))


def w_rtpp(repo, fault_table=IO):
    base = repo.cls('Rtp_proxy_client_stream')
    seen = set()
    for c in [base] + base.all_subs():
        cfg = WCfg(repo, callbacks={'CB1': None, 'CB2': None}, fault_table=fault_table, unroll=5)
        cfg.opaque = cfg.opaque + ('sippy.Math', 'sippy.Rtp_proxy.Client.net')
        I = SInterp(repo, cfg)
        o0 = c.find('__init__')
        try:
            st, o, th = make(I, State(), c, [S('gc')] + ([S('addr')] if len(o0.node.args.args) > 2 else []), {'nworkers': K(1)})
        except AnchorError:
            st, o, th = make(I, State(), c, [S('gc')] + ([S('addr')] if len(o0.node.args.args) > 2 else []))
        w = th[0]
        if w[2] in seen:
            continue
        seen.add(w[2])
        st, _ = step(I, st, c, o, 'send_command', [S('command1'), S('CB1'), S('p1')])
        st, _ = step(I, st, c, o, 'send_command', [S('command2'), NONE])
        st, _ = step(I, st, c, o, 'send_command', [S('command3'), S('CB2'), S('p2')])
        wi = [k[0] for k, v in st.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[1] == 'items' and k[0][0] == 'O']
        st = st.copy()
        st.sethp((wi[0], 'items'), st.heap[(wi[0], 'items')] + (NONE,))
        yield World(repo, 'RTP proxy command (%s)' % w[2].name, w[2], cfg, I, st, w, ('CB1', 'CB2'))


def w_udp(repo, fault_table=IO):
    us = repo.cls('Udp_server')
    uo = repo.cls('Udp_server_opts')
    dg = [('T', (S('data1'), S('addr1'))), ('T', (S('data2'), S('addr2'))), ('raise', 'builtins.OSError', ('X', 'errno.EBADF'))]
    cfg = WCfg(repo, callbacks={'CB1': None}, fault_table=fault_table, unroll=22,
                  script={'recvfrom': dg})
    I = SInterp(repo, cfg)
    cfg.opaque = cfg.opaque + ('sippy.SipConf',)
    opts = S('uopts')
    cfg.path_types[opts] = uo
    st = State()
    for d in ('data1', 'data2'):
        st.setfact(S(d), Fact(none=False, truth=True))
        st.setfact(('OP', 'len', S(d)), Fact(none=False, truth=True, lo=(1, False)))
    st.sethp((opts, 'laddress'), NONE)
    st.sethp((opts, 'nworkers'), K(1))
    st.sethp((opts, 'data_callback'), S('CB1'))
    st.sethp((opts, 'direct_dispatch'), FALSE)
    for a in ('ploss_out_rate', 'pdelay_out_max', 'ploss_in_rate', 'pdelay_in_max'):
        st.sethp((opts, a), K(0.0))
    old = cfg.on_call2

    def on_call2(interp, st, ev):
        if ev.name == 'getCopy' and ev.recv == opts:
            return [(st, opts)]
        if ev.name == 'sendto' and ev.callee is None:
            interp.emit(st, ev)
            return [(st, ('OP', 'len', ev.args[0]))]
        return old(interp, st, ev)
    cfg.on_call2 = on_call2
    st, o, th = make(I, st, us, [S('gc'), opts], want=2)
    snd = [t for t in th if 'recvfrom' not in names_in(must(repo, t[2], 'run'))]
    rcv = [t for t in th if t not in snd]
    if not snd or not rcv:
        raise AnchorError('sender or receiver thread of the UDP server not found')
    for fam in ('AF_INET', 'AF_INET6'):
        s = st.copy()
        s.sethp((opts, 'family'), ('X', 'socket.' + fam))
        if fam == 'AF_INET':
            s.sethp((rcv[0], '#w'), TRUE)
            yield World(repo, 'UDP receiver', rcv[0][2], cfg, I, s, rcv[0], ('data1', 'data2'))
            if fault_table:
                # errors that say nothing about the socket do not end reception
                for en in (EOTHER, ('X', 'errno.EINTR'), ('X', 'errno.ECONNREFUSED')):
                    cfg2 = WCfg(repo, callbacks={'CB1': None}, fault_table={}, unroll=22,
                                script={'recvfrom': [dg[0], ('raise', 'builtins.OSError', en), dg[1], dg[2]]})
                    cfg2.opaque = cfg.opaque
                    cfg2.path_types = cfg.path_types
                    cfg2.on_call2 = on_call2
                    yield World(repo, 'UDP receiver/error', rcv[0][2], cfg2, SInterp(repo, cfg2), s, rcv[0], ('data1', 'data2'))
        s2 = s
        q = [k[0] for k, v in s.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[1] == 'items' and k[0][0] == 'O']
        s2 = s.copy()
        s2.sethp((q[0], 'items'), (('T', (S('out1'), ('T', (S('host1'), S('port1'))))), ('T', (S('out2'), ('T', (S('host2'), S('port2'))))), NONE))
        yield World(repo, 'UDP sender/' + fam, snd[0][2], cfg, I, s2, snd[0], ('out1', 'out2'))


def names_in(fi):
    """Attribute names used by a method and by the methods of its own class it calls."""
    out, todo, seen = set(), [fi], set()
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        own = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        out |= own
        for a in own:
            g = fi.cls.find(a) if fi.cls is not None else None
            if isinstance(g, FuncInfo):
                todo.append(g)
    return out


def w_logger(repo, fault_table=IO):
    lg = repo.cls('SipLogger')
    base = repo.cls('AsyncLogger')
    for c in [base] + base.all_subs():
        cfg = WCfg(repo, callbacks={}, fault_table=fault_table, unroll=5)
        cfg.opaque = cfg.opaque + ('sippy.Signal',)
        I = SInterp(repo, cfg)
        st, o, th = make(I, State(), lg, [S('app')], pick=lambda s, o, th: th[0][2] is c)
        wl = lg.find('write_logfile')
        if wl is None:
            raise AnchorError('logging to a file not found')
        for m in ('m1', 'm2'):
            st, _ = step(I, st, lg, o, 'write_logfile', [S(m)], {'level': S('lvl')},
                         pick=lambda s, v: any(e.kind == 'call' and e.name == 'append' for e in s.events()))
        st, _ = step(I, st, lg, o, 'reopen')
        st, _ = step(I, st, lg, o, 'shutdown')
        # shutdown detaches the worker from its master: as the worker sees it before
        s = st.copy()
        s.sethp((th[0], 'master'), o)
        yield World(repo, 'log writer (%s)' % c.name, c, cfg, I, s, th[0], ('m1', 'm2'))


def w_cli(repo, fault_table=IO):
    cm = repo.cls('CLIManager')
    # reader
    script = {'recv': [S('chunk1'), S('chunk2'), K(b'')]}
    cfg = WCfg(repo, callbacks={'CB1': None}, fault_table=fault_table, unroll=4, script=script)
    I = SInterp(repo, cfg)
    st, o, th = make(I, State(), cm, [S('sock'), S('CB1')], want=2)
    rd = [t for t in th if 'recv' in names_in(must(repo, t[2], 'run'))]
    wr = [t for t in th if t not in rd]
    if not rd or not wr:
        raise AnchorError('reader or writer thread of a control connection not found')
    yield World(repo, 'control connection reader', rd[0][2], cfg, I, st, rd[0])
    # writer: two pieces of output, then the soft close
    cfg2 = WCfg(repo, callbacks={'CB1': None}, fault_table=fault_table, unroll=4)
    I2 = SInterp(repo, cfg2)
    st, o, th = make(I2, State(), cm, [S('sock'), S('CB1')], want=2)
    wr = [t for t in th if 'recv' not in names_in(must(repo, t[2], 'run'))][0]
    st.setfact(S('out1'), Fact(none=False, truth=True))
    st.setfact(('OP', 'len', S('out1')), Fact(none=False, truth=True, lo=(1, False)))
    s = step(I2, st, wr[2], wr, 'send', [S('out1')])[0]
    s = step(I2, s, cm, o, 'close')[0]
    yield World(repo, 'control connection writer', wr[2], cfg2, I2, s, wr)
    # acceptor
    cc = repo.cls('CLIConnectionManager')
    cfg3 = WCfg(repo, callbacks={'CB1': None}, fault_table=fault_table, unroll=5)
    I3 = SInterp(repo, cfg3)
    seq = [5, 5, 6]

    def on_call2(interp, st, ev):
        if ev.callee is not None:
            return None
        if ev.name == 'pipe':
            return [(st, ('T', (K(6), K(7))))]
        if ev.name == 'fileno':
            return [(st, K(5))]
        if ev.name == 'accept':
            n = st.heap.get('#acc', 0)
            st.sethp('#acc', n + 1)
            ev.val = S('conn%d' % n)
            interp.emit(st, ev)
            out = [(st, ('T', (ev.val, S('peer%d' % n))))]
            for en in ('EMFILE', 'ECONNABORTED') if st.heap.get('#faults', 0) > 0 and fault_table else ():
                s2 = st.copy()
                s2.sethp('#faults', s2.heap['#faults'] - 1)
                s2.sethp('#faulted', K('accept (%s) at line %d' % (en, ev.line)))
                s2.sethp('#lost', ev.val)
                out.append((s2, Raise(mkexc(s2, 'builtins.OSError', ('X', 'errno.' + en)))))
            return out
        if ev.name == 'poll' and not ev.args and ev.recv is not None and ev.recv[0] != 'X':
            n = st.heap.get('#polls', 0)
            st.sethp('#polls', n + 1)
            if n >= len(seq):
                cfg3.blocked.append(st)
                return []
            d = ('D', 'poll%d' % n)
            st.sethp((d, 'map'), ((K(seq[n]), ('X', 'select.POLLIN')),))
            return [(st, d)]
        return None
    cfg3.on_call2 = on_call2
    st, o, th = make(I3, State(), cc, [S('CB1')], {'address': S('path')})
    yield World(repo, 'control connection acceptor', th[0][2], cfg3, I3, st, th[0])


def worlds(repo, faults=IO, **kw):
    for g in (w_external, w_rtpp, w_udp, w_logger, w_cli):
        for w in g(repo, faults):
            if w is not None:
                yield w


def outcome_states(w, faults=1):
    return w.run(faults)


def forwarded(st):
    """data handed to the data callback etc."""
    return [e for e in st.events() if e.kind == 'cb']


def e04(ctx):
    ctx.rule = '''Every worker thread (external commands, RTP proxy connections, datagram senders and receivers, log writers, control
connections) is analysed with a queue of jobs built by the public functions and one fault injected at any of its
input/output operations: on every path each job that was not cancelled is completed exactly once (its callback is called
once when the loop runs what the worker posted), the jobs after the failed one are still processed, and the request to stop
ends the worker and is passed on to the other workers sharing the queue; a control connection that fails is shut down by
the loop.'''
    repo = ctx.repo
    nw = 0
    for w in worlds(repo):
        nw += 1
        res = w.run()
        ctx.visited(w.I.visited)
        fi = w.fi
        key = w.name.split('/')[0]
        done = 0
        for s, oc in res:
            ctx.count('worker paths')
            fault = s.heap.get('#faulted')
            ft = ' after %s failed' % kval(fault) if fault else ''
            if not ctx.check(oc[0] == 'ret', key + '/dies', fi.where(), 'the worker dies%s' % ft, lines(s)):
                continue
            done += 1
            for s2, ocs in drain(w.I, s):
                es = [e for e in s2.events() if e.kind == 'cb']
                if w.name.startswith(('external', 'RTP proxy')):
                    for c in w.jobs:
                        n = [e for e in es if e.name == c]
                        ctx.check(len(n) == 1, key + '/completed', fi.where(), 'a job is completed %d times%s' % (len(n), ft), lines(s2))
                        for e in n:
                            ctx.check(S('p' + c[2:]) in e.args, key + '/params', fi.where(), 'a completion does not get the parameters of its job', lines(s2))
                    ctx.check(not [e for e in es if e.name == 'CBX'], key + '/cancelled', fi.where(), 'a cancelled job is reported', lines(s2))
                if w.name.startswith('UDP receiver'):
                    for d in w.jobs:
                        n = [e for e in es if e.args and e.args[0] == S(d)]
                        if not fault:
                            ctx.check(len(n) == 1, key + '/completed', fi.where(), 'a datagram is handed over %d times' % len(n), lines(s2))
            # the other jobs
            if w.name.startswith('UDP sender'):
                for d in w.jobs:
                    n = [e for e in s.events() if e.kind in ('call', 'fault') and e.name == 'sendto' and e.args and e.args[0] == S(d)]
                    g = [e for e in s.events() if e.kind == 'fault']
                    lost = any(e.name == 'getaddrinfo' and e.args and e.args[0] == S('host' + d[-1]) for e in g)
                    ctx.check(bool(n) or lost, key + '/completed', fi.where(), 'a datagram is never sent%s' % ft, lines(s))
            if w.name.startswith('log writer'):
                for m in w.jobs:
                    n = [e for e in s.events() if e.kind in ('call', 'fault') and e.callee is None and e.name in ('write', 'syslog', 'flock') and e.stack]
                ws = [e for e in s.events() if e.kind in ('call', 'fault') and e.callee is None and e.name in ('write', 'syslog')]
                want = 2 - (1 if fault and not kval(fault).startswith(('write', 'syslog', 'flush')) else 0)
                ctx.check(len(ws) >= want, key + '/completed', fi.where(), 'only %d of 2 messages are written%s' % (len(ws), ft), lines(s))
            # sentinel relayed
            if w.name.startswith(('external', 'RTP proxy', 'UDP sender')):
                left = [v for k, v in s.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[1] == 'items' and isinstance(v, tuple) and v == (NONE,)]
                ctx.check(bool(left), key + '/relay', fi.where(), 'the request to stop is not passed on to the other workers', lines(s))
            if w.name == 'control connection reader':
                cli_closed(ctx, w, s, key, ft)
            if w.name == 'control connection acceptor':
                acc = [e.val for e in s.events() if e.kind == 'call' and e.name == 'accept']
                for v in acc:
                    n = [p for p in s.heap.get('#posted', ()) if v in p]
                    want = 0 if v == s.heap.get('#lost') else 1
                    ctx.check(len(n) == want, key + '/completed', fi.where(), 'an accepted connection is handed over %d times%s' % (len(n), ft), lines(s))
                ctx.check(len(acc) == 2, key + '/survives', fi.where(), 'the control socket accepts no further connection%s' % ft, lines(s))
                for s2, ocs in drain(w.I, s):
                    new = [e for e in s2.events() if e.kind == 'call' and e.extra == 'new' and e.name == 'CLIManager']
                    ctx.check(len(new) <= len(acc), key + '/connection', fi.where(), 'a connection is set up twice', lines(s2))
            if w.name == 'control connection writer':
                cli_written(ctx, w, s, key, ft, fault)
        ctx.check(done > 0, key + '/stop', fi.where(), 'the worker never stops')
        ctx.count('workers')
    ctx.floor('workers', 10)
    ctx.floor('worker paths', 60)


def closed(s):
    return [e for e in s.events() if e.kind == 'call' and e.name == 'close' and e.recv == S('sock')]


def cli_closed(ctx, w, s, key, ft):
    for s2, ocs in drain(w.I, s):
        ctx.check(len(closed(s2)) == 1, key + '/closed', w.fi.where(), 'the connection is closed %d times when its reader ends%s' % (len(closed(s2)), ft), lines(s2))
        ctx.check(not [o for o in ocs if o[0] == 'raise'], key + '/closing', w.fi.where(), 'closing the connection raises', lines(s2))
        # commands one by one, in order
        cmds = [e for e in s2.events() if e.kind == 'cb']
        ctx.count('commands read', len(cmds))


def cli_written(ctx, w, s, key, ft, fault):
    sent = [e for e in s.events() if e.kind in ('call', 'fault') and e.name == 'send' and e.recv == S('sock')]
    ctx.check(bool(sent), key + '/sent', w.fi.where(), 'queued output is not sent before the connection is closed', lines(s))
    for s2, ocs in drain(w.I, s):
        ctx.check(len(closed(s2)) == 1, key + '/closed', w.fi.where(), 'the connection is closed %d times when its writer ends%s' % (len(closed(s2)), ft), lines(s2))


def thread_roots(repo):
    """functions that run in a thread of their own"""
    out = []
    for c in repo.classes.values():
        if any(isinstance(b, Ext) and b.name.endswith('Thread') for b in c.mro()) and 'run' in c.methods:
            out.append(c.methods['run'])
        if any(isinstance(b, Ext) and b.name.startswith('iksemel') for b in c.mro()) and 'on_stanza' in c.methods:
            out.append(c.methods['on_stanza'])
    for f in repo.funcs.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and \
                    (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) == 'Thread':
                for k in n.keywords:
                    if k.arg == 'target' and isinstance(k.value, ast.Attribute) and f.cls is not None:
                        m = f.cls.find(k.value.attr)
                        if m is not None:
                            out.append(m)
    return out


POSTING = ('callFromThread', 'callFromThreadSync')


def only_posted(fn, skip):
    """values of names that are loaded in what is posted only, up to where they get another value"""
    def loads(n, t):
        return [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ast.Load)]
    own = []
    for n in ast.walk(fn):
        for b in (getattr(n, k, None) for k in ('body', 'orelse', 'finalbody')):
            for i, x in enumerate(b if isinstance(b, list) else ()):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    t, ls = x.targets[0].id, []
                    for y in b[i + 1:]:
                        ls += loads(y, t)
                        if any(isinstance(z, ast.Name) and z.id == t and not isinstance(z.ctx, ast.Load) for z in ast.walk(y)):
                            break
                    own.append((t, x.value, ls))
    for t, v, ls in own:
        owned = {id(l) for t2, _, l2 in own if t2 == t for l in l2}
        if ls and all(id(l) in skip for l in ls) and all(id(l) in owned for l in loads(fn, t)):
            yield v


def reach(ctx, T, root):
    """everything the thread may run: resolved calls, plus methods of its own
    objects handed to libraries; what is handed to the loop is left out"""
    repo = ctx.repo
    seen, todo = {root: None}, [root]
    while todo:
        f = todo.pop()
        skip = set()
        opt = set()     # branches of the option to do without the loop, see the worker runs
        for n in own_nodes(f.node):
            if isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Attribute) and x.attr == 'direct_dispatch' for x in ast.walk(n.test)):
                opt.update(id(x) for x in ast.walk(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in POSTING:
                for a in n.args:
                    skip.update(id(x) for x in ast.walk(a))
        for v in only_posted(f.node, skip):
            called = {id(x.func) for x in ast.walk(v) if isinstance(x, ast.Call)}
            skip.update(id(x) for x in ast.walk(v) if isinstance(x, ast.Attribute) and id(x) not in called)
        for n in own_nodes(f.node):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Call):
                bad = None
                c = T.resolve_callee(f, n.func)
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                if isinstance(c, FuncInfo):
                    m = c.module.name
                    if m == 'sippy.Time.Timeout':
                        bad = 'uses a timer'
                    elif c.cls is not None and c.cls.name in ('EventDispatcher2', 'EventListener') and nm not in POSTING:
                        bad = 'uses %s of the event loop' % nm
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute)) and nm not in POSTING and \
                        (n.func.value.id if isinstance(n.func.value, ast.Name) else n.func.value.attr) == 'ED2':
                    bad = 'uses %s of the event loop' % nm
                if nm in ('handle_read', 'data_callback') and id(n) not in opt or isinstance(n.func, ast.Attribute) and nm == 'regSignal':
                    bad = 'hands data to the application itself'
                ctx.count('calls in threads')
                ctx.check(bad is None, 'reach/%s/%s' % (f.short, nm), f.where(n), 'code of a thread (%s) %s' % (root.short, bad))
                if isinstance(c, ClassInfo):
                    c = c.find('__init__')
                if isinstance(c, FuncInfo) and c not in seen and c.module.name != 'sippy.Core.EventDispatcher':
                    seen[c] = f
                    todo.append(c)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and f.cls is not None and T.is_self(f, n.value):
                m = f.cls.find(n.attr)
                if m is not None and m not in seen and m.name != '__init__' and not m.is_property:
                    seen[m] = f
                    todo.append(m)
    return seen


def e02(ctx):
    ctx.rule = '''The same worker threads, without faults: on every path of the thread's body no application callback is called, no timer
is created or cancelled and nothing of the event loop is used except posting calls to it; what the worker found is
delivered by a posted call. For all threads of the package (secure web socket and XMPP transports included) the same is
required of every function reachable from the thread's body through resolved calls, calls handed to the loop left out.'''
    T = Types(ctx.repo)
    for r in thread_roots(ctx.repo):
        if r.cls is not None and r.cls.module.name.startswith('sippy.UI'):
            continue
        ctx.count('threads')
        ctx.visited(reach(ctx, T, r))
    ctx.floor('threads', 9)
    ctx.floor('calls in threads', 80)
    repo = ctx.repo
    ed = repo.cls('EventDispatcher2')
    for w in worlds(repo, {}):
        ctx.count('workers')
        for s, oc in w.run(0):
            ctx.count('worker paths')
            for e in s.events():
                ctx.check(e.kind != 'cb', w.name + '/callback', e.where(), 'an application callback is called in a worker thread', lines(s))
                if e.kind == 'call' and e.callee is not None:
                    m = e.callee.module.name
                    bad = (m == 'sippy.Time.Timeout' or (e.callee.cls is ed and e.name not in ('callFromThread', 'callFromThreadSync')) or
                           (e.callee.cls is not None and e.callee.cls.name in ('EventListener', 'Signal')))
                    ctx.check(not bad, w.name + '/' + e.name, e.where(), 'a worker thread uses %s of the event loop' % e.name, lines(s))
            posted = s.heap.get('#posted', ())
            ctx.count('posted calls', len(posted))
        ctx.visited(w.I.visited)
    ctx.floor('workers', 10)
    ctx.floor('posted calls', 10)


RULES = {'E04': e04, 'E02': e02}
