"""R01, R04: what is asked of a media relay, and how it is kept an eye on.

The client of a relay is followed from event to event: commands asked, replies (usable, unreadable, repeated,
unexpected, none) and timers in the order they run out.  What is looked at is what goes to the relay, which
timers run and what the asking side is told.
"""
from ..interp import K, S, NONE, TRUE, FALSE, Ev, AnchorError, show, is_k, kval, is_none
from ..repo import Ext, ClassInfo
from ..scen import must
from ..text import text_of
from .loop_rules import lines
from .media_rules import MedI, MedCfg, followed
from .text_rules import Texts


class ClCfg(MedCfg):
    """the socket and the timers are kept note of"""
    opaque = tuple(o for o in MedCfg.opaque if not o.startswith('sippy.Math')) + ('sippy.Rtp_proxy.Client.Worker',)
    delay = None

    def on_call2(self, interp, st, ev):
        n = ev.name
        c = ev.callee
        if ev.kind == 'call' and c is not None and c.module.name == 'sippy.Time.Timeout' and n.startswith('Timeout'):
            t = ('O', 'timer%d' % len(st.heap.get('#timers', ())), Ext('Timer'))
            kw = dict(ev.kw)
            a = list(ev.args)
            cb = a[0] if a else kw.get('timeout_cb')
            iv = a[1] if len(a) > 1 else kw.get('ival')
            nt = a[2] if len(a) > 2 else kw.get('nticks', K(1))
            st.sethp('#timers', st.heap.get('#timers', ()) + ((t, cb, iv, nt, tuple(a[3:]), st.heap.get('#now', 0.0)),))
            st.sethp(('#armed', t), n != 'TimeoutInact')
            interp.emit(st, ev)
            return [(st, t)]
        r = ev.recv
        if r is not None and r[0] == 'O' and isinstance(r[2], Ext) and r[2].name == 'Timer':
            interp.emit(st, ev)
            if n in ('cancel', 'go'):
                st.sethp(('#armed', r), n == 'go')
            return [(st, NONE)]
        if n == 'send_to' and ev.args:
            st.sethp('#out', st.heap.get('#out', ()) + ((ev.args[0], ev.args[1] if len(ev.args) > 1 else NONE),))
            interp.emit(st, ev)
            return [(st, NONE)]
        if n == 'getaddrinfo':
            from ..text import verr
            l = interp.mklist(st, [('T', (ev.args[2], NONE, NONE, NONE, ('T', (ev.args[0], ev.args[1]))))], ev.node)
            return [(st, l)]
        return MedCfg.on_call2(self, interp, st, ev)


class Client(Texts):
    def __init__(self, ctx, spath='udp:{w.host}:22222', **kw):
        Texts.__init__(self, ctx)
        self.cfg = ClCfg(ctx.repo, callbacks={'CB%d' % i: None for i in range(8)})
        self.cfg.names = self.N
        self.I = MedI(ctx.repo, self.cfg)
        self.gc = ('D', 'gc')
        self.st.sethp((self.gc, 'map'), ((K('_sip_address'), self.val('{w.own}')),))
        kws = {'spath': self.val(spath)}
        kws.update(kw)
        r = [(s, o) for s, o in self.made('Rtp_proxy_client', [self.gc], kws)]
        if len(r) != 1 or r[0][1][0] == 'raised':
            raise AnchorError('a client of a relay is not made in one way: %s' % [show(o) if o[0] != 'raised' else show(o[1]) for _, o in r][:4])
        self.st, self.c = r[0]
        self.st = self.st.copy()
        self.st.trace = None
        ctx.__dict__.setdefault('_made', []).append(self.I)
        self.delay = K(0.25)

    def where(self, name):
        f = self.c[2].find(name) or must(self.repo, self.c[2], '__init__')
        return f.where(f.node)

    def settled(self, st):
        """the estimate of the delay stays what it is taken for"""
        st = st.copy()
        fs = [k[0] for k in st.heap if isinstance(k, tuple) and len(k) == 2 and k[1] == 'lastval']
        if not fs:
            raise AnchorError('the delay of the relay is not kept')
        for f in fs:
            st.sethp((f, 'lastval'), self.delay)
        return st

    # what is out
    def out(self, st):
        o = []
        for x, a in st.heap.get('#out', ()):
            t = text_of(x)
            if t is None:
                raise AnchorError('what is sent to the relay is not understood: %s' % show(x)[:200])
            o.append(t)
        return o

    def cmds(self, st):
        """cookie -> (command, times sent)"""
        d = {}
        for t in self.out(st):
            k, _, c = t.partition(' ')
            n = d.get(k, (c, 0))[1]
            d[k] = (d.get(k, (c, 0))[0] if d.get(k, (c, 0))[0] == c else None, n + 1)
        return d

    def timers(self, st):
        """running timers -> [(runs out at, number, timer)]"""
        o = []
        for i, t in enumerate(st.heap.get('#timers', ())):
            if st.heap.get(('#armed', t[0])):
                if not is_k(t[2]) or not isinstance(kval(t[2]), (int, float)):
                    raise AnchorError('the interval of a timer is not understood: %s' % show(t[2]))
                o.append((t[5] + kval(t[2]), i, t))
        return sorted(o, key=lambda x: x[:2])

    def mine(self, st, cookie):
        return [t for _, _, t in self.timers(st) if K(cookie) in t[4]]

    def open(self, st, k):
        return bool(self.mine(st, k))

    def left(self, st, k):
        t = self.mine(st, k)[0]
        return [at for at, i, x in self.timers(st) if x is t][0] - st.heap.get('#now', 0.0)

    def asked(self, st):
        return len(st.heap.get('#out', ()))

    kind = 'udp'

    def others(self, st):
        ks = {K(k) for k in self.cmds(st)}
        return [t for _, _, t in self.timers(st) if not any(p in ks for p in t[4])]

    # events
    def fire(self, st, x):
        at, i, t = x
        st = st.copy()
        st.sethp('#now', max(at, st.heap.get('#now', 0.0)))
        st.sethp(('#armed', t[0]), False)
        return self.I.callv(st, t[1], list(t[4]))

    def reply(self, st, data):
        st = st.copy()
        return self.I.callv(st, ('B', self.c, must(self.repo, self.c[2], 'process_reply')), [('OP', 'bytes', K(data)), ('T', (K('h'), K(1))), S('worker'), S('rtime')])

    def ask(self, st, cmd, *args):
        st = st.copy()
        return self.I.run(must(self.repo, self.c[2], 'send_command'), self.c, [K(cmd)] + list(args), {}, st)

    def told(self, st, n=None):
        return [e for e in st.events() if e.kind == 'cb' and (n is None or e.name == n)]

    def online(self, st):
        v = self.I.peek_attr(st, self.c, 'online')
        if v not in (TRUE, FALSE):
            raise AnchorError('whether the relay is on line is not understood: %s' % show(v))
        return v == TRUE


class Stream(Client):
    """a relay behind a stream: what is asked stands in a queue, workers bring the answers"""
    kind = 'stream'

    def __init__(self, ctx, spath='unix:/{w.sock}', **kw):
        Client.__init__(self, ctx, spath, **kw)

    def queue(self, st):
        q = [v for k, v in sorted(((k, v) for k, v in st.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[1] == 'items' and k[0][0] == 'O' and isinstance(k[0][2], Ext) and k[0][2].name == 'queue.Queue'), key=repr)]
        if len(q) != 1:
            raise AnchorError('the queue of the relay is not found (%d)' % len(q))
        return [x for x in q[0] if not is_none(x)]

    def cmds(self, st):
        d = {}
        for i, x in enumerate(self.queue(st)):
            t = text_of(x[1][0]) if x[0] == 'T' and len(x[1]) == 3 else None
            if t is None:
                raise AnchorError('what is asked of the relay is not understood: %s' % show(x)[:200])
            d['q%d' % i] = (t.strip(), 1)
        return d

    def open(self, st, k):
        return int(k[1:]) not in st.heap.get('#done', ())

    def left(self, st, k):
        return 0

    def others(self, st):
        return [t for _, _, t in self.timers(st)]

    def reply(self, st, data):
        k, _, r = data.partition(' ')
        return self.answer(st, k, K(r.strip()))

    def answer(self, st, k, v):
        st = st.copy()
        st.sethp('#done', st.heap.get('#done', ()) + (int(k[1:]),))
        x = self.queue(st)[int(k[1:])]
        it = self.I.seq_items(x[1][2], st)
        if is_none(x[1][1]):
            return [(st, ('ret', NONE))]
        if it is None:
            raise AnchorError('what goes with a command is not understood')
        return self.I.callv(st, x[1][1], [v] + list(it), {'ex': NONE if v != NONE else S('failure')})

    def asked(self, st):
        return len(self.queue(st))

    def pruned(self, st):
        return st


class Judge:
    def __init__(self, ctx, p, what):
        self.ctx, self.p, self.what, self.bad = ctx, p, what, 0

    def __call__(self, ok, key, name, msg, st):
        self.bad += not ok
        return self.ctx.check(ok, self.what + ' ' + key, self.p.where(name), self.p.N.show(msg), lines(st))


def clock(v):
    return v[0] == 'O' and isinstance(v[2], Ext) and v[2].name == 'builtins.AssertionError'


def apps(v):
    return v[0] == 'O' and isinstance(v[2], Ext) and v[2].name.startswith('app.')


def sort_of(cmd):
    return 'VF' if cmd.startswith('VF') else cmd.split(' ')[0] if cmd.split(' ')[0] in ('V', 'Ib') else 'other'


# ---------------------------------------------------------------- R01
MOST = 12


def r01(ctx):
    ctx.rule = 'every command to a relay has one outcome: its reply or, when the tries are used up, a failure'
    for delay in (0.25, 0.02, 3.0):
        for kinds in (('X a', 'Ga'), ('I', 'X b')):
            for mode in ('plain', 'asks', 'fails'):
                if mode != 'plain' and (delay != 0.25 or kinds[0] != 'X a'):
                    continue
                explore(ctx, delay, kinds, mode)
    ctx.floor('histories', 400)
    ctx.floor('commands run to their end', 400)


def explore(ctx, delay, kinds, mode, depth=5):
    p = Client(ctx, no_version_check=TRUE)
    p.delay = K(delay)
    p.st = p.settled(p.st)
    J = Judge(ctx, p, 'command')
    if mode == 'asks':
        # the one told asks for more right away
        p.cfg.callbacks['CB0'] = [('do', lambda I, s: [(s2, NONE) for s2, oc in p.ask(s, 'Y', S('CB2'))])]
    elif mode == 'fails':
        p.cfg.callbacks['CB0'] = [('raise', 'app.Error')]
    # a state: (state, asked: ((cookie, callback, number told when asked), ...), resolved cookies)
    start = (p.st, (), ())
    todo, seen = [(start, 0, ())], set()
    while todo:
        (st, asked, over), d, hist = todo.pop()
        ctx.count('histories')
        finish(ctx, J, p, st, asked, hist)
        if d >= depth:
            continue
        evs = []
        for i, k in enumerate(kinds):
            if not any(x[1] == 'CB%d' % i for x in asked):
                evs.append(('ask', i))
        for ck, cb in asked:
            evs.append(('reply', ck))
        if asked:
            evs += [('junk', p.t('{w.nobody} 0')), ('junk', asked[0][0]), ('junk', '')]
        if p.timers(st):
            evs.append(('time',))
        if 'shutdown' in hist:
            evs = [e for e in evs if e[0] in ('reply', 'time')]
        elif asked:
            evs.append(('shutdown',))
        for ev in evs:
            for st2, asked2 in after(ctx, J, p, st, asked, ev, kinds, hist):
                key = (tuple(p.out(st2)), tuple((a, i, t[4]) for a, i, t in p.timers(st2)), tuple(e.name for e in p.told(st2)), p.online(st2), 'shutdown' in hist + (ev[0],))
                if key in seen:
                    continue
                seen.add(key)
                todo.append(((st2, asked2, over), d + 1, hist + (ev[0],)))


def story(hist):
    return 'after %s' % (', '.join(hist) or 'nothing')


def after(ctx, J, p, st, asked, ev, kinds, hist):
    """one event -> [(state, asked)]; what it may and may not do is looked at"""
    n0 = len(p.told(st))
    before = {ck: len(p.mine(st, ck)) for ck, _ in asked}
    if ev[0] == 'ask':
        r = p.ask(st, kinds[ev[1]], S('CB%d' % ev[1]), K('extra'))
        name = 'send_command'
    elif ev[0] == 'reply':
        r, name = p.reply(st, ev[1] + p.t(' {w.res} {w.res2}\n')), 'process_reply'
    elif ev[0] == 'shutdown':
        r, name = p.I.run(must(p.repo, p.c[2], 'shutdown'), p.c, [], {}, st), 'shutdown'
    elif ev[0] == 'junk':
        r, name = p.reply(st, ev[1]), 'process_reply'
    else:
        r, name = p.fire(st, p.timers(st)[0]), 'retransmit'
    out = []
    for s, oc in r:
        s = p.settled(s)
        what = '%s, %s' % (story(hist), {'ask': 'a command', 'reply': 'a reply', 'junk': 'a datagram that is no reply to anything', 'shutdown': 'shut down', 'time': 'a timer'}[ev[0]])
        refused = oc[0] == 'raise' and clock(oc[1])
        ok = oc[0] == 'ret' or apps(oc[1]) or refused or ev[0] == 'junk'
        J(ok, 'raised', name, '%s fails with %s' % (what, show(oc[1])), s)
        if not ok:
            continue
        a2 = asked
        if ev[0] == 'ask':
            new = [k for k in p.cmds(s) if k not in dict(asked) and k not in p.cmds(st)]
            if not J(len(new) == 1 and p.cmds(s)[new[0]] == (kinds[ev[1]], 1), 'sent', name, '%s: sent is %r' % (what, [p.cmds(s)[k] for k in new]), s):
                continue
            a2 = asked + ((new[0], 'CB%d' % ev[1]),)
        else:
            for k in p.cmds(s):
                if k not in p.cmds(st) and p.cmds(s)[k][0] == 'Y':
                    a2 = a2 + ((k, 'CB2'),)
        told = p.told(s)[n0:]
        if ev[0] == 'reply':
            cb = dict(asked)[ev[1]]
            if before[ev[1]] and not refused:
                mine = [e for e in told if e.name == cb]
                want = (p.val('{w.res} {w.res2}'),) + ((K('extra'),) if cb != 'CB2' else ())
                J(len(told) == 1 and len(mine) == 1 and tuple(mine[0].args) == want and not mine[0].kw, 'reply told', name, '%s: told is %s' % (what, [str(show(x)) for e in told for x in e.args]), s)
                J(not p.mine(s, ev[1]), 'timer stopped', name, '%s: the timer of the command runs on' % what, s)
            elif not before[ev[1]]:
                J(not told, 'told again', name, '%s that has been told about before or comes too late: it is told' % what, s)
        if ev[0] in ('junk', 'ask', 'shutdown'):
            J(not told, 'told of nothing', name, '%s: something is told' % what, s)
        for k, (c, n) in p.cmds(s).items():
            J(c in kinds or c == 'Y' or c is not None and sort_of(c) != 'other', 'retransmitted', name, '%s: "%s %s" is sent' % (what, k, c), s)
        for ck, cb in a2:
            done = [e for e in p.told(s) if e.name == cb]
            J(len(done) <= 1, 'told twice', name, '%s: the outcome of a command is told %d times' % (what, len(done)), s)
            J(len(p.mine(s, ck)) == (0 if done else 1), 'timer', name, '%s: a command that %s has %d timers' % (what, 'is over' if done else 'waits for its reply', len(p.mine(s, ck))), s)
            c = p.cmds(s)[ck]
            J(c[0] is not None, 'retransmitted', name, '%s: a command is sent again as something else' % what, s)
        if refused:
            finish(ctx, J, p, s, a2, hist + ('a reply before its time',))
            continue
        out.append((s, a2))
    return out


def finish(ctx, J, p, st, asked, hist):
    """nothing but time from here"""
    todo = [(st, 0)]
    while todo:
        s, n = todo.pop()
        ts = [t for ck, _ in asked for t in p.mine(s, ck)]
        if not ts or n > 3 * MOST:
            break
        for s2, oc in p.fire(s, p.timers(s)[0]):
            J(oc[0] == 'ret' or apps(oc[1]), 'raised', 'retransmit', '%s, and no reply from then on: a timer fails with %s' % (story(hist), show(oc[1])), s2)
            todo.append((p.settled(s2), n + 1))
    else:
        raise AnchorError('time does not go on')
    left = [ck for ck, cb in asked if not [e for e in p.told(s) if e.name == cb]]
    ctx.count('commands run to their end', len(asked))
    J(not left and not ts, 'no outcome', 'retransmit', '%s, and no reply from then on: %d commands have no outcome, %d timers go on' % (story(hist), len(left), len(ts)), s)
    for ck, cb in asked:
        J(p.cmds(s)[ck][1] <= MOST, 'too often', 'retransmit', '%s: a command is sent %d times' % (story(hist), p.cmds(s)[ck][1]), s)
        if not [e for e in p.told(st) if e.name == cb]:
            for e in [e for e in p.told(s) if e.name == cb]:
                J(e.args[:1] == (NONE,) and (cb == 'CB2' or e.args[1:] == (K('extra'),)), 'failure told', 'retransmit', '%s: the failure of a command is told as (%s)' % (story(hist), ', '.join(show(x) for x in e.args)), s)
            J(not p.online(s) or 'shutdown' in hist, 'failure noted', 'retransmit', '%s: a relay that gave no answer stays on line' % story(hist), s)


# ---------------------------------------------------------------- R04
# what a relay may answer to: the version query, the queries of what it can do, the heartbeat
ANSWERS = {
    'V': (('ok', '20040107'), ('bad', '{w.other}'), ('bad', 'E1')),
    'VF': (('ok', '1'), ('no', '0'), ('no', 'E1')),
    'Ib': (('ok', 'sessions created: {n.a}\nactive sessions: {n.b}\nactive streams: {n.c}\npackets received: {n.d}\npackets transmitted: {n.e}'),
           ('odd', 'sessions created: {w.x}\nactive sessions'), ('odd', 'E1'), ('odd', 'active streams:')),
}
FULL = {'V': 'ok', 'VF': 'ok', 'Ib': 'ok'}


def r04(ctx):
    ctx.rule = 'a relay is asked for ever whether it is there, and used only between a good answer and a missing one'
    watch(ctx, Client)
    watch(ctx, Stream)
    caps(ctx)
    ctx.floor('states of the watch', 60)
    ctx.floor('ends of the watch', 120)


def waiting(p, st):
    """commands that wait for a reply -> [(cookie, command, sort)]"""
    return [(k, c, sort_of(c)) for k, (c, n) in p.cmds(st).items() if c is not None and p.open(st, k)]


def watched(p, st):
    """how the watch stands, times apart from now"""
    now = st.heap.get('#now', 0.0)
    w = [(c, p.cmds(st)[k][1], round(p.left(st, k), 3)) for k, c, s in waiting(p, st)]
    left = {t[0]: at - now for at, i, t in p.timers(st)}
    o = sorted((show(t[1]), round(left[t[0]], 3)) for t in p.others(st))
    return (p.online(st), tuple(w), tuple(o), st.heap.get('#good'), st.heap.get('#user'), p.I.peek_attr(st, p.c, 'caps_done'))


def prune(p, st):
    """forget what is over"""
    w = {k for k, _, _ in waiting(p, st)}
    st = st.copy()
    st.trace = None
    if p.kind == 'udp':
        st.sethp('#out', tuple((x, a) for x, a in st.heap.get('#out', ()) if text_of(x).split(' ')[0] in w))
    return st


def options(p, st):
    """what may come next"""
    out = []
    seen = set()
    for k, c, s in waiting(p, st)[:1 if p.kind == 'stream' else None]:
        if p.kind == 'stream' and s == 'other':
            out.append(('reply', k, s, 'none', None))
        if s in seen or s == 'other':
            continue
        seen.add(s)
        for kind, a in ANSWERS[s]:
            out.append(('reply', k, s, kind, a))
        if p.kind == 'stream':
            out.append(('reply', k, s, 'none', None))
    if p.timers(st):
        out.append(('time',))
    if not st.heap.get('#user'):
        out.append(('user',))
    return out


def move(ctx, J, p, st, ev, what):
    """-> [state]"""
    on = p.online(st)
    quiet = {k for k, c, s in waiting(p, st)}
    if ev[0] == 'reply':
        r, name = p.reply(st, ev[1] + ' ' + p.t(ev[4]) + '\n') if ev[4] is not None else p.answer(st, ev[1], NONE), 'heartbeat_reply' if ev[2] == 'Ib' else 'version_check_reply'
    elif ev[0] == 'user':
        r, name = p.ask(st, 'X', NONE), 'send_command'
    else:
        r, name = p.fire(st, p.timers(st)[0]), 'go_offline'
    out = []
    for s, oc in r:
        if oc[0] == 'raise' and clock(oc[1]):
            continue
        w = '%s, %s' % (what, {'reply': 'the relay answers "%s" to %s' % ((ev[4] if len(ev) > 4 else '') or 'nothing', ev[2] if len(ev) > 2 else ''), 'user': 'a command of a session', 'time': 'a timer runs out'}[ev[0]])
        if not J(oc[0] == 'ret', 'raised', name, '%s: this fails with %s' % (w, show(oc[1])), s):
            continue
        s = p.settled(s)
        if ev[0] == 'user':
            s.sethp('#user', True)
        now = p.online(s)
        if ev[0] == 'reply' and ev[2] == 'V':
            s.sethp('#good', ev[3] == 'ok')
        gone = (ev[0] == 'time' and bool(quiet - {k for k, c, x in waiting(p, s)})) if p.kind == 'udp' else ev[0] == 'reply' and ev[3] == 'none' and ev[2] in ('V', 'Ib')
        if gone and not (s.heap.get('#good') and any(p.cmds(st)[k][0].startswith('VF') for k in quiet)):
            J(not now, 'unanswered', 'go_offline', '%s, a command has got no answer: the relay stays in use' % w, s)
        if now and not on:
            J(s.heap.get('#good') is True, 'back in use', 'go_online', '%s: the relay is taken into use and has not told a version that is supported' % w, s)
        if ev[0] == 'reply' and ev[2] == 'V' and ev[3] in ('bad', 'none'):
            J(not now, 'unsupported', 'version_check_reply', '%s: a relay of an unsupported version is in use' % w, s)
        if on and not now:
            s.sethp('#good', None)
        probes = len([1 for k, c, x in waiting(p, s) if x in ('V', 'Ib')]) + len(p.others(s))
        some = probes + len([1 for k, c, x in waiting(p, s) if x == 'VF'])
        J(some >= 1, 'given up', name, '%s: the relay is never asked again' % w, s)
        J(probes <= 2, 'piled up', name, '%s: the relay is asked in %d ways at once' % (w, probes), s)
        for k, (c, n) in p.cmds(s).items():
            J(n <= MOST, 'too often', 'retransmit', '%s: a command is sent %d times' % (w, n), s)
        out.append(prune(p, s))
    return out


def watch(ctx, world):
    p = world(ctx)
    J = Judge(ctx, p, 'watch')
    p.st = p.settled(p.st)
    todo, seen = [(p.st, 'at first')], set()
    while todo:
        st, what = todo.pop(0)
        k = watched(p, st)
        if k in seen:
            continue
        seen.add(k)
        if J.bad > 10:
            return
        if len(seen) > 3000:
            raise AnchorError('the watch has no end of states')
        ctx.count('states of the watch')
        ends(ctx, J, p, st, what)
        for ev in options(p, st):
            w = 'when the relay is %s in use and %s wait' % ('' if p.online(st) else 'not', ', '.join(sorted({c for _, c, _ in waiting(p, st)})) or 'no commands')
            for s in move(ctx, J, p, st, ev, w):
                todo.append((s, w))


def ends(ctx, J, p, st, what):
    """a relay that answers all from here comes into use, one that is silent goes out of it, one that is shut down is left alone"""
    s = st
    for i in range(40):
        if p.online(s) and i > 12:
            break
        w = waiting(p, s)
        ok = [x for x in w if x[2] in FULL]
        ev = ('reply', ok[0][0], ok[0][2], 'ok', ANSWERS[ok[0][2]][0][1]) if ok else ('time',)
        if ev == ('time',) and not p.timers(s):
            break
        r = move(ctx, J, p, s, ev, what)
        if not r:
            return
        s = r[0]
    ctx.count('ends of the watch')
    J(p.online(s), 'not back', 'go_online', '%s, and the relay answers everything from then on: it does not come into use' % what, s)
    s = st
    for i in range(40):
        w = waiting(p, s) if p.kind == 'stream' else ()
        if not w and not p.timers(s):
            break
        r = move(ctx, J, p, s, ('reply', w[0][0], w[0][2], 'none', None) if w else ('time',), what)
        if not r:
            return
        s = r[0]
    ctx.count('ends of the watch')
    J(not p.online(s), 'in use', 'go_offline', '%s, and the relay answers nothing from then on: it stays in use' % what, s)
    for s, oc in p.I.run(must(p.repo, p.c[2], 'shutdown'), p.c, [], {}, st):
        J(oc[0] == 'ret', 'shutdown', 'shutdown', '%s: shutting down fails with %s' % (what, show(oc[1])), s)
        n = p.asked(s)
        for k, c, x in waiting(p, s)[:2]:
            for s2, oc2 in p.reply(s, k + ' ' + p.t(ANSWERS[x][0][1] if x in ANSWERS else '0') + '\n'):
                if oc2[0] == 'ret' or not clock(oc2[1]):
                    quietly(ctx, J, p, s2, oc2, n, what)
        quietly(ctx, J, p, s, oc, n, what)
        break


def quietly(ctx, J, p, s, oc, n, what):
    for i in range(20):
        if oc[0] != 'ret' or not p.timers(s):
            break
        s, oc = p.fire(s, p.timers(s)[0])[0]
    ctx.count('ends of the watch')
    J(oc[0] == 'ret', 'shutdown', 'shutdown', '%s, then shut down: a later event fails with %s' % (what, show(oc[1])), s)
    J(not p.timers(s) and p.asked(s) == n, 'left alone', 'shutdown', '%s, then shut down: the relay is asked on' % what, s)


CAPS = {'20071218': 'copy_supported', '20080403': 'stat_supported', '20081224': 'tnot_supported', '20090810': 'sbind_supported', '20150617': 'wdnt_supported'}


def caps(ctx):
    """what the relay can do is what it told"""
    for which in [None] + sorted(CAPS):
        for refuse in ('0', 'E1', None):
            p = Client(ctx)
            J = Judge(ctx, p, 'abilities')
            s = p.settled(p.st)
            asked = {}
            for i in range(60):
                w = waiting(p, s)
                if p.online(s):
                    break
                vf = [x for x in w if x[2] == 'VF']
                v = [x for x in w if x[2] == 'V']
                for k, c, x in vf:
                    asked[c.split(' ')[1]] = True
                if v:
                    r = p.reply(s, v[0][0] + ' 20040107\n')
                else:
                    a = [x for x in vf if which is None or x[1].split(' ')[1] != which]
                    z = [x for x in vf if which is not None and x[1].split(' ')[1] == which]
                    if a:
                        r = p.reply(s, a[0][0] + ' 1\n')
                    elif z and refuse is not None:
                        r = p.reply(s, z[0][0] + ' ' + refuse + '\n')
                    elif p.timers(s):
                        r = p.fire(s, p.timers(s)[0])
                    else:
                        break
                r = [(x, oc) for x, oc in r if oc[0] == 'ret']
                if not r:
                    raise AnchorError('the abilities of a relay are not asked for')
                s = p.settled(r[0][0])
            ctx.count('abilities asked for', len(asked))
            J(p.online(s), 'ends', 'go_online', 'a relay that answers "%s" to the query for %s is not taken into use' % (refuse, which), s)
            for v, n in CAPS.items():
                x = p.I.peek_attr(s, p.c, n)
                J(v in asked and x == K(v != which), 'told', 'go_online', 'what the relay can do (%s): taken as %s' % (v, show(x)), s)


RULES = {'R01': followed(r01), 'R04': followed(r04)}
