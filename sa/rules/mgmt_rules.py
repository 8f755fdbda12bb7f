"""B06/B07: the control interface and the orderly end of the process."""
import re

from ..scen import (SInterp, ScenCfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise, build, step, drain, must,
                    mkexc, ClassInfo, Ext, FuncInfo, AnchorError)
from ..b2b import BCfg, APP, gconf, bindargs, sig_hook, callmap, signalled
from ..strs import pieces
from ..text import TextI
from .loop_rules import lines

CCS = ('CCStateIdle', 'CCStateWaitRoute', 'CCStateARComplete', 'CCStateConnected', 'CCStateDead', 'CCStateDisconnecting')
ACTIVE = ('CCStateARComplete', 'CCStateConnected')


class MI(TextI):
    """texts are real ones here, and so is what encoding makes of them"""
    def model_method(self, st, o, name, pos, kw, node, fr):
        if name == 'encode' and o[0] != 'O':
            a = [kval(x) for x in pos if is_k(x)]
            k = {x: kval(v) for x, v in dict(kw).items() if is_k(v)}
            out = []
            try:
                for t in pieces(o, lambda v: self.seq_items(v, st)):
                    out.append(t.encode(*a, **k).decode('utf-8', 'surrogateescape') if isinstance(t, str) else t)
            except UnicodeEncodeError:
                return [(st, Raise(mkexc(st, 'builtins.UnicodeEncodeError')))]
            if is_k(o):
                return [(st, K(''.join(out)))]
            return [(st, o)]
        return TextI.model_method(self, st, o, name, pos, kw, node, fr)


def number(leg, kind):
    """of a party: any characters"""
    return 'user:%s:\u0444%s.' % (leg, kind)


class MCfg(BCfg):
    """legs only note that they were told to go; the call may be gone at once"""
    inline_mods = APP + ('sippy.CLIManager',)
    prompt = False
    numbers = True
    max_value = 600
    ext_consts = {}

    def __init__(self, repo, **kw):
        super().__init__(repo, **kw)
        self.wr = repo.cls('_CLIManager_w')

    def inline(self, interp, st, fi, ev):
        if fi.cls is self.wr:
            return False
        return BCfg.inline(self, interp, st, fi, ev)

    def on_call2(self, interp, st, ev):
        n, r = ev.name, ev.recv
        if r is not None and r[0] == 'O' and r[2] is self.wr:
            interp.emit(st, ev)
            if n == 'send':
                st.sethp('#sent', st.heap.get('#sent', ()) + (ev.args[0],))
            elif n == 'shutdown':
                st.sethp('#closed', True)
            return [(st, NONE)]
        if r is not None and r[0] == 'O' and r[2] is self.ua_cls:
            if n in ('getCLD', 'getCLI'):
                return [(st, K(number(r[1], n[3:].lower())) if self.numbers else NONE)]
            if n == 'getRAddr0':
                return [(st, ('T', (('T', (K('host-' + r[1]), K(5060))), K('udp'))))]
            if n == 'disconnect':
                b = bindargs(must(self.repo, self.ua_cls, 'disconnect'), ev.args, ev.kw)
                interp.emit(st, ev)
                st.sethp('#told', st.heap.get('#told', ()) + ((r[1], kval(b['origin']) if is_k(b.get('origin', NONE)) else show(b['origin'])),))
                if self.prompt:
                    lst = st.heap['#map']
                    st.sethp((lst, 'items'), tuple(c for c in st.heap[(lst, 'items')] if r not in (st.heap.get((c, 'uaA')), st.heap.get((c, 'uaO')))))
                return [(st, NONE)]
        if n == 'MonoTime' and ev.extra == 'new':
            return [(st, K(1000.0))]
        return BCfg.on_call2(self, interp, st, ev)


def mkcall(repo, st, i, cid, state, out, proxied=True, session=True):
    """a call of the table: its controller with its legs"""
    cc = ('O', 'call%d' % i, repo.cls('sippy.b2bua.CallController'))
    st.sethp((cc, 'id'), K(i))
    st.sethp((cc, 'cId'), K(cid))
    st.sethp((cc, 'state'), ('C', repo.cls(state)))
    for n in ('uaA', 'uaO'):
        if n == 'uaO' and not out:
            st.sethp((cc, n), NONE)
            continue
        u = ('O', '%s%d' % (n, i), repo.cls('UA'))
        st.sethp((cc, n), u)
        st.sethp((u, 'state'), ('O', 'st:%s' % u[1], repo.cls('UaStateConnected')))
    st.sethp((cc, 'proxied'), K(proxied))
    st.sethp((cc, 'rtp_proxy_session'), ('O', 'session%d' % i, Ext('Session')) if session else NONE)
    return cc


def tables():
    """(name, [(call-id, state, outgoing leg, proxied, session)])"""
    yield 'no call', []
    for s in CCS:
        for o in (False, True):
            for p in (False, True):
                if s == 'CCStateARComplete' and not o:
                    continue
                yield '%s%s%s' % (s, ' with an attempt' if o else '', ' relayed' if p else ''), [('cid-one', s, o, p, p)]
    yield 'relaying torn down', [('cid-one', 'CCStateConnected', True, True, False)]
    yield 'relaying torn down, unanswered', [('cid-one', 'CCStateARComplete', True, True, False)]
    yield 'two', [('cid-one', 'CCStateConnected', True, True, True), ('cid-two', 'CCStateARComplete', True, True, True)]
    yield 'two alike', [('cid-one', 'CCStateConnected', True, True, True), ('cid-one', 'CCStateWaitRoute', False, False, False)]
    yield 'three', [('cid-one', 'CCStateConnected', True, False, False), ('cid-two', 'CCStateDisconnecting', True, True, True), ('cid-three', 'CCStateConnected', True, True, True)]


COMMANDS = ('q', 'Q', 'q x', 'l', 'L', 'l x', 'lt', 'llt', 'd', 'd cid-one', 'D cid-two', 'd CID-ONE', 'd cid-none', 'd cid-one cid-two', 'd *', 'r', 'r 1', 'r 2', 'r 1 3', 'r 9',
            'r x', 'r 1 x', 'r 1 2 3', 'r cid-one', 'r 1.5', 'd cid-', 'd one', 'foo', 'ld', 'd*', '', '  ', 'help me')


def expected(cmd, calls):
    """-> (kind of reply, legs told to go {(leg, origin)}, media index)"""
    a = cmd.split()
    c = a[0].lower() if a else ''
    if c == 'q':
        return 'closed', set(), None
    if c in ('l', 'lt', 'llt'):
        return c, set(), None
    if c == 'd' and len(a) == 2:
        hit = [i for i, x in enumerate(calls) if a[1] == '*' or x[0] == a[1]]
        return 'OK' if hit or a[1] == '*' else 'ERROR', {('uaA%d' % (i + 1), None) for i in hit}, None
    if c == 'r' and len(a) in (2, 3) and all(re.fullmatch(r'-?\d+', x) for x in a[1:]):
        told = set()
        i = int(a[1])
        if not 1 <= i <= len(calls):
            return 'ERROR', set(), None
        x = calls[i - 1]
        if x[3] and x[1] == 'CCStateConnected':
            told.add(('uaA%d' % i, 'media_timeout'))
        if x[3] and x[1] == 'CCStateARComplete':
            told.add(('uaO%d' % i, 'media_timeout'))
        return 'OK', told, (i, int(a[2]) if len(a) == 3 else 0) if told and x[4] else None
    return 'ERROR', set(), None


def b06(ctx):
    ctx.rule = """The command handler followed for every command and argument shape over every table of calls, calls leaving the table at once
or later: exactly one reply (or, for q, the connection closed), the calls named and no others told to end, listings complete; the
reader of the connection hands over each line once, whatever the pieces it arrives in, and the writer sends every byte in order."""
    repo = ctx.repo
    api = repo.cls('B2BSimpleAPI')
    mgr = repo.cls('CLIManager')
    where = must(repo, api, 'recvCommand').where()
    vis = set()
    for nm, calls in tables():
        for prompt, numbers in ((False, True), (False, False), (True, True)):
            if prompt and len(calls) < 2:
                continue
            for cmd in COMMANDS:
                if not numbers and cmd[:1] not in 'lL':
                    continue
                cfg = MCfg(repo)
                cfg.prompt, cfg.numbers = prompt, numbers
                I = MI(repo, cfg)
                st = State()
                o = ('O', 'api', api)
                cm = ('O', 'cmap', repo.cls('sippy.b2bua.CallMap'))
                tm = ('O', 'tm', Ext('Tm'))
                d = gconf(st, _cmap=cm, _sip_tm=tm)
                st.sethp((o, 'global_config'), d)
                st.sethp((cm, 'global_config'), d)
                lst = ('L', 'calls')
                st.sethp('#map', lst)
                st.sethp((cm, 'ccmap'), lst)
                st.sethp((lst, 'items'), tuple(mkcall(repo, st, i + 1, *c) for i, c in enumerate(calls)))
                for tn in ('tserver', 'tclient'):
                    t = ('D', tn)
                    m = []
                    for k, age in (('old', 900.0), ('new', 10.0)):
                        x = ('O', '%s-%s' % (tn, k), Ext('Transaction'))
                        st.sethp((x, 'rtime'), K(1000.0 - age))
                        st.sethp((x, 'method'), S('method:%s:%s' % (tn, k)))
                        st.sethp((x, 'state'), S('state:%s:%s' % (tn, k)))
                        m.append((S('id:%s:%s' % (tn, k)), x))
                    st.sethp((t, 'map'), tuple(m))
                    st.sethp((tm, tn), t)
                cl = ('O', 'clim', mgr)
                st.sethp((cl, 'wthr'), ('O', 'writer', cfg.wr))
                st.sethp((cl, 'command_cb'), ('B', o, must(repo, api, 'recvCommand')))
                for s, oc in I.run(must(repo, mgr, 'handle_cmd'), cl, [K(cmd)], None, st):
                    b06_one(ctx, where, nm, calls, cmd, s, oc, numbers, lambda v, s=s: I.seq_items(v, s))
                vis |= I.visited
    ctx.visited(vis)
    b06_reader(ctx)
    b06_writer(ctx)
    ctx.floor('commands', 700)
    ctx.floor('streams', 15)


def b06_one(ctx, where, nm, calls, cmd, s, oc, numbers, items):
    ctx.count('commands')
    L = lines(s)
    what = 'the command %r (%s)' % (cmd, nm)
    kind, told, mi = expected(cmd, calls)
    key = (cmd.split() or ['empty'])[0].lower()
    sent = s.heap.get('#sent', ())
    closed = s.heap.get('#closed', False)
    ctx.check(oc[0] != 'raise', key + ':raise', where, '%s raises' % what, L)
    if kind == 'closed':
        ctx.check(closed and not sent, key + ':close', where, '%s does not just close the connection' % what, L)
    else:
        if not ctx.check(len(sent) == 1 and not closed, key + ':reply', where, '%s gets %d replies%s' % (what, len(sent), ' and the connection is closed' if closed else ''), L):
            return
        ps = pieces(sent[0], items)
        text = ''.join(p if isinstance(p, str) else '\0' for p in ps)
        vals = [p[1] for p in ps if not isinstance(p, str)]
        ctx.check(text.endswith('\n'), key + ':line', where, 'the reply to %s does not end its line' % what, L)
        if kind in ('OK', 'ERROR'):
            ctx.check(text.startswith(kind), key + ':answer', where, '%s is answered %r, not with %s' % (what, text, kind), L)
        elif kind == 'l':
            for i, c in enumerate(calls):
                n = sum(1 for x in calls if x[0] == c[0])
                ctx.check(len(re.findall(re.escape(c[0]), text)) == n, 'l:call', where, 'the list of calls does not show each call once (%s)' % nm, L)
                for u, there in (('uaA%d' % (i + 1), True), ('uaO%d' % (i + 1), c[2])):
                    k = text.count('host-%s:5060' % u)
                    ctx.check(k == (1 if there else 0), 'l:leg', where, 'a leg is shown %d times in the list of calls (%s)' % (k, nm), L)
                sn = c[1][len('CCState'):]
                ctx.check(sn in text, 'l:state', where, 'the state %s of a call is not shown in the list of calls' % sn, L)
            for i, c in enumerate(calls):
                for u in ('uaA', 'uaO')[:1 + c[2]]:
                    for f in ('cld', 'cli') if numbers else ():
                        k = text.count(number('%s%d' % (u, i + 1), f))
                        ctx.check(k > 0, 'l:number', where, 'a number is missing in the list of calls (%s)' % nm, L)
                        ctx.check(k < 2, 'l:numbers', where, 'a number is shown twice in the list of calls (%s)' % nm, L)
            last = text.rstrip('\n').split('\n')[-1]
            ctx.check(re.search(r'\b%d\b' % len(calls), last) is not None, 'l:total', where, 'the list of %d calls ends with %r' % (len(calls), last), L)
        else:
            for tn in ('tserver', 'tclient'):
                for k in ('old', 'new'):
                    want = 1 if kind == 'lt' or k == 'old' else 0
                    for f in ('id', 'method'):
                        n = vals.count(S('%s:%s:%s' % (f, tn, k)))
                        ctx.check(n == want, '%s:transactions' % key, where, '%s shows a transaction %s than a minute %d times' % (what, 'older' if k == 'old' else 'younger', n), L)
    got = s.heap.get('#told', ())
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, told)), key + ':calls', where, '%s ends the legs %s instead of %s' % (what, list(got), sorted(map(str, told))), L)
    for i, c in enumerate(calls):
        v = s.heap.get((('O', 'session%d' % (i + 1), Ext('Session')), 'media_timeout_index'))
        want = K(mi[1]) if mi and mi[0] == i + 1 else None
        ctx.check(v == want, key + ':media', where, '%s notes %s as the medium that timed out' % (what, v and show(v)), L)


STREAM = b'l\r\nd cid-one\n\n  q \nrest of a'
WANT = ['l', 'd cid-one', 'q']


class RdCfg(ScenCfg):
    later = None

    def on_call2(self, interp, st, ev):
        if self.later is not None and ev.name == 'send' and ev.recv == S('sock') and not st.heap.get('#later'):
            # another reply is queued while the first part of this one goes out
            o, fi, data = self.later
            st.sethp('#later', True)
            r = ScenCfg.on_call(self, interp, st, ev)
            return [(s2, v) for s, v in r for s2, oc in interp.run(fi, o, [K(data)], None, s) if oc[0] != 'raise']
        return None

    def on_call(self, interp, st, ev):
        r = self.on_call2(interp, st, ev)
        return r if r is not None else ScenCfg.on_call(self, interp, st, ev)


def b06_reader(ctx):
    """the reader thread of a command connection"""
    repo = ctx.repo
    rd = repo.cls('_CLIManager_r')
    fi = must(repo, rd, 'run')
    cuts = [(STREAM,)] + [(STREAM[:i], STREAM[i:]) for i in range(1, len(STREAM))] + [tuple(STREAM[i:i + 1] for i in range(len(STREAM)))]
    for cut in cuts:
        for end in ('open', 'closed', 'reset'):
            if end != 'open' and len(cut) > 2:
                continue
            script = [K(c) for c in cut] + ([K(b'')] if end == 'closed' else [('raise', 'builtins.OSError', ('X', 'errno.ECONNRESET'))] if end == 'reset' else [])
            cfg = RdCfg(repo, script={'recv': script}, unroll=60)
            I = SInterp(repo, cfg)
            st = State()
            o = ('O', 'reader', rd)
            cl = ('O', 'clim', repo.cls('CLIManager'))
            st.sethp((o, 'clim'), cl)
            st.sethp((o, 'clientsock'), S('sock'))
            r = I.run(fi, o, [], None, st)
            ends = [s for s, oc in r] + cfg.blocked
            for s, oc in r:
                ctx.check(oc[0] != 'raise', 'reader:raise', fi.where(), 'the reader of a command connection raises', lines(s))
            for s in ends:
                ctx.count('streams')
                p = s.heap.get('#posted', ())
                got = [kval(a[1]) if len(a) > 1 and is_k(a[1]) else None for a in p if a[0][0] == 'B' and a[0][2].name == 'handle_cmd']
                ctx.check(got == WANT, 'reader:lines', fi.where(), 'commands arriving as %s are taken as %s' % (list(cut) if len(cut) < 4 else 'single bytes', got), lines(s))
                gone = [a for a in p if a[0][0] == 'B' and a[0][2].name == 'shutdown']
                ctx.check(bool(gone) == (end != 'open'), 'reader:end', fi.where(), 'a command connection that is %s is %sshut down' % (end, '' if gone else 'not '), lines(s))
            ctx.check(bool(ends), 'reader:none', fi.where(), 'the reader does not get through %s' % (cut,))
            ctx.visited(I.visited)


def b06_writer(ctx):
    """the writer thread: every byte once and in order, whatever the socket takes at a time"""
    repo = ctx.repo
    wr = repo.cls('_CLIManager_w')
    fi = must(repo, wr, 'run')
    data = b'abcdefgh'
    for parts, more in [(p, m) for m in (b'', b'XYZ') for p in ((8,), (3, 5), (1, 0, 7), (1,) * 8, (7, 1))]:
        for soft in (True, False):
            if soft and more:
                continue
            cfg = RdCfg(repo, script={'send': [K(n) for n in parts + ((3,) if more else ())] + [K(0)]}, unroll=40)
            I = SInterp(repo, cfg)
            st = State()
            o = ('O', 'writer', wr)
            cl = ('O', 'clim', repo.cls('CLIManager'))
            st.sethp((o, 'clim'), cl)
            st.sethp((o, 'clientsock'), S('sock'))
            st.sethp((o, 'w_available'), ('O', 'cond', Ext('threading.Condition')))
            st.sethp((o, 'wbuffer'), K(data))
            st.sethp((o, 'close_pendind'), K(soft))
            cfg.later = (o, must(repo, wr, 'send'), more) if more else None
            r = I.run(fi, o, [], None, st)
            ends = [(s, True) for s, oc in r] + [(s, False) for s in cfg.blocked]
            ctx.check(bool(ends), 'writer:none', fi.where(), 'the writer does not get through')
            for s, over in ends:
                ctx.count('streams')
                out = b''
                ok = True
                for e, n in zip([e for e in s.events() if e.kind == 'call' and e.name == 'send' and e.recv == S('sock')], parts + ((3,) if more else ()) + (0,)):
                    if not is_k(e.args[0]):
                        ok = False
                        break
                    out += kval(e.args[0])[:n]
                ctx.check(ok and out == data + more, 'writer:bytes', fi.where(), 'a reply taken %s bytes at a time goes out as %r' % (list(parts), out), lines(s))
                gone = [a for a in s.heap.get('#posted', ()) if a[0][0] == 'B' and a[0][2].name == 'shutdown']
                ctx.check(bool(gone) == soft and over == soft, 'writer:close', fi.where(), 'after the last reply the connection is %s, close %s' % (
                    'closed' if gone else 'open', 'requested' if soft else 'not requested'), lines(s))
            ctx.visited(I.visited)



# ------------------------------------------------------------------ B07
class SigCfg(MCfg):
    """the table of calls under signals and timers"""

    def __init__(self, repo, **kw):
        super().__init__(repo, **kw)
        self.execs = []
        self.reqq = ('O', 'req', repo.cls('SipRequest'))
        self.cc_cls = repo.cls('sippy.b2bua.CallController')

    def inline(self, interp, st, fi, ev):
        if fi.cls is self.cc_cls and fi.name == '__init__':
            return False
        return MCfg.inline(self, interp, st, fi, ev)

    def on_call2(self, interp, st, ev):
        n, r = ev.name, ev.recv
        h = sig_hook(self.repo, interp, st, ev)
        if h is not None:
            return h
        if n == 'breakLoop':
            interp.emit(st, ev)
            st.sethp('#break', st.heap.get('#break', 0) + 1)
            return [(st, NONE)]
        if n in ('execv', 'execve', 'execvp', 'execl'):
            interp.emit(st, ev)
            self.execs.append((st, tuple(ev.args)))
            return []
        if n == 'chdir':
            interp.emit(st, ev)
            st.sethp('#cwd', ev.args[0])
            return [(st, NONE)]
        if n == 'shutdown' and r == ('O', 'tm', Ext('Tm')):
            interp.emit(st, ev)
            st.sethp('#tmdown', True)
            return [(st, NONE)]
        if r == self.reqq:
            a0 = kval(ev.args[0]) if ev.args and is_k(ev.args[0]) else None
            if n in ('getHFBody', 'getHF'):
                return [(st, ('O', 'hf:%s' % a0, Ext('Header')))]
            if n in ('getHFs', 'getHFBodys'):
                return [(st, ('T', ()))]
            if n == 'countHFs':
                return [(st, K(0 if a0 == 'authorization' else 1))]
            if n == 'getMethod':
                return [(st, K('INVITE'))]
            if n == 'getSource':
                return [(st, ('T', (('T', (K('192.0.2.9'), K(5060))), K('udp'))))]
            if n == 'genResponse':
                interp.emit(st, ev)
                st.sethp('#answered', ev.args[0])
                return [(st, S('response'))]
        if n == 'getTag':
            return [(st, NONE)]
        if n == 'getTAddr':
            return [(st, ('T', (S('via_host'), K(5060))))]
        if ev.extra == 'new' and n == self.cc_cls.name:
            o = ('O', 'newcall', self.cc_cls)
            st.sethp((o, 'uaA'), ('O', 'newleg', Ext('UA')))
            st.sethp('#admitted', True)
            interp.emit(st, ev)
            return [(st, o)]
        if n == 'recvRequest' and r == ('O', 'newleg', Ext('UA')):
            return [(st, S('rval'))]
        return MCfg.on_call2(self, interp, st, ev)


MOVES = {'CCStateWaitRoute': ('CCStateARComplete', 'CCStateDead'), 'CCStateARComplete': ('CCStateConnected', 'CCStateDisconnecting', None),
         'CCStateConnected': ('CCStateDisconnecting',), 'CCStateDisconnecting': (None,), 'CCStateDead': (None,)}
SIGS = {'SIGTERM': 2, 'SIGPROF': 1, 'SIGHUP': 1}
FORCE = 5


def b07(ctx):
    ctx.rule = """The table of calls explored under the signals it registers for, its timers, and calls moving on and ending in every order:
a stop tells every call to end and admits no more, the loop is ended at the first check without calls or at the fifth, never before; a
restart replaces the process only when no call is up, after closing the transports, with the original arguments and directory."""
    repo = ctx.repo
    cm = repo.cls('sippy.b2bua.CallMap')
    where = must(repo, cm, '__init__').where()
    starts = [(), ('CCStateConnected',), ('CCStateWaitRoute',), ('CCStateARComplete', 'CCStateConnected'), ('CCStateDisconnecting', 'CCStateConnected')]
    if ctx.thorough:
        starts += [('CCStateConnected',) * 3, ('CCStateWaitRoute', 'CCStateARComplete', 'CCStateDisconnecting')]
    vis = set()
    for calls in starts:
        for prompt, debug in ((False, False), (True, False), (False, True)):
            if debug and len(calls) > 1:
                continue
            cfg = SigCfg(repo)
            cfg.prompt = prompt
            I = SInterp(repo, cfg)
            st = State()
            tm = ('O', 'tm', Ext('Tm'))
            d = gconf(st, _sip_tm=tm, auth_enable=FALSE, _my_pid=K(7), _orig_cwd=S('orig_cwd'), _orig_argv=('T', (S('argv0'), S('argv1'))), _pass_headers=('T', ()))
            for t in ('tserver', 'tclient'):
                dd = ('D', t)
                st.sethp((dd, 'map'), ())
                st.sethp((tm, t), dd)
            st, o, lst = callmap(repo, I, st, d)
            st.sethp('#map', lst)
            st.sethp((lst, 'items'), tuple(mkcall(repo, st, i + 1, 'cid%d' % i, c, c in ACTIVE) for i, c in enumerate(calls)))
            if debug:
                r = [s for s, oc in signalled(I, st, 'SIGUSR2') if oc[0] != 'raise']
                if len(r) != 1:
                    raise AnchorError('no single outcome of SIGUSR2')
                st = r[0]
            st.trace = None
            b07_explore(ctx, where, cfg, I, st, o, lst, d, calls)
            vis |= I.visited
    ctx.visited(vis)
    ctx.floor('situations', 400)
    ctx.floor('steps', 2000)


def b07_explore(ctx, where, cfg, I, st0, o, lst, d, calls):
    repo = ctx.repo
    state = lambda s, c: s.heap[(c, 'state')][1].name
    members = lambda s: s.heap[(lst, 'items')]
    active = lambda s: [c for c in members(s) if state(s, c) in ACTIVE]
    # which timers a stop starts: those not there at the beginning
    base = len(st0.heap.get('#clock', ()))

    def key(s):
        return (tuple((c[1], state(s, c)) for c in members(s)), s.heap.get('#sigs', ()), s.heap.get('#ticks', ()), s.heap.get('#admin', ()),
                tuple(bool(s.heap.get((t[0], 'on'))) for t in s.heap.get('#clock', ())), s.heap.get('#break', 0), s.heap.get('#sweeps', 0),
                tuple((k[1], v) for k, v in sorted(((k, v) for k, v in s.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == o and is_k(v)), key=lambda x: x[0][1])))

    todo, seen = [(st0, ())], {key(st0)}
    while todo:
        s0, hist = todo.pop(0)
        ctx.count('situations')
        if len(seen) > 6000:
            raise AnchorError('too many situations of the table of calls')
        sigs = dict(s0.heap.get('#sigs', ()))
        ticks = s0.heap.get('#ticks', ())
        for s, oc in I.run(must(repo, o[2], 'recvRequest'), o, [cfg.reqq, S('sip_t')], None, fresh(s0)):
            refuse = 'SIGTERM' in sigs or 'SIGPROF' in sigs
            got = s.heap.get('#admitted', False)
            ctx.check(oc[0] != 'raise' and got != refuse, 'admit', where, 'a new call is %s (%s)' % ('placed after a stop or restart was requested' if got else 'refused although nothing is pending',
                      ', '.join(hist)), lines(s))
            if refuse:
                ctx.check(s.heap.get('#answered') == K(503), 'admit-code', where, 'a call during a stop or restart is not refused with 503', lines(s))
        acts = []
        for n, mx in SIGS.items():
            if len(calls) > 1:
                mx = 1
            if sigs.get(n, 0) < mx and not (n == 'SIGHUP' and sigs):
                acts.append((n, lambda s, n=n: signalled(I, s, n)))
        for i, t in enumerate(s0.heap.get('#clock', ())):
            if s0.heap.get((t[0], 'on')) and ticks.count(i) < (FORCE + 1 if i >= base else 1):
                if t[3] == K(1) and i in ticks:
                    continue
                acts.append(('timer %d' % i, lambda s, t=t: I.callv(s, t[1], list(t[4]))))
        for c in members(s0):
            for to in MOVES[state(s0, c)]:
                def f(s, c=c, to=to):
                    if to is None:
                        s.sethp((lst, 'items'), tuple(x for x in members(s) if x != c))
                    else:
                        s.sethp((c, 'state'), ('C', repo.cls(to)))
                    return [(s, ('ret', NONE))]
                acts.append(('%s becomes %s' % (c[1], to or 'gone'), f))
        for nm, f in acts:
            pre = fresh(s0)
            pre.sethp('#told', ())
            cfg.execs = []
            res = f(pre)
            tno = int(nm.split()[1]) if nm.startswith('timer') else None
            h = hist + (nm,)
            hs = ', '.join(h)
            act = active(s0)
            for s, args in cfg.execs:
                ctx.count('steps')
                ctx.check(tno is not None and 'SIGPROF' in sigs, 'restart:uninvited', where, 'the process is restarted without being asked to (%s)' % hs, lines(s))
                ctx.check(not act, 'restart:calls', where, 'the process is restarted with calls up (%s)' % hs, lines(s))
                ctx.check(s.heap.get('#tmdown', False), 'restart:transports', where, 'the process is restarted with its sockets open', lines(s))
                ctx.check(s.heap.get('#cwd') == S('orig_cwd'), 'restart:directory', where, 'the process is restarted in another directory', lines(s))
                av = I.seq_items(args[-1], s) if args else None
                ctx.check(av is not None and list(av[-2:]) == [S('argv0'), S('argv1')], 'restart:arguments', where, 'the process is restarted with other arguments', lines(s))
            if tno is not None and tno < base and 'SIGPROF' in sigs and not act:
                ctx.check(bool(cfg.execs), 'restart:never', where, 'the process is not restarted although no call is up (%s)' % hs)
            for s, oc in res:
                ctx.count('steps')
                L = lines(s)
                ctx.check(oc[0] != 'raise', 'raise', where, 'an exception at: %s' % hs, L)
                told = sorted(x[0] for x in s.heap.get('#told', ()))
                want = sorted('uaA' + c[1][4:] for c in members(s0)) if nm in ('SIGTERM', 'SIGHUP') else []
                ctx.check(told == want, 'disconnect:%s' % nm.split()[0], where, 'on %s the calls told to end are %s instead of %s' % (hs, told, want), L)
                s = s.copy()
                if nm in SIGS:
                    sg = dict(sigs)
                    sg[nm] = sg.get(nm, 0) + 1
                    s.sethp('#sigs', tuple(sorted(sg.items())))
                    if nm == 'SIGTERM':
                        s.sethp('#sweeps', 0)
                        live = [i for i, t in enumerate(s.heap.get('#clock', ())) if i >= base and s.heap.get((t[0], 'on'))]
                        ctx.check(bool(live), 'stop:check', where, 'a stop request starts no check for its completion (%s)' % hs, L)
                if tno is not None:
                    t = s.heap['#clock'][tno]
                    s.sethp('#ticks', tuple(sorted(ticks + (tno,))))
                    if tno < base:
                        ctx.check(s.heap.get((t[0], 'on')) and t[3] != K(1), 'periodic', where, 'the periodic check stops (%s)' % hs, L)
                stop = 'SIGTERM' in sigs
                broke = s.heap.get('#break', 0)
                if tno is not None and tno >= base and stop:
                    n = s0.heap.get('#sweeps', 0) + 1
                    s.sethp('#sweeps', n)
                    due = not act or n >= FORCE
                    ctx.check(bool(broke) == due, 'stop:' + ('late' if due else 'early'), where,
                              'at check %d after a stop request with %d calls up the loop is %sended (%s)' % (n, len(act), '' if broke else 'not ', hs), L)
                else:
                    ctx.check(not broke, 'stop:uninvited', where, 'the loop is ended by: %s' % hs, L)
                if tno is not None and tno >= base and not broke:
                    more = [t for i, t in enumerate(s.heap['#clock']) if i >= base and s.heap.get((t[0], 'on')) and not (t[3] == K(1) and i in ticks + (tno,))]
                    ctx.check(bool(more), 'stop:again', where, 'with calls up at check %d after a stop request no further check follows (%s)' % (s.heap.get('#sweeps', 0), hs), L)
                if oc[0] == 'raise' or broke:
                    if broke:
                        t = s.heap['#clock'][tno]
                        ctx.check(not s.heap.get((t[0], 'on')) or sigs.get('SIGTERM') == 2, 'stop:timer', where, 'the stop check goes on after the loop was ended', L)
                    continue
                k = key(s)
                if k not in seen:
                    seen.add(k)
                    todo.append((s, h))


def fresh(s):
    s = s.copy()
    s.trace = None
    return s


RULES = {'B06': b06, 'B07': b07}
