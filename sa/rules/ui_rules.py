"""S05: the web UI does nothing for those who are not logged in.

The thread of the UI is followed with the web library as a recorder: what is registered for which address, and with
which guard. What is registered without one is then asked, with every kind of request and with and without a user set
up, and may neither look at nor touch what the program does.
"""
import ast

from ..interp import K, S, NONE, TRUE, FALSE, AnchorError, Ev, Raise, show, is_k, kval, State
from ..repo import Ext, ClassInfo
from ..scen import ScenCfg, mkexc, must
from ..text import TextI, text_of
from .config_rules import CfgI
from .loop_rules import lines
from .text_rules import Texts


def obj(name, kind):
    return ('O', name, Ext(kind))


APP, JSON, CMAP, REQ = obj('app', 'App'), obj('json', 'Json'), obj('cmap', 'CallTable'), ('X', 'flask.request')
WEB = ('flask.', 'flask_login.')


def tail(x):
    return x.rpartition('.')[2]


class UiI(CfgI):
    def s_FunctionDef(self, s, st, fr):
        """decorators of functions made on the way are applied"""
        r = CfgI.s_FunctionDef(self, s, st, fr)
        for d in reversed(s.decorator_list):
            out = []
            for st2, _ in r:
                cur = ast.copy_location(ast.Name(s.name, ast.Load()), s)
                call = ast.copy_location(ast.Call(d, [cur], []), d)
                for s3, v in self.ev(call, st2, fr):
                    if isinstance(v, Raise):
                        raise AnchorError('a decorator fails in %s' % fr.fi.where(s))
                    s3 = s3.copy()
                    s3.setvar(fr.fid, s.name, v)
                    out.append((s3, None))
            r = out
        return r

    def get_attr(self, st, o, name, node, fr):
        if o == REQ and ('#request', name) in st.heap:
            return [(st, st.heap[('#request', name)])]
        if o[0] == 'X' and o[1] == 'flask_login.current_user' and name == 'id':
            return [(st, K(self.cfg.names.word('me')))]
        return CfgI.get_attr(self, st, o, name, node, fr)


    def call(self, st, fv, recv, name, pos, kw, node, fr):
        if fv[0] == 'O' and isinstance(fv[2], ClassInfo):
            m = fv[2].find('__call__')
            if m is not None:
                fv = ('B', fv, m)
        return CfgI.call(self, st, fv, recv, name, pos, kw, node, fr)


class UiCfg(ScenCfg):
    unroll = 60
    max_depth = 30
    main = None

    def on_call(self, interp, st, ev):
        fv = ev.extra
        n, a = ev.name, list(ev.args)
        if n in ('callFromThread', 'callFromThreadSync'):
            interp.emit(st, ev)
            if st.heap.get('#in main'):
                raise AnchorError('the event loop waits for itself')
            st.sethp('#in main', True)
            interp.emit(st, Ev('main', 'enter', args=tuple(a)))
            out = []
            for s, oc in interp.callv(st, a[0], a[1:]):
                s = s.copy()
                s.sethp('#in main', False)
                interp.emit(s, Ev('main', 'leave'))
                out.append((s, oc[1] if oc[0] == 'ret' else Raise(oc[1])))
            return out
        return ScenCfg.on_call(self, interp, st, ev)

    def on_call2(self, interp, st, ev):
        fv = ev.extra
        n, a, r = ev.name, list(ev.args), ev.recv
        kw = dict(ev.kw)
        x = fv[1] if isinstance(fv, tuple) and fv and fv[0] == 'X' else ''
        if x.startswith(WEB):
            interp.emit(st, ev)
            t = tail(x)
            if t == 'Flask':
                return [(st, APP)]
            if t == 'LoginManager':
                return [(st, obj('manager', 'Manager'))]
            if t == 'login_required':
                o = obj('guard:%d' % st.heap.get('#guards', 0), 'Guard')
                st.sethp('#guards', st.heap.get('#guards', 0) + 1)
                st.sethp((o, 'inner'), a[0])
                return [(st, o)]
            if t == 'get_json':
                return [(st, st.heap.get('#json', NONE))]
            if t in ('redirect', 'url_for', 'jsonify', 'render_template'):
                return [(st, ('OP', 'page', K(t), *(a[:1] or [NONE])))]
            return [(st, NONE)]
        if r is not None and r[0] == 'O' and isinstance(r[2], Ext) and r[2].name in ('App', 'Manager', 'Routed'):
            interp.emit(st, ev)
            if r[2].name == 'Routed' or n == r[1]:
                pass
            if n in ('route', 'get', 'post', 'endpoint', 'errorhandler'):
                o = obj('routed:%d' % st.heap.get('#routed', 0), 'Routed')
                st.sethp('#routed', st.heap.get('#routed', 0) + 1)
                kw2 = dict(kw)
                if n in ('get', 'post'):
                    kw2['methods'] = interp.mklist(st, [K(n.upper())])
                st.sethp((o, 'what'), ('T', (K(n), a[0] if a else NONE, kw2.get('methods', NONE))))
                return [(st, o)]
            if n == 'before_request':
                st.sethp('#before', st.heap.get('#before', ()) + (a[0],))
                return [(st, a[0])]
            if n == 'add_url_rule':
                v = kw.get('view_func', a[2] if len(a) > 2 else NONE)
                st.sethp('#rules', st.heap.get('#rules', ()) + ((a[0], kw.get('endpoint', a[1] if len(a) > 1 else NONE), v, kw.get('methods', NONE)),))
                return [(st, NONE)]
            return [(st, a[0] if n == 'user_loader' and a else NONE)]
        if isinstance(fv, tuple) and fv[0] == 'O' and isinstance(fv[2], Ext) and fv[2].name == 'Routed':
            w = st.heap[(fv, 'what')][1]
            if w[0] in (K('route'), K('get'), K('post')):
                st.sethp('#rules', st.heap.get('#rules', ()) + ((w[1], w[1], a[0], w[2]),))
            return [(st, a[0])]
        if r == CMAP:
            interp.emit(st, ev)
            if n == 'listActiveCalls':
                return [(st, st.heap.get('#calls', ('T', ())))]
            if n == 'getActiveCalls':
                return [(st, interp.mklist(st, list(st.heap.get((CMAP, 'ccmap'), ('T', ()))[1])))]
            return [(st, NONE)]
        if x == 'builtins.sorted' and len(a) == 1 and set(kw) <= {'key', 'reverse'}:
            its = interp.iter_items(a[0], st)
            keys = []
            for v in its or ():
                k = interp.callv(st, kw['key'], [v]) if 'key' in kw else [(st, ('ret', v))]
                if len(k) != 1 or not is_k(k[0][1][1]):
                    return None
                keys.append(kval(k[0][1][1]))
            if its is None:
                return None
            order = sorted(range(len(keys)), key=lambda i: keys[i], reverse='reverse' in kw and kw['reverse'] == TRUE)
            return [(st, interp.mklist(st, [its[i] for i in order]))]
        if x == 'builtins.open':
            interp.emit(st, ev)
            mode = kval(a[1]) if len(a) > 1 and is_k(a[1]) else 'r'
            if mode.startswith('r') and st.heap.get('#auth') is None:
                return [(st, Raise(mkexc(st, 'builtins.FileNotFoundError')))]
            if mode.startswith('w'):
                st.sethp('#auth', '')
            return [(st, obj('authfile', 'File'))]
        b = r
        while b is not None and b[0] == 'OP' and b[1] == 'entered':
            b = b[2]
        if b == obj('authfile', 'File'):
            interp.emit(st, ev)
            if n in ('read', 'readline'):
                return [(st, K(st.heap.get('#auth') or ''))]
            if n == 'write':
                t = text_of(a[0])
                if t is None:
                    raise AnchorError('what is written is not understood: %s' % show(a[0])[:100])
                st.sethp('#auth', (st.heap.get('#auth') or '') + t)
                return [(st, NONE)]
            return [(st, NONE)]
        if x == 'secrets.token_hex':
            interp.emit(st, ev)
            st.sethp('#random', st.heap.get('#random', 0) + 1)
            return [(st, K(self.names.word('random %d' % st.heap['#random'])))]
        if tail(x) in ('sha256', 'sha512', 'sha1', 'md5', 'blake2b') and x.startswith('hashlib.'):
            t = a[0]
            if t[0] == 'OP' and t[1] == 'bytes':
                t = t[2]
            if not is_k(t):
                raise AnchorError('what is hashed is not understood: %s' % show(t)[:100])
            o = obj('hash', 'Hash')
            o = ('O', 'hash of ' + kval(t), Ext('Hash'))
            return [(st, o)]
        if r is not None and r[0] == 'O' and isinstance(r[2], Ext) and r[2].name == 'Hash':
            return [(st, K(self.names.word(r[1])))]
        if x == 'html.escape' and a and is_k(a[0]):
            q = kw.get('quote', a[1] if len(a) > 1 else TRUE)
            if not is_k(q):
                raise AnchorError('how a text is escaped is not known')
            return [(st, K(''.join(self.names.word(('escaped ' if kval(q) else 'half escaped ') + self.names.show(c)) if 0xE000 <= ord(c) < 0xF900 else c for c in kval(a[0]))))]
        if tail(x) in ('expanduser',) and a:
            return [(st, a[0])]
        if tail(x) == 'compare_digest' and len(a) == 2:
            return interp.decided(st, a, ev)
        return ScenCfg.on_call2(self, interp, st, ev)


class Ui(Texts):
    def __init__(self, ctx):
        Texts.__init__(self, ctx)
        self.repo = ctx.repo
        self.cfg = UiCfg(ctx.repo)
        self.cfg.names = self.N
        self.I = UiI(ctx.repo, self.cfg)
        self.ci = ctx.repo.cls('UIController')
        st = self.st = State()
        self.o = ('O', 'ui', self.ci)
        gc = ('D', 'gc')
        st.sethp((gc, 'map'), ((K('_cmap'), CMAP), (K('uiparams'), K('host=h')), (K('_siprec_target'), K('sip:rec'))))
        for n, v in (('global_config', gc), ('app_name', K('app')), ('kwargs', ('D', 'kwargs')), ('siprec_uas', ('T', ()))):
            st.sethp((self.o, n), v)
        st.sethp((('D', 'kwargs'), 'map'), ())
        st.sethp((CMAP, 'ccmap'), ('T', ()))
        r = self.I.run(must(self.repo, self.ci, 'run'), self.o, [], {}, st)
        r = [(s, oc) for s, oc in r]
        if len(r) != 1 or r[0][1][0] != 'ret':
            raise AnchorError('the UI does not come up in one way (%d): %s' % (len(r), [show(oc[1]) for s, oc in r][:2]))
        self.up = r[0][0]

    # ------------------------------------------------------------ asked
    def users(self):
        salt, u, pw = (self.N.word(x) for x in ('salt', 'user', 'password'))
        good = self.N.word('hash of %s:%s:%s' % (u, salt, pw))
        return {'nobody': None, 'the user': '%s:%s\n' % (salt, good), 'another user': '%s:%s\n' % (salt, self.N.word('hash of something else'))}

    def asked(self, st, handler, json=None, auth=None):
        """-> [(state with the events of the request only, outcome)]"""
        st = st.copy()
        st.trace = None
        st.sethp('#auth', auth)
        if json is not None:
            d = ('D', 'json')
            st.sethp((d, 'map'), tuple((K(k), self.val(v)) for k, v in json.items()))
            st.sethp('#json', d)
            st.sethp(('#request', 'json'), d)
        else:
            st.sethp('#json', NONE)
            st.sethp(('#request', 'json'), NONE)
        return list(self.I.callv(st, handler, []))


def unguarded(v):
    while v[0] == 'P':
        v = v[1]
    if v[0] in ('B', 'F', 'CL'):
        fi = v[2] if v[0] == 'B' else v[1]
        return 'login_required' not in fi.decorators
    return not (v[0] == 'O' and isinstance(v[2], Ext) and v[2].name == 'Guard')


def inner(st, v):
    while v[0] == 'O' and isinstance(v[2], Ext) and v[2].name == 'Guard':
        v = st.heap[(v, 'inner')]
    return v


def system(s):
    """what looks at or touches the program: [(event, in the main thread?)]"""
    out, depth = [], 0
    for e in s.events():
        if e.kind == 'main':
            depth += 1 if e.name == 'enter' else -1
        r = e.recv
        if r is not None and r[0] == 'O' and (r == CMAP or isinstance(r[2], Ext) and r[2].name == 'Call' or isinstance(r[2], ClassInfo) and r[2].name == 'B2BRoute') and e.kind == 'call':
            out.append((e, depth > 0))
    return out


def did(s, *names):
    return [e for e in s.events() if e.kind == 'call' and e.name in names]


FIELDS = [{'username': '{w.user}', 'password': '{w.password}'}, {'username': '{w.other}', 'password': '{w.password}'}, {'username': '{w.user}', 'password': '{w.wrong}'}, {'username': '{w.user}'},
          {'password': '{w.password}'}, {'username': '{w.user}', 'password': ''}, {'username': '', 'password': ''}, {}, {'username': '{w.user}:{w.salt}', 'password': '{w.password}'}, None]
OPEN = ('/login', '/setup', '/api/login', '/api/setup')
PAGES = {'/': 'GET', '/sysconfig': 'GET', '/active_calls': 'GET', '/routing': 'GET', '/logout': 'GET', '/restart': 'GET', '/shutdown': 'GET', '/login': 'GET', '/setup': 'GET', '/api/update_route': 'POST',
         '/api/update_sysconfig': 'POST', '/api/disconnect': 'POST', '/api/start_recording': 'POST', '/api/active_stats': 'GET', '/api/login': 'POST', '/api/setup': 'POST'}


def s05(ctx):
    u = Ui(ctx)
    I, st = u.I, u.up
    w = must(ctx.repo, u.ci, 'run').where()
    rules = {}
    for url, end, fv, methods in st.heap.get('#rules', ()):
        if not is_k(url):
            raise AnchorError('an address of the UI is not known: %s' % show(url))
        ms = I.seq_items(methods, st) if methods != NONE else [K('GET')]
        rules[kval(url)] = (fv, kval(end) if is_k(end) else None, None if ms is None else sorted(kval(m) for m in ms))
    for url, (fv, end, ms) in sorted(rules.items()):
        ctx.count('addresses')
        if url in PAGES and ms is not None:
            ctx.check(ms == [PAGES[url]], 'methods:' + url, w, '%s can be asked for with %s, should be %s' % (url, ms, PAGES[url]))
        if not unguarded(fv):
            continue
        fi = None
        x = fv
        while x[0] == 'P':
            x = x[1]
        fi = x[2] if x[0] == 'B' else x[1] if x[0] in ('F', 'CL') else None
        fw = fi.where() if fi is not None else w
        for who, auth in u.users().items():
            for js in FIELDS:
                what = '%s asked for%s while %s is set up' % (url, '' if js is None else ' with ' + ', '.join('%s=%s' % (k, u.N.show(u.t(v))) for k, v in js.items()), who)
                for s, oc in u.asked(st, fv, js, auth):
                    ctx.count('requests without login')
                    t = system(s)
                    ctx.check(not t and not did(s, 'callFromThread', 'callFromThreadSync'), 'open:' + url, fw, '%s by somebody not logged in: it reaches the program (%s)' % (what, t[0][0].name if t else 'in the main thread'), lines(s))
                    good = who == 'the user' and js is not None and js == FIELDS[0]
                    ins = did(s, 'login_user')
                    if ins:
                        ctx.check(good and len(ins) == 1, 'login:' + url, fw, '%s: logged in' % what, lines(s))
                    elif url == '/api/login' and good:
                        ctx.check(False, 'nologin:' + url, fw, '%s: not logged in' % what, lines(s))
                    wr = s.heap.get('#auth') != auth
                    ctx.check(not wr or auth is None, 'setup:' + url, fw, '%s: the user set up is replaced' % what, lines(s))
                    if wr and auth is None:
                        again(ctx, u, st, rules, js, s, what, fw)
                    if url == '/api/setup' and auth is None and js is not None and 'username' in js and js.get('password') and js['username']:
                        ctx.check(wr and s.heap.get('#auth'), 'nosetup:' + url, fw, '%s: no user is set up' % what, lines(s))
                    t = text_of(oc[1]) if oc[0] == 'ret' else None
    for url in PAGES:
        ctx.check(url in rules, 'gone:' + url, w, '%s is not served' % url)
    # before a user is set up
    before = st.heap.get('#before', ())
    ctx.check(bool(before), 'before', w, 'nothing is asked before requests')
    for who, auth in u.users().items():
        for url, (fv, end, ms) in sorted(rules.items()):
            s0 = st.copy()
            s0.sethp(('#request', 'endpoint'), K(end or url))
            s0.sethp(('#request', 'path'), K(url))
            res = []
            for f in before:
                res += [(s, oc) for s, oc in u.asked(s0, f, None, auth)]
            stop = [oc for s, oc in res if oc != ('ret', NONE)]
            ctx.count('requests before')
            if auth is None and url not in ('/setup', '/api/setup'):
                ctx.check(bool(stop) and len(stop) == len(res), 'before:open', w, '%s is served while no user is set up' % url)
            else:
                ctx.check(not stop, 'before:shut', w, '%s is not served while %s is set up' % (url, who))
    key = st.heap.get((APP, 'secret_key'), NONE)
    rnd = is_k(key) and isinstance(kval(key), str) and 'random' in u.N.show(kval(key)) or key[0] == 'S'
    ctx.check(rnd, 'secret', w, 'the key sessions are signed with is %s, not a random one' % u.show(key))
    histories(ctx, u, st, rules, w)
    actions(ctx, u, st, rules, w)
    ctx.visited(I.visited)
    ctx.floor('addresses', 10)
    ctx.floor('requests without login', 100)
    ctx.floor('requests before', 40)
    ctx.floor('histories', 100)
    ctx.floor('actions', 10)
    ctx.floor('pages', 2)


def again(ctx, u, st, rules, js, s, what, fw):
    """what was set up lets in who set it up and nobody else"""
    auth = s.heap.get('#auth')
    ctx.check(not any(u.t(v) and u.t(v) in auth for k, v in (js or {}).items() if k == 'password'), 'stored', fw, '%s: the password is stored as it is' % what)
    if '/api/login' not in rules or js is None or not js.get('username') or not js.get('password'):
        return
    for js2 in FIELDS:
        for s2, oc in u.asked(st, rules['/api/login'][0], js2, auth):
            ctx.count('requests without login')
            ins = bool(did(s2, 'login_user'))
            ctx.check(ins == (js2 == js), 'setup then login', fw, '%s: afterwards %s is%s logged in' % (what, js2 and {k: u.N.show(u.t(v)) for k, v in js2.items()}, '' if ins else ' not'), lines(s2))


def histories(ctx, u, st, rules, w):
    """what was asked before does not help"""
    if '/api/login' not in rules or '/api/setup' not in rules:
        return
    login, setup = rules['/api/login'][0], rules['/api/setup'][0]
    auth = u.users()['the user']
    for js in FIELDS:
        for s, oc in u.asked(st, login, js, auth):
            for js2 in FIELDS:
                for s2, oc in u.asked(s, login, js2, auth):
                    ctx.count('histories')
                    ctx.check(bool(did(s2, 'login_user')) == (js2 == FIELDS[0]), 'login again', w, 'after %s was tried, %s is%s logged in' % (shown(u, js), shown(u, js2), '' if did(s2, 'login_user') else ' not'), lines(s2))
            for s2, oc in u.asked(s, setup, FIELDS[1], auth):
                ctx.count('histories')
                ctx.check(s2.heap.get('#auth') == auth, 'setup again', w, 'after %s was tried to log in, another user is set up' % shown(u, js), lines(s2))
    for s, oc in u.asked(st, setup, FIELDS[0], None):
        first = s.heap.get('#auth')
        for js in FIELDS[1:]:
            for s2, oc in u.asked(s, setup, js, first):
                ctx.count('histories')
                ctx.check(s2.heap.get('#auth') == first, 'setup again', w, 'after a user was set up, another is with %s' % shown(u, js), lines(s2))
        # a later start, and a user set up at the start of which nobody was
        for s2, oc in u.asked(s, login, FIELDS[0], first):
            ctx.check(bool(did(s2, 'login_user')), 'login after', w, 'who was set up is not logged in', lines(s2))


def shown(u, js):
    return 'nothing' if js is None else '{%s}' % ', '.join('%s=%s' % (k, u.N.show(u.t(v))) for k, v in js.items())


def actions(ctx, u, st, rules, w):
    """what those logged in can do is done in the main thread, to what they mean"""
    I = u.I
    st = st.copy()
    calls = [obj('call:%d' % i, 'Call') for i in range(4)]
    cids = ['{w.cid1}', '{w.cid2}', '{w.cid1}', '{w.cid3}']
    for c, t in zip(calls, cids):
        st.sethp((c, 'cId'), u.val(t))
        st.sethp((c, 'state'), S('state of ' + c[1]))
    st.sethp((CMAP, 'ccmap'), I.mklist(st, calls))
    st.sethp('#calls', ('T', tuple(('T', (u.val('{w.cid%d}' % i), K('st'), ('T', (K('Connected'),)), ('T', (K('Connected'),)))) for i in (1, 2))))
    asked = {'/restart': ('safeRestart', 1), '/shutdown': ('safeStop', 1), '/api/active_stats': ('getActiveCalls', 1), '/active_calls': ('listActiveCalls', 1), '/': ('listActiveCalls', 1)}
    auth = u.users()['the user']
    for url, (fv, end, ms) in sorted(rules.items()):
        if unguarded(fv):
            continue
        for js in ({'callid': '{w.cid1}'}, {'callid': '{w.cid3}'}, {'callid': '{w.nocall}'}) if url == '/api/disconnect' else ({},):
            if url in ('/api/update_route', '/api/start_recording', '/routing', '/sysconfig'):
                continue
            for s, oc in u.asked(st, inner(st, fv), js, auth):
                ctx.count('actions')
                t = system(s)
                bad = [e for e, m in t if not m]
                ctx.check(not bad, 'thread:' + url, w, '%s looks at the program from the thread of the UI (%s)' % (url, bad[0].name if bad else ''), lines(s))
                if url in asked:
                    n = [e for e, m in t if e.name == asked[url][0]]
                    ctx.check(len(n) == 1, 'action:' + url, w, '%s asks %d times for %s' % (url, len(n), asked[url][0]), lines(s))
                if url != '/api/disconnect':
                    ctx.check(not [e for e, m in t if e.name == 'disconnect'], 'ends:' + url, w, '%s ends calls' % url, lines(s))
                else:
                    got = sorted(e.recv[1] for e, m in t if e.name == 'disconnect')
                    want = sorted(c[1] for c, cid in zip(calls, cids) if cid == js['callid'])
                    ctx.check(got == want, 'ends:' + url, w, 'asked to end %s, of the calls %s these end: %s' % (u.N.show(u.t(js['callid'])), [u.N.show(u.t(c)) for c in cids], [u.N.show(u.t(cids[int(g[-1])])) for g in got]), lines(s))
                for nm in ('safeRestart', 'safeStop'):
                    if asked.get(url, ('',))[0] != nm:
                        ctx.check(not [e for e, m in t if e.name == nm], 'stops:' + url, w, '%s asks for %s' % (url, nm), lines(s))
                if url == '/logout':
                    ctx.check(len(did(s, 'logout_user')) == 1, 'logout', w, '%s does not log out' % url, lines(s))
                if asked.get(url, ('',))[0] == 'listActiveCalls':
                    page = text_of(oc[1]) if oc[0] == 'ret' else None
                    if page is None:
                        raise AnchorError('the page %s is not understood: %s' % (url, show(oc[1])[:300]))
                    ctx.count('pages')
                    half = [i for i in (1, 2) if '="' + u.N.word('half escaped ' + u.N.show(u.N.word('cid%d' % i))) in page]
                    ctx.check(not half, 'escape:' + url, w, 'the page %s has call identifiers as they came from callers in it, but for the quotes' % url, lines(s))
                    raw = [i for i in (1, 2) if u.N.word('cid%d' % i) in page]
                    ctx.check(not raw, 'escape:' + url, w, 'the page %s has call identifiers as they came from callers in it' % url, lines(s))


RULES = {'S05': s05}
