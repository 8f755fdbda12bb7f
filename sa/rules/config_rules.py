"""B09: an option means the same however it is given.

The program is started with a command line and, where there is one, a configuration file; the library's parser is
a table of texts, the parts the program is made of are objects that keep what they are made with, and what is
there when the program starts to serve is compared.
"""
import ast
import getopt

from ..interp import K, S, NONE, TRUE, FALSE, AnchorError, Ev, Raise, show, is_k, kval, State
from ..repo import Ext, ClassInfo
from ..scen import ScenCfg, mkexc, must
from ..text import TextI
from .loop_rules import lines
from .text_rules import Texts

BOOLS = {'1': True, 'yes': True, 'true': True, 'on': True, '0': False, 'no': False, 'false': False, 'off': False}
PARSER = ('configparser.', 'ConfigParser.')
PARTS = ('SipLogger', 'RadiusAuthorisation', 'CallMap', 'B2BSimpleAPI', 'Rtp_proxy_client', 'StatefulProxy', 'SipTransactionManager', 'Wss_server', 'Wss_server_opts', 'UIController', 'B2BRoute')
NONEHERE = object()


def external(v, *names):
    return isinstance(v, tuple) and v[0] == 'X' and v[1] in names


def opened(v):
    """the name of an open file"""
    while v[0] == 'OP' and v[1] == 'entered':
        v = v[2]
    return v[1].partition(':')[2] if v[0] == 'O' and isinstance(v[2], Ext) and v[2].name == 'File' else kval(v) if is_k(v) else None


def own(o, name):
    """the method of the repository's class an operator stands for"""
    return o[2].find(name) if isinstance(o, tuple) and o[0] == 'O' and isinstance(o[2], ClassInfo) else None


class CfgI(TextI):
    """operators on objects with methods of their own are calls of these"""
    def operator(self, st, o, name, args, node, fr):
        fi = own(o, name)
        return None if fi is None else self.call(st.copy(), ('B', o, fi), o, name, list(args), {}, node, fr)

    def dec_in(self, st, a, b, node, fr):
        if isinstance(b, tuple) and b[0] == 'X' and b[1].rpartition('.')[2] in ('BOOLEAN_STATES', '_boolean_states') and is_k(a):
            return [(st, kval(a) in BOOLS)]
        r = self.operator(st, b, '__contains__', [a], node, fr)
        if r is None:
            return TextI.dec_in(self, st, a, b, node, fr)
        out = []
        for s, v in r:
            if isinstance(v, Raise):
                raise AnchorError('looking an option up fails in %s' % fr.fi.where(node))
            out += self.decide(s, v, node, fr)
        return out

    def subscript(self, st, o, k, node, fr):
        r = self.operator(st, o, '__getitem__', [k], node, fr)
        return TextI.subscript(self, st, o, k, node, fr) if r is None else r

    def assign(self, t, v, st, fr):
        if not isinstance(t, ast.Subscript):
            return TextI.assign(self, t, v, st, fr)
        out = []
        for s, vs in self.evlist([t.value, t.slice], st, fr):
            if isinstance(vs, Raise):
                out.append((s, ('raise', vs.exc)))
                continue
            r = self.operator(s, vs[0], '__setitem__', [vs[1], v], t, fr)
            if r is None:
                return TextI.assign(self, t, v, st, fr)
            out += [(s2, ('raise', x.exc) if isinstance(x, Raise) else None) for s2, x in r]
        return out

    def get_attr(self, st, o, name, node, fr):
        if o[0] == 'OP' and o[1] == 'idx' and o[2] == ('X', 'sys.modules'):
            # the module the code stands in
            r = self.repo.resolve_name(fr.fi.module, name)
            return [(st, ('C', r) if isinstance(r, ClassInfo) else Raise(mkexc(st, 'builtins.AttributeError')))]
        return TextI.get_attr(self, st, o, name, node, fr)


class StartCfg(ScenCfg):
    """the program being started"""
    unroll = 80
    max_states = 3000
    max_depth = 30
    argv = ()
    files = {}
    ui = None

    def __init__(self, repo, **kw):
        ScenCfg.__init__(self, repo, **kw)
        self.served = []

    def inline(self, interp, st, fi, ev):
        if self.ui is not None and fi.module is self.ui.module:
            return fi.name == '__init__'
        return fi.name != 'daemonize' and not (fi.cls is not None and any(c.name in PARTS for c in fi.cls.repo_mro())) and ScenCfg.inline(self, interp, st, fi, ev)

    def on_call2(self, interp, st, ev):
        n, r, a = ev.name, ev.recv, list(ev.args)
        fv = ev.extra
        x = fv[1] if isinstance(fv, tuple) and fv and fv[0] == 'X' else ''
        if x == 'sys.exit':
            interp.emit(st, ev)
            return [(st, Raise(mkexc(st, 'builtins.SystemExit')))]
        if x in ('getopt.getopt', 'getopt.gnu_getopt'):
            longs = a[2] if len(a) > 2 else ('T', ())
            ls = [kval(v) for v in interp.seq_items(longs, st)]
            try:
                o, rest = getopt.getopt(list(self.argv), kval(a[1]), ls)
            except getopt.GetoptError:
                return [(st, Raise(mkexc(st, 'getopt.GetoptError')))]
            return [(st, ('T', (interp.mklist(st, [('T', (K(k), K(v))) for k, v in o]), interp.mklist(st, [K(v) for v in rest]))))]
        if x == 'builtins.sorted' and len(a) == 1 and interp.iter_items(a[0], st) is not None:
            # in which order the help is printed
            return [(st, interp.mklist(st, list(interp.iter_items(a[0], st))))]
        if x == 'builtins.open' and a and is_k(a[0]):
            interp.emit(st, ev)
            return [(st, ('O', 'file:' + kval(a[0]), Ext('File')))]
        if n == 'loop' and ev.callee is None or n == 'loop' and ev.callee.cls is not None and 'Dispatcher' in ev.callee.cls.name:
            self.served.append(st.copy())
            return []
        p = self.parser(interp, st, ev, n, r, a, x)
        if p is not None:
            return p
        return ScenCfg.on_call2(self, interp, st, ev)

    # ------------------------------------------------------------ the library's parser
    def parser(self, interp, st, ev, n, r, a, x):
        if r is not None and r[0] == 'X' and r[1].startswith(PARSER) and a and a[0][0] == 'O':
            o, a = a[0], a[1:]
        elif r is not None and r[0] == 'O' and isinstance(r[2], ClassInfo) and ev.callee is None and any(isinstance(b, Ext) and b.name.startswith(PARSER) for c in r[2].repo_mro() for b in c.bases):
            o = r
        else:
            return None
        t = dict(st.heap.get((o, '#table'), ()))
        kw = dict(ev.kw)

        def put():
            st.sethp((o, '#table'), tuple(t.items()))

        def fail(name):
            return [(st, Raise(mkexc(st, name)))]
        if n == '__init__':
            return [(st, NONE)]
        if n in ('read_file', 'readfp', 'read'):
            if n == 'readfp':
                # gone from the library
                return fail('builtins.AttributeError')
            f = opened(a[0])
            interp.emit(st, ev)
            txt = st.heap.get(('#file', f), self.files.get(f))
            if txt is None:
                return fail('builtins.OSError')
            for s, k, v in txt:
                t.setdefault(s, ())
                t[s] = tuple((p, q) for p, q in t[s] if p != k.lower()) + ((k.lower(), v),)
            put()
            return [(st, NONE)]
        if n == 'write':
            interp.emit(st, ev)
            st.sethp(('#file', opened(a[0])), tuple((s, k, v) for s, e in t.items() for k, v in e))
            return [(st, NONE)]
        if n == 'sections':
            return [(st, interp.mklist(st, [K(s) for s in t]))]
        if not a or not is_k(a[0]):
            return None
        sec = kval(a[0])
        if n == 'add_section':
            t[sec] = ()
            put()
            return [(st, NONE)]
        if n == 'has_section':
            return [(st, K(sec in t))]
        if n == 'options' and sec in t:
            return [(st, interp.mklist(st, [K(k) for k, v in t[sec]]))]
        if n == 'items' and sec in t:
            return [(st, interp.mklist(st, [('T', (K(k), v)) for k, v in t[sec]]))]
        if len(a) < 2 or not is_k(a[1]) or sec not in t:
            return None
        key = kval(a[1]).lower()
        e = dict(t[sec])
        if n == 'set' and len(a) == 3:
            t[sec] = tuple((p, q) for p, q in t[sec] if p != key) + ((key, a[2]),)
            put()
            return [(st, NONE)]
        if n == 'has_option':
            return [(st, K(key in e))]
        if n == 'remove_option':
            t[sec] = tuple((p, q) for p, q in t[sec] if p != key)
            put()
            return [(st, K(key in e))]
        if n in ('get', 'getboolean', 'getint'):
            if key not in e:
                return [(st, kw['fallback'])] if 'fallback' in kw else fail('configparser.NoOptionError')
            v = e[key]
            if n == 'get':
                return [(st, v)]
            if not is_k(v):
                return None
            if n == 'getboolean':
                b = BOOLS.get(kval(v).lower())
                return fail('builtins.ValueError') if b is None else [(st, K(b))]
            try:
                return [(st, K(int(kval(v))))]
            except ValueError:
                return fail('builtins.ValueError')
        return None


class Start(Texts):
    def __init__(self, ctx):
        Texts.__init__(self, ctx)
        self.repo = ctx.repo
        self.main = ctx.repo.func('sippy.b2bua.main_func')
        self.cfg = StartCfg(ctx.repo)
        self.cfg.names = self.N
        self.I = CfgI(ctx.repo, self.cfg)
        self.st = State()

    def started(self, argv, files=None):
        """-> [(state, served?)]"""
        self.cfg.argv = tuple(self.t(x) for x in argv)
        self.cfg.files = {f: [(s, k, K(self.t(v))) for s, k, v in c] for f, c in (files or {}).items()}
        self.cfg.served = []
        r = self.I.run(self.main, None, [], {}, self.st)
        return [(s, True) for s in self.cfg.served] + [(s, oc) for s, oc in r]

    # ------------------------------------------------------------ what is there when the program serves
    def plain(self, v, st, depth=0):
        if v is None or depth > 6:
            return None
        if is_k(v):
            return self.N.show(v[2]) if isinstance(v[2], str) else v[2]
        if v[0] in ('T', 'L'):
            it = self.I.seq_items(v, st)
            return None if it is None else [self.plain(x, st, depth + 1) for x in it]
        if v[0] == 'D':
            return {repr(self.plain(a, st, depth + 1)): self.plain(b, st, depth + 1) for a, b in st.heap.get((v, 'map'), ())}
        if v[0] == 'O' and isinstance(v[2], ClassInfo):
            if v[2].module.name == 'sippy.B2B.Transforms':
                return (v[2].name, sorted((k[1], repr(self.plain(x, st, depth + 1))) for k, x in st.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == v and isinstance(k[1], str) and k[1][0] != '#'))
            return v[2].name
        return self.N.show(show(v))

    def conf(self, s):
        for e in s.events():
            if e.kind == 'call' and e.recv is not None and e.recv[0] == 'O' and isinstance(e.recv[2], ClassInfo) and e.recv[2].find('check_and_set') is not None:
                return e.recv
        raise AnchorError('no configuration is made')

    def asked(self, s, key, default=NONE):
        """what getdefault() gives"""
        o = self.conf(s)
        r = [(s2, oc) for s2, oc in self.I.run(must(self.repo, o[2], 'getdefault'), o, [K(key), default], {}, s)]
        if len(r) != 1:
            raise AnchorError('%s is read in %d ways' % (key, len(r)))
        return ('raised ' + show(r[0][1][1])) if r[0][1][0] == 'raise' else self.plain(r[0][1][1], r[0][0])

    def picture(self, s):
        out = {}
        for k in OPTIONS:
            out[k] = self.asked(s, k, FALSE if OPTIONS[k] == 'B' else NONE)
        for k in PRIVATE:
            out[k] = self.asked(s, k)
        evs = [e for e in s.events() if e.kind == 'call']
        made = [(e.name, [self.plain(a, s) for a in e.args] + sorted((k, self.plain(v, s)) for k, v in e.kw)) for e in evs if e.name in PARTS]
        out['#made'] = made
        for n in PARTS:
            out['#' + n] = [a for m, a in made if m == n]
        out['#daemon'] = [[self.plain(a, s) for a in e.args] + [self.plain(v, s) for k, v in e.kw] for e in evs if e.name == 'daemonize']
        out['#opened'] = [[self.plain(a, s) for a in e.args[:2]] for e in evs if e.name == 'open' and len(e.args) > 1 and e.args[1] == K('w')]
        out['#signal'] = [[self.plain(a, s) for a in e.args][-1] for e in evs if e.name == 'Signal']
        tm = [x for x in self.objects(s, 'SipTransactionManager')]
        out['#nat'] = [self.plain(s.heap.get((o, 'nat_traversal')), s) for o in tm]
        out['#proxy'] = [self.plain(s.heap.get((o, 'proxy')), s) for o in self.objects(s, 'CallMap') if (o, 'proxy') in s.heap]
        out['#notify'] = [self.plain(s.heap.get((o, 'notify_socket')), s) for o in self.objects(s, 'Rtp_proxy_client')]
        return out

    def objects(self, s, name):
        o = self.conf(s)
        out = []
        for k, v in s.heap.get((s.heap.get((o, '_private_keys'), NONE), 'map'), ()):
            for x in [v] + (list(self.I.seq_items(v, s) or ()) if v[0] in ('L', 'T') else []):
                if x[0] == 'O' and isinstance(x[2], ClassInfo) and x[2].name == name and x not in out:
                    out.append(x)
        return out

    def one(self, argv, files=None):
        """-> (what is seen | None when it does not come to serving, state)"""
        key = (tuple(argv), repr(files))
        if key not in self.memo:
            r = self.started(argv, files)
            self.ctx.count('starts')
            if len(r) != 1:
                raise AnchorError('%s starts in %d ways' % (' '.join(argv), len(r)))
            s, ok = r[0]
            if ok is not True and any(e.kind == 'call' and (e.name in PARTS and e.name != 'B2BRoute') for e in s.events()):
                self.memo[key] = (s, 'part of it')
            else:
                self.memo[key] = (s, self.picture(s) if ok is True else None)
        return self.memo[key]

    memo = {}


def differs(a, b, but=()):
    """the first thing that is not the same"""
    for k in a:
        if k not in but and a[k] != b.get(k):
            return '%s is %r instead of %r' % (k.lstrip('#'), a[k], b.get(k))
    return None


OPTIONS = {'acct_enable': 'B', 'precise_acct': 'B', 'alive_acct_int': 'I', 'auth_enable': 'B', 'b2bua_socket': 'S', 'digest_auth': 'B', 'foreground': 'B', 'hide_call_id': 'B',
           'keepalive_ans': 'I', 'keepalive_orig': 'I', 'logfile': 'S', 'max_credit_time': 'I', 'max_radiusclients': 'I', 'pidfile': 'S', 'radiusclient.conf': 'S', 'sip_address': 'S', 'sip_port': 'I',
           'start_acct_enable': 'B', 'static_route': 'S', 'static_tr_in': 'S', 'static_tr_out': 'S', 'allowed_pts': 'S', 'pass_headers': 'S', 'accept_ips': 'S', 'digest_auth_only': 'B',
           'rtp_proxy_clients': 'S', 'sip_proxy': 'S', 'nat_traversal': 'B', 'wss_socket': 'S', 'pre_auth_proc': 'S', 'xmpp_b2bua_id': 'I', 'ui': 'B', 'uiparams': 'S'}
PRIVATE = ('_pass_headers', '_accept_ips', '_allowed_pts', '_sip_address', '_sip_port', '_static_routes', '_sip_proxy', '_pre_auth_proc', '_xmpp_mode', '_rtp_proxy_clients')
ON = {'digest_auth', 'auth_enable', 'acct_enable'}
LISTS = {'accept_ips': str, 'rtp_proxy_clients': str, 'pass_headers': str.lower, 'allowed_pts': lambda x: x[1:-1] if x.startswith('[') else int(x)}
WORD = '{w.text}'
TEXTS = {'sip_address': ('*', '0.0.0.0', '::', '192.0.2.7', '[2001:db8::1]'), 'allowed_pts': ('0', '0,8,101', '8, 0', '0,[G729/8000],101', '0, [G729/8000] , 101', '[A/8000],[B/8000]'),
         'pass_headers': ('X-Foo', 'x-foo', 'X-Foo,X-BAR', 'X-Foo, x-bar , P-Charge'), 'accept_ips': ('{w.ip}', '{w.ip},{w.ip2}', '{w.ip}, {w.ip2} ,{w.ip3}'),
         'rtp_proxy_clients': ('{w.sock}', 'udp:{w.host}:{n.port}', '{w.sock},udp:{w.host}:{n.port}', '{w.sock} , {w.sock2}', 'rtp.io:{w.x},{w.sock}'),
         'sip_proxy': ('{w.host}', '{w.host}:5070'), 'wss_socket': ('192.0.2.1:9876:{w.cert}:{w.key}',),
         'pre_auth_proc': ('HDR2Xattrs[X-Foo]', 'VAL2Xattrs[{w.k}={w.v}]', 'VAL2XattrsA[{w.k}={w.v},{w.k2}={w.v2}]', 'VAL2XattrsO[{w.k}={w.v}]'),
         'uiparams': ('host={w.h};port=8080',), 'static_route': ('{w.gw}', '{w.gw};ash={w.a};credit-time={n.ct}')}
INTS = {'sip_port': ('5066', '1', '65535', ' 5070 '), 'max_credit_time': ('1', '3600'), 'keepalive_ans': ('0', '30'), 'keepalive_orig': ('0', '1'), 'alive_acct_int': ('0', '60')}
REFUSED = [('sip_port', '0'), ('sip_port', '-1'), ('sip_port', '65536'), ('sip_port', 'sip'), ('sip_port', ''), ('max_credit_time', '0'), ('max_credit_time', '-5'), ('keepalive_ans', '-1'), ('keepalive_orig', '-1'),
           ('keepalive_ans', 'often'), ('allowed_pts', 'x'), ('allowed_pts', '0,PCMU'), ('allowed_pts', ''), ('pre_auth_proc', 'HDR2Xattrs'), ('pre_auth_proc', 'Nothing[x]'), ('pre_auth_proc', 'VAL2Xattrs[x]'),
           ('pre_auth_proc', 'HDR2Xattrs[x'), ('no_such_option', '1')]
SHORTS = [(['-f'], ['--foreground=on']), (['-D'], ['--digest_auth=off']), (['-u', '-s', '{w.gw}'], ['--auth_enable=off', '--static_route={w.gw}']), (['-H'], ['--hide_call_id=on']),
          (['-l', '192.0.2.7'], ['--sip_address=192.0.2.7']), (['-l', '*'], ['--sip_address=*']), (['-p', '5066'], ['--sip_port=5066']), (['-P', '{w.x}'], ['--pidfile={w.x}']), (['-L', '{w.x}'], ['--logfile={w.x}']),
          (['-s', '{w.gw}'], ['--static_route={w.gw}']), (['-a', '{w.ip},{w.ip2}'], ['--accept_ips={w.ip},{w.ip2}']), (['-t', '{w.x}'], ['--static_tr_in={w.x}']), (['-T', '{w.x}'], ['--static_tr_out={w.x}']),
          (['-k', '0'], ['--keepalive_ans=0']), (['-k', '1'], ['--keepalive_ans=32']), (['-k', '2'], ['--keepalive_orig=32']), (['-k', '3'], ['--keepalive_ans=32', '--keepalive_orig=32']),
          (['-m', '60'], ['--max_credit_time=60']), (['-A', '0'], ['--acct_enable=off', '--start_acct_enable=off']), (['-A', '1'], ['--acct_enable=on', '--start_acct_enable=off']),
          (['-A', '2'], ['--acct_enable=on', '--start_acct_enable=on']), (['-r', '{w.sock}'], ['--rtp_proxy_clients={w.sock}']), (['-r', '{w.sock}', '-r', '{w.sock2}'], ['--rtp_proxy_clients={w.sock},{w.sock2}']),
          (['-F', '0,8'], ['--allowed_pts=0,8']), (['-R', '{w.x}'], ['--radiusclient.conf={w.x}']), (['-h', 'X-Foo'], ['--pass_headers=X-Foo']), (['-h', 'X-Foo,X-Bar'], ['--pass_headers=X-Foo,X-Bar']),
          (['-h', 'X-Foo', '-h', 'X-Bar'], ['--pass_headers=X-Foo,X-Bar']), (['-x', 'HDR2Xattrs[X-Foo]'], ['--pre_auth_proc=HDR2Xattrs[X-Foo]']), (['-c', '{w.x}'], ['--b2bua_socket={w.x}']),
          (['-M', '7'], ['--max_radiusclients=7'])]
SHORT_REFUSED = [['-A', '3'], ['-A', '-1'], ['-k', '4'], ['-k', '-1'], ['-p', '0'], ['-m', '0'], ['-F', 'x'], ['-x', 'foo'], ['-u'], ['-Z'], ['-p'], ['--sip_port'], ['--ui']]


def values(k):
    if OPTIONS[k] == 'B':
        return [('on', True), ('yes', True), ('TRUE', True), ('1', True), (' On ', True), ('off', False), ('No', False), ('false', False), ('0', False)]
    if OPTIONS[k] == 'I':
        return [(v, int(v)) for v in INTS.get(k, ('17',))]
    return [(v, None) for v in TEXTS.get(k, (WORD,))]


def b09(ctx):
    p = Start(ctx)
    p.memo = {}
    w = p.main.where()
    base = p.one([])[1]
    if base is None or base == 'part of it':
        ctx.check(False, 'none', w, 'the program does not start without options')
        return
    for k in OPTIONS:
        typ = OPTIONS[k]
        for v, want in values(k):
            extra = ['--static_route={w.sr}'] if k == 'auth_enable' else []
            ex = [('general', 'static_route', '{w.sr}')] if extra else []
            s, a = p.one(extra + ['--%s=%s' % (k, v)])
            if not isinstance(a, dict):
                ctx.check(False, 'refused:' + k, w, 'an option that is right (%s = %s) is refused' % (k, p.N.show(p.t(v))), lines(s))
                continue
            w_ = want if typ != 'S' else p.N.show(p.t(v))
            got = a[k] if not isinstance(a[k], bool) or typ == 'B' else None
            ctx.check(got == w_ and type(got) is type(w_), 'value:' + k, w, 'given %s = %s, the option is %r' % (k, p.N.show(p.t(v)), a[k]), lines(s))
            if k in LISTS:
                want_l = [LISTS[k](x.strip()) for x in p.N.show(p.t(v)).split(',')]
                got_l = a['_' + k] if k != 'rtp_proxy_clients' else [dict(x for x in m if isinstance(x, tuple)).get('spath') for m in a['#Rtp_proxy_client']]
                ctx.check(got_l == want_l, 'list:' + k, w, 'given %s = %s, the list is %r, should be %r' % (k, p.N.show(p.t(v)), got_l, want_l), lines(s))
            for how, argv, files in (('in a file', ['-C', 'F'], {'F': ex + [('general', k, v.strip())]}), ('in a file named in full', ['--config=F'], {'F': ex + [('general', k.upper(), v.strip())]})):
                s2, b = p.one(argv, files)
                d = 'it is refused' if not isinstance(b, dict) else differs(b, a)
                ctx.check(d is None, 'file:' + k, w, '%s = %s means something else %s than on the command line: %s' % (k, p.N.show(p.t(v)), how, d), lines(s2))
            if typ == 'B' and want is False and k not in ON:
                d = differs(a, base)
                ctx.check(d is None, 'off:' + k, w, '%s = %s is not what it is without the option: %s' % (k, v, d), lines(s))
            back(ctx, p, w, extra + ['--%s=%s' % (k, v)], k)
    for sh, lo in SHORTS:
        s, a = p.one(sh)
        s2, b = p.one(lo)
        d = 'it is refused' if not isinstance(a, dict) or not isinstance(b, dict) else differs(a, b, [] if sh[0] != '-k' else ())
        ctx.check(d is None, 'short:' + sh[0], w, '%s is not what %s is: %s' % (p.N.show(p.t(' '.join(sh))), p.N.show(p.t(' '.join(lo))), d), lines(s))
        back(ctx, p, w, sh, sh[0])
    bad = [['--%s=%s' % kv] for kv in REFUSED] + SHORT_REFUSED + [['--%s=%s' % (k, x)] for k in OPTIONS if OPTIONS[k] == 'B' for x in ('maybe', '2', '')] + [['--%s=x' % k] for k in OPTIONS if OPTIONS[k] == 'I']
    bad += [['-C', 'F:%s=%s' % kv] for kv in REFUSED] + [['--auth_enable=off']]
    for argv in bad:
        files = None
        if argv[0] == '-C':
            kk, _, vv = argv[1][2:].partition('=')
            argv, files = ['-C', 'F'], {'F': [('general', kk, vv)]}
        s, a = p.one(argv, files)
        ctx.count('refused')
        ctx.check(a is None, 'taken:' + (argv[0].partition('=')[0] if not files else files['F'][0][1]), w, 'an option that is wrong (%s) is taken' % (' '.join(argv) if not files else '%s = %s' % files['F'][0][1:]), lines(s))
    for argv, files, lo in ORDER:
        s, a = p.one(argv, files)
        s2, b = p.one(lo)
        d = 'it is refused' if not isinstance(a, dict) or not isinstance(b, dict) else differs(a, b)
        ctx.check(d is None, 'order:' + ' '.join(x.partition('=')[0] for x in argv), w, '%s%s is not what %s is: %s' % (' '.join(argv), ' (%s)' % ', '.join('%s: %s' % (f, '; '.join('%s = %s' % e[1:] for e in c)) for f, c in (files or {}).items()), ' '.join(lo), d), lines(s))
    for i, (argv, want) in enumerate(EFFECTS):
        s, a = p.one(argv)
        for k, v in want.items():
            got = a.get(k) if isinstance(a, dict) else 'refused'
            if isinstance(got, list) and k in ('#made',):
                got = [m for m, _ in got]
            v = typed(p, v)
            ctx.check(v(got) if callable(v) else got == v, 'effect:%s:%s' % (argv[0].partition('=')[0] if argv else '', k.lstrip('#')), w, 'started with %s, %s is %r%s' % (
                p.N.show(p.t(' '.join(argv))) or 'no options', k.lstrip('#'), got, '' if callable(v) else ', not %r' % (v,)), lines(s))
            ctx.count('effects')
    before_auth(ctx)
    ui(ctx)
    ctx.floor('starts', 300)
    ctx.floor('refused', 60)
    ctx.floor('effects', 40)
    ctx.visited(p.I.visited)


def typed(p, v):
    if isinstance(v, str):
        return p.N.show(p.t(v))
    if isinstance(v, list):
        return [typed(p, x) for x in v]
    if isinstance(v, tuple):
        return tuple(typed(p, x) for x in v)
    if isinstance(v, dict):
        return {k: typed(p, x) for k, x in v.items()}
    return v


def absent(*names):
    return lambda made: isinstance(made, list) and not set(names) & set(made)


def holds(*names):
    return lambda made: isinstance(made, list) and [m for m in made if m in names] == list(names)


F1 = {'F': [('general', 'keepalive_ans', '5')]}
ORDER = [(['-C', 'F', '--keepalive_ans=6'], F1, ['--keepalive_ans=6']), (['--keepalive_ans=6', '-C', 'F'], F1, ['--keepalive_ans=5']), (['-h', 'X-Foo', '-C', 'F'], F1, ['--pass_headers=X-Foo', '--keepalive_ans=5']),
         (['-r', 'a', '-r', 'b', '-C', 'F'], F1, ['--rtp_proxy_clients=a,b', '--keepalive_ans=5']), (['-a', '192.0.2.1,192.0.2.2', '-C', 'F'], F1, ['--accept_ips=192.0.2.1,192.0.2.2', '--keepalive_ans=5']),
         (['-l', '192.0.2.7', '-p', '5066', '-C', 'F'], F1, ['--sip_address=192.0.2.7', '--sip_port=5066', '--keepalive_ans=5']),
         (['-D', '-H', '-f', '-C', 'F'], F1, ['--digest_auth=off', '--hide_call_id=on', '--foreground=on', '--keepalive_ans=5']),
         (['-C', 'F', '-C', 'G'], dict(F1, G=[('general', 'sip_port', '5066'), ('general', 'ui', 'off')]), ['--keepalive_ans=5', '--sip_port=5066']),
         (['-C', 'F', '-C', 'G'], dict(F1, G=[('general', 'keepalive_ans', '7')]), ['--keepalive_ans=7']), (['--pass_headers=X-Foo', '-h', 'X-Bar'], None, ['--pass_headers=X-Foo,X-Bar']),
         (['-C', 'F', '-h', 'X-Bar'], {'F': [('general', 'pass_headers', 'X-Foo')]}, ['--pass_headers=X-Foo,X-Bar']), (['-C', 'F', '-r', 'b'], {'F': [('general', 'rtp_proxy_clients', 'a')]}, ['--rtp_proxy_clients=a,b']),
         (['--hide_call_id=on', '--hide_call_id=off'], None, []), (['-f', '--foreground=off'], None, []), (['-C', 'F', '-D'], {'F': [('general', 'digest_auth', 'on')]}, ['-D']), (['-p', '5066', '-p', '5070'], None, ['-p', '5070']),
         (['--keepalive_a', '6'], None, ['--keepalive_ans=6']), (['-A', '2', '-A', '1'], None, ['-A', '1']), (['-A', '2', '-A', '0'], None, ['-A', '0']), (['-A', '0', '-A', '2'], None, ['-A', '2']), (['-A', '0', '-A', '1'], None, ['-A', '1']),
         (['-C', 'F', '-A', '1'], {'F': [('general', 'acct_enable', 'off'), ('general', 'start_acct_enable', 'on')]}, ['-A', '1']), (['--digest_auth=off', '--digest_auth=on'], None, [])]
EFFECTS = [
    ([], {'digest_auth': True, 'auth_enable': True, 'acct_enable': True, 'start_acct_enable': False, 'keepalive_ans': 0, 'keepalive_orig': 0, '_pass_headers': [], '_accept_ips': None, '_allowed_pts': None,
          '_static_routes': None, '_sip_proxy': None, '_pre_auth_proc': None, '_xmpp_mode': None, '_rtp_proxy_clients': None, '#RadiusAuthorisation': lambda x: len(x) == 1, '#SipTransactionManager': lambda x: len(x) == 1,
          '#B2BSimpleAPI': lambda x: len(x) == 1, '#CallMap': lambda x: len(x) == 1, '#daemon': [['/var/log/b2bua.log']], '#opened': [['/var/run/b2bua.pid', 'w']], '#signal': ['/var/log/b2bua.log'], '#nat': [False],
          '#made': absent('UIController', 'Wss_server', 'StatefulProxy', 'Rtp_proxy_client')}),
    (['-f', '-L', '{w.log}', '-P', '{w.pid}'], {'#daemon': [], '#opened': [], '#signal': []}),
    (['-L', '{w.log}', '-P', '{w.pid}'], {'#daemon': [['{w.log}']], '#opened': [['{w.pid}', 'w']], '#signal': ['{w.log}']}),
    (['-s', '{w.gw}'], {'_static_routes': {"''": 'B2BRoute'}, '#B2BRoute': [['{w.gw}']]}),
    (['-u', '-s', '{w.gw}'], {'auth_enable': False, '#RadiusAuthorisation': lambda x: len(x) == 1}),
    (['-u', '-A', '0', '-s', '{w.gw}'], {'auth_enable': False, 'acct_enable': False, '#made': absent('RadiusAuthorisation')}),
    (['-A', '0'], {'acct_enable': False, 'start_acct_enable': False, '#RadiusAuthorisation': lambda x: len(x) == 1}), (['-A', '1'], {'acct_enable': True, 'start_acct_enable': False}),
    (['-A', '2'], {'acct_enable': True, 'start_acct_enable': True}), (['-D'], {'digest_auth': False, 'auth_enable': True}), (['-H'], {'hide_call_id': True}),
    (['-k', '3'], {'keepalive_ans': 32, 'keepalive_orig': 32}), (['-k', '1'], {'keepalive_ans': 32, 'keepalive_orig': 0}), (['-k', '2'], {'keepalive_ans': 0, 'keepalive_orig': 32}),
    (['-h', 'X-Foo, X-BAR'], {'_pass_headers': ['x-foo', 'x-bar']}), (['--pass_headers=X-Foo, X-BAR'], {'_pass_headers': ['x-foo', 'x-bar']}),
    (['-a', '{w.ip}, {w.ip2}'], {'_accept_ips': ['{w.ip}', '{w.ip2}']}), (['-F', '8, 0,[G729/8000] ,101'], {'_allowed_pts': [8, 0, 'G729/8000', 101]}), (['-F', '18'], {'_allowed_pts': [18]}),
    (['-l', '192.0.2.7', '-p', '5066'], {'_sip_address': '192.0.2.7', '_sip_port': 5066}), (['-l', '*'], {'_sip_address': 'MyAddress'}), (['-l', '0.0.0.0'], {'_sip_address': 'MyAddress'}), (['-l', '::'], {'_sip_address': 'MyAddress'}),
    (['-r', 'udp:{w.h}:{n.p}', '-r', '{w.sock}'], {'#Rtp_proxy_client': [['MyConfigParser', ('spath', 'udp:{w.h}:{n.p}')], ['MyConfigParser', ('spath', '{w.sock}')]], '_rtp_proxy_clients': ['Rtp_proxy_client'] * 2, '#notify': ['/var/run/b2bua.sock'] * 2}),
    (['--rtp_proxy_clients={w.sock}, {w.sock2}', '-c', '{w.cmd}'], {'#Rtp_proxy_client': [['MyConfigParser', ('spath', '{w.sock}')], ['MyConfigParser', ('spath', '{w.sock2}')]], '#notify': ['{w.cmd}'] * 2}),
    (['--sip_proxy={w.host}'], {'_sip_proxy': ['{w.host}', 5060], '#StatefulProxy': [['MyConfigParser', ['{w.host}', 5060]]], '#proxy': ['StatefulProxy']}),
    (['--sip_proxy={w.host}:5070'], {'_sip_proxy': ['{w.host}', 5070], '#StatefulProxy': [['MyConfigParser', ['{w.host}', 5070]]], '#proxy': ['StatefulProxy']}),
    (['--nat_traversal=on'], {'#nat': [True]}), (['--nat_traversal=off'], {'#nat': [False]}), (['--xmpp_b2bua_id=3'], {'_xmpp_mode': True, 'xmpp_b2bua_id': 3}),
    (['--ui=on'], {'#made': holds('SipTransactionManager', 'UIController')}), (['--ui=off'], {'#made': absent('UIController')}),
    (['--wss_socket=192.0.2.1:9876:{w.cert}:{w.key}'], {'#made': holds('SipTransactionManager', 'Wss_server_opts', 'Wss_server'), '#Wss_server_opts': lambda x: len(x) == 1 and x[0][0] == ['192.0.2.1', 9876]}),
    (['-x', 'VAL2XattrsO[{w.k}={w.v}]'], {'_pre_auth_proc': lambda x: isinstance(x, tuple) and x[0] == 'VAL2XattrsO'}),
]


def back(ctx, p, w, argv, key):
    """written by the program and read by it again"""
    s, a = p.one(argv + ['-W', 'OUT'])
    if not isinstance(a, dict):
        return
    t = s.heap.get(('#file', 'OUT'))
    if t is None:
        ctx.check(False, 'written:' + key, w, 'the configuration is not written', lines(s))
        return
    s2, b = p.one(['-C', 'F'], {'F': [(x, k, kval(v)) for x, k, v in t]})
    a = dict(a, **{'#opened': [x for x in a['#opened'] if x[0] != 'OUT']})
    d = 'it is refused' if not isinstance(b, dict) else differs(b, a)
    ctx.check(d is None, 'written:' + key, w, 'read back from where the program has written it, %s is not the same: %s' % (p.N.show(p.t(' '.join(argv))), d), lines(s2))


HEADS = ['X-Other: {w.o}={w.ov}', 'X-Foo: {w.a}={w.av};{w.b}={w.bv}', 'x-foo: {w.c}={w.cv};{w.flag}']
GOT = [['{w.a}', '{w.av}'], ['{w.b}', '{w.bv}'], ['{w.c}', '{w.cv}']]


def before_auth(ctx):
    """what the routine named by pre_auth_proc does"""
    p = Texts(ctx)
    repo, I = ctx.repo, p.I
    hdr = repo.cls('HDR2Xattrs')
    w = must(repo, hdr, '__call__').where()

    def flat(v):
        return ('L',) + tuple(flat(x) for x in v[1:]) if v[0] == 'L' else ('L',) + tuple(flat(x) for x in (v[1] if len(v) == 2 and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1:])) if v[0] == 'T' else v
    for name in ('X-Foo', 'x-foo', 'X-FOO', 'X-Nowhere'):
        for n in range(len(HEADS) + 1):
            for old in (None, [['{w.k}', '{w.kv}']]):
                st = p.st.copy()
                hs = []
                for t in HEADS[:n]:
                    r = [(s, o) for s, o in _made(p, st, 'SipHeader', [p.val(t)]) if o[0] != 'raised']
                    if len(r) != 1:
                        raise AnchorError('the header %s is not read in one way' % t)
                    st, o = r[0]
                    hs.append(o)
                r = _made(p, st, 'HDR2Xattrs', [K(name)])
                if len(r) != 1 or r[0][1][0] == 'raised':
                    ctx.check(False, 'pre:made', w, 'HDR2Xattrs[%s] is not made' % name)
                    continue
                st, o = r[0]
                st = st.copy()
                req = ('O', 'req', repo.cls('SipRequest'))
                st.sethp((req, 'headers'), I.mklist(st, hs))
                cc = ('O', 'cc', repo.cls('sippy.b2bua.CallController'))
                st.sethp((cc, 'extra_attributes'), NONE if old is None else I.mklist(st, [('T', tuple(p.val(x) for x in y)) for y in old]))
                want = (old or []) + ([] if name.lower() != 'x-foo' else GOT[:(0, 0, 2, 3)[n]])
                for s, oc in p.every(st, o, '__call__', [cc, req]):
                    ctx.count('routines followed')
                    v = s.heap.get((cc, 'extra_attributes'), NONE)
                    g = None if v == NONE else flat(p.plain(s, v))
                    ok = oc[0] == 'ret' and (g or ('L',)) == p.val(want)
                    ctx.check(ok, 'pre:HDR2Xattrs', w, 'HDR2Xattrs[%s] with %s and %s known before makes the attributes %s, should be %s' % (
                        name, '; '.join(p.N.show(p.t(t)) for t in HEADS[:n]) or 'no header', old or 'nothing', p.show(g), p.show(p.val(want))), lines(s))
    for cls, legs in (('VAL2Xattrs', 'AO'), ('VAL2XattrsA', 'A'), ('VAL2XattrsO', 'O')):
        w = must(repo, repo.cls(cls), '__call__').where()
        for has in ('', 'A', 'O', 'AO'):
            r = _made(p, p.st, cls, [p.val('{w.k}={w.v},{w.k2}={w.v2}={w.v3}')])
            if len(r) != 1 or r[0][1][0] == 'raised':
                ctx.check(False, 'pre:made', w, '%s is not made' % cls)
                continue
            st, o = r[0]
            st = st.copy()
            cc = ('O', 'cc', repo.cls('sippy.b2bua.CallController'))
            for leg in 'AO':
                st.sethp((cc, 'acct' + leg), ('O', 'account ' + leg, Ext('Account')) if leg in has else NONE)
            for s, oc in p.every(st, o, '__call__', [cc, NONE]):
                ctx.count('routines followed')
                got = sorted((e.recv[1][-1], p.show(flat(p.plain(s, e.args[0])))) for e in s.events() if e.kind == 'call' and e.name == 'addAttributes')
                want = sorted((leg, p.show(p.val([['{w.k}', '{w.v}'], ['{w.k2}', '{w.v2}={w.v3}']]))) for leg in legs if leg in has)
                ctx.check(oc[0] == 'ret' and got == want, 'pre:' + cls, w, '%s, accounts of %s there, adds %r, should be %r' % (cls, has or 'none', got, want), lines(s))
    ctx.visited(I.visited)
    ctx.floor('routines followed', 30)


def _made(p, st, cls, args):
    old, p.st = p.st, st
    try:
        return p.made(cls, args)
    finally:
        p.st = old


def ui(ctx):
    """the parameters for the UI"""
    p = Start(ctx)
    p.memo = {}
    ci = ctx.repo.cls('UIController')
    init = must(ctx.repo, ci, '__init__')
    for argv, want in ((['--ui=on'], {}), (['--ui=on', '--uiparams='], {}), (['--ui=on', '--uiparams=host={w.h}'], {"'host'": '{w.h}'}), (['--ui=on', '--uiparams=host={w.h};port={n.p}'], {"'host'": '{w.h}', "'port'": '{n.p}'}),
                       (['--ui=on', '--uiparams=ssl_context={w.c},{w.k};host={w.h}={w.i}'], {"'ssl_context'": ['{w.c}', '{w.k}'], "'host'": '{w.h}={w.i}'})):
        s, a = p.one(argv)
        if not isinstance(a, dict):
            ctx.check(False, 'ui:refused', init.where(), '%s is refused' % ' '.join(argv), lines(s))
            continue
        p.cfg.ui = ci
        o = ('O', 'ui', ci)
        for s2, oc in p.I.run(init, o, [p.conf(s)], {}, s):
            ctx.count('effects')
            got = p.plain(p.I.peek_attr(s2, o, 'kwargs'), s2) if oc[0] == 'ret' else 'not there: it fails with %s' % show(oc[1])
            ctx.check(got == typed(p, want), 'ui:parameters', init.where(), 'started with %s, the UI is run with %r, should be %r' % (p.N.show(p.t(' '.join(argv))), got, typed(p, want)), lines(s2))
            n = [e for e in s2.events()[len(s.events()):] if e.kind == 'call' and e.name == 'start']
            ctx.check(oc[0] != 'ret' or len(n) == 1, 'ui:started', init.where(), 'the UI is started %d times' % len(n), lines(s2))
        p.cfg.ui = None
    ctx.visited(p.I.visited)


RULES = {'B09': b09}
