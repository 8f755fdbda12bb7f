"""Messages as structures: header lists of objects with symbolic fields,
built by the code's own constructors and compared after flattening."""
import ast
import itertools

from .scen import (SInterp, ScenCfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise, build, step, must, mkexc,
                   ClassInfo, Ext, FuncInfo, AnchorError)
from .crypto import CryptoCfg, isop

TM = ('O', 'tm', Ext('TransactionManager'))


class WCfg(CryptoCfg):
    unroll = 12
    max_depth = 30
    opaque = ('sippy.Core.', 'sippy.Time.', 'sippy.Math.', 'sippy.SipTransactionManager', 'sippy.SipConf', 'sippy.Signal', 'sippy.Network_server', 'sippy.Udp_server')

    def inline(self, interp, st, fi, ev):
        n = fi.module.name
        return n.startswith('sippy.') and not any(n.startswith(o) or n == o.rstrip('.') for o in self.opaque)

    def on_call2(self, interp, st, ev):
        r = ev.recv
        if r == TM:
            interp.emit(st, ev)
            return self.manager(interp, st, ev)
        return None

    def manager(self, interp, st, ev):
        n = st.heap.get('#tm', 0)
        st.sethp('#tm', n + 1)
        snap = tuple(deep(interp, st, a) for a in ev.args)
        kw = tuple(sorted((k, deep(interp, st, v)) for k, v in dict(ev.kw).items()))
        st.sethp('#sent', st.heap.get('#sent', ()) + ((ev.name, snap, kw, tuple(ev.args)),))
        if ev.name == 'newTransaction':
            return [(st, ('O', 'trans%d' % n, Ext('Transaction')))]
        return [(st, NONE)]


def deep(I, st, v, depth=0, seen=()):
    """a value with what it refers to, comparable"""
    if v in seen or depth > 12:
        return ('...',)
    if v[0] == 'T':
        return ('T',) + tuple(deep(I, st, x, depth + 1, seen) for x in v[1])
    if v[0] == 'L' or v[0] == 'OP' and v[1] in ('list', 'copyof', 'tuple'):
        it = I.seq_items(v, st)
        if it is None:
            return v
        return ('L',) + tuple(deep(I, st, x, depth + 1, seen + (v,)) for x in it)
    if v[0] == 'D' or v[0] == 'OP' and v[1] == 'copyof':
        m = st.heap.get((v, 'map'))
        if m is None:
            return v
        return ('D',) + tuple(sorted(((deep(I, st, a, depth + 1), deep(I, st, b, depth + 1, seen + (v,))) for a, b in m), key=repr))
    if v[0] == 'O' and isinstance(v[2], ClassInfo):
        at = {}
        for k, x in st.heap.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] == v and isinstance(k[1], str) and not k[1].startswith('#') and isinstance(x, tuple):
                at[k[1]] = deep(I, st, x, depth + 1, seen + (v,))
        for k in list(at):
            r = v[2].find_attr(k)
            if r is not None and r[0] == 'attr' and isinstance(r[2], (ast.Constant, ast.Tuple)) and deep(I, st, I.static_val(r[1].module, r[2], k, r[1], st)) == at[k]:
                del at[k]
        return ('O', v[2].name, tuple(sorted(((k, x) for k, x in at.items() if x != NONE), key=lambda p: p[0])))
    return v


def fields(d):
    return dict(d[2]) if d and d[0] == 'O' and len(d) == 3 and isinstance(d[2], tuple) else {}


def hdrs(d):
    """a flattened message -> [(name, body)]"""
    out = []
    for h in fields(d).get('headers', ('L',))[1:]:
        f = fields(h)
        out.append((kval(f['name']) if is_k(f.get('name', S('?'))) else '?', f.get('body')))
    return out


class Parts:
    """Message parts made of symbols by the constructors of the code."""
    def __init__(self, repo, cfg=None):
        self.repo = repo
        self.cfg = cfg or WCfg(repo)
        self.I = SInterp(repo, self.cfg)
        self.n = itertools.count()
        self.st = tables(repo, self.I, State(), [repo.cls('SipHeader').module])

    def sym(self, name, **f):
        f.setdefault('none', False)
        f.setdefault('truth', True)
        self.st.setfact(S(name), Fact(**f))
        return S(name)

    def new(self, cls, *args, **kw):
        self.st, o = build(self.I, self.st, self.repo.cls(cls), list(args), kw, tag='%s.%d' % (cls, next(self.n)))
        return o

    def call(self, o, name, *args, **kw):
        self.st, v = step(self.I, self.st, o[2], o, name, list(args), kw)
        return v

    def deep(self, v):
        return deep(self.I, self.st, v)

    def url(self, tag, lr=False, port=True, **kw):
        return self.new('SipURL', username=self.sym(tag + '.user'), host=self.sym(tag + '.host'), port=self.sym(tag + '.port') if port else NONE, lr=K(lr), **kw)

    def address(self, tag, **kw):
        return self.new('SipAddress', name=self.sym(tag + '.name'), url=self.url(tag, **kw))

    def addressed(self, cls, tag, **kw):
        return self.new(cls, address=self.address(tag, **kw))

    def header(self, name, body):
        return self.new('SipHeader', name=K(name), body=body)

    def via(self, tag):
        v = self.new('SipVia')
        self.st.sethp((v, 'hostname'), self.sym(tag + '.host'))
        self.st.sethp((v, 'port'), self.sym(tag + '.port'))
        self.call(v, 'setParam', K('branch'), self.sym(tag + '.branch'))
        return v


def tables(repo, I, st, modules):
    """Tables a module fills while it is imported (loops, item stores at the
    top level): their contents, found by interpreting those statements."""
    for m in modules:
        names = set()
        body = []
        for n in m.tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__':
                continue
            body.append(n)
            plain = isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets)
            for x in ast.walk(n):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    names.add(x.value.id)
                elif isinstance(x, ast.Call) and not plain and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in (
                        'update', 'append', 'extend', 'add', 'setdefault'):
                    names.add(x.func.value.id)
                elif isinstance(x, (ast.DictComp, ast.ListComp, ast.SetComp)) and plain:
                    names.update(t.id for t in n.targets)
        if not names:
            continue
        ret = ast.Return(ast.Tuple([ast.Name(n, ast.Load()) for n in sorted(names)], ast.Load()))
        ast.copy_location(ret, body[-1])
        ast.fix_missing_locations(ret)
        f = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body + [ret], decorator_list=[])
        ast.copy_location(f, body[0])
        unroll, I.cfg.unroll = I.cfg.unroll, 12
        try:
            r = [(s, oc[1]) for s, oc in I.run(FuncInfo(f, m, None, m.name + '.<module>'), None, [], None, st) if oc[0] == 'ret']
        finally:
            I.cfg.unroll = unroll
        if len(r) != 1:
            continue
        st = r[0][0].copy()
        st.trace = None
        for n, v in zip(sorted(names), r[0][1][1]):
            st.sethp((('M', m), n), v)
    return st


def text(I, st, r):
    return ('OP', 'wire', deep(I, st, r))


class TmWire(WCfg):
    """The transaction manager itself is part of the analysed code; what is
    handed to a socket is kept: (message as a structure, where to)."""
    opaque = tuple(o for o in WCfg.opaque if not o.startswith('sippy.SipTransactionManager'))
    callbacks = {'resp_cb': [('ret', NONE)], 'req_cb': [('ret', NONE)]}

    @staticmethod
    def whole(ci):
        return isinstance(ci, ClassInfo) and ci.find('getHFBody') is not None

    def inline(self, interp, st, fi, ev):
        if fi.name in ('localStr', '__str__') and self.whole(fi.cls):
            return False
        return super().inline(interp, st, fi, ev)

    def on_call2(self, interp, st, ev):
        r = ev.recv
        if ev.name in ('localStr', '__str__') and r is not None and r[0] == 'O' and self.whole(r[2]):
            v = text(interp, st, r)
            st.setfact(v, Fact(none=False, truth=True))
            return [(st, v)]
        if ev.name in ('str', 'builtins.str') and ev.args and ev.args[0][0] == 'O' and self.whole(ev.args[0][2]):
            return [(st, text(interp, st, ev.args[0]))]
        if ev.name == 'encode' and r is not None and isop(r, 'wire'):
            return [(st, r)]
        if ev.name == 'send_to' and ev.callee is None:
            interp.emit(st, ev)
            st.sethp('#out', st.heap.get('#out', ()) + ((ev.args[0], ev.args[1]),))
            return [(st, NONE)]
        return None


def parts_of(I, st, v, seen=None):
    """what can be changed through a value: lists, tables, objects"""
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or not v or v in seen:
        return seen
    if v[0] == 'T':
        for x in v[1]:
            parts_of(I, st, x, seen)
    elif v[0] == 'L':
        seen.add(v)
        for x in I.seq_items(v, st) or ():
            parts_of(I, st, x, seen)
    elif v[0] == 'D':
        seen.add(v)
        for a, b in st.heap.get((v, 'map')) or ():
            parts_of(I, st, b, seen)
    elif v[0] == 'O' and isinstance(v[2], ClassInfo):
        seen.add(v)
        for k, x in st.heap.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] == v and isinstance(k[1], str) and not k[1].startswith('#') and isinstance(x, tuple):
                parts_of(I, st, x, seen)
    return seen
