"""E03: locks of the threads around the event loop and of the media endpoint."""
import ast

from ..scen import SInterp, ScenCfg, State, Ev, K, S, NONE, show, is_k, kval, Raise, ClassInfo, Ext, FuncInfo, AnchorError, mkexc
from ..interp import MUTATORS
from ..types import Types, own_nodes
from .loop_rules import lines

KINDS = {'threading.Lock': 'lock', 'threading.RLock': 'rlock', 'threading.Condition': 'cond', 'threading.Semaphore': 'lock'}
BLOCKING = {'join', 'sleep', 'recv', 'recvfrom', 'accept', 'connect', 'readline', 'select', 'poll', 'communicate', 'Popen', 'getaddrinfo',
            'gethostbyname', 'flock', 'sendall', 'sendto', 'callFromThreadSync', 'wait', 'system', 'writelines', 'flush'}
GROW = {'append', 'appendleft', 'insert', 'extend', 'add', 'put', 'update', 'setdefault'}
SAFE = MUTATORS | GROW | {'len', 'notify', 'notify_all', 'acquire', 'release', 'wait', 'isinstance', 'hasattr', 'callable', 'print', 'tuple', 'list',
                          'dict', 'set', 'bytes', 'str', 'pop', 'popleft', 'get', 'max', 'min', 'bool', 'copy', 'id', 'super', 'count', 'items', 'keys', 'values'}


class Locks:
    def __init__(self, repo):
        self.repo = repo
        self.types = Types(repo)
        self.decl = {}      # (owner key, name) -> kind ; owner: ClassInfo or Module
        self.queues = set()
        for m in repo.modules.values():
            if self.skip(m):
                continue
            for s in m.tree.body:
                self._scan(m, None, s, m)
        for c in repo.classes.values():
            if self.skip(c.module):
                continue
            for n, v in c.attrs.items():
                k = self.kind(c.module, v, c)
                if k:
                    self.decl[(c, n)] = k
            for f in c.methods.values():
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                k = self.kind(c.module, n.value, c)
                                if k:
                                    self.decl[(c, t.attr)] = k
                                if k is None and isinstance(n.value, ast.Call):
                                    r = repo.resolve_expr(c.module, n.value.func, c)
                                    if isinstance(r, Ext) and r.name.endswith('Queue'):
                                        self.queues.add(t.attr)

    def skip(self, m):
        return 'XMPP' in m.name

    def kind(self, m, v, c):
        if isinstance(v, ast.Call):
            r = self.repo.resolve_expr(m, v.func, c)
            if isinstance(r, Ext):
                return KINDS.get(r.name)
        return None

    def _scan(self, m, c, s, owner):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    k = self.kind(m, s.value, None)
                    if k:
                        self.decl[(owner, t.id)] = k

    def owner(self, name, cls=None, mod=None):
        """lock key for attribute `name` of an object of class cls"""
        if cls is not None:
            for c in cls.repo_mro():
                if (c, name) in self.decl:
                    return (c, name)
        if mod is not None and (mod, name) in self.decl:
            return (mod, name)
        c = [k for k in self.decl if k[1] == name]
        return c[0] if len(c) == 1 else None


def oname(k):
    if len(k) == 2 and isinstance(k[0], tuple):
        k = k[0]
    return '%s.%s' % (k[0].name.rsplit('.', 1)[-1], k[1])


class LockInterp(SInterp):
    def get_attr(self, st, o, name, node, fr):
        res = SInterp.get_attr(self, st, o, name, node, fr)
        if name in self.cfg.watch and fr is not None and isinstance(getattr(node, 'ctx', None), ast.Load):
            out = []
            for s, v in res:
                s = s.copy()
                self.emit(s, Ev('get', name, recv=o, val=v if not isinstance(v, Raise) else None, node=node, fn=fr.fi, stack=fr.stack))
                if not isinstance(v, Raise):
                    s.sethp('#seen', s.heap.get('#seen', frozenset()) | {v})
                out.append((s, v))
            return out
        return res

    def e_Name(self, e, st, fr):
        if e.id in self.cfg.glob and isinstance(e.ctx, ast.Load) and not any(e.id in (st.envs.get(x) or ()) for x in (fr.fid,) + tuple(fr.parent)):
            v = st.heap.get((('M', fr.fi.module), e.id), S('%s::%s' % (fr.fi.module.name, e.id)))
            st = st.copy()
            self.emit(st, Ev('get', e.id, recv=('M', fr.fi.module), val=v, node=e, fn=fr.fi, stack=fr.stack))
            return [(st, v)]
        return SInterp.e_Name(self, e, st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name) and any(isinstance(n, ast.Global) and t.id in n.names for n in own_nodes(fr.fi.node)):
            st = st.copy()
            self.emit(st, Ev('set', t.id, recv=('M', fr.fi.module), val=v, node=t, fn=fr.fi, stack=fr.stack))
            st.sethp((('M', fr.fi.module), t.id), v)
            return [(st, None)]
        return SInterp.assign(self, t, v, st, fr)

    def emit(self, st, ev):
        if ev.kind == 'with':
            l = self.cfg.lock_of(self, st, ev.recv, ev.fn)
            if l is not None:
                ev.extra = ('lock', l, ev.name == 'enter')
                self.cfg.take(self, st, l, ev) if ev.name == 'enter' else self.cfg.drop(self, st, l, ev)
        SInterp.emit(self, st, ev)


class LCfg(ScenCfg):
    unroll = 2
    max_depth = 12
    max_states = 20000
    watch = frozenset()
    glob = frozenset()

    def __init__(self, repo, L, mods, **kw):
        super().__init__(repo, **kw)
        self.L = L
        self.mods = mods
        self.problems = []

    def inline(self, interp, st, fi, ev):
        return fi.module in self.mods

    def type_of_path(self, v):
        if v[0] == 'S' and v[1].startswith('self.') and self.cls is not None:
            c = self.cls
            for p in v[1].split('.')[1:]:
                c = self.L.types.attr_type(c, p) if isinstance(c, ClassInfo) else None
            return c if isinstance(c, ClassInfo) else None
        return None

    def held(self, st):
        return st.heap.get('#held', ())

    def lock_of(self, interp, st, v, fn):
        if v is None:
            return None
        if v[0] == 'O' and isinstance(v[2], Ext) and v[2].name in KINDS:
            return None
        if v[0] == 'OP' and v[1] == 'attr':
            t = interp.type_of(st, v[2])
            k = self.L.owner(v[3], t if isinstance(t, ClassInfo) else None)
            return (k, v[2]) if k else None
        if v[0] != 'S':
            return None
        base, _, name = v[1].rpartition('.')
        base, name = (base, name) if '::' not in name else ('', name.split('::')[-1])
        for n in (name, name.lstrip('_')):
            if not any(k[1] in (name, '_' + name) for k in self.L.decl):
                return None
        t = interp.type_of(st, S(base)) if base else None
        if not isinstance(t, ClassInfo):
            t = None
            if base and self.repo.has_cls(base):
                t = self.repo.cls(base)
            elif base in ('self', 'cls') and fn is not None:
                t = fn.cls
        k = self.L.owner(name, t, fn.module if fn is not None else None)
        if k is None:
            return None
        return (k, ('M', k[0]) if not isinstance(k[0], ClassInfo) else S(base))

    def note(self, st, kind, ev, msg):
        st.sethp('#prob', st.heap.get('#prob', ()) + ((kind, ev.where(), msg),))

    def take(self, interp, st, l, ev):
        h = self.held(st)
        if l in h and self.L.decl[l[0]] == 'lock':
            self.note(st, 'self-deadlock', ev, '%s is taken by a thread that holds it already' % oname(l))
        for x in h:
            if x[0] != l[0]:
                self.edges.setdefault((x[0], l[0]), ev.where())
        st.sethp('#held', h + (l,))
        st.sethp('#hold', st.heap.get('#hold', 0) + 1)

    def drop(self, interp, st, l, ev):
        h = self.held(st)
        if l not in h:
            self.note(st, 'unheld', ev, '%s is released although it is not held' % oname(l))
            return
        i = len(h) - 1 - h[::-1].index(l)
        st.sethp('#held', h[:i] + h[i + 1:])

    edges = None

    def faults(self, st, ev):
        if not self.held(st) or ev.name in SAFE or (ev.name or '').lstrip('_').startswith('assert'):
            return ()
        if ev.recv is not None and ev.recv[0] in ('L', 'D', 'T', 'K'):
            return ()
        return ('builtins.OSError',)

    def on_call2(self, interp, st, ev):
        n = ev.name
        l = self.lock_of(interp, st, ev.recv, ev.fn) if ev.recv is not None else None
        if l is not None:
            if n == 'acquire':
                ev.extra = ('lock', l, True)
                interp.emit(st, ev)
                self.take(interp, st, l, ev)
                return [(st, K(True))]
            if n == 'release':
                ev.extra = ('lock', l, False)
                interp.emit(st, ev)
                self.drop(interp, st, l, ev)
                return [(st, NONE)]
            if n in ('notify', 'notify_all', 'wait', 'wait_for'):
                if l not in self.held(st):
                    self.note(st, 'unheld', ev, '%s of %s is called without holding it' % (n, oname(l)))
                ev.extra = ('cond', l, self.held(st))
                interp.emit(st, ev)
                if n.startswith('wait'):
                    if [x for x in self.held(st) if x != l]:
                        self.note(st, 'blocking', ev, 'waiting for %s while %s is held' % (oname(l), oname([x for x in self.held(st) if x != l][0])))
                    for v in st.heap.get('#seen', ()):
                        st.bump(v)
                        st.bump(('OP', 'len', v))
                    st.sethp('#waits', st.heap.get('#waits', 0) + 1)
                return [(st, NONE)]
        h = self.held(st)
        if h and ev.callee is None:
            if n in BLOCKING or (n == 'get' and ev.recv is not None and ev.recv[0] == 'S' and ev.recv[1].rsplit('.', 1)[-1] in self.L.queues):
                if not (n == 'join' and ev.recv is not None and ev.recv[0] == 'K'):
                    self.note(st, 'blocking', ev, '%s() may wait while %s is held' % (n, oname(h[-1])))
            else:
                self.unknown_call(interp, st, ev, h)
        elif h and ev.callee is not None and ev.callee.module not in self.mods:
            b = self.blocks(ev.callee)
            if b:
                self.note(st, 'blocking', ev, '%s() may wait (%s) while %s is held' % (n, b, oname(h[-1])))
        return None

    def unknown_call(self, interp, st, ev, h):
        """a method of an object whose class is not known: any method of that
        name in the same package; a callable that was handed in: any public
        method of the classes of the package that own locks"""
        n = ev.name
        if n in SAFE or ev.fn is None or ev.recv is not None and (ev.recv[0] != 'S' or '::' in ev.recv[1]):
            return
        pkg = ev.fn.module.name.rsplit('.', 1)[0]
        cand = [f for (c, _) in self.L.decl if isinstance(c, ClassInfo) and c.module.name.rsplit('.', 1)[0] == pkg
                for x in [c] + c.all_subs() for f in [x.methods.get(n)] if f is not None]
        if pkg == 'sippy':
            cand = [f for f in cand if f.module == ev.fn.module]
        handed = False
        if not cand and ev.recv is not None and ev.recv[0] == 'S' and ev.recv[1] == 'self' and ev.fn.cls is not None:
            for fi, r, v in self.L.types.stores.get(n, ()):
                if fi.cls is ev.fn.cls and isinstance(v, ast.Name) and v.id in [a.arg for a in fi.node.args.args]:
                    handed = True
            if handed:
                cand = [f for (c, _) in self.L.decl if isinstance(c, ClassInfo) and c.module.name.rsplit('.', 1)[0] == pkg and c is not ev.fn.cls
                        for f in c.methods.values() if not f.name.startswith('_')]
        for f in cand:
            for l in self.locks_in(f):
                for x in h:
                    if x[0] != l:
                        self.edges.setdefault((x[0], l), ev.where())
                    elif not handed and self.L.decl[l] == 'lock' and ev.recv == S('self'):
                        self.note(st, 'self-deadlock', ev, '%s() takes %s, which is held' % (n, oname(l)))
            b = self.blocks(f) if not handed else None
            if b:
                self.note(st, 'blocking', ev, '%s() may wait (%s) while %s is held' % (n, b, oname(h[-1])))

    def locks_in(self, f, seen=None):
        seen = seen if seen is not None else set()
        if f in seen:
            return set()
        seen.add(f)
        out = set()
        for n in own_nodes(f.node):
            e = None
            if isinstance(n, ast.With):
                e = [i.context_expr for i in n.items]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'acquire':
                e = [n.func.value]
            for x in e or ():
                a = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                l = self.L.owner(a, f.cls if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) else None, f.module) if a else None
                if l:
                    out.add(l)
            if isinstance(n, ast.Call):
                g = self.L.types.resolve_callee(f, n.func)
                if isinstance(g, FuncInfo):
                    out |= self.locks_in(g, seen)
        return out

    def blocks(self, f, seen=None, depth=0):
        seen = seen if seen is not None else set()
        if f in seen or depth > 4:
            return None
        seen.add(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                a = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                g = self.L.types.resolve_callee(f, n.func)
                if isinstance(g, FuncInfo):
                    r = self.blocks(g, seen, depth + 1)
                    if r:
                        return r
                elif a in BLOCKING and not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant)) and not isinstance(g, ClassInfo):
                    if a == 'wait' and any(l for l in [self.L.owner(n.func.value.attr, f.cls)] if l) if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) else False:
                        return a
                    return a
        return None


def ctor_only(L, c, f):
    """the method runs during construction only"""
    if f.name in ('__init__', '__sinit__'):
        return True
    call = [g for g in c.methods.values() for n in own_nodes(g.node)
            if isinstance(n, ast.Attribute) and n.attr == f.name and L.types.is_self(g, n.value)]
    return bool(call) and all(g.name in ('__init__', '__sinit__') for g in call)


def has_lock_ops(L, f):
    names = {k[1] for k in L.decl}
    for n in own_nodes(f.node):
        if isinstance(n, ast.With):
            if any((x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else '').lstrip('_') in {y.lstrip('_') for y in names}
                   for i in n.items for x in [i.context_expr]):
                return True
        if isinstance(n, ast.Attribute) and n.attr in ('acquire', 'notify', 'notify_all'):
            return True
    return False


def helper_of_holders(L, f):
    """the method takes no lock itself and is only called on self, so it is judged where it is called"""
    names = {k[1].lstrip('_') for k in L.decl}
    for n in own_nodes(f.node):
        if isinstance(n, ast.With) and any((x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else '').lstrip('_') in names
                                           for i in n.items for x in [i.context_expr]):
            return False
        if isinstance(n, ast.Attribute) and n.attr == 'acquire':
            return False
    fam = L.types.family(f.cls)
    for g in L.repo.funcs.values():
        own = g.cls in fam
        for n in own_nodes(g.node):
            if isinstance(n, ast.Attribute) and n.attr == f.name and not (own and L.types.is_self(g, n.value)):
                return False
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name
               for x in fam for g in x.methods.values() if g is not f for n in own_nodes(g.node))


def reaches_lock(L, f, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if f in seen or depth > 4:
        return False
    seen.add(f)
    if has_lock_ops(L, f):
        return True
    if f.cls is None:
        return False
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and L.types.is_self(f, n.func.value):
            g = f.cls.find(n.func.attr)
            if g is not None and g.module is f.module and reaches_lock(L, g, depth + 1, seen):
                return True
    return False


def self_called(L, c, f):
    return any(isinstance(n, ast.Attribute) and n.attr == f.name and L.types.is_self(g, n.value)
               for x in L.types.family(c) for g in x.methods.values() if g is not f for n in own_nodes(g.node))


def e03(ctx):
    ctx.rule = '''All locks and conditions (attributes and module variables created by threading) are found; every function that can run on its
own in the modules that use them is analysed from an unknown object, with a failure injected at every call made while a lock is
held: on every path, returning or raising, every lock taken is released, none is released, waited for or notified without
being held, none is taken twice; no call that can wait (joining a thread, sleeping, socket and pipe input/output, another
condition) is made while one is held; the order in which locks are nested has no cycle (calls of unknown objects count as every
method of that name in the package, callables handed in as every public method of the package's lock owners). An attribute
that is modified under a lock anywhere is modified under that lock everywhere outside construction, never from a value read
outside it; after a wait the condition is tested again; work added under a condition is announced.'''
    repo = ctx.repo
    L = Locks(repo)
    ctx.count('locks', len(L.decl))
    own = {k[0] if isinstance(k[0], ClassInfo) else k[0] for k in L.decl}
    mods = {o.module if isinstance(o, ClassInfo) else o for o in own}
    names = {k[1] for k in L.decl}
    for m in repo.modules.values():
        if not L.skip(m) and any(isinstance(n, ast.Attribute) and n.attr in ('acquire',) and isinstance(n.value, (ast.Attribute, ast.Name)) and
                                 (n.value.attr if isinstance(n.value, ast.Attribute) else n.value.id) in names for n in ast.walk(m.tree)):
            mods.add(m)
    edges = {}
    results = []
    glob = set()
    for m in mods:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                glob.update(n.names)
    attrs = set(glob)
    for c in repo.classes.values():
        if c.module in mods:
            for f in c.methods.values():
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Load)):
                        attrs.add(n.attr)
    meth = {n for c in repo.classes.values() for n in c.methods}
    attrs -= meth
    attrs -= names
    def analyse(f):
        cfg = LCfg(repo, L, mods)
        cfg.edges = edges
        cfg.cls = f.cls
        cfg.watch = frozenset(attrs)
        cfg.glob = frozenset(glob)
        I = LockInterp(repo, cfg)
        st = State()
        self_v = None
        if f.cls is not None and not f.is_static:
            self_v = S('self')
            cfg.path_types[self_v] = f.cls
            if f.is_classmethod or f.name == '__new__':
                self_v = ('C', f.cls)
        st.sethp('#faults', 1)
        a = f.node.args
        args = [S(x.arg) for x in (a.posonlyargs + a.args)[1 if self_v is not None else 0:]]
        res = I.run(f, self_v, args, None, st)
        ctx.visited(I.visited)
        ctx.count('functions analysed')
        results.append((f, res))

    todo = [f for f in repo.funcs.values() if f.module in mods and f.parent is None and not (
        f.name not in ('__del__', '__new__', '__init__') and f.cls is not None and self_called(L, f.cls, f) and (not has_lock_ops(L, f) or helper_of_holders(L, f)))]
    second = []
    for f in sorted(todo, key=lambda f: f.qual):
        if reaches_lock(L, f):
            analyse(f)
        else:
            second.append(f)
    guarded = {}
    for f, res in results:
        if f.cls is not None and ctor_only(L, f.cls, f):
            continue
        for s, oc in res:
            for e, held, a, b, grow in accesses(s, attrs):
                if a is not None:
                    for l in held:
                        if l[1] == b:
                            guarded.setdefault((a, l[0]), set()).add(e.where())
    ga = {a for a, l in guarded}
    for f in second:
        if any(isinstance(n, ast.Attribute) and n.attr in ga or isinstance(n, ast.Name) and n.id in ga & glob for n in own_nodes(f.node)) \
                and not (f.cls is not None and ctor_only(L, f.cls, f)):
            analyse(f)
    for f, res in results:
        ct = f.cls is not None and (ctor_only(L, f.cls, f) or f.name == '__del__')
        for s, oc in res:
            ctx.count('paths')
            key = f.short
            for kind, where, msg in s.heap.get('#prob', ()):
                ctx.check(False, '%s/%s' % (key, kind), where, msg, lines(s))
            h = s.heap.get('#held', ())
            ft = s.heap.get('#faulted')
            ctx.check(not h, key + '/leak', f.where(), '%s is still held when %s %s%s' % (oname(h[0]) if h else '', f.name,
                      'fails' if oc[0] == 'raise' else 'returns', ' after %s failed' % kval(ft) if ft else ''), lines(s))
            if ct:
                continue
            monitor(ctx, L, guarded, f, s, attrs, key)
    bad = cycles(set(edges))
    ctx.count('nested pairs', len(edges))
    for c in bad:
        ctx.check(False, 'order/' + '-'.join(oname(x) for x in c), edges[(c[0], c[1])], 'locks are nested in a cycle: %s' % ' -> '.join(oname(x) for x in c + [c[0]]))
    ctx.check(not bad, 'order', 'sippy/', 'lock order')
    ctx.count('guarded attributes', len(guarded))
    for (a, l) in sorted(guarded, key=repr):
        ctx.sample('%s guarded by %s' % (a, oname(l)))
    ctx.floor('locks', 6)
    ctx.floor('functions analysed', 18)
    ctx.floor('paths', 40)
    ctx.floor('guarded attributes', 6)


def accesses(st, attrs):
    """[(event, locks held, attribute modified | None, object, grows)] along a path"""
    held = []
    out = []
    for e in st.events():
        x = e.extra
        if isinstance(x, tuple) and x and x[0] == 'lock':
            if x[2]:
                held.append(x[1])
            elif x[1] in held:
                held.reverse()
                held.remove(x[1])
                held.reverse()
            out.append((e, tuple(held), None, None, False))
            continue
        if e.kind == 'set' and e.name in attrs:
            out.append((e, tuple(held), e.name, e.recv, False))
            continue
        a = None
        if e.kind in ('call', 'setitem', 'delitem') and e.callee is None and (e.kind != 'call' or e.name in SAFE & (MUTATORS | GROW)):
            r = e.recv
            if r is not None and r[0] == 'S' and '.' in r[1] and r[1].rsplit('.', 1)[1] in attrs:
                b, a = r[1].rsplit('.', 1)
                out.append((e, tuple(held), a, S(b), e.name in GROW))
                continue
        out.append((e, tuple(held), None, None, False))
    return out


def applies(L, l, a, b, f):
    """is attribute a of object b the one guarded by l?"""
    if not isinstance(l[0], ClassInfo):
        return b == ('M', l[0])
    if b[0] != 'S':
        return False
    if b[1] in ('self', 'cls'):
        return f.cls is not None and (f.cls.is_sub(l[0]) or l[0].is_sub(f.cls))
    t = L.types.attr_type(f.cls, b[1][5:]) if f.cls is not None and b[1].startswith('self.') and b[1].count('.') == 1 else None
    if isinstance(t, ClassInfo):
        return t.is_sub(l[0])
    return f.module is l[0].module


def monitor(ctx, L, guarded, f, s, attrs, key):
    acc = accesses(s, attrs)
    locks = {}
    for (a, l) in guarded:
        locks.setdefault(a, []).append(l)
    fresh = {}
    hold = 0
    waits = None
    pend = {}
    waiter = any(isinstance(n, ast.Attribute) and n.attr in ('wait', 'wait_for') for g in {e.fn for e, h, a, b, gr in acc if e.fn is not None}
                 for n in ast.walk(g.node))
    for e, h, a, b, grow in acc:
        x = e.extra
        if isinstance(x, tuple) and x and x[0] == 'lock':
            hold += 1
            if not x[2]:
                n = pend.pop(x[1], None)
                if n is not None:
                    ctx.check(False, key + '/notify', n.where(), 'work added under %s is not announced to the thread waiting for it' % oname(x[1][0]), lines(s))
            continue
        if isinstance(x, tuple) and x and x[0] == 'cond':
            if e.name.startswith('notify'):
                pend.pop(x[1], None)
                ctx.count('announcements')
            else:
                waits = x[1]
            continue
        if e.kind == 'assume':
            waits = None
        if e.kind == 'get':
            fresh[(e.name, e.recv)] = (hold, h)
            continue
        if a is None:
            continue
        for l in locks.get(a, ()):
            if not applies(L, l, a, b, f if e.fn is None or e.fn.cls is None else e.fn):
                continue
            me = (l, b)
            if e.recv is not None and e.kind == 'set' and b[0] == 'O':
                continue
            ctx.count('guarded writes')
            ctx.check(me in h, '%s/unguarded/%s' % (key, a), e.where(), '%s is modified without %s, which guards it elsewhere' % (a, oname(l)), lines(s))
            if me in h:
                r = fresh.get((a, b))
                if r is not None:
                    ctx.check(me in r[1], '%s/stale/%s' % (key, a), e.where(),
                              '%s is replaced although it was read before %s was taken' % (a, oname(l)), lines(s))
                ctx.check(waits != me, key + '/retest', e.where(), 'the condition waited for is not tested again after waiting', lines(s))
                if L.decl[l] == 'cond' and (grow or not waiter):
                    pend[me] = e


def cycles(edges):
    out = []
    nodes = {a for e in edges for a in e}
    for n in sorted(nodes, key=oname):
        st = [(n, [n])]
        seen = set()
        while st:
            x, p = st.pop()
            for a, b in edges:
                if a == x:
                    if b == n and oname(n) == min(oname(y) for y in p):
                        out.append(p)
                    elif b not in seen and b not in p:
                        seen.add(b)
                        st.append((b, p + [b]))
    return out


RULES = {'E03': e03}
