"""I01: internal names, calls, callback registrations, own attributes and tuple
unpackings bind to what they refer to."""
import ast
import builtins
import importlib
import sys

from ..repo import ClassInfo, FuncInfo, Module, Ext, _is_main_guard, AnchorError
from ..types import Types, own_nodes, bindings, local_names, accepts, top

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__class__', 'reveal_type'}


def ext_members(name):
    """members of a class of the standard library, None when unknown"""
    mod, _, c = name.rpartition('.')
    if mod.split('.')[0] not in sys.stdlib_module_names and mod != 'builtins':
        return None
    try:
        o = importlib.import_module(mod)
        cl = getattr(o, c)
        if not isinstance(cl, type):
            return None
        s = set(dir(cl))
        # instance attributes set by the python-level constructor
        try:
            import inspect
            for b in cl.__mro__:
                if b is object:
                    continue
                t = ast.parse(inspect.cleandoc('\n' + inspect.getsource(b)))
                for n in ast.walk(t):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        s.add(n.attr)
        except Exception:
            if not mod.startswith('builtins') and cl.__module__ != 'builtins':
                return None
        return s
    except Exception:
        return None


class Bind:
    def __init__(self, ctx):
        self.ctx = ctx
        self.repo = ctx.repo
        self.t = Types(ctx.repo)
        self.members_memo = {}
        self.registrars = {}

    # --- class members
    def members(self, c):
        """all names an instance of c (or of a subclass) may have; None when
        the class is open"""
        if c.qual in self.members_memo:
            return self.members_memo[c.qual]
        s = {'__class__', '__dict__', '__doc__', '__module__', '__name__', '__qualname__'} | set(dir(object))
        fam = self.t.family(c)
        for x in fam:
            s |= set(x.methods) | set(x.setters) | set(x.attrs) | set(x.ns) | set(x.ann)
            for k in x.ns:
                s.add(k)
            if '__getattr__' in x.methods or '__getattribute__' in x.methods:
                s = None
                break
            for n in ast.walk(x.node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and len(n.value) < 40:
                    # names handed to setattr()/hasattr()/__slots__/tables
                    s.add(n.value)
            for b in x.bases:
                if isinstance(b, Ext) and b.name not in ('builtins.object', 'object'):
                    m = ext_members(b.name)
                    if m is None:
                        s = None
                        break
                    s |= m
            if s is None:
                break
            for d in x.node.decorator_list:
                pass
            for kw in x.node.keywords:
                if kw.arg == 'metaclass':
                    r = self.repo.resolve_expr(x.module, kw.value)
                    if isinstance(r, ClassInfo):
                        s |= set(r.methods) | set(r.attrs)
        if s is not None:
            for fi, recv, v in self.t.stores.get('*', ()):
                if self.t.is_self(fi, recv) and (fi.cls in fam or any(f.is_sub(fi.cls) for f in fam)):
                    s = None
                    break
        if s is not None:
            for name, sts in self.t.stores.items():
                for fi, recv, v in sts:
                    if self.t.is_self(fi, recv):
                        if fi.cls in fam or any(f.is_sub(fi.cls) for f in fam):
                            s.add(name)
                            break
                    else:
                        ty = self.t.expr_type(fi, recv)
                        if ty is None or ty in fam:
                            s.add(name)
                            break
        self.members_memo[c.qual] = s
        return s

    # --- (a) names
    def names(self, m):
        ctx = self.ctx
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))
        if star:
            return
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'exec' for n in ast.walk(m.tree)):
            return      # names may come out of generated code
        modnames = set(BUILTINS)
        for n in self.mod_nodes(m.tree):
            for t, v in bindings(n):
                modnames.add(t)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                modnames.update(n.names)
        self.scope(m, m.tree.body, [modnames], None, m.name)

    def mod_nodes(self, tree):
        todo = list(tree.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def scope(self, m, body, scopes, clsns, qual):
        """names used in a body; clsns: names of the class body being walked"""
        todo = [(n, None) for n in body]
        while todo:
            n, _ = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list + [x for x in n.args.defaults + n.args.kw_defaults if x is not None]:
                    todo.append((d, None))
                self.scope(m, n.body, scopes + [local_names(n)], None, qual + '.' + n.name)
                continue
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    todo.append((d, None))
                cn = set()
                cb = list(n.body)
                while cb:
                    x = cb.pop()
                    for t, v in bindings(x):
                        cn.add(t)
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                        continue
                    cb.extend(ast.iter_child_nodes(x))
                self.scope(m, n.body, scopes, cn | {'__qualname__', '__module__'}, qual + '.' + n.name)
                continue
            if isinstance(n, ast.Lambda):
                a = n.args
                s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
                for d in [x for x in a.defaults + a.kw_defaults if x is not None]:
                    todo.append((d, None))
                self.scope(m, [n.body], scopes + [s], clsns, qual)
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                s = set()
                for g in n.generators:
                    for t, v in bindings(g):
                        s.add(t)
                self.scope(m, list(ast.iter_child_nodes(n)), scopes + [s], clsns, qual)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.ctx.count('names')
                ok = (clsns is not None and n.id in clsns) or any(n.id in s for s in scopes)
                if not ok and self.guarded_name(m, n):
                    ok = True
                self.ctx.check(ok, 'name:%s:%s' % (qual, n.id), '%s:%d (%s)' % (m.path, n.lineno, qual),
                               'name "%s" is used but nothing defines it' % n.id)
                continue
            if isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    todo.append((n.value, None))
                todo.append((n.target, None))
                continue
            if isinstance(n, ast.arg):
                continue
            todo.extend((c, None) for c in ast.iter_child_nodes(n))

    def guarded_name(self, m, n):
        """inside try: ... except (NameError | everything)"""
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('NameError', 'Exception')):
                        for b in t.body:
                            if any(x is n for x in ast.walk(b)):
                                return True
        return False

    # --- (b) calls
    def call_shape(self, call, skip=0):
        npos = 0
        star = False
        for a in call.args[skip:]:
            if isinstance(a, ast.Starred):
                star = True
            else:
                npos += 1
        kws = [k.arg for k in call.keywords if k.arg]
        dstar = any(k.arg is None for k in call.keywords)
        return npos, kws, star, dstar

    def bound(self, fi, call, f):
        """is the first parameter bound by the call expression?"""
        if f.cls is None or f.parent is not None or f.is_static:
            return False
        if f.is_classmethod:
            return True
        fe = call
        if isinstance(fe, ast.Attribute):
            v = fe.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return True
            if self.t.expr_type(fi, v) is not None:
                return True
            r = self.repo.resolve_expr(fi.module, v) if not (isinstance(v, ast.Name) and self.t.is_local(fi, v.id)) else None
            if isinstance(r, ClassInfo):
                return False
            return True
        return False

    def overrides(self, f):
        out = [f]
        if f.cls is not None and f.parent is None and f.cls.methods.get(f.name) is f:
            for s in f.cls.all_subs():
                if f.name in s.methods and s.methods[f.name] not in out:
                    out.append(s.methods[f.name])
        return out

    def check_target(self, fi, node, target, npos, kws, star, dstar, bound, what):
        ctx = self.ctx
        if isinstance(target, ClassInfo):
            init = target.find('__init__')
            ext = [b for b in target.ext_bases() if b.name not in ('object', 'builtins.object')]
            if init is None:
                init = target.find('__new__') or None
                if init is None:
                    if not ext and (npos or kws) and not any('__sinit__' in c.methods for c in target.repo_mro()) and not target.node.keywords and not target.node.decorator_list:
                        ctx.check(False, 'call:%s:%s' % (fi.qual, target.name), fi.where(node), '%s() takes no arguments' % target.name)
                    return
                if init.name == '__new__':
                    return
            if target.node.keywords or target.node.decorator_list:
                return
            if any('__new__' in c.methods for c in target.repo_mro()):
                pass
            target, bound = init, True
        if not isinstance(target, FuncInfo):
            return
        if any(d not in ('staticmethod', 'classmethod', 'property', 'abstractmethod', 'setter', 'wraps') for d in target.decorators):
            return
        if target.is_property:
            return
        ctx.count('calls bound')
        r = accepts(target, npos, kws, star, dstar, bound)
        ctx.check(r is None, 'call:%s:%s' % (fi.qual, target.qual), fi.where(node),
                  '%s %s: %s' % (what, target.short, r))

    def calls(self, fi):
        ctx = self.ctx
        for n in own_nodes(fi.node):
            if not isinstance(n, ast.Call):
                continue
            npos, kws, star, dstar = self.call_shape(n)
            tgt = self.t.resolve_callee(fi, n.func)
            if isinstance(tgt, (FuncInfo, ClassInfo)):
                b = self.bound(fi, n.func, tgt) if isinstance(tgt, FuncInfo) else True
                for o in (self.overrides(tgt) if isinstance(tgt, FuncInfo) and b and self.virtual(n.func) else [tgt]):
                    self.check_target(fi, n, o, npos, kws, star, dstar, b, 'call of')
            elif isinstance(tgt, Ext) and tgt.name == 'functools.partial' and n.args:
                f, b = self.callback(fi, n.args[0])
                if f is not None:
                    np_, kw_, st_, ds_ = self.call_shape(n, 1)
                    # a partial call may be completed later: only excess counts
                    for o in f:
                        if isinstance(o, FuncInfo) and not st_:
                            r = accepts(o, np_, kw_, True, True, b)
                            ctx.count('calls bound')
                            ctx.check(r is None, 'partial:%s:%s' % (fi.qual, o.qual), fi.where(n), 'partial application of %s: %s' % (o.short, r))
            elif tgt is None and isinstance(n.func, ast.Attribute):
                self.unknown_receiver(fi, n, npos, kws, star, dstar)
            self.registration(fi, n, tgt)

    def virtual(self, f):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            return False
        return True

    def unknown_receiver(self, fi, n, npos, kws, star, dstar):
        """the receiver's class is unknown: every definition of that name in
        the tree rejects the call, and nothing outside has that name"""
        name = n.func.attr
        if name in self.foreign or name.startswith('__'):
            return
        root = n.func.value
        while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
            root = root.func if isinstance(root, ast.Call) else root.value
        if isinstance(root, ast.Name) and not self.t.is_local(fi, root.id):
            r = self.repo.resolve_name(fi.module, root.id)
            if isinstance(r, Ext):
                return
        c = [f for f in self.repo.by_method.get(name, []) if f.cls is not None and f.parent is None]
        if not c or name in self.t.stores:
            return
        if any(d not in ('staticmethod', 'classmethod', 'abstractmethod') for f in c for d in f.decorators):
            return
        if any(name in x.attrs or name in x.ns for x in self.repo.classes.values()):
            return
        self.ctx.count('calls with candidate targets')
        # the receiver may be an instance or a class
        rs = [accepts(f, npos, kws, star, dstar, True) if not f.is_static else accepts(f, npos, kws, star, dstar, False) for f in c]
        ru = [accepts(f, npos, kws, star, dstar, False) for f in c]
        self.ctx.check(not all(rs) or not all(ru), 'call:%s:.%s' % (fi.qual, name), fi.where(n),
                       'call of .%s(): no definition in the tree accepts it (%s)' % (name, rs[0]))

    # --- (c) callback registrations
    def callback(self, fi, e):
        """([targets], bound)"""
        if isinstance(e, ast.Lambda):
            return [e], False
        if isinstance(e, ast.Name):
            a = fi.node.args
            vs = [v for n in own_nodes(fi.node) for t, v in bindings(n) if t == e.id]
            if len(vs) == 1 and isinstance(vs[0], (ast.Attribute, ast.Lambda)) and e.id not in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                return self.callback(fi, vs[0])
        if isinstance(e, (ast.Name, ast.Attribute)):
            t = self.t.resolve_callee(fi, e)
            if isinstance(t, FuncInfo):
                b = self.bound(fi, e, t)
                return (self.overrides(t) if b else [t]), b
        return None, False

    REG = (('sippy.Time.Timeout.Timeout', 0, 0), ('sippy.Time.Timeout.TimeoutInact', 0, 0), ('sippy.Time.Timeout.TimeoutAbsMono', 0, 0),
           ('EventDispatcher2.regTimer', 0, 0), ('EventDispatcher2.callFromThread', 0, 0), ('EventDispatcher2.callFromThreadSync', 0, 0),
           ('EventDispatcher2.regSignal', 1, 0))

    def find_registrars(self):
        for q, i, extra in self.REG:
            if q.startswith('sippy.'):
                f = self.repo.func(q)
            else:
                c, m = q.split('.')
                try:
                    f = self.repo.method(c, m)
                except AnchorError:
                    continue
            a = f.node.args
            if a.vararg is None:
                continue
            npar = len(a.posonlyargs + a.args) - (1 if f.cls is not None else 0)
            self.registrars[f.name] = (f, i, npar, extra)
        # RTPproxy command with a reply callback: the definition that names
        # its callback parameter and passes *parameters on
        for f in self.repo.by_method.get('send_command', []):
            a = f.node.args
            names = [x.arg for x in a.args[1:]]
            if a.vararg is not None and len(names) == 2:
                self.registrars['send_command'] = (f, 1, 2, 1)
        if len(self.registrars) < 5:
            raise AnchorError('I01: callback registrars not found')

    def registration(self, fi, n, tgt):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
        if name not in self.registrars:
            return
        f, i, npar, extra = self.registrars[name]
        if isinstance(tgt, FuncInfo) and tgt.name != f.name:
            return
        if isinstance(n.func, ast.Name) and self.t.is_local(fi, name):
            return
        if any(isinstance(a, ast.Starred) for a in n.args[:npar]) or len(n.args) <= i:
            return
        cbs, b = self.callback(fi, n.args[i])
        if cbs is None:
            return
        npos, kws, star, dstar = self.call_shape(n, npar)
        own = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}
        kws = [k for k in kws if k not in own]
        npos += extra
        for cb in cbs:
            self.ctx.count('callback registrations')
            if isinstance(cb, ast.Lambda):
                a = cb.args
                lo = len(a.args) - len(a.defaults)
                ok = star or (npos >= lo and (npos <= len(a.args) or a.vararg is not None))
                r = None if ok else 'lambda of %d parameters called with %d' % (len(a.args), npos)
                q = 'lambda'
            else:
                r = accepts(cb, npos, kws, star, dstar, b)
                q = cb.qual
            self.ctx.check(r is None, 'callback:%s:%s' % (fi.qual, q), fi.where(n),
                           'callback %s registered through %s(): %s' % (q, name, r))

    # --- (d) attributes
    def attrs(self, fi):
        for n in own_nodes(fi.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            if self.t.is_self(fi, n.value):
                c = fi.cls
            else:
                c = self.t.expr_type(fi, n.value)
            if c is None:
                continue
            mem = self.members(c)
            if mem is None:
                continue
            self.ctx.count('attribute uses')
            nm = n.attr
            if nm.startswith('__') and not nm.endswith('__'):
                pass
            self.ctx.check(nm in mem or self.attr_guarded(fi, n), 'attr:%s:%s' % (fi.qual, nm), fi.where(n),
                           '%s.%s: no class, method or assignment in the tree defines that attribute' % (c.name, nm))
        # attributes of modules of the tree
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and not self.t.is_local(fi, n.value.id):
                r = self.repo.resolve_name(fi.module, n.value.id)
                if isinstance(r, Module):
                    ok = n.attr in r.ns or (r.name + '.' + n.attr) in self.repo.modules or n.attr.startswith('__')
                    self.ctx.check(ok, 'modattr:%s:%s.%s' % (fi.qual, r.name, n.attr), fi.where(n), 'module %s has no %s' % (r.name, n.attr))
                elif isinstance(r, ClassInfo):
                    mem = self.members(r)
                    if mem is not None:
                        ok = n.attr in mem
                        self.ctx.check(ok, 'clsattr:%s:%s.%s' % (fi.qual, r.name, n.attr), fi.where(n), 'class %s has no %s' % (r.name, n.attr))

    def attr_guarded(self, fi, n):
        for t in own_nodes(fi.node):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                    if h.type is not None and any(isinstance(x, ast.Name) and x.id == 'AttributeError' for x in names):
                        if any(x is n for b in t.body for x in ast.walk(b)):
                            return True
        return False

    # --- (e) imports and unpacking
    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split('.')[0] == 'sippy':
                guarded = any(isinstance(t, ast.Try) and any(x is n for b in t.body for x in ast.walk(b)) and
                              any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('ImportError', 'ModuleNotFoundError', 'Exception')) for h in t.handlers)
                              for t in ast.walk(m.tree))
                if guarded:
                    continue
                for a in n.names:
                    self.ctx.count('imports')
                    base = self.repo.modules.get(n.module)
                    ok = base is not None and (a.name in base.ns or a.name == '*' or n.module + '.' + a.name in self.repo.modules)
                    self.ctx.check(ok, 'import:%s:%s.%s' % (m.name, n.module, a.name), '%s:%d' % (m.path, n.lineno),
                                   'import of %s from %s: no such thing in the tree' % (a.name, n.module))

    def returns(self, f, depth=0):
        """set of tuple lengths returned, None when not all returns are tuples"""
        out = set()
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(n, ast.Return) and n.value is not None:
                v = n.value
                if isinstance(v, ast.Tuple):
                    if any(isinstance(x, ast.Starred) for x in v.elts):
                        return None
                    out.add(len(v.elts))
                elif isinstance(v, ast.Constant) and v.value is None:
                    continue
                else:
                    return None
        return out or None

    def unpack(self, fi):
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
                t = n.targets[0]
                if any(isinstance(x, ast.Starred) for x in t.elts):
                    continue
                v = n.value
                want = len(t.elts)
                if isinstance(v, (ast.Tuple, ast.List)):
                    if any(isinstance(x, ast.Starred) for x in v.elts):
                        continue
                    self.ctx.count('unpackings')
                    self.ctx.check(len(v.elts) == want, 'unpack:%s:%d' % (fi.qual, want), fi.where(n), '%d values unpacked into %d names' % (len(v.elts), want))
                    continue
                if isinstance(v, ast.Call):
                    f = self.t.resolve_callee(fi, v.func)
                    cands = [f] if isinstance(f, FuncInfo) else []
                    if f is None and isinstance(v.func, ast.Attribute) and v.func.attr not in self.foreign and v.func.attr not in self.t.stores:
                        cands = [x for x in self.repo.by_method.get(v.func.attr, []) if x.cls is not None and x.parent is None]
                    lens = [self.returns(x) for x in cands]
                    if not lens or any(l is None for l in lens):
                        continue
                    self.ctx.count('unpackings')
                    if isinstance(f, FuncInfo):
                        ok = want in lens[0]
                    else:
                        ok = any(want in l for l in lens)
                    self.ctx.check(ok, 'unpack:%s:%s' % (fi.qual, cands[0].name), fi.where(n),
                                   'the result of %s() (%s values) is unpacked into %d names' % (cands[0].name, sorted(lens[0]), want))


STD = ('threading', 'socket', 'queue', 'datetime', 'subprocess', 'logging', 'collections', 'configparser', 'io', 'random', 'hashlib', 'asyncio', 'functools', 'types', 'array', 'struct', 'string', 're', 'os', 'sys', 'select', 'ssl', 'http', 'http.client', 'xmlrpc.client', 'wave', 'cgi', 'traceback', 'time', 'signal', 'email', 'pickle', 'zlib', 'enum', 'weakref', 'ctypes', 'multiprocessing', 'concurrent.futures', 'contextlib', 'ipaddress', 'urllib.parse', 'base64', 'html', 'argparse', 'getopt', 'math', 'decimal', 'fractions', 'operator', 'itertools', 'copy', 'json', 'binascii', 'secrets', 'errno', 'fcntl', 'gc', 'heapq', 'bisect')


def foreign_names():
    import warnings
    s = set()
    for b in vars(builtins).values():
        if isinstance(b, type):
            s |= set(dir(b))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for m in STD:
            try:
                o = importlib.import_module(m)
            except Exception:
                continue
            for v in list(vars(o).values()):
                if isinstance(v, type):
                    s |= set(dir(v))
                elif callable(v) and hasattr(v, '__name__'):
                    s.add(v.__name__)
    return s


def i01(ctx):
    ctx.rule = '''Name resolution, call binding and attribute lookup over the syntax trees of the whole package:
every name read resolves to a binding of its scope chain; every call whose target resolves (directly, through
self / super / a receiver whose class all assignments agree on, or - receiver unknown - to the set of all
methods of that name) is accepted by the target's parameter list, overriding definitions included; every
callback handed to a timer, signal, thread or RTPproxy registration accepts the parameters registered with it;
every attribute read on an object of known class is defined somewhere; tuples are unpacked into as many names
as they have values.'''
    b = Bind(ctx)
    b.foreign = foreign_names()
    b.find_registrars()
    for m in ctx.repo.modules.values():
        b.names(m)
        b.imports(m)
    for fi in ctx.repo.funcs.values():
        b.calls(fi)
        b.attrs(fi)
        b.unpack(fi)
    ctx.visited(list(ctx.repo.funcs.values()))
    ctx.floor('names', 5000)
    ctx.floor('calls bound', 300)
    ctx.floor('callback registrations', 15)
    ctx.floor('attribute uses', 1500)
    ctx.assumptions.append('receivers whose class the assignments do not settle are checked only against the set of all methods of that name')
    ctx.assumptions.append('attributes of third-party packages that are not installed with the standard library are not checked')


RULES = {'I01': i01}
