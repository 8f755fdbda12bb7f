"""Light type inference over the syntax trees: which class of the tree an
expression is an instance of, when every assignment agrees.  Anything uncertain
is None (unknown)."""
import ast

from .repo import ClassInfo, FuncInfo, Module, Ext

UNK = None


class Types:
    def __init__(self, repo):
        self.repo = repo
        self.stores = {}        # attr name -> list of (fi, receiver expr, value expr | None)
        self.fns = [f for f in repo.funcs.values()]
        self._attr_memo = {}
        self._local_memo = {}
        self._busy = set()
        for fi in self.fns:
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self._st(fi, t, n.value)
                elif isinstance(n, ast.AnnAssign):
                    self._st(fi, n.target, n.value)
                elif isinstance(n, ast.AugAssign):
                    self._st(fi, n.target, None)
                elif isinstance(n, ast.NamedExpr):
                    pass
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    self._st(fi, n.target, None)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        if i.optional_vars is not None:
                            self._st(fi, i.optional_vars, None)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                    if isinstance(n.args[1], ast.Constant):
                        self.stores.setdefault(n.args[1].value, []).append((fi, n.args[0], n.args[2]))
                    else:
                        self.stores.setdefault('*', []).append((fi, n.args[0], None))

    def _st(self, fi, t, v):
        if isinstance(t, ast.Attribute):
            self.stores.setdefault(t.attr, []).append((fi, t.value, v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self._st(fi, a, b)
        elif isinstance(t, ast.Starred):
            self._st(fi, t.value, None)

    # -- families
    def family(self, c):
        """classes whose instances a method of c may be running on"""
        out = []
        for x in [c] + c.all_subs():
            for y in x.repo_mro():
                if y not in out:
                    out.append(y)
        return out

    def self_name(self, fi):
        f = fi
        while f is not None:
            if f.cls is not None and f.parent is None:
                if f.is_static:
                    return None
                a = f.node.args.posonlyargs + f.node.args.args
                return a[0].arg if a else None
            f = f.parent
        return None

    def is_self(self, fi, e):
        return isinstance(e, ast.Name) and fi.cls is not None and e.id == self.self_name(fi) and not top(fi).is_classmethod

    # -- types
    def attr_type(self, c, name):
        """class of c().name when all stores agree, else None"""
        k = (c.qual, name)
        if k in self._attr_memo:
            return self._attr_memo[k]
        if k in self._busy:
            return UNK
        self._busy.add(k)
        try:
            r = self._attr_type(c, name)
        finally:
            self._busy.discard(k)
        self._attr_memo[k] = r
        return r

    def _attr_type(self, c, name):
        fam = self.family(c)
        res = set()
        for x in fam:
            if name in x.methods or name in x.ns:
                return UNK
            if name in x.attrs:
                v = x.attrs[name]
                if not (isinstance(v, ast.Constant) and v.value is None):
                    res.add(self.expr_type_at(x.module, None, v))
        for fi, recv, v in self.stores.get(name, ()):
            if self.is_self(fi, recv):
                if fi.cls not in fam and not any(f.is_sub(fi.cls) for f in fam):
                    continue
            else:
                t = self.expr_type(fi, recv)
                if t is not UNK and t not in fam:
                    continue
                if t is UNK:
                    # an unknown receiver may be one of ours
                    if v is None:
                        return UNK
            if v is None:
                return UNK
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            res.add(self.expr_type(fi, v))
        if len(res) == 1:
            return res.pop()
        return UNK

    def local_type(self, fi, name):
        k = (fi.qual, name)
        if k in self._local_memo:
            return self._local_memo[k]
        if k in self._busy:
            return UNK
        self._busy.add(k)
        try:
            r = self._local_type(fi, name)
        finally:
            self._busy.discard(k)
        self._local_memo[k] = r
        return r

    def _local_type(self, fi, name):
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        vals = []
        for n in own_nodes(fi.node):
            for t, v in bindings(n):
                if t == name:
                    vals.append(v)
        if name in params:
            ann = [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg == name]
            if vals or not ann or ann[0] is None:
                return UNK
            r = self.repo.resolve_expr(fi.module, ann[0])
            return r if isinstance(r, ClassInfo) else UNK
        if not vals:
            if fi.parent is not None:
                return self.local_type(fi.parent, name)
            return UNK
        res = set()
        for v in vals:
            if v is None:
                return UNK
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            res.add(self.expr_type(fi, v))
        return res.pop() if len(res) == 1 else UNK

    def expr_type_at(self, module, cls, e):
        if isinstance(e, ast.Call):
            r = self.repo.resolve_expr(module, e.func, cls)
            if isinstance(r, ClassInfo):
                return r
        return UNK

    def expr_type(self, fi, e):
        if isinstance(e, ast.Name):
            if self.is_self(fi, e):
                return fi.cls
            return self.local_type(fi, e.id)
        if isinstance(e, ast.Attribute):
            if self.is_self(fi, e.value):
                return self.attr_type(fi.cls, e.attr)
            t = self.expr_type(fi, e.value)
            if t is not UNK:
                return self.attr_type(t, e.attr)
            return UNK
        if isinstance(e, ast.Call):
            f = self.resolve_callee(fi, e.func)
            if isinstance(f, ClassInfo):
                return f
            if isinstance(f, FuncInfo) and f.name == 'getCopy' and f.cls is not None and isinstance(e.func, ast.Attribute):
                return self.expr_type(fi, e.func.value)
        if isinstance(e, ast.NamedExpr):
            return self.expr_type(fi, e.value)
        return UNK

    def is_local(self, fi, name):
        f = fi
        while f is not None:
            if name in local_names(f.node):
                return True
            f = f.parent
        return False

    def resolve_callee(self, fi, f):
        """FuncInfo / ClassInfo / Ext / None; for methods the implementation in
        the receiver's own class (overriding subclasses are the caller's
        business)."""
        if isinstance(f, ast.Name):
            p = fi
            while p is not None:
                for q in self.repo.funcs.values():
                    if q.parent is p and q.name == f.id:
                        n = sum(1 for nn in own_nodes(p.node) for t, v in bindings(nn) if t == f.id)
                        return q if n == 0 else None
                p = p.parent
            if self.is_local(fi, f.id):
                return None
            return self.repo.resolve_expr(fi.module, f)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and fi.cls is not None:
                for c in fi.cls.mro()[1:]:
                    if isinstance(c, Ext):
                        return None
                    if f.attr in c.methods:
                        return c.methods[f.attr]
                return None
            t = self.expr_type(fi, f.value)
            if t is not UNK:
                m = t.find(f.attr)
                if m is None or any(self._stored_on(c, f.attr) for c in self.family(t)):
                    return None
                return m
            base = f.value
            root = base
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and not self.is_local(fi, root.id):
                return self.repo.resolve_expr(fi.module, f)
        return None

    def _stored_on(self, c, attr):
        for fi, recv, v in self.stores.get(attr, ()):
            if self.is_self(fi, recv):
                if fi.cls is c:
                    return True
            elif self.expr_type(fi, recv) in (c, UNK):
                return True
        return False


def top(fi):
    while fi.parent is not None:
        fi = fi.parent
    return fi


def own_nodes(fn):
    """nodes of a function body without nested functions / classes (lambdas and
    comprehensions included)"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(n.decorator_list)
            continue
        todo.extend(ast.iter_child_nodes(n))


def bindings(n):
    """(name, value expr | None) pairs bound by one node"""
    out = []

    def tgt(t, v):
        if isinstance(t, ast.Name):
            out.append((t.id, v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                tgt(a, b)
        elif isinstance(t, ast.Starred):
            tgt(t.value, None)
    if isinstance(n, ast.Assign):
        for t in n.targets:
            tgt(t, n.value)
    elif isinstance(n, ast.AnnAssign) and n.value is not None:
        tgt(n.target, n.value)
    elif isinstance(n, ast.AugAssign):
        tgt(n.target, None)
    elif isinstance(n, ast.NamedExpr):
        tgt(n.target, n.value)
    elif isinstance(n, (ast.For, ast.AsyncFor)):
        tgt(n.target, None)
    elif isinstance(n, ast.comprehension):
        tgt(n.target, None)
    elif isinstance(n, (ast.With, ast.AsyncWith)):
        for i in n.items:
            if i.optional_vars is not None:
                tgt(i.optional_vars, None)
    elif isinstance(n, ast.ExceptHandler) and n.name:
        out.append((n.name, None))
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
        for a in n.names:
            out.append(((a.asname or a.name).split('.')[0], None))
    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.append((n.name, None))
    elif isinstance(n, ast.MatchAs) and n.name:
        out.append((n.name, None))
    return out


_ln = {}


def local_names(fn):
    r = _ln.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    a = fn.args
    s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    s |= {x.arg for x in (a.vararg, a.kwarg) if x}
    glob = set()
    for n in own_nodes(fn):
        for t, v in bindings(n):
            s.add(t)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Lambda):
            la = n.args
            s |= {x.arg for x in la.posonlyargs + la.args + la.kwonlyargs}
            s |= {x.arg for x in (la.vararg, la.kwarg) if x}
    s -= glob
    _ln[id(fn)] = (fn, s)
    return s


def accepts(fi, npos, kws, star, dstar, bound):
    """Does the definition accept a call with npos positional arguments, the
    given keyword names, *args / **kwargs?  -> None or a reason"""
    a = fi.node.args
    pos = a.posonlyargs + a.args
    if bound:
        if not pos and a.vararg is None:
            return 'takes no self argument'
        pos = pos[1:]
    names = [x.arg for x in pos]
    ponly = len(a.posonlyargs) - (1 if bound and a.posonlyargs else 0)
    kwn = [x.arg for x in a.kwonlyargs]
    if npos > len(names) and a.vararg is None:
        return '%d positional arguments for %d parameters' % (npos, len(names))
    for k in kws:
        if k in names[:npos]:
            return 'parameter %s given twice' % k
        if a.kwarg is None and k not in names[max(ponly, 0):] and k not in kwn:
            return 'no parameter named %s' % k
    if not star and not dstar:
        req = names[:len(names) - len(a.defaults)]
        for i, n in enumerate(req):
            if i >= npos and n not in kws:
                return 'parameter %s missing' % n
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return 'keyword parameter %s missing' % x.arg
    return None
