"""Source model of the analysed tree: modules, classes, functions and name
resolution, built from the syntax trees of the current working tree on every
run.  Nothing of the analysed program is imported or executed."""
import ast
import os


class AnchorError(Exception):
    """A construct the rules are anchored at is gone: the analysis cannot
    answer (neither pass nor violation)."""


class Ext:
    """Reference to something outside the analysed tree (dotted name)."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(('Ext', self.name))


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.ns = {}        # name -> raw binding
        self.is_pkg = path.endswith('__init__.py')

    def __repr__(self):
        return 'Module(%s)' % self.name


class FuncInfo:
    def __init__(self, node, module, cls, qual, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.name = getattr(node, 'name', '<lambda>')
        self.parent = parent
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name):
                self.decorators.append(d.id)
            elif isinstance(d, ast.Attribute):
                self.decorators.append(d.attr)
            elif isinstance(d, ast.Call):
                f = d.func
                self.decorators.append(getattr(f, 'id', getattr(f, 'attr', '?')))

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators or self.name == '__new__'

    @property
    def is_property(self):
        return 'property' in self.decorators

    def where(self, node=None):
        n = node if node is not None else self.node
        return '%s:%s (line %d)' % (self.module.path, self.short, getattr(n, 'lineno', 0))

    @property
    def short(self):
        return self.qual[len(self.module.name) + 1:]

    def __repr__(self):
        return 'Func(%s)' % self.qual


class ClassInfo:
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}     # class-level name -> value AST
        self.ann = set()    # annotated-only names
        self.ns = {}        # class-body imports / nested classes
        self.bases = []     # ClassInfo | Ext
        self.subclasses = []
        self._mro = None

    def __repr__(self):
        return 'Class(%s)' % self.qual

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro()) if isinstance(b, ClassInfo) else [b])
            seqs.append(list(self.bases))
            res = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in o[1:] for o in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in s if x != cand] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = res
        return self._mro

    def repo_mro(self):
        return [c for c in self.mro() if isinstance(c, ClassInfo)]

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, Ext)]

    def find(self, name):
        for c in self.repo_mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.repo_mro():
            if name in c.methods:
                return ('method', c, c.methods[name])
            if name in c.ns:
                return ('ns', c, c.ns[name])
            if name in c.attrs:
                return ('attr', c, c.attrs[name])
        return None

    def is_sub(self, other):
        return other in self.mro()

    def all_subs(self):
        out, todo = [], list(self.subclasses)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subclasses)
        return out


def _iter_body(stmts):
    """Top-level statements, looking through if/try/with/for wrappers."""
    for s in stmts:
        yield s
        if isinstance(s, ast.If):
            if not _is_main_guard(s):
                yield from _iter_body(s.body)
                yield from _iter_body(s.orelse)
        elif isinstance(s, ast.Try):
            yield from _iter_body(s.body)
            for h in s.handlers:
                yield from _iter_body(h.body)
            yield from _iter_body(s.orelse)
            yield from _iter_body(s.finalbody)
        elif isinstance(s, (ast.With, ast.For, ast.While)):
            yield from _iter_body(s.body)


def _is_main_guard(s):
    t = s.test
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'


class Repo:
    def __init__(self, root='/repo', subdirs=('sippy',)):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.by_method = {}
        for sd in subdirs:
            base = os.path.join(root, sd)
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d not in ('__pycache__', '.git'))
                for f in sorted(fn):
                    if f.endswith('.py'):
                        self._load(os.path.join(dp, f))
        for m in list(self.modules.values()):
            self._bind(m)
        for c in self.classes.values():
            self._bases(c)
        for c in self.classes.values():
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    b.subclasses.append(c)
        for f in self.funcs.values():
            self.by_method.setdefault(f.name, []).append(f)

    # -- loading
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, '.')
        if name.endswith('.__init__'):
            name = name[:-len('.__init__')]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, filename=path)
        self.modules[name] = Module(name, rel, tree, src)

    def _bind(self, m):
        for s in _iter_body(m.tree.body):
            self._bind_stmt(m, None, s)
        # functions under the __main__ guard are not part of the library, but
        # they are kept reachable for whole-file checks through m.tree

    def _imp(self, m, s):
        out = {}
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out[a.asname] = ('mod', a.name)
                else:
                    out[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        else:
            base = s.module or ''
            if s.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                if s.level > 1:
                    parts = parts[:len(parts) - (s.level - 1)]
                base = '.'.join(parts + ([base] if base else []))
            for a in s.names:
                out[a.asname or a.name] = ('from', base, a.name)
        return out

    def _bind_stmt(self, m, cls, s):
        ns = m.ns if cls is None else cls.ns
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for k, v in self._imp(m, s).items():
                # the first (preferred) alternative of a try/except import
                # pair may be a py2 name: keep a binding that resolves to the
                # standard library or to the tree
                ns[k] = v
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = (cls.qual if cls else m.name) + '.' + s.name
            fi = FuncInfo(s, m, cls, q)
            if cls is not None:
                if 'setter' in fi.decorators:
                    cls.setters[s.name] = fi
                    fi.qual += '@setter'
                    self.funcs[fi.qual] = fi
                    return
                cls.methods[s.name] = fi
            else:
                ns[s.name] = fi
            self.funcs[q] = fi
            self._nested(fi)
        elif isinstance(s, ast.ClassDef):
            q = (cls.qual if cls else m.name) + '.' + s.name
            ci = ClassInfo(s, m, q)
            self.classes[q] = ci
            ns[s.name] = ci
            for b in _iter_body(s.body):
                self._bind_stmt(m, ci, b)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self._bind_assign(m, cls, t.id, s.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            v = s.value
                            if isinstance(v, (ast.Tuple, ast.List)) and i < len(v.elts):
                                v = v.elts[i]
                            else:
                                v = None
                            self._bind_assign(m, cls, e.id, v)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            old = (cls.attrs if cls is not None else m.ns).get(s.target.id)
            if cls is None and old is not None and old[0] == 'assign':
                old = old[1]
            elif cls is None:
                old = None
            if old is not None:
                self._bind_assign(m, cls, s.target.id, ast.copy_location(ast.BinOp(old, s.op, s.value), s))
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None:
                self._bind_assign(m, cls, s.target.id, s.value)
            elif cls is not None:
                cls.ann.add(s.target.id)

    def _bind_assign(self, m, cls, name, value):
        if cls is not None:
            if name not in cls.methods:
                cls.attrs[name] = value
        else:
            m.ns[name] = ('assign', value)

    def _nested(self, fi):
        for n in ast.iter_child_nodes(fi.node):
            self._nested_walk(fi, n)

    def _nested_walk(self, fi, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = fi.qual + '.<locals>.' + n.name
            nf = FuncInfo(n, fi.module, fi.cls, q, parent=fi)
            self.funcs[q] = nf
            self._nested(nf)
            return
        if isinstance(n, ast.ClassDef):
            return
        for c in ast.iter_child_nodes(n):
            self._nested_walk(fi, c)

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b, cls=None)
            if isinstance(r, ClassInfo):
                c.bases.append(r)
            else:
                c.bases.append(r if isinstance(r, Ext) else Ext(ast.unparse(b)))

    # -- resolution
    def resolve_binding(self, b, m=None, depth=0):
        if depth > 12:
            return None
        if isinstance(b, (FuncInfo, ClassInfo)):
            return b
        if isinstance(b, tuple):
            if b[0] == 'mod':
                if b[1] in self.modules:
                    return self.modules[b[1]]
                return Ext(b[1])
            if b[0] == 'from':
                _, base, name = b
                if base in self.modules:
                    mm = self.modules[base]
                    if name in mm.ns:
                        return self.resolve_binding(mm.ns[name], mm, depth + 1)
                    if base + '.' + name in self.modules:
                        return self.modules[base + '.' + name]
                    return None
                if base + '.' + name in self.modules:
                    return self.modules[base + '.' + name]
                return Ext(base + '.' + name)
            if b[0] == 'assign':
                v = b[1]
                if isinstance(v, (ast.Name, ast.Attribute)) and m is not None:
                    return self.resolve_expr(m, v, depth=depth + 1)
                return ('value', m, v)
        return None

    def resolve_name(self, m, name, cls=None, depth=0):
        if cls is not None and name in cls.ns:
            return self.resolve_binding(cls.ns[name], m, depth)
        if name in m.ns:
            return self.resolve_binding(m.ns[name], m, depth)
        return None

    def resolve_expr(self, m, e, cls=None, depth=0):
        if depth > 12:
            return None
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id, cls, depth)
            if r is None and e.id in BUILTIN_NAMES:
                return Ext('builtins.' + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, cls, depth)
            if isinstance(b, Module):
                if e.attr in b.ns:
                    return self.resolve_binding(b.ns[e.attr], b, depth)
                if b.name + '.' + e.attr in self.modules:
                    return self.modules[b.name + '.' + e.attr]
                return None
            if isinstance(b, Ext):
                return Ext(b.name + '.' + e.attr)
            if isinstance(b, ClassInfo):
                r = b.find_attr(e.attr)
                if r is not None:
                    if r[0] == 'method':
                        return r[2]
                    if r[0] == 'ns':
                        return self.resolve_binding(r[2], b.module, depth + 1)
        return None

    # -- lookup helpers for the rules
    def cls(self, name):
        """Class by simple or qualified name; a missing class is an anchor
        failure."""
        if name in self.classes:
            return self.classes[name]
        c = [x for q, x in self.classes.items() if x.name == name]
        if len(c) == 0:
            raise AnchorError('class %s not found in the tree' % name)
        if len(c) > 1:
            c2 = [x for x in c if x.qual.split('.')[-2] == name]
            if len(c2) == 1:
                return c2[0]
            raise AnchorError('class %s is ambiguous: %s' % (name, c))
        return c[0]

    def has_cls(self, name):
        return name in self.classes or any(x.name == name for x in self.classes.values())

    def method(self, cname, mname):
        c = self.cls(cname)
        f = c.find(mname)
        if f is None:
            raise AnchorError('method %s.%s not found' % (cname, mname))
        return f

    def func(self, qual):
        if qual not in self.funcs:
            raise AnchorError('function %s not found' % qual)
        return self.funcs[qual]

    def mod(self, name):
        if name not in self.modules:
            raise AnchorError('module %s not found' % name)
        return self.modules[name]

    def subclasses_of(self, name):
        return self.cls(name).all_subs()


import builtins as _b
BUILTIN_NAMES = set(dir(_b))
