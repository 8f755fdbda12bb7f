"""Path-sensitive, interprocedural abstract interpretation of the source.

The abstract domain is small and solver-free: access paths, nullness,
constants, class types, constant intervals for numbers, the identity of
allocation sites, and the sequence of effects (calls, attribute writes,
raises) a path performs.  Conditions the domain cannot decide are explored
both ways and remembered as an opaque predicate, so that the same condition
tested twice on one path is answered consistently.  Loops over unknown
collections are analysed for 0, 1 and 2 iterations."""
import ast
from .repo import FuncInfo, ClassInfo, Ext, Module, AnchorError


class AnalysisLimit(Exception):
    pass


# ---------------------------------------------------------------- values
def K(v):
    return ('K', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def S(path):
    return ('S', path)


def is_k(v):
    return v[0] == 'K'


def kval(v):
    return v[2]


def is_none(v):
    return v[0] == 'K' and v[2] is None


class Raise:
    __slots__ = ('exc',)

    def __init__(self, exc):
        self.exc = exc


def show(v, depth=0):
    if v is None:
        return '?'
    t = v[0]
    if depth > 4:
        return '..'
    if t == 'K':
        return repr(v[2])
    if t == 'S':
        return v[1]
    if t == 'O':
        return '<%s#%s>' % (v[2].name if isinstance(v[2], ClassInfo) else v[2], v[1])
    if t == 'C':
        return v[1].name
    if t == 'F':
        return v[1].short
    if t == 'B':
        return '%s.%s' % (show(v[1], depth + 1), v[2].name)
    if t == 'T':
        return '(%s)' % ', '.join(show(x, depth + 1) for x in v[1])
    if t == 'OP':
        return '%s(%s)' % (v[1], ', '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v[2:]))
    if t == 'P':
        return 'partial(%s)' % show(v[1], depth + 1)
    if t == 'X':
        return v[1]
    return '%s:%s' % (t, v[1] if len(v) > 1 else '')


# ---------------------------------------------------------------- facts
class Fact:
    __slots__ = ('none', 'truth', 'eq', 'ne', 'lo', 'hi', 'inst', 'ninst')

    def __init__(self, none=None, truth=None, eq=None, ne=frozenset(), lo=None,
                 hi=None, inst=frozenset(), ninst=frozenset()):
        self.none = none
        self.truth = truth
        self.eq = eq
        self.ne = ne
        self.lo = lo
        self.hi = hi
        self.inst = inst
        self.ninst = ninst

    def but(self, **kw):
        d = {k: getattr(self, k) for k in Fact.__slots__}
        d.update(kw)
        return Fact(**d)

    def key(self):
        return (self.none, self.truth, self.eq, self.ne, self.lo, self.hi, self.inst, self.ninst)

    def __eq__(self, o):
        return isinstance(o, Fact) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'Fact(%s)' % ', '.join('%s=%r' % (k, getattr(self, k)) for k in Fact.__slots__
                                      if getattr(self, k) not in (None, frozenset()))


NOFACT = Fact()


# ---------------------------------------------------------------- events
class Ev:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'val', 'callee', 'node',
                 'fn', 'st', 'stack', 'extra')

    def __init__(self, kind, name=None, recv=None, args=(), kw=(), val=None,
                 callee=None, node=None, fn=None, st=None, stack=(), extra=None):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = args
        self.kw = kw
        self.val = val
        self.callee = callee
        self.node = node
        self.fn = fn
        self.st = st
        self.stack = stack
        self.extra = extra

    def key(self):
        return (self.kind, self.name, self.recv, self.args, self.kw, self.val,
                id(self.node))

    def arg(self, i, kwname=None, default=None):
        if kwname is not None:
            for k, v in self.kw:
                if k == kwname:
                    return v
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def where(self):
        if self.fn is None:
            return '?'
        return '%s:%s (line %d)' % (self.fn.module.path, self.fn.short, self.line)

    def __repr__(self):
        if self.kind == 'call':
            return '%s.%s(%s)@%d' % (show(self.recv) if self.recv else '', self.name,
                                     ', '.join(show(a) for a in self.args), self.line)
        if self.kind == 'set':
            return '%s.%s=%s@%d' % (show(self.recv), self.name, show(self.val), self.line)
        if self.kind == 'assume':
            return 'if[%s is %s]@%d' % (show(self.recv) if self.recv else '', self.extra, self.line)
        return '%s:%s %s@%d' % (self.kind, self.name, show(self.val) if self.val else '', self.line)


class State:
    __slots__ = ('envs', 'heap', 'facts', 'trace', 'ntrace', 'cnt', 'thash')

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.facts = {}
        self.trace = None
        self.ntrace = 0
        self.cnt = 0
        self.thash = 0

    def copy(self):
        n = State.__new__(State)
        n.envs = self.envs
        n.heap = self.heap
        n.facts = self.facts
        n.trace = self.trace
        n.ntrace = self.ntrace
        n.cnt = self.cnt
        n.thash = self.thash
        return n

    # all mutators work in place on this State object but copy the dicts
    def setvar(self, fid, name, val):
        e = dict(self.envs)
        f = dict(e.get(fid, ()))
        f[name] = val
        e[fid] = f
        self.envs = e

    def delvar(self, fid, name):
        e = dict(self.envs)
        f = dict(e.get(fid, ()))
        f.pop(name, None)
        e[fid] = f
        self.envs = e

    def sethp(self, key, val):
        h = dict(self.heap)
        h[key] = val
        self.heap = h

    def delhp(self, key):
        if key in self.heap:
            h = dict(self.heap)
            del h[key]
            self.heap = h

    def fact(self, v):
        return self.facts.get(self.fkey(v), NOFACT)

    def fkey(self, v):
        ver = self.heap.get((v, '#ver'))
        return v if ver is None else (v, ver)

    def setfact(self, v, f):
        d = dict(self.facts)
        d[self.fkey(v)] = f
        self.facts = d

    def ver(self, v):
        return self.heap.get((v, '#ver'), 0)

    def bump(self, v):
        self.sethp((v, '#ver'), self.ver(v) + 1)

    def emit(self, ev, relevant=True):
        self.trace = (self.trace, ev)
        if relevant:
            self.ntrace += 1
            self.thash = hash((self.thash, ev.key()))

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def attr(self, obj, name, default=None):
        return self.heap.get((obj, name), default)

    def key(self):
        return (self.thash, self.ntrace, frozenset(self.heap.items()),
                frozenset(self.facts.items()),
                tuple((k, frozenset(v.items())) for k, v in sorted(self.envs.items())))


MUTATORS = frozenset(('append', 'pop', 'insert', 'remove', 'clear', 'extend', 'popleft',
                      'appendleft', 'update', 'add', 'discard', 'popitem', 'setdefault',
                      'sort', 'reverse', 'put', 'get_nowait'))


class Cfg:
    """Per-rule policy."""
    unroll = 2
    max_value = 60
    none_attr = True        # an attribute of None raises
    max_depth = 14
    max_recursion = 2
    max_states = 60000
    implicit = 'try'        # 'none' | 'try' | 'all'
    record_assume = True
    sort_keeps = False      # sorting a list leaves the modelled order as it is
    drop_cut = False        # discard paths that go round a loop more often than unrolled

    def __init__(self, repo, **kw):
        self.repo = repo
        self.attr_types = {}
        self.path_types = {}
        for k, v in kw.items():
            setattr(self, k, v)

    def inline(self, interp, st, fi, ev):
        return False

    def may_raise(self, interp, st, ev):
        return True

    # joining of states that agree on everything a rule looks at
    join = False

    def relevant(self, ev):
        """Events that distinguish paths (all, unless joining)."""
        return True

    def rel_heap(self, key):
        return True

    def rel_fact(self, v):
        return True

    def on_call(self, interp, st, ev):
        """Return a list of (state, value) to override, or None."""
        return None

    def record(self, ev):
        return True

    def type_of_path(self, v):
        return None

    def item(self, interp, st, o, k, node):
        """Value of o[k] (or a Raise) if the rule knows it."""
        return None

    def member(self, interp, st, a, b):
        """Known outcome of `a in b`, or None."""
        return None

    def post_call(self, interp, st, ev):
        pass

    # simp(st, v): a simpler form of the operation v, or None
    simp = None


class Frame:
    __slots__ = ('fid', 'fi', 'cls', 'self_v', 'parent', 'depth', 'trydepth', 'stack')

    def __init__(self, fid, fi, cls, self_v, parent, depth, trydepth, stack):
        self.fid = fid
        self.fi = fi
        self.cls = cls
        self.self_v = self_v
        self.parent = parent        # lexically enclosing frame id chain (tuple)
        self.depth = depth
        self.trydepth = trydepth
        self.stack = stack


def class_assigned_names(repo):
    """attributes given to classes themselves outside their bodies"""
    if hasattr(repo, '_class_assigned'):
        return repo._class_assigned
    out = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ''
                if nm == 'cls' or nm == '__class__' or nm.lstrip('_')[:1].isupper() or isinstance(b, ast.Call):
                    out.add(n.attr)
    repo._class_assigned = out
    return out


def assigned_attr_names(repo):
    """Names ever written as an attribute of some object (x.name = ...)."""
    if hasattr(repo, '_assigned_attrs'):
        return repo._assigned_attrs
    out = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
    repo._assigned_attrs = out
    return out


class _NoFold(Exception):
    pass


_FOLDF = {'range': range, 'dict': dict, 'tuple': tuple, 'list': list, 'chr': chr, 'ord': ord, 'str': str, 'len': len, 'sorted': sorted, 'zip': zip, 'enumerate': enumerate,
          'int': int, 'bytes': bytes, 'hex': hex, 'min': min, 'max': max, 'sum': sum, 'reversed': reversed, 'set': set, 'frozenset': frozenset}
_FOLDM = {str: ('upper', 'lower', 'join', 'format', 'split', 'strip', 'encode', 'replace'), bytes: ('decode',), dict: ('items', 'keys', 'values')}


def folded(node, env, repo, m):
    """value of an expression of literals only -> Python value | _NoFold"""
    def f(n, e=env):
        return folded(n, e, repo, m)

    def seq(n):
        v = f(n)
        if isinstance(v, (range, tuple, list, str, bytes, set, frozenset, dict)) and len(v) > 600:
            raise _NoFold
        if not isinstance(v, (range, tuple, list, str, bytes, zip, enumerate, set, frozenset, reversed, type({}.items()), type({}.keys()), type({}.values()), dict)):
            raise _NoFold
        return v

    def elts(l):
        out = []
        for x in l:
            if isinstance(x, ast.Starred):
                out.extend(seq(x.value))
            else:
                out.append(f(x))
        return out

    def bind(t, v, e):
        if isinstance(t, ast.Name):
            return dict(e, **{t.id: v})
        if isinstance(t, ast.Tuple):
            v = list(v)
            if len(v) != len(t.elts):
                raise _NoFold
            for a, b in zip(t.elts, v):
                e = bind(a, b, e)
            return e
        raise _NoFold

    def envs(gens, e):
        if not gens:
            yield e
            return
        g = gens[0]
        it = folded(g.iter, e, repo, m)
        for i, v in enumerate(it):
            if i > 600:
                raise _NoFold
            e2 = bind(g.target, v, e)
            if all(folded(c, e2, repo, m) for c in g.ifs):
                yield from envs(gens[1:], e2)

    try:
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Name):
            if node.id in env:
                return env[node.id]
            raise _NoFold
        if isinstance(node, ast.Tuple):
            return tuple(elts(node.elts))
        if isinstance(node, ast.List):
            return elts(node.elts)
        if isinstance(node, ast.Set):
            return set(elts(node.elts))
        if isinstance(node, ast.Dict):
            d = {}
            for k, v in zip(node.keys, node.values):
                d.update(f(v) if k is None else {f(k): f(v)})
            return d
        if isinstance(node, (ast.ListComp, ast.GeneratorExp)):
            return [f(node.elt, e) for e in envs(node.generators, env)]
        if isinstance(node, ast.SetComp):
            return {f(node.elt, e) for e in envs(node.generators, env)}
        if isinstance(node, ast.DictComp):
            return {f(node.key, e): f(node.value, e) for e in envs(node.generators, env)}
        if isinstance(node, ast.BinOp):
            a, b = f(node.left), f(node.right)
            if isinstance(node.op, ast.Pow) or isinstance(node.op, ast.Mult) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))) and max(
                    x for x in (a, b) if isinstance(x, int)) > 1000:
                raise _NoFold
            return _binop(type(node.op).__name__.lower(), a, b)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = f(node.left), f(node.comparators[0])
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.Gt: lambda: a > b, ast.LtE: lambda: a <= b, ast.GtE: lambda: a >= b,
                    ast.In: lambda: a in b, ast.NotIn: lambda: a not in b}[type(node.ops[0])]()
        if isinstance(node, ast.IfExp):
            return f(node.body) if f(node.test) else f(node.orelse)
        if isinstance(node, ast.JoinedStr):
            out = ''
            for x in node.values:
                if isinstance(x, ast.Constant):
                    out += x.value
                elif x.format_spec is None and x.conversion == -1:
                    out += str(f(x.value))
                elif x.conversion == -1:
                    out += format(f(x.value), f(x.format_spec))
                else:
                    raise _NoFold
            return out
        if isinstance(node, ast.Call) and not node.keywords:
            if isinstance(node.func, ast.Name) and node.func.id in _FOLDF and node.func.id not in env and repo.resolve_name(m, node.func.id) is None:
                return _FOLDF[node.func.id](*elts(node.args))
            if isinstance(node.func, ast.Attribute):
                if isinstance(node.func.value, ast.Name) and node.func.value.id == 'str' and node.func.attr == 'maketrans' and len(node.args) == 1:
                    d = f(node.args[0])
                    if isinstance(d, dict):
                        return {ord(k) if isinstance(k, str) else k: v for k, v in d.items()}
                o = f(node.func.value)
                if node.func.attr in _FOLDM.get(type(o), ()):
                    return getattr(o, node.func.attr)(*elts(node.args))
    except _NoFold:
        raise
    except Exception:
        raise _NoFold
    raise _NoFold


class Interp:
    def __init__(self, repo, cfg):
        self.static_busy = set()
        self.repo = repo
        self.cfg = cfg
        self.ext_consts = getattr(cfg, 'ext_consts', {})
        self.nstates = 0
        self.assigned = assigned_attr_names(repo)
        self.class_assigned = class_assigned_names(repo)
        self.visited = set()
        self.cuts = 0
        self.nbranch = 0
        self.njoin = 0

    # ------------------------------------------------------------ entry
    def run(self, fi, self_v=None, args=(), kw=None, st=None):
        """Analyse a function body; returns [(state, outcome)] with outcome
        ('ret', value) or ('raise', exc)."""
        st = st.copy() if st is not None else State()
        self.nstates = 0
        ev = Ev('call', fi.name, recv=self_v, args=tuple(args), kw=tuple((kw or {}).items()),
                callee=fi, node=fi.node, fn=fi)
        return self._enter(st, fi, self_v, list(args), dict(kw or {}), ev, None)

    def site(self, st, node):
        ln = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        n = st.heap.get(('#alloc', ln), 0)
        st.sethp(('#alloc', ln), n + 1)
        return '%d:%d%s' % (ln[0], ln[1], '#%d' % n if n else '')

    def new_obj(self, st, cls, node=None):
        return ('O', self.site(st, node), cls)

    # ------------------------------------------------------------ function entry
    def _enter(self, st, fi, self_v, args, kw, ev, caller, closure=()):
        node = fi.node if isinstance(fi, FuncInfo) else fi
        self.visited.add(fi)
        depth = caller.depth + 1 if caller else 0
        st.cnt += 1
        fid = st.cnt
        stack = (caller.stack if caller else ()) + ((fi, getattr(ev.node, 'lineno', 0)),)
        fr = Frame(fid, fi, fi.cls, self_v, closure, depth,
                   caller.trydepth if caller else 0, stack)
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if self_v is not None and not fi.is_static and (fi.cls is not None) and fi.parent is None:
            pos = [self_v] + pos
        dfl = a.defaults
        nd = len(params) - len(dfl)
        for i, p in enumerate(params):
            if i < len(pos):
                env[p] = pos[i]
            elif p in kw:
                env[p] = kw.pop(p)
            elif i >= nd:
                env[p] = self._const_default(fi, dfl[i - nd], st)
            elif '**' in kw or '*' in kw:
                env[p] = S('%s:%s' % (fi.short, p))
            else:
                env[p] = S('missing:%s:%s' % (fi.short, p))
        rest = pos[len(params):]
        if a.vararg is not None:
            env[a.vararg.arg] = ('T', tuple(rest))
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif a.kw_defaults[i] is not None:
                env[p.arg] = self._const_default(fi, a.kw_defaults[i], st)
        if a.kwarg is not None:
            st.cnt += 1
            d = ('D', 'kw%d' % st.cnt)
            st.sethp((d, 'map'), tuple((K(k), v) for k, v in kw.items() if k not in ('*', '**')))
            env[a.kwarg.arg] = d
        st.envs = {**st.envs, fid: env}
        out = []
        if isinstance(node, ast.Lambda):
            for s2, v in self.ev(node.body, st, fr):
                out.append((s2, ('raise', v.exc) if isinstance(v, Raise) else ('ret', v)))
            return out
        for s2, oc in self.block(node.body, st, fr):
            if oc is None:
                oc = ('ret', NONE)
            elif oc[0] in ('break', 'cont'):
                oc = ('ret', NONE)
            if not self._captured(s2, fid):
                s2 = s2.copy()
                e = dict(s2.envs)
                e.pop(fid, None)
                s2.envs = e
            out.append((s2, oc))
        return self.dedupe(out)

    def _captured(self, st, fid):
        # keep frames of functions that define nested functions/lambdas
        return st.heap.get(('#cap', fid)) is not None

    def _const_default(self, fi, node, st):
        for s2, v in self.ev(node, st, Frame(0, fi, fi.cls, None, (), 0, 0, ())):
            return v
        return S('default')

    def dedupe(self, res):
        if len(res) < 2:
            return res
        if self.cfg.join:
            return self.join(res)
        seen = {}
        for st, oc in res:
            k = (st.key(), oc)
            try:
                if k not in seen:
                    seen[k] = (st, oc)
            except TypeError:
                seen[id(st)] = (st, oc)
        return list(seen.values())

    def join(self, res):
        cfg = self.cfg
        groups = {}
        order = []
        for st, oc in res:
            h = tuple(sorted(((repr(k), v) for k, v in st.heap.items()
                              if cfg.rel_heap(k)), key=lambda x: x[0]))
            f = frozenset((k, v) for k, v in st.facts.items() if cfg.rel_fact(k))
            e = frozenset((fid, n, v[1][0]) for fid, env in st.envs.items() for n, v in env.items()
                          if isinstance(v, tuple) and v and v[0] == 'T' and v[1] and v[1][0][0] == 'C')
            k = (st.thash, st.ntrace, h, f, oc, e)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(st)
        out = []
        for k in order:
            g = groups[k]
            out.append((g[0] if len(g) == 1 else self.join_states(g), k[4]))
        return out

    def join_states(self, g):
        n = g[0].copy()
        a = g[0]
        self.njoin += 1
        tag = '#%d' % self.njoin
        if all(x.heap is a.heap or x.heap == a.heap for x in g[1:]):
            pass
        else:
            h = {}
            keys = set()
            for x in g:
                keys.update(x.heap)
            for k in keys:
                vs = [x.heap.get(k) for x in g]
                v0 = vs[0]
                if all(v == v0 for v in vs[1:]):
                    h[k] = v0
                elif isinstance(k, tuple) and k and (k[0] in ('#nres', '#alloc') or (len(k) == 2 and k[1] == '#ver')):
                    h[k] = max((v for v in vs if isinstance(v, int)), default=0) + (1 if k[-1] == '#ver' else 0)
                elif len(k) == 2 and k[1] in ('items', 'map'):
                    h[k] = None
                elif any(v is None for v in vs):
                    # unwritten on some path: an access path of its own
                    h[k] = S('join:%s%s' % (self._kname(k), tag))
                else:
                    h[k] = S('join:%s%s' % (self._kname(k), tag))
            n.heap = h
        if not all(x.facts is a.facts or x.facts == a.facts for x in g[1:]):
            f = {}
            for k, v in a.facts.items():
                if all(x.facts.get(k) == v for x in g[1:]):
                    f[k] = v
                else:
                    o = [x.facts.get(k) for x in g]
                    if all(z is not None for z in o):
                        w = _weaken(o)
                        if w is not None:
                            f[k] = w
            n.facts = f
        if not all(x.envs is a.envs or x.envs == a.envs for x in g[1:]):
            e = {}
            for fid, env in a.envs.items():
                d = {}
                for name, v in env.items():
                    vs = [x.envs.get(fid, {}).get(name) for x in g]
                    if all(z == v for z in vs):
                        d[name] = v
                    else:
                        d[name] = S('join:var:%s%s' % (name, tag))
                e[fid] = d
            for x in g[1:]:
                for fid, env in x.envs.items():
                    d = e.setdefault(fid, {})
                    for name, v in env.items():
                        if name not in d:
                            d[name] = S('join:var:%s%s' % (name, tag)) if fid in a.envs else v
            n.envs = e
        n.cnt = max(x.cnt for x in g)
        return n

    @staticmethod
    def _kname(k):
        if len(k) == 2 and isinstance(k[1], str):
            return '%s.%s' % (show(k[0]) if isinstance(k[0], tuple) else k[0], k[1])
        return repr(k)[:120]

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for c in cur:
                for s2, oc in self.stmt(s, c, fr):
                    if oc is None:
                        nxt.append((s2, None))
                    else:
                        out.append((s2, oc))
            if len(nxt) > 1:
                nxt = self.dedupe(nxt)
            cur = [x[0] for x in nxt]
            self.nstates += len(cur)
            if self.nstates > self.cfg.max_states:
                raise AnalysisLimit('state budget exceeded in %s' % (fr.fi.qual,))
            if not cur:
                break
        out.extend((c, None) for c in cur)
        return out

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [(st, None)]
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return [(st, None)]

    def s_Import(self, s, st, fr):
        st = st.copy()
        m = fr.fi.module
        for k, b in self.repo._imp(m, s).items():
            st.setvar(fr.fid, k, self._bindval(self.repo.resolve_binding(b, m), k, fr, st))
        return [(st, None)]

    s_ImportFrom = s_Import

    def s_Global(self, s, st, fr):
        return [(st, None)]

    def s_FunctionDef(self, s, st, fr):
        st = st.copy()
        q = fr.fi.qual + '.<locals>.' + s.name
        fi = self.repo.funcs.get(q)
        if fi is None:
            fi = FuncInfo(s, fr.fi.module, fr.cls, q, parent=fr.fi)
        st.sethp(('#cap', fr.fid), TRUE)
        st.setvar(fr.fid, s.name, ('CL', fi, (fr.fid,) + tuple(fr.parent)))
        return [(st, None)]

    def s_Expr(self, s, st, fr):
        return [(s2, ('raise', v.exc) if isinstance(v, Raise) else None)
                for s2, v in self.ev(s.value, st, fr)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ('ret', NONE))]
        return [(s2, ('raise', v.exc) if isinstance(v, Raise) else ('ret', v))
                for s2, v in self.ev(s.value, st, fr)]

    def s_Assign(self, s, st, fr):
        out = []
        for s2, v in self.ev(s.value, st, fr):
            if isinstance(v, Raise):
                out.append((s2, ('raise', v.exc)))
                continue
            cur = [(s2, None)]
            for t in s.targets:
                nxt = []
                for c, oc in cur:
                    if oc is not None:
                        nxt.append((c, oc))
                    else:
                        nxt.extend(self.assign(t, v, c, fr))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None)]
        out = []
        for s2, v in self.ev(s.value, st, fr):
            if isinstance(v, Raise):
                out.append((s2, ('raise', v.exc)))
            else:
                out.extend(self.assign(s.target, v, s2, fr))
        return out

    def s_AugAssign(self, s, st, fr):
        load = ast.copy_location(_as_load(s.target), s.target)
        if isinstance(s.op, ast.Add) and isinstance(s.target, (ast.Name, ast.Attribute)):
            # list += items extends the list itself
            out = []
            for s2, vs in self.evlist([load, s.value], st, fr):
                if isinstance(vs, Raise):
                    out.append((s2, ('raise', vs.exc)))
                elif vs[0][0] == 'L':
                    s2 = s2.copy()
                    for s3, v in self.model_method(s2, vs[0], 'extend', [vs[1]], {}, s, fr) or [(s2, NONE)]:
                        out.append((s3, ('raise', v.exc) if isinstance(v, Raise) else None))
                elif vs[0][0] == 'O' and isinstance(vs[0][2], ClassInfo) and vs[0][2].find('__iadd__') is not None:
                    fi = vs[0][2].find('__iadd__')
                    for s3, v in self.call(s2.copy(), ('B', vs[0], fi), vs[0], '__iadd__', [vs[1]], {}, s, fr):
                        out.extend([(s3, ('raise', v.exc))] if isinstance(v, Raise) else self.assign(s.target, v, s3, fr))
                else:
                    out = None
                    break
            if out is not None:
                return out
        be = ast.copy_location(ast.BinOp(load, s.op, s.value), s)
        out = []
        for s2, v in self.ev(be, st, fr):
            if isinstance(v, Raise):
                out.append((s2, ('raise', v.exc)))
            else:
                out.extend(self.assign(s.target, v, s2, fr))
        return out

    def assign(self, t, v, st, fr):
        """-> [(st, outcome)]"""
        if isinstance(t, ast.Name):
            st = st.copy()
            st.setvar(fr.fid, t.id, v)
            return [(st, None)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.seq_items(v, st)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if vals is not None and star:
                i = star[0]
                k = n - 1 - i
                vals = list(vals[:i]) + [('T', tuple(vals[i:len(vals) - k]))] + list(vals[len(vals) - k:])
            if vals is not None and len(vals) != n:
                if v[0] in ('T', 'L') and getattr(self.cfg, 'strict_unpack', True):
                    return [(st, ('raise', ('O', 'ValueError@%d' % getattr(t, 'lineno', 0), Ext('builtins.ValueError'))))]
                vals = None
            cur = [(st, None)]
            for i, e in enumerate(t.elts):
                ev = vals[i] if vals is not None else ('OP', 'idx', v, K(i))
                nxt = []
                for c, oc in cur:
                    if oc is None:
                        nxt.extend(self.assign(e, ev, c, fr))
                    else:
                        nxt.append((c, oc))
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s2, o in self.ev(t.value, st, fr):
                if isinstance(o, Raise):
                    out.append((s2, ('raise', o.exc)))
                    continue
                s2 = s2.copy()
                if self.cfg.none_attr and is_none(o):
                    out.append((s2, ('raise', ('O', 'AttributeError@%d' % t.lineno, Ext('builtins.AttributeError')))))
                    continue
                old = self.peek_attr(s2, o, t.attr)
                cls = self.type_of(s2, o)
                setter = None
                if isinstance(cls, ClassInfo):
                    for c in cls.repo_mro():
                        if t.attr in c.setters:
                            setter = c.setters[t.attr]
                            break
                self.emit(s2, Ev('set', t.attr, recv=o, val=v, node=t, fn=fr.fi,
                                 extra=old, stack=fr.stack))
                if setter is not None:
                    ev = Ev('call', t.attr, recv=o, args=(v,), callee=setter, node=t, fn=fr.fi)
                    if self.cfg.inline(self, s2, setter, ev) and fr.depth < self.cfg.max_depth:
                        for s3, oc in self._enter(s2, setter, o, [v], {}, ev, fr):
                            out.append((s3, None if oc[0] == 'ret' else oc))
                        continue
                s2.sethp((o, t.attr), v)
                out.append((s2, None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s2, vs in self.evlist([t.value, t.slice], st, fr):
                if isinstance(vs, Raise):
                    out.append((s2, ('raise', vs.exc)))
                    continue
                o, k = vs
                s2 = s2.copy()
                self.emit(s2, Ev('setitem', None, recv=o, args=(k,), val=v, node=t, fn=fr.fi, stack=fr.stack))
                self.store_item(s2, o, k, v)
                out.append((s2, None))
            return out
        return [(st, None)]

    def store_item(self, st, o, k, v):
        if o[0] == 'D':
            m = st.heap.get((o, 'map'))
            if m is not None:
                if is_k(k):
                    m = tuple((a, b) for a, b in m if a != k) + ((k, v),)
                    st.sethp((o, 'map'), m)
                    return
                st.sethp((o, 'map'), m + ((k, v),))
                return
        if o[0] == 'L':
            it = st.heap.get((o, 'items'))
            if it is not None and k[0] == 'OP' and k[1] == 'slicev' and all(is_k(x) for x in k[2:]) and is_none(k[4]):
                x = self.seq_items(v, st)
                if x is not None:
                    l = list(it)
                    l[slice(*[kval(y) for y in k[2:]])] = list(x)
                    st.sethp((o, 'items'), tuple(l))
                    return
            if it is not None and is_k(k) and isinstance(kval(k), int) and -len(it) <= kval(k) < len(it):
                l = list(it)
                l[kval(k)] = v
                st.sethp((o, 'items'), tuple(l))
                return
            st.sethp((o, 'items'), None)
        st.bump(o)
        st.sethp((o, ('[]', k)), v)

    def s_Delete(self, s, st, fr):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for c, oc in cur:
                if oc is not None:
                    nxt.append((c, oc))
                    continue
                if isinstance(t, ast.Name):
                    c = c.copy()
                    c.delvar(fr.fid, t.id)
                    nxt.append((c, None))
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, c, fr):
                        if isinstance(o, Raise):
                            nxt.append((s2, ('raise', o.exc)))
                            continue
                        s2 = s2.copy()
                        self.emit(s2, Ev('delattr', t.attr, recv=o, node=t, fn=fr.fi, stack=fr.stack))
                        s2.sethp((o, t.attr), ('DEL',))
                        nxt.append((s2, None))
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.evlist([t.value, t.slice], c, fr):
                        if isinstance(vs, Raise):
                            nxt.append((s2, ('raise', vs.exc)))
                            continue
                        o, k = vs
                        s2 = s2.copy()
                        ev = Ev('delitem', None, recv=o, args=(k,), node=t, fn=fr.fi, stack=fr.stack)
                        if self._implicit(s2, fr, ev):
                            s3 = s2.copy()
                            nxt.append((s3, ('raise', S('KeyError@%d' % t.lineno))))
                        self.emit(s2, ev)
                        if o[0] == 'D' and s2.heap.get((o, 'map')) is not None and is_k(k):
                            s2.sethp((o, 'map'), tuple((a, b) for a, b in s2.heap[(o, 'map')] if a != k))
                        elif o[0] == 'L' and s2.heap.get((o, 'items')) is not None and k[0] == 'OP' and k[1] == 'slicev' \
                                and all(is_k(x) for x in k[2:]):
                            l = list(s2.heap[(o, 'items')])
                            del l[slice(*[kval(x) for x in k[2:]])]
                            s2.sethp((o, 'items'), tuple(l))
                        elif o[0] == 'L' and k[0] == 'OP' and k[1] == 'slicev':
                            s2.sethp((o, 'items'), None)
                        elif o[0] == 'L' and s2.heap.get((o, 'items')) is not None and is_k(k) \
                                and isinstance(kval(k), int) and -len(s2.heap[(o, 'items')]) <= kval(k) < len(s2.heap[(o, 'items')]):
                            l = list(s2.heap[(o, 'items')])
                            del l[kval(k)]
                            s2.sethp((o, 'items'), tuple(l))
                        else:
                            s2.bump(o)
                            s2.delhp((o, ('[]', k)))
                        nxt.append((s2, None))
                else:
                    nxt.append((c, None))
            cur = nxt
        return cur

    def s_If(self, s, st, fr):
        out = []
        for s2, b in self.cond(s.test, st, fr):
            if isinstance(b, Raise):
                out.append((s2, ('raise', b.exc)))
            else:
                out.extend(self.block(s.body if b else s.orelse, s2, fr))
        return out

    def s_Assert(self, s, st, fr):
        out = []
        for s2, b in self.cond(s.test, st, fr):
            if isinstance(b, Raise):
                out.append((s2, ('raise', b.exc)))
            elif b:
                out.append((s2, None))
            else:
                s2 = s2.copy()
                exc = ('O', 'assert@%d' % s.lineno, Ext('builtins.AssertionError'))
                self.emit(s2, Ev('raise', 'AssertionError', val=exc, node=s, fn=fr.fi, stack=fr.stack))
                out.append((s2, ('raise', exc)))
        return out

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.envs.get(fr.fid, {}).get('#exc', S('exc'))
            st = st.copy()
            self.emit(st, Ev('raise', 'reraise', val=cur, node=s, fn=fr.fi, stack=fr.stack))
            return [(st, ('raise', cur))]
        out = []
        for s2, v in self.ev(s.exc, st, fr):
            if isinstance(v, Raise):
                out.append((s2, ('raise', v.exc)))
                continue
            s2 = s2.copy()
            if v[0] == 'C':
                v = self.new_obj(s2, v[1], s)
            elif v[0] == 'X':
                v = ('O', 'exc@%d' % s.lineno, Ext(v[1]))
            self.emit(s2, Ev('raise', self.exc_name(s2, v), val=v, node=s, fn=fr.fi, stack=fr.stack))
            out.append((s2, ('raise', v)))
        return out

    def exc_name(self, st, v):
        c = self.type_of(st, v)
        return c.name if c is not None else show(v)

    def s_Break(self, s, st, fr):
        return [(st, ('break',))]

    def s_Continue(self, s, st, fr):
        return [(st, ('cont',))]

    def s_While(self, s, st, fr):
        out = []
        cur = [st]
        infinite = isinstance(s.test, ast.Constant) and bool(s.test.value)
        for i in range(self.cfg.unroll + 1):
            nxt = []
            for c in cur:
                for s2, b in self.cond(s.test, c, fr):
                    if isinstance(b, Raise):
                        out.append((s2, ('raise', b.exc)))
                    elif not b:
                        out.extend(self.block(s.orelse, s2, fr) if s.orelse else [(s2, None)])
                    elif i == self.cfg.unroll:
                        self.cuts += 1
                        if not infinite and not self.cfg.drop_cut:
                            out.append((s2, None))
                    else:
                        for s3, oc in self.block(s.body, s2, fr):
                            if oc is None or oc[0] == 'cont':
                                nxt.append(s3)
                            elif oc[0] == 'break':
                                out.append((s3, None))
                            else:
                                out.append((s3, oc))
            cur = [x[0] for x in self.dedupe([(n, None) for n in nxt])]
            if not cur:
                break
        return self.dedupe(out)

    def s_For(self, s, st, fr):
        out = []
        for s2, it in self.ev(s.iter, st, fr):
            if not isinstance(it, Raise) and is_none(it):
                it = Raise(('O', 'TypeError@%d' % s.lineno, Ext('builtins.TypeError')))
            if isinstance(it, Raise):
                out.append((s2, ('raise', it.exc)))
                continue
            items = self.iter_items(it, s2)
            cur = [s2]
            n = len(items) if items is not None and len(items) <= max(40, self.cfg.unroll) else None
            if n is not None and it[0] == 'L':
                # a list is walked as it is at each turn
                cur, i = [s2], 0
                while cur and i < 80:
                    nxt = []
                    for c in cur:
                        now = self.iter_items(it, c)
                        if now is None:
                            now = items
                        if i >= len(now):
                            out.extend(self.block(s.orelse, c, fr) if s.orelse else [(c, None)])
                        else:
                            nxt.extend(self._for_body(s, now[i], c, fr, out))
                    cur = [x[0] for x in self.dedupe([(z, None) for z in nxt])]
                    i += 1
                continue
            if n is not None:
                d = it if it[0] == 'D' else it[2] if it[0] == 'OP' and it[1] in ('items', 'keys', 'values') and it[2][0] == 'D' else None
                size = lambda c: len(c.heap[(d, 'map')]) if d is not None and isinstance(c.heap.get((d, 'map')), tuple) else n
                for i in range(n):
                    nxt = []
                    for c in cur:
                        if i and size(c) != n:
                            out.append((c, ('raise', ('O', 'RuntimeError@%d' % s.lineno, Ext('builtins.RuntimeError')))))
                            continue
                        nxt.extend(self._for_body(s, items[i], c, fr, out))
                    cur = [x[0] for x in self.dedupe([(z, None) for z in nxt])]
                for c in list(cur):
                    if n and size(c) != n:
                        out.append((c, ('raise', ('O', 'RuntimeError@%d' % s.lineno, Ext('builtins.RuntimeError')))))
                        cur.remove(c)
                for c in cur:
                    out.extend(self.block(s.orelse, c, fr) if s.orelse else [(c, None)])
                continue
            for i in range(self.cfg.unroll + 1):
                for c in cur:
                    c2 = c.copy()
                    ok = self.assume_pred(c2, ('OP', 'hasitem', it, K(i)), False, s, fr, ver=it)
                    if ok:
                        out.extend(self.block(s.orelse, c2, fr) if s.orelse else [(c2, None)])
                if i == self.cfg.unroll:
                    break
                nxt = []
                for c in cur:
                    c2 = c.copy()
                    if not self.assume_pred(c2, ('OP', 'hasitem', it, K(i)), True, s, fr, ver=it):
                        continue
                    nxt.extend(self._for_body(s, self.elem(it, i, c2), c2, fr, out))
                cur = [x[0] for x in self.dedupe([(z, None) for z in nxt])]
        return self.dedupe(out)

    s_AsyncFor = s_For

    def elem(self, it, i, st):
        if it[0] == 'OP' and it[1] == 'enumerate':
            base = kval(it[3]) if len(it) > 3 and is_k(it[3]) else 0
            if isinstance(base, int) and (len(it) < 4 or is_k(it[3])):
                return ('T', (K(base + i), self.elem(it[2], i, st)))
            return ('T', (('OP', 'add', it[3], K(i)), self.elem(it[2], i, st)))
        if it[0] == 'OP' and it[1] == 'items':
            return ('T', (('OP', 'keyof', it[2], K(i)), ('OP', 'item', it[2], K(i))))
        if it[0] == 'OP' and it[1] == 'zip':
            return ('T', tuple(self.elem(x, i, st) for x in it[2:]))
        if it[0] == 'OP' and it[1] in ('copyof', 'values', 'list', 'tuple', 'reversed', 'sorted'):
            return self.elem(it[2], i, st)
        if it[0] == 'OP' and it[1] == 'map' and len(it) == 4:
            pass
        return ('OP', 'item', it, K(i))

    def _for_body(self, s, item, st, fr, out):
        nxt = []
        for c, oc in self.assign(s.target, item, st, fr):
            if oc is not None:
                out.append((c, oc))
                continue
            for s3, oc3 in self.block(s.body, c, fr):
                if oc3 is None or oc3[0] == 'cont':
                    nxt.append(s3)
                elif oc3[0] == 'break':
                    out.append((s3, None))
                else:
                    out.append((s3, oc3))
        return nxt

    def s_With(self, s, st, fr):
        return self._with(s, 0, st, fr)

    s_AsyncWith = s_With

    def _with(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        out = []
        it = s.items[i]
        for s2, v in self.ev(it.context_expr, st, fr):
            if isinstance(v, Raise):
                out.append((s2, ('raise', v.exc)))
                continue
            s2 = s2.copy()
            self.emit(s2, Ev('with', 'enter', recv=v, node=it.context_expr, fn=fr.fi, stack=fr.stack))
            cur = [(s2, None)]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, ('OP', 'entered', v), s2, fr)
            for s3, oc in cur:
                if oc is None:
                    res = self._with(s, i + 1, s3, fr)
                else:
                    res = [(s3, oc)]
                for s4, oc4 in res:
                    s4 = s4.copy()
                    self.emit(s4, Ev('with', 'exit', recv=v, node=it.context_expr, fn=fr.fi, stack=fr.stack))
                    out.append((s4, oc4))
        return out

    def s_Try(self, s, st, fr):
        has_h = bool(s.handlers)
        fr2 = Frame(fr.fid, fr.fi, fr.cls, fr.self_v, fr.parent, fr.depth,
                    fr.trydepth + (1 if (has_h or s.finalbody) else 0), fr.stack)
        res = []
        for s2, oc in self.block(s.body, st, fr2):
            if oc is None:
                if s.orelse:
                    res.extend(self.block(s.orelse, s2, fr))
                else:
                    res.append((s2, None))
            elif oc[0] == 'raise' and has_h:
                res.extend(self._handle(s, s2, oc, fr))
            else:
                res.append((s2, oc))
        res = self.dedupe(res)
        if not s.finalbody:
            return res
        out = []
        for s2, oc in res:
            for s3, oc3 in self.block(s.finalbody, s2, fr):
                out.append((s3, oc if oc3 is None else oc3))
        return self.dedupe(out)

    def _handle(self, s, st, oc, fr):
        exc = oc[1]
        out = []
        remaining = [st]
        for h in s.handlers:
            nxt = []
            for c in remaining:
                m = self.exc_match(c, exc, h.type, fr)
                if m is not False:
                    c2 = c.copy()
                    if h.name:
                        c2.setvar(fr.fid, h.name, exc)
                    c2.setvar(fr.fid, '#exc', exc)
                    self.emit(c2, Ev('except', ast.unparse(h.type) if h.type else '*', val=exc,
                                     node=h, fn=fr.fi, stack=fr.stack))
                    for s3, oc3 in self.block(h.body, c2, fr):
                        s3 = s3.copy()
                        s3.delvar(fr.fid, '#exc')
                        out.append((s3, oc3))
                if m is not True:
                    nxt.append(c)
            remaining = nxt
        out.extend((c, oc) for c in remaining)
        return out

    def exc_match(self, st, exc, typ, fr):
        if typ is None:
            return True
        types = self.exc_types(fr.fi.module, typ, fr.cls)
        res = False
        ec = self.type_of(st, exc)
        for t in types:
            t, m = t
            r = self.repo.resolve_expr(m, t, fr.cls)
            nm = r.name if isinstance(r, (Ext, ClassInfo)) else ast.unparse(t)
            if nm.split('.')[-1] in ('Exception', 'BaseException'):
                if ec is not None and getattr(ec, 'name', '').split('.')[-1] in ('SystemExit', 'KeyboardInterrupt') \
                        and nm.split('.')[-1] == 'Exception':
                    continue
                return True
            if ec is None:
                res = None
                continue
            x = self.issub(ec, r)
            if x is True:
                return True
            if x is None:
                res = None
        return res

    def exc_types(self, m, typ, cls, seen=()):
        """[(expression, module)] of an except clause, names of tuples of
        classes expanded"""
        if isinstance(typ, ast.Tuple):
            return [x for t in typ.elts for x in self.exc_types(m, t, cls, seen)]
        if isinstance(typ, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(m, typ, cls)
            if isinstance(r, tuple) and r[0] == 'value' and isinstance(r[2], ast.Tuple) and id(r[2]) not in seen:
                return self.exc_types(r[1], r[2], None, seen + (id(r[2]),))
        return [(typ, m)]

    def issub(self, c, d):
        """class subtype test: True/False/None(unknown)"""
        if isinstance(c, ClassInfo) and isinstance(d, ClassInfo):
            if d in c.mro():
                return True
            if c in d.mro():
                return None
            return False
        cn = None
        if isinstance(c, ClassInfo):
            for b in c.ext_bases():
                x = self.issub(b, d)
                if x is True:
                    return True
            return False
        if isinstance(c, Ext) and isinstance(d, Ext):
            if c.name == d.name:
                return True
            a, b = _pyclass(c.name), _pyclass(d.name)
            if a and b:
                if issubclass(a, b):
                    return True
                if issubclass(b, a):
                    return None
                return False
            return None
        if isinstance(c, Ext) and isinstance(d, ClassInfo):
            return False
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """-> [(st, True|False|Raise)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for i, x in enumerate(e.values):
                nxt = []
                for c in cur:
                    for s2, b in self.cond(x, c, fr):
                        if isinstance(b, Raise):
                            out.append((s2, b))
                        elif b != isand:
                            out.append((s2, b))
                        elif i == len(e.values) - 1:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s2, b if isinstance(b, Raise) else (not b)) for s2, b in self.cond(e.operand, st, fr)]
        out = []
        for s2, v in self.ev(e, st, fr):
            if isinstance(v, Raise):
                out.append((s2, v))
            else:
                out.extend(self.decide(s2, v, e, fr))
        return out

    def note(self, st, v, b, node, fr, what='truth'):
        self.nbranch += 1
        if self.cfg.record_assume:
            self.emit(st, Ev('assume', what, recv=v, node=node, fn=fr.fi if fr else None,
                             extra=b, stack=fr.stack if fr else ()))

    def decide(self, st, v, node, fr):
        t = v[0]
        if t == 'K':
            return [(st, bool(v[2]))]
        if t in ('C', 'F', 'B', 'CL', 'P', 'M'):
            return [(st, True)]
        if t == 'X':
            return [(st, True)]
        if t == 'O':
            return [(st, True)]
        if t == 'T':
            return [(st, len(v[1]) > 0)]
        if t == 'L':
            it = st.heap.get((v, 'items'))
            if it is not None:
                return [(st, len(it) > 0)]
        if t == 'D':
            it = st.heap.get((v, 'map'))
            if it is not None:
                return [(st, len(it) > 0)]
        if t == 'OP':
            op = v[1]
            if op == 'not':
                return [(s2, not b) for s2, b in self.decide(st, v[2], node, fr)]
            if op == 'isnone':
                return self.dec_none(st, v[2], node, fr)
            if op == 'eq':
                return self.dec_eq(st, v[2], v[3], node, fr)
            if op == 'lt':
                return self.dec_lt(st, v[2], v[3], node, fr)
            if op == 'isinstance':
                return self.dec_inst(st, v[2], v[3], node, fr)
            if op == 'in':
                return self.dec_in(st, v[2], v[3], node, fr)
            if op in ('hasattr',):
                return self.dec_pred(st, v, node, fr)
            if op == 'bool':
                return self.decide(st, v[2], node, fr)
            if op == 'len':
                n = self.len_of(st, v[2])
                if n is not None:
                    return [(st, n > 0)]
                return self.decide(st, v[2], node, fr) if v[2][0] in ('S', 'OP', 'L', 'D') else self.dec_pred(st, v, node, fr)
        f = st.fact(v)
        if f.none is True:
            return [(st, False)]
        if f.truth is not None:
            return [(st, f.truth)]
        if f.eq is not None:
            return [(st, bool(kval(f.eq)))]
        if f.none is False or f.inst:
            c = self.type_of(st, v)
            if isinstance(c, ClassInfo) and not c.find('__len__') and not c.find('__bool__') and not c.ext_bases():
                return [(st, True)]
        if (f.lo is not None and f.lo[0] >= 0 and (f.lo[0] > 0 or f.lo[1])) or (f.hi is not None and (f.hi[0] < 0)):
            return [(st, True)]
        a, b = st.copy(), st.copy()
        a.setfact(v, f.but(truth=True, none=False))
        b.setfact(v, f.but(truth=False))
        self.note(a, v, True, node, fr)
        self.note(b, v, False, node, fr)
        return [(a, True), (b, False)]

    def dec_pred(self, st, v, node, fr):
        f = st.fact(v)
        if f.truth is not None:
            return [(st, f.truth)]
        a, b = st.copy(), st.copy()
        a.setfact(v, f.but(truth=True))
        b.setfact(v, f.but(truth=False))
        self.note(a, v, True, node, fr)
        self.note(b, v, False, node, fr)
        return [(a, True), (b, False)]

    def assume_pred(self, st, pred, val, node, fr, ver=None):
        if ver is not None:
            pred = pred + (('ver', st.ver(ver)),)
        f = st.fact(pred)
        if f.truth is not None:
            return f.truth == val
        if pred[1] == 'hasitem':
            # len facts: truthiness of the collection decides item 0
            it, i = pred[2], pred[3]
            base = it
            while base[0] == 'OP' and base[1] in ('values', 'items', 'copyof', 'list', 'enumerate', 'keys'):
                base = base[2]
            tf = st.fact(base)
            if tf.none is True:
                return False if val else True
            if i == K(0) and tf.truth is not None:
                return tf.truth == val
        st.setfact(pred, f.but(truth=val))
        self.note(st, pred, val, node, fr)
        return True

    def nonnull(self, st, v):
        """True: surely not None, False: surely None, None: unknown"""
        t = v[0]
        if t == 'K':
            return v[2] is not None
        if t in ('O', 'T', 'L', 'D', 'C', 'F', 'B', 'CL', 'P', 'M', 'X', 'SUPER'):
            return True
        f = st.fact(v)
        if f.none is not None:
            return not f.none
        if f.eq is not None:
            return not is_none(f.eq)
        if f.truth is True or f.inst or f.lo is not None or f.hi is not None:
            return True
        if t == 'OP':
            if v[1] in ('fmt', 'len', 'add', 'sub', 'mul', 'str', 'int', 'float', 'bytes', 'eq', 'lt', 'not',
                        'isnone', 'in', 'isinstance', 'hash', 'neg', 'slice', 'mod', 'div', 'comp', 'list', 'tuple',
                        'copyof', 'values', 'items', 'keys'):
                return True
        return None

    def dec_none(self, st, v, node, fr):
        n = self.nonnull(st, v)
        if n is not None:
            return [(st, not n)]
        f = st.fact(v)
        a, b = st.copy(), st.copy()
        a.setfact(v, f.but(none=True, truth=False))
        b.setfact(v, f.but(none=False))
        self.note(a, v, True, node, fr, 'none')
        self.note(b, v, False, node, fr, 'none')
        out = [(b, False)]
        if f.truth is not True:
            out.insert(0, (a, True))
        return out

    def const_of(self, st, v):
        if v[0] == 'K':
            return v
        if v[0] in ('S', 'OP'):
            f = st.fact(v)
            if f.eq is not None:
                return f.eq
            if f.none is True:
                return NONE
        return None

    def dec_eq(self, st, a, b, node, fr):
        if a == b:
            return [(st, True)]
        ka, kb = self.const_of(st, a), self.const_of(st, b)
        if ka is not None and kb is not None:
            try:
                return [(st, kval(ka) == kval(kb))]
            except Exception:
                pass
        if kb is None and ka is not None:
            a, b, ka, kb = b, a, kb, ka
        if kb is not None and is_none(kb):
            return self.dec_none(st, a, node, fr)
        if kb is not None:
            if a[0] in ('O', 'L', 'D', 'C', 'F', 'B', 'CL', 'P', 'M', 'X'):
                if not (a[0] == 'O'):
                    return [(st, False)]
            elif a[0] == 'T':
                return [(st, False)]
            f = st.fact(a)
            kv = kval(kb)
            if kb in f.ne:
                return [(st, False)]
            if f.none is True:
                return [(st, False)]
            if isinstance(kv, (int, float)) and not isinstance(kv, bool):
                if f.lo is not None and (kv < f.lo[0] or (kv == f.lo[0] and f.lo[1])):
                    return [(st, False)]
                if f.hi is not None and (kv > f.hi[0] or (kv == f.hi[0] and f.hi[1])):
                    return [(st, False)]
            if isinstance(kv, bool) and f.truth is not None and f.truth != kv:
                return [(st, False)]
            x, y = st.copy(), st.copy()
            x.setfact(a, f.but(eq=kb, truth=bool(kv), none=False))
            y.setfact(a, f.but(ne=f.ne | {kb}))
            self.note(x, ('OP', 'eq', a, kb), True, node, fr)
            self.note(y, ('OP', 'eq', a, kb), False, node, fr)
            if f.truth is not None and f.truth != bool(kv):
                return [(y, False)]
            return [(x, True), (y, False)]
        if a[0] == 'T' and b[0] == 'T' and len(a[1]) != len(b[1]):
            return [(st, False)]
        if a[0] == 'T' and b[0] == 'T':
            todo, out = [(st, 0)], []
            while todo:
                s, i = todo.pop()
                if i == len(a[1]):
                    out.append((s, True))
                    continue
                for s2, r in self.dec_eq(s, a[1][i], b[1][i], node, fr):
                    if r:
                        todo.append((s2, i + 1))
                    else:
                        out.append((s2, False))
            return out
        ca, cb = a[0], b[0]
        if ca in ('C', 'F') and cb in ('C', 'F', 'X'):
            return [(st, a == b)]
        if ca == 'O' and cb == 'O' and not isinstance(a[2], Ext):
            c = a[2]
            if not (isinstance(c, ClassInfo) and c.find('__eq__')):
                return [(st, False)]
        x, y = sorted((a, b), key=repr)
        return self.dec_pred(st, ('OP', 'eq', x, y, ('ver', st.ver(x), st.ver(y))), node, fr)

    def dec_lt(self, st, a, b, node, fr):
        """a < b"""
        ka, kb = self.const_of(st, a), self.const_of(st, b)
        if ka is not None and kb is not None:
            try:
                return [(st, kval(ka) < kval(kb))]
            except Exception:
                return self.dec_pred(st, ('OP', 'lt', a, b), node, fr)
        if kb is not None and isinstance(kval(kb), (int, float)) and a[0] in ('S', 'OP'):
            k = kval(kb)
            f = st.fact(a)
            if f.hi is not None and (f.hi[0] < k or (f.hi[0] == k and f.hi[1])):
                return [(st, True)]
            if f.lo is not None and f.lo[0] >= k:
                return [(st, False)]
            x, y = st.copy(), st.copy()
            x.setfact(a, f.but(hi=(k, True), none=False))
            y.setfact(a, f.but(lo=(k, False), none=False))
            self.note(x, ('OP', 'lt', a, kb), True, node, fr)
            self.note(y, ('OP', 'lt', a, kb), False, node, fr)
            return [(x, True), (y, False)]
        if ka is not None and isinstance(kval(ka), (int, float)) and b[0] in ('S', 'OP'):
            k = kval(ka)
            f = st.fact(b)
            if f.lo is not None and (f.lo[0] > k or (f.lo[0] == k and f.lo[1])):
                return [(st, True)]
            if f.hi is not None and f.hi[0] <= k:
                return [(st, False)]
            x, y = st.copy(), st.copy()
            x.setfact(b, f.but(lo=(k, True), none=False))
            y.setfact(b, f.but(hi=(k, False), none=False))
            self.note(x, ('OP', 'lt', ka, b), True, node, fr)
            self.note(y, ('OP', 'lt', ka, b), False, node, fr)
            return [(x, True), (y, False)]
        return self.dec_pred(st, ('OP', 'lt', a, b), node, fr)

    def dec_inst(self, st, v, c, node, fr):
        types = c[1] if c[0] == 'T' else (c,)
        t = self.type_of(st, v)
        if is_none(v) or self.nonnull(st, v) is False:
            return [(st, False)]
        exact = v[0] == 'O' or v[0] == 'K' or v[0] in ('T', 'L', 'D')
        if v[0] == 'K':
            t = Ext('builtins.' + type(v[2]).__name__)
        elif v[0] == 'T':
            t = Ext('builtins.tuple')
        elif v[0] == 'L':
            t = Ext('builtins.list')
        elif v[0] == 'D':
            t = Ext('builtins.dict')
        unknown = False
        for ty in types:
            tt = ty[1] if ty[0] == 'C' else (Ext(ty[1]) if ty[0] == 'X' else None)
            if tt is None:
                unknown = True
                continue
            if t is not None:
                r = self.issub(t, tt)
                if r is True:
                    return [(st, True)]
                if r is False:
                    continue
                if exact and not isinstance(t, Ext):
                    continue
            unknown = True
        if not unknown:
            return [(st, False)]
        f = st.fact(v)
        key = frozenset(types)
        tset = [ty[1] if ty[0] == 'C' else Ext(ty[1]) for ty in types if ty[0] in ('C', 'X')]
        # already excluded?
        if all(any(self.issub(tt, n) is True for n in f.ninst) for tt in tset) and tset:
            return [(st, False)]
        for it in f.inst:
            for tt in tset:
                if self.issub(it, tt) is True:
                    return [(st, True)]
        x, y = st.copy(), st.copy()
        if len(tset) == 1:
            x.setfact(v, f.but(inst=f.inst | frozenset(tset), none=False))
        else:
            x.setfact(v, f.but(none=False))
            x.setfact(('OP', 'isinstance', v, c), Fact(truth=True))
        y.setfact(v, f.but(ninst=f.ninst | frozenset(tset)))
        self.note(x, ('OP', 'isinstance', v, c), True, node, fr)
        self.note(y, ('OP', 'isinstance', v, c), False, node, fr)
        return [(x, True), (y, False)]

    def dec_in(self, st, a, b, node, fr):
        items = self.seq_items(b, st)
        if items is None and b[0] == 'D' and st.heap.get((b, 'map')) is not None:
            items = tuple(k for k, _ in st.heap[(b, 'map')])
        if b[0] == 'K' and isinstance(b[2], (str, bytes, tuple, frozenset)):
            ka = self.const_of(st, a)
            if ka is not None:
                try:
                    return [(st, kval(ka) in b[2])]
                except TypeError:
                    return [(st, False)]
        if items is not None and (len(items) <= 16 or len(items) <= 200 and is_k(a) and all(is_k(x) for x in items)):
            out = []
            cur = [st]
            for it in items:
                nxt = []
                for c in cur:
                    for s2, r in self.dec_eq(c, a, it, node, fr):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((c, False) for c in cur)
            return out
        if b[0] == 'OP' and b[1] in ('keys', 'copyof'):
            b = b[2]
        known = self.cfg.member(self, st, a, b)
        if known is not None:
            return [(st, known)]
        # a key stored on this path into an otherwise unknown mapping
        if (b, ('[]', a)) in st.heap:
            return [(st, True)]
        return self.dec_pred(st, ('OP', 'in', a, b, ('ver', st.ver(b))), node, fr)

    # ------------------------------------------------------------ expressions
    def evlist(self, exprs, st, fr):
        """-> [(st, [vals] | Raise)]"""
        cur = [(st, [])]
        out = []
        for e in exprs:
            nxt = []
            for c, vals in cur:
                for s2, v in self.ev(e, c, fr):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, vals + [v]))
            cur = nxt
        return out + cur

    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, S('?%s@%d' % (type(e).__name__, getattr(e, 'lineno', 0))))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, K(e.value))]

    def _bindval(self, r, name, fr, st):
        if isinstance(r, FuncInfo):
            return ('F', r)
        if isinstance(r, ClassInfo):
            return ('C', r)
        if isinstance(r, Module):
            return ('M', r)
        if isinstance(r, Ext):
            return K(self.ext_consts[r.name]) if r.name in self.ext_consts else ('X', r.name)
        if isinstance(r, tuple) and r[0] == 'value':
            return self.static_val(r[1], r[2], '%s.%s' % (r[1].name if r[1] else '?', name), None, st)
        return None

    def static_val(self, m, node, name, cls, st):
        """Value of a module- or class-level assignment."""
        if node is None:
            return S(name)
        if isinstance(node, ast.Constant):
            return K(node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant):
            try:
                return K(ast.literal_eval(node))
            except ValueError:
                return S(name)
        if isinstance(node, ast.Tuple):
            return ('T', tuple(self.static_val(m, x, '%s[%d]' % (name, i), cls, st) for i, x in enumerate(node.elts)))
        if isinstance(node, ast.List):
            o = ('L', 'static:' + name)
            if (o, 'items') not in st.heap:
                st.sethp((o, 'items'), tuple(self.static_val(m, x, '%s[%d]' % (name, i), cls, st)
                                             for i, x in enumerate(node.elts)))
            return o
        if isinstance(node, (ast.DictComp, ast.ListComp, ast.BinOp, ast.Call)) or isinstance(node, ast.Dict) and None in node.keys:
            try:
                py = folded(node, {}, self.repo, m)
            except _NoFold:
                pass
            else:
                v = self._folded_val(st, py, name)
                if v is not None:
                    return v
        if isinstance(node, ast.Dict):
            o = ('D', 'static:' + name)
            if (o, 'map') not in st.heap and all(k is not None for k in node.keys):
                st.sethp((o, 'map'), tuple(
                    (self.static_val(m, k, '%s.k%d' % (name, i), cls, st),
                     self.static_val(m, v, '%s.v%d' % (name, i), cls, st))
                    for i, (k, v) in enumerate(zip(node.keys, node.values))))
            return o
        if isinstance(node, (ast.Name, ast.Attribute)):
            if isinstance(node, ast.Name) and cls is not None:
                if node.id in cls.methods:
                    return ('F', cls.methods[node.id])
                if node.id in cls.attrs and cls.attrs[node.id] is not node:
                    return self.static_val(m, cls.attrs[node.id], '%s.%s' % (cls.name, node.id), cls, st)
            r = self.repo.resolve_expr(m, node, cls)
            v = self._bindval(r, ast.unparse(node), None, st)
            if v is None and isinstance(node, ast.Attribute):
                b = self.static_val(m, node.value, name + '.of', cls, st)
                a = b[1].find_attr(node.attr) if b[0] == 'C' else None
                if a is not None and a[0] == 'attr':
                    return self.static_val(a[1].module, a[2], '%s.%s' % (a[1].name, node.attr), a[1], st)
            return v if v is not None else S(name)
        if isinstance(node, ast.Lambda):
            return ('LAM', id(node))
        if isinstance(node, ast.Subscript):
            a, b = self.static_val(m, node.value, name + '.of', cls, st), self.static_val(m, node.slice, name + '.key', cls, st)
            if a[0] == 'D' and is_k(b):
                for x, y in st.heap.get((a, 'map'), ()):
                    if x == b:
                        return y
            if a[0] in ('T', 'L') and is_k(b) and isinstance(b[2], int):
                it = self.seq_items(a, st)
                if it is not None and -len(it) <= b[2] < len(it):
                    return it[b[2]]
            return S(name)
        if isinstance(node, ast.BinOp):
            # a name bound again from its own former value is not evaluated
            if id(node) in self.static_busy:
                return S(name)
            self.static_busy.add(id(node))
            try:
                a, b = (self.static_val(m, x, name + '.' + t, cls, st) for x, t in ((node.left, 'a'), (node.right, 'b')))
            finally:
                self.static_busy.discard(id(node))
            if a[0] == 'T' and b[0] == 'T' and isinstance(node.op, ast.Add):
                return ('T', a[1] + b[1])
            if is_k(a) and is_k(b):
                try:
                    r = _binop(type(node.op).__name__.lower(), kval(a), kval(b))
                    if not isinstance(r, (str, bytes, tuple)) or len(r) <= 2000:
                        return K(r)
                except Exception:
                    pass
        if isinstance(node, (ast.ListComp, ast.SetComp)) or isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                node.func.id in ('tuple', 'list', 'set', 'frozenset', 'dict', 'sorted', 'len') and len(node.args) == 1 and not node.keywords and \
                self.repo.resolve_name(m, node.func.id) is None and self.static_deep < 4:
            # worked out in the place of a function with nothing but this expression
            fi = self.repo.__dict__.setdefault('_statexp', {}).setdefault(id(node), FuncInfo(node, m, cls, name))
            self.static_deep += 1
            try:
                r = list(self.ev(node, st, Frame(0, fi, cls, None, (), 0, 0, ())))
            finally:
                self.static_deep -= 1
            if len(r) == 1 and not isinstance(r[0][1], Raise):
                if r[0][0] is not st:
                    for k, v in r[0][0].heap.items():
                        if k not in st.heap:
                            st.sethp(k, v)
                return r[0][1]
        return S(name)

    static_deep = 0

    def _folded_val(self, st, py, name):
        if py is None or isinstance(py, (bool, int, float, str, bytes)):
            return K(py)
        if isinstance(py, (tuple, list, dict)) and len(py) <= 600:
            it = [self._folded_val(st, x, '%s[%d]' % (name, i)) for i, x in enumerate(py)]
            if None in it:
                return None
            if isinstance(py, tuple):
                return ('T', tuple(it))
            if isinstance(py, list):
                o = ('L', 'static:' + name)
                if (o, 'items') not in st.heap:
                    st.sethp((o, 'items'), tuple(it))
                return o
            vs = [self._folded_val(st, x, '%s.v%d' % (name, i)) for i, x in enumerate(py.values())]
            if None in vs:
                return None
            o = ('D', 'static:' + name)
            if (o, 'map') not in st.heap:
                st.sethp((o, 'map'), tuple(zip(it, vs)))
            return o
        return None

    def e_Name(self, e, st, fr):
        for fid in (fr.fid,) + tuple(fr.parent):
            env = st.envs.get(fid)
            if env is not None and e.id in env:
                return [(st, env[e.id])]
        # class-body imports are visible through self only; module scope next
        r = self.repo.resolve_name(fr.fi.module, e.id)
        if r is not None:
            st2 = st.copy()
            v = self._bindval(r, e.id, fr, st2)
            if v is not None:
                ov = st2.heap.get((('M', fr.fi.module), e.id))
                return [(st2, ov if ov is not None else v)]
        if r is None and e.id in _BUILTINS:
            return [(st, ('X', 'builtins.' + e.id))]
        return [(st, S('%s::%s' % (fr.fi.short, e.id)))]

    def type_of(self, st, v):
        if v[0] == 'O':
            return v[2]
        if v[0] in ('S', 'OP'):
            f = st.fact(v)
            for c in f.inst:
                return c
            t = self.cfg.path_types.get(v)
            if t is not None:
                return t
            t = self.cfg.type_of_path(v)
            if t is not None:
                return t
            if v[0] == 'S':
                p = v[1].rsplit('.', 1)
                if len(p) == 2 and p[1] in self.cfg.attr_types:
                    return self.cfg.attr_types[p[1]]
        return None

    def peek_attr(self, st, o, name):
        v = st.heap.get((o, name))
        if v is not None:
            return v
        r = self.get_attr(st.copy(), o, name, None, None)
        return r[0][1] if len(r) == 1 and not isinstance(r[0][1], Raise) else None

    def get_attr(self, st, o, name, node, fr):
        """-> [(st, v)]"""
        t = o[0]
        hv = st.heap.get((o, name))
        if hv is not None:
            return [(st, hv)]
        if self.cfg.none_attr and is_none(o) and not name.startswith('__'):
            return [(st, Raise(('O', 'AttributeError@%d' % getattr(node, 'lineno', 0), Ext('builtins.AttributeError'))))]
        if t == 'M':
            r = self.repo.resolve_expr(o[1], ast.Name(name, ast.Load()))
            v = self._bindval(r, name, fr, st)
            return [(st, v if v is not None else S('%s.%s' % (o[1].name, name)))]
        if t == 'X':
            n = o[1] + '.' + name
            return [(st, K(self.ext_consts[n]) if n in self.ext_consts else ('X', n))]
        if t == 'SUPER':
            cls, self_v = o[1], o[2]
            sc = self.type_of(st, self_v)
            mro = sc.mro() if isinstance(sc, ClassInfo) else cls.mro()
            if cls in mro:
                mro = mro[mro.index(cls) + 1:]
            else:
                mro = cls.mro()[1:]
            for c in mro:
                if isinstance(c, ClassInfo) and name in c.methods:
                    fi = c.methods[name]
                    return [(st, ('B', self_v, fi))]
            return [(st, ('X', 'super.' + name))]
        if t == 'C':
            ci = o[1]
            if name == '__name__':
                return [(st, K(ci.name))]
            r = ci.find_attr(name)
            if r is not None:
                if r[0] == 'method':
                    fi = r[2]
                    if fi.is_classmethod:
                        return [(st, ('B', o, fi))]
                    return [(st, ('F', fi))]
                if r[0] == 'ns':
                    v = self._bindval(self.repo.resolve_binding(r[2], r[1].module), name, fr, st)
                    if v is not None:
                        return [(st, v)]
                if r[0] == 'attr':
                    for c in ci.repo_mro():
                        hv = st.heap.get((('C', c), name))
                        if hv is not None:
                            return [(st, hv)]
                    if name not in self.class_assigned:
                        return [(st, self.static_val(r[1].module, r[2], '%s.%s' % (r[1].name, name), r[1], st))]
                    return [(st, S('%s.%s' % (r[1].name, name)))]
            return [(st, S('%s.%s' % (ci.name, name)))]
        cls = self.type_of(st, o)
        if isinstance(cls, ClassInfo):
            if name == '__class__':
                return [(st, ('C', cls))]
            r = cls.find_attr(name)
            if r is not None:
                if r[0] == 'method':
                    fi = r[2]
                    if fi.is_property:
                        ev = Ev('call', name, recv=o, callee=fi, node=node, fn=fr.fi if fr else None,
                                stack=fr.stack if fr else ())
                        if fr is not None and self.cfg.inline(self, st, fi, ev) and fr.depth < self.cfg.max_depth:
                            out = []
                            for s3, oc in self._enter(st.copy(), fi, o, [], {}, ev, fr):
                                out.append((s3, Raise(oc[1]) if oc[0] == 'raise' else oc[1]))
                            return out
                        return [(st, self.sub(o, name))]
                    if fi.is_static:
                        return [(st, ('F', fi))]
                    if fi.is_classmethod:
                        return [(st, ('B', ('C', cls), fi))]
                    return [(st, ('B', o, fi))]
                if r[0] == 'ns':
                    v = self._bindval(self.repo.resolve_binding(r[2], r[1].module), name, fr, st)
                    if v is not None:
                        return [(st, v)]
                if r[0] == 'attr':
                    if t == 'O' or name not in self.assigned:
                        for c in cls.repo_mro():
                            hv = st.heap.get((('C', c), name))
                            if hv is not None:
                                return [(st, hv)]
                        v = self.static_val(r[1].module, r[2], '%s.%s' % (r[1].name, name), r[1], st)
                        if v[0] != 'S' and v[0] != 'LAM':
                            return [(st, v)]
        if name == '__class__':
            return [(st, ('OP', 'type', o))]
        return [(st, self.sub(o, name))]

    def sub(self, o, name):
        if o[0] == 'S':
            p = o[1] + '.' + name
            if len(p) > 400:
                p = '...' + p[-300:]
            return S(p)
        return ('OP', 'attr', o, name)

    def e_Attribute(self, e, st, fr):
        out = []
        for s2, o in self.ev(e.value, st, fr):
            if isinstance(o, Raise):
                out.append((s2, o))
            else:
                out.extend(self.get_attr(s2.copy(), o, e.attr, e, fr))
        return out

    def e_Tuple(self, e, st, fr):
        out = []
        for s2, vs in self._elts(e.elts, st, fr):
            out.append((s2, vs if isinstance(vs, Raise) else ('T', tuple(vs))))
        return out

    def _elts(self, elts, st, fr):
        res = self.evlist([x.value if isinstance(x, ast.Starred) else x for x in elts], st, fr)
        if not any(isinstance(x, ast.Starred) for x in elts):
            return res
        out = []
        for s2, vs in res:
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            l = []
            for x, v in zip(elts, vs):
                if isinstance(x, ast.Starred):
                    it = self.seq_items(v, s2)
                    if it is not None:
                        l.extend(it)
                    else:
                        l.append(('OP', 'star', v))
                else:
                    l.append(v)
            out.append((s2, l))
        return out

    def e_List(self, e, st, fr):
        out = []
        for s2, vs in self._elts(e.elts, st, fr):
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            s2 = s2.copy()
            out.append((s2, self.mklist(s2, vs, e)))
        return out

    def mklist(self, st, vs, node=None):
        o = ('L', self.site(st, node))
        st.sethp((o, 'items'), tuple(vs))
        return o

    def e_Set(self, e, st, fr):
        return self.e_Tuple(e, st, fr)

    def e_Dict(self, e, st, fr):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for s2, vs in self.evlist(exprs, st, fr):
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            s2 = s2.copy()
            o = ('D', self.site(s2, e))
            pairs, i, unknown = [], 0, False
            for k in e.keys:
                if k is not None:
                    pairs.append((vs[i], vs[i + 1]))
                    i += 2
                else:
                    src = vs[i]
                    m = s2.heap.get((src, 'map')) if src[0] == 'D' else None
                    if m is not None:
                        pairs.extend(m)
                    else:
                        unknown = True
                    i += 1
            if not unknown:
                s2.sethp((o, 'map'), tuple(pairs))
            out.append((s2, o))
        return out

    def iter_items(self, v, st):
        """what a loop goes through"""
        return self.seq_items(v, st)

    def seq_items(self, v, st):
        if v[0] == 'T':
            if any(x[0] == 'OP' and x[1] == 'star' for x in v[1]):
                return None
            return v[1]
        if v[0] == 'L':
            it = st.heap.get((v, 'items'))
            if it is not None and any(x[0] == 'OP' and x[1] == 'star' for x in it):
                return None
            return it
        if v[0] == 'K' and isinstance(v[2], (tuple, list)):
            return tuple(K(x) for x in v[2])
        if v[0] == 'OP' and v[1] in ('copyof', 'list', 'tuple', 'keys', 'values', 'items', 'reversed') and len(v) >= 3:
            b = v[2]
            if v[1] in ('copyof', 'list', 'tuple'):
                if b[0] == 'D' and st.heap.get((b, 'map')) is not None:
                    return tuple(k for k, _ in st.heap[(b, 'map')])
                return self.seq_items(b, st)
            if v[1] == 'reversed':
                i = self.seq_items(b, st)
                return tuple(reversed(i)) if i is not None else None
            m = st.heap.get((b, 'map')) if b[0] == 'D' else None
            if m is not None:
                if v[1] == 'keys':
                    return tuple(k for k, _ in m)
                if v[1] == 'values':
                    return tuple(x for _, x in m)
                return tuple(('T', (k, x)) for k, x in m)
        if v[0] == 'D':
            m = st.heap.get((v, 'map'))
            if m is not None:
                return tuple(k for k, _ in m)
        if v[0] == 'OP' and v[1] == 'enumerate' and (len(v) == 3 or is_k(v[3]) and isinstance(kval(v[3]), int)):
            b = self.seq_items(v[2], st)
            if b is not None:
                return tuple(('T', (K(i), x)) for i, x in enumerate(b, kval(v[3]) if len(v) > 3 else 0))
        if v[0] == 'OP' and v[1] == 'zip' and len(v) > 2:
            bs = [self.seq_items(x, st) for x in v[2:]]
            if None not in bs:
                return tuple(('T', tuple(x)) for x in zip(*bs))
        return None

    def len_of(self, st, v):
        if v[0] == 'D':
            m = st.heap.get((v, 'map'))
            return len(m) if m is not None else None
        it = self.seq_items(v, st)
        if it is not None:
            return len(it)
        if v[0] == 'K' and isinstance(v[2], (str, bytes)):
            return len(v[2])
        return None

    def e_JoinedStr(self, e, st, fr):
        parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        fmt = ''
        plain = True
        for x in e.values:
            if isinstance(x, ast.Constant):
                fmt += x.value.replace('{', '{{').replace('}', '}}')
            else:
                fmt += '{' + ('' if x.conversion in (-1, 115) else '!' + chr(x.conversion)) + \
                    ('' if x.format_spec is None else ':' + ast.unparse(x.format_spec)[2:-1]) + '}'
                plain = plain and x.format_spec is None
        out = []
        for s2, vs in self.evlist(parts, st, fr):
            if not isinstance(vs, Raise) and plain and all(is_k(v) for v in vs):
                out.append((s2, K(fmt.format(*[kval(v) for v in vs]))))
                continue
            out.append((s2, vs if isinstance(vs, Raise) else ('OP', 'fmt', K(fmt), *vs)))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        if e.value is None:
            return [(st, S('yield'))]
        return self.ev(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s2, v in self.ev(e.value, st, fr):
            if isinstance(v, Raise):
                out.append((s2, v))
            else:
                s2 = s2.copy()
                s2.setvar(fr.fid, e.target.id, v)
                out.append((s2, v))
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for s2, b in self.cond(e.test, st, fr):
            if isinstance(b, Raise):
                out.append((s2, b))
            else:
                out.extend(self.ev(e.body if b else e.orelse, s2, fr))
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        out = []
        cur = [st]
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for c in cur:
                for s2, v in self.ev(x, c, fr):
                    if isinstance(v, Raise) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.decide(s2, v, x, fr):
                        if b != isand:
                            out.append((s3, v if _boolish(v) is False else K(b)))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s2, v in self.ev(e.operand, st, fr):
            if isinstance(v, Raise):
                out.append((s2, v))
            elif isinstance(e.op, ast.Not):
                out.append((s2, K(not kval(v)) if is_k(v) else ('OP', 'not', v)))
            elif isinstance(e.op, ast.USub):
                out.append((s2, K(-kval(v)) if is_k(v) and isinstance(kval(v), (int, float)) else ('OP', 'neg', v)))
            else:
                out.append((s2, ('OP', type(e.op).__name__.lower(), v)))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        op = type(e.op).__name__.lower()
        for s2, vs in self.evlist([e.left, e.right], st, fr):
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            a, b = vs
            ka, kb = self.const_of(s2, a), self.const_of(s2, b)
            if ka is not None and kb is not None:
                try:
                    r = _binop(op, kval(ka), kval(kb))
                    if not (isinstance(r, (str, bytes, tuple)) and len(r) > 2000):
                        out.append((s2, K(r)))
                        continue
                except Exception:
                    pass
            if op == 'mod' and a[0] == 'K' and isinstance(a[2], (str, bytes)):
                ops = b[1] if b[0] == 'T' else (b,)
                if b[0] == 'T' and all(is_k(x) for x in ops):
                    try:
                        out.append((s2, K(kval(a) % tuple(kval(x) for x in ops))))
                        continue
                    except Exception:
                        pass
                out.append((s2, ('OP', 'fmt', a, *ops)))
                continue
            if op == 'add':
                ia, ib = self.seq_items(a, s2), self.seq_items(b, s2)
                if ia is not None and ib is not None and a[0] == b[0]:
                    s2 = s2.copy()
                    out.append((s2, ('T', tuple(ia) + tuple(ib)) if a[0] == 'T' else self.mklist(s2, tuple(ia) + tuple(ib), e)))
                    continue
            if op == 'mult':
                x, n = (a, kb) if a[0] in 'TL' else (b, ka)
                it = self.seq_items(x, s2) if x[0] in 'TL' and n is not None and isinstance(kval(n), int) else None
                if it is not None and len(it) * max(kval(n), 0) <= 64:
                    s2 = s2.copy()
                    out.append((s2, ('T', tuple(it) * kval(n)) if x[0] == 'T' else self.mklist(s2, tuple(it) * kval(n), e)))
                    continue
            v = ('OP', op, a, b)
            if self.cfg.simp is not None:
                w = self.cfg.simp(s2, v)
                if w is not None:
                    out.append((s2, w))
                    continue
            if _vsize(v, self.cfg.max_value + 20) > self.cfg.max_value:
                v = S('%s@%s:%d' % (op, fr.fi.short, e.lineno))
            out.append((s2, v))
        return out

    def e_Compare(self, e, st, fr):
        exprs = [e.left] + list(e.comparators)
        out = []
        for s2, vs in self.evlist(exprs, st, fr):
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            res = None
            parts = []
            for i, op in enumerate(e.ops):
                parts.append(self.cmp(op, vs[i], vs[i + 1], s2))
            if len(parts) == 1:
                out.append((s2, parts[0]))
            else:
                cur = [s2]
                for i, p in enumerate(parts):
                    nxt = []
                    for c in cur:
                        for s3, b in self.decide(c, p, e, fr):
                            if not b:
                                out.append((s3, FALSE))
                            else:
                                nxt.append(s3)
                    cur = nxt
                out.extend((c, TRUE) for c in cur)
        return out

    def cmp(self, op, a, b, st):
        n = type(op).__name__
        if n in ('Is', 'IsNot', 'Eq', 'NotEq'):
            if is_none(b):
                r = ('OP', 'isnone', a)
            elif is_none(a):
                r = ('OP', 'isnone', b)
            else:
                r = ('OP', 'eq', a, b)
            return r if n in ('Is', 'Eq') else ('OP', 'not', r)
        if n == 'Lt':
            return ('OP', 'lt', a, b)
        if n == 'Gt':
            return ('OP', 'lt', b, a)
        if n == 'GtE':
            return ('OP', 'not', ('OP', 'lt', a, b))
        if n == 'LtE':
            return ('OP', 'not', ('OP', 'lt', b, a))
        r = ('OP', 'in', a, b)
        return r if n == 'In' else ('OP', 'not', r)

    def e_Subscript(self, e, st, fr):
        out = []
        for s2, vs in self.evlist([e.value, e.slice], st, fr):
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            out.extend(self.subscript(s2, vs[0], vs[1], e, fr))
        return out

    def e_Slice(self, e, st, fr):
        parts = [x for x in (e.lower, e.upper, e.step) if x is not None]
        out = []
        for s2, vs in self.evlist(parts, st, fr):
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            vs = list(vs)
            r = [vs.pop(0) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
            out.append((s2, ('OP', 'slicev', *r)))
        return out

    def subscript(self, st, o, k, node, fr):
        ck = self.const_of(st, k) if k[0] in ('K', 'S', 'OP') else None
        if k[0] == 'OP' and k[1] == 'slicev':
            it = self.seq_items(o, st)
            if it is not None and all(is_k(x) for x in k[2:]):
                sl = slice(*[kval(x) for x in k[2:]])
                r = tuple(it)[sl]
                if o[0] == 'T':
                    return [(st, ('T', r))]
                st = st.copy()
                return [(st, self.mklist(st, r, node))]
            if o[0] == 'K' and all(is_k(x) for x in k[2:]):
                try:
                    return [(st, K(o[2][slice(*[kval(x) for x in k[2:]])]))]
                except Exception:
                    pass
            if all(is_none(x) for x in k[2:]):
                return [(st, ('OP', 'copyof', o))]
            v = ('OP', 'slice', o, *k[2:])
            if self.cfg.simp is not None:
                w = self.cfg.simp(st, v)
                if w is not None:
                    return [(st, w)]
            return [(st, v)]
        if o[0] == 'D':
            m = st.heap.get((o, 'map'))
            if m is not None:
                if ck is not None:
                    for a, b in m:
                        if a == ck:
                            return [(st, b)]
                    if all(is_k(a) for a, _ in m):
                        exc = ('O', 'KeyError@%d' % getattr(node, 'lineno', 0), Ext('builtins.KeyError'))
                        return [(st, Raise(exc))]
                else:
                    for a, b in m:
                        if a == k:
                            return [(st, b)]
                    if len(m) <= 16 and all(is_k(a) or a[0] in ('C', 'F') for a, _ in m):
                        out = []
                        cur = [st]
                        for a, b in m:
                            nxt = []
                            for c in cur:
                                for s2, r in self.dec_eq(c, k, a, node, fr):
                                    if r:
                                        out.append((s2, b))
                                    else:
                                        nxt.append(s2)
                            cur = nxt
                        for c in cur:
                            exc = ('O', 'KeyError@%d' % getattr(node, 'lineno', 0), Ext('builtins.KeyError'))
                            out.append((c, Raise(exc)))
                        return out
        it = self.seq_items(o, st) if o[0] in ('T', 'L') or (o[0] == 'OP' and o[1] in ('copyof', 'list', 'tuple')) else None
        if it is not None and ck is not None and isinstance(kval(ck), int):
            if -len(it) <= kval(ck) < len(it):
                return [(st, it[kval(ck)])]
            exc = ('O', 'IndexError@%d' % getattr(node, 'lineno', 0), Ext('builtins.IndexError'))
            return [(st, Raise(exc))]
        if o[0] == 'K' and ck is not None:
            try:
                return [(st, K(o[2][kval(ck)]))]
            except Exception:
                exc = ('O', 'IndexError@%d' % getattr(node, 'lineno', 0), Ext('builtins.IndexError'))
                return [(st, Raise(exc))]
        hv = st.heap.get((o, ('[]', ck if ck is not None else k)))
        if hv is not None:
            return [(st, hv)]
        hv = self.cfg.item(self, st, o, k, node)
        if hv is not None:
            return [(st, hv)]
        v = ('OP', 'idx', o, ck if ck is not None else k)
        ver = st.ver(o)
        if ver:
            v = v + (('ver', ver),)
        res = [(st, v)]
        ev = Ev('idx', None, recv=o, args=(k,), node=node, fn=fr.fi if fr else None)
        if fr is not None and self._implicit(st, fr, ev):
            s3 = st.copy()
            self.emit(s3, Ev('iraise', 'LookupError', recv=o, node=node, fn=fr.fi, stack=fr.stack))
            res.append((s3, Raise(S('lookup@%d' % getattr(node, 'lineno', 0)))))
        return res

    def e_Lambda(self, e, st, fr):
        st = st.copy()
        fi = FuncInfo(e, fr.fi.module, fr.cls, fr.fi.qual + '.<lambda@%d>' % e.lineno, parent=fr.fi)
        key = ('lam', id(e))
        cache = self.repo.__dict__.setdefault('_lamcache', {})
        fi = cache.setdefault(key, fi)
        st.sethp(('#cap', fr.fid), TRUE)
        return [(st, ('CL', fi, (fr.fid,) + tuple(fr.parent)))]

    def e_ListComp(self, e, st, fr):
        return self._comp(e, [e.elt], 'list', st, fr)

    def e_SetComp(self, e, st, fr):
        return self._comp(e, [e.elt], 'set', st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self._comp(e, [e.elt], 'gen', st, fr)

    def e_DictComp(self, e, st, fr):
        return self._comp(e, [e.key, e.value], 'dict', st, fr)

    def _comp(self, e, elts, kind, st, fr):
        """Comprehension: exact over known items, one abstract element
        otherwise."""
        g = e.generators[0]
        out = []
        for s2, it in self.ev(g.iter, st, fr):
            if not isinstance(it, Raise) and is_none(it):
                it = Raise(('O', 'TypeError@%d' % e.lineno, Ext('builtins.TypeError')))
            if isinstance(it, Raise):
                out.append((s2, it))
                continue
            items = self.iter_items(it, s2)
            if items is not None and len(items) <= max(20, self.cfg.unroll) and len(e.generators) == 1:
                cur = [(s2.copy(), [])]
                for x in items:
                    nxt = []
                    for c, acc in cur:
                        for c2, oc in self.assign(g.target, x, c, fr):
                            if oc is not None:
                                out.append((c2, Raise(oc[1])))
                                continue
                            for c3, r in self._ifs(g.ifs, c2, fr):
                                if isinstance(r, Raise):
                                    out.append((c3, r))
                                elif not r:
                                    nxt.append((c3, acc))
                                else:
                                    for c4, vs in self.evlist(elts, c3, fr):
                                        if isinstance(vs, Raise):
                                            out.append((c4, vs))
                                        else:
                                            nxt.append((c4, acc + [tuple(vs)]))
                    cur = nxt
                for c, acc in cur:
                    c = c.copy()
                    if kind == 'dict':
                        o = ('D', self.site(c, e))
                        c.sethp((o, 'map'), tuple(acc))
                        out.append((c, o))
                    else:
                        out.append((c, self.mklist(c, [a[0] for a in acc], e)))
                continue
            if items is not None and len(items) <= max(20, self.cfg.unroll) and kind != 'dict':
                r = self._nested(e, elts, 0, items, s2.copy(), fr)
                if r is not None:
                    for c, acc in r:
                        if isinstance(acc, Raise):
                            out.append((c, acc))
                        else:
                            c = c.copy()
                            out.append((c, self.mklist(c, [a[0] for a in acc], e)))
                    continue
            # unknown collection: analyse one element for its effects
            c = s2.copy()
            el = self.elem(it, 0, c)
            res = []
            for c2, oc in self.assign(g.target, el, c, fr):
                rest = e.generators[1:]
                stk = [c2]
                for g2 in rest:
                    nstk = []
                    for c3 in stk:
                        for c4, it2 in self.ev(g2.iter, c3, fr):
                            if isinstance(it2, Raise):
                                out.append((c4, it2))
                                continue
                            for c5, oc5 in self.assign(g2.target, self.elem(it2, 0, c4), c4, fr):
                                nstk.append(c5)
                    stk = nstk
                for c3 in stk:
                    ifs = [i for gg in e.generators for i in gg.ifs]
                    for c4, r in self._ifs(ifs, c3, fr):
                        if isinstance(r, Raise):
                            out.append((c4, r))
                        elif r:
                            for c5, vs in self.evlist(elts, c4, fr):
                                if isinstance(vs, Raise):
                                    out.append((c5, vs))
                                else:
                                    out.append((c5, ('OP', 'comp', it, K(kind), *vs)))
                        else:
                            out.append((c4, ('OP', 'comp', it, K(kind), S('filtered'))))
        return out

    def _nested(self, e, elts, i, items, st, fr):
        """several known collections in one comprehension -> [(state, elements | Raise)], None when one is not known"""
        g = e.generators[i]
        cur, out = [(st, [])], []
        for x in items:
            nxt = []
            for c, acc in cur:
                for c2, oc in self.assign(g.target, x, c, fr):
                    if oc is not None:
                        out.append((c2, Raise(oc[1])))
                        continue
                    for c3, r in self._ifs(g.ifs, c2, fr):
                        if isinstance(r, Raise):
                            out.append((c3, r))
                        elif not r:
                            nxt.append((c3, acc))
                        elif i + 1 == len(e.generators):
                            for c4, vs in self.evlist(elts, c3, fr):
                                if isinstance(vs, Raise):
                                    out.append((c4, vs))
                                else:
                                    nxt.append((c4, acc + [tuple(vs)]))
                        else:
                            for c4, it in self.ev(e.generators[i + 1].iter, c3, fr):
                                if isinstance(it, Raise):
                                    out.append((c4, it))
                                    continue
                                sub = self.seq_items(it, c4)
                                if sub is None or len(sub) > max(20, self.cfg.unroll):
                                    return None
                                r2 = self._nested(e, elts, i + 1, sub, c4.copy(), fr)
                                if r2 is None:
                                    return None
                                for c5, a2 in r2:
                                    if isinstance(a2, Raise):
                                        out.append((c5, a2))
                                    else:
                                        nxt.append((c5, acc + a2))
            cur = nxt
        return out + cur

    def _ifs(self, ifs, st, fr):
        if not ifs:
            return [(st, True)]
        e = ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), list(ifs))
        return self.cond(e, st, fr)

    # ------------------------------------------------------------ calls
    def emit(self, st, ev):
        if self.cfg.record(ev):
            ev.st = (st.heap, st.facts)
            st.emit(ev, not self.cfg.join or (ev.kind != 'assume' and self.cfg.relevant(ev)))

    def _implicit(self, st, fr, ev):
        mode = self.cfg.implicit
        if mode == 'none':
            return False
        if mode == 'try' and fr.trydepth == 0:
            return False
        return self.cfg.may_raise(self, st, ev)

    def e_Call(self, e, st, fr):
        # super()
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and fr.cls is not None:
            if e.args:
                out = []
                for s2, vs in self.evlist(e.args, st, fr):
                    if isinstance(vs, Raise):
                        out.append((s2, vs))
                    elif vs[0][0] == 'C':
                        out.append((s2, ('SUPER', vs[0][1], vs[1] if len(vs) > 1 else fr.self_v)))
                    else:
                        out.append((s2, S('super')))
                return out
            sv = fr.self_v
            if sv is None and st.envs.get(fr.fid):
                a = fr.fi.node.args.args
                if a:
                    sv = st.envs[fr.fid].get(a[0].arg)
            return [(st, ('SUPER', fr.cls, sv))]
        out = []
        if isinstance(f, ast.Attribute):
            heads = []
            for s2, o in self.ev(f.value, st, fr):
                if isinstance(o, Raise):
                    out.append((s2, o))
                    continue
                s2 = s2.copy()
                for s3, fv in self.get_attr(s2, o, f.attr, f, fr):
                    if isinstance(fv, Raise):
                        out.append((s3, fv))
                    else:
                        heads.append((s3, o, f.attr, fv))
        else:
            heads = []
            for s2, fv in self.ev(f, st, fr):
                if isinstance(fv, Raise):
                    out.append((s2, fv))
                else:
                    heads.append((s2, None, f.id if isinstance(f, ast.Name) else None, fv))
        argx = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        for s2, o, name, fv in heads:
            for s3, vs in self.evlist(argx, s2, fr):
                if isinstance(vs, Raise):
                    out.append((s3, vs))
                    continue
                pos, kw = [], {}
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        it = self.seq_items(v, s3)
                        if it is not None:
                            pos.extend(it)
                        else:
                            pos.append(('OP', 'star', v))
                            kw['*'] = v
                    else:
                        pos.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        m = s3.heap.get((v, 'map')) if v[0] == 'D' else None
                        if m is not None and all(is_k(a) for a, _ in m):
                            for a, b in m:
                                kw[kval(a)] = b
                        else:
                            kw['**'] = v
                    else:
                        kw[k.arg] = v
                out.extend(self.call(s3.copy(), fv, o, name, pos, kw, e, fr))
        return out

    def call(self, st, fv, recv, name, pos, kw, node, fr):
        """Call of value fv; recv/name are known for attribute calls."""
        t = fv[0]
        if t == 'P':
            k2 = dict(fv[3])
            k2.update(kw)
            return self.call(st, fv[1], None, name, list(fv[2]) + list(pos), k2, node, fr)
        if t == 'B':
            recv, fi = fv[1], fv[2]
            ev = Ev('call', fi.name, recv=recv, args=tuple(pos), kw=tuple(kw.items()), callee=fi,
                    node=node, fn=fr.fi, stack=fr.stack)
            return self.docall(st, fi, recv, pos, kw, ev, fr)
        if t == 'F':
            fi = fv[1]
            sv = None
            if fi.cls is not None and not fi.is_static and fi.parent is None and recv is not None and recv[0] == 'C' \
                    and not fi.is_classmethod:
                # Class.method(obj, ...)
                if pos:
                    sv, pos = pos[0], pos[1:]
            ev = Ev('call', fi.name, recv=sv if sv is not None else recv, args=tuple(pos), kw=tuple(kw.items()), callee=fi,
                    node=node, fn=fr.fi, stack=fr.stack)
            return self.docall(st, fi, sv, pos, kw, ev, fr)
        if t == 'CL':
            fi = fv[1]
            ev = Ev('call', fi.name, args=tuple(pos), kw=tuple(kw.items()), callee=fi, node=node,
                    fn=fr.fi, stack=fr.stack)
            return self.docall(st, fi, None, pos, kw, ev, fr, closure=fv[2])
        if t == 'C':
            return self.instantiate(st, fv[1], pos, kw, node, fr)
        if t == 'X':
            return self.extcall(st, fv[1], pos, kw, node, fr, recv, name)
        # unknown callable / method of unknown receiver
        if recv is not None and name is not None:
            r = self.model_method(st, recv, name, pos, kw, node, fr)
            if r is not None:
                return r
        ev = Ev('call', name, recv=recv, args=tuple(pos), kw=tuple(kw.items()), callee=None, node=node,
                fn=fr.fi, stack=fr.stack, extra=fv)
        return self.docall(st, None, recv, pos, kw, ev, fr)

    def on_stack(self, fr, fi):
        return sum(1 for f, _ in fr.stack if f is fi)

    def docall(self, st, fi, self_v, pos, kw, ev, fr, closure=()):
        r = self.cfg.on_call(self, st, ev)
        if r is not None:
            return r
        if fi is not None:
            isclos = fi.parent is not None
            if fr.depth < self.cfg.max_depth and self.on_stack(fr, fi) < self.cfg.max_recursion \
                    and (self.cfg.inline(self, st, fi, ev) or isclos):
                ev.extra = 'inlined'
                self.emit(st, ev)
                out = []
                for s2, oc in self._enter(st, fi, self_v, list(pos), dict(kw), ev, fr, closure):
                    if oc[0] == 'raise':
                        out.append((s2, Raise(oc[1])))
                    else:
                        if self.cfg.record_exit(ev) if hasattr(self.cfg, 'record_exit') else False:
                            s2 = s2.copy()
                            self.emit(s2, Ev('exit', fi.name, recv=self_v, val=oc[1], callee=fi, node=ev.node, fn=fr.fi,
                                             stack=fr.stack))
                        out.append((s2, oc[1]))
                return out
        res = self.result(st, fi, ev)
        ev.val = res
        out = []
        if self._implicit(st, fr, ev):
            s3 = st.copy()
            exc = S('exc@%s:%d' % (ev.name, ev.line))
            self.emit(s3, Ev('iraise', ev.name, recv=ev.recv, args=ev.args, callee=fi, node=ev.node, fn=fr.fi,
                             val=exc, stack=fr.stack))
            out.append((s3, Raise(exc)))
        self.emit(st, ev)
        if ev.name in MUTATORS and ev.recv is not None and ev.recv[0] in ('S', 'OP', 'L', 'D') and fi is None:
            st.bump(ev.recv)
        self.cfg.post_call(self, st, ev)
        out.insert(0, (st, res))
        return out

    def result(self, st, fi, ev):
        nm = fi.name if fi is not None else (ev.name or 'call')
        base = show(ev.recv) if ev.recv is not None and ev.recv[0] in ('S', 'O', 'C') else ''
        n = st.heap.get(('#nres', nm, ev.line), 0)
        st.sethp(('#nres', nm, ev.line), n + 1)
        v = S('%s%s()@%d%s' % ((base + '.') if base and len(base) < 80 else '', nm, ev.line, '#%d' % n if n else ''))
        if fi is not None:
            ret = getattr(fi.node, 'returns', None)
            if isinstance(ret, (ast.Name, ast.Attribute)):
                r = self.repo.resolve_expr(fi.module, ret, fi.cls)
                if isinstance(r, ClassInfo):
                    st.setfact(v, Fact(inst=frozenset((r,))))
        return v

    def instantiate(self, st, ci, pos, kw, node, fr):
        ev = Ev('call', ci.name, recv=('C', ci), args=tuple(pos), kw=tuple(kw.items()), callee=ci.find('__init__'),
                node=node, fn=fr.fi, stack=fr.stack, extra='new')
        r = self.cfg.on_call(self, st, ev)
        if r is not None:
            return r
        o = self.new_obj(st, ci, node)
        ev.val = o
        out = []
        init = ci.find('__init__')
        inl = init is not None and fr.depth < self.cfg.max_depth and self.on_stack(fr, init) < self.cfg.max_recursion \
            and self.cfg.inline(self, st, init, ev)
        if not inl and self._implicit(st, fr, ev):
            s3 = st.copy()
            exc = S('exc@%s:%d' % (ci.name, ev.line))
            self.emit(s3, Ev('iraise', ci.name, node=node, fn=fr.fi, callee=init, val=exc, stack=fr.stack))
            out.append((s3, Raise(exc)))
        self.emit(st, ev)
        # annotated constructor attributes: remember the arguments
        st.sethp((o, '#args'), ('T', tuple(pos)))
        for k, v in kw.items():
            st.sethp((o, ('#kw', k)), v)
        if inl:
            for s2, oc in self._enter(st, init, o, list(pos), dict(kw), ev, fr):
                out.append((s2, Raise(oc[1]) if oc[0] == 'raise' else o))
            return out
        out.insert(0, (st, o))
        return out

    def extcall(self, st, name, pos, kw, node, fr, recv, mname):
        b = name[9:] if name.startswith('builtins.') else None
        ev = Ev('call', name.split('.')[-1], recv=recv if recv is not None else ('X', name), args=tuple(pos),
                kw=tuple(kw.items()), callee=None, node=node, fn=fr.fi, stack=fr.stack, extra=('X', name))
        r = self.cfg.on_call(self, st, ev)
        if r is not None:
            return r
        if b is not None:
            if b == 'len' and len(pos) == 1:
                n = self.len_of(st, pos[0])
                if n is not None:
                    return [(st, K(n))]
                c = self.type_of(st, pos[0])
                ver = st.ver(pos[0])
                return [(st, ('OP', 'len', pos[0]) if not ver else ('OP', 'len', pos[0], ('ver', ver)))]
            if b == 'sum' and len(pos) == 1:
                it = self.seq_items(pos[0], st)
                if it is not None and all(is_k(x) and isinstance(kval(x), (int, float)) for x in it):
                    return [(st, K(sum(kval(x) for x in it)))]
            if b == 'isinstance' and len(pos) == 2:
                return [(st, ('OP', 'isinstance', pos[0], pos[1]))]
            if b == 'type' and len(pos) == 1:
                c = self.type_of(st, pos[0])
                if isinstance(c, ClassInfo) and pos[0][0] == 'O':
                    return [(st, ('C', c))]
                if is_k(pos[0]) and isinstance(kval(pos[0]), (str, bytes, int, float)):
                    return [(st, ('X', 'builtins.' + type(kval(pos[0])).__name__))]
                return [(st, ('OP', 'type', pos[0]))]
            if b == 'getattr' and len(pos) >= 2 and is_k(pos[1]):
                if len(pos) == 3:
                    hv = st.heap.get((pos[0], kval(pos[1])))
                    if hv is not None:
                        return [(st, hv)]
                    c = self.type_of(st, pos[0])
                    if isinstance(c, ClassInfo) and c.find_attr(kval(pos[1])) is None and pos[0][0] == 'O':
                        return [(st, pos[2])]
                return self.get_attr(st, pos[0], kval(pos[1]), node, fr)
            if b == 'setattr' and len(pos) == 3 and is_k(pos[1]):
                self.emit(st, Ev('set', kval(pos[1]), recv=pos[0], val=pos[2], node=node, fn=fr.fi, stack=fr.stack))
                st.sethp((pos[0], kval(pos[1])), pos[2])
                return [(st, NONE)]
            if b == 'hasattr' and len(pos) == 2:
                if is_k(pos[1]):
                    if (pos[0], kval(pos[1])) in st.heap:
                        return [(st, K(st.heap[(pos[0], kval(pos[1]))] != ('DEL',)))]
                    c = self.type_of(st, pos[0])
                    if isinstance(c, ClassInfo) and c.find_attr(kval(pos[1])) is not None:
                        return [(st, TRUE)]
                return [(st, ('OP', 'hasattr', pos[0], pos[1]))]
            if b == 'callable':
                return [(st, ('OP', 'callable', *pos))]
            if b in ('list', 'tuple', 'set', 'dict', 'frozenset') and len(pos) <= 1:
                if not pos:
                    if b == 'dict':
                        o = ('D', self.site(st, node))
                        st.sethp((o, 'map'), tuple((K(k), v) for k, v in kw.items() if k not in ('*', '**')))
                        return [(st, o)]
                    if b == 'tuple':
                        return [(st, ('T', ()))]
                    return [(st, self.mklist(st, (), node))]
                if b == 'dict':
                    m = st.heap.get((pos[0], 'map')) if pos[0][0] == 'D' else None
                    if m is not None:
                        o = ('D', self.site(st, node))
                        st.sethp((o, 'map'), m)
                        return [(st, o)]
                    it = self.seq_items(pos[0], st)
                    prs = [x[1] if x[0] == 'T' else self.seq_items(x, st) if x[0] == 'L' else None for x in it] if it is not None else [None]
                    if it is not None and not kw and all(x is not None and len(x) == 2 and is_k(x[0]) for x in prs):
                        m = {}
                        for x in prs:
                            m[x[0]] = x[1]
                        o = ('D', self.site(st, node))
                        st.sethp((o, 'map'), tuple(m.items()))
                        return [(st, o)]
                    return [(st, ('OP', 'copyof', pos[0]))]
                it = self.seq_items(pos[0], st)
                if it is not None:
                    return [(st, ('T', tuple(it)) if b == 'tuple' else self.mklist(st, it, node))]
                if pos[0][0] == 'OP' and pos[0][1] in ('keys', 'values', 'items'):
                    return [(st, pos[0])]
                return [(st, ('OP', 'copyof', pos[0]))]
            if b in ('str', 'int', 'float', 'bytes', 'bool', 'hash', 'repr', 'abs'):
                if len(pos) == 1:
                    if is_k(pos[0]) and b in ('str', 'int', 'float', 'bool', 'abs'):
                        try:
                            return [(st, K(getattr(_bi, b)(kval(pos[0]))))]
                        except Exception:
                            exc = ('O', '%s@%d' % (b, node.lineno), Ext('builtins.ValueError'))
                            return [(st, Raise(exc))]
                    v = ('OP', b, pos[0])
                    res = [(st, v)]
                    if b in ('int', 'float'):
                        if self._implicit(st, fr, ev):
                            s3 = st.copy()
                            exc = ('O', '%s@%d' % (b, node.lineno), Ext('builtins.ValueError'))
                            self.emit(s3, Ev('iraise', b, recv=None, args=tuple(pos), node=node, fn=fr.fi, val=exc,
                                             stack=fr.stack))
                            res.append((s3, Raise(exc)))
                    return res
            if b in ('enumerate', 'zip', 'reversed', 'sorted', 'iter'):
                if b == 'enumerate' and 'start' in kw:
                    pos = list(pos) + [kw['start']]
                return [(st, ('OP', b if b != 'iter' else 'copyof', *pos))]
            if b == 'range' and all(is_k(x) for x in pos):
                try:
                    r = range(*[kval(x) for x in pos])
                    if len(r) <= 40:
                        return [(st, ('T', tuple(K(x) for x in r)))]
                except Exception:
                    pass
            if b in ('min', 'max') and pos and all(is_k(x) for x in pos) and len(pos) > 1:
                try:
                    return [(st, K(getattr(_bi, b)(*[kval(x) for x in pos])))]
                except Exception:
                    pass
            if b in ('min', 'max'):
                return [(st, ('OP', b, *pos))]
            if b == 'super':
                return [(st, S('super'))]
            if b == 'map' and len(pos) == 2 and self.seq_items(pos[1], st) is not None:
                cur = [(st, [])]
                out = []
                for x in self.seq_items(pos[1], st):
                    nxt = []
                    for c, acc in cur:
                        for c2, v in self.call(c.copy(), pos[0], None, None, [x], {}, node, fr):
                            if isinstance(v, Raise):
                                out.append((c2, v))
                            else:
                                nxt.append((c2, acc + [v]))
                    cur = nxt
                for c, acc in cur:
                    out.append((c, self.mklist(c, acc, node)))
                return out
            if b in ('any', 'all') and len(pos) == 1 and self.seq_items(pos[0], st) is not None and len(self.seq_items(pos[0], st)) <= 20:
                out, cur = [], [st]
                for x in self.seq_items(pos[0], st):
                    nxt = []
                    for c in cur:
                        for c2, t in self.decide(c, x, node, fr):
                            if t == (b == 'any'):
                                out.append((c2, K(t)))
                            else:
                                nxt.append(c2)
                    cur = nxt
                out.extend((c, K(b == 'all')) for c in cur)
                return out
            if b == 'filter' and len(pos) == 2 and self.seq_items(pos[1], st) is not None and len(self.seq_items(pos[1], st)) <= 20:
                out, cur = [], [(st, [])]
                for x in self.seq_items(pos[1], st):
                    nxt = []
                    for c, acc in cur:
                        for c2, v in [(c, x)] if is_none(pos[0]) else self.call(c.copy(), pos[0], None, None, [x], {}, node, fr):
                            if isinstance(v, Raise):
                                out.append((c2, v))
                                continue
                            for c3, t in self.decide(c2, v, node, fr):
                                nxt.append((c3, acc + [x] if t else acc))
                    cur = nxt
                for c, acc in cur:
                    c = c.copy()
                    out.append((c, self.mklist(c, acc, node)))
                return out
            if b in ('any', 'all', 'sum', 'ord', 'chr', 'map', 'filter', 'id'):
                return [(st, ('OP', b, *pos))]
            exn = _pyclass(name)
            if exn is not None and isinstance(exn, type) and issubclass(exn, BaseException):
                return [(st, ('O', 'x' + self.site(st, node), Ext(name)))]
            if b == 'next':
                pass
        if name in ('functools.partial',) and pos:
            return [(st, ('P', pos[0], tuple(pos[1:]), tuple(kw.items())))]
        if name in ('collections.OrderedDict', 'collections.deque') and not pos:
            return [(st, self.mklist(st, (), node))] if name.endswith('deque') else \
                self.extcall(st, 'builtins.dict', pos, kw, node, fr, None, None)
        return self.docall(st, None, ev.recv, pos, kw, ev, fr)

    def model_method(self, st, o, name, pos, kw, node, fr):
        """Library containers with known content."""
        if o[0] == 'L':
            it = st.heap.get((o, 'items'))
            ev = Ev('call', name, recv=o, args=tuple(pos), node=node, fn=fr.fi, stack=fr.stack)
            if it is not None:
                if name == 'append' and len(pos) == 1:
                    self.emit(st, ev)
                    st.sethp((o, 'items'), it + (pos[0],))
                    return [(st, NONE)]
                if name in ('insert',) and len(pos) == 2 and is_k(pos[0]):
                    self.emit(st, ev)
                    l = list(it)
                    l.insert(kval(pos[0]), pos[1])
                    st.sethp((o, 'items'), tuple(l))
                    return [(st, NONE)]
                if name == 'appendleft' and len(pos) == 1:
                    self.emit(st, ev)
                    st.sethp((o, 'items'), (pos[0],) + it)
                    return [(st, NONE)]
                if name in ('pop', 'popleft'):
                    idx = 0 if name == 'popleft' else (kval(pos[0]) if pos and is_k(pos[0]) else -1 if not pos else None)
                    if idx is not None and isinstance(idx, int):
                        if -len(it) <= idx < len(it):
                            self.emit(st, ev)
                            l = list(it)
                            v = l.pop(idx)
                            st.sethp((o, 'items'), tuple(l))
                            ev.val = v
                            return [(st, v)]
                        if not it:
                            return [(st, Raise(('O', 'IndexError@%d' % node.lineno, Ext('builtins.IndexError'))))]
                if name == 'extend' and len(pos) == 1:
                    x = self.seq_items(pos[0], st)
                    if x is not None:
                        for y in x:
                            self.emit(st, Ev('call', 'append', recv=o, args=(y,), node=node, fn=fr.fi, stack=fr.stack))
                    else:
                        self.emit(st, ev)
                    st.sethp((o, 'items'), it + (tuple(x) if x is not None else (('OP', 'star', pos[0]),)))
                    return [(st, NONE)]
                if name == 'clear':
                    self.emit(st, ev)
                    st.sethp((o, 'items'), ())
                    return [(st, NONE)]
                if name == 'remove' and len(pos) == 1 and pos[0] in it:
                    self.emit(st, ev)
                    l = list(it)
                    l.remove(pos[0])
                    st.sethp((o, 'items'), tuple(l))
                    return [(st, NONE)]
                if name == 'remove' and len(pos) == 1 and all(x[0] in ('O', 'K') for x in it + (pos[0],)):
                    self.emit(st, ev)
                    return [(st, Raise(('O', 'ValueError@%d' % node.lineno, Ext('builtins.ValueError'))))]
                if name == 'copy':
                    return [(st, self.mklist(st, it, node))]
                if name == 'reverse' and not pos:
                    self.emit(st, ev)
                    st.sethp((o, 'items'), it[::-1])
                    return [(st, NONE)]
                if name == 'sort' and len(it) < 2:
                    self.emit(st, ev)
                    return [(st, NONE)]
                if name == 'sort' and not pos and not kw and self.cfg.sort_keeps:
                    self.emit(st, ev)
                    st.sethp((o, '#heap'), K(True))
                    return [(st, NONE)]
                if name == 'count' and len(pos) == 1 and is_k(pos[0]) and all(is_k(x) for x in it):
                    return [(st, K(it.count(pos[0])))]
                if name == 'index' and len(pos) == 1 and pos[0] in it:
                    return [(st, K(it.index(pos[0])))]
                if name in MUTATORS:
                    st.sethp((o, 'items'), None)
            return None
        if o[0] == 'D':
            m = st.heap.get((o, 'map'))
            if m is not None:
                if name == 'get' and pos:
                    k = pos[0]
                    dfl = pos[1] if len(pos) > 1 else kw.get('default', NONE)
                    return self.dict_get(st, m, k, dfl, node, fr)
                if name in ('keys', 'values', 'items', 'iteritems', 'itervalues'):
                    return [(st, ('OP', {'iteritems': 'items', 'itervalues': 'values'}.get(name, name), o))]
                if name == 'copy':
                    n = ('D', self.site(st, node))
                    st.sethp((n, 'map'), m)
                    return [(st, n)]
                if name == 'pop' and pos and is_k(pos[0]) and any(a == pos[0] for a, _ in m):
                    v = [b for a, b in m if a == pos[0]][0]
                    self.emit(st, Ev('call', 'pop', recv=o, args=tuple(pos), node=node, fn=fr.fi, val=v, stack=fr.stack))
                    st.sethp((o, 'map'), tuple((a, b) for a, b in m if a != pos[0]))
                    return [(st, v)]
                if name == 'pop' and pos and is_k(pos[0]) and all(is_k(a) for a, _ in m):
                    self.emit(st, Ev('call', 'pop', recv=o, args=tuple(pos), node=node, fn=fr.fi, stack=fr.stack))
                    if len(pos) > 1:
                        return [(st, pos[1])]
                    return [(st, Raise(('O', 'KeyError@%d' % node.lineno, Ext('builtins.KeyError'))))]
                if name == 'setdefault' and pos and is_k(pos[0]) and all(is_k(a) for a, _ in m):
                    self.emit(st, Ev('call', name, recv=o, args=tuple(pos), node=node, fn=fr.fi, stack=fr.stack))
                    for a, b in m:
                        if a == pos[0]:
                            return [(st, b)]
                    v = pos[1] if len(pos) > 1 else NONE
                    st.sethp((o, 'map'), m + ((pos[0], v),))
                    return [(st, v)]
                if name == 'update' and len(pos) == 1 and pos[0][0] == 'D' and st.heap.get((pos[0], 'map')) is not None:
                    m2 = st.heap[(pos[0], 'map')]
                    ks = [a for a, _ in m2]
                    st.sethp((o, 'map'), tuple((a, b) for a, b in m if a not in ks) + m2)
                    return [(st, NONE)]
                if name in MUTATORS:
                    st.delhp((o, 'map'))
            return None
        if o[0] == 'K' and isinstance(o[2], (str, bytes)):
            if name == 'join' and len(pos) == 1:
                return [(st, ('OP', 'fmt', K('join:%r' % (o[2],)), pos[0]))]
            if name == 'format':
                return [(st, ('OP', 'fmt', o, *pos, *kw.values()))]
            if all(is_k(p) for p in pos) and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'encode',
                                                      'replace', 'title', 'capitalize', 'decode', 'lstrip', 'rstrip', 'rsplit',
                                                      'find', 'rfind', 'count', 'isdigit', 'isalpha', 'isspace', 'partition',
                                                      'rpartition', 'splitlines', 'swapcase', 'zfill', 'index', 'rindex'):
                try:
                    r = getattr(o[2], name)(*[kval(p) for p in pos])
                    if isinstance(r, tuple):
                        return [(st, ('T', tuple(K(x) for x in r)))]
                    if isinstance(r, list):
                        return [(st, self.mklist(st, [K(x) for x in r], node))]
                    return [(st, K(r))]
                except Exception:
                    pass
            return None
        if o[0] in ('S', 'OP'):
            if name in ('keys', 'values', 'items', 'iteritems', 'itervalues') and not pos and self.type_of(st, o) is None:
                return [(st, ('OP', {'iteritems': 'items', 'itervalues': 'values'}.get(name, name), o))]
            if name == 'get' and 1 <= len(pos) <= 2 and self.type_of(st, o) is None:
                hv = st.heap.get((o, ('[]', pos[0])))
                if hv is not None:
                    return [(st, hv)]
            if name == 'lower' and not pos:
                return [(st, ('OP', 'lower', o))]
            if name == 'copy' and not pos and self.type_of(st, o) is None:
                return [(st, ('OP', 'copyof', o))]
        return None

    def dict_get(self, st, m, k, dfl, node, fr):
        out = []
        cur = [st]
        ck = self.const_of(st, k)
        if ck is not None:
            k = ck
        for a, b in m:
            nxt = []
            for c in cur:
                for s2, r in self.dec_eq(c, k, a, node, fr):
                    if r:
                        out.append((s2, b))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((c, dfl) for c in cur)
        return out


def _weaken(fs):
    none = fs[0].none if all(f.none == fs[0].none for f in fs) else None
    truth = fs[0].truth if all(f.truth == fs[0].truth for f in fs) else None
    eq = fs[0].eq if all(f.eq == fs[0].eq for f in fs) else None
    ne = frozenset.intersection(*[f.ne for f in fs])
    inst = frozenset.intersection(*[f.inst for f in fs])
    ninst = frozenset.intersection(*[f.ninst for f in fs])
    lo = min((f.lo for f in fs), key=lambda x: x[0]) if all(f.lo for f in fs) else None
    hi = max((f.hi for f in fs), key=lambda x: x[0]) if all(f.hi for f in fs) else None
    return Fact(none, truth, eq, ne, lo, hi, inst, ninst)


def _boolish(v):
    """False unless the value is a comparison result (then its decision is
    all there is to it)."""
    return v[0] == 'OP' and v[1] in ('not', 'eq', 'lt', 'in', 'isinstance', 'isnone', 'hasattr')


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    for n in ast.walk(t2):
        ast.copy_location(n, t)
        if hasattr(n, 'end_lineno'):
            n.end_lineno = t.end_lineno
            n.lineno = t.lineno
    return t2


def _vsize(v, lim=80):
    if not isinstance(v, tuple):
        return 1
    n = 1
    for x in v[1:]:
        if isinstance(x, tuple):
            n += _vsize(x, lim)
            if n > lim:
                return n
    return n


def _binop(op, a, b):
    import operator as o
    if op == 'mult' and (isinstance(a, (str, bytes, list, tuple)) or isinstance(b, (str, bytes, list, tuple))):
        raise ValueError
    if op == 'pow' or op == 'lshift':
        if abs(b) > 64:
            raise ValueError
    return {'add': o.add, 'sub': o.sub, 'mult': o.mul, 'div': o.truediv, 'floordiv': o.floordiv,
            'mod': o.mod, 'bitor': o.or_, 'bitand': o.and_, 'bitxor': o.xor, 'pow': o.pow,
            'lshift': o.lshift, 'rshift': o.rshift}[op](a, b)


import builtins as _bi
_BUILTINS = set(dir(_bi))


def _pyclass(name):
    """Class object of a Python builtin (exception) name."""
    n = name.split('.')[-1]
    if name.startswith('builtins.') or '.' not in name:
        c = getattr(_bi, n, None)
        return c if isinstance(c, type) else None
    table = {'socket.error': OSError, 'os.error': OSError, 'socket.timeout': OSError,
             'queue.Empty': _QEmpty, 'queue.Full': _QFull}
    return table.get(name)


class _QEmpty(Exception):
    pass


class _QFull(Exception):
    pass
