"""Texts with symbols in them: a text is a constant in which every variable
part is one private-use character standing for any word (or number, or free
text). Cutting, searching and joining act on such a text exactly as they act
on every text it stands for, as long as words hold no separators; operations
that look inside a word (lower, quote, int, len, ...) are followed on symbols."""
import ast
import re
from urllib.parse import quote as _quote, unquote as _unquote

from .interp import Ev, Fact, Frame, K, S, NONE, TRUE, FALSE, is_k, kval, Raise, _as_load
from .repo import ClassInfo, Ext, FuncInfo
from .scen import SInterp
from .wire import WCfg
from .strs import _PCT, _BRC

BASE, STEP, SIZE = 0xE000, 0x300, 0x100
WORD, NUM, FREE = 0, 1, 2
RAW, LOWER, QUOTED, UNQUOTED, UPPER, OTHER = range(6)
LIM = BASE + 6 * STEP
VAR = ('', 'lower-cased ', 'quoted ', 'unquoted ', 'upper-cased ', 'altered ')


class Names:
    """gives out symbols"""
    def __init__(self):
        self.names = {}
        self.n = [0, 0, 0]

    def new(self, kind, name):
        for c, (k, nm) in self.names.items():
            if nm == name and k == kind:
                return c
        c = chr(BASE + kind * SIZE + self.n[kind])
        self.n[kind] += 1
        self.names[c] = (kind, name)
        return c

    def word(self, name):
        return self.new(WORD, name)

    def num(self, name):
        return self.new(NUM, name)

    def free(self, name):
        return self.new(FREE, name)

    def show(self, s):
        out = ''
        for c in s:
            i = split(c)
            if i is None:
                out += c
            else:
                b = chr(BASE + i[0] * SIZE + i[2])
                out += '<%s%s>' % (VAR[i[1]], self.names.get(b, (0, 'u%04x' % ord(b)))[1])
        return out


def split(c):
    """character -> (kind, variant, number) of a symbol, or None"""
    o = ord(c)
    if not BASE <= o < LIM:
        return None
    v, r = divmod(o - BASE, STEP)
    return r // SIZE, v, r % SIZE


def symbolic(s):
    return any(BASE <= ord(c) < LIM for c in s)


def alter(c, to):
    k, v, n = split(c)
    if v != RAW and (v, to) not in ((QUOTED, UNQUOTED),):
        to = OTHER if to != v or to in (QUOTED, UNQUOTED) else v
    elif (v, to) == (QUOTED, UNQUOTED):
        to = RAW
    return chr(BASE + to * STEP + k * SIZE + n)


def quoted(c):
    return alter(c, QUOTED)


def pieces(s):
    """text -> runs of constants and single symbols"""
    return [p for p in re.split('([%s-%s])' % (chr(BASE), chr(LIM - 1)), s) if p]


def mapped(s, const, to, kinds=(WORD, FREE)):
    return ''.join((alter(p, to) if split(p)[0] in kinds else p) if split(p[0]) is not None and len(p) == 1 else const(p) for p in pieces(s))


def text_like(ci):
    return any(isinstance(b, Ext) and b.name == 'builtins.str' or isinstance(b, ClassInfo) and text_like(b) for b in ci.bases)


def isnum(s):
    return len(s) == 1 and split(s) is not None and split(s)[:2] == (NUM, RAW)


def text_of(v):
    """the text a value is printed as, or None"""
    if v[0] == 'K' and isinstance(v[2], str):
        return v[2]
    if v[0] == 'K' and v[2] is not None and isinstance(v[2], (int, float, bool)):
        return str(v[2])
    if v[0] == 'K' and v[2] is None:
        return 'None'
    if v[0] == 'OP' and v[1] == 'int' and is_k(v[2]) and isinstance(v[2][2], str) and isnum(v[2][2]):
        return v[2][2]
    return None


def verr(node, name='ValueError'):
    return Raise(('O', '%s@%d' % (name, getattr(node, 'lineno', 0)), Ext('builtins.' + name)))


def fname(node, r):
    """last part of the name of a library function"""
    if isinstance(r, Ext):
        return r.name.split('.')[-1]
    if isinstance(r, tuple) and r[0] == 'value':
        node = r[2]
    return node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else None


def isfree(t):
    """may hold characters of more than one byte"""
    return any(split(p)[0] == FREE if split(p[0]) is not None else not p.isascii() for p in pieces(t))


def size_name(t, byt):
    return 'number of %s in "%s"' % ('bytes' if byt or not isfree(t) else 'characters', t)


def sum_name(d):
    """name of the number that is a sum"""
    return ' + '.join(sorted('%d * %s' % (n, k[1]) for k, n in d.items() if k is not None)) + ' + %d' % d[None]


class TextI(SInterp):
    # ---------------------------------------------------------------- lengths
    def lin(self, v):
        """a length or number as a sum: {part: factor, None: constant}, or None"""
        if v[0] == 'K':
            return {None: v[2]} if type(v[2]) is int else None
        if v[0] != 'OP':
            return None
        if v[1] in ('int', 'len') and len(v) == 3:
            a, byt = v[2], True
            if v[1] == 'int':
                fr = self.cfg.frame
                if not is_k(a) or not isinstance(a[2], str):
                    return None
                if fr is None or a[2] != fr[0]:
                    return {('n', a[2]): 1, None: 0}
                d, t = fr[2], fr[1]
            else:
                d, byt = 0, a[0] == 'OP' and a[1] == 'bytes'
                t = a[2] if byt else a
                if t[0] != 'K' or not isinstance(t[2], str):
                    return None
                t = t[2]
            out = {None: d}
            for p in pieces(t):
                c = split(p[0])
                if c is None:
                    out[None] += len(p.encode()) if byt else len(p)
                else:
                    k = ('bytes' if byt or c[0] != FREE else 'characters', p)
                    out[k] = out.get(k, 0) + 1
            return out
        if v[1] in ('add', 'sub') and len(v) == 4:
            a, b = self.lin(v[2]), self.lin(v[3])
            if a is None or b is None:
                return None
            return self.plus(a, b, 1 if v[1] == 'add' else -1)
        return None

    def plus(self, a, b, f):
        out = dict(a)
        for k, n in b.items():
            out[k] = out.get(k, 0) + f * n
        return {k: n for k, n in out.items() if n or k is None}

    def gap(self, a, b):
        """a - b as a number, or None"""
        if is_k(a) and is_k(b):
            return None
        x, y = self.lin(a), self.lin(b)
        if x is None or y is None:
            return None
        d = self.plus(x, y, -1)
        return d[None] if set(d) <= {None} else None

    def subscript(self, st, o, k, node, fr):
        byt = o[0] == 'OP' and o[1] == 'bytes' and is_k(o[2])
        t = o[2] if byt else o
        if t[0] == 'K' and isinstance(t[2], str) and k[0] == 'OP' and k[1] == 'slicev' and k[4] in (NONE, K(1)):
            lo, up = k[2], k[3]
            if byt and all(x == NONE or is_k(x) for x in (lo, up)):
                return [(st, ('OP', 'bytes', K(t[2][kval(lo):kval(up)])))]
            if lo in (NONE, K(0)) and not is_k(up):
                whole = ('OP', 'len', o)
                d = self.gap(up, whole)
                tail = t[2][d:] if d else ''
                if d is not None and d >= 0:
                    r = t[2]
                elif d is not None and len(tail) == -d and tail.isascii() and len(t[2]) > -d:
                    r = t[2][:d]
                elif self.lin(up) is not None and self.cfg.names is not None:
                    r = self.cfg.names.free('the first %s %s of %s' % (self.amount(up), 'bytes' if byt or not isfree(t[2]) else 'characters', t[2]))
                else:
                    return SInterp.subscript(self, st, o, k, node, fr)
                return [(st, ('OP', 'bytes', K(r)) if byt else K(r))]
        return SInterp.subscript(self, st, o, k, node, fr)

    def amount(self, v):
        d = self.lin(v)
        return ' + '.join(sorted('%s%s' % ('' if n == 1 else '%d ' % n, 'length in %s of %s' % k) for k, n in d.items() if k is not None) + [str(d[None])])

    # ---------------------------------------------------------------- printing
    def shown(self, st, v, spec, node, fr):
        """-> [(state, text | Raise | None)]"""
        num = spec[-1:] in ('d', 'i', 'u')
        if num and v[0] == 'K' and isinstance(v[2], str):
            return [(st, verr(node, 'TypeError'))]
        if spec in ('', 's', 'd') or spec[-1:] in ('s',) and spec == 's':
            if num and v[0] == 'O' and isinstance(v[2], ClassInfo) and v[2].find('__int__') is None:
                return [(st, verr(node, 'TypeError'))]
            t = text_of(v)
            if t is not None:
                return [(st, t)]
            if v[0] == 'O' and (v, '#text') in st.heap and v[2].find('__str__') is None and not num:
                return [(st, text_of(st.heap[(v, '#text')]))]
            if v[0] == 'T' and not num:
                return [(st, '(' + ', '.join(text_of(x) or '?' for x in v[1]) + ')')]
            if v[0] == 'OP' and v[1] == 'len' and self.cfg.names is not None:
                byt = v[2][0] == 'OP' and v[2][1] == 'bytes'
                x = v[2][2] if byt else v[2]
                if is_k(x) and isinstance(x[2], str):
                    return [(st, self.cfg.names.num(size_name(x[2], byt)))]
            if v[0] == 'OP' and v[1] in ('add', 'sub') and self.cfg.names is not None:
                d = self.lin(v)
                if d is not None and all(k is None or k[0] == 'n' for k in d):
                    return [(st, self.cfg.names.num(sum_name(d)))]
            if v[0] == 'O' and isinstance(v[2], ClassInfo) and v[2].find('__str__') is not None:
                fi = v[2].find('__int__' if num else '__str__')
                out = []
                for s2, r in self.call(st.copy(), ('B', v, fi), v, fi.name, [], {}, node, fr):
                    out.append((s2, r if isinstance(r, Raise) else text_of(r)))
                return out
            return [(st, None)]
        if is_k(v):
            try:
                x = kval(v)
                if isinstance(x, str) and symbolic(x):
                    return [(st, None)]
                return [(st, ('%' + spec) % x)]
            except Exception:
                pass
        return [(st, None)]

    def printed(self, st, parts, node, fr, whole):
        """parts: constants and (value, spec) -> [(state, value)]"""
        cur, out = [(st, [])], []
        for p in parts:
            nxt = []
            for c, acc in cur:
                if isinstance(p, str):
                    nxt.append((c, acc + [p] if acc is not None else None))
                    continue
                for s2, t in self.shown(c, p[0], p[1], node, fr):
                    if isinstance(t, Raise):
                        out.append((s2, t))
                    else:
                        nxt.append((s2, acc + [t] if acc is not None and t is not None else None))
            cur = nxt
        out.extend((c, K(''.join(acc)) if acc is not None else whole) for c, acc in cur)
        return out

    def format_parts(self, f, args):
        """%-format and its arguments -> parts, or None"""
        parts, i, pos = [], 0, 0
        for m in _PCT.finditer(f):
            parts.append(f[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                parts.append('%')
                continue
            if i >= len(args):
                return None
            parts.append((args[i], m.group(1)))
            i += 1
        if i != len(args):
            return None
        return parts + [f[pos:]]

    def brace_parts(self, f, args, kw):
        parts, i, pos = [], 0, 0
        for m in _BRC.finditer(f):
            parts.append(f[pos:m.start()])
            pos = m.end()
            t = m.group(0)
            if t in ('{{', '}}'):
                parts.append(t[0])
                continue
            nm, _, sp = t[1:-1].partition(':')
            if '!' in nm or '.' in nm or '[' in nm:
                return None
            if nm == '':
                k, i = i, i + 1
            elif nm.isdigit():
                k = int(nm)
            else:
                k = nm
            if k not in kw and not (isinstance(k, int) and k < len(args)):
                return None
            parts.append((kw[k] if k in kw else args[k], sp))
        return parts + [f[pos:]]

    def e_JoinedStr(self, e, st, fr):
        vals = [x for x in e.values if isinstance(x, ast.FormattedValue)]
        if any(x.conversion not in (-1, 115) or x.format_spec is not None and not all(isinstance(y, ast.Constant) for y in x.format_spec.values) for x in vals):
            return SInterp.e_JoinedStr(self, e, st, fr)
        out = []
        for s2, vs in self.evlist([x.value for x in vals], st, fr):
            if isinstance(vs, Raise):
                out.append((s2, vs))
                continue
            it = iter(vs)
            parts = [x.value if isinstance(x, ast.Constant) else (next(it), ''.join(y.value for y in x.format_spec.values) if x.format_spec is not None else '')
                     for x in e.values]
            t = ''.join(x.replace('{', '{{').replace('}', '}}') if isinstance(x, str) else '{:%s}' % x[1] if x[1] else '{}' for x in parts)
            out.extend(self.printed(s2, parts, e, fr, ('OP', 'fmt', K(t), *vs)))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for s2, v in SInterp.e_BinOp(self, e, st, fr):
            if isinstance(v, tuple) and v[0] == 'OP' and v[1] == 'fmt' and is_k(v[2]) and isinstance(v[2][2], str) and isinstance(e.op, ast.Mod):
                f = v[2][2]
                args = list(v[3:])
                if len(args) == 1 and args[0][0] == 'D' and '%(' in f:
                    m = dict((kval(a), b) for a, b in s2.heap.get((args[0], 'map')) or () if is_k(a))
                    parts = self.brace_parts(re.sub(r'%\((\w+)\)[sd]', r'{\1}', f.replace('{', '{{').replace('}', '}}')), [], m)
                else:
                    parts = self.format_parts(f, args)
                if parts is not None:
                    out.extend(self.printed(s2, parts, e, fr, v))
                    continue
            if isinstance(v, tuple) and v[0] == 'OP' and v[1] in ('add', 'sub'):
                d = self.lin(v)
                if d is not None and set(d) <= {None}:
                    out.append((s2, K(d[None])))
                    continue
            if isinstance(v, tuple) and v[0] == 'OP' and v[1] == 'add':
                a, b = v[2], v[3]
                if all(x[0] == 'OP' and x[1] == 'bytes' or x[0] == 'K' and isinstance(x[2], bytes) for x in (a, b)):
                    out.append((s2, ('OP', 'bytes', K(''.join(x[2].decode() if x[0] == 'K' else x[2][2] for x in (a, b))))))
                    continue
                if a[0] == 'K' and isinstance(a[2], str) and (b[0] == 'O' or b == NONE or b[0] == 'OP' and b[1] == 'int' or b[0] == 'K' and isinstance(b[2], int)) or \
                        b[0] == 'K' and isinstance(b[2], str) and (a == NONE or a[0] == 'OP' and a[1] == 'int' or a[0] == 'K' and isinstance(a[2], int)):
                    out.append((s2, verr(e, 'TypeError')))
                    continue
            if isinstance(v, tuple) and v[0] == 'OP' and v[1] == 'add' and v[2][0] == 'O' and isinstance(v[2][2], ClassInfo) and v[2][2].find('__add__'):
                fi = v[2][2].find('__add__')
                out.extend(self.call(s2.copy(), ('B', v[2], fi), v[2], '__add__', [v[3]], {}, e, fr))
                continue
            out.append((s2, v))
        return out

    def cmp(self, op, a, b, st):
        n = type(op).__name__
        if n in ('In', 'NotIn') and b[0] == 'OP' and b[1] == 'dir' and is_k(a):
            v = b[2]
            if v[0] in ('K', 'OP'):
                return K((kval(a) in dir(str)) == (n == 'In'))
            if v[0] == 'O' and isinstance(v[2], ClassInfo):
                has = v[2].find_attr(kval(a)) is not None or (v, kval(a)) in st.heap
                return K(has == (n == 'In'))
        if n in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
            d = self.gap(a, b)
            if d is not None:
                return K({'Lt': d < 0, 'LtE': d <= 0, 'Gt': d > 0, 'GtE': d >= 0, 'Eq': d == 0, 'NotEq': d != 0}[n])
            x, y = (c[2] if c[0] == 'OP' and c[1] == 'bytes' else c if c[0] == 'K' and isinstance(c[2], bytes) else None for c in (a, b))
            if n in ('Eq', 'NotEq') and x is not None and y is not None and (x is not a or y is not b):
                x, y = (c[2].decode() if isinstance(c[2], bytes) else c[2] for c in (x, y))
                return K((x == y) == (n == 'Eq'))
        if n in ('Eq', 'NotEq', 'Is', 'IsNot'):
            # a number never equals a text
            for x, y in ((a, b), (b, a)):
                if x[0] == 'OP' and x[1] == 'int' and y[0] == 'K' and isinstance(y[2], str):
                    return K(n in ('NotEq', 'IsNot'))
        return SInterp.cmp(self, op, a, b, st)

    def decide(self, st, v, node, fr):
        if v[0] == 'K' and isinstance(v[2], str):
            return [(st, bool(v[2]))]
        if v[0] == 'OP' and v[1] == 'bytes':
            return [(st, bool(v[2][2]))]
        return SInterp.decide(self, st, v, node, fr)

    def static_val(self, m, node, name, cls, st):
        if isinstance(node, ast.Lambda):
            fi = self.repo.__dict__.setdefault('_statlam', {}).setdefault(id(node), FuncInfo(node, m, cls, name + '.<lambda>'))
            return ('CL', fi, ())
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
            a, b = (self.static_val(m, x, name + '.' + t, cls, st) for x, t in ((node.left, 'a'), (node.right, 'b')))
            if is_k(a) and is_k(b) and isinstance(a[2], str) and isinstance(b[2], int) and b[2] <= 1000:
                return K(a[2] * b[2])
        if isinstance(node, ast.Call) and (m, name) not in self.working:
            self.working.add((m, name))
            try:
                v = self.worked_out(m, node, name, cls, st)
            finally:
                self.working.discard((m, name))
            if v is not None:
                return v
        return SInterp.static_val(self, m, node, name, cls, st)

    def _const_default(self, fi, node, st):
        r = list(self.ev(node, st, Frame(0, fi, fi.cls, None, (), 0, 0, ())))
        if len(r) == 1 and r[0][0] is not st:
            for k, v in r[0][0].heap.items():
                if k not in st.heap:
                    st.sethp(k, v)
        return r[0][1] if r else S('default')

    working = set()

    def worked_out(self, m, node, name, cls, st):
        """the value a call at module or class level gives"""
        ci = self.repo.resolve_expr(m, node.func, cls)
        if isinstance(ci, ClassInfo):
            o = ('O', 'static:' + name, ci)
            if (o, '#args') in st.heap:
                return o
            init = ci.find('__init__')
            args = [self.static_val(m, a, '%s.a%d' % (name, i), cls, st) for i, a in enumerate(node.args)]
            st.sethp((o, '#args'), ('T', tuple(args)))
            if init is None:
                return o
            r = [s for s, oc in self.run(init, o, args, {}, st) if oc[0] == 'ret']
            if len(r) != 1:
                return None
            done = r[0]
            var = name.rpartition('.')[2]
            body = cls.node.body if cls is not None else m.tree.body
            for x in body:
                # methods called on it while the module is imported
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) and \
                        x.value.func.value.id == var and ci.find(x.value.func.attr) is not None:
                    args = [self.static_val(m, a, '%s.b%d' % (name, i), cls, done) for i, a in enumerate(x.value.args)]
                    r = [s for s, oc in self.run(ci.find(x.value.func.attr), o, args, {}, done) if oc[0] == 'ret']
                    if len(r) != 1:
                        return None
                    done = r[0]
            for k, v in done.heap.items():
                if k not in st.heap:
                    st.sethp(k, v)
            return o
        if not isinstance(ci, FuncInfo):
            args = [self.static_val(m, a, '%s.a%d' % (name, i), cls, st) for i, a in enumerate(node.args)]
            if fname(node.func, ci) == 'compile' and args and all(is_k(a) for a in args):
                return ('OP', 'regex', *args)
            if fname(node.func, ci) == 'maketrans' and len(args) == 2 and all(is_k(a) for a in args):
                return ('OP', 'trans', *args)
        return None

    # ---------------------------------------------------------------- texts with methods of their own
    def instantiate(self, st, ci, pos, kw, node, fr):
        out = SInterp.instantiate(self, st, ci, pos, kw, node, fr)
        if len(pos) == 1 and text_like(ci) and not kw:
            for s2, o in out:
                if isinstance(o, Raise):
                    continue
                a = s2.heap.get((pos[0], '#text'), pos[0])
                if text_of(a) is not None:
                    s2.sethp((o, '#text'), K(text_of(a)))
        return out

    # ---------------------------------------------------------------- methods
    def get_attr(self, st, o, name, node, fr):
        if o[0] == 'O' and (o, '#text') in st.heap and (o, name) not in st.heap and o[2].find(name) is None and o[2].find_attr(name) is None and hasattr(str, name):
            return [(st, ('BM', st.heap[(o, '#text')], name))]
        if (o[0] in ('L', 'D') or o[0] == 'K' and isinstance(o[2], str)) and (o, name) not in st.heap:
            return [(st, ('BM', o, name))]
        return SInterp.get_attr(self, st, o, name, node, fr)

    def call(self, st, fv, recv, name, pos, kw, node, fr):
        if fv[0] == 'BM':
            return SInterp.call(self, st, S('method ' + fv[2]), fv[1], fv[2], pos, kw, node, fr)
        return SInterp.call(self, st, fv, recv, name, pos, kw, node, fr)

    def model_method(self, st, o, name, pos, kw, node, fr):
        if o[0] == 'K' and isinstance(o[2], bytes) and name in ('translate', 'decode'):
            o = ('OP', 'bytes', K(o[2].decode('latin-1' if not o[2].isascii() else 'ascii')))
        if o[0] == 'OP' and o[1] == 'bytes' and is_k(o[2]):
            if name == 'decode':
                return [(st, o[2])]
            if name in ('strip', 'rstrip', 'lstrip', 'split', 'splitlines', 'partition', 'replace', 'find', 'removesuffix', 'removeprefix') and all(
                    is_k(p) and isinstance(kval(p), (bytes, int, type(None))) for p in pos):
                out = []
                for s2, r in self.model_method(st, o[2], name, [K(p[2].decode()) if isinstance(p[2], bytes) else p for p in pos], kw, node, fr):
                    it = self.seq_items(r, s2) if r[0] in ('L', 'T') else None
                    if r[0] == 'K' and isinstance(r[2], str):
                        r = ('OP', 'bytes', r)
                    elif it is not None and r[0] == 'T':
                        r = ('T', tuple(('OP', 'bytes', x) for x in it))
                    elif it is not None:
                        r = self.mklist(s2, [('OP', 'bytes', x) for x in it], node)
                    out.append((s2, r))
                return out
            if name in ('translate', 'isalnum', 'isalpha', 'isdigit', 'isspace', 'startswith', 'endswith'):
                return self.model_method(st, o[2], name, pos, kw, node, fr)
        if o[0] == 'OP' and o[1] == 'regex' and name in ('sub', 'split', 'findall') and not kw:
            if name == 'sub' and len(pos) == 2 and not is_k(pos[0]) and is_k(pos[1]) and isinstance(kval(pos[1]), str):
                r = self.re_sub(st, o[2:], pos[0], kval(pos[1]), node, fr)
                if r is not None:
                    return r
            elif len(o) == 3:
                return self.extcall(st, 're.' + name, [o[2], *pos], kw, node, fr, None, name)
        if o[0] == 'O' and (o, '#match') in st.heap and name in ('group', '__getitem__') and (not pos or pos == [K(0)]):
            return [(st, st.heap[(o, '#match')])]
        if o[0] == 'K' and isinstance(o[2], str):
            s = o[2]
            if name == 'join' and len(pos) == 1:
                it = self.seq_items(pos[0], st)
                if it is not None and all(x[0] == 'K' for x in it):
                    if not all(isinstance(x[2], str) for x in it):
                        return [(st, verr(node, 'TypeError'))]
                    return [(st, K(s.join(x[2] for x in it)))]
                if it is not None and all(x[0] == 'K' or x[0] == 'O' or x[0] == 'OP' and x[1] == 'int' for x in it):
                    return [(st, verr(node, 'TypeError'))]
            if name == 'format':
                parts = self.brace_parts(s, list(pos), dict(kw))
                if parts is not None:
                    return self.printed(st, parts, node, fr, ('OP', 'fmt', o, *pos, *kw.values()))
            if name == 'encode':
                return [(st, ('OP', 'bytes', o))]
            if name == 'translate' and pos and pos[0][0] == 'OP' and pos[0][1] == 'trans':
                t = str.maketrans(*[kval(x) for x in pos[0][2:]])
                return [(st, K(mapped(s, lambda p: p.translate(t), RAW, ())))]
            if name == 'translate' and len(pos) == 1 and pos[0][0] == 'D':
                d = st.heap.get((pos[0], 'map'))
                if d is not None and all(is_k(a) and isinstance(kval(a), int) and is_k(b) and isinstance(kval(b), (str, int, type(None))) for a, b in d):
                    t = {kval(a): kval(b) for a, b in d}
                    return [(st, K(mapped(s, lambda p: p.translate(t), RAW, ())))]
            if name in ('isalnum', 'isdigit', 'isnumeric', 'isdecimal', 'isalpha', 'isspace', 'isupper', 'islower') and not symbolic(s):
                return [(st, K(getattr(s, name)()))]
            if symbolic(s):
                if name in ('lower', 'casefold'):
                    return [(st, K(mapped(s, str.lower, LOWER)))]
                if name == 'upper':
                    return [(st, K(mapped(s, str.upper, UPPER)))]
                if name in ('capitalize', 'title', 'swapcase'):
                    return [(st, K(mapped(s, lambda p: p if name == 'capitalize' else getattr(p, name)(), OTHER)))]
                if name in ('isdigit', 'isnumeric', 'isdecimal'):
                    return [(st, K(all(p.isdigit() if split(p[0]) is None else split(p)[0] == NUM for p in pieces(s))))]
                if name == 'isalnum':
                    return [(st, K(all(p.isalnum() if split(p[0]) is None else split(p)[0] != FREE for p in pieces(s))))]
                if name in ('isalpha', 'isspace', 'isupper', 'islower', 'zfill', 'ljust', 'rjust', 'center'):
                    return [(st, ('OP', name, o))] if name != 'isspace' else [(st, FALSE)]
            if name == 'splitlines' and not kw and not pos:
                # characters other than the line ends of the protocol may be taken for them
                return [(st, self.mklist(st, [K(''.join(alter(c, OTHER) if split(c) is not None and split(c)[0] == FREE else c for c in x)) for x in s.splitlines()], node))]
            if name in ('index', 'rindex') and all(is_k(p) for p in pos):
                try:
                    return [(st, K(getattr(s, name)(*[kval(p) for p in pos])))]
                except ValueError:
                    return [(st, verr(node))]
            if all(is_k(p) for p in pos) and all(is_k(p) for p in kw.values()) and name in (
                    'split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'replace', 'expandtabs', 'removeprefix', 'removesuffix'):
                try:
                    r = getattr(s, name)(*[kval(p) for p in pos], **{k: kval(v) for k, v in kw.items()})
                except ValueError:
                    return [(st, verr(node))]
                if isinstance(r, tuple):
                    return [(st, ('T', tuple(K(x) for x in r)))]
                if isinstance(r, list):
                    return [(st, self.mklist(st, [K(x) for x in r], node))]
                return [(st, K(r))]
            if name in ('startswith', 'endswith') and len(pos) == 1 and pos[0][0] == 'T' and all(is_k(x) for x in pos[0][1]):
                return [(st, K(getattr(s, name)(tuple(kval(x) for x in pos[0][1]))))]
        return SInterp.model_method(self, st, o, name, pos, kw, node, fr)

    def iter_items(self, v, st):
        if v[0] == 'K' and isinstance(v[2], str) and len(v[2]) <= 100:
            return tuple(K(c) for c in v[2])
        return SInterp.iter_items(self, v, st)

    def re_sub(self, st, pat, repl, s, node, fr):
        """each match replaced by what a function makes of it"""
        try:
            ms = list(re.compile(*[kval(x) for x in pat]).finditer(s))
        except (re.error, TypeError):
            return None
        if re.search(r'\\\\[wWdDbB]', str(kval(pat[0]))) or any(symbolic(m.group()) for m in ms):
            return None
        cur, out, at = [(st, '')], [], 0
        for m in ms:
            nxt = []
            for c, acc in cur:
                mo = ('O', 'match%d@%d' % (m.start(), node.lineno), Ext('Match'))
                c = c.copy()
                c.sethp((mo, '#match'), K(m.group()))
                for c2, v in self.call(c, repl, None, None, [mo], {}, node, fr):
                    if isinstance(v, Raise):
                        out.append((c2, v))
                    elif is_k(v) and isinstance(kval(v), str):
                        nxt.append((c2, acc + s[at:m.start()] + kval(v)))
                    else:
                        return None
            cur, at = nxt, m.end()
        return out + [(c, K(acc + s[at:])) for c, acc in cur]

    # ---------------------------------------------------------------- library functions
    def extcall(self, st, name, pos, kw, node, fr, recv, mname):
        b = name[9:] if name.startswith('builtins.') else None
        a = pos[0] if pos else None
        if b == 'str' and len(pos) == 1 and not kw:
            return self.printed(st, [(a, '')], node, fr, ('OP', 'str', a))
        if b == 'str' and len(pos) >= 1 and a[0] == 'OP' and a[1] == 'bytes':
            return [(st, a[2])]
        if b == 'dir' and len(pos) == 1:
            return [(st, ('OP', 'dir', a))]
        if b == 'int' and len(pos) == 1:
            if a[0] == 'OP' and a[1] == 'int':
                return [(st, a)]
            if a[0] == 'O' and isinstance(a[2], ClassInfo) and a[2].find('__int__') is not None:
                return self.call(st, ('B', a, a[2].find('__int__')), a, '__int__', [], {}, node, fr)
            if a[0] == 'K' and isinstance(a[2], str) and symbolic(a[2]):
                s = a[2].strip()
                if all(p.isdigit() if split(p[0]) is None else split(p)[0] == NUM for p in pieces(s)):
                    v = ('OP', 'int', K(s))
                    st.setfact(v, Fact(none=False, truth=True, lo=(1, False)))
                    return [(st, v)]
                return [(st, verr(node))]
            if a[0] in ('L', 'T', 'D') or a == NONE:
                return [(st, verr(node, 'TypeError'))]
        if b == 'float' and len(pos) == 1 and a[0] == 'K' and isinstance(a[2], str) and symbolic(a[2]):
            if all(p.replace('.', '').isdigit() if split(p[0]) is None else split(p)[0] == NUM for p in pieces(a[2].strip())):
                v = ('OP', 'float', K(a[2].strip()))
                st.setfact(v, Fact(none=False))
                return [(st, v)]
            return [(st, verr(node))]
        if b == 'len' and len(pos) == 1:
            t = a[2] if a[0] == 'OP' and a[1] == 'bytes' else a
            if t[0] == 'K' and isinstance(t[2], str) and (symbolic(t[2]) or t is not a):
                v = ('OP', 'len', a)
                if not symbolic(t[2]):
                    return [(st, K(len(t[2].encode())))]
                st.setfact(v, Fact(none=False, truth=True, lo=(len(t[2]), False)))
                return [(st, v)]
        if b in ('bytes', 'bytearray') and len(pos) == 2 and a[0] == 'K' and isinstance(a[2], str):
            return [(st, ('OP', 'bytes', a))]
        if name in ('re.split', 're.sub', 're.findall') and all(is_k(x) and isinstance(x[2], (str, int)) for x in pos) and not kw and not re.search(r'\\[wWdDbB]', str(kval(a))):
            try:
                r = getattr(re, name[3:])(*[kval(x) for x in pos])
            except re.error:
                return [(st, verr(node, 'ValueError'))]
            if isinstance(r, str):
                return [(st, K(r))]
            if all(isinstance(x, str) for x in r):
                return [(st, self.mklist(st, [K(x) for x in r], node))]
        if b == 'ord' and len(pos) == 1 and is_k(a) and isinstance(kval(a), str) and len(kval(a)) == 1 and not symbolic(kval(a)):
            return [(st, K(ord(kval(a))))]
        if b == 'chr' and len(pos) == 1 and is_k(a) and isinstance(kval(a), int) and 0 <= kval(a) < BASE:
            return [(st, K(chr(kval(a))))]
        if name == 're.compile' and all(is_k(x) for x in pos) and not kw:
            return [(st, ('OP', 'regex', *pos))]
        if name == 're.sub' and len(pos) == 3 and not kw and is_k(a) and is_k(pos[2]) and isinstance(kval(pos[2]), str) and not is_k(pos[1]):
            r = self.re_sub(st, [a], pos[1], kval(pos[2]), node, fr)
            if r is not None:
                return r
        n = name.split('.')[-1]
        if name == 'functools.reduce' and len(pos) >= 2 and self.seq_items(pos[1], st) is not None:
            it = list(self.seq_items(pos[1], st))
            if len(pos) > 2:
                it.insert(0, pos[2])
            if not it:
                return [(st, verr(node, 'TypeError'))]
            cur, out = [(st, it[0])], []
            for x in it[1:]:
                nxt = []
                for c, acc in cur:
                    for c2, v in self.call(c.copy(), pos[0], None, None, [acc, x], {}, node, fr):
                        (out if isinstance(v, Raise) else nxt).append((c2, v))
                cur = nxt
            return out + cur
        if n in ('maketrans',) and len(pos) == 2 and all(is_k(x) for x in pos):
            return [(st, ('OP', 'trans', *pos))]
        if name.startswith('urllib') and n in ('quote', 'unquote', 'quote_plus', 'unquote_plus') and a is not None and a[0] == 'K' and isinstance(a[2], str):
            if n.startswith('quote'):
                safe = pos[1] if len(pos) > 1 else kw.get('safe', K('/' if n == 'quote' else ''))
                if is_k(safe):
                    return [(st, K(mapped(a[2], lambda p: _quote(p, kval(safe)), OTHER if n != 'quote' or set(kval(safe)) & set('%@:<>"\\\r\n\t ') else QUOTED)))]
            else:
                return [(st, K(mapped(a[2], _unquote, UNQUOTED if n == 'unquote' else OTHER)))]
        return SInterp.extcall(self, st, name, pos, kw, node, fr, recv, mname)


class TextCfg(WCfg):
    """everything the messages are made of is followed, down to the characters"""
    opaque = tuple(o for o in WCfg.opaque if not o.startswith('sippy.SipConf'))
    max_value = 400
    unroll = 80
    frame = None
    names = None

    def fresh(self, st, n, nm):
        if self.names is None or nm not in ('token_hex', 'token_urlsafe'):
            return WCfg.fresh(self, st, n, nm)
        i = st.heap.get('#rnd', 0)
        st.sethp('#rnd', i + 1)
        return K(self.names.word('random%d' % i))
