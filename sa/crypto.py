"""Byte strings, keyed functions and digests as terms: concatenations and
slices of parts of known size, exclusive ors, and inverse pairs cancel, so
two values are equal when their terms are."""
import ast

from .scen import (SInterp, ScenCfg, State, Ev, K, S, NONE, TRUE, FALSE, is_k, kval, Raise, Ext, ClassInfo, mkexc)
from .interp import show, Fact

HASHES = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha512_256': 32}
AES_BLOCK = 16


def op(n, *a):
    return ('OP', n) + a


def isop(v, *names):
    return v[0] == 'OP' and v[1] in names


def size(v):
    if is_k(v):
        x = kval(v)
        return len(x) if isinstance(x, (bytes, str)) else None
    if v[0] != 'OP':
        return None
    n = v[1]
    if n == 'rnd':
        return v[2]
    if n == 'tob':
        return kval(v[3]) if is_k(v[3]) else None
    if n == 'E':
        return size(v[3])
    if n == 'dig':
        return HASHES.get(kval(v[2])) if is_k(v[2]) else None
    if n == 'hmac':
        return HASHES.get(kval(v[4])) if is_k(v[4]) else None
    if n == 'take':
        return v[4] - v[3]
    if n == 'add':
        a, b = size(v[2]), size(v[3])
        return a + b if a is not None and b is not None else None
    return None


def chunks(v):
    """-> list of (term, lo, hi) covering v, or None"""
    if isop(v, 'add'):
        a, b = chunks(v[2]), chunks(v[3])
        return a + b if a is not None and b is not None else None
    if isop(v, 'take'):
        return [(v[2], v[3], v[4])]
    n = size(v)
    return None if n is None else [(v, 0, n)]


def unchunk(cs):
    m = []
    for t, lo, hi in cs:
        if hi <= lo:
            continue
        if m and m[-1][0] == t and m[-1][2] == lo:
            m[-1] = (t, m[-1][1], hi)
        else:
            m.append((t, lo, hi))
    out = None
    for t, lo, hi in m:
        if is_k(t):
            x = K(kval(t)[lo:hi])
        elif lo == 0 and hi == size(t):
            x = t
        else:
            x = op('take', t, lo, hi)
        out = x if out is None else op('add', out, x)
    return out if out is not None else K(b'')


def cut(v, lo, hi):
    """the part of v from lo to hi"""
    cs = chunks(v)
    if cs is None:
        return None
    n = sum(h - l for _, l, h in cs)
    lo, hi, _ = slice(lo, hi).indices(n)
    out, p = [], 0
    for t, l, h in cs:
        a, b = max(lo, p), min(hi, p + h - l)
        if a < b:
            out.append((t, l + a - p, l + b - p))
        p += h - l
    return unchunk(out)


def toint(v):
    if isop(v, 'tob'):
        return v[2]
    return op('int', v)


def tobytes(v, n):
    if isop(v, 'int') and is_k(n) and size(v[2]) == kval(n):
        return v[2]
    return op('tob', v, n)


def xorset(v):
    return set(v[2]) if isop(v, 'xor') else {v}


def low(v):
    """v as (x, n, c): x shifted left by n bits with the constant c below"""
    if isop(v, 'lshift') and is_k(v[3]):
        return v[2], kval(v[3]), 0
    if isop(v, 'mult'):
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if is_k(b) and isinstance(kval(b), int) and kval(b) > 0 and kval(b) & (kval(b) - 1) == 0:
                return a, kval(b).bit_length() - 1, 0
    if isop(v, 'low'):
        return v[2], v[3], v[4]
    return None


def simplify(st, v):
    if isop(v, 'slice'):
        if is_k(v[3]) and is_k(v[4]) and is_k(v[5]) and kval(v[5]) is None:
            return cut(v[2], kval(v[3]), kval(v[4]))
        return None
    if v[0] != 'OP' or len(v) != 4:
        return None
    n, a, b = v[1], v[2], v[3]
    if n == 'bitxor':
        s = xorset(a) ^ xorset(b)
        if len(s) == 1:
            return next(iter(s))
        return op('xor', frozenset(s)) if s else K(0)
    if n in ('bitor', 'add'):
        for x, y in ((a, b), (b, a)):
            l = low(x)
            if l is not None and is_k(y) and isinstance(kval(y), int) and 0 <= kval(y) < (1 << l[1]):
                if n == 'bitor' or l[2] & kval(y) == 0:
                    return op('low', l[0], l[1], l[2] | kval(y))
        if n == 'add' and is_k(b) and isinstance(kval(b), bytes) and not kval(b).strip(b'=') and isop(a, 'b64'):
            return a
    if n == 'bitand':
        for x, y in ((a, b), (b, a)):
            l = low(x)
            if l is not None and is_k(y) and isinstance(kval(y), int) and 0 <= kval(y) < (1 << l[1]):
                return K(l[2] & kval(y))
    if n in ('rshift', 'floordiv') and is_k(b):
        l = low(a)
        k = kval(b) if n == 'rshift' else (kval(b).bit_length() - 1 if isinstance(kval(b), int) and kval(b) & (kval(b) - 1) == 0 and kval(b) > 0 else None)
        if l is not None and k == l[1]:
            return l[0]
    if n == 'mod' and is_k(b) and isinstance(kval(b), int):
        l = low(a)
        if l is not None and kval(b) == 1 << l[1]:
            return K(l[2])
    if n == 'add' and isop(b, 'mult') and isop(a, 'b64') and any(is_k(x) and isinstance(kval(x), bytes) and not kval(x).strip(b'=') for x in b[2:]):
        return a
    if n == 'sub' and isop(a, 'add') and a[2] == b:
        return a[3]
    return None


def partial_of(fi_or_mod, name):
    """what a module-level name bound to functools.partial(...) calls -> attribute name"""
    m = fi_or_mod
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) \
                and n.value.args and isinstance(n.value.args[0], (ast.Attribute, ast.Name)):
            f = n.value.args[0]
            return f.attr if isinstance(f, ast.Attribute) else f.id
    return None


class CryptoCfg(ScenCfg):
    """random numbers are fresh, keyed functions are terms, the clock is a symbol"""
    ext_consts = {'Crypto.Cipher.AES.block_size': AES_BLOCK}
    mods = ()
    clock = 'now'

    def inline(self, interp, st, fi, ev):
        return fi.module.name in self.mods

    def simp(self, st, v):
        return simplify(st, v)

    def fresh(self, st, n, nm):
        i = st.heap.get('#rnd', 0)
        st.sethp('#rnd', i + 1)
        v = op('rnd', n, i, nm)
        st.setfact(v, Fact(none=False, truth=True))
        return v

    def on_call(self, interp, st, ev):
        r = self.term(interp, st, ev)
        if r is not None:
            return r
        return ScenCfg.on_call(self, interp, st, ev)

    def term(self, interp, st, ev):
        n, r, a = ev.name, ev.recv, list(ev.args)
        kw = dict(ev.kw)
        x = ev.extra[1] if isinstance(ev.extra, tuple) and ev.extra[0] == 'X' else r[1] if r is not None and r[0] == 'X' else ''
        if ev.callee is None and ev.fn is not None and r is None:
            n = partial_of(ev.fn.module, n) or n
        if n == 'clock_getntime' or x.split('.')[0] == 'time' and n in ('monotonic_ns', 'clock_gettime_ns'):
            interp.emit(st, ev)
            return [(st, S(self.clock))]
        if n in ('token_bytes', 'token_hex', 'token_urlsafe', 'urandom'):
            if a and is_k(a[0]):
                k = kval(a[0])
                interp.emit(st, ev)
                return [(st, self.fresh(st, k if n in ('token_bytes', 'urandom') else 2 * k, n))]
            return None
        if n == 'randbelow' and x.startswith('secrets.') and a:
            v = self.fresh(st, 4, n)
            st.setfact(v, Fact(none=False))
            st.sethp(('#below', v), a[0])
            interp.emit(st, ev)
            return [(st, v)]
        if n == 'uuid4':
            return [(st, self.fresh(st, 15, n))]
        if n == 'to_bytes':
            v = r if r is not None and r[0] != 'X' else a.pop(0) if a else None
            k = a[0] if a else kw.get('length')
            if v is not None and k is not None:
                if isop(k, 'len') or not is_k(k):
                    m = size(k[2]) if isop(k, 'len') else None
                    k = K(m) if m is not None else k
                return [(st, tobytes(v, k))]
        if n == 'from_bytes' and a:
            return [(st, toint(a[0]))]
        if n == 'len' and len(a) == 1 and x == 'builtins.len' and size(a[0]) is not None:
            return [(st, K(size(a[0])))]
        if n in ('encode', 'decode', 'rstrip', 'strip') and r is not None and isop(r, 'b64', 'hex', 'rnd'):
            return [(st, r)]
        if n == 'b64encode' and a:
            interp.emit(st, ev)
            return [(st, op('b64', a[0]))]
        if n == 'b64decode' and a and isop(a[0], 'b64'):
            interp.emit(st, ev)
            return [(st, a[0][2])]
        if n == 'new' and x.startswith('Crypto.Cipher') and a:
            o = ('O', 'cipher%d' % st.heap.get('#ciphers', 0), Ext('Cipher'))
            st.sethp('#ciphers', st.heap.get('#ciphers', 0) + 1)
            st.sethp((o, 'key'), a[0])
            interp.emit(st, ev)
            return [(st, o)]
        if r is not None and r[0] == 'O' and r[2] == Ext('Cipher') and n in ('encrypt', 'decrypt') and a:
            key = st.heap[(r, 'key')]
            interp.emit(st, ev)
            st.sethp('#' + n, st.heap.get('#' + n, ()) + ((key, a[0]),))
            if n == 'encrypt':
                return [(st, op('E', key, a[0]))]
            if isop(a[0], 'E') and a[0][2] == key:
                return [(st, a[0][3])]
            return [(st, op('D', key, a[0]))]
        if x.startswith('hmac.') and n in ('new', 'digest', 'hmac_new') and len(a) >= 1:
            alg = a[2] if len(a) > 2 else kw.get('digestmod', kw.get('digest', NONE))
            msg = a[1] if len(a) > 1 else kw.get('msg', K(b''))
            alg = K(alg[1].split('.')[-1]) if alg[0] == 'X' else alg
            if x == 'hmac.digest':
                return [(st, op('hmac', a[0], msg, alg))]
            o = ('O', 'mac%d' % st.heap.get('#macs', 0), Ext('Mac'))
            st.sethp('#macs', st.heap.get('#macs', 0) + 1)
            st.sethp((o, 'k'), (a[0], msg, alg))
            interp.emit(st, ev)
            return [(st, o)]
        if r is not None and r[0] == 'O' and r[2] == Ext('Mac'):
            key, msg, alg = st.heap[(r, 'k')]
            if n == 'digest':
                return [(st, op('hmac', key, msg, alg))]
            if n == 'hexdigest':
                return [(st, op('hex', op('hmac', key, msg, alg)))]
            if n == 'update' and a:
                st.sethp((r, 'k'), (key, op('add', msg, a[0]) if msg != K(b'') else a[0], alg))
                return [(st, NONE)]
        if n == 'compare_digest' and len(a) == 2:
            interp.emit(st, ev)
            st.sethp('#compared', st.heap.get('#compared', ()) + ((a[0], a[1]),))
            if a[0] == a[1]:
                return [(st, TRUE)]
            if not opaque(a[0]) and not opaque(a[1]):
                return [(st, FALSE)]
            s2 = st.copy()
            st.sethp('#same', st.heap.get('#same', ()) + ((a[0], a[1]),))
            return [(st, TRUE), (s2, FALSE)]
        # digests
        if x.startswith('hashlib.') or x.startswith('_hashlib.'):
            alg = n
            if x.split('.')[-1] in ('new', 'hash_new'):
                alg = kval(a.pop(0)) if a and is_k(a[0]) else None
            else:
                alg = x.split('.')[-1]
            alg = alg.lower().replace('-', '_') if isinstance(alg, str) else alg
            if alg in HASHES:
                o = ('O', 'hash%d' % st.heap.get('#hashes', 0), Ext('Hash'))
                st.sethp('#hashes', st.heap.get('#hashes', 0) + 1)
                st.sethp((o, 'h'), (alg, tuple(a[:1])))
                return [(st, o)]
        if r is not None and r[0] == 'O' and r[2] == Ext('Hash'):
            alg, data = st.heap[(r, 'h')]
            if n == 'update' and a:
                st.sethp((r, 'h'), (alg, data + (a[0],)))
                return [(st, NONE)]
            if n in ('hexdigest', 'digest'):
                return [(st, digest(alg, data, n == 'hexdigest'))]
            if n == 'copy':
                o = ('O', 'hash%d' % st.heap.get('#hashes', 0), Ext('Hash'))
                st.sethp('#hashes', st.heap.get('#hashes', 0) + 1)
                st.sethp((o, 'h'), (alg, data))
                return [(st, o)]
        return None


def opaque(v):
    """contains something only known at run time from outside"""
    if v[0] == 'S':
        return True
    return v[0] == 'OP' and any(isinstance(x, tuple) and x and isinstance(x[0], str) and opaque(x) for x in v[2:])


def text(vs):
    """pieces of a text: constants merged, encodings dropped"""
    from .strs import pieces
    out = []
    for v in vs:
        for p in pieces(plain(v)):
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, str):
                out.append(p)
            else:
                out.append(p[1])
    return tuple(x if isinstance(x, str) else x for x in out)


def plain(v):
    return v


def digest(alg, data, hexa=True):
    d = op('dig', K(alg), ('T', tuple(K(x) if isinstance(x, str) else x for x in text(data))))
    return op('hex', d) if hexa else d
