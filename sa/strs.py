"""Texts built from parts: every way of putting a string together (%, format,
f-string, +, join) seen as the sequence of its pieces."""
import re
from ast import literal_eval
from .interp import is_k, kval

_PCT = re.compile(r'%(%|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z])')
_BRC = re.compile(r'{{|}}|{[^{}]*}')


def pieces(v, items=None):
    """value -> tuple of constants (str) and ('V', value, spec); neighbouring
    constants are merged. items: function giving the elements of a list."""
    out = []
    _add(v, out, items)
    res = []
    for x in out:
        if isinstance(x, str):
            if not x:
                continue
            if res and isinstance(res[-1], str):
                res[-1] += x
                continue
        res.append(x)
    return tuple(res)


def _text(x):
    return x.decode('latin-1') if isinstance(x, bytes) else str(x)


def _add(v, out, items, spec=''):
    if is_k(v):
        out.append(_text(kval(v)))
        return
    if v[0] == 'OP':
        if v[1] == 'str' and len(v) == 3:
            return _add(v[2], out, items)
        if v[1] == 'add' and len(v) == 4:
            _add(v[2], out, items)
            return _add(v[3], out, items)
        if v[1] == 'fmt' and is_k(v[2]):
            f = _text(kval(v[2]))
            args = list(v[3:])
            if f.startswith('join:'):
                sep = _text(literal_eval(f[5:]))
                xs = items(args[0]) if items is not None else None
                if xs is None and args[0][0] == 'T':
                    xs = args[0][1]
                if xs is None:
                    out.append(('V', v, spec))
                    return
                for i, x in enumerate(xs):
                    if i:
                        out.append(sep)
                    _add(x, out, items)
                return
            pct = [m for m in _PCT.finditer(f) if m.group(1) != '%']
            brc = [m for m in _BRC.finditer(f) if m.group(0) not in ('{{', '}}')]
            rx = _PCT if len(pct) == len(args) and (pct or not brc) else _BRC if len(brc) == len(args) else None
            if rx is None:
                out.append(('V', v, spec))
                return
            i = 0
            pos = 0
            for m in rx.finditer(f):
                out.append(f[pos:m.start()])
                pos = m.end()
                t = m.group(0)
                if t in ('%%', '{{', '}}'):
                    out.append(t[0])
                    continue
                sp = m.group(1) if rx is _PCT else t[1:-1].lstrip(':')
                _add(args[i], out, items, '' if sp in ('s', 'd', '') else sp)
                i += 1
            out.append(f[pos:])
            return
    out.append(('V', v, spec))


def text(v, items=None, show=str):
    return ''.join(x if isinstance(x, str) else '<%s>' % show(x[1]) for x in pieces(v, items))
