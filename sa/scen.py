"""Seeded analysis of a few functions that work together (a worker and the
queue it serves, a writer and its connection, ...): objects are built by
interpreting their constructors, queues and scripted sources hold symbolic
items, and faults are injected at the input/output operations met on the way."""
from .repo import AnchorError, ClassInfo, Ext, FuncInfo
from .interp import Interp, Cfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise

EOTHER = K('some other error')

OSERR = ('builtins.OSError',)
ALIASES = {'socket.error': 'builtins.OSError', 'builtins.IOError': 'builtins.OSError', 'select.error': 'builtins.OSError',
           'builtins.EnvironmentError': 'builtins.OSError', 'socket.timeout': 'builtins.TimeoutError',
           'socket.gaierror': 'builtins.OSError'}


def exc(name, errno=EOTHER, tag=''):
    return ('O', name.split('.')[-1] + tag, Ext(name)), errno


def mkexc(st, name, errno=None, tag=''):
    v = ('O', name.split('.')[-1] + tag, Ext(name))
    st.sethp((v, 'errno'), errno if errno is not None else EOTHER)
    st.sethp((v, 'args'), ('T', (errno if errno is not None else EOTHER, S('strerror'))))
    return v


class SInterp(Interp):
    def issub(self, c, d):
        if isinstance(c, Ext) and c.name in ALIASES:
            c = Ext(ALIASES[c.name])
        if isinstance(d, Ext) and d.name in ALIASES:
            d = Ext(ALIASES[d.name])
        if isinstance(c, Ext) and isinstance(d, Ext) and c.name.startswith('app.') and c.name != d.name:
            return False
        if isinstance(c, Ext) and isinstance(d, Ext) and self._exn(c) and self._exn(d):
            return issubclass(self._exn(c), self._exn(d))
        return Interp.issub(self, c, d)

    @staticmethod
    def _exn(c):
        import builtins
        if c.name.startswith('builtins.'):
            x = getattr(builtins, c.name[9:], None)
            if isinstance(x, type) and issubclass(x, BaseException):
                return x
        return None

    def dec_eq(self, st, a, b, node, fr):
        def en(v):
            if v[0] == 'X' and v[1].startswith('errno.'):
                return v[1]
            if v[0] == 'K' and v == EOTHER:
                return 'other'
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'S' and x[1] in self.cfg.callbacks and y[0] in ('X', 'K', 'O'):
                return [(st, False)]
        ea, eb = en(a), en(b)
        if ea and eb:
            return [(st, ea == eb)]
        if (ea == 'other' and is_k(b)) or (eb == 'other' and is_k(a)):
            return [(st, False)]
        if a[0] == 'X' and b[0] == 'X' and a != b and a[1].rsplit('.', 1)[0] == b[1].rsplit('.', 1)[0]:
            # two names of one library module
            return [(st, False)]
        return Interp.dec_eq(self, st, a, b, node, fr)

    def e_BinOp(self, e, st, fr):
        out = []
        for s, v in Interp.e_BinOp(self, e, st, fr):
            if isinstance(v, tuple) and v[0] == 'OP' and v[1] == 'add' and v[2] in (K(''), K(b'')):
                v = v[3]
            if isinstance(v, tuple) and v[0] == 'OP' and v[1] == 'bitand' and v[2][0] == 'X' and v[3][0] == 'X':
                v = v[2] if v[2] == v[3] else K(0)
            out.append((s, v))
        return out

    def extcall(self, st, name, pos, kw, node, fr, recv, mname):
        if name in ('builtins.bytes', 'builtins.str') and not pos and not kw:
            return [(st, K(b'') if name.endswith('bytes') else K(''))]
        return Interp.extcall(self, st, name, pos, kw, node, fr, recv, mname)

    def decide(self, st, v, node, fr):
        if v[0] == 'S' and v[1] in self.cfg.callbacks:
            return [(st, True)]
        return Interp.decide(self, st, v, node, fr)

    def dec_none(self, st, v, node, fr):
        if v[0] == 'S' and v[1] in self.cfg.callbacks:
            return [(st, False)]
        return Interp.dec_none(self, st, v, node, fr)

    def docall(self, st, fi, self_v, pos, kw, ev, fr, closure=()):
        f = self.cfg.faults(st, ev) if fi is None and st.heap.get('#faults', 0) > 0 else ()
        pre = st.copy() if f else None
        r = Interp.docall(self, st, fi, self_v, pos, kw, ev, fr, closure)
        for x in f:
            s = pre.copy()
            s.sethp('#faults', s.heap['#faults'] - 1)
            s.sethp('#faulted', K('%s at line %d' % (ev.name, ev.line)))
            v = mkexc(s, *x) if isinstance(x, tuple) else mkexc(s, x)
            self.emit(s, Ev('fault', ev.name, recv=ev.recv, args=ev.args, node=ev.node, fn=ev.fn, val=v, stack=ev.stack))
            r = list(r) + [(s, Raise(v))]
        return r

    def callv(self, st, fv, args, kw=None):
        """call a value from outside any frame -> [(state, ('ret'|'raise', v))]"""
        kw = dict(kw or {})
        while fv[0] == 'P':
            k2 = dict(fv[3])
            k2.update(kw)
            args, kw, fv = list(fv[2]) + list(args), k2, fv[1]
        if fv[0] == 'B':
            return self.run(fv[2], fv[1], args, kw, st)
        if fv[0] == 'F':
            return self.run(fv[1], None, args, kw, st)
        if fv[0] == 'CL':
            return self._enter(st.copy(), fv[1], None, list(args), kw, Ev('call', fv[1].name, node=fv[1].node), None, fv[2])
        st = st.copy()
        ev = Ev('call', show(fv), args=tuple(args), kw=tuple(kw.items()), extra=fv)
        r = self.cfg.on_call(self, st, ev)
        if r is None:
            self.emit(st, ev)
            return [(st, ('ret', S('result')))]
        return [(s, ('raise', v.exc) if isinstance(v, Raise) else ('ret', v)) for s, v in r]


SYNC = ('threading.local', 'threading.Condition', 'threading.Lock', 'threading.RLock', 'queue.Queue', 'threading.Event', 'threading.Semaphore')


class ScenCfg(Cfg):
    unroll = 6
    drop_cut = True
    implicit = 'none'
    max_states = 400000
    max_depth = 22
    opaque = ('sippy.Core.', 'sippy.Time.', 'sippy.Math.')
    callbacks = None        # symbol name -> list of ('ret', v) / ('raise', class name)
    fault_table = {}
    script = None           # method name -> list of values / ('raise', class, errno) served in order

    def __init__(self, repo, **kw):
        super().__init__(repo, **kw)
        self.blocked = []
        self.callbacks = dict(self.callbacks or {})

    def faults(self, st, ev):
        return self.fault_table.get(ev.name, ())

    def inline(self, interp, st, fi, ev):
        n = fi.module.name
        return not any(n.startswith(o) or n == o.rstrip('.') for o in self.opaque)

    def cbname(self, ev):
        fv = ev.extra
        if ev.kind == 'call' and isinstance(fv, tuple) and len(fv) == 2 and fv[0] == 'S' and fv[1] in self.callbacks:
            return fv[1]
        return None

    def on_call(self, interp, st, ev):
        c = self.cbname(ev)
        if c is not None:
            e = Ev('cb', c, args=ev.args, kw=ev.kw, node=ev.node, fn=ev.fn, stack=ev.stack)
            interp.emit(st, e)
            out = []
            for o in self.callbacks[c] or [('ret', NONE)]:
                s = st.copy()
                if o[0] == 'ret':
                    out.append((s, o[1]))
                elif o[0] == 'raise':
                    out.append((s, Raise(mkexc(s, o[1], tag='@' + c))))
                else:
                    out.extend(o[1](interp, s))
            return out
        fv = ev.extra
        if isinstance(fv, tuple) and fv[0] == 'X' and fv[1] in SYNC:
            o = ('O', 'sync' + interp.site(st, ev.node), Ext(fv[1]))
            if fv[1] == 'queue.Queue':
                st.sethp((o, 'items'), ())
            interp.emit(st, ev)
            return [(st, o)]
        r = ev.recv
        if ev.name == 'hasattr' and len(ev.args) == 2 and ev.args[0][0] == 'O' and isinstance(ev.args[0][2], Ext) and is_k(ev.args[1]):
            return [(st, K((ev.args[0], kval(ev.args[1])) in st.heap))]
        if r is not None and r[0] == 'O' and isinstance(r[2], Ext):
            if r[2].name == 'queue.Queue':
                it = st.heap.get((r, 'items'), ())
                interp.emit(st, ev)
                if ev.name in ('put', 'put_nowait'):
                    st.sethp((r, 'items'), it + (ev.args[0],))
                    return [(st, NONE)]
                if ev.name in ('get', 'get_nowait'):
                    if not it:
                        self.blocked.append(st)
                        return []
                    st.sethp((r, 'items'), it[1:])
                    return [(st, it[0])]
                if ev.name == 'empty':
                    return [(st, K(not it))]
                if ev.name == 'qsize':
                    return [(st, K(len(it)))]
            if ev.name == 'wait':
                interp.emit(st, ev)
                self.blocked.append(st)
                return []
        if ev.name == 'flock' and ev.args and ev.args[0] == NONE:
            return [(st, Raise(mkexc(st, 'builtins.TypeError')))]
        if ev.name in ('callFromThread', 'callFromThreadSync'):
            interp.emit(st, ev)
            p = st.heap.get('#posted', ())
            st.sethp('#posted', p + (tuple(ev.args),))
            return [(st, NONE)]
        if self.script and ev.callee is None and ev.name in self.script and ev.kind == 'call':
            i = st.heap.get(('#script', ev.name), 0)
            seq = self.script[ev.name]
            interp.emit(st, ev)
            if i >= len(seq):
                self.blocked.append(st)
                return []
            st.sethp(('#script', ev.name), i + 1)
            x = seq[i]
            if x[0] == 'raise':
                return [(st, Raise(mkexc(st, x[1], x[2] if len(x) > 2 else None)))]
            return [(st, x)]
        return self.on_call2(interp, st, ev)

    def on_call2(self, interp, st, ev):
        return None


def drain(interp, st, limit=20):
    """Run what has been handed to the loop, in order. -> [(state, outcomes)]"""
    out = []
    todo = [(st, ())]
    while todo:
        s, oc = todo.pop()
        p = s.heap.get('#posted', ())
        if not p or len(oc) >= limit:
            out.append((s, oc))
            continue
        s = s.copy()
        s.sethp('#posted', p[1:])
        f, args = p[0][0], list(p[0][1:])
        for s2, o in interp.callv(s, f, args):
            todo.append((s2, oc + (o,)))
    return out


def build(interp, st, ci, args=(), kw=None, tag='', pick=None):
    """An object of class ci through its constructor; the first (or picked)
    returning path."""
    o = ('O', tag or ci.name.lower(), ci)
    init = ci.find('__init__')
    if init is None:
        return st.copy(), o
    for s, oc in interp.run(init, o, list(args), kw, st):
        if oc[0] == 'ret' and (pick is None or pick(s, o)):
            s = s.copy()
            s.trace = None
            return s, o
    raise AnchorError('constructor of %s has no usable path' % ci.qual)


def must(repo, ci, name):
    m = ci.find(name)
    if m is None:
        raise AnchorError('%s has no method %s' % (ci.qual, name))
    return m


def step(interp, st, ci, o, name, args=(), kw=None, pick=None):
    """Call a method, expecting a returning path; the first (or picked) one."""
    for s, oc in interp.run(must(interp.repo, ci, name), o, list(args), kw, st):
        if oc[0] == 'ret' and (pick is None or pick(s, oc[1])):
            s = s.copy()
            s.trace = None
            return s, oc[1]
    raise AnchorError('%s.%s has no usable path' % (ci.qual, name))
