"""S01/S02/S03: nonces, digest authentication, identifiers."""
import ast

from ..scen import (SInterp, ScenCfg, State, Fact, Ev, K, S, NONE, TRUE, FALSE, show, is_k, kval, Raise, build, step, drain, must,
                    mkexc, ClassInfo, Ext, FuncInfo, AnchorError)
from ..crypto import CryptoCfg, op, isop, size, chunks, digest, opaque, cut
from .loop_rules import lines

SECOND = 10 ** 9


def leaves(v):
    if v[0] == 'OP':
        if v[1] in ('rnd',):
            yield v
            return
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield from leaves(x)
            elif isinstance(x, frozenset):
                for y in x:
                    yield from leaves(y)
    elif v[0] == 'T':
        for x in v[1]:
            yield from leaves(x)
    else:
        yield v


def rnds(v):
    return {x for x in leaves(v) if isop(x, 'rnd')}


def oracle(repo, I, st, cls, tag):
    """an oracle, with what the class shares between all of them"""
    o = ('O', tag, cls)
    for n, e in class_values(cls).items():
        if (('C', cls), n) not in st.heap:
            r = [(s, oc[1]) for s, oc in evaluate(I, cls.module, cls, e, st) if oc[0] == 'ret']
            if len(r) != 1:
                raise AnchorError('no single value of %s.%s' % (cls.name, n))
            st = r[0][0].copy()
            st.sethp((('C', cls), n), r[0][1])
        st.sethp((o, n), st.heap[(('C', cls), n)])
    st2, o = build(I, st, cls, [], tag=tag)
    return st2, o


def evaluate(I, module, cls, expr, st):
    f = ast.FunctionDef(name='<value>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=[ast.copy_location(ast.Return(expr), expr)], decorator_list=[])
    ast.copy_location(f, expr)
    return I.run(FuncInfo(f, module, cls, '%s.<value>' % module.name), None, [], None, st)


def bits(I, module, name):
    r = evaluate(I, module, None, ast.fix_missing_locations(ast.copy_location(ast.Name(name, ast.Load()), module.tree.body[0])), State())
    return kval(r[0][1][1]) if len(r) == 1 and r[0][1][0] == 'ret' and is_k(r[0][1][1]) else None


def class_values(cls):
    """names a class body assigns to something computed"""
    out = {}
    todo = list(cls.node.body)
    while todo:
        n = todo.pop(0)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            out[n.target.id] = n.value
        elif isinstance(n, ast.Try):
            todo = n.body + [x for h in n.handlers for x in h.body] + n.orelse + n.finalbody + todo
        elif isinstance(n, (ast.If, ast.With)):
            todo = n.body + getattr(n, 'orelse', []) + todo
    return {k: v for k, v in out.items() if not isinstance(v, ast.Constant)}


class NCfg(CryptoCfg):
    mods = ('sippy.Security.SipNonce',)


def verdicts(I, s, v):
    """the truth of a returned value -> [(state, bool)]"""
    if is_k(v):
        return [(s, bool(kval(v)))]
    return I.decide(s.copy(), v, None, None)


def s01(ctx):
    ctx.rule = """The nonce oracle run symbolically over byte terms (concatenations, slices, exclusive ors and inverse pairs cancel): what one
oracle issues another one accepts exactly for the offered algorithms and while the clock difference lies within the life time; any other
text is only accepted behind a constant-time comparison of a full-length code over everything that is decrypted."""
    repo = ctx.repo
    ho = repo.cls('HashOracle')
    em, va = must(repo, ho, 'emit_challenge'), must(repo, ho, 'validate_challenge')
    I = SInterp(repo, NCfg(repo))
    pr = [bits(I, ho.module, n) for n in ('DGST_MD5', 'DGST_MD5SESS', 'DGST_SHA256', 'DGST_SHA256SESS', 'DGST_SHA512', 'DGST_SHA512SESS')]
    if any(p is None for p in pr):
        raise AnchorError('the algorithm bits are not constants')
    ctx.check(len(set(pr)) == len(pr) and all(p > 0 and p & (p - 1) == 0 for p in pr), 'bits', em.where(), 'the algorithm bits are not distinct single bits')
    where = va.where()
    full = tuple(pr)
    offers = [(p,) for p in pr] + [full, (pr[0], pr[2]), ()] + ([(a, b) for a in pr for b in pr if a < b] if ctx.thorough else [])
    for offer in offers:
        cfg = NCfg(repo)
        cfg.clock = 'then'
        cfg.unroll = 8
        I = SInterp(repo, cfg)
        st, o1 = oracle(repo, I, State(), ho, 'oracle1')
        st, o2 = oracle(repo, I, st, ho, 'oracle2')
        st.trace = None
        outs = I.run(em, o1, [('T', tuple(K(p) for p in offer))], None, st)
        ctx.check(len(outs) == 1 and outs[0][1][0] == 'ret', 'issue', em.where(), 'issuing a nonce has %d outcomes' % len(outs))
        for s, oc in outs:
            if oc[0] != 'ret':
                continue
            nonce = oc[1]
            ctx.count('nonces')
            # unpredictable, and different every time
            fr = [x for x in rnds(nonce) if x[2] >= 16]
            keyr = rnds(st.heap.get((('C', ho), 'key'), NONE))
            ctx.check(bool(set(fr) - keyr), 'fresh', em.where(), 'a nonce contains no fresh random part of 16 bytes', lines(s))
            s.trace = None
            cfg.clock = 'now'
            for asked in [(p,) for p in pr] + [(pr[0], pr[2]), (pr[2], pr[0]), (pr[2], pr[3]), full]:
                for s2, oc2 in I.run(va, o2, [nonce, ('T', tuple(K(p) for p in asked))], None, s.copy()):
                    ctx.count('verdicts')
                    if not ctx.check(oc2[0] == 'ret', 'issued:raise', where, 'a nonce that was issued raises', lines(s2)):
                        continue
                    for s3, ok in verdicts(I, s2, oc2[1]):
                        lo, hi = span(s3, 'now', 'then')
                        offered = set(asked) <= set(offer)
                        if ok:
                            ctx.check(offered, 'offered', where, 'a nonce offered for %s is accepted with %s' % (offer, asked), lines(s3))
                            ctx.check(lo is not None and lo >= 0, 'future', where, 'a nonce from the future is accepted', lines(s3))
                            ctx.check(hi is not None and hi <= 32 * SECOND, 'old', where, 'a nonce is accepted %s after it was issued' % ('any time' if hi is None else '%g s' % (hi / SECOND)), lines(s3))
                        elif offered:
                            ctx.check(hi is not None and hi <= 0 or lo is not None and lo >= 32 * SECOND, 'valid', where, 'a nonce is refused that was issued less than 32 seconds ago for that algorithm', lines(s3))
        # anything else
        cfg.clock = 'now'
        for arg, what in ((S('text'), 'any text'), (NONE, 'no nonce'), (K(''), 'an empty text')):
            if offer != full:
                break
            for s2, oc2 in I.run(va, o2, [arg, ('T', (K(pr[0]),))], None, st.copy()):
                ctx.count('verdicts')
                if oc2[0] != 'ret':
                    if arg != NONE:
                        ctx.check(False, 'raise', where, 'checking %s raises %s' % (what, show(oc2[1])), lines(s2))
                    continue
                for s3, ok in verdicts(I, s2, oc2[1]):
                    if not ok:
                        continue
                    ctx.count('accepted texts')
                    same = s3.heap.get('#same', ())
                    good = [t for t in same if sealed(t, s3)]
                    ctx.check(bool(good), 'sealed', where, '%s is accepted without comparing, in constant time, a code over everything that is decrypted' % what, lines(s3))
        # keys
        ks = {k for k, _ in st.heap.get('#encrypt', ())} | {k for k, _ in s.heap.get('#encrypt', ())}
        for k in ks:
            c = chunks(k)
            ctx.check(c is not None and all(isop(t, 'rnd') for t, _, _ in c) and sum(h - l for _, l, h in c) >= 16, 'key', em.where(), 'the key of the nonces is not random')
        ctx.visited(I.visited)
    ctx.floor('verdicts', 60)
    ctx.floor('accepted texts', 1)


def span(s, a, b):
    """bounds known for a - b"""
    lo = hi = None
    for v, f in s.facts.items():
        sg = None
        if isop(v, 'sub') and v[2] == S(a) and v[3] == S(b):
            sg = 1
        elif isop(v, 'sub') and v[2] == S(b) and v[3] == S(a):
            sg = -1
        if sg is None:
            continue
        l = f.lo[0] if f.lo is not None else None
        h = f.hi[0] if f.hi is not None else None
        if f.eq is not None and is_k(f.eq):
            l = h = kval(f.eq)
        if sg < 0:
            l, h = (-h if h is not None else None), (-l if l is not None else None)
        lo = l if lo is None else lo if l is None else max(lo, l)
        hi = h if hi is None else hi if h is None else min(hi, h)
    for v, f in s.facts.items():
        # now compared with then + something
        if isop(v, 'lt') and f.truth is not None:
            x, y = v[2], v[3]
            for p, q, sg in ((x, y, 1), (y, x, -1)):
                if p == S(a) and isop(q, 'add') and q[2] == S(b) and is_k(q[3]):
                    k = kval(q[3])
                    if sg == 1 and f.truth:
                        hi = k if hi is None else min(hi, k)
                    elif sg == 1:
                        lo = k if lo is None else max(lo, k)
                    elif f.truth:
                        lo = k if lo is None else max(lo, k)
                    else:
                        hi = k if hi is None else min(hi, k)
            if x == S(a) and y == S(b):
                if f.truth:
                    hi = 0 if hi is None else min(hi, 0)
                else:
                    lo = 0 if lo is None else max(lo, 0)
            if x == S(b) and y == S(a) and not f.truth:
                hi = 0 if hi is None else min(hi, 0)
    return lo, hi


def part(v):
    """a slice of something opaque -> (base, lo, hi)"""
    if isop(v, 'slice') and is_k(v[3]) and is_k(v[4]):
        return v[2], kval(v[3]), kval(v[4])
    return v, None, None


def sealed(t, s):
    """the comparison is one of a full-length code over all that is decrypted"""
    for code, tag in (t, t[::-1]):
        lo, hi, h = 0, size(code), code
        if isop(code, 'take'):
            h, lo, hi = code[2], code[3], code[4]
        if not isop(h, 'hmac') or hi is None or hi - lo < 16 or lo != 0:
            continue
        key, msg, alg = h[2:5]
        if not is_k(alg) or kval(alg) not in ('sha256', 'sha384', 'sha512'):
            continue
        kc = chunks(key)
        if kc is None or not all(isop(x, 'rnd') for x, _, _ in kc) or sum(b - a for _, a, b in kc) < 16:
            continue
        mb, ml, mh = part(msg)
        tb, tl, th = part(tag)
        if mb != tb or ml not in (None, 0) or th is not None or tl is None or mh != tl or -tl != hi - lo:
            if not (mb == tb and tl in (None, 0) and th == ml and mh is None and th == hi - lo):
                continue
        ok = True
        for k, x in s.heap.get('#decrypt', ()):
            if x != msg and part(x)[0] != msg and x[0] != 'K':
                ok = False
            ec = chunks(k)
            # the two keys have nothing in common
            if ec is None or any(a == b and max(l1, l2) < min(h1, h2) for a, l1, h1 in ec for b, l2, h2 in kc):
                ok = False
        if ok and s.heap.get('#decrypt'):
            return True
    return False


RULES = {'S01': s01}


# ------------------------------------------------------------------ S02
class DCfg(CryptoCfg):
    mods = ('sippy.SipAuthorization', 'sippy.SipWWWAuthenticate', 'sippy.SipProxyAuthenticate', 'sippy.SipProxyAuthorization', 'sippy.SipGenericHF')
    fresh_ok = True
    unroll = 12

    def on_call(self, interp, st, ev):
        n, r, a = ev.name, ev.recv, list(ev.args)
        if n == 'validate_challenge':
            interp.emit(st, ev)
            st.sethp('#validated', st.heap.get('#validated', ()) + (tuple(a),))
            s2 = st.copy()
            s2.sethp('#fresh', False)
            st.sethp('#fresh', True)
            return [(st, TRUE), (s2, FALSE)]
        if n == 'emit_challenge':
            interp.emit(st, ev)
            st.sethp('#emitted', st.heap.get('#emitted', ()) + (a[0],))
            return [(st, S('nonce'))]
        if n == 'encode' and r is not None and r[0] in ('S', 'OP'):
            return [(st, r)]
        if n == 'compare_digest' and len(a) == 2:
            return [(st, op('eq', a[0], a[1]))]
        return CryptoCfg.on_call(self, interp, st, ev)


ALGS = {None: 'md5', 'MD5': 'md5', 'MD5-sess': 'md5', 'SHA-256': 'sha256', 'SHA-256-sess': 'sha256', 'SHA-512-256': 'sha512_256', 'SHA-512-256-sess': 'sha512_256'}
FIELDS = ('username', 'uri', 'realm', 'nonce', 'response', 'qop', 'cnonce', 'nc', 'algorithm')


def ha1(alg, password):
    h = digest(ALGS[alg], [S('username'), K(':'), S('realm'), K(':'), password])
    if alg and alg.endswith('-sess'):
        h = digest(ALGS[alg], [h, K(':'), S('nonce'), K(':'), S('cnonce')])
    return h


def rfc(alg, h1, qop, body, method=S('method'), uri=S('uri'), nc=S('nc'), cnonce=S('cnonce')):
    """RFC 7616 3.4.1, RFC 2617 without qop"""
    a2 = [method, K(':'), uri]
    if qop == 'auth-int':
        a2 += [K(':'), digest(ALGS[alg], [body if body is not None else K('')])]
    h2 = digest(ALGS[alg], a2)
    mid = [nc, K(':'), cnonce, K(':'), K(qop), K(':')] if qop else []
    return digest(ALGS[alg], [h1, K(':'), S('nonce'), K(':')] + mid + [h2])


def header(repo, st, cls, tag, **f):
    o = ('O', tag, repo.cls(cls))
    st.sethp((o, 'parsed'), TRUE)
    for n in FIELDS:
        st.sethp((o, n), f.get(n, NONE))
    l = ('L', tag + '.other')
    st.sethp((l, 'items'), ())
    st.sethp((o, 'otherparams'), l)
    for v in f.values():
        if v[0] == 'S':
            st.setfact(v, Fact(none=False, truth=True))
    return o


def accepted(I, s, v):
    """paths of a verdict -> [(state, bool, what was compared with the response)]"""
    if is_k(v):
        return [(s, bool(kval(v)), s.fact(S('response')).eq)]
    if isop(v, 'eq') and S('response') in v[2:]:
        other = v[3] if v[2] == S('response') else v[2]
        return [(s, True, other), (s, False, other)]
    return [(s2, b, s2.fact(S('response')).eq) for s2, b in verdicts(I, s, v)]


def s02(ctx):
    ctx.rule = """Digest calculations run symbolically, digests kept as terms over the pieces fed to them: for every algorithm, quality of
protection and entity the response accepted or generated is the one the standard defines, acceptance needs the nonce to be valid for exactly
that algorithm, a header lacking a part is refused and never raises; generated headers name what was hashed."""
    repo = ctx.repo
    au = repo.cls('SipAuthorization')
    ve, vh = must(repo, au, 'verify'), must(repo, au, 'verifyHA1')
    gen = must(repo, au, 'genAuthResponse')
    I0 = SInterp(repo, NCfg(repo))
    hm = repo.cls('HashOracle').module
    masks = {'md5': 'DGST_MD5', 'md5-sess': 'DGST_MD5SESS', 'sha-256': 'DGST_SHA256', 'sha-256-sess': 'DGST_SHA256SESS', 'sha-512-256': 'DGST_SHA512', 'sha-512-256-sess': 'DGST_SHA512SESS'}
    bit = {k: bits(I0, hm, v) for k, v in masks.items()}
    bit[None] = bit['md5']
    bitof = lambda a: bit[a.lower() if a else None]
    vis = set()

    def world():
        return SInterp(repo, DCfg(repo)), State()
    full = dict(username=S('username'), uri=S('uri'), realm=S('realm'), nonce=S('nonce'), response=S('response'))
    where = vh.where()
    for alg in ALGS:
        for qop in (None, 'auth', 'auth-int'):
            for body in ((None, S('body')) if qop == 'auth-int' else (S('body'),)):
                f = dict(full)
                if alg:
                    f['algorithm'] = K(alg)
                if qop:
                    f.update(qop=K(qop), nc=S('nc'))
                if qop or alg and alg.endswith('-sess'):
                    f['cnonce'] = S('cnonce')
                want = rfc(alg, ha1(alg, S('password')), qop, body)
                nm = '%s/%s' % (alg, qop)
                bv = body if body is not None else NONE
                for fi, args in ((ve, [S('password'), S('method'), bv]), (vh, [ha1(alg, S('password')), S('method'), bv])):
                    I, st = world()
                    o = header(repo, st, 'SipAuthorization', 'auth', **f)
                    for v in (S('method'), S('body'), S('password')):
                        st.setfact(v, Fact(none=False))
                    yes = 0
                    for s, oc in I.run(fi, o, args, None, st):
                        ctx.count('verifications')
                        if not ctx.check(oc[0] == 'ret', 'verify:raise', where, 'verifying a complete header (%s) raises' % nm, lines(s)):
                            continue
                        for s2, ok, with_ in accepted(I, s, oc[1]):
                            if ok:
                                yes += 1
                                ctx.check(with_ == want, 'verify:response', where, 'a response (%s) is accepted that is not the one the standard defines' % nm, lines(s2))
                                v = s2.heap.get('#validated', ())
                                good = any(x[0] == S('nonce') and set(I.seq_items(x[1], s2) or ()) == {K(bitof(alg))} for x in v)
                                ctx.check(good and s2.heap.get('#fresh', False), 'verify:nonce', where, 'a response (%s) is accepted whose nonce was not found valid for that algorithm' % nm, lines(s2))
                            elif s2.heap.get('#fresh', True):
                                ctx.check(with_ == want, 'verify:refused', where, 'a response (%s) is refused other than for differing from the right one' % nm, lines(s2))
                    ctx.check(yes > 0, 'verify:never', where, 'no response (%s) is ever accepted' % nm)
                    vis |= I.visited
                # the other side
                I, st = world()
                g = dict(f)
                g.pop('response')
                o = header(repo, st, 'SipAuthorization', 'auth', **g)
                for v in (S('method'), S('body'), S('password')):
                    st.setfact(v, Fact(none=False, truth=True))
                for s, oc in I.run(gen, o, [S('password'), S('method'), bv], None, st):
                    ctx.count('responses')
                    ctx.check(oc[0] == 'ret' and s.heap.get((o, 'response')) == want, 'gen:response', gen.where(), 'the response generated (%s) is not the one the standard defines' % nm, lines(s))
                vis |= I.visited
    # incomplete and odd headers
    odd = [{k: NONE} for k in ('username', 'uri', 'realm', 'nonce', 'response')]
    odd += [dict(algorithm=K('MD6')), dict(algorithm=K('md5-sess-x')), dict(qop=K('auth-conf'), nc=S('nc'), cnonce=S('cnonce')), dict(algorithm=K('MD5-sess')),
            dict(qop=K('auth')), dict(qop=K('auth-int'), nc=S('nc')), dict(algorithm=K('SHA-256-sess'), qop=K('auth'), nc=S('nc'))]
    for d in odd:
        for fi, args in ((ve, [S('password'), S('method'), NONE]), (vh, [S('HA1'), S('method'), NONE])):
            I, st = world()
            f = dict(full)
            f.update(d)
            o = header(repo, st, 'SipAuthorization', 'auth', **f)
            nm = ', '.join('%s=%s' % (k, show(v)) for k, v in d.items())
            for v in (S('method'), S('password')):
                st.setfact(v, Fact(none=False))
            for s, oc in I.run(fi, o, args, None, st):
                ctx.count('odd headers')
                if not ctx.check(oc[0] == 'ret', 'odd:raise', where, 'verifying a header with %s raises' % nm, lines(s)):
                    continue
                for s2, ok, with_ in accepted(I, s, oc[1]):
                    if ok:
                        ctx.check(with_ is not None and S('HA1' if fi is vh else 'password') in set(leaves(with_)) and 'qop' in d and s2.heap.get('#fresh', False) and
                                  kval(d['qop']) in ('auth', 'auth-int'), 'odd:accepted', where, 'a header with %s is accepted' % nm, lines(s2))
            vis |= I.visited
    # challenges answered
    for ccls, acls in (('SipWWWAuthenticate', 'SipAuthorization'), ('SipProxyAuthenticate', 'SipProxyAuthorization')):
        wa = repo.cls(ccls)
        for alg in ALGS:
            for offered, qop in ((None, None), (('auth',), 'auth'), (('auth-int', 'auth'), 'auth-int'), (('auth',), None)):
                if alg and (alg.endswith('-sess') or alg != 'MD5') and not qop:
                    continue
                for opaque_ in (False, True):
                    answer(ctx, repo, world, wa, repo.cls(acls), alg, offered, qop, opaque_, vis)
    # challenges issued
    for alg in ALGS:
        I, st = world()
        o = ('O', 'chal', repo.cls('SipWWWAuthenticate'))
        for s, oc in I.run(must(repo, o[2], '__init__'), o, [], dict(realm=S('realm'), **({'algorithm': K(alg)} if alg else {})), st):
            ctx.count('challenges')
            em = s.heap.get('#emitted', ())
            got = [set(I.seq_items(x, s) or ()) for x in em]
            ctx.check(oc[0] == 'ret' and got == [{K(bitof(alg))}] and s.heap.get((o, 'nonce')) == S('nonce'), 'challenge:nonce', must(repo, o[2], '__init__').where(),
                      'a challenge for %s carries a nonce for another algorithm' % alg, lines(s))
            ctx.check(s.heap.get((o, 'algorithm'), NONE) == (K(alg) if alg else NONE), 'challenge:algorithm', must(repo, o[2], '__init__').where(), 'a challenge for %s names another algorithm' % alg, lines(s))
    ctx.visited(vis)
    ctx.floor('verifications', 40)
    ctx.floor('responses', 20)
    ctx.floor('odd headers', 20)
    ctx.floor('answers', 20)


def answer(ctx, repo, world, wa, acls, alg, offered, qop, opaque_, vis):
    from ..strs import pieces
    I, st = world()
    g = must(repo, wa, 'genAuthHF')
    o = ('O', 'chal', wa)
    st.sethp((o, 'parsed'), TRUE)
    st.sethp((o, 'realm'), S('realm'))
    st.sethp((o, 'nonce'), S('nonce'))
    st.sethp((o, 'algorithm'), K(alg) if alg else NONE)
    st.sethp((o, 'qop'), ('T', tuple(K(q) for q in offered)) if offered else NONE)
    st.sethp((o, 'opaque'), S('opaque') if opaque_ else NONE)
    l = ('L', 'chal.other')
    st.sethp((l, 'items'), ())
    st.sethp((o, 'otherparams'), l)
    for v in ('username', 'password', 'method', 'uri', 'realm', 'nonce', 'opaque', 'body'):
        st.setfact(S(v), Fact(none=False, truth=True))
    nm = '%s/%s' % (alg, qop)
    for s, oc in I.run(g, o, [S('username'), S('password'), S('method'), S('uri')], dict(body=S('body'), qop=K(qop) if qop else NONE), st):
        ctx.count('answers')
        if not ctx.check(oc[0] == 'ret' and oc[1][0] == 'O' and oc[1][2] is acls, 'answer:class', g.where(), 'a challenge (%s) is not answered with the header that belongs to it' % nm, lines(s)):
            continue
        h = oc[1]
        get = lambda n: I.peek_attr(s, h, n)
        if qop:
            cn = get('cnonce')
            ctx.check(isop(cn, 'rnd') and cn[2] >= 8, 'answer:cnonce', g.where(), 'the cnonce of an answer (%s) is not random' % nm, lines(s))
            ctx.check(is_k(get('nc')) and get('nc') == K('00000001'), 'answer:nc', g.where(), 'the nonce count of an answer (%s) is not 00000001' % nm, lines(s))
        cn = get('cnonce') if qop else NONE
        h1 = digest(ALGS[alg], [S('username'), K(':'), S('realm'), K(':'), S('password')])
        if alg and alg.endswith('-sess'):
            h1 = digest(ALGS[alg], [h1, K(':'), S('nonce'), K(':'), cn])
        want = rfc(alg, h1, qop, S('body'), nc=get('nc') if qop else NONE, cnonce=cn)
        ctx.check(get('response') == want, 'answer:response', g.where(), 'the response to a challenge (%s) is not the one the standard defines' % nm, lines(s))
        # what is written names what was hashed
        for s2, oc2 in I.run(must(repo, acls, '__str__'), h, [], None, s):
            if not ctx.check(oc2[0] == 'ret', 'written:raise', g.where(), 'writing the answer (%s) raises' % nm, lines(s2)):
                continue
            ps = pieces(oc2[1], lambda v: I.seq_items(v, s2))
            exp = dict(username=S('username'), realm=S('realm'), nonce=S('nonce'), uri=S('uri'), response=get('response'))
            if qop:
                exp['cnonce'] = cn
            if opaque_:
                exp['opaque'] = S('opaque')
            txt = ''.join(p if isinstance(p, str) else '\x00%d\x00' % i for i, p in enumerate(ps))
            got = params(txt, ps)
            for k, v in exp.items():
                ctx.check(got.get(k) == (v, True), 'written:' + k, g.where(), 'the answer (%s) does not carry %s="<what was hashed>"' % (nm, k), lines(s2))
            for k, v in (('algorithm', alg), ('qop', qop), ('nc', '00000001' if qop else None)):
                if v is None:
                    ctx.check(k not in got, 'written:' + k, g.where(), 'the answer (%s) carries %s' % (nm, k), lines(s2))
                else:
                    ctx.check(got.get(k, (None,))[0] == v, 'written:' + k, g.where(), 'the answer (%s) does not carry %s=%s' % (nm, k, v), lines(s2))
            ctx.check(not opaque_ and 'opaque' not in got or opaque_, 'written:opaque', g.where(), 'an answer carries opaque though the challenge did not', lines(s2))
            ctx.check(txt.startswith('Digest '), 'written:scheme', g.where(), 'the answer (%s) does not name its scheme' % nm, lines(s2))
    vis |= I.visited


def params(txt, ps):
    """name="value",name=value,... -> {name: (value, quoted)}"""
    import re
    out = {}
    for m in re.finditer(r'([A-Za-z]+)=("?)(\x00(\d+)\x00|[^",]*)("?)(?=,|$)', txt.split(' ', 1)[-1]):
        v = ps[int(m.group(4))][1] if m.group(4) else m.group(3)
        if m.group(1) in out:
            v = 'twice'
        out[m.group(1)] = (v, bool(m.group(2)) and bool(m.group(5)))
    return out


RULES['S02'] = s02


# ------------------------------------------------------------------ S03
class ICfg(CryptoCfg):
    unroll = 12
    ext_consts = {}

    def inline(self, interp, st, fi, ev):
        return fi.module.name.startswith('sippy.') and (fi.module.name.split('.')[1].startswith(('Sip', 'MsgBody', 'Multipart', 'UA')) or
                                                         fi.module.name.split('.')[1] == 'Rtp_proxy') and not fi.module.name.startswith('sippy.SipTransactionManager')


def spread(v, out):
    """how much of each random value a term keeps: {rnd: {byte}}"""
    if isop(v, 'rnd'):
        out.setdefault(v, set()).update(range(v[2] if isinstance(v[2], int) else 0))
    elif isop(v, 'slice', 'take') and isinstance(v[2], tuple) and isop(v[2], 'rnd'):
        lo, hi = (kval(x) if isinstance(x, tuple) else x for x in v[3:5])
        out.setdefault(v[2], set()).update(list(range(v[2][2]))[lo:hi])
    elif v[0] == 'OP':
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                spread(x, out)
    elif v[0] == 'T':
        for x in v[1]:
            spread(x, out)
    return out


def s03(ctx):
    ctx.rule = """Every construct that makes an identifier is run twice in the same state: the value holds enough bytes of a cryptographic generator,
and none of them is shared by the second value."""
    repo = ctx.repo
    vis = set()

    def world():
        I, st = SInterp(repo, ICfg(repo)), State()
        st.sethp(('#gc',), None)
        return I, st

    def obj(st, cls, tag, **f):
        o = ('O', tag, repo.cls(cls))
        for k, v in f.items():
            st.sethp((o, k), v)
        return o

    def call(I, st, o, name, args=(), kw=None):
        out = []
        fi = must(repo, o[2], name)
        for s, oc in I.run(fi, o, list(args), kw, st):
            out.append((s, oc, fi))
        return out

    def made(name, mk, need, prefix=None):
        """mk(I, st, tag) -> [(state, value or None, function)]"""
        I, st = world()
        where = None
        for s, a, fi in mk(I, st, 'a'):
            where = fi.where()
            ctx.count('identifiers')
            if not ctx.check(a is not None, name + ':made', where, 'making %s fails or gives none' % name, lines(s)):
                continue
            ra = spread(a, {})
            n = sum(len(b) * (0.5 if r[4] == 'token_hex' else 1) for r, b in ra.items())
            ctx.check(n >= need, name + ':random', where, '%s holds %d bytes of a cryptographic random generator, less than %d' % (name, n, need), lines(s))
            if prefix is not None:
                from ..strs import pieces
                p = pieces(a)
                ctx.check(isinstance(p[0], str) and p[0] == prefix, name + ':prefix', where, '%s does not begin with %s' % (name, prefix), lines(s))
            for s2, b, fi in mk(I, s, 'b'):
                if b is not None:
                    ctx.check(not set(ra) & set(spread(b, {})), name + ':shared', where, 'two values of %s share their random part' % name, lines(s2))
        ctx.check(where is not None, name + ':none', '', '%s is never made' % name)
        vis.update(I.visited)

    def address(cls):
        def mk(I, st, tag):
            ad = obj(st, 'SipAddress', 'ad' + tag)
            d, l = ('D', 'par' + tag), ('L', 'ord' + tag)
            st.sethp((d, 'map'), ())
            st.sethp((l, 'items'), ())
            st.sethp((ad, 'params'), d)
            st.sethp((ad, 'params_order'), l)
            o = obj(st, cls, 'hf' + tag, address=ad, parsed=TRUE)
            out = []
            for s, oc, fi in call(I, st, o, 'genTag'):
                for s2, oc2, _ in call(I, s, o, 'getTag'):
                    out.append((s2, oc2[1] if oc[0] == oc2[0] == 'ret' else None, fi))
            return out
        return mk
    made('a From tag', address('SipFrom'), 8)
    made('a To tag', address('SipTo'), 8)

    def via(I, st, tag):
        o = obj(st, 'SipVia', 'via' + tag, parsed=TRUE)
        d = ('D', 'vp' + tag)
        st.sethp((d, 'map'), ())
        st.sethp((o, 'params'), d)
        return [(s2, oc2[1] if oc[0] == oc2[0] == 'ret' and oc2[1] != NONE else None, fi) for s, oc, fi in call(I, st, o, 'genBranch') for s2, oc2, _ in call(I, s, o, 'getBranch')]
    made('a branch', via, 8, 'z9hG4bK')

    def new(cls, attr, args=(), kw=None, prep=None):
        def mk(I, st, tag):
            o = ('O', cls + tag, repo.cls(cls))
            fi = must(repo, o[2], '__init__')
            a = list(args)
            if prep is not None:
                st, a = prep(I, st, tag)
            return [(s, attr(I, s, o) if oc[0] == 'ret' else None, fi) for s, oc in I.run(fi, o, a, kw, st)]
        return mk
    at = lambda n: lambda I, s, o: (lambda v: None if v is None or v == NONE else v)(I.peek_attr(s, o, n))

    def txt(I, s, o):
        r = [oc[1] for _, oc, _ in call(I, s.copy(), o, '__str__') if oc[0] == 'ret']
        return r[0] if len(r) == 1 else None
    made('a Call-ID', new('SipCallId', txt), 8)
    made('a call GUID', new('SipCiscoGUID', txt), 16)
    made('a multipart boundary', new('MultipartMixBody', at('boundary')), 8)
    made('the tag of a call leg', new('UA', at('lTag'), kw=dict(nh_address=NONE)), 8)

    def gc(I, st, tag):
        d = ('D', 'gc' + tag)
        c = obj(st, 'Rtp_proxy_client_udp', 'client' + tag, online=TRUE)
        st.sethp((d, 'map'), ((K('rtp_proxy_client'), c),))
        return st, [d]
    for n, attr in (('the identifier of a media session', 'call_id'), ('the caller tag of a media session', 'from_tag'), ('the callee tag of a media session', 'to_tag')):
        made(n, new('Rtp_proxy_session', at(attr), prep=gc), 8)
    I, st = world()
    for s, v, fi in new('Rtp_proxy_session', lambda I, s, o: tuple(I.peek_attr(s, o, n) for n in ('call_id', 'from_tag', 'to_tag')), prep=gc)(I, st, 'd'):
        ctx.check(v is not None and len(set(v)) == 3, 'session:same', fi.where(), 'two of the identifiers of a media session are the same', lines(s))

    def cookie(I, st, tag):
        o = obj(st, 'Rtp_proxy_client_udp', 'client', worker=S('worker'), address=S('address'), delay_flt=('O', 'filter', Ext('Filter')))
        st.sethp((('O', 'filter', Ext('Filter')), 'lastval'), K(0.25))
        d = ('D', 'pend')
        if (d, 'map') not in st.heap:
            st.sethp((d, 'map'), ())
        st.sethp((o, 'pending_requests'), d)
        out = []
        for s, oc, fi in call(I, st, o, 'send_command', [K('V')]):
            keys = [k for k, _ in s.heap.get((d, 'map')) or ()]
            out.append((s, keys[-1] if oc[0] == 'ret' and keys else None, fi))
        return out
    made('the cookie of a media command', cookie, 8)
    # the first sequence number
    I, st = world()
    c = repo.cls('SipCSeq')
    fi = must(repo, c, 'genRandCSeq')
    for s, oc in I.run(fi, ('C', c), [], None, st):
        ctx.count('identifiers')
        v = oc[1]
        ok = False
        if oc[0] == 'ret':
            base, r = 0, v
            if isop(v, 'add'):
                base, r = (kval(v[2]), v[3]) if is_k(v[2]) else (kval(v[3]), v[2]) if is_k(v[3]) else (None, v)
            n = s.heap.get(('#below', r))
            ok = base is not None and n is not None and is_k(n) and base >= 0 and base + kval(n) - 1 <= 2 ** 31 - 1 - 100 and kval(n) >= 2 ** 16
        ctx.check(ok, 'cseq', fi.where(), 'the first sequence number is not a random one below 2^31 with room to count on', lines(s))
    vis.update(I.visited)
    ctx.visited(vis)
    ctx.floor('identifiers', 12)


RULES['S03'] = s03
