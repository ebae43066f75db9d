"""P17: every named group runs its own standard key exchange and rejects bad shares"""
from sa import rfc
from sa.interp import AnalysisError, Interp
from sa.q import bounds, call_parts, calls_in, classes_with
from sa.terms import alts, cval, has_cval, mk, show, sym, walk

SPEC = {
    'id': 'P17', 'level': 'other',
    'technique': 'constant evaluation of the group parameters against RFC 7919 arithmetic, and '
                 'path-sensitive provenance of key share, private key and shared secret of each '
                 'group (bounds on the peer share taken from the branch facts of each path)',
    'explanation': 'group parameters are recomputed from the RFC 7919 formula; init() and '
                   'resume() of every registered group are interpreted and each returning path '
                   'must hand the right primitive the right operands, with 2 <= Y <= p-2 implied '
                   'by the branches of the path for finite-field groups',
    'assumptions': ['cryptography validates curve points and all-zero X25519/X448 outputs'],
}
A = 'cryptography.hazmat.primitives.asymmetric.'
XCLS = {'x25519': ('X25519PrivateKey', 'X25519PublicKey'), 'x448': ('X448PrivateKey', 'X448PublicKey')}
PRIV, SHARE = sym('priv'), sym('share', 'bytes')


def has(v, name, *args):
    for x in walk(v):
        n, a, _k = call_parts(x)
        if n and (n == name or n.endswith('.' + name)) and all(
                any(z is y or (has_cval(z) and not hasattr(y, 'k') and cval(z) == y) for z in a)
                for y in args):
            return True
    return False


def run(ctx):
    p = ctx.p
    groups = {k: v for k, v in classes_with(p, 'iana_id', 'siotls.crypto.key_exchanges').items()}
    if not groups:
        raise AnalysisError('no key exchange classes')
    reg = {k.a[1]: v.a[0] for k, v in p.state.heap[p.find(
        p.cls('siotls.crypto.key_exchanges.TLSKeyExchange'), '_registry')].items}
    for g in rfc.ENUMS['NamedGroup']:
        ci = reg.get(g)
        ctx.check(ci is not None, 'registered', g, 'no key exchange for this group')
        if ci is None:
            continue
        v = p.find(ci, 'iana_id')
        ctx.check(v.a[1] == g, 'registered-as', g, f'{ci.name} is {show(v)}')
        I = Interp(p, limit=64, keep=lambda e: False)
        ctx.extra.append(type('D', (), {'I': I})())
        loc = (ci.module.path, ci.node.lineno)

        def do(meth, args, ci=ci, I=I):
            def go(s):
                out = []
                for s2, f in I.getattr(s, mk('cls', ci), meth, None):
                    out += I.call(s2, f, args, {}, None)
                return out
            return I.run(p.state.copy(), go)
        init = [o for o in do('init', []) if o.kind == 'return']
        res = [o for o in do('resume', [PRIV, SHARE]) if o.kind == 'return']
        ctx.check(bool(init), 'init-possible', g, 'init() never returns', loc)
        ctx.check(bool(res), 'resume-possible', g, 'resume() never returns', loc)
        if g.startswith('ffdhe'):
            ffdhe(ctx, p, g, ci, init, res, loc)
            continue
        for o in init:
            for v in alts(o.val):
                if v.k != 'tuple' or len(v.a) != 2:
                    ctx.bad('key-share', g, f'init() returns {show(v)}', loc)
                    continue
                priv, share = v.a
                if g in XCLS:
                    ok = priv.k == 'call' and priv.a[0] == f'{A}{g}.{XCLS[g][0]}.generate'
                    sh = share.k == 'mcall' and share.a[0] in ('public_bytes_raw', 'public_bytes') \
                        and has(share, 'public_key') and any(x is priv for x in walk(share))
                else:
                    n, a, _ = call_parts(priv)
                    ok = n == f'{A}ec.generate_private_key' and curve_of(a) == g
                    sh = share.k == 'mcall' and share.a[0] == 'public_bytes' and any(
                        x is priv for x in walk(share)) and 'UncompressedPoint' in show(share) \
                        and 'X962' in show(share)
                ctx.check(ok, 'private-key', g, f'private key is {show(priv)}', loc)
                ctx.check(sh, 'key-share', g, f'key share is {show(share)}', loc)
        for o in res:
            for v in alts(o.val):
                ex = [x for x in walk(v) if x.k == 'mcall' and x.a[0] == 'exchange']
                ok = v.k == 'mcall' and v.a[0] == 'exchange' and v.a[1] is PRIV
                ctx.check(ok, 'shared-secret', g, f'shared secret is {show(v)}', loc)
                if not ex:
                    continue
                pub = ex[0].a[2][-1]
                n, a, _ = call_parts(pub)
                if g in XCLS:
                    ok = n == f'{A}{g}.{XCLS[g][1]}.from_public_bytes' and a[0] is SHARE
                else:
                    ok = n is not None and n.endswith('EllipticCurvePublicKey.from_encoded_point') \
                        and a[1] is SHARE and curve_of(a) == g \
                        and has(ex[0], 'ECDH')
                ctx.check(ok, 'peer-share', g, f'peer key is {show(pub)}', loc)
    ctx.need('shared-secret', 10)


def curve_of(args):
    for a in args:
        n, _a, _k = call_parts(a)
        if n and '.ec.' in n:
            return n.rpartition('.')[2].lower()
        if a.k == 'ext' and '.ec.' in a.a[0]:
            return a.a[0].rpartition('.')[2].lower()
    return None


def params(v):
    """(p, g) of the DH parameters in a term"""
    out = set()
    for x in calls_in(v, 'DHParameterNumbers'):
        args = [cval(a) if has_cval(a) else None for a in x.a[1]]
        kws = {k: cval(a) if has_cval(a) else None for k, a in x.a[2]}
        pp = args[0] if args else kws.get('p')
        gg = args[1] if len(args) > 1 else kws.get('g')
        qq = args[2] if len(args) > 2 else kws.get('q')
        out.add((pp, gg, qq))
    return out


def ffdhe(ctx, p, g, ci, init, res, loc):
    bits = int(g[5:])
    P = rfc.ffdhe_p(bits)
    want = {(P, 2, (P - 1) // 2), (P, 2, None)}
    for o in init:
        for v in alts(o.val):
            if v.k != 'tuple' or len(v.a) != 2:
                ctx.bad('key-share', g, f'init() returns {show(v)}', loc)
                continue
            priv, share = v.a
            pr = params(priv)
            ctx.check(len(pr) == 1 and pr <= want, 'group-parameters', f'{g} init',
                      'p, g or q differ from RFC 7919', loc)
            n, _a, _k = call_parts(priv)
            ctx.check(n == 'generate_private_key', 'private-key', g, show(priv)[-200:], loc)
            ctx.check(share.k == 'be' and has_cval(share.a[1]) and cval(share.a[1]) == bits // 8
                      and share.a[0].k == 'attr' and share.a[0].a[1] == 'y'
                      and any(x is priv for x in walk(share)), 'key-share', g,
                      f'key share is {show(share)[-200:]}', loc)
    for o in res:
        for v in alts(o.val):
            ok = v.k == 'mcall' and v.a[0] == 'exchange' and v.a[1] is PRIV
            ctx.check(ok, 'shared-secret', g, f'shared secret is {show(v)[:200]}', loc)
            pub = calls_in(v, 'DHPublicNumbers')
            ctx.check(len(pub) == 1, 'peer-share', g, 'the peer share is not used', loc)
            for x in pub:
                pr = params(x)
                ctx.check(len(pr) == 1 and pr <= want, 'group-parameters', f'{g} resume',
                          'p, g or q differ from RFC 7919', loc)
                y = x.a[1][0] if x.a[1] else dict(x.a[2]).get('y')
                ctx.check(y.k == 'ube' and y.a[0] is SHARE, 'peer-share', f'{g} Y',
                          f'Y is {show(y)[:200]}', loc)
                lo, hi = bounds(o.st.facts, y)
                ctx.check(lo is not None and lo >= 2, 'share-range', f'{g} low',
                          f'a share as low as {lo} is accepted', loc)
                ctx.check(hi is not None and hi <= P - 2, 'share-range', f'{g} high',
                          'a share above p-2 is accepted', loc)
