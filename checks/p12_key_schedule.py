"""P12: every traffic secret, key, iv and MAC key is the one RFC 8446 section 7 defines"""
from sa import rfc
from sa.interp import show_exc
from sa.suite import TH, VD, Suite, aead, canon, iv_of, key_of, schedule, suites
from sa.terms import alts, const, show

SPEC = {
    'id': 'P12', 'level': 'other',
    'technique': 'provenance (def-use) terms of every AEAD key, iv, MAC key and exported secret, '
                 'built by abstract interpretation of each cipher suite for both sides and all '
                 'PSK modes, matched against the derivation tree of RFC 8446 section 7',
    'explanation': 'for each suite, side and PSK mode the data-flow term of every key that reaches '
                   'an AEAD constructor, an HMAC or a return value is computed from the source and '
                   'must be equal to the derivation tree written from RFC 8446 section 7.1-7.3',
    'assumptions': ['hashlib, hmac and cryptography compute the functions they are named after'],
}


def short(t):
    s = str(t)
    return s if len(s) < 300 else s[:300] + '…'


def run(ctx):
    p = ctx.p
    found = suites(p)
    for name in rfc.CIPHERS:
        if name not in found:
            ctx.bad('suite', name, 'no such suite')
    for name, ci in sorted(found.items()):
        if name not in rfc.CIPHERS:
            continue
        al, aead_cls, klen, nlen, _ = rfc.CIPHERS[name]
        ref = schedule(al, klen, nlen)
        loc = (ci.module.path, ci.node.lineno)
        for side in ('client', 'server'):
            other = 'server' if side == 'client' else 'client'
            S = Suite(p, ci, side)
            ctx.extra.append(S)
            for psk in (None, 'external', 'resume'):
                r = ref[psk is not None]
                w = f'{name} {side} psk={psk}'
                for st, obj, early in S.handshake(psk):
                    if psk is not None:
                        vals = list(early.val.a) if early.val.k == 'tuple' else [early.val]
                        got = [canon(x) for x in vals]
                        ctx.check(got == [r['ext binder' if psk == 'external' else 'res binder'],
                                          r['e exp']], 'early-secrets', w, short(got), loc)
                        ek = [('encrypt', 'client')] if side == 'client' else [
                            ('decrypt', 'client')]
                        for op, _o in ek:
                            keys(ctx, S, early.st, obj, op, r['client early'], al, aead_cls, klen,
                                 nlen, f'{w} early {op}', loc)
                    keys(ctx, S, st, obj, 'encrypt', r[side, 'hs'], al, aead_cls, klen, nlen,
                         f'{w} handshake encrypt', loc)
                    keys(ctx, S, st, obj, 'decrypt', r[other, 'hs'], al, aead_cls, klen, nlen,
                         f'{w} handshake decrypt', loc)
                    for o in S.returns(S.call(st, obj, 'sign_finish', TH), 'sign_finish'):
                        ctx.check(canon(o.val) == ('hmac', al, r[side, 'finished'], 'th'),
                                  'finished-mac', f'{w} own', short(canon(o.val)), loc)
                    verify(ctx, S, st, obj, ('hmac', al, r[other, 'finished'], 'th'), w, loc)
                for st, obj, o, _e in S.application(psk):
                    keys(ctx, S, st, obj, 'encrypt', r[side, 'ap'], al, aead_cls, klen, nlen,
                         f'{w} application encrypt', loc)
                    keys(ctx, S, st, obj, 'decrypt', r[other, 'ap'], al, aead_cls, klen, nlen,
                         f'{w} application decrypt', loc)
                    vals = list(o.val.a) if o.val.k == 'tuple' else [o.val]
                    got = [canon(x) for x in vals]
                    ctx.check(got == [r['exporter'], r['resumption']], 'exported-secrets', w,
                              short(got), loc)
            order(ctx, S, f'{name} {side}', loc)
    ctx.need('aead-key', 100)
    ctx.need('finished-mac', 30)


def keys(ctx, S, st, obj, op, secret, al, cls, klen, nlen, w, loc):
    for _s, vs in S.cipher_calls(st, obj, op):
        for v in vs:
            a = aead(v)
            if a is None:
                ctx.bad('aead-call', w, f'the result is {show(v)}', loc)
                continue
            ctx.check(a['op'] == op and a['cls'] == cls, 'aead-call', w,
                      f"{a['cls']}.{a['op']}", loc)
            ctx.check(canon(a['key']) == key_of(al, secret, klen), 'aead-key', w,
                      short(canon(a['key'])), loc)
            ivs = ivs_in(a['nonce'])
            ctx.check(iv_of(al, secret, nlen) in ivs and len(ivs) == 1, 'aead-iv', w, short(ivs),
                      loc)
            ctx.check(show(a['data']) == '$data0' and show(a['aad']) == '$aad0', 'aead-input', w,
                      f"{show(a['data'])} / {show(a['aad'])}", loc)


def ivs_in(v):
    """the maximal byte strings a nonce is made of"""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if x.k in ('call', 'slice') and x.a[0] != 'builtins.int.from_bytes':
            c = canon(x)
            if isinstance(c, tuple) and c[0] in ('expand', 'hmac', 'hash', 'slice'):
                out.append(c)
                continue
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                if hasattr(z, 'k') and not (x.k == 'slice' and z is not x.a[0]):
                    todo.append(z)
    return list(dict.fromkeys(out))


def verify(ctx, S, st, obj, want, w, loc):
    """the peer's Finished is accepted only when compare_digest said so"""
    outs = S.call(st, obj, 'verify_finish', TH, VD)
    ok = False
    for o in outs:
        facts = [(c, b) for c, b in o.st.facts.items()
                 if c.k == 'call' and c.a[0] == 'hmac.compare_digest']
        good = len(facts) == 1 and {short(canon(x)) for x in facts[0][0].a[1]} == {
            short(want), 'verify_data'} and full(facts[0][0], want)
        if o.kind == 'return':
            neg = [x for x in alts(o.val) if x is const(False)]
            ctx.check(good and (facts[0][1] is True or bool(neg)), 'finished-verified', w,
                      'returns without the constant-time comparison having succeeded', loc)
            ok = True
        else:
            ctx.check(good and facts[0][1] is False, 'finished-refused', w,
                      f'{show_exc(o.val, o.st)} without a failed comparison', loc)
    ctx.check(ok, 'finished-accepts', w, 'never accepts', loc)


def full(c, want):
    return want in [canon(x) for x in c.a[1]]


def order(ctx, S, w, loc):
    """the schedule cannot be entered out of order nor twice"""
    from sa.suite import ECDHE, TH_CF, TH_SF, TH_SH
    for o in S.returns(S.new(), '__init__'):
        for what, args in (('derive_handshake_secrets', (ECDHE, TH_SH)),
                           ('derive_master_secrets', (TH_SF, TH_CF))):
            outs = S.call(o.st, o.val, what, *args)
            ctx.check(all(x.kind == 'raise' for x in outs), 'schedule-order', f'{w} {what} first',
                      'keys can be derived before the previous stage', loc)
    for st, obj, _e in S.handshake():
        for what, args in (('skip_early_secrets', ()), ('derive_handshake_secrets', (ECDHE, TH_SH))):
            outs = S.call(st, obj, what, *args)
            ctx.check(all(x.kind == 'raise' for x in outs), 'schedule-order', f'{w} {what} twice',
                      'a stage of the key schedule can be entered twice', loc)
