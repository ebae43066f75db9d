"""P19: cipher suites and signature schemes are the algorithms they are registered as"""
from sa import rfc
from sa.interp import AnalysisError, Interp, show_exc
from sa.q import call_parts, classes_with, last
from sa.suite import Suite, aead, suites
from sa.terms import alts, cval, has_cval, mk, show, sym

SPEC = {
    'id': 'P19', 'level': 'other',
    'technique': 'constant evaluation of the suite tables and provenance of the AEAD, hash, padding '
                 'and signature primitive each registered algorithm reaches, against RFC 8446 B.3/B.4',
    'explanation': 'finite and exhaustive over the registered algorithms: every table constant is '
                   'evaluated from the syntax tree, and sign(), verify(), encrypt(), decrypt() are '
                   'interpreted on every path to see which primitive is applied to which operands',
    'assumptions': ['sa/rfc.py transcribes RFC 8446 4.2.3, B.4 and RFC 5116/7539 limits'],
}
KEY, MSG, SIG = sym('key'), sym('msg', 'bytes'), sym('sig', 'bytes')


def run(ctx):
    p = ctx.p
    ciphers(ctx, p)
    signatures(ctx, p)


def ciphers(ctx, p):
    reg = {k.a[1]: v.a[0] for k, v in p.state.heap[p.find(
        p.cls('siotls.crypto.ciphers.TLSCipherSuite'), '_registry')].items}
    found = suites(p)
    for name, (al, cls, klen, nlen, tlen) in rfc.CIPHERS.items():
        ci = reg.get(name)
        ctx.check(ci is not None and found.get(name) is ci, 'registered', name,
                  f'registered class is {ci.name if ci else None}')
        if ci is None:
            continue
        loc = (ci.module.path, ci.node.lineno)
        for attr, want in (('key_length', klen), ('nonce_length', nlen), ('tag_length', tlen)):
            v = p.find(ci, attr)
            ctx.check(v is not None and has_cval(v) and cval(v) == want, 'suite-constant',
                      f'{name}.{attr}', f'{show(v) if v else None}, expected {want}', loc)
        v = p.find(ci, 'digestmod')
        ctx.check(v is not None and show(v) == f'hashlib.{al}', 'suite-hash', name,
                  f'{show(v) if v else None}', loc)
        v = p.find(ci, 'usage_limit')
        ctx.check(v is not None and has_cval(v) and isinstance(cval(v), int)
                  and 2 ** 20 <= cval(v) <= rfc.USAGE_MAX[cls], 'usage-limit', name,
                  f'{show(v) if v else None}, at most {rfc.USAGE_MAX[cls]}', loc)
        for side in ('client', 'server'):
            S = Suite(p, ci, side)
            ctx.extra.append(S)
            for st, obj, _e in S.handshake():
                for op in ('encrypt', 'decrypt'):
                    for _s, vs in S.cipher_calls(st, obj, op):
                        a = aead(vs[0])
                        tag = (a['ckw'].get('tag_length', a['cargs'][0] if a['cargs'] else 16)
                               if a else None)
                        ctx.check(a is not None and a['cls'] == cls and tag == tlen, 'suite-aead',
                                  f'{name} {side} {op}', f'{show(vs[0])[:300]}', loc)
                bad = [o for o in S.call(st, obj, 'decrypt', sym('d', 'bytes'), sym('a', 'bytes'))
                       if o.kind == 'raise' and 'InvalidTag' in show_exc(o.val, o.st)]
                ctx.check(not bad, 'bad-tag', f'{name} {side}',
                          'InvalidTag leaves decrypt() as is', loc)
                ctx.check(any(o.kind == 'raise' and 'BadRecordMac' in show_exc(o.val, o.st) for o in
                              S.call(st, obj, 'decrypt', sym('d', 'bytes'), sym('a', 'bytes'))),
                          'bad-record-mac', f'{name} {side}',
                          'a record that does not authenticate is not bad_record_mac', loc)
    ctx.need('suite-aead', 20)


def hash_name(v):
    n, _a, _k = call_parts(v)
    if n is None and v.k == 'ext':
        n = v.a[0]
    return last(n) if n else None


def call_ops(c):
    """operands of sign(data, …) and verify(signature, data, …) in the order of the library"""
    kw = dict(c.a[3])
    return [*c.a[2], *(kw[k] for k in ('signature', 'data') if k in kw)]


def scheme_of(v):
    """(family, hash, mgf hash, salt) of the primitive of a sign()/verify() call"""
    args = [*v.a[2], *(x for _k, x in v.a[3])]
    out = {'fam': 'eddsa', 'hash': None, 'mgf': None, 'salt': None}
    for a in args:
        n, aa, kk = call_parts(a)
        n = last(n) if n else None
        if n == 'ECDSA':
            out.update(fam='ecdsa', hash=hash_name(aa[0] if aa else kk.get('signature_algorithm')))
        elif n == 'PKCS1v15':
            out.update(fam='pkcs1')
        elif n == 'PSS':
            mgf = aa[0] if aa else kk.get('mgf')
            salt = aa[1] if len(aa) > 1 else kk.get('salt_length')
            _n, ma, mk_ = call_parts(mgf)
            out.update(fam='pss', mgf=hash_name(ma[0] if ma else mk_.get('algorithm')),
                       salt=show(salt))
        elif n and n.startswith('SHA'):
            out.update(hash=n)
    return out


def signatures(ctx, p):
    by = classes_with(p, 'iana_id', 'siotls.crypto.signatures')
    base = p.cls('siotls.crypto.signatures.TLSSignatureSuite')
    reg = {k.a[1]: v.a[0] for k, v in p.state.heap[p.find(base, '_registry')].items}
    pub = {}
    for k, v in p.state.heap[p.find(base, '_pubkey_registry')].items:
        pub[last(show(k))] = {x.a[1]: c.a[0] for x, c in p.state.heap[v].items}
    sreg = {last(show(k)): v.a[0] for k, v in p.state.heap[p.find(base, '_sign_registry')].items}
    for name, (fam, h) in rfc.SIGNATURES.items():
        cs = by.get(name, [])
        ctx.check(len(cs) == 1, 'one-class', name, f'{[c.name for c in cs]}')
        if not cs:
            continue
        ci = cs[0]
        loc = (ci.module.path, ci.node.lineno)
        oid = next(o for pre, o in sorted(rfc.SIG_OID.items(), key=lambda x: -len(x[0]))
                   if name.startswith(pre))
        v = p.find(ci, 'pubkey_oid')
        ctx.check(v is not None and last(show(v)) == oid, 'key-type', name,
                  f'{show(v) if v else None}, expected {oid}', loc)
        if fam == 'pkcs1':
            ctx.check(name not in reg and not any(name in d for d in pub.values()),
                      'certificate-only', name,
                      'RSASSA-PKCS1 could sign or verify handshake messages', loc)
        else:
            ctx.check(reg.get(name) is ci, 'registered', name,
                      f'registered class is {reg[name].name if name in reg else None}', loc)
            ctx.check(pub.get(oid, {}).get(name) is ci, 'registered-for-key', name,
                      f'not usable with a {oid} key', loc)
            for o, d in pub.items():
                ctx.check(o == oid or name not in d, 'other-key', f'{name} {o}',
                          'usable with the wrong key type', loc)
        if name in rfc.SIGN_OID:
            so = rfc.SIGN_OID[name]
            v = p.find(ci, 'sign_oid')
            ctx.check(v is not None and last(show(v)) == so, 'signature-oid', name,
                      f'{show(v) if v else None}', loc)
            ctx.check(sreg.get(so) is ci, 'signature-oid-registered', name,
                      f'{so} gives {sreg[so].name if so in sreg else None}', loc)
        I = Interp(p, limit=16, keep=lambda e: e.kind == 'meth')
        ctx.extra.append(type('D', (), {'I': I})())
        for meth, args in (('sign', [MSG]), ('verify', [SIG, MSG])):
            def go(s, meth=meth, args=args, ci=ci, I=I):
                out = []
                for s1, o in I.call(s, mk('cls', ci), [KEY], {}, None):
                    for s2, f in I.getattr(s1, o, meth, None):
                        out += I.call(s2, f, args, {}, None)
                return out
            outs = I.run(p.state.copy(), go)
            rets = [o for o in outs if o.kind == 'return']
            ctx.check(bool(rets), f'{meth}-possible', name, f'{meth}() never returns', loc)
            for o in rets:
                calls = [e.res for e in o.st.events() if e.kind == 'meth' and e.name == meth
                         and e.args and e.args[0] is KEY]
                if len(calls) != 1 or calls[0].k != 'mcall':
                    ctx.bad(f'{meth}-primitive', name, f'{len(calls)} calls of key.{meth}()', loc)
                    continue
                c = calls[0]
                s = scheme_of(c)
                want = {'fam': fam, 'hash': h, 'mgf': h if fam == 'pss' else None}
                ctx.check(all(s[k] == x for k, x in want.items()) and (
                    fam != 'pss' or 'DIGEST_LENGTH' in s['salt']
                    or s['salt'] == str(rfc.DIGEST_SIZE[h.lower()])), f'{meth}-primitive', name,
                    f'{s}', loc)
                ops = [x for x in call_ops(c) if x in (MSG, SIG)]
                ctx.check(ops == ([MSG] if meth == 'sign' else [SIG, MSG]), f'{meth}-operands',
                          name, f'{show(c)[:200]}', loc)
                if meth == 'sign':
                    ctx.check(all(x is c for x in alts(o.val)), 'sign-result', name,
                              f'returns {show(o.val)[:200]}', loc)
            if meth == 'verify':
                ctx.check(any(o.kind == 'raise' and 'InvalidSignature' in show_exc(o.val, o.st)
                              for o in outs), 'verify-raises', name,
                          'an invalid signature is swallowed', loc)
    ctx.need('verify-primitive', 14)
    if not by:
        raise AnalysisError('no signature classes')
