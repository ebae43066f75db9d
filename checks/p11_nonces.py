"""P11: a (key, nonce) pair never protects two records"""
from sa import rfc
from sa.interp import show_exc
from sa.suite import Suite, aead, canon, suites
from sa.terms import const, cval, has_cval, mk, show, sym

SPEC = {
    'id': 'P11', 'level': 'other',
    'technique': 'abstract interpretation of each cipher suite: provenance terms of successive '
                 'nonces from a fresh key (base case) and from an arbitrary counter value '
                 '(inductive step: the counter cells found by heap differencing are replaced by a '
                 'symbol)',
    'explanation': 'for each suite, side, key epoch and direction the nonce handed to the AEAD is '
                   'shown to be iv XOR n with n = 0 for the first record under a key and n+1 '
                   'after n, whatever other operations are interleaved, and the counter is shown '
                   'bounded by the usage limit of the AEAD',
    'assumptions': ['builtins.range / itertools.count count by one'],
}
N = sym('N', 'int')


def nonce_no(nonce, nlen):
    """be(iv ^ x, nlen) -> (iv term, x)"""
    if nonce.k != 'be' or not has_cval(nonce.a[1]) or cval(nonce.a[1]) != nlen:
        return None
    x = nonce.a[0]
    if x.k == 'ube':
        return x, const(0)
    if x.k != 'bin' or x.a[0] != '^':
        return None
    for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
        if a.k == 'ube' and isinstance(canon(a.a[0]), tuple) and 'tls13 iv' in canon(a.a[0]):
            return a, b
    return None


def counters(st1, st2):
    """[(object, attribute, value)] of the cells that went from k to k+1"""
    out = []
    for oid, o in st1.heap.items():
        o2 = st2.heap.get(oid)
        if o2 is None or o2 is o:
            continue
        for k, v in o.attrs.items():
            w = o2.attrs.get(k)
            if w is not None and v.k == w.k == 'const' and type(v.a[1]) is int \
                    and type(w.a[1]) is int and w.a[1] == v.a[1] + 1:
                out.append((oid, k, v))
    return out


def plus(n, k):
    return n if k == 0 else mk('bin', '+', n, const(k))


def seqs(ctx, S, st, obj, ops, want, w, nlen, loc):
    """the numbers used by a sequence of operations"""
    paths = [(st, [])]
    for i, op in enumerate(ops):
        nxt = []
        for s, acc in paths:
            if op in ('encrypt', 'decrypt'):
                outs = S.call(s, obj, op, sym(f'data{i}', 'bytes'), sym(f'aad{i}', 'bytes'))
            else:
                outs = S.run_prop(s, obj, op)
            for o in outs:
                if o.kind == 'return':
                    nxt.append((o.st, [*acc, o.val] if op in ('encrypt', 'decrypt') else acc))
        paths = nxt
    ctx.check(bool(paths), 'sequence-possible', w, 'no path completes', loc)
    for _s, vs in paths:
        got = []
        for v in vs:
            a = aead(v)
            nn = nonce_no(a['nonce'], nlen) if a else None
            got.append(nn[1] if nn else None)
        ctx.check(got == want, 'nonce-sequence', w,
                  'numbers ' + ', '.join(show(g) if g else '?' for g in got) + ' expected '
                  + ', '.join(map(show, want)) + f'; first nonce {show(aead(vs[0])["nonce"])[:200] if aead(vs[0]) else show(vs[0])[:200]}', loc)
    return paths


class S11(Suite):
    def run_prop(self, st, obj, name):
        return self.I.run(st, lambda s: self.I.getattr(s, obj, name, None))


E_, D_, P_ = 'encrypt', 'decrypt', 'should_rekey'


def run(ctx):
    p = ctx.p
    for name, ci in sorted(suites(p).items()):
        if name not in rfc.CIPHERS:
            continue
        _al, cls, _klen, nlen, _ = rfc.CIPHERS[name]
        loc = (ci.module.path, ci.node.lineno)
        for side in ('client', 'server'):
            S = S11(p, ci, side)
            ctx.extra.append(S)
            epochs = []
            for psk in ('external', None):
                for o in S.returns(S.new(), '__init__'):
                    if psk:
                        from sa.suite import PSK, TH_CH
                        for o2 in S.returns(S.call(o.st, o.val, 'derive_early_secrets', PSK,
                                                   const(psk), TH_CH), 'early'):
                            epochs.append(('early', o2.st, o.val,
                                           (E_,) if side == 'client' else (D_,)))
                for st, obj, _e in S.handshake(psk):
                    epochs.append((f'handshake psk={psk}', st, obj, (E_, D_)))
                for st, obj, _o, _e in S.application(psk):
                    epochs.append((f'application psk={psk}', st, obj, (E_, D_)))
            for ep, st, obj, ops in epochs:
                w = f'{name} {side} {ep}'
                for op in ops:
                    seqs(ctx, S, st, obj, [op, P_, op, P_, op] if op == E_ else [op] * 3,
                         [const(0), const(1), const(2)], f'{w} {op}', nlen, loc)
                    step(ctx, S, st, obj, op, f'{w} {op}', nlen, cls, loc)
                if len(ops) == 2:
                    seqs(ctx, S, st, obj, [E_, D_, E_, D_],
                         [const(0), const(0), const(1), const(1)], f'{w} interleaved', nlen, loc)
            rekeyed(ctx, S, f'{name} {side}', nlen, loc)
    ctx.need('nonce-sequence', 100)
    ctx.need('bounded', 30)


def step(ctx, S, st, obj, op, w, nlen, cls, loc):
    """from record N: N, N+1, N+2"""
    a = (sym('d', 'bytes'), sym('a', 'bytes'))
    for o in S.returns(S.call(st, obj, op, *a), op):
        cells = counters(st, o.st)
        ctx.check(bool(cells), 'counter', w, 'no counter advances with a record', loc)
        if not cells:
            continue
        s2 = st
        for oid, k, v in cells:
            s2 = s2.setobj(oid, s2.heap[oid].with_attr(k, plus(N, v.a[1])))
        seqs(ctx, S, s2, obj, [op, op, op], [N, plus(N, 1), plus(N, 2)], f'{w} step', nlen, loc)
        # the counter stops before the key is worn out
        lim = limit = None
        for oid, _k, _v in cells:
            src = s2.heap[oid].attrs.get('src')
            if src is not None and src.k == 'call' and has_cval(src.a[1][-1]):
                lim = cval(src.a[1][-1])
        for x in S.call(s2, obj, op, *a):
            if x.kind == 'raise':
                limit = show_exc(x.val, x.st)
                for c, _b in x.st.facts.items():
                    if c.k == 'cmp' and any(y.k == 'const' and type(y.a[1]) is int
                                            and y.a[1] > 2 ** 16 for y in c.a[1:]):
                        lim = next(y.a[1] for y in c.a[1:] if y.k == 'const')
        mx = rfc.USAGE_MAX[cls]
        ctx.check(lim is not None and lim <= mx and limit is not None, 'bounded', w,
                  f'records under one key: {lim}, the AEAD allows {mx}', loc)


def rekeyed(ctx, S, w, nlen, loc):
    """new keys restart at zero even after records were sent"""
    from sa.suite import TH_CF, TH_SF
    for st, obj, _e in S.handshake():
        for s, _vs in S.cipher_calls(st, obj, E_, 2):
            for s1, _v1 in S.cipher_calls(s, obj, D_, 1):
                for o in S.returns(S.call(s1, obj, 'derive_master_secrets', TH_SF, TH_CF), 'x'):
                    for op in (E_, D_):
                        seqs(ctx, S, o.st, obj, [op, op], [const(0), const(1)],
                             f'{w} after rekey {op}', nlen, loc)
