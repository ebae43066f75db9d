"""Interprets the cipher suites alone: from the input secrets to the AEAD calls."""
from . import rfc
from .interp import AnalysisError, Interp, show_exc
from .terms import FALSE, NONE, TRUE, alts, const, cval, has_cval, mk, show, sym

SUITE = 'siotls.crypto.ciphers.TLSCipherSuite'
ECDHE, PSK = sym('ecdhe', 'bytes'), sym('psk', 'bytes')
TH_CH, TH_SH, TH_SF, TH_CF = (sym(f'th_{x}', 'bytes') for x in ('ch', 'sh', 'sf', 'cf'))
TH, VD = sym('th', 'bytes'), sym('verify_data', 'bytes')
UNIQUE = sym('client_unique', 'bytes')


def suites(p):
    base = p.cls(SUITE)
    out = {}
    for c in p.classes.values():
        if base in c.repo_mro() and c is not base:
            v = p.find(c, 'iana_id')
            if v is not None and v.k == 'enum':
                out[v.a[1]] = c
    if not out:
        raise AnalysisError('no cipher suite')
    return out


def alg(v):
    return v.a[1] if v.k == 'const' else show(v)


def canon(v):
    """HMAC terms read back as HKDF-Extract / HKDF-Expand-Label trees"""
    if v.k == 'sym':
        return v.a[0]
    if v.k == 'const':
        x = v.a[1]
        if isinstance(x, bytes) and x and not any(x):
            return f'zeros[{len(x)}]'
        return repr(x)
    if v.k == 'repb' and has_cval(v.a[0]) and cval(v.a[0]) == b'\0':
        return f'zeros[{canon(v.a[1])}]'
    if v.k == 'slice' and v.a[1] is NONE and has_cval(v.a[2]):
        t = canon(v.a[0])
        if isinstance(t, tuple) and t[0] == 'expand':
            return ('expand', *t[1:-1], min(cval(v.a[2]), t[-1]))
        return ('slice', t, 0, cval(v.a[2]))
    if v.k == 'call' and v.a[0] == 'hash':
        return ('hash', alg(v.a[1][0]), canon(v.a[1][1]))
    if v.k == 'concat':
        return ('concat', *[canon(x) for x in v.a])
    if v.k == 'be':
        return ('be', canon(v.a[0]), canon(v.a[1]))
    if v.k == 'len':
        return ('len', canon(v.a[0]))
    if v.k == 'call' and v.a[0] == 'hmac.digest':
        key, data, al = v.a[1]
        info = expand_info(data)
        if info is not None:
            return ('expand', alg(al), canon(key), *info, rfc.DIGEST_SIZE.get(alg(al), -1))
        return ('hmac', alg(al), canon(key), canon(data))
    if v.k == 'ube':
        return ('int', canon(v.a[0]))
    return show(v)


def expand_info(data):
    """HkdfLabel || 0x01 -> (length field, label, context)"""
    parts = list(data.a) if data.k == 'concat' else [data]
    if parts[0].k != 'const' or not isinstance(parts[0].a[1], bytes):
        return None
    b = parts[0].a[1]
    last = parts[-1]
    if last.k != 'const' or not last.a[1].endswith(b'\x01') or len(b) < 4:
        return None
    length, n = int.from_bytes(b[:2], 'big'), b[2]
    label, rest = b[3:3 + n], b[3 + n:]
    if len(label) != n:
        return None
    if len(parts) == 1:
        return (length, label.decode('latin1'), 'empty') if rest == b'\0\x01' else \
            (length, label.decode('latin1'), repr(rest))
    mid = parts[1:-1]
    if last.a[1] != b'\x01':
        return length, label.decode('latin1'), 'bad tail'
    if len(mid) == 2 and not rest and mid[0].k == 'be' and mid[0].a[0] is mk('len', mid[1]) \
            and has_cval(mid[0].a[1]) and cval(mid[0].a[1]) == 1:
        return length, label.decode('latin1'), canon(mid[1])
    if len(mid) == 1 and len(rest) == 1:
        return length, label.decode('latin1'), canon(mid[0])
    return length, label.decode('latin1'), tuple(canon(x) for x in mid)


# ------------------------------------------------------------------ the standard
def label(al, secret, name, ctx, n=None):
    n = rfc.DIGEST_SIZE[al] if n is None else n
    return ('expand', al, secret, n, 'tls13 ' + name, ctx, n)


def extract(al, salt, ikm):
    return ('hmac', al, salt, ikm)


def schedule(al, klen, nlen):
    """RFC 8446 7.1: every named secret, key and iv"""
    z = f'zeros[{rfc.DIGEST_SIZE[al]}]'
    empty = ('hash', al, "b''")
    out = {}
    for psk in (False, True):
        early = extract(al, z, 'psk' if psk else z)
        hs = extract(al, label(al, early, 'derived', empty), 'ecdhe')
        ms = extract(al, label(al, hs, 'derived', empty), z)
        out[psk] = d = {'early': early, 'handshake': hs, 'master': ms}
        d['client early'] = label(al, early, 'c e traffic', 'th_ch')
        d['e exp'] = label(al, early, 'e exp master', 'th_ch')
        d['ext binder'] = label(al, early, 'ext binder', empty)
        d['res binder'] = label(al, early, 'res binder', empty)
        for s, c in (('client', 'c'), ('server', 's')):
            d[s, 'hs'] = label(al, hs, f'{c} hs traffic', 'th_sh')
            d[s, 'ap'] = label(al, ms, f'{c} ap traffic', 'th_sf')
            d[s, 'finished'] = label(al, d[s, 'hs'], 'finished', 'empty')
        d['exporter'] = label(al, ms, 'exp master', 'th_sf')
        d['resumption'] = label(al, ms, 'res master', 'th_cf')
    return out


def key_of(al, secret, klen):
    return label(al, secret, 'key', 'empty', klen)


def iv_of(al, secret, nlen):
    return label(al, secret, 'iv', 'empty', nlen)


# ------------------------------------------------------------------ running one suite
class Suite:
    def __init__(self, p, ci, side, keep=lambda ev: False, log=False):
        self.p, self.ci, self.side = p, ci, side
        self.I = Interp(p, limit=64, keep=keep)
        self.log = TRUE if log is True else FALSE if log is False else log

    def new(self, st=None):
        st = st or self.p.state.copy()
        return self.go(st, lambda s: self.I.call(
            s, mk('cls', self.ci), [const(self.side), UNIQUE], {'log_keys': self.log}, None))

    def go(self, st, fn):
        return self.I.run(st, fn)

    def call(self, st, obj, name, *args, **kws):
        """outcomes of obj.name(*args)"""
        def go(s):
            out = []
            for s2, f in self.I.getattr(s, obj, name, None):
                out += self.I.call(s2, f, list(args), kws, None)
            return out
        return self.I.run(st, go)

    def returns(self, outs, what):
        r = [o for o in outs if o.kind == 'return']
        if not r:
            raise AnalysisError(f'{self.ci.name}.{what} never returns: ' + ', '.join(
                show_exc(o.val, o.st) for o in outs)[:200])
        return r

    def handshake(self, psk=None):
        """[(st, suite)] with handshake keys; psk None or a mode"""
        out = []
        for o in self.returns(self.new(), '__init__'):
            obj = o.val
            if psk is None:
                e = self.call(o.st, obj, 'skip_early_secrets')
            else:
                e = self.call(o.st, obj, 'derive_early_secrets', PSK, const(psk), TH_CH)
            for o2 in self.returns(e, 'derive_early_secrets'):
                for o3 in self.returns(self.call(o2.st, obj, 'derive_handshake_secrets', ECDHE,
                                                 TH_SH), 'derive_handshake_secrets'):
                    out.append((o3.st, obj, o2))
        return out

    def application(self, psk=None):
        out = []
        for st, obj, early in self.handshake(psk):
            for o in self.returns(self.call(st, obj, 'derive_master_secrets', TH_SF, TH_CF),
                                  'derive_master_secrets'):
                out.append((o.st, obj, o, early))
        return out

    def cipher_calls(self, st, obj, which, n=1):
        """the AEAD calls of n successive encrypt()/decrypt(): [[(cls, key, kws, nonce, data, aad)]]"""
        paths = [(st, [])]
        for i in range(n):
            data, aad = sym(f'data{i}', 'bytes'), sym(f'aad{i}', 'bytes')
            nxt = []
            for s, acc in paths:
                for o in self.returns(self.call(s, obj, which, data, aad), which):
                    for v in alts(o.val):
                        nxt.append((o.st, [*acc, v]))
            paths = nxt
        return paths


def aead(v):
    """AESGCM(key).encrypt(nonce, data, aad) -> parts, or None"""
    if v.k == 'mcall' and v.a[0] in ('encrypt', 'decrypt'):
        c = v.a[1]
        args, kws = list(v.a[2]), dict(v.a[3])
        for i, nm in enumerate(('nonce', 'data', 'associated_data')):
            if nm in kws and len(args) == i:
                args.append(kws[nm])
        if c.k == 'call' and c.a[1] and len(args) == 3:
            return {'cls': c.a[0].rpartition('.')[2], 'key': c.a[1][0],
                    'ckw': {k: cval(x) for k, x in c.a[2] if has_cval(x)},
                    'cargs': [cval(x) for x in c.a[1][1:] if has_cval(x)],
                    'op': v.a[0], 'nonce': args[0], 'data': args[1], 'aad': args[2]}
    return None
