"""P02: the server proves that it holds the key it shows"""
import re

from sa import handshake as hs
from sa import rfc
from sa.drive import Driver
from sa.interp import AnalysisError, show_exc
from sa.q import last
from sa.terms import NONE, alts, const, has_cval, cval, show, walk
from checks.p19_suites import scheme_of

SPEC = {
    'id': 'P02', 'level': 'other',
    'technique': 'typestate exploration with dominance: every path that leaves the wait for '
                 'CertificateVerify carries one completed signature verification, whose key, '
                 'signature, context, transcript and primitive are traced by dataflow to the '
                 'certificate of the peer, the message received and the handshake so far',
    'explanation': 'every reachable connection that waits for CertificateVerify is crossed with '
                   'that message, one path per entry of the tables of signature suites; every '
                   'CertificateVerify that a server sends while the handshake is explored is '
                   'traced the same way; every other message is shown not to change who the peer '
                   'is said to be',
    'assumptions': ['the verify() of the cryptography package raises InvalidSignature for every '
                    'signature that does not verify',
                    'each suite class applies the primitive it is registered for (decided by P19)'],
}
SERVER_CONTEXT = b' ' * 64 + b'TLS 1.3, server CertificateVerify\0'
PEER = re.compile(r'nconfig\.peer_(public_key|certificate)(\.public_key\(\))?$')
ID = ('peer_certificate', 'peer_public_key')


class Sig(Driver):
    """the signature suites are interpreted, one path per suite"""
    KEEP = Driver.KEEP | {'meth'}

    def __init__(self, p):
        super().__init__(p)
        for k in [k for k in self.I.models if '.signatures.' in str(k)]:
            del self.I.models[k]
        self.I.splitkeys = 'all'

    def joinkey(self, st):
        return (super().joinkey(st), algorithms(st), frozenset(
            (c, b) for c, b in st.facts.items() if c.k in ('cmp', 'isinst')))


def run(ctx):
    d = ctx.driver
    sent = []

    def monitor(I, st, ev):
        if ev.kind == 'send' and ev.x is not None and ev.name == 'CertificateVerify':
            sent.append((st, ev))
    d.I.monitors.append(monitor)
    runs = ctx.runs
    client(ctx)
    peer(ctx, runs)
    server(ctx, sent)


# ------------------------------------------------------------------ the client
def client(ctx):
    d = ctx.driver
    D = Sig(ctx.p)
    ctx.extra.append(D)
    D.config_v, D.conn_v = d.config_v, d.conn_v
    cv = next(c for c in D.content_classes()[0] if c.name == 'CertificateVerify')
    waiting = {}
    for r in ctx.runs:
        if r.content == 'CertificateVerify' and r.side == 'client' and any(
                o.kind == 'return' for o in r.outs) and r.state not in d.SETTLED:
            waiting[r.state] = True
    ctx.check(bool(waiting), 'a-state-waits', 'client', 'nothing handles CertificateVerify')
    for side, st, conn in d.entries.values():
        name = d.state_of(st, conn)
        if name not in waiting or side != 'client':
            continue
        seen = []

        def monitor(I, s, ev, seen=seen):
            if ev.kind == 'meth' and ev.name == 'verify':
                seen.append((s, ev))
        D.I.monitors.append(monitor)
        outs = D.step(side, st, conn, cv)
        D.I.monitors.remove(monitor)
        log = hs.log_text(d.log_of(st, conn), side)
        for s, ev in seen:
            fits(ctx, D, s, ev, name)
        for o in outs:
            vs = [e for e in o.st.events() if e.kind == 'meth' and e.name == 'verify']
            failed = [e for e in o.st.events() if e.kind == 'fails' and e.name == 'verify']
            if o.kind == 'return':
                for after in hs.states_after(o.st, D):
                    w = f'client {name} --CertificateVerify--> {after}'
                    ok = [e for e in vs if genuine(ctx, D, o.st, e, name, log)]
                    ctx.check(ok and not failed, 'verified-before-moving-on', w,
                              f'{len(vs)} verifications, {len(failed)} of them failed, '
                              f'{len(ok)} over the handshake, with the peer\'s key')
                continue
            exc = show_exc(o.val, o.st)
            if failed:
                ctx.check(exc == 'DecryptError', 'failure-is-decrypt-error', f'client {name}', exc)
            else:
                ctx.check(exc in ('IllegalParameter', 'DecryptError', 'UnsupportedCertificate'),
                          'refused-with-an-alert', f'client {name}', exc)
        ctx.check(any(e.kind == 'fails' for o in outs for e in o.st.events()), 'failure-possible',
                  f'client {name}', 'no path handles a signature that does not verify')
        ctx.check(any(o.kind == 'return' for o in outs), 'success-possible', f'client {name}',
                  'no signature is accepted')
    ctx.need('verified-before-moving-on', 6)


def content_of(st):
    for v, o in st.heap.items():
        if v.k == 'obj' and v.a[0] == 'content' and o.cls is not None and o.cls.k == 'cls' \
                and o.cls.a[0].name == 'CertificateVerify':
            return v
    return None


def algorithms(st):
    """the schemes the message may carry on this path (None: any)"""
    v = content_of(st)
    a = st.heap[v].attrs.get('algorithm') if v is not None else None
    if a is not None:
        raw = a.a[1] if a.k == 'enumcast' else a
        xs = alts(raw)
        if all(x.k == 'enum' for x in xs):
            return a, frozenset(x.a[1] for x in xs)
        for c, b in st.facts.items():
            if b and c.k == 'cmp' and c.a[0] == '==':
                for x, y in (c.a[1:], c.a[:0:-1]):
                    if x in (a, raw) and y.k == 'enum':
                        return a, frozenset([y.a[1]])
    return a, None


def genuine(ctx, D, st, ev, state, log):
    """peer's key, received signature, RFC 8446 4.4.3 content"""
    if len(ev.args) < 3:
        return False
    key, sig, msg = ev.args[:3]
    return (PEER.search(show(key)) is not None and all(
                hs.from_peer(x, 'signature') for x in alts(sig))
            and signed_content(msg, 'client', log))


def signed_content(v, side, log):
    xs = flat(v)
    return (len(xs) == 2 and xs[0].k == 'const' and xs[0].a[1] == SERVER_CONTEXT
            and hs.digest_text(xs[1], side) == log)


def flat(v):
    out = []
    for x in (v.a if v.k == 'concat' else (v,)):
        if out and x.k == 'const' and out[-1].k == 'const' and isinstance(
                x.a[1], bytes) and isinstance(out[-1].a[1], bytes):
            out[-1] = const(out[-1].a[1] + x.a[1])
        else:
            out.append(x)
    return out


def fits(ctx, D, st, ev, state):
    """offered, meant for this type of key, and the primitive it stands for"""
    w = f'client {state}'
    attr, algs = algorithms(st)
    ctx.check(algs is not None, 'scheme-known', w, 'a suite is used that the scheme received does '
              'not decide', ev.loc)
    ctx.check(offered(D, st), 'scheme-offered', f'{w} {algs}',
              'the scheme was not compared with the ones offered', ev.loc)
    got = scheme_of(ev.res)
    for a in algs or ():
        fam, h = rfc.SIGNATURES.get(a, (None, None))
        ctx.check(got['fam'] == fam and got['hash'] == h and fam != 'pkcs1', 'scheme-primitive',
                  f'{w} {a}', f'verified as {got}', ev.loc)
        want = next(o for pre, o in sorted(rfc.SIG_OID.items(), key=lambda x: -len(x[0]))
                    if a.startswith(pre))
        ctx.check(key_type(st, ev.args[0], want), 'scheme-fits-key', f'{w} {a}',
                  f'the key was not found to be of type {want} before', ev.loc)


def offered(D, st):
    """the scheme is one of those of the configuration"""
    for c, b in st.facts.items():
        if b and c.k == 'cmp' and c.a[0] == 'in' and show(c.a[1]).endswith("'algorithm')"):
            if any(configured(D, x, 'signature_algorithms') for x in walk(c.a[2])):
                return True
    return False


CLASS = {'RSAES_PKCS1_v1_5': 'RSAPublicKey', 'EC_PUBLIC_KEY': 'EllipticCurvePublicKey',
         'ED25519': 'Ed25519PublicKey', 'ED448': 'Ed448PublicKey', 'RSASSA_PSS': 'RSAPublicKey'}


def key_type(st, key, want):
    for c, b in st.facts.items():
        if not b:
            continue
        if c.k == 'isinst':
            if c.a[0] is key and {last(x) if isinstance(x, str) else last(show(x))
                                  for x in c.a[1]} == {CLASS[want]}:
                return True
        elif c.k == 'cmp' and c.a[0] in ('==', 'is', 'in'):
            for x, y in (c.a[1:], c.a[:0:-1]):
                if 'public_key_algorithm_oid' in show(x) and 'peer_certificate' in show(x) \
                        and last(show(y)) == want:
                    return True
    return False


# ------------------------------------------------------------------ who the peer is
def peer(ctx, runs):
    """the certificate is the first one of the peer's Certificate, and nothing changes it"""
    d = ctx.driver
    for r in runs:
        before = identity(d, r.entry)
        for o in r.outs:
            if o.kind != 'return':
                continue
            after = identity(d, o.st)
            w = f'{r.side} {r.state} --{r.content}'
            if r.content != 'Certificate' or r.state in d.SETTLED:
                ctx.check(before == after, 'peer-unchanged', w,
                          f'{text(before)} became {text(after)}')
                continue
            if r.side != 'client':
                continue
            cert, key = after
            ok = own(cert, 'certificate') and none(key) or none(cert) and own(key, 'public_key')
            ctx.check(ok and none(before[0]) and none(before[1]), 'peer-is-leaf', w,
                      f'{text(before)} became {text(after)}')
    ctx.need('peer-is-leaf', 2)
    ctx.need('peer-unchanged', 200)
    for r in d.api:
        for o in r.outs:
            if o.kind == 'return':
                ctx.check(identity(d, r.entry) == identity(d, o.st), 'peer-unchanged',
                          f'{r.side} {r.state} {r.content}', 'a call changes who the peer is')


def identity(d, st):
    n = st.heap.get(st.heap[d.conn_v].attrs.get('nconfig'))
    if n is None:
        return NONE, NONE
    return tuple(n.attrs.get(k, NONE) for k in ID)


def none(v):
    return v is not None and has_cval(v) and cval(v) is None


def own(v, attr):
    """field attr of the first entry of the received list"""
    if v is None or v.k not in ('attr', 'fld') or v.a[-1] != attr:
        return False
    e = v.a[0]
    return bool(re.search(r"'certificate_list'\)(\[0\]|, 0\))$", show(e))) and any(
        x.k == 'obj' and x.a[0] == 'content' for x in walk(e))


def text(i):
    return tuple(show(x)[:60] if x is not None else None for x in i)


# ------------------------------------------------------------------ the server
def server(ctx, sent):
    d = ctx.driver
    ctx.check(bool(sent), 'server-signs', 'server', 'no CertificateVerify is ever sent')
    for st, ev in sent:
        side = st.heap[d.config_v].attrs['side'].a[1]
        if side != 'server':
            continue
        w = 'server CertificateVerify'
        o = st.heap[ev.x]
        alg, sig = o.attrs.get('algorithm'), o.attrs.get('signature')
        log = hs.log_text(d.log_of(st, d.conn_v), side)
        ctx.check(sig is not None and sig.k in ('mcall', 'call') and last(sig.a[0]) == 'sign',
                  'signature-is-signed', w, show(sig)[:200], ev.loc)
        if sig is None or sig.k not in ('mcall', 'call'):
            continue
        suite = sig.a[1] if sig.k == 'mcall' else sig.a[1][0]
        args = sig.a[2] if sig.k == 'mcall' else sig.a[1][1:]
        ctx.check(len(args) == 1 and signed_content(args[0], side, log) and re.fullmatch(
            hs.CERT, log), 'signed-content', w,
            f'signs {[show(a)[:200] for a in args]} after {log}', ev.loc)
        cls, cargs, scheme = suite_parts(st, suite)
        ctx.check(len(cargs) == 1 and configured(d, cargs[0], 'private_key'), 'signing-key', w,
            f'signs with {[show(a)[:100] for a in cargs]}', ev.loc)
        same = alg is not None and (alg is scheme or (
            alg.k == 'attr' and alg.a[0] in (suite, cls) and alg.a[1] == 'iana_id'))
        ctx.check(same and scheme is not None, 'scheme-of-the-suite', w,
                  f'{show(alg)[:150]} for {show(suite)[:150]}', ev.loc)
        if scheme is None:
            continue
        ctx.check(any(b and c.k == 'cmp' and c.a[0] == 'in' and c.a[1] is scheme
                      and 'SIGNATURE_ALGORITHMS' in show(c.a[2]).upper() and 'ClientHello' in show(c.a[2])
                      for c, b in st.facts.items()), 'scheme-wanted', w,
                  'the client was not found to support the scheme', ev.loc)
        ctx.check(any(configured(d, x, 'signature_algorithms') for x in walk(scheme)), 'scheme-configured', w, show(scheme)[:200], ev.loc)
        ctx.check(for_own_key(d, cls), 'suite-of-own-key', w, show(cls)[:300], ev.loc)
    for rule in ('signed-content', 'signing-key', 'scheme-of-the-suite', 'scheme-wanted',
                 'suite-of-own-key'):
        ctx.need(rule, 2)


def suite_parts(st, suite):
    """(class, constructor arguments, scheme that selected the class)"""
    if suite.k == 'mcall' and suite.a[0] == '__call__':
        cls, args = suite.a[1], suite.a[2]
    elif suite.k == 'obj' and suite in st.heap and st.heap[suite].name and \
            st.heap[suite].name[0] == 'new':
        cls, args = st.heap[suite].name[1:3]
    elif suite.k == 'call' and len(suite.a) > 2:
        return suite, suite.a[1], None
    else:
        return suite, (), None
    scheme = None
    if cls.k in ('item', 'anycls'):
        scheme = cls.a[1]
    elif cls.k == 'mcall' and cls.a[0] == 'get':
        scheme = cls.a[2][0]
    return cls, args, scheme


def for_own_key(d, cls):
    """the table is the one for the configured certificate or public key"""
    for x in walk(cls):
        if x.k == 'call' and last(x.a[0]).startswith('for_public_key'):
            ys = [y for a in x.a[1][1:] for y in walk(a)]
            if any(configured(d, y, 'certificate_chain', 'public_key') for y in ys):
                chain = [y for y in ys if y.k == 'item' and configured(
                    d, y.a[0], 'certificate_chain')]
                return all(show(y.a[1]) == '0' for y in chain)
    return False


def configured(d, v, *names):
    """the term is one of these fields of the connection's configuration"""
    if v.k == 'fld':
        return v.a[0] is d.config_v and v.a[1] in names
    return v.k == 'sym' and re.fullmatch(r'conn\.config\.(%s)' % '|'.join(names), v.a[0]) is not None


__all__ = ['AnalysisError']
