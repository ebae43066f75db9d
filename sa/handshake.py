"""What a path of the connection's typestate machine established, in protocol terms."""
import re

from .drive import HANDSHAKE, canon, flat
from .terms import sym, walk

HASHLEN = sym('hash length')

# RFC 8446 section 4.4.1, one letter-ish token per message
HELLO = r'(?:client:ClientHello|fe0000 L H\(client:ClientHello\) server:HelloRetryRequest client:ClientHello)'
SERVER_HELLO = HELLO + r' server:ServerHello'
SERVER = SERVER_HELLO + r' server:EncryptedExtensions'
CERT = SERVER + r'(?: server:CertificateRequest)? server:Certificate'
CV = CERT + r' server:CertificateVerify'
SFIN = CV + r' server:Finished'
SFIN_CLIENT = SFIN + r'(?: client:Certificate(?: client:CertificateVerify)?)?'
CFIN = SFIN_CLIENT + r' client:Finished'


def log_text(items, side):
    """the message log as text, independent of who is speaking"""
    other = 'server' if side == 'client' else 'client'
    out = []
    for x in flat(items):
        if x.k == 'const':
            if x.a[1]:
                out.append(x.a[1].hex() if isinstance(x.a[1], bytes) else str(x.a[1]))
        elif x.k == 'ser':
            out.append(f'{side}:{x.a[0]}')
        elif x.k == 'msg':
            out.append(f'{other}:{x.a[0]}')
        elif x.k == 'digest':
            out.append('H(' + log_text(x.a, side) + ')')
        elif x is HASHLEN:
            out.append('L')
        elif x.k == 'be' or (x.k == 'call' and x.a[0] == 'hash'):
            c = canon(x)
            out.append(log_text((c,), side) if c is not x else '?')
        elif x.k == 'rep':
            out.append('maybe(' + log_text((x.a[0],), side) + ')')
        elif x.k == 'phi':
            out.append('{' + '|'.join(log_text((y,), side) for y in x.a) + '}')
        else:
            out.append('?')
    return ' '.join(out)


def digest_text(v, side):
    """what a transcript hash covers (None: not a transcript hash)"""
    if v.k == 'phi':
        ts = {digest_text(x, side) for x in v.a}
        return ts.pop() if len(ts) == 1 else None
    c = canon(v) if v.k == 'call' and v.a[0] == 'hash' else v
    if c.k != 'digest':
        return None
    return log_text(c.a, side)


def covers(v, side, pattern):
    t = digest_text(v, side)
    return t is not None and re.fullmatch(pattern, t) is not None


def transitions(runs, driver):
    """(run, outcome, state before, state after) of every outcome that returns"""
    for r in runs:
        for o in r.outs:
            if o.kind == 'return':
                for after in states_after(o.st, driver):
                    yield r, o, r.state, after


def states_after(st, driver):
    v = st.heap[driver.conn_v].attrs['_state']
    vs = v.a if v.k == 'phi' else (v,)
    out = []
    for x in vs:
        o = st.heap.get(x)
        out.append(o.cls.a[0].name if o is not None and o.cls is not None and o.cls.k == 'cls'
                   else '?')
    return list(dict.fromkeys(out))


def from_peer(v, field=None):
    """the term is a field of the message being processed"""
    return v.k == 'fld' and v.a[0].k == 'obj' and v.a[0].a[:1] == ('content',) and (
        field is None or v.a[1] == field)


def mac_checks(facts):
    """(term, outcome) of the constant-time or plain comparisons a path relies on"""
    for c, b in facts.items():
        if c.k == 'call' and c.a[0] in ('hmac.compare_digest', 'secrets.compare_digest'):
            yield c.a[1], b
        elif c.k == 'cmp' and c.a[0] == '==':
            yield c.a[1:], b


def is_handshake(p, ci):
    return HANDSHAKE in p.mro_names(ci)


__all__ = ['walk']
