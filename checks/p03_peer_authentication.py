"""P03: an unauthenticated peer is never accepted when authentication is required"""
import re

from sa import handshake as hs
from sa.drive import Driver
from sa.interp import AnalysisError, Obj, show_exc
from sa.q import last
from sa.terms import FALSE, NONE, TRUE, alts, mk, show, sym, walk

SPEC = {
    'id': 'P03', 'level': 'other',
    'technique': 'typestate exploration with dominance: every path that accepts a Certificate under '
                 'a configuration that requires authentication carries the completed calls of the '
                 'path validation, revocation and status checks, whose operands are traced by '
                 'dataflow to the certificates received, the configuration and the requested name',
    'explanation': 'every reachable connection that waits for a Certificate is crossed with '
                   'certificate lists of every shape (leaf, leaf and any number of others, the '
                   'wrong type first or later) for each negotiated type; each path that goes on is '
                   'one obligation per rule; every path into the connected state is shown to have '
                   'been through that message, or not to require authentication',
    'assumptions': ['PolicyBuilder and its verifiers build and verify the path as documented by '
                    'the cryptography package (RFC 5280)',
                    'validate_ocsp decides the status of one certificate (decided by P21)'],
}
AUTH = ('trust_store', 'trusted_public_keys', 'revocation_list', 'max_chain_depth',
        'require_peer_authentication', 'policy_builder')


class Cert(Driver):
    KEEP = Driver.KEEP | {'meth', 'iter', 'iter0', 'leave'}

    def joinkey(self, st):
        return super().joinkey(st), frozenset(st.facts.items())


def run(ctx):
    d, runs = ctx.driver, ctx.runs
    connected(ctx, d, runs)
    kept(ctx, d, runs)
    D = Cert(ctx.p)
    ctx.extra.append(D)
    accepted(ctx, d, D, runs)


# ------------------------------------------------------------------ who gets connected
def connected(ctx, d, runs):
    for r, o, before, after in hs.transitions(runs, d):
        if after not in ('Connected', '?') or before in d.SETTLED:
            continue
        w = f'{r.side} {before} --{r.content}--> {after}'
        log = hs.log_text(d.log_of(r.entry, d.conn_v), r.side)
        if r.side == 'client':
            ctx.check('server:Certificate' in log.split(), 'certificate-seen', w,
                      f'connected without a Certificate: {log}')
        else:
            ctx.check(not required(d, o.st), 'server-without-certificate', w,
                      'a server that requires client certificates gets connected, and none of '
                      'them is verified')
    ctx.need('certificate-seen', 1)
    ctx.need('server-without-certificate', 1)


def config_fact(d, st, name):
    for c, b in st.facts.items():
        if c.k == 'fld' and c.a == (d.config_v, name) or (
                c.k == 'sym' and c.a[0] == 'conn.config.' + name):
            return b
        if c.k == 'cmp' and c.a[0] == 'is' and c.a[2] is NONE and b and c.a[1].k == 'fld' \
                and c.a[1].a == (d.config_v, name):
            return False
    return None


def required(d, st):
    """the path does not exclude that authentication is required"""
    return not (config_fact(d, st, 'trust_store') is False
                and config_fact(d, st, 'trusted_public_keys') is False)


def kept(ctx, d, runs):
    """what the peer has to match does not change"""
    for r in [*runs, *d.api]:
        e = r.entry.heap[d.conn_v].attrs
        for a in ('server_hostname', 'config', 'ocsp_service'):
            for o in r.outs:
                if o.kind == 'return':
                    ctx.check(same(o.st.heap[d.conn_v].attrs.get(a), e.get(a))
                              or a == 'config' and restricted(d, o.st, e[a]), 'reference-kept',
                              f'{r.side} {r.state} {r.content} {a}', 'changes')
        ctx.check(e.get('server_hostname') is None or origin(e['server_hostname']),
                  'reference-name', f'{r.side} {r.state}', show(e.get('server_hostname') or NONE))


def same(a, b):
    return a is b or (a is not None and b is not None and set(alts(a)) == set(alts(b)))


def restricted(d, st, before):
    """another configuration that asks for the same peers"""
    v = st.heap[d.conn_v].attrs.get('config')
    o = st.heap.get(v)
    if o is None or not (isinstance(o.name, tuple) and o.name[0] == 'replaced'):
        return False
    old = st.heap.get(before)
    return o.name[1] is before and all(
        o.attrs.get(k) is old.attrs.get(k) for k in AUTH)


def origin(v):
    return all(x is NONE or show(x) in ('$conn.server_hostname', '$server_hostname')
               for x in alts(v))


# ------------------------------------------------------------------ the Certificate
def accepted(ctx, d, D, runs):
    D.config_v, D.conn_v = d.config_v, d.conn_v
    ci = next(c for c in D.content_classes()[0] if c.name == 'Certificate')
    entries = {n: ctx.p.cls(f'siotls.contents.handshakes.certificate.{n}') if True else None
               for n in ('X509', 'RawPublicKey')}
    types = {n: ctx.p.find(c, 'certificate_type') for n, c in entries.items()}
    waiting = {r.state for r in runs if r.content == 'Certificate' and r.side == 'client'
               and r.state not in d.SETTLED and any(o.kind == 'return' for o in r.outs)}
    ctx.check(bool(waiting), 'a-state-waits', 'client', 'nothing handles Certificate')
    good = {'X509': [('X509',), ('X509', 'X509*')],
            'RawPublicKey': [('RawPublicKey',), ('RawPublicKey', 'RawPublicKey*')]}
    other = {'X509': 'RawPublicKey', 'RawPublicKey': 'X509'}
    for side, st, conn in d.entries.values():
        name = d.state_of(st, conn)
        if name not in waiting or side != 'client':
            continue
        for t in good:
            bad = [(other[t],), (t, other[t]), (other[t], t), (t, t, other[t])]
            for shape in [*good[t], *bad]:
                s, lst, objs = certificates(D, st, ci, entries, shape)
                s = negotiated(D, s, conn, types[t])
                outs = D.step(side, s, conn, ci, {'certificate_list': lst})
                w = f'client {name} {t}: {" ".join(shape)}'
                rets = [o for o in outs if o.kind == 'return']
                if shape in bad:
                    ctx.check(not rets, 'negotiated-type', w,
                              'accepts a certificate of a type that was not negotiated')
                    continue
                ctx.check(bool(rets), 'acceptable', w, 'never accepted')
                for o in rets:
                    if not required(D, o.st):
                        continue
                    if t == 'X509':
                        x509(ctx, D, o, w, objs, lst)
                    else:
                        ctx.check(trusted_key(D, o.st, objs[0]), 'trusted-key', w,
                                  'the raw public key was not found among the trusted ones')
                for o in outs:
                    if o.kind == 'raise' and any(e.kind == 'fails' and last(e.name) in (
                            'verify', 'validate_ocsp') for e in o.st.events()):
                        ctx.check(show_exc(o.val, o.st) == 'BadCertificate', 'refused', w,
                                  show_exc(o.val, o.st))
    for r, n in (('path-validated', 10), ('name-verified', 10), ('revocation', 10),
                 ('status', 10), ('trusted-key', 2), ('negotiated-type', 8)):
        ctx.need(r, n)


def certificates(D, st, ci, entries, shape):
    items, objs = [], []
    for i, n in enumerate(shape):
        k = n.rstrip('*')
        v = mk('obj', 'entry', f'{k}{i}')
        attrs = {'extensions': sym(f'entry{i}.extensions'),
                 'certificate' if k == 'X509' else 'public_key': sym(
                     f'entry{i}.certificate' if k == 'X509' else f'entry{i}.public_key', 'set')}
        st = st.setobj(v, Obj(mk('cls', entries[k]), 'instance', attrs, name='entry'))
        objs.append(v)
        items.append(mk('rep', v, sym('others'), ()) if n.endswith('*') else v)
    lst = mk('obj', 'certlist', ' '.join(shape))
    st = st.setobj(lst, Obj(mk('ext', 'builtins.list'), 'list', items=tuple(items)))
    return st, lst, objs


def negotiated(D, st, conn, t):
    n = st.heap[conn].attrs['nconfig']
    return st.setobj(n, st.heap[n].with_attr('server_certificate_type', t))


def trusted_key(D, st, entry):
    key = st.heap[entry].attrs['public_key']
    for c, b in st.facts.items():
        if b and c.k == 'cmp' and c.a[0] == 'in' and c.a[1] is key and any(
                config_is(D, x, 'trusted_public_keys') for x in walk(c.a[2])):
            return True
        if b and c.k == 'any' and len(c.a) == 1 and c.a[0].a[0].k == 'cmp' \
                and c.a[0].a[0].a[0] == '==' and key in c.a[0].a[0].a[1:] and any(
                    config_is(D, x, 'trusted_public_keys') for x in walk(c.a[0].a[0])):
            return True
    return False


def config_is(D, v, name):
    return v.k == 'fld' and v.a == (D.config_v, name) or (
        v.k == 'sym' and v.a[0] == 'conn.config.' + name)


# ------------------------------------------------------------------ X.509
def chained(v):
    """{method: arguments} of the calls a value was obtained by"""
    out = {}
    while v.k == 'mcall':
        out.setdefault(v.a[0], v.a[2])
        v = v.a[1]
    return out, v


def x509(ctx, D, o, w, objs, lst):
    st = o.st
    cert = [st.heap[x].attrs['certificate'] for x in objs]
    done = []
    for e in st.events():
        if e.kind == 'meth' and e.name == 'verify' and len(e.args) >= 2:
            calls, root = chained(e.args[0])
            if any(c.startswith('build_') for c in calls) and 'PolicyBuilder' in show(root):
                done.append((e, calls))
    failed = [e for e in st.events() if e.kind == 'fails' and last(e.name) in (
        'verify', 'validate_ocsp')]
    ok = [(e, c) for e, c in done if e.args[1] is cert[0] and 'store' in c and any(
        config_is(D, x, 'trust_store') for x in c['store'])]
    ctx.check(len(ok) == 1 and not failed, 'path-validated', w,
              f'{len(done)} validations of a path, {len(ok)} of the leaf with the trust store, '
              f'{[e.name for e in failed]} failed', done[0][0].loc if done else None)
    if len(ok) != 1:
        return
    e, calls = ok[0]
    ctx.check('max_chain_depth' in calls and any(
        config_is(D, x, 'max_chain_depth') for x in calls['max_chain_depth']), 'depth-limited', w,
        f'{list(calls)}', e.loc)
    subject(ctx, D, st, w, e, calls)
    revocation(ctx, D, st, w, e, cert, lst)
    status(ctx, D, st, w, e)


def subject(ctx, D, st, w, e, calls):
    named = [x for x in alts(st.heap[D.conn_v].attrs['server_hostname'])]
    asked = any(b is False and c in named or (
        b and c.k == 'cmp' and c.a[0] in ('is', '==') and c.a[1] in named
        and show(c.a[2]) in ("None", "''")) for c, b in st.facts.items())
    if 'build_server_verifier' in calls:
        (sub, *_) = calls['build_server_verifier'] or (NONE,)
        ok = sub.k == 'call' and last(sub.a[0]) in ('DNSName', 'IPAddress') and len(
            sub.a[1]) == 1 and (sub.a[1][0] in named or (
                sub.a[1][0].k == 'call' and last(sub.a[1][0].a[0]) == 'ip_address'
                and sub.a[1][0].a[1][0] in named))
        ok = ok and ((last(sub.a[0]) == 'IPAddress') == (sub.a[1][0] not in named))
        ctx.check(ok, 'name-verified', w, f'verifies the name {show(sub)}', e.loc)
    else:
        ctx.check(asked or all(x is NONE for x in named), 'name-verified', w,
                  'a server name was requested and is not verified', e.loc)


def revocation(ctx, D, st, w, e, cert, lst):
    others = {x for v in st.heap[lst].items if v.k == 'rep'
              for x in st.heap[v.a[0]].attrs.values()}
    if config_fact(D, st, 'revocation_list') is False:
        ctx.check(True, 'revocation', w)
        return
    asked = set()
    for c, b in st.facts.items():
        c, b = (c.a[1], not b) if c.k == 'cmp' and c.a[0] == 'is' and c.a[2] is NONE else (c, b)
        if c.k == 'mcall' and c.a[0] == 'get_revoked_certificate_by_serial_number' and not b \
                and config_is(D, c.a[1], 'revocation_list'):
            asked |= {x for x in walk(c.a[2][0])}
    chain = e.res
    iterated = any(x.kind in ('iter', 'iter0') and any(y is chain for y in walk(x.args[0]))
                   for x in st.events())
    overchain = any(chain in set(walk(x)) for x in asked) or (
        iterated and not asked)
    none = any(x.kind == 'iter0' and lst in walk(x.args[0]) for x in st.events())
    ctx.check(overchain or all(x in asked or (x in others and none) for x in cert),
              'revocation', w,
              'a certificate that was not looked up in the revocation list', e.loc)


def status(ctx, D, st, w, e):
    """each certificate of the chain but the last, with the next one as issuer"""
    chain = e.res
    loops = [x for x in st.events() if x.kind in ('iter', 'iter0') and any(
        y is chain for y in walk(x.args[0])) and not isrevoc(x)]
    ctx.check(bool(loops), 'status', w, 'the status of the certificates is not looked at', e.loc)
    service = set(alts(st.heap[D.conn_v].attrs['ocsp_service']))
    for x in loops:
        if x.kind == 'iter0':
            continue
        pair = x.args[1]
        if pair.k != 'tuple' or len(pair.a) != 2:
            continue
        c, i = pair.a
        left = [y for y in st.events() if y.kind == 'leave' and y.args[1] is pair]
        ctx.check(not left, 'every-status', w, 'the certificates after this one are not looked at',
                  left[0].loc if left else x.loc)
        ctx.check(not cut(x.args[0], chain), 'every-status', w,
                  f'only part of the chain: {show(x.args[0])[-100:]}', x.loc)
        ctx.check(follows(c, i), 'issuer-follows', w, f'{show(c)[-60:]} {show(i)[-60:]}', x.loc)
        valid = [(v.args, v) for v in st.events() if v.kind == 'op' and last(
            v.name) == 'validate_ocsp']
        valid = [(a, v) for a, v in valid if len(a) == 3 and a[0] is i and request_of(a[1], c, i)]
        stapled = [a for a, v in valid if a[2].k != 'mcall' or a[2].a[0] != 'request']
        online = [a for a, v in valid if a[2].k == 'mcall' and a[2].a[0] == 'request'
                  and a[2].a[1] in service and any(request_of(z, c, i) for z in a[2].a[2])]
        present, absent = staple_facts(st, c)
        if stapled:
            ctx.check(all(is_staple(a[2]) for a in stapled), 'status', w,
                      f'{show(stapled[0][2])[-100:]} is no stapled status', x.loc)
        elif present:
            ctx.check(False, 'status', w, 'a stapled status is not validated', x.loc)
        else:
            ctx.check(absent, 'status', w, 'the stapled status is not looked at', x.loc)
            no = any(b is False and (f in service or (f.k == 'call' and last(
                f.a[0]) == 'get_ocsp_url' and f.a[1][-1] is c)) for f, b in facts(st))
            ctx.check(online or no or service == {NONE}, 'status', w,
                      'the status is not requested from the OCSP service', x.loc)


def facts(st):
    for c, b in st.facts.items():
        if c.k == 'cmp' and c.a[0] == 'is' and c.a[2] is NONE:
            c, b = c.a[1], not b
        yield c, b


def isrevoc(x):
    return x.args[1].k != 'tuple' if x.kind == 'iter' else False


def cut(v, chain):
    """some of the certificates are left out (the first one has no predecessor, the last no issuer)"""
    return any(x.k == 'slice' and chain in walk(x.a[0]) and (
        show(x.a[1]) not in ('None', '0', '1') or show(x.a[2]) not in ('None', '-1'))
        or x.k == 'call' and last(x.a[0]) == 'islice' for x in walk(v))


def follows(c, i):
    """consecutive elements of the same sequence"""
    if c.k == 'elem' and c.a[0].k == 'slice' and show(c.a[0]).endswith(', None, -1)'):
        c = mk('elem', c.a[0].a[0], *c.a[1:])     # zip stops at the shortest
    if c.k == i.k == 'elem' and c.a[0] is i.a[0]:
        return c.a[1] != i.a[1] and (c.a[1][0], i.a[1][0]) == ('p', 'n') if isinstance(
            c.a[1], tuple) else False
    a, b = (re.sub(r'\d+\)$', '', show(v)) for v in (c, i))
    return c.k == 'elem' and i.k == 'elem' and i.a[0].k == 'slice' and i.a[0].a[0] is c.a[0] \
        and show(i.a[0].a[1]) == '1' and a != b


def request_of(v, c, i):
    return v.k == 'call' and last(v.a[0]) == 'make_ocsp_request' and tuple(v.a[1][-2:]) == (c, i)


def is_staple(v):
    return v.k in ('attr', 'fld') and v.a[-1] == 'ocsp_response' or show(v).endswith(
        ('.ocsp_response', "'ocsp_response')"))


def staple_facts(st, c):
    present = absent = False
    for f, b in facts(st):
        ws = set(walk(f))
        if 'get_ocsp_url' in show(f) and f.k == 'call':
            continue
        if f.k == 'cmp' and f.a[0] in ('==', 'is') and any(
                x.k in ('attr', 'fld') and x.a[-1] == 'status_type' for x in ws):
            present |= b
            absent |= not b
        elif not b and (c in ws or 'STATUS_REQUEST' in show(f)):
            absent = True
    return present, absent and not present


__all__ = ['FALSE', 'TRUE', 'AnalysisError']
