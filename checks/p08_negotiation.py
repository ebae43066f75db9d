"""P08: what a connection settles on was allowed by its configuration and offered by its peer"""
from sa import handshake as hs
from sa.drive import Driver
from sa.interp import AnalysisError, show_exc
from sa.nego import (CLIENT, CT, SERVER, Nego, Param, has_ext, in_message, member, nconfig,
                     of_config, oracle, own_term, sent)
from sa.terms import ELL, NONE, alts, cval, has_cval, mk, show, walk

SPEC = {
    'id': 'P08', 'level': 'other',
    'technique': 'typestate exploration with provenance and dominance: every value stored in the '
                 'negotiated configuration is traced to the two offers through the membership '
                 'tests that dominate it; path enumeration under the hypothesis that the offers '
                 'have nothing in common shows which alert is left',
    'explanation': 'for every reachable connection that handles ClientHello, ServerHello or '
                   'EncryptedExtensions the handler is interpreted once per parameter, the paths '
                   'that settle on different values kept apart; each value must be in the own '
                   'configuration and in the message of the peer, or be the default of an absent '
                   'extension; the handler is interpreted again with every common-value test '
                   'failing, and only the alert RFC 8446 prescribes may be left',
    'assumptions': ['P19 and P17 decide that the registries hold the right suite for each name',
                    'P02 decides which scheme signs'],
}
DEFAULTS = {'max_fragment_length': 'MAX_16384', 'server_certificate_type': 'X509',
            'client_certificate_type': 'X509', 'alpn': None, 'can_send_heartbeat': False,
            'can_echo_heartbeat': False, 'peer_want_ocsp_stapling': False}
WATCH = {
    'server': [*[x for x in SERVER if x.name != 'signature'],
               Param('max_fragment_length', ('max_fragment_length',), 'MAX_FRAGMENT_LENGTH',
                     ('octets',), None),
               Param('can_send_heartbeat', (), 'HEARTBEAT', ('mode',), None),
               Param('can_echo_heartbeat', ('can_echo_heartbeat',), 'HEARTBEAT', ('mode',), None),
               Param('peer_want_ocsp_stapling', (), 'STATUS_REQUEST', ('status_type',), None)],
    'client': [Param('cipher_suite', ('cipher_suites',), None, ('cipher_suite',), None),
               Param('key_exchange', ('key_exchanges',), 'KEY_SHARE', ('group',), None), *CLIENT,
               Param('can_send_heartbeat', (), 'HEARTBEAT', ('mode',), None),
               Param('can_echo_heartbeat', ('can_echo_heartbeat',), 'HEARTBEAT', ('mode',), None)],
}
CERT_SETTING = {'X509': {'certificate_types': 'certificate_chain',
                         'peer_certificate_types': 'trust_store'},
                'RAW_PUBLIC_KEY': {'certificate_types': 'public_key',
                                   'peer_certificate_types': 'trusted_public_keys'}}
SETTLING = {'server': ('ClientHello',), 'client': ('ServerHello', 'EncryptedExtensions')}
DONE = {'ClientHello': 'ServerHello'}    # what a side sends once it has settled
RESPONSES = {
    'ApplicationLayerProtocolNegotiation': ('alpn', 'protocol_name_list'),
    'ALPN': ('alpn', 'protocol_name_list'),
    'MaxFragmentLength': ('max_fragment_length', 'octets'),
    'ServerCertificateTypeResponse': ('server_certificate_type', 'certificate_type'),
    'ClientCertificateTypeResponse': ('client_certificate_type', 'certificate_type'),
    'KeyShareResponse': ('key_exchange', 'group'),
}


def run(ctx):
    d = ctx.driver
    _ = ctx.runs
    jobs = []
    for side, st, conn in d.entries.values():
        if d.state_of(st, conn) in d.SETTLED:
            continue
        for cn in SETTLING[side]:
            ci = next((c for c in d.content_classes()[0] if c.name == cn), None)
            if ci is None:
                raise AnalysisError(f'no class {cn}')
            if any(r.entry is st and r.content == cn and any(o.kind == 'return' for o in r.outs)
                   for r in ctx.runs):
                jobs += [(side, st, conn, ci, x) for x in WATCH[side]]
    ctx.each(lambda j: settles(ctx, *j), jobs)
    refuse = []
    for side, st, conn, ci, prm in jobs:
        if prm.alert or side == 'client':
            refuse.append((side, st, conn, ci, prm))
        elif prm is WATCH[side][0]:
            pass
    for side, st, conn, ci, prm in [(*j[:4], next(x for x in SERVER if x.name == 'signature'))
                                    for j in jobs if j[0] == 'server' and
                                    j[4] is WATCH['server'][0]]:
        refuse.append((side, st, conn, ci, prm))
    ctx.each(lambda j: refuses(ctx, *j), refuse)
    offers(ctx)
    types(ctx)
    ctx.need('settled-in-own-configuration', 20)
    ctx.need('settled-in-peer-offer', 20)
    ctx.need('nothing-in-common-is-refused', 12)


# ------------------------------------------------------------------ what is settled
def settles(ctx, side, st, conn, ci, prm):
    d = ctx.driver
    D = Nego(ctx.p, d)
    ctx.extra.append(D)
    D.watch = prm
    before = nconfig(D, st, conn)
    was = before.attrs.get(prm.name) if before is not None else None
    name = d.state_of(st, conn)
    for o in D.step(side, st, conn, ci):
        if o.kind != 'return':
            continue
        for after in hs.states_after(o.st, D):
            done = after not in D.SETTLED and (side == 'client' or sent(o.st, 'ServerHello'))
            n = nconfig(D, o.st, conn)
            if n is None or not done:
                continue
            w = f'{side} {name} --{ci.name}--> {after}: {prm.name}'
            v = n.attrs.get(prm.name, NONE)
            for x in alts(v):
                if x is was:
                    continue
                own, peer, why = judge(D, o.st, side, prm, x, was)
                ctx.check(own, 'settled-in-own-configuration', w, f'{show(x)[:120]} {why}')
                ctx.check(peer, 'settled-in-peer-offer', w, f'{show(x)[:120]} {why}')
            answered(ctx, D, o.st, n, w)


def default(prm, x):
    if prm.name not in DEFAULTS:
        return False
    want = DEFAULTS[prm.name]
    if x.k == 'enum':
        return x.a[1] == want
    return has_cval(x) and cval(x) is want


def equals(st, x, pred):
    return pred(x) or any(b and c.k == 'cmp' and c.a[0] in ('==', 'is') and x in c.a[1:] and any(
        pred(y) for y in c.a[1:]) for c, b in st.facts.items())


def judge(D, st, side, prm, x, was):
    """(allowed by the own configuration, offered by the peer, what is missing)"""
    present = has_ext(D, st, prm.ext) if prm.ext else True
    if x in (NONE, ELL) and prm.name not in ('cipher_suite', 'key_exchange'):
        return True, True, ''
    if prm.name.startswith('can_') or prm.name.startswith('peer_want'):
        return heartbeat(D, st, prm, x, present)
    if present is False:
        if prm.name in CT and side == 'server':
            return member(st, x, lambda y: own_term(D, prm, y)), equals(
                st, x, lambda y: default(prm, y)), 'without the extension'
        if prm.name == 'max_fragment_length' and side == 'server':
            return of_config(D, x, prm.own) or default(prm, x), True, ''
        return default(prm, x), default(prm, x), 'without the extension'

    def own(y):
        return own_term(D, prm, y) or key_share_of(D, st, prm, y)

    def peer(y):
        if y.k == 'phi':
            return all(peer(z) for z in y.a)
        if in_message(y, prm.ext):
            return True
        o = st.heap.get(y) if y.k == 'obj' else None
        return o is not None and o.kind in ('list', 'set') and o.items is not None and \
            all(default(prm, z) for z in o.items)
    ok_own = member(st, x, own)
    if prm.name == 'max_fragment_length' and side == 'server':
        ok_own = True       # a server accepts every length of the enumeration
    if was is not None and was is not NONE:
        for c, b in st.facts.items():
            if b and c.k == 'cmp' and c.a[0] in ('==', 'is') and was in c.a[1:] and x in c.a[1:]:
                ok_own = True
    ok_peer = member(st, x, peer) or in_message(x, prm.ext)
    return ok_own, ok_peer, 'not found in the own configuration' * (not ok_own) + \
        ' not found in the message' * (not ok_peer)


def key_share_of(D, st, prm, y):
    """the shares this side sent: a mapping kept by its state"""
    if prm.name != 'key_exchange':
        return False
    return y.k == 'obj' and str(y.a[0]).split('.')[0].startswith('Client') or \
        y.k == 'sym' and str(y.a[0]).split('.')[0].startswith('Client')


def heartbeat(D, st, prm, x, present):
    if has_cval(x) and not cval(x):
        return True, True, ''
    if present is not True:
        return True, False, 'without the extension'
    if prm.name == 'can_echo_heartbeat':
        ok = of_config(D, x, prm.own) or any(
            b and c.k == 'fld' and of_config(D, c, prm.own) for c, b in st.facts.items())
        return ok, True, 'whatever the configuration says'
    want = {'can_send_heartbeat': 'PEER_ALLOWED_TO_SEND',
            'peer_want_ocsp_stapling': 'OCSP'}[prm.name]

    def says(c):
        return c.k == 'cmp' and c.a[0] in ('==', 'is') and any(
            in_message(y, prm.ext) for y in c.a[1:]) and any(
            y.k == 'enum' and y.a[1] == want for y in c.a[1:])
    ok = says(x) or x.k == 'bool' and says(x.a[0]) or any(
        b and says(c) for c, b in st.facts.items())
    return True, ok, 'whatever the peer said'


# ------------------------------------------------------------------ what is announced
def answered(ctx, D, st, n, w):
    """the answer says what was settled"""
    for e in st.events():
        if e.kind != 'send' or e.x is None or e.name not in ('ServerHello', 'EncryptedExtensions'):
            continue
        o = st.heap.get(e.x)
        if e.name == 'ServerHello':
            v = o.attrs.get('cipher_suite')
            ctx.check(v is not None and same(D, st, v, n.attrs.get('cipher_suite')),
                      'announced-is-settled', f'{w.split(":")[0]} cipher suite',
                      f'announces {show(v)} {v.a[0].a[1] if hasattr(v.a[0],"a") else 0} settled on {show(n.attrs.get("cipher_suite"))}', e.loc)
        for ext in extensions(st, o):
            eo = st.heap.get(ext)
            if eo is None or eo.cls is None or eo.cls.k != 'cls':
                continue
            for c in D.p.mro_names(eo.cls.a[0]):
                pn, field = RESPONSES.get(c.rpartition('.')[2], (None, None))
                if pn is None or n.attrs.get(pn) is None:
                    continue
                v = eo.attrs.get(field)
                if v is None:
                    continue
                lo = st.heap.get(v) if v.k == 'obj' else None
                if lo is not None and lo.kind == 'list':
                    v = lo.items[0] if lo.items and len(lo.items) == 1 else v
                ctx.check(same(D, st, v, n.attrs[pn]), 'announced-is-settled',
                          f'{w.split(":")[0]} {pn}',
                          f'announces {show(v)[:100]}, settled on {show(n.attrs[pn])[:100]}', e.loc)


def extensions(st, o):
    for v in o.attrs.values():
        m = st.heap.get(v) if v.k == 'obj' else None
        if m is not None and m.kind == 'dict' and m.items:
            for _, x in m.items:
                yield from alts(x)


def same(D, st, v, w):
    if v is None or w is None:
        return False
    if v is w or set(alts(v)) & set(alts(w)):
        return True
    if v.k == 'attr' and v.a[1] == 'iana_id' and v.a[0].k == 'anycls':
        return same(D, st, v.a[0].a[1], w)      # the class registered for that name
    for c, b in st.facts.items():
        if b and c.k == 'cmp' and c.a[0] in ('==', 'is') and v in c.a[1:] and w in c.a[1:]:
            return True
    return False


# ------------------------------------------------------------------ nothing in common
def refuses(ctx, side, st, conn, ci, prm):
    d = ctx.driver
    name = d.state_of(st, conn)
    if side == 'client' and prm.ext and ci.name != (
            'ServerHello' if prm.ext == 'KEY_SHARE' else 'EncryptedExtensions'):
        return
    if side == 'client' and prm.ext is None and ci.name != 'ServerHello':
        return
    if prm.name.startswith('can_'):
        return
    extra = []
    if prm.name == 'client_certificate_type' and side == 'server':
        req = ('trust_store', 'trusted_public_keys', 'require_peer_authentication')
        if not any(b and c.k == 'fld' and c.a[1] in req for c, b in st.facts.items()):
            extra.append((lambda v: v.k == 'fld' and of_config(d, v, req), True))
    alert = prm.alert or 'IllegalParameter'
    w = f'{side} {name} {ci.name}: no common {prm.name}'
    base = None
    for common in (True, False):
        D = Nego(ctx.p, d)
        ctx.extra.append(D)
        D.watch = prm
        o = oracle(D, prm, common, extra)
        if prm.name == 'key_exchange' and side == 'client':
            def o(v, s, common=common, D=D):
                if v.k == 'cmp' and v.a[0] == 'in' and in_message(v.a[1], 'KEY_SHARE') and \
                        key_share_of(D, s, prm, v.a[2]):
                    return common
                if v.k == 'cmp' and v.a[2].k == 'obj' and v.a[2].a[0] == 'extmap' and \
                        v.a[1].k == 'enum' and v.a[1].a[1] == 'KEY_SHARE':
                    return True
                return None
        D.I.oracle = o
        outs = D.step(side, st, conn, ci)
        why = [(x.kind, show_exc(x.val, x.st) if x.kind == 'raise' else None,
                D.raised_at(x.val, x.st) if x.kind == 'raise' else None,
                bool(sent(x.st, 'HelloRetryRequest'))) for x in outs]
        if common:
            base = {x for x in why if x[0] == 'raise'}
            ctx.check(any(
                x.kind == 'return' or sent(x.st, 'ServerHello') for x in outs), 'something-in-common-is-accepted',
                      w.replace('no common', 'common'), 'refused all the same')
            continue
        got = set()
        for x, y in zip(outs, why, strict=True):
            if y in base and not sent(x.st, 'ServerHello'):
                continue
            if y[3] and x.kind == 'return' and prm in SERVER[3:]:
                continue        # not looked at before the retry
            ctx.check(x.kind == 'raise', 'nothing-in-common-is-refused', w, 'the handshake goes on')
            if x.kind == 'raise':
                got.add(y[1])
                ctx.check(y[1] == alert, 'refused-with-the-prescribed-alert', w,
                          f'{y[1]} instead of {alert}', y[2][0] if y[2] else None)
        ctx.check(bool(got) or all(y in base for y in why if y[0] == 'raise'),
                  'refusal-is-reached', w, 'no path refuses')


# ------------------------------------------------------------------ own offers
OFFERS = {'SupportedGroups': ('named_group_list', 'key_exchanges'),
          'SignatureAlgorithms': ('supported_signature_algorithms', 'signature_algorithms'),
          'ALPN': ('protocol_name_list', 'alpn'),
          'ClientCertificateTypeRequest': ('certificate_types', 'certificate_types'),
          'ServerCertificateTypeRequest': ('certificate_types', 'peer_certificate_types'),
          'MaxFragmentLength': ('octets', 'max_fragment_length')}


def offers(ctx):
    """a client offers what its configuration allows, nothing else"""
    d = ctx.driver
    seen = set()
    names = ('ClientHello', 'CertificateRequest')
    for r in ctx.runs:
        if not any(e.kind == 'send' and e.name in names for o in r.outs for e in o.st.events()):
            continue
        D = Nego(ctx.p, d)
        ctx.extra.append(D)
        for o in D.redo(r):
            for e in o.st.events():
                if e.kind != 'send' or e.name not in names or e.x is None:
                    continue
                m = o.st.heap[e.x]
                w = f'{r.side} {r.state} {e.name}'
                if e.name == 'ClientHello':
                    v = m.attrs.get('cipher_suites')
                    ctx.check(v is not None and of_config(d, v, ('cipher_suites',)),
                              'offers-own-configuration', f'{w} cipher suites', show(v), e.loc)
                for ext in extensions(o.st, m):
                    eo = o.st.heap.get(ext)
                    if eo is None or eo.cls is None or eo.cls.k != 'cls':
                        continue
                    f = OFFERS.get(eo.cls.a[0].name)
                    if f is None:
                        continue
                    v = eo.attrs.get(f[0], eo.attrs.get('_' + f[0]))
                    if v is None:
                        v = next((x for k, x in eo.attrs.items() if 'fragment' in k), None)
                    seen.add(eo.cls.a[0].name)
                    ctx.check(v is not None and owned(d, o.st, v, f[1]),
                              'offers-own-configuration', f'{w} {eo.cls.a[0].name}',
                              f'offers {show(v)[:120]}', e.loc)
    ctx.check({'SupportedGroups', 'SignatureAlgorithms'} <= seen, 'offers-seen', 'client',
              f'only {sorted(seen)}')
    ctx.need('offers-own-configuration', 10)


def owned(d, st, v, field):
    return all(of_config(d, x, (field,)) for x in alts(v))


# ------------------------------------------------------------------ types of certificates
def types(ctx):
    """the certificate types a configuration allows follow from what it holds"""
    p = ctx.p
    d = Driver(p)
    d.I.joinkey = lambda st: frozenset(st.facts.items())
    ctx.extra.append(d)
    for name in ('certificate_types', 'peer_certificate_types'):
        for side in ('client', 'server'):
            st = d.base(side)
            n = 0
            for o in d.I.run(st, lambda s, name=name: d.I.getattr(s, d.config_v, name, None)):
                if o.kind != 'return':
                    continue
                lo = o.st.heap.get(o.val)
                w = f'{side} {name}'
                if lo is None or lo.items is None or not all(x.k == 'enum' for x in lo.items):
                    raise AnalysisError(f'{name} is {show(o.val)}')
                n += 1
                for t, fields in CERT_SETTING.items():
                    f = mk('fld', d.config_v, fields[name])
                    has = o.st.facts.get(f)
                    if has is None:
                        is_none = o.st.facts.get(mk('cmp', 'is', f, NONE))
                        has = None if is_none is None else not is_none
                    inn = any(x.a[1] == t for x in lo.items)
                    ctx.check(has is None and not inn or has is inn, 'types-follow-settings', w,
                              f'{t} is {"" if inn else "not "}listed when {fields[name]} is '
                              f'{"set" if has else "unknown" if has is None else "not set"}')
            ctx.check(n > 0, 'types-possible', name, 'never returns')
    ctx.need('types-follow-settings', 16)
