"""P16: wire code points and message/alert class constants are the registered ones"""
from sa import rfc
from sa.interp import AnalysisError
from sa.terms import cval, has_cval, show

SPEC = {
    'id': 'P16', 'level': 'other',
    'technique': 'constant evaluation of every enumeration and class-level code point over the '
                 'syntax tree, compared with tables typed in from the RFCs and IANA registries',
    'explanation': 'every enumeration member and every class constant naming a message, alert or '
                   'extension is evaluated from the syntax tree and compared with the tables in '
                   'sa/rfc.py; finite and exhaustive',
    'assumptions': ['sa/rfc.py transcribes RFC 8446/6066/6520/7250/7301/7919 and IANA correctly'],
}


def enums(p):
    out = {}
    for c in p.classes.values():
        if c.is_enum and any(v.k == 'enum' for v in c.ns.values()):
            out.setdefault(c.name, c)
    return out


def run(ctx):
    p = ctx.p
    es = enums(p)
    for name, table in rfc.ENUMS.items():
        c = es.get(name)
        if c is None:
            raise AnalysisError(f'enumeration {name} not found')
        mem = {n.lower(): v for n, v in c.ns.items() if v.k == 'enum'}
        for m, want in table.items():
            v = mem.get(m)
            ctx.check(v is not None and v.a[2] == want, 'code-point', f'{name}.{m}',
                      f'registered value is {want!r}, the source has '
                      f'{None if v is None else v.a[2]!r}', (c.module.path, c.node.lineno))
        for m, v in mem.items():
            if m in table:
                continue
            ctx.check(v.a[2] not in table.values(), 'no-alias', f'{name}.{m}',
                      f'{v.a[2]!r} is registered under another name',
                      (c.module.path, c.node.lineno))
        vals = [v.a[2] for v in mem.values()]
        ctx.check(len(vals) == len(set(vals)), 'distinct', name, 'two members share a code point',
                  (c.module.path, c.node.lineno))
    CT = {'Alert': 'ALERT', 'Handshake': 'HANDSHAKE', 'ApplicationData': 'APPLICATION_DATA',
          'ChangeCipherSpec': 'CHANGE_CIPHER_SPEC', 'Heartbeat': 'HEARTBEAT'}
    MT = {'ClientHello': 'CLIENT_HELLO', 'ServerHello': 'SERVER_HELLO',
          'HelloRetryRequest': 'SERVER_HELLO', 'NewSessionTicket': 'NEW_SESSION_TICKET',
          'EndOfEarlyData': 'END_OF_EARLY_DATA', 'EncryptedExtensions': 'ENCRYPTED_EXTENSIONS',
          'Certificate': 'CERTIFICATE', 'CertificateRequest': 'CERTIFICATE_REQUEST',
          'CertificateVerify': 'CERTIFICATE_VERIFY', 'Finished': 'FINISHED',
          'KeyUpdate': 'KEY_UPDATE', 'X509': 'CERTIFICATE'}
    content = p.cls('siotls.contents.Content')
    hs, _, _ = ctx.driver.content_classes()
    for c in p.classes.values():
        if content in c.repo_mro() and c is not content and not c.qual.startswith('<dynamic>'):
            v = p.find(c, 'content_type')
            base = next((CT[b.name] for b in c.repo_mro() if b.name in CT), None)
            ctx.check(v is not None and v.k == 'enum' and base == v.a[1], 'content-type', c.name,
                      f'content type {show(v) if v else None}, expected {base}',
                      (c.module.path, c.node.lineno))
    for c in hs:
        v = p.find(c, 'msg_type')
        want = next((MT[b.name] for b in c.repo_mro() if b.name in MT), None)
        if want is None:
            continue
        ctx.check(v.k == 'enum' and v.a[2] == rfc.ENUMS['HandshakeType'][want.lower()],
                  'msg-type', c.name, f'msg_type {show(v)}, expected {want}',
                  (c.module.path, c.node.lineno))
    ctx.need('msg-type', 10)
    reg = p.state.heap[p.find(p.cls('siotls.contents.alerts.Alert'), '_registry')]
    by = {k.a[1].lower(): v.a[0] for k, v in reg.items if k.k == 'enum'}
    for d in rfc.ALERTS:
        c = by.get(d)
        ctx.check(c is not None, 'alert-registered', d, 'no alert class for this description')
        if c is None:
            continue
        ctx.check(c.name.lower() == d.replace('_', ''), 'alert-class', c.name,
                  f'registered for {d}', (c.module.path, c.node.lineno))
        lv = p.find(c, 'level')
        want = 'WARNING' if d in rfc.WARNING_ALERTS else 'FATAL'
        ctx.check(lv is not None and lv.k == 'enum' and lv.a[1] == want, 'alert-level', c.name,
                  f'level {show(lv) if lv else None}, RFC 8446 section 6 says {want}',
                  (c.module.path, c.node.lineno))
    # parsing maps a type byte to the class that carries the same type
    for regname, mod, attr in (('_content_registry', 'siotls.contents', 'content_type'),
                               ('_handshake_registry', 'siotls.contents.handshakes', 'msg_type')):
        rv = p.modules[mod].ns.get(regname)
        if rv is None:
            rv = ctx.driver.find_registry('ContentType' if 'content' in regname else 'HandshakeType')
        for k, v in p.state.heap[rv].items:
            w = p.find(v.a[0], attr)
            ctx.check(w is k, 'dispatch', f'{v.a[0].name}', f'dispatched on {show(k)} but declares '
                      f'{show(w)}', (v.a[0].module.path, v.a[0].node.lineno))
            if attr == 'msg_type':
                exp = next((MT[b.name] for b in v.a[0].repo_mro() if b.name in MT), None)
                ctx.check(exp == k.a[1] and v.a[0].name != 'HelloRetryRequest', 'dispatch-class',
                          k.a[1], f'parsed as {v.a[0].name}')
    ctx.need('dispatch', 14)
    rnd = [v for c in p.classes.values() if 'siotls.contents.handshakes.server_hello' ==
           c.module.name for n, v in c.ns.items() if 'random' in n.lower() and has_cval(v)]
    rnd += [v for n, v in p.modules['siotls.contents.handshakes.server_hello'].ns.items()
            if has_cval(v) and isinstance(cval(v), bytes) and len(cval(v)) == 32]
    ctx.check(any(cval(v) == rfc.HRR_RANDOM for v in rnd), 'hrr-random', 'HelloRetryRequest',
              'the HelloRetryRequest random is not SHA-256("HelloRetryRequest")')
