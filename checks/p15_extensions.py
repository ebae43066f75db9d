"""P15: an extension is understood in exactly the messages the RFCs allow"""
from sa import rfc
from sa.drive import EXTENSION, is_abstract
from sa.terms import const, mk, show

SPEC = {
    'id': 'P15', 'level': 'other',
    'technique': 'evaluation of the extension registry built at import time and path enumeration '
                 'of the extension dispatcher over every (extension, message) pair',
    'explanation': 'the registry is computed from the syntax tree and compared with RFC 8446 4.2; '
                   'the parser is interpreted once per (extension type, handshake type) pair with '
                   'the payload unknown, and each path must either parse with the right class or '
                   'raise illegal_parameter',
    'assumptions': ['sa/rfc.py transcribes the table of RFC 8446 section 4.2'],
}
HS = ['CLIENT_HELLO', 'SERVER_HELLO', 'HELLO_RETRY_REQUEST', 'ENCRYPTED_EXTENSIONS',
      'CERTIFICATE', 'CERTIFICATE_REQUEST', 'NEW_SESSION_TICKET']


def run(ctx):
    p, d = ctx.p, ctx.driver
    reg = d.ext_registry()
    have = {}
    for (e, h), cv in reg.items():
        have.setdefault(e, {})[h] = cv
    enum = next(c for c in p.classes.values() if c.name == 'ExtensionType')
    for e in rfc.EXT_TABLE:
        m = have.get(e, {})
        ctx.check(set(m) <= rfc.EXT_TABLE[e], 'no-extra-message', e,
                  f'also understood in {sorted(set(m) - rfc.EXT_TABLE[e])}')
        ctx.check(rfc.EXT_TABLE[e] <= set(m), 'no-missing-message', e,
                  f'not understood in {sorted(rfc.EXT_TABLE[e] - set(m))}')
        for h, cv in m.items():
            et = p.find(cv.a[0], 'extension_type')
            ctx.check(et is not None and et.k == 'enum' and et.a[1] == e, 'own-type',
                      f'{e} in {h}', f'{cv.a[0].name} declares {show(et) if et else None}',
                      (cv.a[0].module.path, cv.a[0].node.lineno))
    for e in have:
        ctx.check(e in rfc.EXT_TABLE, 'known', e, 'not an extension of the RFC table')
    # every concrete extension class is reachable from the registry
    used = {cv.a[0] for cv in reg.values()}
    for c in p.classes.values():
        if c.qual != EXTENSION and EXTENSION in p.mro_names(c) and not is_abstract(p, c) \
                and not c.qual.startswith('<dynamic>') and p.find(c, 'extension_type') is not None:
            ctx.check(c in used or any(u in c.repo_mro() for u in used), 'registered', c.name,
                      'never parsed', (c.module.path, c.node.lineno))
    ctx.need('own-type', 36)
    # the dispatcher
    dispatch(ctx, p, reg, enum)


def dispatch(ctx, p, reg, enum):
    from sa.interp import Interp, Obj, show_exc
    hst = next(c for c in p.classes.values() if c.name == 'HandshakeType')
    hst2 = next(c for c in p.classes.values() if c.name == 'HandshakeType_')
    for e in [*rfc.EXT_TABLE, None]:
        ev = enum.ns[e] if e else const(0xfafa)
        code = const(ev.a[2]) if e else ev
        for h in HS:
            hv = hst.ns.get(h) or hst2.ns[h]
            I = Interp(p, limit=8, keep=lambda x: x.kind in ('body', 'op'))

            def m_int(I, st, fi, args, kws, n, code=code):
                if not any(x.kind == 'op' for x in st.events()):
                    return [(I.emit(st, 'op', 'type', (), None, n), code)]
                st, i = I.fresh(st)
                return [(st, mk('call', 'read_int', tuple(args[1:]), (), i))]

            def m_body(I, st, fi, args, kws, n):
                cv = args[0]
                st = I.emit(st, 'body', cv.a[0].name if cv.k == 'cls' else show(cv), (cv,), None, n)
                return [(st, mk('call', 'parsed', (cv,), ()))]
            I.models['siotls.serial.SerialIO.read_int'] = m_int
            for c in p.classes.values():
                if EXTENSION in p.mro_names(c) or c.name == 'UnknownExtension':
                    for b in c.repo_mro():
                        f = b.ns.get('parse_body')
                        if f is not None and hasattr(f.a[0], 'qual'):
                            I.models[f.a[0].qual] = m_body
            st = p.state.copy()
            sid = mk('obj', 'stream', 0)
            st = st.setobj(sid, Obj(p.clsv('siotls.serial.SerialIO'), 'instance', {}, open=True,
                                    name='stream'))

            def go(s, hv=hv):
                return I.call(s, bind(I, s, p), [sid], {'handshake_type': hv}, None)
            outs = I.run(st, go)
            want = reg.get((e, h)) or reg.get((e, 'ANY')) if e else None
            ok = False
            for o in outs:
                body = [x for x in o.st.events() if x.kind == 'body']
                if e is None or h in rfc.EXT_TABLE[e]:
                    if not body:
                        # the wire did not hold enough bytes
                        continue
                    got = body[0].args[0]
                    good = got is want if want is not None else 'UnknownExtension' in [
                        b.name for b in got.a[0].repo_mro()]
                    ctx.check(good, 'dispatch', f'{e or "unknown"} in {h}',
                              f'parsed as {show(got)}', body[0].loc)
                    ok = True
                else:
                    ctx.check(not body, 'refused', f'{e} in {h}', 'parsed where it is forbidden',
                              body[0].loc if body else None)
                    ctx.check(o.kind == 'raise' and 'IllegalParameter' in show_exc(o.val, o.st),
                              'illegal-parameter', f'{e} in {h}',
                              f'ends with {o.kind} '
                              f'{show_exc(o.val, o.st) if o.kind == "raise" else show(o.val)}')
                    ok = True
            ctx.check(ok, 'reached', f'{e or "unknown"} in {h}', 'no path parses it')
    ctx.need('dispatch', 30)


def bind(I, st, p):
    return I.getattr(st, p.clsv(EXTENSION), 'parse', None)[0][1]
