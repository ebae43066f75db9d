"""P09: nothing but TLS 1.3 is negotiated"""
from sa import handshake as hs
from sa.interp import AnalysisError, Interp
from sa.nego import (Nego, asks, extension_of, has_ext, in_message, left_by, presence, says, sends)
from sa.terms import alts, cval, has_cval, mk, show

SPEC = {
    'id': 'P09', 'level': 'other',
    'technique': 'typestate exploration with dominance: every path that answers or accepts a '
                 'hello is dominated by the test that selects TLS 1.3; the hellos that are sent '
                 'are traced field by field; path enumeration with the test failing shows which '
                 'alert is left',
    'explanation': 'every reachable connection that handles a hello is crossed with it; accepting '
                   'paths must have found TLS 1.3 in (client: as) the supported versions of the '
                   'message, or the parser of the extension lets no other value through; the '
                   'client must have compared the session id echoed with the one it sends',
    'assumptions': ['the values of TLSVersion are those of RFC 8446 (decided by P16)'],
}
HELLOS = {'server': ('ClientHello',), 'client': ('ServerHello', 'HelloRetryRequest')}


def is13(v):
    return has_cval(v) and cval(v) == 0x0304


def versions(v):
    return in_message(v, 'SUPPORTED_VERSIONS')


def run(ctx):
    d = ctx.driver
    jobs = []
    for r in ctx.runs:
        if r.content in HELLOS[r.side] and r.state not in d.SETTLED and any(
                o.kind == 'return' for o in r.outs):
            jobs.append(r)
    if not {'ClientHello', 'ServerHello', 'HelloRetryRequest'} <= {r.content for r in jobs}:
        raise AnalysisError('no state handles the hellos')
    for r in jobs:
        accepts(ctx, d, r)
    ctx.each(lambda r: refuses(ctx, r), jobs)
    announces(ctx, d)
    ctx.need('selects-tls-1.3', 6)
    ctx.need('other-versions-are-refused', 6)
    ctx.need('announces-tls-1.3', 4)


def accepts(ctx, d, r):
    for o in r.outs:
        if o.kind != 'return':
            continue
        for after in hs.states_after(o.st, d):
            w = f'{r.side} {r.state} --{r.content}--> {after}'
            found = has_ext(d, o.st, 'SUPPORTED_VERSIONS')
            ctx.check(found is True, 'has-supported-versions', w,
                      'the message may have no supported_versions')
            field = 'versions' if r.side == 'server' else 'selected_version'
            ok = any(b and asks(c, is13, versions) and (r.side == 'server' or c.a[0] != 'in')
                     for c, b in o.st.facts.items())
            if not ok and r.side == 'client':
                ok = parser_guards(ctx, r.content)
            ctx.check(ok, 'selects-tls-1.3', w, f'{field} was not found to be TLS 1.3')
            if r.side == 'client':
                echo(ctx, d, r, o, w)


def echo(ctx, d, r, o, w):
    content = mk('obj', 'content', r.content)
    v = mk('fld', content, 'legacy_session_id_echo')
    mine = session_ids(ctx, d)
    ctx.check(len(mine) == 1 and says(o.st, v, None, lambda y: y in mine or y.k == 'const' and
                                      b'' in [cval(x) for x in mine if has_cval(x)] and
                                      not cval(y)) or
              b'' in [cval(x) for x in mine if has_cval(x)] and o.st.facts.get(v) is False,
              'echoes-session-id', w,
              f'the session id echoed was not compared with {[show(x) for x in mine]}')


def session_ids(ctx, d):
    """what ClientHello carries"""
    out = []
    for r in ctx.runs:
        for o in r.outs:
            for e in o.st.events():
                if e.kind == 'send' and e.name == 'ClientHello' and e.x is not None:
                    v = o.st.heap[e.x].attrs.get('legacy_session_id')
                    if v is None:
                        v = ctx.p.find(o.st.heap[e.x].cls.a[0], 'legacy_session_id')
                    for x in alts(v) if v is not None else ():
                        if x not in out:
                            out.append(x)
    return out


def parser_guards(ctx, message):
    """the parser of the extension only lets TLS 1.3 through"""
    p, d = ctx.p, ctx.driver
    key = {'ServerHello': 'SERVER_HELLO', 'HelloRetryRequest': 'HELLO_RETRY_REQUEST'}[message]
    cv = d.ext_registry().get(('SUPPORTED_VERSIONS', key))
    if cv is None:
        return False
    I = Interp(p, limit=64, keep=lambda e: False)
    ctx.extra.append(type('D', (), {'I': I})())

    def m_int(I, st, fi, args, kws, n):
        return [(st, mk('sym', 'version', None))]
    I.models['siotls.serial.SerialIO.read_int'] = m_int
    outs = I.run(p.state.copy(), lambda s: [
        y for s2, f in I.getattr(s, cv, 'parse_body', None)
        for y in I.call(s2, f, [mk('sym', 'stream', None)], {}, None)])
    versions = next(c for c in p.classes.values() if c.name == 'TLSVersion')
    for o in outs:
        if o.kind != 'return':
            continue
        eo = o.st.heap.get(o.val)
        v = eo.attrs.get('selected_version') if eo is not None else None
        if v is None:
            return False
        left = []
        for m in (x for x in versions.ns.values() if x.k == 'enum'):
            if consistent(o.st, v, m):
                left.append(m)
        inside = v.k in ('enum', 'enumcast') or any(
            b and c.k == 'cmp' and c.a[0] == 'in' and c.a[1] is v for c, b in o.st.facts.items())
        if not inside or not left or not all(is13(m) for m in left):
            return False
    return True


def consistent(st, v, m):
    raw = v.a[1] if v.k == 'enumcast' and len(v.a) > 1 else v
    n = cval(m)
    for c, b in st.facts.items():
        if c.k != 'cmp':
            continue
        op, x, y = c.a
        if x in (v, raw) and has_cval(y):
            r = {'<': n < cval(y), '==': n == cval(y)}.get(op) if isinstance(
                cval(y), int) else None
        elif y in (v, raw) and has_cval(x):
            r = {'<': cval(x) < n, '==': n == cval(x)}.get(op) if isinstance(
                cval(x), int) else None
        else:
            continue
        if r is not None and r is not b:
            return False
    return True


def refuses(ctx, r):
    d = ctx.driver
    def lists13(v):
        return asks(v, is13, versions)

    def sid(v):
        return v.k == 'fld' and v.a[1] == 'legacy_session_id_echo'

    def same_sid(v):
        return v.k == 'cmp' and v.a[0] == '==' and any(sid(x) for x in v.a[1:])

    def present(v):
        return presence(v, 'SUPPORTED_VERSIONS')
    good = {present: True, lists13: True, same_sid: True, sid: False}
    cases = {'no supported_versions': (present,)}
    if r.side == 'server':
        cases['TLS 1.3 not among the versions'] = (lists13,)
    else:
        cases['another session id'] = (same_sid, sid)
        if not parser_guards(ctx, r.content):
            cases['another version selected'] = (lists13,)
    for what, tests in cases.items():
        def normal(v, st):
            return next((b for f, b in good.items() if f(v)), None)

        def forced(v, st, tests=tests):
            return next((b if f not in tests else not b for f, b in good.items() if f(v)), None)

        def make():
            D = Nego(ctx.p, d)
            ctx.extra.append(D)
            return D
        ci = next(c for c in d.content_classes()[0] if c.name == r.content)
        outs, refused = left_by(make, lambda D, ci=ci: D.step(r.side, r.entry, d.conn_v, ci),
                          normal, forced)
        w = f'{r.side} {r.state} {r.content}: {what}'
        ctx.check(refused or bool(outs), 'refusal-is-reached', w, 'no path refuses')
        want = {'ProtocolVersion'} if r.side == 'server' else {
            'ProtocolVersion', 'IllegalParameter', 'MissingExtension'}
        for _o, kind, exc, loc in outs:
            ctx.check(kind == 'raise', 'other-versions-are-refused', w, 'the handshake goes on')
            if kind == 'raise':
                ctx.check(exc in want, 'refused-with-the-prescribed-alert', w,
                          f'{exc} instead of {" or ".join(sorted(want))}', loc[0] if loc else None)


def announces(ctx, d):
    for r in ctx.runs:
        for o in r.outs:
            for e in sends(o.st, 'ClientHello', 'ServerHello', 'HelloRetryRequest'):
                w = f'{r.side} {r.state} --{r.content}--> {e.name}'
                m = o.st.heap[e.x]
                v = m.attrs.get('legacy_version') or ctx.p.find(m.cls.a[0], 'legacy_version')
                ctx.check(v is not None and has_cval(v) and cval(v) == 0x0303, 'legacy-version', w,
                          f'legacy_version is {show(v) if v is not None else None}', e.loc)
                eo = extension_of(d, o.st, e.x, 'SUPPORTED_VERSIONS')
                ok = False
                text = 'no supported_versions'
                if eo is not None:
                    v = eo.attrs.get('versions', eo.attrs.get('selected_version'))
                    lo = o.st.heap.get(v) if v is not None and v.k == 'obj' else None
                    vs = lo.items if lo is not None and lo.kind in ('list', 'tuple') and \
                        lo.items is not None and not lo.open else v.a if v.k == 'tuple' else [v]
                    ok = bool(vs) and all(is13(x) for x in vs)
                    text = f'announces {[show(x) for x in vs]}'
                ctx.check(ok, 'announces-tls-1.3', w, text, e.loc)
                if e.name != 'ClientHello':
                    v = m.attrs.get('legacy_session_id_echo')
                    ctx.check(v is not None and hs.from_peer(v, 'legacy_session_id'),
                              'session-id-is-echoed', w, f'echoes {show(v)}', e.loc)
