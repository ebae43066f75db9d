"""P04: application data is only exchanged encrypted, on an established connection"""
from sa.drive import HANDSHAKE, role
from sa.interp import AnalysisError, show_exc
from sa.receive import Receive
from sa.terms import V, show, sym

SPEC = {
    'id': 'P04', 'level': 'other',
    'technique': 'information-flow analysis over the typestate automaton: the terms appended to '
                 'the output buffer at every place a message is sent and by every public call, and '
                 'the terms that reach the parsers and the application buffer, are traced back to '
                 'their sources through the AEAD, by abstract interpretation of the source',
    'explanation': 'one obligation per place and state in which something is sent, per public '
                   'call and state, and per state and term given to a parser',
    'assumptions': ['the AEAD primitives of the cryptography package encrypt and authenticate'],
}
HELLOS = {'ClientHello', 'ServerHello', 'HelloRetryRequest'}


def run(ctx):
    d = ctx.driver
    points = {}

    def monitor(I, st, ev):
        if ev.kind == 'send' and ev.x is not None and d.conn_v in st.heap:
            o = st.heap[d.conn_v]
            keys = tuple(sorted((k, show(v)) for k, v in st.heap[o.attrs['_cipher']].attrs.items())
                         ) if o.attrs['_cipher'] in st.heap else None
            k = (ev.loc, ev.name, st.heap[d.config_v].attrs['side'], keys)
            if k not in points:
                points[k] = st, ev
    d.I.monitors.append(monitor)
    ctx.runs     # noqa: B018
    d.I.monitors.remove(monitor)
    sending(ctx, d, points)
    refused(ctx, d)
    any_content(ctx, d)
    delivered(ctx, d)
    opening(ctx, d)
    received(ctx, d)


# ------------------------------------------------------------------ emission
def out_buffer(d, st, conn):
    """the buffer whose content data_to_send() gives away"""
    for o in d.api_call(st, conn, 'data_to_send', ()):
        if o.kind == 'return':
            bufs = [x for x in objs(o.val) if x in st.heap]
            if len(bufs) == 1:
                return bufs[0]
    raise AnalysisError('data_to_send() returns no buffer of the connection')


def app_buffer(d, st, conn):
    for o in d.api_call(st, conn, 'data_to_read', ()):
        if o.kind == 'return':
            bufs = [x for x in objs(o.val) if x in st.heap]
            if len(bufs) == 1:
                return bufs[0]
    raise AnalysisError('data_to_read() returns no buffer of the connection')


def objs(v):
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if x.k == 'obj':
            if x not in out:
                out.append(x)
            continue
        todo += [y for y in parts(x)]
    return out


def parts(x):
    for y in x.a[:1] if x.k == 'rep' else x.a:      # not what is known of the items
        if isinstance(y, V):
            yield y
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, V):
                    yield z
                elif isinstance(z, tuple):
                    yield from (w for w in z if isinstance(w, V))


def emitted(d, st, conn, o, buf=None):
    """-> the terms this outcome adds to what is sent, None when it adds nothing"""
    attr = next(k for k, v in st.heap[conn].attrs.items() if v is (buf or out_buffer(d, st, conn)))
    before = st.heap[conn].attrs[attr]
    after = o.st.heap[conn].attrs[attr]
    out = []
    if after is not before:
        out.append(after)
    old = len(st.events())
    for e in o.st.events()[old:]:
        if e.kind == 'mutate' and e.args[0] is before:
            out += list(e.args[1:])
    same = o.st.heap.get(before)
    if not out and same is not None and same.key() != st.heap[before].key():
        raise AnalysisError('the output buffer is modified in an unknown way')
    return out


def leaks(v):
    """messages that appear in the clear in a term"""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if x.k == 'mcall' and x.a[0] == 'encrypt' or x.k == 'call' and x.a[0] == 'len' or \
                x.k in ('len', 'loc'):
            continue
        if x.k == 'ser' or x.k == 'obj' and str(x.a[0]) == 'content':
            out.append(x)
        todo += list(parts(x))
    return out


def sealed(v):
    """[(role of the key, plaintext)] of the encryptions in a term"""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if x.k == 'mcall' and x.a[0] == 'encrypt':
            b = x.a[1]
            r = b if b.k == 'sym' else role(b.a[2][0]) if b.k == 'mcall' and b.a[2] else \
                role(b.a[1][0]) if b.k == 'call' and b.a[1] else None
            out.append((r.a[0] if r is not None else '?', x.a[2]))
        todo += list(parts(x))
    return out


def keyed(d, st, conn):
    """traffic keys are established on this connection"""
    o = st.heap.get(st.heap[conn].attrs['_cipher'])
    return o is not None and o.cls is not None and o.cls.k != 'ext' and any(
        'traffic' in show(role(v) or v) for v in o.attrs.values() if v.k != 'const')


def types_of(v):
    """first bytes of the records a term holds"""
    from sa.terms import alts
    out = set()
    for x in alts(v):
        if x.k in ('rep',):
            out |= types_of(x.a[0])
        elif x.k == 'concat':
            y = x.a[0]
            if y.k == 'rep':
                out |= types_of(y)
            elif y.k == 'const' and isinstance(y.a[1], bytes) and y.a[1]:
                out.add(y.a[1][0])
            else:
                out.add(None)
        elif x.k == 'const' and isinstance(x.a[1], bytes):
            if x.a[1]:
                out.add(x.a[1][0])
        else:
            out.add(None)
    return out


def record(ctx, d, w, side, name, hsk, key, terms, loc):
    """what one emission puts on the wire"""
    s = side[0]
    for t in terms:
        seals = sealed(t)
        if name == 'ChangeCipherSpec':
            continue    # carries no information, always in the clear (RFC 8446, 5)
        if hsk and name in HELLOS:
            ctx.check(not key, 'hello-before-keys', w, 'sent once keys are established', loc)
            continue
        if not key and not hsk:
            ctx.check(name != 'ApplicationData', 'application-data-needs-keys', w,
                      'application data sent without keys', loc)
            continue
        lk = leaks(t)
        ctx.check(not lk and seals, 'encrypted', w,
                  f'{show(lk[0]) if lk else "a record"} leaves in the clear', loc)
        ctx.check(types_of(t) <= {23}, 'encrypted-type', w,
                  f'record types {types_of(t)}', loc)
        for r, _ in seals:
            if hsk:
                want = (f'<{s} hs traffic', f'<{s} ap traffic')
            elif name == 'ApplicationData':
                want = (f'<{s} ap traffic',)
            else:
                want = (f'<{s} hs traffic', f'<{s} ap traffic')
            ctx.check(r.endswith(want), 'sealed-with-own-key', w, f'sealed with {r}', loc)


def sending(ctx, d, points):
    p = ctx.p
    for (loc, name, side, _keys), (st, ev) in points.items():
        side = side.a[1]
        ci = st.heap[ev.x].cls.a[0]
        hsk = HANDSHAKE in p.mro_names(ci)
        key = keyed(d, st, d.conn_v)
        buf = out_buffer(d, st, d.conn_v)
        w = f'{side} sends {name} {"under keys" if key else "without keys"}'
        any_ = False
        for o in d.api_call(st, d.conn_v, '_send_content', (ev.x,)):
            terms = emitted(d, st, d.conn_v, o, buf)
            any_ = any_ or bool(terms)
            record(ctx, d, w, side, name, hsk, key, terms, loc)
        ctx.check(any_, 'emits', w, 'nothing reaches the output', loc)
    ctx.need('emits', 8)
    ctx.need('hello-before-keys', 3)
    ctx.need('encrypted', 6)


def any_content(ctx, d):
    """any content, whatever calls for it"""
    p = ctx.p
    R = Receive(p)
    for side, st, conn in R.samples(d):
        key = keyed(d, st, conn)
        if not key:
            continue
        buf = out_buffer(d, st, conn)
        for cname in ('CloseNotify', 'InternalError', 'ApplicationData', 'Heartbeat', 'Finished',
                      'EncryptedExtensions'):
            ci = next((c for g in d.content_classes() for c in g if c.name == cname), None)
            if ci is None:
                continue
            s2, c = d.content(st, ci)
            w = f'{side} {d.state_of(st, conn)} sends {cname} under keys'
            for o in d.api_call(s2, conn, '_send_content', (c,)):
                record(ctx, d, w, side, cname, HANDSHAKE in p.mro_names(ci), key,
                       emitted(d, s2, conn, o, buf), None)


def refused(ctx, d):
    """send_data() in each state"""
    for r in d.api:
        if r.content != 'send_data()':
            continue
        so = r.entry.heap[r.entry.heap[d.conn_v].attrs['_state']]
        cs = so.attrs.get('can_send') or d.p.find(so.cls.a[0], 'can_send')
        closed = cs is not None and cs.k == 'const' and cs.a[1] is False
        okay = r.state in ('Connected', 'Closed') and not closed
        w = f'{r.side} {r.state}{" (closed)" if closed else ""}: send_data()'
        buf = out_buffer(d, r.entry, d.conn_v)
        some = False
        for o in r.outs:
            terms = emitted(d, r.entry, d.conn_v, o, buf)
            if okay:
                some = some or o.kind == 'return' and bool(terms)
                record(ctx, d, w, r.side, 'ApplicationData', False, keyed(d, r.entry, d.conn_v),
                       terms, None)
                for t in terms:
                    ctx.check(any(any(x.k == 'ser' and x.a[0] == 'ApplicationData'
                                      for a in args for x in _walk(a))
                                  for _, args in sealed(t)) or False, 'sends-the-data', w,
                              f'sends {show(t)[:200]}')
                continue
            ctx.check(o.kind == 'raise' and not terms, 'refused-without-a-byte', w,
                      'accepted' if o.kind == 'return' else 'refused, but something was emitted')
        if okay:
            ctx.check(some, 'sent-when-connected', w, 'application data cannot be sent')
    ctx.need('refused-without-a-byte', 10)
    ctx.need('sent-when-connected', 4)


def _walk(v):
    yield v
    for y in parts(v):
        yield from _walk(y)


# ------------------------------------------------------------------ delivery
def delivered(ctx, d):
    """what reaches the buffer of data_to_read()"""
    for r in [*ctx.runs, *d.api]:
        if r.content in ('data_to_read()', 'initiate_connection'):
            continue
        buf = app_buffer(d, r.entry, d.conn_v)
        attr = next(k for k, v in r.entry.heap[d.conn_v].attrs.items() if v is buf)
        w = f'{r.side} {r.state} {r.content}'
        so = r.entry.heap[r.entry.heap[d.conn_v].attrs['_state']]
        v = so.attrs.get('can_receive')
        shut = v is not None and v.k == 'const' and v.a[1] is False
        okay = r.content == 'ApplicationData' and r.state in ('Connected', 'Closed')
        got = False
        for o in r.outs:
            terms = emitted(d, r.entry, d.conn_v, o, buf)
            if not okay:
                ctx.check(not terms, 'nothing-delivered', w, 'data is delivered')
                continue
            got = got or bool(terms)
            for t in terms:
                ls = [x for x in _walk(t) if x.k == 'fld' and x.a[0] is _content(r)]
                ctx.check(ls and not [x for x in objs(t) if x is not buf and x is not
                                      _content(r)], 'delivers-the-content', w,
                          f'delivered: {show(t)[:200]}')
        if okay and not shut:
            ctx.check(got, 'delivered-when-connected', w, f'nothing reaches {attr}')
    ctx.need('nothing-delivered', 300)
    ctx.need('delivered-when-connected', 4)


def _content(r):
    from sa.terms import mk
    return mk('obj', 'content', r.content)


def opening(ctx, d):
    """the key a received record is opened with"""
    R = Receive(ctx.p)
    for side, st, conn in R.samples(d):
        if not keyed(d, st, conn) or d.state_of(st, conn) == 'Failed':
            continue
        cipher = st.heap[conn].attrs['_cipher']
        other = 's' if side == 'client' else 'c'
        I = d.I
        kinds = set()
        outs = I.run(st, lambda s, c=cipher: [y for s2, f in I.getattr(s, c, 'decrypt', None)
                                              for y in I.call(s2, f, [sym('data'), sym('header')],
                                                              {}, None)])
        phase = 'ap' if d.state_of(st, conn) in ('Connected', 'Closed') else 'hs'
        w = f'{side} {d.state_of(st, conn)} opens a record'
        for o in outs:
            if o.kind != 'return':
                continue
            for x in _walk(o.val):
                if x.k == 'mcall' and x.a[0] == 'decrypt':
                    b = x.a[1]
                    r = b if b.k == 'sym' else role(b.a[2][0]) if b.k == 'mcall' and b.a[2] else None
                    kinds.add(r.a[0] if r is not None else '?')
                    ctx.check(r is not None and r.a[0].endswith(f'<{other} {phase} traffic'),
                              'opened-with-peer-key', w, f'opened with {r.a[0] if r else "?"}')
            ctx.check(bool(kinds), 'through-the-aead', w, f'returns {show(o.val)[:120]}')
    ctx.need('opened-with-peer-key', 8)


# ------------------------------------------------------------------ reception
def received(ctx, d):
    R = Receive(ctx.p)
    ctx.extra.append(R)

    def one(sample):
        side, st, conn = sample
        if not keyed(R, st, conn) or R.state_of(st, conn) == 'Failed':
            return
        parsed, edges, opened = {}, {'$input': set()}, []

        def monitor(I, s, ev):
            if ev.kind == 'opened':
                opened.append(ev)
            if ev.kind == 'mutate' and len(ev.args) > 1:
                edges.setdefault(leaf(ev.args[0]), set()).update(*map(sources, ev.args[1:]))
            if ev.kind == 'parse':
                parsed.setdefault(ev.args[0], ev)
                for k, v in s.heap[conn].attrs.items():
                    if k.startswith('_') and v.k != 'obj':
                        edges.setdefault(k, set()).update(sources(v))
        R.I.monitors.append(monitor)
        try:
            R.receive(st, conn)
        finally:
            R.I.monitors.remove(monitor)
        w = f'{side} {R.state_of(st, conn)}'
        so = st.heap[st.heap[conn].attrs['_state']]
        v = so.attrs.get('can_receive')
        if v is not None and v.k == 'const' and v.a[1] is False:
            ctx.check(not parsed, 'closed-parses-nothing', w, 'input is parsed')
            return
        ctx.check(bool(opened), 'records-opened', w, 'no record is ever decrypted')
        raw, n = {'$input'}, 0
        while n != len(raw):
            n = len(raw)
            raw |= {k for k, v in edges.items() if v & raw}
        for data, ev in parsed.items():
            bad = sources(data) & raw
            ctx.check(not bad, 'parsed-only-decrypted', f'{w} parses {ev.name}',
                      f'the content comes from {sorted(bad)} without the AEAD', ev.loc)
            ctx.check(ev.name != 'ApplicationData' or 'aead' in sources(data),
                      'application-data-decrypted', f'{w} parses {ev.name}', show(data)[:200], ev.loc)
    ctx.each(one, R.samples(d))
    ctx.need('parsed-only-decrypted', 50)
    ctx.need('application-data-decrypted', 10)
    ctx.need('records-opened', 8)


def leaf(v):
    if v.k == 'obj':
        return str(v.a[0]).removeprefix('conn.')
    if v.k == 'sym':
        return '$' + str(v.a[0])
    return str(v.a[0])


def sources(v):
    """where the bytes of a term come from (indexes and lengths aside)"""
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x.k in ('call', 'mcall') and str(x.a[0]).rpartition('.')[2] == 'decrypt':
            out.add('aead')
        elif x.k == 'call' and x.a[0] == 'len' or x.k == 'len':
            continue
        elif x.k in ('slice', 'sub', 'elem', 'item'):
            todo.append(x.a[0])
        elif x.k in ('obj', 'sym', 'loopv'):
            out.add(leaf(x))
        else:
            todo += list(parts(x))
    return out
