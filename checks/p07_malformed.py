"""P07: malformed input is refused with a TLS alert, never another error."""
from sa.drive import CONTENT, EXTENSION, HANDSHAKE
from sa.formats import Formats
from sa.interp import show_exc
from sa.receive import Receive
from sa.suite import Suite, suites
from sa.terms import V, const, show, sym
from sa.wire import Wire, exc_name, indexed

STREAM = 'siotls.serial.SerialIO'
BUFFER = 'siotls.serial.TLSBufferError'
ALERT = 'siotls.contents.alerts.Alert'
FATAL = 'siotls.contents.alerts.TLSFatalAlert'
INTERNAL = 'siotls.contents.alerts.InternalError'

SPEC = {
    'id': 'P07', 'level': 'other',
    'technique': 'exception-flow analysis of the parsers: every function that turns received '
                 'bytes into contents is interpreted abstractly over arbitrary bytes, lookups, '
                 'conversions and library calls raising whenever their success is not proven; '
                 'every exception that escapes has to be a fatal alert or a buffer error, and '
                 'receive_data has to turn the latter into decode_error',
    'explanation': 'one obligation per exceptional path of every parser (records, handshakes, '
                   'extensions, entries, alerts), of the stream primitives and of the receiving '
                   'loop, and one per enumeration the RFCs leave open',
    'assumptions': ['the load functions of cryptography only raise what their documentation says '
                    '(sa/extcalls.py MAY_RAISE)',
                    'errors of the processing of well-formed messages are the matter of the '
                    'properties of each message, and fail the connection (P06)'],
}


def run(ctx):
    F = Formats(ctx.p)
    for s in F.subjects:
        # what is only parsed inside of something else is judged there
        if {HANDSHAKE, EXTENSION, CONTENT} & set(ctx.p.mro_names(s.cls)):
            parser(ctx, F, s)
    dispatchers(ctx, F)
    primitives(ctx)
    opening(ctx)
    receiving(ctx)
    ctx.need('escapes-as-alert', 60)
    ctx.need('unknown-value-accepted', 8)
    ctx.need('opened-or-alert', 10)
    ctx.need('buffer-error-decoded', 4)
    ctx.need('record-refused-with-alert', 10)


def loc(cls):
    return (cls.module.path, cls.node.lineno) if cls.node is not None else None


def allowed(p, name, buffer=True):
    c = p.classes.get(name)
    names = p.mro_names(c) if c is not None else ()
    if FATAL in names and ALERT in names and INTERNAL not in names:
        return True
    return buffer and BUFFER in names


def escapes(ctx, outs, label, where, buffer=True, rule='escapes-as-alert'):
    p = ctx.p
    seen = set()
    for o in outs:
        if o.kind != 'raise':
            continue
        name = exc_name(p, o.st, o.val)
        if name == 'builtins.StopIteration' and rule == 'opened-or-alert':
            continue        # the sequence numbers are used up, whatever the bytes (P11)
        at = o.val.a[-1] if o.val.k == 'exc' else None
        at = at if isinstance(at, tuple) and len(at) == 2 else None
        if (name, at) in seen:
            continue
        seen.add((name, at))
        ctx.check(allowed(p, name, buffer), rule, f'{label} raises {name.rsplit(".", 1)[-1]}',
                  'some bytes provoke it, it is no alert', where)
    return seen


def parser(ctx, F, s):
    w, stream, outs = F.run_parser(s)
    ctx.extra.append(w)
    label = f'{s.label}.{s.parser}()'
    escapes(ctx, outs, label, loc(s.cls))
    ctx.check(any(o.kind == 'return' for o in outs), 'parses', label, 'it never returns',
              loc(s.cls))
    if s.open:
        cast, bare = set(), set()
        for o in outs:
            if o.kind == 'return':
                known(o.st, o.val, cast, bare)
        for x in sorted(cast, key=show):
            ctx.check(x in bare, 'unknown-value-accepted', label,
                      f'it refuses the values of {show(x)} it does not know', loc(s.cls))
        ctx.check(True, 'unknown-value-accepted', label, '')


def known(st, v, cast, bare):
    """the numbers that end up in what is parsed, as members of an enumeration or as they are"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, V):
            if isinstance(x, tuple):
                todo += x
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.k == 'enumcast':
            cast.add(x.a[1])
            continue
        if x.k == 'rep':
            todo.append(x.a[0])
            continue
        bare.add(x)
        todo += x.a
        o = st.heap.get(x)
        if o is not None:
            todo += o.attrs.values()
            todo += o.items or ()
    for c, t in st.facts.items():
        if c.k == 'cmp' and c.a[0] == 'in' and c.a[2].k == 'cls':
            cast.add(c.a[1])
            if t is False:
                bare.add(c.a[1])


def dispatchers(ctx, F):
    p = ctx.p
    bodies = {q: c.qual for c in p.classes.values() for n, f in c.ns.items()
              if n == 'parse_body' and f.k == 'func' for q in [f.a[0].qual]}
    types = [v for name in ('HandshakeType', 'HandshakeType_')
             for v in p.classes['siotls.iana.' + name].ns.values() if v.k == 'enum']

    def kws():
        return {'config': sym('config'), 'nconfig': sym('nconfig')}
    for base in (HANDSHAKE, EXTENSION):
        attr = 'msg_type' if base == HANDSHAKE else 'extension_type'
        known = {F.code(s.cls, attr) for s in F.subjects
                 if base in p.mro_names(s.cls)} - {None}
        for ht in types if base == EXTENSION else [None]:
            for code in [None, *sorted(known)] if base == EXTENSION else [None]:
                w = Wire(p, bodies, raises=lambda q: {'siotls.contents.alerts.DecodeError', BUFFER})
                if code is not None:
                    w.force = {0: const(code)}
                ctx.extra.append(w)
                k = dict(kws(), handshake_type=ht) if ht is not None else kws()
                _, outs = w.parse(p.classes[base], 'parse', k)
                escapes(ctx, outs, base.rsplit('.', 1)[-1] + '.parse()' + (
                    f' of type {code}' if code is not None else '') + (
                    f' in {ht.a[1].lower()}' if ht is not None else ''), loc(p.classes[base]))
    w = Wire(p)
    ctx.extra.append(w)
    _, outs = w.parse(p.classes[ALERT], 'parse', kws())
    escapes(ctx, outs, 'Alert.parse()', loc(p.classes[ALERT]))
    w = Wire(p)
    f = p.find(p.classes[CONTENT], 'get_parser')
    outs = w.I.run(p.state.copy(), lambda x: [
        y for s2, g in w.I.getattr(x, p.clsv(CONTENT), 'get_parser', None)
        for y in w.I.call(s2, g, [sym('content_type', 'int')], {}, None)])
    escapes(ctx, outs, 'Content.get_parser()', (f.a[0].module.path, f.a[0].node.lineno),
            buffer=False)


def primitives(ctx):
    """the operations of the stream, each over the others"""
    p = ctx.p
    where = loc(p.classes[STREAM])
    n = const(2)
    for name, args in (('read', ()), ('read', (n,)), ('read_exactly', (n,)), ('read_int', (n,)),
                       ('read_var', (n,)), ('read_listint', (const(1), const(1))),
                       ('read_listint', (const(2), const(2))), ('read_listvar', (const(2), const(1))),
                       ('is_eof', ()), ('assert_eof', ())):
        w = Wire(p, skip=(name,))
        ctx.extra.append(w)
        st, s = w.stream(p.state.copy(), sym('data', 'bytes'))
        outs = w.I.run(st, lambda x, w=w, s=s, name=name, args=args: [
            y for s2, f in w.I.getattr(x, s, name, None)
            for y in w.I.call(s2, f, list(args), {}, None)])
        escapes(ctx, outs, f'SerialIO.{name}()', where)


def opening(ctx):
    """decrypting any bytes"""
    p = ctx.p
    for name, ci in sorted(suites(p).items()):
        for side in ('client', 'server'):
            S = Suite(p, ci, side)
            ctx.extra.append(S)
            for st, obj, _e in S.handshake():
                outs = S.call(st, obj, 'decrypt', sym('d', 'bytes'), sym('a', 'bytes'))
                escapes(ctx, outs, f'decrypt() of {name} ({side})', loc(ci), buffer=False,
                        rule='opened-or-alert')


class Named:
    def __init__(self, name):
        self.name = name


class R7(Receive):
    """reading records and parsing may fail, nothing else"""
    PROCESS_RAISES = ()
    PARSE_RAISES = ('siotls.serial.MissingDataError', 'siotls.serial.TooMuchDataError',
                    'siotls.serial.RestrictiveLimitError')
    KEEP = Receive.KEEP | {'raise'}

    def __init__(self, p):
        super().__init__(p)
        self.I.models['.decrypt'] = self.x_decrypt
        self.I.xmodels['getitem'] = indexed

    def x_decrypt(self, I, st, b, name, args, kws, n):
        """the cipher a connection that has already failed was left with"""
        if b.k in ('sym', 'loopv'):
            return self.m_aead(I, st, Named('decrypt'), [b, *args], kws, n)
        return None


def receiving(ctx):
    d = ctx.driver
    ctx.runs     # noqa: B018
    p = ctx.p
    R = R7(p)
    ctx.extra.append(R)

    def one(sample):
        side, st, conn = sample
        state = R.state_of(st, conn)
        for o in R.receive(st, conn):
            if o.kind != 'raise':
                continue
            name = exc_name(p, o.st, o.val)
            evs = o.st.events()
            fails = [e.name for e in evs if e.kind == 'fails']
            if not fails or fails[-1] == 'decrypt':
                if o.st.heap[conn].key() == st.heap[conn].key():
                    continue           # the call itself is refused
                fn = next((e for e in reversed(evs) if e.kind == 'raise'), None)
                if fn is not None and rekey(R, o):
                    continue
                ctx.check(allowed(p, name, False), 'record-refused-with-alert',
                          f'{side} {state}: reading a record raises {show_exc(o.val, o.st)}',
                          'some bytes provoke it, it is no alert')
            elif fails[-1] in ('parse', 'stream'):
                ctx.check(name == 'siotls.contents.alerts.DecodeError', 'buffer-error-decoded',
                          f'{side} {state}: a buffer error of {fails[-1]}ing',
                          f'it becomes {show_exc(o.val, o.st)}')
    ctx.each(one, R.samples(d))


def rekey(R, o):
    at = R.raised_at(o.val, o.st)
    return at is not None and at[1] == 'siotls.connection.TLSConnection.rekey'
