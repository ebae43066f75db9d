"""P06: every error while processing input fails the connection, with the right alert"""
from sa.drive import ALERT
from sa.interp import AnalysisError, Interp, Obj, show_exc
from sa.receive import Receive
from sa.terms import alts, const, mk, show, sym

FATAL = 'siotls.contents.alerts.TLSFatalAlert'
CALL = 'siotls.connection.TLSConnection.'
FAILED = mk('obj', 'monitor', 'failed')

SPEC = {
    'id': 'P06', 'level': 'other',
    'technique': 'exception-flow analysis: the receiving function is interpreted abstractly from '
                 'every reachable connection state with each of its operations (parsing, '
                 'decryption, hashing, processing) raising; every exceptional exit must have left '
                 'the connection failed and emitted exactly the alert of the exception',
    'explanation': 'one obligation per exceptional path of receive_data in each abstract connection '
                   '(side, state, open directions, protection), including the paths of alerts '
                   'received from the peer through the state that handles them',
    'assumptions': ['errors are subclasses of Exception (KeyboardInterrupt and the like are the '
                    'caller\'s)',
                    'asking for a key update, which the library does not support yet, is not '
                    'processing of input'],
}


class R6(Receive):
    def m_parse(self, I, st, fi, args, kws, n):
        out = super().m_parse(I, st, fi, args, kws, n)
        cls = args[0]
        if cls.k != 'cls' or cls.a[0].qual != ALERT:
            return out
        res = []
        for s, _c in out:
            for name in ('CloseNotify', 'UserCanceled', 'HandshakeFailure', 'InternalError'):
                ci = self.p.classes['siotls.contents.alerts.' + name]
                oid = mk('obj', 'content', name)
                s2 = s.setobj(oid, Obj(mk('cls', ci), 'instance', {
                    'level': sym('level on the wire')}, open=True, name='content'))
                if name in ('HandshakeFailure', 'InternalError') and \
                        self.state_of(s2, self.conn_v) != 'Failed':
                    s2 = s2.setobj(FAILED, Obj(None, 'monitor', {
                        **s2.heap[FAILED].attrs, 'peer': const(True)}, name='failed'))
                res.append((I.emit(s2, 'peeralert', name, (), None, n), oid))
        return res

    KEEP = Receive.KEEP | {'peeralert', 'raise'}
    PROCESS_RAISES = (*Receive.PROCESS_RAISES, 'builtins.NotImplementedError')
    PARSE_RAISES = (*Receive.PARSE_RAISES, 'builtins.NotImplementedError')

    def __init__(self, p):
        super().__init__(p)
        emit = self.I.emit

        def located(st, kind, name, *a, **kw):
            """tell in which state of the connection an error is raised"""
            if kind == 'raise':
                o = st.heap.get(self.conn_v)
                v = o.attrs.get('_state') if o is not None else None
                s = st.heap.get(v)
                if s is not None:
                    name = f'{s.cls.a[0].name} {"open" if sends(self, st, self.conn_v) else "mute"}'
                else:
                    name = '?'
            st = emit(st, kind, name, *a, **kw)
            if kind == 'fails' or kind == 'raise' and self.fatal(st, a[0][0]):
                # the loop forgets its earlier rounds, not that one of them failed
                st = st.setobj(FAILED, Obj(None, 'monitor', {
                    **st.heap[FAILED].attrs, 'failed': const(True)}, name='failed'))
            return st
        self.I.emit = located

    def fatal(self, st, exc):
        o = st.heap.get(exc)
        cls = o.cls if o is not None else None
        return cls is not None and cls.k == 'cls' and FATAL in self.p.mro_names(cls.a[0])

    def m_process(self, I, st, fi, args, kws, n):
        o = st.heap.get(args[1])
        if o is not None and o.name == 'content' and args[1].a[1] in (
                'CloseNotify', 'UserCanceled', 'HandshakeFailure', 'InternalError'):
            if st.stack[-1].name == 'process':
                return NotImplemented      # super().process(content)
            return NotImplemented
        return super().m_process(I, st, fi, args, kws, n)


def run(ctx):
    d = ctx.driver
    ctx.runs     # noqa: B018
    p = ctx.p
    levels(ctx, p)
    forged(ctx, p)
    R = R6(p)
    ctx.extra.append(R)

    def one(sample):
        side, st, conn = sample
        R.origin.clear()
        st = st.setobj(FAILED, Obj(None, 'monitor', {
            'failed': const(False), 'peer': const(False)}, name='failed'))
        state = R.state_of(st, conn)
        for o in R.receive(st, conn):
            evs = o.st.events()
            peer = next((e.name for e in evs if e.kind == 'peeralert'), None)
            if o.kind == 'raise':
                raised(ctx, R, side, state, st, conn, o, evs, peer)
            ok = o.kind == 'raise' or const(True) not in alts(o.st.heap[FAILED].attrs['failed'])
            ctx.check(ok, 'error-reported', f'{side} {state}: something fails',
                      'the call can return as if nothing had happened')
            if o.kind == 'raise':
                continue
            ok = state == 'Failed' or const(True) not in alts(o.st.heap[FAILED].attrs['peer'])
            ctx.check(ok, 'peer-alert-reported', f'{side} {state} receives a fatal alert',
                      'the failure of the peer can go unreported')
    ctx.each(one, R.samples(d))
    ctx.need('failed-on-error', 100)
    ctx.need('alert-of-error', 100)
    ctx.need('nothing-after-error', 100)
    ctx.need('peer-alert-unanswered', 10)


def raised(ctx, R, side, state, st, conn, o, evs, peer):
    p = R.p
    exc = show_exc(o.val, o.st)
    loc, fn = R.raised_at(o.val, o.st) or (None, None)
    if exc in ('BaseException', 'KeyboardInterrupt', 'SystemExit'):
        return
    if fn == CALL + 'rekey':
        return
    if o.st.heap[conn].key() == st.heap[conn].key() and not any(
            e.kind not in ('raise',) for e in evs):
        ctx.check(True, 'refused-call', f'{side} {state}: {exc}')
        return
    what = [f'{e.kind} {e.name}'.strip() for e in evs if e.kind in ('fails', 'parse', 'peeralert')]
    w = f'{side} {state}: {exc} ({", ".join(what) or "reading the record"})'
    ctx.check(R.state_of(o.st, conn) == 'Failed', 'failed-on-error', w,
              f'left in state {R.state_of(o.st, conn)}', loc)
    sent = [e for e in evs if e.kind == 'sent']
    ex = o.st.heap.get(o.val)
    cls = ex.cls if ex is not None else None
    fatal = cls is not None and cls.k == 'cls' and FATAL in p.mro_names(cls.a[0])
    at = next((e.name for e in evs if e.kind == 'raise' and e.args[0] is o.val), '?')
    mute = at.endswith('mute')
    if at == '?':
        raise AnalysisError(f'{w}: raised in an unknown state')
    if peer in ('HandshakeFailure', 'InternalError') and not any(e.kind == 'fails' for e in evs):
        ctx.check(not sent, 'peer-alert-unanswered', w, 'a fatal alert is answered', loc)
    elif mute:
        ctx.check(not sent, 'closed-stays-silent', w, 'something is sent', loc)
    else:
        want = exc if fatal else 'InternalError'
        ctx.check([e.name for e in sent] == [want], 'alert-of-error', w,
                  f'{want} expected, sends {[e.name for e in sent] or "nothing"}', loc)
        if fatal and sent:
            ctx.check(sent[0].args[0] is o.val, 'alert-is-the-error', w,
                      'another alert than the one raised is sent', loc)
    at = next((i for i, e in enumerate(evs) if e.kind == 'fails'), None)
    if at is not None:
        later = [e for e in evs[at + 1:] if e.kind in ('parse', 'process', 'opened', 'log')]
        ctx.check(not later, 'nothing-after-error', w, f'goes on with {later and later[0].kind}', loc)


def forged(ctx, p):
    """what the AEAD does not authenticate is a bad_record_mac, RFC 8446 section 5.2"""
    base = p.classes['siotls.crypto.ciphers.TLSCipherSuite']
    tag = mk('obj', 'monitor', 'forged')
    for c in p.classes.values():
        f = p.find(c, 'decrypt')
        if c is base or base.qual not in p.mro_names(c) or f is None or f.k != 'func':
            continue
        I = Interp(p)
        ctx.extra.append(type('D', (), {'I': I})())

        def model(I, st, b, name, args, kws, n):
            I.raise_ext(st.setobj(tag, Obj(None, 'monitor', {}, name='forged')),
                        'cryptography.exceptions.InvalidTag', n)
            return [(st, sym('plaintext', 'bytes'))]
        I.models['.decrypt'] = model
        st, me = I.new(p.state.copy(), Obj(mk('cls', c), 'instance', {}, open=True, name='cipher'),
                       'cipher')
        for o in I.run(st, lambda s, f=f, me=me, I=I: I.call(
                s, f, [me, sym('data', 'bytes'), sym('header', 'bytes')], {}, None)):
            if tag in o.st.heap:
                ctx.check(o.kind == 'raise' and show_exc(o.val, o.st) == 'BadRecordMac', 'forged',
                          f'{c.name}.decrypt()', 'a record that is not authentic gives ' + (
                              show_exc(o.val, o.st) if o.kind == 'raise' else 'a result'),
                          (f.a[0].module.path, f.a[0].node.lineno))
    ctx.need('forged', 5)


def sends(R, st, conn):
    """the sending side of this connection is open"""
    o = st.heap[st.heap[conn].attrs['_state']]
    v = o.attrs.get('can_send')
    if v is None:
        v = R.p.find(o.cls.a[0], 'can_send')
    return v is None or v is not const(False)


def levels(ctx, p):
    """every fatal alert is one"""
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        names = p.mro_names(c)
        if FATAL in names and ALERT in names and not c.qual.startswith('<dynamic>'):
            v = p.find(c, 'level')
            ctx.check(v is not None and v.k == 'enum' and v.a[1] == 'FATAL', 'fatal-level', c.name,
                      show(v) if v is not None else 'no level', (c.module.path, c.node.lineno))
    ctx.need('fatal-level', 20)
