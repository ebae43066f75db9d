"""The receiving loop, with parsing, processing and hashing as recorded operations."""
from .drive import CONN, CONTENT, STATE, Driver
from .terms import NONE, V, const, mk, sym

STREAM = 'siotls.serial.SerialIO'
ALERT_CLASS = 'siotls.contents.alerts.UnexpectedMessage'


class Receive(Driver):
    """receive_data() over connections in each of their states"""
    KEEP = {'log', 'process', 'parse', 'sent', 'record', 'fails', 'opened', 'moved'}
    PROCESS_RAISES = ('builtins.RuntimeError', 'siotls.TLSError', ALERT_CLASS,
                      'siotls.serial.MissingDataError', 'builtins.BaseException')
    PARSE_RAISES = ('builtins.RuntimeError', 'siotls.serial.MissingDataError', ALERT_CLASS)

    def __init__(self, p, limit=8, process=None):
        super().__init__(p, limit=limit)
        I = self.I
        I.rounds = 0
        I.splitkeys = True
        I.splitter = self.split
        m = I.models
        m[CONN + '._send_content'] = self.m_sent
        m['siotls.transcript.Transcript.update'] = self.m_log
        m[STREAM] = self.m_stream
        self.process_model = process or self.m_process
        for c in p.classes.values():
            names = p.mro_names(c)
            for n, f in c.ns.items():
                if f.k != 'func':
                    continue
                if STATE in names and n == 'process':
                    m[f.a[0].qual] = self.process_model
                if CONTENT in names and n == 'parse':
                    m[f.a[0].qual] = self.m_parse
                if c.qual == STREAM:
                    m[f.a[0].qual] = self.m_streamop
                if 'siotls.crypto.ciphers.TLSCipherSuite' in names and n in ('decrypt', 'encrypt'):
                    m[f.a[0].qual] = self.m_aead

    def split(self, st):
        """one path per state the connection can be in"""
        o = st.heap.get(self.conn_v)
        v = o.attrs.get('_state') if o is not None else None
        if v is None or v.k != 'phi':
            return [st]
        return [self.I.replace_everywhere(st, v, x) for x in v.a]

    # ------------------------------------------------------------ models
    def throw(self, st, name, n):
        if name.startswith('siotls.'):
            for s, e in self.I.call(st, self.p.clsv(name), [], {}, n):
                self.I.throw(s, e, n)
        else:
            self.I.raise_ext(st, name, n)

    def m_stream(self, I, st, cv, args, kws, n):
        from .interp import Obj
        st, oid = I.new(st, Obj(cv, 'instance', {'data': args[0] if args else const(b'')},
                                open=True, name='stream'), 'stream')
        return [(st, oid)]

    def m_streamop(self, I, st, fi, args, kws, n):
        st2 = I.emit(st, 'fails', 'stream', (args[0],), None, n)
        self.throw(st2, 'siotls.serial.TooMuchDataError', n)
        return [(st, sym('stream.' + fi.name))]

    def m_parse(self, I, st, fi, args, kws, n):
        cls = args[0]
        stream = args[1] if len(args) > 1 else NONE
        o = st.heap.get(stream)
        data = o.attrs.get('data', NONE) if o is not None else NONE
        for e in self.PARSE_RAISES:
            self.throw(I.emit(st, 'fails', 'parse', (data,), mk('ext', e), n), e, n)
        ci = cls.a[0]
        st, c = self.content(st, ci)
        st = I.emit(st, 'parse', ci.name, (data,), c, n)
        return [(st, c)]

    def m_process(self, I, st, fi, args, kws, n):
        st = I.emit(st, 'process', '', (args[0], args[1]), None, n)
        for e in self.PROCESS_RAISES:
            self.throw(I.emit(st, 'fails', 'process', (), mk('ext', e), n), e, n)
        return [(st, NONE)]

    def m_log(self, I, st, fi, args, kws, n):
        names = ['self', 'handshake_data', 'side', 'handshake_type']
        vals = dict(zip(names, args, strict=False), **kws)
        st = I.emit(st, 'log', '', tuple(vals.get(k, NONE) for k in names[1:]), None, n)
        self.throw(I.emit(st, 'fails', 'log', (), mk('ext', ALERT_CLASS), n), ALERT_CLASS, n)
        return [(st, NONE)]

    def m_aead(self, I, st, fi, args, kws, n):
        res = mk('call', 'aead.' + fi.name, tuple(args[1:]), tuple(sorted(kws.items())))
        st = I.emit(st, 'opened' if fi.name == 'decrypt' else 'sealed', fi.name, tuple(args[1:]),
                    res, n)
        if fi.name == 'decrypt':
            e = 'siotls.contents.alerts.BadRecordMac'
            self.throw(I.emit(st, 'fails', 'decrypt', (), mk('ext', e), n), e, n)
        return [(st, res)]

    def m_sent(self, I, st, fi, args, kws, n):
        content = args[1] if len(args) > 1 else kws['content']
        return [(I.emit(st, 'sent', self.clsname(st, content), (content,), None, n), NONE)]

    def clsname(self, st, v):
        o = st.heap.get(v)
        return o.cls.a[0].name if o is not None and o.cls is not None and o.cls.k == 'cls' else '?'

    def joinkey(self, st):
        return (super().joinkey(st), self._content_type(st))

    def _content_type(self, st):
        """the kind of content at hand is never mixed up"""
        fr = st.frames.get(st.cur) or {}
        return (frozenset(v for v in fr.values() if isinstance(v, V) and v.k == 'enum'),
                frozenset((c, b) for c, b in st.facts.items()
                          if c.k == 'cmp' and c.a[0] == 'in' and c.a[2].k == 'cls'))

    # ------------------------------------------------------------ entry points
    def receive(self, st, conn, data=sym('input')):
        I = self.I
        return self.merge_soft(I.run(st, lambda s: [
            y for s2, f in I.getattr(s, conn, 'receive_data', None)
            for y in I.call(s2, f, [data], {}, None)]))

    def merge_soft(self, outs):
        return outs

    def samples(self, explored):
        """one abstract connection per (side, state class, open directions, protection)"""
        out = {}
        for (side, st, conn) in explored.entries.values():
            o = st.heap[st.heap[conn].attrs['_state']]
            flags = tuple(sorted((k, v) for k, v in o.attrs.items()
                                 if v.k == 'const' and isinstance(v.a[1], bool)))
            ci = st.heap.get(st.heap[conn].attrs['_cipher'])
            kind = ci.cls if ci is not None else st.heap[conn].attrs['_cipher']
            out.setdefault((side, o.cls, flags, kind), (side, st, conn))
        return list(out.values())
