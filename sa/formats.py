"""Every parser and serializer of the contents, and their structures in the RFCs."""
from .drive import CONTENT, HANDSHAKE, is_abstract
from .layout import List, Obj, Raw, Rest, U, Vec
from .terms import cval, has_cval, sym
from .wire import Wire, exc_name

EXTENSION = 'siotls.contents.handshakes.extensions.Extension'
ALERT = 'siotls.contents.alerts.Alert'
ENTRY = 'siotls.contents.handshakes.certificate.CertificateEntry'
BUFFER = 'siotls.serial.TLSBufferError'
EXTS = List(2, Obj('Extension'))
HELLO_RETRY = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')

# RFC 8446 section 4, by message type
HANDSHAKES = {
    1: [U(2, 0x0303), Raw(32), Vec(1), List(2, U(2)), Vec(1, b'\0'), EXTS],
    2: [U(2, 0x0303), Raw(32), Vec(1), U(2), U(1, 0), EXTS],
    'retry': [U(2, 0x0303), Raw(32, HELLO_RETRY), Vec(1), U(2), U(1, 0), EXTS],
    4: [U(4), U(4), Vec(1), Vec(2), EXTS],
    5: [],
    8: [EXTS],
    11: [Vec(1), List(3, Obj())],
    13: [Vec(1), EXTS],
    15: [U(2), Vec(2)],
    20: [Rest()],
    24: [U(1)],
}
# by extension type and message: CH, SH, HRR, EE, CT, CR, NST
EXTENSIONS = {
    (0, 'CLIENT_HELLO'): [List(2, Obj())],
    (0, 'ENCRYPTED_EXTENSIONS'): [],
    (1, 'CLIENT_HELLO'): [U(1)], (1, 'ENCRYPTED_EXTENSIONS'): [U(1)],
    (5, 'CLIENT_HELLO'): [U(1, 1), List(2, Vec(2)), Vec(2)],
    (5, 'CERTIFICATE_REQUEST'): [U(1, 1), List(2, Vec(2)), Vec(2)],
    (5, 'CERTIFICATE'): [U(1, 1), Vec(3)],
    (10, 'CLIENT_HELLO'): [List(2, U(2))], (10, 'ENCRYPTED_EXTENSIONS'): [List(2, U(2))],
    (13, 'CLIENT_HELLO'): [List(2, U(2))], (13, 'CERTIFICATE_REQUEST'): [List(2, U(2))],
    (50, 'CLIENT_HELLO'): [List(2, U(2))], (50, 'CERTIFICATE_REQUEST'): [List(2, U(2))],
    (14, 'CLIENT_HELLO'): [List(2, U(2)), Vec(1)],
    (14, 'ENCRYPTED_EXTENSIONS'): [List(2, U(2)), Vec(1)],
    (15, 'CLIENT_HELLO'): [U(1)], (15, 'ENCRYPTED_EXTENSIONS'): [U(1)],
    (16, 'CLIENT_HELLO'): [List(2, Vec(1))], (16, 'ENCRYPTED_EXTENSIONS'): [List(2, Vec(1))],
    (18, 'CLIENT_HELLO'): [], (18, 'CERTIFICATE_REQUEST'): [],
    (18, 'CERTIFICATE'): [List(2, Vec(2))],
    (19, 'CLIENT_HELLO'): [List(1, U(1))], (19, 'ENCRYPTED_EXTENSIONS'): [U(1)],
    (20, 'CLIENT_HELLO'): [List(1, U(1))], (20, 'ENCRYPTED_EXTENSIONS'): [U(1)],
    (21, 'CLIENT_HELLO'): [Rest()],
    (41, 'CLIENT_HELLO'): [List(2, Vec(2), U(4)), List(2, Vec(1))],
    (41, 'SERVER_HELLO'): [U(2)],
    (42, 'CLIENT_HELLO'): [], (42, 'ENCRYPTED_EXTENSIONS'): [], (42, 'NEW_SESSION_TICKET'): [U(4)],
    (43, 'CLIENT_HELLO'): [List(1, U(2))],
    (43, 'SERVER_HELLO'): [U(2)], (43, 'HELLO_RETRY_REQUEST'): [U(2)],
    (44, 'CLIENT_HELLO'): [Vec(2)], (44, 'HELLO_RETRY_REQUEST'): [Vec(2)],
    (45, 'CLIENT_HELLO'): [List(1, U(1))],
    (47, 'CLIENT_HELLO'): [List(2, Vec(2))], (47, 'CERTIFICATE_REQUEST'): [List(2, Vec(2))],
    (48, 'CERTIFICATE_REQUEST'): [List(2, Vec(1), Vec(2))],
    (49, 'CLIENT_HELLO'): [],
    (51, 'CLIENT_HELLO'): [List(2, U(2), Vec(2))],
    (51, 'HELLO_RETRY_REQUEST'): [U(2)], (51, 'SERVER_HELLO'): [U(2), Vec(2)],
}
# enumerations a peer may extend: RFC 8446 4.1.2, 4.2, 4.2.1, 4.2.3, 4.2.7, 4.2.8, 4.2.9;
# RFC 7250 4.1; RFC 7301; RFC 6066 3
OPEN = {
    (10, 'CLIENT_HELLO'), (10, 'ENCRYPTED_EXTENSIONS'), (13, 'CLIENT_HELLO'),
    (13, 'CERTIFICATE_REQUEST'), (50, 'CLIENT_HELLO'), (50, 'CERTIFICATE_REQUEST'),
    (43, 'CLIENT_HELLO'), (51, 'CLIENT_HELLO'), (45, 'CLIENT_HELLO'), (19, 'CLIENT_HELLO'),
    (20, 'CLIENT_HELLO'), (16, 'CLIENT_HELLO'), (1, None),
}


class Subject:
    def __init__(self, cls, spec, parser='parse_body', serializer='serialize_body', label=None,
                 open=False):
        self.cls = cls
        self.spec = spec
        self.parser = parser
        self.serializer = serializer
        self.label = label or cls.name
        self.open = open


class Formats:
    def __init__(self, p):
        self.p = p
        self.raises = {}
        self.subjects = list(self.find())

    def code(self, c, name):
        v = self.p.find(c, name)
        return cval(v) if v is not None and has_cval(v) else None

    def find(self):
        p = self.p
        for c in sorted(p.classes.values(), key=lambda c: c.qual):
            if c.qual.startswith('<dyn') or is_abstract(p, c):
                continue
            names = p.mro_names(c)
            if HANDSHAKE in names:
                mt = p.find(c, 'msg_type')
                if mt is None or c.qual == HANDSHAKE:
                    continue
                n = getattr(mt, 'a', (None, None))[1] if mt.k == 'enum' else None
                key = 'retry' if n == 'HELLO_RETRY_REQUEST' else cval(mt)
                spec = HANDSHAKES.get(key)
                if spec is not None:
                    yield Subject(c, spec, open=key == 1)
            elif EXTENSION in names and c.qual != EXTENSION:
                code = self.code(c, 'extension_type')
                types = p.find(c, '_handshake_types')
                if code is None or types is None or any(
                        x is not c and EXTENSION in p.mro_names(x) and not x.qual.startswith('<dyn')
                        for x in c.subclasses):
                    continue
                specs = {}
                for t in types.a:
                    s = EXTENSIONS.get((code, t.a[1]))
                    if s is not None:
                        specs.setdefault(repr_of(s), (s, (code, t.a[1])))
                for s, key in specs.values():
                    yield Subject(c, s, label=f'{c.name} ({key[1].lower()})' if len(specs) > 1
                                  else c.name, open=key in OPEN)
            elif CONTENT in names and ALERT not in names:
                spec = {20: [U(1, 1)], 23: [Rest()], 24: [U(1), Vec(2), Rest()]}.get(
                    self.code(c, 'content_type'))
                if spec is not None:
                    yield Subject(c, spec, 'parse', 'serialize')
            elif ENTRY in names and c.qual != ENTRY:
                yield Subject(c, [Vec(3), EXTS], 'parse', 'serialize')
            elif self.p.find(c, 'name_type') is not None and \
                    p.find(c, 'parse') is not None and p.find(c, 'name_type').k == 'enum':
                yield Subject(c, [U(1, 0), Vec(2)], 'parse', 'serialize')

    # ------------------------------------------------------------ nested parsers
    def nested(self, subject):
        """the other parsers, hooked: {function: (token, what it raises)}"""
        p = self.p
        mine = {p.find(subject.cls, m).a[0].qual for m in ('parse', 'parse_body')
                if p.find(subject.cls, m) is not None}
        out = {}
        for c in p.classes.values():
            f = c.ns.get('parse')
            if f is None or f.k != 'func' or not c.qual.startswith('siotls.contents') or \
                    f.a[0].qual in mine:
                continue
            out[f.a[0].qual] = c.qual
        # the message or extension around it
        for q in (HANDSHAKE + '.parse', EXTENSION + '.parse'):
            out.setdefault(q, q[:-6])
        return out

    KW = ('config', 'nconfig')

    def kwargs(self):
        return {k: sym(k) for k in self.KW}

    def run_parser(self, subject):
        w = Wire(self.p, self.nested(subject), raises=self.raised)
        s, outs = w.parse(subject.cls, subject.parser, self.kwargs())
        return w, s, outs

    def run_serializer(self, subject, name=None):
        w = Wire(self.p, raises=self.raised)
        oid, outs = w.serialize(subject.cls, name or subject.serializer)
        return w, oid, outs

    def raised(self, qual):
        """what may escape from a hooked parser"""
        if qual in self.raises:
            return self.raises[qual]
        self.raises[qual] = set()
        if qual == EXTENSION:
            out = {'siotls.contents.alerts.DecodeError', BUFFER}
        else:
            out = set()
            for s in self.subjects:
                if qual in self.p.mro_names(s.cls):
                    _, _, outs = self.run_parser(s)
                    out |= {exc_name(self.p, o.st, o.val) for o in outs if o.kind == 'raise'}
            out = out or {'siotls.contents.alerts.DecodeError', BUFFER}
        self.raises[qual] = out
        return out


def repr_of(spec):
    return [(type(s).__name__, s.n if not isinstance(s, Obj) else s.name,
             repr_of(s.items) if hasattr(s, 'items') else None) for s in spec].__repr__()

