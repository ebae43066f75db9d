"""Negotiation: which values a connection settles on, and under which tests."""
from .drive import CONFIG, Driver
from .interp import show_exc
from .terms import mk, walk

CT = ('client_certificate_type', 'server_certificate_type')


class Param:
    """one negotiated value

    own: fields of the configuration that bound it; msg/ext/fields: where the peer names it
    """
    def __init__(self, name, own, ext, fields, alert):
        self.name, self.own, self.ext, self.fields, self.alert = name, own, ext, fields, alert


SERVER = [
    Param('cipher_suite', ('cipher_suites',), None, ('cipher_suites',), 'HandshakeFailure'),
    Param('key_exchange', ('key_exchanges',), 'SUPPORTED_GROUPS', ('named_group_list',),
          'HandshakeFailure'),
    Param('signature', ('signature_algorithms',), 'SIGNATURE_ALGORITHMS',
          ('supported_signature_algorithms',), 'HandshakeFailure'),
    Param('alpn', ('alpn',), 'APPLICATION_LAYER_PROTOCOL_NEGOTIATION', ('protocol_name_list',),
          'NoApplicationProtocol'),
    Param('server_certificate_type', ('certificate_types',), 'SERVER_CERTIFICATE_TYPE',
          ('certificate_types',), 'UnsupportedCertificate'),
    Param('client_certificate_type', ('peer_certificate_types',), 'CLIENT_CERTIFICATE_TYPE',
          ('certificate_types',), 'UnsupportedCertificate'),
]
CLIENT = [
    Param('alpn', ('alpn',), 'APPLICATION_LAYER_PROTOCOL_NEGOTIATION', ('protocol_name_list',),
          'IllegalParameter'),
    Param('max_fragment_length', ('max_fragment_length',), 'MAX_FRAGMENT_LENGTH', ('octets', 'code'),
          'IllegalParameter'),
    Param('server_certificate_type', ('peer_certificate_types',), 'SERVER_CERTIFICATE_TYPE',
          ('certificate_type',), 'IllegalParameter'),
    Param('client_certificate_type', ('certificate_types',), 'CLIENT_CERTIFICATE_TYPE',
          ('certificate_type',), 'IllegalParameter'),
]


def of_config(d, v, names):
    """the term is (a copy of) one of these fields of the connection's configuration"""
    for x in walk(v):
        if x.k == 'fld' and x.a[0].k == 'obj' and x.a[1] in names and (
                x.a[0] is d.config_v or str(x.a[0].a[0]).startswith('conn.config')
                or 'TLSConfiguration' in str(x.a[0].a[0])):
            return True
        if x.k == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith('conn.config.') and \
                x.a[0][12:] in names:
            return True
    return False


def in_message(v, ext=None):
    """the term comes out of the message being processed (out of this extension of it)"""
    for x in walk(v):
        if x.k == 'obj':
            if ext is None:
                if x.a[0] == 'content':
                    return True
            elif x.a[0] == 'ext:' + ext and x.a[1].k == 'obj':
                return True
        elif x.k == 'loopv' and ext is not None and ('ext:' + ext) in repr(x.a):
            return True
        elif x.k == 'loopv' and ext is None and 'content' in repr(x.a):
            return True
    return False


def has_ext(d, st, ext, tag=None):
    """what the path knows of the presence of an extension of the message"""
    for c, b in st.facts.items():
        if c.k == 'cmp' and c.a[0] == 'in' and c.a[1].k == 'enum' and c.a[1].a[1] == ext and \
                c.a[2].k == 'obj' and c.a[2].a[0] == 'extmap' and (
                    tag is None or c.a[2].a[1].a[-1] == tag):
            return b
    return None


def nconfig(d, st, conn):
    o = st.heap.get(conn)
    n = st.heap.get(o.attrs.get('nconfig')) if o is not None else None
    return n


class Nego(Driver):
    """paths that settle a parameter on different values stay apart"""
    KEEP = Driver.KEEP | {'catch'}

    def __init__(self, p, base):
        super().__init__(p)
        self.config_v, self.conn_v = base.config_v, base.conn_v
        self.watch = None
        for name in ('certificate_types', 'peer_certificate_types'):
            v = p.find(p.cls(CONFIG), name)
            fi = getter(v)
            if fi is not None:
                self.I.models[fi.qual] = self.types(name)

    def types(self, name):
        """the lists of certificate types are looked at apart, see certificate_types()"""
        def model(I, st, fi, args, kws, n):
            return [(st, mk('fld', args[0], name))]
        return model

    def redo(self, r):
        """a run of the base driver, again"""
        if r.content == 'initiate_connection':
            return self.merge(self.I.run(r.entry, lambda s: [
                y for s2, f in self.I.getattr(s, s.heap[self.conn_v].attrs['_state'],
                                              'initiate_connection', None)
                for y in self.I.call(s2, f, [], {}, None)]))
        ci = next(c for cs in self.content_classes() for c in cs if c.name == r.content)
        return self.step(r.side, r.entry, self.conn_v, ci)

    def joinkey(self, st):
        k = super().joinkey(st)
        n = nconfig(self, st, self.conn_v)
        if self.watch and n is not None:
            k = (k, n.attrs.get(self.watch.name), has_ext(self, st, self.watch.ext))
        return k


def getter(v):
    """the function behind a property"""
    for x in walk(v) if v is not None else ():
        if x.k == 'func':
            return x.a[0]
    return None


def own_term(d, param, v):
    return of_config(d, v, param.own) and not in_message(v)


def oracle(d, param, common, extra=()):
    """the peer sends the extension, this side wants the parameter, and the tests that ask
    whether a value is in both offers all have this outcome"""
    def ask(v, st):
        for pred, res in extra:
            if pred(v):
                return res
        if v.k == 'fld' and of_config(d, v, param.own):
            return True
        if v.k != 'cmp' or v.a[0] not in ('in', '=='):
            return None
        a, b = v.a[1:]
        if a.k == 'enum' and b.k == 'obj' and b.a[0] == 'extmap':
            return True if a.a[1] == param.ext else None
        for x, y in ((a, b), (b, a)):
            if own_term(d, param, x) and in_message(y, param.ext):
                return common
        return None
    return ask


def member(st, v, pred):
    """v is (an element of) something that satisfies pred, or was found in or equal to it"""
    if v.k == 'elem' and pred(v.a[0]) or v.k in ('item', 'fld', 'sym', 'elemkey') and pred(v):
        return True
    for c, b in st.facts.items():
        if b and c.k == 'cmp' and c.a[0] in ('in', '==', 'is'):
            if c.a[1] is v and pred(c.a[2]):
                return True
            if c.a[0] != 'in' and c.a[2] is v and pred(c.a[1]):
                return True
    return False


def sent(st, name):
    return [e for e in st.events() if e.kind == 'send' and e.name == name and e.x is not None]




def since(st):
    """the events of the last message"""
    evs = list(st.events())
    for i in range(len(evs) - 1, -1, -1):
        if evs[i].kind == 'processing':
            return evs[i:]
    return evs


def sends(st, *names):
    return [e for e in since(st) if e.kind == 'send' and e.x is not None and e.name in names]


def extension_of(D, st, msg, etype):
    """the extension object of a message that is sent"""
    for v in st.heap[msg].attrs.values():
        m = st.heap.get(v) if v.k == 'obj' else None
        if m is None or m.kind != 'dict' or not m.items:
            continue
        for _, x in m.items:
            eo = st.heap.get(x)
            if eo is None or eo.cls is None or eo.cls.k != 'cls':
                continue
            t = D.p.find(eo.cls.a[0], 'extension_type')
            if t is not None and t.k == 'enum' and t.a[1] == etype:
                return eo
    return None


def says(st, v, w, pred=None):
    """the path found v and w (or something that satisfies pred) to be equal"""
    for c, b in st.facts.items():
        if b and c.k == 'cmp' and c.a[0] in ('==', 'is') and v in c.a[1:]:
            y = c.a[2] if c.a[1] is v else c.a[1]
            if y is w or pred is not None and pred(y):
                return True
    return v is w or pred is not None and pred(v)


def outcomes(D, outs):
    """(outcome, kind, exception, origin)"""
    for o in outs:
        if o.kind == 'return':
            yield o, 'return', None, None
        else:
            yield o, 'raise', show_exc(o.val, o.st), D.raised_at(o.val, o.st)


def left_by(make, step, normal, forced):
    """what is left of the outcomes of a step when some tests are forced

    make() -> driver; step(D) -> outcomes; exceptions that also end a normal run are left out
    -> outcomes, whether any path refuses
    """
    D = make()
    D.I.oracle = normal
    base = {(e, loc) for o, k, e, loc in outcomes(D, step(D)) if k == 'raise'}
    D2 = make()
    D2.I.oracle = forced
    outs = list(outcomes(D2, step(D2)))
    left = [x for x in outs if x[1] == 'return' or (x[2], x[3]) not in base]
    return left, any(x[1] == 'raise' for x in outs)


def presence(v, ext):
    """the test for the presence of an extension in the message received"""
    return v.k == 'cmp' and v.a[0] == 'in' and v.a[1].k == 'enum' and v.a[1].a[1] == ext and \
        v.a[2].k == 'obj' and v.a[2].a[0] == 'extmap'


def asks(v, val, src):
    """the test whether a value that satisfies val is (one of) something that satisfies src"""
    if v.k == 'any' and len(v.a) == 1 and v.a[0].k == 'rep':
        return asks(v.a[0].a[0], val, src)
    if v.k != 'cmp' or v.a[0] not in ('in', '==', 'is'):
        return False
    a, b = v.a[1:]
    return val(a) and src(b) or v.a[0] != 'in' and val(b) and src(a)
