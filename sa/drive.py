"""Drives the interpreter over the connection and its states.

The connection is explored as a typestate machine: every state class reached
from TLSConnection.__init__ is entered with a connection whose fields are
unknown (only their class, None-ness and constants are kept), and its
process() is analysed for every class of message the peer can send.
"""
import re

from .interp import RAISED, AnalysisError, Interp, Obj, show_exc
from .terms import FALSE, NONE, TRUE, V, const, contains, mk, phi, show, sym

CONN = 'siotls.connection.TLSConnection'
CONFIG = 'siotls.configuration.TLSConfiguration'
STATE = 'siotls.states.State'
CONTENT = 'siotls.contents.Content'
HANDSHAKE = 'siotls.contents.handshakes.Handshake'
EXTENSION = 'siotls.contents.handshakes.extensions.Extension'
ALERT = 'siotls.contents.alerts.Alert'


def is_abstract(p, ci):
    return bool(p.abstract_methods(ci))


class Run:
    """one analysed (state, message) pair"""
    def __init__(self, side, entry, state, content, outs):
        self.side, self.entry, self.state, self.content, self.outs = (
            side, entry, state, content, outs)


class Driver:
    SETTLED = ('Connected', 'Closed', 'Failed')     # no use of the message log there
    KEEP = {'send', 'op', 'processing', 'fails'}

    def __init__(self, p, limit=1, keep=None, joinkey=None):
        self.p = p
        kinds = keep or self.KEEP
        self.I = Interp(p, limit=limit, keep=lambda ev: ev.kind in kinds or (
            ev.kind == 'mutate' and ev.args[0].k == 'obj'
            and str(ev.args[0].a[0]).startswith('conn._') and ev.args[0].a[1:] == (1,)
            and isinstance(ev.x, str) and ev.x == ev.args[0].a[0]))
        self.I.joinkey = joinkey or self.joinkey
        self.I.models.update(self.models())
        self.I.xmodels['field'] = self.field
        self.conn_cls = p.clsv(CONN)
        self.config_v = mk('obj', 'config', 0)
        self.conn_v = mk('obj', 'conn', 0)
        self.origin = {}     # where an exception was first raised
        self.I.monitors.append(self.m_origin)

    def m_origin(self, I, st, ev):
        if ev.kind == 'raise' and ev.args[0] not in self.origin:
            self.origin[ev.args[0]] = (ev.loc, ev.fn)

    def raised_at(self, exc, st):
        """where the exception of an outcome was first raised"""
        o = st.heap.get(exc) if exc.k == 'obj' else None
        v = o.attrs.get(RAISED) if o is not None else None
        return tuple(v.a) if v is not None and v.k == 'at' else self.origin.get(exc)

    def joinkey(self, st):
        """facts about the configuration survive joins"""
        o = st.heap.get(self.conn_v)
        state = st.heap.get(o.attrs.get('_state')) if o is not None else None
        log = ()
        if state is not None and state.cls.k == 'cls' and \
                state.cls.a[0].name not in self.SETTLED:
            # what was said is never mixed up
            log = frozenset(x.items for x in st.heap.values()
                            if x.kind == 'hash')
        return (state.cls if state is not None else None, log, self.identity(st),
                frozenset((c, b) for c, b in st.facts.items() if self.about_config(c)))

    def identity(self, st):
        """how the peer identified itself, once it did"""
        o = st.heap.get(self.conn_v)
        n = st.heap.get(o.attrs.get('nconfig')) if o is not None else None
        if n is None:
            return None
        return tuple((k, v is NONE) for k, v in sorted(n.attrs.items())
                     if IDENTITY.search('.' + k))

    def about_config(self, c):
        return c.k == 'fld' and c.a[0] is self.config_v and c.a[1] in (
            'require_peer_authentication', 'trust_store', 'trusted_public_keys')

    # ------------------------------------------------------------ models
    def models(self):
        m = {
            CONN + '._send_content': self.m_send,
            '.get': self.m_get,
        }
        for f in ('siotls.crypto.ocsp.make_ocsp_request', 'siotls.crypto.ocsp.validate_ocsp',
                  'siotls.crypto.ocsp.get_ocsp_url'):
            m[f] = self.opaque
        for c in self.p.classes.values():
            mod = c.module.name
            if mod in ('siotls.crypto.key_exchanges', 'siotls.crypto.signatures'):
                for n, v in c.ns.items():
                    if v.k == 'func':
                        m[v.a[0].qual] = self.opaque
                if any(b.k == 'cls' for b in c.mro[1:]) or True:
                    m[c.qual] = self.opaque_new
        return m

    RAISES = {
        'siotls.crypto.ocsp.validate_ocsp': ['builtins.ValueError'],
        # ValueError: a key too small for the digest of the scheme
        'verify': ['cryptography.exceptions.InvalidSignature', 'builtins.ValueError'],
        'resume': ['builtins.ValueError'],
    }

    def opaque(self, I, st, fi, args, kws, n):
        st, i = I.fresh(st)
        if fi.kind == 'class' or fi.kind == 'static':
            res = mk('call', fi.qual, tuple(args), tuple(sorted(kws.items())), i)
        else:
            res = mk('call', fi.qual, tuple(args), tuple(sorted(kws.items())))
        st = I.emit(st, 'op', fi.qual, tuple(args), res, n, tuple(sorted(kws.items())))
        for e in self.RAISES.get(fi.qual, self.RAISES.get(fi.name, ())):
            I.raise_ext(I.emit(st, 'fails', fi.qual, tuple(args), res, n), e, n)
        if fi.name == 'init':
            res = mk('tuple', mk('item', res, const(0)), mk('item', res, const(1)))
        return [(st, res)]

    def opaque_new(self, I, st, cv, args, kws, n):
        st, oid = I.new(st, Obj(cv, 'instance', {'__args__': mk('tuple', *args)}, open=True,
                                name=('new', cv, tuple(args))), cv.a[0].name)
        st = I.emit(st, 'new', cv.a[0].qual, (oid, *args), oid, n, tuple(sorted(kws.items())))
        return [(st, oid)]

    def m_send(self, I, st, fi, args, kws, n):
        conn, content = args[0], args[1] if len(args) > 1 else kws['content']
        o = st.heap.get(content)
        st = I.emit(st, 'send', o.cls.a[0].name if o is not None and o.cls else show(content),
                    (conn,), None, n, content)
        if o is not None and o.cls is not None and o.cls.k == 'cls' and self.p.is_subclass(
                o.cls, HANDSHAKE):
            out = []
            for s, tr in I.getattr(st, conn, '_transcript', n):
                for s2, side in I.getattr(s, conn, 'config', n):
                    for s3, sd in I.getattr(s2, side, 'side', n):
                        mt = self.p.find(o.cls.a[0], 'msg_type')
                        out += I.call_func(s3, self.p.func(
                            'siotls.transcript.Transcript.update').a[0],
                            [tr, mk('ser', o.cls.a[0].name), sd, mt], {}, n)
            return [(s, NONE) for s, _ in out]
        return [(st, NONE)]

    def m_get(self, I, st, b, name, args, kws, n):
        o = st.heap.get(b) if b.k == 'obj' else None
        if o is None or o.kind != 'extmap':
            return None
        key = args[0]
        default = args[1] if len(args) > 1 else NONE
        if key.k == 'phi':
            out = []
            for x in key.a:
                out += self.m_get(I, I.replace_everywhere(st, key, x), b, name,
                                  [x, *args[1:]], kws, n)
            return out
        if key.k != 'enum':
            raise AnalysisError(f'extension lookup with unknown key {show(key)}')
        cur = o.attrs.get('@' + key.a[1])
        if cur is not None:
            return [(st, default if cur is NONE else cur)]
        cls = self.ext_class(key, o.name[1])
        inn = mk('cmp', 'in', key, b)
        forced = I.oracle(inn, st) if I.oracle is not None else None
        out = []
        if forced is not True:
            s0 = I.assume(st, inn, False, n)
            s0 = s0.setobj(b, o.with_attr('@' + key.a[1], NONE))
            out.append((s0, default))
        if cls is not None and forced is not False:
            s1 = I.assume(st, inn, True, n)
            oid = mk('obj', f'ext:{key.a[1]}', b)
            s1 = s1.setobj(oid, Obj(cls, 'instance', {}, open=True, name=('ext', key.a[1])))
            s1 = s1.setobj(b, s1.heap[b].with_attr('@' + key.a[1], oid))
            out.append((s1, oid))
        return out

    def ext_registry(self):
        """{(ExtensionType name, handshake name): class V}"""
        reg = self.p.modules['siotls.contents.handshakes.extensions'].ns.get('_extension_registry')
        if reg is None:
            reg = self.find_registry('ExtensionType')
        o = self.p.state.heap[reg]
        out = {}
        for k, v in o.items:
            for hk, cv in self.p.state.heap[v].items:
                out[(k.a[1], hk.a[1])] = cv
        return out

    def find_registry(self, enum):
        for m in self.p.modules.values():
            for v in m.ns.values():
                if v.k == 'obj' and v in self.p.state.heap:
                    o = self.p.state.heap[v]
                    if o.kind == 'dict' and o.items and all(
                            k.k == 'enum' and k.a[0].name == enum for k, _ in o.items):
                        return v
        raise AnalysisError(f'no registry keyed by {enum}')

    def ext_class(self, key, hs):
        reg = self.ext_registry()
        return reg.get((key.a[1], hs)) or reg.get((key.a[1], 'ANY'))

    def field(self, I, st, b, o, name):
        if o.name == 'content' and name == 'extensions':
            mt = self.p.find(o.cls.a[0], 'msg_type')
            oid = mk('obj', 'extmap', b)
            st = st.setobj(oid, Obj(mk('ext', 'builtins.dict'), 'extmap', {}, open=True,
                                    name=('extmap', mt.a[1])))
            return st, oid
        return None

    # ------------------------------------------------------------ contents
    def content_classes(self):
        """concrete classes a parsed message can have"""
        hs, others, alerts = [], [], []
        for c in self.p.classes.values():
            if c.qual.startswith('<dynamic>'):
                continue
            names = self.p.mro_names(c)
            if CONTENT not in names or is_abstract(self.p, c) or c.qual in (
                    CONTENT, HANDSHAKE, ALERT):
                continue
            if HANDSHAKE in names:
                if self.p.find(c, 'msg_type') is not None:
                    hs.append(c)
            elif ALERT in names:
                if not any(s is not c for s in c.subclasses):
                    alerts.append(c)
            else:
                others.append(c)
        return hs, alerts, others

    # ------------------------------------------------------------ connection
    def base(self, side):
        st = self.p.state.copy()
        st = st.setobj(self.config_v, Obj(self.p.clsv(CONFIG), 'instance',
                                          {'side': const(side)}, open=True, name='config'))
        return st

    def init(self, side):
        """connections as left by TLSConnection.__init__"""
        st = self.base(side)
        host = sym('server_hostname')
        if side == 'server':
            host = NONE
        outs = self.I.run(st, lambda s: self.I.call(
            s, self.conn_cls, [self.config_v], {'server_hostname': host,
                                                'ocsp_service': sym('ocsp_service')}, None))
        return [o for o in outs if o.kind == 'return']

    def conn_of(self, st):
        for oid, o in st.heap.items():
            if o.kind == 'instance' and o.cls is self.conn_cls:
                return oid
        raise AnalysisError('no connection object')

    def abstract(self, st, conn, side):
        """forget values; keep classes, None-ness, constants and the message log"""
        I, p = self.I, self.p
        n = self.base(side)
        keep = {}
        co = st.heap[conn]
        conn_v = self.conn_v
        settled = self.state_of(st, conn) in self.SETTLED

        no = st.heap.get(co.attrs.get('nconfig'))
        names = {x: sym(f'conn.nconfig.{k}') for k, x in sorted(no.attrs.items())
                 if x.k not in ('const', 'enum', 'phi')} if no is not None else {}

        def which(cls, path):
            """one class out of a table: by what name it was looked up"""
            if cls.k != 'anycls':
                return cls
            return mk('anycls', cls.a[0], names.get(cls.a[1]) or sym(f'{path}.class'),
                      *cls.a[2:])

        def known(x, path):
            """constants stay, what can be nothing stays that"""
            if x.k in ('const', 'enum'):
                return x
            if x.k == 'phi' and any(y.k in ('const', 'enum') for y in x.a):
                return phi([y if y.k in ('const', 'enum') else sym(path) for y in x.a])
            return sym(path, 'set') if IDENTITY.search(path) else sym(path)

        def ab(v, path, depth=0):
            nonlocal n
            if v is conn:
                return conn_v
            if v in keep:
                return keep[v]
            if v.k in ('const', 'enum', 'cls', 'ext', 'func', 'anycls'):
                return v
            if v.k == 'obj' and p.base_heap.get(v) is not None:
                return v
            if v is self.config_v:
                return v
            o = st.heap.get(v) if v.k == 'obj' else None
            if v.k == 'phi' and all(x.k == 'obj' and x in st.heap for x in v.a):
                os_ = [st.heap[x] for x in v.a]
                if all(x.cls is os_[0].cls and x.kind == os_[0].kind for x in os_):
                    o = self.I.join_obj(os_)
            if o is None:
                if has_ser(v):
                    return canon(v)
                if v.k == 'phi' and all(x.k in ('const', 'enum') for x in v.a):
                    return v
                return sym(path)
            nv = mk('obj', path, 1)
            keep[v] = nv
            if settled and o.kind == 'instance' and o.cls.k == 'cls' and \
                    o.cls.a[0].qual == 'siotls.transcript.Transcript':
                n = n.setobj(nv, Obj(o.cls, 'instance', {}, open=True, name=path))
                return nv
            if o.kind == 'instance' and o.cls.k in ('cls', 'anycls'):
                if o.cls.a[0].qual == CONFIG:
                    # the configuration may have been restricted
                    ch = {k: sym(f'{path}.{k}') for k in o.attrs if k != 'side'}
                    n = n.setobj(nv, Obj(o.cls, 'instance', {**ch, 'side': const(side)},
                                         open=True, name=('replaced', self.config_v)
                                         if o.name[0] == 'replaced' else 'config'))
                    return nv
                if p.is_subclass(o.cls, STATE) or o.cls.a[0].qual == \
                        'siotls.transcript.Transcript':
                    attrs = {}
                    n = n.setobj(nv, Obj(o.cls, 'instance', attrs, name=o.name))
                    for k, x in o.attrs.items():
                        if k in co.attrs and x is not conn and k != 'connection' \
                                and p.is_subclass(o.cls, STATE):
                            continue     # shadow copies of the connection's attributes
                        attrs[k] = ab(x, f'{o.cls.a[0].name}.{k}', depth + 1)
                    n = n.setobj(nv, Obj(o.cls, 'instance', attrs, name=o.name))
                    return nv
                cipher = p.is_subclass(o.cls, 'siotls.crypto.ciphers.TLSCipherSuite')
                attrs = {}
                if cipher:
                    for k, x in o.attrs.items():
                        attrs[k] = x if x.k in ('const', 'enum') else role(x) or sym(f'{path}.{k}')
                        if attrs[k].k == 'sym' and x.k in ('mcall', 'sym') and I.truth(x, st):
                            r = role(x.a[2][0]) if x.k == 'mcall' and x.a[2] else None
                            attrs[k] = sym(r.a[0] if r else attrs[k].a[0] if x.k == 'sym' else
                                           f'{path}.{k}', 'set')
                    secs = [(k, x) for k, x in sorted(o.attrs.items()) if x.k == 'obj'
                            and x in st.heap and st.heap[x].kind == 'instance'
                            and st.heap[x].cls.k == 'cls'
                            and any(w.k == 'enum' or role(w)
                                    for w in st.heap[x].attrs.values())]
                    for k, x in secs:
                        so = st.heap[x]
                        sv = mk('obj', f'{path}.{k}' if len(secs) > 1 else path + '.secrets', 1)
                        n = n.setobj(sv, Obj(so.cls, 'instance', {
                            q: (w if w.k in ('const', 'enum') else
                                role(w) or sym(f'{path}.secrets.{q}'))
                            for q, w in so.attrs.items()}, name='secrets'))
                        attrs[k] = sv
                    if secs:
                        n = n.setobj(nv, Obj(which(o.cls, path), 'instance', attrs, name=path))
                        return nv
                if not cipher and o.cls.k == 'cls':
                    attrs = {k: known(x, f'{path}.{k}') for k, x in o.attrs.items()}
                n = n.setobj(nv, Obj(which(o.cls, path), 'instance', attrs, open=True, name=path))
                return nv
            if o.kind == 'hash':
                log = () if settled else tuple(canon(x) for x in flat(o.items or ()))
                if len(log) > 24:
                    raise AnalysisError('the message log grows without bound: ' + ', '.join(map(show, log)))
                n = n.setobj(nv, Obj(o.cls, 'hash', {k: x if x.k == 'const' else sym(f'{path}.{k}')
                                                     for k, x in o.attrs.items()}, log, o.open, 'hash'))
                return nv
            if o.kind == 'list' and depth and o.items is not None and all(
                    x.k == 'obj' and st.heap[x].kind == 'hash' for x in o.items):
                its = tuple(ab(x, f'{path}.{i}', depth + 1) for i, x in enumerate(o.items))
                n = n.setobj(nv, Obj(o.cls, 'list', {}, its))
                return nv
            if o.kind == 'ns':
                return v
            if o.kind in ('dict', 'list') and o.items == () and not o.open:
                n = n.setobj(nv, Obj(o.cls, o.kind, {}, items=(), name=path))
                return nv
            n = n.setobj(nv, Obj(o.cls, o.kind, {}, items=None, open=True, name=path))
            return nv
        attrs = {}
        for k in sorted(co.attrs):
            attrs[k] = ab(co.attrs[k], f'conn.{k}')
        n = n.setobj(conn_v, Obj(self.conn_cls, 'instance', attrs, name='conn'))
        n.nid = max(n.nid, p.state.nid) + 1
        for v, o in st.heap.items():
            if o.kind == 'ns' and v not in n.heap:
                n = n.setobj(v, o)
        if not settled:
            for c, b in st.facts.items():
                if self.about_config(c):
                    n = n.fact(c, b)
        del I
        return n, conn_v

    def key(self, st):
        return frozenset((o, x.key()) for o, x in st.heap.items()
                         if self.p.base_heap.get(o) is not x)

    def fix_transcript(self, st, conn):
        """one representative hash object in the transcript"""
        for v in st.heap[conn].attrs.values():
            o = st.heap.get(v)
            if o is None or o.kind != 'instance' or o.cls.a[0].qual != \
                    'siotls.transcript.Transcript':
                continue
            for w in o.attrs.values():
                lo = st.heap.get(w)
                if lo is not None and lo.kind == 'list' and lo.items and any(
                        x.k == 'rep' for x in lo.items):
                    st = st.setobj(w, lo.with_items((lo.items[0].a[0],), False))
        return st

    def content(self, st, ci, extra=None, tag=None):
        oid = mk('obj', 'content', ci.name, *([tag] if tag else []))
        attrs = dict(extra or {})
        return st.setobj(oid, Obj(mk('cls', ci), 'instance', attrs, open=True, name='content')), oid

    def step(self, side, st, conn, ci, extra=None, tag=None):
        """receive one message of class ci in this abstract connection"""
        I = self.I
        st, content = self.content(st, ci, extra, tag)

        def go(s):
            sts = [s]
            if self.p.is_subclass(mk('cls', ci), HANDSHAKE) and \
                    self.state_of(s, conn) not in self.SETTLED:
                tr = s.heap[conn].attrs['_transcript']
                mt = self.p.find(ci, 'msg_type')
                sts = [x for x, _ in I.call_func(s, self.p.func(
                    'siotls.transcript.Transcript.update').a[0],
                    [tr, mk('msg', ci.name),
                     const('server' if side == 'client' else 'client'), mt], {}, None)]
            out = []
            for x in sts:
                state = x.heap[conn].attrs['_state']
                x = I.emit(x, 'processing', ci.name, (state,))
                for s2, f in I.getattr(x, state, 'process', None):
                    out += I.call(s2, f, [content], {}, None)
            return out
        return self.merge(I.run(st, go))

    def statekey(self, side, st, conn):
        """what tells two abstract connections apart: state class and message log"""
        log = set()
        state = st.heap[st.heap[conn].attrs['_state']]
        scls = state.cls
        flags = ()
        if scls.a[0].name in self.SETTLED:
            flags = tuple(sorted((k, v) for k, v in state.attrs.items()
                                 if v.k == 'const' and isinstance(v.a[1], bool)))
        todo, seen = [conn], set()
        if scls.a[0].name in self.SETTLED:
            todo = []
        while todo:
            v = todo.pop()
            o = st.heap.get(v)
            if v in seen or o is None or self.p.base_heap.get(v) is o:
                continue
            seen.add(v)
            if o.kind == 'hash':
                log.add(o.key())
            todo += [x for x in o.attrs.values() if x.k == 'obj']
            todo += [x for x in (o.items or ()) if isinstance(x, V) and x.k == 'obj']
        return side, scls, frozenset(log), flags, scls.a[0].name not in self.SETTLED and (
            self.identity(st), frozenset((c, b) for c, b in st.facts.items()
                                         if self.about_config(c)))

    def merge(self, outs):
        """join the outcomes that no rule tells apart"""
        from .interp import Out
        groups = {}
        for o in outs:
            if o.kind == 'return':
                k = (o.kind, None)
            else:
                k = (o.kind, show_exc(o.val, o.st), self.raised_at(o.val, o.st))
            groups.setdefault((*k, o.st.trkey(), self.joinkey(o.st)), []).append(o)
        return [Out(g[0].kind, self.I.join([o.st for o in g]), g[0].val) for g in groups.values()]

    def explore(self, maxentries=120):
        """-> list of Run, one per reachable (abstract connection, message class)"""
        hs, alerts, others = self.content_classes()
        self.entries, runs, work = {}, {}, []
        self.growth = {}

        def reach(side, st, conn):
            if self.said(st, conn, 'HelloRetryRequest') > 1:
                return      # never allowed (P10, P20), and could go on forever
            k = self.statekey(side, st, conn)
            old = self.entries.get(k)
            if old is not None:
                j = self.I.join([old[1], st])
                if self.key(j) == self.key(old[1]):
                    return
                self.growth[k] = self.growth.get(k, 0) + 1
                if self.growth[k] > 20:
                    diff = [f'{show(o)}: {dict((a, show(v)) for a, v in x.attrs.items() if old[1].heap[o].attrs.get(a) is not v)} {x.items != old[1].heap[o].items and x.items}' for o, x in j.heap.items() if o not in old[1].heap or x.key() != old[1].heap[o].key()]
                    raise AnalysisError(f'no fixpoint for {show(k[1])}: {diff}')
                st = j
            self.entries[k] = (side, st, conn)
            if len(self.entries) > maxentries:
                raise AnalysisError('too many abstract connection states')
            if k not in work:
                work.append(k)

        for side in ('client', 'server'):
            ini = {}
            for o in self.init(side):
                conn = self.conn_of(o.st)
                st, cv = self.abstract(self.fix_transcript(o.st, conn), conn, side)
                k = self.statekey(side, st, cv)
                ini[k] = (self.I.join([ini[k][0], st]) if k in ini else st, cv)
            for k, (st, cv) in ini.items():
                # initiate_connection() starts the handshake
                outs = self.I.run(st, lambda s, cv=cv: [
                    y for s2, f in self.I.getattr(s, s.heap[cv].attrs['_state'],
                                                  'initiate_connection', None)
                    for y in self.I.call(s2, f, [], {}, None)])
                outs = self.merge(outs)
                runs[k, None] = Run(side, st, self.state_of(st, cv), 'initiate_connection', outs)
                for q in outs:
                    if q.kind == 'return':
                        reach(side, *self.abstract(q.st, cv, side))
        while work:
            k = work.pop(0)
            side, st, conn = self.entries[k]
            sname = self.state_of(st, conn)
            for ci in [*hs, *others, *alerts]:
                outs = self.step(side, st, conn, ci)
                runs[k, ci] = Run(side, st, sname, ci.name, outs)
                for q in outs:
                    if q.kind == 'return':
                        reach(side, *self.abstract(q.st, conn, side))
            for name, args in self.API:
                outs = self.api_call(st, conn, name, args)
                runs[k, name] = Run(side, st, sname, name + '()', outs)
                for q in outs:
                    if q.kind == 'return':
                        reach(side, *self.abstract(q.st, conn, side))
        self.api = [r for (k, c), r in runs.items() if isinstance(c, str)]
        return [r for (k, c), r in runs.items() if not isinstance(c, str)]

    def said(self, st, conn, name):
        """how many times a message is in the log"""
        def count(items):
            return sum(x.a[0] == name if x.k in ('ser', 'msg') else count(flat(x.a))
                       if x.k in ('digest', 'concat') else 0 for x in items)
        return max((count(flat(map(canon, o.items)))
                    for o in st.heap.values() if o.kind == 'hash' and o.items), default=0)

    API = (('send_data', (sym('data'),)), ('close_sending_end', ()), ('close_receiving_end', ()),
           ('initiate_connection', ()), ('rekey', ()), ('data_to_read', ()), ('data_to_send', ()),
           ('is_connected', ()), ('is_post_handshake', ()))

    def api_call(self, st, conn, name, args):
        """a public call, with the real path to the wire"""
        I = self.I
        send = I.models.pop(CONN + '._send_content')
        I.models['*.serialize'] = self.m_serialize
        try:
            outs = I.run(st, lambda s: [y for s2, f in I.getattr(s, conn, name, None)
                                        for y in I.call(s2, f, list(args), {}, None)])
        finally:
            I.models[CONN + '._send_content'] = send
            del I.models['*.serialize']
        return self.merge(outs)

    def m_serialize(self, I, st, fi, args, kws, n):
        o = st.heap.get(args[0])
        name = o.cls.a[0].name if o is not None and o.cls is not None else '?'
        return [(I.emit(st, 'send', name, (args[0],), None, n), mk('ser', name))]

    def log_of(self, st, conn):
        """the handshake messages the transcript covers"""
        out = []
        for v in self.transcripts(st, conn):
            for w in st.heap[v].attrs.values():
                lo = st.heap.get(w)
                if lo is not None and lo.kind == 'list':
                    out += [st.heap[x].items for x in lo.items or () if x in st.heap]
        if not out or any(x != out[0] for x in out):
            raise AnalysisError('no single message log')
        return tuple(x for x in flat(out[0]) if x.k != 'const' or x.a[1])

    def transcripts(self, st, conn):
        return [v for v in st.heap[conn].attrs.values() if v in st.heap
                and st.heap[v].kind == 'instance'
                and st.heap[v].cls.k == 'cls'
                and st.heap[v].cls.a[0].qual == 'siotls.transcript.Transcript']

    def state_of(self, st, conn):
        v = st.heap[conn].attrs['_state']
        o = st.heap.get(v)
        if o is None:
            return show(v)
        return o.cls.a[0].name


def flat(items):
    for x in items:
        if x.k == 'concat':
            yield from flat(x.a)
        else:
            yield x


def canon(v):
    """what stays of a hashed value: which messages it covers"""
    if v.k in ('ser', 'msg'):
        return mk(v.k, v.a[0])
    if v.k == 'const':
        return v
    if v.k == 'digest' or v in (sym('hash length'), sym('data')):
        return v
    if v.k == 'call' and v.a[0] == 'hash':
        return mk('digest', *[canon(x) for x in flat(v.a[1][1:]) if x.k != 'const' or x.a[1]])
    if v.k == 'phi':
        vs = dict.fromkeys(canon(x) for x in v.a)
        return next(iter(vs)) if len(vs) == 1 else mk('phi', *vs)
    if v.k == 'be' and (v.a[0].k, v.a[0].a[1:2]) == ('attr', ('digest_size',)):
        return sym('hash length')
    out = []

    def walk(x):
        if x.k in ('ser', 'msg'):
            out.append(mk(x.k, x.a[0]))
        elif x.k == 'digest' or x.k == 'call' and x.a[0] == 'hash':
            out.append(canon(x))
        elif isinstance(x, V):
            for y in x.a:
                if isinstance(y, V):
                    walk(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, V):
                            walk(z)
    walk(v)
    return mk('digest', *dict.fromkeys(out)) if out else sym('data')


# certificates and keys: objects of a library, never false
IDENTITY = re.compile(r'\.peer_\w*(certificate|public_key)$')
LABEL = re.compile(rb'tls13 ([ a-z]+)')


def role(v):
    """which secret of the key schedule a term is: 'finished<s hs traffic'"""
    if v.k == 'sym':
        return v if str(v.a[0]).startswith('secret:') else None
    names = _roles(v)
    # a key stretched zero times (unknown digest size) says nothing of its origin
    names = {x for x in names if '?' not in x} or names
    if len(names) == 1:
        return sym('secret:' + next(iter(names)))
    return None


def _roles(v):
    if v.k in ('phi', 'concat'):
        return {r for x in v.a for r in _roles(x)}
    if v.k in ('slice', 'rep'):
        return _roles(v.a[0])
    if v.k == 'sym' and str(v.a[0]).startswith('secret:'):
        return {v.a[0][7:]}
    if v.k != 'call' or v.a[0] != 'hmac.digest':
        return set()
    key, data, _alg = v.a[1]
    txt = b''.join(x.a[1] for x in (data.a if data.k == 'concat' else (data,))
                   if x.k == 'const' and isinstance(x.a[1], bytes))
    m = LABEL.search(txt)
    if not m:
        return {'extract'}
    return {m[1].decode() + ('' if sub == 'extract' else '<' + sub)
            for sub in _roles(key) or {'?'}}


def has_ser(v):
    return contains(v, lambda x: x.k in ('ser', 'msg'))


_ = (FALSE, TRUE)
