"""Wire formats: what a parser reads and what a serializer writes.

The stream class (siotls.serial.SerialIO) is replaced by a stream whose every
primitive records what is taken from it: `rd` (an integer, some bytes, a
vector...), `eof` (whether the stream is known to be at its end), `end`
(whether a limited region of it is), `sub` (a stream over bytes that were
read).  Everything above the primitives is interpreted from the source, and
every path of it is matched against the RFC structure, see `Match`.
"""
from .interp import Interp, Obj
from .terms import FALSE, NONE, TRUE, V, concat, const, cval, has_cval, mk, show, walk
from .terms import be as mkbe

SERIAL = 'siotls.serial'
STREAM = SERIAL + '.SerialIO'
KINDS = {'rd', 'eof', 'end', 'sub', 'cast'}
ERRORS = (SERIAL + '.MissingDataError', SERIAL + '.TooMuchDataError')


class WireInterp(Interp):
    """tells apart the tests that ask whether a region is exhausted"""

    def branch(self, v, st, node=None):
        r = region(v)
        if r is None:
            return super().branch(v, st, node)
        stream, pos, lim, when = r
        out = []
        known = st.heap[stream].attrs.get('ended') if stream in st.heap else None
        for s, b in super().branch(v, st, node):
            ended = b == when
            if known is mk('tuple', pos, lim, const(not ended)):
                continue
            s = self.emit(s, 'end', '', (stream, lim, pos, TRUE if ended else FALSE), None, node)
            if stream in s.heap:
                s = s.setobj(stream, s.heap[stream].with_attr(
                    'ended', mk('tuple', pos, lim, const(ended))))
            out.append((s, b))
        return out

    def truth(self, v, st):
        if v.k == 'enumcast' and v.a[0].k == 'cls':
            t = {bool(x.a[2]) for x in v.a[0].a[0].ns.values() if x.k == 'enum'}
            if len(t) == 1:
                return t.pop()
        return super().truth(v, st)

    def oracle(self, v, st):
        """a member of an enumeration every member of which is a key"""
        if v.k != 'cmp' or v.a[0] != 'in' or v.a[1].k != 'enumcast' or v.a[1].a[0].k != 'cls':
            return None
        o = st.heap.get(v.a[2])
        if o is None or o.kind != 'dict' or o.items is None:
            return None
        keys = {cval(k) for k, _ in o.items if has_cval(k)}
        members = {x.a[2] for x in v.a[1].a[0].a[0].ns.values() if x.k == 'enum'}
        return True if members and members <= keys else None

    def enum_call(self, st, cv, args, kws, n):
        if len(args) == 1 and not has_cval(args[0]) and args[0].k != 'phi':
            v = args[0]
            for c, t in st.facts.items():
                if c.k == 'cmp' and (c.a[0], t) in (('==', True), ('!=', False)):
                    a, b = c.a[1:]
                    if (a is v and has_cval(b)) or (b is v and has_cval(a)):
                        return super().enum_call(st, cv, [const(cval(b if a is v else a))],
                                                 kws, n)
            st = self.emit(st, 'cast', cv.a[0].name, (v, cv), None, n)
        return super().enum_call(st, cv, args, kws, n)


def tells(v):
    return [x for x in walk(v) if x.k == 'tell']


def region(v):
    """(stream, position, limit, truth value that means exhausted)"""
    if v.k == 'not':
        r = region(v.a[0])
        return r and (*r[:3], not r[3])
    if v.k == 'bool':
        return region(v.a[0])
    if v.k == 'bin' and v.a[0] == '-':
        lim, pos, when = v.a[1], v.a[2], False
    elif v.k == 'cmp' and v.a[0] in ('<', '!=', '==', '<=', '>', '>='):
        op, a, b = v.a
        if a.k == 'bin' and a.a[0] == '-' and has_cval(b) and cval(b) == 0:
            r = region(a)
            return r and (*r[:3], op in ('==', '<='))
        if a.k == 'tell':
            pos, lim, when = a, b, op in ('==', '>=')
        elif b.k == 'tell':
            pos, lim, when = b, a, op in ('==', '<=')
        else:
            return None
    else:
        return None
    if pos.k != 'tell' or lim.k != 'bin' or lim.a[0] != '+' or not any(
            t.a[0] is pos.a[0] for t in tells(lim)):
        return None
    return pos.a[0], pos.a[1], lim, when


def ascii_only(x, seq):
    if x is FALSE:
        return True
    want = True
    while x.k in ('not', 'bool'):
        want = want != (x.k == 'not')
        x = x.a[0]
    if x.k != 'cmp' or x.a[0] not in ('<', '<=', '>', '>='):
        return False
    op, a, b = x.a
    if b.k == 'elem' and has_cval(a):
        op, a, b = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op], b, a
    if not want:
        op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
    return a.k == 'elem' and a.a[0] is seq and has_cval(b) and (
        op == '<' and cval(b) <= 128 or op == '<=' and cval(b) <= 127)


def longer(st, b, k):
    """b is known to have at least k elements"""
    if k <= 0:
        return True
    size = mk('len', b)
    for c, t in st.facts.items():
        if c is b or c is size:
            if t and k == 1:
                return True
        if c.k == 'cmp':
            op, x, y = c.a
            if has_cval(x):
                op, x, y = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), y, x
            if not has_cval(y) or not isinstance(cval(y), int):
                continue
            v = cval(y)
            if x.k == 'bin' and x.a[0] == '-' and x.a[1] is size and has_cval(x.a[2]):
                v += cval(x.a[2])
            elif x is not size:
                continue
            if (op, t) in (('==', True), ('!=', False)) and v >= k or \
                    (op, t) in (('>', True), ('<=', False)) and v + 1 >= k or \
                    (op, t) in (('>=', True), ('<', False)) and v >= k or \
                    (op, t) in (('==', False), ('!=', True)) and v == 0 and k == 1:
                return True
    return False


def indexed(I, st, b, k, n):
    """one byte out of some: there has to be that many"""
    if b.k not in ('read', 'slice', 'call', 'sym', 'concat', 'meth', 'attr') or b in st.heap:
        return None
    if has_cval(k) and type(cval(k)) is int:
        need = cval(k) + 1 if cval(k) >= 0 else -cval(k)
    elif k.k == 'bin' and k.a[0] == '-' and k.a[1] is mk('len', b) and has_cval(k.a[2]):
        need = cval(k.a[2])
        for c, t in st.facts.items():      # the index was compared
            if c.k == 'cmp' and t is False and c.a[0] == '<' and has_cval(c.a[2]) and \
                    cval(c.a[2]) == 0 and c.a[1].k == 'phi' and k in c.a[1].a:
                return None
            if c.k == 'cmp' and t is True and c.a[0] == '>=' and has_cval(c.a[2]) and \
                    cval(c.a[2]) == 0 and c.a[1].k == 'phi' and k in c.a[1].a:
                return None
    else:
        return None
    if b.k == 'read' and b.a[0] == 'bytes' and has_cval(b.a[-1]) and cval(b.a[-1]) >= need:
        return None
    if not longer(st, b, need):
        I.raise_ext(st, 'builtins.IndexError', n)
    return None


class Wire:
    def __init__(self, p, hooks=(), limit=40, raises=None, skip=()):
        """hooks: {function qualified name: token}, parsed elsewhere"""
        self.p = p
        self.raises = raises
        self.force = {}
        self.dispatched = {}
        self.I = I = WireInterp(p, keep=lambda e: e.kind in KINDS, limit=limit)
        I.xmodels['getitem'] = indexed
        cls = p.classes[STREAM]
        self.cls = cls
        m = I.models
        for name in ('read', 'read_exactly', 'read_int', 'read_var', 'read_listint',
                     'read_listvar', 'is_eof', 'assert_eof', 'write_int', 'write_var',
                     'write_listint', 'write_listvar', '__init__'):
            f = p.find(cls, name)
            if f is not None and f.k == 'func' and name not in skip:
                m[f.a[0].qual] = getattr(self, 'm_' + name.strip('_'))
        for name in ('tell', 'seek', 'write', 'getvalue', 'getbuffer'):
            m['.' + name] = getattr(self, 'x_' + name)
        m['.decode'] = self.x_decode
        for q, token in dict(hooks).items():
            m[q] = self.hooked(token)

    # ------------------------------------------------------------ streams
    def stream(self, st, data, name='input'):
        oid = mk('obj', 'stream', name)
        st, lims = self.I.newlist(st, [const(float('inf'))])
        st = st.setobj(oid, Obj(mk('cls', self.cls), 'instance', {
            'data': data, 'at': const(0), '_limits': lims}, name='stream'))
        return st, oid

    def m_init(self, I, st, fi, args, kws, n):
        self_, data = args[0], (args[1] if len(args) > 1 else const(b''))
        o = st.heap[self_]
        st, lims = I.newlist(st, [const(float('inf'))])
        st = st.setobj(self_, Obj(o.cls, o.kind, {**o.attrs, 'data': data, 'at': const(0),
                                                  '_limits': lims}, o.items, o.open, o.name))
        st = I.emit(st, 'sub', '', (self_, data), None, n)
        return [(st, NONE)]

    def fail(self, st, n):
        for name in ERRORS:
            for s, e in self.I.call(st, self.p.clsv(name), [], {}, n):
                self.I.throw(s, e, n)

    def step(self, I, st, s, kind, size, n):
        """take something from the stream"""
        o = st.heap[s]
        at = o.attrs['at']
        res = self.force.get(cval(at)) if has_cval(at) and s.a[1] == 'input' else None
        if res is None:
            res = mk('read', kind, s, at, *size)
        nxt = const(cval(at) + 1) if has_cval(at) and cval(at) < 40 else mk('next', at)
        o = o.with_attr('at', nxt).with_attr('eof', NONE).with_attr('ended', NONE)
        return I.emit(st.setobj(s, o), 'rd', kind, (s, *size), res, n, x=self.top(st, o)), res

    def top(self, st, o):
        """the limit in force"""
        lims = st.heap.get(o.attrs.get('_limits'))
        return lims.items[-1] if lims is not None and lims.items else None

    def take(self, kind, nargs):
        def model(I, st, fi, args, kws, n):
            names = [a.arg for a in fi.node.args.args]
            vals = dict(zip(names, args, strict=False), **kws)
            size = [vals[x] for x in names[1:1 + nargs]]
            self.fail(st, n)
            return [self.step(I, st, args[0], kind, size, n)]
        return model

    def m_read(self, I, st, fi, args, kws, n):
        size = args[1] if len(args) > 1 else next(iter(kws.values()), NONE)
        if size is NONE:
            return [self.step(I, st, args[0], 'rest', (), n)]
        self.fail(st, n)
        # a plain read may be short
        st2, res = self.step(I, st, args[0], 'upto', (size,), n)
        return [(st2, res)]

    @property
    def m_read_exactly(self):
        return self.take('bytes', 1)

    @property
    def m_read_int(self):
        return self.take('int', 1)

    @property
    def m_read_var(self):
        return self.take('var', 1)

    @property
    def m_read_listint(self):
        return self.take('listint', 2)

    @property
    def m_read_listvar(self):
        return self.take('listvar', 2)

    def m_is_eof(self, I, st, fi, args, kws, n):
        s = args[0]
        known = st.heap[s].attrs.get('eof', NONE)
        out = []
        for v in ([known] if known in (TRUE, FALSE) else [FALSE, TRUE]):
            s2 = st.setobj(s, st.heap[s].with_attr('eof', v))
            out.append((I.emit(s2, 'eof', '', (s, v), None, n), v))
        return out

    def m_assert_eof(self, I, st, fi, args, kws, n):
        s = args[0]
        known = st.heap[s].attrs.get('eof', NONE)
        if known is not TRUE:
            for s2, e in I.call(st, self.p.clsv(ERRORS[1]), [], {}, n):
                I.throw(s2, e, n)
        if known is FALSE:
            return []
        st = st.setobj(s, st.heap[s].with_attr('eof', TRUE))
        return [(I.emit(st, 'eof', '', (s, TRUE), None, n), NONE)]

    def x_tell(self, I, st, b, name, args, kws, n):
        o = st.heap.get(b)
        if o is None or 'at' not in o.attrs:
            return None
        at = o.attrs['at']
        return [(st, at if at.k == 'endpos' else mk('tell', b, at))]

    def x_seek(self, I, st, b, name, args, kws, n):
        o = st.heap.get(b)
        if o is None or 'at' not in o.attrs or not args:
            return None
        if len(args) == 2 and has_cval(args[1]) and cval(args[1]) == 2:
            to = mk('endpos', b)
        elif args[0].k == 'tell' and args[0].a[0] is b:
            to = args[0].a[1]
        elif args[0].k == 'endpos':
            to = args[0]
        else:
            return None
        if to.k == 'endpos':
            return [(st.setobj(b, o.with_attr('at', to)), to)]
        o = o.with_attr('at', to).with_attr('eof', NONE).with_attr('ended', NONE)
        if o.attrs['at'] is not st.heap[b].attrs['at'] and st.heap[b].attrs['at'].k != 'endpos':
            st = I.emit(st, 'rd', 'seek', (b,), args[0], n)
        return [(st.setobj(b, o), args[0])]

    def x_rawread(self, I, st, b, name, args, kws, n):
        o = st.heap.get(b)
        if o is None or 'at' not in o.attrs:
            return None
        return [self.step(I, st, b, 'raw', (args[0] if args else NONE,), n)]

    def x_decode(self, I, st, b, name, args, kws, n):
        """bytes that were checked to be ASCII always decode"""
        for c, t in st.facts.items():
            if t is True and c.k == 'all' and c.a[0].k == 'rep' and c.a[0].a[1] is b and all(
                    ascii_only(x, b) for x in (
                        c.a[0].a[0].a if c.a[0].a[0].k == 'phi' else (c.a[0].a[0],))) or (
                    t is True and c.k == 'mcall' and c.a[0] == 'isascii' and c.a[1] is b):
                return [(st, mk('call', 'decoded', (b,), ()))]
        return None

    # ------------------------------------------------------------ writing
    def put(self, st, s, data):
        o = st.heap[s]
        return st.setobj(s, o.with_attr('data', concat([o.attrs['data'], data])))

    def lenof(self, I, st, v, n):
        return I.call(st, mk('ext', 'builtins.len'), [v], {}, n)

    def x_write(self, I, st, b, name, args, kws, n):
        o = st.heap.get(b)
        if o is None or 'data' not in o.attrs:
            return None
        return [(self.put(st, b, args[0]), NONE)]

    def x_getvalue(self, I, st, b, name, args, kws, n):
        o = st.heap.get(b)
        if o is None or 'data' not in o.attrs:
            return None
        return [(st, o.attrs['data'])]

    x_getbuffer = x_getvalue

    def m_write_int(self, I, st, fi, args, kws, n):
        s, size, v = args
        return [(self.put(st, s, mkbe(v, size)), NONE)]

    def m_write_var(self, I, st, fi, args, kws, n):
        s, size, v = args
        return [(self.put(s2, s, concat([mkbe(ln, size), v])), NONE)
                for s2, ln in self.lenof(I, st, v, n)]

    def m_write_listint(self, I, st, fi, args, kws, n):
        s, nlist, nitem, items = args
        body = mk('rep', mkbe(mk('elem', items, 0), nitem), items, ())
        return [(self.put(s2, s, concat([mkbe(mk('bin', '*', nitem, ln), nlist), body])), NONE)
                for s2, ln in self.lenof(I, st, items, n)]

    def m_write_listvar(self, I, st, fi, args, kws, n):
        s, nlist, nitem, items = args
        e = mk('elem', items, 0)
        out = []
        for s2, ln in self.lenof(I, st, e, n):
            body = mk('rep', concat([mkbe(ln, nitem), e]), items, ())
            for s3, total in self.lenof(I, s2, body, n):
                out.append((self.put(s3, s, concat([mkbe(total, nlist), body])), NONE))
        return out

    # ------------------------------------------------------------ hooks
    def hooked(self, token):
        def model(I, st, fi, args, kws, n):
            stream = next((a for a in [*args, *kws.values()]
                           if a in st.heap and 'at' in st.heap[a].attrs), None)
            if stream is None:
                return NotImplemented
            who = token
            if args and args[0].k == 'cls':
                who = args[0].a[0].qual
                self.dispatched[who] = args[0]
            for name in sorted(self.raises(token) if self.raises else ERRORS):
                if name.startswith('siotls.'):
                    for s, e in I.call(st, self.p.clsv(name), [], {}, n):
                        I.throw(s, e, n)
                else:
                    I.raise_ext(st, name, n)
            st2, res = self.step(I, st, stream, 'obj', (const(who),), n)
            st2 = st2.setobj(res, Obj(self.p.clsv(token), 'instance', {}, open=True, name=token))
            return [(st2, res)]
        return model

    # ------------------------------------------------------------ entry points
    def parse(self, cls, name='parse_body', kws=None, st=None):
        I = self.I
        st = st or self.p.state.copy()
        st, s = self.stream(st, mk('sym', 'input', 'bytes'))
        cv = cls if isinstance(cls, V) else mk('cls', cls)
        outs = I.run(st, lambda x: [y for s2, f in I.getattr(x, cv, name, None)
                                    for y in I.call(s2, f, [s], dict(kws or {}), None)])
        return s, outs

    def serialize(self, cls, name='serialize_body', attrs=None):
        I = self.I
        oid = mk('obj', 'subject', cls.name)
        st = self.p.state.copy().setobj(oid, Obj(mk('cls', cls), 'instance', dict(attrs or {}),
                                                 open=True, name='self'))
        return oid, I.run(st, lambda x: [y for s2, f in I.getattr(x, oid, name, None)
                                         for y in I.call(s2, f, [], {}, None)])


def exc_name(p, st, e):
    if e.k == 'exc':
        return e.a[0]
    o = st.heap.get(e)
    if o is not None and o.cls is not None and o.cls.k in ('cls', 'anycls'):
        return o.cls.a[0].qual
    return show(e)
