"""P18: the limits of the records, their fragmentation and their reassembly."""
import importlib
import operator

from sa.drive import Driver
from sa.interp import AnalysisError, Flow, Obj, show_exc
from sa.receive import Receive
from sa.spans import Lin, Space, atom
from sa.terms import NONE, V, alts, concat, const, cval, has_cval, mk, show, sym, walk

p04 = importlib.import_module('checks.p04_application_data')

ALERT = 'siotls.contents.alerts.TLSFatalAlert'
HANDSHAKE = 'Handshake'
TYPE = {'Alert': 21, HANDSHAKE: 22, 'ApplicationData': 23, 'Heartbeat': 24}   # RFC 8446 5.1, RFC 6520
COMPARE = {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge,
           '==': operator.eq, '!=': operator.ne}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
OVERHEAD = 256          # RFC 8446 5.2
LIMIT = 'max_fragment_length'

SPEC = {
    'id': 'P18', 'level': 'other',
    'technique': 'dataflow analysis: receive_data() is interpreted abstractly from arbitrary '
                 'contents of the buffers up to the first message, the pieces of the buffers that '
                 'are consumed, decrypted and delivered are compared as spans with linear bounds; '
                 'the records that sending a message emits are compared the same way, their '
                 'lengths are evaluated over the finite domain of the limits',
    'explanation': 'one obligation per record consumed and emitted, per message delivered and '
                   'per refusal, on every path from each state of the connection',
    'assumptions': ['the AEADs add exactly tag_length octets (P19)',
                    'loops over the records: any number of iterations is covered by starting '
                    'from arbitrary contents of the buffers, two are followed'],
}


def run(ctx):
    d = ctx.driver
    ctx.count('states', len(ctx.runs))
    receiving(ctx, d)
    boundary(ctx, d)
    sending(ctx, d)
    for rule, n in (('record-limit', 30), ('complete', 30), ('consumed', 30), ('delivered', 30),
                    ('nothing-between', 10), ('waits', 10), ('overflow', 8),
                    ('inner-limit', 20), ('key-boundary', 20),
                    ('fits', 30), ('covers', 30), ('never-split', 30), ('length-field', 30)):
        ctx.need(rule, n)


# ------------------------------------------------------------------ receiving
class Reader(Receive):
    def __init__(self, p):
        super().__init__(p, limit=6000)
        I = self.I
        # every iteration starts with any contents of the buffers: two are enough
        I.explicit, I.explicit_while = True, lambda n, st: bounded(I, n, st, 2)
        self.paths = []
        self._throw = I.throw
        I.throw = self.stop

    def m_parse(self, I, st, fi, args, kws, n):
        o = st.heap.get(args[1]) if len(args) > 1 else None
        data = o.attrs.get('data', NONE) if o is not None else NONE
        self.paths.append(('parse', st, (args[0].a[0].name, data), n))
        return []

    def stop(self, st, exc, node=None):
        """a fatal alert ends it"""
        if exc.k == 'obj' and exc in st.heap and st.heap[exc].cls is not None and \
                st.heap[exc].cls.k == 'cls' and ALERT in self.p.mro_names(st.heap[exc].cls.a[0]):
            self.paths.append(('alert', st, show_exc(exc, st), node))
            return
        self._throw(st, exc, node)


class Boundary(Reader):
    """the first handshake message changes the key the next records are read with"""
    def __init__(self, p):
        super().__init__(p)
        self.rest = None

    def m_parse(self, I, st, fi, args, kws, n):
        if args[0].a[0].name != HANDSHAKE:
            return []
        if CHANGED in st.heap:
            self.paths.append(('parse', st, None, n))
            return []
        ci = args[0].a[0]
        st, c = self.content(st, ci)
        return [(st, c)]

    def m_log(self, I, st, fi, args, kws, n):
        return [(st, NONE)]

    def m_aead(self, I, st, fi, args, kws, n):
        if CHANGED in st.heap:
            self.paths.append(('goes on', st, None, n))
        return []

    def m_streamop(self, I, st, fi, args, kws, n):
        return [(st, sym('stream.' + fi.name))]

    def m_process(self, I, st, fi, args, kws, n):
        """what is left of the handshake messages at that time is remembered"""
        o = st.heap[self.conn_v]
        left = tuple(value(st, o.attrs[k]) for k in self.rest)
        st = st.setobj(CHANGED, Obj(None, 'monitor', {'left': mk('tuple', *left)}, name='changed'))
        st = keyed_with(st, self.conn_v, 'new')
        return [(st, NONE)]


def empty(I, st, v):
    """the path excludes that there is something in v"""
    n = mk('len', v)
    return has_cval(v) and not cval(v) or I.truth(v, st) is False or any(
        c.k == 'cmp' and n in c.a[1:] and (
            (c.a[0], b) in (('==', True), ('!=', False)) and const(0) in c.a[1:]
            or (c.a, b) in ((('<', const(0), n), False), (('<', n, const(1)), True),
                            (('<=', const(1), n), False), (('<=', n, const(0)), True)))
        or c is n and b is False for c, b in st.facts.items())


CHANGED = mk('obj', 'monitor', 'changed')


def keyed_with(st, conn, name):
    """the state of the protection, with another key for reading"""
    c = st.heap[conn].attrs['_cipher']
    o = st.heap[c]
    key = mk('obj', 'key', name)
    st = st.setobj(key, Obj(mk('ext', 'builtins.object'), 'instance', {}, open=True, name='key'))
    attrs = {k: key if 'read' in k else v for k, v in o.attrs.items()}
    v = mk('obj', 'cipher', name)
    st = st.setobj(v, Obj(o.cls, o.kind, attrs, o.items, o.open, o.name))
    return st.setobj(conn, st.heap[conn].with_attr('_cipher', v))


def boundary(ctx, d):
    R = Boundary(ctx.p)
    ctx.extra.append(R)

    def one(sample):
        side, st, conn = sample
        o = st.heap[st.heap[conn].attrs['_state']]
        v = o.attrs.get('can_receive')
        if R.state_of(st, conn) in d.SETTLED or st.heap[conn].attrs['_cipher'] not in st.heap \
                or v is not None and v.k == 'const' and v.a[1] is False:
            return
        w = f'{side} {R.state_of(st, conn)}' + (' keyed' if p04.keyed(d, st, conn) else '')
        st, _limit, names = prepared(R, st, conn)
        st = keyed_with(st, conn, 'old')
        R.rest = names
        R.paths = []
        outs = R.receive(st, conn)
        for kind, s, x, n in [*R.paths, *(('return', o.st, None, None) for o in outs
                                          if o.kind == 'return')]:
            if CHANGED not in s.heap:
                continue
            left = [v for v in s.heap[CHANGED].attrs['left'].a if sym('input') not in walk(v)]
            if len(left) != 1:
                continue         # the message was not all there before this call
            ok = kind == 'alert' and x == 'UnexpectedMessage' or empty(R.I, s, left[0])
            ctx.check(ok, 'key-boundary', f'{w}: {kind}', 'octets of handshake messages are left '
                      'when the key changes, and accepted', R.I.loc(n, s) if n is not None else None)
    ctx.each(one, R.samples(d))


def buffers(d, st, conn):
    """the buffers of what was received and not processed"""
    own = {p04.out_buffer(d, st, conn), p04.app_buffer(d, st, conn)}
    return [k for k, v in st.heap[conn].attrs.items()
            if v not in own and v in st.heap and st.heap[v].kind == 'bytearray']


def value(st, v):
    o = st.heap.get(v)
    if o is not None and o.kind == 'bytearray':
        return concat(o.items) if not o.open else mk('unknown', v)
    return v


def prepared(R, st, conn):
    """any contents of the buffers, one limit -> (state, limit, names of the buffers)"""
    names = buffers(R, st, conn)
    for k in names:
        b = st.heap[conn].attrs[k]
        st = st.setobj(b, Obj(st.heap[b].cls, 'bytearray', dict(st.heap[b].attrs),
                              (sym('had' + k, 'bytes'),), False, st.heap[b].name))
    limit = 'configured'
    o = st.heap[conn]
    for attr, name in (('config', 'configured'), ('nconfig', 'negotiated')):
        v = o.attrs.get(attr)
        c = st.heap.get(v)
        if c is None:
            continue
        if attr == 'nconfig' and set(alts(c.attrs.get(LIMIT, NONE))) == {NONE}:
            continue
        limit = name
        w = sym('limit ' + name, 'int')
        st = st.setobj(v, Obj(c.cls, c.kind, {**c.attrs, LIMIT: w}, c.items, c.open, c.name))
        st = st.fact(mk('cmp', 'is', w, NONE), False).fact(w, True)
    return st, sym('limit ' + limit, 'int'), names


def receiving(ctx, d):
    R = Reader(ctx.p)
    ctx.extra.append(R)

    def one(sample):
        side, st, conn = sample
        o = st.heap[st.heap[conn].attrs['_state']]
        v = o.attrs.get('can_receive')
        if R.state_of(st, conn) == 'Failed' or v is not None and v.k == 'const' and \
                v.a[1] is False:
            return
        w = f'{side} {R.state_of(st, conn)}' + (' keyed' if p04.keyed(d, st, conn) else '')
        st, limit, names = prepared(R, st, conn)
        R.paths = []
        outs = R.receive(st, conn)
        ctx.count('paths', len(R.paths) + len(outs))
        J = Judge(ctx, st, conn, names, limit, w)
        for kind, s, x, n in R.paths:
            J.path(kind, s, x, n)
        for o in outs:
            if o.kind == 'return':
                J.path('return', o.st, None, None)
    ctx.each(one, R.samples(d))


def stripped(v):
    """what v is without the zeros at its end"""
    if v.k == 'mcall' and v.a[0] == 'rstrip' and len(v.a[2]) == 1 and has_cval(v.a[2][0]) and \
            cval(v.a[2][0]) == b'\0':
        return v.a[1]
    return None


class Judge:
    def __init__(self, ctx, st, conn, names, limit, w):
        self.ctx, self.conn, self.w = ctx, conn, w
        self.attrs = {k: st.heap[conn].attrs[k] for k in names}
        self.had = {k: sym('had' + k, 'bytes') for k in names}
        self.S = Space()
        self.limit = self.S.lin(limit)
        self.st0 = st

    def path(self, kind, st, x, n):
        vals = {}
        for k in self.attrs:
            vals[k] = value(st, st.heap[self.conn].attrs[k])
        data = [k for k, v in vals.items() if sym('input') in self.pieces(v)]
        if not data:
            if kind == 'parse':
                raise AnalysisError(f'{self.w}: a message is delivered with the input in no buffer: {vals}')
            return
        rest = [k for k in vals if k not in data]
        if len(data) != 1 or len(rest) != 1:
            raise AnalysisError(f'the buffers are {sorted(vals)}')
        Walk(self, kind, st, x, n, data[0], rest[0], vals).judge()


    def pieces(self, v):
        base = self.S.span(v)[0]
        return base.a if base.k == 'concat' else (base,)


class Walk:
    """one path from arbitrary buffers to the first message, refusal or return"""

    def __init__(self, J, kind, st, x, n, data, hs, vals):
        self.J, self.S, self.ctx = J, J.S, J.ctx
        self.kind, self.st, self.x = kind, st, x
        self.had, self.data = J.had[hs], data
        self.left, self.hs = vals[data], vals[hs]
        self.facts = self.S.facts({c: b for c, b in st.facts.items()})
        self.loc = None
        self.what = f'{J.w}: ' + {'parse': lambda: f'delivers {x[0]}', 'alert': lambda: f'{x}',
                                  'return': lambda: 'returns'}[kind]()
        self.opened = [e for e in st.events() if e.kind == 'opened']

    def check(self, cond, rule, msg):
        return self.ctx.check(bool(cond), rule, self.what, msg if not cond else '', self.loc)

    def known(self, ge0):
        return self.S.implied(ge0, self.facts)

    def judge(self):
        J, S = self.J, self.S
        base, lo, hi = S.span(self.left)
        if self.pieces_of(base) != (J.had[self.data], sym('input')):
            self.check(False, 'consumed', 'the input does not follow what was there: '
                       f'{show(base)[:100]}')
            return
        if hi is not None:
            self.check(False, 'consumed', f'the end of the input is dropped: {show(self.left)}')
            return
        self.base = base
        recs = self.records(lo)
        if recs is None:
            return
        frags = self.fragments(recs)
        if frags is None:
            return
        if self.kind == 'alert':
            if self.x == 'RecordOverflow':
                self.overflow(lo, frags)
            return
        self.deliver(lo, frags)

    def pieces_of(self, base):
        return tuple(base.a) if base.k == 'concat' else (base,)

    # what was consumed
    def records(self, end):
        pos, recs = Lin(), []
        for _ in range(12):
            if pos == end:
                self.check(True, 'consumed', '')
                return recs
            if self.ccs(pos):
                pos = pos + 6
                continue
            size = self.size(pos)
            recs.append((pos, size))
            pos = pos + size + 5
        self.check(False, 'consumed', f'the input is left at {end}: not after a record')
        return None

    def size(self, pos):
        return atom(('ube', (self.base, pos + 3, pos + 5)))

    def ccs(self, pos):
        """the path saw a change cipher spec there"""
        first = last = False
        for c, b in self.st.facts.items():
            if not b or c.k not in ('cmp', 'mcall', 'call'):
                continue
            for x in walk(c):
                if x.k in ('slice', 'item') and isinstance(x.a[0], V):
                    s = self.S.span(x) if x.k == 'slice' else None
                    if x.k == 'item':
                        o = self.S.octet(x)
                        first |= o[1] is self.base and o[2] == pos and self.is20(c)
                        continue
                    if s[0] is self.base and s[1] == pos:
                        first |= self.is20(c)
                    if s[0] is self.base and s[2] is not None and s[2] == pos + 6:
                        last = True
        return first and last

    def is20(self, c):
        return any(has_cval(x) and (cval(x) == 20 or isinstance(cval(x), bytes)
                                    and cval(x)[:1] == b'\x14') for x in walk(c))

    # what was in the records
    def fragments(self, recs):
        S, J = self.S, self.J
        opened = list(self.opened)
        out = []
        for pos, size in recs:
            body = (self.base, pos + 5, pos + 5 + size)
            mine = [e for e in opened if any(S.span(a) == body for a in e.args if isinstance(a, V))]
            enc = bool(mine)
            most = J.limit + (OVERHEAD if enc else 0)
            self.check(self.known(most - size), 'record-limit',
                       f'a record of any length up to {OVERHEAD if enc else 0} more than the '
                       'limit or longer is processed')
            self.check(self.known(S.whole(self.base) - pos - size + -5), 'complete',
                       'a record is processed before all of it is there')
            if enc:
                e = mine[0]
                self.check(any(S.span(a) == (self.base, pos, pos + 5) for a in e.args),
                           'header', 'the header of the record is not authenticated')
                out.append(('opened', e.res, body))
            else:
                out.append(('plain', None, body))
        return out

    def content(self, frag, v):
        """v is what the record carries"""
        kind, inner, body = frag
        if kind == 'plain':
            return self.S.span(v) == body and self.typed(self.base, body[1] + -5)
        base, lo, hi = self.S.span(v)
        if lo != Lin() or hi is None:
            return False
        if stripped(base) is inner:
            return hi == self.S.whole(base) + -1 and self.typed(base, hi)
        return base is inner and self.last(inner, hi) and self.typed(inner, hi)

    def last(self, inner, pos):
        """the octets from the end to this one, not zero, are zeros"""
        if self.octet_is(inner, pos) is not True:
            return False
        whole = self.S.whole(inner)
        back = (pos - whole)
        if not back.t:
            return back.c < 0 and all(self.octet_is(inner, whole + i) is False
                                      for i in range(-1, back.c, -1))
        es = [a for a, _k in pos.t]
        if len(es) != 1 or pos != atom(es[0]) or not isinstance(es[0], V) or es[0].k != 'elem':
            return False
        r = es[0].a[0]
        if r.k != 'call' or r.a[0] != 'builtins.range' or len(r.a[1]) != 3:
            return False
        start, stop, step = map(self.S.lin, r.a[1])
        return start == whole + -1 and stop == Lin(-1) and step == Lin(-1)

    def octet_is(self, base, pos):
        """whether an octet is not zero"""
        for c, b in self.st.facts.items():
            if c.k == 'cmp' and c.a[0] in ('==', '!=', '>') and has_cval(c.a[2]) and \
                    cval(c.a[2]) == 0:
                if c.a[0] == '==':
                    b = not b
                c = c.a[1]
            if c.k == 'item' and self.S.octet(c) == ('octet', base, pos):
                return b
        return None

    def typed(self, base, pos):
        """the octet there is what the path takes for the type, and is not another"""
        want, got = self.want, False
        for c, b in self.st.facts.items():
            if c.k != 'cmp':
                continue
            for x in walk(c):
                if x.k == 'item' and self.S.octet(x) == ('octet', base, pos) or \
                        x.k == 'ube' and self.S.span(x.a[0]) == (base, pos, pos + 1):
                    got = True
                    other = [y for y in c.a[1:] if has_cval(y) and isinstance(cval(y), int)]
                    if c.a[0] == '==' and other and b is not (cval(other[0]) == want):
                        return False
                    if c.a[0] == '!=' and other and b is (cval(other[0]) == want):
                        return False
        return got

    def inner_limit(self, frag):
        kind, inner, _body = frag
        if kind == 'opened':
            self.check(self.known(self.J.limit + 1 - self.S.whole(inner)), 'inner-limit',
                       'the plaintext of a record may be longer than the limit')

    def deliver(self, lo, frags):
        S = self.S
        for f in frags:
            self.inner_limit(f)
        parts = self.parts(self.hs)
        self.want = TYPE[HANDSHAKE]
        if self.kind == 'return':
            self.joined(parts, frags, None)
            self.waits(lo, parts)
            return
        name, data = self.x
        if name == HANDSHAKE:
            base, a, b = S.span(data)
            whole = self.joined(self.parts(base), frags, None)
            n = atom(('ube', (base, Lin(1), Lin(4))))
            self.check(a == Lin() and b is not None and b == n + 4, 'delivered',
                       f'not the announced length of the message: [{a}:{b}]')
            self.check(self.known(S.whole(base) - n + -4), 'whole-message',
                       'a message is delivered before all of it is there')
            rb, ra, rc = S.span(self.hs)
            self.check(rb is base and ra == n + 4 and rc is None, 'remainder',
                       'what follows the message is not what is kept')
            del whole
            return
        # not a handshake: the only one of its record, and with no handshake underway
        if not self.check(bool(frags), 'delivered', 'it does not come from a record'):
            return
        self.want = TYPE.get(name)
        self.check(self.content(frags[-1], data), 'delivered',
                   f'not the content of the record, or not by its type: {show(data)[:120]}')
        self.want = TYPE[HANDSHAKE]
        self.joined(parts, frags[:-1], None)
        self.check(self.empty(self.hs), 'nothing-between',
                   'it may come between the fragments of a handshake')

    def empty(self, v):
        for c, b in self.st.facts.items():
            if c is v and b is False:
                return True
        return has_cval(v) and not cval(v) or self.known(-self.S.length(v))

    def parts(self, v):
        return v.a if v.k == 'concat' else (v,)

    def joined(self, parts, frags, _):
        """the buffer is what it had and the fragments, in order"""
        parts = [x for x in parts if not (has_cval(x) and cval(x) == b'')]
        ok = len(parts) == 1 + len(frags) and parts[0] is self.had and all(
            self.content(f, x) for f, x in zip(frags, parts[1:], strict=True))
        return self.check(ok, 'joined', 'the fragments of a handshake are not put together in '
                          f'order: {", ".join(show(x)[:60] for x in parts)}')

    def waits(self, lo, parts):
        """nothing more could be processed"""
        S = self.S
        there = S.whole(self.base) - lo
        self.check(self.known(-there + 4) or self.known(self.size(lo) + 4 - there), 'waits',
                   'it returns although a whole record is there')
        v = concat(parts) if len(parts) > 1 else parts[0]
        size = S.whole(v)
        n = atom(('ube', (v, Lin(1), Lin(4))))
        self.check(self.known(-size + 3) or self.known(n + 3 - size), 'waits',
                   'it returns although a whole handshake is there')

    def overflow(self, lo, frags):
        """only for what is too long"""
        S, J = self.S, self.J
        ok = any(self.known(self.size(lo) - J.limit + (-1 - k)) for k in (0, OVERHEAD))
        ok = ok or any(f[0] == 'opened' and self.known(S.whole(f[1]) - J.limit + -2)
                       for f in frags[-1:])
        self.check(ok, 'overflow', 'a record within the limit is refused')



# ------------------------------------------------------------------ sending
TYPES = {'ApplicationData': 23, 'Finished': 22, 'CloseNotify': 21, 'Heartbeat': 24}
WHOLE = {'CloseNotify', 'Heartbeat'}


def sending(ctx, d):
    D = Driver(ctx.p, limit=1500)
    D.config_v, D.conn_v = d.config_v, d.conn_v
    D.I.explicit, D.I.explicit_while = True, lambda n, st: bounded(D.I, n, st, 4)
    keep = D.I.keep
    D.I.keep = lambda e: e.kind == 'iter0' or keep(e)
    ctx.extra.append(D)
    limits = octets(ctx.p)
    tags = tag_lengths(ctx.p)
    ctx.count('limits', len(limits))
    classes = {c.name: c for g in d.content_classes() for c in g}

    def one(sample):
        side, st, conn = sample
        keys = bool(p04.keyed(d, st, conn))
        st, limit, _names = prepared(d, st, conn)
        buf = p04.out_buffer(d, st, conn)
        for cname, code in TYPES.items():
            if cname not in classes:
                continue
            s2, c = d.content(st, classes[cname])
            w = f'{side} {d.state_of(st, conn)} sends {cname}' + (' keyed' if keys else '')
            for o in D.api_call(s2, conn, '_send_content', (c,)):
                if o.kind != 'return':
                    continue
                terms = p04.emitted(d, s2, conn, o, buf)
                if not terms and any(e.kind == 'iter0'
                                     for e in o.st.events()[len(s2.events()):]):
                    continue    # no fragment of a message that is longer than one
                if not ctx.check(bool(terms), 'emitted', w, 'nothing is emitted'):
                    continue
                Sent(ctx, w, o.st, terms, limit, cname, code, keys).judge(
                    limits, tags if keys else (0,))
    ctx.each(one, Receive.samples(d, d))


def bounded(I, n, st, times):
    fl, work = Flow(), [st]
    for _ in range(times):
        nxt = []
        for s in work:
            for s2, b in I.cond(n.test, s):
                if not b:
                    fl.norm.append(s2)
                    continue
                r = I.block(n.body, [s2])
                fl.ret += r.ret
                fl.brk += r.brk
                nxt += r.norm + r.cont
        work = nxt
    brk, fl.brk = fl.brk, []
    fl.norm = I.dedupe(fl.norm)
    if n.orelse:
        ro = I.block(n.orelse, fl.norm)
        fl.ret += ro.ret
        fl.brk, fl.cont, fl.norm = ro.brk, ro.cont, ro.norm
    fl.norm = fl.norm + brk
    return fl


def octets(p):
    """the limits that can be negotiated"""
    out = {n for c in p.classes.values() if c.name == 'MaxFragmentLengthOctets'
           for n in [cval(v) for v in c.ns.values() if v.k == 'enum'] if isinstance(n, int)}
    if len(out) < 5:
        raise AnalysisError(f'the limits are {out}')
    return sorted(out)


def tag_lengths(p):
    out = set()
    for c in p.classes.values():
        if 'siotls.crypto.ciphers.TLSCipherSuite' in p.mro_names(c):
            v = p.find(c, 'tag_length')
            if v is not None and has_cval(v) and isinstance(cval(v), int):
                out.add(cval(v))
    if not out:
        raise AnalysisError('no cipher suite has a tag_length')
    return sorted(out)


class Unknown(Exception):
    pass


class Sent:
    """the records that one message becomes on a path"""

    def __init__(self, ctx, w, st, terms, limit, cname, code, keys):
        self.ctx, self.w, self.st, self.limit = ctx, w, st, limit
        self.cname, self.code, self.keys = cname, code, keys
        self.S = Space()
        self.terms = terms
        self.bad = set()

    def check(self, cond, rule, msg=''):
        if cond or rule not in self.bad:
            self.ctx.check(bool(cond), rule, self.w, '' if cond else msg)
        if not cond:
            self.bad.add(rule)
        return cond

    def judge(self, limits, tags):
        whole = concat(self.terms)
        parts = list(whole.a) if whole.k == 'concat' else [whole]
        parts = [x for x in parts if not (has_cval(x) and cval(x) == b'')]
        if not parts and any(e.kind == 'iter0' for e in self.st.events()):
            return      # no fragment of a message that is longer than one
        recs, frags = [], []
        while parts:
            if parts[0].k == 'rep':
                inner, rest = parts[0], parts[1:]
                sub = list(inner.a[0].a if inner.a[0].k == 'concat' else (inner.a[0],))
                while sub:
                    sub = self.record(sub, recs, inner)
                    if sub is None:
                        return
                parts = rest
                continue
            parts = self.record(parts, recs, None)
            if parts is None:
                return
        for _body, frag, _rep, _len in recs:
            frags.append(frag)
        self.cover(recs, limits, tags)
        single = {f for _b, f, rep, _s in recs if rep is None}
        for body, frag, rep, size in recs:
            if rep is not None and frag in single and rep.a[1].k == 'loop':
                continue    # a former round of the loop: the last one of another path
            self.bounds(body, frag, size, limits, tags)

    def record(self, parts, recs, rep):
        """one record at the head of the parts -> what follows it"""
        head, rest = parts[0], parts[1:]
        typ = 23 if self.keys else self.code
        ok = head.k == 'const' and isinstance(head.a[1], bytes) and head.a[1] == bytes(
            [typ, 3, 3]) and len(rest) >= 2 and rest[0].k == 'be' and cval(rest[0].a[1]) == 2
        if not self.check(ok, 'header-form', f'{show(head)[:80]} is not the header of a record'):
            return None
        body = rest[1]
        frag = body
        if self.keys:
            if not self.check(body.k == 'mcall' and body.a[0] == 'encrypt' and len(body.a[2]) >= 2,
                              'header-form', f'{show(body)[:80]} is not encrypted'):
                return None
            inner = body.a[2][1]
            ps = inner.a if inner.k == 'concat' else (inner,)
            ok = len(ps) in (2, 3) and ps[1].k == 'const' and ps[1].a[1][:1] == bytes(
                [self.code]) and not ps[1].a[1][1:].strip(b'\0') and (
                len(ps) == 2 or ps[2].k == 'repb' and has_cval(ps[2].a[0]) and not cval(
                    ps[2].a[0]).strip(b'\0'))
            if not self.check(ok, 'inner-form', f'{show(inner)[:120]} is not the content, its '
                              'type and zeros'):
                return None
            frag = ps[0]
        recs.append((body, frag, rep, rest[0].a[0]))
        return rest[2:]

    # numbers
    def ev(self, v, env):
        r = env.get(v)
        if r is not None:
            return r
        if has_cval(v) and isinstance(cval(v), int):
            return int(cval(v))
        k = v.k
        if k == 'len':
            return self.size(v.a[0], env)
        if k == 'bin':
            a, b = self.ev(v.a[1], env), self.ev(v.a[2], env)
            op = v.a[0]
            if op in ('%', '//') and b == 0:
                raise Unknown(show(v))
            return {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b,
                    '%': a % b if b else 0, '//': a // b if b else 0,
                    '^': a ^ b}[op]
        if k == 'un' and v.a[0] == '-':
            return -self.ev(v.a[1], env)
        if k in ('min', 'max') or k == 'call' and v.a[0] in ('builtins.min', 'builtins.max'):
            args = v.a if k != 'call' else v.a[1]
            fn = min if (k if k != 'call' else v.a[0]).endswith('min') else max
            return fn(self.ev(x, env) for x in args)
        if k == 'attr' and v.a[1] == 'tag_length':
            return env['tag']
        if k == 'fld' and v.a[1] == 'tag_length':
            return env['tag']
        if k in ('attr', 'fld') and v.a[1] == LIMIT:
            return env[sym('limit configured', 'int')]
        raise Unknown(show(v)[:200])

    def size(self, v, env):
        """the number of octets"""
        r = env.get(('size', v))
        if r is not None:
            return r
        if v.k == 'const' and isinstance(v.a[1], bytes):
            return len(v.a[1])
        if v.k == 'concat':
            return sum(self.size(x, env) for x in v.a)
        if v.k == 'be':
            return self.ev(v.a[1], env)
        if v.k == 'repb':
            return max(0, self.ev(v.a[1], env)) * self.size(v.a[0], env)
        if v.k == 'mcall' and v.a[0] == 'encrypt':
            return self.size(v.a[2][1], env) + env['tag']
        raise Unknown('len ' + show(v)[:200])

    def env(self, limit, tag):
        # what is negotiated is at most what was configured
        return {sym('limit configured', 'int'): 16384, self.limit: limit, 'tag': tag}

    def data(self, v):
        """the message a fragment is taken from"""
        base = self.S.span(v)[0]
        return base

    def bounds(self, body, frag, size, limits, tags):
        base, lo, hi = self.S.span(frag)
        n = over = wrong = 0
        size_of = mk('len', frag)
        tests = [(c, b) for c, b in self.st.facts.items()
                 if c.k == 'cmp' and c.a[0] in COMPARE and any(x is size_of for x in walk(c))]
        try:
            for limit in limits:
                for tag in tags:
                    env = self.env(limit, tag)
                    for length in self.lengths(frag, env):
                        env[('size', frag)] = length
                        env[size_of] = length
                        if tests and not self.possible(tests, env):
                            continue
                        got = self.size(body, env)
                        n += 1
                        over += got > limit
                        wrong += self.ev(size, env) != got
                        if self.keys:
                            wrong += self.ev_aad(body, env) not in (None, got)
        except Unknown as e:
            raise AnalysisError(f'{self.w}: unknown number {e}') from None
        self.ctx.count('lengths', n)
        self.check(not over, 'fits', f'{over} of {n} lengths of a fragment make a record that is '
                   'longer than the limit')
        self.check(not wrong, 'length-field', 'the length in the header is not that of the record')

    def possible(self, tests, env):
        for c, b in tests:
            try:
                if COMPARE[c.a[0]](self.ev(c.a[1], env), self.ev(c.a[2], env)) is not b:
                    return False
            except Unknown:
                pass
        return True

    def ev_aad(self, body, env):
        for a in body.a[2][2:]:
            for x in a.a if a.k == 'concat' else (a,):
                if x.k == 'be':
                    return self.ev(x.a[0], env)
        return None

    def lengths(self, frag, env):
        """what the length of a fragment can be"""
        base, _lo, _hi = self.S.span(frag)
        if frag.k == 'slice':
            lo = 0 if frag.a[1] is NONE else None
            hi = frag.a[2]
            start = frag.a[1]
            if hi is NONE:
                # what is left
                return range(0, self.bound(mk('len', frag), env) + 1)
            if lo is None:
                d = self.S.lin(hi) - self.S.lin(start)
                return range(0, self.evlin(d, env) + 1)
            return range(0, self.ev(hi, env) + 1)
        return range(0, self.bound(mk('len', frag), env) + 1)

    def evlin(self, lin, env):
        return lin.c + sum(k * self.ev(a, env) if isinstance(a, V) else k * self.never(a)
                           for a, k in lin.t)

    def never(self, a):
        raise Unknown(str(a)[:100])

    def bound(self, size, env):
        """the most a length can be, from the tests of the path"""
        best = None
        for c, b in self.st.facts.items():
            if c.k != 'cmp' or size not in c.a[1:] or c.a[0] not in SWAP:
                continue
            op, x, y = c.a
            if y is size:
                op, x, y = SWAP[op], y, x
            if not b:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
            if op in ('<', '<='):
                m = self.ev(y, env) - (op == '<')
                best = m if best is None else min(best, m)
        if best is None:
            raise Unknown('no bound of ' + show(size)[:100])
        return best

    def to_end(self, b, hi):
        return hi is None or self.S.implied(hi - self.S.whole(b), self.S.facts(self.st.facts))

    def entire(self, f):
        b, lo, hi = self.S.span(f)
        return lo == Lin() and self.to_end(b, hi)

    def looped(self, f):
        return f.k == 'slice' and any(x.k == 'elem' for y in f.a[1:] for x in walk(y))

    # the fragments
    def cover(self, recs, limits, tags):
        frags = [(f, rep) for _b, f, rep, _s in recs]
        if len(frags) > 1 and all(rep is not None for _f, rep in frags[:-1]) and \
                all(f is frags[-1][0] for f, _rep in frags) and frags[-1][1] is None:
            # the engine's form of a loop: the rounds before the last one, and that one
            frags = frags[:1]
        self.check(len(frags) == 1 and frags[0][1] is None and self.entire(frags[0][0])
                   if self.cname in WHOLE else True, 'never-split',
                   'a message that may not be split is')
        base = None
        pos = Lin()
        for f, rep in frags:
            b, lo, hi = self.S.span(f)
            if lo == Lin() and self.to_end(b, hi):
                hi = self.S.whole(b)
            if base is None:
                base = b
            if not self.check(b is base and self.message(b), 'covers',
                              f'{show(f)[:100]} is not a piece of the message'):
                return
            if rep is not None or self.looped(f):
                if not self.check(self.tiles(f, b, limits, tags) and len(frags) == 1, 'covers',
                                  f'the fragments {show(f)[:120]} do not cover the message'):
                    return
                pos = None
                continue
            if pos is None or not self.check(lo == pos, 'covers', 'a gap between the fragments'):
                return
            pos = hi
        if frags and frags[-1][1] is None and pos is not None:
            # the end of the message is reached
            known = self.S.facts(self.st.facts)
            rest = pos - self.S.whole(base)
            ok = self.S.implied(rest, known) or any(
                c.k == 'slice' and b is False and self.S.span(c) == (base, pos, None)
                for c, b in self.st.facts.items())
            self.check(ok, 'covers', 'the end of the message is not sent')
        else:
            self.check(True, 'covers')

    def message(self, b):
        return b.k == 'ser' or any(x.k == 'ser' for x in walk(b))

    def tiles(self, f, base, limits, tags):
        """slices [i : i + n] for i in range(0, len, n)"""
        if f.k != 'slice':
            return False
        es = {x for x in walk(f.a[1]) if x.k == 'elem'} | {
            x for x in walk(f.a[2]) if x.k == 'elem'}
        if len(es) != 1:
            return False
        e = es.pop()
        r = e.a[0]
        if r.k != 'call' or r.a[0] != 'builtins.range':
            return False
        args = list(r.a[1])
        start, stop, step = ([const(0), args[0], const(1)] if len(args) == 1 else
                             [*args, const(1)][:3])
        size = mk('len', base)
        if has_cval(start) and cval(start) == 0 and stop is size and f.a[1] is e and \
                f.a[2] is not NONE and self.S.lin(f.a[2]) == self.S.lin(e) + self.S.lin(step):
            return True
        try:
            for limit in limits[:2]:
                for tag in tags:
                    env = self.env(limit, tag)
                    for n in [*range(1, 20), *range(limit - 30, limit + 30),
                              *range(2 * limit - 60, 3 * limit + 3, 7)]:
                        env[size] = n
                        env[('size', base)] = n
                        at = 0
                        for i in range(self.ev(start, env), self.ev(stop, env),
                                       self.ev(step, env)):
                            env[e] = i
                            a = self.ev(f.a[1], env) if f.a[1] is not NONE else 0
                            b = self.ev(f.a[2], env) if f.a[2] is not NONE else n
                            if a != at or b <= a:
                                return False
                            at = min(b, n)
                        if at != n:
                            return False
        except (Unknown, ValueError):
            return False
        return True
