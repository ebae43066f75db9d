"""P14: messages are laid out as in their RFCs, both ways."""
from sa.drive import HANDSHAKE
from sa.formats import ALERT, EXTENSION, Formats
from sa.interp import show_exc
from sa.layout import (
    List, Mismatch, Obj, Reader, Sub, U, Vec, Writer, landed, leaves, lists_of,
)
from sa.terms import NONE, V, const, cval, has_cval, mk, show, sym, walk
from sa.wire import Wire

SPEC = {
    'id': 'P14', 'level': 'other',
    'technique': 'provenance of the bytes every serializer returns and of what every parser takes '
                 'from its stream, path by path, matched with a table of the RFC structures; '
                 'each field has to come from, and to land in, the same attribute',
    'explanation': 'every serialize() and parse() of the contents is interpreted with a stream '
                   'whose primitives record what is read; lists are loops up to the end of a '
                   'stream or of a limited region; SerialIO itself is checked the same way',
    'assumptions': ['the items of use_srtp protection_profiles are pairs of bytes, as parsed',
                    'public_bytes() and the load functions of cryptography are inverses'],
}

MESSAGES = ('CLIENT_HELLO', 'SERVER_HELLO', 'HELLO_RETRY_REQUEST', 'ENCRYPTED_EXTENSIONS',
            'CERTIFICATE', 'CERTIFICATE_REQUEST', 'NEW_SESSION_TICKET')


def run(ctx):
    F = Formats(ctx.p)
    for s in F.subjects:
        write = serializer(ctx, F, s)
        parser(ctx, F, s, write)
        framed(ctx, F, s)
    dispatch(ctx, F)
    alerts(ctx, F)
    streams(ctx, F)


def loc(cls):
    return (cls.module.path, cls.node.lineno) if cls.node is not None else None


def serializer(ctx, F, s):
    w, oid, outs = F.run_serializer(s)
    ctx.extra.append(w)
    roles = None
    for o in outs:
        if o.kind != 'return':
            continue
        ctx.count('serialized')
        wr = Writer(o.val, oid)
        try:
            wr.match(s.spec)
        except Mismatch as e:
            ctx.bad('serialized-as-specified', f'{s.label}.{s.serializer}()', str(e), loc(s.cls))
            continue
        ctx.check(True, 'serialized-as-specified', f'{s.label}.{s.serializer}()', '')
        if roles is None:
            roles = wr.roles
        else:
            for k, v in wr.roles.items():
                roles.setdefault(k, set()).update(v)
    ctx.check(any(o.kind == 'return' for o in outs), 'serialized-as-specified',
              f'{s.label}.{s.serializer}()', 'nothing is ever serialized', loc(s.cls))
    return roles


def frame(F, s):
    """the header in front of a body: (bytes of the type, type, bytes of the length)"""
    names = F.p.mro_names(s.cls)
    if HANDSHAKE in names:
        return 1, F.code(s.cls, 'msg_type'), 3
    if EXTENSION in names and F.code(s.cls, 'extension_type') is not None:
        return 2, F.code(s.cls, 'extension_type'), 2
    return None


def framed(ctx, F, s):
    """serialize(), header included"""
    f = frame(F, s)
    if f is None:
        return
    w, oid, outs = F.run_serializer(s, 'serialize')
    spec = [U(f[0], f[1]), Sub(f[2], *s.spec)]
    for o in outs:
        if o.kind != 'return':
            continue
        try:
            Writer(o.val, oid).match(spec)
        except Mismatch as e:
            ctx.bad('serialized-as-specified', f'{s.label}.serialize()', str(e), loc(s.cls))
            continue
        ctx.check(True, 'serialized-as-specified', f'{s.label}.serialize()', '')


def dispatch(ctx, F):
    p = ctx.p
    bodies = {q: c.qual for c in p.classes.values() for n, f in c.ns.items()
              if n == 'parse_body' and f.k == 'func' for q in [f.a[0].qual]}
    for base, n, m, attr in ((HANDSHAKE, 1, 3, 'msg_type'), (EXTENSION, 2, 2, 'extension_type')):
        known = {F.code(s.cls, attr) for s in F.subjects
                 if base in p.mro_names(s.cls)} - {None}
        htypes = [None] if base == HANDSHAKE else messages(p)
        codes = range(256) if base == HANDSHAKE else sorted(known | {17, 0x0a0a, 0xfafa, 65535})
        for code in codes:
            for ht in htypes:
                one(ctx, F, bodies, base, n, m, attr, code, ht, known)


def messages(p):
    out = []
    for name in ('HandshakeType', 'HandshakeType_'):
        for v in p.classes['siotls.iana.' + name].ns.values():
            if v.k == 'enum' and v.a[1] in MESSAGES:
                out.append(v)
    return out


def one(ctx, F, bodies, base, n, m, attr, code, ht, known):
    p = ctx.p
    w = Wire(p, bodies)
    w.force = {0: const(code)}
    kws = {'config': sym('config'), 'nconfig': sym('nconfig')}
    if ht is not None:
        kws['handshake_type'] = ht
    s, outs = w.parse(p.classes[base], 'parse', kws)
    who = base.rsplit('.', 1)[-1]
    label = f'{who}.parse() of type {code}' + (f' in {ht.a[1].lower()}' if ht else '')
    where = loc(p.classes[base])
    if ht is not None and code in known:
        want = any(F.code(x.cls, attr) == code and any(
            t.a[1] in (ht.a[1], 'ANY') for t in p.find(x.cls, '_handshake_types').a)
            for x in F.subjects if EXTENSION in p.mro_names(x.cls))
    else:
        want = code in known or ht is not None
    read = False
    for o in outs:
        if o.kind != 'return':
            continue
        evs = o.st.events()
        read = True
        try:
            Reader(evs).match([U(n), Sub(m, Obj())], s)
        except Mismatch as e:
            ctx.bad('parsed-as-specified', label, str(e), where)
            continue
        q = next((e.args[1].a[1] for e in evs if e.kind == 'rd' and e.name == 'obj'), None)
        cls = w.dispatched.get(q)
        got = o.st.heap.get(o.val)
        cls = cls or (got.cls if got is not None else None)
        v = p.find(cls.a[0], attr) if cls is not None and cls.k == 'cls' else None
        ctx.check(v is not None and has_cval(v) and cval(v) == code, 'right-parser', label,
                  f'its body is parsed as a {cls.a[0].name if cls is not None else "?"}', where)
        if ht is not None and code in known and v is not None:
            ts = p.find(cls.a[0], '_handshake_types')
            ctx.check(any(t.a[1] in (ht.a[1], 'ANY') for t in ts.a), 'right-parser', label,
                      f'its body is parsed as a {cls.a[0].name}, of another message', where)
    ctx.check(read == want, 'right-parser', label,
              'it is parsed' if read else 'it is never parsed', where)


def alerts(ctx, F):
    p = ctx.p
    A = p.classes[ALERT]
    ns = p.classes['siotls.iana.AlertDescription'].ns
    named = {cval(v) for v in ns.values() if v.k == 'enum'}
    for level in (1, 2):
        for code in range(256):
            w = Wire(p)
            w.force = {0: const(level), 1: const(code)}
            s, outs = w.parse(A, 'parse', {'config': sym('config'), 'nconfig': sym('nconfig')})
            label = f'Alert.parse() of {level}, {code}'
            good = False
            for o in outs:
                if o.kind != 'return':
                    continue
                try:
                    Reader(o.st.events()).match([U(1), U(1)], s)
                except Mismatch as e:
                    ctx.bad('parsed-as-specified', label, str(e), loc(A))
                    continue
                I = w.I
                for r in I.run(o.st, lambda x, v=o.val: [
                        y for s2, f in I.getattr(x, v, 'serialize', None)
                        for y in I.call(s2, f, [], {}, None)]):
                    if r.kind == 'return':
                        good = True
                        ctx.check(has_cval(r.val) and cval(r.val) == bytes([level, code]),
                                  'parsed-as-specified', label,
                                  f'it is serialized back as {show(r.val)}', loc(A))
            ctx.check(good, 'parsed-as-specified', label, 'it is never parsed', loc(A))
    for c in p.classes.values():
        if ALERT in p.mro_names(c) and c.qual != ALERT and not c.qual.startswith('<dyn'):
            d = F.code(c, 'description')
            if d is None:
                continue
            ctx.check(d in named, 'serialized-as-specified', c.name, 'unknown code', loc(c))
            w = Wire(p)
            I = w.I
            for st, oid in I.call(p.state.copy(), mk('cls', c), [], {}, None):
                for r in I.run(st, lambda x, oid=oid: [
                        y for s2, f in I.getattr(x, oid, 'serialize', None)
                        for y in I.call(s2, f, [], {}, None)]):
                    want = bytes([1 if d in (0, 90) else 2, d])
                    ctx.check(r.kind == 'return' and has_cval(r.val) and cval(r.val) == want,
                              'serialized-as-specified', f'{c.name}.serialize()',
                              f'{show(r.val)} is written, not {want!r}', loc(c))


def primitive(ctx, name, *args, limits=1):
    """(wire, stream, outcomes) of one primitive over the ones below it"""
    w = Wire(ctx.p, skip=(name,))
    w.I.models['.read'] = w.x_rawread
    st, s = w.stream(ctx.p.state.copy(), sym('data', 'bytes'))
    ctx.extra.append(w)
    if limits > 1:
        st, lst = w.I.newlist(st, [const(float('inf')), *(
            sym(f'limit {i}', 'int') for i in range(1, limits))])
        st = st.setobj(s, st.heap[s].with_attr('_limits', lst))
    return w, s, w.I.run(st, lambda x: [
        y for s2, f in w.I.getattr(x, s, name, None) for y in w.I.call(s2, f, list(args), {}, None)])


def streams(ctx, F):
    """the primitives the formats are made of"""
    where = loc(ctx.p.classes['siotls.serial.SerialIO'])

    def ok(cond, name, msg):
        ctx.check(cond, 'primitives', f'SerialIO.{name}()', msg, where)

    def reads(name, args, spec, value=None):
        w, s, outs = primitive(ctx, name, *args)
        full = set()
        outs = [o for o in outs if o.kind == 'return']
        ok(outs, name, 'it never returns')
        for o in outs:
            r = Reader(o.st.events())
            r.counts = counts(o.st)
            try:
                r.match(spec, s)
            except Mismatch as e:
                ok(False, name, str(e))
                continue
            full |= r.full | r.raw
            if value is not None:
                ok(value(o, r), name, f'it returns {show(o.val)}, not what is read')
        return full
    n = sym('n', 'int')
    reads('read_int', [n], [U(n)], lambda o, r: o.val in r.bound or
          o.val.k == 'ube' and o.val.a[0] in r.bound)
    reads('read_var', [n], [Vec(n)], lambda o, r: o.val in r.bound)
    for a, b in ((2, 2), (1, 1), (1, 2), (2, 1)):
        full = reads('read_listint', [const(a), const(b)], [List(a, U(b))],
                     lambda o, r, b=b: integers(o, r, b))
        ok((0,) in full, 'read_listint', 'no item is ever read')
        full = reads('read_listvar', [const(a), const(b)], [List(a, Vec(b))],
                     lambda o, r: items(o, r))
        ok((0,) in full, 'read_listvar', 'no item is ever read')

    # read_exactly() returns n bytes, all of them read
    w, s, outs = primitive(ctx, 'read_exactly', n)
    good = [o for o in outs if o.kind == 'return']
    ok(good, 'read_exactly', 'it never returns')
    for o in good:
        size = mk('len', o.val)
        exact = has_cval(o.val) and o.val.a[1] == b'' and (o.st.facts.get(n) is False or any(
            t is True and c.k == 'cmp' and c.a[0] == '==' and n in c.a[1:] and
            any(has_cval(x) and cval(x) == 0 for x in c.a[1:]) for c, t in o.st.facts.items()))
        for c, t in o.st.facts.items():
            if c.k != 'cmp' or size not in c.a[1:] or n not in c.a[1:]:
                continue
            op = c.a[0] if c.a[1] is size else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(
                c.a[0], c.a[0])
            exact |= (op, t) in (('==', True), ('!=', False), ('<', False), ('>=', True))
        exact = exact or counted(o, n)
        ok(exact, 'read_exactly', f'it may return less than n bytes: {show(o.val)}')
        for e in o.st.events():
            if e.kind == 'rd':
                ok(e.name == 'upto' and (e.args[1] is n or e.args[1].k == 'bin' and
                                         e.args[1].a[0] == '-' and e.args[1].a[1] is n
                                         or counter(e.args[1], n)),
                   'read_exactly', 'it may read past the n bytes')
    # data that ends in the middle: some bytes, then none
    w = Wire(ctx.p, skip=('read_exactly',))
    w.I.explicit = True

    def ending(I, st, fi, args, kws, n):
        o = st.heap[args[0]]
        given = 'given' in o.attrs
        return [(st.setobj(args[0], o.with_attr('given', const(True))),
                 const(b'' if given else b'xx'))]
    w.I.models['siotls.serial.SerialIO.read'] = ending
    st, s = w.stream(ctx.p.state.copy(), sym('data', 'bytes'))
    outs2 = w.I.run(st, lambda x: [
        y for s2, f in w.I.getattr(x, s, 'read_exactly', None)
        for y in w.I.call(s2, f, [const(5)], {}, None)])
    ok(outs2 and all(o.kind == 'raise' and 'MissingData' in show_exc(o.val, o.st) for o in outs2),
       'read_exactly', 'it does not refuse data that ends in the middle')
    ok(any(o.kind == 'raise' and 'MissingData' in show_exc(o.val, o.st) and any(
        e.kind == 'rd' for e in o.st.events()) for o in outs), 'read_exactly',
        'it does not refuse data that ends early')

    # read() never goes over the limit in force
    for size, lims in ((n, 1), (n, 2), (n, 3), (n, 4), (NONE, 1), (NONE, 2), (NONE, 4)):
        w, s, outs = primitive(ctx, 'read', *([size] if size is n else []), limits=lims)
        raised = False
        for o in outs:
            raised |= o.kind == 'raise'
            for e in o.st.events():
                if e.kind != 'rd' or e.name != 'raw':
                    continue
                got = e.args[1]
                top = e.x
                left = mk('bin', '-', top, mk('tell', s, const(0))) if top is not None else None
                fits = got is left or got is n and any(
                    c.k == 'cmp' and (c.a[0], t) in ((('<', False) if c.a[2] is n else ('>', False),
                                                      ('>=', True) if c.a[1] is not n else
                                                      ('<=', True)))
                    and n in c.a[1:] and left in c.a[1:] for c, t in o.st.facts.items()) or \
                    got is NONE and len(o.st.heap[o.st.heap[s].attrs['_limits']].items) == 1
                ok(fits, 'read', f'it reads {show(got)} bytes, whatever the limit')
        ok(raised or size is NONE, 'read', 'it never refuses to go over the limit')

    # is_eof() and assert_eof() compare the position with the end, and do not move
    for name in ('is_eof', 'assert_eof'):
        w, s, outs = primitive(ctx, name)
        data = sym('data', 'bytes')
        here = mk('tell', s, const(0))
        ends = {mk('endpos', s), mk('attr', data, 'nbytes'), mk('len', data)}
        for o in outs:
            if o.kind == 'return':
                t = o.val if name == 'is_eof' else None
                if t is not None:
                    ok(t.k == 'cmp' and t.a[0] in ('==', '>=', '<=') and here in t.a[1:]
                       and ends & {*t.a[1:]},
                       name, f'it returns {show(t)}')
                    at = o.st.heap[s].attrs['at']
                    ok(has_cval(at) and cval(at) == 0, name, 'it moves the stream')
                else:
                    ok(any(here in walk(c) and ends & {*walk(c)} for c in o.st.facts), name,
                       'it accepts a stream that is not at its end')
        if name == 'assert_eof':
            ok(any(o.kind == 'raise' for o in outs), name, 'it never refuses')


def counts(st):
    """(length, n): the lists made of length // n items, n a divisor of the length"""
    out = set()
    for o in st.heap.values():
        for x in o.items or () if o.kind == 'list' else ():
            if x.k == 'rep' and x.a[1].k == 'call' and x.a[1].a[0] == 'builtins.range' and \
                    len(x.a[1].a[1]) == 1 and x.a[1].a[1][0].k == 'bin':
                op, a, b = x.a[1].a[1][0].a
                mod = mk('bin', '%', a, b)
                if op == '//' and has_cval(b) and (cval(b) == 1 or st.facts.get(mod) is False or any(
                        c.k == 'cmp' and mod in c.a[1:] and const(0) in c.a[1:] and
                        (c.a[0], t) in (('==', True), ('!=', False)) for c, t in st.facts.items())):
                    out.add((a, cval(b)))
    return out


def counter(v, n, var=None):
    """n less what was read: a variable that starts at n and loses the length of every read"""
    if v is n:
        return True
    if v.k in ('phi', 'next'):
        return all(counter(x, n, var) for x in v.a if isinstance(x, V))
    if v.k == 'loopv':
        return var is None or v is var
    if v.k == 'bin' and v.a[0] == '-':
        return counter(v.a[1], n, var) and v.a[2].k == 'len' and v.a[2].a[0].k == 'read'
    return False


def counted(o, n):
    """all that was read is returned, and nothing is left to read at the end"""
    parts = o.val.a if o.val.k == 'concat' else (o.val,)
    reads = [x.a[0] if x.k == 'rep' else x for x in parts]
    zero = [c for c, t in o.st.facts.items() if t is False and c.k in ('loopv', 'phi', 'bin')]
    zero += [x for c, t in o.st.facts.items() if c.k == 'cmp' and (c.a[0], t) in (
        ('==', True), ('!=', False), ('>', False)) and c.a[2] is const(0) for x in (c.a[1],)]
    return bool(reads) and all(x.k == 'read' and x.a[0] == 'upto' and counter(x.a[-1], n)
                               for x in reads) and any(counter(v, n) for v in zero)


def integers(o, r, n):
    """a list of the n-byte integers that were read"""
    lst = o.st.heap.get(o.val)
    if lst is None or not lst.items:
        return not lst.items if lst is not None and not r.full else False
    for x in lst.items:
        body = x.a[0] if x.k == 'rep' else x
        if body in r.bound:
            continue
        if body.k != 'ube' or not any(y in r.bound for y in walk(x)):
            return False
        t = [y for y in walk(body.a[0]) if y.k == 'tuple']
        if t and (len(t[0].a) != n or not divides(o.st, n)):
            return False
    return True


def divides(st, n):
    """what is taken by groups of n has no incomplete last group"""
    def mod(c):
        return c.k == 'bin' and c.a[0] == '%' and c.a[2] is const(n)
    return n == 1 or any(
        (mod(c) or c.k == 'read') and t is False or c.k == 'cmp' and const(0) in c.a[1:] and any(
            mod(x) for x in c.a[1:]) and (c.a[0], t) in (('==', True), ('!=', False), ('>', False))
        for c, t in st.facts.items())


def items(o, r):
    lst = o.st.heap.get(o.val)
    if lst is None:
        return False
    if any(x.k == 'read' and x in set(walk(c)) for c in o.st.facts for x in r.bound):
        return False             # kept according to what it is
    if not r.full:
        return True
    return any((x.a[0] if x.k == 'rep' else x) in r.bound for x in lst.items or ())


def parser(ctx, F, s, roles):
    w, stream, outs = F.run_parser(s)
    ctx.extra.append(w)
    full = set()
    seen = {}
    good = 0
    for o in outs:
        if o.kind != 'return':
            continue
        ctx.count('parsed')
        r = Reader(o.st.events())
        try:
            r.match(s.spec, stream)
        except Mismatch as e:
            ctx.bad('parsed-as-specified', f'{s.label}.{s.parser}()', str(e), loc(s.cls))
            continue
        good += 1
        full |= r.many
        for leaf, attrs in landed(ctx.p, o.st, o.val, r.bound).items():
            seen.setdefault(leaf, set()).update(attrs)
        full |= r.raw
    ctx.check(good, 'parsed-as-specified', f'{s.label}.{s.parser}()',
              'no path reads the structure', loc(s.cls))
    if not good:
        return
    for path in lists_of(s.spec):
        ctx.check(path in full, 'parsed-as-specified', f'{s.label}.{s.parser}()',
                  'at most one item of a list is ever read', loc(s.cls))
    for path, spec in leaves(s.spec):
        want = {strip(x) for x in (roles or {}).get(path, ())}
        if not want:
            ctx.check(getattr(spec, 'value', None) is not None, 'same-field',
                      f'{s.label}: field {path}', 'it is not written from any attribute',
                      loc(s.cls))
            continue
        got = {strip(x) for x in seen.get(path, ())}
        ctx.check(want <= got, 'same-field', f'{s.label}: field {path}',
                  f'written from {names(want)}, but what is read there lands in '
                  f'{names(got) or "nothing"}', loc(s.cls))


def strip(role):
    return tuple(x for x in role if x != '*')


def names(roles):
    return ', '.join(sorted('.'.join(r) for r in roles))

