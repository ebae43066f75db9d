"""RFC structures, matched against what a parser reads and a serializer writes."""
from .terms import NONE, TRUE, V, alts, cval, has_cval, mk, show, walk


class U:          # an integer of n bytes
    def __init__(self, n, value=None):
        self.n, self.value = n, value


class Raw:        # n bytes
    def __init__(self, n, value=None):
        self.n, self.value = n, value


class Vec:        # bytes behind their length, on n bytes
    def __init__(self, n, value=None):
        self.n, self.value = n, value


class List:       # items behind their length in bytes, on n bytes
    def __init__(self, n, *items):
        self.n, self.items = n, items


class Sub:        # one structure behind its length, on n bytes
    def __init__(self, n, *items):
        self.n, self.items = n, items


class Obj:        # something that has its own layout
    def __init__(self, name=None):
        self.name = name


class Rest:       # everything up to the end
    n = None


class Mismatch(Exception):
    pass


def expect(spec):
    return {U: lambda s: f'a {s.n}-byte integer', Raw: lambda s: f'{s.n} bytes',
            Vec: lambda s: f'bytes behind a {s.n}-byte length',
            List: lambda s: f'a list behind a {s.n}-byte length',
            Sub: lambda s: f'a structure behind a {s.n}-byte length',
            Obj: lambda s: f'a {s.name or "structure"}',
            Rest: lambda s: 'everything that is left'}[type(spec)](spec)


# ------------------------------------------------------------------ parsing
class Reader:
    """the events of one path through a parser, matched with a structure"""

    def __init__(self, events):
        self.by = {}
        self.subs = {}        # bytes read -> the streams over them
        for e in events:
            if e.kind == 'sub':
                self.subs.setdefault(e.args[1], []).append(e.args[0])
            elif e.kind in ('rd', 'eof', 'end'):
                self.by.setdefault(e.args[0], []).append(e)
        self.used = set()
        self.counts = set()   # (length, n): lists of length // n items, n divides length
        self.bound = {}       # term read -> path of the field in the structure
        self.full = set()     # lists an item of which was read
        self.many = set()     # lists an arbitrary number of items of which is read
        self.raw = set()      # vectors whose content was not looked into

    def match(self, spec, stream):
        i = self.struct(spec, stream, 0, ())
        i = self.skip_known(stream, i)
        evs = self.by.get(stream, [])
        if i < len(evs):
            raise Mismatch(f'{self.what(evs[i])} is read after the last field')
        for s in self.by:
            if s is not stream and s not in self.used:
                raise Mismatch('a stream is read that is no field of the structure')

    def what(self, e):
        if e.kind != 'rd':
            return 'an end-of-data test'
        n = [show(a) for a in e.args[1:]]
        return {'int': 'a {}-byte integer', 'bytes': '{} bytes', 'upto': 'up to {} bytes',
                'var': 'bytes behind a {}-byte length',
                'listint': 'a list of {1}-byte integers behind a {0}-byte length',
                'listvar': 'a list of {1}-byte length vectors behind a {0}-byte length',
                'rest': 'everything that is left', 'obj': 'a {}',
                'seek': 'moving the stream'}.get(e.name, e.name).format(*n)

    def skip_known(self, stream, i):
        """tests for the end of the data that found it"""
        evs = self.by.get(stream, [])
        while i < len(evs) and evs[i].kind == 'eof' and evs[i].args[1] is TRUE:
            i += 1
        return i

    def next(self, stream, i, spec):
        evs = self.by.get(stream, [])
        if i >= len(evs):
            raise Mismatch(f'{expect(spec)} is not read')
        return evs[i]

    def struct(self, specs, stream, i, path):
        for k, spec in enumerate(specs):
            i = self.field(spec, stream, i, (*path, k))
        return i

    def size(self, e, n):
        v = e.args[n]
        return cval(v) if has_cval(v) else v

    def field(self, spec, stream, i, path):
        if isinstance(spec, Rest) and i >= len(self.by.get(stream, [])):
            raise Mismatch('what is left is not read')
        e = self.next(stream, i, spec)
        bad = Mismatch(f'{self.what(e)} is read where {expect(spec)} stands')
        if e.kind != 'rd':
            raise bad
        if isinstance(spec, U | Raw):
            if e.name not in ('int', 'bytes') or self.size(e, 1) != spec.n:
                raise bad
            self.bound[e.res] = path
            return i + 1
        if isinstance(spec, Obj):
            if e.name != 'obj' or spec.name is not None and \
                    cval(e.args[1]).rsplit('.', 1)[-1] != spec.name:
                raise bad
            self.bound[e.res] = path
            return i + 1
        if isinstance(spec, Rest):
            if e.name != 'rest':
                raise bad
            self.bound[e.res] = path
            return i + 1
        # vectors
        if e.name == 'listint' and isinstance(spec, List) and self.size(e, 1) == spec.n and \
                len(spec.items) == 1 and isinstance(spec.items[0], U) and \
                self.size(e, 2) == spec.items[0].n:
            self.full.add(path)
            self.many.add(path)
            self.bound[e.res] = (*path, 0)
            return i + 1
        if e.name == 'listvar' and isinstance(spec, List) and self.size(e, 1) == spec.n and \
                len(spec.items) == 1 and isinstance(spec.items[0], Vec) and \
                self.size(e, 2) == spec.items[0].n:
            self.full.add(path)
            self.many.add(path)
            self.bound[e.res] = (*path, 0)
            return i + 1
        if e.name == 'var' and self.size(e, 1) == spec.n:
            self.inside(spec, e.res, path)
            return i + 1
        if e.name == 'int' and self.size(e, 1) == spec.n:
            length = e.res
            evs = self.by[stream]
            if i + 1 < len(evs):
                e2 = evs[i + 1]
                if e2.kind == 'rd' and e2.name == 'bytes' and e2.args[1] is length:
                    self.inside(spec, e2.res, path)
                    return i + 2
            return self.region(spec, stream, i + 1, length, path)
        raise bad

    def inside(self, spec, data, path):
        """the bytes of a vector: kept, or a stream is made over them"""
        streams = self.subs.get(data, [])
        if isinstance(spec, Vec):
            self.bound[data] = path
            return
        if not streams:
            # looked into some other way: nothing to compare with
            self.bound[data] = (*path, 0)
            self.raw.add(path)
            return
        for s in streams:
            self.used.add(s)
            evs = self.by.get(s, [])
            if isinstance(spec, Sub):
                i = self.struct(spec.items, s, 0, path)
                if i >= len(evs) or evs[i].kind != 'eof' or evs[i].args[1] is not TRUE:
                    raise Mismatch('the end of a structure is not checked')
                i += 1
            else:
                i = self.items(spec, s, 0, path, 'eof', None)
            i = self.skip_known(s, i)
            if i < len(evs):
                raise Mismatch(f'{self.what(evs[i])} is read after the end of a list')

    def region(self, spec, stream, i, length, path):
        evs = self.by[stream]
        lim = None

        def is_end(e):
            return e.kind == 'end' and any(x is length for x in walk(e.args[1]))
        if isinstance(spec, List):
            j = self.items(spec, stream, i, path, 'end', length)
        elif isinstance(spec, Sub):
            j = self.struct(spec.items, stream, i, path)
        else:
            e = self.next(stream, i, spec)
            if e.kind != 'rd' or e.name != 'rest':
                raise Mismatch(f'{self.what(e)} is read where {expect(spec)} stands')
            self.bound[e.res] = path
            j = i + 1
        ended = isinstance(spec, List)
        while j < len(evs) and is_end(evs[j]):
            if evs[j].args[3] is not TRUE:
                raise Mismatch('bytes are left at the end of a vector')
            ended = True
            j += 1
        if not ended:
            raise Mismatch(f'the length that announces {expect(spec)} is not enforced')
        return j

    def items(self, spec, stream, i, path, kind, length):
        evs = self.by.get(stream, [])
        first = i
        while True:
            if i >= len(evs):
                # as many items as the length announces
                if i > first and length is not None and len(spec.items) == 1 and \
                        (length, getattr(spec.items[0], 'n', None)) in self.counts:
                    return i
                raise Mismatch('a list is not read up to its end')
            e = evs[i]
            if e.kind == kind and (kind == 'eof' or any(
                    x is length for x in walk(e.args[1]))):
                if e.args[-1] is TRUE:
                    return i + 1
                i += 1
                continue
            if e.kind != 'rd':
                raise Mismatch(f'{self.what(e)} within a list')
            i = self.struct(spec.items, stream, i, path)
            self.full.add(path)
            if e.res.k != 'read' or not has_cval(e.res.a[2]):
                self.many.add(path)     # at no fixed place of the stream: in a loop


def lists_of(specs, path=()):
    for k, s in enumerate(specs):
        if isinstance(s, List):
            yield (*path, k)
            yield from lists_of(s.items, (*path, k))
        elif isinstance(s, Sub):
            yield from lists_of(s.items, (*path, k))


def leaves(specs, path=()):
    for k, s in enumerate(specs):
        if isinstance(s, List | Sub):
            yield from leaves(s.items, (*path, k))
        else:
            yield (*path, k), s


# -------------------------------------------------------------- serializing
def parts(v):
    return list(v.a) if v.k == 'concat' else [v]


def base(it):
    while it.k == 'mcall' and it.a[0] in ('values', 'items', 'keys'):
        it = it.a[1]
    return it


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + c * k
        if not r[x]:
            del r[x]
    return r


def fixed(v):
    n = 0
    for p in parts(v):
        s = size(p)
        if set(s) - {1}:
            return None
        n += s.get(1, 0)
    return n


def size(p):
    """length of a piece of bytes, as a linear form"""
    if p.k == 'const' and isinstance(p.a[1], bytes):
        return {1: len(p.a[1])} if p.a[1] else {}
    if p.k == 'be' and has_cval(p.a[1]):
        return {1: cval(p.a[1])}
    if p.k == 'concat':
        return total(p.a)
    if p.k == 'rep':
        n = fixed(p.a[0])
        if n is not None and not any(c.k != 'inexact' for c, _ in p.a[2]):
            return {base(p.a[1]): n} if n else {}
        return {p: 1}
    f = flat(p)
    if f is not None:
        return {f: 2}
    return {p: 1}


def flat(p):
    """bytes made of a list of pairs"""
    if p.k == 'call' and p.a[0] in ('builtins.bytes', 'builtins.bytearray') and p.a[1] and \
            p.a[1][0].k == 'call' and p.a[1][0].a[0] in (
                'itertools.chain.from_iterable',) and p.a[1][0].a[1]:
        return p.a[1][0].a[1][0]
    return None


def total(ps):
    r = {}
    for p in ps:
        r = add(r, size(p))
    return r


def linear(v):
    if has_cval(v):
        return {1: cval(v)} if cval(v) else {}
    if v.k == 'len':
        x = v.a[0]
        if x.k in ('concat', 'rep', 'be'):
            return total(parts(x))
        return {base(x): 1}
    if v.k == 'bin' and v.a[0] == '*':
        a, b = v.a[1:]
        for x, y in ((a, b), (b, a)):
            if has_cval(x):
                return add({}, linear(y), cval(x))
    if v.k == 'bin' and v.a[0] in '+-':
        return add(linear(v.a[1]), linear(v.a[2]), 1 if v.a[0] == '+' else -1)
    return {v: 1}


class Writer:
    def __init__(self, value, subject):
        self.value = value
        self.subject = subject
        self.roles = {}       # path of the field in the structure -> attributes it comes from

    def match(self, specs):
        left = self.struct(specs, parts(self.value), ())
        left = [p for p in left if not (p.k == 'const' and not p.a[1])]
        if left:
            raise Mismatch(f'{show(left[0])} is written after the last field')

    def struct(self, specs, ps, path):
        for k, s in enumerate(specs):
            ps = self.field(s, ps, (*path, k))
        return ps

    def bytes(self, ps, n):
        """n constant bytes at the front, or None"""
        if ps and ps[0].k == 'const' and isinstance(ps[0].a[1], bytes) and len(ps[0].a[1]) >= n:
            d = ps[0].a[1]
            rest = [mk('const', 'bytes', d[n:])] if d[n:] else []
            return d[:n], rest + ps[1:]
        return None

    def bind(self, path, v):
        self.roles.setdefault(path, set()).update(roles(v, self.subject))

    def field(self, spec, ps, path):
        ps = [p for p in ps if not (p.k == 'const' and p.a[1] == b'')]
        bad = Mismatch(f'{show(ps[0]) if ps else "nothing"} is written where '
                       f'{expect(spec)} stands')
        if isinstance(spec, Rest):
            for p in ps:
                self.bind(path, p)
            return []
        if isinstance(spec, Obj):
            if not ps or ps[0].k not in ('mcall', 'fld', 'call'):
                raise bad
            self.bind(path, ps[0])
            return ps[1:]
        if not ps:
            raise bad
        if isinstance(spec, U | Raw):
            c = self.bytes(ps, spec.n)
            if c is not None:
                if spec.value is not None and int.from_bytes(c[0], 'big') != spec.value and \
                        c[0] != spec.value:
                    raise Mismatch(f'{c[0].hex()} is written, not {spec.value:#x}')
                return c[1]
            p = ps[0]
            if isinstance(spec, U):
                if p.k != 'be' or not has_cval(p.a[1]) or cval(p.a[1]) != spec.n:
                    raise bad
                if spec.value is not None:
                    raise Mismatch(f'{show(p.a[0])} is written, not {spec.value:#x}')
                self.bind(path, p.a[0])
            else:
                if p.k in ('be', 'rep', 'const'):
                    raise bad
                self.bind(path, p)
            return ps[1:]
        n = spec.n
        c = self.bytes(ps, n)
        if c is not None:
            length, ps = {1: int.from_bytes(c[0], 'big')}, c[1]
            length = {k: v for k, v in length.items() if v}
        elif ps[0].k == 'be' and has_cval(ps[0].a[1]) and cval(ps[0].a[1]) == n:
            length, ps = linear(ps[0].a[0]), ps[1:]
        else:
            raise bad
        inner, ps = self.prefix(length, ps, spec)
        if isinstance(spec, Vec):
            if spec.value is not None and (
                    len(inner) != 1 or inner[0].k != 'const' or inner[0].a[1] != spec.value):
                raise Mismatch(f'{spec.value.hex()} is not what is written')
            for p in inner:
                if p.k != 'const':
                    self.bind(path, p)
            return ps
        if isinstance(spec, Sub):
            left = self.struct(spec.items, inner, path)
            if left:
                raise Mismatch('a structure holds more than its fields')
            return ps
        for p in inner:
            if p.k == 'rep':
                left = self.struct(spec.items, parts(p.a[0]), path)
                if left:
                    raise Mismatch('an item of a list holds more than its fields')
            elif flat(p) is not None and isinstance(spec.items[0], U) and spec.items[0].n == 2:
                self.bind((*path, 0), p)
            else:
                raise Mismatch(f'{show(p)} is written as the items of a list')
        return ps

    def prefix(self, length, ps, spec):
        """the pieces the length counts"""
        acc = {}
        if not length:
            return [], ps
        taken = []
        rest = list(ps)
        while rest:
            p = rest.pop(0)
            k = set(length) - {1}
            if p.k == 'const' and not k and set(acc) <= {1}:
                need = length[1] - acc.get(1, 0)
                if len(p.a[1]) > need:
                    rest.insert(0, mk('const', 'bytes', p.a[1][need:]))
                    p = mk('const', 'bytes', p.a[1][:need])
            taken.append(p)
            acc = add(acc, size(p))
            if acc == length:
                return taken, rest
        raise Mismatch(f'the length written before {expect(spec)} is not the length of what follows')


def roles(v, subject):
    """the attributes of the subject a value is made from, as access paths"""
    r = role(v, subject)
    if r is not None:
        return {r}
    out = set()
    for y in v.a:
        if isinstance(y, V):
            out |= roles(y, subject)
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, V):
                    out |= roles(z, subject)
    return out


def role(v, subject):
    if v.k in ('fld', 'attr') and v.a[0] is subject:
        return (v.a[1],)
    if v.k in ('fld', 'attr'):
        r = role(v.a[0], subject)
        return r and (*r, v.a[1])
    if v.k == 'elem':
        return role(base(v.a[0]), subject)
    if v.k == 'item':
        r = role(v.a[0], subject)
        if r is None:
            return None
        if v.a[1].k == 'elem':
            return (*r, 'val')
        return (*r, str(cval(v.a[1]))) if has_cval(v.a[1]) else (*r, 'val')
    if v.k == 'unpk':
        r = role(v.a[0], subject)
        return r and (*r, str(v.a[1]))
    return None


def landed(p, st, obj, bound, path=(), seen=()):
    """{field of the structure: attributes that hold what was read for it}"""
    out = {}

    def put(leaf, r):
        out.setdefault(leaf, set()).add(r)

    def go(v, path, seen):
        if v in seen or len(seen) > 8:
            return
        seen = (*seen, v)
        if v in bound:
            put(bound[v], path)
            return
        if v.k == 'rep':
            go(v.a[0], path, seen)
            return
        o = st.heap.get(v)
        if o is not None:
            fields = annotated(o)
            for k, x in o.attrs.items():
                if k == '__args__' and x.k == 'tuple':
                    for i, y in enumerate(x.a):
                        go(y, (*path, fields[i] if i < len(fields) else str(i)), seen)
                elif not k.startswith('__'):
                    go(x, (*path, k), seen)
            for x in o.items or ():
                if isinstance(x, tuple):
                    go(x[0], path, seen)
                    go(x[1], (*path, 'val'), seen)
                else:
                    go(x, path, seen)
            return
        for y in v.a:
            if isinstance(y, V):
                go(y, path, seen)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, V):
                        go(z, path, seen)
    go(obj, path, seen)
    # a constant the value that was read was found equal to
    o = st.heap.get(obj)
    for t, leaf in bound.items():
        for k, x in (o.attrs.items() if o is not None else ()):
            if has_cval(x) and any(
                    f is True and c.k == 'cmp' and c.a[0] in ('==', 'is') and (
                        c.a[1] is t and has_cval(c.a[2]) and cval(c.a[2]) == cval(x)
                        or c.a[2] is t and has_cval(c.a[1]) and cval(c.a[1]) == cval(x))
                    or c is t and f is cval(x) for c, f in st.facts.items()):
                put(leaf, (*path, k))
    return out


def annotated(o):
    import ast
    c = o.cls.a[0] if o.cls is not None and o.cls.k in ('cls', 'anycls') else None
    if c is None or c.node is None:
        return []
    return [s.target.id for s in c.node.body
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]


__all__ = [n for n in dir() if not n.startswith('_')]
