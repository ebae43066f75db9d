"""Abstract values: hash-consed provenance terms.

A term says where a value comes from (which parameter, field, constant or
call), never what it is at run time.  Terms are interned, so equality is
identity and a fact recorded about a term holds for every use of it.
"""


class V:
    __slots__ = ('k', 'a', 'i')

    def __repr__(self):
        return show(self)


_intern = {}
_names = {}


def mk(k, *a):
    key = (k, a)
    v = _intern.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.i = len(_intern)
        _intern[key] = v
    return v


def const(x):
    return mk('const', type(x).__name__, x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = const(...)


def is_const(v):
    return v.k == 'const'


def cval(v):
    """Python value of a const / enum / tuple-of-consts term; raises KeyError."""
    if v.k == 'const':
        return v.a[1]
    if v.k == 'enum':
        return v.a[2]
    if v.k == 'tuple':
        return tuple(cval(x) for x in v.a)
    raise KeyError(v)


def has_cval(v):
    if v.k in ('const', 'enum'):
        return True
    return v.k == 'tuple' and all(has_cval(x) for x in v.a)


def sym(name, typ=None):
    return mk('sym', name, typ)


def phi(alts):
    s = []
    for a in alts:
        for x in (a.a if a.k == 'phi' else (a,)):
            if x not in s:
                s.append(x)
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda v: v.i)
    return mk('phi', *s)


def alts(v):
    return v.a if v.k == 'phi' else (v,)


def neg(v):
    if v.k == 'not':
        return v.a[0]
    if v.k == 'const':
        return const(not v.a[1])
    return mk('not', v)


DIGEST_SIZE = {'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha1': 20, 'sha224': 28, 'md5': 16}
BYTESY = {'concat', 'be', 'repb'}


def is_bytes(v):
    if v.k == 'const':
        return isinstance(v.a[1], bytes)
    return v.k in BYTESY or (v.k == 'call' and v.a[0] in (
        'hmac.digest', 'hash')) or (v.k == 'sym' and v.a[1] == 'bytes') or (
        v.k == 'rep' and is_bytes(v.a[0]))


def concat(parts):
    out = []
    for p in parts:
        for x in (p.a if p.k == 'concat' else (p,)):
            if x.k == 'const' and isinstance(x.a[1], bytes | bytearray):
                if not x.a[1]:
                    continue
                if out and out[-1].k == 'const' and isinstance(out[-1].a[1], bytes):
                    out[-1] = const(out[-1].a[1] + bytes(x.a[1]))
                    continue
            out.append(x)
    if not out:
        return const(b'')
    if len(out) == 1 and is_bytes(out[0]):
        return out[0]
    return mk('concat', *out)


def be(x, n):
    """big-endian integer of n bytes"""
    if has_cval(x) and has_cval(n):
        try:
            return const(int(cval(x)).to_bytes(cval(n), 'big'))
        except (OverflowError, ValueError, TypeError):
            pass
    if x.k == 'bin' and x.a[0] in ('|', '+') and has_cval(n) and isinstance(cval(n), int):
        # high << 24 | len(...): the high octets, then the length
        for c, y in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            if y.k == 'len' and has_cval(c) and type(cval(c)) is int and cval(c) > 0:
                low = ((cval(c) & -cval(c)).bit_length() - 1) // 8
                if 0 < low < cval(n) and cval(c) < 256 ** cval(n):
                    return concat([const((cval(c) >> 8 * low).to_bytes(cval(n) - low, 'big')),
                                   be(y, const(low))])
    return mk('be', x, n)


def walk(v, seen=None):
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, V):
                stack.append(y)
            elif isinstance(y, tuple):
                stack.extend(_flat(y))


def _flat(t):
    for y in t:
        if isinstance(y, V):
            yield y
        elif isinstance(y, tuple):
            yield from _flat(y)


def contains(v, pred):
    return any(pred(x) for x in walk(v))


def subst(v, old, new):
    if v is old:
        return new
    return v


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in v) + ')'
        return getattr(v, 'qual', None) or repr(v)
    if d > 6:
        return '…'
    k, a = v.k, v.a
    if k == 'const':
        r = repr(a[1])
        return r if len(r) < 60 else r[:50] + '…'
    if k == 'sym':
        return f'${a[0]}'
    if k == 'enum':
        return f'{a[0].name}.{a[1]}'
    if k == 'cls':
        return a[0].name
    if k == 'func':
        return a[0].qual
    if k == 'ext':
        return a[0]
    if k == 'mod':
        return a[0].name
    if k == 'obj':
        return f'<{a[0]}#{a[1]}>'
    if k == 'attr':
        return f'{show(a[0], d+1)}.{a[1]}'
    if k == 'item':
        return f'{show(a[0], d+1)}[{show(a[1], d+1)}]'
    if k == 'cmp':
        return f'({show(a[1], d+1)} {a[0]} {show(a[2], d+1)})'
    if k == 'bin':
        return f'({show(a[1], d+1)} {a[0]} {show(a[2], d+1)})'
    if k == 'not':
        return f'not {show(a[0], d+1)}'
    if k == 'call':
        r = [show(x, d + 1) for x in a[1]]
        r += [f'{n}={show(x, d+1)}' for n, x in a[2]]
        return f'{a[0]}({", ".join(r)})'
    if k == 'mcall':
        r = [show(x, d + 1) for x in a[2]]
        r += [f'{n}={show(x, d+1)}' for n, x in a[3]]
        return f'{show(a[1], d+1)}.{a[0]}({", ".join(r)})'
    if k == 'phi':
        return '{' + ' | '.join(show(x, d + 1) for x in a) + '}'
    if k == 'bound':
        return f'{show(a[1], d+1)}.{a[0].a[0].name if a[0].k == "func" else a[0]}'
    return f'{k}({", ".join(show(x, d+1) for x in a)})'
