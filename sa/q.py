"""Queries shared by the checks."""
from .terms import alts, cval, has_cval, show, walk


def classes_with(p, attr, module=None):
    """{enum member name: ClassInfo} of the classes that define attr as an enum member"""
    out = {}
    for c in p.classes.values():
        if c.qual.startswith('<dynamic>') or (module and c.module.name != module):
            continue
        v = p.find(c, attr)
        if v is not None and v.k == 'enum':
            out.setdefault(v.a[1], []).append(c)
    return out


def bounds(facts, x):
    """(lo, hi) such that the facts of a path imply lo <= x <= hi (None: unbounded)"""
    lo = hi = None

    def up(v):
        nonlocal hi
        hi = v if hi is None else min(hi, v)

    def down(v):
        nonlocal lo
        lo = v if lo is None else max(lo, v)
    for c, b in facts.items():
        if c.k != 'cmp':
            continue
        op, l, r = c.a
        if op == 'in' and l is x and b and r.k == 'call' and r.a[0] == 'builtins.range' and all(
                map(has_cval, r.a[1])):
            rg = [cval(y) for y in r.a[1]]
            a, z = (0, rg[0]) if len(rg) == 1 else rg[:2]
            down(a)
            up(z - 1)
            continue
        if l is x and has_cval(r) and isinstance(cval(r), int | float):
            k = cval(r)
        elif r is x and has_cval(l) and isinstance(cval(l), int | float):
            k = cval(l)
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        else:
            continue
        if op in ('==', 'is') and b:
            up(k)
            down(k)
        if not b:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}.get(op)
        if op == '<':
            up(k - 1)
        elif op == '<=':
            up(k)
        elif op == '>':
            down(k + 1)
        elif op == '>=':
            down(k)
    return lo, hi


def call_parts(v):
    """(callee, args, kws) of a call term"""
    if v.k == 'call':
        return v.a[0], v.a[1], dict(v.a[2])
    if v.k == 'mcall':
        return v.a[0], v.a[2], dict(v.a[3])
    return None, (), {}


def calls_in(v, name):
    return [x for x in walk(v) if x.k in ('call', 'mcall') and (
        x.a[0] == name or x.a[0].endswith('.' + name))]


def last(name):
    return name.rpartition('.')[2]


__all__ = ['alts', 'bounds', 'call_parts', 'calls_in', 'classes_with', 'last', 'show']
