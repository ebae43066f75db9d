"""Linear expressions over lengths, and the spans of a buffer a term stands for."""
from .terms import NONE, V, concat, cval, has_cval, mk, show


class Lin:
    """constant + sum of coefficient * atom"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c, self.t = c, frozenset((a, k) for a, k in dict(t).items() if k)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, {a: -k for a, k in self.t})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, k):
        return Lin(self.c * k, {a: x * k for a, x in self.t})

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.c, self.t) == (o.c, o.t)

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        return ' + '.join([*(f'{k}*{str(a)[:60]}' for a, k in self.t), str(self.c)])


def atom(a):
    return Lin(0, {a: 1})


class Space:
    """normal forms; `special(term)` names the atoms a check knows of"""

    def __init__(self, special=lambda v: None):
        self.special = special
        self.lins, self.spans = {}, {}

    # -- numbers
    def lin(self, v):
        r = self.lins.get(v)
        if r is None:
            r = self.lins[v] = self._lin(v)
        return r

    def _lin(self, v):
        s = self.special(v)
        if s is not None:
            return s if isinstance(s, Lin) else atom(s)
        if has_cval(v) and isinstance(cval(v), int):
            return Lin(int(cval(v)))
        if v.k == 'bin' and v.a[0] in '+-':
            a, b = self.lin(v.a[1]), self.lin(v.a[2])
            return a + b if v.a[0] == '+' else a - b
        if v.k == 'bin' and v.a[0] == '*':
            a, b = self.lin(v.a[1]), self.lin(v.a[2])
            if not a.t or not b.t:
                return b * a.c if not a.t else a * b.c
        if v.k == 'un' and v.a[0] == '-':
            return -self.lin(v.a[1])
        if v.k == 'len':
            return self.length(v.a[0])
        if v.k == 'ube':
            return atom(('ube', self.span(v.a[0])))
        if v.k == 'call' and v.a[0] == 'int.from_bytes' and v.a[1]:
            return atom(('ube', self.span(v.a[1][0])))
        if v.k == 'item' and has_cval(v.a[1]) is not None:
            r = self.octet(v)
            if r is not None:
                return atom(r)
        return atom(v)

    def octet(self, v):
        """an element of a sequence of octets: ('octet', base, where)"""
        base, lo, hi = self.span(v.a[0])
        k = self.lin(v.a[1])
        if not k.t and k.c < 0:
            end = hi if hi is not None else atom(('len', base))
            return ('octet', base, end + k)
        return ('octet', base, lo + k)

    def length(self, v):
        base, lo, hi = self.span(v)
        if hi is None:
            hi = self.whole(base)
        return hi - lo

    def whole(self, base):
        if isinstance(base, V):
            if base.k == 'const':
                return Lin(len(base.a[1]))
            if base.k == 'concat':
                t = Lin()
                for x in base.a:
                    t = t + self.length(x)
                return t
            if base.k == 'be' and has_cval(base.a[1]):
                return Lin(cval(base.a[1]))
            if base.k == 'repb':
                return self.lin(base.a[1])
        return atom(('len', base))

    # -- octets
    def span(self, v):
        r = self.spans.get(v)
        if r is None:
            r = self.spans[v] = self._span(v)
        return r

    def _span(self, v):
        """(base, from, to or None for its end)"""
        if v.k == 'slice' and len(v.a) == 3:
            base, lo, hi = self.span(v.a[0])
            a = Lin() if v.a[1] is NONE else self.lin(v.a[1])
            b = None if v.a[2] is NONE else self.lin(v.a[2])
            end = hi if hi is not None else None
            if not a.t and a.c < 0:
                nlo = (end if end is not None else self.whole(base)) + a
            else:
                nlo = lo + a
            if b is None:
                nhi = hi
            elif not b.t and b.c < 0:
                nhi = (end if end is not None else self.whole(base)) + b
            else:
                nhi = lo + b
            return base, nlo, nhi
        if v.k == 'call' and v.a[0] in ('builtins.bytes', 'builtins.memoryview',
                                        'builtins.bytearray') and len(v.a[1]) == 1:
            return self.span(v.a[1][0])
        if v.k == 'concat' and len(v.a) == 1:
            return self.span(v.a[0])
        if v.k == 'concat':
            v = concat([self.back(x) for x in v.a])
        return v, Lin(), None

    def back(self, v):
        return v

    def show(self, s):
        base, lo, hi = s
        return f'{show(base)[:60]}[{lo}:{"" if hi is None else hi}]'

    # -- what is known
    def facts(self, facts):
        """linear expressions that are at least 0"""
        out = []
        for c, b in facts.items():
            if c.k != 'cmp' or len(c.a) != 3:
                continue
            op, x, y = c.a
            if op not in ('<', '<=', '>', '>=', '==', '!='):
                continue
            if not (self.number(x) and self.number(y)):
                continue
            d = self.lin(x) - self.lin(y)       # x - y
            if op in ('==', '!='):
                if (op == '==') is b:
                    out += [d, -d]
                continue
            if not b:
                op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
            out.append({'<': -d + -1, '<=': -d, '>': d + -1, '>=': d}[op])
        return out

    def number(self, v):
        if has_cval(v):
            return isinstance(cval(v), int) and not isinstance(cval(v), bool)
        return True

    def implied(self, ge0, known):
        """expr >= 0 follows from one of the facts"""
        if not ge0.t and ge0.c >= 0:
            return True
        for f in known:
            d = ge0 - f
            if not d.t and d.c >= 0:
                return True
        return False


__all__ = ['Lin', 'Space', 'atom', 'mk']
