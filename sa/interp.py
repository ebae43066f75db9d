"""Disjunctive abstract interpreter for the Python subset siotls is written in.

It never runs the analysed code.  It propagates provenance terms (terms.py)
over the syntax tree, inlining the callees it can resolve and keeping one
abstract state per distinguishable outcome; loops are summarised (no
iteration / one arbitrary iteration from a havoc'ed state, to a fixpoint of
the changed variables), states are joined when they become too many.
Branch conditions are only remembered as facts about terms: there is no
constraint solver.
"""
import ast
import functools
import builtins
import math
import os
import sys

from .terms import (
    DIGEST_SIZE, ELL, FALSE, NONE, TRUE, V, alts, be, concat, const, cval, has_cval, is_bytes,
    is_const, mk, neg, phi, show, sym, walk,
)

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unsupported code)."""


# ---------------------------------------------------------------- entities

class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.qual = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.ns = {}
        self.state = 'new'


class ClassInfo:
    def __init__(self, name, qual, module, node):
        self.name = name
        self.qual = qual
        self.module = module
        self.node = node
        self.bases = []
        self.ns = {}
        self.ann = {}
        self.meta = None
        self.mro = []
        self.dataclass = False
        self.dc_kw = {}
        self.fields = {}
        self.subclasses = []

    def __repr__(self):
        return f'<class {self.qual}>'

    def repo_mro(self):
        return [c.a[0] for c in self.mro if c.k == 'cls']

    def ext_mro(self):
        return [c.a[0] for c in self.mro if c.k == 'ext']

    @property
    def is_enum(self):
        return any(e.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum', 'IntFlag', 'Flag')
                   for e in self.ext_mro())


class FuncInfo:
    def __init__(self, name, qual, module, node, owner, frame, kind):
        self.name = name
        self.qual = qual
        self.module = module
        self.node = node
        self.owner = owner      # ClassInfo or None
        self.frame = frame      # closure frame id or None
        self.kind = kind        # func static class property
        self.ctxmgr = False
        self.abstract = False
        self.is_gen = _is_gen(node)
        self.defaults = ()
        self.kwdefaults = {}
        self.has_inner = any(
            isinstance(n, ast.FunctionDef | ast.Lambda | ast.GeneratorExp)
            for n in ast.walk(node) if n is not node)

    def __repr__(self):
        return f'<func {self.qual}>'


def _is_gen(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Yield | ast.YieldFrom):
            return True
        if isinstance(n, ast.FunctionDef | ast.Lambda | ast.ClassDef | ast.GeneratorExp):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


@functools.lru_cache(None)
def as_comprehension(n, octets=None):
    """for x in it: l.append(f(x)), written l.extend([f(x) for x in it])"""
    if n.orelse or len(n.body) != 1:
        return None
    b = n.body[0]
    if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and \
            isinstance(b.target, ast.Name) and octets is not None and octets(b.target.id):
        if any(isinstance(x, ast.Name) and x.id == b.target.id
               for y in (b.value, n.iter, n.target) for x in ast.walk(y)):
            return None
        lc = ast.ListComp(b.value, [ast.comprehension(n.target, n.iter, [], 0)])
        call = ast.Call(ast.Attribute(ast.Constant(b''), 'join', ast.Load()), [lc], [])
        return ast.fix_missing_locations(ast.copy_location(
            ast.AugAssign(b.target, ast.Add(), ast.copy_location(call, n)), n))
    if not isinstance(b, ast.Expr):
        return None
    c = n.body[0].value
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and not c.keywords and
            c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and len(c.args) == 1
            and not isinstance(c.args[0], ast.Starred)):
        return None
    name = c.func.value.id
    if any(isinstance(x, ast.Name) and x.id == name
           for y in (c.args[0], n.iter, n.target) for x in ast.walk(y)):
        return None
    lc = ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])
    call = ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()), [lc], [])
    return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.copy_location(call, n)), n))


@functools.lru_cache(None)
def looked_up(fn):
    """the subscripts of a function in a try block that handles KeyError"""
    out = set()
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(
                h.type is not None and any(
                    isinstance(x, ast.Name) and x.id in ('KeyError', 'LookupError')
                    for x in ast.walk(h.type)) for h in t.handlers):
            out.update(x for b in t.body for x in ast.walk(b) if isinstance(x, ast.Subscript))
    return out


def digest_len(v):
    """the length of a digest, None for anything else"""
    if v.k == 'call' and v.a[0] in ('hmac.digest', 'hash'):
        alg = v.a[1][2] if v.a[0] == 'hmac.digest' else v.a[1][0]
        return DIGEST_SIZE.get(alg.a[1]) if alg.k == 'const' else None
    return None


class Obj:
    """Abstract heap object (immutable record)."""
    __slots__ = ('cls', 'kind', 'attrs', 'items', 'open', 'name', '_k')

    def __init__(self, cls, kind, attrs=None, items=None, open=False, name=None):
        self.cls = cls        # V (cls / anycls / ext) or None
        self.kind = kind      # instance list dict set bytearray hash ...
        self.attrs = attrs or {}
        self.items = items    # tuple or None
        self.open = open      # unknown further content
        self.name = name      # origin, e.g. 'conn'
        self._k = None

    def with_attr(self, n, v):
        a = dict(self.attrs)
        a[n] = v
        return Obj(self.cls, self.kind, a, self.items, self.open, self.name)

    def without_attr(self, n):
        a = dict(self.attrs)
        a.pop(n, None)
        return Obj(self.cls, self.kind, a, self.items, self.open, self.name)

    def with_items(self, items, open=None):
        return Obj(self.cls, self.kind, self.attrs, items,
                   self.open if open is None else open, self.name)

    def key(self):
        if self._k is None:
            self._k = (self.cls, self.kind, frozenset(self.attrs.items()), self.items,
                       self.open, self.name)
        return self._k


class Ev:
    __slots__ = ('kind', 'name', 'args', 'res', 'loc', 'fn', 'x', 'facts')

    def __init__(self, kind, name, args=(), res=None, loc=None, fn=None, x=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.res = res
        self.loc = loc
        self.fn = fn
        self.x = x

    def key(self):
        return (self.kind, self.name, self.args, self.res)

    def __repr__(self):
        a = ', '.join(show(x) if isinstance(x, V) else str(x) for x in self.args)
        r = f' -> {show(self.res)}' if isinstance(self.res, V) else ''
        return f'{self.kind}:{self.name}({a}){r} @{fmt_loc(self.loc)}'


def fmt_loc(loc):
    return f'{loc[0]}:{loc[1]}' if loc else '?'


class Tr:
    __slots__ = ('prev', 'ev', 'n', 'h')

    def __init__(self, prev, ev):
        self.prev = prev
        self.ev = ev
        self.n = (prev.n if prev else 0) + 1
        self.h = hash((prev.h if prev else 0, ev.key()))


class St:
    __slots__ = ('frames', 'heap', 'cur', 'facts', 'trace', 'stack', 'pend', 'nid', 'guards')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.cur = None
        self.facts = {}
        self.guards = {}   # (phi, alternative): what holds when the phi is that alternative
        self.trace = None
        self.stack = ()
        self.pend = ()
        self.nid = 1

    def copy(self):
        n = St()
        n.frames = self.frames
        n.heap = self.heap
        n.cur = self.cur
        n.facts = self.facts
        n.guards = self.guards
        n.trace = self.trace
        n.stack = self.stack
        n.pend = self.pend
        n.nid = self.nid
        return n

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t.ev)
            t = t.prev
        out.reverse()
        return out

    # -- functional updates
    def setvar(self, name, v, fid=None):
        fid = self.cur if fid is None else fid
        n = self.copy()
        f = dict(self.frames.get(fid, {}))
        f[name] = v
        n.frames = dict(self.frames)
        n.frames[fid] = f
        return n

    def delvar(self, name):
        n = self.copy()
        f = dict(self.frames[self.cur])
        f.pop(name, None)
        n.frames = dict(self.frames)
        n.frames[self.cur] = f
        return n

    def setobj(self, oid, obj):
        n = self.copy()
        n.heap = dict(self.heap)
        n.heap[oid] = obj
        return n

    def emit(self, ev):
        n = self.copy()
        n.trace = Tr(self.trace, ev)
        return n

    def fact(self, c, b):
        n = self.copy()
        n.facts = dict(self.facts)
        while c.k == 'not':
            c, b = c.a[0], not b
        n.facts[c] = b
        return n

    def trkey(self):
        return (self.trace.h, self.trace.n) if self.trace else None


RAISED = ' raised'
EXT_BASES = {
    'cryptography.exceptions.InvalidSignature': 'builtins.Exception',
    'cryptography.exceptions.InvalidTag': 'builtins.Exception',
    'cryptography.exceptions.InvalidKey': 'builtins.Exception',
    'cryptography.exceptions.UnsupportedAlgorithm': 'builtins.Exception',
    'cryptography.x509.ExtensionNotFound': 'builtins.Exception',
    'cryptography.x509.verification.VerificationError': 'builtins.Exception',
    'cryptography.x509.UnsupportedGeneralNameType': 'builtins.Exception',
    'cryptography.x509.DuplicateExtension': 'builtins.Exception',
    'idna.IDNAError': 'builtins.UnicodeError',
    'struct.error': 'builtins.Exception',
    'binascii.Error': 'builtins.ValueError',
    'enum.StrEnum': 'enum.Enum', 'enum.IntEnum': 'enum.Enum', 'enum.Enum': 'builtins.object',
    'builtins.<unknown>': 'builtins.Exception',
}


def ext_mro(name):
    if name.startswith('builtins.'):
        c = getattr(builtins, name[9:], None)
        if isinstance(c, type):
            return ['builtins.' + x.__name__ for x in c.__mro__]
    if name in EXT_BASES:
        return [name, *ext_mro(EXT_BASES[name])]
    return [name, 'builtins.object']


ALIASES = {
    'builtins.IOError': 'builtins.OSError',
    'builtins.EnvironmentError': 'builtins.OSError',
    'hmac.HMAC': 'hmac.new',
    'cryptography.x509.load_der_x509_certificate': 'cryptography.x509.load_der_x509_certificate',
    'cryptography.x509.extensions.ExtensionNotFound': 'cryptography.x509.ExtensionNotFound',
    'os.urandom': 'os.urandom',
    'secrets.compare_digest': 'hmac.compare_digest',
    '_operator._compare_digest': 'hmac.compare_digest',
    'operator.xor': 'operator.xor',
}


class Flow:
    __slots__ = ('norm', 'ret', 'brk', 'cont')

    def __init__(self, norm=()):
        self.norm = list(norm)
        self.ret = []
        self.brk = []
        self.cont = []


class Out:
    """One outcome of an analysed entry point."""
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val):
        self.kind = kind      # 'return' | 'raise'
        self.st = st
        self.val = val

    def events(self):
        return self.st.events()


FOLD_METHODS = {'upper', 'lower', 'strip', 'encode', 'decode', 'replace', 'hex', 'title', 'lstrip',
                'rstrip', 'startswith', 'endswith', 'split', 'join', 'bit_length', 'partition',
                'removeprefix', 'removesuffix', 'capitalize', 'casefold', 'swapcase', 'format'}
PURE_METHODS = FOLD_METHODS | {
    'get', 'to_bytes', 'public_key', 'public_bytes', 'public_bytes_raw', 'keys', 'values',
    'items', 'to_octets', 'to_code', 'public_numbers', 'name', 'copy', 'exchange', 'count', 'index',
    'get_extension_for_oid', 'get_extension_for_class', 'store', 'max_chain_depth',
    'build_client_verifier', 'build_server_verifier', 'get_revoked_certificate_by_serial_number',
    'to_bytes', 'isoformat', 'timestamp', 'getheader', 'parameters', 'union', 'intersection',
    'digest', 'hexdigest', 'peek', 'issubset', 'tolist', 'tobytes', 'time', 'replace',
    'add_certificate', 'build',
}
IMPURE_EXT = ('secrets.', 'os.urandom', 'random.', 'time.', 'datetime.', 'urllib.', 'socket.',
              'os.', 'logging.')


def assigns(ci, name):
    """do the methods of the class give the field another value than the class-level one?"""
    k = (ci.qual, name)
    if k not in _assigns:
        _assigns[k] = any(
            isinstance(t, ast.Attribute) and t.attr == name and not (
                isinstance(n.value, ast.Attribute) and n.value.attr == name
                and not isinstance(n.value.value, ast.Name)
                or isinstance(n.value, ast.Constant))
            for n in ast.walk(ci.node) if isinstance(n, ast.Assign)
            for t in n.targets)
    return _assigns[k]


_assigns = {}


class Interp:
    LIMIT = 48

    splitter = None     # tells apart the states a loop starts over in
    splitkeys = False   # one path per entry of the small tables of classes
    oracle = None       # forces the outcome of some tests
    rounds = 8      # how many times a loop whose tests are all decided is run

    def __init__(self, program, models=None, keep=None, limit=None, maxdepth=45):
        self.p = program
        self.models = models or {}
        self.xmodels = {}
        self.explicit = False    # loops: every state, not a generalisation
        self.monitors = []
        self.joinkey = None
        self.keep = keep
        self.rz = [[]]
        self.hooks = {}
        self.lists = []
        self.limit = limit or self.LIMIT
        self.maxdepth = maxdepth
        self.initing = False
        self.n_calls = 0
        self.n_branches = 0
        self.n_states = 0
        self.fns = set()
        self.opaque = set()
        self._rel = {}
        self.notes = []
        self.joins = 0

    # ------------------------------------------------------------ helpers
    def loc(self, node, st=None):
        fi = st.stack[-1] if st is not None and st.stack else None
        m = fi.module if fi is not None else self._mod
        line = getattr(node, 'lineno', 0)
        if m is None:
            return ('?', line)
        rel = self._rel.get(m)
        if rel is None:
            rel = self._rel[m] = os.path.relpath(m.path, self.p.root)
        return (rel, line)

    _mod = None

    def emit(self, st, kind, name, args=(), res=None, node=None, x=None):
        ev = Ev(kind, name, tuple(args), res, self.loc(node, st) if node is not None else None,
                st.stack[-1].qual if st.stack else None, x)
        for mon in self.monitors:
            mon(self, st, ev)
        if self.keep is not None and not self.keep(ev):
            return st
        return st.emit(ev)

    def throw(self, st, exc, node=None):
        st = self.emit(st, 'raise', show_exc(exc, st), (exc,), node=node)
        o = st.heap.get(exc) if exc.k == 'obj' else None
        if o is not None and RAISED not in o.attrs:     # where it was first raised
            st = st.setobj(exc, Obj(o.cls, o.kind, {**o.attrs, RAISED: mk(
                'at', self.loc(node, st) if node is not None else None,
                st.stack[-1].qual if st.stack else None)}, o.items, o.open, o.name))
        self.rz[-1].append((st, exc))

    def raise_ext(self, st, name, node=None, msg=''):
        self.throw(st, mk('exc', name, msg, self.loc(node, st) if node is not None else None), node)

    def new(self, st, obj, tag='o'):
        n = st.copy()
        oid = mk('obj', tag, st.nid)
        n.nid += 1
        n.heap = dict(st.heap)
        n.heap[oid] = obj
        return n, oid

    def fresh(self, st):
        n = st.copy()
        n.nid += 1
        return n, st.nid

    def newlist(self, st, items, kind='list', open=False):
        return self.new(st, Obj(mk('ext', 'builtins.' + kind), kind, items=tuple(items),
                                open=open), kind)

    # ---------------------------------------------------------- merging
    def dedupe(self, states):
        if len(states) <= 1:
            return states
        out = {}
        for st in states:
            out.setdefault(self._fullkey(st), st)
        return list(out.values())

    def _fullkey(self, st):
        return (st.trkey(), st.cur, st.stack, st.pend,
                frozenset((f, frozenset(d.items())) for f, d in st.frames.items()),
                frozenset((o, x.key()) for o, x in st.heap.items() - self.p.base_heap.items()),
                frozenset(st.facts.items()))

    def squeeze(self, states):
        if len(states) <= self.limit:
            return states
        states = self.dedupe(states)
        if len(states) <= self.limit:
            return states
        groups = {}
        for st in states:
            groups.setdefault((st.trkey(), st.cur, st.stack, st.pend,
                               self.joinkey and self.joinkey(st)), []).append(st)
        if len(groups) == len(states) and len(states) > 400:
            raise AnalysisError(f'state explosion: {len(states)} states in '
                                f'{states[0].stack[-1].qual if states[0].stack else "?"}')
        return [self.join(g) for g in groups.values()]

    def join(self, sts):
        if len(sts) == 1:
            return sts[0]
        self.joins += 1
        a = sts[0].copy()
        frames = {}
        for fid in [f for f in sts[0].frames if all(f in s.frames for s in sts[1:])]:
            ds = [s.frames[fid] for s in sts]
            if all(d is ds[0] for d in ds):
                frames[fid] = ds[0]
                continue
            f = {}
            for n in dict.fromkeys(k for d in ds for k in d):
                vs = [d[n] for d in ds if n in d]
                f[n] = vs[0] if any(not isinstance(v, V) for v in vs) else phi(vs)
            frames[fid] = f
        heap, mixed = {}, []
        for oid, o in sts[0].heap.items():
            if all(s.heap.get(oid) is o for s in sts[1:]):
                heap[oid] = o
            else:
                mixed.append(oid)
        mixed += [o for s in sts[1:] for o in s.heap if o not in sts[0].heap]
        for oid in dict.fromkeys(mixed):
            ss = [s for s in sts if oid in s.heap]
            os_ = [s.heap[oid] for s in ss]
            heap[oid] = os_[0] if all(o is os_[0] for o in os_) else self.join_obj(os_, ss, sts)
        facts = {c: b for c, b in sts[0].facts.items()
                 if all(s.facts.get(c) is b for s in sts[1:])}
        a.frames, a.heap, a.facts = frames, heap, facts
        a.guards = self.join_guards(sts, frames, facts)
        a.nid = max(s.nid for s in sts)
        return a

    def join_guards(self, sts, frames, facts):
        """what each alternative of a variable that the join leaves open implies"""
        out = {}
        fid = sts[0].cur
        ds = [s.frames.get(fid) for s in sts]
        old = {k for s in sts for k in s.guards}
        if fid in frames and all(d is not None for d in ds) and not all(
                d is ds[0] for d in ds) and len(sts) <= 64:
            extra = None
            for name, r in frames[fid].items():
                if not isinstance(r, V) or r.k != 'phi' or len(r.a) > 4:
                    continue
                vs = [d.get(name) for d in ds]
                if all(v is vs[0] for v in vs):
                    continue
                if extra is None:
                    extra = [{(c, b) for c, b in s.facts.items() if facts.get(c) is not b}
                             for s in sts]
                for x in r.a:
                    g = None
                    for s, v, e in zip(sts, vs, extra, strict=True):
                        if v is None:
                            continue
                        if v is x:
                            f = e
                        elif v.k == 'phi' and x in v.a:
                            f = e | s.guards.get((v, x), frozenset())
                        else:
                            continue
                        g = f if g is None else g & f
                    if g:
                        k = (r, x)
                        out[k] = out[k] & g if k in out else frozenset(g)
        for k in old:
            gs = [s.guards[k] for s in sts if k in s.guards]
            if len(gs) == len(sts):
                g = frozenset.intersection(*gs)
                out[k] = out[k] & g if k in out else g
            elif k in out:
                out[k] = frozenset.intersection(out[k], *gs)
        return {k: g for k, g in out.items() if g}

    def join_obj(self, os_, ss=(), sts=()):
        base = os_[0]
        attrs = {}
        for n in dict.fromkeys(k for o in os_ for k in o.attrs):
            attrs[n] = phi([o.attrs[n] for o in os_ if n in o.attrs])
        items = base.items
        open_ = any(o.open for o in os_)
        if any(o.items != base.items for o in os_):
            pre = []
            for col in zip(*((o.items or ()) for o in os_), strict=False):
                if all(c == col[0] for c in col):
                    pre.append(col[0])
                else:
                    break
            rest = []
            for o in os_:
                for it in (o.items or ())[len(pre):]:
                    if it not in rest:
                        rest.append(it)
            if base.kind == 'dict':
                allk = {}
                for o in os_:
                    for k, v in (o.items or ()):
                        allk.setdefault(k, []).append(v)
                items = tuple((k, phi(vs)) for k, vs in allk.items())
                open_ = True
            else:
                def held(r):
                    # what is known wherever the element is in the list
                    if base.kind != 'list' or len(sts) > 8:
                        return ()
                    fs = [set(s.facts.items()) for s, o in zip(ss, os_, strict=True)
                          if r in o.items[len(pre):]]
                    cs = set.intersection(*fs) - set.intersection(*[set(s.facts.items()) for s in sts])
                    return tuple(sorted(cs, key=lambda cb: cb[0].i))

                def rep(r):
                    cs = held(r)
                    out = [s.facts for s, o in zip(ss, os_, strict=True)
                           if r not in o.items[len(pre):]]
                    cs = tuple((c, b) for c, b in cs if all(f.get(c) is (not b) for f in out))
                    if cs and out:
                        return mk('rep', r, mk('when'), cs)
                    return mk('rep', r, mk('maybe'), ())
                items = tuple(pre) + tuple(
                    r if isinstance(r, V) and r.k == 'rep' else rep(r) for r in rest)
        return Obj(base.cls, base.kind, attrs, items, open_, base.name)

    # ---------------------------------------------------------- truth / facts
    def truth(self, v, st):
        k = v.k
        if k == 'const':
            return bool(v.a[1])
        if k == 'enum':
            try:
                return bool(v.a[2])
            except Exception:
                return True
        if k in ('cls', 'func', 'mod', 'ext', 'bound', 'anycls', 'exc', 'gen', 'partial', 'super'):
            return True
        if k == 'tuple':
            if any(x.k != 'rep' for x in v.a):
                return True
            return False if not v.a else st.facts.get(v)
        if k == 'not':
            t = self.truth(v.a[0], st)
            return None if t is None else not t
        if k == 'obj':
            o = st.heap.get(v)
            if o is None:
                return None
            if o.kind == 'instance':
                if st.facts.get(v) is not None:
                    return st.facts[v]
                if o.cls is not None and o.cls.k == 'cls' and (
                        self.p.find(o.cls.a[0], '__len__') or self.p.find(o.cls.a[0], '__bool__')):
                    return None
                return True
            if o.kind in ('list', 'dict', 'set', 'bytearray') and o.items is not None:
                if o.kind == 'dict':
                    if o.items:
                        return True
                elif o.kind == 'bytearray':
                    if any(x.k == 'be' or x.k == 'const' and x.a[1] for x in o.items):
                        return True
                    if o.items and not o.open:
                        return self.truth(concat(o.items), st)
                elif any(x.k != 'rep' for x in o.items):
                    return True
                if not o.items and not o.open:
                    return False
                return st.facts.get(v)
            if o.kind in ('hash',):
                return True
            return st.facts.get(v)
        if k == 'phi':
            ts = {self.truth(x, st) for x in v.a}
            if len(ts) == 1:
                return ts.pop()
            return st.facts.get(v)
        if k == 'concat':
            return True if any(
                x.k in ('const', 'be') or x.k == 'sym' and x.a[1] == 'set' for x in v.a) else st.facts.get(v)
        if k == 'be':
            return True
        if k == 'call' and v.a[0] in ('hmac.digest', 'hash'):
            return True
        if k == 'slice' and digest_len(v.a[0]) and v.a[1] in (NONE, const(0)) and has_cval(v.a[2]) \
                and isinstance(cval(v.a[2]), int) and cval(v.a[2]) > 0:
            return True
        if k == 'repb' and has_cval(v.a[0]) and cval(v.a[0]) and v.a[1].k == 'attr' \
                and v.a[1].a[1] == 'digest_size':
            return True
        if k == 'bool':
            return self.truth(v.a[0], st)
        if k == 'sym' and v.a[1] == 'set':
            return True
        if k == 'mcall' and v.a[1].k == 'anycls':
            made = [self.p.find(c.a[0], v.a[0]) for c in v.a[1].a[2] if c.k == 'cls']
            made = [x.a[0] if x is not None and x.k == 'partial' else x for x in made]
            if made and all(x is not None and x.k == 'ext' and
                            x.a[0].rsplit('.', 1)[-1][:1].isupper() for x in made):
                return True     # instances of library classes
        if self.oracle is not None:
            f = self.oracle(v, st)
            if f is not None:
                return f
        f = st.facts.get(v)
        if f is not None:
            return f
        if k == 'cmp':
            return self.cmp_known(v, st)
        if st.facts.get(mk('cmp', 'is', v, NONE)) is True:
            return False
        for c in st.facts:
            if c.k == 'cmp' and c.a[1] is v and st.facts[c] is True and c.a[0] in ('==', 'is') \
                    and has_cval(c.a[2]):
                return bool(cval(c.a[2]))
        return None

    def cmp_known(self, v, st):
        op, a, b = v.a
        f = st.facts.get(v)
        if f is not None:
            return f
        if op in ('==', 'is'):
            if has_cval(a) and has_cval(b):
                pass
            if b is NONE:
                if a.k in ('enum', 'obj', 'cls', 'func', 'bound', 'tuple', 'concat', 'be', 'anycls',
                           'enumcast', 'bytes', 'ext', 'mod', 'fstr', 'elemkey', 'len', 'gen'):
                    return False
                if a.k == 'const':
                    return a.a[1] is None
                if a.k == 'sym' and a.a[1] is not None and a.a[1] is not NONE:
                    if not (isinstance(a.a[1], V) and a.a[1].k == 'opt'):
                        return False
                if st.facts.get(a) is True:
                    return False
            if has_cval(b):
                bv = cval(b)
                # constant disjointness: the same term equals another constant
                for c, t in st.facts.items():
                    if c.k == 'cmp' and c.a[1] is a and t is True and has_cval(c.a[2]):
                        if c.a[0] == '==' or (c.a[0] == 'is'):
                            cv = cval(c.a[2])
                            if op == '==':
                                return cv == bv
                            if c.a[0] == 'is':
                                return c.a[2] is b
                            if cv != bv:
                                return False
                if op == '==' and not bv and st.facts.get(a) is True and bv is not None:
                    return False
                if op == 'is':
                    if st.facts.get(mk('cmp', '==', a, b)) is False:
                        return False
                elif st.facts.get(mk('cmp', 'is', a, b)) is True:
                    return True
                if st.facts.get(a) is True and not bv:
                    return False
        if op == 'in' and b.k == 'const' and not b.a[1]:
            return False
        return None

    def branch(self, v, st, node=None):
        """-> list of (state, bool)"""
        self.n_branches += 1
        t = self.truth(v, st)
        if t is not None:
            return [(st, t)]
        if v.k == 'not':
            return [(s, not b) for s, b in self.branch(v.a[0], st, node)]
        if v.k == 'bool':
            return self.branch(v.a[0], st, node)
        o = st.heap.get(v) if v.k == 'obj' else None
        if o is not None and o.kind == 'bytearray' and o.items and not o.open:
            return self.branch(concat(o.items), st, node)   # what it holds now
        if v.k == 'phi':
            out = []
            groups = {True: [], False: [], None: []}
            for x in v.a:
                groups[self.truth(x, st)].append(x)
            for b in (True, False):
                cand = groups[b] + groups[None]
                if not cand:
                    continue
                nv = phi(cand)
                s = self.replace_everywhere(st, v, nv)
                if len(cand) == 1 and groups[None]:
                    s = self.assume(s, nv, b, node)
                elif nv.k == 'phi':
                    s = s.fact(nv, b)
                out.append((s, b))
            return out
        return [(self.assume(st, v, True, node), True), (self.assume(st, v, False, node), False)]

    def assume(self, st, v, b, node=None):
        while v.k == 'not':
            v, b = v.a[0], not b
        st = self.implied(st.fact(v, b), v, b)
        return self.emit(st, 'assume', '', (v, TRUE if b else FALSE), node=node)

    def implied(self, st, v, b):
        """what the outcome of a test says of every element it looked at"""
        if v.k == ('all' if b else 'any'):
            for r in v.a:
                if not r.a[2] and r.a[0].k not in ('const', 'phi'):
                    st = st.fact(r.a[0], b)
        elif v.k == 'obj' and not b:
            o = st.heap.get(v)
            if o is not None and o.kind in ('list', 'set'):
                st = self.none_of(st, o.items or ())
        return st

    def none_of(self, st, items):
        """no element passed the filter of a comprehension"""
        for r in items:
            if r.k == 'rep' and len(r.a[2]) == 1:
                ((c, b),) = r.a[2]
                st = st.fact(c, not b)
        return st

    def replace_everywhere(self, st, old, new):
        n = st.copy()
        n.frames = {}
        for fid, d in st.frames.items():
            if old in d.values():
                d = {k: (new if x is old else x) for k, x in d.items()}
            n.frames[fid] = d
        hp = {}
        for oid, o in st.heap.items() - self.p.base_heap.items():
            if old in o.attrs.values():
                hp[oid] = Obj(o.cls, o.kind, {k: (new if x is old else x)
                                              for k, x in o.attrs.items()},
                              o.items, o.open, o.name)
        if hp:
            n.heap = {**st.heap, **hp}
        if st.guards and old.k == 'phi':
            alts_ = new.a if new.k == 'phi' else (new,)
            gs = [st.guards.get((old, x)) for x in alts_]
            if all(gs):
                g = sorted(frozenset.intersection(*gs), key=lambda cb: cb[0].i)
                n.facts = {**n.facts, **dict(g)}
            if new.k == 'phi':
                n.guards = {**st.guards, **{(new, x): g for x, g in zip(
                    alts_, gs, strict=True) if g}}
        return n

    # ---------------------------------------------------------- comparisons
    def mkcmp(self, op, a, b, st=None):
        if op == '!=':
            return neg(self.mkcmp('==', a, b, st))
        if op == 'is not':
            return neg(self.mkcmp('is', a, b, st))
        if op == 'not in':
            return neg(self.mkcmp('in', a, b, st))
        if op == '>':
            return self.mkcmp('<', b, a, st)
        if op == '<=':
            return neg(self.mkcmp('<', b, a, st))
        if op == '>=':
            return neg(self.mkcmp('<', a, b, st))
        if op == 'is':
            if a is b and a.k != 'top':
                return TRUE
            ident = ('enum', 'cls', 'func', 'obj')
            if a.k in ident and b.k in ident:
                return FALSE
            if {a.k, b.k} <= {'const', 'enum', 'cls', 'func', 'obj', 'ext', 'mod', 'tuple'}:
                if a.k == 'const' and b.k == 'const':
                    return const(a.a == b.a)
                if not (a.k == 'ext' and b.k == 'ext'):
                    return FALSE
            if has_cval(a) and not has_cval(b):
                a, b = b, a
            return mk('cmp', 'is', a, b)
        if op == '==':
            if a is b and a.k not in ('top',):
                return TRUE
            if has_cval(a) and has_cval(b):
                try:
                    return const(bool(cval(a) == cval(b)))
                except Exception:
                    pass
            if a.k == 'cls' and b.k == 'cls':
                return FALSE
            if a.k == 'obj' and b.k == 'obj' and st is not None:
                oa, ob = st.heap.get(a), st.heap.get(b)
                if oa and ob and oa.kind in ('list', 'bytearray') and oa.items is not None \
                        and ob.items is not None and oa.items == ob.items and not oa.open:
                    return TRUE
            if b is NONE or a is NONE:
                return self.mkcmp('is', a, b, st)
            if has_cval(a) and not has_cval(b):
                a, b = b, a
            elif not has_cval(b) and a.i > b.i:
                a, b = b, a
            if a.k == 'len' and b.k == 'const' and b.a[1] == 0:
                return neg(mk('bool', a.a[0])) if a.a[0].k != 'not' else neg(a.a[0])
            return mk('cmp', '==', a, b)
        if op == '<':
            if has_cval(a) and has_cval(b):
                try:
                    return const(bool(cval(a) < cval(b)))
                except Exception:
                    pass
            if a.k == 'const' and a.a[1] == 0 and b.k == 'len':
                return mk('bool', b.a[0])
            return mk('cmp', '<', a, b)
        if op == 'in':
            return mk('cmp', 'in', a, b)
        return mk('cmp', op, a, b)

    def known_items(self, v, st):
        """tuple of element terms of a container with no unknown part, else None"""
        if v.k == 'tuple' and all(x.k != 'rep' for x in v.a):
            return v.a
        if v.k == 'obj':
            o = st.heap.get(v)
            if o and o.items is not None and not o.open:
                if o.kind == 'dict':
                    return tuple(k for k, _ in o.items)
                if o.kind in ('list', 'set') and all(x.k != 'rep' for x in o.items):
                    return o.items
        if v.k == 'cls' and v.a[0].is_enum:
            return tuple(x for x in v.a[0].ns.values() if x.k == 'enum')
        return None

    def compare(self, op, a, b, st, node):
        """-> list of (st, V)"""
        if op in ('in', 'not in'):
            items = self.known_items(b, st)
            o = st.heap.get(b) if b.k == 'obj' else None
            if items is None and o is not None and o.kind == 'list' and not o.open and o.items \
                    and all(x.k != 'rep' or x.a[1].k == 'when' for x in o.items):
                items = o.items
            if items is not None:
                out = []
                pend = [st]
                for it in items:
                    nxt = []
                    if it.k == 'rep':       # in the list under a condition
                        yes = []
                        for s in pend:
                            c, b = it.a[2][0]
                            for s2, t in self.branch(c, s, node):
                                (yes if t is b else nxt).append(s2)
                        pend, it = yes, it.a[0]
                    for s in pend:
                        for s2, t in self.branch(self.mkcmp('==', a, it, s), s, node):
                            if t:
                                out.append((s2, TRUE if op == 'in' else FALSE))
                            else:
                                nxt.append(s2)
                    pend = nxt
                out += [(s, FALSE if op == 'in' else TRUE) for s in pend]
                return out
            if a.k == 'phi' and 2 <= len(a.a) <= 6:
                out = []
                for x in a.a:
                    s = self.replace_everywhere(st, a, x)
                    out.append((s, self.mkcmp(op, x, b, s)))
                return out
            return [(st, self.mkcmp(op, a, b, st))]
        if (a.k == 'phi' or b.k == 'phi') and op in ('==', '!=', 'is', 'is not'):
            # split a phi so that each alternative is compared on its own
            p = a if a.k == 'phi' else b
            if len(p.a) <= 8:
                out = []
                for x in p.a:
                    s = self.replace_everywhere(st, p, x)
                    out.extend(self.compare(op, x if p is a else a, x if p is b else b, s, node))
                return out
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.k == 'obj' and x in st.heap and op in ('==', '!='):
                o = st.heap[x]
                if o.kind == 'instance' and o.cls is not None and o.cls.k == 'cls':
                    f = self.p.find(o.cls.a[0], '__eq__')
                    if f is not None and f.k == 'func':
                        res = self.call_func(st, f.a[0], [x, y], {}, node)
                        return [(s, v if op == '==' else neg(v)) for s, v in res]
        return [(st, self.mkcmp(op, a, b, st))]

    # ---------------------------------------------------------- statements
    def block(self, stmts, sts):
        fl = Flow(sts)
        for stmt in stmts:
            if not fl.norm:
                break
            cur = self.squeeze(fl.norm)
            fl.norm = []
            for st in cur:
                r = self.stmt(stmt, st)
                fl.norm += r.norm
                fl.ret += r.ret
                fl.brk += r.brk
                fl.cont += r.cont
        return fl

    def stmt(self, n, st):
        self.n_states += 1
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError(f'unsupported statement {type(n).__name__} at {self.loc(n, st)}')
        return m(n, st)

    def s_Pass(self, n, st):
        return Flow([st])

    def s_Expr(self, n, st):
        return Flow([s for s, _ in self.ev(n.value, st)])

    def s_Assign(self, n, st):
        fl = Flow()
        for s, v in self.ev(n.value, st):
            ss = [s]
            for t in n.targets:
                ss = [s3 for s2 in ss for s3 in self.assign(t, v, s2)]
            fl.norm += ss
        return fl

    def s_AnnAssign(self, n, st):
        fr = st.frames.get(st.cur, {})
        if '__classbody__' in fr and isinstance(n.target, ast.Name):
            fr['__classbody__'].a[0].ann[n.target.id] = n.annotation
        if n.value is None:
            return Flow([st])
        fl = Flow()
        for s, v in self.ev(n.value, st):
            fl.norm += self.assign(n.target, v, s)
        return fl

    def s_AugAssign(self, n, st):
        fl = Flow()
        op = BINOPS[type(n.op)]
        load = _as_load(n.target)
        # evaluate target base once through the load form
        for s, cur in self.ev(load, st):
            for s2, v in self.ev(n.value, s):
                o = s2.heap.get(cur) if cur.k == 'obj' else None
                if o is not None and o.kind in ('list', 'bytearray') and op == '+':
                    s3 = self.mutate(s2, cur, 'extend', (v,), n)
                    fl.norm += self.assign(n.target, cur, s3)
                    continue
                for s3, r in self.binop(op, cur, v, s2, n):
                    s3 = self.emit(s3, 'aug', op, (cur, v), r, n)
                    fl.norm += self.assign(n.target, r, s3)
        return fl

    def s_Delete(self, n, st):
        sts = [st]
        for t in n.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Name):
                    nxt.append(s.delvar(t.id) if s.cur is not None and not self.at_module(s)
                               else self._delmod(s, t.id))
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s):
                        for s3, k in self.ev(t.slice, s2):
                            if b.k in ('slice', 'concat') and k.k == 'sl' and \
                                    k.a[2:] in ((), (NONE,)) and (NONE in k.a[:2]):
                                # octets in no object: what is left is put in their place
                                lo, hi = k.a[:2]
                                v = mk('slice', b, hi, NONE) if lo is NONE else \
                                    mk('slice', b, NONE, lo)
                                s3 = self.emit(s3, 'mutate', '__delitem__', (b, k), node=n)
                                nxt += self.assign(t.value, v if hi is not lo else const(b''), s3)
                                continue
                            nxt.append(self.mutate(s3, b, '__delitem__', (k,), n))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        o = s2.heap.get(b)
                        if o is not None:
                            s2 = s2.setobj(b, o.without_attr(t.attr))
                        nxt.append(self.emit(s2, 'delattr', t.attr, (b,), node=n))
            sts = nxt
        return Flow(sts)

    def at_module(self, st):
        return isinstance(st.cur, tuple) and st.cur[0] == 'mod'

    def _delmod(self, st, name):
        self.p.modules[st.cur[1]].ns.pop(name, None)
        return st

    def s_Return(self, n, st):
        fl = Flow()
        if n.value is None:
            fl.ret.append((st, NONE))
        else:
            fl.ret += self.ev(n.value, st)
        return fl

    def s_Break(self, n, st):
        fl = Flow()
        fl.brk.append(st)
        return fl

    def s_Continue(self, n, st):
        fl = Flow()
        fl.cont.append(st)
        return fl

    def s_If(self, n, st):
        fl = Flow()
        tr, fa = [], []
        for s, b in self.cond(n.test, st):
            (tr if b else fa).append(s)
        for body, ss in ((n.body, tr), (n.orelse, fa)):
            if not ss:
                continue
            r = self.block(body, ss) if body else Flow(ss)
            fl.norm += r.norm
            fl.ret += r.ret
            fl.brk += r.brk
            fl.cont += r.cont
        return fl

    def cond(self, test, st):
        """Evaluate a test in branching position -> list of (st, bool)."""
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            out = []
            pend = [st]
            for i, t in enumerate(test.values):
                nxt = []
                for s in pend:
                    for s2, b in self.cond(t, s):
                        if b is is_and and i < len(test.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                pend = nxt
            return out
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(s, not b) for s, b in self.cond(test.operand, st)]
        out = []
        for s, v in self.ev(test, st):
            out += self.branch(v, s, test)
        return out

    def s_Assert(self, n, st):
        fl = Flow()
        for s, b in self.cond(n.test, st):
            if b:
                fl.norm.append(s)
            else:
                self.raise_ext(self.emit(s, 'assertfail', '', (), node=n),
                               'builtins.AssertionError', n)
        return fl

    def s_Raise(self, n, st):
        if n.exc is None:
            exc = None
            fid = st.cur
            while fid is not None and exc is None:
                exc = st.frames.get(fid, {}).get('__exc__')
                fid = st.frames.get(fid, {}).get('__parent__') if exc is None else None
            self.throw(st, exc if exc is not None else mk('exc', 'builtins.RuntimeError', ''), n)
            return Flow()
        for s, v in self.ev(n.exc, st):
            ss = [s]
            if n.cause is not None:
                ss = [s2 for s2, _ in self.ev(n.cause, s)]
            for s2 in ss:
                if v.k in ('cls', 'anycls') or (v.k == 'ext'):
                    for s3, o in self.call(s2, v, [], {}, n):
                        self.throw_value(s3, o, n)
                else:
                    self.throw_value(s2, v, n)
        return Flow()

    def throw_value(self, st, v, n):
        if v.k == 'obj' and v in st.heap:
            c = st.heap[v].cls
            if c is not None and c.k == 'anycls':
                ok = [x for x in c.a[2] if self.p.is_subclass(x, 'builtins.BaseException')]
                if len(ok) < len(c.a[2]):
                    self.raise_ext(st, 'builtins.TypeError', n, 'raise of a non-exception')
                if ok:
                    self.throw(st, v, n)
                return
            if c is not None and c.k == 'cls' and not self.p.is_subclass(
                    c, 'builtins.BaseException'):
                self.raise_ext(st, 'builtins.TypeError', n, 'raise of a non-exception')
                return
        self.throw(st, v, n)

    def s_Global(self, n, st):
        for name in n.names:
            st = st.setvar('__global__' + name, TRUE)
        return Flow([st])

    def s_Nonlocal(self, n, st):
        for name in n.names:
            st = st.setvar('__nonlocal__' + name, TRUE)
        return Flow([st])

    def s_Import(self, n, st):
        for al in n.names:
            top = al.name.split('.')[0]
            if al.name.split('.')[0] in self.p.tops:
                self.p.load(al.name, self)
                m = self.p.modules[al.name if al.asname else top]
                v = mk('mod', m)
            else:
                v = mk('ext', al.name if al.asname else top)
            st = self.bind_name(st, al.asname or top, v)
        return Flow([st])

    def s_ImportFrom(self, n, st):
        mod = self.cur_module(st)
        if n.level:
            base = mod.name.split('.')
            if not mod.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)] if n.level > 1 else base
            name = '.'.join(base + ([n.module] if n.module else []))
        else:
            name = n.module
        if name.split('.')[0] not in self.p.tops:
            for al in n.names:
                st = self.bind_name(st, al.asname or al.name, ext(f'{name}.{al.name}'))
            return Flow([st])
        self.p.load(name, self)
        m = self.p.modules.get(name)
        for al in n.names:
            v = m.ns.get(al.name) if m else None
            if v is None and self.p.path_of(f'{name}.{al.name}'):
                self.p.load(f'{name}.{al.name}', self)
                v = mk('mod', self.p.modules[f'{name}.{al.name}'])
            if v is None:
                if m is None:
                    raise AnalysisError(f'no module {name}')
                v = mk('sym', f'{name}.{al.name}', None)
                self.raise_ext(st, 'builtins.ImportError', n)
                return Flow()
            st = self.bind_name(st, al.asname or al.name, v)
        return Flow([st])

    def cur_module(self, st):
        if isinstance(st.cur, tuple) and st.cur[0] == 'mod':
            return self.p.modules[st.cur[1]]
        if st.stack:
            return st.stack[-1].module
        return self._mod

    def bind_name(self, st, name, v):
        if isinstance(st.cur, tuple) and st.cur[0] == 'mod':
            if self.initing:
                self.p.modules[st.cur[1]].ns[name] = v
                return st
        fr = st.frames.get(st.cur, {})
        if '__global__' + name in fr:
            m = self.cur_module(st)
            if self.initing:
                m.ns[name] = v
                return st
            st = self.emit(st, 'setglobal', f'{m.name}.{name}', (v,))
            return st.setvar(name, v, ('mod', m.name))
        if '__nonlocal__' + name in fr:
            fid = fr.get('__parent__')
            while fid is not None:
                if name in st.frames.get(fid, {}):
                    return st.setvar(name, v, fid)
                fid = st.frames.get(fid, {}).get('__parent__')
        return st.setvar(name, v)

    def s_FunctionDef(self, n, st):
        out = []
        for s, f in self.mkfunc(n, st):
            sts = [(s, f)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s2, f2 in sts:
                    nxt += self.decorate(d, f2, s2)
                sts = nxt
            for s2, f2 in sts:
                out.append(self.bind_name(s2, n.name, f2))
        return Flow(out)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, f, st):
        if f.k == 'func':
            fi = f.a[0]
            name = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) \
                else None
            if name in ('classmethod',):
                fi.kind = 'class'
                return [(st, f)]
            if name in ('abstractclassmethod',):
                fi.kind = 'class'
                fi.abstract = True
                return [(st, f)]
            if name == 'abstractmethod':
                fi.abstract = True
                return [(st, f)]
            if name == 'staticmethod':
                fi.kind = 'static'
                return [(st, f)]
            if name in ('property', 'cached_property'):
                fi.kind = 'property'
                return [(st, f)]
            if name == 'contextmanager':
                fi.ctxmgr = True
                return [(st, f)]
            if name in ('setter', 'getter', 'deleter'):
                return [(st, f)]
            if name in ('cache', 'lru_cache', 'wraps', 'override'):
                return [(st, f)]
        out = []
        for s, dv in self.ev(d, st):
            if dv.k == 'ext' or dv.k == 'call':
                nm = dv.a[0]
                if 'dataclass' in nm and f.k == 'cls':
                    ci = f.a[0]
                    ci.dataclass = True
                    ci.dc_kw = {k: v for k, v in dv.a[2]} if dv.k == 'call' else {}
                    for fn in list(ci.ann):
                        fv = ci.ns.get(fn)
                        if fv is not None and fv.k == 'call' and fv.a[0] == 'dataclasses.field':
                            ci.fields[fn] = fv
                            kw = dict(fv.a[2])
                            if 'default' in kw:
                                ci.ns[fn] = kw['default']
                            else:
                                del ci.ns[fn]
                out.append((s, f))
            else:
                out += self.call(s, dv, [f], {}, d)
        return out

    def mkfunc(self, n, st, name=None):
        name = name or getattr(n, 'name', '<lambda>')
        fr = st.frames.get(st.cur, {})
        mod = self.cur_module(st)
        owner = None
        if '__classbody__' in fr:
            owner = fr['__classbody__'].a[0]
            frame = fr.get('__parent__')
            qual = f'{owner.qual}.{name}'
        elif isinstance(st.cur, tuple):
            frame = None
            qual = f'{mod.name}.{name}'
        else:
            frame = st.cur
            qual = f'{st.stack[-1].qual if st.stack else mod.name}.<locals>.{name}'
            owner = None
        key = (id(n), frame, qual)
        fi = self.p.funcs.get(key)
        if fi is None:
            fi = FuncInfo(name, qual, mod, n, owner, frame, 'func')
            if frame is not None and st.stack:
                fi.encl_owner = st.stack[-1].owner or getattr(st.stack[-1], 'encl_owner', None)
            self.p.funcs[key] = fi
        a = n.args
        out = []
        for s, vals in self.evs(list(a.defaults), st):
            for s2, kvals in self.evs([d for d in a.kw_defaults if d is not None], s):
                names = [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults, strict=True)
                         if d is not None]
                fi.node_defaults = True
                out.append((s2, mk('func', fi, tuple(vals), tuple(zip(names, kvals, strict=True)))))
        return out

    def s_ClassDef(self, n, st):
        fl = Flow()
        for s, bases in self.evs(list(n.bases), st):
            for s2, kvals in self.evs([k.value for k in n.keywords], s):
                kws = {k.arg: v for k, v in zip(n.keywords, kvals, strict=True)}
                mod = self.cur_module(s2)
                fr = s2.frames.get(s2.cur, {})
                if '__classbody__' in fr:
                    qual = f'{fr["__classbody__"].a[0].qual}.{n.name}'
                elif isinstance(s2.cur, tuple):
                    qual = f'{mod.name}.{n.name}'
                else:
                    qual = f'{s2.stack[-1].qual}.<locals>.{n.name}'
                ci = ClassInfo(n.name, qual, mod, n)
                cv = mk('cls', ci)
                ci.bases = bases
                fid = ('cls', s2.nid)
                s3, _ = self.fresh(s2)
                outer = s3.cur
                s3 = s3.copy()
                s3.frames = dict(s3.frames)
                s3.frames[fid] = {'__classbody__': cv, '__parent__': outer
                                  if not isinstance(outer, tuple) else None}
                s3.cur = fid
                r = self.block(n.body, [s3])
                for s4 in r.norm:
                    ns = {k: v for k, v in s4.frames[fid].items() if not k.startswith('__class')
                          and k != '__parent__'}
                    s4 = s4.copy()
                    s4.frames = dict(s4.frames)
                    del s4.frames[fid]
                    s4.cur = outer
                    for s5 in self.finish_class(s4, ci, ns, kws, n):
                        sts = [(s5, cv)]
                        for d in reversed(n.decorator_list):
                            sts = [x for a, b in sts for x in self.decorate(d, b, a)]
                        for s6, v in sts:
                            fl.norm.append(self.bind_name(s6, n.name, v))
        return fl

    def finish_class(self, st, ci, ns, kws, node):
        cv = mk('cls', ci)
        ci.ns = ns
        ci.meta = kws.pop('metaclass', None)
        ci.mro = self.p.c3(ci)
        if ci.meta is None:
            for b in ci.mro[1:]:
                if b.k == 'cls' and b.a[0].meta is not None:
                    ci.meta = b.a[0].meta
                    break
        for b in ci.mro[1:]:
            if b.k == 'cls':
                b.a[0].subclasses.append(ci)
        self.p.classes[ci.qual] = ci
        if ci.is_enum:
            for k, v in list(ns.items()):
                if v.k == 'const' and not k.startswith('_'):
                    ns[k] = mk('enum', ci, k, v.a[1])
                elif v.k == 'tuple' and has_cval(v):
                    ns[k] = mk('enum', ci, k, cval(v))
        # __set_name__ not modelled; __init_subclass__ of the bases
        sts = [st]
        for b in ci.mro[1:]:
            if b.k == 'cls' and '__init_subclass__' in b.a[0].ns:
                f = b.a[0].ns['__init_subclass__']
                sts = [s for s, _ in self.call_func(st, f.a[0], [cv], dict(kws), node, f)]
                break
        return sts

    # try / with ---------------------------------------------------------
    def s_Try(self, n, st):
        fl = Flow()
        caught = []
        self.rz.append(caught)
        self.lists.append(caught)
        r = self.block(n.body, [st])
        self.lists.pop()
        self.rz.pop()
        after = []     # raises escaping the handlers
        self.rz.append(after)
        self.lists.append(after)
        if n.orelse:
            ro = self.block(n.orelse, r.norm)
            fl.norm += ro.norm
            fl.ret += r.ret + ro.ret
            fl.brk += r.brk + ro.brk
            fl.cont += r.cont + ro.cont
        else:
            fl.norm += r.norm
            fl.ret += r.ret
            fl.brk += r.brk
            fl.cont += r.cont
        for s, exc in caught:
            self.handlers(n.handlers, s, exc, fl, after)
        self.lists.pop()
        self.rz.pop()
        if n.finalbody:
            fin = Flow()

            def run(s):
                rf = self.block(n.finalbody, [s])
                fin.ret += rf.ret
                fin.brk += rf.brk
                fin.cont += rf.cont
                return rf.norm
            out = Flow()
            out.norm = [x for s in fl.norm for x in run(s)]
            out.ret = [(x, v) for s, v in fl.ret for x in run(s)]
            out.brk = [x for s in fl.brk for x in run(s)]
            out.cont = [x for s in fl.cont for x in run(s)]
            for s, e in after:
                for x in run(s):
                    self.rz[-1].append((x, e))
            out.ret += fin.ret
            out.brk += fin.brk
            out.cont += fin.cont
            return out
        self.rz[-1].extend(after)
        return fl

    def handlers(self, hs, st, exc, fl, after):
        pend = [(st, exc)]
        for h in hs:
            nxt = []
            for s, e in pend:
                if h.type is None:
                    types = [(s, ext('builtins.BaseException'))]
                else:
                    types = self.ev(h.type, s)
                for s2, tv in types:
                    m = self.exc_matches(s2, e, tv)
                    if m in (True, None):
                        s3 = self.emit(s2, 'catch', show_exc(e, s2), (e,), node=h)
                        s3 = s3.setvar('__exc__', e)
                        if h.name:
                            s3 = self.bind_name(s3, h.name, e)
                        r = self.block(h.body, [s3])
                        for kind in ('norm', 'brk', 'cont'):
                            getattr(fl, kind).extend(self._clean(x, h) for x in getattr(r, kind))
                        fl.ret.extend((self._clean(x, h), v) for x, v in r.ret)
                    if m in (False, None):
                        nxt.append((s2, e))
            pend = nxt
        after.extend(pend)

    def _clean(self, st, h):
        f = st.frames.get(st.cur)
        if not f:
            return st
        f = dict(f)
        f.pop('__exc__', None)
        if h.name:
            f.pop(h.name, None)
        n = st.copy()
        n.frames = dict(st.frames)
        n.frames[st.cur] = f
        return n

    def exc_matches(self, st, exc, tv):
        ts = self.class_list(tv, st)
        names = self.exc_classes(exc, st)
        if names is None:
            return None
        res = set()
        for mro in names:
            res.add(any(t in mro for t in ts))
        return res.pop() if len(res) == 1 else None

    def class_list(self, tv, st):
        if tv.k == 'tuple':
            return [y for x in tv.a for y in self.class_list(x, st)]
        if tv.k == 'union':
            return [y for x in tv.a for y in self.class_list(x, st)]
        if tv.k == 'cls':
            return [tv.a[0].qual]
        if tv.k == 'ext':
            return [tv.a[0]]
        if tv.k == 'anycls':
            return [tv.a[0].qual]
        if tv.k == 'obj':
            items = self.known_items(tv, st)
            if items:
                return [y for x in items for y in self.class_list(x, st)]
        return [show(tv)]

    def exc_classes(self, exc, st):
        """list of MROs (list of names): one per possible class"""
        if exc.k == 'exc':
            return [ext_mro(exc.a[0])]
        if exc.k == 'obj' and exc in st.heap:
            c = st.heap[exc].cls
            if c.k == 'cls':
                return [self.p.mro_names(c.a[0])]
            if c.k == 'anycls':
                return [self.p.mro_names(x.a[0]) for x in c.a[2]
                        if self.p.is_subclass(x, 'builtins.BaseException')]
        if exc.k == 'call' and exc.a[0] in ('builtins.getattr',):
            return None
        if exc.k == 'call':
            return [ext_mro(exc.a[0])]
        return None

    def s_With(self, n, st):
        return self.with_items(n, list(n.items), st)

    def with_items(self, n, items, st):
        if not items:
            return self.block(n.body, [st])
        it = items[0]
        fl = Flow()
        for s, cm in self.ev(it.context_expr, st):
            s_list = [s]
            if cm.k == 'gen' and cm.a[0].a[0].ctxmgr:
                r = self.run_ctxmgr(n, items, cm, s)
            elif cm.k == 'call' and cm.a[0] == 'contextlib.suppress':
                r = self.run_suppress(n, items, cm, s)
            else:
                o = s.heap.get(cm) if cm.k == 'obj' else None
                ent = self.p.find(o.cls.a[0], '__enter__') if (
                    o is not None and o.cls is not None and o.cls.k == 'cls') else None
                r = Flow()
                if ent is not None:
                    ex = self.p.find(o.cls.a[0], '__exit__')
                    for s2, v in self.call_func(s, ent.a[0], [cm], {}, n, ent):
                        for s3 in (self.assign(it.optional_vars, v, s2)
                                   if it.optional_vars else [s2]):
                            caught = []
                            self.rz.append(caught)
                            self.lists.append(caught)
                            rb = self.with_items(n, items[1:], s3)
                            self.lists.pop()
                            self.rz.pop()

                            def leave(x, e=None):
                                args = [cm] + ([NONE] * 3 if e is None else
                                               [sym('exc_type'), e, sym('tb')])
                                return [y for y, _ in self.call_func(
                                    x, ex.a[0], args, {}, n, ex)]
                            r.norm += [y for x in rb.norm for y in leave(x)]
                            r.brk += [y for x in rb.brk for y in leave(x)]
                            r.cont += [y for x in rb.cont for y in leave(x)]
                            r.ret += [(y, v) for x, v in rb.ret for y in leave(x)]
                            for x, e in caught:
                                for y in leave(x, e):
                                    self.rz[-1].append((y, e))
                else:
                    s2 = self.emit(s, 'enter', show(cm), (cm,), node=n)
                    for s3 in (self.assign(it.optional_vars, mk('entered', cm), s2)
                               if it.optional_vars else [s2]):
                        rb = self.with_items(n, items[1:], s3)
                        r.norm += rb.norm
                        r.ret += rb.ret
                        r.brk += rb.brk
                        r.cont += rb.cont
            fl.norm += r.norm
            fl.ret += r.ret
            fl.brk += r.brk
            fl.cont += r.cont
            del s_list
        return fl

    def run_suppress(self, n, items, cm, st):
        caught = []
        self.rz.append(caught)
        self.lists.append(caught)
        r = self.with_items(n, items[1:], st)
        self.lists.pop()
        self.rz.pop()
        for s, e in caught:
            m = self.exc_matches(s, e, mk('tuple', *cm.a[1]))
            if m in (True, None):
                r.norm.append(self.emit(s, 'catch', show_exc(e, s), (e,), node=n))
            if m in (False, None):
                self.rz[-1].append((s, e))
        return r

    def run_ctxmgr(self, n, items, cm, st):
        fv, args, kws = cm.a[0], list(cm.a[1]), dict(cm.a[2])
        outer, ostack = st.cur, st.stack

        def hook(s, val):
            gen, gstack = s.cur, s.stack
            s = s.copy()
            s.cur, s.stack = outer, ostack
            ss = self.assign(items[0].optional_vars, val, s) if items[0].optional_vars else [s]
            res = []
            for s2 in ss:
                r = self.with_items(n, items[1:], s2)
                for kind, lst in (('norm', [(x, None) for x in r.norm]), ('ret', r.ret),
                                  ('brk', [(x, None) for x in r.brk]),
                                  ('cont', [(x, None) for x in r.cont])):
                    for x, v in lst:
                        x = x.copy()
                        x.cur, x.stack = gen, gstack
                        x.pend = (*x.pend, (kind, v))
                        res.append((x, NONE))
            return res
        fl = Flow()
        for s, _ in self.call_func(st, fv.a[0], args, kws, n, fv, hook=hook):
            if not s.pend:
                continue
            kind, v = s.pend[-1]
            s = s.copy()
            s.pend = s.pend[:-1]
            s.cur = outer
            if kind == 'ret':
                fl.ret.append((s, v))
            else:
                getattr(fl, kind).append(s)
        return fl

    # loops ---------------------------------------------------------------
    def is_octets(self, st, name):
        """the variable holds bytes, or a buffer"""
        v = (st.frames.get(st.cur) or {}).get(name)
        if not isinstance(v, V):
            return False
        o = st.heap.get(v)
        return v.k == 'const' and isinstance(v.a[1], bytes) or \
            o is not None and o.kind == 'bytearray'

    def s_For(self, n, st):
        c = as_comprehension(n, lambda name: self.is_octets(st, name))
        if c is not None:
            return (self.s_Expr if isinstance(c, ast.Expr) else self.s_AugAssign)(c, st)
        fl = Flow()
        for s, it in self.ev(n.iter, st):
            r = self.iterate(n, s, it, lambda x, v: self._for_body(n, x, v, it), n)
            norm = r.norm
            if n.orelse:
                ro = self.block(n.orelse, norm)
                fl.ret += ro.ret
                fl.brk += ro.brk
                fl.cont += ro.cont
                norm = ro.norm
            fl.norm += norm + r.brk
            fl.ret += r.ret
        return fl

    def _for_body(self, n, st, v, it=None):
        fl = Flow()
        for s in self.assign(n.target, v, st):
            r = self.block(n.body, [s])
            fl.norm += r.norm + r.cont
            fl.brk += [self.emit(x, 'leave', 'for', (it, v), node=n) for x in r.brk]
            fl.ret += [(self.emit(x, 'leave', 'for', (it, v), node=n), y) for x, y in r.ret]
        return fl

    def iter_parts(self, it, st):
        """[(kind, value)] : ('one', v) known element, ('many', elemfn) unknown number"""
        if it.k == 'phi':
            return None
        if it.k == 'tuple':
            seq = it.a
        elif it.k == 'obj':
            o = st.heap.get(it)
            if o is None or o.items is None:
                return [('many', it)]
            if o.kind == 'dict':
                seq = tuple(k for k, _ in o.items)
            else:
                seq = o.items
            if o.open:
                return [('one', x) if x.k != 'rep' else ('rep', x) for x in seq] + [('many', it)]
        elif it.k == 'call' and it.a[0] == 'builtins.range' and all(map(has_cval, it.a[1])):
            r = range(*[cval(x) for x in it.a[1]])
            if len(r) <= 16:
                return [('one', const(i)) for i in r]
            return [('many', it)]
        elif it.k == 'const' and isinstance(it.a[1], str | bytes) and len(it.a[1]) <= 16:
            return [('one', const(x)) for x in it.a[1]]
        elif it.k == 'cls' and it.a[0].is_enum:
            seq = tuple(x for x in it.a[0].ns.values() if x.k == 'enum')
        else:
            return [('many', it)]
        return [('one', x) if x.k != 'rep' else ('rep', x) for x in seq]

    def elem_of(self, it, lid):
        if it.k == 'call' and it.a[0] == 'builtins.zip' and it.a[1]:
            return mk('tuple', *[self.elem_of(x, lid) for x in it.a[1]])
        if it.k == 'call' and it.a[0] == 'itertools.pairwise':
            return mk('tuple', mk('elem', it.a[1][0], ('p', lid)), mk('elem', it.a[1][0], ('n', lid)))
        if it.k == 'call' and it.a[0] == 'builtins.enumerate':
            return mk('tuple', mk('idx', it.a[1][0], lid), self.elem_of(it.a[1][0], lid))
        if it.k == 'call' and it.a[0] == 'builtins.reversed' and len(it.a[1]) == 1 and \
                it.a[1][0].k == 'call' and it.a[1][0].a[0] == 'builtins.range' and \
                len(it.a[1][0].a[1]) < 3:
            # backwards over a range: the range that goes down
            r = it.a[1][0].a[1]
            lo, hi = r if len(r) == 2 else (const(0), r[0])
            down = const(cval(lo) - 1) if has_cval(lo) else mk('bin', '-', lo, const(1))
            return mk('elem', mk('call', 'builtins.range', (mk('bin', '-', hi, const(1)), down,
                                                            const(-1)), ()), lid)
        if it.k == 'call' and it.a[0] in ('builtins.reversed', 'builtins.sorted', 'builtins.list',
                                          'builtins.tuple', 'builtins.iter', 'builtins.set',
                                          'builtins.frozenset'):
            return self.elem_of(it.a[1][0], lid)
        if it.k == 'mcall' and it.a[0] == 'items':
            k = mk('elem', it.a[1], lid)
            return mk('tuple', k, mk('item', it.a[1], k))
        if it.k == 'mcall' and it.a[0] == 'keys':
            return mk('elem', it.a[1], lid)
        if it.k == 'mcall' and it.a[0] == 'values':
            return mk('item', it.a[1], mk('elem', it.a[1], lid))
        return mk('elem', it, lid)

    def iterate(self, n, st, it, body, node):
        """body(st, elem) -> Flow ; returns Flow (brk = left by break)"""
        if it.k == 'gen':
            return self.iterate_gen(n, st, it, body, node)
        if it.k == 'phi':
            fl = Flow()
            for x in it.a:
                r = self.iterate(n, self.replace_everywhere(st, it, x), x, body, node)
                fl.norm += r.norm
                fl.brk += r.brk
                fl.ret += r.ret
            return fl
        if it.k == 'call' and it.a[0] in ('builtins.iter', 'builtins.list', 'builtins.tuple') \
                and len(it.a[1]) == 1:
            it = it.a[1][0]
        fl = Flow()
        cur = [st]
        for kind, v in self.iter_parts(it, st):
            nxt = []
            for s in self.squeeze(cur):
                if kind == 'one':
                    r = body(s, v)
                    nxt += r.norm
                    fl.brk += r.brk
                    fl.ret += r.ret
                else:
                    s2, lid = self.fresh(s)
                    if kind == 'rep':
                        elem = mk('elemrep', v.a[0], lid) if False else v.a[0]
                        facts = v.a[2]
                    else:
                        elem = self.elem_of(v, lid)
                        facts = ()

                    def one(x, elem=elem, facts=facts, v=v, lid=lid):
                        x = self.emit(x, 'iter', str(lid), (it, elem), node=node)
                        for c, b in facts:
                            x = x.fact(c, b)
                        return body(x, elem)
                    r = self.loop(s2, one, node, ('many', it))
                    nxt += r.norm
                    fl.brk += r.brk
                    fl.ret += r.ret
            cur = nxt
        fl.norm = cur
        return fl

    def iterate_gen(self, n, st, it, body, node):
        fv, args, kws = it.a[0], list(it.a[1]), dict(it.a[2])
        outer, ostack = st.cur, st.stack
        outer_rz = self.rz[-1]
        side = Flow()
        for lst in (side.brk, side.ret):
            self.lists.append(lst)

        def hook(s, val):
            gen, gstack = s.cur, s.stack
            s = s.copy()
            s.cur, s.stack = outer, ostack
            self.rz.append(outer_rz)
            r = body(s, val)
            self.rz.pop()
            side.brk += r.brk
            side.ret += r.ret
            res = []
            for x in r.norm:
                x = x.copy()
                x.cur, x.stack = gen, gstack
                res.append((x, NONE))
            return res
        norm = [s for s, _ in self.call_func(st, fv.a[0], args, kws, node, fv, hook=hook)]
        self.lists.pop()
        self.lists.pop()
        side.norm = norm
        return side

    def loop(self, st, one, node, label):
        """0 iterations, or one arbitrary iteration from a widened state."""
        h = st
        hav = {}
        for rnd in range(4):
            marks = [(lst, len(lst)) for lst in [*self.rz, *self.lists]]
            r = one(h)
            for lst, ln in marks:
                del lst[ln:]
            h2 = self.widen(h, st, r.norm + r.cont, node, rnd, hav)
            if h2 is None:
                break
            h = h2
        r = one(h)
        fl = Flow()
        it = label[1]
        fl.norm = [*r.norm, *r.cont]
        if not isinstance(it, V) or it.k != 'fld' or self.truth(it, st) is not True:
            fl.norm.insert(0, self.emit(st, 'iter0', '', (it,) if isinstance(it, V) else (),
                                        node=node))
        fl.brk = r.brk
        fl.ret = r.ret
        return fl

    def widen(self, h, st0, outs, node, rnd, hav):
        """state generalising h over the changes seen in outs, None if stable"""
        new = h
        changed = False
        line = getattr(node, 'lineno', 0)
        carried = {}

        def cn(v, s, depth=0):
            """objects made by an earlier iteration: one per class"""
            if v.k != 'obj' or v in h.heap or v not in s.heap:
                return v
            o = s.heap[v]
            if o.kind != 'instance' or o.cls is None or o.cls.k != 'cls' or depth > 3:
                return v
            cid = mk('obj', o.cls.a[0].name, ('loop', line))
            if cid not in carried:
                carried[cid] = o
                carried[cid] = Obj(o.cls, o.kind, {k: cn(x, s, depth + 1)
                                                   for k, x in o.attrs.items()},
                                   o.items, o.open, o.name)
            return cid
        for fid, d in h.frames.items():
            nd = None
            for s in outs:
                d2 = s.frames.get(fid)
                if d2 is None or d2 is d:
                    continue
                for name, v in d2.items():
                    if name.startswith('__'):
                        continue
                    old = (nd or d).get(name)
                    v = cn(v, s)
                    if old is v or (old is not None and v in alts(old)):
                        continue
                    if old is None and name not in st0.frames.get(fid, {}):
                        continue      # only defined inside the loop
                    key = (fid, name)
                    if rnd >= 2 or hav.get(key, 0) >= 3:
                        w = mk('loopv', name, line, str(fid))
                    else:
                        w = phi([old, v])
                        hav[key] = hav.get(key, 0) + 1
                    if w is not old:
                        nd = dict(nd or d)
                        nd[name] = w
                        changed = True
            if nd is not None:
                new = new.copy()
                new.frames = dict(new.frames)
                new.frames[fid] = nd
        for oid, o in h.heap.items():
            cur = o
            for s in outs:
                o2 = s.heap.get(oid)
                if o2 is None or o2 is cur or o2 is o:
                    continue
                w = self.widen_obj(cur, o2, line, oid, rnd, lambda v, s=s: cn(v, s))
                if w is not None:
                    cur = w
            if cur is not o and cur.key() != o.key():
                new = new.setobj(oid, cur)
                changed = True
        for cid, o in carried.items():
            if cid not in new.heap:
                new = new.setobj(cid, o)
                changed = True
            elif new.heap[cid].key() != o.key():
                w = self.widen_obj(new.heap[cid], o, line, cid, rnd)
                if w is not None:
                    new = new.setobj(cid, w)
                    changed = True
        return new if changed else None

    def widen_obj(self, a, b, line, oid, rnd, cn=lambda v: v):
        attrs = dict(a.attrs)
        ch = False
        for n, v in b.attrs.items():
            v = cn(v)
            old = attrs.get(n)
            if old is v or (old is not None and v in alts(old)):
                continue
            if old is not None and old.k == 'loopv':
                continue
            if old is None or rnd >= 2 or len(alts(old)) > 4:
                attrs[n] = mk('loopv', n, line, str(oid.a))
            else:
                attrs[n] = phi([old, v])
            ch = True
        items, open_ = a.items, a.open
        if b.items != a.items:
            if a.items is None or b.items is None:
                if items is not None:
                    items, ch = None, True
            elif a.kind == 'dict':
                da = dict(a.items)
                for k, v in b.items:
                    if k not in da:
                        da[k] = v
                        ch = True
                    elif da[k] is not v and v not in alts(da[k]):
                        da[k] = phi([da[k], v])
                        ch = True
                items = tuple(da.items())
                if ch:
                    open_ = True
            else:
                extra = [x for x in b.items[len(a.items):]]
                if b.items[:len(a.items)] != a.items:
                    pre = 0
                    while pre < min(len(a.items), len(b.items)) and a.items[pre] is b.items[pre]:
                        pre += 1
                    extra = list(b.items[pre:])
                have = {x.a[0] for x in a.items if x.k == 'rep'} | set(a.items)
                new = []
                for x in extra:
                    y = x.a[0] if x.k == 'rep' else x
                    if y not in have and y not in [q.a[0] for q in new]:
                        new.append(mk('rep', y, mk('loop', line), ()))
                if new:
                    # widen: one repeated group per loop
                    items = a.items + tuple(new)
                    ch = True
        if b.open and not open_:
            open_, ch = True, True
        return Obj(a.cls, a.kind, attrs, items, open_, a.name) if ch else None

    def unroll(self, n, st):
        """the loop run to its end, when every test of it is decided"""
        if isinstance(n.test, ast.Constant):
            return None
        marks = [(lst, len(lst)) for lst in [*self.rz, *self.lists]]
        fl, cur = Flow(), [st]
        for _ in range(self.rounds):
            nxt = []
            for s in cur:
                cs = self.cond(n.test, s)
                if len(cs) != 1:
                    break
                s2, b = cs[0]
                if not b:
                    fl.norm.append(s2)
                    continue
                r = self.block(n.body, [s2])
                nxt += r.norm + r.cont
                fl.brk += r.brk
                fl.ret += r.ret
            else:
                cur = nxt
                if not cur:
                    return fl
                if len(cur) <= self.limit:
                    continue
            break
        for lst, ln in marks:
            del lst[ln:]
        return None

    def explicit_while(self, n, st):
        """every state the loop can be in, when there are finitely many"""
        fl, seen, work = Flow(), set(), [st]
        while work:
            s = work.pop()
            for s2, b in self.cond(n.test, s):
                if not b:
                    fl.norm.append(s2)
                    continue
                r = self.block(n.body, [s2])
                fl.ret += r.ret
                fl.brk += r.brk
                for x in r.norm + r.cont:
                    k = self._fullkey(x)
                    if k not in seen:
                        seen.add(k)
                        work.append(x)
            if len(seen) > 2000:
                raise AnalysisError('the states of a loop are too many')
        brk, fl.brk = fl.brk, []
        fl.norm = self.dedupe(fl.norm)
        if n.orelse:
            ro = self.block(n.orelse, fl.norm)
            fl.ret += ro.ret
            fl.brk, fl.cont, fl.norm = ro.brk, ro.cont, ro.norm
        fl.norm = fl.norm + brk
        return fl

    def s_While(self, n, st):
        if self.explicit:
            return self.explicit_while(n, st)
        ur = self.unroll(n, st)
        if ur is not None:
            brk, ur.brk = ur.brk, []
            if n.orelse:
                ro = self.block(n.orelse, ur.norm)
                ur.ret += ro.ret
                ur.brk, ur.cont, ur.norm = ro.brk, ro.cont, ro.norm
            ur.norm = ur.norm + brk
            return ur
        fl = Flow()

        def one(s):
            r = Flow()
            for s2, b in [y for x in (self.splitter(s) if self.splitter else (s,))
                          for y in self.cond(n.test, x)]:
                if b:
                    rb = self.block(n.body, [s2])
                    r.norm += rb.norm + rb.cont
                    r.brk += rb.brk
                    r.ret += rb.ret
                else:
                    exits.append(s2)
            return r
        exits = []
        self.lists.append(exits)
        h = st
        hav = {}
        for rnd in range(4):
            marks = [(lst, len(lst)) for lst in [*self.rz, *self.lists]]
            r = one(h)
            for lst, ln in marks:
                del lst[ln:]
            h2 = self.widen(h, st, r.norm, n, rnd, hav)
            if h2 is None:
                break
            h = h2
        # exits before the first iteration
        for s2, b in self.cond(n.test, st):
            if not b:
                exits.append(s2)
        h = self.emit(h, 'iter', 'while', (), node=n)
        r = one(h)
        # exit tests after an arbitrary iteration
        for s in self.squeeze(r.norm):
            for s2, b in self.cond(n.test, self._forget(s)):
                if not b:
                    exits.append(s2)
        self.lists.pop()
        norm = self.dedupe(exits)
        if n.orelse:
            ro = self.block(n.orelse, norm)
            fl.ret += ro.ret
            fl.brk += ro.brk
            fl.cont += ro.cont
            norm = ro.norm
        fl.norm = norm + r.brk
        fl.ret += r.ret
        return fl

    def _forget(self, st):
        return st

    def s_Match(self, n, st):
        fl = Flow()
        for s, v in self.ev(n.subject, st):
            pend = [s]
            for case in n.cases:
                nxt = []
                for s2 in pend:
                    for s3, ok in self.match(case.pattern, v, s2):
                        if not ok:
                            nxt.append(s3)
                            continue
                        gs = self.cond(case.guard, s3) if case.guard else [(s3, True)]
                        for s4, g in gs:
                            if g:
                                r = self.block(case.body, [s4])
                                fl.norm += r.norm
                                fl.ret += r.ret
                                fl.brk += r.brk
                                fl.cont += r.cont
                            else:
                                nxt.append(s4)
                pend = nxt
            fl.norm += pend
        return fl

    def match(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, pv in self.ev(p.value, st):
                for s2, c in self.compare('==', v, pv, s, p):
                    out += self.branch(c, s2, p)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.mkcmp('is', v, const(p.value), st), st, p)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s = self.bind_name(st, p.name, v) if p.name else st
                return [(s, True)]
            return [(self.bind_name(s, p.name, v) if ok else s, ok)
                    for s, ok in self.match(p.pattern, v, st)]
        if isinstance(p, ast.MatchOr):
            out = []
            pend = [st]
            for q in p.patterns:
                nxt = []
                for s in pend:
                    for s2, ok in self.match(q, v, s):
                        if ok:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                pend = nxt
            return out + [(s, False) for s in pend]
        if isinstance(p, ast.MatchSequence) and v.k == 'tuple' and len(v.a) == len(p.patterns):
            pend = [(st, True)]
            for q, x in zip(p.patterns, v.a, strict=True):
                nxt = []
                for s, ok in pend:
                    nxt += self.match(q, x, s) if ok else [(s, False)]
                pend = nxt
            return pend
        if isinstance(p, ast.MatchClass):
            out = []
            for s, cv in self.ev(p.cls, st):
                for s2, c in self.call(s, ext('builtins.isinstance'), [v, cv], {}, p):
                    out += self.branch(c, s2, p)
            return out
        return self.branch(mk('match', v, const(ast.dump(p))), st, p)

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if t is None:
            return [st]
        if isinstance(t, ast.Name):
            return [self.bind_name(st, t.id, v)]
        if isinstance(t, ast.Attribute):
            return [s2 for s, b in self.ev(t.value, st)
                    for s2 in self.setattr(s, b, t.attr, v, t)]
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st):
                for s2, k in self.ev(t.slice, s):
                    out.append(self.mutate(s2, b, '__setitem__', (k, v), t))
            return out
        if isinstance(t, ast.Tuple | ast.List):
            return self.unpack(t.elts, v, st, t)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisError(f'unsupported target {type(t).__name__} at {self.loc(t, st)}')

    def unpack(self, elts, v, st, node):
        if v.k == 'phi':
            out = []
            for x in v.a:
                out += self.unpack(elts, x, self.replace_everywhere(st, v, x), node)
            return out
        seq = None
        if v.k == 'tuple':
            seq = v.a
        elif v.k == 'obj' and v in st.heap and st.heap[v].items is not None \
                and st.heap[v].kind == 'list' and not st.heap[v].open:
            seq = st.heap[v].items
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        around = seq is not None and star is not None and len(seq) >= len(elts) and all(
            x.k != 'rep' for x in [*seq[:star], *seq[len(seq) - (len(elts) - star - 1):]])
        if seq is not None and any(x.k == 'rep' for x in seq) and not around:
            if len(seq) == 1:
                r = seq[0]
                vals = []
                for i, e in enumerate(elts):
                    vals.append(mk('slice', r, const(i), NONE) if isinstance(e, ast.Starred)
                                else r.a[0])
                seq = tuple(vals)
                out = [st]
                for e, x in zip(elts, seq, strict=True):
                    out = [s2 for s in out for s2 in self.assign(e, x, s)]
                return out
            seq = None
        if seq is not None:
            if star is None:
                if len(seq) != len(elts):
                    self.raise_ext(st, 'builtins.ValueError', node, 'unpack')
                    return []
                vals = list(seq)
            else:
                nafter = len(elts) - star - 1
                if len(seq) < len(elts) - 1:
                    self.raise_ext(st, 'builtins.ValueError', node, 'unpack')
                    return []
                st, mid = self.newlist(st, seq[star:len(seq) - nafter])
                vals = [*seq[:star], mid, *seq[len(seq) - nafter:]]
        elif v.k == 'call' and v.a[0] == 'struct.unpack':
            vals = [mk('unpk', v, i) for i in range(len(elts))]
        else:
            vals = []
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    vals.append(mk('slice', v, const(i), NONE))
                else:
                    vals.append(mk('item', v, const(i)))
        out = [st]
        for e, x in zip(elts, vals, strict=True):
            out = [s2 for s in out for s2 in self.assign(e, x, s)]
        return out

    def setattr(self, st, b, name, v, node):
        """-> list of states"""
        if b.k == 'phi':
            out = []
            for x in b.a:
                out += self.setattr(self.replace_everywhere(st, b, x), x, name, v, node)
            return out
        o = st.heap.get(b)
        if o is not None and o.cls is not None and o.cls.k == 'cls':
            f = self.p.find(o.cls.a[0], '__setattr__')
            if f is not None and f.k == 'func':
                return [s for s, _ in self.call_func(st, f.a[0], [b, const(name), v], {}, node, f)]
        return [self.rawset(st, b, name, v, node)]

    def rawset(self, st, b, name, v, node):
        st = self.emit(st, 'setattr', name, (b, v), node=node)
        if b.k == 'cls':
            if self.initing:
                b.a[0].ns[name] = v
                return st
        o = st.heap.get(b)
        if o is None:
            o = Obj(None, 'overlay')
        return st.setobj(b, o.with_attr(name, v))

    def mutate(self, st, b, meth, args, node):
        """in-place mutation of a container"""
        if b.k == 'phi':
            for x in b.a:
                st = self.mutate(st, x, meth, args, node)
            return st
        o = st.heap.get(b)
        ev_name = meth
        st = self.emit(st, 'mutate', ev_name, (b, *args), node=node, x=o.name if o else None)
        if o is None:
            return st
        items = o.items
        if o.kind == 'dict':
            if items is None:
                return st
            if meth == '__setitem__':
                k, v = args
                d = dict(items)
                open_ = o.open or bool(items) and items != ((k, d.get(k)),) and not (
                    has_cval(k) or k.k in ('cls', 'ext'))
                d[k] = v
                return st.setobj(b, o.with_items(tuple(d.items()), open_))
            if meth in ('__delitem__', 'pop'):
                d = dict(items)
                d.pop(args[0], None)
                return st.setobj(b, o.with_items(tuple(d.items()), o.open))
            if meth == 'clear':
                return st.setobj(b, o.with_items((), False))
            if meth == 'setdefault':
                d = dict(items)
                d.setdefault(args[0], args[1])
                return st.setobj(b, o.with_items(tuple(d.items()), o.open))
            return st.setobj(b, o.with_items(items, True))
        if o.kind in ('list', 'bytearray', 'set'):
            if items is None:
                return st
            if meth in ('append', 'add'):
                if o.kind == 'set' and args[0] in items:
                    return st
                return st.setobj(b, o.with_items((*items, args[0])))
            if meth in ('extend', 'update', '__iadd__'):
                more = self.seq_items(args[0], st, o.kind)
                return st.setobj(b, o.with_items((*items, *more)))
            if meth == 'clear':
                return st.setobj(b, o.with_items((), False))
            if meth == '__delitem__' and o.kind == 'bytearray' and not o.open \
                    and args[0].k == 'sl' and args[0].a[2:] in ((), (NONE,)):
                lo, hi = args[0].a[:2]
                if lo is NONE or has_cval(lo) and cval(lo) == 0:
                    return st.setobj(b, o.with_items(
                        () if hi is NONE else (mk('slice', concat(items), hi, NONE),)))
                if hi is NONE:
                    return st.setobj(b, o.with_items((mk('slice', concat(items), NONE, lo),)))
            if meth == '__setitem__' and has_cval(args[0]) and isinstance(cval(args[0]), int) \
                    and all(x.k != 'rep' for x in items) and -len(items) <= cval(args[0]) < len(items):
                lst = list(items)
                lst[cval(args[0])] = args[1]
                return st.setobj(b, o.with_items(tuple(lst)))
            if meth == '__setitem__':
                return st.setobj(b, o.with_items(tuple(
                    phi([x, args[1]]) if x.k != 'rep' else x for x in items), True))
            return st.setobj(b, o.with_items(items, True))
        if o.kind == 'hash' and meth == 'update':
            return st.setobj(b, o.with_items((*o.items, args[0])))
        return st

    def seq_items(self, v, st, kind='list'):
        if kind == 'bytearray':
            return (v,)
        if v.k == 'tuple':
            return v.a
        o = st.heap.get(v) if v.k == 'obj' else None
        if o is not None and o.items is not None and o.kind in ('list', 'set'):
            return o.items + ((mk('rep', mk('elem', v, 0), v, ()),) if o.open else ())
        if v.k == 'rep':
            return (v,)
        return (mk('rep', mk('elem', v, 0), v, ()),)

    # ---------------------------------------------------------- expressions
    def evs(self, nodes, st):
        res = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in res:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        for s3, w in self.materialize(v, s2, n):
                            nxt.append((s3, (*vs, *self.seq_items(w, s3))))
                else:
                    for s2, v in self.ev(n, s):
                        nxt.append((s2, (*vs, v)))
            res = nxt
        return [(s, list(vs)) for s, vs in res]

    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError(f'unsupported expression {type(n).__name__} at {self.loc(n, st)}')
        return m(n, st)

    def e_Constant(self, n, st):
        return [(st, const(n.value))]

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def lookup(self, name, st, n):
        fid = st.cur
        first = True
        while fid is not None:
            if isinstance(fid, tuple) and fid[0] == 'mod':
                break
            fr = st.frames.get(fid, {})
            if name in fr and not ('__classbody__' in fr and not first):
                return [(st, fr[name])]
            first = False
            fid = fr.get('__parent__')
        m = self.cur_module(st)
        ov = st.frames.get(('mod', m.name))
        if ov and name in ov:
            return [(st, ov[name])]
        if name in m.ns:
            return [(st, m.ns[name])]
        if name == '__name__':
            return [(st, const(m.name))]
        if name == '__package__':
            return [(st, const(m.name if m.is_pkg else m.name.rpartition('.')[0]))]
        if name in ('__file__', '__path__', '__doc__'):
            return [(st, sym(name))]
        if name == '__class__' and st.stack:
            ow = st.stack[-1].owner or getattr(st.stack[-1], 'encl_owner', None)
            if ow:
                return [(st, mk('cls', ow))]
        if hasattr(builtins, name):
            return [(st, mk('ext', 'builtins.' + name))]
        self.raise_ext(self.emit(st, 'nameerror', name, (), node=n), 'builtins.NameError', n, name)
        return []

    def e_Attribute(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            out += self.getattr(s, b, n.attr, n)
        return out

    def e_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            fid = s.cur
            # comprehension scope: bind in the enclosing function frame
            while '__comp__' in s.frames.get(fid, {}):
                fid = s.frames[fid]['__parent__']
            if isinstance(fid, tuple) and fid[0] == 'mod':
                out.append((self.bind_name(s, n.target.id, v), v))
            else:
                s2 = s.setvar(n.target.id, v, fid)
                if fid != s.cur:
                    s2 = s2.setvar(n.target.id, v)
                out.append((s2, v))
        return out

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        out = []
        pend = [st]
        for i, t in enumerate(n.values):
            nxt = []
            for s in pend:
                for s2, v in self.ev(t, s):
                    if i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(v, s2, t):
                        if b is is_and:
                            nxt.append(s3)
                        else:
                            # v may have been refined
                            if v.k == 'phi':
                                keepv = [x for x in v.a if self.truth(x, s3) is not (not b)]
                                out.append((s3, phi(keepv) if keepv else v))
                            else:
                                out.append((s3, v))
            pend = nxt
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                t = self.truth(v, s)
                out.append((s, const(not t) if t is not None else neg(v)))
            elif isinstance(n.op, ast.USub):
                out.append((s, const(-cval(v)) if has_cval(v) else mk('bin', '-', const(0), v)))
            else:
                out.append((s, mk('un', type(n.op).__name__, v)))
        return out

    def e_BinOp(self, n, st):
        out = []
        op = BINOPS[type(n.op)]
        for s, a in self.ev(n.left, st):
            for s2, b in self.ev(n.right, s):
                out += self.binop(op, a, b, s2, n)
        return out

    def binop(self, op, a, b, st, n):
        if op == '|' and a.k in ('cls', 'ext', 'union', 'const') and b.k in ('cls', 'ext', 'union', 'const') \
                and not (has_cval(a) and has_cval(b)):
            xs = (a.a if a.k == 'union' else (a,)) + (b.a if b.k == 'union' else (b,))
            return [(st, mk('union', *xs))]
        if op == '*':
            for x, y in ((a, b), (b, a)):
                o = st.heap.get(x)
                if o is not None and o.kind == 'list' and o.items and not o.open and has_cval(y) \
                        and isinstance(cval(y), int) and cval(y) <= 64 and not any(
                            i.k == 'rep' for i in o.items):
                    st, r = self.newlist(st, o.items * max(0, cval(y)))
                    return [(st, r)]
        if has_cval(a) and has_cval(b):
            x, y = cval(a), cval(b)
            try:
                if op == '**' and isinstance(y, int) and abs(y) > 4096:
                    raise OverflowError
                if op == '<<' and y > 100000:
                    raise OverflowError
                if op == '*' and ((isinstance(x, bytes | str) and y > 100000)
                                  or (isinstance(y, bytes | str) and x > 100000)):
                    raise OverflowError
                r = OPFN[op](x, y)
                if not isinstance(r, complex):
                    return [(st, mkval(r))]
            except ZeroDivisionError:
                self.raise_ext(st, 'builtins.ZeroDivisionError', n)
                return []
            except TypeError:
                self.raise_ext(st, 'builtins.TypeError', n)
                return []
            except Exception:
                pass
        if op == '+':
            if a.k == 'tuple' and b.k == 'tuple':
                return [(st, mk('tuple', *a.a, *b.a))]
            la = st.heap.get(a) if a.k == 'obj' else None
            if la is not None and la.kind == 'list' and la.items is not None:
                st, r = self.newlist(st, la.items + self.seq_items(b, st))
                return [(st, r)]
            if is_bytes(a) or is_bytes(b):
                return [(st, concat([self.as_bytes(a, st), self.as_bytes(b, st)]))]
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if is_const(x) and isinstance(x.a[1], bytes | str):
                    return [(st, mk('repb', x, y))]
        if op == '%' and is_const(a) and isinstance(a.a[1], str):
            return [(st, mk('fstr', a, b))]
        if op in ('+', '*', '^', '&', '|') and a.i > b.i and not (
                is_const(a) and isinstance(a.a[1], str)) and op != '+':
            a, b = b, a
        # constant tail folding: (x + c1) + c2
        if op in ('+', '-') and has_cval(b) and a.k == 'bin' and a.a[0] in ('+', '-') \
                and has_cval(a.a[2]) and all(isinstance(cval(z), int) for z in (b, a.a[2])):
            c = (cval(a.a[2]) if a.a[0] == '+' else -cval(a.a[2])) + \
                (cval(b) if op == '+' else -cval(b))
            a = a.a[1]
            if c == 0:
                return [(st, a)]
            op, b = ('+', const(c)) if c > 0 else ('-', const(-c))
        return [(st, mk('bin', op, a, b))]

    def as_bytes(self, v, st):
        o = st.heap.get(v) if v.k == 'obj' else None
        if o is not None and o.kind == 'bytearray' and o.items is not None and not o.open:
            return concat(o.items)
        return v

    def e_Compare(self, n, st):
        out = []
        pend = []
        for s, a in self.ev(n.left, st):
            pend.append((s, a))
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators, strict=True)):
            o = CMPOPS[type(op)]
            nxt = []
            last = i == len(n.ops) - 1
            for s, a in pend:
                for s2, b in self.ev(rn, s):
                    for s3, c in self.compare(o, a, b, s2, n):
                        if last:
                            out.append((s3, c))
                        else:
                            for s4, t in self.branch(c, s3, n):
                                if t:
                                    nxt.append((s4, b))
                                else:
                                    out.append((s4, FALSE))
            pend = nxt
        return out

    def e_IfExp(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out += self.ev(n.body if b else n.orelse, s)
        return out

    def e_Tuple(self, n, st):
        return [(s, mk('tuple', *vs)) for s, vs in self.evs(n.elts, st)]

    def e_List(self, n, st):
        out = []
        for s, vs in self.evs(n.elts, st):
            out.append(self.newlist(s, vs))
        return out

    def e_Set(self, n, st):
        out = []
        for s, vs in self.evs(n.elts, st):
            out.append(self.newlist(s, vs, 'set'))
        return out

    def e_Dict(self, n, st):
        res = [(st, (), False)]
        for k, v in zip(n.keys, n.values, strict=True):
            nxt = []
            for s, items, op in res:
                if k is None:
                    for s2, d in self.ev(v, s):
                        o = s2.heap.get(d)
                        if o is not None and o.items is not None:
                            nxt.append((s2, (*items, *o.items), op or o.open))
                        else:
                            nxt.append((s2, items, True))
                else:
                    for s2, kv in self.ev(k, s):
                        for s3, vv in self.ev(v, s2):
                            nxt.append((s3, (*items, (kv, vv)), op))
            res = nxt
        out = []
        for s, items, op in res:
            out.append(self.new(s, Obj(mk('ext', 'builtins.dict'), 'dict', items=items, open=op), 'dict'))
        return out

    def e_JoinedStr(self, n, st):
        res = [(st, ())]
        for p in n.values:
            nxt = []
            for s, vs in res:
                if isinstance(p, ast.Constant):
                    nxt.append((s, (*vs, const(p.value))))
                else:
                    for s2, v in self.ev(p.value, s):
                        if has_cval(v) and v.k == 'const' and p.format_spec is None \
                                and p.conversion == -1:
                            nxt.append((s2, (*vs, const(format(cval(v))))))
                        else:
                            nxt.append((s2, (*vs, mk('fmt', v))))
            res = nxt
        out = []
        for s, vs in res:
            if all(is_const(v) for v in vs):
                out.append((s, const(''.join(v.a[1] for v in vs))))
            else:
                out.append((s, mk('fstr', *vs)))
        return out

    def e_FormattedValue(self, n, st):
        return [(s, mk('fmt', v)) for s, v in self.ev(n.value, st)]

    def e_Lambda(self, n, st):
        return self.mkfunc(n, st, '<lambda>')

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Slice(self, n, st):
        out = []
        parts = [n.lower, n.upper, n.step]
        res = [(st, ())]
        for p in parts:
            nxt = []
            for s, vs in res:
                if p is None:
                    nxt.append((s, (*vs, NONE)))
                else:
                    for s2, v in self.ev(p, s):
                        nxt.append((s2, (*vs, v)))
            res = nxt
        for s, vs in res:
            out.append((s, mk('sl', *vs)))
        return out

    def e_Subscript(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            for s2, k in self.ev(n.slice, s):
                out += self.getitem(s2, b, k, n)
        return out

    def e_Yield(self, n, st):
        vals = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            hook = self.hooks.get(s.cur)
            if hook is None:
                fr = s.frames[s.cur]
                out.append((s.setvar('__yields__', mk('tuple', *(
                    fr['__yields__'].a if '__yields__' in fr else ()), v)), NONE))
            else:
                out += hook(s, v)
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for s, it in self.ev(n.value, st):
            hook = self.hooks.get(s.cur)
            gen = s.cur

            def body(x, v, hook=hook, gen=gen):
                fl = Flow()
                if hook is not None:
                    fl.norm = [y for y, _ in hook(x, v)]
                else:
                    fl.norm = [x]
                return fl
            r = self.iterate(n, s, it, body, n)
            out += [(x, NONE) for x in r.norm]
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list', gen=True)

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, kind, gen=False):
        outer = st.cur
        fid = ('comp', st.nid)
        st, _ = self.fresh(st)
        base = Obj(mk('ext', 'builtins.' + kind), kind, items=())
        st, acc = self.new(st, base, kind)
        st = st.copy()
        st.frames = dict(st.frames)
        st.frames[fid] = {'__parent__': outer, '__comp__': TRUE}
        fl = self.comp_gen(n, list(n.generators), st, fid, outer, acc, kind, ())
        out = []
        for s in fl:
            s = s.copy()
            s.frames = dict(s.frames)
            s.frames.pop(fid, None)
            s.cur = outer
            out.append((s, acc))
        return out

    def comp_gen(self, n, gens, st, fid, outer, acc, kind, facts0):
        if not gens:
            s = st.copy()
            s.cur = fid
            out = []
            if kind == 'dict':
                for s2, k in self.ev(n.key, s):
                    for s3, v in self.ev(n.value, s2):
                        o = s3.heap[acc]
                        d = dict(o.items)
                        d[k] = v
                        out.append(s3.setobj(acc, o.with_items(tuple(d.items()), o.open)))
            else:
                for s2, v in self.ev(n.elt, s):
                    o = s2.heap[acc]
                    out.append(s2.setobj(acc, o.with_items((*o.items, v))))
            for i, x in enumerate(out):
                x = x.copy()
                x.cur = outer
                out[i] = x
            return out
        g = gens[0]
        s = st.copy()
        s.cur = outer if len(gens) == len(n.generators) else fid
        res = []
        for s1, it in self.ev(g.iter, s):
            def body(x, v):
                y = x.copy()
                y.cur = fid
                fl = Flow()
                for z in self.assign(g.target, v, y):
                    oks = [z]
                    skip = []
                    for c in g.ifs:
                        nxt = []
                        for q in oks:
                            for q2, b in self.cond(c, q):
                                (nxt if b else skip).append(q2)
                        oks = nxt
                    for q in oks:
                        fl.norm += self.comp_gen(n, gens[1:], q, fid, outer, acc, kind, facts0)
                    for q in skip:
                        q = q.copy()
                        q.cur = outer
                        fl.norm.append(q)
                return fl
            res += self.comp_iter(n, s1, it, body, acc, kind, outer)
        return res

    def comp_iter(self, n, st, it, body, acc, kind, outer):
        """Like iterate(), but an unknown number of elements is summarised as one
        repeated element and the facts of the iteration are attached to it."""
        if it.k == 'gen':
            r = self.iterate_gen(n, st, it, body, n)
            out = []
            for s in r.norm:
                out.append(s)
            return out
        if it.k == 'phi':
            out = []
            for x in it.a:
                out += self.comp_iter(n, self.replace_everywhere(st, it, x), x, body, acc, kind, outer)
            return out
        cur = [st]
        for pk, v in self.iter_parts(it, st):
            nxt = []
            for s in cur:
                if pk == 'one':
                    nxt += body(s, v).norm
                    continue
                s2, lid = self.fresh(s)
                if pk == 'rep':
                    elem, facts = v.a[0], v.a[2]
                    src = v.a[1]
                else:
                    elem, facts, src = self.elem_of(v, lid), (), v
                x = s2
                for c, b in facts:
                    x = x.fact(c, b)
                marks = x.heap[acc].items
                outs = body(x, elem).norm
                if not outs:
                    # every element raises: only the empty collection comes out
                    nxt.append(s2)
                    continue
                new = []
                for y in outs:
                    o = y.heap[acc]
                    added = o.items[len(marks):] if kind != 'dict' else tuple(
                        kv for kv in o.items if kv not in marks)
                    conds = tuple((c, b) for c, b in y.facts.items() if s2.facts.get(c) is not b)
                    for a_ in added:
                        new.append((a_, conds))
                base = [y.setobj(acc, s2.heap[acc]) for y in outs]
                for i, y in enumerate(base):
                    y = y.copy()
                    y.facts = s2.facts
                    base[i] = y
                js = {}
                for y in base:
                    js.setdefault(y.trkey(), []).append(y)
                for grp in js.values():
                    j = self.join(grp)
                    o = j.heap[acc]
                    if kind == 'dict':
                        items = list(o.items)
                        for (kk, vv), conds in new:
                            items.append((kk, vv))
                        j = j.setobj(acc, o.with_items(tuple(dict(items).items()), True))
                    else:
                        reps = []
                        if new:
                            vals = phi([a_.a[0] if a_.k == 'rep' else a_ for a_, _ in new])
                            cs = set(new[0][1])
                            for _, c in new[1:]:
                                cs &= set(c)
                            cs = tuple(sorted(cs, key=lambda cb: cb[0].i))
                            if any(set(c) != set(cs) for _, c in new):
                                cs = (*cs, (mk('inexact'), True))
                            reps = [mk('rep', vals, src, cs)]
                        j = j.setobj(acc, o.with_items((*o.items, *reps)))
                    nxt.append(j)
            cur = self.squeeze(nxt)
        return cur

    def materialize(self, v, st, node):
        """turn a generator object into a list object"""
        if v.k != 'gen':
            return [(st, v)]
        st, acc = self.newlist(st, ())

        def body(x, val):
            o = x.heap[acc]
            fl = Flow()
            fl.norm = [x.setobj(acc, o.with_items((*o.items, val)))]
            return fl
        r = self.iterate_gen(node, st, v, body, node)
        return [(s, acc) for s in r.norm]

    # ---------------------------------------------------------- items
    def getitem(self, st, b, k, n):
        if b.k == 'phi':
            out = []
            for x in b.a:
                out += self.getitem(self.replace_everywhere(st, b, x), x, k, n)
            return out
        if k.k == 'phi' and len(k.a) <= 6:
            out = []
            for x in k.a:
                out += self.getitem(self.replace_everywhere(st, k, x), b, x, n)
            return out
        if b.k == 'cls':
            ci = b.a[0]
            if ci.is_enum:
                if has_cval(k) and isinstance(cval(k), str):
                    m = ci.ns.get(cval(k))
                    if m is not None and m.k == 'enum':
                        return [(st, m)]
                    self.raise_ext(st, 'builtins.KeyError', n)
                    return []
                self.raise_ext(st, 'builtins.KeyError', n)
                return [(st, mk('enumname', b, k))]
            if ci.meta is not None and ci.meta.k == 'cls':
                f = self.p.find(ci.meta.a[0], '__getitem__')
                if f is not None:
                    return self.call_func(st, f.a[0], [b, k], {}, n, f)
            if '__class_getitem__' in ci.ns:
                return self.call_func(st, ci.ns['__class_getitem__'].a[0], [b, k], {}, n)
            return [(st, b)]
        if b.k == 'ext':
            return [(st, mk('item', b, k))]
        o = st.heap.get(b)
        if o is not None:
            if o.kind == 'dict' and o.items is not None:
                return self.dict_get(st, b, o, k, n)
            if o.kind in ('list', 'bytearray') and o.items is not None:
                if k.k == 'sl':
                    if o.kind == 'list' and all(x.k != 'rep' for x in o.items) and not o.open \
                            and all(has_cval(x) for x in k.a):
                        st, r = self.newlist(st, o.items[slice(*[cval(x) for x in k.a])])
                        return [(st, r)]
                    if o.kind == 'bytearray' and not o.open and len(k.a) < 3 + (
                            k.a[2:] == (NONE,)):
                        # the octets it has now
                        return [(st, mk('slice', concat(o.items), k.a[0], k.a[1]))]
                    return [(st, mk('slice', b, k.a[0], k.a[1]))]
                if o.kind == 'bytearray':       # an octet of what it holds now
                    if not o.open and o.items:
                        return self.getitem(st, concat(o.items), k, n)
                    return [(st, mk('item', b, k))]
                if has_cval(k) and isinstance(cval(k), int):
                    i = cval(k)
                    if all(x.k != 'rep' for x in o.items) and not o.open:
                        if -len(o.items) <= i < len(o.items):
                            return [(st, o.items[i])]
                        self.raise_ext(st, 'builtins.IndexError', n)
                        return []
                    if 0 <= i < len(o.items) and all(x.k != 'rep' for x in o.items[:i + 1]):
                        return [(st, o.items[i])]
                    if i == 0 and o.items and o.items[0].k == 'rep':
                        if st.facts.get(b) is not True:
                            self.raise_ext(st, 'builtins.IndexError', n)
                        s = st
                        for c, t in o.items[0].a[2]:
                            s = s.fact(c, t)
                        return [(s, o.items[0].a[0])]
                if len(o.items) == 1 and o.items[0].k == 'rep':
                    return [(st, o.items[0].a[0])]
                return [(st, mk('item', b, k))]
            if o.cls is not None and o.cls.k == 'cls':
                f = self.p.find(o.cls.a[0], '__getitem__')
                if f is not None and f.k == 'func':
                    return self.call_func(st, f.a[0], [b, k], {}, n, f)
        if b.k == 'tuple':
            if k.k == 'sl' and all(has_cval(x) for x in k.a) and all(x.k != 'rep' for x in b.a):
                return [(st, mk('tuple', *b.a[slice(*[cval(x) for x in k.a])]))]
            if has_cval(k) and isinstance(cval(k), int) and all(x.k != 'rep' for x in b.a):
                if -len(b.a) <= cval(k) < len(b.a):
                    return [(st, b.a[cval(k)])]
                self.raise_ext(st, 'builtins.IndexError', n)
                return []
        if has_cval(b) and has_cval(k):
            try:
                return [(st, mkval(cval(b)[cval(k)]))]
            except Exception as exc:
                self.raise_ext(st, 'builtins.' + type(exc).__name__, n)
                return []
        if b.k == 'const' and k.k == 'sl' and all(has_cval(x) for x in k.a):
            return [(st, mkval(cval(b)[slice(*[cval(x) for x in k.a])]))]
        if k.k == 'sl':
            n_ = digest_len(b)
            if n_ and k.a[0] in (NONE, const(0)) and k.a[2:] in ((), (NONE,)) and has_cval(k.a[1]) \
                    and isinstance(cval(k.a[1]), int) and cval(k.a[1]) >= n_:
                return [(st, b)]        # all of a digest
            return [(st, mk('slice', b, k.a[0], k.a[1]))]
        if b.k == 'split' or (b.k == 'call' and b.a[0] == 'struct.unpack' and has_cval(k)):
            return [(st, mk('unpk', b, cval(k)))]
        f = self.xmodels.get('getitem')
        if f is not None:
            r = f(self, st, b, k, n)
            if r is not None:
                return r
        if k.k != 'sl' and st.stack and n in looked_up(st.stack[-1].node):
            # a key that may be missing, and the code that expects it
            inn = mk('cmp', 'in', k, b)
            known = self.truth(inn, st)
            if known is not True:
                self.raise_ext(self.assume(st, inn, False, n), 'builtins.KeyError', n)
            if known is False:
                return []
            st = self.assume(st, inn, True, n)
        return [(self.emit(st, 'getitem', '', (b, k), node=n), mk('item', b, k))]

    def dict_get(self, st, b, o, k, n, default=None):
        """default None => KeyError outcome"""
        out = []
        d = dict(o.items)
        if has_cval(k) or k.k in ('cls', 'ext'):
            kv = [x for x in d if x is k or (has_cval(x) and has_cval(k) and cval(x) == cval(k))]
            if kv:
                return [(st, d[kv[0]])]
            if not o.open:
                if default is not None:
                    return [(st, default)]
                self.raise_ext(st, 'builtins.KeyError', n)
                return []
        elif k in d:
            return [(st, d[k])]
        if not o.open and not d:
            if default is not None:
                return [(st, default)]
            self.raise_ext(st, 'builtins.KeyError', n)
            return []
        inn = mk('cmp', 'in', k, b)
        known = st.facts.get(inn)
        if self.oracle is not None and known is None:
            known = self.oracle(inn, st)
        # equality facts already known for the key
        for c, t in st.facts.items():
            if c.k == 'cmp' and c.a[1] is k and t is True and c.a[0] in ('==', 'is') \
                    and has_cval(c.a[2]):
                return self.dict_get(st, b, o, c.a[2], n, default)
        if known is not True:
            s = self.assume(st, inn, False, n)
            if default is not None:
                out.append((s, default))
            else:
                self.raise_ext(s, 'builtins.KeyError', n)
        if known is not False:
            s = self.assume(st, inn, True, n)
            vals = list(d.values())
            if self.splitkeys and not o.open and (0 < len(vals) <= 8 and all(
                    v.k == 'cls' for v in vals) or self.splitkeys == 'all' and vals and all(
                    v.k == 'cls' or v in st.heap and st.heap[v].kind == 'dict' for v in vals)):
                for kk, v in d.items():
                    raw = k.a[1] if k.k == 'enumcast' else k
                    if s.facts.get(mk('cmp', '==', k, kk)) is not False and \
                            s.facts.get(mk('cmp', '==', raw, kk)) is not False:
                        s2 = self.assume(s, mk('cmp', '==', raw, kk), True, n)
                        out.append((self.replace_everywhere(s2, k, kk), v))
                return out
            if vals and all(v.k == 'cls' for v in vals) and not o.open:
                v = self.anycls(vals, k)
            elif vals and not o.open and all(
                    x.k == 'obj' and x in st.heap and st.heap[x].kind == 'dict' for x in vals):
                # dict of dicts (registry of registries): union of the inner dicts
                items = {}
                for x in vals:
                    for kk, vv in st.heap[x].items or ():
                        items.setdefault(kk, []).append(vv)
                same = all({kk for kk, _ in st.heap[x].items} == set(items) for x in vals)
                s, v = self.new(s, Obj(mk('ext', 'builtins.dict'), 'dict', items=tuple(
                    (kk, self.anycls(vv, k) if all(z.k == 'cls' for z in vv) else phi(vv))
                    for kk, vv in items.items()), open=False, name=('sel', b, k)), 'dict')
                if not same:
                    ob = s.heap[v]
                    s = s.setobj(v, Obj(ob.cls, 'dictu', items=ob.items, name=ob.name))
            elif vals and not o.open and len(vals) <= 8:
                v = phi(vals)
            else:
                v = mk('item', b, k)
            out.append((s, v))
        return out

    def anycls(self, vals, key):
        vals = tuple(sorted(dict.fromkeys(vals), key=lambda v: v.i))
        if len(vals) == 1:
            return vals[0]
        common = None
        for c in vals[0].a[0].mro:
            if c.k == 'cls' and all(c in v.a[0].mro for v in vals):
                common = c
                break
        return mk('anycls', common.a[0] if common else vals[0].a[0], key, vals)

    # ---------------------------------------------------------- attributes
    def getattr(self, st, b, name, n, default=None):
        k = b.k
        if k == 'phi':
            out = []
            for x in b.a:
                out += self.getattr(self.replace_everywhere(st, b, x), x, name, n, default)
            return out
        if k == 'mod':
            m = b.a[0]
            ov = st.frames.get(('mod', m.name))
            if ov and name in ov:
                return [(st, ov[name])]
            if name in m.ns:
                return [(st, m.ns[name])]
            if name == '__name__':
                return [(st, const(m.name))]
            if self.p.path_of(f'{m.name}.{name}'):
                if self.initing:
                    self.p.load(f'{m.name}.{name}', self)
                mm = self.p.modules.get(f'{m.name}.{name}')
                if mm:
                    return [(st, mk('mod', mm))]
            return self.noattr(st, b, name, n, default)
        if k == 'ext':
            nm = f'{b.a[0]}.{name}'
            if b.a[0] == 'builtins.int' and name == 'from_bytes':
                return [(st, mk('ext', 'builtins.int.from_bytes'))]
            if name == '__name__':
                return [(st, const(b.a[0].split('.')[-1]))]
            return [(st, ext(nm))]
        if k == 'cls':
            return self.cls_attr(st, b, name, n, default)
        if k == 'anycls':
            return self.anycls_attr(st, b, name, n, default)
        if k == 'super':
            return self.super_attr(st, b, name, n)
        if k == 'enum':
            if name == 'name':
                return [(st, const(b.a[1]))]
            if name in ('value', '_value_'):
                return [(st, mkval(b.a[2]))]
            f = self.p.find(b.a[0], name)
            if f is not None and f.k == 'func':
                if f.a[0].kind == 'property':
                    return self.call_func(st, f.a[0], [b], {}, n, f)
                return [(st, mk('bound', f, b))]
            return [(st, mk('bound', mk('meth', name), b))]
        if k == 'enumcast':
            if name in ('name', 'value'):
                return [(st, mk('attr', b, name))]
            f = self.p.find(b.a[0].a[0], name)
            if f is not None and f.k == 'func':
                if f.a[0].kind == 'property':
                    return self.call_func(st, f.a[0], [b], {}, n, f)
                return [(st, mk('bound', f, b))]
            return [(st, mk('bound', mk('meth', name), b))]
        o = st.heap.get(b)
        if o is not None:
            if name in o.attrs:
                return [(st, o.attrs[name])]
            if name == '__class__':
                return [(st, o.cls)]
            if name == '__dict__':
                return [(st, mk('attr', b, name))]
            if o.kind == 'instance':
                if o.cls.k == 'anycls':
                    return self.anycls_attr(st, o.cls, name, n, default, inst=b)
                f = self.p.find(o.cls.a[0], name)
                if f is not None and not (o.open and f.k != 'func' and any(
                        name in c.ann and c.dataclass and 'ClassVar' not in ast.dump(c.ann[name])
                        and self.inst_field(o.cls.a[0], name) for c in o.cls.a[0].repo_mro())):
                    return self.bind_attr(st, f, b, o.cls, n)
                if o.open:       # instance with unknown fields
                    v = self.field(st, b, o, name)
                    s, v = v
                    return [(s.setobj(b, s.heap[b].with_attr(name, v)), v)]
                f = self.p.find(o.cls.a[0], '__getattr__')
                if f is not None and not name.startswith('__'):
                    if default is not None:
                        return self.try_attr(st, lambda s: self.call_func(
                            s, f.a[0], [b, const(name)], {}, n, f), default)
                    return self.call_func(st, f.a[0], [b, const(name)], {}, n, f)
                for e in o.cls.a[0].ext_mro():
                    if e not in ('builtins.object', 'abc.ABC'):
                        if e.startswith('builtins.') and self.p.is_subclass(
                                o.cls, 'builtins.BaseException') and name not in (
                                'args', 'with_traceback', 'add_note', '__cause__', '__context__'):
                            continue
                        return [(st, mk('bound', mk('meth', name), b))] if name not in ('args',) \
                            else [(st, mk('attr', b, name))]
                return self.noattr(st, b, name, n, default)
            if o.kind == 'overlay':
                pass
            elif o.kind in ('list', 'dict', 'set', 'bytearray', 'hash', 'dictu', 'iter'):
                if o.kind == 'hash' and name == 'digest_size' and o.attrs['alg'].k == 'const' \
                        and o.attrs['alg'].a[1] in DIGEST_SIZE:
                    return [(st, const(DIGEST_SIZE[o.attrs['alg'].a[1]]))]
                if o.kind == 'hash' and name in ('name', 'digest_size', 'block_size'):
                    return [(st, mk('attr', o.attrs['alg'], name))]
                return [(st, mk('bound', mk('meth', name), b))]
            elif o.kind == 'ns':
                return self.noattr(st, b, name, n, default)
        if k == 'sym':
            t = b.a[1]
            if isinstance(t, V) and t.k == 'cls':
                f = self.p.find(t.a[0], name)
                if f is not None and f.k == 'func':
                    return self.bind_attr(st, f, b, t, n)
                if f is not None and name not in t.a[0].ann:
                    return [(st, f)]
                if f is not None and not t.a[0].dataclass:
                    return [(st, f)]
                return [(st, mk('attr', b, name))]
            if isinstance(t, V) and t.k == 'anycls':
                return self.anycls_attr(st, t, name, n, default, inst=b)
        if k == 'replace':
            for nm, v in b.a[1]:
                if nm == name:
                    return [(st, v)]
            t = self.typeof(b.a[0])
            if t is not None and t.k == 'cls':
                f = self.p.find(t.a[0], name)
                if f is not None and f.k == 'func':
                    return self.bind_attr(st, f, b, t, n)
            return self.getattr(st, b.a[0], name, n, default)
        if k == 'const' and b.a[1] is None:
            return self.noattr(st, b, name, n, default)
        if k == 'exc' and name in ('args',):
            return [(st, mk('attr', b, name))]
        if k in ('const', 'concat', 'be', 'tuple', 'fstr', 'repb', 'gen', 'exc', 'func', 'bool', 'cmp',
                 'not', 'bin', 'len', 'ube', 'slice', 'repb'):
            if k == 'func' and name in ('__name__', '__doc__', '__qualname__'):
                return [(st, const(b.a[0].name))]
            return [(st, mk('bound', mk('meth', name), b))]
        f = self.xmodels.get('getattr')
        if f is not None:
            r = f(self, st, b, name, n)
            if r is not None:
                return r
        return [(st, mk('attr', b, name))]

    def inst_field(self, ci, name):
        """is a dataclass field with a class-level value an instance field here?
        (a subclass that overrides it by a plain class attribute makes it constant)"""
        for c in ci.repo_mro():
            if name in c.ann:
                return c.dc_kw.get('init') is not FALSE or assigns(c, name)
            if name in c.ns:
                return False
        return True

    def typeof(self, v):
        if v.k == 'sym' and isinstance(v.a[1], V):
            return v.a[1]
        if v.k == 'replace':
            return self.typeof(v.a[0])
        return None

    def try_attr(self, st, fn, default):
        caught = []
        self.rz.append(caught)
        self.lists.append(caught)
        out = list(fn(st))
        self.lists.pop()
        self.rz.pop()
        for s, e in caught:
            if e.k == 'exc' and e.a[0] == 'builtins.AttributeError':
                out.append((s, default))
            else:
                self.rz[-1].append((s, e))
        return out

    def noattr(self, st, b, name, n, default):
        if default is not None:
            return [(st, default)]
        st = self.emit(st, 'noattr', name, (b,), node=n)
        self.raise_ext(st, 'builtins.AttributeError', n, name)
        return []

    def field(self, st, b, o, name):
        if isinstance(o.name, tuple) and o.name and o.name[0] == 'replaced':
            res = self.getattr(st, o.name[1], name, None)
            if len(res) == 1:
                return res[0]
        f = self.xmodels.get('field')
        if f is not None:
            r = f(self, st, b, o, name)
            if r is not None:
                return r
        return st, mk('fld', b, name)

    def bind_attr(self, st, f, inst, clsv, n):
        if f.k == 'func':
            kind = f.a[0].kind
            if kind == 'property':
                return self.call_func(st, f.a[0], [inst], {}, n, f)
            if kind == 'static':
                return [(st, f)]
            if kind == 'class':
                return [(st, mk('bound', f, clsv))]
            return [(st, mk('bound', f, inst))]
        if f.k == 'ext' and f.a[0].split('.')[-1][:1].islower() and False:
            return [(st, f)]
        return [(st, f)]

    def cls_attr(self, st, b, name, n, default=None):
        ci = b.a[0]
        ov = st.heap.get(b)
        if ov is not None and name in ov.attrs:
            return [(st, ov.attrs[name])]
        if name == '__name__' or name == '__qualname__':
            return [(st, const(ci.name))]
        if name == '__bases__':
            return [(st, mk('tuple', *ci.bases))]
        if name == '__mro__':
            return [(st, mk('tuple', *ci.mro))]
        if name == '__subclasses__':
            return [(st, mk('bound', mk('meth', name), b))]
        if name == '__members__':
            return [(st, mk('attr', b, name))]
        f = self.p.find(ci, name)
        if f is not None:
            if f.k == 'func':
                if f.a[0].kind == 'class' or name in ('__init_subclass__', '__class_getitem__'):
                    return [(st, mk('bound', f, b))]
                return [(st, f)]
            if f.k == 'call' and f.a[0] == 'dataclasses.field':
                kw = dict(f.a[2])
                if 'default' in kw:
                    return [(st, kw['default'])]
                if default is None and 'default_factory' not in kw:
                    return self.noattr(st, b, name, n, default)
            return [(st, f)]
        if ci.meta is not None and ci.meta.k == 'cls':
            f = self.p.find(ci.meta.a[0], name)
            if f is not None and f.k == 'func':
                if f.a[0].kind == 'property':
                    return self.call_func(st, f.a[0], [b], {}, n, f)
                return [(st, mk('bound', f, b))]
        if any(e not in ('builtins.object', 'abc.ABC') for e in ci.ext_mro()):
            if not ci.is_enum and not (self.p.is_subclass(b, 'builtins.BaseException')):
                return [(st, mk('attr', b, name))]
            if ci.is_enum and name.startswith('_'):
                return [(st, mk('attr', b, name))]
        if name in ('__new__', '__init__', '__doc__', '__module__', 'mro', '__dict__', '__setattr__',
                    '__getattribute__', '__annotations__'):
            return [(st, mk('attr', b, name))]
        return self.noattr(st, b, name, n, default)

    def anycls_attr(self, st, b, name, n, default=None, inst=None):
        cands = b.a[2]
        if name == '__class__':
            return [(st, b)]
        vals = {}
        missing = []
        for c in cands:
            f = self.p.find(c.a[0], name)
            if f is None:
                missing.append(c)
            else:
                vals.setdefault(f, []).append(c)
        out = []
        if missing and inst is not None and inst in st.heap and st.heap[inst].open:
            s, v = self.field(st, inst, st.heap[inst], name)
            s = s.setobj(inst, s.heap[inst].with_attr(name, v))
            out.append((s, v))
        elif missing:
            ga = None
            if not vals:
                if inst is None and name in ('__name__', '__qualname__'):
                    return [(st, mk('attr', b, name))]
                return self.noattr(st, b, name, n, default)
            del ga
            self.noattr(st, b, name, n, default)
        funcs = {f: cs for f, cs in vals.items() if f.k == 'func'}
        others = {f: cs for f, cs in vals.items() if f.k != 'func'}
        for f, cs in funcs.items():
            s = st
            sub = b
            if len(funcs) > 1 or others or missing:
                sub = self.anycls(cs, b.a[1])
                s = self.emit(s, 'case', name, (b, sub), node=n)
                if inst is not None and inst in s.heap:
                    o = s.heap[inst]
                    s = s.setobj(inst, Obj(sub, o.kind, o.attrs, o.items, o.open, o.name))
                else:
                    s = self.replace_everywhere(s, b, sub)
            if f.a[0].kind == 'property' and inst is not None:
                out += self.call_func(s, f.a[0], [inst], {}, n, f)
            elif f.a[0].kind == 'class':
                out.append((s, mk('bound', f, sub)))
            elif f.a[0].kind == 'static' or inst is None:
                out.append((s, f))
            else:
                out.append((s, mk('bound', f, inst)))
        if others:
            if len(others) == 1 and not funcs:
                out.append((st, next(iter(others))))
            else:
                out.append((st, mk('attr', b, name)))
        return out

    def super_attr(self, st, b, name, n):
        owner, inst, clsv = b.a
        ci = clsv.a[0]
        mro = ci.mro
        i = next((i for i, c in enumerate(mro) if c.k == 'cls' and c.a[0] is owner), 0)
        for c in mro[i + 1:]:
            if c.k == 'cls' and name in c.a[0].ns:
                f = c.a[0].ns[name]
                if f.k == 'func':
                    if f.a[0].kind == 'property':
                        return self.call_func(st, f.a[0], [inst], {}, n, f)
                    if f.a[0].kind == 'class' or name == '__init_subclass__':
                        return [(st, mk('bound', f, inst if inst.k in ('cls', 'anycls') else clsv))]
                    if f.a[0].kind == 'static':
                        return [(st, f)]
                    return [(st, mk('bound', f, inst))]
                return [(st, f)]
        return [(st, mk('bound', mk('extsuper', name, tuple(
            e for e in ci.ext_mro())), inst))]

    # ---------------------------------------------------------- calls
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return [(st, self.mksuper(st))]
        out = []
        for s, f in self.ev(n.func, st):
            for s2, args in self.evs(n.args, s):
                res = [(s2, {})]
                for kw in n.keywords:
                    nxt = []
                    for s3, kws in res:
                        for s4, v in self.ev(kw.value, s3):
                            k2 = dict(kws)
                            if kw.arg is None:
                                o = s4.heap.get(v)
                                if o is not None and o.kind == 'dict' and o.items is not None:
                                    for kk, vv in o.items:
                                        if has_cval(kk):
                                            k2[cval(kk)] = vv
                                    if o.open:
                                        k2['**'] = v
                                else:
                                    k2['**'] = v
                            else:
                                k2[kw.arg] = v
                            nxt.append((s4, k2))
                    res = nxt
                for s3, kws in res:
                    out += self.call(s3, f, list(args), kws, n)
        return out

    def mksuper(self, st):
        fi = st.stack[-1]
        owner = fi.owner or getattr(fi, 'encl_owner', None)
        fr = st.frames[st.cur]
        while '__self__' not in fr and fr.get('__parent__') in st.frames:
            fr = st.frames[fr['__parent__']]
        inst = fr.get('__self__', NONE)
        if inst.k == 'cls':
            clsv = inst
        elif inst.k == 'anycls':
            clsv = inst.a[2][0]
        elif inst.k == 'obj' and inst in st.heap and st.heap[inst].cls is not None:
            clsv = st.heap[inst].cls
            if clsv.k == 'anycls':
                clsv = clsv.a[2][0]
        elif inst.k == 'sym' and isinstance(inst.a[1], V) and inst.a[1].k == 'cls':
            clsv = inst.a[1]
        else:
            clsv = mk('cls', owner)
        return mk('super', owner, inst, clsv)

    def call(self, st, f, args, kws, n):
        """-> list of (st, value)"""
        self.n_calls += 1
        k = f.k
        if k == 'phi':
            out = []
            for x in f.a:
                out += self.call(self.replace_everywhere(st, f, x), x, args, kws, n)
            return out
        if k == 'func':
            return self.call_func(st, f.a[0], args, kws, n, f)
        if k == 'bound':
            fn, inst = f.a
            if fn.k == 'func':
                return self.call_func(st, fn.a[0], [inst, *args], kws, n, fn)
            if fn.k == 'meth':
                return self.call_meth(st, inst, fn.a[0], args, kws, n)
            if fn.k == 'extsuper':
                return self.call_extsuper(st, inst, fn.a[0], fn.a[1], args, kws, n)
        if k == 'cls':
            return self.instantiate(st, f, args, kws, n)
        if k == 'anycls':
            return self.instantiate(st, f, args, kws, n)
        if k == 'ext':
            return self.call_ext(st, f.a[0], args, kws, n)
        if k == 'partial':
            k2 = dict(f.a[2])
            k2.update(kws)
            return self.call(st, f.a[0], [*f.a[1], *args], k2, n)
        if k == 'attr':
            return self.call_meth(st, f.a[0], f.a[1], args, kws, n)
        if k == 'item':
            pass
        if k == 'const' or k == 'tuple' or k == 'enum':
            self.raise_ext(st, 'builtins.TypeError', n, 'not callable')
            return []
        if k == 'obj' and f in st.heap:
            o = st.heap[f]
            if o.kind == 'instance' and o.cls.k == 'cls':
                m = self.p.find(o.cls.a[0], '__call__')
                if m is not None:
                    return self.call_func(st, m.a[0], [f, *args], kws, n, m)
            if o.kind in ('list', 'dict', 'set', 'bytearray'):
                self.raise_ext(st, 'builtins.TypeError', n, 'not callable')
                return []
        return self.opaque_call(st, 'call', f, args, kws, n)

    def opaque_call(self, st, nm, f, args, kws, n):
        st, i = self.fresh(st)
        res = mk('mcall', '__call__', f, tuple(args), tuple(sorted(kws.items())), i)
        st = self.emit(st, 'call', '__call__', (f, *args), res, n, tuple(sorted(kws.items())))
        return [(st, res)]

    def call_extsuper(self, st, inst, name, exts, args, kws, n):
        if name == '__init__':
            o = st.heap.get(inst)
            if o is not None and args and any('Exception' in e or 'Error' in e for e in exts):
                st = st.setobj(inst, o.with_attr('args', mk('tuple', *args)))
            return [(st, NONE)]
        if name == '__init_subclass__':
            if kws:
                self.raise_ext(st, 'builtins.TypeError', n, '__init_subclass__ takes no keyword')
                return []
            return [(st, NONE)]
        if name == '__setattr__':
            nm = args[0]
            return [(self.rawset(st, inst, cval(nm), args[1], n), NONE)] if has_cval(nm) else [(st, NONE)]
        if name == '__getattribute__' and has_cval(args[0]):
            return self.getattr(st, inst, cval(args[0]), n)
        if name in ('__enter__',):
            return [(st, inst)]
        return self.call_meth(st, inst, name, args, kws, n, sup=True)

    def instantiate(self, st, cv, args, kws, n):
        ci = cv.a[0]
        if cv.k == 'cls' and ci.is_enum:
            return self.enum_call(st, cv, args, kws, n)
        if cv.k == 'anycls' and ci.is_enum:
            return [(st, mk('enumcast', cv, args[0]))]
        m = self.models.get(ci.qual)
        if m is not None:
            return m(self, st, cv, args, kws, n)
        cands = cv.a[2] if cv.k == 'anycls' else (cv,)
        if all(self.p.abstract_methods(c.a[0]) for c in cands):
            st = self.emit(st, 'abstract', ci.qual, (cv,), node=n)
            self.raise_ext(st, 'builtins.TypeError', n, f'abstract class {ci.name}')
            return []
        if len(cands) > 1 and any(self.p.abstract_methods(c.a[0]) for c in cands):
            st2 = self.emit(st, 'abstract', ci.qual, (cv,), node=n)
            self.raise_ext(st2, 'builtins.TypeError', n, f'abstract class {ci.name}')
        st, oid = self.new(st, Obj(cv, 'instance'), ci.name)
        inits = {}
        for c in cands:
            inits.setdefault(self.p.find(c.a[0], '__init__'), []).append(c)
        out = []
        for f, cs in inits.items():
            s = st
            if len(inits) > 1:
                sub = self.anycls(cs, cv.a[1])
                o = s.heap[oid]
                s = s.setobj(oid, Obj(sub, o.kind, o.attrs, o.items, o.open, o.name))
            s = self.emit(s, 'new', ci.qual, (oid, *args), node=n, x=tuple(sorted(kws.items())))
            if f is not None and f.k == 'func':
                for s2, _ in self.call_func(s, f.a[0], [oid, *args], kws, n, f):
                    out.append((s2, oid))
            elif cs[0].a[0].dataclass or any(c.dataclass for c in cs[0].a[0].repo_mro()):
                out += self.dataclass_init(s, oid, cs[0].a[0], args, kws, n)
            else:
                if self.p.is_subclass(cs[0], 'builtins.BaseException'):
                    s = s.setobj(oid, s.heap[oid].with_attr('args', mk('tuple', *args)))
                elif args and not any(e not in ('builtins.object',) for e in ci.ext_mro()):
                    self.raise_ext(s, 'builtins.TypeError', n, 'takes no arguments')
                    continue
                elif args:
                    s = s.setobj(oid, s.heap[oid].with_attr('__args__', mk('tuple', *args)))
                out.append((s, oid))
        return out

    def dataclass_init(self, st, oid, ci, args, kws, n):
        fields = []
        for c in reversed(ci.repo_mro()):
            for name in c.ann:
                if name not in fields and name != '_':
                    fields.append(name)
        vals = {}
        args = list(args)
        kw = dict(kws)
        res = [(st, {})]
        for name in fields:
            if args:
                v = args.pop(0)
                res = [(s, {**d, name: v}) for s, d in res]
                continue
            if name in kw:
                v = kw.pop(name)
                res = [(s, {**d, name: v}) for s, d in res]
                continue
            dv = self.p.find(ci, name)
            for c in ci.repo_mro():
                if name in c.fields:
                    dv = c.fields[name]
                    break
                if name in c.ann:
                    break
            if dv is None or (dv.k == 'call' and dv.a[0] == 'dataclasses.field'
                              and not {'default', 'default_factory'} & {k for k, _ in dv.a[2]}):
                for s, _ in res:
                    self.raise_ext(s, 'builtins.TypeError', n, f'missing {name}')
                return []
            if dv.k == 'call' and dv.a[0] == 'dataclasses.field':
                k2 = dict(dv.a[2])
                if 'default_factory' in k2:
                    res = [(s2, {**d, name: v}) for s, d in res
                           for s2, v in self.call(s, k2['default_factory'], [], {}, n)]
                    continue
                dv = k2.get('default', NONE)
            res = [(s, {**d, name: dv}) for s, d in res]
        del vals
        out = []
        for s, d in res:
            o = s.heap[oid]
            for k2, v in d.items():
                o = o.with_attr(k2, v)
            s = s.setobj(oid, o)
            f = self.p.find(ci, '__post_init__')
            if f is not None:
                out += [(s2, oid) for s2, _ in self.call_func(s, f.a[0], [oid], {}, n, f)]
            else:
                out.append((s, oid))
        return out

    def enum_call(self, st, cv, args, kws, n):
        ci = cv.a[0]
        if len(args) != 1:
            return [(st, mk('call', 'enum', tuple(args), ()))]
        v = args[0]
        if v.k == 'phi':
            out = []
            for x in v.a:
                out += self.enum_call(self.replace_everywhere(st, v, x), cv, [x], kws, n)
            return out
        if has_cval(v):
            for m in ci.ns.values():
                if m.k == 'enum' and m.a[2] == cval(v):
                    return [(st, m)]
            self.raise_ext(st, 'builtins.ValueError', n, f'not a {ci.name}')
            return []
        if v.k == 'enumcast' and v.a[0] is cv:
            return [(st, v)]
        c = mk('cmp', 'in', v, cv)
        known = st.facts.get(c)
        if known is not True:
            s = self.assume(st, c, False, n)
            self.raise_ext(s, 'builtins.ValueError', n, f'not a {ci.name}')
        if known is False:
            return []
        s = self.assume(st, c, True, n)
        return [(s, mk('enumcast', cv, v))]

    def call_func(self, st, fi, args, kws, n, fv=None, hook=None):
        m = self.models.get(fi.qual)
        if m is None and fi.owner is not None:
            # a model registered for the name in any class of the hierarchy
            m = self.models.get('*.' + fi.name) if fi.owner else None
        if m is not None and hook is None:
            r = m(self, st, fi, args, kws, n)
            if r is not NotImplemented:
                return r
        if fi.is_gen and hook is None:
            return [(st, mk('gen', fv or mk('func', fi, (), ()), tuple(args),
                            tuple(sorted(kws.items()))))]
        if sum(1 for f in st.stack if f is fi or f.node is fi.node) >= 2 or \
                len(st.stack) > self.maxdepth:
            st = self.emit(st, 'recursion', fi.qual, tuple(args), node=n)
            st, i = self.fresh(st)
            return [(st, mk('mcall', fi.name, args[0] if args else NONE, tuple(args[1:]), (), i))]
        self.fns.add(fi.qual)
        bound = self.bind_args(st, fi, fv, args, kws, n)
        if bound is None:
            return []
        st, env = bound
        outer, ostack = st.cur, st.stack
        fid = st.nid
        st, _ = self.fresh(st)
        st = st.copy()
        env['__parent__'] = fi.frame
        if args and fi.owner is not None and fi.kind != 'static':
            env['__self__'] = args[0]
        st.frames = dict(st.frames)
        st.frames[fid] = env
        st.cur = fid
        st.stack = (*ostack, fi)
        st = self.emit(st, 'enter', fi.qual, tuple(args), node=n, x=tuple(sorted(kws.items())))
        if hook is not None:
            self.hooks[fid] = hook
        local = []
        self.rz.append(local)
        self.lists.append(local)
        if isinstance(fi.node, ast.Lambda):
            rets = self.ev(fi.node.body, st)
        else:
            fl = self.block(fi.node.body, [st])
            rets = fl.ret + [(s, NONE) for s in fl.norm]
        self.lists.pop()
        self.rz.pop()
        self.hooks.pop(fid, None)

        def back(s):
            s = s.copy()
            s.cur, s.stack = outer, ostack
            if not fi.has_inner:
                s.frames = dict(s.frames)
                s.frames.pop(fid, None)
            return s
        for s, e in local:
            s = back(s)
            s = self.emit(s, 'exit', fi.qual, (), None, n, 'raise')
            self.rz[-1].append((s, e))
        out = []
        for s, v in rets:
            s = self.emit(s, 'exit', fi.qual, (), v, n)
            out.append((back(s), v))
        return self.merge_results(out)

    def merge_results(self, out):
        if len(out) <= 1:
            return out
        seen = {}
        for s, v in out:
            seen.setdefault((self._fullkey(s), v), (s, v))
        out = list(seen.values())
        if len(out) <= self.limit:
            return out
        groups = {}
        for s, v in out:
            groups.setdefault((s.trkey(), s.cur, s.stack, s.pend, v if has_cval(v) else None,
                               self.joinkey and self.joinkey(s)), []).append((s, v))
        if len(groups) > 400:
            raise AnalysisError(f'state explosion: {len(groups)} outcomes')
        return [(self.join([s for s, _ in g]), phi([v for _, v in g])) for g in groups.values()]

    def bind_args(self, st, fi, fv, args, kws, n):
        a = fi.node.args
        names = [x.arg for x in [*a.posonlyargs, *a.args]]
        env = {}
        args = list(args)
        kws = dict(kws)
        defaults = fv.a[1] if fv is not None and fv.k == 'func' else None
        kwdefs = dict(fv.a[2]) if fv is not None and fv.k == 'func' else None
        if defaults is None:
            fvv = self.p.find(fi.owner, fi.name) if fi.owner else fi.module.ns.get(fi.name)
            if fvv is not None and fvv.k == 'func' and fvv.a[0] is fi:
                defaults, kwdefs = fvv.a[1], dict(fvv.a[2])
            else:
                defaults, kwdefs = (), {}
        if any(x.k == 'rep' for x in args):
            i = next(i for i, x in enumerate(args) if x.k == 'rep')
            rest = args[i:]
            args = args[:i]
            while len(args) < len(names):
                args.append(mk('item', rest[0], const(len(args))))
            if a.vararg:
                args += rest
        for i, name in enumerate(names):
            if i < len(args):
                env[name] = args[i]
            elif name in kws:
                env[name] = kws.pop(name)
            else:
                j = i - (len(names) - len(defaults))
                if 0 <= j < len(defaults):
                    env[name] = defaults[j]
                elif '**' in kws:
                    env[name] = mk('item', kws['**'], const(name))
                else:
                    self.raise_ext(self.emit(st, 'badcall', fi.qual, (), node=n),
                                   'builtins.TypeError', n, f'{fi.name}() missing {name}')
                    return None
        if len(args) > len(names):
            if not a.vararg:
                self.raise_ext(self.emit(st, 'badcall', fi.qual, (), node=n),
                               'builtins.TypeError', n, f'{fi.name}() too many arguments')
                return None
            env[a.vararg.arg] = mk('tuple', *args[len(names):])
        elif a.vararg:
            env[a.vararg.arg] = mk('tuple')
        for x in a.kwonlyargs:
            if x.arg in kws:
                env[x.arg] = kws.pop(x.arg)
            elif x.arg in kwdefs:
                env[x.arg] = kwdefs[x.arg]
            elif '**' in kws:
                env[x.arg] = mk('item', kws['**'], const(x.arg))
            else:
                self.raise_ext(self.emit(st, 'badcall', fi.qual, (), node=n),
                               'builtins.TypeError', n, f'{fi.name}() missing {x.arg}')
                return None
        open_ = kws.pop('**', None)
        if a.kwarg:
            st, d = self.new(st, Obj(mk('ext', 'builtins.dict'), 'dict', items=tuple(
                (const(k), v) for k, v in kws.items()), open=open_ is not None), 'dict')
            env[a.kwarg.arg] = d
        elif kws:
            self.raise_ext(self.emit(st, 'badcall', fi.qual, (), node=n),
                           'builtins.TypeError', n, f'{fi.name}() unexpected {list(kws)}')
            return None
        return st, env

    # external calls live in ext.py
    def call_ext(self, st, name, args, kws, n):
        from . import extcalls
        return extcalls.call_ext(self, st, name, args, kws, n)

    def call_meth(self, st, b, name, args, kws, n, sup=False):
        from . import extcalls
        return extcalls.call_meth(self, st, b, name, args, kws, n, sup)

    # ---------------------------------------------------------- entry
    def run(self, st, fn):
        """fn(st) -> [(st, v)] ; returns list of Out"""
        caught = []
        self.rz.append(caught)
        self.lists.append(caught)
        res = fn(st)
        self.lists.pop()
        self.rz.pop()
        outs = [Out('return', s, v) for s, v in res]
        outs += [Out('raise', s, e) for s, e in caught]
        seen = {}
        for o in outs:
            seen.setdefault((o.kind, o.val, self._fullkey(o.st)), o)
        return list(seen.values())


def ext(name):
    return mk('ext', ALIASES.get(name, name))


def mkval(x):
    if isinstance(x, tuple):
        return mk('tuple', *[mkval(y) for y in x])
    if isinstance(x, bytearray):
        x = bytes(x)
    if isinstance(x, list):
        return mk('tuple', *[mkval(y) for y in x])
    return const(x)


def show_exc(exc, st):
    if exc is None:
        return '?'
    if exc.k == 'exc':
        return exc.a[0].replace('builtins.', '')
    if exc.k == 'obj' and exc in st.heap and st.heap[exc].cls is not None:
        c = st.heap[exc].cls
        return c.a[0].name + ('*' if c.k == 'anycls' else '')
    return show(exc)


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|',
          ast.BitXor: '^', ast.BitAnd: '&', ast.MatMult: '@'}
import operator  # noqa: E402
OPFN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
        '//': operator.floordiv, '%': operator.mod, '**': operator.pow, '<<': operator.lshift,
        '>>': operator.rshift, '|': operator.or_, '^': operator.xor, '&': operator.and_}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
_ = (math, walk, FALSE, ELL)
