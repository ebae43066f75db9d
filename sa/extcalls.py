"""Models of the builtins and of the external libraries the code calls.

A model says what flows into the result (a provenance term), what can be
raised, and what is mutated.  Nothing here is executed on run-time data; only
literal constants of the source are folded.
"""
import ast
import builtins
import math
import textwrap

from .terms import (
    DIGEST_SIZE, FALSE, NONE, TRUE, V, be, concat, const, cval, has_cval, is_bytes, is_const, mk, neg, phi,
)

CRYPTO = 'cryptography.'
MAY_RAISE = {
    'cryptography.x509.load_der_x509_certificate': [
        'builtins.ValueError', 'cryptography.x509.InvalidVersion'],
    'cryptography.x509.load_pem_x509_certificates': ['builtins.ValueError'],
    'cryptography.hazmat.primitives.serialization.load_der_public_key': [
        'builtins.ValueError', 'cryptography.exceptions.UnsupportedAlgorithm'],
    'cryptography.x509.ocsp.load_der_ocsp_response': ['builtins.ValueError'],
    'idna.encode': ['idna.IDNAError'],
    'idna.decode': ['idna.IDNAError'],
    'urllib.request.urlopen': ['urllib.error.URLError'],
    'ipaddress.ip_address': ['builtins.ValueError'],
}
MAY_RAISE_LAST = {
    'from_public_bytes': ['builtins.ValueError'],
    'from_encoded_point': ['builtins.ValueError'],
    'load_der_public_key': MAY_RAISE[
        'cryptography.hazmat.primitives.serialization.load_der_public_key'],
}
METH_RAISE = {
    'decrypt': ['cryptography.exceptions.InvalidTag'],
    'decode': ['builtins.UnicodeDecodeError'],
    'exchange': ['builtins.ValueError'],
    'get_extension_for_oid': ['cryptography.x509.ExtensionNotFound'],
    'get_extension_for_class': ['cryptography.x509.ExtensionNotFound'],
    'index': ['builtins.ValueError'],
}
MUTATORS = {'append', 'extend', 'add', 'update', 'clear', 'insert', 'remove', 'discard', 'sort',
            'reverse', '__setitem__', '__delitem__', 'setdefault', 'popitem', 'pop'}
PURE_PREFIX = ('builtins.', 'textwrap.', 'struct.', 'ipaddress.', 'idna.', 'math.', 'cryptography.',
               'functools.', 'itertools.', 'dataclasses.', 'enum.', 'typing.', 'hmac.', 'hashlib.',
               'logging.getLogger', 'contextlib.', 'collections.', 'abc.', 'operator.', 'binascii.',
               'copy.', 'types.', 'importlib.', 'platform.', 'pathlib.')
IMPURE_LAST = {'generate', 'generate_private_key', 'generate_key', 'time', 'now'}
FOLD_EXT = {'math.ceil': math.ceil, 'math.floor': math.floor, 'math.log2': math.log2,
            'builtins.divmod': divmod, 'builtins.round': round, 'builtins.int': int, 'builtins.str': str, 'builtins.abs': abs, 'builtins.hex': hex,
            'builtins.repr': repr, 'builtins.ord': ord, 'builtins.chr': chr,
            'builtins.float': float, 'builtins.bytes': bytes, 'builtins.pow': pow,
            'builtins.bin': bin, 'builtins.round': round, 'builtins.divmod': divmod,
            'textwrap.dedent': textwrap.dedent, 'builtins.format': format}


def _kw(kws):
    return tuple(sorted(kws.items()))


def mkval(x):
    from .interp import mkval as m
    return m(x)


def alg_of(v):
    if v.k == 'ext' and v.a[0].startswith('hashlib.'):
        return const(v.a[0][8:])
    if v.k == 'attr' and v.a[1] == 'name':
        return alg_of(v.a[0])
    if v.k == 'call' and v.a[0] == 'hashobj':
        return v.a[1][0]
    return v


def newhash(I, st, alg, items=(), key=None):
    from .interp import Obj
    attrs = {'alg': alg_of(alg)}
    if key is not None:
        attrs['key'] = key
    return I.new(st, Obj(mk('ext', 'hashlib.HASH'), 'hash', attrs, items=tuple(items)), 'hash')


def size(v, st=None):
    """byte length term"""
    if v.k == 'call' and v.a[0] in ('hmac.digest', 'hash'):
        alg = v.a[1][2] if v.a[0] == 'hmac.digest' else v.a[1][0]
        if alg.k == 'const' and alg.a[1] in DIGEST_SIZE:
            return const(DIGEST_SIZE[alg.a[1]])
    if v.k == 'const':
        return const(len(v.a[1]))
    if v.k == 'be':
        return v.a[1]
    if v.k == 'concat':
        tot, rest = 0, []
        for p in v.a:
            s = size(p)
            if has_cval(s):
                tot += cval(s)
            else:
                rest.append(s)
        if not rest:
            return const(tot)
        return mk('len', v)
    return mk('len', v)


# ------------------------------------------------------------------ helpers

def emit_call(I, st, name, args, kws, res, n):
    return I.emit(st, 'call', name, args, res, n, _kw(kws))


def isinst(I, st, v, t, n):
    """-> list of (st, V)"""
    from .interp import ext_mro
    names = I.class_list(t, st)
    if v.k == 'phi':
        out = []
        for x in v.a:
            out += isinst(I, I.replace_everywhere(st, v, x), x, t, n)
        return out

    def sub(c):
        if c.k == 'cls':
            mro = I.p.mro_names(c.a[0])
        else:
            mro = ext_mro(c.a[0])
        return any(x in mro for x in names)
    c = None
    if v.k == 'obj' and v in st.heap:
        c = st.heap[v].cls
    elif v.k == 'sym' and isinstance(v.a[1], V):
        c = v.a[1]
    elif v.k == 'enum':
        c = mk('cls', v.a[0])
    elif v.k == 'enumcast':
        c = v.a[0]
    elif v.k == 'const':
        c = mk('ext', 'builtins.' + type(v.a[1]).__name__)
    elif v.k == 'exc':
        c = mk('ext', v.a[0])
    elif v.k in ('tuple',):
        c = mk('ext', 'builtins.tuple')
    elif is_bytes(v):
        c = mk('ext', 'builtins.bytes')
    if c is not None and c.k == 'anycls':
        yes = [x for x in c.a[2] if sub(x)]
        no = [x for x in c.a[2] if not sub(x)]
        if not yes or not no:
            return [(st, TRUE if yes else FALSE)]
        out = []
        for cs, b in ((yes, TRUE), (no, FALSE)):
            s = st
            nc = I.anycls(cs, c.a[1])
            if v.k == 'obj':
                o = s.heap[v]
                s = s.setobj(v, type(o)(nc, o.kind, o.attrs, o.items, o.open, o.name))
            out.append((I.emit(s, 'case', 'isinstance', (v, nc), node=n), b))
        return out
    if c is not None and c.k in ('cls', 'ext') and not (v.k == 'sym' and c.k == 'cls' and any(
            x in (y.qual for y in c.a[0].subclasses) for x in names)):
        return [(st, TRUE if sub(c) else FALSE)]
    return [(st, mk('isinst', v, tuple(sorted(names))))]


def typeof(I, st, v):
    if v.k == 'obj' and v in st.heap and st.heap[v].cls is not None:
        return st.heap[v].cls
    if v.k == 'sym' and isinstance(v.a[1], V) and v.a[1].k in ('cls', 'anycls'):
        return v.a[1]
    if v.k == 'enum':
        return mk('cls', v.a[0])
    if v.k == 'enumcast':
        return v.a[0]
    if v.k == 'const':
        return mk('ext', 'builtins.' + type(v.a[1]).__name__)
    if v.k == 'cls':
        return v.a[0].meta or mk('ext', 'builtins.type')
    return mk('typeof', v)


def dynamic_class(I, st, args, kws, n):
    from .interp import ClassInfo
    name, bases, ns = args
    cache = I.__dict__.setdefault('_dyn', {})
    key = (I.loc(n, st), name, bases)
    ci = ClassInfo('<dynamic>', f'<dynamic>@{I.loc(n, st)[0]}:{I.loc(n, st)[1]}',
                   I.cur_module(st), None)
    if key in cache:
        ci = cache[key]
    cache[key] = ci
    items = I.known_items(bases, st)
    ci.bases = list(items) if items is not None else [bases]
    flat = []
    for b in ci.bases:
        flat += [b] if b.k != 'rep' else []
    ci.bases = flat
    d = st.heap.get(ns)
    cns = {}
    if d is not None and d.kind == 'dict':
        cns = {cval(k): v for k, v in d.items if has_cval(k)}
    st = I.emit(st, 'dynclass', ci.qual, (name, bases), mk('cls', ci), n, _kw(kws))
    was = [(c.a[0], list(c.a[0].subclasses)) for b in ci.bases if b.k == 'cls'
           for c in b.a[0].mro if c.k == 'cls']
    sts = I.finish_class(st, ci, cns, dict(kws), n)
    for c, s in was:
        c.subclasses[:] = s
    return [(s, mk('cls', ci)) for s in sts]


def as_seq(I, st, v, n):
    """[(st, items tuple, open)]"""
    out = []
    for s, w in I.materialize(v, st, n):
        out.append((s, tuple(I.seq_items(w, s))))
    return out


# ------------------------------------------------------------------ functions

def call_ext(I, st, name, args, kws, n):
    from .interp import IMPURE_EXT, Obj, ext_mro
    m = I.models.get(name)
    if m is not None:
        return m(I, st, name, args, kws, n)
    for i, a in enumerate(args):
        if a.k == 'phi' and name in ('builtins.len', 'builtins.isinstance', 'builtins.hasattr',
                                     'builtins.getattr', 'builtins.bool', 'builtins.bytes') and i == 0:
            out = []
            for x in a.a:
                out += call_ext(I, I.replace_everywhere(st, a, x), name,
                                [x, *args[1:]], kws, n)
            return out
    short = name[9:] if name.startswith('builtins.') else None
    if short is not None:
        f = globals().get('b_' + short)
        if f is not None:
            return f(I, st, args, kws, n)
    if name in FOLD_EXT and all(map(has_cval, args)) and all(map(has_cval, kws.values())) and args:
        try:
            return [(st, mkval(FOLD_EXT[name](*[cval(a) for a in args],
                                              **{k: cval(v) for k, v in kws.items()})))]
        except (ValueError, TypeError, OverflowError, MemoryError) as exc:
            I.raise_ext(st, 'builtins.' + type(exc).__name__, n)
            return []
    mro = ext_mro(name)
    if 'builtins.BaseException' in mro:
        return [(st, mk('exc', name, tuple(args)))]
    f = EXT.get(name)
    if f is not None:
        return f(I, st, args, kws, n)
    if name.startswith('hashlib.') and name[8:] not in ('new', 'file_digest', 'algorithms_available'):
        st, h = newhash(I, st, const(name[8:]), args)
        return [(st, h)]
    last = name.rpartition('.')[2]
    impure = name.startswith(IMPURE_EXT) or last in IMPURE_LAST or not name.startswith(PURE_PREFIX)
    if name.startswith('logging.getLogger'):
        impure = False
    sub = ()
    if impure:
        st, i = I.fresh(st)
        sub = (i,)
    res = mk('call', name, tuple(args), _kw(kws), *sub)
    st = emit_call(I, st, name, args, kws, res, n)
    errs = MAY_RAISE.get(name, MAY_RAISE_LAST.get(last, ()))
    fails = None
    if errs and not impure and not kws and all(a.k in ('sym', 'fld', 'const') for a in args):
        fails = mk('fails', res)    # a function of its arguments fails each time or never
    if errs and (fails is None or st.facts.get(fails) is not False):
        for e in errs:
            s = st if fails is None else st.fact(fails, True)
            I.raise_ext(I.emit(s, 'fails', name, tuple(args), None, n), e, n)
    if fails is not None:
        if st.facts.get(fails) is True:
            return []
        st = st.fact(fails, False)
    if short is not None and last in ('open',):
        pass
    del Obj
    return [(st, res)]


def b_len(I, st, args, kws, n):
    v = args[0]
    items = I.known_items(v, st)
    if items is not None and not (v.k == 'obj' and st.heap[v].kind == 'bytearray'):
        return [(st, const(len(items)))]
    if has_cval(v):
        try:
            return [(st, const(len(cval(v))))]
        except TypeError:
            I.raise_ext(st, 'builtins.TypeError', n)
            return []
    if v.k == 'obj' and v in st.heap:
        o = st.heap[v]
        if o.kind == 'bytearray' and o.items is not None and not o.open:
            return [(st, size(concat(o.items)))]
        if o.kind == 'instance' and o.cls.k == 'cls':
            f = I.p.find(o.cls.a[0], '__len__')
            if f is not None and f.k == 'func':
                return I.call_func(st, f.a[0], [v], {}, n, f)
    if v.k == 'enum' or v is NONE:
        I.raise_ext(st, 'builtins.TypeError', n)
        return []
    return [(st, size(v) if is_bytes(v) else mk('len', v))]


def b_isinstance(I, st, args, kws, n):
    return isinst(I, st, args[0], args[1], n)


def b_issubclass(I, st, args, kws, n):
    a, b = args
    if a.k == 'cls' and b.k in ('cls', 'ext', 'tuple', 'union'):
        names = I.class_list(b, st)
        mro = I.p.mro_names(a.a[0])
        return [(st, TRUE if any(x in mro for x in names) else FALSE)]
    return [(st, mk('call', 'builtins.issubclass', tuple(args), ()))]


def b_type(I, st, args, kws, n):
    if len(args) == 1:
        if args[0].k == 'phi':
            out = []
            for x in args[0].a:
                out += b_type(I, I.replace_everywhere(st, args[0], x), [x], kws, n)
            return out
        return [(st, typeof(I, st, args[0]))]
    return dynamic_class(I, st, args, kws, n)


def b_getattr(I, st, args, kws, n):
    o, name = args[:2]
    dflt = args[2] if len(args) > 2 else None
    if has_cval(name) and isinstance(cval(name), str):
        return I.getattr(st, o, cval(name), n, dflt)
    res = mk('call', 'builtins.getattr', tuple(args), ())
    st = emit_call(I, st, 'builtins.getattr', args, {}, res, n)
    return [(st, res)]


def b_hasattr(I, st, args, kws, n):
    o, name = args
    if not has_cval(name):
        return [(st, mk('call', 'builtins.hasattr', tuple(args), ()))]
    name = cval(name)
    ob = st.heap.get(o)
    if ob is not None and ob.kind == 'instance':
        if name in ob.attrs:
            return [(st, TRUE)]
        cands = [ob.cls] if ob.cls.k == 'cls' else list(ob.cls.a[2])
        has = [I.p.find(c.a[0], name) is not None for c in cands]
        if all(has):
            return [(st, TRUE)]
        if not any(has) and not ob.open:
            if any(I.p.find(c.a[0], '__getattr__') is not None for c in cands):
                return [(st, mk('call', 'builtins.hasattr', tuple(args), ()))]
            return [(st, FALSE)]
    if o is NONE:
        return [(st, const(hasattr(None, name)))]
    if o.k == 'cls' and I.p.find(o.a[0], name) is not None:
        return [(st, TRUE)]
    return [(st, mk('call', 'builtins.hasattr', tuple(args), ()))]


def b_setattr(I, st, args, kws, n):
    o, name, v = args
    if has_cval(name):
        return [(s, NONE) for s in I.setattr(st, o, cval(name), v, n)]
    st = I.emit(st, 'setattr', '?', (o, v), node=n)
    return [(st, NONE)]


def b_delattr(I, st, args, kws, n):
    st = I.emit(st, 'delattr', cval(args[1]) if has_cval(args[1]) else '?', (args[0],), node=n)
    o = st.heap.get(args[0])
    if o is not None and has_cval(args[1]):
        st = st.setobj(args[0], o.without_attr(cval(args[1])))
    return [(st, NONE)]


def _anyall(I, st, args, n, is_any):
    out = []
    for s, items in as_seq(I, st, args[0], n):
        pend = [s]
        reps = []
        for it in items:
            if it.k == 'rep':
                reps.append(it)
                continue
            nxt = []
            for q in pend:
                for q2, b in I.branch(it, q, n):
                    if b is is_any:
                        out.append((q2, TRUE if is_any else FALSE))
                    else:
                        nxt.append(q2)
            pend = nxt
        for q in pend:
            if reps:
                out.append((q, mk('any' if is_any else 'all', *reps)))
            else:
                out.append((q, FALSE if is_any else TRUE))
    return out


def b_any(I, st, args, kws, n):
    return _anyall(I, st, args, n, True)


def b_all(I, st, args, kws, n):
    return _anyall(I, st, args, n, False)


def counter(I, st, start, step, src):
    """an iterator that counts"""
    from .interp import Obj
    return I.new(st, Obj(mk('ext', 'builtins.iterator'), 'iter',
                         {'pos': start, 'step': step, 'src': src}), 'iter')


def x_count(I, st, args, kws, n):
    a = [*args, *[const(0), const(1)][len(args):]]
    return [counter(I, st, kws.get('start', a[0]), kws.get('step', a[1]), const('count'))]


def b_next(I, st, args, kws, n):
    it = args[0]
    default = args[1] if len(args) > 1 else None
    o = st.heap.get(it) if it.k == 'obj' else None
    if o is not None and o.kind == 'instance' and o.cls.k == 'cls':
        f = I.p.find(o.cls.a[0], '__next__')
        if f is not None and f.k == 'func':
            return I.call_func(st, f.a[0], [it], {}, n, f)
    if o is not None and o.kind == 'iter':
        pos = o.attrs['pos']
        src = o.attrs['src']
        if src.k == 'call':
            if default is not None:
                out = [(st, default)]
            else:
                I.raise_ext(st, 'builtins.StopIteration', n)
                out = []
        else:
            out = []
        for s, nx in I.binop('+', pos, o.attrs['step'], st, n):
            out.append((s.setobj(it, o.with_attr('pos', nx)), pos))
        return out
    if it.k == 'call' and it.a[0] == 'builtins.iter':
        it = it.a[1][0]
    o = st.heap.get(it) if it.k == 'obj' else None
    if not (it.k in ('gen', 'tuple') or (o is not None and o.items is not None
                                         and o.kind in ('list', 'set'))):
        res_st, i = I.fresh(st)
        out = [(res_st, mk('call', 'builtins.next', (it,), (), i))]
        if default is not None:
            out.append((st, default))
        else:
            I.raise_ext(st, 'builtins.StopIteration', n)
        return out
    out = []
    for s, items in as_seq(I, st, it, n):
        ended = False
        for x in items:
            if x.k != 'rep':
                out.append((s, x))
                ended = True
                break
            s2 = s
            for c, b in x.a[2]:
                s2 = I.assume(s2, c, b, n)
            out.append((s2, x.a[0]))
        if not ended:
            s = I.emit(s, 'exhausted', 'next', (mk('tuple', *items),), node=n)
            s = I.none_of(s, items)
            if default is not None:
                out.append((s, default))
            else:
                I.raise_ext(s, 'builtins.StopIteration', n)
    return out


def b_iter(I, st, args, kws, n):
    v = args[0]
    if v.k == 'gen':
        return [(st, v)]
    if len(args) == 1 and v.k == 'obj' and v in st.heap:
        o = st.heap[v]
        if o.kind == 'iter':
            return [(st, v)]
        if o.kind == 'instance' and o.cls.k == 'cls':
            f = I.p.find(o.cls.a[0], '__iter__')
            if f is not None and f.k == 'func':
                return I.call_func(st, f.a[0], [v], {}, n, f)
    if len(args) == 1 and v.k == 'call' and v.a[0] == 'builtins.range' and len(v.a[1]) < 3:
        return [counter(I, st, v.a[1][0] if len(v.a[1]) == 2 else const(0), const(1), v)]
    return [(st, mk('call', 'builtins.iter', tuple(args), ()))]


def _mkseq(kind):
    def f(I, st, args, kws, n):
        if not args:
            st, o = I.newlist(st, (), kind)
            return [(st, o)]
        out = []
        for s, items in as_seq(I, st, args[0], n):
            if args[0].k == 'cls' and args[0].a[0].is_enum:
                items = tuple(x for x in args[0].a[0].ns.values() if x.k == 'enum')
            if kind == 'tuple':
                out.append((s, mk('tuple', *items)))
                continue
            if kind == 'set':
                items = tuple(dict.fromkeys(items))
            s, o = I.newlist(s, items, kind)
            out.append((s, o))
        return out
    return f


b_list = _mkseq('list')
b_set = _mkseq('set')
b_frozenset = _mkseq('set')
b_tuple = _mkseq('tuple')


def b_sorted(I, st, args, kws, n):
    if not kws and has_cval(args[0]):
        return [(st, mkval(sorted(cval(args[0]))))]
    return [(st, mk('call', 'builtins.sorted', tuple(args), _kw(kws)))]


def b_dict(I, st, args, kws, n):
    from .interp import Obj
    items, open_ = (), False
    if args:
        o = st.heap.get(args[0])
        if o is not None and o.kind == 'dict' and o.items is not None:
            items, open_ = o.items, o.open
        elif args[0].k == 'tuple' and all(x.k == 'tuple' for x in args[0].a):
            items = tuple(x.a for x in args[0].a)
        else:
            open_ = True
    items = (*items, *((const(k), v) for k, v in kws.items() if k != '**'))
    st, o = I.new(st, Obj(mk('ext', 'builtins.dict'), 'dict', items=items, open=open_), 'dict')
    return [(st, o)]


def b_bytes(I, st, args, kws, n):
    if not args:
        return [(st, const(b''))]
    v = args[0]
    o = st.heap.get(v) if v.k == 'obj' else None
    if o is not None and o.kind == 'bytearray' and o.items is not None and not o.open:
        return [(st, concat(o.items))]
    if has_cval(v):
        try:
            x = cval(v)
            if not (isinstance(x, int) and x > 100000):
                return [(st, const(bytes(x, *[cval(a) for a in args[1:]])))]
        except Exception:
            pass
    if is_bytes(v):
        return [(st, v)]
    if v.k == 'slice':
        return [(st, v)]
    xs = v.a if v.k == 'tuple' else o.items if o is not None and o.kind == 'list' and not o.open \
        else None
    if xs is not None and len(args) == 1 and not any(
            x.k in ('star', 'elem') or is_bytes(x) or has_cval(x) and not isinstance(cval(x), int)
            for x in xs):
        return [(st, concat([be(x, const(1)) for x in xs]))]     # one octet per number
    if len(args) == 1 and (v.k in ('len', 'ube') or v.k == 'bin' and v.a[0] in (
            '%', '//', '-', '&', '<<', '>>') and v.a[1].k != 'const'):
        return [(st, mk('repb', const(b'\0'), v))]      # bytes(number): that many zeros
    return [(st, mk('call', 'builtins.bytes', tuple(args), ()))]


b_memoryview = b_bytes


def b_bytearray(I, st, args, kws, n):
    if not args or (has_cval(args[0]) and not cval(args[0])):
        st, o = I.newlist(st, (), 'bytearray')
        return [(st, o)]
    v = args[0]
    o = st.heap.get(v) if v.k == 'obj' else None
    items = o.items if o is not None and o.kind == 'bytearray' and o.items is not None else (v,)
    st, o = I.newlist(st, items, 'bytearray')
    return [(st, o)]


def b_bool(I, st, args, kws, n):
    if not args:
        return [(st, FALSE)]
    t = I.truth(args[0], st)
    if t is not None:
        return [(st, const(t))]
    v = args[0]
    if v.k in ('cmp', 'not', 'isinst', 'bool', 'any', 'all'):
        return [(st, v)]
    return [(st, mk('bool', v))]


def _groups(st, args):
    """one iterator taken n times over something whose length n divides"""
    rep = None
    if len(args) == 1 and args[0].k == 'star':
        rep = args[0].a[0]
    it = args[0]
    count = const(len(args))
    if rep is not None and rep.k == 'bin' and rep.a[0] == '*':
        o = st.heap.get(rep.a[1])
        seq = o.items if o is not None else rep.a[1].a if rep.a[1].k == 'tuple' else None
        if not seq or len(seq) != 1:
            return False
        it, count = seq[0], rep.a[2]
    elif any(a is not it for a in args):
        return False
    if it.k != 'call' or it.a[0] != 'builtins.iter' or len(it.a[1]) != 1:
        return False
    data = it.a[1][0]
    sizes = [mk('len', data)]
    if data.k == 'read' and data.a[0] == 'bytes':
        sizes.append(data.a[3])
    for size in sizes:
        left = mk('bin', '%', size, count)
        if st.facts.get(left) is False or any(
                st.facts.get(mk('cmp', op, left, const(0))) is t
                for op, t in (('==', True), ('!=', False), ('>', False))):
            return True
    return False


def b_zip(I, st, args, kws, n):
    seqs = [I.known_items(a, st) for a in args]
    strict = kws.get('strict') is TRUE
    if all(s is not None for s in seqs):
        if strict and len({len(s) for s in seqs}) > 1:
            I.raise_ext(st, 'builtins.ValueError', n)
            return []
        return [(st, mk('tuple', *[mk('tuple', *t) for t in zip(*seqs)]))]
    if strict and not _groups(st, args):
        I.raise_ext(I.emit(st, 'fails', 'zip', tuple(args), None, n), 'builtins.ValueError', n)
    return [(st, mk('call', 'builtins.zip', tuple(args), ()))]


def b_enumerate(I, st, args, kws, n):
    s = I.known_items(args[0], st)
    if s is not None and len(args) == 1 and not kws:
        return [(st, mk('tuple', *[mk('tuple', const(i), x) for i, x in enumerate(s)]))]
    return [(st, mk('call', 'builtins.enumerate', tuple(args), _kw(kws)))]


def b_reversed(I, st, args, kws, n):
    s = I.known_items(args[0], st)
    if s is not None and args[0].k != 'cls':
        return [(st, mk('tuple', *reversed(s)))]
    return [(st, mk('call', 'builtins.reversed', tuple(args), ()))]


def b_map(I, st, args, kws, n):
    s = I.known_items(args[1], st) if len(args) == 2 else None
    if s is not None:
        res = [(st, ())]
        for x in s:
            res = [(s3, (*vs, v)) for s2, vs in res for s3, v in I.call(s2, args[0], [x], {}, n)]
        return [(s2, mk('tuple', *vs)) for s2, vs in res]
    if len(args) == 2:
        out = []
        el = mk('elem', args[1], 0)
        src = args[1]
        o = st.heap.get(src) if src.k == 'obj' else None
        facts = ()
        if o is not None and o.items and len(o.items) == 1 and o.items[0].k == 'rep':
            el, facts = o.items[0].a[0], o.items[0].a[2]
        elif src.k == 'tuple' and len(src.a) == 1:
            el, facts = src.a[0].a[0], src.a[0].a[2]
        for s, v in I.call(st, args[0], [el], {}, n):
            s, lst = I.newlist(s, (mk('rep', v, src, facts),))
            out.append((s, lst))
        return out
    return [(st, mk('call', 'builtins.map', tuple(args), ()))]


FILTER = ast.parse('[x for x in __src if __pred(x)]', mode='eval').body
FILTER_NONE = ast.parse('[x for x in __src if x]', mode='eval').body


def b_filter(I, st, args, kws, n):
    """the comprehension that filter() stands for"""
    if len(args) != 2 or st.cur is None:
        return [(st, mk('call', 'builtins.filter', tuple(args), ()))]
    st = st.setvar('__src', args[1]).setvar('__pred', args[0])
    node = FILTER_NONE if args[0] is NONE else FILTER
    out = []
    for s, v in I.e_GeneratorExp(ast.copy_location(ast.GeneratorExp(
            node.elt, node.generators), n), st):
        out.append((s.delvar('__src').delvar('__pred'), v))
    return out


def _minmax(fn):
    def f(I, st, args, kws, n):
        name = fn.__name__
        if not kws and len(args) > 1 and all(map(has_cval, args)):
            return [(st, mkval(fn(*[cval(a) for a in args])))]
        if not kws and len(args) == 1 and has_cval(args[0]):
            return [(st, mkval(fn(cval(args[0]))))]
        a = tuple(sorted(args, key=lambda v: v.i)) if len(args) > 1 else tuple(args)
        if len(args) == 1 and args[0].k in ('obj', 'gen'):
            out = []
            for s, items in as_seq(I, st, args[0], n):
                out.append((s, mk('call', 'builtins.' + name, (mk('tuple', *items),), _kw(kws))))
            return out
        return [(st, mk('call', 'builtins.' + name, a, _kw(kws)))]
    return f


b_min = _minmax(min)
b_max = _minmax(max)


def b_sum(I, st, args, kws, n):
    if has_cval(args[0]):
        return [(st, mkval(sum(cval(args[0]))))]
    out = []
    for s, items in as_seq(I, st, args[0], n):
        if items and all(x.k != 'rep' for x in items):
            acc = [(s, const(0))]
            for x in items:
                acc = [(s3, v) for s2, a in acc for s3, v in I.binop('+', a, x, s2, n)]
            out += acc
        else:
            out.append((s, mk('call', 'builtins.sum', (mk('tuple', *items),), ())))
    return out


def b_object(I, st, args, kws, n):
    from .interp import Obj
    st, o = I.new(st, Obj(mk('ext', 'builtins.object'), 'opaque'), 'object')
    return [(st, o)]


def b_property(I, st, args, kws, n):
    f = args[0]
    if f.k == 'func':
        f.a[0].kind = 'property'
    return [(st, f)]


def b_staticmethod(I, st, args, kws, n):
    if args[0].k == 'func':
        args[0].a[0].kind = 'static'
    return [(st, args[0])]


def b_classmethod(I, st, args, kws, n):
    if args[0].k == 'func':
        args[0].a[0].kind = 'class'
    return [(st, args[0])]


def b_print(I, st, args, kws, n):
    st = emit_call(I, st, 'builtins.print', args, kws, NONE, n)
    return [(st, NONE)]


def b_int(I, st, args, kws, n):
    if len(args) == 1 and args[0].k in ('enum', 'const') and has_cval(args[0]):
        try:
            return [(st, const(int(cval(args[0]))))]
        except (ValueError, TypeError) as exc:
            I.raise_ext(st, 'builtins.' + type(exc).__name__, n)
            return []
    if len(args) == 1 and args[0].k == 'enumcast':
        return [(st, args[0].a[1])]
    if len(args) == 2 and has_cval(args[0]) and has_cval(args[1]):
        return [(st, const(int(cval(args[0]), cval(args[1]))))]
    return [(st, mk('call', 'builtins.int', tuple(args), _kw(kws)))]


def x_from_bytes(I, st, args, kws, n):
    order = args[1] if len(args) > 1 else kws.get('byteorder', const('big'))
    if kws.get('signed', FALSE) is not FALSE or order is not const('big'):
        if has_cval(args[0]) and has_cval(order) and has_cval(kws.get('signed', FALSE)):
            return [(st, const(int.from_bytes(cval(args[0]), cval(order),
                                              signed=cval(kws.get('signed', FALSE)))))]
        return [(st, mk('call', 'builtins.int.from_bytes', tuple(args), _kw(kws)))]
    v = args[0]
    o = st.heap.get(v) if v.k == 'obj' else None
    if o is not None and o.kind == 'bytearray' and o.items is not None and not o.open:
        v = concat(o.items)
    if has_cval(v) and isinstance(cval(v), bytes):
        return [(st, const(int.from_bytes(cval(v), 'big')))]
    if v.k == 'be':
        return [(st, v.a[0])]
    return [(st, mk('ube', v))]


def x_fromhex(I, st, args, kws, n):
    if has_cval(args[0]):
        return [(st, const(bytes.fromhex(cval(args[0]))))]
    return [(st, mk('call', 'builtins.bytes.fromhex', tuple(args), ()))]


SZ = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8, 'b': 1, 'h': 2}


def pack_fields(fmt):
    """[(code, size)] of a big-endian format, or None"""
    if not has_cval(fmt) or not isinstance(cval(fmt), str | bytes):
        return None
    f = cval(fmt)
    f = f.decode() if isinstance(f, bytes) else f
    if f[:1] not in ('!', '>'):
        return None
    out, num = [], ''
    for c in f[1:]:
        if c.isdigit():
            num += c
        elif c == 's':
            out.append((c, int(num or 1)))
            num = ''
        elif c in SZ:
            out += [(c, SZ[c])] * int(num or 1)
            num = ''
        else:
            return None
    return None if num else out


def x_pack(I, st, args, kws, n):
    fs = pack_fields(args[0])
    if fs is not None and len(fs) == len(args) - 1:
        if all(c != 's' or has_cval(a) and isinstance(cval(a), bytes)
               for (c, _z), a in zip(fs, args[1:])):
            return [(st, concat([
                const(cval(a)[:z].ljust(z, b'\0')) if c == 's' else be(a, const(z))
                for (c, z), a in zip(fs, args[1:])]))]
    return [(st, mk('call', 'struct.pack', tuple(args), ()))]


def x_unpack_from(I, st, args, kws, n):
    off = args[2] if len(args) > 2 else kws.get('offset', const(0))
    b = args[1] if len(args) > 1 else kws.get('buffer')
    fs = pack_fields(args[0])
    if fs is None or b is None or not has_cval(off) or kws and set(kws) - {'buffer', 'offset'}:
        return [(st, mk('call', 'struct.unpack_from', tuple(args), _kw(kws)))]
    lo = cval(off)
    out = []
    for s, v in I.getitem(st, b, mk('sl', const(lo) if lo else NONE, const(
            lo + sum(z for _c, z in fs)), NONE), n):
        out += x_unpack(I, s, [args[0], v], {}, n)
    return out


def x_unpack(I, st, args, kws, n):
    b = args[1]
    fs = pack_fields(args[0])
    if fs is not None:
        vals, off = [], 0
        for c, z in fs:
            part = I_slice(b, off, off + z)
            vals.append(part if c == 's' else mk('ube', part))
            off += z
        return [(st, mk('tuple', *vals))]
    return [(st, mk('call', 'struct.unpack', tuple(args), ()))]


def I_slice(b, lo, hi):
    if b.k == 'slice' and has_cval(b.a[1]) or (b.k == 'slice' and b.a[1] is NONE):
        base = cval(b.a[1]) or 0
        return mk('slice', b.a[0], const(base + lo), const(base + hi))
    return mk('slice', b, const(lo), const(hi))


def x_hmac_new(I, st, args, kws, n):
    key = args[0] if args else kws.get('key')
    msg = args[1] if len(args) > 1 else kws.get('msg', NONE)
    alg = args[2] if len(args) > 2 else kws.get('digestmod', NONE)
    st, h = newhash(I, st, alg, () if msg is NONE else (msg,), key)
    return [(st, h)]


def _bytes(I, st, v):
    return I.as_bytes(v, st)


def x_hmac_digest(I, st, args, kws, n):
    key = args[0] if args else kws.get('key')
    msg = args[1] if len(args) > 1 else kws.get('msg')
    alg = args[2] if len(args) > 2 else kws.get('digest')
    res = mk('call', 'hmac.digest', (key, _bytes(I, st, msg), alg_of(alg)), ())
    return [(emit_call(I, st, 'hmac.digest', res.a[1], {}, res, n), res)]


def x_hash_new(I, st, args, kws, n):
    data = args[1:] or ([kws['data']] if 'data' in kws else [])
    st, h = newhash(I, st, args[0], [_bytes(I, st, d) for d in data])
    return [(st, h)]


def x_replace(I, st, args, kws, n):
    from .interp import Obj
    b = args[0]
    if b.k == 'phi':
        out = []
        for x in b.a:
            out += x_replace(I, I.replace_everywhere(st, b, x), [x], kws, n)
        return out
    o = st.heap.get(b)
    if o is not None and o.kind == 'instance':
        attrs = dict(o.attrs)
        attrs.update(kws)
        st, r = I.new(st, Obj(o.cls, 'instance', attrs, o.items, o.open, ('replaced', b)),
                      'copy')
        st = I.emit(st, 'dcreplace', '', (b, r), r, n, _kw(kws))
        return [(st, r)]
    r = mk('replace', b, _kw(kws))
    st = I.emit(st, 'dcreplace', '', (b, r), r, n, _kw(kws))
    return [(st, r)]


def x_partial(I, st, args, kws, n):
    return [(st, mk('partial', args[0], tuple(args[1:]), _kw(kws)))]


def x_ns(I, st, args, kws, n):
    from .interp import Obj
    st, o = I.new(st, Obj(mk('ext', 'types.SimpleNamespace'), 'ns', dict(kws)), 'ns')
    return [(st, o)]


def x_compare(I, st, args, kws, n):
    res = mk('call', 'hmac.compare_digest', tuple(args), ())
    st = emit_call(I, st, 'hmac.compare_digest', args, kws, res, n)
    return [(st, res)]


def x_deepcopy(I, st, args, kws, n):
    o = st.heap.get(args[0]) if args[0].k == 'obj' else None
    if o is not None:
        st, r = I.new(st, o, 'copy')
        return [(st, r)]
    return [(st, mk('call', 'copy.copy', tuple(args), ()))]


def x_cast(I, st, args, kws, n):
    return [(st, args[1])]


def x_rawset(I, st, args, kws, n):
    if len(args) != 3 or not has_cval(args[1]):
        return [(st, NONE)]
    return [(I.rawset(st, args[0], cval(args[1]), args[2], n), NONE)]


def x_chain(I, st, args, kws, n):
    items = []
    res = [(st, ())]
    for a in args:
        res = [(s2, (*vs, *it)) for s, vs in res for s2, it in as_seq(I, s, a, n)]
    del items
    return [(s, mk('tuple', *vs)) for s, vs in res]


EXT = {
    'copy.copy': x_deepcopy, 'copy.deepcopy': x_deepcopy,
    'builtins.int.from_bytes': x_from_bytes, 'builtins.bytes.fromhex': x_fromhex,
    'struct.pack': x_pack, 'struct.unpack': x_unpack, 'struct.unpack_from': x_unpack_from, 'hmac.new': x_hmac_new,
    'itertools.count': x_count, 'hmac.digest': x_hmac_digest, 'hashlib.new': x_hash_new, 'dataclasses.replace': x_replace,
    'functools.partial': x_partial, 'types.SimpleNamespace': x_ns,
    'builtins.object.__setattr__': x_rawset,
    'hmac.compare_digest': x_compare, 'typing.cast': x_cast, 'itertools.chain': x_chain,
}


# ------------------------------------------------------------------ methods

def call_meth(I, st, b, name, args, kws, n, sup=False):
    from .interp import FOLD_METHODS, PURE_METHODS, Obj
    m = I.models.get('.' + name)
    if m is not None:
        r = m(I, st, b, name, args, kws, n)
        if r is not None:
            return r
    if name == '__contains__' and len(args) == 1 and not kws and not sup:
        return I.compare('in', args[0], b, st, n)
    if b.k == 'phi':
        out = []
        for x in b.a:
            out += call_meth(I, I.replace_everywhere(st, b, x), x, name, args, kws, n, sup)
        return out
    # class-level values that are hash constructors
    if b.k == 'anycls':
        vals = {I.p.find(c.a[0], name) for c in b.a[2]}
        if vals and all(v is not None and v.k == 'ext' and v.a[0].startswith('hashlib.')
                        for v in vals):
            st, h = newhash(I, st, mk('attr', b, name), args)
            return [(st, h)]
    o = st.heap.get(b) if b.k == 'obj' else None
    if o is not None and o.kind == 'hash':
        alg, key = o.attrs['alg'], o.attrs.get('key')
        if name == 'update':
            return [(I.mutate(st, b, 'update', (_bytes(I, st, args[0]),), n), NONE)]
        if name in ('digest', 'hexdigest'):
            data = concat(o.items) if not o.open else mk('concat', *o.items, mk('more'))
            if key is not None:
                r = mk('call', 'hmac.digest', (key, data, alg), ())
                st = emit_call(I, st, 'hmac.digest', r.a[1], {}, r, n)
            else:
                r = mk('call', 'hash', (alg, data), ())
            if name == 'hexdigest':
                r = mk('mcall', 'hex', r, (), ())
            return [(st, r)]
        if name == 'copy':
            st, h = I.new(st, Obj(o.cls, o.kind, o.attrs, o.items, o.open, o.name), 'hash')
            return [(st, h)]
        I.raise_ext(I.emit(st, 'noattr', name, (b,), node=n), 'builtins.AttributeError', n, name)
        return []
    if o is not None and o.kind in ('dict', 'dictu'):
        r = dict_meth(I, st, b, o, name, args, kws, n)
        if r is not None:
            return r
    if o is not None and o.kind in ('list', 'set', 'bytearray'):
        r = seq_meth(I, st, b, o, name, args, kws, n)
        if r is not None:
            return r
    if b.k == 'gen' and name == '__next__':
        return b_next(I, st, [b], {}, n)
    if name == 'join' and is_const(b) and len(args) == 1:
        out = []
        for s, items in as_seq(I, st, args[0], n):
            if b is const(b''):
                out.append((s, concat([_bytes(I, s, x) for x in items])))
            elif all(has_cval(x) for x in items):
                try:
                    out.append((s, const(cval(b).join(cval(x) for x in items))))
                except TypeError:
                    I.raise_ext(s, 'builtins.TypeError', n)
            else:
                out.append((s, mk('mcall', 'join', b, tuple(items), ())))
        return out
    if name == 'to_bytes':
        nn = args[0] if args else kws.get('length', const(1))
        order = args[1] if len(args) > 1 else kws.get('byteorder', const('big'))
        if order is const('big') and kws.get('signed', FALSE) is FALSE:
            v = b.a[1] if b.k == 'enumcast' else b
            return [(st, be(v, nn))]
        return [(st, mk('mcall', name, b, tuple(args), _kw(kws)))]
    if has_cval(b) and name in FOLD_METHODS | {'to_bytes', 'count', 'index', 'find', 'isalnum'}:
        if all(map(has_cval, args)) and all(map(has_cval, kws.values())):
            try:
                return [(st, mkval(getattr(cval(b), name)(*[cval(a) for a in args],
                                                          **{k: cval(v) for k, v in kws.items()})))]
            except Exception as exc:
                I.raise_ext(st, 'builtins.' + type(exc).__name__, n)
                return []
        if b.k == 'const' and isinstance(b.a[1], str) and name == 'format':
            return [(st, mk('fmtcall', b, tuple(args), _kw(kws)))]
    if b is NONE:
        I.raise_ext(I.emit(st, 'noattr', name, (b,), node=n), 'builtins.AttributeError', n, name)
        return []
    if b.k == 'tuple' and name in ('index', 'count'):
        return [(st, mk('mcall', name, b, tuple(args), ()))]
    if name == '__subclasses__' and b.k == 'cls':
        st, r = I.newlist(st, [mk('cls', c) for c in b.a[0].subclasses])
        return [(st, r)]
    res = None
    sub = ()
    if name not in PURE_METHODS or name in ('pop', 'read', 'recv'):
        st, i = I.fresh(st)
        sub = (i,)
    res = mk('mcall', name, b, tuple(args), _kw(kws), *sub)
    st = I.emit(st, 'meth', name, (b, *args), res, n, _kw(kws))
    exc = METH_RAISE.get(name, ())
    if name == 'decode' and is_const(b):
        exc = ()
    if name == 'verify':
        exc = ['cryptography.x509.verification.VerificationError'] if _is_verifier(b) else \
            ['cryptography.exceptions.InvalidSignature', 'builtins.ValueError']
    for e in exc:
        I.raise_ext(I.emit(st, 'fails', name, (b, *args), res, n), e, n)
    return [(st, res)]


def _is_verifier(b):
    return b.k == 'mcall' and b.a[0] in ('build_server_verifier', 'build_client_verifier')


def dict_meth(I, st, b, o, name, args, kws, n):
    from .interp import Obj
    if name == 'get':
        default = args[1] if len(args) > 1 else NONE
        if o.items is None:
            if o.kind != 'dict':
                return None
            inn = mk('cmp', 'in', args[0], b)
            known = I.truth(inn, st)
            return [(I.assume(st, inn, t, n), mk('item', b, args[0]) if t else default)
                    for t in (True, False) if known in (None, t)]
        if args[0].k == 'phi':
            out = []
            for x in args[0].a:
                out += dict_meth(I, I.replace_everywhere(st, args[0], x), b, o, name,
                                 [x, *args[1:]], kws, n)
            return out
        return I.dict_get(st, b, o, args[0], n, default)
    if name in ('keys', 'values', 'items') and o.items is not None and not args:
        its = []
        for k, v in o.items:
            its.append({'keys': k, 'values': v, 'items': mk('tuple', k, v)}[name])
        if o.open:
            src = b
            k = mk('elem', b, 0)
            v = mk('item', b, k)
            its = [mk('rep', x, mk('maybe'), ()) for x in its]
            its.append(mk('rep', {'keys': k, 'values': v, 'items': mk('tuple', k, v)}[name], src,
                          ()))
        return [(st, mk('tuple', *its))]
    if name == 'setdefault':
        key = args[0]
        d = args[1] if len(args) > 1 else NONE
        if o.items is None:
            return None
        out = []
        for s, v in I.dict_get(st, b, o, key, n, mk('missing')):
            if v.k == 'missing':
                s = I.mutate(s, b, '__setitem__', (key, d), n)
                v = d
            out.append((s, v))
        return out
    if name == 'pop':
        if o.items is None:
            return None
        res = I.dict_get(st, b, o, args[0], n, args[1] if len(args) > 1 else None)
        return [(I.mutate(s, b, 'pop', (args[0],), n), v) for s, v in res]
    if name == 'update':
        s = st
        for a in args:
            ob = s.heap.get(a)
            if ob is not None and ob.kind == 'dict' and ob.items is not None and not ob.open:
                for k, v in ob.items:
                    s = I.mutate(s, b, '__setitem__', (k, v), n)
            else:
                s = I.mutate(s, b, 'update', (a,), n)
        for k, v in kws.items():
            s = I.mutate(s, b, '__setitem__', (const(k), v), n)
        return [(s, NONE)]
    if name == 'clear':
        return [(I.mutate(st, b, 'clear', (), n), NONE)]
    if name == 'copy':
        st, r = I.new(st, Obj(o.cls, o.kind, o.attrs, o.items, o.open, None), 'dict')
        return [(st, r)]
    return None


def seq_meth(I, st, b, o, name, args, kws, n):
    from .interp import Obj
    if name in ('append', 'extend', 'add', 'clear', 'insert', 'remove', 'discard', 'sort',
                'reverse', 'update', '__setitem__'):
        if name in ('extend', 'update') and args and args[0].k == 'gen':
            return [(I.mutate(s, b, name, (w,), n), NONE)
                    for s, w in I.materialize(args[0], st, n)]
        return [(I.mutate(st, b, name, tuple(args), n), NONE)]
    if name == 'pop':
        items = o.items
        if items is not None and not items and not o.open:
            I.raise_ext(st, 'builtins.IndexError', n)
            return []
        if items is not None and items and all(x.k != 'rep' for x in items) and not o.open and (
                not args or (has_cval(args[0]) and -len(items) <= cval(args[0]) < len(items))):
            i = cval(args[0]) if args else -1
            lst = list(items)
            v = lst.pop(i)
            s = I.emit(st, 'mutate', 'pop', (b, *args), node=n, x=o.name)
            return [(s.setobj(b, o.with_items(tuple(lst))), v)]
        st = I.mutate(st, b, 'pop', tuple(args), n)
        st, i = I.fresh(st)
        return [(st, mk('mcall', 'pop', b, tuple(args), (), i))]
    if name == 'copy':
        st, r = I.new(st, Obj(o.cls, o.kind, o.attrs, o.items, o.open, None), o.kind)
        return [(st, r)]
    if name == 'keys':
        return None
    return None


_ = (builtins, neg, phi, MUTATORS)
