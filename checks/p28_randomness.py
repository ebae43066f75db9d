"""P28: what must be unpredictable comes from the system generator, anew for each connection"""
import os

from sa import refs
from sa.interp import AnalysisError, Interp
from sa.nego import extension_of, sends
from sa.q import call_parts, classes_with
from sa.shared import altered
from sa.terms import NONE, alts, cval, has_cval, mk, show, walk

SPEC = {
    'id': 'P28', 'level': 'other',
    'technique': 'provenance of every hello random and key share down to the call that draws it, '
                 'which has to be of the system generator and to happen inside the connection; '
                 'reference analysis of the whole source for other generators and for memoised '
                 'draws',
    'explanation': 'the constructor of the connection, every reachable state that sends a hello '
                   'and init() of every key exchange are interpreted; the drawing call must be '
                   'one evaluated on that path, so not at import time nor in a default value',
    'assumptions': ['secrets, os.urandom and the generators of cryptography are CSPRNGs',
                    'cryptography draws signature nonces and salts itself'],
}
SYSTEM = ('secrets.token_bytes', 'os.urandom', 'secrets.randbits', 'secrets.randbelow',
          'random.SystemRandom')
BAD_ROOTS = ('random', 'numpy', 'uuid', 'faker', 'crypt')
OK_NAMES = ('random.SystemRandom', 'uuid.uuid4', 'uuid.UUID')
GENERATORS = ('generate', 'generate_private_key')
KEX = 'siotls.crypto.key_exchanges'


def drawn(v, base, n=None):
    """why the term is not (made of) bytes drawn on this path, or None"""
    name, args, _k = call_parts(v)
    if v.k != 'call' or name not in SYSTEM[:2]:
        return f'{show(v)[:120]} does not come from the system generator'
    size = args[0] if args else None
    if n is not None and not (size is not None and has_cval(size) and cval(size) == n):
        return f'{show(v)[:120]} is not {n} bytes long'
    if not on_path(v, base):
        return f'{show(v)[:120]} is drawn once and for all'
    return None


def on_path(v, base):
    """the call was evaluated after the program was loaded"""
    ids = [x for x in v.a[3:] if isinstance(x, int)]
    ids += [x.a[0] if x.k == 'sym' else None for x in v.a[3:] if hasattr(x, 'k')]
    return any(isinstance(i, int) and i >= base for i in ids)


def run(ctx):
    d, p = ctx.driver, ctx.p
    base = p.state.nid
    own = {'client': set(), 'server': set()}
    for side in own:
        for o in d.init(side):
            conn = o.st.heap[d.conn_of(o.st)]
            for k, v in conn.attrs.items():
                if any(x.k == 'call' and call_parts(x)[0] in SYSTEM for x in walk(v)):
                    own[side].add(k)
    hellos(ctx, d, base, own)
    for side in own:
        for o in d.init(side):
            conn = o.st.heap[d.conn_of(o.st)]
            for k in own[side]:
                v = conn.attrs.get(k)
                for x in alts(v) if v is not None else ():
                    why = drawn(x, base, 32)
                    ctx.check(why is None, 'drawn-by-the-connection', f'{side} {k}', why or '')
    for r in ctx.runs:
        for o in r.outs:
            before, after = r.entry.heap[d.conn_v].attrs, o.st.heap[d.conn_v].attrs
            for k in own[r.side]:
                ctx.check(after.get(k) is before.get(k) or drawn(after[k], base, 32) is None,
                          'random-is-kept', f'{r.side} {r.state} --{r.content}--> {k}',
                          f'becomes {show(after.get(k))[:120]}')
    for side in own:
        for o in d.init(side):
            outlives(ctx, p, o.st, f'{side} constructor')
    for r in ctx.runs:
        for o in r.outs:
            outlives(ctx, p, o.st, f'{r.side} {r.state} --{r.content}-->')
    shares(ctx, d)
    generators(ctx, p, base)
    references(ctx)
    ctx.need('hello-random', 4)
    ctx.need('drawn-by-the-connection', 2)
    ctx.need('key-share-is-generated', 4)
    ctx.need('private-key-is-generated', 10)


def outlives(ctx, p, st, w):
    ctx.count('end-states')
    for what, v in altered(p, st):
        drawn_ = v is not None and any(
            x.k == 'call' and (call_parts(x)[0] in SYSTEM or generated(mk('item', x, NONE)) or
                               str(x.a[0]).rpartition('.')[2] in GENERATORS) for x in walk(v))
        ctx.check(not drawn_, 'kept-within-the-connection', f'{w} {what}',
                  f'keeps {show(v)[:120]} for the connections to come' if drawn_ else '')


def hellos(ctx, d, base, own):
    seen = {'client': 0, 'server': 0}
    for r in ctx.runs:
        for o in r.outs:
            for e in sends(o.st, 'ClientHello', 'ServerHello'):
                v = o.st.heap[e.x].attrs.get('random')
                w = f'{r.side} {r.state} --{r.content}--> {e.name}.random'
                ok = v is not None and v.k == 'sym' and str(v.a[0]).startswith('conn.') and \
                    v.a[0][5:] in own[r.side]
                if v is not None and not ok:
                    ok = drawn(v, base, 32) is None
                seen[r.side] += 1
                ctx.check(ok, 'hello-random', w,
                          f'{show(v)[:120] if v is not None else None} was not drawn from the '
                          'system generator by the connection', e.loc)
    if not all(seen.values()):
        raise AnalysisError('no hello is sent')


def shares(ctx, d):
    """every share sent is generated in the step that sends it"""
    for r in ctx.runs:
        for o in r.outs:
            for e in sends(o.st, 'ClientHello', 'ServerHello'):
                eo = extension_of(d, o.st, e.x, 'KEY_SHARE')
                w = f'{r.side} {r.state} --{r.content}--> {e.name}: key share'
                if eo is None:
                    continue
                vs = []
                for v in eo.attrs.values():
                    x = o.st.heap.get(v) if v.k == 'obj' else None
                    if x is not None and x.kind == 'dict':
                        vs += [y for _, y in x.items or ()]
                    elif v.k != 'obj':
                        vs += [y for y in alts(v) if not named(y)]
                ctx.check(bool(vs), 'key-share-is-generated', w, 'no share is known', e.loc)
                for v in vs:
                    ok = all(generated(y) for y in alts(v))
                    ctx.check(ok, 'key-share-is-generated', w,
                              f'{show(v)[:150]} is not the share of a new key pair', e.loc)


def named(v):
    """a group name: looked up in an offer"""
    return v.k in ('enum', 'elem', 'fld', 'elemkey') or v.k == 'item' and not generated(v) or \
        v.k == 'sym' and 'key_exchange' in str(v.a[0])


def generated(v):
    x = v
    while x.k == 'item':
        x = x.a[0]
    return x is not v and x.k == 'call' and str(x.a[0]).startswith(KEX + '.') and \
        str(x.a[0]).endswith('.init')


def generators(ctx, p, base):
    for g, ci in [(g, c) for g, cs in sorted(classes_with(p, 'iana_id', KEX).items()) for c in cs]:
        I = Interp(p, limit=64, keep=lambda e: False)
        ctx.extra.append(type('D', (), {'I': I})())

        def go(s, ci=ci, I=I):
            return [y for s2, f in I.getattr(s, mk('cls', ci), 'init', None)
                    for y in I.call(s2, f, [], {}, None)]
        loc = (ci.module.path, ci.node.lineno)
        for o in I.run(p.state.copy(), go):
            outlives(ctx, p, o.st, f'{ci.name}.init')
            if o.kind != 'return':
                continue
            for v in alts(o.val):
                if v.k != 'tuple' or len(v.a) != 2:
                    ctx.bad('private-key-is-generated', str(g), f'init() gives {show(v)[:80]}', loc)
                    continue
                for x in alts(v.a[0]):
                    name, _a, _k = call_parts(x)
                    ok = name is not None and name.rpartition('.')[2] in GENERATORS
                    ctx.check(ok and x is not NONE, 'private-key-is-generated', ci.name,
                              f'the private key is {show(x)[:120]}', loc)
                    if ok and x.k == 'call':
                        ctx.check(on_path(x, base), 'private-key-is-generated', ci.name,
                                  'the private key is generated once and for all', loc)


def references(ctx):
    mods = refs.load(os.path.join(ctx.repo, 'src'))
    random_fns = set()
    for m in mods.values():
        if m.name.startswith('siotls.examples'):
            continue
        for r in m.refs:
            root = r.name.split('.')[0]
            if root in BAD_ROOTS and not r.name.startswith(OK_NAMES):
                ctx.bad('no-other-generator', f'{r.fn or m.name}: {r.name}',
                        'is not the system generator', r.loc)
            elif root in ('secrets', 'random') or r.name in ('os.urandom', 'os.getrandom') or r.name.rpartition('.')[2] in GENERATORS:
                ctx.count('references')
                random_fns.add(r.fn)
                ctx.check(r.fn is not None, 'not-at-import', f'{m.name}: {r.name}',
                          'drawn when the module is imported', r.loc)
        for name, node, fn in m.methods:
            if name in GENERATORS:
                random_fns.add(fn)
    memoised(ctx, mods, random_fns)


def memoised(ctx, mods, random_fns):
    """no function that draws is memoised, nor a function that calls one by name"""
    import ast
    names = {f.rpartition('.')[2] for f in random_fns if f}
    for m in mods.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            deco = {r.name for r in m.refs for x in n.decorator_list
                    if any(r.node is y for y in ast.walk(x))}
            memo = any(x.startswith('functools.') and x.rpartition('.')[2] in (
                'cache', 'lru_cache') for x in deco)
            if not memo:
                continue
            calls = {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(n)
                     if isinstance(x, (ast.Attribute, ast.Name))}
            ctx.check(n.name not in names and not calls & (names | set(GENERATORS)),
                      'not-memoised', f'{m.name}.{n.name}', 'remembers what it draws',
                      (m.path, n.lineno))
        for r in m.refs:
            if r.name in ('functools.cache', 'functools.lru_cache'):
                ctx.count('memoising-references')
