"""P23: configurations are validated, and never modified afterwards"""
import ast
import os

from sa import refs
from sa.drive import CONFIG
from sa.interp import AnalysisError, Interp
from sa.shared import Source
from sa.terms import NONE, const, mk, show, sym, walk

SPEC = {
    'id': 'P23', 'level': 'other',
    'technique': 'path analysis of the constructor of the configuration for every setting that is '
                 'missing or meant for the other side, the others being unknown; effect and alias '
                 'analysis of everything that is given a configuration',
    'explanation': 'a wrong setting must leave no path on which the constructor returns; no '
                   'interpreted path, and no function of the source, may write to a configuration '
                   'or to what it holds',
    'assumptions': ['settings have the declared types'],
}
OUTSIDE = ('siotls.examples', 'siotls.__main__')
LISTS = ('cipher_suites', 'key_exchanges', 'signature_algorithms')


def run(ctx):
    d, p = ctx.driver, ctx.p
    touched = {}
    d.I.monitors.append(lambda I, st, ev: watch(d, touched, ev))
    creation(ctx, p)
    hostname(ctx, d)
    frozen(ctx, p)
    for r in ctx.runs:
        for _o in r.outs:
            ctx.check(True, 'paths-leave-the-configuration', f'{r.side} {r.state} --{r.content}-->')
    for (fn, what), loc in touched.items():
        ctx.bad('paths-leave-the-configuration', f'{fn}: {what}', 'is modified by a connection', loc)
    mods = refs.load(os.path.join(ctx.repo, 'src'))
    src = Source(mods, (), (('config', 'configuration'), CONFIG))
    inside = creating(mods, src)
    found = src.run(lambda m: not m.startswith(OUTSIDE))
    for q, (_n, m, _c) in src.funcs.items():
        if m.name.startswith(OUTSIDE) or q in inside:
            continue
        mine = [f for f in found if f[0] == q]
        if not mine:
            ctx.check(True, 'no-write', q)
        for _q, what, how, loc in dict.fromkeys(mine):
            ctx.bad('no-write', f'{q}: {what}', how + ' once the configuration is made', loc)
    ctx.need('refused', 14)
    ctx.need('no-write', 100)


def creating(mods, src):
    """the functions of the configuration that only its creation calls"""
    q = CONFIG
    methods = {x.rpartition('.')[2]: x for x in src.funcs if x.startswith(q + '.')}
    out, todo = set(), ['__post_init__', '__init__']
    while todo:
        x = methods.get(todo.pop())
        if x is None or x in out:
            continue
        users = {fn for m in mods.values() for a, _n, fn in m.methods
                 if a == x.rpartition('.')[2]}
        if not x.endswith('_init__') and not users <= out:
            continue
        out.add(x)
        todo += [y.attr for y in ast.walk(src.funcs[x][0]) if isinstance(y, ast.Attribute)]
    return out


def watch(d, touched, ev):
    if ev.kind not in ('setattr', 'mutate') or not ev.args:
        return
    b = ev.args[0]
    if b is d.config_v or b.k != 'obj' and any(x is d.config_v for x in walk(b)):
        if ev.fn and '__post_init__' in ev.fn:
            return
        touched.setdefault((ev.fn, f'{show(b)[:60]}.{ev.name}'), ev.loc)


# -------------------------------------------------------------------- creation
def creation(ctx, p):
    cv = p.clsv(CONFIG)
    ci = cv.a[0]
    fields = [n for c in reversed([x.a[0] for x in ci.mro if x.k == 'cls'])
              for n in c.ann if n not in ('side', '_')]
    if not set(LISTS) <= set(fields):
        raise AnalysisError('the settings of the configuration are not found')
    empty = mk('empty', 0)

    def outcomes(side, **kw):
        I = Interp(p, limit=256, keep=lambda e: False)
        ctx.extra.append(type('D', (), {'I': I})())

        def go(s):
            given = {n: sym(f'set.{n}') for n in fields}
            for n, v in kw.items():
                if v is empty:
                    s, v = I.newlist(s, ())
                elif isinstance(v, list):
                    s, v = I.newlist(s, v)
                given[n] = v
            return I.call(s, cv, [const(side)], given, None)
        return I.run(p.state.copy(), go)

    for side in ('client', 'server'):
        cases = [({n: v}, f'{side} {n}={w}') for n in LISTS
                 for v, w in ((NONE, None), (empty, []))]
        if side == 'server':
            cases += [({'private_key': NONE}, 'server private_key=None')]
            cases += [({'public_key': NONE, 'certificate_chain': v},
                       f'server public_key=None certificate_chain={w}')
                      for v, w in ((NONE, None), (empty, []))]
            cases += [({'max_fragment_length': m}, f'server max_fragment_length={m.a[1]}')
                      for m in members(p) if m.a[1] != 'MAX_16384']
        else:
            cases += [({'server_hostnames': [const('a.name')]}, 'client server_hostnames=[...]')]
        for kw, w in cases:
            outs = outcomes(side, **kw)
            for o in outs:
                ctx.check(o.kind != 'return', 'refused', w, 'such a configuration is created',
                          (ci.module.path, ci.node.lineno))
        ok = [o for o in outcomes(side) if o.kind == 'return']
        if not ok:
            raise AnalysisError(f'no {side} configuration can be created')
        ctx.count(f'{side}-valid-paths', len(ok))
    defaults(ctx, p, cv, fields)


def members(p):
    ci = p.clsv('siotls.iana.MaxFragmentLengthOctets').a[0]
    out = [v for v in ci.ns.values() if v.k == 'enum']
    if len(out) < 4:
        raise AnalysisError('the fragment lengths are not found')
    return out


def defaults(ctx, p, cv, fields):
    """two configurations share no default list"""
    I = Interp(p, limit=256, keep=lambda e: False)
    ctx.extra.append(type('D', (), {'I': I})())

    def go(s):
        return I.call(s, cv, [const('client')], {}, None)
    n = 0
    for o in I.run(p.state.copy(), go):
        if o.kind != 'return':
            continue
        attrs = o.st.heap[o.val].attrs
        for f in fields:
            v = attrs.get(f)
            if v is not None and v in o.st.heap and o.st.heap[v].kind in ('list', 'dict', 'set'):
                n += 1
                ctx.check(v not in p.state.heap, 'fresh-default', f,
                          'every configuration made without it shares the same container')
    if not n:
        raise AnalysisError('no default container is found')


def hostname(ctx, d):
    for o in d.I.run(d.base('server'), lambda s: d.I.call(
            s, d.conn_cls, [d.config_v], {'server_hostname': const('a.name')}, None)):
        ctx.check(o.kind != 'return', 'refused', 'server connection with server_hostname',
                  'is created')


def frozen(ctx, p):
    ci = p.clsv(CONFIG).a[0]
    ok = any(isinstance(x, ast.Call) and any(
        k.arg == 'frozen' and isinstance(k.value, ast.Constant) and k.value.value is True
        for k in x.keywords) for x in ci.node.decorator_list)
    own = {n for c in ci.repo_mro() for n in c.ns}
    ok = ok and not {'__setattr__', '__delattr__'} & own or \
        {'__setattr__', '__delattr__'} <= own
    ctx.check(ok, 'no-assignment', ci.name, 'its settings can be assigned',
              (ci.module.path, ci.node.lineno))
