"""P24: nothing a connection does changes what another connection sees"""
import os

from sa import refs
from sa.shared import Source, altered
from sa.terms import show

SPEC = {
    'id': 'P24', 'level': 'other',
    'technique': 'effect analysis: every end state of the interpreted paths is compared with the '
                 'state of the program once loaded; an alias analysis of every function finds '
                 'writes to module, class, registry and default-argument objects',
    'explanation': 'the paths of both sides through every state and the public calls, and every '
                   'function of the source, whether those paths reach it or not',
    'assumptions': ['code that only runs while modules are imported (registration of subclasses) '
                    'is no effect of a connection',
                    'the bundled OCSP client keeps its own cache: it is a service given to the '
                    'connection'],
}
OUTSIDE = ('siotls.examples', 'siotls.__main__')
CACHE = ('siotls.ocsp_over_http.',)


def run(ctx):
    d, p = ctx.driver, ctx.p
    for side in ('client', 'server'):
        for o in d.init(side):
            effects(ctx, p, o.st, f'{side} constructor')
    for r in ctx.runs:
        for o in r.outs:
            effects(ctx, p, o.st, f'{r.side} {r.state} --{r.content}-->')
    mods = refs.load(os.path.join(ctx.repo, 'src'))
    src = Source(mods, CACHE)
    found = src.run(lambda m: not m.startswith(OUTSIDE))
    for q, (_n, m, _c) in src.funcs.items():
        if m.name.startswith(OUTSIDE) or q in src.import_time:
            continue
        mine = [f for f in found if f[0] == q]
        if not mine:
            ctx.check(True, 'no-shared-write', q)
        for _q, what, how, loc in dict.fromkeys(mine):
            ctx.bad('no-shared-write', f'{q}: {what}', how + ', which other connections see', loc)
    for q, loc, why in src.memoised():
        ctx.check(why is None, 'no-shared-result', q,
                  f'remembers {why} and gives it to every connection', loc)
    ctx.count('import-time-functions', len(src.import_time))
    ctx.need('no-shared-write', 100)
    ctx.need('paths-leave-shared-state', 1000)


def effects(ctx, p, st, w):
    left = altered(p, st)
    ctx.check(not left, 'paths-leave-shared-state', w, '; '.join(
        f'{what} becomes {show(v)[:80] if v is not None else "?"}' for what, v in left[:3]))
