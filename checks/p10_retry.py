"""P10: one HelloRetryRequest at most, and what it selected stays selected"""
from sa import handshake as hs
from sa.interp import AnalysisError
from sa.nego import (Nego, asks, extension_of, has_ext, in_message, nconfig, presence, sends)
from sa.terms import NONE, alts, cval, has_cval, mk, show, sym, walk

SPEC = {
    'id': 'P10', 'level': 'other',
    'technique': 'typestate exploration over two messages: the retry is interpreted from every '
                 'state that can send or accept one, what it selected is given a name of its own, '
                 'and the second hello is interpreted from there; the paths that go on must be '
                 'dominated by the tests that compare it with that name, and path enumeration '
                 'with a test failing shows which alert is left',
    'explanation': 'no state whose message log holds a HelloRetryRequest sends or accepts another; '
                   'the second ClientHello/ServerHello is judged against the first one',
    'assumptions': ['key agreement never yields an empty secret (P17)',
                    'the two messages are parsed as P14 says'],
}


class Two(Nego):
    """what is selected tells paths apart; shared secrets are not empty"""
    def __init__(self, p, base, forced=None):
        super().__init__(p, base)
        self.forced = forced
        self.I.oracle = self.ask

    def ask(self, v, st):
        if self.forced is not None:
            b = self.forced(v, st)
            if b is not None:
                return b
        x = v.a[1] if v.k == 'cmp' and v.a[0] in ('is', '==') and v.a[2] is NONE else v
        while x.k == 'item':
            x = x.a[0]
        if x.k == 'call' and str(x.a[0]).startswith('siotls.crypto.key_exchanges.'):
            return v.k != 'cmp'     # keys and shared secrets are something
        return None

    def joinkey(self, st):
        n = nconfig(self, st, self.conn_v)
        k = n and tuple(n.attrs.get(x) for x in ('cipher_suite', 'key_exchange'))
        own = frozenset((c, b) for c, b in st.facts.items() if c.k in ('sym', 'fails'))
        return (super().joinkey(st), k, has_ext(self, st, 'COOKIE'),
                has_ext(self, st, 'KEY_SHARE'), own)


def rename(st, old, new):
    """the same state with a term called differently"""
    memo = {}

    def t(v):
        if v is old:
            return new
        if isinstance(v, tuple):
            return tuple(t(x) for x in v)
        if not hasattr(v, 'k') or v.k in ('const', 'enum', 'obj', 'cls', 'func', 'ext', 'mod'):
            return v
        if v not in memo:
            a = tuple(t(x) if hasattr(x, 'k') or isinstance(x, tuple) else x for x in v.a)
            memo[v] = mk(v.k, *a) if a != v.a else v
        return memo[v]
    n = st.copy()
    for v, o in st.heap.items():
        attrs = {k: t(x) for k, x in o.attrs.items()}
        items = t(o.items) if o.items is not None else None
        cls = t(o.cls) if o.cls is not None else None
        if attrs != o.attrs or items != o.items or cls is not o.cls:
            n = n.setobj(v, type(o)(cls, o.kind, attrs, items, o.open, o.name))
    for c, b in st.facts.items():
        c2 = t(c)
        if c2 is not c:
            n = n.fact(c2, b)
    return n


def retried(d, st):
    """the log of the connection holds a HelloRetryRequest"""
    for items in logs(d, st):
        if any(x.k in ('ser', 'msg') and x.a[0] == 'HelloRetryRequest'
               for y in items for x in walk(y)):
            return True
    return False


def logs(d, st):
    for o in st.heap.values():
        if o.kind == 'hash' and o.items:
            yield o.items


def named(v):
    """the name under which a class was looked up is the name it has (P19)"""
    if v is not None and v.k == 'attr' and v.a[0].k == 'anycls':
        return v.a[0].a[1]
    return v


def looked(v):
    """what a mapping has under a key, None where it has nothing"""
    return v.k in ('mget', 'item') or v.k == 'mcall' and v.a[0] == 'get'


def ci_of(d, name):
    return next(c for c in d.content_classes()[0] if c.name == name)


def run(ctx):
    d = ctx.driver
    firsts = {'server': [], 'client': []}
    for r in ctx.runs:
        if r.state in d.SETTLED:
            continue
        for o in r.outs:
            sent = o.kind == 'return' and sends(o.st, 'HelloRetryRequest')
            got = o.kind == 'return' and r.content == 'HelloRetryRequest'
            if r.side == 'client' and sent:
                ctx.bad('one-retry', f'client {r.state} --{r.content}', 'sends a retry request')
            if r.side == 'server' and got:
                ctx.bad('one-retry', f'server {r.state}', 'accepts a retry request')
            if not sent and not got:
                continue
            w = f'{r.side} {r.state} --{r.content}-->'
            ctx.check(not retried(d, r.entry), 'one-retry', w,
                      'a second retry goes through')
            if r not in firsts[r.side]:
                firsts[r.side].append(r)
    if not firsts['server'] or not firsts['client']:
        raise AnalysisError('no state sends or accepts a HelloRetryRequest')
    jobs = [(server, r, None) for r in firsts['server'] if not retried(d, r.entry)]
    jobs += [(server, r, c) for f, r, _ in jobs for c in SERVER_CASES]
    more = [(client, r, None) for r in firsts['client'] if not retried(d, r.entry)]
    more += [(client, r, c) for f, r, _ in more for c in CLIENT_CASES]
    ctx.each(lambda j: j[0](ctx, j[1], j[2]), jobs + more)
    for rule, n in (('second-hello-keeps-cipher-suite', 2), ('second-hello-keeps-group', 2),
                    ('retry-asks-for-a-change', 2), ('departure-is-refused', 6),
                    ('one-retry', 4), ('second-client-hello', 1)):
        ctx.need(rule, n)


# ------------------------------------------------------------------ server
SERVER_CASES = {
    'the cipher suite is not offered any more': 'cipher',
    'another client random': 'random',
    'no share of the group': 'share',
    'no key share': 'noshare',
}


def server(ctx, r, case):
    d = ctx.driver
    D = Two(ctx.p, d)
    ctx.extra.append(D)
    first = [o for o in D.redo(r) if o.kind == 'return' and sends(o.st, 'HelloRetryRequest')]
    seen = set()
    for o in first:
        msg = sends(o.st, 'HelloRetryRequest')[0].x
        m = o.st.heap[msg]
        n = nconfig(D, o.st, d.conn_v)
        w = f'server {r.state}: HelloRetryRequest'
        ks = extension_of(D, o.st, msg, 'KEY_SHARE')
        group = ks.attrs.get('selected_group') if ks is not None else None
        suite = m.attrs.get('cipher_suite')
        if group is None or suite is None:
            ctx.bad('retry-selects', w, 'no cipher suite or no group is selected')
            continue
        key = n and tuple(n.attrs.get(x) for x in ('cipher_suite', 'key_exchange'))
        if (suite, group, key) in seen:
            continue
        seen.add((suite, group, key))
        if case is None:
            asked(ctx, d, o.st, w, suite, group)
        st = o.st
        S, G = sym('retry.cipher_suite'), sym('retry.group')
        sn = named(suite)
        st = rename(rename(st, sn, S), group, G)
        second(ctx, r, st, S, G, case)


def asked(ctx, d, st, w, suite, group):
    """the group is one the client supports and sent no share for"""
    def groups(v):
        return in_message(v, 'SUPPORTED_GROUPS')

    def shares(v):
        return in_message(v, 'KEY_SHARE')
    ok = any(b and asks(c, lambda x: x is group, groups) for c, b in st.facts.items())
    ctx.check(ok, 'retry-asks-for-an-offered-group', w,
              f'{show(group)} was not found among the groups of the client')
    ok = has_ext(d, st, 'KEY_SHARE') is False or any(
        not b and asks(c, lambda x: x is group, shares) for c, b in st.facts.items()) or any(
        not b and shares(c) and c.k in ('fld', 'loopv') for c, b in st.facts.items()) or any(
        b and c.k == 'cmp' and c.a[0] == 'is' and c.a[2] is NONE and looked(c.a[1])
        and shares(c.a[1]) for c, b in st.facts.items())
    ctx.check(ok, 'retry-asks-for-a-change', w,
              f'a share of {show(group)} may have been sent already')
    for n in (x for x in st.heap.values() if x.kind == 'instance' and 'key_exchange' in x.attrs
              and 'cipher_suite' in x.attrs and x.cls.k == 'cls'):
        for name, v in (('key_exchange', group), ('cipher_suite', named(suite))):
            if n.attrs[name].k != 'enum' and n.attrs[name] is not v and 'content' not in str(n.name):
                ctx.check(n.attrs[name] is v, 'retry-says-what-was-negotiated', w,
                          f'{show(v)} instead of {show(n.attrs[name])}')


def tagged(v, pred):
    return any(x.k == 'obj' and x.a[0] == 'content' and x.a[-1] == 'second' for x in deep(v)) \
        and pred(v)


def deep(v):
    for x in walk(v):
        yield x
        if x.k == 'obj':
            for y in x.a:
                if hasattr(y, 'k'):
                    yield from deep(y)


def of_second(v):
    return any(x.k == 'obj' and x.a[0] == 'content' and x.a[-1] == 'second' for x in deep(v)) or (
        any(x.k == 'loopv' and 'second' in repr(x.a) for x in walk(v)))


def second(ctx, r, st, S, G, case):
    """the second ClientHello"""
    d = ctx.driver

    def suites(v):
        return of_second(v) and any(x.k == 'fld' and x.a[1] == 'cipher_suites' or
                                    x.k == 'loopv' and x.a[0] == 'cipher_suites'
                                    for x in walk(v))

    def shares(v):
        return of_second(v) and in_message(v, 'KEY_SHARE')

    def lists(v):
        return asks(v, lambda x: named(x) is S, suites)

    def rnd(v):
        return of_second(v) and v.k == 'fld' and v.a[1] == 'random'

    def same(v):
        return v.k == 'cmp' and v.a[0] == '==' and any(rnd(x) for x in v.a[1:])

    def has_share(v):
        return asks(v, lambda x: x is G, shares)

    def got_none(v):
        return v.k == 'cmp' and v.a[0] == 'is' and v.a[2] is NONE and \
            looked(v.a[1]) and shares(v.a[1]) and G in walk(v.a[1])

    def present(v):
        return presence(v, 'KEY_SHARE') and of_second(v)
    good = {lists: True, same: True, has_share: True, got_none: False, present: True}
    tests = {'cipher': (lists,), 'random': (same,), 'share': (has_share, got_none),
             'noshare': (present,)}
    flip = tests[SERVER_CASES[case]] if case else ()

    def normal(v, st):
        return next((b for f, b in good.items() if f(v)), None)

    def forced(v, st):
        return next((b if f not in flip else not b for f, b in good.items() if f(v)), None)
    if case is None:
        D = Two(ctx.p, d)
        ctx.extra.append(D)
        for o in D.step(r.side, st, d.conn_v, ci_of(d, 'ClientHello'), tag='second'):
            if o.kind == 'return':
                accepted(ctx, D, o, S, G, lists, same, has_share, got_none)
        return
    refused(ctx, d, r, st, 'ClientHello', case, normal, forced,
            {'IllegalParameter', 'HandshakeFailure', 'MissingExtension'} if case != 'random'
            else {'IllegalParameter'})


def refused(ctx, d, r, st, name, case, normal, forced, want, tag='second'):
    base, left, reached = set(), [], False
    for f in (normal, forced):
        D = Two(ctx.p, d, f)
        ctx.extra.append(D)
        for o in D.step(r.side, st, d.conn_v, ci_of(d, name), tag=tag):
            from sa.interp import show_exc
            k = (None, None) if o.kind == 'return' else (show_exc(o.val, o.st),
                                                         D.raised_at(o.val, o.st))
            if f is normal:
                base.add(k)
            elif o.kind == 'return' or k not in base:
                reached = True
                left.append((o, *k))
            else:
                reached = True
    w = f'{r.side} {r.state}: second hello, {case}'
    ctx.check(reached, 'refusal-is-reached', w, 'no path refuses')
    for o, exc, loc in left:
        ctx.check(o.kind == 'raise', 'departure-is-refused', w, 'the handshake goes on')
        if o.kind == 'raise':
            ctx.check(exc in want, 'refused-with-the-prescribed-alert', w,
                      f'{exc} instead of {" or ".join(sorted(want))}', loc[0] if loc else None)


def accepted(ctx, D, o, S, G, lists, same, has_share, got_none):
    d = ctx.driver
    st = o.st
    for after in hs.states_after(st, d):
        w = f'server second ClientHello --> {after}'
        ctx.check(not sends(st, 'HelloRetryRequest'), 'one-retry', w, 'a second retry is sent')
        for e in sends(st, 'ServerHello'):
            m = st.heap[e.x]
            v = m.attrs.get('cipher_suite')
            v = named(v)
            ctx.check(v is S, 'second-hello-keeps-cipher-suite', w,
                      f'{show(v) if v is not None else None} is selected', e.loc)
            ctx.check(any(b and lists(c) for c, b in st.facts.items()),
                      'second-hello-keeps-cipher-suite', w,
                      'it was not tested that the client still offers the cipher suite', e.loc)
            ks = extension_of(D, st, e.x, 'KEY_SHARE')
            g = ks.attrs.get('group') if ks is not None else None
            ctx.check(g is G, 'second-hello-keeps-group', w,
                      f'the share is of {show(g) if g is not None else None}', e.loc)
            ctx.check(any(has_share(c) if b else got_none(c) for c, b in st.facts.items()),
                      'second-hello-keeps-group', w,
                      'the client may have sent no share of the group', e.loc)
            ctx.check(any(b and same(c) for c, b in st.facts.items()),
                      'second-hello-keeps-random', w, 'the randoms were not compared', e.loc)
            ciphers(ctx, D, st, w, S)
            n = nconfig(D, st, d.conn_v)
            if n is not None:
                for k, x in (('cipher_suite', S), ('key_exchange', G)):
                    ctx.check(n.attrs.get(k) is x, f'second-hello-keeps-{k.replace("_", "-")}', w,
                              f'{show(n.attrs.get(k))} is settled on', e.loc)


def ciphers(ctx, D, st, w, S):
    """the cipher object in use is the one of the suite selected"""
    for x in st.heap[D.conn_v].attrs.values():
        o = st.heap.get(x) if x.k == 'obj' else None
        if o is not None and o.cls is not None and o.cls.k == 'anycls' and \
                D.p.is_subclass(o.cls, 'siotls.crypto.ciphers.TLSCipherSuite'):
            ctx.check(o.cls.a[1] is S, 'second-hello-keeps-cipher', w,
                      f'the keys are those of {show(o.cls.a[1])}')


# ------------------------------------------------------------------ client
CLIENT_CASES = {
    'the group was not offered': ('first', 'offered'),
    'a share of the group was sent already': ('first', 'change'),
    'the cipher suite was not offered': ('first', 'cipher'),
    'another cipher suite': ('second', 'suite'),
    'a share of another group': ('second', 'group'),
}


def hello_fields(D, st, e):
    m = st.heap[e.x]
    exts = {}
    for v in m.attrs.values():
        x = st.heap.get(v) if v.k == 'obj' else None
        if x is not None and x.kind == 'dict' and x.items:
            for k, y in x.items:
                eo = st.heap.get(y)
                if eo is None or eo.cls is None or eo.cls.k != 'cls':
                    exts['?'] = y
                    continue
                t = D.p.find(eo.cls.a[0], 'extension_type')
                exts[t.a[1] if t is not None and t.k == 'enum' else eo.cls.a[0].name] = eo
    return m, exts


def client(ctx, r, case):
    d = ctx.driver
    where, what = CLIENT_CASES[case] if case else (None, None)

    def group(v):
        return v.k in ('fld', 'loopv') and in_message(v, 'KEY_SHARE') and (
            v.a[1] if v.k == 'fld' else v.a[0]) == 'selected_group'

    def suite(v, tag=None):
        return v.k == 'fld' and v.a[1] == 'cipher_suite' and v.a[0].k == 'obj' and \
            v.a[0].a[0] == 'content' and (tag is None) is (v.a[0].a[-1] != 'second')

    def own(*names):
        def f(v):
            return any(x.k == 'fld' and x.a[1] in names and not in_message(x) or
                       x.k == 'sym' and isinstance(x.a[0], str) and
                       x.a[0].rpartition('.')[2] in names for x in walk(v))
        return f

    def offered(v):
        return asks(v, group, own('key_exchanges'))

    def shares(v):
        return v.k == 'obj' or any(x.k == 'sym' and 'shares' in str(x.a[0]) for x in walk(v))

    def change(v):
        return asks(v, group, shares)

    def cipher(v):
        return asks(v, suite, own('cipher_suites'))
    good = {offered: True, change: False, cipher: True, group: True}

    def normal(v, st):
        return next((b for f, b in good.items() if f(v)), None)

    def forced(v, st):
        flip = {'offered': offered, 'change': change, 'cipher': cipher}.get(what)
        return next((b if f is not flip else not b for f, b in good.items() if f(v)), None)
    if where == 'first':
        refused(ctx, d, r, r.entry, 'HelloRetryRequest', case, normal, forced,
                {'IllegalParameter'}, None)
        return
    ini = [x for x in ctx.runs if x.side == 'client' and x.content == 'initiate_connection']
    if not ini:
        raise AnalysisError('no client starts')
    seen = set()
    for x in ini:
        D0 = Two(ctx.p, d)
        ctx.extra.append(D0)
        hellos = {}
        for o in D0.redo(x):
            es = [e for e in o.st.events() if e.kind == 'send' and e.name == 'ClientHello']
            if o.kind == 'return' and es:
                hellos.setdefault(shape(D0, o.st, es[-1]), (o, es[-1]))
        for o0, e0 in hellos.values():
            D = Two(ctx.p, d, lambda v, st: True if group(v) else None)
            ctx.extra.append(D)
            for o in D.step('client', o0.st, d.conn_v, ci_of(d, 'HelloRetryRequest'),
                            tag='retry'):
                if o.kind != 'return':
                    continue
                es = sends(o.st, 'ClientHello')
                w = 'client HelloRetryRequest'
                facts = o.st.facts.items()
                gs = {y for c, b in facts if b and offered(c) for y in c.a[1:] if group(y)}
                if case is None:
                    ctx.check(bool(gs), 'retry-asks-for-an-offered-group', w,
                              'the group was not looked up among those offered')
                    ctx.check(len(es) == 1, 'second-client-hello', w,
                              f'{len(es)} ClientHello are sent')
                    no_share(ctx, D, o.st, e0, group, w)
                    for e in es[:1]:
                        compare(ctx, D, o0.st, e0, o.st, e, group)
                if not es or not gs:
                    continue
                S = sym('retry.cipher_suite')
                n = nconfig(D, o.st, d.conn_v)
                sv = n.attrs.get('cipher_suite') if n is not None else None
                if case is None:
                    ctx.check(sv is not None and any(suite(y) for y in walk(sv)),
                              'retry-selects', w, 'the cipher suite selected is not kept')
                G = sym('retry.group')
                st = o.st
                for y in cands(st, suite):
                    st = rename(st, y, S)
                for y in gs:
                    st = rename(st, y, G)
                k = (frozenset((str(a), b) for a, b in st.heap[d.conn_v].attrs.items()),
                     frozenset(c for c, b in st.facts.items() if b and S in set(walk(c))))
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) <= 12:
                    client_second(ctx, r, st, S, G, where and what, case)


def cands(st, pred):
    out = []
    for o in st.heap.values():
        for v in o.attrs.values():
            out += [x for x in walk(v) if pred(x) and x not in out]
        if o.cls is not None:
            out += [x for x in walk(o.cls) if x.k == 'fld' and pred(x) and x not in out]
    for c in st.facts:
        out += [x for x in walk(c) if x.k == 'fld' and pred(x) and x not in out]
    return out


def shape(D, st, e):
    m, exts = hello_fields(D, st, e)
    ks = exts.get('KEY_SHARE')
    return frozenset(exts), ks is not None and keys_of(st, ks)


def keys_of(st, eo):
    for v in eo.attrs.values():
        o = st.heap.get(v) if v.k == 'obj' else None
        if o is not None and o.kind == 'dict' and o.items is not None and not o.open:
            return tuple(k for k, _ in o.items)
    return None


def no_share(ctx, D, st, e0, group, w):
    """the group was found not to be one a share was sent for"""
    _m, exts = hello_fields(D, st, e0)
    ks = keys_of(st, exts['KEY_SHARE']) if 'KEY_SHARE' in exts else ()
    ctx.check(ks is not None, 'retry-asks-for-a-change', w, 'the shares sent are not known')
    for k in ks or ():
        ok = False
        for c, b in st.facts.items():
            if not b and c.k == 'cmp' and c.a[0] in ('in', '==', 'is') and any(
                    group(x) for x in c.a[1:]):
                y = next(x for x in c.a[1:] if not group(x)) if not all(
                    group(x) for x in c.a[1:]) else None
                if y is k:
                    ok = True
                yo = st.heap.get(y) if y is not None and y.k == 'obj' else None
                if yo is not None and yo.items is not None and any(
                        (i[0] if isinstance(i, tuple) else i) is k for i in yo.items):
                    ok = True
        ctx.check(ok, 'retry-asks-for-a-change', w,
                  f'the group may be {show(k)}, of which a share was sent')


def condition(st, e, eo):
    """when an extension is added: always, under some facts, or for reasons that are not known"""
    mine = {v for x in st.heap[e.x].attrs.values() if x.k == 'obj' and x in st.heap
            and st.heap[x].kind == 'dict' for _, v in st.heap[x].items or ()
            if st.heap.get(v) is eo}
    for o in st.heap.values():
        for r in o.items or () if o.kind == 'list' else ():
            if r.k == 'rep' and r.a[0] in mine:
                return 'maybe' if not r.a[2] else 'when'
    return 'always'


def compare(ctx, D, st0, e0, st, e, group):
    """the second ClientHello differs from the first where RFC 8446 section 4.1.2 says so"""
    w = 'client: second ClientHello'
    m0, x0 = hello_fields(D, st0, e0)
    m, x = hello_fields(D, st, e)
    for k in sorted(set(m0.attrs) | set(m.attrs)):
        if k == 'extensions':
            continue
        a, b = m0.attrs.get(k), m.attrs.get(k)
        if a is not None and a.k == 'obj' and b is not None and b.k == 'obj' and \
                st0.heap[a].kind == 'dict':
            continue
        ctx.check(same_term(D, st0, a, st, b), 'second-client-hello', w,
                  f'{k} is {show(b) if b is not None else None} instead of '
                  f'{show(a) if a is not None else None}', e.loc)
    for t in sorted(set(x0) | set(x)):
        if t == 'KEY_SHARE':
            ks = keys_of(st, x[t]) if t in x else None
            ctx.check(ks is not None and len(ks) == 1 and group(ks[0]),
                      'second-client-hello-shares-the-group', w,
                      f'shares {[show(y) for y in ks or ()]}', e.loc)
        elif t == 'COOKIE':
            given = has_ext(D, st, 'COOKIE')
            v = next(iter(x[t].attrs.values())) if t in x else None
            ctx.check(v is not None and in_message(v, 'COOKIE') and given is True,
                      'cookie-is-echoed', w, f'the cookie is {show(v)}', e.loc)
            if t in x:
                ctx.check(condition(st, e, x[t]) != 'maybe', 'cookie-is-echoed', w,
                          'only some of the cookies are echoed', e.loc)
        else:
            ctx.check(t in x and t in x0, 'second-client-hello', w,
                      f'{t} is {"added" if t in x else "left out"}', e.loc)
            if t in x and t in x0:
                ctx.check(condition(st, e, x[t]) != 'maybe' or
                          condition(st0, e0, x0[t]) == 'maybe', 'second-client-hello', w,
                          f'{t} is sent under other conditions', e.loc)
                ctx.check(same_obj(D, st0, x0[t], st, x[t]), 'second-client-hello', w,
                          f'{t} changes', e.loc)
    if has_ext(D, st, 'COOKIE') is True:
        empty = any(not b and in_message(c, 'COOKIE') and c.k in ('fld', 'loopv')
                    for c, b in st.facts.items())
        ctx.check('COOKIE' in x or empty, 'cookie-is-echoed', w, 'the cookie is not echoed',
                  e.loc)


def same_obj(D, st0, a, st, b):
    return a.cls is b.cls and set(a.attrs) == set(b.attrs) and all(
        same_term(D, st0, a.attrs[k], st, b.attrs[k]) for k in a.attrs)


def same_term(D, st0, a, st, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if a.k == 'obj' and b.k == 'obj':
        x, y = st0.heap.get(a), st.heap.get(b)
        if x is None or y is None or x.kind != y.kind or x.cls is not y.cls or x.open or y.open:
            return False
        if (x.items is None) != (y.items is None) or len(x.items or ()) != len(y.items or ()):
            return False
        for i, j in zip(x.items or (), y.items or ()):
            if isinstance(i, tuple):
                if not all(same_term(D, st0, p, st, q) for p, q in zip(i, j)):
                    return False
            elif not same_term(D, st0, i, st, j):
                return False
        return same_obj(D, st0, x, st, y)
    if has_cval(a) and has_cval(b):
        return cval(a) == cval(b)
    return False


def client_second(ctx, r, st, S, G, what, case):
    d = ctx.driver

    def suite2(v):
        return v.k == 'fld' and v.a[1] == 'cipher_suite' and of_second(v)

    def group2(v):
        return of_second(v) and in_message(v, 'KEY_SHARE') and (
            v.k == 'fld' and v.a[1] == 'group' or v.k == 'loopv' and v.a[0] == 'group')

    def same_suite(v):
        return asks(v, suite2, lambda x: named(x) is S)

    def same_group(v):
        if v.k == 'cmp' and v.a[0] == 'in' and group2(v.a[1]):
            return holds_group(v.a[2]) or v.a[2].k == 'obj'
        return asks(v, group2, lambda x: x is G)

    def holds_group(v):
        return v is G
    good = {same_suite: True, same_group: True}

    def normal(v, s):
        return next((b for f, b in good.items() if f(v)), None)

    def forced(v, s):
        flip = {'suite': same_suite, 'group': same_group}.get(what)
        return next((b if f is not flip else not b for f, b in good.items() if f(v)), None)
    if case is not None:
        refused(ctx, d, r, st, 'ServerHello', case, normal, forced, {'IllegalParameter'})
        return
    D = Two(ctx.p, d)
    ctx.extra.append(D)
    for o in D.step('client', st, d.conn_v, ci_of(d, 'ServerHello'), tag='second'):
        if o.kind != 'return':
            continue
        for after in hs.states_after(o.st, d):
            w = f'client second ServerHello --> {after}'
            ctx.check(any(b and same_suite(c) for c, b in o.st.facts.items()),
                      'second-hello-keeps-cipher-suite', w,
                      'the cipher suite was not compared with that of the retry request')
            n = nconfig(D, o.st, d.conn_v)
            g = n.attrs.get('key_exchange') if n is not None else None
            ok = g is G or any(b and asks(c, group2, lambda x: x is G)
                               for c, b in o.st.facts.items())
            if not ok:
                for c, b in o.st.facts.items():
                    if b and c.k == 'cmp' and c.a[0] == 'in' and group2(c.a[1]):
                        so = o.st.heap.get(c.a[2])
                        ks = so.items if so is not None and not so.open else None
                        if ks and len(ks) == 1 and (
                                ks[0][0] if isinstance(ks[0], tuple) else ks[0]) is G:
                            ok = True
            ctx.check(ok, 'second-hello-keeps-group', w,
                      'the group was not found to be the one of the retry request')
            ciphers(ctx, D, o.st, w, S)
            if n is not None:
                ctx.check(n.attrs.get('cipher_suite') is S or any(
                    suite2(y) for y in alts(n.attrs.get('cipher_suite'))),
                    'second-hello-keeps-cipher-suite', w,
                    f'{show(n.attrs.get("cipher_suite"))} is settled on')
    again = D.step('client', st, d.conn_v, ci_of(d, 'HelloRetryRequest'), tag='second')
    for o in again:
        ctx.check(o.kind == 'raise', 'one-retry', 'client after a retry: HelloRetryRequest',
                  'a second retry request is accepted')
