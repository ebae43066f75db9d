"""P21: OCSP responses are validated before they are believed, stapled or cached."""
from sa.drive import Driver
from sa.interp import AnalysisError, Interp, ext, show_exc
from sa.terms import NONE, V, alts, mk, show, sym, walk

MODULE = 'siotls.crypto.ocsp'
VALIDATE = MODULE + '.validate_ocsp'
SERVICE = ('cache', 'uncache', 'request')
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
NOT = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}

SPEC = {
    'id': 'P21', 'level': 'other',
    'technique': 'dataflow analysis: every path through validate_ocsp() is interpreted abstractly '
                 'over any request and response, the paths that return must carry each of the '
                 'facts that make a response valid; typestate analysis of every use of the OCSP '
                 'service by the states of the connection: request, validate, cache or uncache',
    'explanation': 'one obligation per condition and per path through validate_ocsp(), and per '
                   'response requested, cached or stapled on every path of the handshake',
    'assumptions': ['cryptography parses the DER of the requests and responses and refuses the '
                    'responses about several certificates',
                    'verify() of the keys of cryptography raises InvalidSignature, or TypeError '
                    'when the algorithm is that of another type of key'],
}


def run(ctx):
    m = ctx.p.modules.get(MODULE)
    if m is None:
        raise AnalysisError(f'no module {MODULE}')
    for name in ('validate_ocsp', 'make_ocsp_request'):
        if m.ns.get(name) is None or m.ns[name].k != 'func':
            raise AnalysisError(f'no function {MODULE}.{name}')
    Validate(ctx, m)
    request(ctx, m)
    service(ctx)


def last(name):
    return str(name).rsplit('.', 1)[-1]


# ------------------------------------------------------------------ what a valid response is
class Validate:
    def __init__(self, ctx, m):
        self.ctx = ctx
        self.I = I = Interp(ctx.p, limit=24, keep=lambda e: e.kind in ('meth', 'call'))
        I.models['.verify'] = self.verify
        ctx.extra.append(self)
        self.issuer, self.req, self.res = sym('issuer'), sym('req', 'bytes'), sym('res', 'bytes')
        f = m.ns['validate_ocsp']
        node = f.a[0].node
        self.loc = (f.a[0].module.path, node.lineno)
        outs = I.run(ctx.p.state.copy(), lambda s: I.call(
            s, f, [self.issuer, self.req, self.res], {}, None))
        ctx.count('paths_of_validate_ocsp', len(outs))
        good = [o for o in outs if o.kind == 'return']
        ctx.check(bool(good), 'acceptable', 'validate_ocsp()', 'no response is valid', self.loc)
        for o in good:
            self.good(o)
        for o in outs:
            if o.kind == 'raise':
                e = show_exc(o.val, o.st)
                where = getattr(o.val, 'a', (None,) * 3)
                ctx.check(I.exc_matches(o.st, o.val, ext('builtins.ValueError')) is True, 'refusal',
                          f'validate_ocsp() raises {e}',
                          'a response that is not valid is not handled as such',
                          where[2] if len(where) > 2 and where[2] else self.loc)
        ctx.need('refusal', 5)

    def verify(self, I, st, b, name, args, kws, n):
        if not self.of_issuer(b):
            return None
        fit = any('public_key_algorithm_oid' in show(c) or c.k == 'isinst' for c in st.facts)
        I.raise_ext(st.fact(mk('call', 'verified', (b, *args[:2]), ()), False),
                    'cryptography.exceptions.InvalidSignature', n)
        if not fit:
            I.raise_ext(st.fact(mk('call', 'verified', (b, *args[:2]), ()), False),
                        'builtins.TypeError', n)
        return [(st.fact(mk('call', 'verified', (b, *args[:2]), ()), True), NONE)]

    def of_issuer(self, b):
        return b.k == 'mcall' and b.a[0] == 'public_key' and b.a[1] is self.issuer

    # the terms
    def loaded(self, v, what):
        raw = self.req if what == 'request' else self.res
        return v.k == 'call' and last(v.a[0]) == f'load_der_ocsp_{what}' and raw in v.a[1]

    def field(self, v, what, *names):
        return v.k == 'attr' and v.a[1] in names and self.loaded(v.a[0], what)

    def pairs(self, st):
        """the comparisons that hold"""
        for c, b in st.facts.items():
            if c.k != 'cmp' or len(c.a) != 3:
                continue
            op, x, y = c.a
            if op in ('==', 'is', 'in'):
                if not b:
                    if op == 'is':
                        yield 'is not', x, y
                    continue
                if op == 'in':
                    if y.k in ('tuple', 'list', 'frozenset') and len(y.a) == 1:
                        yield '==', x, y.a[0]
                    continue
                if x.k == y.k == 'tuple' and len(x.a) == len(y.a):
                    yield from (('==', i, j) for i, j in zip(x.a, y.a, strict=True))
                yield '==', x, y
            elif op in NOT:
                op = op if b else NOT[op]
                yield op, x, y
                if op in SWAP:
                    yield SWAP[op], y, x
                else:
                    yield op, y, x

    def good(self, o):
        ctx, st = self.ctx, o.st
        facts = list(self.pairs(st))
        eqs = [(x, y) for op, x, y in facts if op == '==']
        eqs += [(y, x) for x, y in eqs]

        def check(cond, rule, msg):
            ctx.check(cond, rule, 'validate_ocsp() returns', msg, self.loc)

        def ends(v, *path):
            return show(v).endswith('.'.join(path))
        check(any(self.field(x, 'response', 'response_status') and
                  ends(y, 'OCSPResponseStatus', 'SUCCESSFUL') for x, y in eqs),
              'successful', 'for an answer that is not successful')
        check(any(self.field(x, 'response', 'certificate_status') and
                  ends(y, 'OCSPCertStatus', 'GOOD') for x, y in eqs),
              'status-good', 'for a certificate whose status is not good')
        for n in ('issuer_name_hash', 'issuer_key_hash', 'serial_number'):
            check(any(self.field(x, 'response', n) and self.field(y, 'request', n)
                      for x, y in eqs), 'answers-the-request',
                  f'for an answer whose {n} is not that of the request')
        check(any(op in ('<', '<=') and self.moment(x, y, 'this_update')
                  for op, x, y in facts), 'valid-already', 'for an answer that is not valid yet')
        check(any(op in ('>', '>=') and self.moment(x, y, 'next_update')
                  for op, x, y in facts), 'valid-still', 'for an answer that expired')
        check(any(c.k == 'call' and c.a[0] == 'verified' and b
                  and self.of_issuer(c.a[1][0])
                  and self.field(c.a[1][1], 'response', 'signature')
                  and self.field(c.a[1][2], 'response', 'tbs_response_bytes')
                  for c, b in st.facts.items() if len(c.a) > 1 and c.k == 'call'
                  and len(c.a[1]) == 3),
              'signed', 'for an answer that the issuer did not sign')
        for v in alts(o.val):
            if v.k == 'min' or v.k == 'call' and last(v.a[0]) == 'min':
                # no later than it
                v = next((x for x in (v.a if v.k == 'min' else v.a[1]) if self.field(
                    x, 'response', 'next_update', 'next_update_utc')), v)
            check(self.field(v, 'response', 'next_update', 'next_update_utc'), 'until',
                  f'{show(v)[-90:]}: not when the answer expires')

    def moment(self, x, now, name):
        """a field of the response, compared with the current time of the same time zone"""
        if self.field(x, 'response', name):
            return utcnow(now)
        return self.field(x, 'response', name + '_utc') and awarenow(now)


def isutc(v):
    return show(v).endswith(('UTC', 'timezone.utc'))


def awarenow(v):
    return v.k == 'call' and last(v.a[0]) == 'now' and (
        len(v.a[1]) == 1 and isutc(v.a[1][0])
        or any(k == 'tz' and isutc(x) for k, x in pairs_of(v.a[2])))


def utcnow(v):
    if v.k == 'call' and last(v.a[0]) == 'utcnow':
        return True
    return v.k == 'mcall' and v.a[0] == 'replace' and awarenow(v.a[1]) and any(
        k == 'tzinfo' and x is NONE for k, x in pairs_of(v.a[3]))


def pairs_of(kws):
    if isinstance(kws, dict):
        return list(kws.items())
    return [tuple(kw) if isinstance(kw, tuple) else tuple(kw.a) for kw in (
        kws.a if isinstance(kws, V) else kws)]


# ------------------------------------------------------------------ what is asked for
def request(ctx, m):
    I = Interp(ctx.p, limit=8)
    f = m.ns['make_ocsp_request']
    cert, issuer = sym('certificate'), sym('issuer')
    outs = I.run(ctx.p.state.copy(), lambda s: I.call(s, f, [cert, issuer], {}, None))
    loc = (f.a[0].module.path, f.a[0].node.lineno)
    rets = [o for o in outs if o.kind == 'return']
    ctx.check(bool(rets), 'request', 'make_ocsp_request()', 'never returns', loc)
    for o in rets:
        v = o.val
        ok = v.k == 'mcall' and v.a[0] == 'public_bytes' and show(v.a[2][0]).endswith('.DER')
        adds = [x for x in walk(v) if x.k == 'mcall' and x.a[0].startswith('add_certificate')]
        ctx.check(ok and len(adds) == 1 and adds[0].a[0] == 'add_certificate'
                  and adds[0].a[2][:2] == (cert, issuer), 'request', 'make_ocsp_request()',
                  f'{show(v)[:160]}: not a request about the certificate and its issuer', loc)


# ------------------------------------------------------------------ how the responses are used
class Ocsp(Driver):
    def __init__(self, p):
        super().__init__(p)
        keep = self.I.keep
        self.I.keep = lambda e: keep(e) or e.kind == 'meth' and e.name in SERVICE


def service(ctx):
    d = Ocsp(ctx.p)
    ctx.extra.append(d)
    runs = d.explore()
    ctx.count('state_message_pairs', len(runs))
    for r in runs:
        w = f'{r.side} {r.state} <-{r.content}-'
        for o in r.outs:
            evs = o.st.events()
            used(ctx, d, r, o, evs, w)
            if r.side == 'server':
                stapled(ctx, d, r, o, evs, w)
    for rule, n in (('cached', 3), ('dropped', 3), ('validated', 3), ('stapled', 1)):
        ctx.need(rule, n)


def validations(evs):
    """the validations of a path: (event, it is followed by its failure)"""
    out = []
    for i, e in enumerate(evs):
        if e.kind == 'op' and e.name == VALIDATE and len(e.args) == 3:
            bad = False
            for x in evs[i + 1:]:
                if x.kind == 'op' and x.name == VALIDATE:
                    break
                if x.kind == 'fails' and x.name == VALIDATE:
                    bad = True
                    break
            out.append((i, e, bad))
    return out


def of_service(d, r, v):
    own = r.entry.heap[d.conn_v].attrs['ocsp_service']
    return bool(set(alts(v)) & set(alts(own)) - {NONE})


def used(ctx, d, r, o, evs, w):
    valid = validations(evs)
    for i, e in enumerate(evs):
        if e.kind != 'meth' or not of_service(d, r, e.args[0]):
            continue
        if e.name == 'cache':
            until, req, res = e.args[1:4] if len(e.args) == 4 else (None,) * 3
            ctx.check(any(j < i and not bad and v.args[1] is req and v.args[2] is res
                          and v.res is until for j, v, bad in valid), 'cached', w,
                      f'cache({", ".join(show(a)[-60:] for a in e.args[1:])}) of a response that '
                      'is not validated, or for longer', e.loc)
        elif e.name == 'request':
            mine = [(j, v, bad) for j, v, bad in valid if v.args[2] is e.res]
            for j, v, bad in mine:
                ctx.check(v.args[1] is e.args[-1], 'validated', w, 'the response is validated '
                          f'for {show(v.args[1])[:90]}, and that is not what was asked', v.loc)
                if bad:
                    gone = any(x.kind == 'meth' and x.name == 'uncache' and x.args[1] is e.args[-1]
                               for x in evs[j:])
                    ctx.check(gone, 'dropped', w, 'a response that fails its validation stays '
                              'in the cache', v.loc)
            if o.kind == 'return':
                ctx.check(bool(mine), 'validated', w, 'a response is not validated', e.loc)
    for j, v, bad in valid:
        if bad and r.side == 'client':
            ctx.check(o.kind == 'raise' and show_exc(o.val, o.st) == 'BadCertificate',
                      'fails-verification', w, 'the certificate is accepted in spite of a '
                      'response that is not valid', v.loc)


def stapled(ctx, d, r, o, evs, w):
    good = [v for _j, v, bad in validations(evs) if not bad]
    status = {k: ob for k, ob in o.st.heap.items() if k not in r.entry.heap
              and ob.cls is not None and ob.cls.k == 'cls' and ob.cls.a[0].name == 'OCSPStatus'}
    for k, ob in status.items():
        v = ob.attrs.get('ocsp_response')
        if v is None:
            continue
        mine = [x for x in good if x.args[2] is v]
        ctx.check(bool(mine), 'stapled', w,
                  f'a response that is not validated is stapled: {show(v)[:90]}')
        for x in mine:
            issuer, req = x.args[:2]
            ok = req.k == 'call' and last(req.a[0]) == 'make_ocsp_request' and len(req.a[1]) >= 2
            ctx.check(ok and [nth(y) for y in (req.a[1][0], req.a[1][1], issuer)] == [0, 1, 1],
                      'stapled', w, f'the response is about {show(req)[:120]}, issuer '
                      f'{show(issuer)[-60:]}: not about the certificate of the server', x.loc)
            for owner in owners(o.st, k):
                c = owner.attrs.get('certificate')
                ctx.check(c is not None and nth(c) in (0, None), 'stapled', w,
                          f'it is stapled to {show(c) if c is not None else None}')


def nth(v):
    """the position in the certificate chain of the configuration"""
    text = show(v)
    if 'certificate_chain' not in text:
        return None
    tail = text.rsplit('[', 1)[-1]
    return int(tail[:-1]) if tail[:-1].isdigit() else None


def owners(st, k):
    dicts = {x for x, ob in st.heap.items() if ob.kind == 'dict' and any(
        k in alts(v) for v in dictvalues(ob))}
    for ob in st.heap.values():
        if ob.kind not in ('dict', 'list') and any(
                isinstance(v, V) and set(alts(v)) & dicts for v in ob.attrs.values()):
            yield ob


def dictvalues(ob):
    out = []
    for it in ob.items:
        if isinstance(it, V):
            out.append(it)
        elif isinstance(it, tuple):
            out += [x for x in it if isinstance(x, V)]
    return out + [v for v in ob.attrs.values() if isinstance(v, V)]

