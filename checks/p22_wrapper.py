"""P22: the wrapped socket sends what the engine produced before it waits or returns"""
from checks.p04_application_data import emitted
from sa.interp import AnalysisError, Interp, Obj
from sa.terms import NONE, alts, const, mk, show, sym, walk

SPEC = {
    'id': 'P22', 'level': 'other',
    'technique': 'typestate analysis of every operation of the wrapper over every path, '
                 'exceptional ones included: engine dirty / output taken / output sent, '
                 'input received / handed over, end of file / receiving end closed; which '
                 'engine calls may produce output is itself read from the paths of the engine',
    'explanation': 'the engine and the transport are opaque objects that may answer anything and '
                   'raise anywhere',
    'assumptions': ['sendall sends everything or raises', 'nothing can be sent once the transport '
                    'itself raised'],
}
WRAPPER = 'siotls.wrapper.WrappedSocket'
ALERT = 'siotls.contents.alerts.UnexpectedMessage'
QUERIES = ('is_connected', 'is_post_handshake')
SENDERS = ('initiate_connection', 'send_data', 'close_sending_end', 'close_receiving_end', 'rekey')
T, F = const(True), const(False)
# whatever is asked of the engine or the transport, when it is not empty
TOKENS = {k: [sym(f'{k} {i}', 'set') for i in range(3)]
          for k in ('output', 'input', 'application data')}


class Model:
    """the monitor of one wrapper, kept in the heap of the path"""
    def __init__(self, ctx, p, side, table):
        self.ctx, self.side, self.table = ctx, side, table
        self.p = p
        self.I = I = Interp(p, limit=4096, keep=lambda e: e.kind in ('oops',))
        self.conn, self.sock, self.cfg = sym('the engine'), sym('the transport'), sym('its config')
        self.ws = mk('obj', 'monitor', 0)
        for n in (*SENDERS, *QUERIES, 'receive_data', 'data_to_send', 'data_to_read'):
            I.models['.' + n] = self.m_engine
        for n in ('recv', 'recv_into', 'read', 'send', 'sendall', 'sendto', 'sendmsg', 'shutdown',
                  'close'):
            I.models['.' + n] = self.m_transport
        I.xmodels['getattr'] = self.attr
        I.joinkey = self.key
        I.explicit = True
        self.op = ''

    def key(self, st):
        return tuple(sorted((k, v) for k, v in st.heap[self.ws].attrs.items()))

    def attr(self, I, st, b, name, n):
        if b is self.conn and name == 'config':
            return [(st, self.cfg)]
        if b is self.cfg and name == 'side':
            return [(st, const(self.side))]
        return None

    def w(self, st, k):
        return st.heap[self.ws].attrs[k]

    def set(self, st, **kw):
        o = st.heap[self.ws]
        return st.setobj(self.ws, Obj(o.cls, o.kind, {**o.attrs, **kw}, o.items, o.open, o.name))

    def held(self, st, kind):
        """the tokens of a kind that are not where they have to go yet"""
        return [t for t in TOKENS[kind] if not clear(self.w(st, t.a[0]))]

    def token(self, I, st, kind, n, empty, full=None):
        """what was asked for: nothing, or something not empty"""
        st = self.set(st, **(full or {}))
        free = [t for t in TOKENS[kind] if t not in self.held(st, kind)]
        if not free:
            raise AnalysisError(f'{self.op}: too many values of one kind are kept')
        return [(self.set(st, **empty), const(b'')), (self.set(st, **{free[0].a[0]: T}), free[0])]

    # -- the engine
    def m_engine(self, I, st, b, name, args, kws, n):
        if b is not self.conn:
            return None
        self.ctx.count('engine-calls')
        if name in QUERIES:
            return [(st, T), (st, F)]
        if name == 'data_to_send':
            if clear(self.w(st, 'dirty')):
                return [(st, const(b''))]
            return self.token(I, st, 'output', n, {}, {'dirty': F})
        if name == 'data_to_read':
            return self.token(I, st, 'application data', n, {})
        if name == 'receive_data':
            got = args[0] if args else next(iter(kws.values()), NONE)
            inside = set(parts(got))
            st = self.set(st, **{t.a[0]: F for t in TOKENS['input'] if t in inside})
            back = fail = True
        else:
            back, fail = self.table[self.side, name]
            if name == 'close_receiving_end':
                st = self.set(st, eof=F)
        bad = self.set(st, dirty=T) if fail else st
        for s, x in I.call(bad, self.p.clsv(ALERT), [], {}, n):
            I.throw(s, x, n)
        for e in ('Exception', 'NotImplementedError', 'ValueError', 'TypeError', 'KeyError'):
            I.raise_ext(bad, 'builtins.' + e, n)
        return [(self.set(st, dirty=T) if back else st, NONE)]

    # -- the transport
    def m_transport(self, I, st, b, name, args, kws, n):
        if b is not self.sock:
            return None
        self.ctx.count('transport-calls')
        if name in ('close', 'shutdown'):
            return [(st, NONE)]
        I.raise_ext(self.set(st, broken=T), 'builtins.OSError', n)
        if name.startswith(('recv', 'read')):
            self.flushed(st, f'{self.op}: {name}()', n)
            st = self.set(st, dirty=F, **{t.a[0]: F for t in TOKENS['output']})
            return self.token(I, st, 'input', n, {'eof': T})
        if name == 'sendall':
            inside = {y for x in args for y in parts(x)}
            return [(self.set(st, **{t.a[0]: F for t in TOKENS['output'] if t in inside}), NONE)]
        st, i = I.fresh(st)
        return [(st, mk('mcall', name, b, tuple(args), (), i))]

    def flushed(self, st, w, n, loc=None):
        I, ctx = self.I, self.ctx
        loc = loc or (I.loc(n, st) if n is not None else None)
        ctx.check(clear(self.w(st, 'dirty')) and not self.held(st, 'output'), 'flushed-first',
                  f'{self.side} {w}', 'the engine may have output that was not sent', loc)
        ctx.check(not self.held(st, 'input'), 'input-handed-over', f'{self.side} {w}',
                  'received bytes are not given to the engine', loc)
        ctx.check(clear(self.w(st, 'eof')), 'end-of-file', f'{self.side} {w}',
                  'the peer closed the transport, the engine is not told', loc)


def clear(v):
    return all(x is F for x in alts(v))


def parts(v):
    yield v
    if v.k in ('concat', 'phi'):
        for x in v.a:
            yield from parts(x)
    elif v.k == 'call' and v.a[0] in ('builtins.bytes', 'builtins.bytearray', 'builtins.memoryview'):
        for x in v.a[1]:
            yield from parts(x)


def run(ctx):
    p = ctx.p
    table = produces(ctx)
    ci = p.clsv(WRAPPER).a[0]
    ops = [n for c in ci.repo_mro() for n, v in c.ns.items() if v.k == 'func' and (
        not n.startswith('_') or n in ('__enter__', '__exit__', '__iter__', '__next__'))]
    if len(ops) < 4:
        raise AnalysisError('the operations of the wrapper are not found')
    for side in ('client', 'server'):
        for op in ops:
            operation(ctx, p, side, table, ci, op)
    ctx.need('flushed-first', 16)
    ctx.need('only-application-data', 2)


def produces(ctx):
    """(side, call) -> whether output may be left when it returns, when it raises"""
    out = {(s, n): [False, False] for s in ('client', 'server') for n in SENDERS}
    runs = ctx.runs
    if not runs:
        raise AnalysisError('no path of the engine')
    for r in ctx.driver.api:
        k = r.side, r.content[:-2]
        if k not in out:
            continue
        for o in r.outs:
            if emitted(ctx.driver, r.entry, ctx.driver.conn_v, o):
                out[k][o.kind != 'return'] = True
            ctx.count('engine-paths')
    for r in runs:
        if r.content == 'initiate_connection':
            for o in r.outs:
                if any(e.kind == 'send' for e in o.st.events()):
                    out[r.side, r.content][o.kind != 'return'] = True
    if not out['client', 'initiate_connection'][0] or not out['server', 'send_data'][0]:
        raise AnalysisError('no output of the engine is found')
    ctx.count('calls-with-output', sum(map(any, out.values())))
    return out


def operation(ctx, p, side, table, ci, op):
    m = Model(ctx, p, side, table)
    m.op = op
    I = m.I
    ctx.extra.append(type('D', (), {'I': I})())
    st = p.state.copy()
    st = st.setobj(m.ws, Obj(None, 'monitor', {
        'dirty': F, 'eof': F, 'broken': F,
        **{t.a[0]: F for ts in TOKENS.values() for t in ts}}, name='monitor'))

    def go(s):
        out = []
        for s2, w in I.call(s, mk('cls', ci), [m.conn, m.sock], {}, None):
            for s3, f in I.getattr(s2, w, op, None):
                fn = f.a[0].a[0].node.args if f.k == 'bound' and f.a[0].k == 'func' else None
                n = len(fn.posonlyargs) + len(fn.args) - 1 - len(fn.defaults) if fn else 0
                out += I.call(s3, f, [sym(f'argument {i}') for i in range(n)], {}, None)
        return out
    loc = (ci.module.path, p.find(ci, op).a[0].node.lineno)
    outs = I.run(st, go)
    if not any(o.kind == 'return' for o in outs):
        raise AnalysisError(f'{op} never returns')
    for o in outs:
        how = 'returns' if o.kind == 'return' else 'raises'
        if any(x is T for x in alts(m.w(o.st, 'broken'))):
            continue
        m.flushed(o.st, f'{op} {how}', None, loc)
        taken = m.held(o.st, 'application data')
        val = o.val if o.kind == 'return' else NONE
        given = set(parts(val))
        ctx.check(all(x in given for x in taken), 'nothing-lost', f'{side} {op} {how}',
                  'application data that was taken is lost', loc)
        if o.kind == 'return':
            for x in given:
                ctx.check(x in TOKENS['application data'] or x.k in ('phi', 'concat') or
                          not any(y in TOKENS[k] for y in walk(x) for k in TOKENS) and (
                              not taken or x.k == 'const' and not x.a[1]),
                          'only-application-data', f'{side} {op}', f'gives {show(x)[:120]}', loc)
