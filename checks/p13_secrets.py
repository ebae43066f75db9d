"""P13: secrets leave the engine through the key log only, and only when asked"""
import ast
import importlib
import re

from sa.drive import _roles, role
from sa.interp import AnalysisError, Interp
from sa.suite import ECDHE, PSK, SUITE, TH, UNIQUE, VD, Suite, canon, schedule, suites
from sa import rfc
from sa.terms import NONE, V, cval, has_cval, mk, show, sym

p04 = importlib.import_module('checks.p04_application_data')

SPEC = {
    'id': 'P13', 'level': 'other',
    'technique': 'taint analysis: the def-use terms of every log argument, exception argument, '
                 'returned value and sent message are searched for secrets of the key schedule, '
                 'shared keys and private numbers; the key log lines are matched with the terms '
                 'RFC 8446 section 7.1 gives under their labels',
    'explanation': 'every path of every state and public method, and of every function of the '
                   'cipher suites, key exchanges and signatures',
    'assumptions': ['the objects of the cryptography library do not show their secret in their '
                    'text', 'ciphertexts, signatures, public keys and the MACs made with the '
                    'finished keys may be shown', 'what is logged or raised by the libraries '
                    'themselves is not looked at'],
}
LINES = {       # draft-ietf-tls-keylogfile, and the name in sa.suite.schedule
    'CLIENT_EARLY_TRAFFIC_SECRET': 'client early',
    'CLIENT_HANDSHAKE_TRAFFIC_SECRET': ('client', 'hs'),
    'SERVER_HANDSHAKE_TRAFFIC_SECRET': ('server', 'hs'),
    'CLIENT_TRAFFIC_SECRET_0': ('client', 'ap'),
    'SERVER_TRAFFIC_SECRET_0': ('server', 'ap'),
    'EXPORTER_SECRET': 'exporter',
}
OPTIONAL = {'EARLY_EXPORTER_SECRET': 'e exp'}
LEVELS = ('debug', 'info', 'warning', 'error', 'critical')
WRITES = (*LEVELS, 'exception', 'log', 'warn', 'fatal', 'handle', 'write', 'writelines')
OPEN = ('encrypt', 'decrypt', 'sign', 'public_key', 'public_bytes', 'public_bytes_raw', 'public_numbers',
        'peek', 'verify')


def run(ctx):
    d = ctx.driver
    T = Taint(ctx, d)
    key = T.key
    lines(ctx, T)
    ctx.check(one_value(ctx.p, key, 'propagate') == [False], 'apart', 'key log',
              'what is written to the key log propagates to the other logs')
    for path, line in propagates(ctx.p):
        ctx.bad('apart', 'key log', 'a logger is made to propagate', (path, line))
    d.I.monitors.append(T.event)
    runs = ctx.runs
    d.I.monitors.remove(T.event)
    for r in [*runs, *d.api]:
        api = isinstance(r.content, str)
        for o in r.outs:
            if o.kind == 'return' and api:
                ctx.check(not T.secrets(o.val, o.st), 'returned', f'{r.side} {r.state} {r.content}',
                          f'it returns {names(T.secrets(o.val, o.st))}')
    client_random(ctx, d, T)
    primitives(ctx, T)
    T.report()
    ctx.need('line', 100)
    ctx.need('raised', 50)
    ctx.need('asked', 20)
    ctx.need('random', 2)
    ctx.need('share', 5)
    ctx.need('logged', 10)
    ctx.need('sent', 8)
    ctx.need('returned', 10)


def names(found):
    return ', '.join(sorted({str(role(x).a[0])[7:] if role(x) is not None else show(x)[:60]
                             for x in found}))


# ------------------------------------------------------------------ loggers
def is_logger(v):
    return v.k == 'call' and v.a[0] == 'logging.getLogger' or \
        v.k == 'mcall' and v.a[0] in ('getChild', 'getLogger') and is_logger(v.a[1]) or \
        v.k == 'attr' and v.a[1] in ('parent', 'root') and is_logger(v.a[0])


def log_name(v):
    if v.k == 'call' and v.a[0] == 'logging.getLogger':
        return cval(v.a[1][0]) if v.a[1] and has_cval(v.a[1][0]) else None
    if v.k == 'mcall' and v.a[0] == 'getChild' and v.a[2] and has_cval(v.a[2][0]):
        top = log_name(v.a[1])
        return f'{top}.{cval(v.a[2][0])}' if top else None
    return None


def key_logger(p):
    v = p.modules['siotls'].ns.get('key_logger')
    if v is None or not is_logger(v):
        raise AnalysisError('no key_logger in siotls')
    return v


def one_value(p, v, attr):
    I = Interp(p)
    outs = I.run(p.state.copy(), lambda s: I.getattr(s, v, attr, None))
    return [cval(o.val) if o.kind == 'return' and has_cval(o.val) else None for o in outs]


def propagates(p):
    """assignments that let a logger propagate"""
    for name, m in sorted(p.modules.items()):
        tree = getattr(m, 'tree', None)
        if tree is None or '.examples' in name:
            continue
        for n in ast.walk(tree):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(
                n, ast.AnnAssign | ast.AugAssign) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == 'propagate' and not (
                        isinstance(n.value, ast.Constant) and n.value.value is False):
                    yield m.path, n.lineno


FORMAT = re.compile(r'%(?:\((\w+)\))?[sdr]|%%')


def message(args):
    """the pieces of a log record: text and terms"""
    fmt, rest = args[0], list(args[1:])
    if has_cval(fmt) and isinstance(cval(fmt), str):
        if not rest:
            return [cval(fmt)]
        out, at = [], 0
        for m in FORMAT.finditer(cval(fmt)):
            out.append(cval(fmt)[at:m.start()])
            at = m.end()
            if m[0] == '%%':
                out.append('%')
            elif m[1] or not rest or m[0][-1] == 'r':
                return None
            else:
                out += text(rest.pop(0))
        return None if rest else [*out, cval(fmt)[at:]]
    return None if rest else text(fmt)


def text(v):
    """a string term as pieces"""
    if has_cval(v):
        return [str(cval(v))]
    if v.k in ('fstr', 'concat'):
        return [y for x in v.a for y in text(x)]
    if v.k == 'fmt':
        return text(v.a[0]) if len(v.a) == 1 or all(
            not isinstance(x, V) or x is NONE or has_cval(x) and cval(x) in ('', -1)
            for x in v.a[1:]) else [v]
    if v.k == 'bin' and v.a[0] == '+':
        return text(v.a[1]) + text(v.a[2])
    if v.k == 'call' and v.a[0] == 'builtins.str' and len(v.a[1]) == 1:
        return text(v.a[1][0])
    if v.k == 'bin' and v.a[0] == '%':
        args = v.a[2].a if v.a[2].k == 'tuple' else (v.a[2],)
        return message((v.a[1], *args)) or [v]
    if v.k == 'mcall' and v.a[0] == 'join' and has_cval(v.a[1]) and len(v.a[2]) == 1 and \
            v.a[2][0].k == 'tuple':
        out = []
        for i, x in enumerate(v.a[2][0].a):
            out += ([cval(v.a[1])] if i else []) + text(x)
        return out
    return [v]


def joined(pieces):
    out = []
    for x in pieces:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def hexed(v):
    """x of x.hex()"""
    if not isinstance(v, V):
        return None
    if v.k == 'mcall' and v.a[0] == 'hex' and not v.a[2] and not v.a[3]:
        return v.a[1]
    if v.k == 'mcall' and v.a[0] == 'decode' and v.a[1].k == 'call' and \
            v.a[1].a[0] in ('binascii.hexlify', 'binascii.b2a_hex') and len(v.a[1].a[1]) == 1:
        return v.a[1].a[1][0]
    return None


# ------------------------------------------------------------------ the lines
def lines(ctx, T):
    p = ctx.p
    key = key_logger(p)
    asked = sym('log_keys', 'bool')
    stages = ((None, 'derive'), ('external', 'derive'), ('resume', 'derive'))
    for name, ci in sorted(suites(p).items()):
        if name not in rfc.CIPHERS:
            continue
        al, _aead, klen, nlen, _ = rfc.CIPHERS[name]
        ref = schedule(al, klen, nlen)
        for side in ('client', 'server'):
            S = Suite(p, ci, side, keep=lambda e: e.kind == 'meth' and is_logger(e.args[0]),
                      log=asked)
            ctx.extra.append(S)
            S.I.monitors.append(T.alone)
            for psk, _x in stages:
                r = ref[psk is not None]
                need = {k: r[v] for k, v in LINES.items()
                        if psk is not None or k != 'CLIENT_EARLY_TRAFFIC_SECRET'}
                may = {k: r[v] for k, v in OPTIONAL.items() if psk is not None}
                w = f'{name} {side} psk={psk}'
                ctx.count('suites')
                for _st, _obj, o, _e in S.application(psk):
                    one_path(ctx, key, o.st, need, may, asked, w)
                used(ctx, S, T, psk, w)


def used(ctx, S, T, psk, w):
    """the suite with keys: what it logs, raises and returns"""
    data, aad = sym('data', 'bytes'), sym('aad', 'bytes')
    for st, obj, _x in S.handshake(psk)[:1]:
        for op, args in (('decrypt', (data, aad)), ('encrypt', (data, aad)),
                         ('sign_finish', (TH,)), ('verify_finish', (TH, VD))):
            for o in S.call(st, obj, op, *args):
                ctx.count('uses')
                if o.kind == 'return':
                    ctx.check(not T.secrets(o.val, o.st), 'returned', f'{w} {op}',
                              f'it returns {names(T.secrets(o.val, o.st))}')


def one_path(ctx, key, st, need, may, asked, w):
    seen = []
    for e in st.events():
        if e.args[0] is not key:
            continue
        if not (e.name in LEVELS or e.name == 'log') or len(e.args) < 2:
            continue
        args = e.args[1:] if e.name != 'log' else e.args[2:]
        m = message(args)
        ps = joined(m) if m is not None else None
        ok = ps is not None and len(ps) == 4 and isinstance(ps[0], str) and ps[0][-1:] == ' ' \
            and ps[2] == ' ' and hexed(ps[1]) is not None and hexed(ps[3]) is not None
        if not ctx.check(ok, 'line', w, 'a line of the key log is not a label, the client random '
                         f'and a secret in hexadecimal: {[show(x)[:60] for x in args]}', e.loc):
            continue
        label = ps[0][:-1]
        ctx.check(hexed(ps[1]) is UNIQUE, 'line', f'{w} {label}', 'its second field is '
                  f'{show(ps[1])[:80]}, not the client random', e.loc)
        want = need.get(label, may.get(label))
        if not ctx.check(want is not None, 'line', f'{w} {label}', 'no such label', e.loc):
            continue
        ctx.check(canon(hexed(ps[3])) == want, 'line', f'{w} {label}',
                  f'the secret is not the one of this label: {str(canon(hexed(ps[3])))[:120]}',
                  e.loc)
        seen.append(label)
    if seen:
        ctx.check(st.facts.get(asked) is True, 'asked', w, 'keys are logged although log_keys is '
                  'not set')
        lost = [k for k in need if k not in seen]
        ctx.check(not lost and len(seen) == len(set(seen)), 'lines', w,
                  f'lines: {", ".join(seen)}; missing: {", ".join(lost)}')
    else:
        empty = any(b is False and (c is UNIQUE or hexed(c) is UNIQUE)
                    for c, b in st.facts.items())
        ctx.check(empty or st.facts.get(asked) is False, 'lines', w,
                  'nothing is logged although log_keys is set')


# ------------------------------------------------------------------ taint
class Taint:
    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d
        self.key = key_logger(ctx.p)
        self.asked = mk('fld', d.config_v, 'log_keys')
        self.uniques, self.sets, self.hellos = [], {}, []
        self.bad = {}
        self.n = {}

    def event(self, I, st, e):
        if e.kind == 'meth' and isinstance(e.args[0], V) and is_logger(e.args[0]):
            if e.name not in WRITES:
                return
            if e.args[0] is self.key:
                self.key_line(st, e)
            else:
                self.sink('logged', st, e, e.args[1:], e.x)
        elif e.kind == 'new' and str(e.name) == SUITE or e.kind == 'new' and \
                e.args[0] in st.heap and self.is_suite(st.heap[e.args[0]]):
            self.suite(st, e)
        elif e.kind == 'setattr' and e.args[0].k == 'obj' and e.args[0] in st.heap and \
                st.heap[e.args[0]].cls is self.d.conn_cls:
            self.sets.setdefault(str(e.name), []).append((e.args[1], e))
        elif e.kind == 'raise':
            self.sink('raised', st, e, e.args)
        elif e.kind == 'send':
            self.sink('sent', st, e, (e.x,))
            o = st.heap.get(e.x) if isinstance(e.x, V) else None
            if e.name == 'ClientHello' and o is not None:
                self.hellos.append((o.attrs.get('random', NONE), e))
        elif e.kind in ('call', 'meth') and (
                str(e.name) in ('builtins.print', 'warnings.warn', 'traceback.print_exception')
                or str(e.name).startswith(('sys.', 'logging.'))):
            self.sink('logged', st, e, e.args)

    def alone(self, I, st, e):
        """a cipher suite run on its own, made with log_keys and the random by the caller"""
        if e.kind != 'new':
            self.event(I, st, e)

    def key_line(self, st, e):
        if in_suite(self.ctx.p, e.fn):
            return      # see lines()
        f = {b for c, b in st.facts.items() if c is self.asked}
        self.note('asked', f == {True}, e, 'a line of the key log is written and log_keys of the '
                  'configuration was not looked at')

    def suite(self, st, e):
        """a cipher suite is made: who asks for the key log, with what client random"""
        kws = dict(e.x or ())
        args = list(e.args[1:])
        names_ = ['side', 'client_unique', 'log_keys']
        vals = dict(zip(names_, args, strict=False), **kws)
        asked = vals.get('log_keys', NONE)
        self.note('asked', asked is self.asked or has_cval(asked) and not cval(asked), e,
                  f'keys are logged when {show(asked)[:80]}, not when log_keys of the '
                  'configuration says so')
        self.uniques.append((vals.get('client_unique', NONE), st, e))

    def is_suite(self, o):
        return o.cls is not None and o.cls.k == 'cls' and SUITE in self.ctx.p.mro_names(
            o.cls.a[0])

    def note(self, rule, ok, e, msg=''):
        k = (rule, e.fn, e.loc)
        self.n[k] = self.n.get(k, 0) + 1
        if not ok and k not in self.bad:
            self.bad[k] = msg

    def report(self):
        for k in self.n:
            rule, fn, loc = k
            self.ctx.check(k not in self.bad, rule, fn or 'module', self.bad.get(k, ''), loc)
        self.ctx.count('sinks', len(self.n))
        self.ctx.count('arrivals', sum(self.n.values()))

    def sink(self, rule, st, e, args, x=None):
        found = []
        for a in args:
            if isinstance(a, V):
                found += self.secrets(a, st)
        self.note(rule, not found, e, f'{names(found)} in what is {rule}')

    def secrets(self, v, st):
        """the secrets that appear in a value"""
        out, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == 'obj':
                todo += self.shown(x, st)
                continue
            if secret(x):
                out.append(x)
                continue
            if x.k in ('len', 'cmp', 'not', 'bool', 'is', 'loc', 'anycls', 'cls', 'func', 'at') or \
                    x.k == 'call' and x.a[0] in ('builtins.len', 'builtins.type', 'builtins.id',
                                                 'builtins.bool', 'hmac.compare_digest') or \
                    x.k == 'mcall' and x.a[0] in OPEN:
                continue
            if mac(x):
                continue
            todo += subterms(x)
        return out

    def shown(self, x, st):
        """what the text of an object shows"""
        o = st.heap.get(x)
        if o is None:
            return []
        out = list(o.items or ())
        out = [y for z in out for y in (z if isinstance(z, tuple) else (z,))]
        if o.cls is None or o.cls.k != 'cls':
            return [*out, *(y for y in o.attrs.values() if isinstance(y, V))]
        ci = o.cls.a[0]
        if str(ci.qual) in HOLDERS or any(h in self.ctx.p.mro_names(ci) for h in HOLDERS):
            # the default text of an object shows none of its attributes
            return out
        return [*out, *(y for k, y in o.attrs.items() if isinstance(y, V) and
                        not k.startswith(' '))]


HOLDERS = {'siotls.crypto.ciphers.TLSCipherSuite', 'siotls.crypto.ciphers._TLSSecrets',
           'siotls.connection.TLSConnection', 'siotls.states.State'}


def subterms(x):
    out = []

    def go(a):
        for y in a:
            if isinstance(y, V):
                out.append(y)
            elif isinstance(y, tuple):
                go(y)
    go(x.a)
    return out


def labelled(x):
    return x.k == 'call' and x.a[0] == 'hmac.digest' and len(x.a[1]) == 3


def mac(x):
    """a MAC made with a finished key"""
    if not labelled(x):
        return False
    rs = _roles(x.a[1][0])
    return bool(rs) and all(r.startswith('finished') for r in rs) and \
        _roles(x) == {'extract'}


def secret(x):
    if x.k == 'sym':
        return str(x.a[0]).startswith('secret:') or x in (ECDHE, PSK, PRIVATE, SHARED)
    if labelled(x):
        return not mac(x)
    if x.k == 'mcall':
        return x.a[0] == 'exchange' or x.a[0].startswith(('private_bytes', 'private_numbers'))
    if x.k == 'call' and isinstance(x.a[0], str):
        return x.a[0].startswith('siotls.crypto.key_exchanges.') and x.a[0].endswith('.resume')
    if x.k == 'attr':
        return x.a[1] in ('private_value',)
    return False


PRIVATE, SHARED = sym('private', 'bytes'), sym('shared', 'bytes')


# ------------------------------------------------------------------ the client random
def client_random(ctx, d, T):
    """the second field of a line is the random of the ClientHello"""
    held = set()
    for u, _st, e in T.uniques:
        ok = u.k == 'sym' and str(u.a[0]).startswith('conn.') and '.' not in u.a[0][5:] or \
            is_random(u)
        if u.k == 'sym' and ok:
            held.add(u)
        T.note('random', ok, e, f'the client random of the key log is {show(u)[:80]}')
    for u in held:
        for v, e in T.sets.get(u.a[0][5:], ()):
            T.note('random', v is u or v is NONE or is_random(v) or v.k == 'call' and v.a[0] in (
                'secrets.token_bytes', 'os.urandom'), e,
                f'the client random of the key log becomes {show(v)[:80]}')
        for v, e in T.hellos:
            T.note('random', v is u, e, f'the random of the ClientHello is {show(v)[:80]}, that of '
                   f'the key log is {show(u)}')
    if not T.uniques or not T.hellos:
        raise AnalysisError('no cipher suite or ClientHello is made')


def is_random(v):
    """the random of a parsed ClientHello"""
    return v.k == 'fld' and v.a[1] == 'random' or v.k == 'sym' and str(v.a[0]).endswith('.random')


def primitives(ctx, T):
    """the key exchanges on their own: the driver takes them as a whole"""
    p = ctx.p
    base = p.cls('siotls.crypto.key_exchanges.TLSKeyExchange')
    I = Interp(p, limit=64)
    I.monitors.append(T.event)
    n = 0
    for c in sorted((c for c in p.classes.values() if base in c.repo_mro() and c is not base),
                    key=lambda c: c.qual):
        for name, args in (('init', []), ('resume', [sym('private'), sym('share', 'bytes')])):
            def go(s, c=c, name=name, args=args):
                out = []
                for s2, f in I.getattr(s, mk('cls', c), name, None):
                    out += I.call(s2, f, list(args), {}, None)
                return out
            outs = I.run(p.state.copy(), go)
            n += len(outs)
            for o in outs:
                if o.kind == 'return' and name == 'init' and o.val.k == 'tuple' and \
                        len(o.val.a) == 2:
                    ctx.check(not T.secrets(o.val.a[1], o.st), 'share', c.name,
                              'the key share shows the private key')
    ctx.extra.append(type('X', (), {'I': I}))
    ctx.count('outcomes', n)


def in_suite(p, fn):
    q = str(fn).rpartition('.')[0]
    c = p.classes.get(q)
    return c is not None and SUITE in [q, *p.mro_names(c)]

