"""P26: the bundled OCSP client reads and keeps a bounded amount."""
from sa.interp import AnalysisError, Interp, Obj, show_exc
from sa.terms import NONE, V, cval, has_cval, mk, show, sym, walk

MODULE = 'siotls.ocsp_over_http'
HANDLER = 'urllib.request.HTTPRedirectHandler'
MEDIA = 'application/ocsp-response'
MOST = 1 << 20              # of what a "fixed bound" can be
HARMLESS = {'getheader', 'getheaders', 'getcode', 'geturl', 'info', 'close', 'get', 'isclosed',
            'get_content_type', 'get_content_maintype', 'fileno', 'readable', 'closed', '__enter__',
            '__exit__', 'split', 'strip', 'lower', 'partition', 'get_all', 'startswith', 'items',
            'get_param', 'keys', 'isdigit', 'casefold', 'rstrip', 'lstrip', 'isdecimal'}
CONTAINERS = ('append', 'insert', 'appendleft')
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}

SPEC = {
    'id': 'P26', 'level': 'other',
    'technique': 'dataflow analysis of siotls.ocsp_over_http: every path of request(), cache() and '
                 'uncache() is interpreted abstractly over any cache content and any HTTP answer; '
                 'what is taken from the network is followed to the tests that guard it',
    'explanation': 'one obligation per read from the network, per connection, per value returned '
                   'and per entry added to the cache, on every path',
    'assumptions': ['the length of the headers of an answer is bounded by http.client',
                    'an opener of urllib only reads the body of redirections on its own, and '
                    'raises HTTPError for the answers that are not successful',
                    'the timeout of urllib is that of each operation of the socket'],
}


def run(ctx):
    p = ctx.p
    m = p.modules.get(MODULE)
    if m is None:
        raise AnalysisError(f'no module {MODULE}')
    N = Network(ctx, m)
    ctx.extra.append(N)
    for name in ('request', 'cache', 'uncache'):
        if m.ns.get(name) is None or m.ns[name].k != 'func':
            raise AnalysisError(f'no function {MODULE}.{name}')
    kept = N.cache()
    N.uncache()
    N.request(kept)
    ctx.need('bounded-read', 1)
    ctx.need('media-type', 1)
    ctx.need('not-past-validity', 1)
    ctx.need('bounded-cache', 1)


class Network:
    def __init__(self, ctx, m):
        self.ctx, self.p, self.m = ctx, ctx.p, m
        self.I = I = Interp(ctx.p, limit=24, keep=lambda e: e.kind in ('meth', 'call', 'mutate'))
        self.popped = []
        self.dropped = []
        I.models['heapq.heappop'] = self.pops
        for name in ('pop', 'popleft', 'popitem'):
            I.models['.' + name] = self.pops_meth
        self.globals = {v: k for k, v in m.ns.items() if not k.startswith('__')}

    def loc(self, fn):
        f = self.m.ns[fn].a[0]
        return (f.module.path, f.node.lineno)

    # ------------------------------------------------------------ the cache, with anything in it
    def state(self):
        st = self.p.state.copy()
        for v in self.globals:
            o = st.heap.get(v)
            if o is not None and o.kind in ('dict', 'list'):
                st = st.setobj(v, Obj(o.cls, o.kind, dict(o.attrs), (), True, self.globals[v]))
        return st

    def pops(self, I, st, name, args, kws, n):
        lst = args[0]
        t = mk('call', 'popped', (lst,), ())
        self.popped.append(t)
        return [(st, t)]

    def pops_meth(self, I, st, b, name, args, kws, n):
        o = st.heap.get(b)
        if b not in self.globals:
            return None
        if o is not None and o.kind == 'dict':
            self.dropped += args[:1]
            return None
        t = mk('call', 'popped', (b,), ())
        self.popped.append(t)
        return [(st, t)]

    def call(self, name, *args):
        f = self.m.ns[name]
        return self.I.run(self.state(), lambda s: self.I.call(s, f, list(args), {}, None))

    def cache(self):
        until, req, res = sym('until'), sym('req', 'bytes'), sym('res', 'bytes')
        kept = []
        outs = self.call('cache', until, req, res)
        for o in outs:
            if o.kind != 'return':
                continue
            evs = o.st.events()
            for e in evs:
                if e.kind == 'mutate' and e.args and e.args[0] in self.globals and \
                        e.name in ('__setitem__', 'setdefault') and len(e.args) == 3:
                    kept.append(e.args[1:])
                    self.ctx.check(self.room(o.st, evs, e), 'bounded-cache',
                                   f'cache() adds an entry to {self.globals[e.args[0]]}',
                                   'it may already be full', self.loc('cache'))
                elif e.kind == 'mutate' and e.args and e.args[0] in self.globals and \
                        e.name in CONTAINERS:
                    self.ctx.check(self.full(o.st, e.args[0]), 'bounded-cache',
                                   f'cache() adds an entry to {self.globals[e.args[0]]}',
                                   'it may already be full', self.loc('cache'))
        self.ctx.check(kept, 'cached', 'cache()', 'nothing is ever kept', self.loc('cache'))
        # what leaves the list of limits leaves the cache too
        for t in dict.fromkeys(self.popped):
            self.ctx.check(any(t in walk(k) for k in self.dropped), 'bounded-cache',
                           'cache() makes room', 'the entry that leaves the list stays in the '
                           'cache', self.loc('cache'))
        for k, v in kept:
            self.ctx.check(k is req, 'cache-key', 'cache()',
                           f'the entry is kept under {show(k)[:80]}', self.loc('cache'))
        return [(v, until, res) for _k, v in kept]

    def full(self, st, b):
        """b has less than a fixed number of elements"""
        size = mk('len', b)
        return any(hi <= MOST for hi in [bounds(st, size)[1]] if hi is not None)

    def room(self, st, evs, e):
        d, key = e.args[0], e.args[1]
        if self.full(st, d) or st.facts.get(mk('cmp', 'in', key, d)) is True:
            return True
        for x in evs:
            lst = x.args[0] if x.args else None
            if lst in self.globals and lst is not d and (
                    x.kind == 'call' and x.name == 'heapq.heappush' or
                    x.kind == 'mutate' and x.name in CONTAINERS):
                if self.full(st, lst) and any(key in walk(a) for a in x.args[1:]):
                    return True
        return False

    def uncache(self):
        req = sym('req', 'bytes')
        outs = self.call('uncache', req)
        for o in outs:
            if o.kind != 'return':
                continue
            inside = any(c.k == 'cmp' and c.a[0] == 'in' and c.a[1] is req and t is False
                         for c, t in o.st.facts.items())
            gone = any(e.kind == 'mutate' and e.args[0] in self.globals and
                       e.name in ('pop', '__delitem__', 'clear') and
                       (e.name == 'clear' or e.args[1] is req) for e in o.st.events())
            self.ctx.check(gone or inside, 'uncached', 'uncache()',
                           'the entry stays in the cache', self.loc('uncache'))

    # ------------------------------------------------------------ the network
    def request(self, kept):
        url, req = sym('url', 'str'), sym('req', 'bytes')
        ctx, where = self.ctx, self.loc('request')
        outs = self.call('request', url, req)
        seen = False
        for o in outs:
            evs = o.st.events()
            for h in self.answers(evs):
                seen = True
                for e in evs:
                    if e.kind == 'meth' and e.args and touches(e.args[0], h):
                        self.used(o.st, e, h)
            if o.kind != 'return':
                continue
            for v in (o.val.a if o.val.k == 'phi' else [o.val]):
                self.returned(o.st, v, req, kept, evs)
        if not seen:
            raise AnalysisError('request(): no HTTP answer is recognised')
        ctx.check(any(o.kind == 'return' for o in outs), 'answers', 'request()',
                  'it never returns', where)

    def answers(self, evs):
        """the HTTP answers obtained on a path"""
        out = []
        for e in evs:
            if e.kind == 'call' and e.name.endswith('urlopen'):
                out.append(e.res)
                self.ctx.bad('no-redirection', 'request()', 'urlopen() follows redirections, and '
                             'reads their body whole', self.loc('request'))
                self.timed(e.args[2:3], e, 'urlopen()')
            elif e.kind == 'meth' and e.name == 'open' and e.args and any(
                    x.k == 'call' and str(x.a[0]).endswith(('build_opener', 'OpenerDirector'))
                    for x in walk(e.args[0])):
                out.append(e.res)
                self.opener(e.args[0])
                self.timed(e.args[3:4], e, 'open()')
            elif e.kind == 'meth' and e.name == 'getresponse':
                out.append(e.res)
                conn = next((x for x in walk(e.args[0]) if x.k == 'call' and str(
                    x.a[0]).endswith('HTTPConnection')), None)
                if conn is not None:
                    kws = dict(conn.a[2])
                    self.timeout(kws.get('timeout', conn.a[1][2] if len(conn.a[1]) > 2 else NONE),
                                 'HTTPConnection()')
        return [x for x in out if x is not None]

    def timed(self, pos, e, what):
        kws = dict(e.x or ()) if e.kind == 'meth' else dict(e.res.a[2])
        self.timeout(kws.get('timeout', pos[0] if pos else NONE), what)

    def timeout(self, v, what):
        self.ctx.check(has_cval(v) and isinstance(cval(v), int | float) and 0 < cval(v) <= 3600,
                       'timeout', f'{what} in request()', f'its timeout is {show(v)}',
                       self.loc('request'))

    def opener(self, b):
        """redirections are refused"""
        call = next(x for x in walk(b) if x.k == 'call' and str(x.a[0]).endswith(
            ('build_opener', 'OpenerDirector')))
        good = str(call.a[0]).endswith('OpenerDirector')    # nothing handled but what is added
        for a in call.a[1]:
            c = a if a.k == 'cls' else None
            o = self.p.state.heap.get(a)
            if c is None and o is not None and o.cls is not None and o.cls.k == 'cls':
                c = o.cls
            if c is None or not any(n.endswith('HTTPRedirectHandler')
                                    for n in self.p.mro_names(c.a[0])):
                continue
            good |= self.refuses(c.a[0])
        self.ctx.check(good, 'no-redirection', 'request()',
                       'redirections are followed, and their body read whole',
                       self.loc('request'))

    def refuses(self, ci):
        f = self.p.find(ci, 'redirect_request')
        if f is None or f.k != 'func':
            return False
        a = f.a[0].node.args
        n = len(a.posonlyargs + a.args)
        args = [sym(f'arg{i}') for i in range(n if not a.vararg else max(n, 7))]
        outs = self.I.run(self.p.state.copy(), lambda s: self.I.call(s, f, args, {}, None))
        return all(o.kind == 'raise' or o.val is NONE for o in outs)

    def used(self, st, e, h):
        what = f'{e.name}() of the answer'
        if e.args[0] is not h and not reader(e.args[0], h):
            return           # on some header
        if e.name in HARMLESS:
            return
        if e.name in ('read', 'read1', 'readinto', 'readinto1'):
            size = e.args[1] if len(e.args) > 1 else None
            if size is None:
                lo, hi = None, None
            else:
                lo, hi = bounds(st, size)
            self.ctx.check(lo is not None and lo >= 0 and hi is not None and hi <= MOST,
                           'bounded-read', what,
                           'it reads without limit' if size is None or hi is None else
                           f'it reads up to {hi} bytes' if lo is not None and lo >= 0 else
                           'a negative size reads without limit', self.loc('request'))
        else:
            self.ctx.bad('bounded-read', what, 'it may read without limit', self.loc('request'))

    def returned(self, st, v, req, kept, evs):
        ctx, where = self.ctx, self.loc('request')
        if has_cval(v):
            return
        net = [h for h in self.answers(evs) if touches(v, h)]
        stored = [x for x in walk(v) if x.k in ('item', 'get') and x.a[0] in self.globals or
                  x.k == 'call' and x.a[0] == 'get' and x.a[1] and x.a[1][0] in self.globals]
        if net:
            h = net[0]
            ctx.check(any(c.k == 'cmp' and (c.a[0], t) in (('==', True), ('!=', False)) and any(
                has_cval(x) and cval(x) == MEDIA for x in c.a[1:]) and any(
                touches(x, h) and 'content' in deep(x) for x in c.a[1:])
                for c, t in st.facts.items()), 'media-type', 'request()',
                'the answer is returned whatever its media type', where)
            if h.k == 'mcall' and h.a[0] == 'getresponse':
                ctx.check(any(c.k == 'cmp' and t is (c.a[0] != '!=') and touches(c, h) and any(
                    has_cval(x) and cval(x) == 200 for x in c.a[1:])
                    for c, t in st.facts.items()), 'successful', 'request()',
                    'the answer is returned whatever its status', where)
        elif stored:
            entry = stored[0]
            ctx.check(entry.a[1] is req if entry.k == 'item' else req in entry.a[1], 'cache-key',
                      'request()', 'the entry of another request is returned', where)
            good, part = False, None
            for c, t in st.facts.items():
                if c.k != 'cmp' or c.a[0] not in SWAP or not any(
                        entry in walk(x) for x in c.a[1:]):
                    continue
                op, x, y = c.a
                if entry in walk(x):
                    op, x, y = SWAP[op], y, x
                # x is the time
                if not now(x):
                    continue
                if (op, t) in (('<', True), ('<=', True), ('>', False), ('>=', False)):
                    good, part = True, y
            ctx.check(good, 'not-past-validity', 'request()',
                      'a cached response is returned without comparing its limit with the '
                      'present time', where)
            for val, until, res in kept:
                if good and val.k == 'tuple':
                    i, j = index(v, entry), index(part, entry)
                    if i is not None and j is not None:
                        ctx.check(val.a[i] is res and val.a[j] is until, 'not-past-validity',
                                  'request()', 'what is compared is not the limit that cache() '
                                  'was given', where)
        else:
            ctx.bad('answers', 'request()', f'it returns {show(v)[:120]}', where)


def deep(v):
    return ' '.join(str(x.a[1]) if x.k == 'const' else str(x.a[0]) if x.k == 'mcall' else '' for x in walk(v)).lower()


def index(v, entry):
    if v.k in ('item', 'unpk') and v.a[0] is entry:
        i = v.a[1]
        i = cval(i) if isinstance(i, V) and has_cval(i) else i
        return i if isinstance(i, int) else None
    return None


def now(v):
    """the present time, not in some local time zone"""
    for x in walk(v):
        if x.k in ('call', 'mcall'):
            name = str(x.a[0]).rsplit('.', 1)[-1]
            args, kws = (x.a[1], x.a[2]) if x.k == 'call' else (x.a[2], x.a[3])
            if name in ('utcnow', 'time') or name == 'now' and (args or kws):
                return True
    return False


def touches(v, h):
    return h in walk(v)


def reader(v, h):
    """something with the body of h: what a with statement gives, or the raw file"""
    return v.k in ('attr', 'fld') and v.a[0] is h and v.a[-1] in ('fp', 'raw') or \
        v.k == 'phi' and h in v.a or v.k == 'entered' and v.a[0] is h or \
        v.k == 'mcall' and v.a[0] == '__enter__'


def bounds(st, t):
    """what is known of a number: (at least, at most)"""
    if has_cval(t) and isinstance(cval(t), int | float):
        return cval(t), cval(t)
    lo = hi = None
    if t.k == 'phi':
        bs = [bounds(st, x) for x in t.a]
        lo = min((b[0] for b in bs), default=None) if all(b[0] is not None for b in bs) else None
        hi = max((b[1] for b in bs), default=None) if all(b[1] is not None for b in bs) else None
    elif t.k in ('min', 'max') or t.k == 'call' and str(t.a[0]).rsplit('.', 1)[-1] in (
            'min', 'max'):
        fn = t.k if t.k != 'call' else t.a[0].rsplit('.', 1)[-1]
        args = t.a if t.k != 'call' else t.a[1]
        bs = [bounds(st, x) for x in args]
        los, his = [b[0] for b in bs], [b[1] for b in bs]
        if fn == 'min':
            lo = min(los) if None not in los else None
            hi = min((x for x in his if x is not None), default=None)
        else:
            lo = max((x for x in los if x is not None), default=None)
            hi = max(his) if None not in his else None
    elif t.k == 'bin' and t.a[0] in ('+', '-'):
        a, b = bounds(st, t.a[1]), bounds(st, t.a[2])
        if t.a[0] == '+':
            lo = a[0] + b[0] if None not in (a[0], b[0]) else None
            hi = a[1] + b[1] if None not in (a[1], b[1]) else None
        else:
            lo = a[0] - b[1] if None not in (a[0], b[1]) else None
            hi = a[1] - b[0] if None not in (a[1], b[0]) else None
    elif t.k == 'len':
        lo = 0
    for c, b in st.facts.items():
        if c.k != 'cmp' or t not in c.a[1:]:
            continue
        op, x, y = c.a
        if y is t and op in SWAP:
            op, x, y = SWAP[op], y, x
        elif y is t:
            x, y = y, x
        if not has_cval(y) or not isinstance(cval(y), int | float):
            continue
        k = cval(y)
        if (op, b) in (('<', True), ('>=', False)):
            hi = k - 1 if hi is None else min(hi, k - 1)
        elif (op, b) in (('<=', True), ('>', False)):
            hi = k if hi is None else min(hi, k)
        elif (op, b) in (('>', True), ('<=', False)):
            lo = k + 1 if lo is None else max(lo, k + 1)
        elif (op, b) in (('>=', True), ('<', False)):
            lo = k if lo is None else max(lo, k)
        elif (op, b) in (('==', True), ('!=', False)):
            lo = hi = k
    return lo, hi
