"""State that outlives a connection: what the paths interpreted by the engine did to it, and what
every function of the source could do to it by itself."""
from sa.terms import mk, walk


def altered(p, st):
    """what a path left changed of the state there was once the program was loaded:
    [(what, new value or None)]"""
    base = p.state
    out = []
    if st.heap is not base.heap:
        for k, o in st.heap.items():
            if k.k in ('cls', 'mod', 'func', 'ext'):
                was = base.heap.get(k)
                if o is not was and o is not None:
                    old = was.attrs if was is not None else {}
                    out += [(f'{name(k)}.{a}', v) for a, v in o.attrs.items()
                            if old.get(a) is not v]
            elif k in base.heap and o is not base.heap[k]:
                was = base.heap[k]
                same = o.items is was.items and o.attrs is was.attrs
                if not same and (o.items != was.items or o.attrs != was.attrs):
                    out.append((f'{o.kind} {o.name or k.a[0]}', None if o.items is None
                                else mk('tuple', *flat(o.items))))
    for f in st.frames:
        if isinstance(f, tuple) and f[0] == 'mod':
            for n, v in st.frames[f].items():
                if base.frames.get(f, {}).get(n) is not v:
                    out.append((f'{f[1]}.{n}', v))
    return out


def name(k):
    x = k.a[0]
    return getattr(x, 'name', None) or str(x)


def flat(items):
    for x in items:
        if isinstance(x, tuple):
            yield from (y for y in x if hasattr(y, 'k'))
        elif hasattr(x, 'k'):
            yield x


# ---------------------------------------------------------------- over the source
import ast  # noqa: E402

MUTABLE_CALLS = {'list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'Counter',
                 'deque', 'ChainMap', 'BytesIO', 'StringIO', 'array', 'SimpleQueue', 'Queue',
                 'WeakKeyDictionary', 'WeakValueDictionary', 'SimpleNamespace', 'SerialIO'}
MUTATORS = {'append', 'add', 'update', 'extend', 'insert', 'remove', 'discard', 'pop', 'popitem',
            'clear', 'setdefault', 'sort', 'reverse', '__setitem__', '__delitem__', '__iadd__',
            'appendleft', 'popleft', 'extendleft', 'rotate', 'write', 'writelines', 'truncate',
            'put', 'push', 'move_to_end', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'subtract', 'resize'}
THROUGH = {'get', 'setdefault', 'pop', 'popitem', 'values', 'items', '__getitem__'}
WRAPPERS = {'builtins.' + x for x in ('enumerate', 'zip', 'reversed', 'sorted', 'iter', 'next',
                                      'list', 'tuple', 'filter', 'min', 'max')}
FIRST_ARG = {'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heapreplace',
             'heapq.heappushpop', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right',
             'random.shuffle', 'operator.setitem', 'operator.delitem', 'operator.iadd'}
SETATTR = {'builtins.setattr', 'builtins.delattr', 'builtins.object.__setattr__'}
IMPORT_TIME = {'__init_subclass__', '__set_name__'}
META = {'__new__', '__init__', '__prepare__'}
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


class Shared:
    """what an expression may be: `what` for messages, `kind` one of mutable, class, unknown"""
    def __init__(self, what, kind):
        self.what, self.kind = what, kind


def kind_of(node):
    if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return 'mutable'
    if isinstance(node, ast.Call):
        f = node.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        return 'mutable' if n in MUTABLE_CALLS else 'unknown'
    if isinstance(node, (ast.Constant, ast.Tuple, ast.JoinedStr, ast.Lambda, ast.Compare,
                         ast.GeneratorExp, ast.UnaryOp)):
        return None
    if isinstance(node, ast.BinOp):
        ks = {kind_of(node.left), kind_of(node.right)}
        return 'mutable' if 'mutable' in ks else None if ks <= {None} else 'unknown'
    return 'unknown'


class Source:
    """mods: what refs.load() returns"""
    def __init__(self, mods, exempt=(), roots=None):
        self.mods = mods
        # roots: (attribute and argument names, class) of one object that is the only shared one
        self.roots = roots
        self.exempt = exempt          # prefixes of dotted names of accepted shared state
        self.classes, self.vars, self.funcs = {}, {}, {}
        self.fn_of, self.cls_of, self.static = {}, {}, {}
        self.res = {}
        self.by_name = {}             # function name -> qualified names
        self.findings = []
        self.analysed = 0
        for m in mods.values():
            self.res.update({id(r.node): r.name for r in m.refs})
            self.collect(m, m.tree.body, m.name, None, False)
        self.instance_attrs = {}      # class -> attributes its methods assign on self
        self.class_mut = {}           # class -> {attribute: node} mutable at class level
        for q, (c, m) in self.classes.items():
            self.class_attrs(q, c)
        self.import_time = self.find_import_time()
        self.returns = {}
        self.attr_alias = {}

    def collect(self, m, body, q, cls, infn):
        for n in body:
            if isinstance(n, FN):
                qq = f'{q}.{n.name}'
                self.funcs[qq] = (n, m, cls if not infn else None)
                self.by_name.setdefault(n.name, set()).add(qq)
                self.collect(m, n.body, qq, cls, True)
            elif isinstance(n, ast.ClassDef):
                qq = f'{q}.{n.name}'
                self.classes[qq] = (n, m)
                self.collect(m, n.body, qq, qq, False)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.Match)):
                for f in ('body', 'orelse', 'finalbody'):
                    self.collect(m, getattr(n, f, []), q, cls, infn)
                for h in [*getattr(n, 'handlers', []), *getattr(n, 'cases', [])]:
                    self.collect(m, h.body, q, cls, infn)
            if cls is None and not infn and q == m.name:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(
                    n, ast.AnnAssign) and n.value is not None else []
                for t in ts:
                    if isinstance(t, ast.Name):
                        self.vars[f'{m.name}.{t.id}'] = n.value

    def class_attrs(self, q, c):
        self.class_mut[q] = {}
        for n in c.body:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(
                n, ast.AnnAssign) and n.value is not None else []
            for t in ts:
                if isinstance(t, ast.Name) and kind_of(n.value) == 'mutable':
                    self.class_mut[q][t.id] = n
        methods = {n.name: n for n in c.body if isinstance(n, FN)}
        todo, made = ['__init__', '__new__', '__post_init__', '__attrs_post_init__'], set()
        attrs = set()
        while todo:
            n = methods.get(todo.pop())
            if n is None or n.name in made:
                continue
            made.add(n.name)
            for x in ast.walk(n):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(
                        x, ast.AnnAssign) else []:
                    attrs.update(y.attr for y in ast.walk(t) if isinstance(y, ast.Attribute) and
                                 isinstance(y.ctx, ast.Store))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    todo.append(x.func.attr)
        self.instance_attrs[q] = attrs

    # ------------------------------------------------------------ who runs at import only
    def find_import_time(self):
        users = {}      # function qualified name -> set of users (function names, or None)
        attr_users = {}
        for m in self.mods.values():
            if m.name.startswith('siotls.examples') or m.name.endswith('__main__'):
                continue
            for r in m.refs:
                fn = self.enclosing(r.fn)
                users.setdefault(r.name, set()).add(fn)
                attr_users.setdefault(r.name.rpartition('.')[2], set()).add(fn)
            for a, _n, fn in m.methods:
                attr_users.setdefault(a, set()).add(self.enclosing(fn))
        out = set()
        for q, (n, m, cls) in self.funcs.items():
            if n.name in IMPORT_TIME or n.name in META and cls and self.is_meta(cls):
                out.add(q)
        while True:
            more = set()
            for q, (n, m, cls) in self.funcs.items():
                if q in out or n.name.startswith('__'):
                    continue
                parent = q.rpartition('.')[0]
                if parent in self.funcs:
                    if parent in out:
                        more.add(q)
                    continue
                u = users.get(q, set()) | (attr_users.get(n.name, set()) if cls else set())
                u = u - {q}
                if u and all(x is None or x in out for x in u):
                    more.add(q)
            if not more:
                return out
            out |= more

    def enclosing(self, fn):
        while fn and fn not in self.funcs:
            fn = fn.rpartition('.')[0]
            if fn in self.mods:
                return None
        return fn or None

    def is_meta(self, cls):
        c, _m = self.classes[cls]
        names = {b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '') for b in c.bases}
        return bool(names & {'type', 'ABCMeta', 'EnumMeta', 'EnumType'})

    def family(self, cls):
        """a class of the program, its ancestors and its descendants"""
        up, todo = set(), [cls]
        while todo:
            q = todo.pop()
            if q in up or q not in self.classes:
                continue
            up.add(q)
            todo += [self.res.get(id(b)) for b in self.classes[q][0].bases]
        return up

    def memoised(self):
        """functions that remember results which can be changed: [(name, loc, why)]"""
        out = []
        for q, (n, m, _cls) in self.funcs.items():
            deco = {self.res.get(id(y)) for x in n.decorator_list for y in ast.walk(x)}
            if not deco & {'functools.cache', 'functools.lru_cache'}:
                continue
            why = self.gives_mutable(q, set())
            out.append((q, (m.path, n.lineno), why))
        return out

    def gives_mutable(self, q, seen):
        if q in seen:
            return None
        seen.add(q)
        n, m, cls = self.funcs[q]
        bound = {}
        for x in own(n):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        bound.setdefault(t.id, []).append(x.value)
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return 'an iterator'

        def mutable(e, depth=0):
            if e is None or depth > 5:
                return None
            if isinstance(e, ast.Name):
                return next((w for w in (mutable(b, depth + 1) for b in bound.get(e.id, ()))
                             if w), None)
            if isinstance(e, ast.Tuple):
                return next((w for w in (mutable(b, depth + 1) for b in e.elts) if w), None)
            if isinstance(e, ast.IfExp):
                return mutable(e.body, depth + 1) or mutable(e.orelse, depth + 1)
            if kind_of(e) == 'mutable':
                return 'a container'
            if isinstance(e, ast.GeneratorExp):
                return 'an iterator'
            if isinstance(e, ast.Call):
                d = self.res.get(id(e.func))
                if d in self.classes and not self.frozen(d):
                    return f'a {d.rpartition(".")[2]}'
                if isinstance(e.func, ast.Name) and e.func.id == 'cls' and cls and \
                        not self.frozen(cls):
                    return f'a {cls.rpartition(".")[2]}'
                if d in self.funcs:
                    return self.gives_mutable(d, seen)
            return None
        return next((w for w in (mutable(x.value) for x in own(n) if isinstance(x, ast.Return))
                     if w), None)

    def frozen(self, q):
        c, _m = self.classes[q]
        for d in c.decorator_list:
            if isinstance(d, ast.Call) and any(
                    k.arg == 'frozen' and getattr(k.value, 'value', None) for k in d.keywords):
                return True
        bases = {self.res.get(id(b)) or '' for b in c.bases}
        return any(b.startswith(('enum.', 'typing.NamedTuple')) or b in self.classes and
                   self.frozen(b) for b in bases)

    # ------------------------------------------------------------ the analysis
    def run(self, wanted):
        for _ in range(3):
            self.findings, self.analysed = [], 0
            before = (dict(self.returns), dict(self.attr_alias))
            for q, (n, m, cls) in self.funcs.items():
                F(self, q, n, m, cls, report=wanted(m.name) and q not in self.import_time)
                self.analysed += 1
            if before == (self.returns, self.attr_alias):
                break
        return self.findings


def own(n):
    """the nodes of a function, not of those it defines"""
    todo = list(n.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (*FN, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(x)


class F:
    def __init__(self, src, q, n, m, cls, report):
        self.s, self.q, self.n, self.m, self.cls, self.report = src, q, n, m, cls, report
        self.globals = {g for x in ast.walk(n) if isinstance(x, ast.Global) for g in x.names}
        env = {}
        a = n.args
        deco = {src.res.get(id(d)) for d in n.decorator_list}
        names = [*a.posonlyargs, *a.args]
        if src.roots:
            for p in [*names, *a.kwonlyargs]:
                if p.arg in src.roots[0]:
                    env[p.arg] = Shared(f'{p.arg}', 'class')
            if names and cls == src.roots[1] and n.name not in ('__init__', '__new__'):
                env[names[0].arg] = Shared(cls.rpartition('.')[2], 'class')
        elif cls and names:
            if 'builtins.classmethod' in deco or n.name in ('__new__', '__init_subclass__',
                                                            '__class_getitem__') or \
                    src.is_meta(cls) or names[0].arg == 'cls':
                env[names[0].arg] = Shared(f'class {cls.rpartition(".")[2]}', 'class')
        for p, dflt in [*zip(names[len(names) - len(a.defaults):], a.defaults, strict=True),
                        *((k, v) for k, v in zip(a.kwonlyargs, a.kw_defaults, strict=True)
                          if v is not None)]:
            if kind_of(dflt) == 'mutable' and not src.roots:
                env[p.arg] = Shared(f'the default of {p.arg}', 'mutable')
        self.env = env
        self.block(n.body, env)

    def bad(self, node, what, how):
        if self.report and not any(what.what.startswith(x) for x in self.s.exempt):
            self.s.findings.append((self.q, what.what, how, (self.m.path, node.lineno)))

    # -- expressions
    def shared(self, e, env):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.of_name(self.s.res.get(id(e)))
        if isinstance(e, ast.Attribute):
            d = self.s.res.get(id(e))
            if d is not None:
                r = self.of_name(d)
                if r is not None:
                    return r
                # an attribute of something named
                base = self.of_name(d.rpartition('.')[0])
                if base is not None:
                    return Shared(d, 'unknown')
            if e.attr == '__class__':
                return Shared('its class', 'class')
            r = self.shared(e.value, env)
            if r is not None:
                return Shared(f'{r.what}.{e.attr}', self.attr_kind(r, e.attr))
            return self.of_attr(e)
        if isinstance(e, ast.Subscript):
            r = self.shared(e.value, env)
            return r and Shared(f'{r.what}[...]', 'unknown')
        if isinstance(e, ast.Call):
            return self.of_call(e, env)
        if isinstance(e, ast.IfExp):
            return self.shared(e.body, env) or self.shared(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return next((r for r in (self.shared(x, env) for x in e.values) if r), None)
        if isinstance(e, (ast.NamedExpr, ast.Starred, ast.Await)):
            return self.shared(e.value, env)
        if isinstance(e, (ast.Tuple, ast.List)):
            return next((r for r in (self.shared(x, env) for x in e.elts) if r), None) \
                if isinstance(e, ast.Tuple) else None
        return None

    def attr_kind(self, r, attr):
        return 'mutable' if any(attr in v for v in self.s.class_mut.values()) else 'unknown'

    def of_name(self, d):
        if d is None or self.s.roots:
            return None
        if d in self.s.classes:
            return Shared(f'class {d.rpartition(".")[2]}', 'class')
        if d in self.s.vars:
            k = kind_of(self.s.vars[d])
            return k and Shared(d, k)
        if d in ('os.environ', 'sys.modules', 'sys.path'):
            return Shared(d, 'mutable')
        if d in self.s.mods:
            return Shared(d, 'class')
        return None

    def of_attr(self, e):
        """an attribute of an instance that its class, not the instance, holds"""
        s = self.s
        if s.roots:
            return Shared(e.attr, 'class') if e.attr in s.roots[0] else None
        fams = [self.cls] if isinstance(e.value, ast.Name) and e.value.id == 'self' and self.cls \
            else list(s.classes)
        for c in fams:
            fam = s.family(c)
            assigned = any(e.attr in s.instance_attrs[x] for x in fam)
            if not assigned and any(e.attr in s.class_mut[x] for x in fam):
                return Shared(f'the class attribute {e.attr}', 'mutable')
        if e.attr in s.attr_alias:
            return Shared(s.attr_alias[e.attr], 'mutable')
        return None

    def of_call(self, e, env):
        d = self.s.res.get(id(e.func))
        if self.s.roots and d in ('builtins.type', 'builtins.globals'):
            return None
        if d == 'builtins.type' and len(e.args) == 1:
            return Shared('its class', 'class')
        if d in ('builtins.vars', 'builtins.getattr') and e.args:
            r = self.shared(e.args[0], env)
            return r and Shared(f'an attribute of {r.what}', 'unknown')
        if d == 'builtins.globals':
            return Shared('globals()', 'mutable')
        if d in WRAPPERS:
            r = next((r for r in (self.shared(x, env) for x in e.args) if r), None)
            return r and Shared(r.what, 'elements')
        if isinstance(e.func, ast.Attribute) and e.func.attr in THROUGH:
            r = self.shared(e.func.value, env)
            if r is not None and r.kind != 'class':
                return Shared(f'{r.what}[...]', 'unknown')
        names = [d] if d in self.s.funcs else []
        if isinstance(e.func, ast.Attribute) and not names:
            names = [q for q in self.s.by_name.get(e.func.attr, ()) if self.s.funcs[q][2]]
        rs = [self.s.returns[q] for q in names if q in self.s.returns]
        if rs and len(rs) == len(names):
            return Shared(*rs[0])
        return None

    # -- statements
    def bind(self, t, r, env, node):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.bad(node, Shared(f'{self.m.name}.{t.id}', 'mutable'), 'is rebound')
            elif r is None:
                env.pop(t.id, None)
            else:
                env[t.id] = r if r.kind != 'elements' else Shared(f'{r.what}[...]', 'unknown')
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, r and Shared(f'{r.what}[...]', 'unknown'), env, node)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, r, env, node)
        else:
            self.store(t, env, node)
            if isinstance(t, ast.Attribute) and r is not None and r.kind == 'mutable':
                self.s.attr_alias.setdefault(t.attr, r.what)

    def store(self, t, env, node, how='is written to'):
        if isinstance(t, ast.Subscript | ast.Attribute):
            r = self.shared(t.value, env)
            if r is not None and r.kind != 'elements':
                tail = f'.{t.attr}' if isinstance(t, ast.Attribute) else '[...]'
                self.bad(node, Shared(r.what + tail, r.kind), how)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, env, node, how)

    def exprs(self, e, env):
        """mutations an expression makes"""
        for x in ast.walk(e) if e is not None else ():
            if isinstance(x, ast.NamedExpr):
                self.bind(x.target, self.shared(x.value, env), env, x)
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    r = self.shared(g.iter, env)
                    if r is not None:
                        self.bind(g.target, Shared(f'{r.what}[...]', 'unknown'), env, x)
        for x in ast.walk(e) if e is not None else ():
            if not isinstance(x, ast.Call):
                continue
            d = self.s.res.get(id(x.func))
            if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                r = self.shared(x.func.value, env)
                if r is not None and r.kind in ('mutable', 'unknown') and not self.own_method(x, r):
                    self.bad(x, r, f'is changed by {x.func.attr}()')
            if (d in SETATTR or isinstance(x.func, ast.Attribute) and x.func.attr in (
                    '__setattr__', '__delattr__')) and x.args:
                r = self.shared(x.args[0], env)
                if r is not None and r.kind != 'elements':
                    self.bad(x, r, 'has an attribute set')
            if d in FIRST_ARG and x.args:
                r = self.shared(x.args[0], env)
                if r is not None and r.kind != 'elements':
                    self.bad(x, r, f'is changed by {d}')

    def own_method(self, call, r):
        """a method of the program, on an object of unknown kind: the engine looks into it"""
        return r.kind == 'unknown' and any(
            self.s.funcs[q][2] for q in self.s.by_name.get(call.func.attr, ()))

    def block(self, body, env):
        for n in body:
            self.stmt(n, env)

    def branch(self, bodies, env):
        envs = []
        for b in bodies:
            e = dict(env)
            self.block(b, e)
            envs.append(e)
        env.clear()
        for e in envs:
            for k, v in e.items():
                env.setdefault(k, v)

    def stmt(self, n, env):
        if isinstance(n, (*FN, ast.ClassDef)):
            return
        if isinstance(n, ast.Assign):
            self.exprs(n.value, env)
            r = self.shared(n.value, env)
            for t in n.targets:
                self.bind(t, r, env, n)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.exprs(n.value, env)
                self.bind(n.target, self.shared(n.value, env), env, n)
        elif isinstance(n, ast.AugAssign):
            self.exprs(n.value, env)
            if isinstance(n.target, ast.Name):
                r = env.get(n.target.id)
                if n.target.id in self.globals:
                    self.bad(n, Shared(f'{self.m.name}.{n.target.id}', 'mutable'), 'is rebound')
                elif r is not None and r.kind == 'mutable':
                    self.bad(n, r, 'is changed in place')
            else:
                self.store(n.target, env, n)
                r = self.shared(n.target, env)
                if r is not None and r.kind == 'mutable':
                    self.bad(n, r, 'is changed in place')
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                self.store(t, env, n, 'is deleted')
        elif isinstance(n, ast.If):
            self.exprs(n.test, env)
            self.branch([n.body, n.orelse], env)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.exprs(n.iter, env)
            r = self.shared(n.iter, env)
            for _ in range(2):
                self.bind(n.target, r and Shared(f'{r.what}[...]', 'unknown'), env, n)
                self.branch([n.body, []], env)
            self.block(n.orelse, env)
        elif isinstance(n, ast.While):
            for _ in range(2):
                self.exprs(n.test, env)
                self.branch([n.body, []], env)
            self.block(n.orelse, env)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.exprs(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, self.shared(i.context_expr, env), env, n)
            self.block(n.body, env)
        elif isinstance(n, ast.Try):
            self.branch([n.body, *(h.body for h in n.handlers), n.body + n.orelse], env)
            self.block(n.finalbody, env)
        elif isinstance(n, ast.Match):
            self.exprs(n.subject, env)
            self.branch([*(c.body for c in n.cases), []], env)
        elif isinstance(n, ast.Return):
            self.exprs(n.value, env)
            r = self.shared(n.value, env)
            if r is not None:
                self.s.returns.setdefault(self.q, (r.what, r.kind))
        else:
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    self.exprs(x, env)
