"""Which outside names the source refers to, where: scopes and imports resolved, nothing run."""
import ast
import builtins
import os

BUILTINS = set(dir(builtins))


class Ref:
    def __init__(self, name, node, module, fn, kind):
        self.name, self.node, self.module, self.fn, self.kind = name, node, module, fn, kind

    @property
    def loc(self):
        return (self.module.path, self.node.lineno)


class Mod:
    def __init__(self, name, path, tree, package):
        self.name, self.path, self.tree, self.package = name, path, tree, package
        self.names = {}      # module-level bindings -> dotted name or None
        self.refs = []
        self.methods = []    # (attribute name, node, fn) whose receiver is not known


def sources(root, top='siotls'):
    out = {}
    base = os.path.join(root, top)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, root)
            parts = rel[:-3].split(os.sep)
            package = parts[-1] == '__init__'
            if package:
                parts.pop()
            with open(path, encoding='utf-8') as fh:
                tree = ast.parse(fh.read(), path)
            out['.'.join(parts)] = Mod('.'.join(parts), rel, tree, package)
    return out


def absolute(mod, node):
    if not node.level:
        return node.module or ''
    parts = mod.name.split('.')
    if not mod.package:
        parts.pop()
    if node.level > 1:
        parts = parts[:-(node.level - 1)]
    return '.'.join([*parts, *([node.module] if node.module else [])])


class Scope:
    def __init__(self, kind, parent, names):
        self.kind, self.parent, self.names = kind, parent, names


def bindings(mod, body, args=None):
    """names bound in a scope -> dotted name of what was imported, or None"""
    out = {}
    glob = set()
    for a in ([*args.posonlyargs, *args.args, *args.kwonlyargs,
               *([args.vararg] if args.vararg else []), *([args.kwarg] if args.kwarg else [])]
              if args else ()):
        out[a.arg] = None
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.setdefault(n.name, None)
            todo += n.decorator_list
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.setdefault(w.target.id, None)
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split('.')[0]] = a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            base = absolute(mod, n)
            for a in n.names:
                out[a.asname or a.name] = f'{base}.{a.name}'
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,)):
            out.setdefault(n.id, None)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.setdefault(n.name, None)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.setdefault(n.name, None)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.setdefault(n.rest, None)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        todo += ast.iter_child_nodes(n)
    for g in glob:
        out.pop(g, None)
    return out


class Walker:
    def __init__(self, mods, mod):
        self.mods, self.mod = mods, mod
        self.top = Scope('module', None, mod.names)

    def run(self):
        self.block(self.mod.tree.body, self.top, None)

    def resolve(self, name, scope):
        s, first = scope, True
        while s is not None:
            if (s.kind != 'class' or first) and name in s.names:
                v = s.names[name]
                if s.kind == 'module' and v is None:
                    return f'{self.mod.name}.{name}'
                return v
            s, first = s.parent, False
        return 'builtins.' + name if name in BUILTINS else None

    def block(self, body, scope, fn):
        for n in body:
            self.visit(n, scope, fn)

    def visit(self, n, scope, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in [*n.decorator_list, *n.args.defaults, *(x for x in n.args.kw_defaults if x)]:
                self.visit(d, scope, fn)
            q = f'{fn or self.mod.name}.{n.name}'
            self.block(n.body, Scope('function', scope, bindings(self.mod, n.body, n.args)), q)
            return
        if isinstance(n, ast.Lambda):
            for d in [*n.args.defaults, *(x for x in n.args.kw_defaults if x)]:
                self.visit(d, scope, fn)
            self.visit(n.body, Scope('function', scope, bindings(self.mod, [n.body], n.args)), fn)
            return
        if isinstance(n, ast.ClassDef):
            for d in [*n.decorator_list, *n.bases, *(k.value for k in n.keywords)]:
                self.visit(d, scope, fn)
            q = f'{fn or self.mod.name}.{n.name}'
            self.block(n.body, Scope('class', scope, bindings(self.mod, n.body)), q)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = {}
            for g in n.generators:
                for w in ast.walk(g.target):
                    if isinstance(w, ast.Name):
                        names[w.id] = None
            sub = Scope('function', scope, names)
            for c in ast.iter_child_nodes(n):
                self.visit(c, sub, fn)
            return
        if isinstance(n, ast.AnnAssign):
            self.visit(n.target, scope, fn)
            if n.value is not None:
                self.visit(n.value, scope, fn)
            return
        if isinstance(n, ast.Attribute):
            d = self.dotted(n, scope)
            if d is not None:
                self.ref(d, n, fn, 'attr')
                return
            self.mod.methods.append((n.attr, n, fn))
            self.visit(n.value, scope, fn)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                d = self.resolve(n.id, scope)
                if d is not None:
                    self.ref(d, n, fn, 'name')
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, scope, fn)

    def dotted(self, n, scope):
        """the dotted name of an attribute of something imported"""
        attrs = []
        while isinstance(n, ast.Attribute):
            attrs.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        base = self.resolve(n.id, scope)
        if base is None or base.startswith('builtins.'):
            return None
        if base.startswith(self.mod.name + '.') and base.rpartition('.')[0] == self.mod.name and \
                base not in self.mods:
            return None
        return '.'.join([base, *reversed(attrs)])

    def ref(self, d, n, fn, kind):
        d = canonical(self.mods, d)
        self.mod.refs.append(Ref(d, n, self.mod, fn, kind))


def canonical(mods, d, depth=0):
    """follow what the modules of the program re-export"""
    parts = d.split('.')
    for i in range(len(parts), 0, -1):
        m = mods.get('.'.join(parts[:i]))
        if m is None:
            continue
        rest = parts[i:]
        if rest and m.names.get(rest[0]) and depth < 9:
            return canonical(mods, '.'.join([m.names[rest[0]], *rest[1:]]), depth + 1)
        return d
    return d


def load(root):
    mods = sources(root)
    for m in mods.values():
        m.names = bindings(m, m.tree.body)
    for m in mods.values():
        Walker(mods, m).run()
    return mods
