"""Loads the package: parses every module and interprets its top level."""
import ast
import os

from .interp import AnalysisError, Interp, ModuleInfo, St, ext_mro
from .terms import V, mk


class Program:
    def __init__(self, root='/repo/src', tops=('siotls',)):
        self.root = root
        self.tops = set(tops)
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.base_heap = {}
        self.state = St()
        self.interp = None
        self._abs = {}

    # ------------------------------------------------------------ modules
    def path_of(self, dotted):
        p = os.path.join(self.root, *dotted.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.isfile(p + '.py'):
            return p + '.py'
        return None

    def load(self, name, interp=None):
        interp = interp or self.interp
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            sub = '.'.join(parts[:i])
            if sub in self.modules:
                continue
            path = self.path_of(sub)
            if path is None:
                continue
            with open(path) as f:
                src = f.read()
            m = ModuleInfo(sub, path, ast.parse(src, path), path.endswith('__init__.py'))
            m.src = src
            self.modules[sub] = m
            if i > 1:
                par = self.modules.get('.'.join(parts[:i - 1]))
            self._exec(m, interp)
            if i > 1 and par is not None:
                par.ns.setdefault(parts[i - 1], mk('mod', m))

    def _exec(self, m, interp):
        st = interp._cur_init
        saved = (interp._mod, interp.initing, interp.rz, interp.lists)
        interp._mod, interp.initing = m, True
        raised = []
        interp.rz, interp.lists = [raised], []
        st = st.copy()
        st.frames = dict(st.frames)
        st.cur = ('mod', m.name)
        st.stack = ()
        st.facts = {}
        st.trace = None
        for stmt in m.tree.body:
            if isinstance(stmt, ast.If) and '__main__' in ast.dump(stmt.test):
                continue
            interp._cur_init = st
            r = interp.stmt(stmt, st)
            if not r.norm:
                raise AnalysisError(
                    f'{m.name}:{stmt.lineno}: top-level statement never completes: '
                    f'{[e for _, e in raised][:3]}')
            st = interp._merge_init(r.norm, interp._cur_init if interp._cur_init is not st
                                    else None)
            raised.clear()
            st = st.copy()
            st.cur = ('mod', m.name)
            interp._cur_init = st
        m.state = 'done'
        interp._mod, interp.initing, interp.rz, interp.lists = saved
        interp._cur_init = st

    # ------------------------------------------------------------ classes
    def find(self, ci, name):
        for c in ci.mro:
            if c.k == 'cls' and name in c.a[0].ns:
                return c.a[0].ns[name]
        return None

    def find_owner(self, ci, name):
        for c in ci.mro:
            if c.k == 'cls' and name in c.a[0].ns:
                return c.a[0]
        return None

    def c3(self, ci):
        me = mk('cls', ci)

        def lin(v):
            if v.k == 'cls':
                return list(v.a[0].mro)
            if v.k == 'ext':
                if v.a[0] == 'builtins.object':
                    return [v]
                return [mk('ext', x) for x in ext_mro(v.a[0])]
            return [v] if v.k == 'ext' else [mk('ext', f'?{v.k}')]
        seqs = [lin(b) for b in ci.bases] + [list(ci.bases)]
        seqs = [[x if x.k in ('cls', 'ext') else mk('ext', f'?{x.k}') for x in s] for s in seqs]
        out = [me]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError(f'inconsistent MRO for {ci.qual}')
            out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
        return out

    def mro_names(self, ci):
        out = []
        for c in ci.mro:
            if c.k == 'cls':
                out.append(c.a[0].qual)
            else:
                for x in ext_mro(c.a[0]):
                    if x not in out:
                        out.append(x)
        if 'builtins.object' not in out:
            out.append('builtins.object')
        return out

    def is_subclass(self, c, name):
        if c.k == 'ext':
            return name in ext_mro(c.a[0])
        if c.k == 'anycls':
            return all(self.is_subclass(x, name) for x in c.a[2])
        return name in self.mro_names(c.a[0])

    def abstract_methods(self, ci):
        r = self._abs.get(ci)
        if r is None:
            meta = False
            for c in ci.mro:
                if c.k == 'ext' and c.a[0] in ('abc.ABC',):
                    meta = True
                if c.k == 'cls' and c.a[0].meta is not None:
                    mt = c.a[0].meta
                    if (mt.k == 'ext' and mt.a[0] == 'abc.ABCMeta') or (
                            mt.k == 'cls' and 'abc.ABCMeta' in self.mro_names(mt.a[0])):
                        meta = True
            names = []
            if meta:
                seen = set()
                for c in ci.mro:
                    if c.k != 'cls':
                        continue
                    for n, v in c.a[0].ns.items():
                        if n in seen:
                            continue
                        seen.add(n)
                        if v.k == 'func' and v.a[0].abstract:
                            # a later external base may still provide it; none do here
                            names.append(n)
            r = self._abs[ci] = tuple(names)
        return r

    # ------------------------------------------------------------ access
    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisError(f'anchor class {qual} not found')
        return c

    def clsv(self, qual):
        return mk('cls', self.cls(qual))

    def func(self, qual):
        """module function or Class.method by qualified name"""
        mod, _, name = qual.rpartition('.')
        if mod in self.modules and name in self.modules[mod].ns:
            v = self.modules[mod].ns[name]
            if v.k == 'func':
                return v
        if mod in self.classes:
            v = self.find(self.classes[mod], name)
            if v is not None and v.k == 'func':
                return v
        raise AnalysisError(f'anchor function {qual} not found')

    def global_(self, qual):
        mod, _, name = qual.rpartition('.')
        if mod in self.modules and name in self.modules[mod].ns:
            return self.modules[mod].ns[name]
        raise AnalysisError(f'anchor {qual} not found')

    def all_modules(self):
        out = []
        for top in sorted(self.tops):
            base = os.path.join(self.root, top)
            for d, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(d, f), self.root)[:-3]
                        dotted = rel.replace(os.sep, '.')
                        if dotted.endswith('.__init__'):
                            dotted = dotted[:-9]
                        out.append(dotted)
        return out


def load_program(root='/repo/src', tops=('siotls',), skip=()):
    p = Program(root, tops)
    I = Interp(p)
    p.interp = I
    I._cur_init = p.state

    def merge(states, prev):
        # module level code: keep one state (the heaps are joined)
        s = states[0] if len(states) == 1 else I.join(I.dedupe(states))
        if prev is not None:      # an import: the heap is the imported modules'
            s = s.copy()
            s.heap = prev.heap
            s.nid = max(s.nid, prev.nid)
        return s
    I._merge_init = merge
    for name in p.all_modules():
        if name not in skip:
            p.load(name, I)
    p.state = I._cur_init
    st = p.state.copy()
    st.trace = None
    st.facts = {}
    st.cur = None
    st.stack = ()
    p.state = st
    p.base_heap = dict(st.heap)
    return p


_ = V
