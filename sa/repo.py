"""Parsing and name resolution of the repository's package (source only)."""
import ast
import os


class Func(object):
    def __init__(self, node, module, cls=None, kind='function', outer=None):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = getattr(node, 'name', '<lambda>')
        self.closure = None        # captured variables for nested functions
        self.outer = outer

    @property
    def qual(self):
        if self.cls is not None:
            return '%s:%s.%s' % (self.module.name, self.cls.name, self.name)
        return '%s:%s' % (self.module.name, self.name)

    @property
    def is_gen(self):
        g = getattr(self, '_gen', None)
        if g is None:
            g = self._gen = _has_yield(self.node)
        return g


def _has_yield(fn):
    if isinstance(fn, ast.Lambda):
        return False
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Class(object):
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = '%s:%s' % (module.name, node.name)
        self.methods = {}      # name -> Func
        self.setters = {}
        self.attrs = {}        # class level assignments
        self.bases = []        # resolved Class or dotted str
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                setter = False
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod', 'cached_property'):
                        kind = {'cached_property': 'property'}.get(d.id, d.id)
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        setter = True
                    elif isinstance(d, ast.Attribute) and d.attr == 'deleter':
                        setter = None
                    elif isinstance(d, ast.Attribute) and d.attr in ('abstractmethod',):
                        pass
                    elif isinstance(d, (ast.Name, ast.Attribute)) and 'cached' in ast.dump(d):
                        kind = 'property' if 'property' in ast.dump(d) else kind
                if setter:
                    self.setters[s.name] = Func(s, module, self, 'method')
                elif setter is None:
                    pass
                else:
                    self.methods[s.name] = Func(s, module, self, kind)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Class)]


class Module(object):
    def __init__(self, repo, name, path, src):
        self.repo, self.name, self.path, self.src = repo, name, path, src
        self.tree = ast.parse(src, path)
        self.is_pkg = path.endswith('__init__.py')
        self.spec = name.startswith('spec.')
        self.names = {}      # name -> ('mod', dotted) | ('from', module, name) | ('func', Func) | ('class', Class) | ('var',)
        self.stars = []
        self.classes = {}
        self.funcs = {}
        self._scan(self.tree.body)

    def pkg(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def resolve_from(self, node):
        if node.level:
            base = self.pkg().split('.')
            base = base[:len(base) - (node.level - 1)]
            return '.'.join(base + ([node.module] if node.module else []))
        return node.module

    def bind_import(self, node, names):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    names[a.asname] = ('mod', a.name)
                else:
                    names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        else:
            m = self.resolve_from(node)
            for a in node.names:
                if a.name == '*':
                    self.stars.append(m)
                else:
                    names[a.asname or a.name] = ('from', m, a.name)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.bind_import(s, self.names)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, self)
                self.funcs[s.name] = f
                self.names[s.name] = ('func', f)
            elif isinstance(s, ast.ClassDef):
                c = Class(s, self)
                self.classes[s.name] = c
                self.names[s.name] = ('class', c)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.names[n.id] = ('var',)
            elif isinstance(s, ast.With):
                for it in s.items:
                    if it.optional_vars is not None:
                        for n in ast.walk(it.optional_vars):
                            if isinstance(n, ast.Name):
                                self.names[n.id] = ('var',)
                self._scan(s.body)
            elif isinstance(s, (ast.If, ast.Try, ast.For, ast.While)):
                if isinstance(s, ast.For):
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            self.names[n.id] = ('var',)
                for fld in ('body', 'orelse', 'finalbody'):
                    self._scan(getattr(s, fld, []) or [])
                for h in getattr(s, 'handlers', []) or []:
                    self._scan(h.body)


class Repo(object):
    """all non-test modules of the package"""

    def __init__(self, root, package='ababe'):
        self.root = root
        self.package = package
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ('tests', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    self.modules[rel] = Module(self, rel, p, src)
                except SyntaxError as ex:
                    self.errors.append('%s: %s' % (p, ex))
        for m in self.modules.values():
            self._stars(m)
        for m in list(self.modules.values()):
            for c in m.classes.values():
                self._bases(c)
        import memo
        self.memos = memo.apply(self)

    def add_module(self, name, path, src):
        m = Module(self, name, path, src)
        self.modules[name] = m
        self._stars(m)
        for c in m.classes.values():
            self._bases(c)
        return m

    def _stars(self, m):
        for star in m.stars:
            sm = self.modules.get(star)
            if sm is None:
                continue
            allv = None
            for s in sm.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
                    try:
                        allv = ast.literal_eval(s.value)
                    except Exception:
                        allv = None
            if allv is None:
                allv = [n for n in sm.names if not n.startswith('_')]
            for n in allv:
                m.names.setdefault(n, ('from', star, n))

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            c.bases.append(r if r is not None else 'builtins.' + b.id if isinstance(b, ast.Name) else ast.dump(b))

    def resolve_expr(self, module, node):
        """static resolution of a dotted name -> Class | Func | dotted str | Module"""
        if isinstance(node, ast.Name):
            return self.lookup(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if isinstance(b, Module):
                return self.lookup(b, node.attr) or '%s.%s' % (b.name, node.attr)
            if isinstance(b, str):
                return b + '.' + node.attr
            if isinstance(b, Class):
                return b.find(node.attr)
        return None

    def lookup(self, module, name, seen=()):
        """-> Func | Class | Module | dotted external str | ('var', module, name) | None"""
        e = module.names.get(name)
        if e is None:
            sub = module.name + '.' + name
            if module.is_pkg and sub in self.modules:
                return self.modules[sub]
            return None
        if e[0] == 'func' or e[0] == 'class':
            return e[1]
        if e[0] == 'var':
            return ('var', module, name)
        if e[0] == 'mod':
            return self.modules.get(e[1], e[1])
        if e[0] == 'from':
            _, mn, n = e
            if mn in self.modules:
                if (mn, n) in seen:
                    return None
                r = self.lookup(self.modules[mn], n, seen + ((mn, n),))
                if r is None and mn + '.' + n in self.modules:
                    return self.modules[mn + '.' + n]
                return r
            if (mn or '') + '.' + n in self.modules:
                return self.modules[mn + '.' + n]
            return '%s.%s' % (mn, n)
        return None

    def classes(self):
        for m in self.modules.values():
            if m.spec:
                continue
            for c in m.classes.values():
                yield c

    def target_of(self, obj):
        """the analysed counterpart of a module-level class or function of a reference file"""
        if isinstance(obj, Func) and (obj.cls is not None or obj.outer is not None):
            return None
        for n, m in self.modules.items():
            if not m.spec and n.replace('.', '_') == obj.module.name[5:]:
                pool = m.classes if isinstance(obj, Class) else m.funcs
                return pool.get(obj.node.name)
        return None

    def functions(self):
        for m in self.modules.values():
            if m.spec:
                continue
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def get(self, qual):
        """'mod:Class.meth' / 'mod:func' / 'mod:Class' -> object or None"""
        mn, _, rest = qual.partition(':')
        m = self.modules.get(mn)
        if m is None:
            return None
        if '.' in rest:
            cn, _, fn = rest.partition('.')
            c = m.classes.get(cn)
            if c is None:
                return None
            if fn.endswith('@setter'):
                return c.find_setter(fn[:-7])
            return c.find(fn)
        return m.classes.get(rest) or m.funcs.get(rest)
