"""C21: names, attributes and signatures on every path (scope resolution, definite assignment, arity)."""
import ast
import json
import os
import re
from repo import Class, Func, Module

HERE = os.path.dirname(os.path.abspath(__file__))
EXTN = json.load(open(os.path.join(HERE, 'extnames.json')))
UNIVERSE = set(EXTN['universe'])
BUILTINS = set(EXTN['builtins']) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__',
                                    '__class__'}
# methods the tree search expects of the state objects its caller passes in
DUCK = {'do_move', 'get_current_player', 'get_winner', 'get_legal_moves', 'is_terminal'}
OBJ = set(dir(object)) | {'__dict__', '__class__', '__name__', '__qualname__', '__module__', '__doc__'}


class Ana(object):
    def __init__(self, repo, out):
        self.repo, self.out = repo, out
        self.nreads = self.nattrs = self.ncalls = self.nfuncs = 0
        self.mods = [m for m in repo.modules.values() if not m.spec]
        self.stored = set()
        self.outer = set()          # attributes given to objects from elsewhere
        self.members = {}
        for m in self.mods:
            inside = set()
            for k in ast.walk(m.tree):
                if isinstance(k, ast.ClassDef):
                    inside.update(map(id, ast.walk(k)))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') and id(n) in inside):
                        self.outer.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                    self.stored.add(n.args[1].value)
                    self.outer.add(n.args[1].value)
        for c in repo.classes():
            self.members[c.qual] = self.class_members(c)
        allm = set()
        for s, _ in self.members.values():
            allm |= s
        self.universe = UNIVERSE | allm | self.stored | DUCK
        self.rettypes = {}
        self.attrtypes = {}
        for _ in range(3):
            for f in repo.functions():
                self.rettypes[f.qual] = self.return_type(f)
            self.attr_types()

    # -- classes ---------------------------------------------------------------
    def class_members(self, c):
        """names an instance may have, and whether the list is complete"""
        out = set(OBJ)
        complete = True
        for k in c.mro():
            out |= set(k.methods) | set(k.attrs) | set(k.setters)
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars', 'exec'):
                    complete = False
                if isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__setattr__', '__setstate__'):
                    complete = False
            out |= self.outer
            if k.node.decorator_list or k.node.keywords:
                complete = False
            for b in k.ext_bases():
                nm = b if isinstance(b, str) else None
                if nm in ('object', 'builtins.object'):
                    continue
                x = self.ext_class(nm)
                if x is None:
                    complete = False
                else:
                    out |= x
            if '__getattr__' in k.methods or '__getattribute__' in k.methods:
                complete = False
        return out, complete

    def ext_class(self, path):
        import collections.abc
        if path is None:
            return None
        last = path.split('.')[-1]
        if path.startswith('collections') and hasattr(collections.abc, last):
            return set(dir(getattr(collections.abc, last)))
        if path.startswith('abc.') and last == 'ABC':
            return set(OBJ)
        return None

    # -- types -----------------------------------------------------------------
    def type_of(self, node, mod, cls, env):
        """package class of an expression, when it is certain"""
        if isinstance(node, ast.Name):
            if cls is not None and node.id == 'self':
                return cls
            return env.get(node.id)
        if isinstance(node, ast.Call):
            t = self.callee(node.func, mod, cls, env)
            if isinstance(t, Class):
                return t
            if isinstance(t, tuple) and t[0] == 'cls':
                return t[1]
            if isinstance(t, tuple) and t[0] == 'func':
                r = self.rettypes.get(t[1].qual)
                return r
            return None
        if isinstance(node, ast.Attribute):
            b = self.type_of(node.value, mod, cls, env)
            if b is not None:
                f = b.find(node.attr)
                if f is not None and f.kind == 'property':
                    return self.rettypes.get(f.qual)
                for k in b.mro():
                    t = self.attrtypes.get((k.qual, node.attr))
                    if t is not None:
                        return t
        return None

    def callee(self, fn, mod, cls, env):
        """-> Class | ('func', Func, bound?) | None"""
        if isinstance(fn, ast.Name):
            if fn.id in env.get('$locals', ()):
                return None
            if fn.id == 'cls' and cls is not None:
                return ('cls', cls)
            r = self.repo.lookup(mod, fn.id)
            if isinstance(r, Class):
                return r
            if isinstance(r, Func):
                return ('func', r, False)
            return None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id not in env.get('$locals', ()) or isinstance(fn.value, ast.Attribute):
                r = self.repo.resolve_expr(mod, fn.value)
                if isinstance(r, Module):
                    x = self.repo.lookup(r, fn.attr)
                    if isinstance(x, Class):
                        return x
                    if isinstance(x, Func):
                        return ('func', x, False)
                    return None
                if isinstance(r, Class):
                    f = r.find(fn.attr)
                    if f is None:
                        return None
                    if f.kind == 'classmethod':
                        return ('func', f, True)
                    return ('func', f, False)
            if isinstance(fn.value, ast.Name) and fn.value.id == 'cls' and cls is not None:
                f = cls.find(fn.attr)
                if f is not None:
                    return ('func', f, f.kind == 'classmethod')
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' \
                    and cls is not None:
                for b in cls.mro()[1:]:
                    if fn.attr in b.methods:
                        return ('func', b.methods[fn.attr], True)
                return None
            t = self.type_of(fn.value, mod, cls, env)
            if t is not None:
                f = t.find(fn.attr)
                if f is None:
                    return None
                if f.kind == 'property':
                    return None
                return ('func', f, f.kind != 'staticmethod')
        return None

    def env_of(self, f):
        """local variables that are assigned exactly one certain class"""
        node = f.node
        env = {}
        stores = {}
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.setdefault(n.id, []).append(None)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
                stores.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    stores.setdefault((x.asname or x.name).split('.')[0], []).append('import')
            elif isinstance(n, ast.ExceptHandler) and n.name:
                stores.setdefault(n.name, []).append(None)
        env['$locals'] = params | {k for k, v in stores.items()} - {'self', 'cls'}
        # 'import' inside a function: resolved through repo.lookup when at module level only
        for _ in range(2):
            for n in ast.walk(node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    nm = n.targets[0].id
                    if nm not in params and len(stores.get(nm, ())) == 1:
                        t = self.type_of(n.value, f.module, f.cls, env)
                        if t is not None:
                            env[nm] = t
        return env

    def return_type(self, f):
        if f.is_gen or isinstance(f.node, ast.Lambda):
            return None
        env = self.env_of(f)
        ts = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return):
                if n.value is None:
                    return None
                ts.add(self.type_of(n.value, f.module, f.cls, env))
        if len(ts) == 1:
            t = ts.pop()
            # cls(...) in a base class may be a subclass: still has the base's members
            return t
        return None

    def attr_types(self):
        got = {}
        for c in self.repo.classes():
            for f in c.methods.values():
                env = self.env_of(f)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                got.setdefault((c.qual, t.attr), set()).add(self.type_of(n.value, f.module, c, env))
        self.attrtypes = {k: next(iter(v)) for k, v in got.items() if len(v) == 1 and None not in v
                          and not any(k[1] in s.setters for s in self.repo.classes())}

    # -- reports -----------------------------------------------------------------
    def rep(self, status, f, node, text, key):
        m = f.module
        q = f.qual
        self.out.add(status, '%s:%d %s' % (os.path.relpath(m.path, self.repo.root), getattr(node, 'lineno', 0), q),
                     'names', text, key='%s %s' % (q, key))

    # -- module level names ---------------------------------------------------------
    def modnames(self, m):
        out = set()
        star = False

        def targets(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    out.add(n.id)

        def scan(body):
            nonlocal star
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(s.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        out.add((a.asname or a.name).split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        if a.name == '*':
                            src = m.resolve_from(s) if hasattr(m, 'resolve_from') else s.module
                            src = src if isinstance(src, str) else s.module
                            rm = self.repo.modules.get(src)
                            if rm is not None:
                                al = rm_all(rm)
                                if al is not None:
                                    out.update(al)
                                else:
                                    out.update(x for x in self.modnames(rm)[0] if not x.startswith('_'))
                            elif src in EXTN['modules']:
                                out.update(x for x in EXTN['modules'][src] if not x.startswith('_'))
                            else:
                                star = True
                        else:
                            out.add(a.asname or a.name)
                else:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            out.add(n.id)
                        elif isinstance(n, (ast.Import, ast.ImportFrom)):
                            for a in n.names:
                                out.add((a.asname or a.name).split('.')[0])
                        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                            out.add(n.name)
                        elif isinstance(n, ast.ExceptHandler) and n.name:
                            out.add(n.name)
        scan(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out.update(n.names)
        return out, star

    # -- imports -------------------------------------------------------------------
    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.check_module(m, n, a.name)
            elif isinstance(n, ast.ImportFrom):
                src = m.resolve_from(n)
                self.check_module(m, n, src)
                for a in n.names:
                    if a.name == '*':
                        continue
                    self.nattrs += 1
                    rm = self.repo.modules.get(src)
                    if rm is not None:
                        names, star = self.modnames(rm)
                        if a.name not in names and not star and (src + '.' + a.name) not in self.repo.modules:
                            self.modrep(m, n, 'cannot import %s from %s' % (a.name, src))
                    elif src in EXTN['modules']:
                        if a.name not in EXTN['modules'][src] and (src + '.' + a.name) not in EXTN['modules'] \
                                and not guarded_import(m.tree, n):
                            self.modrep(m, n, 'cannot import %s from %s' % (a.name, src))

    def check_module(self, m, n, name):
        top = name.split('.')[0]
        if top == 'ababe':
            if name not in self.repo.modules and not os.path.isdir(os.path.join(self.repo.root, *name.split('.'))):
                self.modrep(m, n, 'no module %s' % name)
        elif top not in EXTN['importable'] and not guarded_import(m.tree, n):
            self.modrep(m, n, 'module %s is not installed' % name)

    def modrep(self, m, n, text):
        self.out.add('violation', '%s:%d' % (os.path.relpath(m.path, self.repo.root), n.lineno), 'names', text,
                     key='%s %s' % (m.name, text))

    # -- functions --------------------------------------------------------------------
    def run(self):
        for m in self.mods:
            self.names, self.star = self.modnames(m)
            self.imports(m)
            dummy = Func(ast.parse('def _module(): pass').body[0], m)
            dummy.name = '<module>'
            self.cur = dummy
            self.modscope(m)
            for f in self.repo.functions():
                if f.module is m:
                    self.function(f)
            self.cur = dummy

    def modscope(self, m):
        fl = Flow(self, self.cur, None, set(), m, toplevel=True)
        fl.block([s for s in m.tree.body], set(), {})
        for s in m.tree.body:
            if isinstance(s, ast.ClassDef):
                for x in s.body:
                    if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        pass

    def function(self, f, outer=frozenset()):
        self.nfuncs += 1
        fl = Flow(self, f, f.cls, set(outer), f.module)
        fl.run()
        self.attrs_and_calls(f)

    def attrs_and_calls(self, f):
        mod, cls = f.module, f.cls
        env = self.env_of(f)
        locs = env['$locals']
        local_mods = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    local_mods[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                src = mod.resolve_from(n)
                for a in n.names:
                    local_mods[a.asname or a.name] = src + '.' + a.name
        guarded = has_guards(f.node)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                self.nattrs += 1
                self.attr(f, n, mod, cls, env, locs, local_mods, guarded)
            elif isinstance(n, ast.Call):
                self.ncalls += 1
                t = self.callee(n.func, mod, cls, env)
                if t is not None:
                    self.arity(f, n, t)

    def ext_path(self, node, mod, locs, local_mods):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        if node.id in local_mods:
            base = local_mods[node.id]
        elif node.id in locs:
            return None
        else:
            r = self.repo.lookup(mod, node.id)
            if isinstance(r, Module):
                base = r.name
            elif isinstance(r, str):
                base = r
            else:
                return None
        return '.'.join([base] + parts[::-1])

    def attr(self, f, n, mod, cls, env, locs, local_mods, guarded):
        name = n.attr
        p = self.ext_path(n.value, mod, locs, local_mods)
        if p is not None:
            if p in EXTN['modules']:
                if name not in EXTN['modules'][p] and p + '.' + name not in EXTN['modules']:
                    self.rep('violation', f, n, 'module %s has no attribute %s' % (p, name), '%s.%s' % (p, name))
                return
            if p in self.repo.modules:
                names, star = self.modnames(self.repo.modules[p])
                if name not in names and not star and p + '.' + name not in self.repo.modules \
                        and name not in ('__name__', '__file__', '__doc__', '__path__', '__all__'):
                    self.rep('violation', f, n, 'module %s has no attribute %s' % (p, name), '%s.%s' % (p, name))
                return
        if isinstance(n.value, ast.Name) and n.value.id not in locs or p is not None:
            r = self.repo.resolve_expr(mod, n.value) if not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')) else None
            if isinstance(r, Class):
                mem, comp = self.members[r.qual]
                if comp and name not in mem and isinstance(n.ctx, ast.Load):
                    self.rep('violation', f, n, 'class %s has no attribute %s' % (r.name, name), '%s.%s' % (r.name, name))
                return
        t = self.type_of(n.value, mod, cls, env)
        if t is None and isinstance(n.value, ast.Name) and n.value.id == 'cls' and cls is not None:
            t = cls
        if t is not None:
            mem, comp = self.members[t.qual]
            if isinstance(n.ctx, ast.Load):
                # members of subclasses are acceptable when the receiver is self
                subs = set()
                for c in self.repo.classes():
                    if t in c.mro():
                        subs |= self.members[c.qual][0]
                if comp and name not in mem and name not in subs and not guarded:
                    self.rep('violation', f, n, '%s has no attribute %s' % (t.name, name), '%s.%s' % (t.name, name))
            elif isinstance(n.ctx, ast.Store):
                m_ = t.find(name)
                if m_ is not None and m_.kind == 'property' and t.find_setter(name) is None:
                    self.rep('violation', f, n, 'property %s.%s cannot be assigned' % (t.name, name), '%s.%s=' % (t.name, name))
            return
        if isinstance(n.ctx, ast.Load) and name not in self.universe and not guarded:
            # unknown receiver: no object in the program has such an attribute
            if not self.from_external(n.value, mod, locs, local_mods):
                self.rep('violation', f, n, 'nothing in the package or its libraries has an attribute %s' % name, name)

    def from_external(self, node, mod, locs, local_mods):
        """value obtained from a library call whose type is unknown here"""
        while True:
            if isinstance(node, (ast.Attribute, ast.Subscript)):
                node = node.value
            elif isinstance(node, ast.Call):
                node = node.func
            else:
                break
        if isinstance(node, ast.Name):
            if node.id in local_mods:
                return not local_mods[node.id].startswith('ababe')
            r = self.repo.lookup(mod, node.id)
            return isinstance(r, str) and node.id not in locs
        return False

    def arity(self, f, n, t):
        if isinstance(t, tuple) and t[0] == 'cls':
            t = t[1]
        if isinstance(t, Class):
            fn = t.find('__init__')
            bound = True
            if fn is None:
                if all(b in ('object', 'builtins.object') for k in t.mro() for b in k.ext_bases()):
                    if n.args or n.keywords:
                        self.rep('violation', f, n, '%s() takes no arguments' % t.name, t.name + '()')
                return
            nm = t.name
        else:
            _, fn, bound = t
            nm = fn.name
        if any(d for d in fn.node.decorator_list if not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'))
               and not (isinstance(d, ast.Attribute) and d.attr in ('setter', 'abstractmethod'))
               and not (isinstance(d, ast.Name) and d.id == 'abstractmethod')):
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if bound and fn.kind != 'staticmethod':
            names = names[1:]
        npos = len(n.args)
        if npos > len(names) and a.vararg is None:
            self.rep('violation', f, n, '%s() takes %d positional arguments, %d given' % (nm, len(names), npos), nm + '()')
            return
        given = set(names[:npos])
        kwonly = {x.arg for x in a.kwonlyargs}
        for k in n.keywords:
            if k.arg in given:
                self.rep('violation', f, n, '%s() got multiple values for %s' % (nm, k.arg), nm + '()' + k.arg)
            elif k.arg not in names and k.arg not in kwonly and a.kwarg is None:
                self.rep('violation', f, n, '%s() has no parameter %s' % (nm, k.arg), nm + '()' + k.arg)
            given.add(k.arg)
        nd = len(a.defaults)
        allp = [x.arg for x in a.posonlyargs + a.args]
        opt = set(allp[len(allp) - nd:]) if nd else set()
        opt |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        miss = [x for x in names + sorted(kwonly) if x not in given and x not in opt]
        if miss:
            self.rep('violation', f, n, '%s() is missing argument %s' % (nm, ', '.join(miss)), nm + '()')


def rm_all(m):
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
            try:
                return set(ast.literal_eval(s.value))
            except Exception:
                return None
    return None


def guarded_import(tree, node):
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and n.handlers:
            for s in n.body:
                for x in ast.walk(s):
                    if x is node:
                        return True
    return False


def has_guards(node):
    """getattr/hasattr style feature tests make attribute existence conditional"""
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'vars'):
            return True
        if isinstance(n, ast.ExceptHandler):
            t = ast.unparse(n.type) if n.type else ''
            if 'AttributeError' in t:
                return True
    return False


class Flow(object):
    """definite assignment"""

    def __init__(self, ana, f, cls, outer, mod, toplevel=False):
        self.a, self.f, self.cls, self.mod = ana, f, cls, mod
        self.outer = outer
        self.toplevel = toplevel
        self.reported = set()
        node = f.node
        self.locals = set()
        self.globals_ = set()
        if not toplevel:
            self.collect(node.body if isinstance(node.body, list) else [], self.locals)
            a = node.args
            self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            if a.vararg:
                self.params.add(a.vararg.arg)
            if a.kwarg:
                self.params.add(a.kwarg.arg)
            self.locals |= self.params
            self.locals -= self.globals_
        self.loop_maybe = set()
        self.corr = {}
        self.selfattrs = None

    def collect(self, stmts, out):
        todo = list(stmts)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        out.add(w.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals_.update(n.names)
            todo.extend(ast.iter_child_nodes(n))

    def run(self):
        node = self.f.node
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
            self.a.cur = self.f
            self.expr_global(d)
        defs = set(self.params)
        self.block(node.body, defs, {})

    def expr_global(self, d):
        sub = Flow(self.a, self.f, None, set(), self.mod, toplevel=True)
        sub.expr(d, set(), set())

    # reads ---------------------------------------------------------------------
    def read(self, n, defs, bound):
        name = n.id
        self.a.nreads += 1
        if name in bound:
            return
        if name in self.locals:
            if name not in defs and name not in self.reported:
                self.reported.add(name)
                if name in self.loop_maybe:
                    self.a.rep('undecided', self.f, n, 'name %s is bound only if the loop before ran' % name, name)
                else:
                    self.a.rep('violation', self.f, n, 'name %s is not bound on some path to this use' % name, name)
            return
        if name in self.outer:
            return
        if name in self.a.names or name in BUILTINS or self.a.star:
            return
        if self.cls is not None and False:
            return
        if name not in self.reported:
            self.reported.add(name)
            self.a.rep('violation', self.f, n, 'name %s is not defined' % name, name)

    def expr(self, e, defs, bound):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e, defs, bound)
            return
        if isinstance(e, ast.Lambda):
            b = set(bound) | {x.arg for x in e.args.posonlyargs + e.args.args + e.args.kwonlyargs}
            if e.args.vararg:
                b.add(e.args.vararg.arg)
            if e.args.kwarg:
                b.add(e.args.kwarg.arg)
            for d in e.args.defaults:
                self.expr(d, defs, bound)
            # the body runs later: any local bound somewhere counts
            self.expr(e.body, set(self.locals), b)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set(bound)
            for g in e.generators:
                self.expr(g.iter, defs, b)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        b.add(n.id)
                for c in g.ifs:
                    self.expr(c, defs, b)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, defs, b)
                self.expr(e.value, defs, b)
            else:
                self.expr(e.elt, defs, b)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, defs, bound)
            defs.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, defs, bound)

    def store(self, t, defs):
        if isinstance(t, ast.Name):
            defs.add(t.id)
            self.corr.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, defs)
        elif isinstance(t, ast.Starred):
            self.store(t.value, defs)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value, defs, set())
        elif isinstance(t, ast.Subscript):
            self.expr(t.value, defs, set())
            self.expr(t.slice, defs, set())

    # statements ----------------------------------------------------------------------
    def block(self, stmts, defs, lp):
        """returns defs after, or None if the end is not reached"""
        for s in stmts:
            defs = self.stmt(s, defs, lp)
            if defs is None:
                return None
        return defs

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def testkey(self, t):
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        return ast.unparse(t), names

    def stmt(self, s, defs, lp):
        defs = set(defs)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d, defs, set())
            defs.add(s.name)
            if not self.toplevel:
                sub = Func(s, self.mod, self.cls)
                sub.name = s.name
                fl = Flow(self.a, sub, self.cls, self.outer | self.locals, self.mod)
                fl.run()
            else:
                for d in s.args.defaults:
                    self.expr(d, defs, set())
            return defs
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.expr(d, defs, set())
            if self.toplevel:
                cl = set()
                fl = Flow(self.a, self.f, None, set(), self.mod, toplevel=True)
                fl.outer = set(x for b in s.body for x in self._classnames(b))
                fl.block([x for x in s.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))], cl, {})
            defs.add(s.name)
            return defs
        if isinstance(s, ast.Return):
            self.expr(s.value, defs, set())
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, defs, set())
            self.expr(s.cause, defs, set())
            return None
        if isinstance(s, ast.Assign):
            self.expr(s.value, defs, set())
            for t in s.targets:
                self.store(t, defs)
            return defs
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, defs, set())
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), defs, set())
                defs.add(s.target.id)
            else:
                self.store(s.target, defs)
            return defs
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, defs, set())
            if s.value is not None:
                self.store(s.target, defs)
            return defs
        if isinstance(s, ast.If):
            self.expr(s.test, defs, set())
            key, names = self.testkey(s.test)
            d1 = set(defs) | {n for n, ks in self.corr.items() if key in ks}
            if isinstance(s.test, ast.Constant) and s.test.value:
                return self.block(s.body, d1, lp)
            o1 = self.block(s.body, d1, lp)
            o2 = self.block(s.orelse, set(defs), lp)
            if o1 is not None and o2 is not None:
                stored = {n.id for x in s.body + s.orelse for n in ast.walk(x)
                          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if not (names & stored):
                    for n in o1 - o2:
                        self.corr.setdefault(n, set()).add(key)
                    for n in o2 - o1:
                        self.corr.setdefault(n, set()).add('not ' + key)
                        if key.startswith('not '):
                            self.corr[n].add(key[4:])
            return self.join(o1, o2)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, defs, set())
            d = set(defs)
            self.store(s.target, d)
            inner = {'break': []}
            o = self.block(s.body, d, inner)
            body_defs = set()
            self.collect(s.body, body_defs)
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    body_defs.add(n.id)
            self.loop_maybe |= body_defs - defs
            after = self.block(s.orelse, set(defs), lp) if s.orelse else set(defs)
            for b in inner['break']:
                after = self.join(after, b)
            return after
        if isinstance(s, ast.While):
            self.expr(s.test, defs, set())
            inner = {'break': []}
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            self.block(s.body, set(defs), inner)
            if forever:
                after = None
            else:
                body_defs = set()
                self.collect(s.body, body_defs)
                self.loop_maybe |= body_defs - defs
                after = self.block(s.orelse, set(defs), lp) if s.orelse else set(defs)
            for b in inner['break']:
                after = self.join(after, b)
            return after
        if isinstance(s, ast.Break):
            if 'break' in lp:
                lp['break'].append(set(defs))
            return None
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, defs, set())
                if i.optional_vars is not None:
                    self.store(i.optional_vars, defs)
            return self.block(s.body, defs, lp)
        if isinstance(s, ast.Try):
            o = self.block(s.body, set(defs), lp)
            if o is not None and s.orelse:
                o = self.block(s.orelse, o, lp)
            res = o
            for h in s.handlers:
                self.expr(h.type, defs, set())
                d = set(defs)
                if h.name:
                    d.add(h.name)
                r = self.block(h.body, d, lp)
                if r is not None and h.name:
                    r = r - {h.name}
                res = self.join(res, r)
            if s.finalbody:
                fin = self.block(s.finalbody, set(defs), lp)
                if fin is None:
                    return None
                if res is not None:
                    res = res | fin
            return res
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                defs.add((a.asname or a.name).split('.')[0])
            return defs
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(ast.Name(t.id, ast.Load()), t), defs, set())
                    defs.discard(t.id)
                else:
                    self.store(t, defs)
            return defs
        if isinstance(s, ast.Expr):
            self.expr(s.value, defs, set())
            if isinstance(s.value, ast.Call):
                fn = ast.unparse(s.value.func)
                if fn in ('sys.exit', 'exit', 'quit', 'os._exit'):
                    return None
            return defs
        if isinstance(s, ast.Assert):
            self.expr(s.test, defs, set())
            return defs
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return defs
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e, defs, set())
        return defs

    def _classnames(self, b):
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            return [b.name]
        return [n.id for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]


# ---- instance attributes are set on every path of the constructor -----------------
def init_attrs(repo, out, ana):
    n = 0
    for c in repo.classes():
        init = c.methods.get('__init__')
        if init is None:
            continue
        selfn = init.node.args.args[0].arg if init.node.args.args else 'self'
        inits = []
        for k in c.mro():
            if '__init__' in k.methods:
                inits.append(k.methods['__init__'])
        readers = {}
        for k in [c] + [x for x in repo.classes() if c in x.mro() and x is not c]:
            for f in list(k.methods.values()) + list(k.setters.values()):
                if f is init:
                    continue
                sn = f.node.args.args[0].arg if f.node.args.args else None
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == sn:
                        readers.setdefault(x.attr, f)
        assigned_elsewhere = set(ana.outer)
        for k in c.mro():
            for f in list(k.methods.values()) + list(k.setters.values()):
                if f is init:
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        assigned_elsewhere.add(x.attr)
            assigned_elsewhere |= set(k.attrs)
        stores = {x.attr for x in ast.walk(init.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                  and isinstance(x.value, ast.Name) and x.value.id == selfn}
        must = must_attrs(init.node.body, selfn)
        if must is None:
            continue
        for a in sorted(stores):
            n += 1
            if a in must or a in assigned_elsewhere or a not in readers:
                continue
            if c.find(a) is not None:
                continue
            ana.rep('violation', init, init.node,
                    'attribute %s is not set on some path of the constructor but read in %s' % (a, readers[a].name), 'init ' + a)
    return n


def must_attrs(body, selfn):
    def tgt(t, d):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfn:
            d.add(t.attr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x, d)

    def blk(ss, d):
        for s in ss:
            d = st(s, d)
            if d is None:
                return None
        return d

    def j(a, b):
        return b if a is None else a if b is None else a & b
    rets = []

    def st(s, d):
        d = set(d)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                tgt(t, d)
        elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
            tgt(s.target, d)
        elif isinstance(s, ast.If):
            return j(blk(s.body, d), blk(s.orelse, d))
        elif isinstance(s, (ast.For, ast.While)):
            # attributes first set inside a loop: assume it runs (definite failure is not certain)
            r = blk(s.body, d)
            return (r if r is not None else d)
        elif isinstance(s, ast.With):
            return blk(s.body, d)
        elif isinstance(s, ast.Try):
            r = blk(s.body + s.orelse, d)
            for h in s.handlers:
                r = j(r, blk(h.body, d))
            if s.finalbody:
                f = blk(s.finalbody, d)
                if r is not None and f is not None:
                    r = r | f
            return r
        elif isinstance(s, ast.Return):
            rets.append(d)
            return None
        elif isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
            return None
        return d
    r = blk(body, set())
    for x in rets:
        r = j(r, x)
    return r


def c21(repo, out, tier):
    out.rules.append('names: every name read is bound on every path (definite assignment), every attribute used on modules, package '
                     'classes and self exists, every call of a package function matches its signature, constructors set every '
                     'attribute other methods read')
    a = Ana(repo, out)
    a.run()
    n = init_attrs(repo, out, a)
    out.extra.update({'functions_analysed': a.nfuncs, 'name_reads': a.nreads, 'attribute_uses': a.nattrs, 'calls': a.ncalls,
                      'constructor_attributes': n})
    if a.nfuncs < 20 or a.nreads < 200:
        out.broken.append('only %d functions / %d reads analysed' % (a.nfuncs, a.nreads))
    out.add('ok', 'ababe/', 'names', '%d functions, %d name reads, %d attribute uses, %d calls' % (a.nfuncs, a.nreads, a.nattrs, a.ncalls))


RULES = {'C21': [c21]}
TECH = {'C21': 'whole-package scope resolution, definite-assignment dataflow, attribute and signature checking'}
