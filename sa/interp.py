"""Value-flow summaries of functions (gated, path-merged), built from source.

``Interp.summary(func)`` evaluates the syntax tree of a function over terms
(see terms.py): branches are merged into decision trees, loops become
comprehensions / folds over index binders, helper functions of the repository
are inlined, everything else stays an uninterpreted symbol.  No repository
code is executed and no path enumeration or solver is involved.
"""
import ast
import json
import os
from terms import *
import terms as tm
from repo import Func, Class, Module


class Unsupported(Exception):
    pass


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

_api = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'api.json')))
API_METHODS = set()
for _c, _ms in _api['classes'].items():
    API_METHODS |= {m for m in _ms if not m.startswith('_')}
API_QUALS = {'%s.%s' % (c, m) for c, ms in _api['classes'].items() for m in ms if not m.startswith('_')} | \
            {f for f in _api['functions'] if not f.rpartition(':')[2].startswith('_')}
API_CLASSES = set(_api['classes'])

PSEUDO = ('$io', '$print', '$raise')


class St(object):
    __slots__ = ('vars', 'heap')

    def __init__(self, vars_=None, heap=None):
        self.vars = vars_ if vars_ is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return St(dict(self.vars), dict(self.heap))


UNDEF = raw('undef')


def merge(c, a, b):
    """state a if c else b"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    r = St()
    for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
        x, y = a.vars.get(k, UNDEF), b.vars.get(k, UNDEF)
        if x is y:
            r.vars[k] = x
        elif x is UNDEF or y is UNDEF:
            # a name bound on one branch only: definite assignment is C21's business
            r.vars[k] = y if x is UNDEF else x
        else:
            r.vars[k] = mk_ite(c, x, y)
    for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None or y is None:
            d = default_heap(k)
            if d is None:
                r.heap[k] = x if y is None else y
                continue
            x = d if x is None else x
            y = d if y is None else y
        r.heap[k] = x if x is y else mk_ite(c, x, y)
    return r


def default_heap(k):
    if isinstance(k, tuple) and k[0] == 'f':
        return k[1]
    if isinstance(k, tuple) and k[0] == 'a':
        return mk_attr(k[1], k[2])
    if k in ('$io', '$print'):
        return EMPTY
    if k == '$raise':
        return NONE
    return None


def add_out(out, kind_, g, st):
    if g is FALSE:
        return
    if kind_ in out:
        g0, s0 = out[kind_]
        out[kind_] = (mk_or(g0, g), merge(g0, s0, st))
    else:
        out[kind_] = (g, st)


LISTS = ('_sites', 'sites', 'list', '_list')

# calls that give (lattice, positions, numbers)
TRIPLES = {'spglib.standardize_cell', 'spglib.find_primitive', 'spglib.refine_cell', 'spglib.niggli_reduce'}

MUTATORS = {'append', 'extend', 'add', 'insert', 'pop', 'remove', 'discard', 'update', 'clear', 'sort',
            'reverse', 'setdefault', 'popitem', '__setitem__', '__delitem__', 'fill', 'popleft', 'appendleft'}


class Summary(object):
    def __init__(self):
        self.ret = NONE
        self.io = EMPTY
        self.print = EMPTY
        self.raise_ = NONE
        self.attrs = {}      # (obj term, attr) -> term
        self.foreign = {}    # obj term -> term after
        self.defaults = []
        self.nparams = 0
        self.gen = False


def keys_only(S):
    """keys of a stream of (key, None) pairs"""
    if S.op == 'dictof':
        S = S.a[0]
    S = unwrap_seq(S)
    if S.op != 'comp':
        return None
    cl, tr = tm.open_comp(S)
    out = []
    for x in leaves(tr):
        le = tm.leaf_emit(x)
        if le[0] == 'one' and not (le[1].op == 'tup' and len(le[1].a) == 2 and le[1].a[1] is NONE):
            return None
        if le[0] == 'many':
            return None
    return tm.mk_comp(cl, map_tree(tr, lambda x: EMPTY if x is EMPTY else mk_seq([raw('e', tm.leaf_emit(x)[1].a[0])])))


def tuple_setter(fn):
    """self._x = tuple(value)"""
    if len(fn.args.args) != 2:
        return False
    body = [b for b in fn.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Assign) or not isinstance(body[0].targets[0], ast.Attribute):
        return False
    v = body[0].value
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'tuple' and len(v.args) == 1 \
        and isinstance(v.args[0], ast.Name) and v.args[0].id == fn.args.args[1].arg


class Interp(object):
    def __init__(self, repo, deep=False, linear=False, expand_ctor=True, bag=False, apps=False):
        self.repo = repo
        self.deep = deep
        self.linear = linear
        self.expand_ctor = expand_ctor
        self.bag = bag
        self.apps = apps
        self.fns = {}
        self.fnid = 0
        self.refid = 0
        self.stack = []
        self.scope = []
        self.typeof = {}
        self.anchor_cls = None
        self.anchor_mod = None
        self.modenv = {}
        self.ctor_cache = {}
        self.inlined = set()
        self.steps = 0
        self.pending = []
        self.stmt_depth = 0
        if not hasattr(repo, 'static'):
            self._trivial()
            self._methods = {}
            for c in repo.classes():
                for n, f in c.methods.items():
                    self._methods.setdefault(n, []).append(f)
            self._attrstores = None
            repo.static = self.triv, self.trivg, self._methods, self.attr_stores()
        self.triv, self.trivg, self._methods, self._attrstores = repo.static

    # ---- static maps -----------------------------------------------------
    def _trivial(self):
        """private attribute -> public property (class-wise and package-wide)"""
        self.triv = {}
        allm = {}
        holders = {}
        for c in self.repo.classes():
            d = {}
            for n, f in c.methods.items():
                if f.kind != 'property':
                    continue
                b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) \
                        and isinstance(b[0].value.value, ast.Name) and b[0].value.value.id == f.node.args.args[0].arg:
                    d[b[0].value.attr] = n
            self.triv[c.qual] = d
            for k, v in d.items():
                allm.setdefault(k, set()).add(v)
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == 'self':
                    holders.setdefault(n.attr, set()).add(c.qual)
        self.trivg = {}
        for k, v in allm.items():
            if len(v) == 1:
                self.trivg[k] = next(iter(v))

    def canon(self, cls, name):
        if cls is not None:
            for c in cls.mro():
                d = self.triv.get(c.qual, {})
                if name in d:
                    name = d[name]
                    break
            if name == 'spg_cell' and cls.find('numbers') is None:
                return '_spg_cell'          # not a cell of lattice, positions and numbers
            return name
        return self.trivg.get(name, name)

    def attr_stores(self):
        """attribute name -> set of (class qual or None, function name) that store it"""
        if self._attrstores is None:
            out = {}
            for m in self.repo.modules.values():
                if m.spec:
                    continue

                def visit(node, cls, fn):
                    for ch in ast.iter_child_nodes(node):
                        c2, f2 = cls, fn
                        if isinstance(ch, ast.ClassDef):
                            c2, f2 = '%s:%s' % (m.name, ch.name), None
                        elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn is None:
                            f2 = ch.name
                        if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                            own = isinstance(ch.value, ast.Name) and ch.value.id == 'self'
                            who = {(c2 if own else None, f2)}
                            if isinstance(ch.value, ast.Name) and f2 is not None:
                                who = self.on_behalf(m, c2, f2, ch.value.id) or who
                            out.setdefault(ch.attr, set()).update(who)
                        visit(ch, c2, f2)
                visit(m.tree, None, None)
            self._attrstores = out
        return self._attrstores

    def on_behalf(self, m, cq, fn, param):
        """a helper used only by methods of one class, on their own object: (class, method) pairs it works for"""
        if not hasattr(self, '_uses'):
            self._uses = {}
            for mod in self.repo.modules.values():
                if mod.spec:
                    continue

                def visit(node, cls, f):
                    for ch in ast.iter_child_nodes(node):
                        c2, f2 = cls, f
                        if isinstance(ch, ast.ClassDef):
                            c2, f2 = '%s:%s' % (mod.name, ch.name), None
                        elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)) and f is None:
                            f2 = ch.name
                        if isinstance(ch, ast.Call) and isinstance(ch.func, (ast.Name, ast.Attribute)):
                            self._uses.setdefault(ch.func.id if isinstance(ch.func, ast.Name) else ch.func.attr, []).append((c2, f2, ch))
                            ch.func._called = True
                        elif isinstance(ch, (ast.Name, ast.Attribute)) and not getattr(ch, '_called', False):
                            self._uses.setdefault(ch.id if isinstance(ch, ast.Name) else ch.attr, []).append((c2, f2, None))
                        elif isinstance(ch, ast.alias):
                            self._uses.setdefault(ch.asname or ch.name, []).append((c2, f2, None))
                        visit(ch, c2, f2)
                visit(mod.tree, None, None)
        out, todo, seen = set(), [(m, cq, fn, param)], set()
        while todo:
            m, cq, fn, param = todo.pop()
            if (cq, fn) in seen:
                continue
            seen.add((cq, fn))
            if cq is not None and (fn == '__init__' or not fn.startswith('_')):
                if param != 'self':
                    return None
                out.add((cq, fn))
                continue
            defs = [n for mod in self.repo.modules.values() if not mod.spec for n in ast.walk(mod.tree)
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == fn]
            uses = self._uses.get(fn, [])
            if len(defs) != 1 or not uses or defs[0].decorator_list or isinstance(defs[0], ast.ClassDef):
                if cq is not None and param == 'self':
                    out.add((cq, fn))
                    continue
                return None
            names = [a.arg for a in defs[0].args.args]
            if param not in names or any(isinstance(n, ast.Name) and n.id == param and not isinstance(n.ctx, ast.Load) for n in ast.walk(defs[0])):
                return None
            i = names.index(param)
            for c2, f2, call in uses:
                if call is None or c2 is None and f2 is None:
                    return None
                if isinstance(call.func, ast.Attribute):
                    if cq is None or i != 0:
                        return None
                    a = call.func.value
                    if c2 is not None and c2 != cq:
                        return None
                else:
                    if cq is not None:
                        return None
                    a = call.args[i] if i < len(call.args) else next((k.value for k in call.keywords if k.arg == param), None)
                if not isinstance(a, ast.Name) or f2 is None:
                    return None
                todo.append((m, c2, f2, a.id))
        return out or None

    def ctor_attr(self, cls, name):
        """value of a stable simple attribute in terms of the constructor's arguments"""
        if not self.expand_ctor:
            return None
        key = cls.qual
        if key not in self.ctor_cache:
            self.ctor_cache[key] = {}
            init = cls.find('__init__')
            if init is not None and init.cls is not None and isinstance(init.cls, Class):
                try:
                    self.ctor_cache[key] = self._ctor_attrs(cls, init)
                except (Unsupported, TooBig, RecursionError):
                    pass
        v = self.ctor_cache[key].get(name)
        return v

    def _ctor_attrs(self, cls, init):
        st = St()
        selfT = raw('ctorself')
        old = self.typeof.get(selfT)
        self.typeof[selfT] = cls
        args = [selfT]
        n = len(init.node.args.args) - 1
        args += [raw('carg', i) for i in range(n)]
        saved, self.expand_ctor = self.expand_ctor, False
        sstack, self.stack = self.stack, []
        try:
            self.call_func(init, args, {}, st)
        finally:
            self.expand_ctor = saved
            self.stack = sstack
        out = {}
        stores = self.attr_stores()
        for k, v in st.heap.items():
            if isinstance(k, tuple) and k[0] == 'a' and k[1] is selfT:
                nm = k[2]
                und = [u for c in cls.mro() for u, p in self.triv.get(c.qual, {}).items() if p == nm] + [nm]
                ok = True
                for u in und:
                    for (cq, fn) in stores.get(u, ()):
                        if cq is None or (cq == cls.qual and fn != '__init__'):
                            if cq is None and fn == '__init__':
                                continue
                            ok = False
                v = self.rv(v, st)
                if ok and self._simple(v):
                    out[nm] = v
        return out

    def _simple(self, v):
        if v.op == 'carg':
            return True
        if v.op == 'attr':
            return self._simple(v.a[0])
        if v.op == 'm':
            return len(v.a) == 2 and self._simple(v.a[1])
        return False

    # ---- summaries -------------------------------------------------------
    def summary(self, func, cls=None, args=None, st=None, selfT=None, mod=None):
        """evaluate a function on symbolic arguments"""
        self.anchor_cls = cls if cls is not None else func.cls
        self.anchor_mod = mod or func.module
        self.scope = []
        self.stack = []
        self.steps = 0
        st = st or St()
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        s = Summary()
        if args is None:
            args = []
            k = 0
            for i, n in enumerate(names):
                if i == 0 and (cls is not None or func.cls is not None) and func.kind in ('method', 'property', 'classmethod'):
                    if func.kind == 'classmethod':
                        args.append(raw('class', (cls or func.cls).qual))
                    else:
                        t = selfT or raw('self')
                        self.typeof[t] = cls or func.cls
                        args.append(t)
                else:
                    args.append(raw('arg', k))
                    k += 1
            s.nparams = k
            nd = len(a.defaults)
            dst = St()
            dst.vars = {}
            for d in a.defaults:
                s.defaults.append(self.with_module(func, lambda d=d: self.rv(self.ev(d, dst), dst)))
        kw = {}
        for x in a.kwonlyargs:
            kw[x.arg] = raw('arg', x.arg)
        extra = None
        ret = self.call_func(func, args, kw, st, top=True)
        s.ret = self.deep_rv(ret, st)
        s.gen = func.is_gen
        for k, v in st.heap.items():
            if k == '$io':
                s.io = v
            elif k == '$print':
                s.print = v
            elif k == '$raise':
                s.raise_ = v
            elif isinstance(k, tuple) and k[0] == 'a':
                if k[1].op != 'ref':
                    s.attrs[(k[1], k[2])] = self.deep_rv(v, st)
            elif isinstance(k, tuple) and k[0] == 'f':
                if v is not k[1]:
                    s.foreign[k[1]] = self.deep_rv(v, st)
        s.st = st
        return s

    def with_module(self, func, f):
        self.stack.append((func, None))
        try:
            return f()
        finally:
            self.stack.pop()

    # ---- refs ------------------------------------------------------------
    def alloc(self, t, st):
        self.refid += 1
        st.heap[self.refid] = t
        return raw('ref', self.refid)

    def rv(self, t, st):
        """current value of a (possibly mutable) object"""
        n = 0
        while True:
            n += 1
            if n > 50:
                return t
            if t.op == 'ref':
                c = st.heap.get(t.a[0])
                if c is None:
                    return raw('unknown', 'dangling')
                if c.op == 'new':
                    ov = sorted((k[2], v) for k, v in st.heap.items()
                                if isinstance(k, tuple) and k[0] == 'a' and k[1] is t)
                    af = st.heap.get(('f', t))
                    if af is not None:
                        return self._deref_in(af, t, st)
                    ov = [(nme, w) for nme, w in ((nme, self.deep_rv(v, st)) for nme, v in ov) if not self.ctor_same(c, nme, w, st)]
                    if ov:
                        return raw('with', c, *[y for nme, v in ov for y in (nme, v)])
                    return c
                t = c
                continue
            if t.op == 'ite':
                return map_tree(t, lambda x: self.rv(x, st))
            f = st.heap.get(('f', t))
            if f is not None and f is not t:
                if f.op == 'after' or True:
                    return f
            return t

    def _deref_in(self, t, ref, st):
        base = st.heap.get(ref.a[0])
        return replace(t, ref, base)

    def deep_rv(self, t, st):
        t = self.rv(t, st)
        if not any(x.op == 'ref' for x in subterms(t)):
            return t
        return rewrite(t, lambda x: self.rv(x, st) if x.op == 'ref' else None)

    # ---- functions as values ------------------------------------------------
    def fn(self, func):
        for k, v in self.fns.items():
            if v is func:
                return raw('fn', k)
        self.fnid += 1
        self.fns[self.fnid] = func
        return raw('fn', self.fnid)

    def to_lam(self, f, st, n=1):
        """function value -> lam term with n parameters"""
        if f.op == 'lam':
            return f
        if f.op == 'ite':
            return map_tree(f, lambda x: self.to_lam(x, st, n))
        if f.op in ('fn', 'bm', 'g', 'class', 'itemgetter', 'attrgetter'):
            if f.op == 'fn':
                a = self.fns[f.a[0]].node.args
                n = len(a.posonlyargs + a.args)
            vs = [fresh() for _ in range(n)]
            self.scope.append(vs)
            try:
                r = self.deep_rv(self.call_value(f, list(vs), {}, st), st)
            finally:
                self.scope.pop()
            return mk_lam(vs, r)
        return f

    def mat(self, t, st):
        """argument of an uninterpreted symbol: resolve refs and functions"""
        t = self.deep_rv(t, st)
        if t.op in ('fn', 'bm', 'itemgetter', 'attrgetter'):
            return self.to_lam(t, st)
        if t.op == 'ite' and any(x.op in ('fn', 'bm') for x in leaves(t)):
            return map_tree(t, lambda x: self.to_lam(x, st) if x.op in ('fn', 'bm') else x)
        return t

    # ---- calling repo functions ------------------------------------------
    def bind(self, func, args, kw, st):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = raw('tup', *[self.mat(x, st) for x in args[len(names):]])
        elif len(args) > len(names):
            raise Unsupported('too many arguments for %s' % func.qual)
        kwargs = dict(kw)
        for n in names[len(args):]:
            if n in kwargs:
                env[n] = kwargs.pop(n)
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            n = names[len(names) - nd + i]
            if n not in env:
                env[n] = self._default(func, d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = self._default(func, d, st)
        if a.kwarg is not None:
            if '**' in kwargs:
                env[a.kwarg.arg] = kwargs.pop('**')
            else:
                env[a.kwarg.arg] = raw('dict', *[y for k in sorted(kwargs) for y in (C(k), self.mat(kwargs[k], st))])
            kwargs = {}
        if kwargs:
            raise Unsupported('unexpected keyword for %s' % func.qual)
        for n in names:
            if n not in env:
                raise Unsupported('missing argument %s for %s' % (n, func.qual))
        return env

    def _default(self, func, d, st):
        tmp = St({}, st.heap)
        return self.with_module(func, lambda: self.ev(d, tmp))

    def call_func(self, func, args, kw, st, top=False):
        if len(self.stack) > 40 or sum(1 for f, _ in self.stack if f is func) >= 1:
            k = [i for i, (f, _) in enumerate(reversed(self.stack)) if f is func]
            return raw('rec', k[0] if k else 99, *[self.mat(x, st) for x in args])
        self.inlined.add(func.qual if isinstance(func.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else '<lambda>')
        env = self.bind(func, args, kw, st)
        if func.closure is not None:
            base = func.closure
        else:
            base = None
        caller_vars = st.vars
        st.vars = dict(env)
        st.vars['$closure'] = raw('closure', id(base) if base is not None else 0)
        self.stack.append((func, base))
        try:
            if isinstance(func.node, ast.Lambda):
                r = self.ev(func.node.body, st)
                st.vars = caller_vars
                return r
            st.vars['$ret'] = NONE
            if func.is_gen:
                st.vars['$yield'] = EMPTY
            out = self.block(func.node.body, st)
            res = None
            for kd in ('fall', 'ret', 'raise'):
                if kd in out:
                    g, s = out[kd]
                    if res is None:
                        res, gr = s, g
                    else:
                        res = merge(g, s, res)
            if res is None:
                res = st.copy()
            if 'raise' in out and not func.is_gen:
                self.raised(out['raise'][0])
                keep = [k for k in ('fall', 'ret') if k in out]
                val = NONE
                if keep:
                    val = out[keep[-1]][1].vars.get('$ret', NONE)
                    if len(keep) == 2:
                        val = mk_ite(out['ret'][0], val, NONE)
            else:
                val = res.vars.get('$yield') if func.is_gen else res.vars.get('$ret', NONE)
            st.heap = res.heap
            st.vars = caller_vars
            return val if val is not None else NONE
        finally:
            st.vars = caller_vars
            self.stack.pop()

    # ---- names -----------------------------------------------------------
    def cur_func(self):
        return self.stack[-1][0] if self.stack else None

    def module(self):
        return self.stack[-1][0].module

    def name(self, n, st):
        if n in st.vars:
            v = st.vars[n]
            if v is UNDEF:
                return raw('unknown', 'undefined name ' + n)
            return v
        base = self.stack[-1][1] if self.stack else None
        while base is not None:
            vars_, up = base
            if n in vars_:
                return vars_[n]
            base = up
        m = self.module()
        r = self.repo.lookup(m, n)
        if r is not None:
            return self.wrap(r)
        if n == '__file__':
            nm = m.name
            if m.spec:
                for k in self.repo.modules:
                    if k.replace('.', '_') == nm[5:]:
                        nm = k
            return raw('file', nm)
        if n == '__name__':
            return C(m.name)
        if n in BUILTINS:
            return raw('g', 'builtins.' + n)
        return raw('unknown', 'name ' + n)

    def wrap(self, r):
        if isinstance(r, (Func, Class)) and r.module.spec:
            t = self.repo.target_of(r)
            if t is not None:
                r = t
        if isinstance(r, Func):
            return self.fn(r)
        if isinstance(r, Class):
            return raw('class', r.qual)
        if isinstance(r, Module):
            return raw('pymod', r.name)
        if isinstance(r, tuple) and r[0] == 'var':
            return self.modvar(r[1], r[2])
        if isinstance(r, str):
            return NONE if r == 'numpy.newaxis' else raw('g', canon_path(r))
        return raw('unknown', 'name')

    def modvar(self, m, n):
        if m.name not in self.modenv:
            self.modenv[m.name] = {}
            st = St()
            dummy = Func(ast.parse('def _m(): pass').body[0], m)
            self.stack.append((dummy, None))
            try:
                for s in m.tree.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.AsyncFunctionDef)):
                        continue
                    try:
                        out = self.stmt(s, st)
                        if 'fall' in out:
                            st = out['fall'][1]
                    except Unsupported:
                        pass
            finally:
                self.stack.pop()
            self.modenv[m.name] = {k: self.deep_rv(v, st) for k, v in st.vars.items()}
        v = self.modenv[m.name].get(n)
        return v if v is not None else raw('modvar', m.name + '.' + n)

    def getclass(self, qual):
        return self.repo.get(qual)

    # ---- statements ------------------------------------------------------
    def block(self, stmts, st):
        out = {}
        g = TRUE
        for s in stmts:
            o = self.stmt(s, st)
            fall = None
            for kd, (g2, s2) in o.items():
                if kd == 'fall':
                    fall = (g2, s2)
                else:
                    add_out(out, kd, mk_and(g, g2), s2)
            if fall is None or fall[0] is FALSE:
                return out
            g, st = mk_and(g, fall[0]), fall[1]
        add_out(out, 'fall', g, st)
        return out

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 20000:
            raise TooBig()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        saved, depth = self.pending, self.stmt_depth
        self.pending, self.stmt_depth = [], len(self.scope)
        try:
            r = m(s, st)
            mine = self.pending
        finally:
            self.pending, self.stmt_depth = saved, depth
        if r is None:
            r = {'fall': (TRUE, st)}
        if mine:
            # a callee may have raised while the statement was evaluated
            g = FALSE
            for x in mine:
                g = mk_or(g, x)
            ng = mk_not(g)
            out = {}
            rs = st.copy()
            rs.vars['$ret'] = NONE
            add_out(out, 'raise', g, rs)
            for kd, (g2, s2) in r.items():
                add_out(out, kd, mk_and(ng, g2), s2)
            r = out
        return r

    def raised(self, g):
        if g is not FALSE and len(self.scope) == self.stmt_depth:
            self.pending.append(g)

    def guarded(self, c, f):
        """evaluate f() knowing it only happens under c"""
        saved, self.pending = self.pending, []
        try:
            return f()
        finally:
            self.pending = saved + [mk_and(c, x) for x in self.pending]

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            self.ev_call(v, st, stmt=True)
            return
        self.ev(v, st)

    def s_Global(self, s, st):
        raise Unsupported('global')

    def s_Nonlocal(self, s, st):
        raise Unsupported('nonlocal')

    def s_Assert(self, s, st):
        # assertions restate what already holds; not part of the result
        return

    def s_Import(self, s, st):
        d = {}
        self.module().bind_import(s, d)
        for n, e_ in d.items():
            r = self.repo.modules.get(e_[1], e_[1])
            st.vars[n] = self.wrap(r)

    def s_ImportFrom(self, s, st):
        d = {}
        self.module().bind_import(s, d)
        for n, e_ in d.items():
            _, mn, nm = e_
            if mn in self.repo.modules:
                r = self.repo.lookup(self.repo.modules[mn], nm)
                if r is None:
                    r = self.repo.modules.get(mn + '.' + nm)
                st.vars[n] = self.wrap(r) if r is not None else raw('unknown', 'import ' + nm)
            else:
                st.vars[n] = self.wrap('%s.%s' % (mn, nm))

    def s_FunctionDef(self, s, st):
        f = Func(s, self.module(), None, 'function')
        f.cls = None
        f.closure = (st.vars, self.stack[-1][1])
        f.home_cls = getattr(self.cur_func(), 'cls', None) or getattr(self.cur_func(), 'home_cls', None)
        st.vars[s.name] = self.fn(f)
        # later re-bindings in this state are seen through the captured dict copy
        f.closure_name = s.name

    def s_ClassDef(self, s, st):
        raise Unsupported('local class')

    def s_Return(self, s, st):
        if s.value is None:
            st.vars['$ret'] = NONE
        else:
            v = self.several(s.value, st) if len(self.stack) > 1 else self.ev(s.value, st)
            if len(self.stack) > 1 and v.op == 'ref' or (isinstance(s.value, ast.Call) and self._copycall(s.value)):
                st.vars['$ret'] = self.maybe_alloc(s.value, v, st)
            else:
                st.vars['$ret'] = self.rv(v, st)
        return {'ret': (TRUE, st)}

    def s_Raise(self, s, st):
        d = raw('exc', self._excname(s.exc, st) if s.exc is not None else 're')
        cur = st.heap.get('$raise', NONE)
        st.heap['$raise'] = mk_ite(mk_is(cur, NONE), d, cur)
        return {'raise': (TRUE, st)}

    def _excname(self, x, st):
        if isinstance(x, (ast.Call, ast.Name)):
            try:
                v = self.ev(x, st.copy())
            except (Unsupported, TooBig):
                v = NONE
            nm = str(v.a[0]) if v.op in ('f', 'g', 'new', 'class') and v.a else ''
            if nm.startswith('builtins.') or v.op in ('new', 'class'):
                return nm.replace(':', '.').split('.')[-1]
        if isinstance(x, ast.Call):
            x = x.func
        if isinstance(x, ast.Name):
            return x.id
        return ast.unparse(x)

    def s_Break(self, s, st):
        return {'brk': (TRUE, st)}

    def s_Continue(self, s, st):
        return {'cont': (TRUE, st)}

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                cur = self.rv(o, st)
                k = self.index(t.slice, st)
                if kind(cur) == 'dict' or not (num(k) or k.op == 'slc' or cur.op == 'attr' and cur.a[1] in LISTS):
                    new = mk_without(cur, k)
                else:
                    new = tm.mk_delitem(cur, k)
                self.mutate(t.value, o, new, st)
            elif isinstance(t, ast.Attribute):
                raise Unsupported('del attribute')

    def s_If(self, s, st):
        c = cond(self.rv(self.ev(s.test, st), st))
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        st2 = st.copy()
        self.narrow(s.body, c, st)
        self.narrow(s.orelse, mk_not(c), st2)
        o1 = self.block(s.body, st)
        o2 = self.block(s.orelse, st2)
        return self.join_out(c, o1, o2)

    def narrow(self, body, c, st):
        """names through which body changes objects: only the alternatives that c leaves"""
        alts = [n for n, v in st.vars.items() if isinstance(v, T) and v.op == 'ite']
        if not alts:
            return
        ch = set()
        for x in (y for b in body for y in ast.walk(b)):
            if isinstance(x, ast.Name):
                ch.add(x.id)
        if not any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) for b in body for y in ast.walk(b)):
            return
        for n in alts:
            if n in ch:
                r = tm.restrict(st.vars[n], c)
                if r.op != 'ite':
                    st.vars[n] = r

    def join_out(self, c, o1, o2):
        out = {}
        for kd in set(o1) | set(o2):
            if kd in o1 and kd in o2:
                g1, s1 = o1[kd]
                g2, s2 = o2[kd]
                out[kd] = (mk_ite(c, g1, g2), merge(c, s1, s2))
            elif kd in o1:
                out[kd] = (mk_and(c, o1[kd][0]), o1[kd][1])
            else:
                out[kd] = (mk_and(mk_not(c), o2[kd][0]), o2[kd][1])
        return out

    def s_Assign(self, s, st):
        v = self.maybe_alloc(s.value, self.several(s.value, st), st)
        for t in s.targets:
            self.assign(t, v, st)

    def several(self, n, st):
        """a tuple that is taken apart again (by unpacking or by the caller): new containers in it are objects"""
        if not isinstance(n, ast.Tuple) or any(isinstance(x, ast.Starred) for x in n.elts):
            return self.ev(n, st)
        xs = [self.maybe_alloc(x, self.ev(x, st), st) for x in n.elts]
        return tm.mk_tup(*[x if x.op in ('fn', 'class', 'bm', 'ref') else self.deep_rv(x, st) for x in xs])

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.maybe_alloc(s.value, self.ev(s.value, st), st)
            self.assign(s.target, v, st)

    def maybe_alloc(self, node, v, st):
        if v.op in ('attr', 'at', 'v', 'arg', 'carg', 'ite', 'self', 'm', 'api', 'item', 'sel', 'f') \
                and isinstance(node, ast.Call) and self._copycall(node):
            return self.alloc(v, st)
        if v.op in ('ref', 'fn', 'class', 'pymod', 'g', 'bm', 'c', 'tup', 'self', 'arg', 'attr', 'at', 'v', 'ite'):
            return v
        if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return self.alloc(v, st)
        if isinstance(node, ast.Call) and (v.op in ('seq', 'comp', 'dict', 'dictof', 'uset', 'arr', 'new', 'sorted', 'scatter', 'round', 'mm')
                                           or self._copycall(node)):
            return self.alloc(v, st)
        if isinstance(node, ast.BinOp) and v.op in ('seq', 'comp', 'arr', 'rep'):
            return self.alloc(v, st)
        if isinstance(node, ast.Subscript) and v.op in ('slice',):
            return self.alloc(v, st)
        return v

    def _copycall(self, node):
        f = node.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        return n in ('copy', 'deepcopy', 'list', 'dict', 'set', 'zeros', 'ones', 'array', 'full', 'zeros_like',
                     'empty', 'repeat', 'concatenate', 'tolist', 'OrderedDict', 'Counter', 'around', 'reshape', 'deque')

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            # a bare copy() of a foreign object must become a new object
            st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.rv(v, st)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    lo, hi = i, i - n + 1
                    self.assign(x.value, mk_item(v, raw('slc', C(lo), C(hi) if hi else NONE, NONE)), st)
                elif stars and i > stars[0]:
                    self.assign(x, mk_at(v, C(i - n)), st)
                else:
                    self.assign(x, mk_at(v, C(i)), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.set_attr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            cur = self.rv(o, st)
            k = self.index(t.slice, st)
            self.mutate(t.value, o, self.setitem(cur, k, self.deep_rv(v, st), o, st), st)
        else:
            raise Unsupported('assignment target')

    def setitem(self, cur, k, v, o, st):
        cls = self.typeof.get(o)
        if kind(cur) == 'dict' or cur.op in ('dstore', 'dictof', 'dict', 'uset', 'dupd') or \
                (cur.op == 'attr' and cur.a[1] in ('map', '_children')):
            return mk_dstore(cur, k, v)
        if k.op in ('slc', 'tup') or (k.op == 'tup'):
            return raw('setitem', cur, k, v)
        if k.op in ('astuple', 'arr', 'comp', 'seq'):
            return mk_scatter(cur, unwrap_seq(k), v)
        if k.op == 'nz':
            return mk_scatter(cur, k, v)
        if k.op == 'at' and k.a[0].op == 'f' and k.a[0].a[0] == 'itertools.combinations':
            return mk_scatter(cur, k, v)        # a whole combination used as index list
        if k.op in ('eq', 'ne', 'lt', 'le', 'ewand', 'ewor'):
            return mk_scatter(cur, raw('nz', k), v)
        if kind(k) == 'str':
            return mk_dstore(cur, k, v)
        return mk_scatter(cur, raw('seq', e(k)), v)

    def mutate(self, node, o, new, st):
        """object o (result of expression node) now has value new"""
        if o.op == 'ref':
            st.heap[o.a[0]] = new
        elif o.op in ('self', 'arg', 'attr', 'at', 'v', 'carg', 'api', 'm', 'ctorself', 'modvar', 'item'):
            if isinstance(node, ast.Name) and o.op in ('v',) and False:
                st.vars[node.id] = new
            st.heap[('f', o)] = new
        elif isinstance(node, ast.Name):
            st.vars[node.id] = self.alloc(new, st)
        elif isinstance(node, ast.Attribute):
            self.set_attr(self.ev(node.value, st), node.attr, new, st)
        elif isinstance(node, ast.Subscript):
            # nested container: a[i][j] = v
            st.heap[('f', o)] = new
        else:
            st.heap[('f', o)] = new

    def set_attr(self, o, name, v, st):
        if o.op == 'ite':
            raise Unsupported('attribute store on alternatives')
        cls = self.typeof.get(o)
        if o.op == 'ref' and st.heap[o.a[0]].op == 'new':
            cls = self.getclass(st.heap[o.a[0]].a[0])
        if cls is not None and not (self.stack and self.stack[-1][0].module.spec):
            f = cls.find_setter(name)
            if f is not None and not any(ff is f for ff, _ in self.stack):
                self.typeof.setdefault(o, cls)
                self.call_func(f, [o, v], {}, st)
                return
        nm = self.canon(cls, name)
        if o.op in ('self', 'ctorself', 'ref', 'obj'):
            st.heap[('a', o, nm)] = v
        else:
            v = self.deep_rv(v, st)
            if self.makes_tuple(name):
                v = tm.mk_astuple(v)
            st.heap[('a', o, nm)] = v

    def subclassed(self, cls):
        return any(cls in c.mro()[1:] for c in self.repo.classes())

    def makes_tuple(self, name):
        """every class with a setter of that name keeps the value as a tuple"""
        fs = [c.setters[name] for c in self.repo.classes() if name in c.setters]
        return bool(fs) and all(tuple_setter(f.node) for f in fs)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            o = self.name(t.id, st)
            r = self.ev(s.value, st)
            new = self.binop(s.op, self.rv(o, st), self.rv(r, st), st)
            if o.op == 'ref' and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.BitOr, ast.BitAnd)):
                st.heap[o.a[0]] = new
            elif o.op == 'self' and isinstance(s.op, ast.BitOr):
                st.heap[('f', o)] = raw('ior', o, self.mat(r, st))
            else:
                st.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.rv(self.get_attr(o, t.attr, st), st)
            new = self.binop(s.op, cur, self.rv(self.ev(s.value, st), st), st)
            self.set_attr(o, t.attr, new, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            cur = self.rv(o, st)
            k = self.index(t.slice, st)
            old = self.subscript(cur, k, st)
            new = self.binop(s.op, old, self.rv(self.ev(s.value, st), st), st)
            self.mutate(t.value, o, self.setitem(cur, k, new, o, st), st)

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        o1 = self.block(s.body + s.orelse, st)
        if not s.handlers:
            out = o1
        else:
            # which evaluation may fail: described by what the body computes
            key = self.body_key(s.body, pre)
            out = o1
            ok = key
            for h in reversed(s.handlers):
                sth = pre.copy()
                if h.name:
                    sth.vars[h.name] = raw('excval')
                oh = self.block(h.body, sth)
                out = self.join_out(ok, out, oh)
        if s.finalbody:
            res = {}
            for kd, (g, s2) in out.items():
                of = self.block(s.finalbody, s2)
                for k2, (g2, s3) in of.items():
                    add_out(res, kd if k2 == 'fall' else k2, mk_and(g, g2), s3)
            out = res
        return out

    def body_key(self, body, st):
        """condition under which the body completes"""
        if len(body) == 1 and isinstance(body[0], (ast.Assign, ast.Return, ast.Expr)) and body[0].value is not None:
            v = body[0].value
            t = self.rv(self.ev(v, st.copy()), st)
            if t.op == 'at':
                return cond(mk_in(t.a[1], t.a[0]))
            return raw('ite', raw('noexc', t), TRUE, FALSE)
        return raw('ite', raw('noexc', C(ast.unparse(ast.Module(body, [])))), TRUE, FALSE)

    # ---- loops -----------------------------------------------------------
    def assigned(self, stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef,)):
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        out.add((a.asname or a.name).split('.')[0])
                elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                    out.add('$yield')
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and isinstance(n.args[0], ast.Name):
                    out.add(n.args[0].id)
        return out

    def s_For(self, s, st):
        S = self.rv(self.ev(s.iter, st), st)
        return self.loop(s, S, st)

    def loop(self, s, S, st):
        if S.op == 'ite':
            x = S.a[0]
            st2 = st.copy()
            o1 = self.loop(s, S.a[1], st)
            o2 = self.loop(s, S.a[2], st2)
            return self.join_out(raw('ite', x, TRUE, FALSE), o1, o2)
        S = self.iter_src(S, st)
        if S.op == 'seq' and all(i.op == 'e' for i in S.a) and len(S.a) <= 3:
            return self.unroll(s, S, st)
        cl, g, x = self.clauses_of(S)
        return self.run_loop(cl, g, lambda st0: self.assign(s.target, x, st0), s.body, s.orelse, st,
                             target=s.target)

    def unroll(self, s, S, st):
        out = {}
        g = TRUE
        for it in S.a:
            self.assign(s.target, it.a[0], st)
            o = self.block(s.body, st)
            nxt = {}
            for kd, (g2, s2) in o.items():
                if kd in ('fall', 'cont'):
                    add_out(nxt, 'n', g2, s2)
                elif kd == 'brk':
                    add_out(out, 'fall', mk_and(g, g2), s2)
                else:
                    add_out(out, kd, mk_and(g, g2), s2)
            if 'n' not in nxt:
                return out
            g, st = mk_and(g, nxt['n'][0]), nxt['n'][1]
        oe = self.block(s.orelse, st)
        for kd, (g2, s2) in oe.items():
            add_out(out, kd, mk_and(g, g2), s2)
        return out

    def iter_src(self, S, st):
        S = unwrap_seq(S)
        if S.op in ('dictof', 'dict'):
            S = mk_keys(S)
        if S.op == 'without' or S.op == 'f' and S.a[0] in ('json.load', 'collections.Counter', 'collections.OrderedDict'):
            S = tm.mk_map(mk_items(S), lambda p: mk_at(p, C(0)))
        if S.op == 'new':
            cls = self.getclass(S.a[0])
            f = cls.find('__iter__') if cls else None
        if S.op in ('self', 'attr') and self.typeof.get(S) is not None:
            f = self.typeof[S].find('__iter__')
            if f is not None and len(self.stack) < 30:
                r = self.rv(self.call_func(f, [S], {}, st), st)
                return self.iter_src(r, st)
        if S.op == 'm' and S.a[0] == '__iter__':
            return self.iter_src(S.a[1], st)
        if self.bag and S.op == 'sorted':
            return self.iter_src(S.a[0], st)
        return S

    def clauses_of(self, S):
        if S.op == 'comp':
            cl, tr = open_comp(S)
            if all(leaf_emit(x)[0] in ('one', 'none') for x in leaves(tr)):
                g = map_tree(tr, lambda x: FALSE if leaf_emit(x)[0] == 'none' else TRUE)
                val = restrict(map_tree(tr, lambda x: raw('bot') if leaf_emit(x)[0] == 'none' else leaf_emit(x)[1]), g)
                return cl, g, val
        if S.op == 'f' and S.a[0] == 'itertools.zip_longest' and len(S.a) >= 3 and all(x.op != 'kw' for x in S.a[1:]):
            v = fresh()
            Ls = [mk_len(x) for x in S.a[1:]]
            L = mk_maxlen(Ls)
            x = raw('tup', *[mk_ite(mk_lt(v, Li), mk_at(X, v), NONE) if Li is not L else mk_at(X, v)
                             for X, Li in zip(S.a[1:], Ls)])
            return [(v, L)], TRUE, x
        v = fresh()
        return [(v, mk_len(S))], TRUE, mk_at(S, v)

    def getkey(self, st, k):
        if k[0] == 'var':
            return st.vars.get(k[1])
        return st.heap.get(k[1], default_heap(k[1]))

    def setkey(self, st, k, v):
        if k[0] == 'var':
            st.vars[k[1]] = v
        else:
            st.heap[k[1]] = v

    def run_loop(self, cl, g, bindtarget, body, orelse, st, target=None, while_cond=None):
        """generic loop over the clauses cl with guard g"""
        cvars = frozenset(v.a[0] for v, _ in cl)
        names = self.assigned(body)
        tnames = set()
        if target is not None:
            tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        carried = [('var', n) for n in sorted(names) if n in st.vars and n not in tnames and n != '$ret']
        pre = st
        for _round in range(12):
            syms = {}
            st0 = pre.copy()
            for k in carried:
                init = self.getkey(pre, k)
                if k[0] == 'var' and init is not None and init.op == 'ref':
                    # the variable is re-bound in the loop: its content is carried
                    pass
                v = fresh()
                syms[k] = v
                if init is not None:
                    kd = kind(self.rv(init, pre))
                    if kd is not None:
                        tm.VKIND[v.a[0]] = kd
                self.setkey(st0, k, v)
            ref_before = self.refid
            heap0 = dict(st0.heap)
            vars0 = dict(st0.vars)
            self.scope.append([v for v, _ in cl] + [raw('iter', *[v for v, _ in cl])] if cl else [fresh()])
            try:
                c_tree = TRUE
                if while_cond is not None:
                    c_tree = cond(self.rv(self.ev(while_cond, st0), st0))
                bindtarget(st0)
                o = self.block(body, st0)
            finally:
                self.scope.pop()
            exits = {kd: v for kd, v in o.items() if kd in ('brk', 'ret', 'raise')}
            nxt = {}
            for kd in ('fall', 'cont'):
                if kd in o:
                    add_out(nxt, 'n', *o[kd])
            new = set()
            bstores = {}
            for kd, (gg, s2) in list(o.items()):
                for hk, hv in s2.heap.items():
                    if isinstance(hk, int):
                        if hk > ref_before:
                            continue
                        if hv is not heap0.get(hk) and ('heap', hk) not in syms:
                            new.add(('heap', hk))
                    elif hk in ('$io', '$print', '$raise'):
                        old = heap0.get(hk, default_heap(hk))
                        if hv is not old and ('heap', hk) not in syms:
                            new.add(('heap', hk))
                    else:
                        old = heap0.get(hk)
                        if hv is old:
                            continue
                        objT = hk[1]
                        if objT.op == 'ref':
                            if objT.a[0] > ref_before:
                                continue
                        if objT.fv & cvars:
                            bstores[hk] = True
                            continue
                        if objT.op == 'v' and any(objT is sv for sv in syms.values()):
                            bstores[hk] = True
                            continue
                        if hv is default_heap(hk):
                            continue
                        if ('heap', hk) not in syms:
                            new.add(('heap', hk))
            if not new:
                break
            carried += sorted(new, key=str)
        else:
            raise Unsupported('loop state does not stabilise')
        # stores through the binder variables: element-wise effects
        guard_next, s_next = nxt.get('n', (FALSE, None))
        g_ret = exits.get('ret', (FALSE, None))[0]
        g_brk = exits.get('brk', (FALSE, None))[0]
        g_raise = exits.get('raise', (FALSE, None))[0]

        def val_in(s2, k):
            v = self.getkey(s2, k)
            if v is None:
                return syms[k]
            if v.op == 'ref' or v.op == 'ite':
                v = self.deep_rv_new(v, s2, ref_before)
            return self.deep_rv_new(v, s2, ref_before)

        U = {}
        for k in carried:
            u = val_in(s_next, k) if s_next is not None else syms[k]
            if cl or g is not TRUE:
                u = mk_ite(g, u, syms[k])
            U[k] = u
        inits = {k: self.init_val(pre, k) for k in carried}
        symset = {v.a[0]: k for k, v in syms.items()}
        out = {}
        if while_cond is not None:
            return self.finish_while(cl, syms, U, inits, c_tree, exits, pre, carried, val_in, orelse)
        G = mk_and(g, mk_or(g_ret, g_brk, g_raise))
        if bstores and (s_next is not None):
            ek = ('heap', '$io')
            # recorded as effects of the iteration
            it = []
            for hk in sorted(bstores, key=lambda q: (str(q[0]), q[1].dig, str(q[2:]))):
                hv = s_next.heap.get(hk)
                if hv is None:
                    continue
                hv = self.deep_rv_new(hv, s_next, ref_before)
                if isinstance(hk, tuple) and hk[0] == 'a':
                    it.append(raw('io', 'setattr', hk[1], C(hk[2]), hv))
                else:
                    it.append(raw('io', 'mutate', hk[1], hv))
            if ek not in syms:
                v = fresh()
                syms[ek] = v
                carried.append(ek)
                U[ek] = v
                inits[ek] = pre.heap.get('$io', EMPTY)
                symset[v.a[0]] = ek
            u = U[ek]
            for x in it:
                u = mk_concat(u, raw('seq', e(x))) if u.op != 'ite' else map_tree(u, lambda y: mk_concat(y, raw('seq', e(x))))
            U[ek] = mk_ite(g, u, syms[ek]) if g is not TRUE else u
        simple_exit = not (G.fv & frozenset(symset))
        anyx = None
        if G is not FALSE:
            if not simple_exit:
                return self.finish_fold_exit(cl, g, syms, U, inits, exits, pre, carried, val_in, symset, orelse)
            anyx = mk_any_g(cl, G)
        # normal completion
        full = {}
        for k in carried:
            full[k] = self.recognise(k, cl, syms, U, inits, symset)
        sf = pre.copy()
        for k in carried:
            self.setkey(sf, k, self.reval(pre, k, full[k], sf))
        # loop-local names keep their last value
        if s_next is not None:
            for n, v in s_next.vars.items():
                if n not in pre.vars or n in tnames:
                    if v.fv & (cvars | frozenset(symset)) or v.op == 'ref':
                        if v.op in ('fn',):
                            continue
                        sf.vars[n] = raw('lastval', C(n)) if v.op == 'ref' else self.lastval(cl, g, v, symset)
                    else:
                        sf.vars[n] = v
        if G is FALSE:
            oe = self.block(orelse, sf)
            return oe
        gf = mk_not(anyx)
        oe = self.block(orelse, sf)
        for kd, (g2, s2) in oe.items():
            add_out(out, kd, mk_and(gf, g2), s2)
        # exits
        for kd, okd in (('ret', 'ret'), ('raise', 'raise'), ('brk', 'fall')):
            if kd not in exits:
                continue
            gx, sx = exits[kd]
            gx = mk_and(g, gx)
            others = FALSE
            for k2 in exits:
                if k2 != kd:
                    others = mk_or(others, mk_and(g, exits[k2][0]))
            guard = mk_any_g(cl, gx) if others is FALSE else \
                cond(mk_first(cl, mk_or(gx, others), mk_ite(gx, TRUE, FALSE), anyx))
            if others is not FALSE:
                guard = mk_and(anyx, guard)
            sn = pre.copy()
            allg = mk_or(gx, others)
            keys = list(carried) + [('var', n) for n in sx.vars if ('var', n) not in syms]
            for k in keys:
                v = self.getkey(sx, k)
                if v is None:
                    continue
                if k in syms and v is syms[k] and U[k] is syms[k]:
                    continue
                if k not in syms and k[0] == 'var' and k[1] in vars0 and v is vars0[k[1]]:
                    continue
                if v.op in ('fn', 'class', 'pymod', 'g'):
                    self.setkey(sn, k, v)
                    continue
                v = self.deep_rv_new(v, sx, ref_before)
                if v.fv & frozenset(symset):
                    nv = self.fold_with_stop(k, cl, g, syms, U, inits, gx, v, symset)
                elif v.fv & cvars:
                    nv = mk_first(cl, allg, v, anyx)
                else:
                    nv = restrict(v, allg) if v.op == 'ite' else v
                self.setkey(sn, k, self.reval(pre, k, nv, sn) if k in syms else nv)
            add_out(out, okd, guard, sn)
        return out

    def lastval(self, cl, g, v, symset):
        if v.fv & frozenset(symset):
            return raw('unknown', 'loop variable after loop')
        return mk_at(mk_comp(cl, mk_ite(g, raw('seq', e(v)), EMPTY)), C(-1))

    def init_val(self, pre, k):
        v = self.getkey(pre, k)
        if v is None:
            return UNDEF
        return self.deep_rv(v, pre)

    def reval(self, pre, k, v, st):
        """store a loop result: variables that held refs get a fresh ref"""
        if k[0] == 'var':
            old = pre.vars.get(k[1])
            if old is not None and old.op == 'ref' and v.op not in ('c',):
                return self.alloc(v, st)
        return v

    def deep_rv_new(self, t, st, limit):
        return self.deep_rv(t, st)

    def fold_states(self, k, syms, U, inits, symset, extra=()):
        """closure of the loop-carried dependencies of k"""
        need = [k]
        i = 0
        todo = list(extra)
        for t in todo:
            for n in sorted(t.fv & frozenset(symset)):
                if symset[n] not in need:
                    need.append(symset[n])
        while i < len(need):
            for n in sorted(U[need[i]].fv & frozenset(symset)):
                kk = symset[n]
                if kk not in need:
                    need.append(kk)
            i += 1
        return need

    def recognise(self, k, cl, syms, U, inits, symset):
        c = syms[k]
        u = U[k]
        I = inits[k]
        if u is c:
            return I
        deps = u.fv & frozenset(symset)
        cn = c.a[0]
        if not deps:
            ne = mk_any_g(cl, TRUE)
            cv = frozenset(v.a[0] for v, _ in cl)
            if not (u.fv & cv):
                return mk_ite(ne, u, I)
            return mk_ite(ne, mk_at(mk_comp(cl, raw('seq', e(u))), C(-1)), I)
        if deps == frozenset((cn,)):
            r = recognise_acc(c, u, I, cl)
            if r is not None:
                return r
        need = self.fold_states(k, syms, U, inits, symset)
        return mk_fold(cl, [(syms[q], canon_init(inits[q]), U[q]) for q in need], FALSE, 0)

    def fold_with_stop(self, k, cl, g, syms, U, inits, gx, v, symset):
        U2 = dict(U)
        U2[k] = mk_ite(gx, v, U[k]) if k in U else mk_ite(gx, v, NONE)
        sy = dict(syms)
        ini = dict(inits)
        if k not in sy:
            sy[k] = fresh()
            ini[k] = NONE
            symset = dict(symset)
            symset[sy[k].a[0]] = k
            U2[k] = mk_ite(gx, v, sy[k])
        need = self.fold_states(k, sy, U2, ini, symset, (gx,))
        return mk_fold(cl, [(sy[q], canon_init(ini[q]), U2[q]) for q in need], gx, 0)

    def finish_fold_exit(self, cl, g, syms, U, inits, exits, pre, carried, val_in, symset, orelse):
        """exit condition depends on loop state: folds with a stop condition"""
        G = FALSE
        for kd in exits:
            G = mk_or(G, mk_and(g, exits[kd][0]))
        # exit kind as an additional state
        kk = ('var', '$exit')
        sy = dict(syms)
        sy[kk] = fresh()
        ini = dict(inits)
        ini[kk] = C('')
        U2 = {}
        kindv = sy[kk]
        for kd in exits:
            kindv = mk_ite(mk_and(g, exits[kd][0]), C(kd), kindv)
        U2[kk] = kindv
        keys = list(carried)
        retk = ('var', '$ret')
        if 'ret' in exits:
            sy[retk] = fresh()
            ini[retk] = NONE
            v = self.deep_rv(exits['ret'][1].vars.get('$ret', NONE), exits['ret'][1])
            U2[retk] = mk_ite(mk_and(g, exits['ret'][0]), v, sy[retk])
        for k in carried:
            u = U[k]
            for kd in exits:
                u = mk_ite(mk_and(g, exits[kd][0]), val_in(exits[kd][1], k), u)
            U2[k] = u
        ss = {v.a[0]: k for k, v in sy.items()}

        def result(k):
            if U2[k] is sy[k]:
                return ini[k]
            need = self.fold_states(k, sy, U2, ini, ss, (G,))
            return mk_fold(cl, [(sy[q], canon_init(ini[q]), U2[q]) for q in need], G, 0)
        s = pre.copy()
        for k in carried:
            self.setkey(s, k, self.reval(pre, k, result(k), s))
        out = {}
        ex = result(kk)
        if 'ret' in exits:
            sr = s.copy()
            sr.vars['$ret'] = result(retk)
            add_out(out, 'ret', cond(mk_eq(ex, C('ret'))), sr)
        if 'raise' in exits:
            add_out(out, 'raise', cond(mk_eq(ex, C('raise'))), s.copy())
        rest = mk_not(mk_or(mk_eq(ex, C('ret')) if 'ret' in exits else FALSE,
                            mk_eq(ex, C('raise')) if 'raise' in exits else FALSE))
        if orelse:
            b = cond(mk_eq(ex, C('brk'))) if 'brk' in exits else FALSE
            add_out(out, 'fall', mk_and(rest, b), s.copy())
            oe = self.block(orelse, s.copy())
            for kd, (g2, s2) in oe.items():
                add_out(out, kd, mk_and(rest, mk_not(b), g2), s2)
        else:
            add_out(out, 'fall', rest, s)
        return out

    def s_While(self, s, st):
        r = self.counter_while(s, st)
        if r is not None:
            return r
        return self.run_loop([], TRUE, lambda st0: None, s.body, s.orelse, st, while_cond=s.test)

    def counter_while(self, s, st):
        """i=a; while i<b: body; i+=1  ->  for i in range(a,b)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE))
                and isinstance(t.left, ast.Name)):
            return None
        n = t.left.id
        if n not in st.vars or not s.body:
            return None
        last = s.body[-1]
        ok = isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == n \
            and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1
        if not ok or n in self.assigned(s.body[:-1]):
            return None
        for x in s.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Continue):
                    return None
        bnames = {y.id for y in ast.walk(t.comparators[0]) if isinstance(y, ast.Name)}
        if bnames & self.assigned(s.body):
            return None
        a = self.rv(st.vars[n], st)
        b = self.rv(self.ev(t.comparators[0], st), st)
        if isinstance(t.ops[0], ast.LtE):
            b = mk_add(b, C(1))
        f = ast.For(target=ast.Name(n, ast.Store()), iter=ast.Constant(None), body=s.body[:-1] or [ast.Pass()],
                    orelse=s.orelse)
        return self.loop(f, mk_range(a, b), st)

    def finish_while(self, cl, syms, U, inits, c_tree, exits, pre, carried, val_in, orelse):
        G = c_tree
        for kd in exits:
            if kd != 'brk':
                raise Unsupported('return inside while')
            gx, sx = exits[kd]
            for k in carried:
                if val_in(sx, k) is not syms[k]:
                    # break after modification: run the modified body once more, then stop
                    raise Unsupported('break after update inside while')
            G = mk_and(G, mk_not(gx))
        symset = {v.a[0]: k for k, v in syms.items()}
        s = pre.copy()
        for k in carried:
            if U[k] is syms[k]:
                continue
            need = self.fold_states(k, syms, U, inits, symset, (G,))
            r = mk_while([(syms[q], canon_init(inits[q]), U[q]) for q in need], G, 0)
            r = until(r)
            self.setkey(s, k, self.reval(pre, k, r, s))
        return self.block(orelse, s)

    # ---- expressions -----------------------------------------------------
    def ev(self, n, st):
        self.steps += 1
        if self.steps > 60000:
            raise TooBig()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st)

    def val(self, n, st):
        return self.rv(self.ev(n, st), st)

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return raw('ellipsis')
        return C(n.value)

    def e_Name(self, n, st):
        return self.name(n.id, st)

    def e_Tuple(self, n, st):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return mk_astuple(self.e_List(n, st))
        xs = [self.ev(x, st) for x in n.elts]
        xs = [x if x.op in ('fn', 'class', 'bm', 'ref') else self.deep_rv(x, st) for x in xs]
        return tm.mk_tup(*xs)

    def e_List(self, n, st):
        items = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                items.append(raw('s', unwrap_seq(self.deep_rv(self.ev(x.value, st), st))))
            else:
                v = self.deep_rv(self.ev(x, st), st)
                items.append(raw('e', v))
        return mk_seq(items) if items else EMPTY

    def e_Set(self, n, st):
        return mk_uset(self.e_List(n, st))

    def e_Dict(self, n, st):
        out = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.val(v, st)
                if d.op != 'dict':
                    raise Unsupported('dict unpacking')
                out += list(d.a)
            else:
                out += [self.val(k, st), self.deep_rv(self.ev(v, st), st)]
        if any(x.op == 'ite' for x in out):
            return lift(out, lambda a: self.mkdict(list(a)))
        return self.mkdict(out)

    def mkdict(self, out):
        d = raw('dict')
        if all(is_c(x) for x in out[0::2]):
            prs = {}
            for i in range(0, len(out), 2):
                prs[out[i]] = out[i + 1]
            return raw('dict', *[y for k, v in prs.items() for y in (k, v)])
        return raw('dict', *out)

    def e_JoinedStr(self, n, st):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                v = self.val(x.value, st)
                spec = ''
                if x.format_spec is not None:
                    sp = self.val(x.format_spec, st)
                    if not is_c(sp):
                        raise Unsupported('dynamic format spec')
                    spec = sp.a[0]
                if x.conversion not in (-1, 115):
                    v = raw('f', 'builtins.repr', v)
                parts.append(raw('fmt', v, spec))
        return mk_str(parts) if parts else C('')

    def e_FormattedValue(self, n, st):
        return mk_str([raw('fmt', self.val(n.value, st), '')])

    def e_Starred(self, n, st):
        raise Unsupported('star')

    def e_Lambda(self, n, st):
        f = Func(n, self.module(), None, 'lambda')
        f.closure = (dict(st.vars), self.stack[-1][1])
        return self.fn(f)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_IfExp(self, n, st):
        c = cond(self.val(n.test, st))
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        s2 = st.copy()
        a = self.guarded(c, lambda: self.ev(n.body, st))
        b = self.guarded(mk_not(c), lambda: self.ev(n.orelse, s2))
        m = merge(c, st.copy(), s2)
        st.heap = m.heap
        if a.op == 'ref':
            a = self.rv(a, st) if st.heap.get(a.a[0]).op != 'new' else a
        if b.op == 'ref':
            b = self.rv(b, st) if st.heap.get(b.a[0]).op != 'new' else b
        return mk_ite(c, a, b)

    def e_BoolOp(self, n, st):
        vals = [self.val(x, st) for x in n.values]
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = cond(v)
            if isinstance(n.op, ast.And):
                r = mk_ite(c, r, FALSE if is_bool(v) else v)
            else:
                r = mk_ite(c, TRUE if is_bool(v) else v, r)
        return r

    def e_UnaryOp(self, n, st):
        v = self.val(n.operand, st)
        if isinstance(n.op, ast.Not):
            return mk_not(v)
        if isinstance(n.op, ast.USub):
            if num(v):
                return C(-v.a[0])
            return mk_neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return ew_not(v)
        raise Unsupported('unary')

    def e_BinOp(self, n, st):
        return self.binop(n.op, self.val(n.left, st), self.val(n.right, st), st)

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            return mk_add(a, b)
        if isinstance(op, ast.Sub):
            return mk_sub(a, b)
        if isinstance(op, ast.Mult):
            return mk_mul(a, b)
        if isinstance(op, ast.Div):
            return mk_div(a, b)
        if isinstance(op, ast.FloorDiv):
            return mk_fdiv(a, b)
        if isinstance(op, ast.Mod):
            if kind(a) == 'str':
                return self.percent(a, b)
            return mk_mod(a, b)
        if isinstance(op, ast.Pow):
            return mk_pow(a, b)
        if isinstance(op, ast.MatMult):
            return mk_mm(strip_arr(a), strip_arr(b))
        if isinstance(op, ast.BitAnd):
            return ew_and(a, b)
        if isinstance(op, ast.BitOr):
            if kind(a) == 'dict' or kind(b) == 'dict':
                return raw('union', a, b)
            return ew_or(a, b)
        if isinstance(op, ast.BitXor):
            return raw('xor', *sorted([a, b], key=lambda t: t.dig))
        return raw('binop', type(op).__name__, a, b)

    def percent(self, a, b):
        if not is_c(a):
            return raw('percent', a, b)
        fmt = a.a[0]
        import re
        toks = re.split(r'(%[-+ #0]*\d*(?:\.\d+)?[sdifgreEGx%])', fmt)
        args = list(b.a) if b.op == 'tup' else [b]
        parts = []
        i = 0
        for t in toks:
            if t.startswith('%') and len(t) > 1:
                if t == '%%':
                    parts.append(C('%'))
                    continue
                if i >= len(args):
                    return raw('percent', a, b)
                spec = t[1:]
                if spec in ('s', 'd', 'i'):
                    spec = ''
                elif spec.endswith('s') or spec.endswith('r'):
                    spec = 'pct' + spec
                elif spec.endswith('i'):
                    spec = spec[:-1] + 'd'
                parts.append(raw('fmt', args[i], spec))
                i += 1
            elif t:
                parts.append(C(t))
        return mk_str(parts)

    def e_Compare(self, n, st):
        left = self.val(n.left, st)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.val(r, st)
            res.append(self.compare(op, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        return mk_and(*res)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return mk_eq(a, b)
        if isinstance(op, ast.NotEq):
            return mk_ne(a, b)
        if isinstance(op, ast.Lt):
            return mk_lt(a, b)
        if isinstance(op, ast.Gt):
            return mk_lt(b, a)
        if isinstance(op, ast.LtE):
            return mk_le(a, b)
        if isinstance(op, ast.GtE):
            return mk_le(b, a)
        if isinstance(op, ast.Is):
            return mk_is(a, b)
        if isinstance(op, ast.IsNot):
            return mk_not(mk_is(a, b))
        if isinstance(op, ast.In):
            return mk_in(a, b)
        if isinstance(op, ast.NotIn):
            return mk_not(mk_in(a, b))

    def index(self, n, st):
        if isinstance(n, ast.Slice):
            return raw('slc', *[self.val(x, st) if x is not None else NONE for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.elts):
            return raw('tup', *[self.index(x, st) for x in n.elts])
        return self.deep_rv(self.ev(n, st), st)

    def e_Slice(self, n, st):
        return self.index(n, st)

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        k = self.index(n.slice, st)
        return self.subscript(self.rv(o, st), k, st, o)

    def subscript(self, X, k, st, o=None):
        cls = self.typeof.get(o if o is not None else X)
        if cls is not None and cls.find('__getitem__') is not None and (o if o is not None else X).op in ('self',):
            f = cls.find('__getitem__')
            if not any(ff is f for ff, _ in self.stack):
                return self.rv(self.call_func(f, [o if o is not None else X, k], {}, st), st)
        if X.op == 'f' and X.a[0] in ('numpy.where', 'numpy.nonzero') and len(X.a) == 2:
            if num(k) and k.a[0] == 0:
                return mk_nz(X.a[1])
        if X.op == 'm' and X.a[0] == 'nonzero' and len(X.a) == 2 and num(k) and k.a[0] == 0:
            return mk_nz(X.a[1])
        if X.op == 'attrshape' and num(k) and k.a[0] == 0:
            return mk_len(X.a[0])
        if X.op == 'rev' and num(k) and k.a[0] == -1 and False:
            return X
        return mk_item(X, k)

    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.get_attr(o, n.attr, st)

    def class_of(self, o, st):
        if o in self.typeof:
            return self.typeof[o]
        if o.op == 'ref':
            c = st.heap.get(o.a[0])
            if c is not None and c.op == 'new':
                return self.getclass(c.a[0])
        if o.op == 'new':
            return self.getclass(o.a[0])
        return None

    def get_attr(self, o, name, st):
        if o.op == 'ite':
            return map_tree(o, lambda x: self.get_attr(x, name, st))
        if o.op == 'pymod':
            m = self.repo.modules[o.a[0]]
            r = self.repo.lookup(m, name)
            if r is None:
                r = self.repo.modules.get(m.name + '.' + name)
            return self.wrap(r) if r is not None else raw('unknown', 'module attribute %s' % name)
        if o.op == 'g':
            return NONE if o.a[0] + '.' + name == 'numpy.newaxis' else raw('g', canon_path(o.a[0] + '.' + name))
        if o.op == 'class':
            cls = self.getclass(o.a[0])
            f = cls.find(name)
            if f is not None:
                if f.kind == 'classmethod':
                    return raw('bm', o, self.fn(f))
                return self.fn(f)
            a = cls.find_attr(name)
            if a is not None:
                return self.class_attr(a)
            if name in ('__name__', '__qualname__'):
                return C(cls.name)
            return raw('attr', o, name)
        cls = self.class_of(o, st)
        if name == '__class__':
            if cls is not None and not (o.op in ('self', 'arg') and self.subclassed(cls)):
                return raw('class', cls.qual)
            return raw('typeof', o)
        if cls is not None:
            nm = self.canon(cls, name)
            if ('a', o, nm) in st.heap:
                return st.heap[('a', o, nm)]
            if nm != name or (name in self.triv.get(cls.qual, {}).values()):
                nm = self.canon(cls, name)
                if o.op == 'self':
                    v = self.ctor_attr(cls, nm)
                    if v is not None:
                        return v
                if o.op in ('new',) or o.op == 'ref':
                    return self.obj_attr(o, cls, nm, st)
                if nm == 'spg_cell' and o.op == 'self':
                    parts = [(n, self.ctor_attr(cls, self.canon(cls, n))) for n in ('lattice', 'positions', 'numbers')]
                    return raw('tup', *[mk_attr(o, n) if v is None else v for n, v in parts])
                return mk_attr(o, nm)
            f = cls.find(name)
            if f is not None:
                opaque = self.is_opaque(f)
                if f.kind == 'property':
                    if opaque and o.op != 'self' and not (name == 'id' and not self._busy(f)):
                        return mk_attr(self.rv(o, st), nm)
                    return self.call_func(f, [o], {}, st)
                if f.kind == 'staticmethod':
                    return self.fn(f)
                if f.kind == 'classmethod':
                    return raw('bm', raw('class', cls.qual), self.fn(f))
                self.typeof.setdefault(o, cls)
                return raw('bm', o, self.fn(f))
            a = cls.find_attr(name)
            if a is not None:
                return self.class_attr(a)
            if o.op == 'self':
                v = self.ctor_attr(cls, nm)
                if v is not None:
                    return v
                return mk_attr(o, nm)
            if o.op in ('new', 'ref'):
                return self.obj_attr(o, cls, nm, st)
            return mk_attr(o, nm)
        nm = self.canon(None, name)
        if ('a', o, nm) in st.heap:
            return st.heap[('a', o, nm)]
        v = self.rv(o, st)
        if v.op == 'ite':
            return map_tree(v, lambda x: self.get_attr(x, name, st) if x is not o and ('f', x) not in st.heap
                            else mk_attr(x, nm))
        if name == 'T':
            return mk_T(v)
        if name == 'size':
            return mk_size(v)
        if name == 'shape':
            return raw('attrshape', v)
        if name == 'flat':
            return raw('flat', v)
        if name == 'real' and False:
            return v
        # a property that did not exist in the analysed interface: inline it
        fs = self._methods.get(name, [])
        if len(fs) == 1 and fs[0].kind == 'property' and (name not in API_METHODS):
            self.typeof.setdefault(o, fs[0].cls)
            return self.call_func(fs[0], [o], {}, st)
        if self.deep and len(fs) == 1 and fs[0].kind == 'property':
            return self.call_func(fs[0], [o], {}, st)
        if len(fs) == 1 and fs[0].kind == 'property' and name in ('id',):
            return self.call_func(fs[0], [o], {}, st) if not self._busy(fs[0]) else mk_attr(v, nm)
        return mk_attr(v, nm)

    def _busy(self, f):
        return any(ff is f for ff, _ in self.stack)

    def class_attr(self, a):
        c, node = a
        tmp = St()
        dummy = Func(ast.parse('def _m(): pass').body[0], c.module)
        self.stack.append((dummy, None))
        try:
            return self.val(node, tmp)
        finally:
            self.stack.pop()

    def obj_attr(self, o, cls, nm, st):
        """attribute of an object created here: through its constructor"""
        t = st.heap.get(o.a[0]) if o.op == 'ref' else o
        if t.op != 'new':
            return mk_attr(t, nm)
        if cls.qual in API_CLASSES and not (self.anchor_cls is not None and cls.qual == self.anchor_cls.qual and False):
            if cls.qual not in INLINE_CTOR:
                return mk_attr(t, nm)
        init = cls.find('__init__')
        if init is None or self._busy(init):
            return mk_attr(t, nm)
        tmp = St({}, dict(st.heap))
        so = raw('obj', t)
        self.typeof[so] = cls
        self.call_func(init, [so] + list(t.a[1:]), {}, tmp)
        v = tmp.heap.get(('a', so, nm))
        if v is None:
            return mk_attr(t, nm)
        return self.deep_rv(v, tmp)

    def ctor_same(self, t, nm, v, st):
        """the attribute set on an object created here already has this value from its constructor"""
        cls = self.getclass(t.a[0])
        init = cls.find('__init__') if cls is not None else None
        if init is None or self._busy(init):
            return False
        tmp = St({}, {k: x for k, x in st.heap.items() if not (isinstance(k, tuple) and k[0] == 'a')})
        so = raw('obj', t)
        self.typeof[so] = cls
        try:
            self.call_func(init, [so] + list(t.a[1:]), {}, tmp)
            w = tmp.heap.get(('a', so, nm))
            return w is not None and self.deep_rv(w, tmp) is v
        except (Unsupported, TooBig):
            return False

    # ---- comprehensions --------------------------------------------------
    def e_ListComp(self, n, st):
        return self.comp(n.generators, n.elt, st)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        return mk_uset(self.comp(n.generators, n.elt, st))

    def e_DictComp(self, n, st):
        return mk_dictof(self.comp(n.generators, ast.Tuple([n.key, n.value], ast.Load()), st))

    def comp(self, gens, elt, st):
        saved = st.vars
        st.vars = dict(saved)
        try:
            return self._comp(gens, 0, elt, st)
        finally:
            new = st.vars
            st.vars = saved
            # walrus targets
            for k in new:
                pass

    def _comp(self, gens, i, elt, st):
        if i == len(gens):
            v = self.deep_rv(self.ev(elt, st), st)
            return mk_seq([raw('e', v)])
        gen = gens[i]
        S = self.rv(self.ev(gen.iter, st), st)
        return self._comp_over(S, gens, i, elt, st)

    def _comp_over(self, S, gens, i, elt, st):
        gen = gens[i]
        if S.op == 'ite':
            v = dict(st.vars)
            a = self._comp_over(S.a[1], gens, i, elt, st)
            st.vars = dict(v)
            b = self._comp_over(S.a[2], gens, i, elt, st)
            return mk_ite(raw('ite', S.a[0], TRUE, FALSE), a, b)
        S = self.iter_src(S, st)
        if S.op == 'seq' and all(x.op == 'e' for x in S.a) and len(S.a) <= 3:
            r = EMPTY
            for x in S.a:
                self.assign(gen.target, x.a[0], st)
                r = mk_concat(r, self._cond_comp(gens, i, elt, st))
            return r
        cl, g, x = self.clauses_of(S)
        self.scope.append([v for v, _ in cl])
        try:
            self.assign(gen.target, x, st)
            t = self._cond_comp(gens, i, elt, st)
        finally:
            self.scope.pop()
        return mk_comp(cl, mk_ite(g, t, EMPTY))

    def _cond_comp(self, gens, i, elt, st):
        c = TRUE
        for f in gens[i].ifs:
            c = mk_and(c, self.val(f, st))
        return mk_ite(c, self._comp(gens, i + 1, elt, st), EMPTY)

    def e_Yield(self, n, st):
        v = self.deep_rv(self.ev(n.value, st), st) if n.value is not None else NONE
        st.vars['$yield'] = mk_concat(st.vars['$yield'], mk_seq([raw('e', v)]))
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.deep_rv(self.ev(n.value, st), st)
        st.vars['$yield'] = mk_concat(st.vars['$yield'], unwrap_seq(v))
        return NONE

    def e_Await(self, n, st):
        raise Unsupported('await')

    # ---- calls -----------------------------------------------------------
    def e_Call(self, n, st):
        return self.ev_call(n, st)

    def args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.deep_rv(self.ev(a.value, st), st)
                v = unwrap_seq(v)
                if v.op == 'seq' and all(x.op == 'e' for x in v.a):
                    args.extend(x.a[0] for x in v.a)
                elif v.op == 'f' and v.a[0] in TRIPLES or v.op == 'attr' and v.a[1] in ('spg_cell', 'unit_cell'):
                    args.extend(mk_at(v, C(i)) for i in range(3))
                else:
                    args.append(raw('star', v))
            else:
                args.append(self.argval(a, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.deep_rv(self.ev(k.value, st), st)
                if v.op == 'dict' and all(kind(x) == 'str' and is_c(x) for x in v.a[0::2]):
                    for i in range(0, len(v.a), 2):
                        kw[v.a[i].a[0]] = v.a[i + 1]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = self.argval(k.value, st)
        return args, kw

    def argval(self, n, st):
        v = self.ev(n, st)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy') \
                and v.op in ('attr', 'at', 'v', 'arg', 'carg', 'self', 'm', 'api', 'item'):
            return self.alloc(v, st)
        return v

    def ev_call(self, n, st, stmt=False):
        f = n.func
        if isinstance(f, ast.Attribute):
            # super().__init__(...) etc.
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                args, kw = self.args(n, st)
                cur = self.cur_func()
                if cur.cls is not None:
                    for b in cur.cls.bases:
                        if isinstance(b, Class):
                            m = b.find(f.attr)
                            if m is not None:
                                selfn = cur.node.args.args[0].arg
                                return self.call_func(m, [st.vars[selfn]] + args, kw, st)
                return NONE
            o = self.ev(f.value, st)
            return self.method(n, f.value, o, f.attr, st, stmt)
        fv = self.ev(f, st)
        args, kw = self.args(n, st)
        if isinstance(f, ast.Name) and fv.op == 'g' and fv.a[0] == 'builtins.next' and n.args and isinstance(n.args[0], ast.Name) \
                and n.args[0].id in st.vars:
            # one element is taken out of the iterator the variable holds
            it = self.iter_src(self.deep_rv(args[0], st), st)
            r = self.call_value(fv, args, kw, st, stmt)
            st.vars[n.args[0].id] = mk_item(it, raw('slc', C(1), NONE, NONE))
            return r
        return self.call_value(self.rv(fv, st), args, kw, st, stmt)

    def call_value(self, f, args, kw, st, stmt=False):
        if f.op == 'ite':
            base = st.copy()
            s2 = st.copy()
            a = self.call_value(f.a[1], args, kw, st, stmt)
            b = self.call_value(f.a[2], args, kw, s2, stmt)
            c = raw('ite', f.a[0], TRUE, FALSE)
            m = merge(c, st.copy(), s2)
            st.heap = m.heap
            a = self.rv(a, st)
            b = self.rv(b, st)
            return mk_ite(c, a, b)
        if f.op == 'fn':
            func = self.fns[f.a[0]]
            if self.is_opaque(func):
                return self.opaque_call(func, None, args, kw, st, stmt)
            return self.call_func(func, args, kw, st)
        if f.op == 'bm':
            func = self.fns[f.a[1].a[0]]
            if self.is_opaque(func) and f.a[0].op != 'self':
                return self.opaque_call(func, f.a[0], args, kw, st, stmt)
            return self.call_func(func, [f.a[0]] + list(args), kw, st)
        if f.op == 'class':
            return self.construct(f, args, kw, st)
        if f.op == 'lam':
            if len(args) == f.a[1] and not kw:
                return app_lam(f, [self.deep_rv(x, st) for x in args])
        if f.op == 'itemgetter':
            x = self.deep_rv(args[0], st)
            if len(f.a) == 1:
                return mk_at(x, f.a[0])
            return raw('tup', *[mk_at(x, k) for k in f.a])
        if f.op == 'attrgetter':
            return self.get_attr(args[0], f.a[0], st)
        if f.op == 'vectorize':
            return self.vec_apply(f, self.deep_rv(args[0], st), st)
        if f.op == 'g':
            return self.ext(f.a[0], args, kw, st, stmt)
        if f.op == 'partial':
            return self.call_value(f.a[0], list(f.a[1:]) + list(args), kw, st, stmt)
        if f.op == 'f' and f.a[0] == 'progressbar.ProgressBar' and len(args) == 1:
            return self.rv(args[0], st)
        ff = self.rv(f, st)
        t = self.gen('call', [ff] + [self.mat(x, st) for x in args], {k: self.mat(v, st) for k, v in kw.items()})
        if stmt:
            self.effect(st, 'call', t)
        return t

    def gen(self, op, args, kw):
        if tm.BOX[0]:
            args = [tm.mk_box(x) if isinstance(x, T) else x for x in args]
            kw = {k: tm.mk_box(v) for k, v in kw.items()}
        items = list(args) + [raw('kw', k, kw[k]) for k in sorted(kw)]
        if any(isinstance(x, T) and x.op == 'ite' for x in items):
            return lift(items, lambda a: tm.apply_const(op, a))
        if any(isinstance(x, T) and x.op == 'kw' and x.a[1].op == 'ite' for x in items):
            na = len(args)
            ks = sorted(kw)
            return lift(list(args) + [kw[k] for k in ks],
                        lambda a: raw(op, *(list(a[:na]) + [raw('kw', k, v) for k, v in zip(ks, a[na:])])))
        return tm.apply_const(op, items)

    def effect(self, st, *what):
        cur = st.heap.get('$io', EMPTY)
        it = raw('io', *what)
        if any(isinstance(x, T) and x.op == 'ite' for x in what):
            it = lift(list(what), lambda a: raw('io', *a))
        st.heap['$io'] = mk_concat(cur, mk_seq([raw('e', it)]))

    def eager(self, cls):
        return self.apps and cls.module.name.startswith('ababe.cmdline')

    def is_opaque(self, func):
        """interface functions of other classes stay symbols: they have their own obligations"""
        if self.apps and func.module.name.startswith('ababe.cmdline'):
            return False
        if isinstance(func.node, ast.Lambda) or func.closure is not None:
            return False
        if self.deep:
            return False
        q = func.qual
        if q not in API_QUALS:
            return False
        if func.cls is not None and self.anchor_cls is not None:
            if func.cls is self.anchor_cls or func.cls in self.anchor_cls.mro() or self.anchor_cls in func.cls.mro():
                return False
            # called from within an inlined method of the same class
            return True
        if func.cls is None and self.anchor_mod is not None and func.module is self.anchor_mod:
            return False
        if func.cls is None:
            return q not in INLINE_FUNCS
        return True

    def norm_args(self, func, args, kw, st, skip_self):
        """arguments by position, defaults dropped"""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and names:
            names = names[1:]
        vals = [self.mat(x, st) for x in args]
        kwv = {k: self.mat(v, st) for k, v in kw.items()}
        if any(x.op == 'star' for x in vals) or '**' in kwv or a.vararg is not None:
            return vals, kwv
        for n in names[len(vals):]:
            if n in kwv:
                vals.append(kwv.pop(n))
            else:
                # default
                nd = len(a.defaults)
                idx = names.index(n) - (len(names) - nd)
                if 0 <= idx < nd:
                    vals.append(self.mat(self._default(func, a.defaults[idx], st), st))
                else:
                    break
        # drop trailing defaults
        nd = len(a.defaults)
        while vals:
            i = len(vals) - 1
            idx = i - (len(names) - nd)
            if i < len(names) and 0 <= idx < nd and vals[i] is self.mat(self._default(func, a.defaults[idx], st), st):
                vals.pop()
            else:
                break
        return vals, kwv

    def opaque_call(self, func, recv, args, kw, st, stmt):
        if func.kind in ('staticmethod', 'function', 'classmethod'):
            vals, kwv = self.norm_args(func, args, kw, st, func.kind == 'classmethod')
            t = self.gen('api', [func.qual] + vals, kwv)
            if stmt:
                self.effect(st, 'call', t)
            return t
        if recv is None:
            recv, args = args[0], args[1:]
        vals, kwv = self.norm_args(func, args, kw, st, True)
        return self.opaque_method(recv, func.name, vals, kwv, st, stmt)

    def opaque_method(self, recv, name, vals, kwv, st, stmt):
        r = self.rv(recv, st)
        t = self.gen('m', [name, r] + vals, kwv)
        if stmt:
            if name in IO_METHODS:
                self.effect(st, 'call', t)
            else:
                key = ('f', recv)
                new = raw('after', r, name, *[v for v in vals])
                if recv.op == 'ref' or recv.op in ('attr', 'arg', 'self', 'at', 'v', 'api', 'm', 'carg', 'new'):
                    st.heap[key] = new
                else:
                    self.effect(st, 'call', t)
        elif self.void_method(name):
            # nothing is returned: it is called for what it changes, wherever the call stands
            self.opaque_method(recv, name, vals, kwv, st, True)
            return NONE
        return t

    def void_method(self, name):
        if not hasattr(self, '_void'):
            self._void = {}
            for c in self.repo.classes():
                for nm, f in c.methods.items():
                    v = f.kind == 'method' and not f.is_gen and not nm.startswith('_') and not self._returns(f.node)
                    self._void[nm] = self._void.get(nm, True) and v
        return self._void.get(name, False)

    def _returns(self, n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Return) and x.value is not None or self._returns(x):
                return True
        return False

    def construct(self, f, args, kw, st):
        cls = self.getclass(f.a[0])
        init = cls.find('__init__') if cls is not None else None
        if init is not None and self.eager(cls) and not self._busy(init):
            # command objects: built and used within one run, so the constructor is followed as code
            self.refid += 1
            o = raw('obj', cls.qual, self.refid)
            self.typeof[o] = cls
            self.call_func(init, [o] + list(args), kw, st)
            return o
        if init is None or not isinstance(init.cls, Class):
            t = self.gen('new', [f.a[0]] + [self.mat(x, st) for x in args], {k: self.mat(v, st) for k, v in kw.items()})
        else:
            vals, kwv = self.norm_args(init, args, kw, st, True)
            t = self.gen('new', [f.a[0]] + vals, kwv)
        return t

    # ---- methods ---------------------------------------------------------
    def method(self, n, onode, o, name, st, stmt):
        if o.op == 'ite':
            rvs = self.rv(o, st)
            lf = leaves(o)
            if all(x.op in ('class', 'pymod', 'g', 'ref', 'new', 'fn') for x in lf):
                return self._method_ite(n, onode, o, name, st, stmt)
        if o.op in ('pymod', 'g', 'class'):
            f = self.get_attr(o, name, st)
            if o.op == 'class':
                fn = self.getclass(o.a[0]).find(name)
                if fn is None:
                    args, kw = self.args(n, st)
                    return self.gen('m', [name, o] + [self.mat(x, st) for x in args], {k: self.mat(v, st) for k, v in kw.items()})
            args, kw = self.args(n, st)
            if o.op == 'g' and o.a[0] == 'builtins.list' and name == '__add__':
                pass
            return self.call_value(f, args, kw, st, stmt)
        cls = self.class_of(o, st)
        if cls is not None:
            f = cls.find(name)
            if f is not None:
                args, kw = self.args(n, st)
                if f.kind == 'staticmethod':
                    if self.is_opaque(f):
                        return self.opaque_call(f, None, args, kw, st, stmt)
                    return self.call_func(f, args, kw, st)
                if f.kind == 'classmethod':
                    return self.call_func(f, [raw('class', cls.qual)] + args, kw, st)
                if f.kind == 'property':
                    v = self.get_attr(o, name, st)
                    return self.call_value(self.rv(v, st), args, kw, st, stmt)
                if self.is_opaque(f) and o.op != 'self':
                    return self.opaque_call(f, o, args, kw, st, stmt)
                if self._busy(f):
                    vals, kwv = self.norm_args(f, args, kw, st, True)
                    return self.opaque_method(o, name, vals, kwv, st, stmt)
                self.typeof.setdefault(o, cls)
                return self.call_func(f, [o] + args, kw, st)
            at = ('a', o, self.canon(cls, name))
            if at in st.heap or (o.op == 'self'):
                v = self.get_attr(o, name, st)
                if v.op in ('fn', 'bm', 'class', 'lam', 'g') or v.op == 'attr' or v.op == 'carg':
                    if not (v.op == 'attr' and self._container_method(name) and cls.ext_bases()):
                        args, kw = self.args(n, st)
                        return self.call_value(self.rv(v, st), args, kw, st, stmt)
            eb = [b for b in cls.ext_bases() if isinstance(b, str)]
            if any('Mutable' in b for b in eb):
                args, kw = self.args(n, st)
                return self.opaque_method(o, name, [self.mat(x, st) for x in args], {}, st, stmt)
        args, kw = self.args(n, st)
        cur = self.rv(o, st)
        if cur.op == 'ite':
            if name in MUTATORS:
                return self.container(onode, o, cur, name, args, kw, st)
            s0 = st
            return map_tree(cur, lambda x: self.meth_val(onode, x, x, name, args, kw, st, stmt))
        return self.meth_val(onode, o, cur, name, args, kw, st, stmt)

    def _container_method(self, name):
        return name in MUTATORS or name in ('keys', 'values', 'items', 'get', 'copy', 'index', 'count')

    def _method_ite(self, n, onode, o, name, st, stmt):
        x, hi, lo = o.a
        s2 = st.copy()
        a = self.method(n, onode, hi, name, st, stmt)
        b = self.method(n, onode, lo, name, s2, stmt)
        c = raw('ite', x, TRUE, FALSE)
        a = self.rv(a, st)
        b = self.rv(b, s2)
        m = merge(c, st.copy(), s2)
        st.heap = m.heap
        return mk_ite(c, a, b)

    def meth_val(self, onode, o, cur, name, args, kw, st, stmt):
        if name in MUTATORS and self.is_container(o, cur, name, args):
            return self.container(onode, o, cur, name, args, kw, st)
        av = [self.mat(x, st) for x in args]
        kv = {k: self.mat(v, st) for k, v in kw.items()}
        r = self.pure_method(cur, name, av, kv, st)
        if r is not None:
            return r
        # methods of the package on receivers of unknown type
        fs = self._methods.get(name, [])
        if fs:
            if name not in API_METHODS or (self.deep and len(fs) == 1):
                cand = [f for f in fs]
                if len(cand) == 1 and cand[0].kind == 'method' and not self._busy(cand[0]):
                    self.typeof.setdefault(o, cand[0].cls)
                    return self.call_func(cand[0], [o] + args, kw, st)
                if len(cand) == 1 and cand[0].kind == 'staticmethod':
                    return self.call_func(cand[0], args, kw, st)
            sigs = {tuple(x.arg for x in f.node.args.args[1:]) + tuple(ast.dump(d) for d in f.node.args.defaults)
                    for f in fs if f.kind == 'method'}
            if len(sigs) == 1 and all(f.kind == 'method' for f in fs):
                vals, kwv = self.norm_args(fs[0], args, kw, st, True)
                return self.opaque_method(o, name, vals, kwv, st, stmt)
            if kv and fs[0].kind == 'method':
                best = [f for f in fs if set(kv) <= {x.arg for x in f.node.args.args}]
                if len(best) == 1:
                    vals, kwv = self.norm_args(best[0], args, kw, st, True)
                    return self.opaque_method(o, name, vals, kwv, st, stmt)
        return self.opaque_method(o, name, av, kv, st, stmt)

    def is_container(self, o, cur, name, args):
        if kind(cur) in ('seq', 'dict') or cur.op in ('arr', 'v', 'ref', 'scatter', 'dupd', 'dstore', 'setitem', 'uset',
                                                      'popped', 'inserted', 'fold', 'delitem', 'sorted', 'slice', 'tolist'):
            return True
        if cur.op == 'attr' and cur.a[1] in ('_sites', 'sites', 'list', 'map', '_children', '_list', '_map'):
            return True
        if cur.op == 'attr' and cur.a[0].op == 'self' and name in ('append', 'extend', 'insert', 'update', 'setdefault', 'pop', '__setitem__', '__delitem__'):
            return True
        if cur.op == 'f' and cur.a[0] in ('collections.Counter', 'collections.OrderedDict', 'collections.defaultdict') \
                and name in ('pop', '__delitem__'):
            return True
        if cur.op == 'f' and cur.a[0].startswith('xxhash.') and len(cur.a) == 1 and name == 'update':
            return True
        return cur.op in ('ite', 'without')

    def container(self, onode, o, cur, name, args, kw, st):
        a = [self.deep_rv(x, st) for x in args]
        if name == 'sort':
            key = self.rv(kw['key'], st) if 'key' in kw else NONE
            a = [NONE if key is NONE else self.to_lam(key, st, 1),
                 self.deep_rv(kw['reverse'], st) if 'reverse' in kw else FALSE]
        if cur.op == 'ite':
            res = []

            def one(x):
                new, r = self.cont_op(x, name, a, st)
                return new
            new = map_tree(cur, one)
            ret = NONE
            if name in ('pop', 'setdefault', 'popitem'):
                ret = map_tree(cur, lambda x: self.cont_op(x, name, a, st)[1])
        else:
            new, ret = self.cont_op(cur, name, a, st)
        self.mutate(onode, o, new, st)
        return ret

    def cont_op(self, cur, name, a, st):
        if name == 'append':
            return mk_concat(cur, mk_seq([raw('e', a[0])])), NONE
        if name == 'extend':
            if a[0].op == 'self' or self.typeof.get(a[0]):
                pass
            return mk_concat(cur, unwrap_seq(a[0])), NONE
        if name == 'add':
            if cur.op == 'uset':
                return mk_uset(mk_concat(cur.a[0], mk_seq([raw('e', a[0])]))), NONE
            if cur.op == 'dict' and not cur.a:
                return mk_uset(mk_seq([raw('e', a[0])])), NONE
            return tm.mk_upd(cur, mk_seq([raw('e', a[0])])), NONE
        if name == 'update' and cur.op == 'f' and cur.a[0].startswith('xxhash.'):
            return build('f', cur.a[0], *a), NONE
        if name == 'update' and len(a) == 1 and keys_only(a[0]) is not None:
            a = [keys_only(a[0])]
        if name == 'update':
            if cur.op == 'uset' and a:
                return mk_uset(mk_concat(cur.a[0], unwrap_seq(a[0]))), NONE
            if a and (cur.op in ('v', 'upd')) and kind(a[0]) != 'dict':
                return tm.mk_upd(cur, a[0]), NONE
            if a and a[0].op == 'dict':
                r = cur
                for i in range(0, len(a[0].a), 2):
                    r = mk_dstore(r, a[0].a[i], a[0].a[i + 1])
                return r, NONE
            return raw('upd', cur, *a), NONE
        if name == 'insert':
            if num(a[0]) and a[0].a[0] == 0 and cur.op == 'seq':
                return mk_concat(mk_seq([raw('e', a[1])]), cur), NONE
            return raw('inserted', cur, a[0], a[1]), NONE
        if name == 'pop':
            if kind(cur) == 'dict' or (a and kind(a[0]) == 'str') or len(a) == 2:
                k = a[0]
                ret = mk_at(cur, k) if len(a) == 1 else mk_ite(mk_in(k, cur), mk_at(cur, k), a[1])
                return mk_without(cur, k), ret
            idx = a[0] if a else C(-1)
            if cur.op == 'attr' and cur.a[1] in ('map', '_map', '_children'):
                return mk_without(cur, idx), mk_at(cur, idx)
            return tm.mk_delitem(cur, idx), mk_at(cur, idx)
        if name == '__delitem__':
            return tm.mk_delitem(cur, a[0]), NONE
        if name == '__setitem__':
            return self.setitem(cur, a[0], a[1], cur, st), NONE
        if name in ('remove', 'discard'):
            return raw(name + 'd', cur, a[0]), NONE
        if name == 'clear':
            return (EMPTY if kind(cur) == 'seq' else raw('dict')), NONE
        if name == 'sort':
            return mk_sorted(cur, a[0], a[1]), NONE
        if name == 'reverse':
            return raw('rev', cur), NONE
        if name == 'setdefault':
            d = a[1] if len(a) > 1 else NONE
            i = mk_in(a[0], cur)
            return mk_ite(i, cur, mk_dstore(cur, a[0], d)), mk_ite(i, mk_at(cur, a[0]), d)
        return raw('mut', name, cur, *a), NONE

    def pure_method(self, r, name, a, kw, st):
        """builtin / numpy methods on a resolved receiver"""
        if 'order' in kw and name in ('flatten', 'ravel', 'reshape', 'copy', 'tolist', 'flat') and kw['order'] == C('C'):
            kw = {k: v for k, v in kw.items() if k != 'order'}      # the usual order
        if name == 'copy' and not a and not kw:
            return r
        if name == '__copy__':
            return r
        if name == 'dot' and len(a) == 1 and not kw:
            return mk_mm(strip_arr(r), strip_arr(a[0]))
        if name == 'transpose' and not a and not kw:
            return mk_T(r)
        if name == 'round':
            return mk_round(r, a[0] if a else kw.get('decimals', C(0)))
        if name == 'tolist' and not a:
            return raw('tolist', r) if r.op != 'ite' else map_tree(r, lambda x: raw('tolist', x))
        if name == 'items' and not a:
            return mk_items(r)
        if name == 'keys' and not a:
            return mk_keys(r)
        if name == 'most_common' and not a and not kw:
            w = fresh()
            return mk_sorted(mk_items(r), mk_lam([w], mk_at(w, C(1))), TRUE)
        if name == 'values' and not a:
            return mk_values(r)
        if name == 'get' and a:
            i = mk_in(a[0], r)
            return mk_ite(i, mk_at(r, a[0]), a[1] if len(a) > 1 else NONE)
        if name == 'join' and len(a) == 1:
            return mk_join(r, a[0])
        if name == 'format' and is_c(r):
            return self.fmt(r.a[0], a, kw)
        if name == '__str__' and not a:
            c = self.class_of(r, st)
            if r.op != 'new':
                return mk_str([raw('fmt', r, '')])
        if name == '__contains__' and len(a) == 1:
            return mk_in(a[0], r)
        if name == '__eq__' and len(a) == 1:
            return mk_eq(r, a[0])
        if name == '__getitem__' and len(a) == 1:
            return mk_item(r, a[0])
        if name == '__len__' and not a:
            return mk_len(r)
        if name == '__iter__' and not a:
            return r
        if name == '__add__' and len(a) == 1:
            return mk_add(r, a[0])
        if name in ('flatten', 'ravel') and not a and not kw:
            return raw('flat', r)
        if name == 'union' and len(a) == 1:
            return raw('union', r, a[0])
        if name == 'diagonal' and not a and not kw:
            return raw('diag', r)
        if name == 'prod' and not a and not kw:
            return raw('prod', r)
        if name == 'trace' and not a and not kw:
            return mk_sum(raw('diag', r))
        if name == 'group' and not kw and r.op == 'f' and r.a[0] == 're.search' and len(r.a) == 3 and is_c(r.a[1]) \
                and '(' not in str(r.a[1].a[0]) and (not a or a == [C(0)]):
            return mk_at(raw('f', 're.findall', *r.a[1:]), C(0))      # the first of all matches
        if name in ('min', 'max', 'sum', 'any', 'all', 'mean', 'argsort', 'nonzero', 'reshape', 'astype', 'repeat', 'take'):
            p = {'min': 'numpy.amin', 'max': 'numpy.amax'}.get(name, 'numpy.' + name)
            if name in ('reshape',):
                if len(a) > 1:
                    a = [raw('tup', *a)]
                if len(a) == 1 and not kw:
                    t = spread_rows(strip_arr0(r), a[0])
                    if t is not None:
                        return t
                return self.gen('f', ['numpy.reshape', strip_arr0(r)] + a, kw)
            if name == 'astype':
                return self.gen('f', ['astype', r] + a, kw)
            if name == 'take':
                return mk_at(r, a[0])
            return self.ext(p, [r] + a, kw, st)
        if name in ('intdigest', 'digest', 'hexdigest') and r.op == 'f' and r.a[0].startswith('xxhash.'):
            return raw('hash', r.a[0].split('.')[1].split('_')[0], *r.a[1:])
        if name == 'read' and not a:
            return raw('m', 'read', r)
        if name == 'write' and len(a) == 1:
            self.effect(st, 'fwrite', r, a[0])
            return NONE
        if name == 'writelines' and len(a) == 1:
            self.effect(st, 'fwrite', r, mk_join(C(''), a[0]))
            return NONE
        if name == 'close' and not a:
            return NONE
        if name == 'splitlines' and not a:
            return self.gen('m', ['split', r, C('\n')], {})
        if name == 'name' and False:
            return None
        return None

    def fmt(self, f, a, kw):
        import string
        parts = []
        auto = 0
        try:
            toks = list(string.Formatter().parse(f))
        except ValueError:
            return raw('m', 'format', C(f), *a)
        for lit, field, spec, conv in toks:
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            if '{' in (spec or ''):
                return self.gen('m', ['format', C(f)] + a, kw)
            base = field.split('.')[0].split('[')[0]
            if base == '':
                if auto >= len(a):
                    return raw('unknown', 'format arguments')
                v = a[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(a):
                    return raw('unknown', 'format arguments')
                v = a[int(base)]
            else:
                if base not in kw:
                    return raw('unknown', 'format arguments')
                v = kw[base]
            rest = field[len(base):]
            if rest.startswith('.'):
                v = mk_attr(v, rest[1:])
            elif rest:
                ix = rest[1:-1]
                v = mk_at(v, C(int(ix)) if ix.lstrip('-').isdigit() else C(ix))
            if conv and conv != 's':
                v = raw('f', 'builtins.repr', v)
            parts.append(raw('fmt', v, spec or ''))
        return mk_str(parts) if parts else C('')

    def vec_apply(self, f, X, st):
        """numpy.vectorize(f)(X)"""
        lam = self.to_lam(f.a[0], st, 1)
        if lam.op == 'lam':
            body = lam.a[2]
            v = bound_names(lam)[0]
            if elementwise(body, v):
                return app_lam(lam, [strip_arr0(X)])
        return self.gen('vmap', [lam, strip_arr0(X)], {})

    # ---- external functions ------------------------------------------------
    def ext(self, path, args, kw, st, stmt=False):
        h = EXT.get(path)
        if h is not None:
            r = h(self, args, kw, st)
            if r is not None:
                return r
        av = [self.mat(x, st) for x in args]
        kv = {k: self.mat(v, st) for k, v in kw.items()}
        if path in RANDOM or path.startswith('random.') or path.startswith('numpy.random.'):
            sc = [v for s_ in self.scope for v in s_ if v.op == 'v']
            if path == 'random.randrange' and not kv and len(av) in (1, 2):
                path, av = 'random.randint', [C(0) if len(av) == 1 else av[0], tm.mk_add(av[-1], C(-1))]
            if path == 'random.choice' and not kv and len(av) == 1 and kind(av[0]) != 'str':
                r = raw('rand', 'random.randint', C(0), tm.mk_add(mk_len(av[0]), C(-1)), raw('scope', *sc))
                return mk_at(av[0], r)
            return self.gen('rand', [path] + av + [raw('scope', *sc)], kv)
        for n_ in [n_ for n_ in kv if (path, n_) in DEFAULTS and tm.is_c(kv[n_]) and path not in SIG
                   and kv[n_].a[0] == DEFAULTS[path, n_]]:
            del kv[n_]
        if path in IO_CALLS:
            t = self.gen('f', [path] + av, kv)
            if path in FRESH:
                sc = [v for s_ in self.scope for v in s_ if v.op == 'v']
                t = self.gen('fresh', [path] + av + [raw('scope', *sc)], kv)
            self.effect(st, 'call', t)
            return t
        sig = SIG.get(path)
        if sig is not None:
            last = max([i for i, n_ in enumerate(sig) if n_ in kv], default=-1)
            for i, n_ in enumerate(sig):
                if i < len(av) or i > last:
                    continue
                if n_ in kv:
                    av.append(kv.pop(n_))
                elif (path, n_) in DEFAULTS:
                    av.append(C(DEFAULTS[path, n_]))
                else:
                    break
            while len(av) > 1 and len(av) <= len(sig) and tm.is_c(av[-1]) and (path, sig[len(av) - 1]) in DEFAULTS \
                    and DEFAULTS[path, sig[len(av) - 1]] == av[-1].a[0]:
                av.pop()
        t = self.gen('f', [path] + av, kv)
        if stmt:
            self.effect(st, 'call', t)
        return t


# ---------------------------------------------------------------------------
def canon_init(t):
    """initial value of a fold state: an empty dict used as a set is an empty set"""
    return t


def mk_maxlen(Ls):
    if len(set(Ls)) == 1:
        return Ls[0]
    Ls = sorted(set(Ls), key=lambda t: t.dig)
    return raw('maxlen', *Ls)


def mk_first(cl, g, v, anyx=None):
    c = mk_comp(cl, mk_ite(g, mk_seq([raw('e', v)]), EMPTY))
    return mk_at(c, C(0))


def ew_and(a, b):
    out = []
    for x in (a, b):
        out.extend(x.a if x.op == 'ewand' else [x])
    out = sorted(set(out), key=lambda t: t.dig)
    if len(out) == 1:
        return out[0]
    return raw('ewand', *out)


def ew_or(a, b):
    out = []
    for x in (a, b):
        out.extend(x.a if x.op == 'ewor' else [x])
    out = sorted(set(out), key=lambda t: t.dig)
    if len(out) == 1:
        return out[0]
    return raw('ewor', *out)


def ew_not(a):
    if a.op == 'ewnot':
        return a.a[0]
    if a.op == 'lt':
        return raw('le', a.a[1], a.a[0])
    if a.op == 'le':
        return raw('lt', a.a[1], a.a[0])
    if a.op == 'eq':
        return raw('ne', *a.a)
    if a.op == 'ne':
        return raw('eq', *a.a)
    if a.op == 'ewand':
        r = None
        for x in a.a:
            n = ew_not(x)
            r = n if r is None else ew_or(r, n)
        return r
    if a.op == 'ewor':
        r = None
        for x in a.a:
            n = ew_not(x)
            r = n if r is None else ew_and(r, n)
        return r
    return raw('ewnot', a)


def elementwise(body, v):
    """body(v) is plain arithmetic in v: may be applied to whole arrays"""
    if body.op == 'v':
        return True
    if body.op == 'c':
        return True
    if v not in body.fv:
        return True
    if body.op in ('round', 'mod', 'poly', 'mono', 'pow'):
        return all(elementwise(x, v) for x in body.a if isinstance(x, T))
    if body.op == 'f' and body.a[0] == 'builtins.abs' and len(body.a) == 2:
        return elementwise(body.a[1], v)
    return False


def strip_arr0(t):
    if t.op == 'arr' and len(t.a) == 1 and t.a[0].op not in ('seq', 'comp', 'tup'):
        return t.a[0]
    return t


def until(w):
    """while c: x = draw()   (state not read by its own update) -> until"""
    return w


def recognise_acc(c, u, I, cl):
    """accumulator patterns: u is the update of carried value c"""
    cn = c.a[0]
    cv = frozenset(v.a[0] for v, _ in cl)
    # boolean flags
    if I.op == 'c' and isinstance(I.a[0], bool) or is_bool(I):
        u1, u0 = subst(u, {cn: TRUE}), subst(u, {cn: FALSE})
        if is_bool(u1) and is_bool(u0):
            if u1 is TRUE:
                return mk_or(I, mk_any_g(cl, cond(u0)))
            if u0 is FALSE:
                return mk_and(I, mk_not(mk_any_g(cl, mk_not(u1))))
    # min / max
    r = _minmax(c, u, I, cl)
    if r is not None:
        return r
    # all conditions independent of c ?
    atoms = []
    seen = set()
    st = [u]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'ite':
            if cn in t.a[0].fv:
                return None
            st += [t.a[1], t.a[2]]
    lv = [x for x in leaves(u) if x is not c]
    if not lv:
        return I
    # sequence append

    def seq_leaf(x):
        if x is c:
            return EMPTY
        if x.op == 'seq' and x.a and x.a[0].op == 's' and x.a[0].a[0] is c and \
                all(cn not in i.fv for i in x.a[1:]):
            return mk_seq(list(x.a[1:]))
        return None
    if all(seq_leaf(x) is not None for x in lv):
        tree = map_tree(u, seq_leaf)
        return mk_concat(I, mk_comp(cl, tree)) if I.op != 'ite' else map_tree(I, lambda z: mk_concat(z, mk_comp(cl, tree)))
    # sets (also dicts used as sets)

    def set_leaf(x):
        if x is c:
            return EMPTY
        items = []
        if x.op == 'uset':
            y = x.a[0]
            if y.op == 'seq' and y.a and y.a[0].op == 's' and y.a[0].a[0] is c:
                items = list(y.a[1:]) + items
                x = c
        if x.op == 'upd' and len(x.a) == 2:
            items = [raw('s', unwrap_seq(x.a[1]))] + items
            x = x.a[0]
        if x.op == 'dupd' and x.a[0] is c:
            pass
        if x is c and items and all(cn not in i.fv for i in items):
            return mk_seq(items)
        return None
    if all(set_leaf(x) is not None for x in lv):
        tree = map_tree(u, set_leaf)
        add = mk_comp(cl, tree)
        return _set_plus(I, add)
    # dict stores

    def dict_leaf(x):
        if x is c:
            return EMPTY
        items = []
        while x.op == 'dstore':
            items.insert(0, raw('e', raw('tup', x.a[1], x.a[2])))
            x = x.a[0]
        if x is c and items and all(cn not in i.fv for i in items):
            return mk_seq(items)
        return None
    if all(dict_leaf(x) is not None for x in lv):
        tree = map_tree(u, dict_leaf)
        P = mk_comp(cl, tree)
        if I.op == 'dict' and not I.a:
            return mk_dictof(P)
        return lift([I, P], lambda a: raw('dupd', *a))
    # element stores, grouped by value

    def chain(x):
        out = []
        while x.op == 'scatter':
            out.insert(0, (x.a[1], x.a[2]))
            x = x.a[0]
        return (out if x is c else None)
    if all(chain(x) is not None for x in lv):
        vals = []
        for x in leaves(u):
            if x is c:
                continue
            for i, v in chain(x):
                if v not in vals:
                    vals.append(v)
                if cn in i.fv or cn in v.fv:
                    return None
        if all(not (v.fv & cv) for v in vals):
            # order of the channels: as they occur in the longest chain
            longest = max((chain(x) for x in lv), key=len)
            order = []
            for i, v in longest:
                if v not in order:
                    order.append(v)
            for v in vals:
                if v not in order:
                    order.append(v)
            r = I
            for v in order:
                def leaf(x, v=v):
                    if x is c:
                        return EMPTY
                    t = EMPTY
                    for i, w in chain(x):
                        if w is v:
                            t = mk_concat(t, i)
                    return t
                idx = mk_comp(cl, map_tree(u, leaf))
                r = mk_scatter(r, idx, v)
            return r

        def leafv(x):
            if x is c:
                return EMPTY
            t = EMPTY
            for i, w in chain(x):
                t = mk_concat(t, comp_over(i, lambda q, w=w: mk_seq([raw('e', raw('tup', q, w))])))
            return t
        P = mk_comp(cl, map_tree(u, leafv))
        return lift([I, P], lambda a: raw('scatterv', *a))
    # numeric accumulation

    def add_leaf(x):
        if x is c:
            return EMPTY
        d = mk_sub(x, c)
        if cn in d.fv or kind(x) == 'str':
            return None
        return mk_seq([raw('e', d)])
    if all(x.op == 'poly' and add_leaf(x) is not None for x in lv):
        return mk_add(I, mk_sum(mk_comp(cl, map_tree(u, add_leaf))))
    # string accumulation

    def str_leaf(x):
        if x is c:
            return EMPTY
        if x.op == 'str' and x.a[0].op == 'fmt' and x.a[0].a[0] is c and x.a[0].a[1] == '':
            r = mk_str(list(x.a[1:]))
            if cn in r.fv:
                return None
            return mk_seq([raw('e', r)])
        return None
    if kind(I) == 'str' and all(str_leaf(x) is not None for x in lv):
        return mk_str([I, mk_join(C(''), mk_comp(cl, map_tree(u, str_leaf)))])
    return None


def _set_plus(I, add):
    if I.op == 'uset':
        return mk_uset(mk_concat(I.a[0], add))
    if I.op == 'dict' and not I.a:
        return mk_uset(add)
    if add is EMPTY:
        return I
    # a set carried by an outer loop: keep the form the outer loop recognises
    return tm.mk_upd(I, add)


def _minmax(c, u, I, cl):
    cn = c.a[0]
    # unconditional or guarded  ite(lt(x,c), x, c) / builtin min(c, x)

    def one(t):
        if t is c:
            return EMPTY
        return None
    if u.op == 'ite':
        # find the atom involving c
        ats = [t.a[0] for t in subterms_tree(u) if cn in t.a[0].fv]
        if len(set(ats)) != 1:
            return None
        at = ats[0]
        if at.op != 'lt':
            return None
        if at.a[1] is c and cn not in at.a[0].fv:
            x, op = at.a[0], 'min'
            take = True
        elif at.a[0] is c and cn not in at.a[1].fv:
            x, op = at.a[1], 'max'
            take = True
        else:
            return None
        hi = cofs(u, at, True)
        lo = cofs(u, at, False)

        def sel(t):
            # tree over c-free atoms with leaves c or x
            return all(y is c or y is x for y in leaves(t))
        if not (sel(hi) and sel(lo)):
            return None
        # op min: x<c -> take x (hi leaf x), else c
        if op == 'min':
            if all(y is c for y in leaves(lo)):
                tree = map_tree(hi, lambda y: EMPTY if y is c else mk_seq([raw('e', x)]))
            else:
                return None
        else:
            # c < x
            if all(y is c for y in leaves(lo)):
                tree = map_tree(hi, lambda y: EMPTY if y is c else mk_seq([raw('e', x)]))
            elif all(y is c for y in leaves(hi)):
                op = 'min'
                tree = map_tree(lo, lambda y: EMPTY if y is c else mk_seq([raw('e', x)]))
            else:
                return None
        S = mk_concat(mk_seq([raw('e', I)]), mk_comp(cl, tree))
        return tm.build(op + 'of', S)
    if u.op in ('minof', 'maxof') and u.a[0].op == 'seq':
        items = list(u.a[0].a)
        me = raw('e', c)
        if me in items:
            rest = [i for i in items if i is not me]
            if len(rest) == len(items) - 1 and all(cn not in i.fv for i in rest):
                S = mk_concat(mk_seq([raw('e', I)]), mk_comp(cl, mk_seq(rest)))
                return tm.build(u.op, S)
    return None


def subterms_tree(u):
    out = []
    seen = set()
    st = [u]
    while st:
        t = st.pop()
        if t in seen or t.op != 'ite':
            continue
        seen.add(t)
        out.append(t)
        st += [t.a[1], t.a[2]]
    return out


from ext import DEFAULTS, EXT, RANDOM, IO_CALLS, FRESH, SIG, IO_METHODS, canon_path, INLINE_CTOR, INLINE_FUNCS, spread_rows  # noqa
