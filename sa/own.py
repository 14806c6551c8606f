"""Ownership analysis: which objects a function may hand out, keep or modify (allocation-site points-to, call summaries)."""
import ast
import os
from repo import Class, Func, Module

NP_ALIAS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'reshape', 'transpose', 'ravel', 'squeeze', 'swapaxes',
            'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'moveaxis', 'rollaxis', 'expand_dims', 'asmatrix', 'real', 'imag',
            'flipud', 'fliplr', 'diagonal', 'rot90'}
M_ALIAS = {'reshape', 'transpose', 'ravel', 'squeeze', 'swapaxes', 'view', 'diagonal', '__iter__', 'values', 'items'}
A_ALIAS = {'T', 'flat', 'real', 'imag'}
M_FRESH = {'flatten', 'astype', 'tolist', 'keys', 'split', 'strip', 'format', 'join', 'dot', 'argsort', 'nonzero', 'repeat'}
# methods that change their receiver in place
M_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
         'fill', 'itemset', 'put', 'resize', 'partition', 'setflags', 'appendleft', 'popleft', 'rotate', 'subtract',
         'intersection_update', 'difference_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__iadd__',
         'setfield', 'byteswap', 'move_to_end', 'do_move'}
F_MUT0 = {'random.shuffle', 'numpy.random.shuffle', 'numpy.fill_diagonal', 'numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask',
          'heapq.heapify', 'heapq.heappush', 'heapq.heappop', 'bisect.insort', 'numpy.put_along_axis', 'builtins.setattr',
          'operator.setitem', 'operator.delitem', 'operator.iadd', 'operator.isub', 'operator.imul', 'numpy.add.at', 'numpy.subtract.at',
          'list.append', 'list.sort', 'list.insert', 'list.extend', 'list.remove', 'dict.update', 'builtins.delattr', 'numpy.random.set_state'}
SELFN = ('P', 'self')


def base(o):
    while o[0] in 'AE':
        o = o[1]
    return o


def path(o):
    if o[0] == 'A':
        return path(o[1]) + '.' + o[2]
    if o[0] == 'E':
        return path(o[1]) + '[*]'
    if o[0] == 'G':
        return o[2]
    if o[0] == 'P':
        return o[1]
    return 'new'


def deep(o):
    n = 0
    while o[0] in 'AE':
        n += 1
        o = o[1]
    return n


class Sum(object):
    def __init__(self):
        self.ret = set()
        self.muts = []          # (obj, node, how, loops)
        self.stores = []        # (obj, attr or None, objs, node)
        self.yields = []        # (node, objs, loops)
        self.puts = []          # (container obj, node, objs, loops)
        self.allocs = {}        # N -> loops
        self.hA, self.hE = {}, {}
        self.params = []
        self.kinds = {}


class Own(object):
    def __init__(self, repo):
        self.repo = repo
        self.sums = {}
        self.by_meth, self.by_prop, self.by_set = {}, {}, {}
        for c in repo.classes():
            for n, f in c.methods.items():
                (self.by_prop if f.kind == 'property' else self.by_meth).setdefault(n, []).append(f)
            for n, f in c.setters.items():
                self.by_set.setdefault(n, []).append(f)
        self.funcs = list(repo.functions())
        prev = None
        for _ in range(4):
            for f in self.funcs:
                self.sums[key(f)] = self.analyse(f)
            sig = self.signature()
            if sig == prev:
                break
            prev = sig

    def signature(self):
        return {k: (frozenset(strip(s.ret)), frozenset(m[0] for m in s.muts), frozenset((o, a, frozenset(strip(v))) for o, a, v, _ in s.stores))
                for k, s in self.sums.items()}

    def analyse(self, f):
        w = Walk(self, f)
        return w.run()


def strip(objs):
    return {o for o in objs if base(o)[0] != 'N'}


def key(f):
    s = f.cls is not None and f.cls.setters.get(f.name) is f
    return f.qual + ('@setter' if s else '')


class Walk(object):
    def __init__(self, own, f, outer=None):
        self.own, self.f, self.repo, self.mod = own, f, own.repo, f.module
        self.s = outer.s if outer else Sum()
        self.loops = outer.loops if outer else ()
        self.n = 0
        self.nested = {}
        self.imports = {}

    def run(self):
        a = self.f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        self.s.params = ps
        self.s.kwonly = [x.arg for x in a.kwonlyargs]
        env = {}
        names = ps + [x.arg for x in a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        for i, p in enumerate(names):
            if i == 0 and self.f.cls is not None and self.f.kind in ('method', 'property'):
                env[p] = {SELFN}
                self.selfn = p
            else:
                env[p] = {('P', p)}
        self.env0 = names
        if self.f.cls is not None and self.f.kind in ('method', 'property') and ps:
            self.s.params = ['self'] + ps[1:]
        if isinstance(self.f.node, ast.Lambda):
            self.s.ret |= self.ev(self.f.node.body, env)
        else:
            self.block(self.f.node.body, env)
        return self.s

    # -- objects -----------------------------------------------------------------
    def new(self, node, tag=''):
        o = ('N', '%d:%d:%s' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag), key(self.f))
        if o not in self.s.allocs or len(self.loops) > len(self.s.allocs[o]):
            self.s.allocs[o] = self.loops
        return o

    def elems(self, objs):
        out = set()
        for o in objs:
            if o[0] == 'N':
                out |= self.s.hE.get(o, set())
            elif deep(o) < 4:
                out.add(('E', o))
                out |= self.s.hE.get(o, set())
        return out

    def getattr(self, objs, name, env, node=None):
        """plain attribute (fields)"""
        out = set()
        for o in objs:
            if (o, name) in self.s.hA:
                out |= self.s.hA[(o, name)]
                if o[0] != 'N':
                    out.add(('A', o, name))
            elif o[0] == 'N':
                sh = self.s.kinds.get(o)
                if isinstance(sh, tuple) and sh[0] == 'shallow':
                    out |= self.getattr(sh[1], name, env)
            elif deep(o) < 4:
                out.add(('A', o, name))
        return out

    def mutate(self, objs, node, how):
        for o in objs:
            self.s.muts.append((o, node, how, self.loops))

    def put(self, cont, objs, node):
        for c in cont:
            if objs:
                self.s.hE.setdefault(c, set()).update(objs)
            self.s.puts.append((c, node, set(objs), self.loops))

    # -- expressions ----------------------------------------------------------------
    def cls_of(self, o):
        if o == SELFN:
            return self.f.cls
        k = self.s.kinds.get(o)
        return k if isinstance(k, Class) else None

    def attribute(self, objs, name, env, node):
        out = set()
        for o in objs:
            c = self.cls_of(o)
            props = []
            if c is not None:
                p = c.find(name)
                if p is not None and p.kind == 'property':
                    props = [p]
                elif p is not None:
                    continue
            elif name in self.own.by_prop and o[0] != 'G' and not (o[0] == 'N' and (o, name) in self.s.hA):
                props = self.own.by_prop[name]
            if name in A_ALIAS:
                out.add(o)
                continue
            if props:
                for p in props:
                    out |= self.apply(p, [{o}], {}, node)
                if c is not None:
                    continue
            fields = self.getattr({o}, name, env)
            if props:
                fields = {x for x in fields if x[0] != 'A'}
            out |= fields
        return out

    def ev(self, n, env):
        if n is None:
            return set()
        t = type(n)
        if t is ast.Name:
            if n.id in env:
                return set(env[n.id])
            r = self.repo.lookup(self.mod, n.id)
            if isinstance(r, tuple) and r[0] == 'var':
                return {('G', r[1].name, r[2])}
            return set()
        if t is ast.Constant:
            return set()
        if t is ast.Attribute:
            k = ast.unparse(n) if isinstance(n.value, ast.Name) else None
            if k is not None and k in env:
                return set(env[k])
            if isinstance(n.value, ast.Name) and n.value.id not in env:
                r = self.repo.resolve_expr(self.mod, n)
                if isinstance(r, tuple) and r[0] == 'var':
                    return {('G', r[1].name, r[2])}
                if r is not None:
                    return set()
            return self.attribute(self.ev(n.value, env), n.attr, env, n)
        if t is ast.Subscript:
            o = self.ev(n.value, env)
            self.ev(n.slice, env)
            return self.index(o, n, env)
        if t in (ast.List, ast.Tuple, ast.Set):
            N = self.new(n)
            exact = t is ast.Tuple and not any(isinstance(e, ast.Starred) for e in n.elts)
            for i, e in enumerate(n.elts):
                v = self.ev(e.value if isinstance(e, ast.Starred) else e, env)
                if exact:
                    self.s.hA.setdefault((N, '#%d/%d' % (i, len(n.elts))), set()).update(v)
                self.s.hE.setdefault(N, set()).update(self.elems(v) if isinstance(e, ast.Starred) else v)
            return {N}
        if t is ast.Dict:
            N = self.new(n)
            for k, e in zip(n.keys, n.values):
                self.ev(k, env)
                v = self.ev(e, env)
                self.s.hE.setdefault(N, set()).update(self.elems(v) if k is None else v)
            return {N}
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e2 = dict(env)
            saved = self.loops
            for g in n.generators:
                it = self.ev(g.iter, e2)
                self.loops = self.loops + (id(g),)
                self.bind(g.target, self.elems(it), e2, g.iter, it)
                for c in g.ifs:
                    self.ev(c, e2)
            if t is ast.DictComp:
                self.ev(n.key, e2)
                v = self.ev(n.value, e2)
            else:
                v = self.ev(n.elt, e2)
            self.loops = saved
            N = self.new(n)
            self.s.hE.setdefault(N, set()).update(v)
            return {N}
        if t is ast.BinOp:
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if not a and not b:
                return set()
            N = self.new(n)
            if isinstance(n.op, ast.Add):
                for o in a | b:
                    if o[0] == 'N':
                        self.s.hE.setdefault(N, set()).update(self.s.hE.get(o, set()))
            return {N}
        if t is ast.IfExp:
            self.ev(n.test, env)
            return self.ev(n.body, env) | self.ev(n.orelse, env)
        if t is ast.BoolOp:
            out = set()
            for v in n.values:
                out |= self.ev(v, env)
            return out
        if t in (ast.Compare, ast.JoinedStr, ast.FormattedValue):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return set()
        if t is ast.UnaryOp:
            v = self.ev(n.operand, env)
            return {self.new(n)} if v else set()
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            env[n.target.id] = v
            return v
        if t is ast.Starred:
            return self.ev(n.value, env)
        if t is ast.Lambda:
            self.nestedfn(n, env)
            return set()
        if t is ast.Yield:
            v = self.ev(n.value, env)
            self.s.yields.append((n, v, self.loops))
            return set()
        if t is ast.YieldFrom:
            v = self.elems(self.ev(n.value, env))
            self.s.yields.append((n, v, self.loops))
            return set()
        if t is ast.Call:
            return self.call(n, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return set()

    def nestedfn(self, n, env):
        """body of a nested function: analysed in place for its modifications of captured objects"""
        e2 = dict(env)
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            e2[x.arg] = set()
        if isinstance(n, ast.Lambda):
            return self.ev(n.body, e2)
        y, r = len(self.s.yields), set(self.s.ret)
        self.block(n.body, e2)
        vals = self.s.ret - r
        for _, v, _ in self.s.yields[y:]:
            vals |= v
        del self.s.yields[y:]
        self.s.ret = r
        self.nested[n.name] = vals
        return vals

    def intlike(self, k, env):
        if isinstance(k, ast.Constant):
            return isinstance(k.value, int)
        if isinstance(k, ast.UnaryOp):
            return self.intlike(k.operand, env)
        if isinstance(k, ast.Name):
            return k.id in self.ints
        if isinstance(k, ast.BinOp):
            return self.intlike(k.left, env) and self.intlike(k.right, env)
        if isinstance(k, ast.Tuple):
            return all(self.intlike(x, env) or isinstance(x, ast.Slice) for x in k.elts)
        return False

    def index(self, objs, n, env):
        """element or view; unknown kinds of index give nothing (no claim)"""
        k = n.slice
        if isinstance(k, ast.Slice):
            N = self.new(n, 'slice')
            self.s.kinds[N] = ('sliceof', frozenset(objs))
            self.s.hE.setdefault(N, set()).update(self.elems(objs))
            return {N}
        if isinstance(k, ast.Constant) and not isinstance(k.value, int):
            return self.elems(objs)
        if self.intlike(k, env):
            i = k.value if isinstance(k, ast.Constant) else None
            out = set()
            for o in objs:
                ks = [x for x in self.s.hA if x[0] == o and x[1].startswith('#')] if o[0] == 'N' and type(i) is int else []
                pos = [x for x in ks if x[1].startswith('#%d/' % i)]
                if pos and len({x[1].split('/')[1] for x in ks}) == 1:
                    out |= self.s.hA[pos[0]]
                else:
                    out |= self.elems({o})
            return out
        if isinstance(k, ast.Name):
            # a variable of unknown type may select a copy: claims nothing about identity, keeps stored contents
            out = set()
            for o in objs:
                out |= self.s.hE.get(o, set())
            return out
        return set()

    @property
    def ints(self):
        got = getattr(self, '_ints', None)
        if got is None:
            got = set()
            bad = set()
            for n in ast.walk(self.f.node):
                gens = []
                if isinstance(n, ast.For):
                    gens = [(n.target, n.iter)]
                elif isinstance(n, ast.comprehension):
                    gens = [(n.target, n.iter)]
                for t, it in gens:
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
                        if it.func.id == 'range' and isinstance(t, ast.Name):
                            got.add(t.id)
                            continue
                        if it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                            got.add(t.elts[0].id)
                            bad |= {x.id for x in ast.walk(t.elts[1]) if isinstance(x, ast.Name)}
                            continue
                        if it.func.id in ('combinations', 'permutations') and False:
                            continue
                    bad |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        bad |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            self._ints = got = got - bad
        return got

    # -- calls -------------------------------------------------------------------------
    def call(self, n, env):
        f = n.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in n.args]
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        for k in n.keywords:
            if k.arg == 'out':
                self.mutate(kws['out'], n, 'out=')
        if isinstance(f, ast.Name):
            if f.id in self.nested:
                return set(self.nested[f.id])
            if f.id in env and f.id not in self.imports:
                return set()
            r = self.imports.get(f.id) or self.repo.lookup(self.mod, f.id)
            if f.id == 'cls' and self.f.cls is not None:
                r = self.f.cls
            return self.dispatch(r, 'builtins.' + f.id, n, args, kws, env)
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and (root.id not in env or root.id in self.imports):
                r = None
                if root.id in self.imports:
                    b = self.imports[root.id]
                    r = (b + '.' + '.'.join(ast.unparse(f).split('.')[1:])) if isinstance(b, str) else None
                if r is None:
                    r = self.repo.resolve_expr(self.mod, f)
                if r is None and isinstance(root, ast.Name) and root.id in ('list', 'dict', 'set', 'object', 'str'):
                    r = ast.unparse(f)
                if isinstance(r, (Func, Class)) or isinstance(r, str):
                    if isinstance(r, Func) and r.kind == 'classmethod':
                        return self.apply(r, [set()] + args, kws, n)
                    return self.dispatch(r, r if isinstance(r, str) else '', n, args, kws, env)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.f.cls:
                for c in self.f.cls.mro()[1:]:
                    if f.attr in c.methods:
                        return self.apply(c.methods[f.attr], [{SELFN}] + args, kws, n)
                return set()
            recv = self.ev(f.value, env)
            if isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.attr == '__class__':
                c = self.f.cls if f.value.value.id == getattr(self, 'selfn', None) else None
                if c is not None:
                    m = c.find(f.attr)
                    if m is not None:
                        return self.apply(m, [set()] + args, kws, n)
            return self.methcall(recv, f, n, args, kws, env)
        self.ev(f, env)
        return set()

    def methcall(self, recv, f, n, args, kws, env):
        name = f.attr
        out = set()
        if name == '__class__' and SELFN in recv and self.f.cls is not None:
            return self.construct(self.f.cls, n, args, kws)
        handled = False
        if isinstance(f.value, ast.Name) and f.value.id == 'cls' and self.f.cls is not None:
            m = self.f.cls.find(name)
            if m is not None:
                return self.apply(m, ([set()] if m.kind == 'classmethod' else []) + args, kws, n)
        for o in recv:
            c = self.cls_of(o)
            ms = []
            if c is not None:
                m = c.find(name)
                ms = [m] if m is not None else []
                if ms:
                    for k in self.repo.classes():
                        if c in k.mro() and k is not c and name in k.methods:
                            ms.append(k.methods[name])
            elif self.is_container(o):
                ms = []
            else:
                ms = [m for m in self.own.by_meth.get(name, ()) if m.kind == 'method' and arity_ok(m, len(args), kws)]
            for m in ms:
                handled = True
                a = ([{o}] if m.kind == 'method' else [set()] if m.kind == 'classmethod' else []) + args
                out |= self.apply(m, a, kws, n)
        if handled and all(self.cls_of(o) is not None for o in recv):
            return out
        unk = {o for o in recv if self.cls_of(o) is None}
        if name in M_MUT and not (name in ('update',) and not args and not kws):
            # containers and arrays; a package method of that name on an unknown receiver was applied above
            if not handled or any(self.is_container(o) for o in unk):
                self.mutate(unk, n, '.%s()' % name)
                if name in ('append', 'add', 'insert', 'setdefault', 'appendleft', '__setitem__', 'push'):
                    v = args[-1] if args else set()
                    self.put(unk, v, n)
                elif name in ('extend', 'update'):
                    self.put(unk, self.elems(args[0]) if args else set(), n)
            if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                out |= self.elems(unk)
            return out
        if name == 'copy' and not args:
            if handled:
                pass
            N = self.new(n)
            for o in unk:
                if self.is_container(o):
                    self.s.hE.setdefault(N, set()).update(self.elems({o}))
            return out | {N}
        if name in M_ALIAS:
            return out | unk
        if name == 'get':
            return out | self.elems(unk)
        if handled:
            return out
        if recv:
            N = self.new(n)
            return {N}
        return out

    def is_container(self, o):
        if o[0] == 'N':
            return self.cls_of(o) is None and o in self.s.hE or self.s.kinds.get(o) == 'cont'
        if o[0] == 'A':
            b = o[1]
            c = self.cls_of(b)
            if c is not None:
                return (c.qual, o[2]) in self.lists()
            return any((k.qual, o[2]) in self.lists() for k in self.repo.classes())
        return False

    def lists(self):
        """fields initialised with list/dict/set displays, comprehensions or constructors"""
        got = getattr(self.own, '_lists', None)
        if got is None:
            got = set()
            for c in self.repo.classes():
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                    v = n.value
                                    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
                                            isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                            and v.func.id in ('list', 'dict', 'set', 'OrderedDict', 'Counter', 'defaultdict')):
                                        got.add((c.qual, t.attr))
            self.own._lists = got
        return got

    def dispatch(self, r, pathname, n, args, kws, env):
        if isinstance(r, Class):
            return self.construct(r, n, args, kws)
        if isinstance(r, Func):
            if r.kind == 'method' and r.cls is not None:
                return self.apply(r, args, kws, n)
            if r.kind == 'classmethod':
                return self.apply(r, [set()] + args, kws, n)
            return self.apply(r, args, kws, n)
        p = r if isinstance(r, str) else pathname
        if isinstance(r, tuple):
            return set()
        if p in F_MUT0 or p.split('.')[0] in ('list', 'dict') and p.split('.')[-1] in M_MUT:
            if args:
                self.mutate(args[0], n, p)
            return set()
        last = p.split('.')[-1]
        if p.startswith('numpy.'):
            if last in NP_ALIAS and args:
                return set(args[0]) or {self.new(n)}
            if last == 'array' and args:
                for k in n.keywords:
                    if k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False:
                        return set(args[0]) or {self.new(n)}
            return {self.new(n)}
        if p in ('copy.copy',) and args:
            N = self.new(n)
            self.s.kinds[N] = ('shallow', frozenset(args[0]))
            self.s.hE.setdefault(N, set()).update(self.elems(args[0]))
            return {N}
        if p in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted', 'builtins.reversed', 'builtins.frozenset',
                 'builtins.iter', 'itertools.chain', 'builtins.dict', 'collections.OrderedDict', 'collections.deque', 'itertools.tee',
                 'itertools.islice', 'itertools.cycle', 'builtins.filter', 'itertools.chain.from_iterable'):
            N = self.new(n)
            for i, a in enumerate(args):
                self.s.hE.setdefault(N, set()).update(self.elems(a))
            self.s.hE.setdefault(N, set())
            if p == 'builtins.filter' and len(args) > 1:
                self.s.hE[N] = self.elems(args[1])
            return {N}
        if p in ('builtins.zip', 'builtins.enumerate', 'itertools.product', 'itertools.combinations', 'itertools.permutations'):
            N, M = self.new(n), self.new(n, 'tup')
            self.s.hE.setdefault(N, set()).add(M)
            for a in args:
                self.s.hE.setdefault(M, set()).update(self.elems(a))
            return {N}
        if p in ('builtins.next', 'builtins.min', 'builtins.max') and args:
            return self.elems(args[0])
        if p == 'builtins.getattr' and args:
            return set()
        if p == 'builtins.map':
            return {self.new(n)}
        if p in ('builtins.len', 'builtins.int', 'builtins.float', 'builtins.str', 'builtins.bool', 'builtins.range', 'builtins.round',
                 'builtins.isinstance', 'builtins.abs', 'builtins.any', 'builtins.all', 'builtins.print', 'builtins.sum'):
            return set()
        return {self.new(n)}

    def construct(self, c, n, args, kws):
        N = self.new(n, 'obj')
        self.s.kinds[N] = c
        init = c.find('__init__')
        if init is not None:
            self.apply(init, [{N}] + args, kws, n)
        return {N}

    def apply(self, m, args, kws, node):
        """effect of calling a package function, from its summary"""
        sm = self.own.sums.get(key(m))
        if sm is None:
            return set()
        a = m.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if m.cls is not None and m.kind in ('method', 'property') and names:
            names[0] = 'self'
        sub = {}
        for i, v in enumerate(args):
            if i < len(names):
                sub[names[i]] = v
        for k, v in kws.items():
            if k is not None:
                sub[k] = v
        fresh = {}

        def conv(o):
            if o[0] == 'P':
                return set(sub.get(o[1], set()))
            if o[0] == 'A':
                out = set()
                for b in conv(o[1]):
                    out |= self.getattr({b}, o[2], None)
                return out
            if o[0] == 'E':
                return self.elems(conv(o[1]))
            if o[0] == 'N':
                return {mk(o)}
            return {o}

        def mk(o):
            if o in fresh:
                return fresh[o]
            N = self.new(node, 'call' + o[1] + o[2].split(':')[-1] if len(o[1]) < 60 else 'call')
            fresh[o] = N
            k = sm.kinds.get(o)
            if isinstance(k, Class):
                self.s.kinds[N] = k
            elif isinstance(k, tuple):
                self.s.kinds[N] = (k[0], frozenset(y for x in k[1] for y in conv(x)))
            for e in sm.hE.get(o, ()):
                self.s.hE.setdefault(N, set()).update(conv(e))
            for (q, an), vs in sm.hA.items():
                if q == o:
                    self.s.hA.setdefault((N, an), set())
                    for v in vs:
                        self.s.hA.setdefault((N, an), set()).update(conv(v))
            return N
        for o, mnode, how, _ in sm.muts:
            if base(o)[0] == 'P':
                for x in conv(o):
                    self.s.muts.append((x, node, how + ' in ' + m.name, self.loops))
            elif base(o)[0] == 'G':
                pass
        for o, at, vs, _ in sm.stores:
            if base(o)[0] != 'P':
                continue
            vals = set()
            for v in vs:
                vals |= conv(v)
            for x in conv(o):
                if at is None:
                    self.s.hE.setdefault(x, set()).update(vals)
                else:
                    self.s.hA.setdefault((x, at), set()).update(vals)
                    if x[0] != 'N':
                        self.s.stores.append((x, at, vals, node))
        for c, _, vs, _ in sm.puts:
            if base(c)[0] == 'P':
                vals = set()
                for v in vs:
                    vals |= conv(v)
                for x in conv(c):
                    if vals:
                        self.s.hE.setdefault(x, set()).update(vals)
        if m.is_gen:
            N = self.new(node, 'gen')
            for _, vs, _ in sm.yields:
                for v in vs:
                    self.s.hE.setdefault(N, set()).update(conv(v))
            return {N}
        out = set()
        for o in sm.ret:
            out |= conv(o)
        return out

    # -- statements --------------------------------------------------------------------
    def bind(self, t, objs, env, itnode=None, it=None):
        if isinstance(t, ast.Name):
            env[t.id] = set(objs)
            for k in [k for k in env if k.startswith(t.id + '.')]:
                del env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            # components
            e = self.elems(objs)
            if isinstance(itnode, ast.Call) and isinstance(itnode.func, ast.Name) and itnode.func.id == 'enumerate' and len(t.elts) == 2:
                src = itnode.args[0] if itnode.args else None
                self.bind(t.elts[0], set(), env)
                self.bind(t.elts[1], self.elems(self.ev(src, env)) if src is not None else e, env)
                return
            if isinstance(itnode, ast.Call) and isinstance(itnode.func, ast.Name) and itnode.func.id == 'zip' \
                    and len(itnode.args) == len(t.elts):
                for x, a in zip(t.elts, itnode.args):
                    self.bind(x, self.elems(self.ev(a, env)), env)
                return
            if isinstance(itnode, ast.Call) and isinstance(itnode.func, ast.Attribute) and itnode.func.attr == 'items' and len(t.elts) == 2:
                self.bind(t.elts[0], set(), env)
                self.bind(t.elts[1], objs, env)
                return
            n = len(t.elts)
            if objs and all(o[0] == 'N' and (o, '#0/%d' % n) in self.s.hA for o in objs):
                for i, x in enumerate(t.elts):
                    self.bind(x, set().union(*[self.s.hA[(o, '#%d/%d' % (i, n))] for o in objs]), env)
                return
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, e, env)
        elif isinstance(t, ast.Attribute):
            recv = self.ev(t.value, env)
            self.setattr(recv, t.attr, objs, env, t)
            if isinstance(t.value, ast.Name):
                env[ast.unparse(t)] = set(objs)
        elif isinstance(t, ast.Subscript):
            recv = self.ev(t.value, env)
            self.ev(t.slice, env)
            if isinstance(t.value, ast.Subscript) and not recv:
                # a[i][j] = v: writing into a selected element of a
                x = t.value
                n = 0
                while isinstance(x, ast.Subscript):
                    x, n = x.value, n + 1
                recv = self.ev(x, env)
                for _ in range(n):
                    recv = self.elems(recv)
            self.setitem(recv, objs, t)

    def setitem(self, recv, objs, node):
        for o in recv:
            k = self.s.kinds.get(o)
            if isinstance(k, tuple) and k[0] == 'sliceof':
                # writing through a slice changes the array it views
                for b in k[1]:
                    if not self.is_container(b) and b[0] != 'N':
                        self.mutate({b}, node, 'item assignment through a slice')
            c = self.cls_of(o)
            if c is not None and c.find('__setitem__') is not None:
                self.apply(c.find('__setitem__'), [{o}, set(), objs], {}, node)
            else:
                self.mutate({o}, node, 'item assignment')
                self.put({o}, objs, node)

    def setattr(self, recv, name, objs, env, node):
        for o in recv:
            c = self.cls_of(o)
            st = None
            if c is not None:
                st = c.find_setter(name)
            elif name in self.own.by_set and (o, name) not in self.s.hA:
                st = self.own.by_set[name][0]
            if st is not None:
                self.apply(st, [{o}, objs], {}, node)
                self.s.muts.append((o, node, 'assignment of .%s' % name, self.loops))
                continue
            if o[0] == 'N' and len(recv) == 1 and len(self.loops) <= len(self.s.allocs.get(o, ())):
                self.s.hA[(o, name)] = set(objs)
            else:
                self.s.hA.setdefault((o, name), set()).update(objs)
            if o[0] != 'N':
                self.s.stores.append((o, name, set(objs), node))
                self.s.muts.append((o, node, 'assignment of .%s' % name, self.loops))

    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def join(self, env, e1, e2):
        env.clear()
        for k in set(e1) | set(e2):
            if '.' in k and (k not in e1 or k not in e2):
                continue
            env[k] = set(e1.get(k, ())) | set(e2.get(k, ()))

    def stmt(self, s, env):
        t = type(s)
        if t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                if isinstance(x, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(x.elts) == len(s.value.elts) \
                        and not any(isinstance(y, ast.Starred) for y in x.elts):
                    vs = [self.ev(y, env) for y in s.value.elts]
                    for y, w in zip(x.elts, vs):
                        self.bind(y, w, env)
                else:
                    self.bind(x, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif t is ast.AugAssign:
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                o = env.get(s.target.id, set())
                self.aug(o, s, v, s.target.id, env)
            elif isinstance(s.target, ast.Attribute):
                recv = self.ev(s.target.value, env)
                cur = self.ev(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target), env)
                self.aug(cur, s, v, None, env)
                self.setattr(recv, s.target.attr, cur, env, s)
            else:
                recv = self.ev(s.target.value, env)
                self.setitem(recv, v if False else set(), s.target)
        elif t is ast.For or t is ast.AsyncFor:
            it = self.ev(s.iter, env)
            saved = self.loops
            e0 = dict(env)
            self.loops = self.loops + (id(s),)
            for _ in range(2):
                self.bind(s.target, self.elems(it), env, s.iter, it)
                self.block(s.body, env)
            self.loops = saved
            e1 = dict(env)
            self.join(env, e0, e1)
            self.block(s.orelse, env)
        elif t is ast.While:
            self.ev(s.test, env)
            saved = self.loops
            e0 = dict(env)
            self.loops = self.loops + (id(s),)
            for _ in range(2):
                self.block(s.body, env)
                self.ev(s.test, env)
            self.loops = saved
            e1 = dict(env)
            self.join(env, e0, e1)
            self.block(s.orelse, env)
        elif t is ast.If:
            self.ev(s.test, env)
            e1, e2 = dict(env), dict(env)
            self.block(s.body, e1)
            self.block(s.orelse, e2)
            if s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                env.clear()
                env.update(e2)
            elif s.orelse and isinstance(s.orelse[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                env.clear()
                env.update(e1)
            else:
                self.join(env, e1, e2)
        elif t is ast.Return:
            self.s.ret |= self.ev(s.value, env)
        elif t is ast.Expr:
            self.ev(s.value, env)
        elif t is ast.Try:
            self.block(s.body, env)
            for h in s.handlers:
                e = dict(env)
                self.block(h.body, e)
                self.join(env, dict(env), e)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif t in (ast.With, ast.AsyncWith):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.block(s.body, env)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    self.mutate(self.ev(x.value, env), x, 'item deletion')
                elif isinstance(x, ast.Attribute):
                    self.mutate(self.ev(x.value, env), x, 'attribute deletion')
                elif isinstance(x, ast.Name):
                    env.pop(x.id, None)
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.nestedfn(s, env)
        elif t is ast.Import:
            for a in s.names:
                nm = (a.asname or a.name).split('.')[0]
                self.imports[nm] = a.name if a.asname else a.name.split('.')[0]
        elif t is ast.ImportFrom:
            src = self.mod.resolve_from(s)
            for a in s.names:
                m = self.repo.modules.get(src)
                x = self.repo.lookup(m, a.name) if m is not None else None
                self.imports[a.asname or a.name] = x if x is not None else '%s.%s' % (src, a.name)
        elif t in (ast.Raise, ast.Assert):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, env)

    def aug(self, objs, s, v, name, env):
        """x op= y changes the object in place when it is an array or list"""
        keep = set()
        for o in objs:
            if o[0] == 'N':
                self.mutate({o}, s, 'in-place operator')
                if isinstance(s.op, ast.Add) and o in self.s.hE:
                    self.put({o}, self.elems(v), s)
                keep.add(o)
            elif self.arraylike(o, name):
                self.mutate({o}, s, 'in-place operator')
                keep.add(o)
        if name is not None:
            env[name] = keep or ({self.new(s)} if objs else set())

    def arraylike(self, o, name):
        """evidence that the object is an array or list rather than a number, string or tuple"""
        if o[0] == 'A':
            return (o[2] in self.arrays() or self.is_container(o))
        if o[0] == 'E':
            return o[1][0] == 'A' and o[1][2] in ('_positions', 'positions', '_lattice', 'lattice')
        if o[0] == 'P' and name is not None:
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name \
                        and n.attr in ('shape', 'T', 'tolist', 'copy', 'dot', 'reshape', 'astype', 'size', 'ndim', 'flat', 'sum', 'append'):
                    return True
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                    return True
            return name in ('positions', 'numbers', 'lattice', 'pos', 'atoms', 'numbers_arr', 'frac_coor', 'cart_coor', 'scale_mat', 'vector')
        return False

    def arrays(self):
        got = getattr(self.own, '_arrays', None)
        if got is None:
            got = {'_positions', '_lattice', '_numbers', 'positions', 'lattice', 'numbers', '_atom_numbers', '_spg_cell', '_sites', 'centers',
                   '_sym_perm', '_matrix'}
            self.own._arrays = got
        return got


def arity_ok(m, n, kws):
    a = m.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if m.kind == 'method':
        names = names[1:]
    need = len(names) - len(a.defaults)
    if a.vararg is None and n + len([k for k in kws if k in names]) > len(names):
        return False
    if any(k not in names and a.kwarg is None for k in kws if k):
        return False
    return n + len(kws) >= need
