"""One-shot iterators: a stream may be consumed to its end only once (typestate rule over generator objects).

Applies to the functions a property depends on: consuming a generator a second time silently yields nothing, so a level, a
candidate or an atom is lost without any error."""
import ast
import os
from oblig import SPEC_OBLIGATIONS
from repo import Class, Func

LAZY = {'builtins.map', 'builtins.zip', 'builtins.filter', 'builtins.enumerate', 'builtins.reversed', 'itertools.chain',
        'itertools.product', 'itertools.combinations', 'itertools.permutations', 'itertools.starmap', 'itertools.islice',
        'itertools.takewhile', 'itertools.dropwhile', 'itertools.accumulate', 'itertools.count', 'itertools.cycle',
        'itertools.repeat', 'itertools.compress', 'itertools.filterfalse', 'itertools.groupby', 'itertools.zip_longest',
        'itertools.combinations_with_replacement', 'itertools.chain.from_iterable'}
# arguments iterated to the end (lazy ones as soon as they are consumed themselves)
EATS = {'builtins.' + n for n in 'list tuple set frozenset sorted sum max min dict map zip filter enumerate'.split()} | {
    'numpy.array', 'numpy.fromiter', 'collections.Counter', 'collections.deque', 'collections.OrderedDict', 'itertools.chain',
    'itertools.product', 'itertools.combinations', 'itertools.permutations', 'itertools.starmap', 'itertools.accumulate',
    'itertools.compress', 'itertools.filterfalse', 'itertools.groupby', 'itertools.chain.from_iterable', 'functools.reduce',
    'itertools.cycle', 'itertools.zip_longest', 'itertools.combinations_with_replacement', 'itertools.tee'}
EAT_METHODS = {'extend', 'join', 'update', 'extendleft', 'writelines', 'union', 'intersection', 'difference'}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class State(object):
    __slots__ = ('env', 'used')

    def __init__(self, env, used):
        self.env, self.used = env, used

    def copy(self):
        return State(dict(self.env), dict(self.used))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for k in set(a.env) | set(b.env):
        env[k] = a.env.get(k, frozenset()) | b.env.get(k, frozenset())
    used = dict(b.used)
    used.update(a.used)
    return State(env, used)


class Analysis(object):
    def __init__(self, repo):
        self.repo = repo
        self.meths = {}
        self.funcs = [f for f in repo.functions() if not isinstance(f.node, ast.Lambda)]
        for f in self.funcs:
            if f.cls is not None:
                self.meths.setdefault(f.name, []).append(f)
        self.eats = {}          # (func, parameter) consumed to the end
        self.shot = set()       # (func, parameter) receives one-shot iterators
        self.makes = set()      # functions that return a one-shot iterator
        self.viol = {}
        self.sites = 0
        self.attrs = {}         # (class, attribute) -> assignments: lazy?
        self.attr_eaten = {}
        for _ in range(4):
            before = (len(self.eats), len(self.shot), len(self.makes), len(self.attr_eaten))
            self.attrs0, self.attrs, self.attr_eaten = self.attrs, {}, {}
            self.viol, self.sites = {}, 0
            for f in self.funcs:
                Walk(self, f).run()
            if before == (len(self.eats), len(self.shot), len(self.makes), len(self.attr_eaten)) and _:
                break

    def lazy_attr(self, cls, name):
        return any(self.attrs0.get((c.qual, name), frozenset([False])) == frozenset([True]) for c in cls.mro()
                   if (c.qual, name) in self.attrs0)


class Walk(object):
    def __init__(self, an, f):
        self.an, self.f, self.repo = an, f, an.repo
        self.guards = ()
        self.n = 0
        self.local = set()
        self.breaks = []
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]

    def run(self):
        env = {}
        for p in self.params:
            env[p] = frozenset([('param', p)])
        self.block(self.f.node.body, State(env, {}))

    # -- events ------------------------------------------------------------
    def consume(self, toks, node, st, how):
        for t in toks:
            self.an.sites += 1
            if t[0] == 'attr' and self.f.name != '__init__' and self.f.module.name.startswith(('ababe.io', 'ababe.stru', 'ababe.mlearn')):
                self.an.attr_eaten.setdefault((key(self.f), t[1]), (self.f, node, how))
            if t[0] == 'param':
                self.an.eats[(key(self.f), t[1])] = node.lineno
                if (key(self.f), t[1]) not in self.an.shot:
                    continue
            old = st.used.get(t)
            if old is not None and not exclusive(old[1], self.guards):
                self.an.viol.setdefault((key(self.f), node.lineno, node.col_offset), (self.f, node, old[0], how))
            elif old is None:
                st.used[t] = (node, self.guards)

    def token(self, node, st, kind=''):
        self.n += 1
        return frozenset([('gen', node.lineno, node.col_offset, kind, self.n)])

    # -- statements ----------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        t = type(s)
        if t is ast.Assign:
            v = self.ev(s.value, st)
            for tg in s.targets:
                self.assign(tg, v, s.value, st)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), s.value, st)
        elif t is ast.AugAssign:
            v = self.ev(s.value, st)
            self.consume(v, s, st, 'added to another sequence')
        elif t is ast.Expr:
            self.ev(s.value, st)
        elif t is ast.Return:
            v = self.ev(s.value, st)
            if v:
                if any(x[0] == 'gen' for x in v):
                    self.an.makes.add(key(self.f))
                self.consume(v, s, st, 'returned')
            return None
        elif t is ast.Raise:
            return None
        elif t in (ast.Break, ast.Continue):
            if self.breaks:
                self.breaks[-1][0 if t is ast.Break else 1].append(st)
            return None
        elif t is ast.If:
            self.ev(s.test, st)
            g = self.guards
            d = ast.dump(s.test)
            a, b = st.copy(), st.copy()
            self.guards = g + ((d, True),)
            a = self.block(s.body, a)
            self.guards = g + ((d, False),)
            b = self.block(s.orelse, b)
            self.guards = g
            return join(a, b)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(s.iter, st)
            if it and not own_break(s.body):
                self.consume(it, s.iter, st, 'iterated')
            return self.loop(s.body, s.orelse, st, s.target)
        elif t is ast.While:
            self.ev(s.test, st)
            return self.loop(s.body, s.orelse, st, None, s.test)
        elif t in (ast.With, ast.AsyncWith):
            for i in s.items:
                self.ev(i.context_expr, st)
            return self.block(s.body, st)
        elif t is ast.Try:
            a = self.block(s.body, st.copy())
            a2 = self.block(s.orelse, a) if a is not None else None
            out = a2
            for h in s.handlers:
                out = join(out, self.block(h.body, st.copy()))
            if s.finalbody:
                out2 = self.block(s.finalbody, (out or st).copy())
                out = out2 if out is not None else None
            return out
        elif t in (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef):
            if t is ast.FunctionDef:
                self.local.add(s.name)
        elif t is ast.Assert:
            self.ev(s.test, st)
        return st

    def loop(self, body, orelse, st, target, test=None):
        out = st
        for _ in range(2):
            if out is None:
                break
            cur = out.copy()
            if target is not None:
                for x in ast.walk(target):
                    if isinstance(x, ast.Name):
                        cur.env[x.id] = frozenset()
            self.breaks.append(([], []))
            e = self.block(body, cur)
            br, co = self.breaks.pop()
            for c in co:
                e = join(e, c)
            if test is not None and e is not None:
                self.ev(test, e)
            nxt = join(out if _ == 0 else None, e)
            for b in br:
                st = join(st, b)
            if e is None:
                out = join(st, out)
                break
            out = e
        res = join(st, out)
        return self.block(orelse, res) if orelse and res is not None else res

    def assign(self, tg, v, node, st):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, x in enumerate(tg.elts):
                if isinstance(node, (ast.Tuple, ast.List)) and i < len(node.elts) and isinstance(x, ast.Name):
                    st.env[x.id] = getattr(node, '_sa_el', {}).get(i, frozenset())
                elif isinstance(x, ast.Name):
                    st.env[x.id] = frozenset(('gen',) + t[1:] + (i,) for t in v if t[0] == 'tee')
        elif isinstance(tg, (ast.Attribute, ast.Subscript)):
            if isinstance(tg, ast.Attribute) and self.own(tg):
                k = (self.f.cls.qual, tg.attr)
                lazy = bool(v) and all(x[0] == 'gen' for x in v)
                self.an.attrs[k] = self.an.attrs.get(k, frozenset()) | {lazy}
            self.ev(tg.value, st)

    def own(self, n):
        return isinstance(n.value, ast.Name) and self.f.cls is not None and self.f.kind == 'method' and bool(self.params) \
            and n.value.id == self.params[0]

    # -- expressions -----------------------------------------------------------
    def ev(self, n, st):
        none = frozenset()
        if n is None:
            return none
        t = type(n)
        if t is ast.Name:
            return st.env.get(n.id, none)
        if t is ast.Constant:
            return none
        if t in (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp):
            self.comp(n, st)
            return self.token(n, st) if t is ast.GeneratorExp else none
        if t is ast.Call:
            return self.call(n, st)
        if t is ast.Yield:
            v = self.ev(n.value, st)
            self.consume(v, n, st, 'handed out')
            return none
        if t is ast.YieldFrom:
            self.consume(self.ev(n.value, st), n, st, 'handed out')
            return none
        if t in (ast.Tuple, ast.List):
            el = {}
            for i, e in enumerate(n.elts):
                v = self.ev(e.value if isinstance(e, ast.Starred) else e, st)
                if isinstance(e, ast.Starred):
                    self.consume(v, e, st, 'unpacked')
                elif v:
                    el[i] = v
            n._sa_el = el
            return none
        if t is ast.IfExp:
            self.ev(n.test, st)
            g, d = self.guards, ast.dump(n.test)
            self.guards = g + ((d, True),)
            a = self.ev(n.body, st)
            self.guards = g + ((d, False),)
            b = self.ev(n.orelse, st)
            self.guards = g
            return a | b
        if t is ast.Subscript:
            v = self.ev(n.value, st)
            self.ev(n.slice, st)
            i = n.slice.value if isinstance(n.slice, ast.Constant) else '?'
            return frozenset(('gen',) + x[1:] + (i,) for x in v if x[0] == 'tee' and i != '?')
        if t is ast.NamedExpr:
            v = self.ev(n.value, st)
            st.env[n.target.id] = v
            return v
        if t is ast.Attribute and self.own(n) and self.an.lazy_attr(self.f.cls, n.attr):
            return frozenset([('attr', n.attr)])
        if t is ast.Lambda:
            return none
        if t is ast.Starred:
            self.consume(self.ev(n.value, st), n, st, 'unpacked')
            return none
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return none

    def comp(self, n, st):
        saved = dict(st.env)
        for i, g in enumerate(n.generators):
            for _ in range(1 if i == 0 else 2):
                it = self.ev(g.iter, st)
                self.consume(it, g.iter, st, 'iterated')
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    st.env[x.id] = frozenset()
        body = [c for g in n.generators for c in g.ifs] + ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt])
        for _ in range(2):
            for c in body:
                self.ev(c, st)
        st.env = saved

    def callee(self, n, st):
        """('pkg', [functions], receiver?) | ('ext', dotted name) | ('meth', name)"""
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in self.local or f.id in st.env:
                return ('?', None)
            r = self.repo.lookup(self.f.module, f.id)
            if r is None and f.id in BUILTINS:
                imp = self.imports().get(f.id)
                return ('ext', imp or 'builtins.' + f.id)
            if r is None:
                return ('ext', self.imports().get(f.id, '?'))
            return self.classify(r)
        if isinstance(f, ast.Attribute):
            r = self.repo.resolve_expr(self.f.module, f)
            if r is not None and not (isinstance(r, tuple) and r[0] == 'var'):
                return self.classify(r)
            if isinstance(f.value, ast.Name) and self.f.cls is not None and self.params and f.value.id == self.params[0]:
                m = self.f.cls.find(f.attr)
                return ('pkg', [m], 1) if m is not None else ('meth', f.attr)
            ms = self.an.meths.get(f.attr)
            if ms and f.attr not in EAT_METHODS:
                return ('pkg', ms, 1)
            return ('meth', f.attr)
        return ('?', None)

    def imports(self):
        if not hasattr(self, '_imp'):
            self._imp = {}
            for x in ast.walk(self.f.node):
                if isinstance(x, ast.ImportFrom) and x.module:
                    for a in x.names:
                        self._imp[a.asname or a.name] = x.module + '.' + a.name
        return self._imp

    def classify(self, r):
        if isinstance(r, Func):
            return ('pkg', [r], 1 if r.cls is not None and r.kind in ('method', 'classmethod') else 0)
        if isinstance(r, Class):
            i = r.find('__init__')
            return ('pkg', [i], 1) if i is not None else ('?', None)
        if isinstance(r, tuple) and r[0] == 'ext':
            return ('ext', r[1])
        return ('?', None)

    def call(self, n, st):
        c = self.callee(n, st)
        if isinstance(n.func, ast.Attribute):
            self.ev(n.func.value, st)
        args = [(i, self.ev(a, st), a) for i, a in enumerate(n.args)]
        kws = [(k.arg, self.ev(k.value, st), k.value) for k in n.keywords]
        if c[0] == 'pkg':
            gen = False
            for f in c[1]:
                ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                off = 1 if f.kind in ('method', 'classmethod', 'property') and f.cls is not None else 0
                gen = gen or f.is_gen or key(f) in self.an.makes
                for i, v, a in args:
                    if v and i + off < len(ps):
                        self.passed(f, ps[i + off], v, a, st, len(c[1]) == 1)
                for k, v, a in kws:
                    if v and k in [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]:
                        self.passed(f, k, v, a, st, len(c[1]) == 1)
            return self.token(n, st) if gen and len(c[1]) >= 1 and all(f.is_gen or key(f) in self.an.makes for f in c[1]) else frozenset()
        if c[0] == 'ext':
            if c[1] == 'builtins.iter' and len(args) == 1:
                return args[0][1] or self.token(n, st)
            if c[1] in EATS:
                for i, v, a in args:
                    if v:
                        self.consume(v, a, st, 'passed to ' + c[1].split('.')[-1])
            if c[1] == 'itertools.tee':
                self.n += 1
                return frozenset([('tee', n.lineno, n.col_offset, '', self.n)])
            if c[1] in LAZY:
                return self.token(n, st)
            return frozenset()
        if c[0] == 'meth' and c[1] in EAT_METHODS:
            for i, v, a in args:
                if v:
                    self.consume(v, a, st, 'passed to ' + c[1])
        return frozenset()

    def passed(self, f, p, v, a, st, sure):
        if any(t[0] == 'gen' or t[0] == 'param' and (key(self.f), t[1]) in self.an.shot for t in v) and sure:
            self.an.shot.add((key(f), p))
        if sure and (f.is_gen or True) and (key(f), p) in self.an.eats:
            self.consume(v, a, st, 'passed to ' + f.name)


def own_break(body):
    """the loop may stop before the end of its iterator"""
    st = list(body)
    while st:
        s = st.pop()
        if isinstance(s, (ast.Break, ast.Return)):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and any(isinstance(x, ast.Return) for x in ast.walk(s)):
                return True
            continue
        for fld in ('body', 'orelse', 'finalbody'):
            st += getattr(s, fld, [])
        for h in getattr(s, 'handlers', []):
            st += h.body
    return False


def exclusive(g1, g2):
    d = dict(g1)
    return any(k in d and d[k] != v for k, v in g2)


def key(f):
    return f.qual


def bound_names(nodes):
    out = set()
    for b in nodes:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def late_binding(f):
    """lazy expressions that leave an iteration although they read a variable which later iterations rebind"""
    out = []
    for loop in ast.walk(f.node):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        inner = [x for b in loop.body for x in ast.walk(b)]
        defs = [x for x in inner if isinstance(x, (ast.GeneratorExp, ast.Lambda)) or isinstance(x, ast.FunctionDef)]
        if not defs:
            continue
        own = set()
        for d in defs:
            own |= {id(y) for y in ast.walk(d)}
        rebound = {x.id for x in inner + (list(ast.walk(loop.target)) if isinstance(loop, ast.For) else [])
                   if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in own}
        for d in defs:
            late = lazy_reads(d) & rebound
            if not late:
                continue
            for how in escapes(d, loop, inner):
                # a name that only refers to the lazy object itself
                out.append((d, sorted(late)[0], how))
                break
    return out


def lazy_reads(d):
    if isinstance(d, ast.GeneratorExp):
        parts = [d.elt] + [c for g in d.generators for c in g.ifs] + [g.iter for g in d.generators[1:]]
        loc = bound_names([g.target for g in d.generators])
    else:
        parts = d.body if isinstance(d, ast.FunctionDef) else [d.body]
        a = d.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc |= bound_names(parts)
    out = set()
    for p in parts:
        for x in ast.walk(p):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return out - loc


STORES = {'append', 'add', 'insert', 'appendleft', 'push', 'setdefault'}


def escapes(d, loop, inner):
    names = set()
    for x in inner:
        if isinstance(x, ast.Assign) and x.value is d:
            for t in x.targets:
                if isinstance(t, ast.Name):
                    names.add(t.id)
                else:
                    yield 'stored'
    if isinstance(d, ast.FunctionDef):
        names.add(d.name)

    def it(e):
        return e is d or isinstance(e, ast.Name) and e.id in names
    for x in inner:
        if isinstance(x, ast.Yield) and x.value is not None and (it(x.value) or isinstance(x.value, ast.Tuple)
                                                                 and any(it(e) for e in x.value.elts)):
            yield 'handed out'
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in STORES and any(it(a) for a in x.args):
            yield 'collected'
    # carried into the next iteration
    for n in names:
        if isinstance(d, ast.GeneratorExp) and any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(d.generators[0].iter)):
            yield 'carried into later iterations'


_cache = {}


def rule(pid):
    def run(repo, out, tier):
        if id(repo) not in _cache:
            _cache.clear()
            _cache[id(repo)] = Analysis(repo)
        an = _cache[id(repo)]
        want = set(SPEC_OBLIGATIONS.get(pid, [])) | set(out.inlined)
        if pid == 'C18':
            want |= {key(f) for f in an.funcs if f.module.name.startswith('ababe.cmdline')}
        n = len(want)
        out.rules.append('typestate: no one-shot iterator is consumed to its end twice on a path (streams, generators, map, zip, '
                         'tee branches), and no lazy expression leaves a loop iteration while reading a variable later iterations rebind, in the '
                         'functions the property depends on')
        bad = 0
        for (q, l, c), (f, node, first, how) in sorted(an.viol.items(), key=lambda x: x[0]):
            if q not in want and not any(q.startswith(w + '.') for w in want):
                continue
            bad += 1
            out.add('violation', '%s:%d %s' % (os.path.relpath(f.module.path, repo.root), node.lineno, q), 'single use',
                    'a one-shot iterator is %s here although line %d has already consumed it' % (how, first.lineno),
                    key='%s single use' % q)
        for (q, a), (f, node, how) in sorted(an.attr_eaten.items(), key=lambda x: x[0]):
            if q in want:
                bad += 1
                out.add('violation', '%s:%d %s' % (os.path.relpath(f.module.path, repo.root), node.lineno, q), 'single use',
                        'self.%s is a one-shot iterator made once for the object, and is %s on every call' % (a, how),
                        key='%s single use %s' % (q, a))
        for f in an.funcs:
            if key(f) in want:
                for d, nm, how in late_binding(f):
                    bad += 1
                    out.add('violation', '%s:%d %s' % (os.path.relpath(f.module.path, repo.root), d.lineno, key(f)), 'late binding',
                            'a lazy expression is %s although it reads %s, which later iterations rebind' % (how, nm),
                            key='%s late binding' % key(f))
        if not bad:
            out.add('ok', 'ababe/', 'single use', '%d consumption sites in the package, %d functions in scope' % (an.sites, n),
                    key='single use')
        if an.sites < 3:
            out.broken.append('only %d consumption sites found' % an.sites)
    return run


RULES = {p: [rule(p)] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C12', 'C13', 'C14', 'C15', 'C18', 'C26')}
