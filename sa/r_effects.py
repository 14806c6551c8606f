"""C23: sources of nondeterminism and who may use them.  C31: nothing interprets file content as code."""
import ast
import os
from repo import Class, Func, Module

RANDOM = ('random.', 'numpy.random.', 'secrets.', 'uuid.')
OTHER = {'os.urandom', 'os.getpid', 'os.getppid', 'os.environ', 'os.getenv', 'os.environb', 'time.time', 'time.clock', 'time.perf_counter',
         'time.monotonic', 'time.process_time', 'time.time_ns', 'time.localtime', 'time.ctime', 'time.strftime', 'time.gmtime',
         'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'socket.gethostname',
         'platform.node', 'builtins.id', 'builtins.hash', 'os.getlogin', 'threading.get_ident', 'os.cpu_count', 'sys.getrefcount',
         'random.SystemRandom', 'gc.get_objects', 'threading.current_thread'}
LISTING = {'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk'}
SEED = {'random.seed', 'numpy.random.seed', 'random.setstate', 'numpy.random.set_state', 'numpy.random.RandomState.seed'}
# the documented random features
ALLOWED = {'ababe.stru.scaffold:ModifiedCell.perturb', 'ababe.stru.scaffold:SitesGrid.random_fill',
           'ababe.mlearn.dsutils:RandomPopSet.get_random', 'ababe.mlearn.dsutils:RandomPopSet.random_pop',
           'ababe.mlearn.arrange:random_walk_arrange'}
APPS = 'ababe.cmdline'


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        return node.id, parts[::-1]
    return None, None


def local_imports(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def bound_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


class Sites(object):
    """all references to external objects, with the function they stand in"""

    def __init__(self, repo):
        self.repo = repo
        self.refs = []            # (path, node, func, module, is_call, call node)
        self.calls = {}           # simple name -> set of functions mentioning it
        self.n = 0
        for m in repo.modules.values():
            if m.spec:
                continue
            self.imports = {k: v for k, v in local_imports(m.tree).items()}
            funcs = [f for f in repo.functions() if f.module is m]
            inside = set()
            for f in funcs:
                for x in ast.walk(f.node):
                    inside.add(id(x))
                self.scan(f.node, m, f)
            self.scan(m.tree, m, None, skip=inside)

    def scan(self, tree, m, f, skip=()):
        bound = bound_names(tree) if f is not None else set()
        fn = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                fn[id(n.func)] = n
        inner = set()
        for n in ast.walk(tree):
            if id(n) in skip or id(n) in inner:
                continue
            if isinstance(n, ast.Attribute):
                for x in ast.walk(n.value):
                    if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(n.value, (ast.Attribute, ast.Name)):
                        inner.add(id(x))
                self.calls.setdefault(n.attr, set()).add(f.qual if f else m.name)
            elif isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    self.calls.setdefault(n.id, set()).add(f.qual if f else m.name)
            else:
                continue
            self.n += 1
            root, parts = dotted(n)
            if root is None:
                continue
            if root in bound and root not in self.imports:
                continue
            base = self.imports.get(root) or self.repo.lookup(m, root)
            if base is None and not parts:
                base = 'builtins.' + root
            elif base is None:
                continue
            if not isinstance(base, str):
                continue
            p = '.'.join([base] + parts)
            if p.startswith('np.'):
                p = 'numpy' + p[2:]
            self.refs.append((p, n, f, m, fn.get(id(n))))


_c = {}


def sites(repo):
    if id(repo) not in _c:
        _c.clear()
        _c[id(repo)] = Sites(repo)
    return _c[id(repo)]


def rep(repo, out, status, m, f, n, rule, text, k):
    out.add(status, '%s:%d %s' % (os.path.relpath(m.path, repo.root), n.lineno, f.qual if f else m.name), rule, text,
            key='%s %s' % (f.qual if f else m.name, k))


def only_from(repo, s, qual, ok, seen=()):
    """helper functions: every function that mentions the helper is itself allowed"""
    if qual in ok:
        return True
    if qual in seen:
        return True
    nm = qual.split(':')[-1].split('.')[-1]
    users = s.calls.get(nm, set()) - {qual}
    return bool(users) and all(only_from(repo, s, u, ok, seen + (qual,)) for u in users)


def only_printed(f, call):
    """the value goes to messages only"""
    if f is None or call is None:
        return False
    parents = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            parents[id(c)] = n

    def msg(n):
        while n is not None and not isinstance(n, ast.stmt):
            if isinstance(n, ast.Call):
                q = ast.unparse(n.func)
                if q in ('print', 'click.echo', 'warnings.warn', 'sys.stdout.write', 'sys.stderr.write') or q.split('.')[0] in (
                        'logging', 'logger', 'log'):
                    return True
            n = parents.get(id(n))
        return False
    todo, seen = [call], set()
    while todo:
        c = todo.pop()
        if msg(c):
            continue
        st = c
        while not isinstance(st, ast.stmt):
            st = parents.get(id(st))
            if st is None:
                return False
        if isinstance(st, ast.Expr):
            continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            nm = st.targets[0].id
            if nm in seen:
                continue
            seen.add(nm)
            todo += [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
            continue
        return False
    return True


def c23(repo, out, tier):
    out.rules.append('nondeterminism: every reference to a random generator, clock, environment or process quantity is attributed to a '
                     'function; only the documented random features (and helpers used by nothing else) and the naming of command output may '
                     'use them, and no generator is seeded or replaced')
    s = sites(repo)
    n = 0
    apps = {f.qual for f in repo.functions() if f.module.name.startswith(APPS)}
    for p, node, f, m, call in s.refs:
        rnd = p.startswith(RANDOM)
        if not (rnd or p in OTHER or p in LISTING or p in SEED or p in ('random', 'numpy.random', 'secrets', 'uuid')):
            continue
        if p in ('random', 'numpy.random', 'secrets', 'uuid') and call is None:
            # the module itself passed around
            if isinstance(node, ast.Name):
                rep(repo, out, 'undecided', m, f, node, 'nondeterminism', 'module %s used as a value' % p, p)
            continue
        n += 1
        q = f.qual if f else m.name
        if p in SEED:
            rep(repo, out, 'violation', m, f, node, 'nondeterminism', '%s resets the process-wide generator' % p, p)
            continue
        if p.startswith('numpy.random.') and p.split('.')[2] in ('RandomState', 'Generator', 'default_rng') and q in ALLOWED:
            if call is not None and (call.args or call.keywords):
                rep(repo, out, 'violation', m, f, node, 'nondeterminism', 'a documented random feature uses a fixed seed', p)
            continue
        if rnd and (q in ALLOWED or only_from(repo, s, q, ALLOWED)):
            continue
        if rnd and (q in apps or only_from(repo, s, q, apps)):
            # output names: the command summaries decide that nothing else depends on it
            if p.split('.')[-1] in ('choice', 'choices', 'randint', 'sample', 'randrange', 'token_hex', 'uuid4', 'getrandbits', 'random', 'uuid1'):
                continue
            rep(repo, out, 'violation', m, f, node, 'nondeterminism', '%s in a command' % p, p)
            continue
        if p in LISTING:
            if sorted_use(f, call):
                continue
            rep(repo, out, 'undecided', m, f, node, 'nondeterminism', 'order of %s' % p, p)
            continue
        if p in ('builtins.hash',) and f is not None and f.name == '__hash__':
            continue
        if p in OTHER and (q in apps or only_printed(f, call)):
            if p in ('os.environ', 'os.getenv') and q in apps:
                rep(repo, out, 'violation', m, f, node, 'nondeterminism', 'a command result depends on the environment (%s)' % p, p)
            continue
        if only_printed(f, call):
            continue
        rep(repo, out, 'violation', m, f, node, 'nondeterminism', '%s is used outside the documented random features' % p, p)
    sets = set_order(repo, out)
    out.extra.update({'references_checked': len(s.refs), 'nondeterminism_sites': n, 'set_iterations': sets})
    if len(s.refs) < 100 or n < 1:
        out.broken.append('only %d references / %d sources found' % (len(s.refs), n))
    out.add('ok', 'ababe/', 'nondeterminism', '%d references, %d sources, %d iterations over sets' % (len(s.refs), n, sets))


def sorted_use(f, call):
    if f is None or call is None:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'len', 'set', 'any', 'all') \
                and any(x is call for a in n.args for x in ast.walk(a)):
            return True
    return False


# ---- iteration over sets of strings or objects ---------------------------------------
def elem_kind(e, env):
    """'str' | 'int' | None for the elements of a set expression"""
    return None


def set_order(repo, out):
    n = 0
    for f in repo.functions():
        kinds = {}
        for _ in range(2):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    k = set_kind(x.value, kinds, f)
                    if k is not None:
                        kinds[x.targets[0].id] = k
        consumers = {}
        for x in ast.walk(f.node):
            for c in ast.iter_child_nodes(x):
                consumers[id(c)] = x
        for x in ast.walk(f.node):
            it = None
            if isinstance(x, ast.For):
                it = x.iter
                loop = x
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp)):
                it = x.generators[0].iter
                loop = None
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('list', 'tuple', 'enumerate') and x.args:
                it = x.args[0]
                loop = None
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'join' and x.args:
                it = x.args[0]
                loop = None
            if it is None:
                continue
            k = set_kind(it, kinds, f)
            if k is None:
                continue
            n += 1
            if k != 'str':
                continue
            if loop is not None and order_free(loop):
                continue
            if loop is None:
                par = consumers.get(id(x))
                if isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in ('sorted', 'set', 'frozenset', 'sum', 'any',
                                                                                                     'all', 'len', 'max', 'min', 'dict'):
                    continue
                if isinstance(par, ast.Assign) and isinstance(par.targets[0], ast.Name) and sorted_later(f.node, par.targets[0].id):
                    continue
            out.add('violation', '%s:%d %s' % (os.path.relpath(f.module.path, repo.root), x.lineno, f.qual), 'nondeterminism',
                    'the order of a set of strings (different in every process) reaches the result', key='%s set order' % f.qual)
    return n


def sorted_later(fn, nm):
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'sort' and isinstance(x.func.value, ast.Name) \
                and x.func.value.id == nm:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'sorted' and x.args and isinstance(x.args[0], ast.Name) \
                and x.args[0].id == nm:
            return True
    return False


def order_free(loop):
    """the body only counts, adds to sets/dicts or tests"""
    for s in ast.walk(ast.Module(loop.body, [])):
        if isinstance(s, (ast.Yield, ast.YieldFrom, ast.Return, ast.Break)):
            return False
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'extend', 'insert', 'write', 'join'):
            return False
        if isinstance(s, ast.AugAssign):
            return False
        if isinstance(s, ast.Subscript) and isinstance(s.ctx, ast.Store):
            return False
    return True


STR_FUNCS = {'str', 'repr', 'chr', 'hex', 'format'}


def is_str(e, f):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str)
    if isinstance(e, ast.JoinedStr):
        return True
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in STR_FUNCS:
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'to_name', 'join', 'strip', 'lower', 'upper', 'name'):
            return True
    if isinstance(e, ast.Attribute) and e.attr in ('name', 'symbol', 'wyckoffs'):
        return True
    return False


def seq_of_str(e, kinds, f):
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        return is_str(e.elt, f)
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return bool(e.elts) and all(is_str(x, f) for x in e.elts)
    if isinstance(e, ast.Call):
        fn = ast.unparse(e.func)
        if fn in ('list', 'tuple', 'sorted') and e.args:
            return seq_of_str(e.args[0], kinds, f)
        if fn == 'map' and len(e.args) == 2:
            g = e.args[0]
            return isinstance(g, ast.Lambda) and is_str(g.body, f) or ast.unparse(g).split('.')[-1] in ('to_name', 'str')
        if fn.split('.')[-1] in ('split', 'get_wyckoffs', 'splitlines'):
            return True
    if isinstance(e, ast.Attribute) and e.attr in ('atoms_name_list', 'wyckoffs'):
        return True
    if isinstance(e, ast.Name):
        asg = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
        return len(asg) == 1 and not (isinstance(asg[0], ast.Name)) and seq_of_str(asg[0], kinds, f)
    return False


def set_kind(e, kinds, f):
    """None: not a set; 'str': elements are strings; 'other'"""
    if isinstance(e, ast.Name):
        return kinds.get(e.id)
    if isinstance(e, ast.Set):
        return 'str' if all(is_str(x, f) for x in e.elts) else 'other'
    if isinstance(e, ast.SetComp):
        return 'str' if is_str(e.elt, f) else 'other'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
        return 'str' if e.args and seq_of_str(e.args[0], kinds, f) else 'other'
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        a, b = set_kind(e.left, kinds, f), set_kind(e.right, kinds, f)
        return a if a == b else (a or b)
    return None


# ---- C31 ------------------------------------------------------------------------------
CODE = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__', 'builtins.execfile', 'importlib.import_module',
        'pickle.load', 'pickle.loads', 'pickle.Unpickler', 'cPickle.load', 'cPickle.loads', 'marshal.load', 'marshal.loads', 'shelve.open',
        'dill.load', 'dill.loads', 'joblib.load', 'jsonpickle.decode', 'os.system', 'os.popen', 'os.spawnl', 'os.spawnv', 'os.execv', 'os.execl',
        'os.execvp', 'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'subprocess.check_output', 'subprocess.check_call',
        'subprocess.getoutput', 'subprocess.getstatusoutput', 'commands.getoutput', 'code.interact', 'code.InteractiveInterpreter',
        'runpy.run_path', 'runpy.run_module', 'imp.load_source', 'ctypes.CDLL', 'pandas.read_pickle', 'builtins.input', 'pty.spawn',
        'pickle._loads', 'numpy.lib.format.read_array', 'yaml.unsafe_load', 'yaml.unsafe_load_all', 'yaml.full_load', 'sys.path.append',
        'sys.path.insert', 'numexpr.evaluate', 'types.FunctionType', 'types.CodeType'}
YAML_LOAD = {'yaml.load', 'yaml.load_all', 'ruamel.yaml.load', 'ruamel.yaml.load_all', 'ruamel.yaml.round_trip_load', 'ruamel.yaml.safe_load'}
UNSAFE_LOADERS = {'Loader', 'UnsafeLoader', 'FullLoader', 'CLoader', 'CUnsafeLoader', 'CFullLoader'}
SAFE_LOADERS = {'SafeLoader', 'CSafeLoader', 'RoundTripLoader', 'BaseLoader', 'CBaseLoader'}


def c31(repo, out, tier):
    out.rules.append('no code from data: no reference anywhere in the package to evaluation, unpickling, dynamic import or shells, and every '
                     'YAML load uses a loader that builds plain data only')
    s = sites(repo)
    loads = 0
    for p, node, f, m, call in s.refs:
        if p in CODE:
            if p == 'builtins.compile' or p == 'builtins.input':
                if call is None or p == 'builtins.input':
                    continue
            if p in ('importlib.import_module', 'builtins.__import__') and call is not None and call.args and isinstance(call.args[0], ast.Constant):
                continue
            if p.startswith('builtins.') and is_shadowed(repo, m, p.split('.')[1]):
                continue
            rep(repo, out, 'violation', m, f, node, 'no code from data', '%s is used' % p, p)
        elif p in YAML_LOAD:
            if call is None:
                rep(repo, out, 'undecided', m, f, node, 'no code from data', '%s used as a value' % p, p)
                continue
            loads += 1
            if p.endswith(('safe_load', 'round_trip_load')):
                continue
            ld = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'Loader'), None)
            names = loader_names(ld, f, m) if ld is not None else {None}
            if names and names <= SAFE_LOADERS:
                continue
            bad = sorted(str(n) for n in names & UNSAFE_LOADERS)
            nm = None if ld is None else bad[0] if bad else ast.unparse(ld)
            if ld is not None and not bad:
                rep(repo, out, 'undecided', m, f, node, 'no code from data', '%s with loader %s' % (p, nm), p)
                continue
            rep(repo, out, 'violation', m, f, node, 'no code from data', '%s with %s can construct arbitrary objects'
                % (p, nm or 'the default loader'), p)
        elif p in ('yaml.safe_load', 'yaml.safe_load_all', 'json.load', 'json.loads'):
            loads += 1
        elif p in ('numpy.load', 'numpy.lib.npyio.load') and call is not None:
            loads += 1
            for k in call.keywords:
                if k.arg == 'allow_pickle' and not (isinstance(k.value, ast.Constant) and k.value.value is False) and not package_data(call):
                    rep(repo, out, 'violation', m, f, node, 'no code from data', 'numpy.load may unpickle objects', p)
            if not package_data(call) and not any(k.arg == 'allow_pickle' for k in call.keywords):
                rep(repo, out, 'violation', m, f, node, 'no code from data', 'numpy.load of a user file unpickles objects by default', p)
        elif p.startswith(('subprocess.', 'pickle.', 'cPickle.', 'dill.', 'marshal.')) and call is not None:
            rep(repo, out, 'violation', m, f, node, 'no code from data', '%s is used' % p, p)
    # loader objects: ruamel's YAML(typ=...)
    for m in repo.modules.values():
        if m.spec:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                fn = ast.unparse(n.func)
                if fn.split('.')[-1] in ('YAML', 'MyYAML') or fn.startswith('super('):
                    for k in n.keywords:
                        if k.arg == 'typ':
                            loads += 1
                            txt = ast.unparse(k.value)
                            if 'unsafe' in txt or "'full'" in txt:
                                out.add('violation', '%s:%d %s' % (os.path.relpath(m.path, repo.root), n.lineno, m.name), 'no code from data',
                                        'YAML loader of type %s constructs arbitrary objects' % txt, key='%s YAML typ' % m.name)
                    if n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == 'unsafe':
                        out.add('violation', '%s:%d %s' % (os.path.relpath(m.path, repo.root), n.lineno, m.name), 'no code from data',
                                'YAML loader of type unsafe constructs arbitrary objects', key='%s YAML typ' % m.name)
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'typ' for t in n.targets):
                if 'unsafe' in ast.unparse(n.value):
                    out.add('violation', '%s:%d %s' % (os.path.relpath(m.path, repo.root), n.lineno, m.name), 'no code from data',
                            'YAML loader switched to unsafe', key='%s YAML typ' % m.name)
            # attribute chosen by data and called: getattr(module, text)(...)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Call) and isinstance(n.func.func, ast.Name) and n.func.func.id == 'getattr' \
                    and len(n.func.args) > 1 and not isinstance(n.func.args[1], ast.Constant):
                r = repo.resolve_expr(m, n.func.args[0]) if isinstance(n.func.args[0], (ast.Name, ast.Attribute)) else None
                if isinstance(r, (str, Module)):
                    out.add('violation', '%s:%d %s' % (os.path.relpath(m.path, repo.root), n.lineno, m.name), 'no code from data',
                            'calls a function of %s selected by a value' % (r if isinstance(r, str) else r.name), key='%s getattr call' % m.name)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
                    and n.value.func.id in ('globals', 'locals', 'vars') and not isinstance(n.slice, ast.Constant) and isinstance(n.ctx, ast.Load):
                out.add('violation', '%s:%d %s' % (os.path.relpath(m.path, repo.root), n.lineno, m.name), 'no code from data',
                        'looks up an object by a name given as data', key='%s globals' % m.name)
            if isinstance(n, ast.keyword) and n.arg == 'shell' and isinstance(n.value, ast.Constant) and n.value.value:
                out.add('violation', '%s:%d %s' % (os.path.relpath(m.path, repo.root), n.value.lineno, m.name), 'no code from data',
                        'shell=True', key='%s shell' % m.name)
    out.extra.update({'references_checked': len(s.refs), 'load_sites': loads})
    if len(s.refs) < 100 or loads < 1:
        out.broken.append('only %d references, %d load sites' % (len(s.refs), loads))
    out.add('ok', 'ababe/', 'no code from data', '%d references, %d load sites' % (len(s.refs), loads))


def is_shadowed(repo, m, name):
    return name in m.names


def loader_names(e, f, m, depth=0):
    """the loader classes an expression can stand for"""
    if depth > 4:
        return {'?'}
    if isinstance(e, ast.IfExp):
        return loader_names(e.body, f, m, depth + 1) | loader_names(e.orelse, f, m, depth + 1)
    if isinstance(e, ast.BoolOp):
        return set().union(*[loader_names(v, f, m, depth + 1) for v in e.values])
    if isinstance(e, ast.Attribute):
        return {e.attr}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 \
            and isinstance(e.args[1], ast.Constant):
        return {e.args[1].value}.union(*[loader_names(v, f, m, depth + 1) for v in e.args[2:]])
    if not isinstance(e, ast.Name):
        return {'?'}
    out = set()
    for tree in ([f.node] if f is not None else []) + [m.tree]:
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                out |= loader_names(n.value, f, m, depth + 1)
            elif isinstance(n, (ast.ImportFrom, ast.Import)):
                out |= {a.name.split('.')[-1] for a in n.names if (a.asname or a.name) == e.id}
            elif isinstance(n, ast.ClassDef) and n.name == e.id:
                for b in n.bases:
                    out |= loader_names(b, f, m, depth + 1)
        if out:
            break
    return out or {'?'}


def package_data(call):
    """the argument is a path built from the package's own location"""
    return call.args and '__file__' in ast.unparse(call.args[0]) or bool(call.args) and isinstance(call.args[0], ast.Name) and \
        call.args[0].id.isupper()


RULES = {'C23': [c23], 'C31': [c31]}
TECH = {'C23': 'effect analysis: who-may-use rule for nondeterminism sources, process-state and set-order lint',
        'C31': 'forbidden-effect query over all references of the package'}
