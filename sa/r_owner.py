"""C22 (and parts of C01, C11, C23): who may modify what, what is shared, what survives a call."""
import ast
import os
import own
import specs
from own import Own, base, path, key, SELFN
from repo import Class, Func

SC = 'ababe.stru.scaffold:'
_cache = {}


def analysis(repo):
    if id(repo) not in _cache:
        _cache.clear()
        _cache[id(repo)] = Own(repo)
    return _cache[id(repo)]


# documented mutators: function -> objects it may change (prefixes of paths)
MUT = {'*.__init__': ('self',)}
for n in ('append insert pop extend __setitem__ __delitem__ append_site remove_site remove_sites append_sites translate_sites '
          'perturb __iadd__ clear reverse sort remove').split():
    MUT[SC + 'ModifiedCell.' + n] = ('self',)
MUT[SC + 'SitesGrid.__setitem__'] = ('self',)
MUT['ababe.stru.scaffold2d:SitesGrid2d.__setitem__'] = ('self',)
MUT[SC + 'GeneralCell.numbers@setter'] = ('self',)
MUT['ababe.stru.site:Site.position@setter'] = ('self',)
MUT['ababe.stru.site:Site.element@setter'] = ('self',)
for n in ('expand', 'update', 'update_recursive'):
    MUT['ababe.mlearn.mcts:TreeNode.' + n] = ('self',)
for n in ('_playout', 'get_move', 'update_with_move'):
    MUT['ababe.mlearn.mcts:MCTS.' + n] = ('self',)
MUT['ababe.mlearn.mcts:MCTS._playout'] = ('self', 'state')          # 'a copy must be provided'
MUT['ababe.mlearn.mcts:MCTS._evaluate_rollout'] = ('self', 'state')
for n in ('add', 'push', 'discard', 'random_pop', 'clear', 'pop', 'remove'):
    MUT['ababe.mlearn.dsutils:RandomPopSet.' + n] = ('self',)
for n in ('AtomRemoveClarifier', 'VerboseAtomRemoveClarifier'):
    MUT['ababe.stru.clarifier:%s.clarify' % n] = ('modcell', '#1')

# objects the result of a function may share with its inputs (anything else must be new)
SG = 'ababe.stru.sogen:OccupyGenerator.'
FRESH = {
    SC + 'ModifiedCell.copy': (),
    SC + 'SitesGrid.deepCopy': ('self._sites[*][*][*]',),
    SC + 'ModifiedCell.positions': (), SC + 'ModifiedCell.numbers': (),
    SC + 'ModifiedCell.from_gcell': ('._lattice',), SC + 'ModifiedCell.to_gcell': ('._lattice',),
    SC + 'GeneralCell.supercell': (), SC + 'GeneralCell.get_cartesian': (), SC + 'GeneralCell.get_symmetry_permutation': (),
    SC + 'GeneralCell.get_refined_cell': (), SC + 'GeneralCell.get_refined_pcell': (), SC + 'GeneralCell.get_shaped_cell': ('._lattice',),
    SC + 'CStru.get_cell': (), SC + 'CStru.get_lattice': (), SC + 'CStru.get_positions': (), SC + 'CStru.get_atoms': (),
    SC + 'CStru.get_array': (), SC + 'SitesGrid.to_array': (), SC + 'SitesGrid.from_array': (),
    'ababe.stru.buckyball:Structure.gen_speckle': (), 'ababe.stru.buckyball:Structure.help_add_one_speckle': ('l[*]', 'sp._Z'),
    'ababe.stru.buckyball:Structure.add_one_speckle_generator': ('sp._Z',),
    'ababe.stru.grid:SuperLatticeCell.to_general_cell': (),
}
for n in ('gen_dup_unitary gen_dup gen_dup_of_ele _gen_dup_trinary_alloy gen_add_one_speckle_unitary gen_add_one_speckle '
          'gen_add_one_speckle_of_ele').split():
    FRESH[SG + n] = ('lattice', 'symprec', '_Z')

# fields that hold data of their own: never the caller's array, never module data
OWNED = {(SC + 'GeneralCell', '_positions'), (SC + 'GeneralCell', '_numbers'), (SC + 'ModifiedCell', '_sites'),
         ('ababe.stru.buckyball:Structure', '_lattice'), ('ababe.stru.buckyball:Structure', '_positions'),
         ('ababe.stru.buckyball:Structure', '_atom_numbers'), ('ababe.mlearn.dsutils:RandomPopSet', 'list'),
         ('ababe.mlearn.dsutils:RandomPopSet', 'map'), ('ababe.mlearn.mcts:TreeNode', '_children')}


def reach(s, objs):
    seen = set()
    st = list(objs)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += list(s.hE.get(x, ())) if x[0] == 'N' else []
        if x[0] == 'N':
            for (q, a), v in s.hA.items():
                if q == x:
                    st += list(v)
            k = s.kinds.get(x)
            if isinstance(k, tuple) and k[0] == 'shallow':
                st += [('A', b, '(fields)') for b in k[1] if b[0] != 'N']
    return seen


def rep(repo, out, status, f, node, rule, text, k):
    out.add(status, '%s:%d %s' % (os.path.relpath(f.module.path, repo.root), getattr(node, 'lineno', f.node.lineno), key(f)), rule, text,
            key='%s %s' % (key(f), k))


def pinned_functions(repo):
    """functions of the interface: those with a reference description"""
    return set(repo_quals(repo))


def repo_quals(repo):
    for n, m in repo.modules.items():
        if not m.spec:
            continue
        for real, rm in repo.modules.items():
            if not rm.spec and real.replace('.', '_') == n[5:]:
                for f in m.funcs:
                    yield '%s:%s' % (real, f)
                for c in m.classes.values():
                    for f in c.methods:
                        yield '%s:%s.%s' % (real, c.name, f[:-8] + '@setter' if f.endswith('__setter') else f)


def allowed(f, o, k):
    q = key(f)
    if f.name == '__init__' and base(o) == SELFN:
        return True
    names = MUT.get(q)
    if names is None and f.cls is not None:
        for c in f.cls.mro()[1:]:
            names = names or MUT.get('%s.%s' % (c.qual, q.split('.')[-1] if '@' in q else f.name))
    if names is None:
        return False
    b = base(o)
    if b == SELFN:
        return 'self' in names
    if '#1' in names:
        ps = [x.arg for x in f.node.args.args]
        return len(ps) > 1 and b == ('P', ps[1])
    return b[0] == 'P' and b[1] in names


def c22(repo, out, tier):
    out.rules.append('ownership: allocation-site points-to analysis with call summaries; a function may modify only objects it created, '
                     'its own object if it is a documented mutator, and nothing reachable from its arguments; results share nothing with '
                     'inputs beyond the listed immutable parts; objects handed out in a loop are created in that iteration')
    an = analysis(repo)
    pin = pinned_functions(repo)
    nm = nf = ny = 0
    for f in an.funcs:
        s = an.sums[key(f)]
        nf += 1
        q = key(f)
        priv = f.name.startswith('_') and not f.name.startswith('__')
        app = f.module.name.startswith('ababe.cmdline')
        seen = set()
        for o, node, how, _ in s.muts:
            nm += 1
            b = base(o)
            if b[0] == 'N':
                continue
            if (o, how) in seen:
                continue
            seen.add((o, how))
            if b[0] == 'G':
                continue
            if q not in pin or priv and b != SELFN:
                continue          # helpers: their effect is attributed to the callers
            if allowed(f, o, how):
                continue
            if app and b == SELFN:
                continue
            if b == SELFN and f.kind == 'classmethod':
                continue
            if b == SELFN and how.startswith('assignment of .') and o == SELFN:
                attr = how.split('.', 1)[1].split(' ')[0]
                kn = specs.known_attrs(repo, f.cls)
                if attr not in kn:
                    continue      # a private cache field of its own
            if b == SELFN and o[0] == 'A':
                at = o
                while at[1] != SELFN:
                    at = at[1] if at[1][0] in 'AE' else SELFN
                    if at == SELFN:
                        break
                at = at[2] if at != SELFN and at[0] == 'A' else o[2]
                if at not in specs.known_attrs(repo, f.cls) | props(f.cls) and (at not in state(an, f.cls, pin) or (SELFN, at) in s.hA):
                    continue
            rep(repo, out, 'violation', f, node, 'ownership', 'changes %s (%s), which belongs to its caller or to another object'
                % (path(o), how), 'mut %s' % path(o))
        # results
        if q in FRESH:
            objs = set(s.ret)
            for _, v, _ in s.yields:
                objs |= v
            for o in reach(s, objs):
                if base(o)[0] == 'N':
                    continue
                p = path(o)
                if any(p == a or p.endswith(a) for a in FRESH[q]) or scalar(p):
                    continue
                rep(repo, out, 'violation', f, f.node, 'sharing', 'the result shares %s with its source' % p, 'share %s' % p)
        if f.name == '__init__' and f.cls is not None:
            for (o, a), vs in s.hA.items():
                if o == SELFN and (f.cls.qual, a) in OWNED:
                    for v in vs:
                        if v[0] in 'PG' or v[0] in 'AE' and base(v)[0] in 'PG' and base(v) != SELFN:
                            rep(repo, out, 'violation', f, f.node, 'sharing', 'field %s is %s itself, not a copy' % (a, path(v)), 'field ' + a)
        # handed out repeatedly
        ny += len(s.yields) + len(s.puts)
        loops_check(repo, out, an, f, s, q in pin)
    out.extra.update({'ownership_functions': nf, 'modification_sites': nm, 'hand_out_sites': ny})
    if nf < 20 or nm < 10:
        out.broken.append('only %d functions / %d modification sites' % (nf, nm))
    out.add('ok', 'ababe/', 'ownership', '%d functions, %d modification sites, %d hand-out sites' % (nf, nm, ny))
    defaults(repo, out, an)
    memo(repo, out, an)


def state(an, cls, pin):
    """fields that the class's interface functions hand out: its observable state"""
    out = set()
    for c in cls.mro() if cls is not None else ():
        for f in c.methods.values():
            if key(f) in pin or not f.name.startswith('_'):
                for o in an.sums[key(f)].ret:
                    if o[0] == 'A' and o[1] == SELFN:
                        out.add(o[2])
    return out


def props(cls):
    return {n for c in cls.mro() for n, f in c.methods.items() if f.kind == 'property'} if cls is not None else set()


def scalar(p):
    return p.split('.')[-1] in ('_Z', 'Z', 'symprec', 'size', '_num_count', 'num_count')


def loops_check(repo, out, an, f, s, pinned):
    def changed_in(o, loop, after=None):
        for m, node, how, loops in s.muts:
            if m == o and (loop is None or loop in loops) and how != 'dead':
                return node
        return None
    done = set()
    for node, objs, loops in s.yields:
        for o in reach(s, objs):
            if o[0] != 'N' or (o, 'y') in done:
                continue
            al = s.allocs.get(o, ())
            extra = [l for l in loops if l not in al]
            for l in extra:
                m = changed_in(o, l)
                if m is not None:
                    done.add((o, 'y'))
                    rep(repo, out, 'violation', f, node, 'hand-out', 'hands out the same object in every iteration while line %d changes it'
                        % m.lineno, 'reuse')
                    break
            else:
                # changed after having been handed out, in the same iteration
                for m, mn, how, ml in s.muts:
                    if m == o and getattr(mn, 'lineno', 0) > node.lineno and ml[:len(al)] == al[:len(ml)] and after_stmt(f.node, node, mn):
                        done.add((o, 'y'))
                        rep(repo, out, 'violation', f, mn, 'hand-out', 'changes an object after it was handed out', 'late')
                        break
    for c, node, objs, loops in s.puts:
        for o in objs:
            if o[0] != 'N' or (o, 'p') in done or o == c:
                continue
            al = s.allocs.get(o, ())
            cl = s.allocs.get(c, ()) if c[0] == 'N' else ()
            for l in loops:
                if l in al or l in cl:
                    continue
                m = changed_in(o, l)
                if m is not None and not rebound(f.node, node):
                    done.add((o, 'p'))
                    rep(repo, out, 'violation', f, node, 'hand-out', 'collects the same object in every iteration while line %d changes it'
                        % m.lineno, 'reuse')
                    break


def rebound(fn, node):
    return False


def after_stmt(fn, y, m):
    """m follows y in the same statement list or an enclosing one (so it runs after the yield returns)"""
    path_y, path_m = find(fn.body, y), find(fn.body, m)
    if path_y is None or path_m is None:
        return False
    for (b1, i), (b2, j) in zip(path_y, path_m):
        if b1 is not b2:
            return False
        if i != j:
            return j > i
    return False


def find(body, node):
    for i, s in enumerate(body):
        if any(x is node for x in ast.walk(s)):
            for fld in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    r = find(sub, node)
                    if r is not None:
                        return [(body, i)] + r
            return [(body, i)]
    return None


MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


def mutable_expr(d):
    if isinstance(d, MUTABLE):
        return True
    if isinstance(d, ast.Call):
        n = ast.unparse(d.func)
        return n in ('list', 'dict', 'set', 'np.array', 'np.zeros', 'np.ones', 'np.empty', 'OrderedDict', 'defaultdict', 'Counter', 'deque',
                     'collections.OrderedDict', 'collections.defaultdict', 'numpy.array')
    return False


def defaults(repo, out, an):
    """objects that live longer than one call: default values, class fields, module variables"""
    n = 0
    for f in an.funcs:
        s = an.sums[key(f)]
        a = f.node.args
        pos = a.posonlyargs + a.args
        ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in ds:
            n += 1
            if not mutable_expr(d):
                continue
            me = ('P', p.arg)
            for o, node, how, _ in s.muts:
                if base(o) == me:
                    rep(repo, out, 'violation', f, node, 'lifetime', 'changes the default value of parameter %s, which all later calls share'
                        % p.arg, 'default ' + p.arg)
                    break
            else:
                for (o, at), vs in s.hA.items():
                    if o == SELFN and me in vs and f.cls is not None and field_changed(an, f.cls, at):
                        rep(repo, out, 'violation', f, d, 'lifetime', 'field %s is the default value of parameter %s, shared by all objects, '
                            'and methods change it' % (at, p.arg), 'default ' + p.arg)
    for c in repo.classes():
        for at, v in c.attrs.items():
            n += 1
            if not mutable_expr(v):
                continue
            inst = False
            for k in repo.classes():
                if c in k.mro() and '__init__' in k.methods:
                    s = an.sums[key(k.methods['__init__'])]
                    inst = inst or (SELFN, at) in s.hA
            if not inst and field_changed(an, c, at):
                out.add('violation', '%s:%d %s' % (os.path.relpath(c.module.path, repo.root), v.lineno, c.qual), 'lifetime',
                        'class field %s is shared by all objects and methods change it' % at, key='%s classfield %s' % (c.qual, at))
    out.extra['long_lived_objects'] = n


def field_changed(an, c, at):
    for f in an.funcs:
        if f.cls is not None and (f.cls in c.mro() or c in f.cls.mro()):
            for o, node, how, _ in an.sums[key(f)].muts:
                if o[0] == 'A' and o[1] == SELFN and o[2] == at or o[0] == 'E' and o[1] == ('A', SELFN, at):
                    return True
    return False


MEMO = ('lru_cache', 'cache', 'memoize', 'memoized', 'cached', 'cached_property', 'memo')


def memo(repo, out, an, rule='lifetime'):
    for f in an.funcs:
        for d in f.node.decorator_list if not isinstance(f.node, ast.Lambda) else ():
            nm = ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1]
            if nm in MEMO:
                if f.is_gen:
                    rep(repo, out, 'violation', f, d, rule, 'a cached generator is exhausted after its first use', 'memo')
                elif f.cls is not None and f.kind in ('method', 'property'):
                    rep(repo, out, 'violation' if changes(an, f.cls) else 'undecided', f, d, rule,
                        'the cached result does not follow changes of the object', 'memo')
                else:
                    s = an.sums[key(f)]
                    if any(o[0] == 'N' for o in s.ret):
                        rep(repo, out, 'violation', f, d, rule, 'all callers share one cached result object', 'memo')


def changes(an, c):
    """objects of the class can change after construction"""
    for f in an.funcs:
        if f.cls is not None and f.cls in c.mro() and f.name != '__init__' or f.cls is not None and f.cls in c.mro() and '@' in key(f):
            if any(base(o) == SELFN for o, _, _, _ in an.sums[key(f)].muts):
                return True
    return False


def remembers(f, node):
    """NAME[k] = v in a function of nothing but its arguments, k being those arguments"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if f.cls is not None and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.node.decorator_list) or a.vararg or a.kwarg:
        return False
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and (s is node or any(x is node for x in ast.walk(s))) and len(s.targets) == 1 \
                and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name):
            k = s.targets[0].slice
            ks = [k] if isinstance(k, ast.Name) else k.elts if isinstance(k, ast.Tuple) else []
            stored = [x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
            return bool(ks) and all(isinstance(x, ast.Name) for x in ks) and {x.id for x in ks} == set(names) \
                and not set(names) & set(stored)
    return False


def globals_changed(repo, out, an):
    n = 0
    for f in an.funcs:
        s = an.sums[key(f)]
        for o, node, how, _ in s.muts:
            if base(o)[0] == 'G':
                n += 1
                if remembers(f, node):
                    rep(repo, out, 'undecided', f, node, 'process state', 'keeps results in module data %s under all of its arguments'
                        % path(o), 'global %s' % path(o))
                    continue
                rep(repo, out, 'violation', f, node, 'process state', 'changes module data %s (%s): later results depend on earlier calls'
                    % (path(o), how), 'global %s' % path(o))
        for x in ast.walk(f.node):
            if isinstance(x, ast.Global):
                for nm in x.names:
                    if any(isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Store) for y in ast.walk(f.node)):
                        rep(repo, out, 'violation', f, x, 'process state', 'rebinds module variable %s' % nm, 'global ' + nm)
    return n


def c23_state(repo, out, tier):
    out.rules.append('process state: no function changes module data, default values or class fields that outlive the call')
    an = analysis(repo)
    globals_changed(repo, out, an)
    defaults(repo, out, an)
    memo(repo, out, an)
    out.add('ok', 'ababe/', 'process state', '%d functions' % len(an.funcs))


def c01_state(repo, out, tier):
    """two de-duplications never influence each other; an emitted candidate stays as it was"""
    out.rules.append('independence: the record of emitted structures is created per call and the emitted objects are not changed later')
    an = analysis(repo)
    for f in an.funcs:
        if f.module.name not in ('ababe.stru.sogen', 'ababe.stru.buckyball'):
            continue
        s = an.sums[key(f)]
        n0 = len(out.findings)
        for o, node, how, _ in s.muts:
            b = base(o)
            if b[0] == 'G':
                rep(repo, out, 'violation', f, node, 'independence', 'changes module data %s: de-duplications influence each other' % path(o),
                    'global ' + path(o))
            elif b == SELFN and f.name != '__init__' and f.is_gen:
                rep(repo, out, 'violation', f, node, 'independence', 'changes %s of the generator object: runs influence each other' % path(o),
                    'self ' + path(o))
        loops_check(repo, out, an, f, s, True)
        if len(out.findings) == n0:
            out.add('ok', key(f), 'independence', '%d modifications' % len(s.muts))
    sub = type(out)()
    defaults(repo, sub, an)
    memo(repo, sub, an)
    for x in sub.findings:
        if 'ababe/stru/sogen' in x.construct or 'ababe/stru/buckyball' in x.construct:
            out.findings.append(x)


def c11_copy(repo, out, tier):
    out.rules.append('sharing: points-to analysis of copy and conversion of editable cells')
    an = analysis(repo)
    for f in an.funcs:
        q = key(f)
        if not q.startswith(SC + 'ModifiedCell.') or q not in FRESH:
            continue
        s = an.sums[q]
        bad = [path(o) for o in reach(s, set(s.ret)) if base(o)[0] != 'N' and not any(path(o) == a or path(o).endswith(a) for a in FRESH[q])
               and not scalar(path(o))]
        if bad:
            rep(repo, out, 'violation', f, f.node, 'sharing', 'the result shares %s with its source' % bad[0], 'share')
        else:
            out.add('ok', q, 'sharing', '')


def c12_iter(repo, out, tier):
    """a cell is not shortened in place while one of its lists is being walked"""
    out.rules.append('iteration: no list is changed in place while a loop walks it')
    iteration(repo, out, lambda f: f.module.name.startswith('ababe.stru'))


def iteration(repo, out, want):
    an = analysis(repo)
    n = 0
    for f in an.funcs:
        if not want(f):
            continue
        s = an.sums[key(f)]
        w = None
        for loop in ast.walk(f.node):
            if not isinstance(loop, ast.For):
                continue
            n += 1
            src = loop.iter
            if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'enumerate' and src.args:
                src = src.args[0]
            if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr in ('items', 'keys', 'values') and not src.args:
                src = src.func.value
            walked = walked_objects(an, f, src)
            if not walked:
                continue
            for o, node, how, loops in s.muts:
                if id(loop) in loops and o in walked and any(h in how for h in ('.append', '.pop', '.remove', '.insert', 'deletion', '.clear',
                                                                                '.discard', '.add(', '__delitem__', '.extend', '.update()')):
                    if followed_by_exit(loop, node):
                        continue
                    rep(repo, out, 'violation', f, node, 'iteration', 'changes %s (%s) while the loop at line %d walks it'
                        % (path(o), how, loop.lineno), 'iter %s' % path(o))
                    break
    out.add('ok', 'ababe/stru', 'iteration', '%d loops' % n)


def followed_by_exit(loop, node):
    p = find(loop.body, node)
    if not p:
        return False
    for body, i in p[::-1]:
        rest = body[i + 1:]
        if any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in rest):
            return True
    return False


def walked_objects(an, f, src):
    """objects whose iterator the loop holds"""
    w = own.Walk(an, f)
    env = {}
    ps = [x.arg for x in f.node.args.args]
    for i, p in enumerate(ps):
        env[p] = {SELFN} if i == 0 and f.cls is not None and f.kind in ('method', 'property') else {('P', p)}
    if isinstance(src, ast.Name) and src.id not in env:
        # a local: constant alias of an attribute or parameter, assigned once
        asg = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == src.id for t in n.targets)]
        if len(asg) != 1:
            return set()
        src = asg[0].value
        if not isinstance(src, (ast.Attribute, ast.Name)):
            return set()
    try:
        objs = w.ev(src, env)
    except Exception:
        return set()
    out = set(o for o in objs if o[0] != 'N')
    # iterating an object walks the list its __iter__ hands out
    for o in list(out):
        for c in an.repo.classes():
            it = c.find('__iter__')
            if it is not None and not it.is_gen and (o == SELFN and f.cls is c or o[0] == 'P' and o != SELFN):
                for r in an.sums[key(it)].ret:
                    if r[0] == 'A' and r[1] == SELFN:
                        out.add(('A', o, r[2]))
    return out


class Part(object):
    """the obligations about one part of the package"""
    def __init__(self, out, prefixes):
        self.out, self.prefixes = out, prefixes
        self.rules, self.analysed = [], getattr(out, 'analysed', None)

    def add(self, status, where, rule, text, key=None, **kw):
        if any(p in (key or '') or p in where for p in self.prefixes):
            self.out.add(status, where, rule, text, key=key, **kw)

    def __getattr__(self, n):
        return getattr(self.out, n)


def c27_state(repo, out, tier):
    out.rules.append('ownership: a search works on a copy of the state it is given')
    c22(repo, Part(out, ('ababe.mlearn.mcts:',)), tier)


def c28_state(repo, out, tier):
    out.rules.append('ownership: a copied grid is a grid of its own')
    c22(repo, Part(out, ('ababe.stru.scaffold:SitesGrid', 'ababe.stru.scaffold:CStru', 'ababe.stru.scaffold2d:')), tier)


class Rows(object):
    """containers put into several slots of one nested list"""

    def __init__(self, repo, f):
        self.repo, self.f = repo, f
        self.binds, self.inside = {}, {}
        self.scan(f.node.body if isinstance(f.node.body, list) else [], ())
        self.found = []

    def scan(self, body, loops):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.binds.setdefault(st.name, []).append((st, loops))
                continue
            for t in getattr(st, 'targets', []) or ([st.target] if isinstance(st, (ast.AnnAssign, ast.AugAssign, ast.For)) else []):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        v = st.value if n is t and isinstance(st, (ast.Assign, ast.AnnAssign)) else None
                        self.binds.setdefault(n.id, []).append((v, loops + ((st,) if isinstance(st, ast.For) else ())))
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and st.value.func.attr == 'append' and isinstance(st.value.func.value, ast.Name) and len(st.value.args) == 1:
                self.inside.setdefault(st.value.func.value.id, []).append((st.value.args[0], loops))
            inner = loops + ((st,) if isinstance(st, (ast.For, ast.While)) else ())
            for fld in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(st, fld, None), list):
                    self.scan(getattr(st, fld), inner if fld == 'body' else loops)
            for h in getattr(st, 'handlers', []):
                self.scan(h.body, loops)

    def of(self, name):
        b = self.binds.get(name, ())
        return b[0] if len(b) == 1 else (None, ())

    @staticmethod
    def shallow(e):
        """what a list(X), X[:] or X.copy() copies"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'list' and len(e.args) == 1:
            return e.args[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args:
            return e.func.value
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.step is None:
            return e.value
        return None

    def level(self, e, bound=(), deep=0):
        """how many levels of new list the expression surely has"""
        if deep > 12:
            return 0
        lv = lambda x: self.level(x, bound, deep + 1)
        if isinstance(e, ast.List):
            return 1 + max([lv(x) for x in e.elts] or [0])
        if isinstance(e, ast.ListComp):
            return 1 + self.level(e.elt, bound + tuple(targets(e)), deep + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add)):
            return max(lv(e.left), lv(e.right))
        if isinstance(e, ast.IfExp):
            return min(lv(e.body), lv(e.orelse))
        if self.shallow(e) is not None:
            return lv(self.shallow(e))
        if isinstance(e, ast.Name) and e.id not in bound:
            v, _ = self.of(e.id)
            if v is None or isinstance(v, ast.FunctionDef):
                return 0
            return max([self.level(v, (), deep + 1)] + [1 + self.level(x, (), deep + 1) for x, _ in self.inside.get(e.id, ())])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and isinstance(self.of(e.func.id)[0], ast.FunctionDef):
            rs = [n.value for n in ast.walk(self.of(e.func.id)[0]) if isinstance(n, ast.Return) and n.value is not None]
            return min([lv(r) for r in rs] or [0])
        return 0

    def outer(self, e, bound, need):
        return isinstance(e, ast.Name) and e.id not in bound and self.level(e) >= need

    def walk(self, e, bound=(), many=False, deep=0):
        """e: built once for each round of the enclosing comprehensions (many)"""
        if deep > 12:
            return
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for l, k in ((e.left, e.right), (e.right, e.left)):
                once = isinstance(k, ast.Constant) and k.value in (0, 1)
                if not once and self.level(l, bound) >= 2:
                    self.found.append((e, 'the same row object is repeated by the list multiplication'))
                self.walk(l, bound, many, deep + 1)
        elif isinstance(e, ast.ListComp):
            b = bound + tuple(targets(e))
            self.slot(e.elt, b, True)
            if many and isinstance(e.elt, ast.Name) and any(isinstance(g.target, ast.Name) and g.target.id == e.elt.id
                                                            and self.outer(g.iter, bound, 2) for g in e.generators):
                self.found.append((e, 'the same rows are put into every round of the outer comprehension'))
            self.walk(e.elt, b, True, deep + 1)
        elif isinstance(e, ast.List):
            for x in e.elts:
                self.walk(x, bound, many, deep + 1)
        elif isinstance(e, ast.IfExp):
            self.walk(e.body, bound, many, deep + 1)
            self.walk(e.orelse, bound, many, deep + 1)
        elif self.shallow(e) is not None:
            self.walk(self.shallow(e), bound, many, deep + 1)
        elif isinstance(e, ast.Name) and e.id not in bound:
            v, _ = self.of(e.id)
            if v is not None and not isinstance(v, ast.FunctionDef):
                self.walk(v, (), False, deep + 1)
            for x, loops in self.inside.get(e.id, ()):
                if isinstance(x, ast.Name) and loops and self.level(x) >= 1 and len(self.binds.get(x.id, ())) == 1 \
                        and len(self.of(x.id)[1]) < len(loops) and loops[-1] not in self.of(x.id)[1]:
                    self.found.append((x, 'the same row object is appended in every round of the loop'))
                self.walk(x, (), False, deep + 1)

    def slot(self, e, bound, many):
        if self.outer(e, bound, 1):
            self.found.append((e, 'the same row object is put into every slot'))
        s = self.shallow(e)
        if s is not None and self.outer(s, bound, 2):
            self.found.append((e, 'the copies put into the slots share their rows'))


def targets(comp):
    return [n.id for g in comp.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)]


def shared_rows(repo, out, tier):
    """a grid that can be changed point by point keeps every point in a row of its own"""
    out.rules.append('ownership: no row object fills several slots of a grid whose items can be set')
    n = 0
    for f in repo.functions():
        if f.module.spec:
            continue
        for node in ast.walk(f.node):
            exprs = []
            if isinstance(node, ast.Call):
                c = None
                if isinstance(node.func, ast.Name):
                    c = repo.lookup(f.module, node.func.id)
                    if f.cls is not None and f.kind == 'classmethod' and f.node.args.args and node.func.id == f.node.args.args[0].arg:
                        c = f.cls
                elif isinstance(node.func, ast.Attribute) and node.func.attr == '__class__':
                    c = f.cls
                elif isinstance(node.func, ast.Attribute):
                    c = repo.resolve_expr(f.module, node.func)
                if isinstance(c, Class) and c.find('__setitem__') is not None:
                    exprs = list(node.args) + [k.value for k in node.keywords]
            elif isinstance(node, ast.Assign) and f.cls is not None and f.cls.find('__setitem__') is not None \
                    and any(isinstance(t, ast.Attribute) for t in node.targets):
                exprs = [node.value]
            for e in exprs:
                n += 1
                r = Rows(repo, f)
                r.walk(e)
                for at, text in r.found[:1]:
                    rep(repo, out, 'violation', f, at, 'rows', text + ': setting one point of the grid sets others', 'rows')
    out.extra['grid_constructions'] = n


def adopted(repo, out, tier):
    """children point back to their parent: a table of children handed to another node has to bring their parents along"""
    out.rules.append('ownership: a table of children is not handed to another node while the children keep their parent')
    n = 0
    for f in repo.functions():
        if f.module.spec or not f.module.name.startswith('ababe.mlearn'):
            continue
        parents = [t for node in ast.walk(f.module.tree) if isinstance(node, (ast.For, ast.While)) for a in ast.walk(node) if isinstance(a, ast.Assign)
                   for t in a.targets if isinstance(t, ast.Attribute) and t.attr == '_parent']
        parents += [c for c in ast.walk(f.node) if isinstance(c, ast.Call) and ('setattr' in ast.dump(c.func) or '__dict__' in ast.dump(c))]
        for node in ast.walk(f.node):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute) \
                    and node.targets[0].attr == '_children':
                n += 1
                v = node.value
                if isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.func, ast.Name) and v.func.id == 'dict':
                    v = v.args[0]
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and not v.args:
                    v = v.func.value
                if isinstance(v, ast.Attribute) and v.attr == '_children' and ast.dump(v.value) != ast.dump(node.targets[0].value) and not parents:
                    rep(repo, out, 'violation', f, node, 'parents', 'gives the children of %s to %s: they keep their old parent' % (
                        ast.unparse(v.value), ast.unparse(node.targets[0].value)), 'parents')
    out.extra['child_table_assignments'] = n


RULES = {'C22': [c22, shared_rows], 'C28': [c28_state, shared_rows], 'C27': [c27_state, adopted], 'C23': [c23_state], 'C01': [c01_state], 'C03': [c01_state], 'C11': [c11_copy], 'C12': [c12_iter]}
TECH = {'C22': 'ownership analysis (allocation-site points-to with call summaries, documented-mutator table)'}
