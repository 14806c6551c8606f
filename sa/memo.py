"""Attributes that only remember a computed value: a method that keeps its result on the object, with every method changing what the
result depends on dropping it again, is read as the computation alone.  Anything short of that is left as written."""
import ast

IMMUTABLE_CALLS = {'intdigest', 'hexdigest', 'digest', 'int', 'float', 'str', 'len', 'tuple', 'frozenset', 'bool', 'round', 'sum', 'hash',
                   'format', 'join', 'tobytes', 'abs', 'id', 'all', 'any'}


def _self_attr(n, name=None):
    return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and (name is None or n.attr == name)


def _getattr_of(n, fn='getattr'):
    """getattr(self, 'A', None) / hasattr(self, 'A') -> A"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == fn and not n.keywords \
            and len(n.args) == (3 if fn == 'getattr' else 2) and isinstance(n.args[0], ast.Name) and n.args[0].id == 'self' \
            and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
        if fn == 'getattr' and not (isinstance(n.args[2], ast.Constant) and n.args[2].value is None):
            return None
        return n.args[1].value


def _is_reset(s, A):
    if isinstance(s, ast.Assign) and all(_self_attr(t, A) for t in s.targets) and isinstance(s.value, ast.Constant) and s.value.value is None:
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        c = s.value
        if isinstance(c.func, ast.Attribute) and c.func.attr == 'pop' and _self_attr(c.func.value, '__dict__') and len(c.args) == 2 \
                and isinstance(c.args[0], ast.Constant) and c.args[0].value == A:
            return True
    return False


def _immutable(v, env):
    if isinstance(v, ast.Name):
        return v.id in env and all(_immutable(x, {}) for x in env[v.id])
    if isinstance(v, ast.Call):
        f = v.func
        return (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')) in IMMUTABLE_CALLS
    if isinstance(v, (ast.Compare, ast.JoinedStr)):
        return True
    if isinstance(v, ast.Tuple):
        return all(_immutable(x, env) or isinstance(x, ast.Constant) for x in v.elts)
    return False


def apply(repo):
    classes = [c for m in repo.modules.values() if not m.spec for c in m.classes.values()]
    occ = {}
    for m in repo.modules.values():
        if m.spec:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                occ.setdefault(n.attr, []).append(n)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                occ.setdefault(n.value, []).append(n)
    done = []
    for c in classes:
        fns = list(c.methods.values()) + list(c.setters.values())
        stored = {}
        for f in fns:
            for n in ast.walk(f.node):
                if _self_attr(n) and isinstance(n.ctx, ast.Store):
                    stored.setdefault(n.attr, []).append(f)
        for A in sorted(stored):
            if A in c.methods or A in c.setters or A in c.attrs:
                continue
            r = _transparent(repo, c, fns, A, occ.get(A, []))
            if r is not None:
                r()
                done.append('%s.%s' % (c.qual, A))
    return done


def _transparent(repo, c, fns, A, occ):
    resets, values, seen = [], [], set()
    for f in fns:
        for n in ast.walk(f.node):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for i, s in enumerate(b):
                    if not isinstance(s, ast.stmt):
                        continue
                    if _is_reset(s, A):
                        resets.append((f, b, s))
                        seen |= {id(x) for x in ast.walk(s)}
                    elif isinstance(s, ast.Assign) and any(_self_attr(t, A) for t in s.targets):
                        values.append((f, n, b, s))
    if len(values) != 1:
        return None
    M, owner, block, store = values[0]
    if M.name == '__init__' or M in c.setters.values() or M.is_gen or any(f is M for f, _, _ in resets):
        return None
    params = [a.arg for a in M.node.args.args + M.node.args.kwonlyargs]
    if not params or params[0] != 'self' or M.node.args.vararg or M.node.args.kwarg:
        return None
    inM = {id(x) for x in ast.walk(M.node)}
    for o in occ:
        if id(o) not in inM and id(o) not in seen:
            return None                                   # also looked at elsewhere
    # names the store also binds: v = self.A = V
    also = [t.id for t in store.targets if isinstance(t, ast.Name)]
    if any(not isinstance(t, ast.Name) and not _self_attr(t, A) for t in store.targets):
        return None
    V = store.value
    if isinstance(V, ast.Name):
        also.append(V.id)
    top = M.node.body
    # the part skipped when the value is there
    absent_by_none = False
    holders = set()
    for n in ast.walk(M.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and (_self_attr(n.value, A) or _getattr_of(n.value) == A) and n is not store:
            holders.add(n.targets[0].id)

    def is_val(e):
        return _self_attr(e, A) or _getattr_of(e) == A or isinstance(e, ast.Name) and e.id in holders

    def absent(e):
        """test true exactly when nothing is kept"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Is) and is_val(e.left) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            return True
        return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and (present(e.operand))

    def present(e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.IsNot) and is_val(e.left) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            return True
        return _getattr_of(e, 'hasattr') == A
    if isinstance(owner, ast.If) and block is owner.body and owner in top and absent(owner.test) and not owner.orelse:
        part = owner.body
        outside = [s for s in top if s is not owner]
        keep = set(also) & holders if holders else set()
    elif block is top:
        k = next((i for i, s in enumerate(top) if isinstance(s, ast.If) and present(s.test) and len(s.body) == 1 and not s.orelse
                  and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and is_val(s.body[0].value)), None)
        if k is None or top.index(store) < k:
            return None
        part = top[k + 1:top.index(store) + 1]
        rest = top[top.index(store) + 1:]
        if len(rest) != 1 or not isinstance(rest[0], ast.Return) or rest[0].value is None \
                or not (_self_attr(rest[0].value, A) or isinstance(rest[0].value, ast.Name) and rest[0].value.id in also):
            return None
        outside = top[:k]
        keep = set(also)
    else:
        return None
    env, loc = {}, set()
    for s in part:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Raise, ast.Global, ast.Nonlocal, ast.Delete)):
                return None
            if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load) and not (_self_attr(n, A)):
                if not (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in loc):
                    return None
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params[1:]:
                return None                               # depends on more than the object
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                env.setdefault(n.targets[0].id, []).append(n.value)
    for s in outside:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in keep | holders:
                return None
    outer_names = {n.id for s in outside for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - holders
    if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in outer_names for s in part for n in ast.walk(s)):
        return None
    if not _immutable(V, env):
        return None
    # what the value depends on
    fields = _depends(repo, c, part, A)
    if fields is None:
        return None
    by_hasattr = any(_getattr_of(n) == A or _getattr_of(n, 'hasattr') == A for n in ast.walk(M.node))
    if not by_hasattr and not any(f.name == '__init__' and s in f.node.body for f, _, s in resets):
        return None
    for m in repo.modules.values():
        if m.spec:
            continue
        for k in m.classes.values():
            for f in list(k.methods.values()) + list(k.setters.values()):
                rel = k is c or c in k.mro() or k in c.mro()
                for n in ast.walk(f.node):
                    d = _changed(n)
                    if d is None or d[1] not in fields:
                        continue
                    if not d[0] or not rel:
                        return None
                    if f.name == '__init__' and k is c:
                        continue
                    if not any(g is f and s in f.node.body for g, _, s in resets):
                        return None
        for s in m.tree.body:
            if not isinstance(s, ast.ClassDef):
                for n in ast.walk(s):
                    d = _changed(n)
                    if d is not None and d[1] in fields:
                        return None

    def rewrite():
        pos = (store.lineno, store.col_offset)
        tmp = '_kept_' + A.strip('_')

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                if _getattr_of(n) == A:
                    return ast.copy_location(ast.Constant(None), n)
                if _getattr_of(n, 'hasattr') == A:
                    return ast.copy_location(ast.Constant(False), n)
                return self.generic_visit(n)

            def visit_Attribute(self, n):
                if _self_attr(n, A):
                    if isinstance(n.ctx, ast.Store):
                        return ast.copy_location(ast.Name(tmp, ast.Store()), n)
                    if (n.lineno, n.col_offset) < pos:
                        return ast.copy_location(ast.Constant(None), n)
                    return ast.copy_location(ast.Name(tmp, ast.Load()), n)
                return self.generic_visit(n)
        M.node.body = [T().visit(s) for s in M.node.body]
        for f, b, s in resets:
            b[b.index(s)] = ast.copy_location(ast.Pass(), s)
    return rewrite


MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'fill', 'put', 'resize'}


def _changed(n):
    """(on self?, field) when the node changes a field"""
    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
        return isinstance(n.value, ast.Name) and n.value.id == 'self', n.attr
    if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute):
        return isinstance(n.value.value, ast.Name) and n.value.value.id == 'self', n.value.attr
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Attribute):
        return isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == 'self', n.func.value.attr
    return None


def _depends(repo, c, part, A):
    """fields of the object the statements read (through methods and properties); None when unknown"""
    out, todo, seen = set(), list(part), set()
    while todo:
        s = todo.pop()
        owned = set()
        for n in ast.walk(s):
            if _self_attr(n):
                owned.add(id(n.value))
                if n.attr == A and isinstance(n.ctx, ast.Store):
                    continue
                if n.attr in seen:
                    continue
                seen.add(n.attr)
                f = c.find(n.attr)
                if f is not None:
                    if any(a.arg == 'self' for a in f.node.args.args[:1]):
                        todo += f.node.body
                    elif f.kind != 'staticmethod':
                        return None
                elif n.attr.startswith('__'):
                    return None
                else:
                    out.add(n.attr)
            elif isinstance(n, ast.Name) and n.id == 'self' and id(n) not in owned:
                return None
            elif isinstance(n, ast.Name) and n.id in ('random', 'time', 'globals', 'open', 'input'):
                return None
    return out
