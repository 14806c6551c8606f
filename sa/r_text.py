"""C01, C14, C16: whole arrays are not turned into text (numpy abbreviates arrays of more than a thousand items and breaks lines)."""
import ast
import os

ARR_ATTRS = ('numbers', '_numbers', 'positions', '_positions')
KEEP = ('copy', 'astype', 'reshape', 'round', 'clip', 'flatten', 'ravel', 'transpose', 'repeat')
LISTS = ('list', 'tuple', 'sorted', 'set', 'dict', 'zip', 'map', 'range', 'str', 'len', 'int', 'float', 'sum', 'min', 'max', 'bytes')
SCOPE = {'C01': ('ababe.stru.sogen', 'ababe.stru.scaffold'), 'C14': ('ababe.io.vasp',), 'C16': ('ababe.io.yaml', 'ababe.stru.io')}


class Kinds(object):
    """'arr' (certainly a numpy array), 'other' or None (not known)"""
    def __init__(self, repo):
        self.repo = repo
        self.calls = {}
        self.funcs = [f for f in repo.functions() if not isinstance(f.node, ast.Lambda)]
        for f in self.funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                    self.calls.setdefault(name, []).append((f, n))
        self.busy = set()

    def numpy(self, f, e):
        """numpy.<name> called by e"""
        g = e.func
        if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id in ('np', 'numpy'):
            return g.attr
        return None

    def of(self, f, e):
        if isinstance(e, (ast.List, ast.Tuple, ast.ListComp, ast.GeneratorExp, ast.Dict, ast.Set, ast.Constant, ast.JoinedStr,
                          ast.DictComp, ast.SetComp, ast.Compare, ast.BoolOp)):
            return 'other'
        if isinstance(e, ast.Attribute):
            if e.attr in ARR_ATTRS and not (isinstance(e.value, ast.Name) and e.value.id == 'self'):
                return 'arr'
            if e.attr in ARR_ATTRS and f.cls is not None and f.cls.name in ('GeneralCell',):
                return 'arr'
            return None
        if isinstance(e, ast.Call):
            n = self.numpy(f, e)
            if n is not None:
                return 'arr' if n in ('array', 'asarray', 'around', 'round', 'zeros', 'ones', 'repeat', 'tile', 'concatenate', 'mod', 'matmul',
                                      'copy', 'full', 'sort', 'where', 'argsort', 'lexsort', 'vstack', 'hstack', 'unique') and n != 'where' else None
            if isinstance(e.func, ast.Attribute) and e.func.attr in KEEP:
                return 'arr' if self.of(f, e.func.value) == 'arr' else None
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('tolist', 'join', 'format', 'tobytes', 'tostring'):
                return 'other'
            if isinstance(e.func, ast.Name) and e.func.id in LISTS:
                return 'other'
            return None
        if isinstance(e, ast.Subscript):
            s = e.slice
            if self.of(f, s) == 'arr':
                return 'arr'            # only an array takes an array as its index
            if self.of(f, e.value) == 'arr' and (isinstance(s, ast.Slice) or self.of(f, s) == 'arr'):
                return 'arr'
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.of(f, e.body), self.of(f, e.orelse)
            return a if a == b else None
        if isinstance(e, ast.Name):
            return self.name(f, e.id)
        return None

    def name(self, f, n):
        key = (f.qual, n)
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            vals = []
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and t.id == n:
                            vals.append(self.of(f, s.value))
                        elif any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                            vals.append(self.part(f, t, n, s.value))
                elif isinstance(s, (ast.AugAssign, ast.AnnAssign)) and isinstance(s.target, ast.Name) and s.target.id == n:
                    vals.append(None)
                elif isinstance(s, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(s.target)):
                    vals.append(None)
                elif isinstance(s, (ast.With, ast.NamedExpr, ast.Global, ast.Nonlocal)):
                    vals.append(None) if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(s)) else None
            ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
            if n in ps:
                if vals:
                    return None
                return self.param(f, ps, n)
            return vals[0] if vals and all(v == vals[0] for v in vals) else None
        finally:
            self.busy.discard(key)

    def part(self, f, t, n, v):
        """t = v unpacked: the kind of n, if every function v may call returns a tuple with an array there"""
        if not isinstance(t, (ast.Tuple, ast.List)) or not isinstance(v, ast.Call):
            return None
        i = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Name) and x.id == n]
        name = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else None
        near = {f.module.name} | {x.module for x in ast.walk(f.module.tree) if isinstance(x, ast.ImportFrom) and x.module} | \
            {y.name for x in ast.walk(f.module.tree) if isinstance(x, ast.Import) for y in x.names}
        fs = [g for g in self.funcs if g.name == name and g.module.name in near]
        if len(i) != 1 or not fs or any(isinstance(x, ast.Starred) for x in t.elts):
            return None
        for g in fs:
            rs = [r for r in ast.walk(g.node) if isinstance(r, ast.Return)]
            if not rs or g.is_gen:
                return None
            for r in rs:
                if not isinstance(r.value, ast.Tuple) or len(r.value.elts) != len(t.elts) or self.of(g, r.value.elts[i[0]]) != 'arr':
                    return None
        return 'arr'

    def param(self, f, ps, n):
        """some caller passes an array"""
        same = [g for g in self.funcs if g.name == f.name]
        if len(same) > 1 and f.cls is not None:
            return None
        i = ps.index(n)
        if f.cls is not None and f.kind != 'staticmethod':
            i -= 1
        for g, c in self.calls.get(f.name, ()):
            if any(isinstance(a, ast.Starred) for a in c.args):
                continue
            if len(same) > 1 and not (isinstance(c.func, ast.Name) and g.module is f.module):
                continue
            a = c.args[i] if 0 <= i < len(c.args) else next((k.value for k in c.keywords if k.arg == n), None)
            if a is not None and self.of(g, a) == 'arr':
                return 'arr'
        return None


def silent(f):
    """what is only printed, raised or asserted"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.Call) and (
                isinstance(n.func, ast.Name) and n.func.id == 'print' or isinstance(n.func, ast.Attribute) and (
                    n.func.attr in ('debug', 'info', 'warning', 'error', 'echo', 'warn'))):
            out.update(id(x) for x in ast.walk(n))
    return out


def rule(pid):
    def go(repo, out, tier):
        out.rules.append('text: no expression that is certainly a numpy array is turned into text as a whole')
        K = Kinds(repo)
        for f in K.funcs:
            if f.module.name not in SCOPE[pid] or f.name == '__repr__':
                continue
            skip = silent(f)
            rel = os.path.relpath(f.module.path, repo.root)
            for n in ast.walk(f.node):
                if id(n) in skip:
                    continue
                args = []
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('str', 'repr', 'format') and n.args:
                    args = [n.args[0]]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
                        isinstance(n.func.value, ast.Constant):
                    args = list(n.args) + [k.value for k in n.keywords]
                elif isinstance(n, ast.FormattedValue):
                    args = [n.value]
                elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                for a in args:
                    where = '%s:%d %s %s' % (rel, n.lineno, f.qual, ast.unparse(n)[:80])
                    if K.of(f, a) == 'arr':
                        out.add('violation', where, 'text', 'an array is turned into text: arrays of more than 1000 items are abbreviated, '
                                'different ones give the same text', key='text %s %s' % (f.qual, ast.unparse(n)[:80]))
                    else:
                        out.add('ok', where, 'text', 'no array as a whole')
    return go


RULES = {p: [rule(p)] for p in SCOPE}
TECH = {p: 'lint: arrays turned into text' for p in SCOPE}
