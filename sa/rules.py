"""Runs all rules of one property."""
import ast
import os
import specs
from repo import Repo
from oblig import SPEC_OBLIGATIONS

REF_RULE = ('value-graph comparison: the dataflow summary of the function (result, yielded stream, writes to objects, '
            'file effects, raised errors, defaults) has the same normal form as its reference description')


class Finding(object):
    __slots__ = ('status', 'construct', 'rule', 'detail', 'key')

    def __init__(self, status, construct, rule, detail='', key=None):
        self.status, self.construct, self.rule, self.detail = status, construct, rule, detail
        self.key = key or construct


class Outcome(object):
    def __init__(self):
        self.findings = []
        self.rules = []
        self.inlined = set()
        self.size = 0
        self.extra = {}
        self.broken = []
        self.assumptions = []
        self.explanation = ''
        self.nmodules = self.nfunctions = 0

    def add(self, *a, **k):
        self.findings.append(Finding(*a, **k))


def run(root, pid, tier):
    repo = Repo(root)
    out = Outcome()
    out.nmodules = len(repo.modules)
    out.nfunctions = len(list(repo.functions()))
    specs.load_specs(repo)
    ref(repo, pid, tier, out)
    for mod in ('commands', 'fs', 'names', 'owner', 'effects', 'data', 'linear', 'text'):
        try:
            m = __import__('r_' + mod)
        except ImportError as ex:
            if 'r_' + mod in str(ex):
                continue
            raise
        for f in m.RULES.get(pid, ()):
            try:
                f(repo, out, tier)
            except (AssertionError, AttributeError, IndexError, KeyError, RecursionError, TypeError, ValueError) as ex:
                import traceback
                at = traceback.extract_tb(ex.__traceback__)[-1]
                out.add('undecided', 'r_%s.%s' % (mod, f.__name__), 'analysis', 'a form of the source the rule cannot read: %s: %s (%s:%d)'
                        % (type(ex).__name__, ex, os.path.basename(at.filename), at.lineno))
    out.explanation = ('Static analysis of the current source under %s; nothing is executed. ' % root
                       + ' / '.join(out.rules))
    out.assumptions += [
        'numpy, spglib, yaml, json, click and the standard library behave as documented',
        'arithmetic is treated as exact; rounding effects are outside the analysis',
        'no monkey-patching, exec or dynamic attribute creation from outside the package']
    return out


def cone(repo, obs):
    """described functions that the given ones may call, directly or through others (by name)"""
    every = {q for v in SPEC_OBLIGATIONS.values() for q in v}
    named = {}
    for q in every:
        named.setdefault(q.split(':')[1].split('.')[-1].replace('@setter', ''), set()).add(q)
        if q.endswith('.__init__'):
            named.setdefault(q.split(':')[1].split('.')[0], set()).add(q)
    out, todo = set(obs), list(obs)
    while todo:
        f = repo.get(todo.pop())
        node = getattr(f, 'node', None)
        if node is None:
            continue
        for n in ast.walk(node):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            for q in named.get(nm, ()):
                if q not in out:
                    out.add(q)
                    todo.append(q)
    return sorted(out - set(obs))


def ref(repo, pid, tier, out):
    obs = list(dict.fromkeys(SPEC_OBLIGATIONS.get(pid, [])))
    if obs:
        out.rules.append(REF_RULE)
    near = len(obs)
    if tier == 'thorough' and obs:
        more = cone(repo, obs)
        out.rules.append('the same comparison for the %d described functions the property\'s own ones may reach by calls' % len(more))
        obs += more
    for n, qual in enumerate(obs):
        try:
            r = specs.check(repo, qual)
        except (AssertionError, AttributeError, IndexError, KeyError, RecursionError, TypeError, ValueError) as ex:
            out.add('undecided', qual, 'reference', 'a form of the source the comparison cannot read: %s: %s' % (type(ex).__name__, ex), key=qual)
            continue
        if n >= near and r.status == 'missing':
            continue                    # of another property
        cons = '%s %s' % (r.where, qual) if r.where else qual
        if r.status == 'missing':
            nm = qual.split(':')[1].split('.')[-1]
            if nm.startswith('_') and not nm.startswith('__'):
                out.add('undecided', cons, 'reference', 'the private function is gone; its callers are analysed instead', key=qual)
            else:
                out.add('violation', cons, 'reference', 'a public function users rely on is gone', key=qual)
            continue
        if r.status == 'error':
            out.add('undecided', cons, 'reference', 'not comparable: %s' % r.detail, key=qual)
            continue
        out.inlined |= set(r.inlined)
        out.size += r.size
        out.add(r.status, cons, 'reference' + (' (%s)' % r.aspect if r.aspect else ''), r.detail, key=qual)
