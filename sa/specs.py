"""Loading of reference descriptions and comparison of summaries."""
import os
import sys
import re
import terms as tm
from terms import T, subterms, show, TRUE, FALSE, NONE, EMPTY, raw
from repo import Repo
from interp import Interp, Unsupported, TooBig

HERE = os.path.dirname(os.path.abspath(__file__))
SPECDIR = os.path.join(os.path.dirname(HERE), 'spec')


def load_specs(repo):
    for f in sorted(os.listdir(SPECDIR)):
        if f.endswith('.py'):
            p = os.path.join(SPECDIR, f)
            with open(p, encoding='utf-8') as fh:
                repo.add_module('spec.' + f[:-3], p, fh.read())


def spec_funcs(repo, qual):
    """all reference variants of a function"""
    mn, _, rest = qual.partition(':')
    sm = repo.modules.get('spec.' + mn.replace('.', '_'))
    out = []
    if sm is None:
        return out
    setter = rest.endswith('@setter')
    base = rest[:-7] if setter else rest
    if '.' in base:
        cn, fn = base.split('.')
        c = sm.classes.get(cn)
        pool = c.methods if c else {}
    else:
        fn = base
        pool = sm.funcs
    want = fn + '__setter' if setter else fn
    for n, f in pool.items():
        if n == want or re.match(re.escape(want) + r'__alt\d*$', n):
            out.append(f)
    return out


ASPECTS = ('ret', 'io', 'attrs', 'foreign', 'raise', 'defaults')


class Result(object):
    __slots__ = ('qual', 'status', 'detail', 'where', 'size', 'aspect', 'inlined', 'line')

    def __init__(self, qual, status, detail='', where='', size=0, aspect='', inlined=(), line=0):
        self.qual, self.status, self.detail, self.where = qual, status, detail, where
        self.size, self.aspect, self.inlined, self.line = size, aspect, inlined, line


def summarise(repo, func, cls, mod, deep, **kw):
    I = Interp(repo, deep=deep, **kw)
    s = I.summary(func, cls=cls, mod=mod)
    return I, s


def attr_values(I, s, names, selfT):
    out = {}
    for n in names:
        try:
            # observable value of the attribute after the call
            I.stack = [(I.top_func, None)]
            v = I.deep_rv(I.get_attr(selfT, n, s.st), s.st)
        except (Unsupported, TooBig, RecursionError):
            v = raw('unknown', 'attribute ' + n)
        finally:
            I.stack = []
        out[n] = v
    return out


def known_attrs(repo, cls):
    """attribute names a class is known to have (from the reference constructor and properties)"""
    out = set()
    for c in cls.mro():
        mn = c.module.name
        sm = repo.modules.get('spec.' + mn.replace('.', '_'))
        if sm is None or c.name not in sm.classes:
            continue
        import ast
        for n in ast.walk(sm.classes[c.name].node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id == 'self':
                out.add(n.attr)
    return out


def aspects_of(repo, I, s, want, ref_attr_names=None):
    d = {}
    for a in want:
        if a == 'ret':
            d['ret'] = s.ret
        elif a == 'io':
            d['io'] = s.io
        elif a == 'print':
            d['print'] = s.print
        elif a == 'raise':
            d['raise'] = s.raise_
        elif a == 'defaults':
            d['defaults'] = raw('tup', *s.defaults)
        elif a == 'foreign':
            its = []
            for k, v in sorted(s.foreign.items(), key=lambda kv: kv[0].dig):
                its.append(raw('tup', k, v))
            for (o, n), v in sorted(s.attrs.items(), key=lambda kv: (kv[0][0].dig, kv[0][1])):
                if o.op != 'self':
                    its.append(raw('tup', o, tm.C(n), v))
            d['foreign'] = raw('tup', *its)
    return d


def self_names(s):
    out = set()
    for (o, n) in s.attrs:
        if o.op == 'self':
            out.add(n)
    for k in s.foreign:
        if k.op == 'attr' and k.a[0].op == 'self':
            out.add(k.a[1])
    return out


def foreign_term(s):
    its = []
    for k, v in sorted(s.foreign.items(), key=lambda kv: kv[0].dig):
        if k.op == 'attr' and k.a[0].op == 'self':
            continue
        its.append(raw('tup', k, v))
    for (o, n), v in sorted(s.attrs.items(), key=lambda kv: (kv[0][0].dig, kv[0][1])):
        if o.op != 'self':
            its.append(raw('tup', o, tm.C(n), v))
    return raw('tup', *its)


def evaluate(repo, func, cls, mod, want, deep, extra_names=(), opts=None, args=None):
    opts = opts or {}
    tm.LIMIT[0] = len(tm._table) + 400000
    I = Interp(repo, deep=deep, **opts)
    I.top_func = func
    s = I.summary(func, cls=cls, mod=mod, args=args)
    d = {}
    if 'ret' in want:
        d['ret'] = s.ret
    if 'io' in want:
        d['io'] = s.io
    if 'print' in want:
        d['print'] = s.print
    if 'raise' in want:
        d['raise'] = s.raise_
    if 'defaults' in want:
        d['defaults'] = raw('tup', *s.defaults)
    if 'foreign' in want:
        d['foreign'] = foreign_term(s)
    if 'attrs' in want:
        selfT = raw('self')
        I.stack = [(func, None)]
        for n in sorted(set(extra_names) | (self_names(s) if not extra_names else set())):
            try:
                d['attr ' + n] = I.deep_rv(I.get_attr(selfT, n, s.st), s.st)
            except (Unsupported, TooBig, RecursionError):
                d['attr ' + n] = raw('unknown', 'attribute ' + n)
        I.stack = []
    return I, s, d


def check(repo, qual, want=ASPECTS, opts=None):
    """compare a function with its reference description"""
    target = repo.get(qual)
    if target is None:
        return Result(qual, 'missing', 'the interface function is gone')
    cls = None
    mn, _, rest = qual.partition(':')
    if '.' in rest:
        cls = repo.get('%s:%s' % (mn, rest.split('.')[0]))
    mod = target.module
    specs = spec_funcs(repo, qual)
    if not specs:
        return Result(qual, 'error', 'no reference description')
    where = '%s:%d' % (os.path.relpath(mod.path, repo.root), target.node.lineno)
    best = None
    for deep in (False, True):
        for sf in specs:
            try:
                Is, ss, ds = evaluate(repo, sf, cls, mod, want, deep, opts=opts)
            except (Unsupported, TooBig, RecursionError) as ex:
                if deep:
                    continue
                return Result(qual, 'undecided', 'what it rests on cannot be evaluated: %s: %s' % (type(ex).__name__, ex), where)
            names = sorted(self_names(ss)) if 'attrs' in want else ()
            try:
                It, st_, dt = evaluate(repo, target, cls, mod, [w for w in want if w != 'attrs'], deep, opts=opts)
                if 'attrs' in want and cls is not None:
                    kn = known_attrs(repo, cls)
                    nm = set(names) | {n for n in self_names(st_) if n in kn}
                    if nm:
                        It, st_, dt = evaluate(repo, target, cls, mod, want, deep, extra_names=nm, opts=opts)
                        Is, ss, ds = evaluate(repo, sf, cls, mod, want, deep, extra_names=nm, opts=opts)
            except (Unsupported, TooBig, RecursionError) as ex:
                r = Result(qual, 'undecided', '%s: %s' % (type(ex).__name__, ex), where)
                if best is None:
                    best = r
                continue
            bad = [a for a in ds if ds[a] is not dt.get(a)] + [a for a in dt if a not in ds]
            size = sum(x.size for x in dt.values())
            if not bad:
                return Result(qual, 'ok', '', where, size, inlined=sorted(It.inlined))
            st, det = classify(repo, ds, dt, bad)
            if st == 'undecided' and stale_places(repo, qual, dt):
                st, det = 'violation', 'attr map: entries of the list move, the places kept of them stay as they were: found list %s, map %s' % (
                    cut(show(dt['attr list'], 5), 200), cut(show(dt['attr map'], 5), 200))
            r = Result(qual, st, det, where, size, ','.join(bad), sorted(It.inlined))
            if best is None or (best.status == 'undecided' and st == 'violation' and not deep):
                best = r
            elif best.status == 'violation' and st == 'undecided':
                best = r if deep is False else best
    return best


def heads(t):
    out = set()
    for x in subterms(t):
        if x.op in ('f', 'm', 'api', 'new', 'g', 'class', 'rand', 'hash', 'io', 'fresh', 'after'):
            a0 = x.a[0] if not isinstance(x.a[0], T) else ''
            out.add((x.op, a0))
        else:
            out.add((x.op,))
    return out


OPAQUE = {('unknown',), ('call',), ('lastval',), ('percent',), ('binop',), ('mut',), ('noexc',), ('rec',),
          ('modvar',), ('undef',), ('partial',), ('vectorize',), ('delitem',), ('typeof',)}
LOOPY = {('fold',), ('while',), ('scatterv',), ('dupd',), ('upd',)}


def known_head(h):
    import ext
    if h[0] == 'f':
        return h[1] in ext.KNOWN_F
    if h[0] == 'm':
        import interp
        return h[1] in interp.API_METHODS or h[1] in ext.KNOWN_M
    return True


class Unfold(object):
    """replaces calls of a method of the package by what they return"""
    def __init__(self, repo):
        self.repo, self.memo = repo, {}

    def defs(self, name):
        fs = [c.methods[name] for m in self.repo.modules.values() for c in m.classes.values() if name in c.methods]
        return fs if all(f.kind == 'method' and not f.is_gen for f in fs) else []

    def one(self, x, func):
        if (x, func) in self.memo:
            return self.memo[x, func]
        r = None
        if all(isinstance(y, T) and y.op != 'kw' for y in x.a[1:]) and len(x.a) - 1 == len(func.node.args.args):
            try:
                I = Interp(self.repo, deep=False)
                s = I.summary(func, cls=func.cls, args=list(x.a[1:]))
                if not s.attrs and not s.foreign and not I.stack:
                    r = s.ret
            except (Unsupported, TooBig, RecursionError, KeyError, AttributeError):
                pass
        self.memo[x, func] = r
        return r

    def all(self, t, name, func):
        def f(x):
            if x.op == 'm' and x.a[0] == name and not any(n.startswith('h') for n in x.fv):
                return self.one(x, func)
        try:
            return tm.rewrite(t, f)
        except (TooBig, RecursionError):
            return t

    def compare(self, s, t, d):
        """a method called on one side, what it computes on the other: compared for every definition it may have"""
        import delta
        for name in sorted({x.a[0] for pq in d.rewritings for x in pq if x.op == 'm'}):
            fs = self.defs(name)
            if not 0 < len(fs) <= 6:
                continue
            best = None
            for func in fs:
                s1, t1 = self.all(s, name, func), self.all(t, name, func)
                if s1 is s and t1 is t:
                    best = None
                    break
                if s1 is t1:
                    return delta.Delta()
                best = delta.compare(s1, t1)
                if best.rewritings:
                    best = None
                    break
            if best is not None:
                return best
        return d


PLACES = 'ababe.mlearn.dsutils:RandomPopSet.'


def stale_places(repo, qual, dt):
    """the map keeps the place of each entry of the list (see add): entries after a deleted one move, their places have to"""
    if not qual.startswith(PLACES) or qual == PLACES + 'add' or 'attr list' not in dt or 'attr map' not in dt:
        return False
    a = check(repo, PLACES + 'add')
    if a is None or a.status != 'ok':
        return False

    def below(t, op):
        while t.op == op:
            t = t.a[0]
        return t.op == 'attr'
    if not all(below(x, 'without') for x in tm.leaves(dt['attr map'])):
        return False
    def moved(t):
        while t.op in ('slice', 'delitem'):
            t = t.a[0]
        return t.op == 'scatter' and below(t, 'scatter') or t.op == 'scatter' and moved(t.a[0]) or t.op == 'scatter' and below(t.a[0], 'slice')
    if any(map(moved, tm.leaves(dt['attr list']))):
        return True
    return any(x.a[0].op == 'attr' and (x.op == 'removed' or x.op == 'delitem' and x.a[1] not in (tm.C(-1), tm.mk_sub(tm.mk_len(x.a[0]), tm.C(1))))
               for x in tm.leaves(dt['attr list']) if x.a and isinstance(x.a[0], T))


def classify(repo, ds, dt, bad):
    import delta
    first = None
    unk = None
    done = []
    found = {}
    un = Unfold(repo)
    for b in bad:
        s, t = ds.get(b), dt.get(b)
        if s is None or t is None or b == 'raise' and explicit(ds, s, t):
            continue
        s1, t1 = tm.divisors(s), tm.divisors(t)
        if s1 is t1:
            found[b] = delta.Delta()
            continue
        d = delta.compare(s, t)
        if d.rewritings and s1 is not s:
            d1 = delta.compare(tm.divisors(s, False), tm.divisors(t, False))
            if not d1.rewritings:
                d = d1
        if d.rewritings:
            d = un.compare(s, t, d)
        if d.rewritings or d.edits:
            s2, t2 = tm.settled(s), tm.settled(t)
            if s2 is not s or t2 is not t:
                d1 = delta.Delta() if s2 is t2 else delta.compare(s2, t2)
                if not d1.rewritings and not d1.edits:
                    d = d1
        found[b] = d
        if not d.rewritings:
            done += [(x, y) for why, x, y in d.edits if x.size > 1 and not any(n.startswith('o') for n in x.fv | y.fv)]
    for b in bad:
        s, t = ds.get(b), dt.get(b)
        if s is None or t is None:
            first = first or ('violation', '%s: unexpected' % b)
            continue
        if b not in found:
            unk = unk or (b, (s, t))
            continue
        d = found[b]
        if d.rewritings and done:
            # what was found elsewhere made here
            s2 = s
            for x, y in done:
                try:
                    s2 = tm.replace(s2, x, y)
                except TooBig:
                    pass
            if s2 is t:
                continue
            if s2 is not s:
                d2 = delta.compare(s2, t)
                if not d2.rewritings:
                    d = d2
        if os.environ.get('SA_DELTA'):
            for why, p, q in d.edits:
                sys.stderr.write('  EDIT %s %s\n     p %s\n     q %s\n' % (b, why, cut(show(p, 9)), cut(show(q, 9))))
            for p, q in d.rewritings:
                sys.stderr.write('  REWR %s\n     p %s\n     q %s\n' % (b, cut(show(p, 9)), cut(show(q, 9))))
        if d.rewritings:
            unk = unk or (b, d.rewritings[0])
        elif d.edits:
            why, p, q = d.edits[0]
            p, q = first_diff(p, q)
            first = first or ('violation', '%s: %s: expected %s, found %s' % (b, why, cut(show(p, 9)), cut(show(q, 9))))
    if unk is not None:
        b, (p, q) = unk
        return 'undecided', '%s: another computation: reference %s, found %s' % (b, cut(show(p, 7), 130), cut(show(q, 7), 130))
    if first is not None:
        return first
    return 'ok', 'the differing case gives the same value'


def explicit(ds, s, t):
    """does t only say in so many words when the reference fails anyway (takes an item of an empty selection)?"""
    import delta
    more = delta.conds(t) - delta.conds(s)
    if not more:
        return False
    part = set()
    for r in ds.values():
        for x in subterms(r):
            if x.op == 'at' and tm.num(x.a[1]) and x.a[0].op == 'comp':
                part |= delta.conds(tm.cond(x.a[0]))
    return bool(more & part) and more <= part | delta.conds(ds.get('ret', NONE))


def cut(x, n=400):
    return x if len(x) <= n else x[:n] + '...'


def first_diff(s, t):
    """smallest differing pair along the first differing path"""
    for _ in range(200):
        if s.op != t.op or len(s.a) != len(t.a):
            return s, t
        diffs = [(x, y) for x, y in zip(s.a, t.a) if x is not y and (isinstance(x, T) or x != y)]
        if len(diffs) != 1 or not (isinstance(diffs[0][0], T) and isinstance(diffs[0][1], T)):
            return s, t
        s, t = diffs[0]
    return s, t
