"""What kind of change separates a summary from its reference?

The two normal forms are aligned node by node.  Every place where they differ is
either an *edit* -- a constant, variable, operator, argument, guard, term or effect
was replaced, added or dropped, so that the values differ -- or a *rewriting*: one
computation stands where another one stood, and nothing here shows that they differ.
Only edits are reported; a rewriting leaves the obligation undecided.
"""
import itertools
import terms as tm
from terms import T, subterms, show, TRUE, FALSE, NONE, EMPTY, raw

ATOMS = ('c', 'v', 'arg', 'self', 'carg', 'kwargs', 'g', 'class', 'fn', 'modvar', 'new0', 'st', 'bot')

SIB = [
    {'numpy.floor', 'numpy.ceil', 'numpy.trunc', 'numpy.rint', 'numpy.fix', 'builtins.int', 'builtins.round',
     'math.floor', 'math.ceil'},
    {'builtins.min', 'builtins.max', 'numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax', 'minof', 'maxof',
     'numpy.argmin', 'numpy.argmax', 'argmin', 'argmax'},
    {'itertools.combinations', 'itertools.permutations', 'itertools.combinations_with_replacement',
     'itertools.product'},
    {'any', 'numpy.any', 'numpy.all', 'builtins.any', 'builtins.all'},
    {'lower', 'upper', 'title', 'capitalize', 'swapcase'},
    {'strip', 'rstrip', 'lstrip'},
    {'startswith', 'endswith'},
    {'rfind', 'find', 'index', 'rindex'},
    {'split', 'rsplit', 'splitlines'},
    {'builtins.str', 'builtins.repr'},
    {'append', 'insert', 'extend'},
    {'numpy.linalg.inv', 'inv', 'T', 'numpy.transpose'},
    {'fdiv', 'mod'},
    {'math.sin', 'math.cos', 'math.tan'}, {'numpy.sin', 'numpy.cos', 'numpy.tan'},
    {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like'},
    {'numpy.abs', 'builtins.abs', 'numpy.square'},
    {'numpy.argsort', 'numpy.sort'},
    {'os.path.exists', 'os.path.isdir', 'os.path.isfile'},
    {'os.path.basename', 'os.path.dirname'},
    {'numpy.allclose', 'numpy.array_equal', 'eq', 'is', 'ne', 'lt', 'le', 'numpy.isclose', 'numpy.equal'},
    {'numpy.repeat', 'numpy.tile', 'numpy.resize'},
    {'random.choice', 'random.sample', 'random.choices', 'random.randint', 'random.randrange'},
]

UNLIKE = {frozenset(('numpy.repeat', 'numpy.tile'))}
MEASURES = {frozenset(x) for x in (('numpy.amax', 'numpy.amin'), ('numpy.amax', 'numpy.mean'), ('numpy.amin', 'numpy.mean'),
                                   ('numpy.mean', 'numpy.median'))}
DIST = [{'numpy.random.randn', 'numpy.random.normal', 'numpy.random.standard_normal', 'random.gauss', 'random.normalvariate'},
        {'numpy.random.rand', 'numpy.random.random', 'numpy.random.uniform', 'numpy.random.random_sample', 'random.random',
         'random.uniform'},
        {'numpy.random.randint', 'random.randint', 'random.randrange', 'random.choice', 'random.choices', 'random.sample',
         'numpy.random.choice', 'numpy.random.permutation', 'random.shuffle', 'numpy.random.shuffle'}]

UNEVEN = {'random.betavariate', 'random.expovariate', 'random.triangular', 'random.gammavariate', 'random.lognormvariate',
          'numpy.random.exponential', 'numpy.random.beta', 'numpy.random.poisson', 'numpy.random.binomial', 'numpy.random.triangular'}

PREDICATES = ('lt', 'le', 'eq', 'in', 'is')

# functions that change the value they are applied to (whatever they compute exactly)
VALUE_F = {'numpy.clip', 'numpy.sort', 'numpy.unique', 'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.roll',
           'numpy.floor', 'numpy.ceil', 'numpy.trunc', 'numpy.rint', 'numpy.fix', 'numpy.sign', 'numpy.maximum',
           'numpy.minimum', 'numpy.abs', 'numpy.absolute', 'builtins.abs', 'builtins.round', 'numpy.negative',
           'numpy.nan_to_num', 'numpy.cumsum', 'numpy.diff', 'math.floor', 'math.ceil', 'math.trunc', 'builtins.hash',
           'numpy.round', 'numpy.around'}


def head(t):
    if t.op in ('f', 'm', 'api', 'io', 'rand', 'new', 'fresh') and t.a and not isinstance(t.a[0], T):
        return t.a[0]
    return t.op


def args_of(t):
    return [x for x in t.a if isinstance(x, T)]


def atom(t):
    if t.op in ATOMS:
        return True
    return t.op == 'attr' and atom(t.a[0])


def known(h):
    import specs
    return specs.known_head(h) and h not in specs.OPAQUE


def foreign_heads(q, p):
    """heads of q, not in p, with a meaning the analysis does not know"""
    import specs
    hp = specs.heads(p)
    return [h for h in specs.heads(q) - hp if not known(h)]


NEUTRAL = {(x,) for x in ('arr', 'astuple', 'tup', 'seq', 'e', 's', 'c', 'v', 'len', 'size', 'tolist', 'at', 'item',
                          'kw', 'comp', 'slc', 'flat', 'rep', 'prod', 'diag', 'attrshape', 'uset', 'sorted', 'dictof', 'poly', 'mono', 'arg', 'self', 'attr')}
STRUCT = frozenset(NEUTRAL)
NEUTRAL |= {('f', 'numpy.' + x) for x in ('zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'full_like', 'empty_like',
                                          'arange', 'linspace', 'eye', 'identity', 'concatenate', 'stack', 'vstack', 'hstack',
                                          'append', 'reshape', 'ravel', 'array', 'asarray', 'diag', 'prod', 'where',
                                          'newaxis', 'expand_dims', 'squeeze', 'column_stack', 'meshgrid', 'indices')}
NEUTRAL |= {('f', 'astype'), ('f', 'collections.Counter'), ('f', 'builtins.range')}


class Delta(object):
    def __init__(self, ref=None):
        self.edits = []
        self.rewritings = []
        self.budget = 4000
        self.stack = []
        self.roots = None
        if isinstance(ref, Delta):
            self.ref = ref.ref
            self.roots = ref.roots
            self.stack = list(ref.stack)
        else:
            import specs
            self.ref = specs.heads(ref) if ref is not None else frozenset()
            if ('in',) in self.ref and not any(x.op == 'in' and not tm.is_c(x.a[1]) for x in subterms(ref)):
                self.ref.discard(('in',))           # looks only into constants

    def edit(self, why, p, q):
        self.edits.append((why, p, q))

    def unk(self, p, q):
        self.rewritings.append((p, q))

    # -- alignment ---------------------------------------------------------
    def walk(self, p, q):
        if self.roots is None:
            self.roots = p, q
        self.stack.append(p)
        try:
            self.step(p, q)
        finally:
            self.stack.pop()

    def reordered(self):
        """rows of sums are put together in another order than in the reference, repeated in the same"""
        a, b = map(blocks, self.roots)
        r = list(map(repeated, self.roots))
        return a != b and set(a) == set(b) and r[0] == r[1] and len(r[0]) == 1

    def step(self, p, q):
        if p is q or nothing(p) and nothing(q):
            return
        self.budget -= 1
        if self.budget < 0:
            self.unk(p, q)
            return
        if p.op == 'ite' or q.op == 'ite':
            if p.op in PREDICATES or p.op not in ('ite', 'c') and tm.is_bool(p):
                p = raw('ite', p, TRUE, FALSE)
            if q.op in PREDICATES or q.op not in ('ite', 'c') and tm.is_bool(q):
                q = raw('ite', q, TRUE, FALSE)
            return self.tree(p, q)
        if p.op == q.op == 'f' and p.a[0] == q.a[0] == 'numpy.repeat' and p.a[1] is q.a[1] and self.reordered():
            return                  # however many: what is repeated stays together, what it goes with does not
        if p.op == q.op == 'f' and p.a[0] == q.a[0] in ('numpy.amax', 'numpy.amin') and len(p.a) == len(q.a) == 2 and q.a[1].op == 'at' \
                and q.a[1].a[0] is p.a[1]:
            return self.edit('of one row instead of all', p, q)
        L = odd_ranges(p, q)
        if L is not None:
            return self.walk(*L)
        if unordered(p, q):
            return self.edit('compared without regard to order', p, q)
        if p.op == q.op:
            if p.op == 'poly' and unequal(p, q):
                return self.edit('other arithmetic', p, q)
            m = getattr(self, 'd_' + p.op, None)
            if m is not None:
                return m(p, q)
            if p.op == 'comp' and renumbered(p, q):
                return self.edit('numbered among the chosen ones, not among all', p, q)
            if p.op in ('comp', 'fold', 'while', 'lam'):
                return self.binder(p, q)
            if p.op in ATOMS:
                return self.edit('replaced', p, q)
            if p.op == 'attr' and p.a[0] is q.a[0]:
                return self.edit('other attribute', p, q)
            if p.op in ('v', 'c'):
                return self.edit('replaced', p, q)
            if head(p) == head(q) == 'os.path.basename' and head(q.a[1]) == 'os.path.realpath' and head(p.a[1]) != 'os.path.realpath' \
                    and contains(q.a[1], p.a[1]):
                return self.edit('the name of what a link leads to', p, q)
            if head(p) == head(q):
                return self.args(p, q)
        self.leaf(p, q)

    def args(self, p, q):
        A, B = list(p.a), list(q.a)
        pa, qa = args_of(p), args_of(q)
        if len(pa) == len(qa) and len(A) == len(B):
            if sorted(x.dig for x in pa) == sorted(x.dig for x in qa):
                if pa != qa:
                    return self.edit('arguments exchanged', p, q)
            for x, y in zip(A, B):
                if isinstance(x, T) and isinstance(y, T):
                    self.walk(x, y)
                elif x != y:
                    self.edit('replaced', p, q)
            return
        self.items(pa, qa, p, q)

    def items(self, A, B, p, q):
        """ordered lists of possibly different length"""
        A, B = list(A), list(B)
        while A and B and A[0] is B[0]:
            A.pop(0), B.pop(0)
        while A and B and A[-1] is B[-1]:
            A.pop(), B.pop()
        if not A or not B:
            ex = A or B
            if any(x.op == 'kw' and x.a[0] in ('dtype', 'copy', 'order') for x in ex):
                return self.unk(p, q)
            return self.edit('dropped' if A else 'added', p, q) if not self._foreign(ex) else self.unk(p, q)
        if len(A) == len(B):
            if sorted(x.dig for x in A) == sorted(x.dig for x in B):
                return self.edit('order changed', p, q)
            for x, y in zip(A, B):
                self.walk(x, y)
            return
        # subsequence?
        short, long_ = (A, B) if len(A) < len(B) else (B, A)
        it = iter(long_)
        if all(any(x is y for y in it) for x in short):
            return self.edit('dropped' if long_ is A else 'added', p, q)
        self.unk(p, q)

    def _foreign(self, ts):
        import specs
        # what the reference itself computes is no other computation
        return any(not known(h) and h not in self.ref for t in ts for h in specs.heads(t))

    def d_seq(self, p, q):
        self.items(p.a, q.a, p, q)

    def d_tup(self, p, q):
        self.items(p.a, q.a, p, q)

    def d_str(self, p, q):
        self.items(p.a, q.a, p, q)

    def d_uset(self, p, q):
        P = tm.all_divisors(p.a[0])
        if P is not None and q.a[0].op == 'comp' and not any(x.op == 'f' and x.a[0] in ('math.sqrt', 'math.isqrt') for x in subterms(q.a[0].a[2])):
            # tried one by one
            n0 = len(self.edits), len(self.rewritings)
            self.walk(P, q.a[0])
            if len(self.edits) > n0[0] and len(self.rewritings) == n0[1]:
                self.edits[n0[0]:] = [(self.edits[n0[0]][0], p, q)]
            return
        self.d_minof(p, q)

    def d_mm(self, p, q):
        if len(p.a) == len(q.a):
            # a vector is its own transpose
            r = [tm.mk_T(x) for x in reversed(q.a)]
            if all(x is y for x, y in zip(p.a[1:-1], r[1:-1])) and all(
                    p.a[i] is r[i] or tm.mk_T(p.a[i]) is r[i] for i in (0, -1)):
                # which of the two is the vector is not known
                if any(p.a[i] is r[i] for i in (0, -1)):
                    return self.unk(p, q)
        self.items(p.a, q.a, p, q)

    def d_dict(self, p, q):
        P, Q = list(zip(p.a[::2], p.a[1::2])), list(zip(q.a[::2], q.a[1::2]))
        if len(p.a) % 2 or len(q.a) % 2 or len(set(k for k, v in P)) < len(P) or len(set(k for k, v in Q)) < len(Q):
            return self.items(p.a, q.a, p, q)
        if set(k for k, v in P) == set(k for k, v in Q):
            Q = dict(Q)
            n = len(self.edits), len(self.rewritings)
            for k, v in P:
                self.walk(v, Q[k])
            if (len(self.edits), len(self.rewritings)) == n:
                self.unk(p, q)          # the order of insertion alone
            return
        self.items(p.a, q.a, p, q)

    def d_poly(self, p, q):
        P, Q = tm._topoly(p), tm._topoly(q)
        if vars_of(P) == vars_of(Q):
            return self.edit('other arithmetic', p, q)
        ps = {m: c for m, c in P.items() if Q.get(m) != c}
        qs = {m: c for m, c in Q.items() if P.get(m) != c}
        for m in list(ps):
            if m in qs:
                self.edit('coefficient', p, q)
                del ps[m], qs[m]
        if not ps and not qs:
            return
        if not ps or not qs:
            ex = [b for m in (ps or qs) for b, _ in m]
            return self.unk(p, q) if self._foreign(ex) else self.edit('term dropped' if ps else 'term added', p, q)
        if len(ps) == len(qs):
            used = set()
            for m in sorted(ps, key=lambda m: [b.dig for b, _ in m]):
                best = None
                for n in qs:
                    if n in used:
                        continue
                    c = len(set(m) & set(n)) - (ps[m] != qs[n])
                    if m and n:
                        c += similarity(raw('tup', *[b for b, _ in m]), raw('tup', *[b for b, _ in n])) / 2
                    c -= bool(m) != bool(n)
                    if best is None or c > best[0]:
                        best = (c, n)
                n = best[1]
                used.add(n)
                self.mono(m, ps[m], n, qs[n], p, q)
            return
        self.unk(p, q)

    def mono(self, m, c, n, d, p, q):
        a = [x for x in m if x not in n]
        b = [x for x in n if x not in m]
        if c != d:
            self.edit('coefficient', p, q)
        if len(a) == 1 and len(b) == 1:
            if a[0][1] != b[0][1]:
                self.edit('exponent', p, q)
            return self.walk(a[0][0], b[0][0])
        if not a and not b:
            return
        if not a or not b:
            return self.edit('factor dropped' if a else 'factor added', p, q)
        if len(a) == len(b) <= 4 and sorted(x[1] for x in a) == sorted(x[1] for x in b):
            for e_ in sorted(set(x[1] for x in a)):
                for x, y in pair_up([x[0] for x in a if x[1] == e_], [x[0] for x in b if x[1] == e_]):
                    self.walk(x, y)
            return
        self.unk(p, q)

    def d_eq(self, p, q):
        for x, y in pair_up([x for x in p.a if x not in q.a], [x for x in q.a if x not in p.a]):
            self.walk(x, y)

    d_ne = d_eq

    def d_minof(self, p, q):
        a, b = p.a[0], q.a[0]
        if a.op == 'seq' and b.op == 'seq' and len(a.a) == len(b.a) and len(p.a) == len(q.a):
            for x, y in pair_up([x for x in a.a if x not in b.a], [x for x in b.a if x not in a.a]):
                self.walk(x, y)
            for x, y in zip(p.a[1:], q.a[1:]):
                self.walk(x, y)
            return
        self.args(p, q)

    def d_sorted(self, p, q):
        if p.a[0] is q.a[0] and items_of_dict(p.a[0]) and p.a[1].op == q.a[1].op == 'lam' and p.a[1].a[1] == q.a[1].a[1] == 1:
            # entries of a dictionary put in order by what is computed from their keys, or by their values
            x, y = [parts_of(t.a[1].a[2], tm.bound_names(t.a[1])[0]) for t in (p, q)]
            if x and y and not x & y and None not in x | y:
                return self.edit('put in order by another part of the entries', p, q)
        self.args(p, q)

    d_maxof = d_minof


    def binder(self, p, q):
        if p.op == 'comp' and blocks(p) != blocks(q) and set(blocks(p)) == set(blocks(q)) and self.reordered():
            return self.edit('put together in another order than what goes with it', p, q)
        if empties(p, q):
            return self.edit('what was looked at before is forgotten on the way', p, q)
        np_, nq = tm.bound_names(p), tm.bound_names(q)
        same = len(np_) == len(nq)
        if p.op in ('comp', 'lam', 'while'):
            same = same and p.a[1] == q.a[1]
        elif p.op == 'fold':
            same = same and p.a[1:3] == q.a[1:3]
        if not same:
            return self.leaf(p, q)
        fr = [tm.fresh() for _ in np_]
        # substitution renormalises: equal parts of the two sides become equal terms
        A = [tm.subst(x, dict(zip(np_, fr))) if isinstance(x, T) else x for x in p.a[1:]]
        B = [tm.subst(x, dict(zip(nq, fr))) if isinstance(x, T) else x for x in q.a[1:]]
        if p.op == 'comp':
            # clauses in another order
            k = p.a[1]
            la, lb = A[1:1 + k], B[1:1 + k]
            if la != lb and sorted(x.dig for x in la) == sorted(x.dig for x in lb):
                return self.unk(p, q)
        n0 = len(self.edits), len(self.rewritings)
        for x, y in zip(A, B):
            if isinstance(x, T) and isinstance(y, T):
                if self.in_step(x, y, A) or self.in_step(y, x, B):
                    self.unk(x, y)
                    continue
                self.walk(x, y)
        if len(self.edits) > n0[0] and len(self.rewritings) == n0[1] and p.op == 'comp':
            self.edits.append((self.edits[n0[0]][0], p, q))
        if (len(self.edits), len(self.rewritings)) == n0 and p is not q:
            pass

    @staticmethod
    def in_step(x, y, A):
        """y stops a loop where one of several sequences walked in step ends, x at the end of one of them,
        the other ones being indexed (they may not be shorter)"""
        if x.op == 'minlen' or y.op != 'minlen' or x not in y.a:
            return False
        subs = set()
        for t in A:
            if isinstance(t, T):
                subs.update(u.a[0] for u in subterms(t) if u.op == 'at' and u.a[1].op == 'v')
        return all(z is x or z.op == 'len' and z.a[0] in subs for z in y.a)

    # -- decision trees ----------------------------------------------------
    def tree(self, p, q):
        if q is EMPTY and any(x.op in ('fold', 'comp', 'seq') and x is not EMPTY and not (x.op == 'comp' and vacuous(x))
                              for x in tm.leaves(p)):
            return self.edit('nothing is left', p, q)
        if between(p, q):
            return self.edit('everything between the smallest and the largest', p, q)
        if part_of(p, q):
            return self.edit('only a part of the members looked at', p, q)
        if last_only(p, q):
            return self.edit('only the last one looked at', p, q)
        if p.op in ('len', 'size') and q.op == 'ite' and zero_replaced(q):
            return self.edit('a count of nothing becomes another one', p, q)
        cp, cq = conds(p), conds(q)
        for x in cp - cq:
            # whether an argument is given at all, against whether it is something other than nothing
            if x.op == 'is' and x.a[1] is NONE and x.a[0].op in ('arg', 'carg'):
                y = tm.cond(x.a[0])
                y = next((z for z in cq - cp if z is y or y.op == 'ite' and z is y.a[0]), None)
                if y is not None:
                    d = Delta(self)
                    d.budget = self.budget // 2
                    for a, b in ((cofactor(p, x, False), cofactor(q, y, True)), (cofactor(p, x, True), cofactor(q, y, False))):
                        d.walk(a, b)
                    if d.edits and not d.rewritings:
                        self.edits += d.edits
                        return self.edit('condition', p, q)
        for x in cp - cq:
            # an object of a class without a length is true
            if x.op == 'is' and x.a[1] is NONE and x.a[0].op in ('arg', 'carg'):
                y = tm.cond(x.a[0])
                y = next((z for z in cq - cp if z is y or y.op == 'ite' and z is y.a[0]), None)
                if y is not None and any(z.op == 'attr' and z.a[0] is x.a[0] and z.a[1] in ('Z', 'name', 'symbol') for z in subterms(p)):
                    q2 = map_conds(q, {y: raw('ite', x, FALSE, TRUE)})
                    if q2 is not None and y not in conds(q2):
                        return self.tree(p, q2)
        for x in cq - cp:
            # whether a value that is there is None, which it is not unless it was put there
            if x.op == 'is' and x.a[1] is NONE and x.a[0].op == 'at' and any(
                    y.op == 'in' and y.a[1] is x.a[0].a[0] and y.a[0] is x.a[0].a[1] for y in cp | cq):
                q = cofactor(q, x, False)
        if q.op != 'ite' and p.op != 'ite' or p is q:
            return self.walk(p, q) if p is not q else self.unk(p, q)
        cq = conds(q)
        miss = [x for x in cp if x not in cq]
        more = [x for x in cq if x not in cp]
        if miss and more:
            same = {}
            for x in miss:
                a = natural(x)
                for y in more:
                    b = natural(y)
                    if a and b and y not in same and a[0] is b[0]:
                        if a[1] == b[1]:
                            same[y] = raw('ite', x, TRUE, FALSE)
                            break
                        if a[1] == [not v for v in b[1]]:
                            same[y] = raw('ite', x, FALSE, TRUE)
                            break
            if same:
                q2 = map_conds(q, same)
                if q2 is not None and not set(same) & conds(q2):
                    return self.tree(p, q2)
            tp, tq = [word_test(x) for x in miss], [word_test(x) for x in more]
            if all(tp) and all(tq) and len(set(t[0] for t in tp + tq)) == 1 and \
                    len(set(t[1] for t in tp)) == len(set(t[1] for t in tq)) == 1 and tp[0][1] != tq[0][1]:
                return self.edit('a whole word or its beginning compared', p, q)
            if len(miss) == 1 and miss[0].op == 'in' and any(
                    y.op == 'eq' and miss[0].a[0] in y.a and any(z.op == 'at' and z.a[0] is miss[0].a[1] and tm.is_c(z.a[1]) for z in y.a)
                    for y in more) and all(y.op == 'eq' or y is tm.cond(miss[0].a[1]) or y.op == 'truthy' and y.a[0] is miss[0].a[1] for y in more):
                return self.edit('only one of the members compared', p, q)
            if len(miss) != len(more) or len(miss) > 8:
                return self.unk(p, q)
            pairs = pair_up(miss, more)
            for x, y in pairs:
                self.walk(x, y)
            m = {y: x for x, y in pairs}
            q2 = map_conds(q, m)
            if q2 is None:
                return
            if conds(q2) - conds(p) or conds(p) - conds(q2):
                return
            return self.walk(p, q2)
        if miss or more:
            ex = miss or more
            if self._foreign(ex) and more:
                return self.unk(p, q)
            if len(ex) > 1:
                # several conditions came or went: only if the outcomes are the same ones
                lp, lq = set(tm.leaves(p)), set(tm.leaves(q))
                if more and lq <= {TRUE, FALSE} and any(twins(x) for x in more):
                    return self.unk(p, q)       # perhaps a quick answer for an obvious case
                if lq <= lp or lp <= lq:
                    return self.edit('condition dropped' if miss else 'condition added', p, q)
                return self.unk(p, q)
            x, = ex
            big, small = (p, q) if miss else (q, p)
            if harmless(small, big, x):
                return
            why = 'condition dropped' if miss else 'condition added'
            hi, lo = cofactor(big, x, True), cofactor(big, x, False)
            if small.op == 'ite' and small.a[1] is TRUE and small.a[2] is FALSE and small.a[0] in (hi, lo):
                small = small.a[0]
            if hi is small or lo is small:
                if more and (lo if hi is small else hi) in (TRUE, FALSE) and twins(x):
                    return self.unk(p, q)       # perhaps a quick answer for an obvious case
                if more and self._foreign([lo if hi is small else hi]):
                    return self.unk(p, q)
                return self.edit(why, p, q)
            for c in (hi, lo):
                d = Delta(self)
                d.budget = self.budget // 2
                if miss:
                    d.walk(c, small)
                else:
                    d.walk(small, c)
                if not d.rewritings:
                    self.edits += d.edits
                    return self.edit(why, p, q)
            return self.unk(p, q)
        x = min([t.a[0] for t in (p, q) if t.op == 'ite'], key=tm._akey)
        a, b = tm._restrict1(p, x, True), tm._restrict1(q, x, True)
        c, d = tm._restrict1(p, x, False), tm._restrict1(q, x, False)
        if a is d and b is c:
            return self.edit('condition negated', p, q)
        if a is not b:
            self.walk(a, b)
        if c is not d:
            self.walk(c, d)

    def predicates(self, p, q):
        """do two conditions about the same quantity differ for some natural number?"""
        if other_test(p, q):
            return True
        a, b = natural(p), natural(q)
        if a is not None and b is not None and a[0] is b[0]:
            return a[1] != b[1] and a[1] != [not x for x in b[1]]
        if a is not None and b is not None:
            # something there at all, against a number of items (one alone may be ruled out otherwise)
            x, y = [t.a[0] if t.op in ('len', 'size') else t for t in (a[0], b[0])]
            if x is y and 'truthy' in (p.op, q.op) and a[1][0] == b[1][0] and a[1][3:] != b[1][3:]:
                return True
        if {p.op, q.op} & {'in'} and {p.op, q.op} & {'lt', 'le'}:
            x = (p if p.op == 'in' else q).a
            y = (q if p.op == 'in' else p).a
            if x[0] in y and x[1].op != 'comp':
                return True
        if {p.op, q.op} == {'eq', 'in'}:
            x, y = (p, q) if p.op == 'eq' else (q, p)
            if set(x.a) == set(y.a):
                return True
            if y.a[0].op == y.a[1].op == 'attr' and y.a[0].a[1] == y.a[1].a[1] and set(x.a) in (
                    {y.a[0].a[0], y.a[1].a[0]}, set(y.a)):
                return True             # a part of the name is no name
            for a, b in (x.a, x.a[::-1]):
                if b is y.a[0] and p.op == 'in' and a.op == 'at' and a.a[0] is y.a[1] and tm.is_c(a.a[1]):
                    return True         # only one of the members is compared
        if {p.op, q.op} <= {'eq', 'lt', 'le'}:
            for i in (0, 1):
                for j in (0, 1):
                    x, y = p.a[1 - i], q.a[1 - j]
                    if p.a[i] is q.a[j] and x is not y and not {x.op, y.op} & {'c', 'poly', 'mono'}:
                        d = Delta(self)
                        d.budget = 200
                        d.walk(x, y)
                        if d.edits and not d.rewritings:
                            return True
        return None

    # -- leaves ------------------------------------------------------------
    def leaf(self, p, q):
        if atom(p) and atom(q):
            return self.edit('replaced', p, q)
        hp, hq = head(p), head(q)
        if q is EMPTY and p.op in ('fold', 'comp', 'seq') and not (p.op == 'comp' and vacuous(p)):
            return self.edit('nothing is left', p, q)
        if p.op == 'new' and q.op == 'new' and hp != hq:
            return self.edit('other class', p, q)
        if {p.op, q.op} == {'len', 'size'} and len(p.a) == len(q.a) == 1:
            return self.walk(p.a[0], q.a[0])
        if repeats(p, q):
            return self.edit('duplicates are kept', p, q)
        if merges(q) and not merges(p) and not (self.ref & DEDUP):
            return self.edit('entries with equal keys are merged', p, q)
        if other_power(p, q):
            return self.edit('other power', p, q)
        if {p.op, q.op} & {'poly', 'mono'} or p.op == q.op == 'f' and hp == hq == 'pow':
            P, Q = tm._topoly(p), tm._topoly(q)
            if vars_of(P) == vars_of(Q) and P != Q:
                return self.edit('other arithmetic', p, q)
        if {p.op, q.op} == {'round', 'poly'} and derounded(p) is derounded(q):
            return self.edit('rounded at another place', p, q)
        a, b = power(p), power(q)
        if a[0] is b[0] and a[1] != b[1]:
            return self.edit('exponent', p, q)
        if frozenset((hp, hq)) in UNLIKE and args_of(p)[0] is args_of(q)[0]:
            a, b = map(blocks, self.roots)
            if a != b and set(a) == set(b):
                return self.unk(p, q)       # the other lists put together in another order, too
            return self.edit('operator', p, q)
        if hp in ('numpy.amax', 'numpy.amin') and hq in ('numpy.sum', 'numpy.mean') and p.op == q.op == 'f' and len(self.stack) > 1 and \
                self.stack[-2].op in ('lt', 'le') and any(tm.num(x) and x.a[0] for x in self.stack[-2].a):
            return self.edit('other measure', p, q)
        if frozenset((hp, hq)) in MEASURES and p.op == q.op == 'f' or hp == 'norm' and hq in ('numpy.amax', 'numpy.amin', 'numpy.mean', 'numpy.median'):
            return self.edit('other measure', p, q)
        if all_alike(p, q):
            return self.edit('replaced by a constant array', p, q)
        if rounded_items(p, q):
            return self.edit('rounded', p, q)
        if unwrapped(p, q):
            return self.edit('cut off instead of wrapped', p, q)
        if shortened(p, q):
            return self.edit('identifier cut short', p, q)
        if q.op == 'fold' and accumulates(p, q):
            return self.edit('changes of earlier rounds carried over', p, q)
        if p.op == 'm' and p.a[0] in ('random_pop', 'get_random') and q.op == 'm' and q.a[0] not in ('random_pop', 'get_random', 'pop') and \
                q.a[1].op in ('arg', 'carg', 'self') and len(q.a) == 2 and not q.fv:
            return self.edit('always the same one', p, q)
        if q.op == 'is' and p.op == 'eq' and {x for x in q.a} == {x for x in p.a}:
            return self.edit('the same object instead of an equal one', p, q)
        if q.op == 'slice' and p.op == 'm' and tm.num(q.a[2]) and q.a[2].a[0] > 3 and q.a[1] in (NONE, tm.C(0)) and contains(q.a[0], p):
            return self.edit('only a part of the members kept', p, q)
        if measure(p, q) or boxed(p, q):
            return self.edit('other measure', p, q)
        if q.op == 'f' and hq in CONST_LIKE and len(q.a) > 1 and q.a[1] is p and p.op != 'f':
            return self.edit('replaced by a constant array', p, q)
        if indices(p) and filters(p, q):
            return self.edit('the index 0 taken for none', p, q)
        if not indifferent(self.stack[:-1]):
            if filters(p, q):
                return self.edit('some of the items are left out', p, q)
            if reorders(p, q):
                return self.edit('put in another order', p, q)
        if run_together(p, q):
            return self.edit('the numbers run together', p, q)
        if p.op == 'eq' and q.op == 'm' and q.a[0] in ('startswith', 'endswith') and len(q.a) == 3 and \
                {cut(x) for x in q.a[1:]} == set(p.a):
            return self.edit('a part taken for the whole', p, q)
        if overlooks(p, q):
            return self.edit('items left out', p, q)
        if forgets(p, q):
            return self.edit('what was seen is forgotten in every round', p, q)
        if ordered_only(p, q):
            return self.edit('only the pairs in order', p, q)
        if one_sided(p, q):
            return self.edit('near an integer on one side only', p, q)
        if p.op == q.op == 'rand' and hp != hq and any(hp in g for g in DIST) and any(hq in g for g in DIST) \
                and not any(hp in g and hq in g for g in DIST):
            return self.edit('other distribution', p, q)
        if p.op == 'rand' and any(hp in g for g in DIST[1:]) and any(
                x.op == 'rand' and (x.a[0] in DIST[0] or x.a[0] in UNEVEN) for x in subterms(q)):
            return self.edit('other distribution', p, q)
        if loosened(p, q):
            return self.edit('near ones taken for equal', p, q)
        if given_up(p, q):
            return self.edit('what was found is given up again', p, q)
        if longer_word(p, q):
            return self.edit('other words are accepted', p, q)
        if members_for_number(p, q):
            return self.edit('the members compared where their number was asked for', p, q)
        if {p.op, q.op} == {'isinst', 'eq'} and exact_class(p, q):
            return self.edit('members of subclasses are told apart', p, q)
        for g in SIB:
            if hp in g and hq in g and hp != hq:
                pa, qa = args_of(p), args_of(q)
                if sorted(x.dig for x in pa) == sorted(x.dig for x in qa):
                    return self.edit('operator', p, q)
        if hp != hq and {hp, hq} <= {'lt', 'le', 'eq', 'ne', 'in', 'is', 'truthy'}:
            r = self.predicates(p, q)
            if r is not None:
                return self.edit('condition', p, q) if r else self.unk(p, q)
        if p.op == q.op and p.op in ('m', 'api') and hp != hq and args_of(p) == args_of(q):
            import interp
            if hp in interp.API_METHODS and hq in interp.API_METHODS or p.op == 'api':
                return self.edit('other operation', p, q)
        if path(p) is not None and path(p) == path(q):
            return self.edit('other attribute', p, q)
        if q.op == 'len' and selects(q.a[0]) and p.op == 'attr' and p.a[1] in ('num_count', '_num_count'):
            return self.edit('counts a selection', p, q)
        if {p.op, q.op} <= {'len', 'size'} and selects(p.a[0]) != selects(q.a[0]):
            return self.edit('counts a selection', p, q)
        if {hp, hq} == {'fold', 'scatterv'}:
            a, b = as_fold(p), as_fold(q)
            if a is not None and b is not None:
                return self.walk(a, b)
        if hp != hq and {hp, hq} <= UPDATES and sorted(ops(p)) == sorted(ops(q)):
            return self.edit('order of updates', p, q)
        if trunc(p, q):
            return self.edit('cut off', p, q)
        if len(self.stack) > 1 and self.stack[-2].op == 'in' and character(p) and not character(q) and \
                self.stack[-2].a[0] is p and tm.is_c(self.stack[-2].a[1]) and isinstance(self.stack[-2].a[1].a[0], str):
            return self.edit('any text found inside the word', p, q)
        if q.op == 'attr' and q.a[1] in OTHER_KEYS and q.a[1] not in {x.a[1] for t in self.roots[:1] for x in subterms(t) if x.op == 'attr'}:
            return self.edit('another property of the element', p, q)
        if tm.num(p) and len(self.stack) > 1 and self.stack[-2].op == 'round' and self.stack[-2].a[1] is p and varies(q):
            return self.edit('the constant depends on the input', p, q)
        if constant(p) and p.op != 'c' and varies(q):
            return self.edit('the constant depends on the input', p, q)
        if self.omits(p, q) or skips(p, q):
            return self.edit('items left out', p, q)
        if unequal(p, q) or other_test(p, q):
            return self.edit('other arithmetic', p, q)
        if last_only(p, q):
            return self.edit('only the last one looked at', p, q)
        if q.op == 'sorted' and p.op == 'attr' and p.a[0].op == 'self' and self.roots and self.roots[0] is p and self.roots[1] is q:
            return self.edit('put in another order', p, q)
        if unordered(p, q):
            return self.edit('compared without regard to order', p, q)
        if p.op == 'c' and isinstance(p.a[0], str) and q.op == 'typeof' and q.a[0].op == 'self':
            return self.edit('the class of the object itself, which has subclasses', p, q)
        if stale(p, q) and not guarded(self.roots, q):
            return self.edit('stored at a place that may be gone', p, q)
        if counted(p, q):
            return self.edit('as many rounds as there are matches', p, q)
        if part_of(p, q):
            return self.edit('only a part of the members looked at', p, q)
        if chosen(p, q):
            return self.edit('the first in an order instead of the one asked for', p, q)
        if distinct(p, q, self.stack):
            return self.edit('only distinct values count', p, q)
        if nearest(p, q):
            return self.edit('rounding finds the nearest image in orthogonal cells only', p, q)
        if p.op == 'comp' and q.op == 'fold' and deletes_shifting(p, q):
            return self.edit('repeated or unordered indices delete other items', p, q)
        if q.op == 'at' and q.a[0].op == 'slice' and q.a[0].a[2] is not NONE and tm.mk_at(q.a[0].a[0], q.a[1]) is p:
            return self.edit('the item may have been cut off before', p, q)
        if p.op in ATOMS or q.op in ATOMS:
            # a computed value stands where a constant, a parameter or a loop variable stood, or the other way round
            if not (self._foreign([q]) and p.op in ATOMS):
                return self.edit('replaced', p, q)
        if p.size > 1 and not tm.is_c(p) and contains(q, p):
            hs = foreign_heads(q, p)
            hs = [h for h in hs if not (h[0] == 'f' and h[1] in VALUE_F)]
            if hs or q.op in ('at', 'item', 'slice', 'len', 'size', 'arr', 'astuple', 'sorted', 'uset', 'seq', 'comp',
                              'dictof', 'tolist') and not plain_wrap(p, q):
                return self.unk(p, q)
            return self.edit('computed on', p, q)
        if q.size > 1 and not tm.is_c(q) and contains(p, q):
            if p.op == 'scatter' and guarded(self.roots, p):
                return self.unk(p, q)
            return self.edit('left out', p, q)
        if not self._foreign([q]):
            import specs
            if source(p) and source(q):
                return self.edit('replaced', p, q)
            hs, ht = specs.heads(p) - STRUCT, specs.heads(q) - STRUCT
            if bool(hs - ht) != bool(ht - hs) and (hs ^ ht) - NEUTRAL and all(significant(h) for h in (hs ^ ht) - NEUTRAL):
                return self.edit('dropped' if hs - ht else 'added', p, q)
        self.unk(p, q)


    def omits(self, p, q):
        """p lists one item per round, q the same ones but for some rounds"""
        if p.op != 'comp' or q.op != 'fold' or p.a[1] != 1 or q.a[1] != 1 or q.a[2] != 1:
            return False
        v, L = tm.fresh(), p.a[2]
        tr = tm.subst(p.a[3], {tm.bound_names(p)[0]: v})
        le = tm.leaf_emit(tr) if tr.op != 'ite' else ('x',)
        n = tm.bound_names(q)
        if le[0] != 'one' or len(n) != 2 or q.a[3] is not L or q.a[4] is not EMPTY or len(q.a) < 7:
            return False
        names = {n[0], n[1]}
        st = [x for x in tm.leaves(q.a[5]) if x.op == 'v' and x.a[0] in names]
        if not st:
            return False
        st = st[0]
        i, = names - {st.a[0]}
        if q.a[6] is not FALSE or n[1] != st.a[0]:
            return False
        for x in tm.leaves(q.a[5]):
            if x is st:
                continue
            if not (x.op == 'seq' and len(x.a) == 2 and x.a[0].op == 's' and x.a[0].a[0] is st and x.a[1].op == 'e'):
                return False
            if tm.subst(x.a[1].a[0], {i: v}) is not le[1]:
                return False
        return True


def cut(t):
    return t.a[0] if t.op == 'slice' else t


def zero_replaced(q):
    """x or c: the falsy value of a number becomes another constant"""
    for x in conds(q):
        if x.op == 'truthy':
            hi, lo = cofactor(q, x, True), cofactor(q, x, False)
            if tm.num(lo) and lo.a[0] and any(y is x.a[0] for y in tm.leaves(hi)):
                return True
    return False


def parts_of_fold(t):
    """(bounds, initial values, updates, stop) of a fold on fresh names, and the names"""
    k, n = t.a[1], t.a[2]
    names = tm.bound_names(t)
    if len(names) != k + n:
        return None
    fresh = [tm.fresh() for _ in names]
    m = dict(zip(names, fresh))
    b = [tm.subst(x, m) if isinstance(x, T) else x for x in t.a[3:]]
    return fresh[:k], fresh[k:], b[:k], list(t.a[3 + k:3 + k + n]), b[k + n:k + 2 * n], b[k + 2 * n]


def empty_table(t):
    return t.op == 'uset' and t.a[0] is EMPTY or t.op == 'dict' and not t.a


def roots_of(t, i):
    """the sequences the item number i is taken of, in t"""
    return {x.a[0] for x in subterms(t) if x.op == 'at' and x.a[1] is i}


def overlooks(p, q):
    """p has one item per round, q only one per value of a part of what the item is made from"""
    if p.op != 'comp' or q.op != 'fold' or p.a[1] != 1 or q.a[1] != 1 or q.a[2] != 2:
        return False
    f = parts_of_fold(q)
    if f is None:
        return False
    (i,), (s, h), (L,), (i0, j0), (us, uh), stop = f
    if empty_table(j0):
        s, h, us, uh, i0, j0 = h, s, uh, us, j0, i0
    if not empty_table(i0) or L is not p.a[2] or stop is not FALSE:
        return False
    cs = conds(uh) | conds(us)
    keys = {c.a[0] for c in cs if c.op == 'in' and c.a[1] is s}
    if len(keys) != 1 or any(not (c.op == 'in' and c.a[1] is s) for c in cs):
        return False
    key, = keys
    if cofactor(uh, raw('in', key, s), True) is not h:
        return False
    tr = tm.subst(p.a[3], {tm.bound_names(p)[0]: i})
    le = tm.leaf_emit(tr) if tr.op != 'ite' else ('x',)
    if le[0] != 'one':
        return False
    used, known = roots_of(le[1], i), roots_of(key, i)
    if known and known == used and all(loses(key, raw('at', r, i)) for r in known) and not bare(key, i):
        return True
    return bool(known) and bool(used - known) and not any(i.a[0] in r.fv for r in used) and le[1] not in subterms(key)


LOSING = {'numpy.diff', 'numpy.trace', 'sum', 'prod', 'numpy.sum', 'numpy.linalg.det', 'norm', 'len', 'size', 'numpy.amax', 'numpy.amin',
          'numpy.mean', 'mod', 'fdiv', 'minof', 'maxof', 'numpy.bincount'}


def bare(t, i):
    """the number i itself counts in t, not only the items it is the number of"""
    return t is i or t.op != 'at' and any(bare(x, i) for x in t.a if isinstance(x, T)) \
        or t.op == 'at' and (t.a[1] is not i and bare(t.a[1], i) or bare(t.a[0], i))


def loses(key, x):
    """different x give the same key: x counts only through sums, differences, sizes, ..."""
    if key is x:
        return False
    if not any(y is x for y in subterms(key)):
        return True
    if key.op == 'poly' and len(tm._topoly(key)) == 1:
        pass
    elif (key.a[0] if key.op == 'f' else key.op) in LOSING:
        return True
    return all(loses(y, x) for y in key.a if isinstance(y, T))


def forgets(p, q):
    """p looks up what earlier rounds put into a table, q starts the table anew in every round"""
    if p.op != 'fold' or q.op != 'fold' or p.a[2] <= q.a[2]:
        return False
    f, g = parts_of_fold(p), parts_of_fold(q)
    if f is None or g is None:
        return False
    kept = [s for s, i in zip(f[1], f[3]) if empty_table(i) and i.op == 'uset']
    if len(kept) != 1 or any(empty_table(i) for i in g[3]):
        return False

    def inner(us):
        out = 0
        for u in us:
            for x in subterms(u):
                if x.op == 'fold':
                    y = parts_of_fold(x)
                    if y is not None:
                        out += sum(empty_table(i) for i in y[3])
        return out
    if inner(f[4]) or not inner(g[4]):
        return False
    tests = [x for t in g[4] for x in subterms(t) if x.op == 'in']
    return bool(tests) and not any(x.op == 'in' and x.a[1] in g[1] for x in tests)


def blocks(t):
    """lists of sums A[i] + B: (A, B) of each"""
    for x in subterms(t):
        if x.op == 'comp' and x.a[1] == 1:
            (v, L), = (cl := tm.open_comp(x))[0]
            le = tm.leaf_emit(cl[1]) if cl[1].op != 'ite' else ('x',)
            if le[0] != 'one' or le[1].op != 'poly':
                continue
            P = tm._topoly(le[1])
            if len(P) != 2 or any(c != 1 or len(m) != 1 or m[0][1] != 1 for m, c in P.items()):
                continue
            a, b = [m[0][0] for m in P]
            if b.op == 'at' and b.a[1] is v:
                a, b = b, a
            if a.op == 'at' and a.a[1] is v and v.a[0] not in b.fv | a.a[0].fv:
                return [a.a[0].dig, b.dig]
    return []


def repeated(t):
    return {x.a[0] for x in subterms(t) if x.op == 'f' and x.a[0] in ('numpy.repeat', 'numpy.tile')}


def skips(p, q):
    """p extends a list (a table) in every round, q not in all of them, or only up to some round"""
    if q.op != 'fold' or q.a[2] != 1:
        return False
    k = q.a[1]
    n = tm.bound_names(q)
    if len(n) != k + 1:
        return False
    vs = [tm.fresh() for _ in range(k)]
    h = tm.fresh()
    m = dict(zip(n, vs + [h]))
    Ls = [tm.subst(x, m) for x in q.a[3:3 + k]]
    init, step, stop = q.a[3 + k], tm.subst(q.a[4 + k], m), tm.subst(q.a[5 + k], m)
    if p.op == 'upd' and p.a[0] is init:
        S = p.a[1]
    elif p.op == 'seq' and len(p.a) == 2 and p.a[0].op == p.a[1].op == 's' and p.a[0].a[0] is init:
        S = p.a[1].a[0]
    else:
        return False
    if S.op == 'comp':
        if S.a[1] != k:
            return False
        ms = dict(zip(tm.bound_names(S), vs))
        if [tm.subst(x, ms) for x in S.a[2:2 + k]] != Ls:
            return False
        tr = tm.subst(S.a[2 + k], ms)
        le = tm.leaf_emit(tr) if tr.op != 'ite' else ('x',)
        if le[0] != 'one':
            return False
        want = le[1]
    elif k == 1 and Ls[0] is tm.mk_len(S):
        want = tm.mk_at(S, vs[0])
    else:
        return False
    lv = set(tm.leaves(step))
    for x in lv - {h}:
        if x.op == 'upd' and p.op == 'upd' and x.a[0] is h and x.a[1].op == 'seq' and len(x.a[1].a) == 1 and \
                x.a[1].a[0].op == 'e':
            y = x.a[1].a[0].a[0]
            if y is not want and raw('seq', raw('e', y)) is not want and not (want.op == 'seq' and want.a == x.a[1].a):
                return False
        elif x.op == 'seq' and p.op == 'seq' and len(x.a) == 2 and x.a[0].op == 's' and x.a[0].a[0] is h and x.a[1].op == 'e':
            if x.a[1].a[0] is not want:
                return False
        else:
            return False
    if stop is not FALSE:
        return True
    if h not in lv:
        return False
    # what is in a table already need not be put there
    return not (p.op == 'upd' and all(c.op == 'in' and c.a[1] is h for c in conds(step)))


ORDERLESS = {'sorted', 'uset', 'len', 'size', 'sum', 'numpy.sum', 'numpy.sort', 'collections.Counter', 'numpy.unique',
             'numpy.amax', 'numpy.amin', 'numpy.mean', 'prod', 'numpy.bincount'}


def unordered(p, q):
    """p compares two sequences item by item, q something that says nothing about their order"""
    def sides(t):
        if t.op == 'eq' and len(t.a) == 2 or t.op == 'f' and t.a[0] in ('numpy.array_equal', 'numpy.allclose'):
            return [x for x in t.a if isinstance(x, T)][:2]
    a, b = sides(p), sides(q)
    if not a or not b or head(b[0]) != head(b[1]) or head(b[0]) not in ORDERLESS or head(a[0]) in ORDERLESS or head(a[1]) in ORDERLESS:
        return False
    return {args_of(x)[0] for x in b} == {tm.strip_arr(x) for x in a} or {args_of(x)[0] for x in b} == set(a)


def stale(p, q):
    """p stores an item and then cuts the list, q stores into what is left of it"""
    return p.op == 'slice' and p.a[0].op == 'scatter' and q.op == 'scatter' and q.a[0].op == 'slice' and \
        q.a[0].a[0] is p.a[0].a[0] and q.a[0].a[1:] == p.a[1:] and q.a[1] is p.a[0].a[1]


def guarded(roots, q):
    """the result is under a question about the place q stores at, or about
    what it stores, which the reference result is not under"""
    if roots is None:
        return False
    names = {i.a[0] for i in q.a[1].a if i.op == 'e'} if q.a[1].op == 'seq' else {q.a[1]}
    names |= {x for x in q.a[2:] if isinstance(x, T)}

    def asked(r):
        return {c for t in subterms(r) if t.op == 'ite' for c in conds(t)}
    return any(any(x in names for x in subterms(c)) for c in asked(roots[1]) - asked(roots[0]))


def counted(p, q):
    """p goes through the members of X, q makes as many rounds as X has some value"""
    if p.op not in ('len', 'size') or q.op != 'm' or q.a[0] != 'count' or len(q.a) != 3:
        return False
    return q.a[1] is p.a[0]


def part_of(p, q):
    """p asks for a member of a collection, q for a member of a part of it"""
    if q.op != 'ite' and q.op != 'in' or p.op != 'ite' and p.op != 'in':
        return False
    A = [x for x in (conds(p) if p.op == 'ite' else [p]) if x.op == 'in']
    B = [x for x in (conds(q) if q.op == 'ite' else [q]) if x.op == 'in']
    return len(A) == 1 and not any(x in A for x in B) and any(
        x.a[0] is A[0].a[0] and x.a[1].op == 'slice' and x.a[1].a[0] is A[0].a[1] for x in B)


def chosen(p, q):
    """p is the first item meeting an equation, q the first one in some order of all"""
    if q.op in ('minof', 'maxof') and len(q.a) == 2 and q.a[1].op == 'lam':
        S, f = q.a
    elif q.op == 'at' and q.a[0].op == 'sorted' and tm.is_c(q.a[1]) and q.a[0].a[1].op == 'lam':
        S, f = q.a[0].a[:2]
    else:
        return False
    if p.op == 'at' and p.a[1] is tm.C(0):
        p = p.a[0]
    if p.op != 'comp' or p.a[1] != 1 or not selects(p):
        return False
    eqs = [x for x in conds(p.a[3]) if x.op == 'eq']
    return bool(eqs) and not any(x.op == 'eq' for x in subterms(q)) and p.a[2] in (tm.mk_len(S), tm.mk_len(items_src(S)))


def items_src(S):
    return S.a[1] if items_of_dict(S) else S


def distinct(p, q, stack):
    """the number of distinct values where the number of values was asked for"""
    if q.op != 'uset' or p.op == 'uset' or tm.distinct_members(p):
        return False
    for t in reversed(stack[:-1]):
        if t.op in ('len', 'size'):
            return p is q.a[0] and t.a[0] is p and (p.op == 'attr' or p.op == 'at' and p.a[0].op == 'f')
        break
    return False


def loosened(p, q):
    """p asks whether whole numbers are equal, q whether they are near each other"""
    if q.op != 'f' or q.a[0] not in ('numpy.allclose', 'numpy.isclose') or len(q.a) < 4:
        return False
    if not (p.op == 'f' and p.a[0] == 'numpy.array_equal' or p.op == 'eq'):
        return False
    tol = q.a[3:5]
    # atomic numbers go up to 118
    return {tm.strip_arr(x) for x in args_of(p)[:2]} == {tm.strip_arr(x) for x in args_of(q)[:2]} and \
        any(tm.num(x) and x.a[0] * (118 if n == 0 else 1) >= 1 for n, x in enumerate(tol))


def given_up(p, q):
    """p asks whether something holds for any member; q goes through all of them
    and may turn a yes into a no"""
    if p.op != 'any' or q.op != 'fold' or q.a[1] != 1 or q.a[2] != 1:
        return False
    _, st, _, inits, us, stop = parts_of_fold(q)
    if inits[0] is not FALSE or stop is not FALSE:
        return False
    u = tm.subst(us[0], {st[0].a[0]: TRUE})
    return (FALSE in tm.leaves(u) or u.op in PREDICATES + ("ne",)) and st[0] in subterms(us[0])


def longer_word(p, q):
    """p asks about the first character of a text, q for a beginning of other words"""
    if p.op != 'in' or not tm.is_c(p.a[1]) or not isinstance(p.a[1].a[0], str) or q.op != 'm' or q.a[0] != 'startswith' or len(q.a) != 3:
        return False
    x = p.a[0]
    if not (x.op == 'at' and x.a[1] is tm.C(0)):
        return False
    S, chars = x.a[0], set(p.a[1].a[0])
    w = [q.a[2]] if q.a[2].op == 'c' else list(q.a[2].a) if q.a[2].op == 'tup' else []
    if not w or not all(tm.is_c(y) and isinstance(y.a[0], str) for y in w):
        return False
    w = {y.a[0] for y in w}
    T_ = q.a[1]
    if T_ is S:
        case = lambda c: c
    elif T_.op == 'm' and T_.a[0] in ('lower', 'casefold', 'upper') and len(T_.a) == 2 and T_.a[1] is S:
        case = str.upper if T_.a[0] == 'upper' else str.lower
    else:
        return False
    if any(len(y) != 1 for y in w):
        # each accepted character would have to be a whole word
        return any(case(c) not in w for c in chars)
    return any((case(c) in w) != (c in chars) for c in map(chr, range(33, 127)))


def members_for_number(p, q):
    """p compares two lengths, q what the two contain"""
    if p.op != 'eq' or q.op != 'f' or q.a[0] not in ('numpy.array_equal', 'numpy.allclose'):
        return False
    if not all(isinstance(x, T) and x.op in ('len', 'size') for x in p.a):
        return False
    a, b = args_of(q)[:2]
    if any(x.op in ('len', 'size', 'comp') for y in (a, b) for x in subterms(y)):
        return False
    X, Y = (x.a[0] for x in p.a)
    return a.op == b.op == 'f' and {args_of(a)[0], args_of(b)[0]} == {X, Y} or {a, b} == {X, Y}


def nearest(p, q):
    """p looks at every translation of a point, q rounds the difference of fractional coordinates"""
    if p.op != 'any' or q.op not in ('lt', 'le'):
        return False
    def looks(t, op):
        return any(x.op == op and any(y.op == 'mm' for y in subterms(x)) for x in subterms(t))
    return looks(p, 'norm') and looks(q, 'norm') and not any(x.op == 'round' for x in subterms(p)) and \
        not any(x.op in ('comp', 'fold', 'any', 'while') for x in subterms(q)) and \
        any(x.op == 'mm' and any(y.op == 'round' for y in subterms(x)) for x in subterms(q))


CONST_LIKE = ('numpy.ones_like', 'numpy.zeros_like', 'numpy.full_like', 'numpy.empty_like')
VOLUME = {'prod', 'numpy.linalg.det'}
OTHER_MEASURES = {'numpy.amax', 'numpy.amin', 'numpy.trace', 'numpy.mean', 'numpy.median', 'numpy.sum', 'norm', 'maxof', 'minof', 'sum'}


def measure(p, q):
    """the volume of a matrix against its largest entry, trace .."""
    def strip(t):
        while t.op == 'pow' or t.op == 'f' and t.a[0] in ('builtins.int', 'builtins.abs', 'numpy.abs', 'builtins.round', 'pow') or t.op == 'round':
            t = t.a[0] if t.op in ('pow', 'round') else t.a[1]
        return t
    p, q = strip(p), strip(q)
    if head(p) == 'numpy.linalg.det' and head(q) == 'prod' and any(head(x) in ('norm', 'numpy.linalg.norm') for x in subterms(q)) and \
            any(x is args_of(p)[0] for x in subterms(q)):
        return True
    if head(p) not in VOLUME or head(q) not in OTHER_MEASURES:
        return False
    x, y = args_of(p)[0], args_of(q)[0]
    if x.op == 'diag':
        x = x.a[0]
    if y.op == 'diag':
        y = y.a[0]
    return tm.strip_arr(x) is tm.strip_arr(y)


def ordered_only(p, q):
    """p goes through all pairs (triples ..) of numbers below a bound, q through the ordered ones"""
    if p.op != 'comp' or q.op != 'comp' or p.a[1] < 2 or q.a[1] != p.a[1] - 1 and q.a[1] != 1:
        return False
    cp, tp = tm.open_comp(p)
    cq, tq = tm.open_comp(q)
    for n, (w, L) in enumerate(cq):
        if L.op == 'len' and L.a[0].op == 'f' and L.a[0].a[0] in ('itertools.combinations', 'itertools.combinations_with_replacement') \
                and len(L.a[0].a) == 3 and tm.num(L.a[0].a[2]):
            k = L.a[0].a[2].a[0]
            Y = L.a[0].a[1]
            if len(cp) != len(cq) - 1 + k:
                return False
            vs = cp[n:n + k]
            # renaming renormalises: equal parts of the two sides become equal terms
            new = [tm.fresh() for _ in cq]
            m = {v.a[0]: u for (v, _), u in zip(cp[:n] + cp[n + k:], new[:n] + new[n + 1:])}
            mq = {v.a[0]: u for (v, _), u in zip(cq, new)}
            N = tm.mk_len(tm.subst(Y, mq))
            if any(tm.subst(l, m) is not N for _, l in vs):
                return False
            m.update({v.a[0]: tm.mk_at(tm.mk_at(tm.subst(L.a[0], mq), new[n]), tm.C(j)) for j, (v, _) in enumerate(vs)})
            return tm.subst(tp, m) is tm.subst(tq, mq)
    return False


def one_sided(p, q):
    """rounded numbers that are integers, against a remainder by one that is small"""
    def rounded(t):
        return any(x.op in ('eq', 'ne') and tm.C(0) in x.a and any(y.op == 'mod' and y.a[1] is tm.C(1) and y.a[0].op == 'round' for y in x.a)
                   for x in subterms(t))

    def small(t):
        return [x for x in subterms(t) if x.op in ('lt', 'le') and tm.num(x.a[1]) and bare(x.a[0]) is not None]

    def bare(t):
        while t.op == 'f' and t.a[0] in ('numpy.abs', 'numpy.absolute', 'builtins.abs', 'numpy.amax'):
            t = t.a[1]
        return t if t.op == 'mod' and t.a[1] is tm.C(1) and t.a[0].op != 'round' else None
    if any(x.op in ('ewor', 'ewand', 'ite', 'any', 'box') or x.op == 'f' and x.a[0] in ('numpy.minimum', 'numpy.where') or
           x.op == 'poly' and any(y.op == 'mod' for y in subterms(x)) or
           x.op in ('lt', 'le') and any(y.op == 'mod' for y in subterms(x.a[1])) for x in subterms(q)):
        return False                # the other side, too
    return p.op == q.op == 'f' and rounded(p) and bool(small(q)) and not rounded(q) and p.a[0] == 'numpy.all' or \
        p.op == 'f' and p.a[0] == 'numpy.all' and rounded(p) and q in small(q)


def indifferent(stack):
    """is a value used where the order of its items, or some of them, may not matter?"""
    for t in reversed(stack):
        if t.op in ('eq', 'ne', 'fmt') or t.op == 'f' and t.a[0] in ('numpy.array_equal', 'numpy.allclose'):
            return False
        if t.op in ('without', 'uset', 'dictof', 'in', 'any', 'sum', 'minof', 'maxof', 'sorted', 'len', 'size', 'nz', 'while', 'prod',
                    'hash', 'cond', 'truthy', 'minlen', 'dict', 'norm') or t.op == 'f' and t.a[0] in (
                        'collections.Counter', 'builtins.sum', 'numpy.sum', 'numpy.amax', 'numpy.amin', 'numpy.mean', 'numpy.sort',
                        'numpy.unique', 'builtins.min', 'builtins.max', 'numpy.argsort', 'numpy.any', 'numpy.all'):
            return True
        if t.op in ('comp', 'fold') and any(x.op == 'ite' for x in subterms(t)):
            return True
    return False


def run_together(p, q):
    """p writes a list, q writes its items one after the other with nothing between them"""
    if p.op != 'str' or len(p.a) != 1 or p.a[0].op != 'fmt' or q.op != 'join' or q.a[0] is not tm.C('') or q.a[1].op != 'comp' or q.a[1].a[1] != 1:
        return False
    X, S = p.a[0].a[0], q.a[1]
    if X.op == 'tolist':
        X = X.a[0]
    le = tm.leaf_emit(S.a[3]) if S.a[3].op != 'ite' else ('x',)
    if le[0] != 'one' or le[1].op != 'str' or len(le[1].a) != 1 or le[1].a[0].op != 'fmt' or le[1].a[0].a[1] != '':
        return False
    v = tm.fresh()
    return tm.subst(le[1].a[0].a[0], {tm.bound_names(S)[0]: v}) is tm.mk_at(X, v)


def indices(p):
    return p.op == 'at' and p.a[0].op == 'f' and p.a[0].a[0] == 'itertools.combinations' and p.a[0].a[1].op == 'comp' and p.a[0].a[1].a[1] == 1 \
        and all(x == ('none',) or x[0] == 'one' and x[1].op == 'v' for x in map(tm.leaf_emit, tm.leaves(p.a[0].a[1].a[3])))


def filters(p, q):
    """q is p without the items whose value is, or compares in some way with, a constant"""
    v = tm.fresh()

    def test(c):
        cs = list(conds(c)) if c.op == 'ite' else [c]
        if not cs:
            return False
        for x in cs:
            el = tm.mk_at(p, v)
            if x.op == 'truthy' and x.a[0] is el:
                continue
            if x.op in ('eq', 'ne', 'lt', 'le') and any(tm.num(y) for y in x.a) and any(y is el for y in x.a):
                continue
            return False
        return True
    if q.op == 'sel' and q.a[0] is p:
        m = q.a[1]
        return m.op in ('eq', 'ne', 'lt', 'le') and any(tm.num(y) for y in m.a)
    sel = q
    idx = False
    if q.op == 'at' and q.a[0] is p and q.a[1].op == 'comp':
        sel, idx = q.a[1], True
    if sel.op != 'comp' or sel.a[1] != 1:
        return False
    tr = tm.subst(sel.a[3], {tm.bound_names(sel)[0]: v})
    if tr.op != 'ite':
        return False
    want = v if idx else tm.mk_at(p, v)
    le = [tm.leaf_emit(x) for x in tm.leaves(tr)]
    if ('none',) not in le or not all(x == ('none',) or x[0] == 'one' and x[1] is want for x in le) or len(set(le)) < 2:
        return False
    if not idx and sel.a[2] is not tm.mk_len(p):
        return False
    return idx and tr.op == 'ite' and all(x.op in ('eq', 'ne', 'lt', 'le') and any(tm.num(y) for y in x.a) and
                                          any(y.op == 'at' and y.a[1] is v for y in x.a) for x in conds(tr)) or test(tr)


def reorders(p, q):
    return q.op == 'at' and q.a[0] is p and q.a[1].op == 'f' and q.a[1].a[0] in ('numpy.argsort', 'numpy.lexsort', 'numpy.random.permutation')


def items_of_dict(t):
    return t.op == 'm' and t.a[0] == 'items' and len(t.a) == 2


def parts_of(t, n):
    """which components of the variable n a value is computed from"""
    if t.op == 'v':
        return {None} if t.a[0] == n else set()
    if t.op == 'at' and t.a[0].op == 'v' and t.a[0].a[0] == n and tm.is_c(t.a[1]):
        return {t.a[1].a[0]}
    out = set()
    for x in args_of(t):
        if n in x.fv:
            out |= parts_of(x, n)
    return out


def nothing(t):
    return t.op in ('dict', 'uset') and not t.a or t.op == 'uset' and t.a[0] is EMPTY


def word_test(c):
    """(string, 'word' | 'begin') for the comparison of a string, or of its beginning, with constants"""
    def strip(t):
        while t.op == 'm' and t.a[0] in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'casefold') and len(t.a) == 2:
            t = t.a[1]
        return t
    if c.op == 'm' and c.a[0] == 'startswith':
        return strip(c.a[1]), 'begin'
    if c.op == 'in' and c.a[1].op in ('c', 'tup', 'seq', 'uset'):
        x = c.a[0]
    elif c.op == 'eq' and any(tm.is_c(x) and isinstance(x.a[0], str) for x in c.a):
        x = [x for x in c.a if not tm.is_c(x)][0] if not all(tm.is_c(x) for x in c.a) else c.a[0]
    else:
        return None
    x = strip(x)
    if x.op == 'at' and x.a[1] is tm.C(0) or x.op == 'slice' and x.a[2] is tm.C(1) and x.a[1] in (NONE, tm.C(0)):
        return strip(x.a[0]), 'begin'
    if c.op == 'in' and tm.is_c(c.a[1]):
        return None
    return x, 'word'


OTHER_KEYS = {'atom_mass', 'atom_radius', 'abundance'}


def character(t):
    """a text of one character by construction"""
    while t.op == 'm' and t.a[0] in ('lower', 'upper', 'casefold') and len(t.a) == 2:
        t = t.a[1]
    if t.op == 'at' and t.a[0].op == 'm' and t.a[0].a[0] in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'casefold') and tm.is_c(t.a[1]):
        return True
    return t.op == 'slice' and t.a[2] is tm.C(1) and t.a[1] in (NONE, tm.C(0))


def constant(t):
    return all(x.op in ('c', 'arr', 'seq', 'e', 'tup', 'poly', 'mono') for x in subterms(t))


def varies(t):
    """a table with different numbers in it, according to conditions on what is given"""
    for x in subterms(t):
        if x.op == 'ite' and any(y.op in ('arg', 'self', 'carg') for y in subterms(x.a[0])):
            ls = set(tm.leaves(x))
            es = {tm.leaf_emit(y) for y in ls}
            if all(y[0] == 'one' and tm.num(y[1]) for y in es):
                ls = {y[1] for y in es}
            if len(ls) > 1 and all(tm.num(y) for y in ls):
                return True
        if x.op == 'f' and x.a[0] in ('numpy.log10', 'numpy.log', 'math.log10', 'math.log', 'numpy.amax', 'numpy.amin') and any(
                y.op in ('arg', 'self', 'carg') for y in subterms(x)):
            return True
    return False


def exact_class(p, q):
    i, c = (p, q) if p.op == 'isinst' else (q, p)
    ty = [x for x in c.a if x.op == 'typeof']
    return bool(ty) and ty[0].a[0] is i.a[0]


def twins(x):
    """the same feature of two things compared"""
    if x.op == 'eq' and len(x.a) == 2 or x.op == 'f' and x.a[0] in ('numpy.array_equal', 'numpy.allclose', 'math.isclose', 'numpy.isclose'):
        a, b = [y for y in x.a if isinstance(y, T)][:2]
        a, b = set(map(head, subterms(a))), set(map(head, subterms(b)))
        return not tm.is_c(x.a[-1]) and not tm.is_c(x.a[-2]) and bool((a & b) - set(ATOMS))
    return x.op == 'is'


def vars_of(P):
    return set(b for m in P for b, _ in m)


def derounded(t):
    def f(x):
        if x.op == 'round' or x.op == 'arr' and x.a[0].op not in ('seq', 'comp', 'tup'):
            return x.a[0]
    try:
        return tm.rewrite(t, f)
    except tm.TooBig:
        return None


def power(t):
    if t.op == 'f' and t.a[0] == 'math.sqrt':
        return t.a[1], 0.5
    if t.op == 'f' and t.a[0] == 'pow' and tm.num(t.a[2]):
        return t.a[1], t.a[2].a[0]
    if t.op == 'pow' and isinstance(t.a[1], int):
        return t.a
    return t, 1


def vacuous(p):
    return any(tm.is_c(x) for x in p.a[2:2 + p.a[1]])


def repeats(p, q):
    """p lists what has not come before, q lists everything"""
    if p.op != 'fold' or q.op != 'comp':
        return False
    import specs
    states = set(n for x in subterms(p) if x.op == 'fold' for n in tm.bound_names(x))
    if not any(x.op == 'in' and x.a[1].op == 'v' and x.a[1].a[0] in states for x in subterms(p)):
        return False
    hq = specs.heads(q)
    if any(h[0] in ('fold', 'while', 'uset', 'in', 'sorted', 'hash', 'dictof', 'without', 'dupd', 'dstore', 'dict', 'lam')
           or h[-1] in ('numpy.unique', 'collections.Counter', 'set', 'builtins.set') for h in hq):
        return False
    return not any(not known(h) and h not in specs.heads(p) for h in hq)


DEDUP = {(x,) for x in ('uset', 'dictof', 'upd', 'dict', 'dupd', 'dstore', 'in')} | {('f', 'collections.Counter')}


def merges(t):
    return any(x.op == 'm' and x.a[0] == 'items' and x.a[1].op == 'dictof'
               or x.op == 'len' and x.a[0].op == 'uset' and not tm.distinct_members(x.a[0].a[0]) for x in subterms(t))


def selects(t):
    """a list of some of the members of another one"""
    if t.op == 'comp':
        return t.a[2 + t.a[1]].op == 'ite' and any(x is EMPTY for x in tm.leaves(t.a[2 + t.a[1]]))
    return t.op in ('nz', 'uset')


def source(t):
    """a part of the input: attributes and items of a parameter, of the object itself or of a loop variable"""
    n = 0
    while t.op in ('attr', 'at', 'item') and n < 20:
        if t.op != 'attr' and not source(t.a[1]) and not (tm.is_c(t.a[1]) or t.a[1].op == 'v'):
            return False
        t = t.a[0]
        n += 1
    return t.op in ('arg', 'carg', 'self', 'v')


def significant(h):
    """a computation that changes values, so that its presence or absence is no matter of style"""
    if h[0] == 'f':
        return h[1] in VALUE_F or h[1] in ('builtins.int', 'numpy.linalg.norm', 'numpy.linalg.det') or h[1].startswith(('spglib.', 'random.'))
    return h[0] in ('round', 'mod', 'fdiv', 'maxof', 'minof', 'inv', 'api', 'rand', 'hash')


UPDATES = {'dstore', 'without', 'scatter', 'dupd', 'upd', 'delitem', 'inserted', 'popped', 'scatterv'}


def ops(t):
    return [(x.op, head(x)) for x in subterms(t)]


def figure(t, env):
    """value of an arithmetic term for given values of the quantities it is made of"""
    if tm.num(t):
        return t.a[0]
    if t.op == 'poly':
        r = 0
        for m, c in tm._topoly(t).items():
            x = c
            for b, k in m:
                x *= figure(b, env) ** k
            r += x
        return r
    if t.op in ('fdiv', 'mod'):
        a, b = figure(t.a[0], env), figure(t.a[1], env)
        return a // b if t.op == 'fdiv' else a % b
    if t.op in ('minof', 'maxof') and len(t.a) == 1 and listed(t.a[0]):
        return (min if t.op == 'minof' else max)(figure(i.a[0], env) for i in t.a[0].a)
    if t.op == 'f' and t.a[0] == 'builtins.abs' and len(t.a) == 2:
        return abs(figure(t.a[1], env))
    if t.op in ('lt', 'le', 'eq', 'ne'):
        a, b = figure(t.a[0], env), figure(t.a[1], env)
        return a < b if t.op == 'lt' else a <= b if t.op == 'le' else a == b if t.op == 'eq' else a != b
    return env.setdefault(t, None)


def listed(S):
    return S.op == 'seq' and bool(S.a) and all(i.op == 'e' for i in S.a)


def quantities(t, top=True):
    """what an arithmetic term is made of"""
    if tm.num(t):
        return set()
    if t.op == 'poly':
        return set().union(*[quantities(b, False) for m in tm._topoly(t) for b, k in m])
    if t.op in ('fdiv', 'mod') or t.op in ('lt', 'le', 'eq', 'ne') and top:
        return quantities(t.a[0], False) | quantities(t.a[1], False)
    if t.op in ('minof', 'maxof') and len(t.a) == 1 and listed(t.a[0]):
        return set().union(*[quantities(i.a[0], False) for i in t.a[0].a])
    if t.op == 'f' and t.a[0] == 'builtins.abs' and len(t.a) == 2:
        return quantities(t.a[1], False)
    return {t}


def computed(t):
    return t.op in ('poly', 'fdiv', 'mod') or t.op in ('minof', 'maxof') and len(t.a) == 1 and listed(t.a[0]) or \
        t.op == 'f' and t.a[0] == 'builtins.abs'


def counts(x):
    """certainly a natural number, or taken for one"""
    return x.op in ('len', 'size', 'v') or x.op == 'attr' and x.a[1] in ('num_count', '_num_count')


def unequal(p, q):
    """two arithmetic expressions of the same counts which differ for many of them"""
    if not computed(p) and not computed(q) or not (computed(p) or counts(p)) or not (computed(q) or counts(q)):
        return False
    xs = quantities(p)
    if xs != quantities(q) or not xs or len(xs) > 3 or not all(counts(x) for x in xs):
        return False
    xs = sorted(xs, key=tm._akey)
    n = k = 0
    for vals in itertools.product(*[range(2, 9) if x.op == 'v' else range(9, 32) for x in xs]):
        env = dict(zip(xs, vals))
        try:
            a, b = figure(p, env), figure(q, env)
        except (ZeroDivisionError, OverflowError, TypeError):
            return False
        n += 1
        k += a != b
    return k * 4 > n


def other_test(p, q):
    """two comparisons of the same counts, one of them of a computed value, which agree
    neither with each other nor with each other's opposite"""
    ops = ('lt', 'le', 'eq', 'ne')
    if p.op not in ops or q.op not in ops:
        return False
    if not any(x.op in ('fdiv', 'mod') or x.op == 'f' or x.op in ('minof', 'maxof') for t in (p, q) for x in t.a):
        return False
    xs = quantities(p)
    if xs != quantities(q) or not xs or len(xs) > 3 or not all(counts(x) and x.op != 'v' for x in xs):
        return False
    xs = sorted(xs, key=tm._akey)
    same = opposite = True
    for vals in itertools.product(range(2, 13), repeat=len(xs)):
        env = dict(zip(xs, vals))
        try:
            a, b = figure(p, env), figure(q, env)
        except (ZeroDivisionError, OverflowError, TypeError):
            return False
        same = same and a == b
        opposite = opposite and a != b
    return not same and not opposite


def last_only(p, q):
    """p asks whether something holds for any member, q whether it holds for the last one"""
    if p.op == 'ite' and p.a[1] is TRUE and p.a[2] is FALSE:
        p = p.a[0]
    if p.op != 'f' or p.a[0] != 'builtins.any':
        if p.op != 'any':
            return False
    C_ = p.a[-1]
    if C_.op != 'comp' or C_.a[1] != 1:
        return False
    if any(x.op == 'any' or x.op == 'f' and x.a[0] in ('builtins.any', 'numpy.any') or x.op in ('fold', 'while') for x in subterms(q)):
        return False
    return any(x.op == 'at' and x.a[1] is tm.C(-1) and x.a[0].op == 'comp' and x.a[0].a[1] == 1 and x.a[0].a[2] is C_.a[2]
               for x in subterms(q))


def natural(t):
    """(X, truth of t for X = 0, 1, ..): comparison with a constant"""
    if t.op == 'truthy':
        return t.a[0], [bool(n) for n in range(12)]
    if t.op not in ('lt', 'le', 'eq', 'ne'):
        return None
    f = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}[t.op]
    a, b = t.a
    if tm.num(a):
        return b, [f(a.a[0], n) for n in range(12)]
    if tm.num(b):
        return a, [f(n, b.a[0]) for n in range(12)]
    return None


def path(t):
    """root object of an attribute path"""
    n = 0
    while t.op == 'attr' or t.op == 'at' and tm.is_c(t.a[1]) and not isinstance(t.a[1].a[0], bool):
        n += t.op == 'attr'
        t = t.a[0]
    if n and t.op in ('self', 'arg', 'carg', 'v'):
        return t
    return None


def as_fold(t):
    if t.op == 'fold':
        return t
    base, S = t.a[0], t.a[1]
    if S.op != 'comp' or S.a[1] != 1:
        return None
    cl, tr = tm.open_comp(S)
    le = tm.leaf_emit(tr) if tr.op != 'ite' else ('x',)
    if le[0] != 'one' or le[1].op != 'tup':
        return None
    v = tm.fresh()
    k, x = le[1].a
    return tm.mk_fold(cl, [(v, base, tm.mk_scatter(v, raw('seq', raw('e', k)), x))], FALSE, 0)


def trunc(p, q):
    """q lists the members of p up to another length"""
    if q.op != 'comp' or q.a[1] != 1:
        return False
    cl, tr = tm.open_comp(q)
    (v, L), = cl
    le = tm.leaf_emit(tr) if tr.op != 'ite' else ('x',)
    return le[0] == 'one' and le[1].op == 'at' and le[1].a[0] is p and le[1].a[1] is v and L is not tm.mk_len(p)


def renumbered(p, q):
    """p gives the places of items of X, q counts the places in a choice F from X"""
    if p.a[1] != 1 or q.a[1] != 1 or q.a[2].op != 'len':
        return False
    X = p.a[2].a[0] if p.a[2].op == 'len' else None
    F = q.a[2].a[0]
    if F.op != 'comp' or F.a[1] != 1 or F.a[3].op != 'ite' or F.a[2] is not p.a[2] or X is None:
        return False
    v = tm.fresh()
    tr = tm.subst(F.a[3], {tm.bound_names(F)[0]: v})
    if any(le != ('none',) and le != ('one', tm.mk_at(X, v)) for le in map(tm.leaf_emit, tm.leaves(tr))):
        return False

    def bare(t, S):
        v = tm.fresh()
        tr = tm.subst(t.a[3], {tm.bound_names(t)[0]: v})
        out = []
        for x in tm.leaves(tr):
            le = tm.leaf_emit(x)
            if le[0] == 'one':
                out.append(le[1] is v or le[1].op == 'tup' and any(y is v for y in le[1].a))
        return bool(out) and all(out)
    return bare(p, X) and bare(q, F)


def deletes_shifting(p, q):
    if q.a[1] != 1 or q.a[2] != 1:
        return False
    init, upd = q.a[4], q.a[5]
    if upd.op not in ('without', 'delitem') or upd.a[0].op != 'v':
        return False
    i = upd.a[1]
    if i.op == 'poly':
        ats = [m[0][0] for m, c in tm._topoly(i).items() if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'at']
        rest = [m for m in tm._topoly(i) if not (len(m) == 1 and m[0][0] in ats) and not (len(m) == 1 and m[0][0].op == 'v') and m]
        if len(ats) != 1 or rest:
            return False
        i = ats[0]
    return i.op == 'at' and not (i.a[0].op == 'sorted' and i.a[0].a[0].op == 'uset') and contains(p, init)


def plain_wrap(p, q):
    return q.op in ('slice', 'sorted') and q.a[0] is p


def contains(big, small):
    if big.size <= small.size:
        return False
    return any(x is small for x in subterms(big))


def conds(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        out.add(x.a[0])
        st += [x.a[1], x.a[2]]
    return out


def pair_up(A, B):
    A = sorted(A, key=lambda x: x.dig)
    B = list(B)
    out = []
    for x in A:
        y = max(B, key=lambda z: (similarity(x, z), z.dig))
        B.remove(y)
        out.append((x, y))
    return out


def similarity(x, y):
    a, b = set(subterms(x)), set(subterms(y))
    return (head(x) == head(y)) + 2.0 * len(a & b) / (len(a) + len(b))


def map_conds(t, m):
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x)
        if r is None:
            c = m.get(x.a[0], x.a[0])
            r = tm.mk_ite(c if c.op == 'ite' else raw('ite', c, TRUE, FALSE), go(x.a[1]), go(x.a[2]))
            memo[x] = r
        return r
    try:
        return go(t)
    except tm.TooBig:
        return None


def harmless(p, q, x):
    """q is p with a case x split off whose result p gives anyway"""
    for val in (True, False):
        if q.op != 'ite':
            return False
        r, rest = cofactor(q, x, val), cofactor(q, x, not val)
        if rest is not cofactor(p, x, not val):
            continue
        if x.op == 'in' and not val:
            a, b = tm.absent(p, x), tm.absent(r, x)
            if a is b and a is not None:
                return True
        sub = equation(x, val)
        if sub is None:
            continue
        try:
            a = tm.replace(p, sub[0], sub[1])
            b = tm.replace(r, sub[0], sub[1])
        except tm.TooBig:
            continue
        if a is b:
            return True
    return False


def cofactor(t, x, val):
    def go(y):
        if y.op != 'ite':
            return y
        if y.a[0] is x:
            return y.a[1] if val else y.a[2]
        return tm.mk_ite(raw('ite', y.a[0], TRUE, FALSE), go(y.a[1]), go(y.a[2]))
    return go(t)


def equation(x, val):
    """x == val as a substitution"""
    if x.op == 'truthy' and not val:
        y = x.a[0]
        return y, EMPTY
    if x.op == 'eq' and val:
        a, b = x.a
        if tm.is_c(a):
            return b, a
        if tm.is_c(b):
            return a, b
        return (a, b) if a.size >= b.size else (b, a)
    if x.op == 'lt':
        a, b = x.a
        if b.op == 'c' and b.a[0] == 1 and val:
            return a, tm.C(0)
        if a.op == 'c' and a.a[0] == 0 and not val:
            return b, tm.C(0)
    return None


def draws(t):
    return sorted((x for x in subterms(t) if x.op == 'rand'), key=lambda x: unscoped(x).dig) or [t]


def unscoped(t):
    """t without the marks that tell apart one draw shared by all rounds of a loop and a draw in each round"""
    try:
        return tm.rewrite(t, lambda x: raw('scope') if x.op == 'scope' and x.a else None)
    except tm.TooBig:
        return None


def odd_ranges(p, q):
    """p all tuples of numbers below L, q those of numbers below a bound of their own for each place: (L, the bound)"""
    if p.op != 'comp' or q.op != 'f' or q.a[0] != 'itertools.product' or len(q.a) != 2 or q.a[1].op != 'star' or len(set(p.a[2:2 + p.a[1]])) != 1:
        return None
    cl, tr = tm.open_comp(p)
    le = tm.leaf_emit(tr) if tr.op != 'ite' else ('x',)
    if le[0] != 'one' or le[1].op != 'tup' or set(le[1].a) != {v for v, _ in cl}:
        return None
    S = tm.unwrap_seq(q.a[1].a[0])
    if S.op != 'comp' or S.a[1] != 1:
        return None
    cs, ts = tm.open_comp(S)
    le = tm.leaf_emit(ts) if ts.op != 'ite' else ('x',)
    if le[0] != 'one':
        return None
    R = tm.unwrap_seq(le[1])
    if R.op != 'comp' or R.a[1] != 1:
        return None
    cr, tt = tm.open_comp(R)
    le = tm.leaf_emit(tt) if tt.op != 'ite' else ('x',)
    if le != ('one', cr[0][0]):
        return None
    a, b = cl[0][1], cr[0][1]
    return (a, b) if a is not b else None


def few_keys(p, q):
    """p walks X, q the entries of a table of X kept under keys that several items of X share"""
    import specs
    for t in subterms(q):
        if t.op != 'm' or t.a[0] not in ('items', 'values') or not isinstance(t.a[1], T) or t.a[1].op != 'dictof' or contains(p, t.a[1]):
            continue
        S = t.a[1].a[0]
        if S.op != 'comp' or S.a[1] != 1 or S.a[2].op != 'len':
            continue
        X = S.a[2].a[0]
        v = tm.fresh()
        le = tm.leaf_emit(tm.subst(S.a[3], {tm.bound_names(S)[0]: v}))
        if le[0] != 'one' or le[1].op != 'tup' or len(le[1].a) != 2 or X.op == 'comp' or not contains(p, tm.mk_len(X)):
            continue
        key, val = le[1].a
        x = tm.mk_at(X, v)
        if val is x and loses(key, x) and not bare(key, v) and any(y is x for y in subterms(key)) and specs.heads(key) - specs.heads(p):
            return X, t
    return None


def compare(p, q):
    """edits that explain the difference; an edit found once is made everywhere"""
    total = []
    d = None
    ref = p
    a, b = unscoped(p), unscoped(q)
    if a is b and a is not None:
        # the same draws, made another number of times
        d = Delta()
        d.edit('drawn once for all or anew each time', *next((x, y) for x, y in zip(draws(p), draws(q)) if x is not y))
        return d
    y = few_keys(p, q)
    if y is not None:
        d = Delta()
        d.edit('entries with equal keys are merged', y[0], y[1])
        return d
    for _ in range(6):
        d = Delta(ref)
        d.walk(p, q)
        if not d.edits or not d.rewritings:
            break
        nxt = None
        for why, x, y in d.edits:
            if any(n.startswith('o') for n in x.fv | y.fv) or x.size < 2 and not y.size > 1:
                continue
            try:
                r = tm.replace(p, x, y)
            except tm.TooBig:
                continue
            if r is not p:
                nxt = (why, x, y, r)
                break
        if nxt is None:
            break
        total.append(nxt[:3])
        p = nxt[3]
    d.edits = total + d.edits
    if d.rewritings and not d.edits:
        y = put_in_order(ref, q)
        if y is not None:
            d = Delta()
            d.edit('put in order', y.a[0], y)
    if d.rewritings:
        y = shifting(ref, q)
        if y is not None:
            d = Delta()
            d.edit('positions deleted one by one, the later ones have moved', ref, y)
    if d.rewritings:
        y = cases(ref, q)
        if y is not None:
            d = Delta()
            d.edit('another outcome for %s' % y[0], y[1], y[2])
    return d


def all_alike(p, q):
    """the numbers of a cell, against as many equal ones"""
    if p.op != 'attr' or p.a[1] not in ('numbers', '_numbers', 'unumbers') or q.op != 'comp' or q.a[1] != 1 or q.a[2] is not tm.mk_len(p):
        return False
    le = tm.leaf_emit(q.a[3])
    return le[0] == 'one' and tm.is_c(le[1])


def rounded_items(p, q):
    if q.op in ('astuple', 'arr'):
        q = q.a[0]
    if p.op != 'attr' or q.op != 'comp' or q.a[1] != 1 or q.a[2] is not tm.mk_len(p):
        return False
    v = tm.fresh()
    le = tm.leaf_emit(tm.subst(q.a[3], {tm.bound_names(q)[0]: v}))
    return le[0] == 'one' and le[1].op == 'round' and le[1].a[0] is tm.mk_at(p, v)


def unwrapped(p, q):
    """the rest modulo one, against what is left after cutting off towards zero"""
    while p.op == 'round':
        p = p.a[0]
    while q.op == 'round':
        q = q.a[0]
    if p.op != 'mod' or p.a[1] is not tm.C(1) or q.op != 'poly':
        return False
    ms = list(tm._topoly(q).items())
    if len(ms) != 2 or any(len(m) != 1 or m[0][1] != 1 for m, c in ms) or sorted(c for m, c in ms) != [-1, 1]:
        return False
    cut = next(m[0][0] for m, c in ms if c == -1)
    one = next(m[0][0] for m, c in ms if c == 1)
    if cut.op != 'f':
        return False
    if cut.a[0] == 'astype':
        return cut.a[1] is one and len(cut.a) == 3 and 'int' in show(cut.a[2])
    return cut.a[0] in ('numpy.trunc', 'numpy.fix', 'builtins.int', 'math.trunc') and len(cut.a) == 2 and cut.a[1] is one


def other_power(p, q):
    """two products of the same quantities, to other powers"""
    def powers(t, w, out):
        if t.op == 'f' and t.a[0] in ('math.sqrt', 'numpy.sqrt') and len(t.a) == 2:
            return powers(t.a[1], w / 2, out)
        ms = tm._topoly(t) if t.op == 'poly' else None
        if ms is not None and len(ms) == 1:
            (m, c), = ms.items()
            return c == 1 and all(powers(b, w * k, out) for b, k in m)
        out[t] = out.get(t, 0) + w
        return not tm.num(t)
    if p.op != 'poly' and q.op != 'poly' or not any(x.op == 'f' and x.a[0] in ('math.sqrt', 'numpy.sqrt') for t in (p, q) for x in subterms(t)):
        return False
    a, b = {}, {}
    return powers(p, 1.0, a) and powers(q, 1.0, b) and set(a) == set(b) and a != b


def shortened(p, q):
    """some of the bits of an identifier"""
    if p.op != 'hash':
        return False
    if q.op == 'ewand' and len(q.a) == 2:
        h, k = (q.a[0], q.a[1]) if tm.num(q.a[1]) else (q.a[1], q.a[0])
    elif q.op == 'mod':
        h, k = q.a
    else:
        return False
    return h.op == 'hash' and tm.num(k) and 0 < k.a[0] < 2 ** 48 and h.a[-1] is p.a[-1]


def between(p, q):
    """one of the listed values, against any value in their range"""
    p = p.a[0] if p.op == 'ite' and p.a[1] is TRUE and p.a[2] is FALSE else p
    if p.op != 'in' or q.op != 'ite' or not tm.leaves(q) or not all(x in (TRUE, FALSE) for x in tm.leaves(q)):
        return False
    x, S = p.a
    cs = conds(q)
    return len(cs) == 2 and all(c.op in ('lt', 'le') for c in cs) and \
        any(c.a[0] is x and c.a[1].op == 'minof' and c.a[1].a == (S,) for c in cs) and \
        any(c.a[1] is x and c.a[0].op == 'maxof' and c.a[0].a == (S,) for c in cs)


def accumulates(p, q):
    """p changes one item of X in every round, q goes on changing what the rounds before left"""
    g = parts_of_fold(q)
    if g is None:
        return False
    for v, i, u in zip(g[1], g[3], g[4]):
        if i.op not in ('attr', 'at', 'm', 'arg', 'copy', 'arr'):
            continue
        ls = [x for x in tm.leaves(u) if x is not v]
        if not ls or not (all(x.op == 'scatter' and x.a[0] is v for x in ls) or all(x.op == 'at' and x.a[0] is v for x in ls)):
            continue
        if not all(n in x.a[1].fv for x in ls for n in [w.a[0] for w in g[0]]):
            continue
        kind = ls[0].op
        mine = [x for x in subterms(p) if x.op == kind and x.a[0] is i]
        if mine and not any(x.op == kind and x.a[0].op == 'v' for x in subterms(p)) and \
                any(y.op in ('hash', 'new') and any(z in ls for z in subterms(y)) for w in g[4] for y in subterms(w)):
            return True
    return False


def shifting(p, q):
    """q deletes positions found beforehand, in the order found"""
    if any(x.op == 'delitem' or x.op == 'after' and x.a[1] == 'remove_site' for x in subterms(p)):
        return None
    for x in subterms(q):
        if x.op != 'fold' or len(x.a) < 6 or not isinstance(x.a[5], tm.T):
            continue
        u = x.a[5]
        if u.op == 'delitem' and u.a[0].op == 'v':
            i = u.a[1]
        elif u.op == 'after' and u.a[0].op == 'v' and len(u.a) == 3 and u.a[1] in ('remove_site', 'pop', '__delitem__') and isinstance(u.a[2], tm.T):
            i = u.a[2]
        else:
            continue
        if i.op != 'at':
            continue
        S = i.a[0].a[0] if i.a[0].op == 'uset' else i.a[0]
        if S.op == 'comp' and not any(y.op in ('sorted', 'slice') or head(y) in ('builtins.reversed', 'builtins.sorted') for y in subterms(S)) and \
                rising(S.a[3]) and i.a[1].op == 'v':
            return x
    return None


def rising(t):
    """the items of a list of lists, none of them counted downwards"""
    return not any(y.op == 'poly' and any(c < 0 for m, c in tm._topoly(y).items() if any(b.op in ('v', 'len') for b, k in m)) for y in subterms(t))


def boxed(p, q):
    """a length compared with a bound, against every coordinate compared with it"""
    if p.op not in ('lt', 'le') or p.a[0].op != 'norm' or q.op != 'f' or q.a[0] != 'numpy.all' or len(q.a) != 2:
        return False
    y = q.a[1]
    return y.op in ('lt', 'le') and y.a[1] is p.a[1] and y.a[0].op == 'f' and y.a[0].a[0] in ('builtins.abs', 'numpy.abs', 'numpy.absolute') \
        and y.a[0].a[1] is p.a[0].a[0]


NAMES = ('a.yaml', 'a.YAML', 'a.yaml.bak', 'a.vasp', 'a.VASP', 'a.vasp.bak', 'POSCAR', 'poscar', 'POSCAR_1', 'a.txt', 'vasp', 'yaml',
         'd.yaml/POSCAR', 'd.vasp/a.yaml', 'POSCARs/a.txt', 'x/a.yaml', 'x/a.vasp', '')
FORMATS = (None, '', 'yaml', 'vasp', 'YAML', 'VASP', 'Vasp', 'xyz')


class Unclear(Exception):
    pass


def cases(p, q):
    """two decision tables over a file name and a format word: a row in which they differ"""
    if not all(any(head(x) == 'fnmatch.fnmatch' for x in subterms(t)) for t in (p, q)):
        return None
    for fmt in FORMATS:
        for name in NAMES:
            env = {'arg0': name, 'arg1': fmt}
            try:
                a, b = outcome(p, env), outcome(q, env)
            except Unclear:
                continue
            if a is not b and (a.op in ('c', 'exc') or a.op == 'f' and a.a[0] == 'exc') and (b.op in ('c', 'exc') or b.op == 'f' and b.a[0] == 'exc'):
                return 'name %r, format %r' % (name, fmt), a, b
    return None


def outcome(t, env):
    while t.op == 'ite':
        t = t.a[1] if case(t.a[0], env) else t.a[2]
    return t


def case(t, env):
    import fnmatch
    import os.path
    if tm.is_c(t):
        return t.a[0]
    if t.op == 'arg' and 'arg%s' % t.a[0] in env:
        return env['arg%s' % t.a[0]]
    if t.op == 'ite':
        return case(outcome(t, env), env)
    xs = [x for x in t.a if isinstance(x, tm.T)]
    if any(x.op == 'kw' for x in xs):
        raise Unclear
    h = head(t)
    if t.op == 'truthy':
        return bool(case(xs[0], env))
    if t.op == 'not':
        return not case(xs[0], env)
    if t.op in ('and', 'or'):
        return (all if t.op == 'and' else any)(case(x, env) for x in xs)
    if t.op in ('eq', 'ne', 'is') and len(xs) == 2:
        a, b = (case(x, env) for x in xs)
        return (a is b) if t.op == 'is' and (a is None or b is None) else (a == b) is (t.op != 'ne')
    v = [case(x, env) for x in xs]
    if h == 'fnmatch.fnmatch' and len(v) == 2 and all(isinstance(x, str) for x in v):
        return fnmatch.fnmatchcase(*v)
    if h == 'os.path.basename' and isinstance(v[0], str):
        return os.path.basename(v[0])
    if t.op == 'm' and v and isinstance(v[0], str) and t.a[0] in ('lower', 'upper', 'startswith', 'endswith', 'strip') and all(isinstance(x, str) for x in v):
        return getattr(v[0], t.a[0])(*v[1:])
    if t.op == 'in' and len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], str):
        return v[0] in v[1]
    raise Unclear


def empties(p, q):
    """a table that only grows in p is started anew in some rounds of q"""
    if p.op != 'fold' or q.op != 'fold' or p.a[1] != q.a[1]:
        return False
    f, g = parts_of_fold(p), parts_of_fold(q)
    if f is None or g is None:
        return False

    def anew(f):
        out = []
        for s, i, u in zip(f[1], f[3], f[4]):
            if empty_table(i) and any(x.op == 'in' and x.a[1] is s for t in f[4] for x in subterms(t)):
                out.append(any(s.a[0] not in x.fv for x in tm.leaves(u)))
        return out
    a, b = anew(f), anew(g)
    return bool(a) and not any(a) and any(b)


def put_in_order(p, q):
    """q is p but for a list that is sorted first"""
    def plain(t):
        return tm.strip_arr(t) if t.op == 'arr' else t
    for y in subterms(q):
        if y.op != 'sorted' or contains(p, y) or y.a[0].op in ('uset', 'dictof', 'm'):
            continue
        try:
            r = tm.rewrite(q, lambda x: y.a[0] if x is y else None)
            r = tm.rewrite(r, lambda x: x.a[0] if x.op in ('astuple', 'tolist') else None)
        except (tm.TooBig, TypeError):
            continue
        p = tm.rewrite(p, lambda x: x.a[0] if x.op in ('astuple', 'tolist') else None)
        if plain(r) is plain(p):
            return y
    return None
