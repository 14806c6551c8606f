"""Hash-consed value terms and their normal form.

Every value a function of the repository computes is described by a term.  The
constructors in this file keep terms in a normal form, so that two ways of
writing the same computation give the same (identical) term:

 * conditionals are reduced ordered decision trees, lifted out of strict
   operations (``ite`` nodes);
 * lists, generators, comprehensions and accumulation loops are comprehension
   terms over index binders (``comp``), fused and eta-reduced;
 * arithmetic is a polynomial normal form, matrix products are flattened with
   transposition and inverses pushed to the leaves;
 * strings are lists of literal and formatted parts;
 * copies are transparent (ownership is a separate analysis).

Nothing here looks at concrete data: no repository code is run.
"""
import hashlib
from fractions import Fraction
import itertools


class TooBig(Exception):
    pass


class T(object):
    __slots__ = ('op', 'a', 'dig', 'fv', 'bh', 'size', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_fresh = itertools.count(1)
LIMIT = [400000]


def reset():
    _table.clear()
    _memo_ite.clear()
    _subst_gen[0] += 1


def _prim(x):
    return repr(x) if not isinstance(x, float) else 'f' + repr(x)


_EMPTY = frozenset()


def raw(op, *a):
    key = (op,) + tuple(x if isinstance(x, T) else (type(x).__name__, x) for x in a)
    t = _table.get(key)
    if t is not None:
        return t
    if len(_table) > LIMIT[0]:
        raise TooBig()
    t = T()
    t.op = op
    t.a = a
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    bh = 0
    fv = _EMPTY
    size = 1
    for x in a:
        if isinstance(x, T):
            h.update(b'(' + x.dig)
            if x.bh > bh:
                bh = x.bh
            if x.fv:
                fv = fv | x.fv if fv else x.fv
            size += x.size
        else:
            h.update(b'[' + type(x).__name__.encode() + _prim(x).encode())
    if op == 'v':
        fv = frozenset((a[0],))
    elif op in ('comp', 'fold', 'lam', 'while'):
        names = bound_names(t)
        fv = fv - frozenset(names)
        bh = a[0] + len(names) - 1 if names else bh
    t.dig = h.digest()
    t.fv = fv
    t.bh = bh
    t.size = size
    _table[key] = t
    return t


# ---- binders -------------------------------------------------------------
# comp : (H, k, L1..Lk, tree)                       names hH+k-1 (outer) .. hH
# lam  : (H, n, body)
# fold : (H, k, s, L1..Lk, init1..s, upd1..s, stop, res)
# while: (H, s, init1..s, cond, upd1..s, res)

def bound_names(t):
    H = t.a[0]
    if t.op == 'comp':
        n = t.a[1]
    elif t.op == 'lam':
        n = t.a[1]
    elif t.op == 'fold':
        n = t.a[1] + t.a[2]
    else:
        n = t.a[1]
    return ['h%d' % (H + n - 1 - i) for i in range(n)]


def var(name):
    return raw('v', name)


def fresh():
    return var('o%d' % next(_fresh))


_subst_gen = [0]


def subst(t, m):
    """Simultaneous substitution of variables (by name) with re-normalisation."""
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(x):
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'v':
            r = m.get(x.a[0], x)
        elif x.op in ('comp', 'lam', 'fold', 'while'):
            r = _rebind(x, go)
        else:
            r = build(x.op, *[go(y) if isinstance(y, T) else y for y in x.a])
        memo[x] = r
        return r
    return go(t)


def replace(t, old, new):
    """Replace every occurrence of a sub-term."""
    memo = {}

    def go(x):
        if x is old:
            return new
        if x.size <= old.size:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('comp', 'lam', 'fold', 'while'):
            r = _rebind(x, go)
        else:
            b = [go(y) if isinstance(y, T) else y for y in x.a]
            r = x if all(p is q for p, q in zip(b, x.a) if isinstance(q, T)) else build(x.op, *b)
        memo[x] = r
        return r
    return go(t)


def rewrite(t, f):
    """Bottom-up rewriting with f(term)->term or None."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('comp', 'lam', 'fold', 'while'):
            r = _rebind(x, go)
        elif any(isinstance(y, T) for y in x.a):
            r = build(x.op, *[go(y) if isinstance(y, T) else y for y in x.a])
        else:
            r = x
        for _ in range(20):
            n = f(r)
            if n is None or n is r:
                break
            r = n
        memo[x] = r
        return r
    return go(t)


def _rebind(x, go):
    names = bound_names(x)
    fr = [fresh() for _ in names]
    ren = dict(zip(names, fr))

    def g(y):
        return go(_rename(y, ren))
    a = x.a
    if x.op == 'comp':
        k = a[1]
        Ls = [g(y) for y in a[2:2 + k]]
        return mk_comp(list(zip(fr, Ls)), g(a[2 + k]))
    if x.op == 'lam':
        return mk_lam(fr, g(a[2]))
    if x.op == 'fold':
        k, s = a[1], a[2]
        Ls = [g(y) for y in a[3:3 + k]]
        ini = [g(y) for y in a[3 + k:3 + k + s]]
        upd = [g(y) for y in a[3 + k + s:3 + k + 2 * s]]
        stop = g(a[3 + k + 2 * s])
        return mk_fold(list(zip(fr[:k], Ls)), list(zip(fr[k:], ini, upd)), stop, a[-1])
    s = a[1]
    ini = [g(y) for y in a[2:2 + s]]
    cond = g(a[2 + s])
    upd = [g(y) for y in a[3 + s:3 + 2 * s]]
    return mk_while(list(zip(fr, ini, upd)), cond, a[-1])


def _rename(t, ren):
    """pure renaming of free variables of t (used to open a binder)"""
    keys = frozenset(ren)
    memo = {}

    def go(x):
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'v':
                r = ren.get(x.a[0], x)
            else:
                # bound names of inner binders are smaller heights: no capture
                r = raw(x.op, *[go(y) if isinstance(y, T) else y for y in x.a])
            memo[x] = r
        return r
    return go(t)


def open_comp(c):
    """-> [(var, L)], tree with fresh variables"""
    names = bound_names(c)
    fr = [fresh() for _ in names]
    ren = dict(zip(names, fr))
    k = c.a[1]
    Ls = [_rename(y, ren) for y in c.a[2:2 + k]]
    return list(zip(fr, Ls)), _rename(c.a[2 + k], ren)


def open_lam(l):
    names = bound_names(l)
    fr = [fresh() for _ in names]
    return fr, _rename(l.a[2], dict(zip(names, fr)))


def app_lam(l, args):
    fr, body = open_lam(l)
    return subst(body, {v.a[0]: x for v, x in zip(fr, args)})


def _close(vars_, parts):
    H = 1 + max([p.bh for p in parts] + [0])
    n = len(vars_)
    m = {v.a[0]: var('h%d' % (H + n - 1 - i)) for i, v in enumerate(vars_)}
    return H, [subst(p, m) for p in parts]


# ---- constants -----------------------------------------------------------
def C(v):
    return raw('c', v)


TRUE = None
FALSE = None
NONE = None
EMPTY = None


def _init():
    global TRUE, FALSE, NONE, EMPTY
    TRUE, FALSE, NONE = C(True), C(False), C(None)
    EMPTY = raw('seq')


def is_c(t):
    return t.op == 'c'


def num(t):
    return t.op == 'c' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


# ---- kinds ---------------------------------------------------------------
STRM = {'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'format', 'replace', 'join', 'title',
        'capitalize', 'zfill', 'ljust', 'rjust', 'center', 'getvalue'}


VKIND = {}


def kind(t):
    o = t.op
    if o == 'v':
        return VKIND.get(t.a[0])
    if o == 'c':
        v = t.a[0]
        if isinstance(v, str):
            return 'str'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, (int, float)):
            return 'num'
        return None
    if o in ('str', 'join'):
        return 'str'
    if o in ('seq', 'comp', 'rep', 'sorted', 'sflat'):
        return 'seq'
    if o in ('tup', 'astuple'):
        return 'tuple'
    if o in ('poly', 'mono', 'pow', 'fdiv', 'mod', 'len', 'sum', 'size', 'round'):
        return 'num'
    if o in BOOLOPS:
        return 'bool'
    if o == 'm' and t.a[0] in STRM:
        return 'str'
    if o == 'ite':
        k1, k2 = kind(t.a[1]), kind(t.a[2])
        return k1 if k1 == k2 else None
    if o in ('dict', 'dictof', 'uset', 'without', 'dstore', 'dupd', 'upd'):
        return 'dict'
    if o == 'f' and t.a[0] in ('builtins.int', 'builtins.float', 'builtins.abs', 'math.sqrt'):
        return 'num'
    if o == 'f' and t.a[0] in ('os.path.join', 'os.path.basename', 'os.path.dirname', 'os.getcwd'):
        return 'str'
    return None


BOOLOPS = {'lt', 'le', 'eq', 'ne', 'in', 'is', 'truthy', 'any', 'isinst', 'hasattr', 'ewand', 'ewor', 'ewnot'}
# elementwise comparisons may be used on arrays: they are atoms of decision
# trees only where Python itself asks for a truth value.


# ---- decision trees ------------------------------------------------------
_memo_ite = {}


def atom_of(t):
    return t.a[0] if t.op == 'ite' else None


def cof(t, atom, val):
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return t


def cond(t):
    """truth value of a term as a decision tree with TRUE/FALSE leaves"""
    o = t.op
    if o == 'c':
        return TRUE if t.a[0] else FALSE
    if o == 'ite':
        return mk_ite(t.a[0], cond(t.a[1]), cond(t.a[2]))
    if o == 'le':      # a<=b  ==  not b<a
        x = mk_lt(t.a[1], t.a[0])
        return mk_ite(x, FALSE, TRUE)
    if o == 'ne':
        return mk_ite(mk_eq(t.a[0], t.a[1]), FALSE, TRUE)
    if o == 'ewand':
        r = TRUE
        for x in t.a:
            r = mk_ite(cond(x), r, FALSE)
        return t if False else raw('ite', raw('truthy', t), TRUE, FALSE)
    if o == 'seq':
        if not t.a:
            return FALSE
        if any(x.op == 'e' for x in t.a):
            return TRUE
    if o == 'comp':
        # a list is not empty when something was put into it
        cl, tr = open_comp(t)
        if all(leaf_emit(x)[0] in ('one', 'none') for x in leaves(tr)):
            return cond(mk_any_g(cl, map_tree(tr, lambda x: FALSE if leaf_emit(x)[0] == 'none' else TRUE)))
    if o == 'tup':
        return TRUE if t.a else FALSE
    if o in ('dict',) and not t.a:
        return FALSE
    if o in ('dict',):
        return TRUE
    if o == 'uset':
        return cond(t.a[0])
    if o == 'str':
        if any(x.op == 'c' and x.a[0] for x in t.a):
            return TRUE
    if o in ('fn', 'bm', 'class', 'new', 'lam', 'g'):
        return TRUE
    if o == 'len':
        return cond(t.a[0])
    if o in ('lt', 'eq', 'in', 'is', 'any', 'isinst', 'hasattr', 'truthy'):
        return raw('ite', t, TRUE, FALSE)
    if o == 'f' and t.a[0] == 'builtins.bool':
        return cond(t.a[1])
    if o == 'f' and t.a[0] in BOOL_FUNCS:
        return raw('ite', t, TRUE, FALSE)
    if o == 'm' and t.a[0] in BOOL_METHODS:
        return raw('ite', t, TRUE, FALSE)
    if o in ('arr', 'astuple', 'sorted'):
        return cond(t.a[0])
    if o == 'at' and t.a[0].op == 'attr' and t.a[0].a[1] in OBJECT_MAPS:
        return TRUE
    if o == 'm' and len(t.a) == 2 and t.a[0] in ('rstrip', 'lstrip'):
        t = raw('m', 'strip', t.a[1])
    return raw('ite', raw('truthy', t), TRUE, FALSE)


OBJECT_MAPS = ('_children',)         # their values are objects without a length
BOOL_FUNCS = {'numpy.all', 'numpy.any', 'numpy.array_equal', 'numpy.allclose', 'os.path.exists',
              'builtins.isinstance', 'fnmatch.fnmatch', 'numpy.isclose', 'builtins.callable', 'os.path.isdir',
              'os.path.isfile', 'math.isclose', 'builtins.issubclass'}
BOOL_METHODS = {'startswith', 'endswith', 'isdigit', 'is_primitive', 'is_satisfied', 'is_goal', 'is_leaf',
                'is_root', 'is_equivalent', '__eq__', '__contains__', 'isalpha', 'in_euclidean_discance'}


def is_bool(t):
    if t.op == 'ite':
        return is_bool(t.a[1]) and is_bool(t.a[2])
    if t.op == 'c':
        return isinstance(t.a[0], bool)
    if t.op in ('lt', 'le', 'eq', 'ne', 'in', 'is', 'truthy', 'any', 'isinst', 'hasattr'):
        return True
    if t.op == 'f':
        return t.a[0] in BOOL_FUNCS
    if t.op == 'm':
        return t.a[0] in BOOL_METHODS
    return False


def mk_not(t):
    return mk_ite(cond(t), FALSE, TRUE)


def mk_and(*ts):
    r = TRUE
    for t in reversed(ts):
        r = mk_ite(cond(t), r, FALSE)
    return r


def mk_or(*ts):
    r = FALSE
    for t in reversed(ts):
        r = mk_ite(cond(t), TRUE, r)
    return r


_depth = [0]


def mk_ite(c, a, b):
    """c: decision tree / atom with boolean meaning"""
    if a is b:
        return a
    if c.op == 'c':
        return a if c.a[0] else b
    if c.op != 'ite':
        c = cond(c)
        if c.op == 'c':
            return a if c.a[0] else b
    key = (c, a, b)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    if b.op == 'comp' and c.op == 'ite' and c.a[0].op == 'in' and c.a[1] is TRUE and c.a[2] is FALSE or \
            b.op == 'comp' and c.op == 'in':
        # what the treatment of a member does when there is none may be what happens otherwise
        if absent(a, c if c.op == 'in' else c.a[0]) is b:
            _memo_ite[key] = a
            return a
    r = _ite(_untree(c), _untree(a), _untree(b))
    _memo_ite[key] = r
    return r


def absent(t, x):
    """t given that the value x.a[0] is not among x.a[1]"""
    k, S = x.a
    if S.op != 'comp' or S.a[1] != 1:
        return None
    cl, tr = open_comp(S)
    le = leaf_emit(tr) if tr.op != 'ite' else ('x',)
    if le[0] != 'one':
        return None
    v, el = cl[0][0], le[1]

    def f(y):
        if y.op == 'eq' and k in y.a:
            z = y.a[0] if y.a[1] is k else y.a[1]
            for n in z.fv:
                if subst(el, {v.a[0]: var(n)}) is z:
                    return FALSE
        return None
    try:
        return rewrite(t, f)
    except TooBig:
        return None


def _untree(t):
    """a boolean atom used as a value becomes an explicit tree while combining"""
    if t.op == 'le':
        return raw('ite', mk_lt(t.a[1], t.a[0]), FALSE, TRUE) if not _arrayish(t) else t
    if t.op == 'ne':
        return raw('ite', mk_eq(t.a[0], t.a[1]), FALSE, TRUE) if not _arrayish(t) else t
    if t.op == 'ite':
        return t
    if is_bool(t) and t.op != 'c' and not _arrayish(t):
        return raw('ite', t, TRUE, FALSE)
    return t


def _arrayish(t):
    return False


def _fin(t):
    """leaf boolean trees back to atoms"""
    if t.op == 'ite':
        x, hi, lo = t.a
        if hi is TRUE and lo is FALSE and is_bool(x):
            return x
        if hi is FALSE and lo is TRUE:
            if x.op == 'lt':
                return raw('le', x.a[1], x.a[0])
            if x.op == 'eq':
                return raw('ne', x.a[0], x.a[1])
    return t


def _ite(c, a, b):
    if c is TRUE:
        return _fin(a)
    if c is FALSE:
        return _fin(b)
    if a is b:
        return _fin(a)
    c, a, b = _untree(c), _untree(a), _untree(b)
    key = ('i', c, a, b)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    tops = [t.a[0] for t in (c, a, b) if t.op == 'ite']
    x = min(tops, key=_akey)
    hi = _ite(_restrict1(c, x, True), _restrict1(a, x, True), _restrict1(b, x, True))
    lo = _ite(_restrict1(c, x, False), _restrict1(a, x, False), _restrict1(b, x, False))
    if hi is lo:
        r = hi
    elif x.op == 'in' and _already(x, hi, lo):
        r = lo
    else:
        r = None
        if BOX[0]:
            hi, lo = deep_restrict(hi, x, True), deep_restrict(lo, x, False)
            r = hi if hi is lo else _sink(x, hi, lo)
        if r is None:
            r = _fin(raw('ite', x, _untree(hi), _untree(lo)))
    _memo_ite[key] = r
    return r


# Box mode (command summaries only): alternatives stay inside the arguments of
# uninterpreted calls, as box(tree), instead of being lifted out.
BOX = [False]
SINK = ('m', 'new', 'api', 'f', 'fresh', 'kw', 'io')


def set_box(on):
    BOX[0] = on
    _memo_ite.clear()


def unbox(t):
    return t.a[0] if t.op == 'box' else t


def mk_box(t):
    return raw('box', t) if t.op == 'ite' else t


def deep_restrict(t, x, val):
    """decide nested occurrences of the condition x"""
    if not any(y.op == 'ite' and y.a[0] is x for y in subterms(t)):
        return t

    def f(y):
        if y.op == 'ite' and y.a[0] is x:
            return y.a[1] if val else y.a[2]
        return None
    for _ in range(4):
        t = rewrite(t, f)
        if not any(y.op == 'ite' and y.a[0] is x for y in subterms(t)):
            break
    return t


def _sink(x, hi, lo):
    if hi.op != lo.op or len(hi.a) != len(lo.a):
        return None
    if hi.op in SINK:
        out = []
        for p, q in zip(hi.a, lo.a):
            if p is q:
                out.append(p)
            elif isinstance(p, T) and isinstance(q, T):
                if p.op == 'scope' or q.op == 'scope':
                    return None
                out.append(mk_box(_ite(raw('ite', x, TRUE, FALSE), unbox(p), unbox(q))))
            elif p == q:
                out.append(p)
            else:
                return None
        if hi.op == 'io' and any(isinstance(y, T) and y.op == 'box' for y in out):
            return None
        return raw(hi.op, *out)
    if hi.op == 'seq':
        out = []
        for p, q in zip(hi.a, lo.a):
            if p is q:
                out.append(p)
            elif p.op == 'e' and q.op == 'e':
                r = _ite(raw('ite', x, TRUE, FALSE), p.a[0], q.a[0])
                if r.op == 'ite':
                    return None
                out.append(raw('e', r))
            else:
                return None
        return raw('seq', *out)
    return None


def _already(x, hi, lo):
    """k in S ? .. S .. : .. S+{k} ..  -- adding a present member changes nothing"""
    k, S = x.a
    ek = e(k)
    hit = [False]

    def drop(y):
        if y.op == 'upd' and y.a[0] is S and y.a[1].op == 'seq' and ek in y.a[1].a:
            hit[0] = True
            return mk_upd(S, raw('seq', *[i for i in y.a[1].a if i is not ek]))
        return y
    t = map_tree(lo, drop)
    return hit[0] and t is hi


def _akey(t):
    return (t.size > 40, t.dig)


def implied(x, val, y):
    """value of atom y given atom x==val, or None"""
    if x.op == 'is' and y.op == 'is' and x.a[0] is y.a[0] and val and x.a[1] is not y.a[1]:
        return False
    if x.op == 'eq' and y.op == 'eq' and val:
        if x.a[0] is y.a[0] and is_c(x.a[1]) and is_c(y.a[1]) and x.a[1] is not y.a[1]:
            return False
        if x.a[1] is y.a[1] and is_c(x.a[0]) and is_c(y.a[0]) and x.a[0] is not y.a[0]:
            return False
    if x.op == 'is' and x.a[1] is NONE:
        if y.op == 'truthy' and y.a[0] is x.a[0] and val:
            return False
    if x.op == 'truthy' and y.op == 'is' and y.a[1] is NONE and x.a[0] is y.a[0] and val:
        return False
    if x.op == 'lt' and y.op == 'lt' and val and x.a[0] is y.a[1] and x.a[1] is y.a[0]:
        return False
    if x.op == 'lt' and y.op == 'eq' and val and set(x.a) == set(y.a):
        return False
    if x.op == 'eq' and y.op == 'lt' and val and set(x.a) == set(y.a):
        return False
    return None


def _restrict1(t, x, val):
    """cofactor of an ordered tree wrt x (x <= top), dropping implied atoms"""
    if t.op != 'ite':
        t2 = _untree(t)
        if t2.op != 'ite':
            return t
        t = t2
    if t.a[0] is x:
        return t.a[1] if val else t.a[2]
    return _simp(t, x, val)


def _simp(t, x, val):
    if t.op != 'ite':
        return t
    key = ('s', t, x, val)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    y = t.a[0]
    v = True if (y is x and val) else False if y is x else implied(x, val, y)
    if v is not None:
        r = _simp(t.a[1] if v else t.a[2], x, val)
    else:
        hi, lo = _simp(t.a[1], x, val), _simp(t.a[2], x, val)
        if hi is t.a[1] and lo is t.a[2]:
            r = t
        else:
            r = hi if hi is lo else raw('ite', y, hi, lo)
    _memo_ite[key] = r
    return r


def leaves(t):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            go(x.a[1])
            go(x.a[2])
        else:
            out.append(x)
    go(t)
    return out


def map_tree(t, f):
    """apply f to the leaves of a decision tree"""
    if t.op != 'ite':
        return f(t)
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'ite':
                hi, lo = go(x.a[1]), go(x.a[2])
                r = mk_ite(raw('ite', x.a[0], TRUE, FALSE), hi, lo)
            else:
                r = f(x)
            memo[x] = r
        return r
    return go(t)


def restrict(t, c):
    """t simplified under the assumption that tree c is true (care set)"""
    # canonical: generalised cofactor via ite(c, t, BOT) then drop BOT
    bot = raw('bot')
    r = mk_ite(c, t, bot)

    def drop(x):
        if x.op != 'ite':
            return x
        hi, lo = drop(x.a[1]), drop(x.a[2])
        if hi is bot:
            return lo
        if lo is bot:
            return hi
        return mk_ite(raw('ite', x.a[0], TRUE, FALSE), hi, lo)
    return drop(r)


def lift(args, f):
    """f on argument lists without ite arguments; conditionals are lifted out"""
    memo = {}
    cnt = [0]

    def go(args):
        tops = [x.a[0] for x in args if isinstance(x, T) and x.op == 'ite']
        if not tops:
            return f(args)
        r = memo.get(tuple(args))
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > 3000:
            raise TooBig()
        x = min(tops, key=_akey)
        hi = go([_restrict1(y, x, True) if isinstance(y, T) and y.op == 'ite' else y for y in args])
        lo = go([_restrict1(y, x, False) if isinstance(y, T) and y.op == 'ite' else y for y in args])
        r = mk_ite(raw('ite', x, TRUE, FALSE), hi, lo)
        memo[tuple(args)] = r
        return r
    return go(list(args))


def lifted(f):
    def g(*args):
        for x in args:
            if isinstance(x, T) and x.op == 'ite':
                return lift(args, lambda a: f(*a))
        return f(*args)
    return g


# ---- comparisons ---------------------------------------------------------
def _split_const(t):
    if num(t):
        return C(0), t.a[0]
    if t.op == 'poly':
        for i in range(0, len(t.a), 2):
            if t.a[i + 1].op == 'mono' and not t.a[i + 1].a:
                c = Fraction(t.a[i])
                return mk_add(t, C(_unfrac(-c))), _unfrac(c)
    return t, 0


@lifted
def mk_lt(a, b):
    if num(a) and num(b):
        return C(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    if a.op == 'poly' or b.op == 'poly':
        ra, ca = _split_const(a)
        rb, cb = _split_const(b)
        if ca or cb:
            if num(a):
                a, b = a, b
                if not num(ra) or rb is not b:
                    a, b = C(_norm(ca - cb)), rb
            else:
                a, b = ra, mk_add(rb, C(_norm(cb - ca)))
    if num(a) and a.a[0] == 0 and b.op == 'len':
        return cond_atom(cond(b.a[0]))
    if b.op == 'c' and b.a[0] == 1 and a.op == 'len':
        return mk_not(b if False else a.a[0])
    return raw('lt', a, b)


def cond_atom(t):
    return _fin(t)


@lifted
def mk_le(a, b):
    if num(a) and num(b):
        return C(a.a[0] <= b.a[0])
    if a is b:
        return TRUE
    l = mk_lt(b, a)
    if l.op == 'lt':
        return raw('le', l.a[1], l.a[0])
    return mk_not(l)


@lifted
def mk_eq(a, b):
    if a is b and a.op not in ('rand', 'unknown'):
        return TRUE
    if is_c(a) and is_c(b):
        try:
            return C(a.a[0] == b.a[0])
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            return mk_is(y, NONE)
        if x.op == 'c' and x.a[0] == 0 and not isinstance(x.a[0], bool) and y.op == 'len':
            return mk_not(y.a[0])
        if x.op in ('dict', 'seq') and not x.a:
            return mk_not(y)
        if x is TRUE and is_bool(y):
            return y
        if x is FALSE and is_bool(y):
            return mk_not(y)
    if a.op == 'poly' or b.op == 'poly':
        ra, ca = _split_const(a)
        rb, cb = _split_const(b)
        if ca and cb or (ca and is_c(rb) is False and a.op == 'poly' and num(b)):
            a, b = ra, mk_add(rb, C(_norm(cb - ca)))
    if a.dig > b.dig:
        a, b = b, a
    return raw('eq', a, b)


@lifted
def mk_ne(a, b):
    e = mk_eq(a, b)
    if e.op == 'eq':
        return raw('ne', e.a[0], e.a[1])
    return mk_not(e)


@lifted
def mk_is(a, b):
    if a is b:
        return TRUE
    if is_c(a) and is_c(b):
        return FALSE
    if b is NONE and a.op == 'at' and a.a[0].op == 'at' and a.a[0].a[0].op == 'f' and \
            a.a[0].a[0].a[0] == 'itertools.combinations':
        return FALSE          # members of a combination of site indices
    if b is NONE and a.op == 'at' and a.a[0].op == 'attr' and a.a[0].a[1] in OBJECT_MAPS + ('map', '_sites', 'sites'):
        return FALSE          # their values are objects or numbers
    if b is NONE and (kind(a) is not None or a.op in ('new', 'fn', 'class', 'arr', 'lam', 'bm', 'mm')):
        return FALSE
    if a is NONE:
        a, b = b, a
        if kind(a) is not None:
            return FALSE
    if b is NONE or b.op in ('c',) and isinstance(b.a[0], bool):
        return raw('is', a, b)
    if any(made_anew(x) for x in (a, b)):
        return raw('is', *sorted((a, b), key=_akey))
    # identity of strings / small numbers: decided as equality
    return mk_eq(a, b)


def made_anew(t):
    """a species, or an item taken out of an array: another object every time, though an equal one"""
    return t.op == 'attr' and t.a[1] in ('element', '_element') or \
        t.op == 'at' and t.a[0].op == 'attr' and t.a[0].a[1] in ('numbers', '_numbers', 'unumbers', 'positions', '_positions')


def strip_container(c):
    while True:
        if c.op in ('uset', 'arr', 'astuple', 'sorted', 'copy') and isinstance(c.a[0], T):
            c = c.a[0]
        elif c.op == 'm' and c.a[0] == 'keys' and len(c.a) == 2:
            c = c.a[1]
        elif c.op == 'f' and c.a[0] in ('builtins.frozenset', 'builtins.reversed', 'numpy.unique') and len(c.a) == 2:
            c = c.a[1]
        else:
            return c


@lifted
def mk_in(x, c):
    c = strip_container(c)
    if c.op == 'seq':
        if not c.a:
            return FALSE
        if all(i.op == 'e' for i in c.a) and len(c.a) <= 6:
            return mk_or(*[mk_eq(x, i.a[0]) for i in c.a])
    if c.op == 'tup':
        return mk_or(*[mk_eq(x, i) for i in c.a]) if len(c.a) <= 6 else raw('in', x, c)
    if c.op == 'dict' and not c.a:
        return FALSE
    if c.op == 'dict' and len(c.a) <= 12:
        return mk_or(*[mk_eq(x, c.a[i]) for i in range(0, len(c.a), 2)])
    if c.op == 'dictof':
        c = mk_map(c.a[0], lambda p: mk_at(p, C(0)))
        return mk_in(x, c)
    if c.op == 'comp':
        r = _in_range(x, c)
        if r is not None:
            return r
    if is_c(x) and is_c(c) and isinstance(x.a[0], str) and isinstance(c.a[0], str):
        return C(x.a[0] in c.a[0])
    return raw('in', x, c)


def _in_range(x, c):
    return None


# ---- arithmetic ----------------------------------------------------------
def _norm(x):
    if isinstance(x, Fraction):
        return _unfrac(x)
    return x


def _unfrac(f):
    if isinstance(f, Fraction):
        if f.denominator == 1:
            return int(f)
        return float(f)
    return f


def _topoly(t):
    """-> {mono-key: (mono tuple, Fraction)}; mono = tuple of (T, int exp)"""
    if num(t):
        v = t.a[0]
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
            return {((t, 1),): Fraction(1)}
        return {(): Fraction(v)} if v else {}
    if t.op == 'poly':
        d = {}
        for i in range(0, len(t.a), 2):
            m = t.a[i + 1]
            d[tuple((m.a[j], m.a[j + 1]) for j in range(0, len(m.a), 2))] = Fraction(t.a[i])
        return d
    if t.op == 'pow' and isinstance(t.a[1], int):
        return {((t.a[0], t.a[1]),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def _frompoly(d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(0)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return C(_unfrac(c))
        if c == 1 and len(m) == 1:
            b, e = m[0]
            if e == 1:
                return b
            return raw('pow', b, e)
    items = []
    for m, c in d.items():
        mono = raw('mono', *[y for p in m for y in p])
        items.append((mono.dig, str(c), mono))
    items.sort(key=lambda z: z[0])
    return raw('poly', *[y for z in items for y in (z[1], z[2])])


@lifted
def mk_add(a, b):
    ka, kb = kind(a), kind(b)
    if ka == 'str' or kb == 'str':
        return mk_str([a, b])
    if ka == 'seq' or kb == 'seq':
        return mk_concat(a, b)
    if ka == 'tuple' and kb == 'tuple' and a.op == 'tup' and b.op == 'tup':
        return raw('tup', *(a.a + b.a))
    if a.op == 'arr' and b.op == 'arr' and False:
        pass
    if num(a) and num(b):
        return C(a.a[0] + b.a[0])
    d = dict(_topoly(a))
    for m, c in _topoly(b).items():
        d[m] = d.get(m, 0) + c
    for m, c in list(d.items()):
        # x - floor(x)
        if c and len(m) == 1 and m[0][1] == 1:
            y = m[0][0]
            if y.op == 'f' and y.a[0] in ('numpy.floor', 'math.floor') and len(y.a) == 2:
                Y = y.a[1]
            elif y.op == 'fdiv' and y.a[1] is C(1):
                Y = y.a[0]
            else:
                continue
            Y = _topoly(strip_arr(Y))
            if Y and all(d.get(k) == -c * f for k, f in Y.items()):
                for k in Y:
                    del d[k]
                del d[m]
                return mk_add(_frompoly(d), mk_mul(C(_unfrac(-c)), mk_mod(_frompoly(Y), C(1))))
    return _frompoly(d)


def mk_neg(a):
    return mk_mul(C(-1), a)


def mk_sub(a, b):
    if kind(a) == 'dict' or kind(b) == 'dict':
        return raw('setminus', a, b)
    return mk_add(a, mk_neg(b))


def _mulmono(m1, m2):
    d = {}
    for b, e in m1 + m2:
        d[b] = d.get(b, 0) + e
    return tuple(sorted(((b, e) for b, e in d.items() if e), key=lambda p: p[0].dig))


@lifted
def mk_mul(a, b):
    ka, kb = kind(a), kind(b)
    if ka in ('seq', 'tuple', 'str') and kb not in ('seq', 'tuple', 'str'):
        return mk_rep(a, b)
    if kb in ('seq', 'tuple', 'str') and ka not in ('seq', 'tuple', 'str'):
        return mk_rep(b, a)
    if num(a) and num(b):
        return C(a.a[0] * b.a[0])
    pa, pb = _topoly(a), _topoly(b)
    if len(pa) * len(pb) > 36:
        pa, pb = {((a, 1),): Fraction(1)}, {((b, 1),): Fraction(1)}
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _frompoly(d)


def mk_rep(s, n):
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'e':
        v = fresh()
        return mk_comp([(v, n)], raw('seq', s.a[0]))
    if kind(s) == 'str' and is_c(n) and is_c(s):
        return C(s.a[0] * n.a[0])
    if s.op == 'seq' and is_c(n) and isinstance(n.a[0], int) and n.a[0] < 10:
        return mk_seq(list(s.a) * n.a[0])
    return raw('rep', s, n)


@lifted
def mk_div(a, b):
    if num(a) and num(b) and b.a[0]:
        return C(a.a[0] / b.a[0])
    return mk_mul(a, mk_powi(b, -1))


@lifted
def mk_powi(b, e):
    if num(b) and b.a[0]:
        return C(_unfrac(Fraction(b.a[0]) ** e)) if not isinstance(b.a[0], float) else C(b.a[0] ** e)
    p = _topoly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if c:
            return _frompoly({tuple((x, y * e) for x, y in m): c ** e})
    return _frompoly({((b, e),): Fraction(1)})


@lifted
def mk_pow(a, b):
    if num(a) and num(b):
        try:
            return C(a.a[0] ** b.a[0])
        except Exception:
            pass
    if num(b) and b.a[0] == int(b.a[0]) and abs(b.a[0]) <= 4:
        r = C(1)
        for _ in range(abs(int(b.a[0]))):
            r = mk_mul(r, a)
        return r if b.a[0] >= 0 else mk_powi(r, -1)
    if num(b) and b.a[0] == 0.5:
        return raw('f', 'math.sqrt', a)
    return raw('f', 'pow', a, b)


def tm_int(a):
    return num(a) and isinstance(a.a[0], int)


@lifted
def mk_fdiv(a, b):
    if num(a) and num(b) and b.a[0]:
        return C(a.a[0] // b.a[0])
    if num(b) and b.a[0] == 1 and (a.op in ('len', 'size', 'fdiv') or tm_int(a)):
        return a
    if a.op == 'fdiv':
        return raw('fdiv', a.a[0], mk_mul(a.a[1], b))
    return raw('fdiv', a, b)


@lifted
def mk_mod(a, b):
    if num(a) and num(b) and b.a[0]:
        return C(a.a[0] % b.a[0])
    if a.op == 'arr':
        pass
    return raw('mod', a, b)


# ---- matrices ------------------------------------------------------------
def strip_arr(t):
    while t.op == 'arr' and len(t.a) == 1:
        t = t.a[0]
    return t


def mk_mm(*fs):
    for x in fs:
        if x.op == 'ite':
            return lift(fs, lambda a: mk_mm(*a))
    flat = []
    for f in fs:
        f = strip_arr(f)
        if f.op == 'mm':
            flat.extend(f.a)
        else:
            flat.append(f)
    # distribute over sums
    for i, f in enumerate(flat):
        if f.op == 'poly' and len(f.a) > 2 and len(f.a) <= 8:
            r = C(0)
            for j in range(0, len(f.a), 2):
                m = f.a[j + 1]
                if not m.a:
                    r = None
                    break
                t = _frompoly({tuple((m.a[q], m.a[q + 1]) for q in range(0, len(m.a), 2)): Fraction(1)})
                r = mk_add(r, mk_mul(C(_unfrac(Fraction(f.a[j]))), mk_mm(*(flat[:i] + [t] + flat[i + 1:]))))
            if r is not None:
                return r
    # cancel X inv(X)
    ch = True
    while ch and len(flat) > 1:
        ch = False
        for i in range(len(flat) - 1):
            x, y = flat[i], flat[i + 1]
            if (y.op == 'inv' and y.a[0] is x) or (x.op == 'inv' and x.a[0] is y):
                if len(flat) > 2:
                    del flat[i:i + 2]
                    ch = True
                    break
                return raw('eye', x.a[0] if x.op == 'inv' else x)
    if len(flat) == 1:
        return flat[0]
    return raw('mm', *flat)


@lifted
def mk_T(x):
    x = strip_arr(x)
    if x.op == 'T':
        return x.a[0]
    if x.op == 'mm':
        return mk_mm(*[mk_T(y) for y in reversed(x.a)])
    r = column(x)
    if r is not None:
        return r
    if x.op == 'poly':
        # a sum of matrices, and of vectors written as columns
        P = _topoly(x)
        if all(len(m) == 1 and m[0][1] == 1 and (m[0][0].op in ('mm', 'T') or column(m[0][0]) is not None) for m in P) and \
                any(m[0][0].op in ('mm', 'T') and not any(column(y) is not None for y in m[0][0].a) for m in P):
            r = C(0)
            for m, c in P.items():
                r = mk_add(r, mk_mul(C(_unfrac(c)), mk_T(m[0][0])))
            return r
    return raw('T', x)


def column(x):
    """v[:, None] -> v"""
    if x.op == 'item' and x.a[1].op == 'tup' and len(x.a[1].a) == 2 and x.a[1].a[1] is NONE and x.a[1].a[0].op == 'slc' \
            and all(y is NONE for y in x.a[1].a[0].a):
        return x.a[0]
    return None


@lifted
def mk_inv(x):
    x = strip_arr(x)
    if x.op == 'inv':
        return x.a[0]
    if x.op == 'T':
        return mk_T(mk_inv(x.a[0]))
    if x.op == 'mm':
        return mk_mm(*[mk_inv(y) for y in reversed(x.a)])
    return raw('inv', x)


# ---- strings -------------------------------------------------------------
def mk_str(parts):
    for p in parts:
        if p.op == 'ite':
            return lift(parts, lambda a: mk_str(list(a)))
        if p.op == 'fmt' and p.a[0].op == 'ite':
            q = [x.a[0] if x.op == 'fmt' else x for x in parts]
            sp = [(x.a[1] if x.op == 'fmt' else None) for x in parts]
            return lift(q, lambda a: mk_str([raw('fmt', x, s) if s is not None else x for x, s in zip(a, sp)]))
    out = []
    for p in parts:
        if p.op == 'fmt' and p.a[1] == '' and kind(p.a[0]) == 'str':
            p = p.a[0]
        if p.op == 'fmt' and p.a[1] in ('', 'd') and p.a[0].op == 'c' and isinstance(p.a[0].a[0], int):
            p = C(str(p.a[0].a[0]))
        if p.op == 'str':
            out.extend(p.a)
        elif p.op == 'c' and isinstance(p.a[0], str):
            out.append(p)
        elif p.op == 'fmt':
            out.append(p)
        else:
            out.append(raw('fmt', p, ''))
    res = []
    for p in out:
        if p.op == 'c':
            if not p.a[0]:
                continue
            if res and res[-1].op == 'c':
                res[-1] = C(res[-1].a[0] + p.a[0])
                continue
        res.append(p)
    if not res:
        return C('')
    for n in range(len(res) - 1):
        # lines joined by a separator and ended by it: every line is followed by it
        j = res[n].a[0] if res[n].op == 'fmt' and res[n].a[1] == '' else res[n]
        if j.op == 'join' and is_c(j.a[0]) and j.a[0].a[0] and res[n + 1].op == 'c' and res[n + 1].a[0].startswith(j.a[0].a[0]) \
                and j.a[1].op == 'seq' and any(i.op == 'e' for i in j.a[1].a):
            sep = j.a[0]
            flat = []
            for i in j.a[1].a:
                if i.op == 'e':
                    flat += [i.a[0], sep]
                else:
                    flat.append(mk_join(C(''), mk_map(i.a[0], lambda x: mk_str([x, sep]))))
            return mk_str(res[:n] + flat + [C(res[n + 1].a[0][len(sep.a[0]):])] + res[n + 2:])
    if len(res) == 1 and res[0].op == 'c':
        return res[0]
    if len(res) == 1 and res[0].op == 'fmt' and res[0].a[1] == '' and kind(res[0].a[0]) == 'str':
        return res[0].a[0]
    return raw('str', *res)


def mk_join(sep, s):
    if sep.op == 'ite' or s.op == 'ite':
        return lift([sep, s], lambda a: mk_join(*a))
    s = unwrap_seq(s)
    if s.op == 'uset':
        return raw('join', sep, s)
    if s.op == 'seq' and all(i.op == 'e' for i in s.a):
        parts = []
        for n, i in enumerate(s.a):
            if n:
                parts.append(sep)
            parts.append(i.a[0])
        return mk_str(parts) if parts else C('')
    if s.op == 'seq' and is_c(sep) and sep.a[0] == '':
        return mk_str([i.a[0] if i.op == 'e' else mk_join(sep, i.a[0]) for i in s.a])
    return raw('join', sep, s)


# ---- sequences -----------------------------------------------------------
def e(x):
    return raw('e', x)


def s(x):
    return raw('s', x)


def unwrap_seq(t):
    while t.op in ('astuple', 'arr') and len(t.a) == 1:
        t = t.a[0]
    if t.op == 'tup':
        return raw('seq', *[e(x) for x in t.a])
    return t


def mk_seq(items):
    out = []
    for i in items:
        if i.op == 's':
            x = i.a[0]
            if x.op == 'seq':
                out.extend(x.a)
                continue
            if x.op == 'tup':
                out.extend(e(y) for y in x.a)
                continue
            if x.op in ('astuple',):
                i = s(x.a[0])
                x = x.a[0]
        out.append(i)
    for i, it in enumerate(out):
        if it.op == 's' and it.a[0].op == 'ite':
            return lift([it.a[0]], lambda a: mk_seq(out[:i] + [s(a[0])] + out[i + 1:]))
        if it.op == 'e' and it.a[0].op == 'ite':
            return lift([it.a[0]], lambda a: mk_seq(out[:i] + [e(a[0])] + out[i + 1:]))
    if len(out) == 1 and out[0].op == 's':
        return out[0].a[0]
    return raw('seq', *out)


def as_items(t):
    t = t if t.op != 'tup' else raw('seq', *[e(x) for x in t.a])
    if t.op == 'seq':
        return list(t.a)
    return [s(t)]


@lifted
def mk_concat(a, b):
    return mk_seq(as_items(a) + as_items(b))


def leaf_emit(t):
    """tree leaf -> ('one', x) / ('none',) / ('many', items)"""
    if t.op == 'seq':
        if not t.a:
            return ('none',)
        if len(t.a) == 1 and t.a[0].op == 'e':
            return ('one', t.a[0].a[0])
        return ('many', t.a)
    return ('many', (s(t),))


def mk_comp(clauses, tree):
    """clauses: list of (open var, length term)"""
    clauses = list(clauses)
    # lift conditionals out of clause lengths / invariant conditions
    vs = frozenset(v.a[0] for v, _ in clauses)
    for i, (v, L) in enumerate(clauses):
        if L.op == 'ite':
            if not (L.a[0].fv & vs):
                x = L.a[0]
                hi = mk_comp([(w, cofs(M, x, True)) for w, M in clauses], cofs(tree, x, True))
                lo = mk_comp([(w, cofs(M, x, False)) for w, M in clauses], cofs(tree, x, False))
                return mk_ite(raw('ite', x, TRUE, FALSE), hi, lo)
    if not clauses:
        return tree
    # constant lengths
    for i, (v, L) in enumerate(clauses):
        if num(L):
            if L.a[0] <= 0:
                return EMPTY
            if L.a[0] == 1:
                m = {v.a[0]: C(0)}
                rest = clauses[:i] + [(w, subst(M, m)) for w, M in clauses[i + 1:]]
                tree2 = subst(tree, m)
                return mk_comp(rest, tree2) if rest else tree2
    # invariant condition at top or anywhere in the tree
    inv = _inv_atom(tree, vs)
    if inv is not None:
        hi = mk_comp(clauses, cofs(tree, inv, True))
        lo = mk_comp(clauses, cofs(tree, inv, False))
        return mk_ite(raw('ite', inv, TRUE, FALSE), hi, lo)
    if tree is EMPTY:
        return EMPTY
    # padded iteration (zip_longest): a clause up to the longer length whose body
    # does nothing beyond one of the lengths is a clause up to that length
    for i, (v, L) in enumerate(clauses):
        if L.op == 'maxlen':
            for La in L.a:
                g = raw('lt', v, La)
                if cofs(tree, g, False) is EMPTY and tree.op == 'ite':
                    return mk_comp(clauses[:i] + [(v, La)] + clauses[i + 1:], cofs(tree, g, True))
    # flatten a spliced comprehension: only leaf apart from empties
    lv = [x for x in leaves(tree) if not (x.op == 'seq' and not x.a)]
    if len(lv) == 1 and lv[0].op == 'comp':
        cl2, tr2 = open_comp(lv[0])
        g = map_tree(tree, lambda x: FALSE if (x.op == 'seq' and not x.a) else TRUE)
        return mk_comp(clauses + cl2, mk_ite(g, tr2, EMPTY))
    if len(lv) == 1 and lv[0].op not in ('seq', 'comp') and lv[0].op != 'bot':
        # splice of an opaque sequence: iterate it
        X = lv[0]
        j = fresh()
        g = map_tree(tree, lambda x: FALSE if (x.op == 'seq' and not x.a) else TRUE)
        return mk_comp(clauses + [(j, mk_len(X))], mk_ite(g, raw('seq', e(mk_at(X, j))), EMPTY))
    # fuse a binder that only indexes another comprehension
    for i, (v, L) in enumerate(clauses):
        if L.op == 'len' and L.a[0].op == 'comp':
            cc = L.a[0]
            k = cc.a[1]
            node = raw('at', cc, v)
            rest = [M for _, M in clauses[i + 1:]] + [tree]
            mark = fresh()
            new = [replace(x, node, mark) for x in rest]
            if all(v.a[0] not in x.fv for x in new):
                cl2, tr2 = open_comp(cc)
                if all(leaf_emit(x)[0] in ('one', 'none') for x in leaves(tr2)):
                    g = map_tree(tr2, lambda x: FALSE if leaf_emit(x)[0] == 'none' else TRUE)
                    val = restrict(map_tree(tr2, lambda x: raw('bot') if leaf_emit(x)[0] == 'none' else leaf_emit(x)[1]), g)
                    m = {mark.a[0]: val}
                    new = [subst(x, m) for x in new]
                    ncl = clauses[:i] + cl2 + [(w, M) for (w, _), M in zip(clauses[i + 1:], new[:-1])]
                    return mk_comp(ncl, mk_ite(g, new[-1], EMPTY))
    # a sequence given in pieces: one comprehension per piece
    if len(clauses) == 1:
        v, L = clauses[0]
        for X in {x.a[0] for x in subterms(tree) if x.op == 'at' and x.a[1] is v and x.a[0].op == 'seq'}:
            if L is mk_len(X) and len(X.a) <= 10 and any(i.op == 's' for i in X.a) and v.a[0] not in X.fv \
                    and not _index_used(tree, X, v):
                mark = fresh()
                body = replace(tree, raw('at', X, v), mark)
                r = EMPTY
                for i in X.a:
                    f = lambda x: subst(body, {mark.a[0]: x})
                    r = mk_concat(r, f(i.a[0]) if i.op == 'e' else comp_over(i.a[0], f))
                return r
    # eta: [X[i] for i in range(len(X))] == X
    if len(clauses) == 1:
        v, L = clauses[0]
        le = leaf_emit(tree) if tree.op != 'ite' else ('x',)
        if le[0] == 'one' and le[1].op == 'at' and le[1].a[1] is v and v.a[0] not in le[1].a[0].fv:
            X = le[1].a[0]
            if mk_len(X) is L:
                return X
        if le[0] == 'one' and le[1].op == 'ite':
            pass
    vs_ = [v for v, _ in clauses]
    H, parts = _close(vs_, [L for _, L in clauses] + [tree])
    if parts[-1].op == 'seq' and not parts[-1].a:
        return EMPTY
    return raw('comp', H, len(clauses), *parts)


def cofs(t, x, val):
    """cofactor with respect to an atom anywhere in the (ordered) tree"""
    if not isinstance(t, T):
        return t
    if t.op != 'ite':
        return t
    return _refin(_simp(_untree(t), x, val))


def _refin(t):
    return _fin(t) if t.op == 'ite' else t


def _inv_atom(tree, vs):
    best = None
    seen = set()
    st = [tree]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'ite':
            if not (t.a[0].fv & vs):
                if best is None or _akey(t.a[0]) < _akey(best):
                    best = t.a[0]
            st.append(t.a[1])
            st.append(t.a[2])
    return best


def mk_range(a, b=None, step=None):
    if b is None:
        a, b = C(0), a
    if step is not None and not (num(step) and step.a[0] == 1):
        return raw('f', 'builtins.range', a, b, step)
    v = fresh()
    return mk_comp([(v, mk_sub(b, a))], raw('seq', e(mk_add(a, v))))


def mk_map(S, f):
    """[f(x) for x in S]"""
    return comp_over(S, lambda x: raw('seq', e(f(x))))


def comp_over(S, f):
    """[*f(x) for x in S] where f gives a tree of seq leaves"""
    if S.op == 'ite':
        return lift([S], lambda a: comp_over(a[0], f))
    S = unwrap_seq(S)
    if S.op == 'dictof':
        S = mk_map(mk_items(S), lambda p: mk_at(p, C(0)))
    if S.op == 'comp':
        cl, tr = open_comp(S)
        if all(leaf_emit(x)[0] in ('one', 'none') for x in leaves(tr)):
            def leaf(x):
                le = leaf_emit(x)
                return EMPTY if le[0] == 'none' else raw('seq', s(f(le[1]))) if False else f(le[1])
            return mk_comp(cl, map_tree(tr, leaf))
    if S.op == 'seq' and all(i.op == 'e' for i in S.a) and len(S.a) <= 3:
        r = EMPTY
        for i in S.a:
            r = mk_concat(r, f(i.a[0]))
        return r
    v = fresh()
    return mk_comp([(v, mk_len(S))], f(mk_at(S, v)))


@lifted
def mk_len(X):
    X0 = X
    while True:
        if X.op in ('arr', 'astuple', 'tolist', 'scatter', 'round', 'slicecopy', 'rev') or \
                (X.op in ('sorted',)) or (X.op == 'scatterv'):
            X = X.a[0]
        elif X.op == 'mm':
            X = X.a[0]
        elif X.op == 'vmap':
            X = X.a[1]
        elif X.op == 'at' and X.a[1].op == 'lexsort':
            X = X.a[0]              # put in another order
        elif X.op == 'mod' and kind(X.a[0]) != 'num':
            X = X.a[0]
        else:
            break
    if X.op == 'ite':
        return mk_len(X)
    if X.op == 'seq':
        n = C(0)
        for i in X.a:
            n = mk_add(n, C(1) if i.op == 'e' else mk_len(i.a[0]))
        return n
    if X.op == 'tup':
        return C(len(X.a))
    if X.op == 'c' and isinstance(X.a[0], str):
        return C(len(X.a[0]))
    if X.op == 'dict':
        return C(len(X.a) // 2)
    if X.op == 'comp':
        k = X.a[1]
        tr = X.a[2 + k]
        if tr.op != 'ite':
            le = leaf_emit(tr)
            n = None
            if le[0] == 'one':
                n = 1
            elif le[0] == 'many' and all(i.op == 'e' for i in le[1]):
                n = len(le[1])
            if n is not None:
                names = bound_names(X)
                Ls = X.a[2:2 + k]
                if all(not (L.fv & frozenset(names)) for L in Ls):
                    r = C(n)
                    for L in Ls:
                        r = mk_mul(r, L)
                    return r
    if X.op == 'slice':
        b, a_, c = X.a[0], X.a[1], X.a[2]
        if X.a[3] is NONE and a_.op == 'c' and c.op == 'c' and isinstance(c.a[0], int) \
                and (a_.a[0] is None or isinstance(a_.a[0], int)):
            lo = a_.a[0] or 0
            if 0 <= lo <= c.a[0]:
                return C(c.a[0] - lo)
    if X.op == 'attr' and X.a[1] in SITE_ATTRS:
        return raw('len', raw('attr', X.a[0], 'numbers'))
    if X.op == 'at' and X.a[1].op == 'c' and X.a[1].a[0] == 'translations' and X.a[0].op == 'f' \
            and X.a[0].a[0] == 'spglib.get_symmetry':
        # one translation belongs to every rotation
        return raw('len', raw('at', X.a[0], C('rotations')))
    if X.op == 'm' and X.a[0] == 'get_wyckoffs':
        return raw('len', raw('attr', X.a[1], 'numbers'))
    if X.op == 'dictof':
        return mk_len(X.a[0]) if distinct_keys(X.a[0]) else raw('len', mk_uset(X))
    if X.op in ('m',) and X.a[0] in ('keys', 'values', 'items') and len(X.a) == 2:
        return mk_len(X.a[1])
    if X.op == 'rep' and X.a[0].op == 'tup':
        return mk_mul(C(len(X.a[0].a)), X.a[1])
    if X.op == 'poly':
        # a vector added to the rows of a table
        bs = [b for m in _topoly(X) for b, p in m if not is_scalar(b)]
        n = {literal_rows(b) for b in bs if not is_vec(b)}
        if len(n) == 1 and None not in n:
            return C(n.pop())
    return raw('len', X)


SITE_ATTRS = {'positions', 'numbers', 'wyckoffs', 'atoms_name_list', 'upositions', 'unumbers'}


@lifted
def mk_at(X, i):
    o = X.op
    if o in ('astuple', 'arr') and len(X.a) == 1:
        if o == 'arr' and i.op in ('arr',):
            pass
        inner = X.a[0]
        if inner.op in ('tup', 'seq', 'comp') or o == 'astuple':
            r = mk_at(inner, i)
            return r
        return raw('at', inner, i)
    if o in ('tup', 'seq') and num(i) and isinstance(i.a[0], int):
        items = X.a if o == 'tup' else X.a
        n = i.a[0]
        if o == 'tup':
            if -len(items) <= n < len(items):
                return items[n]
        else:
            if n >= 0 and all(x.op == 'e' for x in items[:n + 1]) and n < len(items):
                return items[n].a[0]
            if n < 0 and all(x.op == 'e' for x in items[n:]) and -n <= len(items):
                return items[n].a[0]
    if o == 'comp' and kind(i) != 'bool' and i.op not in ('comp', 'seq', 'arr'):
        k = X.a[1]
        tr = X.a[2 + k]
        if k == 1 and tr.op != 'ite':
            le = leaf_emit(tr)
            if le[0] == 'one' and not (num(i) and i.a[0] < 0):
                nm = bound_names(X)
                fr = [fresh()]
                body = _rename(le[1], {nm[0]: fr[0]})
                return subst(body, {fr[0].a[0]: i})
    if o == 'f' and X.a[0] == 'collections.Counter' and len(X.a) == 2 and vec1(X.a[1]) \
            and not (i.op == 'at' and i.a[1] is C(0) and i.a[0].op == 'at' and items_of(i.a[0].a[0]) is X):
        return mk_len(mk_nz(mk_eq(X.a[1], i)))
    if o == 'without':
        x = mk_eq(X.a[1], i)
        return mk_ite(cond(x), raw('at', X, i), mk_at(X.a[0], i))
    if o == 'dict':
        if is_c(i):
            for j in range(len(X.a) - 2, -1, -2):
                if X.a[j] is i:
                    return X.a[j + 1]
    if o == 'dstore' and X.a[1] is i:
        return X.a[2]
    if o == 'slice':
        lo, hi, st = X.a[1], X.a[2], X.a[3]
        if st is NONE and not (lo.op == 'c' and isinstance(lo.a[0], int) and lo.a[0] < 0) and kind(i) in ('num', None) \
                and not (num(i) and i.a[0] < 0) and (hi is NONE or num(i) or any(x.op == 'v' for x in subterms(i))):
            return mk_at(X.a[0], i if lo is NONE else mk_add(lo, i))
    if o == 'T':
        return mk_item(X.a[0], raw('tup', raw('slc', NONE, NONE, NONE), i)) if i.op != 'comp' else raw('at', X, i)
    if o == 'attrshape' and num(i) and i.a[0] == 0:
        return mk_len(X.a[0])
    if o == 'poly' and i.op not in ('nz', 'arr', 'comp', 'seq') and kind(i) in ('num', None):
        r = _at_poly(X, i)
        if r is not None:
            return r
    if i.op == 'nz':
        return raw('sel', X, i.a[0])
    if i.op in ('eq', 'ne', 'lt', 'le') and mk_nz(i).op == 'comp':
        return mk_at(X, mk_nz(i))
    if i.op in ('eq', 'ne', 'lt', 'le', 'ewand', 'ewor', 'ewnot') or (i.op == 'f' and i.a[0] in ('numpy.all', 'numpy.any')):
        return raw('sel', X, i)
    if i.op == 'arr' and len(i.a) == 1:
        i = i.a[0]
        return mk_at(X, i)
    if i.op == 'astuple':
        i = i.a[0]
    if i.op == 'at' and i.a[1] is C(0) and i.a[0].op == 'at' and items_of(i.a[0].a[0]) is X:
        return mk_at(i.a[0], C(1))
    if o == 'scatter' and X.a[1].op == 'seq' and len(X.a[1].a) == 1 and X.a[1].a[0].op == 'e' and _listlike(X):
        j, v = X.a[1].a[0].a[0], X.a[2]
        if j is i:
            return v
        B = X.a[0]
        if B.op == 'scatter' and B.a[1] is raw('seq', e(i)) and B.a[2] is mk_at(B.a[0], j) and v is mk_at(B.a[0], i):
            return B.a[2]            # after an exchange, whether or not the two places are the same
        r = mk_at(B, i)
        if r is v:
            return v                 # put there, or there before
    return raw('at', X, i)


def _listlike(X):
    while X.op in ('scatter', 'slice'):
        X = X.a[0]
    return X.op == 'attr' and X.a[1] in ('list', '_list')


def mk_delitem(X, i):
    if X.op == 'ite' or i.op == 'ite':
        return lift([X, i], lambda a: mk_delitem(*a))
    if num(i) and i.a[0] == -1:
        return mk_item(X, raw('slc', NONE, C(-1), NONE))
    return raw('delitem', X, i)


def is_scalar(t):
    if t.op == 'c':
        return num(t)
    if t.op in ('len', 'size', 'norm', 'sum', 'minof', 'maxof'):
        return True
    if t.op == 'f' and t.a[0] in ('numpy.linalg.det', 'builtins.float', 'builtins.int', 'math.sqrt', 'builtins.abs'):
        return t.a[0] != 'builtins.abs' or is_scalar(t.a[1])
    if t.op == 'at' and t.a[0].op == 'at' and t.a[0].a[0].op == 'f' and t.a[0].a[0].a[0] == 'numpy.argwhere':
        return True
    if t.op == 'pow':
        return is_scalar(t.a[0])
    return False


def literal_rows(X):
    """number of rows of a literal two-dimensional array, or None"""
    X = strip_arr(X)
    if X.op == 'mm':
        return literal_rows(X.a[0])
    if X.op != 'seq' or len(X.a) < 2 or not all(i.op == 'e' for i in X.a):
        return None
    n = set()
    for i in X.a:
        row = strip_arr(i.a[0])
        if row.op == 'tup':
            row = raw('seq', *[raw('e', j) for j in row.a])
        if row.op != 'seq' or not all(j.op == 'e' and num(j.a[0]) for j in row.a):
            return None
        n.add(len(row.a))
    return len(X.a) if len(n) == 1 and n.pop() > 1 else None


def is_vec(b):
    """what is taken for a single vector: a parameter"""
    return b.op in ('arg', 'carg') or b.op in ('arr', 'mm') and is_vec(b.a[0])


def _at_poly(X, i):
    """element of a linear combination of arrays with scalar factors"""
    r = C(0)
    table = any(literal_rows(b) for m in _topoly(X) for b, p in m)
    for m, c in _topoly(X).items():
        ns = []
        t = C(_unfrac(c))
        for b, p in m:
            if is_scalar(b):
                t = mk_mul(t, mk_powi(b, p))
            elif p == 1:
                ns.append(b)
            else:
                return None
        if len(ns) != 1:
            return None
        r = mk_add(r, mk_mul(t, ns[0] if table and is_vec(ns[0]) else mk_at(ns[0], i)))
    return r


def mk_item(X, idx):
    """subscript with a general index"""
    if X.op == 'ite' or idx.op == 'ite':
        return lift([X, idx], lambda a: mk_item(*a))
    if idx.op == 'slc':
        if all(x is NONE for x in idx.a):
            return X
        if idx.a[0] is NONE and idx.a[1] is NONE and num(idx.a[2]) and idx.a[2].a[0] == -1:
            return raw('rev', X)
        a_, b, c = idx.a
        if num(a_) and a_.a[0] == 0:
            a_ = NONE
        if num(c) and c.a[0] == 1:
            c = NONE
        if a_ is NONE and b is NONE and c is NONE:
            return X
        if X.op == 'c' and isinstance(X.a[0], str) and all(is_c(q) for q in (a_, b, c)):
            return C(X.a[0][slice(a_.a[0], b.a[0], c.a[0])])
        if X.op == 'seq' and all(i.op == 'e' for i in X.a) and all(is_c(q) for q in (a_, b, c)):
            return raw('seq', *X.a[slice(a_.a[0], b.a[0], c.a[0])])
        while X.op == 'scatter' and a_ is NONE and c is NONE and num(b) and b.a[0] == -1 \
                and X.a[1].op == 'seq' and len(X.a[1].a) == 1 and X.a[1].a[0].a[0] is b:
            X = X.a[0]               # what was written to the last place goes with it
        return raw('slice', X, a_, b, c)
    if idx.op == 'tup':
        # drop trailing full slices; a[i, j] with plain indices on lists of arrays
        it = list(idx.a)
        while len(it) > 1 and it[-1].op == 'slc' and all(x is NONE for x in it[-1].a):
            it.pop()
        if len(it) == 1:
            return mk_item(X, it[0])
        if all(x.op != 'slc' for x in it) and all(x.op == 'c' or x.op == 'v' for x in it) and X.op not in ('attr',):
            r = X
            for x in it:
                r = mk_at(r, x)
            return r
        if X.op == 'arr' and len(X.a) == 1:
            X = X.a[0]
        return raw('item', X, raw('tup', *it))
    return mk_at(X, idx)


def mk_attr(o, name):
    if o.op == 'ite':
        return lift([o], lambda a: mk_attr(a[0], name))
    if name == 'spg_cell':
        # the cell of a GeneralCell is its three parts (established by its constructor and its setter)
        return raw('tup', *[mk_attr(o, n) for n in ('lattice', 'positions', 'numbers')])
    return raw('attr', o, name)


# ---- lam / fold / while --------------------------------------------------
def mk_lam(vs, body):
    if len(vs) == 1 and body.op == 'api' and False:
        pass
    H, parts = _close(vs, [body])
    return raw('lam', H, len(vs), parts[0])


def _order_states(states, vs, res):
    """canonical order of loop-carried states: result first, then by content"""
    base = {v.a[0]: var('cv%d' % i) for i, v in enumerate(vs)}
    anon = dict(base)
    for v, _, _ in states:
        anon[v.a[0]] = raw('st')
    keys = {}
    for n, (v, i, u) in enumerate(states):
        keys[n] = (n != res, subst(i, base).dig, subst(u, anon).dig)
    for _ in range(2):
        # refine: distinguish the states by the keys found so far
        d2 = dict(base)
        for n, (v, _, _) in enumerate(states):
            d2[v.a[0]] = raw('st', repr(keys[n]))
        keys = {n: keys[n] + (subst(states[n][2], d2).dig,) for n in keys}
    return [states[n] for n in sorted(keys, key=lambda n: (keys[n], n))]


def _as_set(t, v):
    """t, a value of the dict-used-as-set v after some stores -> set normal form, or None"""
    if t is v:
        return t
    if t.op == 'ite':
        a, b = _as_set(t.a[1], v), _as_set(t.a[2], v)
        c = _members_only(t.a[0], v)
        if a is None or b is None or c is None:
            return None
        return mk_ite(c, a, b)
    if t.op in ('dstore', 'dupd', 'upd'):
        d = _as_set(t.a[0], v)
        if d is None or v.a[0] in raw('tup', *t.a[1:]).fv:
            return None
        if t.op == 'dstore':
            return mk_upd(d, raw('seq', e(t.a[1])))
        if t.op == 'dupd':
            return mk_upd(d, mk_map(t.a[1], lambda p: mk_at(p, C(0))))
        return mk_upd(d, t.a[1])
    return None


def _inner_fold(x, v, go):
    """an inner loop that continues the set v of the outer loop"""
    names = bound_names(x)
    fr = [fresh() for _ in names]
    ren = dict(zip(names, fr))
    a = [(_rename(y, ren) if isinstance(y, T) else y) for y in x.a]
    k, s = a[1], a[2]
    ini = a[3 + k:3 + k + s]
    upd = a[3 + k + s:3 + k + 2 * s]
    stop = a[3 + k + 2 * s]
    sv = fr[k:]
    out = []
    for j in range(s):
        if j > 0 and v.a[0] in ini[j].fv:
            c = _as_set(ini[j], v)
            if c is None or _as_set(upd[j], sv[j]) is None or _members_only(stop, sv[j]) is None or \
                    any(_members_only(upd[m], sv[j]) is None for m in range(s) if m != j):
                return None
            out.append(c)
        else:
            out.append(go(ini[j]))
    return mk_fold(list(zip(fr[:k], [go(L) for L in a[3:3 + k]])),
                   [(sv[j], out[j], go(upd[j])) for j in range(s)], go(stop), 0)


def _members_only(t, v):
    """rewrite t so that v occurs only as a set in membership tests, or None"""
    if v.a[0] not in t.fv:
        return t
    bad = []

    def go(x):
        if v.a[0] not in x.fv:
            return x
        if x.op == 'in':
            k = x.a[0]
            c = _as_set(x.a[1], v)
            if v.a[0] in k.fv or c is None:
                bad.append(x)
                return x
            return mk_in(k, c)
        if x is v:
            bad.append(x)
            return x
        if x.op == 'fold':
            r = _inner_fold(x, v, go)
            if r is not None:
                return r
        if x.op in ('comp', 'lam', 'fold', 'while'):
            return _rebind(x, go)
        return build(x.op, *[go(y) if isinstance(y, T) else y for y in x.a])
    r = go(t)
    return None if bad else r


def _setlike(states, stop, res):
    """dicts that are only asked for membership are sets"""
    out = list(states)
    for n, (v, i, u) in enumerate(states):
        if n == res or not (i.op == 'dict' or i.op == 'uset' or VKIND.get(v.a[0]) == 'dict'):
            continue
        nu = {}
        for m, (w, _, uw) in enumerate(out):
            nu[m] = _as_set(uw, v) if m == n else _members_only(uw, v)
        ns = _members_only(stop, v)
        if ns is None or any(x is None for x in nu.values()):
            continue
        stop = ns
        out = [(w, iw, nu[m]) for m, (w, iw, _) in enumerate(out)]
        if i.op == 'dict':
            i = mk_uset(raw('seq', *[e(x) for x in i.a[0::2]]))
        out[n] = (v, i, out[n][2])
    return out, stop


def mk_fold(clauses, states, stop, res):
    """clauses [(var,L)], states [(var, init, upd)], stop tree (FALSE=none); res index"""
    vs = [v for v, _ in clauses]
    rv, ri, ru = states[res]
    if all(x is rv or x is ri for x in leaves(ru)):
        return ri                       # never changed
    states, stop = _setlike(states, stop, res)
    states = _order_states(states, vs, res)
    svs = [v for v, _, _ in states]
    k, sn = len(clauses), len(states)
    parts = [L for _, L in clauses] + [i for _, i, _ in states] + [u for _, _, u in states] + [stop]
    H, parts = _close(vs + svs, parts)
    return raw('fold', H, k, sn, *(parts + [0]))


def mk_while(states, cond_, res):
    states = _order_states(states, [], res)
    svs = [v for v, _, _ in states]
    parts = [i for _, i, _ in states] + [cond_] + [u for _, _, u in states]
    H, parts = _close(svs, parts)
    return raw('while', H, len(states), *(parts + [0]))


def subst_raw(t, m):
    return _rename(t, m)


# ---- any / sum / min ... over sequences ------------------------------------
def mk_any(S):
    """any(S)"""
    if S.op == 'ite':
        return lift([S], lambda a: mk_any(a[0]))
    S = unwrap_seq(S)
    if S.op == 'uset':
        return mk_any(S.a[0])
    if S.op == 'seq':
        return mk_or(*[i.a[0] if i.op == 'e' else mk_any(i.a[0]) for i in S.a])
    if S.op == 'comp':
        cl, tr = open_comp(S)

        def leaf(x):
            le = leaf_emit(x)
            if le[0] == 'none':
                return FALSE
            if le[0] == 'one':
                return cond(le[1])
            return mk_or(*[i.a[0] if i.op == 'e' else mk_any(i.a[0]) for i in le[1]])
        g = map_tree(tr, leaf)
        return mk_any_g(cl, g)
    v = fresh()
    return mk_any_g([(v, mk_len(S))], cond(mk_at(S, v)))


def mk_any_g(cl, g):
    """exists binding of cl with g true"""
    if g is FALSE:
        return FALSE
    vs = frozenset(v.a[0] for v, _ in cl)
    inv = _inv_atom(g if g.op == 'ite' else _untree(g), vs)
    if inv is not None:
        return mk_ite(raw('ite', inv, TRUE, FALSE),
                      mk_any_g(cl, cofs(_untree(g), inv, True)), mk_any_g(cl, cofs(_untree(g), inv, False)))
    c = mk_comp(cl, mk_ite(g, raw('seq', e(TRUE)), EMPTY))
    if c.op == 'ite':
        return lift([c], lambda a: _any_node(a[0]))
    return _any_node(c)


def _any_node(c):
    if c is EMPTY:
        return FALSE
    if c.op == 'seq':
        return TRUE if any(i.op == 'e' for i in c.a) else raw('any', c)
    if c.op == 'comp' and c.a[1] == 1:
        L, tr = c.a[2], c.a[3]
        b = bound_names(c)[0]
        # exists i: X[i] == x   ->  x in X
        if tr.op == 'ite' and tr.a[0].op == 'eq' and tr.a[1] is raw('seq', e(TRUE)) and tr.a[2] is EMPTY:
            p, q = tr.a[0].a
            for p, q in ((p, q), (q, p)):
                if p.op == 'at' and p.a[1].op == 'v' and p.a[1].a[0] == b and b not in p.a[0].fv and b not in q.fv:
                    if mk_len(p.a[0]) is L:
                        return mk_in(q, p.a[0])
        # exists i: X[i] < x   ->  min(X) < x
        if tr.op == 'ite' and tr.a[0].op in ('lt', 'le') and {tr.a[1], tr.a[2]} == {raw('seq', e(TRUE)), EMPTY}:
            p, q = tr.a[0].a
            for i, (p, q) in enumerate(((p, q), (q, p))):
                if p.op == 'at' and p.a[1].op == 'v' and p.a[1].a[0] == b and b not in p.a[0].fv and b not in q.fv \
                        and p.a[0].op == 'f' and p.a[0].a[0] in VECTORS and mk_len(p.a[0]) is L:
                    small = (i == 0) == (tr.a[1] is not EMPTY)
                    m = raw('f', 'numpy.amin' if small else 'numpy.amax', p.a[0])
                    o = (mk_lt if tr.a[0].op == 'lt' else mk_le)(*((m, q) if i == 0 else (q, m)))
                    return o if tr.a[1] is not EMPTY else mk_not(o)
        if tr is raw('seq', e(TRUE)):
            return mk_lt(C(0), L) if L.op != 'len' else cond(L.a[0])
    return raw('any', c)


VECTORS = {'scipy.spatial.distance.pdist'}          # functions that return one row of numbers


def mk_all(S):
    if S.op == 'ite':
        return lift([S], lambda a: mk_all(a[0]))
    S2 = comp_over(S, lambda x: raw('seq', e(mk_not(x)))) if not (unwrap_seq(S).op == 'seq') else \
        raw('seq', *[e(mk_not(i.a[0])) if i.op == 'e' else s(i.a[0]) for i in unwrap_seq(S).a])
    return mk_not(mk_any(S2))


@lifted
def mk_sum(S):
    S = unwrap_seq(S)
    if S.op == 'seq' and all(i.op == 'e' for i in S.a):
        r = C(0)
        for i in S.a:
            r = mk_add(r, i.a[0])
        return r
    if S.op == 'comp':
        k = S.a[1]
        tr = S.a[2 + k]
        if tr.op != 'ite' and leaf_emit(tr)[0] == 'one' and leaf_emit(tr)[1] is C(1):
            return mk_len(S)
        # count of matches: sum(1 for x if g) / sum(g)
        if all(leaf_emit(x)[0] == 'none' or (leaf_emit(x)[0] == 'one' and leaf_emit(x)[1] is C(1)) for x in leaves(tr)):
            if k == 1 and tr.op == 'ite':
                cl, tr = open_comp(S)
                S = mk_comp(cl, map_tree(tr, lambda x: EMPTY if leaf_emit(x)[0] == 'none' else raw('seq', e(cl[0][0]))))
            return mk_len(S)
    return raw('sum', S)


# ---- misc containers -------------------------------------------------------
@lifted
def mk_uset(S):
    if S.op == 'uset':
        return S
    S = unwrap_seq(S)
    if S.op == 'dictof':
        S = mk_map(S.a[0], lambda p: mk_at(p, C(0)))
    return raw('uset', S)


def all_divisors(S):
    """i and n//i for the divisors i up to the square root of n -> the divisors of n"""
    if S.op != 'comp' or S.a[1] != 1 or S.a[3].op != 'ite':
        return None
    L = S.a[2]
    if not (L.op == 'f' and L.a[0] in ('builtins.int', 'math.isqrt') and len(L.a) == 2):
        return None
    n = L.a[1]
    if L.a[0] == 'builtins.int':
        if not (n.op == 'f' and n.a[0] == 'math.sqrt' and len(n.a) == 2):
            return None
        n = n.a[1]
    v = fresh()
    tr = subst(S.a[3], {bound_names(S)[0]: v})      # renaming renormalises
    if tr.op != 'ite':
        return None
    c, x, y = tr.a
    i = mk_add(v, C(1))
    if c is not mk_eq(mk_mod(n, i), C(0)) or y is not EMPTY:
        return None
    if x.op != 'seq' or {z.a[0] for z in x.a if z.op == 'e'} != {i, mk_fdiv(n, i)} or len(x.a) != 2:
        return None
    return mk_comp([(v, n)], mk_ite(c, raw('seq', e(i)), EMPTY))


def divisor_list(S):
    """the divisors of n, found by trying every number up to n"""
    if S.op != 'comp' or S.a[1] != 1 or S.a[3].op != 'ite':
        return False
    v = fresh()
    tr = subst(S.a[3], {bound_names(S)[0]: v})
    i = mk_add(v, C(1))
    return tr is mk_ite(mk_eq(mk_mod(S.a[2], i), C(0)), raw('seq', e(i)), EMPTY)


def divisors(t, listed=True):
    """t with every set of divisors in one form: as many ways to list them as there are, in whatever order"""
    if not any(x.op == 'mod' for x in subterms(t)):
        return t

    def f(x):
        if x.op == 'uset':
            d = all_divisors(x.a[0])
            if not listed:
                return d and raw('uset', d)
            return d or (x.a[0] if divisor_list(x.a[0]) else None)
        if not listed:
            return None
        if x.op == 'sorted' and x.a[1] is NONE and divisor_list(x.a[0]):
            return x.a[0]
    try:
        return rewrite(t, f)
    except (TooBig, RecursionError):
        return t


def _conds(tree):
    out, st, seen = set(), [tree], set()
    while st:
        t = st.pop()
        if t.op == 'ite' and t not in seen:
            seen.add(t)
            out.add(t.a[0])
            st += [t.a[1], t.a[2]]
    return out


def _equals_used(tree, dep):
    """where a condition says that a value of the round is some value known before, conditions further in speak of the latter"""
    atoms, st, seen = [], [tree], set()
    while st:
        t = st.pop()
        if t.op != 'ite' or t in seen:
            continue
        seen.add(t)
        if t.a[0].op == 'eq' and t.a[0] not in atoms:
            atoms.append(t.a[0])
        st += [t.a[1], t.a[2]]
    for A in atoms:
        X, Y = A.a
        if not X.fv & dep:
            X, Y = Y, X
        if not X.fv & dep or Y.fv & dep or X.op == 'v' or A not in _conds(tree):
            continue

        def sub(t):
            if t.op != 'ite':
                return t
            return mk_ite(cond(replace(t.a[0], X, Y)), sub(t.a[1]), sub(t.a[2]))
        hi, lo = _restrict1(tree, A, True), _restrict1(tree, A, False)
        tree = mk_ite(A, sub(hi), lo)
    return tree


def settled(t):
    """t with conditions that do not change from round to round asked before the loop"""
    if not any(x.op in ('fold', 'comp') for x in subterms(t)):
        return t

    def f(x):
        if x.op == 'comp' and x.a[2 + x.a[1]].op == 'ite':
            cl, tree = open_comp(x)
            new = _equals_used(tree, {v.a[0] for v, _ in cl})
            return x if new is tree else mk_comp(cl, new)
        if x.op != 'fold':
            return None
        k, n = x.a[1], x.a[2]
        names = bound_names(x)
        if len(names) != k + n:
            return None
        fr = [fresh() for _ in names]
        m = dict(zip(names, fr))
        b = [subst(y, m) if isinstance(y, T) else y for y in x.a[3:]]
        Ls, inits, ups, stop = b[:k], list(x.a[3 + k:3 + k + n]), b[k + n:k + 2 * n], b[k + 2 * n]
        dep = {v.a[0] for v in fr}
        ups = [_equals_used(u, dep) for u in ups]
        stop = _equals_used(stop, dep)
        c = next((c for c in (_inv_atom(u, dep) for u in ups + [stop]) if c is not None), None)

        def fold(us, sp):
            return mk_fold(list(zip(fr[:k], Ls)), list(zip(fr[k:], inits, us)), sp, x.a[-1])
        if c is None:
            return fold(ups, stop)
        return mk_ite(c, fold([_restrict1(u, c, True) for u in ups], _restrict1(stop, c, True)),
                      fold([_restrict1(u, c, False) for u in ups], _restrict1(stop, c, False)))
    try:
        for _ in range(3):
            r = rewrite(t, f)
            if r is t:
                break
            t = r
        return t
    except (TooBig, RecursionError):
        return t


@lifted
def mk_without(d, k):
    if d.op == 'dictof':
        return mk_dictof(comp_over(d.a[0], lambda p: mk_ite(mk_eq(mk_at(p, C(0)), k), EMPTY, raw('seq', e(p)))))
    if d.op == 'dict':
        return raw('dict', *[y for j in range(0, len(d.a), 2) if d.a[j] is not k for y in d.a[j:j + 2]])
    return raw('without', d, k)


@lifted
def mk_dictof(P):
    P = unwrap_seq(P)
    if P.op in ('dictof', 'dict'):
        return P
    if P.op == 'seq' and all(i.op == 'e' and i.a[0].op == 'tup' and len(i.a[0].a) == 2 for i in P.a):
        return raw('dict', *[y for i in P.a for y in i.a[0].a])
    if P.op == 'm' and P.a[0] == 'items':
        return P.a[1]
    return raw('dictof', P)


@lifted
def mk_dstore(d, k, v):
    if v is NONE and (d.op == 'uset' or (d.op == 'dict' and not d.a)):
        base = d.a[0] if d.op == 'uset' else EMPTY
        return raw('uset', mk_concat(base, raw('seq', e(k))))
    if d.op == 'dict' and is_c(k) and all(is_c(x) for x in d.a[0::2]):
        out = []
        done = False
        for j in range(0, len(d.a), 2):
            if d.a[j] is k:
                out += [k, v]
                done = True
            else:
                out += [d.a[j], d.a[j + 1]]
        if not done:
            out += [k, v]
        return raw('dict', *out)
    if v is NONE:
        return mk_upd(d, raw('seq', e(k)))
    return raw('dstore', d, k, v)


def mk_upd(d, S):
    """the set d (or dict used as a set) with the members S added"""
    if d.op == 'ite' or S.op == 'ite':
        return lift([d, S], lambda a: mk_upd(a[0], a[1]))
    S = unwrap_seq(S)
    if S is EMPTY:
        return d
    if d.op == 'uset':
        return mk_uset(mk_concat(d.a[0], S))
    if d.op == 'dict' and not d.a:
        return mk_uset(S)
    if d.op == 'upd':
        return raw('upd', d.a[0], mk_concat(d.a[1], S))
    return raw('upd', d, S)


@lifted
def mk_scatter(base, idx, v):
    """base with base[i]=v for every i of idx (a sequence term)"""
    idx = unwrap_seq(idx)
    if idx is EMPTY:
        return base
    return raw('scatter', base, idx, v)


def items_of(t):
    """the dict whose (key, value) pairs t lists, in whatever order"""
    while t.op == 'sorted':
        t = t.a[0]
    return t.a[1] if t.op == 'm' and t.a[0] == 'items' and len(t.a) == 2 else None


def mk_tup(*a):
    if len(a) == 2 and a[0].op == 'at' and a[1].op == 'at' and a[0].a[1] is C(0) and a[1].a[1] is C(1) \
            and a[0].a[0] is a[1].a[0] and a[0].a[0].op == 'at' and items_of(a[0].a[0].a[0]) is not None:
        return a[0].a[0]
    if any(x.op == 'ite' for x in a):
        return lift(list(a), lambda b: mk_tup(*b))
    return raw('tup', *a)


def distinct_keys(P):
    """no two of the (key, value) pairs P have the same key"""
    P = unwrap_seq(P)
    if P.op in ('sorted', 'slice'):
        return distinct_keys(P.a[0])
    if P.op != 'comp':
        return P.op == 'm' and P.a[0] == 'items' or P.op == 'f' and P.a[0] == 'builtins.enumerate'
    cl, tr = open_comp(P)
    vs = [v for v, _ in cl]
    for x in leaves(tr):
        le = leaf_emit(x)
        if le[0] == 'none':
            continue
        if le[0] != 'one':
            return False
        if not injective(mk_at(le[1], C(0)), vs):
            return False
    return True


def injective(k, vs):
    """different values of the loop variables vs give different k"""
    left = set(vs)

    def go(t):
        if t in left:
            left.discard(t)
        elif t.op == 'tup':
            for x in t.a:
                go(x)
        elif t.op == 'at' and t.a[1] in left and distinct_members(t.a[0]):
            left.discard(t.a[1])
        elif t.op == 'at' and t.a[1] is C(0) and t.a[0].op == 'at' and t.a[0].a[1] in left and distinct_keys(t.a[0].a[0]):
            left.discard(t.a[0].a[1])
    go(k)
    return not left


def distinct_members(X):
    X = unwrap_seq(X)
    if X.op == 'sorted':
        return distinct_members(X.a[0])
    if X.op in ('uset', 'dictof', 'dict', 'upd'):
        return True
    if X.op == 'f' and X.a[0] in ('numpy.unique', 'itertools.combinations', 'itertools.product', 'itertools.permutations'):
        return X.a[0] == 'numpy.unique' or distinct_members(X.a[1])
    if X.op == 'm' and X.a[0] in ('keys', 'items'):
        return True
    if X.op == 'comp':
        cl, tr = open_comp(X)
        return all(leaf_emit(x)[0] == 'none' or leaf_emit(x)[0] == 'one' and injective(leaf_emit(x)[1], [v for v, _ in cl])
                   for x in leaves(tr))
    return False


def mk_items(d):
    if d.op == 'ite':
        return lift([d], lambda a: mk_items(a[0]))
    if d.op == 'dictof' and distinct_keys(d.a[0]):
        return d.a[0]
    if d.op == 'without':
        return comp_over(mk_items(d.a[0]), lambda p: mk_ite(mk_eq(mk_at(p, C(0)), d.a[1]), EMPTY, raw('seq', e(p))))
    if d.op == 'dict':
        return raw('seq', *[e(raw('tup', d.a[j], d.a[j + 1])) for j in range(0, len(d.a), 2)])
    return raw('m', 'items', d)


def mk_keys(d):
    if d.op == 'ite':
        return lift([d], lambda a: mk_keys(a[0]))
    if d.op in ('dictof', 'dict'):
        return mk_map(mk_items(d), lambda p: mk_at(p, C(0)))
    return d


def mk_values(d):
    if d.op == 'ite':
        return lift([d], lambda a: mk_values(a[0]))
    if d.op in ('dictof', 'dict'):
        return mk_map(mk_items(d), lambda p: mk_at(p, C(1)))
    return mk_map(raw('m', 'items', d), lambda p: mk_at(p, C(1)))


@lifted
def mk_round(x, d):
    if x.op == 'arr' and len(x.a) == 1 and x.a[0].op not in ('seq', 'comp', 'tup'):
        x = x.a[0]
    return raw('round', x, d)


@lifted
def mk_arr(x):
    if x.op in ('arr', 'round', 'mm', 'T', 'inv', 'sel', 'nz', 'scatter', 'vmap', 'lexsort', 'flat') and True:
        return x
    if x.op == 'attr' and x.a[1] in ('positions', 'numbers', 'lattice'):
        return x
    if x.op == 'astuple':
        x = x.a[0]
    if x.op == 'tup':
        x = raw('seq', *[e(y) for y in x.a])
    if x.op == 'comp' and x.a[1] == 1 and leaf_emit(x.a[3])[0] == 'one':
        cl, tr = open_comp(x)
        (v, L), = cl
        M = rows(leaf_emit(tr)[1], v, L)
        if M is not None:
            return M
    return raw('arr', x)


MATRICES = ('positions', 'lattice', '_positions', '_lattice', 'rotations')


def is_mat(t):
    """certainly an array of two dimensions"""
    t = strip_arr(t)
    if t.op == 'attr':
        return t.a[1] in MATRICES
    if t.op in ('T', 'inv'):
        return is_mat(t.a[0])
    if t.op == 'mm':
        return all(is_mat(x) for x in t.a)
    if t.op == 'at' and t.a[0].op == 'at' and t.a[0].a[1] is C('rotations'):
        return True
    return t.op == 'at' and t.a[0].op == 'at' and t.a[0].a[0].op == 'f' and t.a[0].a[0].a[0].startswith('spglib.get_symm') \
        and t.a[0].a[1] is C('rotations')


def is_row(t):
    """certainly a number or an array of one dimension"""
    t = strip_arr(t)
    if num(t):
        return True
    if t.op == 'at':
        return is_mat(t.a[0]) or t.a[0].op == 'at' and t.a[0].a[1] is C('translations')
    if t.op == 'mm':
        n = [is_mat(x) for x in t.a]
        return n.count(False) == 1 and not (n[0] and n[-1]) and is_row(t.a[n.index(False)])
    return False


def rows(t, v, L):
    """the array whose rows are t for v below L"""
    while t.op in ('astuple', 'tolist'):
        t = t.a[0]
    t = strip_arr(t)
    if v.a[0] not in t.fv:
        return None
    if t.op == 'at' and t.a[1] is v and v.a[0] not in t.a[0].fv and is_mat(t.a[0]) and mk_len(t.a[0]) is L:
        return strip_arr(t.a[0])
    if t.op == 'round' and v.a[0] not in t.a[1].fv:
        M = rows(t.a[0], v, L)
        return None if M is None else mk_round(M, t.a[1])
    if t.op == 'mm':
        n = [v.a[0] in x.fv for x in t.a]
        if n.count(True) != 1:
            return None
        i = n.index(True)
        M = rows(t.a[i], v, L)
        if M is None or not all(is_mat(x) for j, x in enumerate(t.a) if j != i):
            return None
        if i == 0:
            return mk_mm(M, *t.a[1:])
        if i == len(t.a) - 1:
            return mk_mm(M, *[mk_T(x) for x in reversed(t.a[:-1])])
        return None
    if t.op == 'poly':
        out = {}
        for m, c in _topoly(t).items():
            vs = [(b, k) for b, k in m if v.a[0] in b.fv]
            if not vs:
                if not all(is_row(b) for b, _ in m):
                    return None
                out[m] = out.get(m, 0) + c
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            M = rows(m[0][0], v, L)
            if M is None:
                return None
            for n, d in _topoly(M).items():
                out[n] = out.get(n, 0) + c * d
        return _frompoly(out)
    return None


def vec1(t):
    """one number per site"""
    if t.op in ('slice', 'rev'):
        return vec1(t.a[0])
    if t.op == 'at' and t.a[0].op == 'attr' and t.a[0].a[1] == 'spg_cell':
        return t.a[1] is C(2)
    return t.op == 'attr' and t.a[1] in ('numbers', 'unumbers', '_atom_numbers')


def scalar_test(x):
    return x.op in ('is', 'isinst', 'truthy', 'hasattr') or x.op in ('lt', 'le', 'eq', 'ne') and all(is_scalar(y) for y in x.a)


def mk_nz(m):
    """indices at which the mask m is set"""
    t = unbox(m)
    if t.op == 'ite' and is_bool(t):
        # an equation of arrays is a mask, not a case: only cases are told apart
        sc = sorted([x for x in conds_of(t) if scalar_test(x)], key=_akey)
        if sc:
            a, b = restrict(t, sc[0]), restrict(t, mk_not(sc[0]))
            return mk_ite(sc[0], mk_nz(a), mk_nz(b))
        return raw('nz', raw('box', t))
    return _nz1(t)


def conds_of(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if x.op == 'ite' and x.a[0] not in out:
            out.add(x.a[0])
        if x.op == 'ite':
            st += [x.a[1], x.a[2]]
    return out


@lifted
def _nz1(m):
    if m.op in ('eq', 'ne', 'lt', 'le') and vec1(m.a[0]) != vec1(m.a[1]):
        X, y = (m.a[0], m.a[1]) if vec1(m.a[0]) else (m.a[1], m.a[0])
        if y.op in ('c', 'attr', 'arg', 'at') and not (y.op == 'attr' and y.a[1] in SITE_ATTRS):
            v = fresh()
            f = {'eq': mk_eq, 'ne': mk_ne, 'lt': mk_lt, 'le': mk_le}[m.op]
            g = f(mk_at(X, v), y) if X is m.a[0] else f(y, mk_at(X, v))
            return mk_comp([(v, mk_len(X))], mk_ite(cond(g), raw('seq', e(v)), EMPTY))
    return raw('nz', m)


@lifted
def mk_size(x):
    if x.op in ('nz',) or (x.op == 'attr' and x.a[1] in ('numbers', 'unumbers')):
        return mk_len(x)
    if x.op == 'scatter' or x.op == 'at' and x.a[1].op == 'lexsort':
        return mk_size(x.a[0])
    if x.op == 'at' and x.a[1] is C(2) and (x.a[0].op == 'f' and x.a[0].a[0].startswith('spglib.') or
                                            x.a[0].op == 'attr' and x.a[0].a[1] in ('spg_cell', 'unit_cell')):
        return mk_len(x)            # the numbers of a cell: one per site
    if x.op == 'comp' and x.a[1] == 1:
        cl, tr = open_comp(x)
        if all(le[0] == 'none' or le[0] == 'one' and le[1] is cl[0][0] for le in map(leaf_emit, leaves(tr))):
            return mk_len(x)        # a list of indices
    return raw('size', x)


@lifted
def mk_astuple(x):
    if x.op in ('tup', 'astuple'):
        return x
    if x.op == 'seq' and all(i.op == 'e' for i in x.a):
        return raw('tup', *[i.a[0] for i in x.a])
    return raw('astuple', x)


def _index_used(t, X, v):
    """does t use v otherwise than in X[v]?"""
    p = mk_at(X, v)
    return v.a[0] in replace(t, p, C(0)).fv


def mk_sorted(S, key, reverse):
    if S.op == 'ite':
        return lift([S], lambda a: mk_sorted(a[0], key, reverse))
    S = unwrap_seq(S)
    if S.op == 'without' or S.op == 'f' and S.a[0] in ('json.load', 'collections.Counter', 'collections.OrderedDict'):
        S = mk_map(mk_items(S), lambda p: mk_at(p, C(0)))
    if S.op == 'comp' and S.a[1] == 1:
        # the stable order of a selection is the selection of the stable order
        cl, tr = open_comp(S)
        (v, L), = cl
        els = {leaf_emit(x) for x in leaves(tr)}
        one = [x[1] for x in els if x[0] == 'one']
        if len(one) == 1 and one[0].op == 'at' and one[0].a[1] is C(0) and len(els) == 1 + (('none',) in els) \
                and reverse is FALSE and one[0].a[0].op == 'at' and one[0].a[0].a[1] is v and key.op == 'lam':
            # keys put in order by what is computed from them: the items put in order by their keys
            X = one[0].a[0].a[0]
            if items_of(X) is not None and L is mk_len(X) and not _index_used(tr, X, v):
                w = fresh()
                Y = mk_sorted(X, mk_lam([w], app_lam(key, [mk_at(w, C(0))])), reverse)
                w = fresh()
                return mk_comp([(w, mk_len(Y))], replace(tr, mk_at(X, v), mk_at(Y, w)))
        if tr.op == 'ite':
            X = {x[1].a[0] for x in els if x[0] == 'one' and x[1].op == 'at' and x[1].a[1] is v}
            if len(els) == 2 and len(X) == 1 and ('none',) in els:
                X, = X
                if L is mk_len(X) and v not in subterms(X) and not _index_used(tr, X, v):
                    Y = mk_sorted(X, key, reverse)
                    w = fresh()
                    return mk_comp([(w, mk_len(Y))], replace(tr, mk_at(X, v), mk_at(Y, w)))
    if key is not NONE and key.op == 'lam' and key.a[2].op == 'v':
        key = NONE
    return raw('sorted', S, key, reverse)


# ---- generic rebuild -------------------------------------------------------
def build(op, *a):
    f = _BUILD.get(op)
    if f is not None:
        return f(*a)
    if op in NOLIFT:
        return raw(op, *a)
    if BOX[0] and op in SINK and op != 'io':
        return raw(op, *[mk_box(unbox(x)) if isinstance(x, T) else x for x in a])
    for x in a:
        if isinstance(x, T) and x.op == 'ite':
            return lift(a, lambda b: apply_const(op, b))
    return apply_const(op, a)


CONST_M = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'title', 'capitalize', 'isdigit', 'isalpha'}


def apply_const(op, a):
    """an operation on strings; of constant strings, its value"""
    if op == 'lexsort' and isinstance(a[0], T) and a[0].op in ('tup', 'astuple'):
        return raw('lexsort', unwrap_seq(a[0]))
    if op == 'm' and len(a) > 1 and a[0] in CONST_M and all(is_c(x) and isinstance(x.a[0], str) for x in a[1:]):
        return C(getattr(a[1].a[0], a[0])(*[x.a[0] for x in a[2:]]))
    if op == 'f' and len(a) > 1 and all(isinstance(x, T) and is_c(x) and isinstance(x.a[0], str) for x in a[1:]):
        if a[0] == 'os.path.basename' and len(a) == 2:
            return C(a[1].a[0].rpartition('/')[2])
        if a[0] == 'fnmatch.fnmatch' and len(a) == 3:
            import fnmatch
            return C(fnmatch.fnmatchcase(a[1].a[0], a[2].a[0]))
    return raw(op, *a)


NOLIFT = {'e', 's', 'ewand', 'ewor', 'ewnot', 'lam', 'bot', 'st', 'fmt', 'mono'}


def _b_ite(x, hi, lo):
    return mk_ite(cond(x), hi, lo)


def _b_poly(*a):
    r = C(0)
    for i in range(0, len(a), 2):
        m = a[i + 1]
        t = C(_unfrac(Fraction(a[i])))
        # keep exact coefficient
        p = None
        if m.op != 'mono':
            p = mk_mul(t, m)
        else:
            p = t
            for j in range(0, len(m.a), 2):
                p = mk_mul(p, mk_powi(m.a[j], m.a[j + 1]) if m.a[j + 1] != 1 else m.a[j])
        r = mk_add(r, p)
    return r


def _b_mono(*a):
    # normalised inside poly
    for x in a:
        if isinstance(x, T) and x.op == 'ite':
            break
    return raw('mono', *a)


def _b_any(c):
    if c.op == 'ite':
        return lift([c], lambda a: _b_any(a[0]))
    if c.op == 'comp':
        cl, tr = open_comp(c)
        g = map_tree(tr, lambda x: FALSE if leaf_emit(x)[0] == 'none' else TRUE)
        return mk_any_g(cl, g)
    return _any_node(c)


def _b_truthy(x):
    t = cond(x)
    return _fin(t) if t.op == 'ite' else t


_BUILD = {
    'ite': _b_ite, 'tup': mk_tup, 'poly': _b_poly, 'mono': _b_mono, 'any': _b_any, 'truthy': _b_truthy,
    'lt': mk_lt, 'le': mk_le, 'eq': mk_eq, 'ne': mk_ne, 'is': mk_is, 'in': mk_in,
    'fdiv': mk_fdiv, 'mod': mk_mod, 'mm': mk_mm, 'T': mk_T, 'inv': mk_inv,
    'str': lambda *a: mk_str(list(a)), 'join': mk_join,
    'seq': lambda *a: mk_seq(list(a)), 'len': mk_len, 'at': mk_at, 'item': mk_item,
    'attr': mk_attr, 'sum': mk_sum, 'uset': mk_uset, 'without': mk_without, 'dictof': mk_dictof,
    'dstore': mk_dstore, 'scatter': mk_scatter, 'round': mk_round, 'arr': lambda *a: mk_arr(*a) if len(a) == 1 else raw('arr', *a),
    'delitem': mk_delitem, 'nz': mk_nz, 'size': mk_size, 'astuple': mk_astuple, 'sorted': mk_sorted, 'rep': mk_rep,
    'pow': lambda b, e_: mk_powi(b, e_),
}


def _slice_b(X, a_, b, c):
    return mk_item(X, raw('slc', a_, b, c))


_BUILD['slice'] = _slice_b
_BUILD['box'] = lambda t: mk_box(unbox(t))

_init()


# ---- inspection ------------------------------------------------------------
def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


def show(t, depth=14):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = t.op, t.a
    if o == 'c':
        return repr(a[0])
    if o == 'v':
        return a[0]
    if o == 'arg':
        return 'arg%s' % a[0] if isinstance(a[0], int) else str(a[0])
    if o == 'self':
        return 'self'
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'at':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d) for x in a)
    if o == 'tup':
        return '(%s)' % ', '.join(show(x, d) for x in a)
    if o == 'seq':
        return '[%s]' % ', '.join(('*' if x.op == 's' else '') + show(x.a[0], d) for x in a)
    if o == 'comp':
        k = a[1]
        nm = bound_names(t)
        return '[%s for %s]' % (show(a[2 + k], d), ' for '.join('%s<%s' % (n, show(L, d)) for n, L in zip(nm, a[2:2 + k])))
    if o == 'lam':
        return '\\%s. %s' % (' '.join(bound_names(t)), show(a[2], d))
    if o == 'poly':
        out = []
        for i in range(0, len(a), 2):
            m = a[i + 1]
            f = '*'.join(show(m.a[j], d) + ('' if m.a[j + 1] == 1 else '^%d' % m.a[j + 1]) for j in range(0, len(m.a), 2))
            out.append((a[i] + '*' if a[i] != '1' or not f else '') + f if f else a[i])
        return '(' + ' + '.join(out) + ')'
    if o in ('f', 'm', 'api', 'new', 'g', 'class', 'rand', 'io'):
        return '%s:%s(%s)' % (o, a[0], ', '.join(show(x, d) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
