"""Meaning of the library functions the package uses (normal forms)."""
from terms import *
import terms as tm

ALIAS = {
    'numpy.round': 'numpy.around', 'numpy.round_': 'numpy.around', 'numpy.max': 'numpy.amax',
    'numpy.min': 'numpy.amin', 'numpy.asarray': 'numpy.array', 'numpy.dot': 'numpy.matmul',
    'numpy.asanyarray': 'numpy.array', 'numpy.ascontiguousarray': 'numpy.array',
    'numpy.float': 'builtins.float', 'numpy.int': 'builtins.int', 'numpy.remainder': 'numpy.mod',
    'collections.abc.Counter': 'collections.Counter', 'math.pow': 'builtins.pow',
    'numpy.absolute': 'builtins.abs', 'numpy.abs': 'builtins.abs', 'numpy.product': 'numpy.prod',
    'numpy.linalg.linalg.inv': 'numpy.linalg.inv', 'numpy.alltrue': 'numpy.all',
    'itertools.izip': 'builtins.zip', 'copy.copy': 'copy.deepcopy', 'numpy.copy': 'copy.deepcopy',
    'fnmatch.fnmatchcase': 'fnmatch.fnmatchcase', 'numpy.diagonal': 'numpy.diagonal',
    'numpy.float64': 'builtins.float', 'posixpath.join': 'os.path.join', 'numpy.sqrt': 'math.sqrt',
    'math.fabs': 'builtins.abs', 'numpy.flatnonzero': 'numpy.flatnonzero',
}


def canon_path(p):
    if p.startswith('np.'):
        p = 'numpy.' + p[3:]
    return ALIAS.get(p, p)


RANDOM = {'random.choices', 'random.choice', 'random.randint', 'numpy.random.randn', 'numpy.random.randint',
          'random.random', 'random.sample', 'uuid.uuid4', 'os.urandom', 'secrets.token_hex'}
FRESH = {'tempfile.NamedTemporaryFile', 'tempfile.mkstemp', 'tempfile.mkdtemp'}
IO_CALLS = {'os.makedirs', 'os.mkdir', 'shutil.rmtree', 'os.remove', 'os.unlink', 'os.rename', 'os.rmdir',
            'os.removedirs', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'os.replace', 'sys.exit',
            'os.chdir', 'os.system', 'os.renames', 'shutil.copytree'} | FRESH
IO_METHODS = {'write_file', 'write', 'run', 'rmtree', 'dump'}
SIG = {'spglib.get_symmetry': ['cell', 'symprec'], 'spglib.get_spacegroup': ['cell', 'symprec'],
       'spglib.get_symmetry_dataset': ['cell', 'symprec'], 'spglib.find_primitive': ['cell', 'symprec'],
       'spglib.standardize_cell': ['cell', 'to_primitive', 'no_idealize', 'symprec'], 'spglib.refine_cell': ['cell', 'symprec'],
       'itertools.combinations': ['iterable', 'r'], 'fnmatch.fnmatch': ['name', 'pat'],
       'numpy.concatenate': ['arrays', 'axis'], 'numpy.all': ['a', 'axis'], 'numpy.any': ['a', 'axis'],
       'numpy.amax': ['a', 'axis'], 'numpy.amin': ['a', 'axis'], 'numpy.sum': ['a', 'axis'], 'numpy.mean': ['a', 'axis'],
       'numpy.repeat': ['a', 'repeats', 'axis'],
       'numpy.allclose': ['a', 'b', 'rtol', 'atol'], 'scipy.spatial.distance.pdist': ['X', 'metric'],
       'open': ['file', 'mode'], 'builtins.open': ['file', 'mode'], 'json.load': ['fp']}
DEFAULTS = {('spglib.' + f, n): v for f in ('get_symmetry', 'get_spacegroup', 'get_symmetry_dataset', 'find_primitive',
                                            'standardize_cell', 'refine_cell')
            for n, v in (('symprec', 1e-05), ('angle_tolerance', -1.0), ('to_primitive', False), ('no_idealize', False))}
DEFAULTS.update({('tempfile.NamedTemporaryFile', 'mode'): 'w+b', ('tempfile.NamedTemporaryFile', 'suffix'): None,
                 ('numpy.concatenate', 'axis'): 0, ('os.makedirs', 'mode'): 0o777, ('os.makedirs', 'exist_ok'): False,
                 ('numpy.repeat', 'axis'): None, ('numpy.all', 'axis'): None, ('numpy.any', 'axis'): None,
                 ('numpy.sum', 'axis'): None, ('numpy.mean', 'axis'): None,
                 ('numpy.amax', 'axis'): None, ('numpy.amin', 'axis'): None, ('open', 'mode'): 'r',
                 ('builtins.open', 'mode'): 'r', ('scipy.spatial.distance.pdist', 'metric'): 'euclidean',
                 ('numpy.allclose', 'rtol'): 1e-05, ('numpy.allclose', 'atol'): 1e-08})
INLINE_CTOR = set()
INLINE_FUNCS = {'ababe.stru.sogen:numbers2id'}

KNOWN_F = {
    'itertools.combinations', 'itertools.permutations', 'itertools.combinations_with_replacement', 'itertools.zip_longest',
    'itertools.count', 'itertools.islice', 'numpy.array_equal', 'numpy.allclose', 'numpy.isclose', 'numpy.all', 'numpy.any', 'numpy.isfinite', 'numpy.isnan',
    'numpy.amax', 'numpy.amin', 'numpy.argwhere', 'numpy.where', 'numpy.repeat', 'numpy.tile', 'numpy.concatenate',
    'numpy.reshape', 'numpy.unique', 'numpy.sort', 'numpy.argsort', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.diag',
    'numpy.linalg.det', 'numpy.linalg.norm', 'numpy.identity', 'numpy.eye', 'numpy.load', 'numpy.floor', 'numpy.ceil',
    'numpy.mean', 'numpy.cross', 'numpy.sum', 'numpy.trunc', 'numpy.rint', 'numpy.flip', 'numpy.prod',
    'builtins.int', 'builtins.float', 'builtins.abs', 'builtins.repr', 'builtins.range', 'builtins.input', 'builtins.hash',
    'builtins.id', 'builtins.ord', 'builtins.chr', 'builtins.callable', 'builtins.hasattr', 'builtins.pow',
    'math.sqrt', 'math.floor', 'math.ceil', 'pow', 'astype', 'math.isclose', 'math.gcd', 'math.trunc',
    'collections.Counter', 'collections.defaultdict', 'collections.deque', 'fnmatch.fnmatch', 'fnmatch.fnmatchcase',
    'os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.exists', 'os.path.splitext', 'os.path.abspath',
    'os.path.isdir', 'os.path.isfile', 'os.getcwd', 'os.path.split', 'os.path.expanduser',
    'spglib.get_symmetry', 'spglib.get_spacegroup', 'spglib.get_symmetry_dataset', 'spglib.find_primitive',
    'spglib.standardize_cell', 'spglib.refine_cell', 'spglib.niggli_reduce', 'spglib.delaunay_reduce',
    'scipy.spatial.cKDTree', 'scipy.spatial.KDTree', 'scipy.spatial.distance.pdist', 'scipy.spatial.distance.cdist',
    'scipy.special.comb', 'json.load', 'json.loads', 'yaml.load', 'yaml.safe_load', 'progressbar.ProgressBar',
    'ruamel.yaml.comments.CommentedMap', 'ruamel.yaml.dump', 'ruamel.yaml.YAML', 'time.time',
}
KNOWN_M = {'startswith', 'endswith', 'split', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'format', 'find',
           'rfind', 'index', 'count', 'isdigit', 'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'partition', 'rpartition',
           'keys', 'items', 'values', '__str__', '__eq__', '__len__', 'tolist', 'reshape', 'query_ball_point', 'query_pairs',
           'query', 'most_common', 'elements', 'diagonal', 'read', 'readlines', 'readline', 'nonzero', 'difference',
           'intersection', 'issubset', 'union', 'flatten', 'dump', 'load', 'getvalue'}

EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def _m(I, x, st):
    return I.mat(x, st)


@ext('builtins.len')
def _(I, a, kw, st):
    o = a[0]
    cls = I.class_of(o, st)
    if cls is not None and o.op in ('self',):
        f = cls.find('__len__')
        if f is not None and not I._busy(f):
            return I.call_func(f, [o], {}, st)
    return mk_len(I.deep_rv(o, st))


@ext('builtins.range')
def _(I, a, kw, st):
    return mk_range(*[I.deep_rv(x, st) for x in a])


@ext('builtins.list', 'builtins.iter')
def _(I, a, kw, st):
    if not a:
        return EMPTY
    S = I.iter_src(I.deep_rv(a[0], st), st)
    return S


@ext('builtins.tuple')
def _(I, a, kw, st):
    if not a:
        return raw('tup')
    return mk_astuple(I.deep_rv(a[0], st))


@ext('builtins.set', 'builtins.frozenset')
def _(I, a, kw, st):
    if not a:
        return mk_uset(EMPTY)
    return mk_uset(I.deep_rv(a[0], st))


@ext('builtins.dict', 'collections.OrderedDict')
def _(I, a, kw, st):
    d = raw('dict')
    if a:
        d = mk_dictof(I.deep_rv(a[0], st))
    for k in kw:
        d = mk_dstore(d, C(k), I.mat(kw[k], st))
    return d


@ext('builtins.enumerate')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[0], st), st)
    start = I.deep_rv(a[1], st) if len(a) > 1 else I.deep_rv(kw['start'], st) if 'start' in kw else C(0)
    return _enum(S, start)


def _enum(S, start):
    if S.op == 'ite':
        return lift([S], lambda x: _enum(x[0], start))
    v = fresh()
    return mk_comp([(v, mk_len(S))], raw('seq', e(raw('tup', mk_add(start, v), mk_at(S, v)))))


@ext('builtins.zip')
def _(I, a, kw, st):
    if any(x.op == 'star' for x in a):
        return None
    Ss = [I.iter_src(I.deep_rv(x, st), st) for x in a]
    return _zip(Ss)


def _zip(Ss):
    if any(S.op == 'ite' for S in Ss):
        return lift(Ss, lambda x: _zip(list(x)))
    v = fresh()
    Ls = []
    for S in Ss:
        L = mk_len(S)
        if S.op == 'f' and S.a[0] == 'itertools.count':
            continue
        if L not in Ls:
            Ls.append(L)
    L = Ls[0] if len(Ls) == 1 else raw('minlen', *sorted(Ls, key=lambda t: t.dig))
    els = []
    for S in Ss:
        if S.op == 'f' and S.a[0] == 'itertools.count':
            els.append(mk_add(S.a[1] if len(S.a) > 1 else C(0), v))
        else:
            els.append(mk_at(S, v))
    return mk_comp([(v, L)], raw('seq', e(raw('tup', *els))) if not any(x.op == 'ite' for x in els)
                   else lift(els, lambda x: raw('seq', e(raw('tup', *x)))))


@ext('builtins.map')
def _(I, a, kw, st):
    if len(a) == 2:
        S = I.iter_src(I.deep_rv(a[1], st), st)
        return comp_scope(I, S, lambda x: mk_seq([e(I.deep_rv(I.call_value(I.rv(a[0], st), [x], {}, st), st))]))
    Ss = [I.iter_src(I.deep_rv(x, st), st) for x in a[1:]]
    Z = _zip(Ss)
    n = len(Ss)
    return comp_scope(I, Z, lambda x: mk_seq([e(I.deep_rv(I.call_value(I.rv(a[0], st), [mk_at(x, C(i)) for i in range(n)], {}, st), st))]))


def comp_scope(I, S, f):
    return comp_over(S, f)


@ext('builtins.filter')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[1], st), st)
    f = I.rv(a[0], st)
    return comp_over(S, lambda x: mk_ite(cond(x if f is NONE else I.deep_rv(I.call_value(f, [x], {}, st), st)), mk_seq([e(x)]), EMPTY))


@ext('itertools.filterfalse')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[1], st), st)
    f = I.rv(a[0], st)
    return comp_over(S, lambda x: mk_ite(cond(I.deep_rv(I.call_value(f, [x], {}, st), st)), EMPTY, mk_seq([e(x)])))


@ext('itertools.product')
def _(I, a, kw, st):
    if any(x.op == 'star' for x in a):
        return None
    rep = 1
    if 'repeat' in kw:
        r = I.deep_rv(kw['repeat'], st)
        if not num(r):
            return None
        rep = r.a[0]
    Ss = [I.iter_src(I.deep_rv(x, st), st) for x in a] * rep
    return _prod(Ss, ())


def _prod(Ss, acc):
    if not Ss:
        return mk_seq([e(raw('tup', *acc) if not any(x.op == 'ite' for x in acc) else lift(list(acc), lambda q: raw('tup', *q)))])
    return comp_over(Ss[0], lambda x: _prod(Ss[1:], acc + (x,)))


@ext('itertools.chain')
def _(I, a, kw, st):
    r = EMPTY
    for x in a:
        r = mk_concat(r, I.iter_src(I.deep_rv(x, st), st))
    return r


@ext('itertools.chain.from_iterable')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[0], st), st)
    return comp_over(S, lambda x: unwrap_seq(x))


@ext('functools.reduce')
def _(I, a, kw, st):
    f = I.rv(a[0], st)
    S = I.iter_src(I.deep_rv(a[1], st), st)
    if f.op == 'g' and f.a[0] in ('builtins.list.__add__', 'operator.add', 'operator.concat', 'operator.iadd'):
        init = I.deep_rv(a[2], st) if len(a) > 2 else EMPTY
        if S.op == 'comp':
            cl, tr = open_comp(S)
            if all(leaf_emit(x)[0] == 'none' or (leaf_emit(x)[0] == 'one' and kind(leaf_emit(x)[1]) in ('seq', 'tuple')) for x in leaves(tr)):
                return mk_concat(init, comp_over(S, lambda x: unwrap_seq(x)))
    if f.op in ('fn', 'lam'):
        acc, x = fresh(), fresh()
        b = I.deep_rv(I.call_value(f, [acc, x], {}, st), st)
        if b is mk_concat(acc, x) or b is mk_add(acc, x):
            init = I.deep_rv(a[2], st) if len(a) > 2 else EMPTY
            if kind(init) == 'seq':
                return mk_concat(init, comp_over(S, lambda q: unwrap_seq(q)))
    return None


@ext('builtins.sorted')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[0], st), st)
    key = NONE
    if 'key' in kw:
        k = I.rv(kw['key'], st)
        if k is not NONE:
            key = I.to_lam(k, st, 1)
    rev = I.deep_rv(kw['reverse'], st) if 'reverse' in kw else FALSE
    if I.bag:
        return S
    return mk_sorted(S, key, rev)


@ext('builtins.reversed')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[0], st), st)
    if I.bag:
        return S
    if S.op == 'seq' and all(i.op == 'e' for i in S.a):
        return raw('seq', *reversed(S.a))
    if S.op == 'rev':
        return S.a[0]
    return lift([S], lambda x: raw('rev', x[0]))


@ext('builtins.any')
def _(I, a, kw, st):
    return mk_any(I.iter_src(I.deep_rv(a[0], st), st))


@ext('builtins.all')
def _(I, a, kw, st):
    return mk_all(I.iter_src(I.deep_rv(a[0], st), st))


@ext('builtins.sum')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[0], st), st)
    if len(a) > 1:
        init = I.deep_rv(a[1], st)
        if kind(init) == 'seq':
            return mk_concat(init, comp_over(S, lambda x: unwrap_seq(x)))
        return mk_add(init, mk_sum(S))
    # booleans count
    if S.op == 'comp':
        cl, tr = open_comp(S)
        if all(leaf_emit(x)[0] == 'none' or (leaf_emit(x)[0] == 'one' and is_bool(leaf_emit(x)[1])) for x in leaves(tr)):
            g = map_tree(tr, lambda x: FALSE if leaf_emit(x)[0] == 'none' else cond(leaf_emit(x)[1]))
            return mk_len(mk_comp(cl, mk_ite(g, mk_seq([e(C(1))]), EMPTY)))
    return mk_sum(S)


@ext('builtins.next')
def _(I, a, kw, st):
    S = I.iter_src(I.deep_rv(a[0], st), st)
    if len(a) > 1:
        return mk_ite(nonempty(S), mk_at(S, C(0)), I.deep_rv(a[1], st))
    return mk_at(S, C(0))


def nonempty(S):
    if S.op == 'comp':
        cl, tr = open_comp(S)
        return mk_any_g(cl, map_tree(tr, lambda x: FALSE if leaf_emit(x)[0] == 'none' else TRUE))
    return cond(S)


def _mm(op):
    def f(I, a, kw, st):
        key = None
        if 'key' in kw:
            k = I.rv(kw['key'], st)
            if k is not NONE:
                key = I.to_lam(k, st, 1)
        if len(a) > 1:
            S = mk_seq([e(I.deep_rv(x, st)) for x in a])
        else:
            S = I.iter_src(I.deep_rv(a[0], st), st)
        extra = []
        if 'default' in kw:
            d = I.deep_rv(kw['default'], st)
            return lift([S, d], lambda x: raw(op + 'of', x[0], *([key] if key else []) + [raw('kw', 'default', x[1])]))

        def mk(S):
            if S.op == 'ite':
                return lift([S], lambda x: mk(x[0]))
            if S.op == 'seq':
                if all(i.op == 'e' and num(i.a[0]) for i in S.a) and S.a:
                    return C((min if op == 'min' else max)(i.a[0].a[0] for i in S.a))
                its = []
                for i in sorted(set(S.a), key=lambda t: t.dig):
                    its.append(i)
                S = raw('seq', *its)
            if S.op == 'f' and S.a[0] in tm.VECTORS and not key:
                return raw('f', 'numpy.a' + op, S)
            return raw(op + 'of', S, *([key] if key else []))
        return mk(S)
    return f


EXT['builtins.min'] = _mm('min')
EXT['builtins.max'] = _mm('max')


@ext('builtins.print')
def _(I, a, kw, st):
    cur = st.heap.get('$print', EMPTY)
    v = [I.mat(x, st) for x in a]
    v = [mk_str([raw('fmt', x, '')]) if kind(x) == 'str' or True else x for x in v]
    if any(x.op == 'ite' for x in v):
        it = lift(v, lambda q: raw('seq', e(raw('print', *q))))
    else:
        it = raw('seq', e(raw('print', *v)))
    st.heap['$print'] = mk_concat(cur, it)
    return NONE


@ext('builtins.str')
def _(I, a, kw, st):
    if not a:
        return C('')
    o = a[0]
    cls = I.class_of(o, st)
    v = I.mat(o, st)
    if v.op == 'new':
        return I.gen('m', ['__str__', v], {})
    return mk_str([raw('fmt', v, '')]) if v.op != 'ite' else map_tree(v, lambda x: mk_str([raw('fmt', x, '')]))


@ext('builtins.repr')
def _(I, a, kw, st):
    if len(a) == 1:
        v = I.mat(a[0], st)
        if v.op in ('comp', 'seq', 'tolist', 'tup', 'sorted', 'dict'):
            return mk_str([raw('fmt', v, '')])      # a list reads the same either way


@ext('builtins.format')
def _(I, a, kw, st):
    v = I.mat(a[0], st)
    sp = I.mat(a[1], st) if len(a) > 1 else C('')
    if is_c(sp):
        return mk_str([raw('fmt', v, sp.a[0])])
    return None


@ext('builtins.isinstance')
def _(I, a, kw, st):
    t = I.rv(a[1], st)
    v = I.mat(a[0], st)
    if t.op == 'tup':
        return mk_or(*[_isinst(v, x) for x in t.a])
    return _isinst(v, t)


def _isinst(v, t):
    if t.op == 'class' or t.op == 'g':
        t = C(t.a[0])
    return build('isinst', v, t)


@ext('builtins.bool')
def _(I, a, kw, st):
    return tm._fin(cond(I.mat(a[0], st)))


@ext('builtins.int', 'builtins.float')
def _(I, a, kw, st):
    return None


def int_valued(v):
    if v.op == 'box':
        v = v.a[0]
    if v.op == 'ite':
        return all(int_valued(x) for x in leaves(v))
    if v.op in ('len', 'size'):
        return True
    if v.op == 'c':
        return isinstance(v.a[0], int)
    if v.op == 'poly':
        return all(b.op in ('len', 'size') and isinstance(e, int) and e > 0 for m in tm._topoly(v) for b, e in m) \
            and all(isinstance(c, int) or getattr(c, 'denominator', 0) == 1 for c in tm._topoly(v).values())
    return False


@ext('builtins.int')
def _(I, a, kw, st):
    if len(a) == 1:
        v = I.mat(a[0], st)
        if int_valued(v):
            return v
        # a fraction of K, cut to an integer: one of 0 .. K-1
        P = tm._topoly(v)
        rs = {b for m in P for b, _ in m if b.op == 'rand' and b.a[0] == 'random.random'}
        if len(rs) == 1:
            r, = rs
            if all((r, 1) in m for m in P):
                K = tm._frompoly({tuple(x for x in m if x[0] is not r): c for m, c in P.items()})
                return raw('rand', 'random.randint', C(0), tm.mk_add(K, C(-1)), *r.a[1:])


@ext('builtins.abs')
def _(I, a, kw, st):
    v = I.mat(a[0], st)
    if num(v):
        return C(abs(v.a[0]))
    return build('f', 'builtins.abs', v)


@ext('builtins.round')
def _(I, a, kw, st):
    return mk_round(I.mat(a[0], st), I.mat(a[1], st) if len(a) > 1 else C(0))


@ext('numpy.around')
def _(I, a, kw, st):
    d = I.mat(a[1], st) if len(a) > 1 else I.mat(kw['decimals'], st) if 'decimals' in kw else C(0)
    return mk_round(I.mat(a[0], st), d)


@ext('numpy.mod')
def _(I, a, kw, st):
    return mk_mod(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.matmul')
def _(I, a, kw, st):
    return mk_mm(strip_arr0(I.mat(a[0], st)), strip_arr0(I.mat(a[1], st)))


def strip_arr0(t):
    if t.op == 'arr' and len(t.a) == 1 and t.a[0].op not in ('seq', 'comp', 'tup'):
        return t.a[0]
    return t


@ext('numpy.transpose')
def _(I, a, kw, st):
    if len(a) == 1 and not kw:
        return mk_T(strip_arr0(I.mat(a[0], st)))


@ext('numpy.linalg.solve')
def _(I, a, kw, st):
    # the solution of A x = b, as the product it is
    if len(a) == 2 and not kw:
        return mk_mm(mk_inv(strip_arr0(I.mat(a[0], st))), strip_arr0(I.mat(a[1], st)))


@ext('numpy.tensordot')
def _(I, a, kw, st):
    ax = a[2] if len(a) == 3 else kw.get('axes')
    if len(a) >= 2 and ax is not None and I.mat(ax, st) is C(1):
        return mk_mm(strip_arr0(I.mat(a[0], st)), strip_arr0(I.mat(a[1], st)))


@ext('numpy.linalg.multi_dot')
def _(I, a, kw, st):
    x = I.mat(a[0], st) if len(a) == 1 and not kw else None
    x = tm.unwrap_seq(x) if x is not None else None
    if x is not None and x.op == 'tup':
        return mk_mm(*[strip_arr0(y) for y in x.a])
    if x is not None and x.op == 'seq' and all(y.op == 'e' for y in x.a):
        return mk_mm(*[strip_arr0(y.a[0]) for y in x.a])


@ext('numpy.einsum')
def _(I, a, kw, st):
    """products of two matrices, or of a matrix and a vector"""
    if kw or len(a) != 3:
        return None
    f, x, y = [I.mat(z, st) for z in a]
    if f.op != 'c' or not isinstance(f.a[0], str) or '->' not in f.a[0] or '.' in f.a[0]:
        return None
    ins, out = f.a[0].replace(' ', '').split('->')
    ins = ins.split(',')
    if len(ins) != 2 or not all(1 <= len(i) <= 2 and len(set(i)) == len(i) for i in ins):
        return None
    (i, j), (x, y) = ins, (strip_arr0(x), strip_arr0(y))
    k = set(i) & set(j)
    if len(k) != 1 or k & set(out):
        return None
    k, = k
    fi, fj = i.replace(k, ''), j.replace(k, '')
    if i[0] == k and fi:
        x = mk_T(x)
    if j[-1] == k and fj:
        y = mk_T(y)
    r = mk_mm(x, y)
    if out == fi + fj:
        return r
    if out == fj + fi:
        return mk_T(r)
    return None


@ext('numpy.linalg.inv', 'numpy.linalg.pinv')
def _(I, a, kw, st):
    return mk_inv(strip_arr0(I.mat(a[0], st)))


@ext('numpy.array')
def _(I, a, kw, st):
    x = I.mat(a[0], st)
    kw = {k: v for k, v in kw.items() if k not in ('copy',)}
    dt = None
    if len(a) > 1:
        dt = a[1]
    if 'dtype' in kw:
        dt = kw.pop('dtype')
    if kw:
        return None
    if dt is not None:
        dt = I.mat(dt, st)
        if dt.op == 'c' and dt.a[0] is None:
            return mk_arr(x)
        if dt.op == 'g':
            # plain numeric types do not change which values are meant
            if dt.a[0] in ('builtins.int', 'builtins.float', 'numpy.int64', 'numpy.double'):
                return mk_arr(x) if dt.a[0] != 'builtins.int' else mk_arr(x)
        return build('arr', x, dt)
    return mk_arr(x)


@ext('numpy.vectorize')
def _(I, a, kw, st):
    if len(a) == 1:
        f = I.rv(a[0], st)
        return raw('vectorize', f)


def by_mask(name, c):
    """a mask is no case: only cases are told apart"""
    if c.op == 'ite' and tm.is_bool(c):
        sc = sorted([x for x in tm.conds_of(c) if tm.scalar_test(x)], key=tm._akey)
        if sc:
            return tm.mk_ite(sc[0], by_mask(name, tm.restrict(c, sc[0])), by_mask(name, tm.restrict(c, tm.mk_not(sc[0]))))
        if c.a[1] is TRUE and c.a[2] is FALSE:
            c = c.a[0]
        else:
            c = raw('box', c)
        return raw('f', name, c)
    return build('f', name, c)


@ext('numpy.where', 'numpy.nonzero')
def _(I, a, kw, st):
    if len(a) == 1:
        return by_mask('numpy.where', I.mat(a[0], st))


@ext('numpy.flatnonzero')
def _(I, a, kw, st):
    return mk_nz(I.mat(a[0], st))


@ext('numpy.argwhere')
def _(I, a, kw, st):
    if len(a) == 1 and not kw:
        return by_mask('numpy.argwhere', I.mat(a[0], st))


def _extreme(name):
    def go(I, a, kw, st):
        """some (all) elements compared with a number: the smallest or largest one compared"""
        if len(a) == 1 and set(kw) == {'axis'}:
            a, kw = list(a) + [kw['axis']], {}
        if len(a) == 2 and not kw and a[1] is not NONE:
            return along(I, [I.mat(x, st) for x in a], st)
        if len(a) != 1 or kw:
            return None
        c = a[0]
        if c.op == 'ite' and tm.is_bool(c):
            # a mask is no case: only cases are told apart
            sc = sorted([x for x in tm.conds_of(c) if tm.scalar_test(x)], key=tm._akey)
            if sc:
                return tm.mk_ite(sc[0], again(I, [tm.restrict(c, sc[0])], kw, st),
                                 again(I, [tm.restrict(c, tm.mk_not(sc[0]))], kw, st))
            if c.a[1].op == c.a[2].op == 'c' and c.a[0].op in ('lt', 'le'):
                c = c.a[0] if c.a[1] is TRUE else raw('le' if c.a[0].op == 'lt' else 'lt', c.a[0].a[1], c.a[0].a[0])
        if c.op == 'ite' and tm.is_bool(c):
            return raw('f', name, raw('box', c))
        if c.op not in ('lt', 'le') or len(c.a) != 2:
            return None
        x, y = c.a

        def scalar(t):
            return tm.num(t) or t.op == 'attr' and t.a[0].op in ('self', 'arg') and t.a[1] not in tm.SITE_ATTRS
        f = tm.mk_lt if c.op == 'lt' else tm.mk_le
        some = name == 'numpy.any'
        if scalar(y) and not scalar(x):
            return f(raw('f', 'numpy.amin' if some else 'numpy.amax', x), y)
        if scalar(x) and not scalar(y):
            return f(x, raw('f', 'numpy.amax' if some else 'numpy.amin', y))

    def along(I, a, st):
        # row by row (column by column)
        c = a[0]
        some = name == 'numpy.any'
        if c.op == ('ewor' if some else 'ewand'):
            from interp import ew_and, ew_or
            r = None
            for x in c.a:
                y = along(I, [x, a[1]], st)
                if y is None:
                    y = raw('f', name, x, a[1])
                r = y if r is None else (ew_or if some else ew_and)(r, y)
            return r
        if c.op in ('lt', 'le') and len(c.a) == 2:
            x, y = c.a
            f = 'numpy.amin' if some else 'numpy.amax'
            if tm.num(y) and not tm.num(x):
                return raw(c.op, raw('f', f, x, a[1]), y)
            f = 'numpy.amax' if some else 'numpy.amin'
            if tm.num(x) and not tm.num(y):
                return raw(c.op, x, raw('f', f, y, a[1]))
        return None

    def again(I, a, kw, st):
        r = go(I, a, kw, st)
        return raw('f', name, a[0]) if r is None else r
    return go


EXT['numpy.any'] = _extreme('numpy.any')
EXT['numpy.all'] = _extreme('numpy.all')


@ext('numpy.count_nonzero')
def _(I, a, kw, st):
    if len(a) == 1:
        return mk_len(mk_nz(I.mat(a[0], st)))


@ext('numpy.sum')
def _(I, a, kw, st):
    v = I.mat(a[0], st)
    if len(a) == 1 and not kw and v.op in ('eq', 'ne', 'lt', 'le'):
        return mk_len(mk_nz(v))


@ext('numpy.logical_and')
def _(I, a, kw, st):
    from interp import ew_and
    return ew_and(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.logical_or')
def _(I, a, kw, st):
    from interp import ew_or
    return ew_or(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.logical_not')
def _(I, a, kw, st):
    from interp import ew_not
    return ew_not(I.mat(a[0], st))


@ext('numpy.equal')
def _(I, a, kw, st):
    return mk_eq(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.multiply')
def _(I, a, kw, st):
    return mk_mul(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.add')
def _(I, a, kw, st):
    return mk_add(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.subtract')
def _(I, a, kw, st):
    return mk_sub(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.take')
def _(I, a, kw, st):
    if len(a) == 2 and (not kw or set(kw) == {'axis'}):
        return mk_at(I.mat(a[0], st), I.mat(a[1], st))


@ext('numpy.arange')
def _(I, a, kw, st):
    if kw:
        return None
    return mk_arr(mk_range(*[I.deep_rv(x, st) for x in a]))


@ext('numpy.size')
def _(I, a, kw, st):
    return mk_size(I.mat(a[0], st))


@ext('numpy.shape')
def _(I, a, kw, st):
    return build('attrshape', I.mat(a[0], st))


def spread_rows(X, shape):
    """(A[:, None, :] + B[None, :, :]).reshape(-1, 3): the rows A[0] + B, then A[1] + B, ..."""
    if X.op != 'poly' or shape.op not in ('tup', 'seq') or shape not in (raw('tup', C(-1), C(3)), raw('seq', e(C(-1)), e(C(3)))):
        return None
    P = tm._topoly(X)
    if len(P) != 2 or any(c != 1 or len(m) != 1 or m[0][1] != 1 for m, c in P.items()):
        return None
    full = raw('slc', NONE, NONE, NONE)
    A = B = None
    for m in P:
        x = m[0][0]
        if x.op == 'item' and x.a[1] is raw('tup', full, NONE):
            A = x.a[0]
        elif x.op == 'at' and x.a[1] is NONE:
            B = x.a[0]
    if A is None or B is None:
        return None
    v = tm.fresh()
    return build('f', 'numpy.concatenate', tm.mk_comp([(v, tm.mk_len(A))], raw('seq', e(tm.mk_add(tm.mk_at(A, v), B)))), C(0))


@ext('numpy.reshape')
def _(I, a, kw, st):
    if len(a) == 2 and not kw:
        r = spread_rows(strip_arr0(I.mat(a[0], st)), I.mat(a[1], st))
        if r is not None:
            return r
    return I.gen('f', ['numpy.reshape', strip_arr0(I.mat(a[0], st))] + [I.mat(x, st) for x in a[1:]], {k: I.mat(v, st) for k, v in kw.items()})


@ext('numpy.ravel')
def _(I, a, kw, st):
    if len(a) == 1 and all(k == 'order' and I.mat(v, st) == C('C') for k, v in kw.items()):
        return build('flat', I.mat(a[0], st))


@ext('numpy.diagonal', )
def _(I, a, kw, st):
    if len(a) == 1:
        return build('diag', I.mat(a[0], st))


@ext('numpy.diag')
def _(I, a, kw, st):
    return build('f', 'numpy.diag', strip_arr(I.mat(a[0], st)))


@ext('numpy.trace')
def _(I, a, kw, st):
    if len(a) == 1 and not kw:
        return build('sum', build('diag', I.mat(a[0], st)))


@ext('numpy.prod')
def _(I, a, kw, st):
    if len(a) == 1 and not kw:
        v = I.mat(a[0], st)
        if v.op == 'f' and v.a[0] == 'numpy.diag' and len(v.a) == 2:
            v = build('diag', v.a[1])      # the diagonal of a matrix
        return build('prod', v)


@ext('numpy.full')
def _(I, a, kw, st):
    sh = I.mat(a[0], st)
    v = I.mat(a[1], st) if len(a) > 1 else I.mat(kw['fill_value'], st) if 'fill_value' in kw else None
    if v is not None and sh.op in ('arg', 'attr', 'tup', 'attrshape'):
        return mk_add(build('f', 'numpy.zeros', sh), v)
    return None


@ext('numpy.lexsort')
def _(I, a, kw, st):
    k = unwrap_seq(I.mat(a[0], st))
    if k.op == 'rev' and k.a[0].op == 'T':
        X = k.a[0].a[0]
        full = raw('slc', NONE, NONE, NONE)
        k = raw('seq', *[e(mk_item(X, raw('tup', full, C(i)))) for i in (2, 1, 0)])
    return build('lexsort', k)


@ext('numpy.concatenate')
def _(I, a, kw, st):
    x = unwrap_seq(I.mat(a[0], st))
    ax = I.mat(a[1], st) if len(a) > 1 else I.mat(kw['axis'], st) if 'axis' in kw else C(0)
    return build('f', 'numpy.concatenate', x, ax)


@ext('numpy.vstack')
def _(I, a, kw, st):
    return build('f', 'numpy.concatenate', unwrap_seq(I.mat(a[0], st)), C(0))


@ext('numpy.sqrt', 'math.sqrt')
def _(I, a, kw, st):
    return build('f', 'math.sqrt', I.mat(a[0], st))


@ext('builtins.pow')
def _(I, a, kw, st):
    if len(a) == 2:
        return mk_pow(I.mat(a[0], st), I.mat(a[1], st))


@ext('builtins.divmod')
def _(I, a, kw, st):
    x, y = I.mat(a[0], st), I.mat(a[1], st)
    return raw('tup', mk_fdiv(x, y), mk_mod(x, y))


@ext('copy.deepcopy')
def _(I, a, kw, st):
    o = a[0]
    v = I.deep_rv(o, st)
    if v.op in ('self',):
        return raw('deepcopy', v)
    return v


@ext('itertools.tee')
def _(I, a, kw, st):
    x = I.deep_rv(a[0], st)
    n = 2
    if len(a) > 1:
        k = I.deep_rv(a[1], st)
        if not num(k):
            return None
        n = k.a[0]
    if I.linear:
        I.teeid = getattr(I, 'teeid', 0) + 1
        return raw('tup', *[raw('branch', i, x) for i in range(n)])
    return raw('tup', *[x] * n) if x.op != 'ite' else map_tree(x, lambda y: raw('tup', *[y] * n))


@ext('itertools.count')
def _(I, a, kw, st):
    return raw('f', 'itertools.count', *[I.deep_rv(x, st) for x in a])


@ext('itertools.islice')
def _(I, a, kw, st):
    v = [I.deep_rv(x, st) for x in a]
    if len(v) == 2:
        return mk_item(v[0], raw('slc', NONE, v[1], NONE))
    if len(v) == 3:
        return mk_item(v[0], raw('slc', v[1], v[2], NONE))


@ext('operator.itemgetter')
def _(I, a, kw, st):
    if any(x.op == 'star' for x in a):
        return None
    return raw('itemgetter', *[I.mat(x, st) for x in a])


@ext('operator.attrgetter')
def _(I, a, kw, st):
    v = I.mat(a[0], st)
    if is_c(v) and len(a) == 1:
        return raw('attrgetter', v.a[0])


@ext('operator.eq')
def _(I, a, kw, st):
    return mk_eq(I.mat(a[0], st), I.mat(a[1], st))


@ext('operator.mul')
def _(I, a, kw, st):
    return mk_mul(I.mat(a[0], st), I.mat(a[1], st))


@ext('operator.add')
def _(I, a, kw, st):
    return mk_add(I.mat(a[0], st), I.mat(a[1], st))


@ext('functools.partial')
def _(I, a, kw, st):
    if not kw:
        return raw('partial', *a)


@ext('builtins.getattr')
def _(I, a, kw, st):
    n = I.mat(a[1], st)
    if is_c(n) and len(a) == 2:
        return I.get_attr(a[0], n.a[0], st)
    if is_c(n) and len(a) == 3 and not kw:
        o = I.mat(a[0], st)
        return build('ite', build('f', 'builtins.hasattr', o, n), I.get_attr(a[0], n.a[0], st), I.mat(a[2], st))


@ext('builtins.setattr')
def _(I, a, kw, st):
    n = I.mat(a[1], st)
    if is_c(n):
        I.set_attr(a[0], n.a[0], a[2], st)
        return NONE


@ext('builtins.type')
def _(I, a, kw, st):
    if len(a) == 1:
        return I.get_attr(a[0], '__class__', st)


@ext('builtins.repr')
def _(I, a, kw, st):
    return None


@ext('progressbar.ProgressBar')
def _(I, a, kw, st):
    return raw('f', 'progressbar.ProgressBar')


@ext('progressbar.progressbar')
def _(I, a, kw, st):
    return I.deep_rv(a[0], st)


@ext('xxhash.xxh64_intdigest', 'xxhash.xxh32_intdigest', 'xxhash.xxh128_intdigest')
def _(I, a, kw, st):
    return None


for _n in ('xxh64', 'xxh32', 'xxh128', 'xxh3_64', 'xxh3_128'):
    for _d in ('intdigest', 'hexdigest', 'digest'):
        def _h(I, a, kw, st, _n=_n, _d=_d):
            return build('hash', _n, *[I.mat(x, st) for x in a])
        EXT['xxhash.%s_%s' % (_n, _d)] = _h


@ext('os.path.join')
def _(I, a, kw, st):
    v = [I.mat(x, st) for x in a]
    out = []
    for x in v:
        if x.op == 'f' and x.a[0] == 'os.path.join':
            out.extend(x.a[1:])
        else:
            out.append(x)
    return build('f', 'os.path.join', *out)


@ext('numpy.load')
def _(I, a, kw, st):
    return None


@ext('builtins.open')
def _(I, a, kw, st):
    v = [I.mat(x, st) for x in a]
    mode = v[1] if len(v) > 1 else I.mat(kw['mode'], st) if 'mode' in kw else C('r')
    if is_c(mode):
        mode = C(''.join(c for c in mode.a[0] if c != 't') or 'r')
    return build('open', v[0], mode)


@ext('numpy.zeros')
def _(I, a, kw, st):
    return build('f', 'numpy.zeros', I.mat(a[0], st))


@ext('numpy.ones')
def _(I, a, kw, st):
    return build('f', 'numpy.ones', I.mat(a[0], st))


@ext('numpy.linalg.norm')
def _(I, a, kw, st):
    if len(a) == 1 and not kw:
        v = I.mat(a[0], st)
        return build('norm', v)


@ext('scipy.spatial.distance.euclidean')
def _(I, a, kw, st):
    if len(a) == 2:
        return build('norm', _absdiff(mk_sub(I.mat(a[0], st), I.mat(a[1], st))))


def _absdiff(d):
    return d


@ext('math.dist')
def _(I, a, kw, st):
    return build('norm', mk_sub(I.mat(a[0], st), I.mat(a[1], st)))


def _norm_build(x):
    # |x| == |-x| : choose a sign
    n = mk_neg(x)
    if n.dig < x.dig:
        x = n
    return raw('norm', x)


tm._BUILD['norm'] = tm.lifted(_norm_build)


def _tolist(x):
    return raw('tolist', x)


tm._BUILD['tolist'] = tm.lifted(_tolist)
tm._BUILD['minlen'] = lambda *a: a[0] if len(set(a)) == 1 else raw('minlen', *sorted(set(a), key=lambda t: t.dig))
tm._BUILD['maxlen'] = lambda *a: a[0] if len(set(a)) == 1 else raw('maxlen', *sorted(set(a), key=lambda t: t.dig))


def _ew(op):
    def f(*a):
        from interp import ew_and, ew_or
        r = a[0]
        for x in a[1:]:
            r = (ew_and if op == 'ewand' else ew_or)(r, x)
        return r
    return f


tm._BUILD['ewand'] = _ew('ewand')
tm._BUILD['ewor'] = _ew('ewor')


def _mmof(op):
    def f(S, *r):
        if S.op == 'ite':
            return lift([S] + list(r), lambda x: f(*x))
        if S.op == 'seq':
            S = raw('seq', *sorted(set(S.a), key=lambda t: t.dig))
        return raw(op, S, *r)
    return f


tm._BUILD['minof'] = _mmof('minof')
tm._BUILD['maxof'] = _mmof('maxof')
