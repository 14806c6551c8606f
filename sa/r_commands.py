"""Commands: what is written under which conditions (C18, C19), where (C20), and how options are declared (C19)."""
import ast
import os
import specs
import terms as tm
from terms import T, raw, C, EMPTY, NONE, TRUE, FALSE, subterms, show, mk_ite, mk_seq, mk_comp, map_tree
from interp import Unsupported, TooBig

COMMANDS = {
    'ababe.cmdline.runabalib': ('suplat', 'ocumaker', 'ocubiter', 'ocutenter', 'ocumakert'),
    'ababe.cmdline.runatilib': ('atclear', 'perturb', 'supcell', 'pcell'),
}
WRITERS = ('ababe.io.io:GeneralIO', 'ababe.stru.io:VaspPOSCAR', 'ababe.stru.io:YamlOutput',
           'ababe.io.vasp:VaspOutput', 'ababe.io.yaml:YamlOutput')


class Strange(Exception):
    pass


def project(t, f):
    """apply f to every effect of an effect sequence; f gives a sequence term"""
    if t.op == 'ite':
        return mk_ite(raw('ite', t.a[0], TRUE, FALSE), project(t.a[1], f), project(t.a[2], f))
    if t.op == 'seq':
        items = []
        for i in t.a:
            r = f(i.a[0]) if i.op == 'e' else project(i.a[0], f)
            if r.op == 'seq':
                items.extend(r.a)
            else:
                items.append(raw('s', r))
        # conditionals must be lifted by concatenation
        acc = EMPTY
        for i in items:
            if i.op == 's' and i.a[0].op == 'ite':
                nxt = i.a[0]
                acc = tm.lift([acc, nxt], lambda a: tm.mk_concat(a[0], a[1]))
            else:
                acc = tm.lift([acc], lambda a: tm.mk_concat(a[0], mk_seq([i])))
        return acc
    if t.op == 'comp':
        cl, tree = tm.open_comp(t)
        return mk_comp(cl, project(tree, f))
    raise Strange('effects of unknown shape: ' + t.op)


def fmt_of_name(name):
    """file format a generated name states by its ending"""
    name = tm.unbox(name)
    if name.op == 'ite':
        return tm.lift([name], lambda a: fmt_of_name(a[0]))
    if name is NONE:
        return C('stdout')
    if name.op == 'attr' and name.a[1] == 'name' or name.op == 'at' and num1(name):
        base = name.a[0]
        if base.op == 'fresh':
            for x in base.a:
                if isinstance(x, T) and x.op == 'kw' and x.a[0] == 'suffix':
                    return fmt_of_name(x.a[1])
            return C('')
        return raw('unknown', 'name ' + show(name, 4))
    if tm.is_c(name) and isinstance(name.a[0], str):
        return C(name.a[0].rpartition('.')[2]) if '.' in name.a[0] else C('')
    if name.op == 'str':
        last = name.a[-1]
        if tm.is_c(last):
            return C(last.a[0].rpartition('.')[2]) if '.' in last.a[0] else raw('unknown', 'name')
        prev = name.a[-2] if len(name.a) > 1 else None
        if last.op == 'fmt' and prev is not None and tm.is_c(prev) and prev.a[0].endswith('.'):
            return last.a[0]
        return raw('unknown', 'name ' + show(name, 4))
    if name.op in ('f', 'm') and name.a[0] in ('os.path.join',):
        return fmt_of_name(name.a[-1])
    if name.op == 'add' or name.op == 'concat':
        return raw('unknown', 'name ' + show(name, 4))
    return raw('unknown', 'name ' + show(name, 4))


def num1(name):
    return tm.num(name.a[1])


def write_of(x):
    """effect -> sequence of writes"""
    w = x.a[1] if x.op == 'io' and len(x.a) == 2 else None
    if w is None:
        raise Strange('effect ' + show(x, 3))
    if w.op == 'm' and w.a[0] in ('write_file', 'write'):
        if tm.unbox(w.a[1]).op == 'ite' or any(isinstance(y, T) and y.op == 'box' for y in w.a[2:]):
            return tm.lift([tm.unbox(y) if isinstance(y, T) else y for y in w.a], lambda a: write_term(raw('m', *a)))
        return write_term(w)
    return None


def write_term(w):
    recv = w.a[1]
    if recv.op != 'new' or recv.a[0] not in WRITERS:
        raise Strange('writer ' + show(recv, 3))
    args = list(w.a[2:])
    fmt = None
    pos = [a for a in args if not (isinstance(a, T) and a.op == 'kw')]
    kws = {a.a[0]: a.a[1] for a in args if isinstance(a, T) and a.op == 'kw'}
    name = pos[0] if pos else kws.get('fname', kws.get('filename', NONE))
    fmt = pos[1] if len(pos) > 1 else kws.get('fmt', NONE)

    def one(a):
        n, ft = a
        if recv.a[0].endswith(':GeneralIO'):
            if n is NONE:
                return mk_seq([raw('e', raw('write', recv.a[1], C('stdout'), ft))])
            return mk_seq([raw('e', raw('write', recv.a[1], C('file'), ft if ft is not NONE else fmt_of_name(n)))])
        return mk_seq([raw('e', raw('write', C(recv.a[0]), *recv.a[1:]))])
    return tm.lift([name, fmt], one)


DROP_F = {'os.makedirs', 'os.mkdir', 'shutil.rmtree', 'tempfile.NamedTemporaryFile', 'tempfile.mkstemp', 'tempfile.mkdtemp',
          'click.echo', 'builtins.print', 'os.close', 'os.path.exists', 'builtins.input'}


def writes(io):
    def f(x):
        w = x.a[1] if x.op == 'io' and len(x.a) == 2 else None
        if isinstance(w, T) and w.op in ('f', 'fresh') and w.a[0] in DROP_F:
            return EMPTY
        if isinstance(w, T) and w.op == 'm' and w.a[0] in ('close', 'flush', 'update', 'finish', 'start', 'mkdir'):
            return EMPTY
        r = write_of(x)
        if r is None:
            raise Strange('effect ' + show(x, 4))
        return r
    return project(io, f)


def names(io):
    """names of the written files, temporary ones aside"""
    def f(x):
        w = x.a[1] if x.op == 'io' and len(x.a) == 2 else None
        if not isinstance(w, T) or w.op != 'm' or w.a[0] not in ('write_file', 'write'):
            return EMPTY
        pos = [a for a in w.a[2:] if isinstance(a, T) and a.op != 'kw']
        kws = {a.a[0]: a.a[1] for a in w.a[2:] if isinstance(a, T) and a.op == 'kw'}
        n = pos[0] if pos else kws.get('fname', kws.get('filename', NONE))

        def one(a):
            if a[0] is NONE or any(y.op == 'fresh' for y in subterms(a[0])):
                return EMPTY
            return mk_seq([raw('e', a[0])])
        return tm.lift([tm.unbox(n)], one)
    try:
        return project(io, f)
    except Strange as ex:
        return raw('unknown', str(ex))


def dirs(io):
    """what the names of created directories are made of, random parts aside"""
    def pieces(n):
        n = tm.unbox(n)
        if n.op == 'ite':
            return tm.lift([n], lambda a: pieces(a[0]))
        if n.op in ('f',) and n.a[0] == 'os.path.join':
            return pieces(n.a[-1])
        if n.op == 'str':
            out = []
            for p in n.a:
                if p.op == 'fmt' and not any(y.op in ('rand', 'fresh') for y in subterms(p)):
                    out.append(raw('e', p.a[0]))
            return mk_seq(out)
        if tm.is_c(n):
            return EMPTY
        return mk_seq([raw('e', n)])

    def f(x):
        w = x.a[1] if x.op == 'io' and len(x.a) == 2 else None
        if isinstance(w, T) and w.op == 'f' and w.a[0] in ('os.makedirs', 'os.mkdir'):
            return tm.lift([w.a[1]], lambda a: pieces(a[0]))
        return EMPTY

    def top(t):
        if t.op == 'ite':
            return mk_ite(raw('ite', t.a[0], TRUE, FALSE), top(t.a[1]), top(t.a[2]))
        if t.op == 'seq':
            acc = EMPTY
            for i in t.a:
                if i.op == 'e':
                    r = f(i.a[0])
                    acc = tm.lift([acc, r], lambda a: tm.mk_concat(a[0], a[1]))
            return acc
        return EMPTY
    return top(io)


def evaluate(repo, func, mod, args=None):
    tm.set_box(True)
    try:
        I, s, d = specs.evaluate(repo, func, None, mod, ('io', 'raise'), False, opts={'apps': True}, args=args)
        r = {'raise': d['raise']}
        r['writes'] = writes(d['io'])
        r['dirs'] = dirs(d['io'])
        r['names'] = names(d['io'])
    finally:
        tm.set_box(False)
    return I, d, r


def option_args(f, n, sf):
    """arguments of a command in its own parameter order, identified by the option they come from"""
    a = f.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    ref = [x.arg for x in sf.node.args.args]
    try:
        got, _ = declared(f)
    except (Unknown, IndexError, KeyError, AttributeError, TypeError):
        got = {}
    out = []
    for p in params:
        k = ref.index(p) if p in ref else None
        if p in got:
            for rp, v in DECL[n].items():
                if v[0] == got[p][0] == 'argument' or v[0] == got[p][0] and splitflags(v[1])[0] & splitflags(got[p][1])[0]:
                    k = ref.index(rp)
        out.append(raw('arg', k if k is not None else 100 + params.index(p)))
    return out


_cache = {}


def summaries(repo):
    """per command: (interp, raw aspects, projected, reference projected, error)"""
    if id(repo) in _cache:
        return _cache[id(repo)]
    out = {}
    for mn, names in COMMANDS.items():
        for n in names:
            q = '%s:%s' % (mn, n)
            f = repo.get(q)
            if f is None:
                out[q] = None
                continue
            sf = specs.spec_funcs(repo, q)[0]
            _, _, rs = evaluate(repo, sf, f.module)
            try:
                I, d, rt = evaluate(repo, f, f.module, option_args(f, n, sf))
                out[q] = (f, I, d, rt, rs, None)
            except (Unsupported, TooBig, RecursionError, Strange) as ex:
                out[q] = (f, None, None, None, rs, '%s: %s' % (type(ex).__name__, ex))
    _cache[id(repo)] = out
    return out


def where(repo, f):
    return '%s:%d' % (os.path.relpath(f.module.path, repo.root), f.node.lineno)


def compare(repo, out, keys, only=None):
    out.rules.append('command summaries: for every command the set of structures written, their format and the conditions '
                     '(constructor and run() of the application object followed in one state) equal the reference')
    for q, v in summaries(repo).items():
        if only and q.split(':')[1] not in only:
            continue
        if v is None:
            out.add('violation', q, 'command', 'the command is gone', key=q)
            continue
        f, I, d, rt, rs, err = v
        cons = '%s %s' % (where(repo, f), q)
        if err:
            out.add('undecided', cons, 'command', err, key=q)
            continue
        out.inlined |= set(I.inlined)
        out.size += sum(x.size for x in rt.values())
        bad = [k for k in keys if rt[k] is not rs[k]]
        if not bad:
            out.add('ok', cons, 'command', '', key=q)
            continue
        st, det = specs.classify(repo, {k: rs[k] for k in keys}, {k: rt[k] for k in keys}, bad)
        out.add(st, cons, 'command (%s)' % ','.join(bad), det, key=q)


def c18(repo, out, tier):
    compare(repo, out, ('writes', 'raise'), only=('suplat', 'ocumaker', 'ocubiter', 'ocutenter', 'ocumakert', 'atclear'))


def c19(repo, out, tier):
    compare(repo, out, ('writes', 'raise', 'dirs'))


RULES = {'C18': [c18], 'C19': [c19]}
TECH = {'C18': 'command-level effect summaries (application constructor and run() followed through the call graph) compared with reference effects',
        'C19': 'dataflow from declared command-line options to written output; click declarations checked against the command signatures'}


# ---- declarations of options -----------------------------------------------
# parameter -> (kind, flags, type, default, nargs, multiple, required)
_IN = ('argument', (), 'path-exists', None, 1, False, True)
_CHO = "choice['vasp', 'yaml']"
_CHO3 = "choice['stdio', 'vasp', 'yaml']"
_TRS = ('option', ('--dist-restrict', '-r'), 'tuple[str,float]', None, 2, True, False)


def _opt(flags, type_='str', default=None, nargs=1, multiple=False, required=False):
    return ('option', tuple(flags.split()), type_, default, nargs, multiple, required)


DECL = {
    'suplat': {'input': _IN, 'comment': _opt('--comment -c'), 'volumn': _opt('--volumn -v', 'int', 1),
               'ld': _opt('--ld/--no-ld -L/', 'flag', False), 'outmode': _opt('--outmode -o', _CHO, 'yaml')},
    'ocumaker': {'input': _IN, 'comment': _opt('--comment -c'), 'element': _opt('--element -e'),
                 'speckle': _opt('--speckle -s'), 'nspeckle': _opt('--number-speckle -n', 'int'), 'trs': _TRS,
                 'refined': _opt('--refined/--no-refined', 'flag', True), 'outmode': _opt('--outmode -o', _CHO, 'vasp')},
    'ocubiter': {'input': _IN, 'comment': _opt('--comment -c'), 'element': _opt('--element -e'),
                 'speckle': _opt('--speckle -s'), 'nspeckle': _opt('--number-speckle -n', 'int'), 'trs': _TRS,
                 'refined': _opt('--refined/--no-refined', 'flag', True), 'outmode': _opt('--outmode -o', _CHO, 'vasp'),
                 'mpr': _opt('--move-supercell/--no-move-supercell -S/-N', 'flag', True)},
    'ocutenter': {'input': _IN, 'comment': _opt('--comment'), 'element': _opt('--element'),
                  'speckle': _opt('--speckle', nargs=2), 'nspeckle': _opt('--number-speckle -n', 'int', nargs=2),
                  'zoom': _opt('--zoom', 'float'), 'trs': _TRS,
                  'refined': _opt('--refined/--no-refined', 'flag', True), 'outmode': _opt('--outmode', _CHO, 'vasp'),
                  'mpr': _opt('--move-supercell/--no-move-supercell -S/-N', 'flag', True)},
    'ocumakert': {'input': _IN, 'comment': _opt('--comment'), 'element': _opt('--element'),
                  'speckle': _opt('--speckle', nargs=2), 'zoom': _opt('--zoom', 'float'), 'trs': _TRS,
                  'refined': _opt('--refined/--no-refined', 'flag', True), 'outmode': _opt('--outmode', _CHO, 'vasp')},
    'atclear': {'input': _IN, 'cenele': _opt('--center-element -c', required=True), 'radius': _opt('--radius -r', 'float', 0),
                'ele': _opt('--element-remove -e', required=True),
                'refined': _opt('--refined/--no-refined', 'flag', True)},
    'perturb': {'input': _IN, 'radius': _opt('--radius -r', 'float', 0)},
    'supcell': {'input': _IN, 'scale': _opt('--scale -s', 'int', nargs=3), 'outmode': _opt('--outmode', _CHO3, 'stdio')},
    'pcell': {'input': _IN, 'outmode': _opt('--outmode', _CHO3, 'stdio')},
}


class Unknown(Exception):
    pass


def lit(n, mod):
    """constant value of an expression; names resolved through module assignments"""
    if isinstance(n, ast.Name):
        v = modvalue(mod, n.id)
        if v is None:
            raise Unknown(ast.unparse(n))
        return lit(v, mod)
    try:
        return ast.literal_eval(n)
    except Exception:
        raise Unknown(ast.unparse(n))


def modvalue(mod, name):
    v = None
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            v = s.value
    return v


def typename(n, mod):
    if n is None:
        return None
    if isinstance(n, ast.Name) and n.id in ('int', 'float', 'str', 'bool'):
        return n.id
    if isinstance(n, ast.Name):
        v = modvalue(mod, n.id)
        if v is not None:
            return typename(v, mod)
        raise Unknown(ast.unparse(n))
    if isinstance(n, ast.Attribute):
        return {'INT': 'int', 'FLOAT': 'float', 'STRING': 'str', 'BOOL': 'bool'}.get(n.attr) or raise_(n)
    if isinstance(n, ast.Call):
        fn = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
        if fn == 'Path':
            ex = [k for k in n.keywords if k.arg == 'exists']
            ok = n.args and lit(n.args[0], mod) or ex and lit(ex[0].value, mod)
            return 'path-exists' if ok else 'path'
        if fn == 'Choice':
            a = n.args[0] if n.args else [k.value for k in n.keywords if k.arg == 'choices'][0]
            return 'choice' + str(sorted(lit(a, mod)))
        if fn in ('IntRange', 'FloatRange'):
            if any(k.arg == 'clamp' and lit(k.value, mod) for k in n.keywords) or len(n.args) > 4 and lit(n.args[4], mod):
                return '%s within bounds, others replaced,' % fn[:-5].lower()
            if not n.args and not [k for k in n.keywords if k.arg in ('min', 'max')]:
                return fn[:-5].lower()
        if fn == 'Tuple':
            a = n.args[0] if n.args else n.keywords[0].value
            if isinstance(a, ast.Name):
                a = modvalue(mod, a.id)
            return 'tuple[%s]' % ','.join(typename(x, mod) for x in a.elts)
    if isinstance(n, (ast.Tuple, ast.List)):
        return 'tuple[%s]' % ','.join(typename(x, mod) for x in n.elts)
    raise Unknown(ast.unparse(n))


def raise_(n):
    raise Unknown(ast.unparse(n))


def declared(f):
    """parameter declarations of a click command; (dict, is_command) or Unknown"""
    mod = f.module
    out = {}
    cmd = False
    for d in f.node.decorator_list:
        if isinstance(d, ast.Name):
            v = modvalue(mod, d.id)
            if v is None:
                raise Unknown('decorator ' + d.id)
            d = v
        if not isinstance(d, ast.Call):
            raise Unknown('decorator ' + ast.unparse(d))
        fn = d.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
        base = ast.unparse(fn.value) if isinstance(fn, ast.Attribute) else ''
        if nm == 'command':
            cmd = True
            if d.args or any(k.arg == 'name' for k in d.keywords):
                a = d.args[0] if d.args else [k.value for k in d.keywords if k.arg == 'name'][0]
                if lit(a, mod) != f.name:
                    out['$name'] = lit(a, mod)
            continue
        if nm in ('version_option', 'help_option'):
            continue
        if nm not in ('argument', 'option'):
            raise Unknown('decorator ' + ast.unparse(fn))
        names = [lit(a, mod) for a in d.args]
        kw = {}
        for k in d.keywords:
            if k.arg is None:
                raise Unknown('decorator with **')
            kw[k.arg] = k.value
        flags = tuple(x for x in names if x.startswith('-'))
        plain = [x for x in names if not x.startswith('-')]
        if nm == 'argument':
            p = plain[0].lower().replace('-', '_')
        elif plain:
            p = plain[0]
        else:
            best = sorted((x.split('/')[0] for x in flags), key=lambda x: -len(x) + len(x.lstrip('-')) * 0)
            best = sorted((x.split('/')[0] for x in flags), key=lambda x: -(len(x) - len(x.lstrip('-'))))
            p = best[0].lstrip('-').replace('-', '_').lower()
        default = lit(kw['default'], mod) if 'default' in kw else None
        ty = typename(kw.get('type'), mod)
        isflag = any('/' in x for x in flags) or ('is_flag' in kw and lit(kw['is_flag'], mod))
        if isflag:
            ty = 'flag'
            default = bool(default)
        if ty is None:
            ty = {bool: 'flag', int: 'int', float: 'float'}.get(type(default), 'str')
        nargs = lit(kw['nargs'], mod) if 'nargs' in kw else (ty.count(',') + 1 if ty.startswith('tuple') else 1)
        mult = bool(lit(kw['multiple'], mod)) if 'multiple' in kw else False
        req = bool(lit(kw['required'], mod)) if 'required' in kw else nm == 'argument'
        bad = set(kw) - {'type', 'default', 'nargs', 'multiple', 'required', 'help', 'is_flag', 'show_default', 'metavar'}
        if bad:
            raise Unknown('declaration keywords %s' % sorted(bad))
        if p in out:
            out['$dup'] = p
        out[p] = (nm, flags, ty, default, nargs, mult, req)
    return out, cmd


def splitflags(fl):
    on, off = set(), set()
    for x in fl:
        a, _, b = x.partition('/')
        if a:
            on.add(a)
        if b.strip():
            off.add(b.strip())
    return on, off


def declarations(repo, out, tier):
    out.rules.append('command declarations: every parameter of a command is declared once, under the documented flags, with the '
                     'documented type, default, arity and multiplicity')
    nopt = 0
    for mn, names in COMMANDS.items():
        for n in names:
            q = '%s:%s' % (mn, n)
            f = repo.get(q)
            if f is None:
                continue
            cons = '%s %s' % (where(repo, f), q)
            try:
                d, cmd = declared(f)
            except (Unknown, IndexError, KeyError, AttributeError, TypeError) as ex:
                out.add('undecided', cons, 'declaration', 'not resolved: %s' % ex, key=q)
                continue
            if not cmd:
                out.add('violation', cons, 'declaration', 'no longer registered as a command', key=q)
                continue
            a = f.node.args
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if '$name' in d:
                out.add('violation', cons, 'declaration', 'command renamed to %r' % d['$name'], key=q)
            if '$dup' in d:
                out.add('violation', cons, 'declaration', 'parameter %r declared twice' % d['$dup'], key=q)
            got = {k: v for k, v in d.items() if not k.startswith('$')}
            if a.kwarg is None:
                for p in sorted(set(params) ^ set(got)):
                    out.add('violation', cons, 'declaration',
                            'parameter %r is %s' % (p, 'not declared' if p in params else 'declared but not accepted'), key=q + p)
            # identify by flags, since parameter names are internal
            ref = DECL[n]
            for p, (k0, fl0, ty0, de0, na0, mu0, rq0) in ref.items():
                nopt += 1
                if k0 == 'argument':
                    cand = [x for x, v in got.items() if v[0] == 'argument']
                else:
                    on0, off0 = splitflags(fl0)
                    cand = [x for x, v in got.items() if v[0] == 'option' and on0 & splitflags(v[1])[0]]
                if len(cand) != 1:
                    out.add('violation', cons, 'declaration', 'documented parameter %s %s is %s'
                            % (p, '/'.join(fl0), 'missing' if not cand else 'ambiguous'), key=q + p)
                    continue
                k1, fl1, ty1, de1, na1, mu1, rq1 = got[cand[0]]
                errs = []
                if k0 == 'option':
                    on1, off1 = splitflags(fl1)
                    if not on0 <= on1 or not off0 <= off1:
                        errs.append('flags %s lost' % sorted((on0 - on1) | (off0 - off1)))
                if ty1 != ty0:
                    errs.append('type %s instead of %s' % (ty1, ty0))
                if de1 != de0 or (type(de1) is bool) != (type(de0) is bool):
                    errs.append('default %r instead of %r' % (de1, de0))
                if na1 != na0:
                    errs.append('takes %s values instead of %s' % (na1, na0))
                if mu1 != mu0:
                    errs.append('multiple=%s' % mu1)
                if rq1 != rq0:
                    errs.append('required=%s' % rq1)
                if errs:
                    out.add('violation', cons, 'declaration', '%s: %s' % (p, '; '.join(errs)), key=q + p)
                else:
                    out.add('ok', cons + ' ' + p, 'declaration', '', key=q + p)
    out.extra['declared_parameters_checked'] = nopt


RULES['C19'].append(declarations)
