"""C20: where commands create, write and remove files."""
import ast
import os
import terms as tm
from terms import T, NONE, show, subterms
import r_commands as rc

CREATE_DIR = {'os.makedirs', 'os.mkdir'}
FRESHF = {'tempfile.NamedTemporaryFile', 'tempfile.mkstemp'}
REMOVE = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.renames', 'os.replace', 'shutil.move',
          'os.system', 'os.chdir', 'shutil.copyfile', 'shutil.copy', 'shutil.copytree'}


def alts(t):
    t = tm.unbox(t)
    if t.op == 'ite':
        return alts(t.a[1]) + alts(t.a[2])
    return [t]


class Ctx(object):
    def __init__(self):
        self.order = []      # (effect term, loop vars)


def flatten(io, vs, out):
    """effects in order with the loop variables around them"""
    if io.op == 'ite':
        flatten(io.a[1], vs, out)
        flatten(io.a[2], vs, out)
    elif io.op == 'seq':
        for i in io.a:
            if i.op == 'e':
                out.append((i.a[0], vs))
            else:
                flatten(i.a[0], vs, out)
    elif io.op == 'comp':
        cl, tree = tm.open_comp(io)
        flatten(tree, vs + [v for v, _ in cl], out)
    else:
        raise rc.Strange('effects of unknown shape: ' + io.op)


def paths(io):
    """linear effect sequences per alternative (conditions at the top level are separated)"""
    if io.op == 'ite':
        return paths(io.a[1]) + paths(io.a[2])
    r = []
    flatten(io, [], r)
    return [r]


def plain(t):
    """constant text without a path separator"""
    return tm.is_c(t) and isinstance(t.a[0], str) and '/' not in t.a[0] and '..' not in t.a[0]


def own_dir(t):
    """one new component under the current directory, its name starting with fixed text"""
    if t.op == 'f' and t.a[0] == 'os.path.abspath':
        return all(own_dir(x) for x in alts(t.a[1]))
    if t.op == 'f' and t.a[0] == 'os.path.join':
        if len(t.a) != 3:
            return False
        return all(x.op == 'f' and x.a[0] == 'os.getcwd' for x in alts(t.a[1])) and all(own_name(x) for x in alts(t.a[2]))
    return own_name(t)


def own_name(t):
    if plain(t):
        return t.a[0] not in ('', '.')
    return t.op == 'str' and plain(t.a[0]) and bool(t.a[0].a[0]) and all(p.op == 'fmt' or plain(p) for p in t.a)


def scope_of(fr):
    for x in fr.a:
        if isinstance(x, T) and x.op == 'scope':
            return list(x.a)
    return []


def kwget(t, name, pos=None):
    for x in t.a:
        if isinstance(x, T) and x.op == 'kw' and x.a[0] == name:
            return x.a[1]
    return None


def fresh_of(name):
    """the temporary file a name belongs to"""
    if name.op == 'attr' and name.a[1] == 'name' and name.a[0].op == 'fresh':
        return name.a[0]
    if name.op == 'at' and name.a[0].op == 'fresh' and name.a[0].a[0] == 'tempfile.mkstemp' and tm.num(name.a[1]) \
            and name.a[1].a[0] == 1:
        return name.a[0]
    return None


def index_parts(name):
    """variables that appear themselves as parts of a name"""
    out = []
    for x in subterms(name):
        if x.op == 'fmt' and x.a[0].op == 'v':
            out.append(x.a[0])
        if x.op == 'fmt' and x.a[0].op == 'poly':
            vs = [y for y in subterms(x.a[0]) if y.op == 'v']
            out.extend(vs)
    return out


def from_input(t):
    return any(x.op == 'f' and x.a[0] == 'os.path.basename' for x in subterms(t)) or \
        any(x.op in ('m', 'attr') and isinstance(x.a[0], str) and x.a[0] in ('stem', 'name') for x in subterms(t))


def c20(repo, out, tier):
    out.rules.append('file effects of every command: directories are created and cleared only under the current directory with a '
                     'fixed name prefix, nothing is removed after a result was written, every written structure has a file of its '
                     'own (fresh per innermost iteration, kept after closing), single results are named after the input base name; '
                     'typestate of the run directory: created only where absent, cleared only where present, there when written to')
    n = 0
    for q, v in rc.summaries(repo).items():
        if v is None:
            out.add('violation', q, 'file effects', 'the command is gone', key=q)
            continue
        f, I, d, rt, rs, err = v
        cons = '%s %s' % (rc.where(repo, f), q)
        if d is None:
            out.add('undecided', cons, 'file effects', err, key=q)
            continue
        bad, und = [], []
        try:
            for p in paths(d['io']):
                n += len(p)
                check_path(p, bad, und)
            dirstate(d['io'], [{}], bad)
        except rc.Strange as ex:
            und.append(str(ex))
        result_names(repo, q, v, out)
        for b in sorted(set(bad)):
            out.add('violation', cons, 'file effects', b, key=q + ' ' + b[:40])
        for u in sorted(set(und)):
            out.add('undecided', cons, 'file effects', u, key=q)
        if not bad and not und:
            out.add('ok', cons, 'file effects', '', key=q)
    out.extra['file_effects_analysed'] = n


def dir_cond(c):
    if c.op == 'truthy':
        c = c.a[0]
    if c.op == 'f' and c.a[0] in ('os.path.exists', 'os.path.isdir') and len(c.a) == 2:
        return tm.unbox(c.a[1])
    return None


def flag(w, name):
    v = kwget(w, name)
    return v is not None and not (tm.is_c(v) and v.a[0] is False)


def dirstate(io, states, bad):
    """typestate of the run directory (there, not there, unknown) along every path of the effects"""
    if io.op == 'ite':
        d = dir_cond(io.a[0])
        out = []
        for val, t in ((True, io.a[1]), (False, io.a[2])):
            ss = states
            if d is not None:
                ss = [put(x, d, val) for x in states if x.get(d.dig, (None,))[0] in (None, val)]
            if ss:
                out += dirstate(t, ss, bad)
        return merge(out)
    if io.op == 'comp':
        cl, tree = tm.open_comp(io)
        dirstate(tree, states, bad)
        return states
    if io.op != 'seq':
        raise rc.Strange('effects of unknown shape: ' + io.op)
    for i in io.a:
        if i.op != 'e':
            states = dirstate(i.a[0], states, bad)
            continue
        w = i.a[0].a[1] if i.a[0].op == 'io' and len(i.a[0].a) == 2 else None
        if not isinstance(w, T) or any(x.op == 'noexc' for x in subterms(w)):
            continue
        if w.op == 'f' and w.a[0] in CREATE_DIR | {'shutil.rmtree'}:
            d = tm.unbox(w.a[1])
            made = w.a[0] in CREATE_DIR
            lenient = flag(w, 'exist_ok') or flag(w, 'ignore_errors') or flag(w, 'onerror') or \
                len([x for x in w.a[1:] if isinstance(x, T) and x.op != 'kw']) > 1
            chance = any(x.op in ('rand', 'fresh') for x in subterms(d))
            for x in states:
                v = x.get(d.dig, (None,))[0]
                if lenient:
                    continue
                if made and v is True:
                    bad.append('creates the directory %s where it is already there' % show(d, 4))
                elif made and v is None and not chance:
                    bad.append('creates the directory %s, which may be there already' % show(d, 4))
                elif not made and v is False:
                    bad.append('clears the directory %s where there is none' % show(d, 4))
                elif not made and v is None:
                    bad.append('clears the directory %s, which may not be there' % show(d, 4))
            states = [put(x, d, made) for x in states]
        elif w.op == 'fresh':
            dr = kwget(w, 'dir')
            d = tm.unbox(dr) if dr is not None else None
            if d is not None and any(x.get(d.dig, (None,))[0] is not True for x in states) and d.op != 'ite':
                bad.append('on some path the directory %s is not there when a result is written' % show(d, 4))
        elif w.op == 'm' and w.a[0] == 'mkdir':
            raise rc.Strange('mkdir')
    return merge(states)


def put(x, d, val):
    x = dict(x)
    x[d.dig] = (val, d)
    return x


def merge(ss):
    return list({tuple(sorted((k, v[0]) for k, v in x.items())): x for x in ss}.values())


def basename(t):
    return t.op == 'f' and t.a[0] == 'os.path.basename' and len(t.a) == 2 or t.op == 'm' and t.a[0] == 'replace' and basename(t.a[1])


def result_names(repo, q, v, out):
    """results with a name of their own choosing (no temporary file) are named as the reference names them"""
    import specs
    f, I, d, rt, rs, err = v
    cons = '%s %s' % (rc.where(repo, f), q)
    if q.split(':')[1] not in ('atclear', 'perturb', 'supcell', 'pcell') or not rt or 'names' not in rt or rt['names'] is rs['names']:
        return
    if rt['names'].op == 'unknown':
        out.add('undecided', cons, 'result name', 'name %s' % show(rt['names'], 4), key=q + ' names')
        return
    for x in (y.a[0] for t in tm.leaves(rt['names']) if t.op == 'seq' for y in t.a if isinstance(y.a[0], T)):
        if x.op == 'm' and x.a[0] == 'replace' and len(x.a) == 4 and basename(x.a[1]):
            # nothing to replace in a name without the replaced part
            out.add('violation', cons, 'result name', 'an input named without %s is written over: %s' % (show(x.a[2], 3), show(x, 5)), key=q + ' names')
            return
    st, det = specs.classify(repo, {'names': rs['names']}, {'names': rt['names']}, ['names'])
    out.add(st, cons, 'result name', det, key=q + ' names')


def check_path(p, bad, und):
    made = set()
    wrote = False
    for x, vs in p:
        if x.op != 'io' or len(x.a) != 2:
            und.append('effect ' + show(x, 4))
            continue
        w = x.a[1]
        if not isinstance(w, T):
            und.append('effect ' + show(x, 4))
            continue
        if w.op == 'f' and w.a[0] in CREATE_DIR:
            for t in alts(w.a[1]):
                if not own_dir(t):
                    (bad if known_path(t) else und).append('creates a directory at %s' % show(t, 5))
            made.update(alts(w.a[1]))
        elif w.op == 'f' and w.a[0] == 'shutil.rmtree':
            for t in alts(w.a[1]):
                if not own_dir(t):
                    bad.append('removes %s' % show(t, 5))
            if wrote:
                bad.append('removes a directory after results were written: %s' % show(w.a[1], 4))
            if vs:
                bad.append('removes a directory inside the loop over results')
        elif w.op == 'f' and w.a[0] in REMOVE:
            bad.append('effect on other files: %s' % show(w, 5))
        elif w.op == 'fresh':
            dr = kwget(w, 'dir')
            if dr is None:
                pos = [y for y in w.a[1:] if not (isinstance(y, T) and y.op in ('kw', 'scope'))]
                if pos:
                    und.append('temporary file with positional arguments')
                else:
                    bad.append('a result file is created outside the output directory (no dir given)')
            else:
                for t in alts(dr):
                    if t not in made:
                        bad.append('a result file is created outside the directory made for the run: %s' % show(t, 5))
            for kwn in ('prefix', 'suffix'):
                k = kwget(w, kwn)
                for t in alts(k) if k is not None else ():
                    if any(tm.is_c(y) and isinstance(y.a[0], str) and ('/' in y.a[0]) for y in (t.a if t.op == 'str' else (t,))
                           if isinstance(y, T)):
                        bad.append('file name part with a separator: %s' % show(t, 4))
        elif w.op == 'm' and w.a[0] in ('write_file', 'write'):
            wrote = True
            args = [y for y in w.a[2:] if isinstance(y, T)]
            pos = [y for y in args if y.op != 'kw']
            nm = pos[0] if pos else kwget(w, 'fname') or kwget(w, 'filename') or NONE
            for name in alts(nm):
                check_name(name, vs, made, bad, und)
        elif w.op == 'm' and w.a[0] in ('close', 'flush', 'update', 'finish', 'start'):
            pass
        elif w.op == 'f' and w.a[0] in ('os.close', 'builtins.print', 'click.echo', 'sys.exit'):
            pass
        else:
            und.append('effect ' + show(w, 4))


def known_path(t):
    return all(x.op in ('f', 'str', 'fmt', 'c', 'arg', 'm', 'api', 'attr', 'new', 'box', 'ite', 'at', 'join', 'rand', 'scope', 'kw',
                        'is', 'truthy', 'in', 'g', 'concat', 'seq', 'e', 's', 'poly', 'mono', 'file') for x in subterms(t))


def check_name(name, vs, made, bad, und):
    if name is NONE:
        return
    fr = fresh_of(name)
    if fr is not None:
        if fr.a[0] == 'tempfile.NamedTemporaryFile':
            de = kwget(fr, 'delete')
            if de is None or not (tm.is_c(de) and de.a[0] is False):
                bad.append('the result is written to a temporary file that is deleted when it is closed')
        sc = scope_of(fr)
        miss = [v for v in vs if v not in sc]
        if miss:
            bad.append('one file receives several structures: it is created once outside the loop that writes')
        return
    loc = name
    if name.op == 'f' and name.a[0] == 'os.path.join':
        base, loc = name.a[1], name.a[-1]
        if len(name.a) != 3 or not all(t in made or (t.op == 'f' and t.a[0] == 'os.getcwd') for t in alts(base)):
            bad.append('writes outside the run directory: %s' % show(name, 5))
            return
    for t in alts(loc):
        if vs:
            if any(x.op == 'rand' for x in subterms(t)) or any(v not in index_parts(t) for v in vs):
                if known_path_v(t):
                    bad.append('the file name %s does not tell the structures of the run apart' % show(t, 5))
                else:
                    und.append('file name %s' % show(t, 5))
        else:
            if t.op == 'arg' or (t.op == 'f' and t.a[0] == 'click.format_filename'):
                bad.append('writes to the input file')
            elif plain(t):
                bad.append('result file is not named after the input: %s' % show(t, 4))
            elif t.op == 'str':
                if any(tm.is_c(p) and '/' in p.a[0] for p in t.a):
                    bad.append('writes outside the current directory: %s' % show(t, 5))
                elif not from_input(t):
                    (bad if known_path(t) else und).append('result file is not named after the input base name: %s' % show(t, 5))
                elif not any(tm.is_c(p) for p in t.a):
                    bad.append('result file name may equal the input: %s' % show(t, 5))
            else:
                und.append('file name %s' % show(t, 5))


def known_path_v(t):
    return True


# ---- package-wide: who may touch the file system -------------------------------
DESTRUCT = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.renames', 'os.replace', 'shutil.rmtree',
            'shutil.move', 'os.truncate', 'shutil.copy', 'shutil.copyfile', 'shutil.copytree', 'os.chmod', 'os.symlink', 'os.link',
            'os.chdir'}
WRITEF = {'numpy.save', 'numpy.savetxt', 'numpy.savez', 'os.makedirs', 'os.mkdir'} | {'tempfile.NamedTemporaryFile',
                                                                                 'tempfile.mkstemp', 'tempfile.mkdtemp'}


def callpath(repo, mod, node, local):
    f = node.func
    parts = []
    while isinstance(f, ast.Attribute):
        parts.append(f.attr)
        f = f.value
    if not isinstance(f, ast.Name):
        return None
    if f.id in local:
        base = local[f.id]
    else:
        base = repo.lookup(mod, f.id)
        if base is None:
            base = 'builtins.' + f.id if not parts else None
    if not isinstance(base, str):
        return None
    return '.'.join([base] + parts[::-1])


def local_imports(fn):
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def layering(repo, out, tier):
    out.rules.append('who may touch files: only the command applications create or clear directories, only the writer classes open '
                     'files for writing, nothing in the package removes or renames files')
    sites = 0
    for m in repo.modules.values():
        if m.spec:
            continue
        loc = local_imports(m.tree)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            p = callpath(repo, m, n, loc)
            if p is None:
                continue
            rel = '%s:%d' % (os.path.relpath(m.path, repo.root), n.lineno)
            lib = m.name.startswith(('ababe.stru', 'ababe.mlearn')) and m.name != 'ababe.stru.io'
            if p in DESTRUCT:
                sites += 1
                if not (p == 'shutil.rmtree' and m.name.startswith('ababe.cmdline')):
                    out.add('violation', rel, 'layering', '%s in %s' % (p, m.name), key='%s %s' % (m.name, p))
            elif p in WRITEF:
                sites += 1
                if lib or m.name.startswith('ababe.io'):
                    out.add('violation', rel, 'layering', '%s in %s' % (p, m.name), key='%s %s' % (m.name, p))
            elif p in ('builtins.open', 'io.open', 'codecs.open', 'open'):
                sites += 1
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if mode is None:
                    continue
                if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
                    if set(mode.value) & set('wax+') and (lib or m.name.startswith('ababe.cmdline')):
                        out.add('violation', rel, 'layering', 'file opened for writing in %s' % m.name, key='%s open' % m.name)
                    if set(mode.value) & set('ax+') and not lib:
                        out.add('violation', rel, 'layering', 'output file opened with mode %r: old content may survive'
                                % mode.value, key='%s open mode' % m.name)
    out.extra['file_call_sites'] = sites
    if sites < 1:
        out.broken.append('only %d file-system call sites found' % sites)
    out.add('ok', 'ababe/', 'layering', '%d call sites' % sites)


RULES = {'C20': [c20, layering]}
TECH = {'C20': 'file-effect analysis of the command summaries and a who-may-call rule for file-system functions'}
