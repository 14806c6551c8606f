"""C24, C29: lint of the data files shipped with the package (parsed here, nothing of the package is executed)."""
import ast
import json
import os
import re
import struct

# symbols by atomic number, 1..118 (IUPAC)
PERIODIC = '''H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo
Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At
Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og'''.split()
# elements every released version of the table has
PINNED = {'G'} | set(PERIODIC[:56]) | set(PERIODIC[71:88])
PINNED_NAMES = {'Vacancy': 'G'}


def opened_files(repo, modname):
    """data files named by string constants in a module: [(basename, line)]"""
    m = repo.modules.get(modname)
    out = []
    if m is None:
        return out
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.search(r'\.(json|npy)$', n.value):
            out.append((os.path.basename(n.value), n.lineno))
    return out


def find_data(repo, modname, suffix, out):
    m = repo.modules.get(modname)
    if m is None:
        out.broken.append('module %s not found' % modname)
        return None
    base = os.path.dirname(m.path)
    names = [b for b, _ in opened_files(repo, modname) if b.endswith(suffix)]
    for b in names:
        for d, _, fs in os.walk(base):
            if b in fs:
                return os.path.join(d, b)
    return None


class Dup(Exception):
    pass


def nodup(pairs):
    seen = {}
    for k, v in pairs:
        if k in seen:
            raise Dup(k)
        seen[k] = v
    return seen


def c24(repo, out, tier):
    out.rules.append('data: every entry of the element table is checked against the periodic table and for uniqueness')
    p = find_data(repo, 'ababe.stru.element', '.json', out)
    if p is None:
        out.add('undecided', 'ababe/stru/element.py', 'data', 'the element table was not found as a json file', key='pt.json')
        return
    rel = os.path.relpath(p, repo.root)
    try:
        d = json.load(open(p), object_pairs_hook=nodup)
    except Dup as ex:
        out.add('violation', rel, 'data', 'entry %s occurs twice; the later one silently replaces the first' % ex, key='pt dup %s' % ex)
        return
    except ValueError as ex:
        out.add('violation', rel, 'data', 'not valid json: %s' % ex, key='pt json')
        return
    field = None
    for cand in ('Atomic no', 'Z', 'number', 'atomic_number'):
        if all(isinstance(v, dict) and cand in v for v in d.values()):
            field = cand
            break
    if field is None:
        bad = [k for k, v in d.items() if not isinstance(v, dict) or 'Atomic no' not in v]
        if len(bad) < 5:
            for k in bad:
                out.add('violation', '%s entry %s' % (rel, k), 'data', 'has no atomic number', key='pt %s' % k)
        else:
            out.add('undecided', rel, 'data', 'layout of the table not recognised', key='pt layout')
        return
    byz = {}
    for k, v in sorted(d.items()):
        z = v[field]
        want = 0 if k == 'G' else PERIODIC.index(k) + 1 if k in PERIODIC else None
        if want is None:
            out.add('violation', '%s entry %s' % (rel, k), 'data', 'no such element', key='pt %s' % k)
        elif type(z) is not int or z != want:
            out.add('violation', '%s entry %s' % (rel, k), 'data', 'atomic number %r, the periodic table has %d' % (z, want), key='pt %s' % k)
        elif z in byz:
            out.add('violation', '%s entry %s' % (rel, k), 'data', 'shares its number with %s' % byz[z], key='pt %s' % k)
        else:
            out.add('ok', '%s entry %s' % (rel, k), 'data', 'number %d' % z)
        byz[z] = k
    for k in sorted(PINNED - set(d)):
        out.add('violation', '%s entry %s' % (rel, k), 'data', 'element is missing from the table', key='pt %s' % k)


# ---- buckyball ----------------------------------------------------------------------
def read_npy(p):
    b = open(p, 'rb').read()
    if b[:6] != b'\x93NUMPY':
        raise ValueError('not an npy file')
    if b[6] == 1:
        n, o = struct.unpack('<H', b[8:10])[0], 10
    else:
        n, o = struct.unpack('<I', b[8:12])[0], 12
    h = ast.literal_eval(b[o:o + n].decode('latin1').strip())
    code = {'i8': 'q', 'i4': 'i', 'i2': 'h', 'i1': 'b', 'u1': 'B', 'u2': 'H', 'u4': 'I', 'u8': 'Q', 'f8': 'd'}[h['descr'][1:]]
    end = '>' if h['descr'][0] == '>' else '<'
    shape = h['shape']
    cnt = 1
    for s in shape:
        cnt *= s
    vals = struct.unpack(end + str(cnt) + code, b[o + n:o + n + cnt * struct.calcsize(code)])
    if len(shape) != 2:
        return shape, None
    r, c = shape
    if h['fortran_order']:
        return shape, [[vals[j * r + i] for j in range(c)] for i in range(r)]
    return shape, [list(vals[i * c:(i + 1) * c]) for i in range(r)]


def c29(repo, out, tier):
    out.rules.append('data: all rows of the permutation table, all products of two rows, all site pairs of the coordinates under every row')
    pj = find_data(repo, 'ababe.stru.buckyball', '.json', out)
    pn = find_data(repo, 'ababe.stru.buckyball', '.npy', out)
    if pj is None or pn is None:
        out.add('undecided', 'ababe/stru/buckyball.py', 'data', 'the data files of the module were not found', key='bucky files')
        return
    relj, reln = os.path.relpath(pj, repo.root), os.path.relpath(pn, repo.root)
    n = 60
    rows = None
    try:
        shape, rows = read_npy(pn)
    except Exception as ex:
        out.add('violation', reln, 'data', 'unreadable: %s' % ex, key='npy')
    if rows is not None:
        ident = list(range(n))
        if tuple(shape) != (120, n):
            out.add('violation', reln, 'data', 'table has shape %r, the group has 120 permutations of 60 sites' % (tuple(shape),), key='npy shape')
        bad = 0
        for i, r in enumerate(rows):
            if sorted(r) != ident:
                bad += 1
                out.add('violation', '%s row %d' % (reln, i), 'data', 'not a permutation of the 60 sites', key='npy row %d' % i)
        if not bad:
            S = {tuple(r): i for i, r in enumerate(rows)}
            if len(S) != len(rows):
                out.add('violation', reln, 'data', 'rows are repeated: %d distinct of %d' % (len(S), len(rows)), key='npy dup')
            if tuple(ident) not in S:
                out.add('violation', reln, 'data', 'the identity is missing', key='npy identity')
            miss = None
            for i, a in enumerate(rows):
                for j, b in enumerate(rows):
                    if tuple(a[x] for x in b) not in S:
                        miss = (i, j)
                        break
                if miss:
                    break
            if miss:
                out.add('violation', '%s rows %d, %d' % (reln, miss[0], miss[1]), 'data', 'their product is not in the table', key='npy closed')
            else:
                out.add('ok', reln, 'data', '%d rows, %d products in the table' % (len(rows), len(rows) ** 2))
    try:
        d = json.load(open(pj), object_pairs_hook=nodup)
        lat, pos = d['lattice'], d['positions']
    except Exception as ex:
        out.add('violation', relj, 'data', 'unreadable: %s' % ex, key='bucky json')
        return
    if len(pos) != n or any(len(p) != 3 for p in pos) or len(lat) != 3:
        out.add('violation', relj, 'data', '%d positions, 60 expected' % len(pos), key='bucky count')
        return
    # the module sorts the positions reduced into the cell by x, then y, then z
    key = [tuple(round(round(x, 5) % 1, 3) for x in p) for p in pos]
    order = sorted(range(n), key=lambda i: key[i])
    if len(set(key)) != n:
        out.add('violation', relj, 'data', 'two sites have the same rounded position', key='bucky distinct')
    cart = [[sum(p[k] * lat[k][j] for k in range(3)) for j in range(3)] for p in (pos[i] for i in order)]
    cen = [sum(c[j] for c in cart) / n for j in range(3)]
    rad = [sum((c[j] - cen[j]) ** 2 for j in range(3)) ** .5 for c in cart]
    rm = sum(rad) / n
    for i, r in enumerate(rad):
        if abs(r - rm) > 0.01 * rm:
            out.add('violation', '%s site %d' % (relj, order[i]), 'data', 'distance from the centre %.3f, the others have %.3f' % (r, rm),
                    key='bucky sphere %d' % order[i])
    D = [[sum((a[j] - b[j]) ** 2 for j in range(3)) ** .5 for b in cart] for a in cart]
    dmin = min(D[i][j] for i in range(n) for j in range(n) if i != j)
    for i in range(n):
        k = sum(1 for j in range(n) if i != j and D[i][j] < 1.3 * dmin)
        if k != 3:
            out.add('violation', '%s site %d' % (relj, order[i]), 'data', '%d nearest neighbours instead of 3' % k, key='bucky nn %d' % order[i])
    out.add('ok', relj, 'data', '60 sites, %d pair distances' % (n * (n - 1) // 2))
    if rows is not None and all(sorted(r) == list(range(n)) for r in rows):
        worst = 0
        for i, r in enumerate(rows):
            e = max(abs(D[r[a]][r[b]] - D[a][b]) for a in range(n) for b in range(a))
            if e > 0.05:
                worst += 1
                if worst <= 3:
                    out.add('violation', '%s row %d' % (reln, i), 'data',
                            'the permutation changes interatomic distances of the shipped coordinates by %.2f' % e, key='npy isometry %d' % i)
        if not worst:
            out.add('ok', reln, 'data', 'every row preserves all pair distances of the shipped coordinates')


RULES = {'C24': [c24], 'C29': [c29]}
TECH = {'C24': 'lint of the shipped element table against the periodic table',
        'C29': 'exhaustive lint of the shipped permutation table and coordinates'}
