"""Reference behaviour of ababe.stru.sogen (analysed, never run)."""
import numpy as np
import xxhash
from itertools import combinations
from spglib import get_symmetry
from ababe.stru.scaffold import SitesGrid, CStru, GeneralCell
from ababe.stru.sogen import numbers2id


def key(numbers):
    return xxhash.xxh64(numbers).intdigest()


def choose(cell, sites, n, Z):
    """one candidate per choice of n of the sites"""
    for chosen in combinations(sites, n):
        numbers = cell.numbers.copy()
        for i in chosen:
            numbers[i] = Z
        yield GeneralCell(cell.lattice, cell.positions, numbers)


def choose2(cell, sites, n1, Z1, n2, Z2):
    for c1 in combinations(sites, n1):
        rest = [x for x in sites if x not in c1]
        for c2 in combinations(rest, n2):
            numbers = cell.numbers.copy()
            for i in c1:
                numbers[i] = Z1
            for i in c2:
                numbers[i] = Z2
            yield GeneralCell(cell.lattice, cell.positions, numbers)


def first_of_orbits(perms, cells):
    seen = set()
    for cell in cells:
        if key(cell.numbers) not in seen:
            yield cell
            for p in perms:
                seen.add(key(cell.numbers[p]))


def one_more(gen, Z, eligible):
    seen = set()
    for cell in gen:
        for i, old in enumerate(cell.numbers):
            if eligible(i, old) and old != Z:
                numbers = cell.numbers.copy()
                numbers[i] = Z
                k = key(numbers)
                if k not in seen:
                    yield GeneralCell(cell.lattice, cell.positions, numbers)
                    seen.add(k)


def numbers2id(numbers_arr):
    return xxhash.xxh64(numbers_arr).intdigest()


class OccupyGenerator:
    def __init__(self, general_cell):
        self.init_cell = general_cell
        self.lattice = general_cell.lattice
        self.positions = general_cell.positions
        self.numbers = general_cell.numbers
        self.symmetry_permutation = general_cell.get_symmetry_permutation()
        self.wyckoffs = general_cell.get_wyckoffs()

    def is_equivalent(self, cell_i, cell_other):
        return any(np.array_equal(cell_i.numbers[p], cell_other.numbers)
                   for p in self.init_cell.get_symmetry_permutation())

    def gen_dup_unitary(self, n, sp):
        return choose(self.init_cell, range(self.init_cell.numbers.size), n, sp.Z)

    def gen_dup(self, wy, n, sp):
        sites = [i for i, w in enumerate(self.init_cell.get_wyckoffs()) if w == wy]
        return choose(self.init_cell, sites, n, sp.Z)

    def gen_dup_of_ele(self, ele, n, sp):
        sites = [i for i, e in enumerate(self.init_cell.numbers) if e == ele.Z]
        return choose(self.init_cell, sites, n, sp.Z)

    def gen_2nodup_gen(self, dup_gen):
        return first_of_orbits(self.init_cell.get_symmetry_permutation(), dup_gen)

    def gen_nodup_unitary(self, n, sp):
        return first_of_orbits(self.init_cell.get_symmetry_permutation(), self.gen_dup_unitary(n, sp))

    def gen_nodup(self, wy, n, sp):
        return first_of_orbits(self.init_cell.get_symmetry_permutation(), self.gen_dup(wy, n, sp))

    def gen_nodup_of_ele(self, ele, n, sp):
        return first_of_orbits(self.init_cell.get_symmetry_permutation(), self.gen_dup_of_ele(ele, n, sp))

    def gen_nodup_trinary_alloy(self, sp1, n1, sp2, n2, ele=None):
        nums = self.init_cell.numbers
        if ele is None:
            sites = list(range(nums.size))
        else:
            sites = [i for i, s in enumerate(nums) if s == ele.Z]
        return first_of_orbits(self.init_cell.get_symmetry_permutation(),
                               choose2(self.init_cell, sites, n1, sp1.Z, n2, sp2.Z))

    def gen_add_one_speckle_unitary(self, gen, sp):
        return one_more(gen, sp.Z, lambda i, old: True)

    def gen_add_one_speckle(self, gen, wy, sp):
        seen = set()
        for cell in gen:
            for i, (w, old) in enumerate(zip(self.init_cell.get_wyckoffs(), cell.numbers)):
                if w == wy and old != sp.Z:
                    numbers = cell.numbers.copy()
                    numbers[i] = sp.Z
                    k = key(numbers)
                    if k not in seen:
                        yield GeneralCell(cell.lattice, cell.positions, numbers)
                        seen.add(k)

    def gen_add_one_speckle_of_ele(self, gen, ele, sp):
        return one_more(gen, sp.Z, lambda i, old: old == ele.Z)

    def all_speckle_gen_unitary(self, n, sp):
        level = [self.init_cell]
        for k in range(self.init_cell.get_speckle_num(sp), n):
            level = first_of_orbits(self.init_cell.get_symmetry_permutation(),
                                    self.gen_add_one_speckle_unitary(level, sp))
            yield level

    def all_speckle_gen(self, n, wy, sp):
        level = [self.init_cell]
        for k in range(self.init_cell.get_speckle_num(sp), n):
            level = first_of_orbits(self.init_cell.get_symmetry_permutation(),
                                    self.gen_add_one_speckle(level, wy, sp))
            yield level

    def all_speckle_gen_of_ele(self, n, ele, sp):
        level = [self.init_cell]
        for k in range(self.init_cell.get_speckle_num(sp), n):
            level = first_of_orbits(self.init_cell.get_symmetry_permutation(),
                                    self.gen_add_one_speckle_of_ele(level, ele, sp))
            yield level


def order10(pos):
    red = np.around(np.around(pos, 10) % 1, 3)
    return np.lexsort((red[:, 2], red[:, 1], red[:, 0]))


def order5(pos):
    red = np.around(np.around(pos, 5) % 1, 3)
    return np.lexsort((red[:, 2], red[:, 1], red[:, 0]))


def is_stru_equal(struA, struB, ops):
    a = struA.get_cell()
    b = struB.get_cell()
    ida = str(a[2][order10(a[1])].tolist())
    return any(str(b[2][order10(np.transpose(np.matmul(r, np.transpose(b[1]))) + t)].tolist()) == ida
               for r, t in ops)


def get_new_id_seq(pos, numbers):
    return order5(pos)


def get_permutation_cell(cell):
    sym = get_symmetry(cell, symprec=1e-3)
    return [order5(np.transpose(np.matmul(r, np.transpose(cell[1]))) + t)
            for r, t in zip(sym['rotations'], sym['translations'])]


def gen_nodup_cstru(lattice, sea_ele, size, speckle, num):
    mother = CStru(lattice, SitesGrid.sea(size[0], size[1], size[2], sea_ele))
    perms = get_permutation_cell(mother.get_cell())
    seen = set()
    for s in CStru.gen_speckle(lattice, sea_ele, size, speckle, num):
        occ = s.get_cell()[2]
        if str(list(occ)) not in seen:
            yield s
            for p in perms:
                seen.add(str(list(occ[p])))


def lat_dict(lattice):
    from math import sqrt
    lat = {'bcc': [[-0.5, -0.5, -0.5], [-0.5, 0.5, 0.5], [0.5, -0.5, 0.5]],
           'fcc': [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
           'scc': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
           'triflat': [[0, 0, 20], [1, 0, 0], [0.5, sqrt(3) / 2, 0]]}
    return lat[lattice]


def is_speckle_disjunct(cstru, speckle):
    arr = cstru.get_array()
    shape = np.shape(arr)
    d, w, l = shape[0], shape[1], shape[2]
    pool = np.concatenate((arr, arr[0, :, :].reshape(1, w, l)), axis=0)
    pool = np.concatenate((pool, pool[:, 0, :].reshape(d + 1, 1, l)), axis=1)
    pool = np.concatenate((pool, pool[:, :, 0].reshape(d + 1, w + 1, 1)), axis=2)
    m = np.array(cstru.m)

    def point(i):
        return np.array([m[0][0] * i[0] + m[1][0] * i[1] + m[2][0] * i[2],
                         m[0][1] * i[0] + m[1][1] * i[1] + m[2][1] * i[2],
                         m[0][2] * i[0] + m[1][2] * i[1] + m[2][2] * i[2]])
    points = np.array([point(i) for i in np.argwhere(pool == speckle.Z)])
    dist = [np.linalg.norm(p[0] - p[1]) for p in combinations(points, 2)]
    return min([9999] + dist) > 1.01
